from stages import *
from terms import rebuild
from rules.p04 import header_field
from rules.p07 import inner_field
from rules.p14 import OUTER, INNER, KDF, TAGS, from_arg

RULE = ("the byte terms written for every header field and dictionary entry are fed to the reading loops' transfer functions: each "
        "field must come back as the field it was written from, every field is written once, and each list ends at its terminator")

ARG = T("sym", "arg1")
NEXT_TAG, NEXT_DATA, REST = T("sym", "#tag"), T("sym", "#data"), T("sym", "#rest")
WRITERS = []     # runs the bytes written come from
ANY_ID = T("sym", "#id")
FOLLOW = cat(T("one", NEXT_TAG), le(4, length(NEXT_DATA)), NEXT_DATA, REST)
LISTS = ("svals", "srefs", "smuts", "cloned", "ivals", "copied", "vals", "iter")


class Ev:
    """Rewrites terms under a substitution, with stream positions resolved to the bytes they denote."""

    def __init__(self, an, env, types=(), maps=None, odd=()):
        self.an, self.env, self.types, self.maps, self.odd = an, dict(env), dict(types), maps or {}, dict(odd)
        self.memo = {}
        self.tables = id_tables(an)

    def go(self, t):
        r = self.env.get(t)
        if r is not None:
            return r
        r = self.memo.get(t)
        if r is None:
            r = self.step(t.op, [self.arg(a) for a in t.args], t)
            self.memo[t] = r
        return r

    def arg(self, a):
        if isinstance(a, Term):
            return self.go(a)
        if isinstance(a, tuple):
            return tuple(self.arg(x) for x in a)
        return a

    def step(self, op, a, old):
        if op == "take":
            return cut(a[0], I(0), a[1]) or (old if same(a, old) else rebuild(op, a))
        if op == "drop":
            return cut(a[0], a[1], length(a[0])) or (old if same(a, old) else drop(*a))
        if op == "trunc":
            return self.trunc(a[0], a[1])
        if op == "unle" and isinstance(a[1], Term) and a[1].op == "le" and a[1].args[0] == a[0]:
            return self.trunc("u%d" % (8 * a[0]), a[1].args[1])
        if op == "unle" and not same(a, old):
            r = rebuild(op, a)
            return self.trunc(*r.args) if r.op == "trunc" else r
        if op == "isv" and a[0].op == "fall" and a[0].args[0] == "uuidof" and is_int(length(a[0].args[2])):
            return TRUE if (length(a[0].args[2]) is I(16)) == (a[1] in ("Ok", "Some")) else FALSE
        if op == "conv":
            return self.conv(a[0], a[1])
        if op == "uuidof":
            return uuid_of(a[0])
        if op == "eq":
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if x in self.odd and is_int(y) and y.args[0] in self.odd[x]:
                    return FALSE
                if x.op == "b2i" and is_int(y) and y.args[0] in (0, 1):
                    return x.args[0] if y.args[0] else not_(x.args[0])
        if op == "haskey" and a[0] in self.maps and a[1].op == "str":
            m = self.maps[a[0]]
            return TRUE if a[1].args[0] in m.keys else (FALSE if m.closed else T(op, *a))
        if op == "mapval" and a[0] in self.maps and a[1].op == "str":
            m = self.maps[a[0]]
            if a[1].args[0] in m.keys:
                return m.keys[a[1].args[0]]
        return old if same(a, old) else rebuild(op, a)

    def trunc(self, ty, x):
        if is_length(x) and tm_width(ty) >= 32:
            return x
        if self.types.get(x) == ty or (x.op == "conv" and x.args[0].endswith("for %s>::from" % ty)):
            return x
        if x.op == "trunc" and tm_width(x.args[0]) >= tm_width(ty):
            return self.trunc(ty, x.args[1])
        if x.op == "trunc" and x.args[0] == ty:
            return x
        return rebuild("trunc", [ty, x])

    def conv(self, path, x):
        tab = self.tables.get(path)
        if tab:
            inv, table, mk = tab[:3]
            if x.op == "conv" and x.args[0] == inv:
                return x.args[1]
            r = mk(x)
            if r is not None:
                return r
            if x is ANY_ID and tab[3]:
                n = [v["name"] for v in self.an.p.adts[tab[3]]["variants"] if v["fields"]]
                if n:
                    return adt(tab[3], n[0], ("0",), (x,))
        return T("conv", path, x)

    def fact(self, k):
        """TRUE, FALSE or None."""
        x = self.go(k)
        if x.op == "isv" and x.args[0].op == "fall":
            # a read, a conversion or a decoding step of well-formed data
            return None
        return x if x is TRUE or x is FALSE else None


def is_length(x):
    return x.op == "len" or (x.op == "lin" and all(t.op == "len" for t, c in x.args[1]))


def same(a, t):
    return all(x is y or (not isinstance(x, Term) and x == y) for x, y in zip(a, t.args))


def tm_width(ty):
    import terms
    return terms.WIDTH.get(ty, 64)


def cut(s, lo, hi):
    """Bytes lo..hi of the finite sequence s when the cuts fall between its parts."""
    if lo is hi:
        return EMPTY
    if s.op in ("sym", "loopv", "f", "vf", "drop", "take"):
        if lo is I(0) and hi is length(s):
            return s
        return None
    r = subseq(s, lo, hi)
    return None if r.op == "sub" and s.op != "sub" else r


def uuid_of(b):
    ps = parts(b)
    if len(ps) == 1 and ps[0].op == "uuidbytes":
        return ps[0].args[0]
    if len(ps) == 16 and all(p.op == "one" and is_int(p.args[0]) for p in ps):
        return T("uuid", "".join("%02x" % p.args[0].args[0] for p in ps))
    return T("uuidof", b)


def id_tables(an):
    """conv path -> (path of the inverse, table, constant conversion) for the identifier conversions P14 checks."""
    if hasattr(an, "_idtables"):
        return an._idtables
    from rules.p14 import STREAM, COMPRESSION, CIPHER, const
    p, out = an.p, {}
    for ty, raw, table in (("OuterHeaderId", "u8", OUTER), ("InnerHeaderId", "u8", INNER),
                           ("InnerStreamCipherAlgorithm", "u32", STREAM), ("CompressionType", "u32", COMPRESSION),
                           ("Cipher", "Uuid", CIPHER), ("KdfAlgorithm", "Uuid", KDF)):
        fwd = [r for r in p.find(ty, "from", "From") if from_arg(r) == raw]
        back = [r for r in p.find(raw, "from", "From") if from_arg(r) == ty]
        if not fwd or not back:
            raise Missing("conversions between %s and %s" % (raw, ty))
        adtp = p.adt(ty)[0]
        names = {const(c): n for n, c in table.items()}

        def read(x, adtp=adtp, names=names):
            return adt(adtp, names[x], (), ()) if x in names else None

        def write(x, table=table):
            n = variant_name(x)
            return const(table[n]) if n in table else None
        out[fwd[0]["path"]] = (back[0]["path"], table, read, adtp)
        out[back[0]["path"]] = (fwd[0]["path"], table, write, None)
    an._idtables = out
    return out


# ------------------------------------------------------------------ what is written

class Item:
    def __init__(self, tag, data, bytes_, mult, elem=None):
        self.tag, self.data, self.bytes, self.mult, self.elem = tag, data, bytes_, mult, elem


class Odd(Exception):
    pass


class Wrong(Exception):
    pass


def resolve(an, t):
    """Replace conversions into header fields by the field they build."""
    for c in list(subterms(t)):
        if c.op == "conv" and "HeaderField" in c.args[0]:
            r = [r for r in an.p.roots if r["path"] == c.args[0]]
            if not r:
                raise Odd("conversion %s not found" % c.args[0])
            run = an.run(r[0])
            if run.incomplete or len(run.outs) != 1:
                raise Odd("conversion %s not understood" % c.args[0])
            WRITERS.append((run.eng, {ARG: c.args[1]}))
            t = subst(t, {c: subst(run.outs[0].ret, {ARG: c.args[1]})})
    return t


def record(an, ps, what):
    """Split the parts of one field (tag, length, data); returns the field and the parts left."""
    if not ps or ps[0].op != "one":
        raise_odd(ps, "%s does not start with an identifier byte" % what)
    tag, ps = ps[0].args[0], ps[1:]
    n, ps = number(ps, what)
    data, ps = upto(ps, n, what)
    return tag, n, data, ps


def raise_odd(ps, why):
    got = cat(*ps[:6]) if ps else EMPTY
    raise (Odd if vague(got, allow=("star", "phi", "loopv", "el")) else Wrong)("%s: %s" % (why, show(got, 4)[:160]))


def number(ps, what):
    """A four-byte little-endian length at the start of ps."""
    if ps and ps[0].op == "le" and ps[0].args[0] == 4:
        x = ps[0].args[1]
        while x.op == "trunc" and tm_width(x.args[0]) >= 32:
            x = x.args[1]
        return x, ps[1:]
    if len(ps) >= 4 and all(x.op == "one" and is_int(x.args[0]) for x in ps[:4]):
        return I(int.from_bytes(bytes(x.args[0].args[0] for x in ps[:4]), "little")), ps[4:]
    raise_odd(ps, "%s has no four-byte little-endian length" % what)


def upto(ps, n, what):
    got, k = I(0), 0
    while got is not n:
        if k == len(ps):
            raise_odd(ps, "the length written for %s is %s, which is not the length of the data that follows" % (what, show(n, 4)[:100]))
        got = add(got, length(ps[k]))
        k += 1
    if n is I(0):
        k = 0
    return cat(*ps[:k]), ps[k:]


def comps(src):
    """Flatten the source of a loop into its parts in order: ('once', value) or ('each', list source)."""
    if src.op == "chain":
        return comps(src.args[0]) + comps(src.args[1])
    if src.op == "once":
        return [("once", src.args[0])]
    if src.op in ("svals", "cloned", "copied", "vals") and isinstance(src.args[0], Term) and src.args[0].op in ("cat", "one"):
        out = []
        for x in parts(src.args[0]):
            out.append(("once", x.args[0]) if x.op == "one" else ("each", T("svals", x)))
        return out
    return [("each", src)]


REDUCE = ("filter", "take", "skip", "step_by", "take_while", "skip_while", "filter_map", "map_while")


def whole(src, what):
    """The list source visits every element of its list, in order."""
    while isinstance(src, Term) and src.op in LISTS + ("map",):
        src = src.args[0]
    if isinstance(src, Term) and src.op in ("f", "vf", "sym", "star", "cat", "mapiter", "ext"):
        return
    if not isinstance(src, Term) or src.op == "path":
        return
    for t in subterms(src):
        if t.op in REDUCE and len(t.args) > 1 and not is_stream(t):
            raise Wrong("%s leaves out elements: %s" % (what, show(src, 3)[:100]))
    raise Odd("elements visited by %s not understood: %s" % (what, show(src, 3)[:100]))


def is_stream(t):
    return t.op == "take" and not any(isinstance(a, Term) and a.op in LISTS + REDUCE for a in t.args)


def spread(x, what):
    """Alternatives of a loop body, with the loop over a list built up front taken apart."""
    alts = list(x.args[1].args) if x.args[1].op == "phi" else [x.args[1]]
    src = x.args[2]
    while src.op in LISTS and isinstance(src.args[0], Term) and src.args[0].op in LISTS:
        src = src.args[0]
    if len(alts) != 1 or src.op not in LISTS or not isinstance(src.args[0], Term) or src.args[0].op != "cat":
        return None
    S_ = src.args[0]
    es = {t for t in subterms(alts[0]) if t.op == "idx" and t.args[0] is S_ and t.args[1].op == "ix"}
    if len(es) != 1:
        return None
    e = es.pop()
    out = []
    for p_ in parts(S_):
        if p_.op == "one":
            out.append(("once", subst(alts[0], {e: p_.args[0]}), None))
        else:
            y = T("idx", p_, T("ix", T("svals", p_), e.args[1].args[1]))
            out.append(("each", subst(alts[0], {e: y}), y))
    return out


def items(an, ps, what):
    """The header fields a byte term consists of, in order."""
    out = []
    while ps:
        x = ps[0]
        if x.op == "star":
            sp = spread(x, what)
            if sp is not None:
                for mult, a, e in sp:
                    tag, n, data, left = record(an, list(parts(a)), what)
                    if left:
                        raise_odd(left, "bytes follow the data of %s" % what)
                    out.append(Item(tag, data, a, mult, e))
                ps = ps[1:]
                continue
            alts = list(x.args[1].args) if x.args[1].op == "phi" else [x.args[1]]
            if EMPTY in alts:
                raise Wrong("%s leaves out some fields" % what)
            cs = comps(x.args[2])
            order = {}
            for a in alts:
                tag, n, data, left = record(an, list(parts(a)), what)
                if left:
                    raise_odd(left, "bytes follow the data of %s" % what)
                its = [t for t in subterms(a) if t.op == "idx" and t.args[1].op == "ix"]
                hit = None
                if its:
                    e = its[0]
                    whole(e.args[1].args[0], what)
                    hit = [i for i, (k, v) in enumerate(cs) if k == "each"]
                    if len(hit) != 1:
                        raise Odd("list written for %s not identified" % what)
                    order.setdefault(hit[0], []).append(Item(tag, data, a, "each", e))
                    continue
                hit = [i for i, (k, v) in enumerate(cs) if k == "once" and field(v, "data") is data]
                if not hit and len(cs) == len(alts) == 1:
                    hit = [0]
                tags = [i for i in hit if tag_of(an, field(cs[i][1], "ty")) is tag_of2(an, tag)]
                hit = tags or hit
                if not hit:
                    raise Odd("field written by %s not identified: %s" % (what, show(a, 4)[:120]))
                for i in hit:
                    order.setdefault(i, []).append(Item(tag, data, a, "once"))
            for i, (k, v) in enumerate(cs):
                if i not in order:
                    if k == "each" and len(cs) == 1:
                        raise Odd("list written by %s not understood" % what)
                    raise Wrong("%s skips %s" % (what, show(v, 4)[:160]))
                out += order[i]
            ps = ps[1:]
        else:
            k = ps
            tag, n, data, ps = record(an, list(ps), what)
            used = len(k) - len(ps)
            out.append(Item(tag, data, cat(*k[:used]), "once"))
    return out


def tag_of(an, ty):
    for path, (inv, table, mk, _) in id_tables(an).items():
        if mk(ty) is not None and "u8" in path:
            return mk(ty)
    return ty


def tag_of2(an, tag):
    if tag.op == "conv":
        return tag_of(an, tag.args[1])
    return tag


# ------------------------------------------------------------------ what is read

class Loop:
    """A reading loop: values of its variables as functions of the bytes that follow its start."""

    def __init__(self, an, eng, L, base, pre=EMPTY, env=(), types=(), odd=()):
        self.an, self.eng, self.info, self.L = an, eng, eng.loops[L], L
        self.base, self.pre, self.extra, self.types, self.odd = base, pre, dict(env), types, odd
        self.bad = None
        self.oks = []

    def vars(self, ts):
        """Loop variables the terms depend on, through the steps."""
        need, todo = set(), [v for t in ts for v in loopvs(t, self.L)]
        while todo:
            v = todo.pop()
            if v in need:
                continue
            need.add(v)
            for s in (self.info["steps"].get(v) or (None, []))[1]:
                if s is not None:
                    todo += loopvs(s, self.L)
        return need

    def at(self, stream):
        """Evaluator for the start of the loop when `stream` follows."""
        return Ev(self.an, {self.base: cat(self.pre, stream), **self.extra}, self.types, odd=self.odd)

    def env(self, stream, need):
        ev = self.at(stream)
        out = {}
        for v in need:
            init = (self.info["steps"].get(v) or (None, []))[0]
            if init is not None:
                out[v] = ev.go(init)
        return out

    def iteration(self, stream, need):
        """Evaluator for one round of the loop and the rounds that can happen."""
        ev = Ev(self.an, {self.base: cat(self.pre, stream), **self.extra, **self.env(stream, need)}, self.types, odd=self.odd)
        hit = []
        for i, b in enumerate(self.info["back"]):
            r = possible(ev, b, lambda k: loopvs(k, self.L))
            if r:
                hit.append(i)
        return ev, hit

    def used(self, ts, stream, need):
        """Variables that decide the values ts or the course of the loop."""
        ev, hit = self.iteration(stream, need)
        out = self.vars(ts)
        sts = self.info["back"] + [s for t, s in self.info["exits"]]
        for b in self.info["back"]:
            for k, x in b.facts.items():
                if not isinstance(k, tuple) and loopvs(k, self.L) and ev.fact(k) is not None and any(s.facts.get(k, x) != x for s in sts):
                    out |= self.vars([k])
        return [v for v in out if v in need and v in self.info["steps"]]

    def succeeds(self, s):
        """Some successful outcome comes from the exit."""
        sts = [o.st for o in self.oks] + [b for L, i in self.eng.loops.items() if L != self.L for b in i["back"]]
        sts = [st for st in sts if any(not isinstance(k, tuple) and loopvs(k, self.L) for k in st.facts)]
        return any(all(st.facts.get(k) == v for k, v in s.facts.items() if not isinstance(k, tuple) and loopvs(k, self.L))
                   for st in sts)

    def leaves(self, ev):
        """Exits of the loop, other than failures, that can happen in the round the evaluator stands for."""
        out = []
        for t, s in self.info["exits"]:
            fails = [k for k, v in s.facts.items() if not isinstance(k, tuple) and k.op == "isv" and k.args[0].op == "fall"
                     and v == (k.args[1] in ("Err", "None"))]
            if not fails and self.succeeds(s) and possible(ev, s, lambda k: loopvs(k, self.L)):
                out.append(s)
        return out

    def inductive(self, stream, rest_, need, used):
        """Every variable used later has the value it would have had when starting at rest_."""
        ev, hit = self.iteration(stream, need)
        want = self.env(rest_, need)
        for i in hit:
            for v in used:
                got = ev.go(self.info["steps"][v][1][i])
                if v in want and got is not want[v]:
                    return (vague(got, allow=("take", "drop")) and "not understood: ") or "", show(got, 6)[:160], show(want[v], 6)[:160]
        return None


def loopvs(t, L):
    return [v for v in free_loopvs(t) if v.args[0] == L] if isinstance(t, Term) else []


def possible(ev, st, about):
    """Can the state happen under the evaluator's assumptions?"""
    for k, v in st.facts.items():
        if isinstance(k, tuple) or not about(k):
            continue
        r = ev.fact(k)
        if r is not None and (r is TRUE) != v:
            return False
    return True


class Reader:
    """Reading side of one header: list of fields, then assignment to the header's own fields."""

    def __init__(self, an, o, hdr, names, ids, oks):
        self.oks = oks
        self.follow = FOLLOW
        self.an, self.o, self.hdr, self.names, self.ids = an, o, hdr, names, ids
        self.eng = o.eng
        self.vals = {f: field(hdr, f) for f in names}
        self.slots = {}
        for f, v in self.vals.items():
            x = v.args[0] if v.op == "vf" and v.args[1] == "Some" else v
            if x.op == "loopv":
                self.slots[f] = x
                continue
            for L, info in self.eng.loops.items():
                for y, z in (info.get("acc") or {}).items():
                    if z is v:
                        self.slots[f] = y
        ls = {x.args[0] for x in self.slots.values()}
        if len(ls) != 1:
            raise Odd("the loop that collects the header fields was not identified")
        self.L = ls.pop()
        self.info = self.eng.loops[self.L]
        self.elem = None
        for b in self.info["back"]:
            for k in b.facts:
                if isinstance(k, tuple) or k.op != "isv":
                    continue
                for t in subterms(k):
                    if t.op == "idx" and t.args[1].op == "ix" and contains(t.args[0], lambda y: y.op == "star") \
                            and k.args[0] is field(t, "ty"):
                        self.elem = t
        self.merged = self.elem is None
        if self.merged:
            self.item, self.list_loop, self.whole = None, self.L, True
            self.rd = self.start(self.L)
            return
        src = self.elem.args[1].args[0]
        while src.op in LISTS and isinstance(src.args[0], Term) and src.args[0] is not self.elem.args[0]:
            src = src.args[0]
        self.whole = src.op in LISTS
        if src.op in ("take", "skip") and is_int(src.args[1]) and not (src.op == "skip" and src.args[1] is I(0)):
            raise Wrong("some fields of the list read are left out: " + show(src, 3)[:100])
        st = self.elem.args[0]
        if st.op == "star" and st.args[1].op == "phi" and EMPTY in st.args[1].args:
            raise Wrong("reading leaves out some fields of the list")
        if st.op != "star" or len(parts(st.args[1])) != 1 or parts(st.args[1])[0].op != "one":
            raise Odd("list of header fields not understood: " + show(st, 3)[:100])
        self.list_loop, self.item = st.args[0], parts(st.args[1])[0].args[0]
        self.rd = self.start(st.args[0])

    def start(self, L):
        """The reading loop, as a function of the bytes at its start."""
        info = self.eng.loops[L]
        if self.merged:
            cs = {t for b in info["back"] for k in b.facts if not isinstance(k, tuple) and k.op == "isv"
                  for t in subterms(k) if t.op == "conv" and loopvs(t, L)}
            if len(cs) != 1:
                raise Odd("header fields are not collected from the list read")
            t = cs.pop()
        else:
            t = field(self.item, "ty")
        tys = loopvs(t, L)
        if tys:
            t = subst(t, {v: info["steps"][v][0] for v in tys if info["steps"].get(v, (None,))[0] is not None})
        while t.op in ("conv", "idx"):
            t = t.args[1] if t.op == "conv" else t.args[0]
        if t.op != "take":
            raise Odd("identifier of a header field not understood: " + show(t, 4)[:100])
        pos = t.args[0]
        base, off = (pos.args[0], pos.args[1]) if pos.op == "drop" else (pos, I(0))
        pre = EMPTY if off is I(0) else T("take", T("sym", "#before"), off)
        lp = Loop(self.an, self.eng, L, base, pre)
        lp.oks = self.oks
        return lp

    def assign(self, ty, data, bytes_):
        """Header fields changed by reading a field: [{name: new value}] for each way the round can go."""
        if self.merged:
            return self.assign_merged(ty, data, bytes_)
        he = adt(self.item.args[0], self.item.args[1], self.item.args[2],
                 tuple(ty if n == "ty" else data for n in self.item.args[2]))
        ev = Ev(self.an, {self.elem: he})
        out = []
        for i, b in enumerate(self.info["back"]):
            if not possible(ev, b, lambda k: mentions(k, self.elem)):
                continue
            ch = {}
            for f, x in self.slots.items():
                v = self.info["steps"][x][1][i]
                if v is not x:
                    ch[f] = (ev.go(v) if v is not None else None, v, b)
            out.append(ch)
        return he, out

    def assign_merged(self, ty, data, bytes_):
        hs = [t for v in self.info["steps"].get(self.slots.get("other_headers"), (None, []))[1] if v is not None
              for t in subterms(v) if t.op == "adt" and t.args[0].endswith("HeaderField")]
        if not hs:
            raise Odd("header fields are not collected from the list read")
        he = adt(hs[0].args[0], hs[0].args[1], hs[0].args[2], tuple(ty if n == "ty" else data for n in hs[0].args[2]))
        ts = [v for x in self.slots.values() for v in self.info["steps"][x][1] if v is not None]
        need = self.rd.vars(ts + [k for b in self.info["back"] for k in b.facts if not isinstance(k, tuple) and loopvs(k, self.L)])
        need -= set(self.slots.values())
        ev, hit = self.rd.iteration(cat(bytes_, self.follow), need)
        out = []
        for i in hit:
            ch = {}
            for f, x in self.slots.items():
                v = self.info["steps"][x][1][i]
                if v is not x:
                    ch[f] = (ev.go(v) if v is not None else None, v, self.info["back"][i])
            out.append(ch)
        return he, out


def check(an, rep, tier):
    for side in (outer, inner):
        try:
            side(an, rep)
        except Odd as e:
            rep.und(side.__name__, "src/binary/header.rs", str(e))
        except Wrong as e:
            rep.bad(side.__name__ + "/layout", "src/binary/header.rs", str(e))
    rep.assumption("field names, values and headers are shorter than 2 GiB, the limit of their length fields")
    rep.assumption("an uninterpreted key-derivation dictionary holds no $UUID entry of its own")


def outer(an, rep):
    p = an.p
    run = an.run(p.one(None, "from_reader"))
    w = loc(run.root)
    if run.incomplete:
        rep.und("outer", w, run.incomplete)
        return
    src = T("sym", "arg1")
    major = unle(2, T("take", drop(src, I(10)), I(2)))
    four = [o for o in run.outs if o.variant() == "Ok" and o.holds(lt(major, I(4))) is False]
    if not four:
        raise Odd("no outcome opens a version 4 archive")
    header = lambda o: field(field(o.payload(), state_field(p)), header_field(an))
    taken = lambda v: (v.args[0] if v.op == "vf" else v).op == "loopv"
    # the outcome in which most fields come straight from the file
    o = max(four, key=lambda o: sum(taken(field(header(o), f)) for f in p.fields("KdbxHeader")))
    h = header(o)
    fields = [f for f in p.fields("KdbxHeader") if f != "stream_start_bytes"]
    rd = Reader(an, o, h, p.fields("KdbxHeader"), OUTER, [x for x in run.outs if x.is_ok()])
    hdr = header_of(an, "Unlocked", S)
    ws = loc(save_run(an).root)
    seen = {}
    for s in saves(an):
        ps = list(parts(cat(*s.writes)))
        stop = next((i for i, x in enumerate(ps) if x.op == "sha256"), None)
        if stop is None or stop < 10:
            raise Odd("header bytes not identified in the output")
        seen.setdefault(tuple(ps[10:stop]), []).append(s.o)
    for body, outs in seen.items():
        side(an, rep, "outer", "the header", rd, list(body), hdr, fields, "OuterHeaderId", OUTER, ws, w, outs=outs)
    rep.count("header_layouts", len(seen))
    if not seen:
        raise Odd("no successful save")


def inner(an, rep):
    p = an.p
    us = [u for u in unlocks(an) if u.v == 4]
    if not us:
        raise Odd("no outcome unlocks a version 4 archive")
    w = loc(unlock_run(an).root)
    inf = inner_field(p)
    fields = p.fields("KdbxInnerHeader")
    sigs = {}
    rds = []
    for u in us:
        rd = Reader(an, u.o, field(u.state, inf), fields, INNER, [x.o for x in us])
        k = (rd.L, rd.list_loop)
        if k not in sigs:
            sigs[k] = rd
            rds.append((u, rd))
    hdr = field(S, inf)
    ws = loc(save_run(an).root)
    seen = {}
    wx = fn_path(p, "write_xml")
    for s in saves(an):
        if s.bytes is None:
            continue
        b = s.bytes
        if len(parts(b)) == 1 and parts(b)[0].op == "gz":
            b = parts(b)[0].args[0]
        ps = list(parts(b))
        stop = next((i for i, x in enumerate(ps) if x.op == "wrote" and x.args[0] == wx), None)
        if stop is None:
            raise Odd("inner header bytes not identified in the payload")
        seen.setdefault(tuple(ps[:stop]), []).append(s.o)
    for body, outs in seen.items():
        for u, rd in rds:
            side(an, rep, "inner", "the inner header", rd, list(body), hdr, fields, "InnerHeaderId", INNER, ws, w, u, outs)
    rep.count("inner_header_layouts", len(seen))
    if not seen:
        raise Odd("no payload of a successful save identified")


def side(an, rep, lab, what, rd, body, hdr, fields, idty, ids, ws, w, u=None, outs=()):
    p = an.p
    idp = p.adt(idty)[0]
    its = [Item(resolve(an, i.tag), resolve(an, i.data), resolve(an, i.bytes), i.mult, i.elem) for i in items(an, body, what)]
    rep.count("fields_written", len(its))
    inv = {c: n for n, c in ids.items()}
    for i in its:
        tag = Ev(an, {}).go(i.tag)
        i.name = inv.get(tag.args[0]) if is_int(tag) else None
        i.unknown = i.name is None
        i.tag = tag
    # identifiers
    for i in its:
        if i.mult == "each":
            e = i.elem
            back = [path for path, (iv, t, mk, _) in id_tables(an).items() if path.endswith("for u8>::from") and idty in path]
            good = i.tag.op == "conv" and i.tag.args[0] in back and i.tag.args[1] is field(e, "ty") and i.data is field(e, "data") \
                and e.args[0] is field(hdr, "other_headers")
            if good:
                rep.ok(lab + "/others", ws, "uninterpreted fields are written with their own identifier and data")
            else:
                (rep.und if vague(i.bytes, allow=("el", "phi")) else rep.bad)(
                    lab + "/others", ws, "an uninterpreted field is written as identifier %s with data %s" % (show(i.tag, 5)[:120], show(i.data, 5)[:120]))
        elif i.unknown:
            (rep.und if vague(i.tag) else rep.bad)(lab + "/identifier", ws, "%s has a field with identifier %s" % (what, show(i.tag, 5)[:120]))
    # terminator
    ends = [k for k, i in enumerate(its) if i.name == "EndOfHeader"]
    if ends == [len(its) - 1]:
        rep.ok(lab + "/terminator", ws, "%s ends with the end field" % what)
    else:
        rep.bad(lab + "/terminator", ws, "%s %s" % (what, "has no end field" if not ends else "goes on after the end field"))
        return
    # the list that is read is the list that is written
    seen_ = [rd.item] if not rd.merged else []
    need = rd.rd.vars(seen_ + [k for b in rd.rd.info["back"] for k in b.facts if not isinstance(k, tuple) and loopvs(k, rd.list_loop)])
    nxt = FOLLOW
    used = rd.rd.used(seen_, cat(its[0].bytes, nxt), need)
    for i in its:
        lab2 = "%s/%s" % (lab, "others" if i.mult == "each" else i.name or "field")
        if i.name == "EndOfHeader":
            ev, hit = rd.rd.iteration(cat(i.bytes, REST), need)
            if hit or not rd.rd.leaves(ev):
                rep.bad(lab2 + "/read", w, "reading does not stop at the end field written")
            else:
                rep.ok(lab2 + "/read", w, "reading stops at the end field written")
                if u is not None:
                    after(an, rep, lab, w, rd, u, cat(i.bytes, REST), need)
            continue
        stream = cat(i.bytes, nxt)
        odd = {i.tag: set(ids.values())} if i.mult == "each" else {}
        rd.rd.odd = odd
        ev, hit = rd.rd.iteration(stream, need)
        if not hit:
            rep.bad(lab2 + "/read", w, "reading stops at the field written")
            continue
        if i.mult != "each" and rd.rd.leaves(ev):
            rep.bad(lab2 + "/read", w, "reading can stop at the field written")
            continue
        wty = field(i.elem, "ty") if i.mult == "each" else adt(idp, i.name, (), ())
        ty = field(ev.go(rd.item), "ty") if not rd.merged else wty
        da = field(ev.go(rd.item), "data") if not rd.merged else i.data
        if (ty is wty or (variant_name(ty) == i.name and i.name)) and da is i.data:
            rep.ok(lab2 + "/read", w, "read back with the same identifier and data")
        else:
            v = vague(ty, allow=("conv",)) or vague(da, allow=("star", "phi", "el", "conv", "take", "drop"))
            (rep.und if v else rep.bad)(lab2 + "/read", w, "written as %s, read back as %s with data %s" % (
                show(i.bytes, 3)[:120], show(ty, 4)[:80], show(da, 5)[:160]))
            continue
        r = rd.rd.inductive(stream, nxt, need, used)
        if r is None:
            rep.ok(lab2 + "/next", w, "the next field is read from where this one ends")
        else:
            (rep.und if r[0] else rep.bad)(lab2 + "/next", w, "%safter this field reading continues with %s, expected %s" % r)
    if not rd.whole:
        rep.und(lab + "/list", w, "not all fields read are known to be used")
    # the fields assigned
    got = {f: [] for f in fields}
    for i in its:
        if i.name == "EndOfHeader":
            continue
        if i.mult == "each":
            others(an, rep, lab, w, rd, i, idp, ids)
            continue
        he, ways = rd.assign(adt(idp, i.name, (), ()), i.data, i.bytes)
        if not ways:
            rep.bad("%s/%s/assigned" % (lab, i.name), w, "the field written as %s is never accepted" % i.name)
            continue
        rep.count("assignments", len(ways))
        for f in fields:
            ch = [c[f] for c in ways if f in c]
            if ch:
                got[f].append((i, ch, len(ch) == len(ways)))
    for f in fields:
        if f == "other_headers":
            if got[f]:
                rep.bad("%s/%s" % (lab, f), w, "the field %s is kept as an uninterpreted field as well" % got[f][0][0].name)
            continue
        want = field(hdr, f)
        k = "%s/%s" % (lab, f)
        if not got[f]:
            rep.bad(k, ws, "%s is not written in any field from which it is read" % f)
            continue
        if len(got[f]) > 1:
            rep.bad(k, ws, "%s is written %d times: %s" % (f, len(got[f]), ", ".join(str(g[0].name) for g in got[f])))
            continue
        i, ch, all_ = got[f][0]
        if f == "kdf_params":
            kdf(an, rep, k, ws, w, rd, i, ch, want)
            continue
        for v, raw, b in ch:
            x = field(variant(v, "Some"), "0") if v is not None and variant_name(v) == "Some" else v
            if x is want or fixed(outs, want, x):
                rep.ok(k, w, "%s is restored from the field it is written to" % f)
            else:
                (rep.und if v is None or vague(x, allow=("conv",)) else rep.bad)(
                    k, w, "%s is written as %s and read back as %s" % (f, show(i.data, 5)[:120], show(x, 6)[:160] if x is not None else "?"))


def fixed(outs, want, x):
    """The value x is the one every save that writes it has already found in the field."""
    n = variant_name(x) if x is not None and x.op == "adt" else None
    return bool(outs) and n is not None and len(x.args) == 3 and all(o.eng.variant_of(o.st, want) == n for o in outs)


def others(an, rep, lab, w, rd, i, idp, ids):
    """Every identifier that is not interpreted is kept in the list of other fields."""
    path, a = an.p.adt(idp.split("::")[-1])
    e = i.elem
    names = [v["name"] for v in a["variants"] if v["name"] != "EndOfHeader"]
    kept = 0
    for n in names:
        vals = tuple(ANY_ID for _ in [v for v in a["variants"] if v["name"] == n][0]["fields"])
        ty = adt(idp, n, tuple(f[0] for f in [v for v in a["variants"] if v["name"] == n][0]["fields"]), vals)
        tag = I(ids[n]) if n in ids else ANY_ID
        raw = cat(T("one", tag), le(4, length(T("sym", "#data"))), T("sym", "#data"))
        he, ways = rd.assign(ty, T("sym", "#data"), raw)
        rd.rd.odd = {tag: set(ids.values())}
        seen_ = [rd.item] if not rd.merged else []
        need = rd.rd.vars(seen_ + [k for b in rd.rd.info["back"] for k in b.facts
                                   if not isinstance(k, tuple) and loopvs(k, rd.list_loop)])
        ev, hit = rd.rd.iteration(cat(raw, FOLLOW), need)
        if rd.rd.leaves(ev):
            rep.bad("%s/stops/%s" % (lab, n), w, "reading can stop at a field %s" % n)
        oth = [c for c in ways if "other_headers" in c]
        if ways and len(oth) == len(ways):
            x = rd.slots["other_headers"]
            for c in oth:
                v = c["other_headers"][0]
                if v is cat(x, T("one", he)):
                    kept += 1
                    rep.ok("%s/kept/%s" % (lab, n), w, "kept in the order read")
                else:
                    (rep.und if v is None or vague(v, allow=("loopv",)) else rep.bad)(
                        "%s/kept/%s" % (lab, n), w, "a field %s is kept as %s" % (n, show(v, 5)[:160] if v is not None else "?"))
        elif not ways:
            rep.bad("%s/kept/%s" % (lab, n), w, "a field %s is never accepted" % n)
        elif not any(c for c in ways):
            rep.bad("%s/kept/%s" % (lab, n), w, "a field %s is dropped when reading" % n)
    if not kept:
        rep.bad(lab + "/kept", w, "uninterpreted fields are not kept")


def after(an, rep, lab, w, rd, u, stream, need):
    """What follows the end field is the database."""
    if u.xml is None or u.xml.op != "rest":
        rep.und(lab + "/end", w, "source of the database not traced")
        return
    pos = u.xml.args[0]
    vs = loopvs(pos, rd.list_loop)
    if not vs:
        rep.und(lab + "/end", w, "position after the inner header not understood")
        return
    ev = Ev(an, rd.rd.env(stream, set(vs)))
    ev.env[rd.rd.base] = cat(rd.rd.pre, stream)
    got = ev.go(pos)
    if got is REST:
        rep.ok(lab + "/end", w, "the database is read from the byte after the end field")
    else:
        (rep.und if vague(got, allow=("take", "drop")) else rep.bad)(lab + "/end", w, "after the inner header reading continues at " + show(got, 5)[:160])


# ------------------------------------------------------------------ key-derivation dictionary

class Map:
    def __init__(self, keys, closed):
        self.keys, self.closed = keys, closed


def map_of(t, eng):
    """Entries of a dictionary built by insertions, and the rest it extends."""
    keys, ext = {}, None
    if t.op == "mapext":
        ext = t.args[1]
        t = t.args[0]
    if t.op == "loopv" and t in eng.loops.get(t.args[0], {}).get("steps", {}):
        # inserting the entries of another dictionary one by one
        init, steps = eng.loops[t.args[0]]["steps"][t]
        st = set(steps)
        if len(st) != 1 or init is None:
            raise Odd("dictionary not understood: " + show(t, 4)[:120])
        x = st.pop()
        if x is None or x.op != "mapset" or x.args[0] is not t or x.args[1].op != "mapkey" or x.args[2].op != "mapvalat" \
                or x.args[1].args != x.args[2].args:
            raise Odd("dictionary not understood: " + show(x if x is not None else t, 4)[:120])
        whole(x.args[1].args[1].args[0], "the dictionary")
        ext, t = x.args[1].args[0], init
    chain = []
    while t.op == "mapset":
        chain.append(t)
        t = t.args[0]
    if t.op in ("f", "vf") and ext is None:
        ext = t
    elif t.op != "map0":
        raise Odd("dictionary not understood: " + show(t, 4)[:120])
    twice = []
    for m in reversed(chain):
        if m.args[1].op != "str":
            raise Odd("dictionary key not understood: " + show(m.args[1], 3)[:80])
        if m.args[1].args[0] in keys:
            twice.append(m.args[1].args[0])
        keys[m.args[1].args[0]] = m.args[2]
    return keys, ext, twice


def kdf(an, rep, k, ws, w, rd, i, ch, want):
    maps = set()
    for v, raw, b in ch:
        for t in subterms(raw):
            if t.op in ("mapval", "haskey", "mapdel"):
                m = t.args[0]
                while m.op == "mapdel":
                    m = m.args[0]
                maps.add(m)
    if len(maps) != 1:
        rep.und(k, w, "dictionary read for the key derivation parameters not identified")
        return
    mp = maps.pop()
    M = dict_layout(an, rep, k, ws, w, rd, i, mp)
    if M is None:
        return
    # the dictionary of each kind of parameters
    roots = [r for r in an.p.roots if M.op == "conv" and r["path"] == M.args[0]]
    if not roots or M.args[1] is not want:
        (rep.und if vague(M, allow=("conv",)) else rep.bad)(k, ws, "the dictionary written is %s" % show(M, 5)[:160])
        return
    run = an.run(roots[0])
    wd = loc(roots[0])
    if run.incomplete:
        rep.und(k, wd, run.incomplete)
        return
    kp, ka = an.p.adt("KdfParams")
    seen = set()
    for d in run.outs:
        n = d.eng.variant_of(d.st, ARG)
        seen.add(n)
        sub_ = d.eng.variant_of(d.st, field(variant(ARG, "Argon2"), "variant")) if n == "Argon2" else None
        lab = "%s/%s" % (k, sub_ or n)
        if n is None:
            rep.und(lab, wd, "kind of parameters not known")
            continue
        try:
            keys, ext, twice = map_of(d.ret, d.eng)
            if ext is not None and ext.op == "comp":
                whole(ext.args[0], "the dictionary written")
        except Odd as e:
            rep.und(lab, wd, str(e))
            continue
        except Wrong as e:
            rep.bad(lab, wd, str(e))
            continue
        if twice:
            rep.bad(lab, wd, "the entry %s is written twice" % ", ".join(twice))
        env = {}
        px = None
        if ext is not None:
            px = [f for f in [field(variant(ARG, n), f[0]) for v in ka["variants"] if v["name"] == n for f in v["fields"]]
                  if ext is f or (ext.op == "comp" and mentions(ext.args[0], f) and ext.args[2].op == "el"
                                  and ext.args[2].args[1] is ext.args[1])]
            if len(px) != 1:
                rep.und(lab, wd, "entries added to the dictionary not understood: " + show(ext, 4)[:160])
                continue
            px = px[0]
        m = Map(keys, ext is None)
        uu = keys.get("$UUID")
        ev = Ev(an, env, maps={mp: m})
        if px is not None:
            u = ev.go(T("uuidof", field(variant(T("mapval", mp, T("str", "$UUID")), "Array"), "0"))) if uu is not None else None
            ev.env[T("mapdel", mp, T("str", "$UUID"))] = px
            conv = [t for v, raw, b in ch for f in b.facts if not isinstance(f, tuple) for t in subterms(f)
                    if t.op == "conv" and mentions(t, mp)]
            if conv:
                ev.env[conv[0]] = T("adt", an.p.adt("KdfAlgorithm")[0], "Unknown", ("0",), u)
        hits = []
        for v, raw, b in ch:
            if possible(ev, b, lambda f: mentions(f, mp)):
                hits.append((v, raw, b))
        rep.count("kdf_cases", len(hits))
        if not hits:
            rep.bad(lab, wd, "the dictionary written for %s is not accepted when read: entries %s" % (
                sub_ or n, ", ".join("%s:%s" % (a, variant_name(b_) or show(b_, 2)[:30]) for a, b_ in sorted(keys.items()))))
            continue
        for v, raw, b in hits:
            got = ev.go(raw)
            got = field(variant(got, "Some"), "0") if variant_name(got) == "Some" else got
            vn = variant_name(got)
            if vn != n:
                (rep.und if vn is None else rep.bad)(lab, wd, "%s is read back as %s" % (n, vn or show(got, 4)[:120]))
                continue
            fs = [f[0] for vv in ka["variants"] if vv["name"] == n for f in vv["fields"]]
            for f in fs:
                x, y = field(variant(got, n), f), field(variant(ARG, n), f)
                if x is y or (f == "variant" and sub_ and variant_name(x) == sub_):
                    rep.ok("%s/%s" % (lab, f), wd, "restored from the entry it is written to")
                elif ext is None and (x is mp or x.op == "mapdel" and x.args[0] is mp):
                    rep.bad("%s/%s" % (lab, f), wd, "the entries of %s.%s are not written" % (n, f))
                else:
                    (rep.und if vague(x, allow=("bin", "un", "bitnot")) else rep.bad)("%s/%s" % (lab, f), wd, "%s.%s is read back as %s" % (n, f, show(x, 5)[:160]))
        if ext is not None:
            rep.judge(lab + "/entries", wd, set(keys) == {"$UUID"}, "all entries are written back",
                      "entries %s are added to an uninterpreted dictionary" % ", ".join(sorted(set(keys) - {"$UUID"})))
    for v in ka["variants"]:
        if v["name"] not in seen and None not in seen:
            rep.bad("%s/%s" % (k, v["name"]), wd, "no dictionary is written for %s" % v["name"])


def known(an, L, piece, val):
    """What the writing loop knows about the truth values held by val when it writes the piece."""
    env = None
    for eng, sub in WRITERS + [(save_run(an).eng, {})]:
        info = eng.loops.get(L)
        for lv, (init, steps) in (info["steps"] if info else {}).items():
            for b, v in zip(info["back"], steps):
                if v is None or subst(v, sub) is not cat(lv, piece):
                    continue
                e = {subst(k, sub): (TRUE if x else FALSE) for k, x in b.facts.items() if not isinstance(k, tuple) and k.op in ("f", "vf")}
                e = {k: x for k, x in e.items() if mentions(k, val)}
                env = e if env is None else {k: x for k, x in env.items() if e.get(k) is x}
    return env or {}


def dict_layout(an, rep, k, ws, w, rd, i, mp):
    """Bytes of the dictionary against the loop that reads it; returns the map that is written."""
    ps = list(parts(i.data))
    st = [j for j, x in enumerate(ps) if x.op == "star"]
    if len(st) != 1 or ps[st[0]].args[2].op != "mapiter":
        (rep.und if vague(i.data, allow=("phi",)) else rep.bad)(k + "/entries", ws, "dictionary bytes are " + show(i.data, 4)[:200])
        return None
    j = st[0]
    pre, star, tail = cat(*ps[:j]), ps[j], cat(*ps[j + 1:])
    M = star.args[2].args[1]
    alts = list(star.args[1].args) if star.args[1].op == "phi" else [star.args[1]]
    if mp.op != "loopv" or mp not in rd.eng.loops.get(mp.args[0], {}).get("steps", {}):
        rep.und(k + "/entries", w, "loop that reads the dictionary not identified")
        return None
    L = mp.args[0]
    info = rd.eng.loops[L]
    data = None
    for v, (init, steps) in info["steps"].items():
        if init is not None and steps and all(x is not None and x.op == "drop" and x.args[0] is v for x in steps):
            data = init.args[0] if init.op == "drop" else init
    if data is None:
        rep.und(k + "/entries", w, "source of the dictionary entries not identified")
        return None
    vpath = [t.args[0] for v in info["steps"][mp][1] if v is not None for t in subterms(v) if t.op == "adt" and t.args[0].endswith("::Value")]
    if not vpath:
        rep.und(k + "/entries", w, "values of the dictionary not identified")
        return None
    va = an.p.adts[vpath[0]]
    rep.judge(k + "/empty", w, info["steps"][mp][0] is T("map0"), "the dictionary starts empty", "the dictionary read does not start empty")
    vts = sorted({t for t in subterms(star) if t.op == "mapvalat" and t.args[0] is M}, key=lambda t: t.id)
    kts = sorted({t for t in subterms(star) if t.op == "mapkey" and t.args[0] is M}, key=lambda t: t.id)
    if len(vts) != 1 or len(kts) != 1:
        rep.und(k + "/entries", ws, "entries written not understood")
        return None
    val, key = vts[0], kts[0]
    types, odd = {}, {}
    for v in va["variants"]:
        for f in v["fields"]:
            types[field(variant(val, v["name"]), f[0])] = f[1]
        if len(v["fields"]) == 2:
            odd[field(variant(val, v["name"]), "0")] = set(TAGS.values()) | {0}
    lp = Loop(an, rd.eng, L, data, pre, types=types, odd=odd)
    lp.oks = rd.oks
    stepterms = [v for v in info["steps"][mp][1] if v is not None]
    need = lp.vars(stepterms + [f for b in info["back"] for f in b.facts if not isinstance(f, tuple) and loopvs(f, L)]) - {mp}
    nxt = cat(T("one", NEXT_TAG), REST)
    inv = {c: n for n, c in TAGS.items()}
    done = set()
    if EMPTY in alts:
        rep.bad(k + "/entries", ws, "some entries of the dictionary are not written")
        alts = [a for a in alts if a is not EMPTY]
    for a in alts:
        tag = parts(a)[0]
        tag = tag.args[0] if tag.op == "one" else None
        n = None
        if tag is not None and is_int(tag):
            n = inv.get(tag.args[0])
        elif tag in odd:
            n = tag.args[1] if tag.op == "vf" else "Unknown"
        # the kind of value is the one whose content is written
        held = sorted({t.args[1] for t in subterms(a) if t.op == "vf" and t.args[0] is val})
        if len(held) == 1:
            kind = held[0]
        elif n:
            kind = n
        else:
            (rep.und if vague(a) else rep.bad)(k + "/value", ws, "an entry is written as " + show(a, 4)[:160])
            continue
        done.add(kind)
        lab = "%s/value/%s" % (k, kind)
        stream = cat(a, nxt)
        ev, hit = lp.iteration(stream, need)
        if not hit:
            (rep.und if vague(a) else rep.bad)(lab, ws, "an entry of type %s written as %s is not accepted when read" % (kind, show(a, 4)[:160]))
            continue
        nf = [f[0] for v in va["variants"] if v["name"] == kind for f in v["fields"]]
        want = adt(vpath[0], kind, tuple(nf), tuple(field(variant(val, kind), f) for f in nf))
        want = subst(want, known(an, star.args[0], a, val))
        rep.count("dictionary_values")
        if lp.leaves(ev):
            rep.bad(lab, w, "reading can stop at an entry of type %s" % kind)
        for h in hit:
            got = ev.go(info["steps"][mp][1][h])
            if got is T("mapset", mp, key, want):
                rep.ok(lab, w, "read back under the same key with the same type and content")
            elif vague(got, allow=("loopv", "mapset")) and not (got.op == "mapset" and not vague(got.args[2])):
                rep.und(lab, w, "entry read not understood: " + show(got, 5)[:200])
            else:
                rep.bad(lab, w, "an entry of type %s is written as %s and read back as %s" % (kind, show(a, 3)[:160], show(got, 5)[:200]))
        r = lp.inductive(stream, nxt, need, lp.used(stepterms, stream, need))
        if r is None:
            rep.ok(lab + "/next", w, "the next entry is read from where this one ends")
        else:
            (rep.und if r[0] else rep.bad)(lab + "/next", w, "%safter this entry reading continues with %s, expected %s" % r)
    for v in va["variants"]:
        if v["name"] not in done:
            rep.bad("%s/value/%s" % (k, v["name"]), ws, "entries of type %s are not written" % v["name"])
    if tail is EMPTY:
        rep.bad(k + "/terminator", ws, "the dictionary is written without a terminator")
        return M
    ev, hit = lp.iteration(tail, need)
    if hit:
        (rep.und if vague(tail) else rep.bad)(k + "/terminator", ws, "reading does not stop at %s after the last entry" % show(tail, 3)[:100])
    else:
        rep.ok(k + "/terminator", ws, "reading stops at the terminator written")
    return M


# ------------------------------------------------------------------ fields read from any file

VALUE, TAG = T("sym", "#value"), T("sym", "#id")
HOLDS = {
    "MasterSeed": "master_seed", "EncryptionIv": "encryption_iv", "StreamStartBytes": "stream_start_bytes",
    "CipherId": "cipher", "CompressionFlags": "compression_type", "KdfParameters": "kdf_params",
    "InnerRandomStreamCipherId": "inner_stream_cipher", "InnerRandomStreamKey": "inner_stream_key",
}
SIZES = {"CipherId": 16, "CompressionFlags": 4, "InnerRandomStreamCipherId": 4}
LONGER = ("InnerRandomStreamCipherId",)


def exposed(an, rep, lab, where, rd, idty, ids, wide):
    """Whatever the file contains, each field becomes the header field of its identifier."""
    idp, a = an.p.adt(idty)
    if not rd.whole:
        rep.und(lab + "/list", where, "not all fields read are known to be used")
    short = {length(VALUE): "u16", length(NEXT_DATA): "u16"} if wide == 2 else {}
    rd.rd.types = short
    rd.follow = follow = cat(T("one", NEXT_TAG), le(wide, length(NEXT_DATA)), NEXT_DATA, REST)
    items_ = [rd.item] if not rd.merged else []
    need = rd.rd.vars(items_ + [k for b in rd.rd.info["back"] for k in b.facts
                                if not isinstance(k, tuple) and loopvs(k, rd.list_loop)])
    for var in a["variants"]:
        n = var["name"]
        tag = I(ids[n]) if n in ids else TAG
        raw = cat(T("one", tag), le(wide, length(VALUE)), VALUE)
        rd.rd.odd = {TAG: set(ids.values())}
        ev, hit = rd.rd.iteration(cat(raw, follow), need)
        key = "%s/%s" % (lab, n)
        if n == "EndOfHeader":
            if hit:
                rep.bad(key, where, "reading goes on after the end field")
            elif rd.rd.leaves(ev):
                rep.ok(key, where, "reading stops at the end field")
            continue
        if not hit:
            rep.bad(key, where, "reading stops at a field %s" % n)
            continue
        ty = adt(idp, n, tuple(f[0] for f in var["fields"]), tuple(TAG for _ in var["fields"]))
        if not rd.merged:
            it = ev.go(rd.item)
            t, d = field(it, "ty"), field(it, "data")
            if n in ids and variant_name(t) != n:
                (rep.und if vague(t, allow=("conv",)) else rep.bad)(
                    key + "/id", where, "identifier %d is taken as %s" % (ids[n], show(t, 4)[:100]))
                continue
            if d is not VALUE:
                (rep.und if vague(d, allow=("take", "drop")) else rep.bad)(
                    key + "/data", where, "the data of a field %s is taken to be %s" % (n, show(d, 6)[:200]))
                continue
            used = rd.rd.used(items_, cat(raw, follow), need)
            r = rd.rd.inductive(cat(raw, follow), follow, need, used)
            if r is not None:
                (rep.und if r[0] else rep.bad)(
                    key + "/next", where, "%safter a field %s reading continues with %s, expected %s" % (r[0], n, r[1], r[2]))
                continue
        f = HOLDS.get(n, "other_headers")
        size = SIZES.get(n)
        value = VALUE if size is None else some_bytes(size)
        he, ways = rd.assign(ty, value, cat(T("one", tag), le(wide, length(value)), value))
        if not ways:
            rep.bad(key, where, "a field %s is never accepted" % n)
            continue
        rep.count("field_cases", len(ways))
        for ch in ways:
            more = [g for g in ch if g != f]
            if f not in ch:
                rep.bad(key, where, "a field %s is not kept as %s%s" % (n, f, ", but as " + ", ".join(more) if more else " in some cases"))
            elif more:
                rep.bad(key, where, "a field %s also changes %s" % (n, ", ".join(more)))
            else:
                assigned(rep, key, where, rd, n, f, he, value, ch[f][0])
        for k in ((0, size - 1) + (() if n in LONGER else (size + 1, 2 * size))) if size else ():
            value = some_bytes(k)
            if any(f in c for c in rd.assign(ty, value, cat(T("one", tag), le(wide, I(k)), value))[1]):
                rep.bad(key + "/length", where, "a field %s of %d bytes is accepted" % (n, k))


def some_bytes(n):
    return cat(*[T("one", T("sym", "#v%d" % i)) for i in range(n)])


def assigned(rep, key, where, rd, n, f, he, value, x):
    if x is None:
        rep.und(key, where, "value of %s not understood" % f)
        return
    if f == "other_headers":
        good = x is cat(rd.slots[f], T("one", he))
    else:
        if variant_name(x) == "Some":
            x = field(variant(x, "Some"), "0")
        want = T("uuidof", value) if f == "cipher" else unle(4, value) if n in SIZES else value
        good = x.op == "adt" if f == "kdf_params" else x.op == "conv" and x.args[1] is want if n in SIZES else x is want
    if good:
        rep.ok(key, where, "a field %s becomes %s" % (n, f))
    else:
        (rep.und if vague(x, allow=("conv", "loopv")) else rep.bad)(key, where, "a field %s becomes %s" % (n, show(x, 6)[:200]))
