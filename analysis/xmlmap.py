"""The document the writer produces, matched against the transitions of the reader.

The writer is summarised as a tree of tokens (start tags with attributes, texts, end tags, one repetition per list, calls
of recursive writers).  The reader is summarised as the transition table of its loops: for each event, which variables
change and how.  The match assigns to every token the transition that accepts it and yields the value each field of the
rebuilt object receives, as a term over the fields of the written object.
"""
import re

from lib import *
import terms as tm

MAX = 4000
LOOP_IN = 600
CODECS = ("decode_uuid", "encode_uuid", "decode_datetime", "encode_datetime")


class Giveup(Exception):
    pass


class Unclosed(Exception):
    pass


def net(toks):
    return sum(1 if t[0] == "start" else (-1 if t[0] == "end" else 0) for t in toks)


def is_cipher(t):
    while t.op == "ksadv":
        t = t.args[0]
    return t.op == "wcs"


# ------------------------------------------------------------------ writer

class Rep:
    """One list written item by item."""
    def __init__(self):
        self.list = self.ix = self.cin = self.cv = None
        self.alts = []
        self.problem = None
        self.skips = None


class Alt:
    def __init__(self, facts, toks, cipher):
        self.facts, self.toks, self.cipher = facts, toks, cipher


class Call:
    def __init__(self, path, args, obj, cin, cout):
        self.path, self.args, self.obj, self.cin, self.cout = path, args, obj, cin, cout


def roles(fn):
    """Position of the document writer/reader, the stream cipher and the other arguments."""
    doc, ciph, rest = None, None, []
    for i in range(1, fn["argc"] + 1):
        ty = fn["locals"][i][0]
        if "EventWriter" in ty or "EventReader" in ty:
            doc = i
        elif re.match(r"^&('\w+ )?mut ", ty):
            ciph = i
        else:
            rest.append(i)
    return doc, ciph, rest


class Writers:
    """Token trees of the writing functions."""

    def __init__(self, an, opaque):
        self.an = an
        self.opaque = opaque
        self.memo = {}
        self.count = 0

    def root(self, path):
        for r in self.an.p.roots:
            if r["path"] == path:
                return r
        raise Giveup("function %s is not available for analysis" % path)

    def alts(self, path):
        """[(Alt)] of the function; object and cipher arguments appear as symbols."""
        if path in self.memo:
            return self.memo[path]
        r = self.root(path)
        run = self.an.run(r, accel=False, loop_in=LOOP_IN, opaque=self.opaque)
        if run.incomplete:
            raise Giveup("%s: %s" % (path, run.incomplete))
        fn = self.an.p.fns[r["key"]]
        doc, ciph, rest = roles(fn)
        out = []
        for o in run.outs:
            if not o.is_ok():
                continue
            seq = None
            if doc is not None:
                w = o.arg(doc)
                seq = w.args[1] if w.op == "xmlw" else (EMPTY if is_sym(w, "arg%d" % doc) else None)
            else:
                ws = [o.eng.snap(o.st, v) for k, v in o.st.mem.items() if k[0] == "X"]
                ws = [w for w in ws if w.op == "xmlw"]
                if len(ws) == 1:
                    seq = ws[0].args[1]
                else:
                    for w in sorted(ws, key=lambda w: len(parts(w.args[1]))):
                        seq = w.args[1]
            if seq is None:
                raise Giveup("%s: the written document is not known" % path)
            toks = self.flatten(run, seq, None, doc, ciph)
            c = o.arg(ciph) if ciph is not None else None
            early = [k for k, v in o.facts() if v and k.op == "lt" and k.args[0].op == "ix"]
            fs = {k: v for k, v in o.facts() if not noise(k)}
            a = Alt(fs, toks, c)
            a.early = early
            out.append(a)
        res = (run, doc, ciph, rest, join(out))
        self.memo[path] = res
        return res

    def flatten(self, run, seq, base, doc, ciph):
        """Tokens of the event sequence (after the part `base`)."""
        ps = list(parts(seq))
        toks = []
        if ps and ps[0] is base:
            ps = ps[1:]
        elif ps and ps[0].op == "loopv":
            info = run.eng.loops[ps[0].args[0]]
            init, steps = info["steps"][ps[0]]
            if init is None or any(s is None for s in steps):
                raise Giveup("list loop in %s is not understood" % info["fn"])
            toks = self.flatten(run, init, base, doc, ciph)
            toks.append(("rep", self.rep(run, info, ps[0], doc, ciph)))
            ps = ps[1:]
        elif base is not None:
            raise Giveup("the order of written events is not understood")
        for p in ps:
            if p.op != "one":
                raise Giveup("written part %s is not understood" % show(p, 4)[:120])
            e = p.args[0]
            if e.op == "xstart":
                toks.append(("start", e.args[0], e.args[1]))
            elif e.op == "xchars":
                toks.append(("text", e.args[0]))
            elif e.op == "xend":
                toks.append(("end",))
            elif e.op == "callout":
                toks.append(("call", self.call(run, e.args[0])))
            else:
                raise Giveup("written event %s is not understood" % show(e, 4)[:120])
        return toks

    def call(self, run, c):
        path, args = c.args[0], c.args[2:]
        r = self.root(path)
        fn = self.an.p.fns[r["key"]]
        doc, ciph, rest = roles(fn)
        objs = [i for i in rest if args[i - 1].op not in ("str", "int", "bool")]
        obj = args[objs[0] - 1] if len(objs) == 1 else None
        cin = args[ciph - 1] if ciph else None
        cout = T("after", path, ciph - 1, c) if ciph else None
        return Call(path, args, obj, cin, cout)

    def adapted(self, R):
        """A loop over a list seen through an iterator adapter."""
        R.problem = "the list behind the loop is not recognised"
        ixs, elems = set(), set()
        for a in R.alts:
            for t in list(tok_terms(a.toks)) + list(a.facts):
                for x in subterms(t):
                    if x.op == "ix":
                        ixs.add(x)
                    elif x.op == "idx" and contains(x.args[1], lambda y: y.op == "ix"):
                        elems.add(x)
        lists = {e.args[0] for e in elems if not contains(e.args[0], lambda y: y.op == "idx")}
        if len(ixs) != 1 or len(lists) != 1:
            return
        ix, l = ixs.pop(), lists.pop()
        src = ix.args[0]
        while src.op in ("skip", "stepby", "filter", "skipwhile", "takewhile", "take"):
            if src.op == "filter":
                # a condition every written item meets
                common = [(k, v) for k, v in R.alts[0].facts.items()
                          if any(mentions(k, e) for e in elems) and all(a.facts.get(k) is v for a in R.alts)]
                if common:
                    R.skips = "only items with %s%s are written" % ("" if common[0][1] else "not ", show(common[0][0], 7))
            elif src.op in ("skip", "stepby") and len(src.args) > 1 and src.args[1].op == "int" \
                    and src.args[1].args[0] > (1 if src.op == "stepby" else 0):
                R.skips = "%s(%d) leaves items of the list out" % (src.op, src.args[1].args[0])
            src = src.args[0]
        if R.skips:
            R.problem = None
            R.list, R.ix, R.bound = l, ix, length(l)

    def rep(self, run, info, lv, doc, ciph):
        R = Rep()
        W = info["W"]
        init, steps = info["steps"][lv]
        cvar = None
        for x, (i, vs) in info["steps"].items():
            if ciph is not None and x.args[1] == "('A', 'arg%d')" % ciph:
                cvar, R.cin = x, i
                csteps = vs
        R.cv = cvar
        for b, st in enumerate(info["back"]):
            new = {k: v for k, v in st.facts.items() if not isinstance(k, tuple) and W.facts.get(k) is not v}
            toks = self.flatten(run, steps[b], lv, doc, ciph)
            fs = {}
            for k, v in new.items():
                if k.op == "lt" and v and R.ix is None and (k.args[0].op == "ix" or counter(info, k.args[0])):
                    R.ix, R.bound = k.args
                if not noise(k) and not (k.op == "lt" and counter(info, k.args[0])):
                    fs[k] = v
            c = csteps[b] if cvar is not None else (info["W"].mem.get(("A", "arg%s" % ciph)) if ciph else None)
            R.alts.append(Alt(fs, toks, c))
        R.alts = join(R.alts)
        if cvar is None and ciph is not None:
            R.cin = R.cv = run.eng.content_of_root(W, ("A", "arg%d" % ciph))
            for a in R.alts:
                a.cipher = R.cin
        if R.ix is None:
            self.adapted(R)
            return R
        lists = set()
        for a in R.alts:
            for t in tok_terms(a.toks):
                for x in subterms(t):
                    if x.op == "idx" and contains(x.args[1], lambda y: y is R.ix):
                        lists.add(x.args[0])
            for k in a.facts:
                for x in subterms(k):
                    if x.op == "idx" and contains(x.args[1], lambda y: y is R.ix):
                        lists.add(x.args[0])
        lists = {l for l in lists if not any(m is not l and contains(l, lambda y, m=m: y.op == "idx" and y.args[0] is m)
                                             for m in lists)}
        if len(lists) != 1:
            R.problem = "the list behind the loop is not recognised"
            return R
        R.list = lists.pop()
        if R.bound is not length(R.list):
            if vague(R.bound) is None:
                R.skips = "the loop covers %s items of %s" % (show(R.bound, 6), show(R.list, 6))
            else:
                R.problem = "the number of items written is not known"
        # a loop that is left with success before the end of the list
        for t, s in info["exits"]:
            if any(v is True and not isinstance(k, tuple) and k is T("lt", R.ix, R.bound) for k, v in s.facts.items()) \
                    and not s.failed and not err_exit(run, s, info):
                R.skips = "the loop can end before the last item of %s" % show(R.list, 6)
        return R


def counter(info, x):
    """A variable that counts 0, 1, 2, ... in the loop."""
    if x not in info["steps"]:
        return False
    init, vs = info["steps"][x]
    return init is I(0) and all(v is tm.add(x, I(1)) for v in vs)


def list_ix(info):
    """Index and bound of a loop over a list."""
    if "listix" not in info:
        c = None
        for st in info["back"]:
            s = {k.args for k, v in st.facts.items() if isinstance(k, Term) and v and k.op == "lt"
                 and k.args[0].op == "ix" and info["W"].facts.get(k) is not v}
            c = s if c is None else c & s
        info["listix"] = c.pop() if c and len(c) == 1 else None
    return info["listix"]


def left_early(L):
    return T("left", T("loopv", L, "#"))


def join(alts):
    """Alternatives that differ in one condition and in literal texts only become one with conditional texts."""
    alts = list(alts)
    again = True
    while again:
        again = False
        for i in range(len(alts)):
            for j in range(i + 1, len(alts)):
                m = join2(alts[i], alts[j])
                if m is not None:
                    alts[i] = m
                    del alts[j]
                    again = True
                    break
            if again:
                break
    return alts


def join2(a, b):
    if len(a.toks) != len(b.toks) or set(a.facts) != set(b.facts):
        return None
    diff = [k for k in a.facts if a.facts[k] is not b.facts[k]]
    if len(diff) != 1:
        return None
    c = diff[0]
    if not a.facts[c]:
        a, b = b, a
    toks = []
    reps = {}
    for x, y in zip(a.toks, b.toks):
        if x[0] != y[0]:
            return None
        if x[0] == "text":
            if x[1] is y[1]:
                toks.append(x)
            elif plain(x[1]) and plain(y[1]):
                toks.append(("text", T("ite", c, x[1], y[1])))
            else:
                return None
        elif x[0] == "start":
            if x != y:
                return None
            toks.append(x)
        elif x[0] == "rep":
            # the same loop, analysed once per way to reach it
            m = same_rep(x[1], y[1])
            if m is None:
                return None
            reps.update(m)
            toks.append(x)
        elif x[0] == "call":
            if x[1].path != y[1].path or x[1].obj is not y[1].obj:
                return None
            toks.append(x)
        else:
            toks.append(x)
    bc = subst(b.cipher, reps) if b.cipher is not None else None
    if bc is not a.cipher:
        return None
    r = Alt({k: v for k, v in a.facts.items() if k is not c}, toks, a.cipher)
    r.early = getattr(a, "early", ()) or getattr(b, "early", ())
    return r


def plain(t):
    return t.op in ("str", "ite") and not free_loopvs(t)


def same_rep(x, y):
    """Renaming of loop variables that turns repetition y into x, or None."""
    if x.problem or y.problem or x.list is not y.list or len(x.alts) != len(y.alts) or x.skips != y.skips:
        return None
    m = {}
    if y.ix is not x.ix:
        m[y.ix] = x.ix
    if y.cv is not None and y.cv is not x.cv:
        m[y.cv] = x.cv

    def f(t):
        return subst(t, m) if m else t
    for a, b in zip(x.alts, y.alts):
        if {f(k): v for k, v in b.facts.items()} != a.facts or len(a.toks) != len(b.toks):
            return None
        for p, q in zip(a.toks, map_toks(b.toks, f)):
            if p[0] != q[0] or (p[0] in ("text", "start") and p != q) or p[0] == "rep":
                return None
            if p[0] == "call" and (p[1].path != q[1].path or p[1].obj is not q[1].obj):
                return None
    return m


def err_exit(run, s, info):
    """The exit belongs to the propagation of a failure."""
    for k, v in s.facts.items():
        if isinstance(k, tuple) or k in info["W"].facts:
            continue
        if k.op == "isv" and k.args[0].op in ("fall", "call"):
            good = v if k.args[1] in ("Ok", "Some", "Continue") else not v
            if not good:
                return True
    return False


def noise(k):
    return k.op == "isv" and k.args[0].op in ("fall", "call") or (k.op == "lt" and k.args[0].op == "ix")


def tok_terms(toks):
    for t in toks:
        if t[0] == "text":
            yield t[1]
        elif t[0] == "start":
            for a in t[2]:
                yield a[0]
                yield a[1]
        elif t[0] == "call":
            yield from t[1].args
        elif t[0] == "rep":
            for a in t[1].alts:
                yield from tok_terms(a.toks)


def map_alt(a, f):
    b = Alt({f(k): v for k, v in a.facts.items()}, map_toks(a.toks, f), f(a.cipher) if a.cipher is not None else None)
    b.early = getattr(a, "early", ())
    return b


def map_toks(toks, f):
    out = []
    for t in toks:
        if t[0] == "text":
            out.append(("text", f(t[1])))
        elif t[0] == "start":
            out.append(("start", f(t[1]), tuple((f(a), f(b)) for a, b in t[2])))
        elif t[0] == "call":
            c = t[1]
            out.append(("call", Call(c.path, [f(x) for x in c.args], f(c.obj) if c.obj is not None else None,
                                     f(c.cin) if c.cin is not None else None,
                                     f(c.cout) if c.cout is not None else None)))
        elif t[0] == "rep":
            r = t[1]
            n = Rep()
            n.problem, n.skips = r.problem, r.skips
            n.list = f(r.list) if r.list is not None else None
            n.ix = f(r.ix) if r.ix is not None else None
            n.cin = f(r.cin) if r.cin is not None else None
            n.cv = f(r.cv) if r.cv is not None else None
            n.alts = [map_alt(a, f) for a in r.alts]
            out.append(("rep", n))
        else:
            out.append(t)
    return out


# ------------------------------------------------------------------ token stream

class Node:
    __slots__ = ("id", "tok", "next", "inst", "off")


class Inst:
    """One expansion of a writing function."""
    def __init__(self, path, obj, cin, cout, end):
        self.path, self.obj, self.cin, self.cout, self.end = path, obj, cin, cout, end


XE = "xml::reader::XmlEvent"
WS = T("str", "\n")


def owned(name):
    return adt("xml::name::OwnedName", "OwnedName", ("local_name", "namespace", "prefix"), (name, NONE, NONE))


def event(tok, text="Characters"):
    k = tok[0]
    if k == "start":
        at = [T("one", adt("xml::attribute::OwnedAttribute", "OwnedAttribute", ("name", "value"), (owned(a), b)))
              for a, b in tok[2]]
        return adt(XE, "StartElement", ("name", "attributes", "namespace"), (owned(tok[1]), cat(*at), T("sym", "ns")))
    if k == "end":
        return adt(XE, "EndElement", ("name",), (owned(tok[1]),))
    if k in ("text", "ws"):
        return adt(XE, text, ("0",), (tok[1],))
    if k == "doc":
        return adt(XE, "StartDocument", ("version", "encoding", "standalone"), (T("sym", "v"), T("sym", "e"), NONE))
    if k == "enddoc":
        return adt(XE, "EndDocument", (), ())
    raise Giveup(k)


class Match:
    def __init__(self, an, rep, exact_cipher):
        self.an, self.rep = an, rep
        self.exact = exact_cipher
        path = {n: an.p.one(None, n)["path"] for n in CODECS}
        self.opaque = frozenset(path.values())
        # each decoder inverts its encoder: established by the rule for the codecs
        self.codec = {path["decode_uuid"]: path["encode_uuid"], path["decode_datetime"]: path["encode_datetime"]}
        opaque = self.opaque
        self.text_as = "Characters"
        self.split = False
        self.wr = Writers(an, opaque)
        self.nodes = {}
        self.pairs = {}
        self.todo = []
        self.insts = 0
        self.depth = 0
        self.readers = {r["path"]: r for r in an.p.roots
                        if any("EventReader" in an.p.fns[r["key"]]["locals"][i][0]
                               for i in range(1, an.p.fns[r["key"]]["argc"] + 1))}
        self.prim_memo = {}
        self.ixloop = {}
        self.ready = set()
        self.loop_memo = {}
        self.events_matched = 0
        self.steps = 0

    # ---- stream construction
    def node(self, tok, nxt, inst=None, off=None):
        n = Node()
        n.id = len(self.nodes)
        n.tok, n.next, n.inst, n.off = tok, nxt, inst, off
        self.nodes[n.id] = n
        return n

    def at(self, n):
        return T("at", n.id)

    def rename(self, inst, run):
        """Writer terms made distinct from reader terms."""
        memo = {}

        def f(t):
            m = {}
            for x in subterms(t):
                if x.op == "loopv":
                    r = T("wcs", inst, x.args[0]) if self.cipher_loc(x, run) else T("wv", inst, x.args[0], x.args[1])
                    m[x] = r
                elif x.op == "ix":
                    m[x] = T("wix", inst, x.args[0], x.args[1])
                elif x.op == "after":
                    m[x] = T("wcs", inst, "after", x.args[0], x.args[2].id)
            return subst(t, m, {}) if m else t
        return f

    def cipher_loc(self, x, run):
        for i, r in self._ciph.items():
            if x.args[1] == "('A', 'arg%d')" % i and r == run.root["path"]:
                return True
        return False

    def expand(self, path, args, obj, cin, cout, nxt):
        """[(facts, first node, Inst)] for a call of a writing function."""
        run, doc, ciph, rest, alts = self.wr.alts(path)
        nets = {net(a.toks) for a in alts}
        if len(nets) > 1 and 0 in nets:
            self.rep.bad("closed:" + self.ctxname, loc(run.root), "%s closes its elements on some paths only" % path)
            alts = [a for a in alts if net(a.toks) == 0]
        self.insts += 1
        inst_no = self.insts
        self._ciph = {ciph: path} if ciph else {}
        ren = self.rename(inst_no, run)
        m = {}
        for i in range(1, self.an.p.fns[run.root["key"]]["argc"] + 1):
            s = T("sym", "arg%d" % i)
            if i == ciph:
                m[s] = cin
            elif i != doc and args is not None and args[i - 1] is not None:
                m[s] = args[i - 1]
        out = []
        for a in alts:
            self._ciph = {ciph: path} if ciph else {}

            def f(t):
                return subst(ren(t), m, {})
            b = map_alt(a, f)
            if any((k is TRUE and not v) or (k is FALSE and v) for k, v in b.facts.items()):
                continue
            end = self.node(("callend",), nxt)
            ins = Inst(path, obj, cin, cout if cout is not None else b.cipher, end)
            ins.final = b.cipher
            end.inst = ins
            ins.tag = b.toks[0][1] if b.toks and b.toks[0][0] == "start" else None
            first = self.chain(b.toks, end, ins)
            out.append(({k: v for k, v in b.facts.items() if k.op != "bool"}, first, ins, b))
        return out

    def chain(self, toks, end, inst=None):
        """Linked nodes for the tokens, with indentation between elements."""
        seq = []
        stack = []
        prev = None
        for j, t in enumerate(toks):
            if t[0] == "start":
                if prev != "text" and not (prev is None and inst is not None):
                    seq.append((("ws", WS), None))
                stack.append(t[1])
                seq.append((t, j))
            elif t[0] == "end":
                name = stack.pop() if stack else None
                if name is None:
                    raise Unclosed("an end tag without a start tag is written")
                if prev not in ("text", "start"):
                    seq.append((("ws", WS), None))
                seq.append((("end", name), j))
            elif t[0] == "text" and self.split and self.maybe_empty(t[1]):
                seq.append((("text", T("half", t[1], 0)), j))
                seq.append((("text", T("half", t[1], 1)), j))
            else:
                seq.append((t, j))
            prev = t[0]
        if stack:
            raise Unclosed("the element %s is not closed by the function that opens it" % show(stack[-1], 3))
        nxt = end
        for t, j in reversed(seq):
            nxt = self.node(t, nxt, inst, j)
        # offsets count from the first token
        return nxt

    # ---- evaluation
    def ev(self, t, env):
        memo = {}

        def go(x):
            r = env.get(x)
            if r is not None:
                return r
            r = memo.get(x)
            if r is not None:
                return r
            if not x.args:
                r = x
            elif x.op in ("bool", "int", "str", "sym", "at", "wcs", "wv"):
                r = x
            else:
                na = [goa(a) for a in x.args]
                r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na)
                r = self.rewrite(r, env, go)
            memo[x] = r
            return r

        def goa(a):
            if isinstance(a, Term):
                return go(a)
            if isinstance(a, tuple):
                out = tuple(goa(y) for y in a)
                return a if all(p is q for p, q in zip(out, a)) else out
            return a
        return go(t)

    def rewrite(self, x, env, go):
        o, a = x.op, x.args
        if o == "xr":
            return env.get("doc") or x
        if o == "xadv" and a[0].op == "at":
            n = self.nodes[a[0].args[0]]
            return self.at(n.next) if n.next is not None else T("eof")
        if o == "xev" and a[0].op == "at":
            n = self.nodes[a[0].args[0]]
            if n.tok[0] in ("start", "end", "text", "ws", "doc", "enddoc"):
                return event(n.tok, self.text_as)
            return x
        if o == "fall":
            if a[0] in ("xnext", "xwrite", "keystream"):
                return ok(a[1])
            if a[0] == "b64dec" and a[1].op != "b64dec":
                return ok(a[1])
            if a[0] == "utf8" and self.stringy(a[1]):
                return ok(a[1])
            if a[0] == "parse" and a[1].op != "parsed":
                return ok(a[1])
            return x
        if o == "call" and isinstance(a[0], str) and a[0] in self.opaque and len(a) == 3:
            inner = a[2]
            pair = self.codec.get(a[0])
            if pair and inner.op == "call" and inner.args[0] == pair:
                return some(inner.args[2])
            return x
        if o in ("trim", "lower", "upper"):
            y = a[0]
            if y is EMPTY:
                return y
            if y.op == "str":
                s = y.args[0]
                s = s.strip() if o == "trim" else (s.lower() if o == "lower" else s.upper())
                return T("str", s) if s else EMPTY
            if y.op == "ite":
                return T("ite", y.args[0], *[self.rewrite(T(o, z), env, go) for z in y.args[1:]])
            if o == "trim" and (y.op in ("tostr", "b64enc") or (y.op == "call" and y.args[0] in self.opaque)):
                return y
            return x
        if o == "b64dec" and a[1].op == "b64enc" and b64_fits(a[0], a[1].args[0]):
            return a[1].args[1]
        if o == "parsed" and a[1].op == "tostr" and a[1].args[1] == a[0]:
            return a[1].args[0]
        if o == "ks" and a[1].op == "ks":
            if a[0] is a[1].args[0] or not self.exact:
                return a[1].args[1]
            return x
        if o == "eq":
            for p, q in ((a[0], a[1]), (a[1], a[0])):
                if p.op == "str" and q.op == "str":
                    return B(p.args[0] == q.args[0])
                if p is EMPTY and q.op == "str":
                    return B(q.args[0] == "")
                if p.op == "ite" and q.op in ("str", "bool", "int"):
                    r = [self.rewrite(eq(z, q), env, go) for z in p.args[1:]]
                    if r[0] is TRUE and r[1] is FALSE:
                        return p.args[0]
                    if r[0] is FALSE and r[1] is TRUE:
                        return tm.not_(p.args[0])
                    if r[0] is r[1]:
                        return r[0]
            return x
        if o == "cat" and self.split:
            for i in range(len(a) - 1):
                if a[i].op == "half" and a[i + 1].op == "half" and a[i].args == (a[i + 1].args[0], 0):
                    return cat(*a[:i], a[i].args[0], *a[i + 2:])
            return x
        if o == "isv" and a[0].op == "adt":
            return B(a[0].args[1] == a[1])
        return x

    def stringy(self, t):
        """Text that came out of the object: valid UTF-8."""
        return t.op in ("f", "vf", "str", "tostr", "wstr") or t is EMPTY

    # ---- facts
    def truth(self, c, K):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        v = K.get(c)
        if v is not None:
            return v
        if c.op == "not":
            v = self.truth(c.args[0], K)
            return None if v is None else not v
        if c.op == "isv":
            for k, v in K.items():
                if k.op == "isv" and k.args[0] is c.args[0] and v and k.args[1] != c.args[1]:
                    return False
        if c.op == "eq":
            for p, q in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                if p.op == "len" and q is I(0):
                    if K.get(eq(length(p.args[0]), I(0))) is not None:
                        return K[eq(length(p.args[0]), I(0))]
                if p is EMPTY:
                    v = K.get(eq(length(q), I(0)))
                    if v is not None:
                        return v
        return None

    def prims(self, t):
        """Reading steps a term depends on: loops and calls of reading functions."""
        r = self.prim_memo.get(t)
        if r is None:
            r = set()
            for x in subterms(t):
                if x.op == "loopv":
                    r.add(("loop", x.args[0]))
                elif x.op == "call" and isinstance(x.args[0], str) and x.args[0] in self.readers:
                    r.add(("call", x))
                elif x.op == "ix" and x in self.ixloop:
                    r.add(("loop", self.ixloop[x]))
            r = frozenset(r)
            self.prim_memo[t] = r
        return r

    def prepare(self, run):
        """Loops over plain lists in a reading function."""
        if id(run) in self.ready:
            return
        self.ready.add(id(run))
        for L, info in run.eng.loops.items():
            li = list_ix(info)
            if li:
                self.ixloop[li[0]] = L
                self.prim_memo = {}

    def facts_of(self, st, W=None, eng=None):
        out = []
        if eng is not None:
            # how the list loops on the way were left
            for t in st.trace:
                if t[0] == "loop" and (W is None or t not in W.trace) and t[1] in eng.loops:
                    info = eng.loops[t[1]]
                    li = list_ix(info)
                    if li and info["W"] is not W:
                        early = st.facts.get(T("lt", *li)) is True
                        out.append((left_early(t[1]), early))
        for k, v in st.facts.items():
            if isinstance(k, tuple):
                continue
            if W is not None and W.facts.get(k) is v:
                continue
            out.append((k, v))
        return out

    def settle(self, eng, facts, terms, env, K):
        """Evaluate facts (running the loops and calls they need). Returns the branches [(env, K)] where all hold."""
        br = [(env, K, list(facts))]
        out = []
        while br:
            self.steps += 1
            if self.steps > 400000:
                raise Giveup("too many steps")
            env, K, fs = br.pop()
            bound = env["bound"]
            # quantified facts over literal attribute lists
            env, fs, dead = self.quantified(fs, env, K, bound)
            if dead:
                continue
            rest, unknown, dead = [], [], False
            for k, v in fs:
                if self.prims(k) - bound:
                    rest.append((k, v))
                    continue
                c = self.truth(self.ev(k, env), K)
                if c is None:
                    unknown.append((self.ev(k, env), v))
                elif c is not v:
                    dead = True
                    break
            if dead:
                continue
            if unknown:
                K = dict(K)
                for c, v in unknown:
                    while c.op == "not":
                        c, v = c.args[0], not v
                    K[c] = v
            need = set()
            for k, v in rest:
                need |= self.prims(k) - bound
            for t in terms:
                need |= self.prims(t) - bound
            if not need:
                out.append((env, K))
                continue
            ready = None
            for pr in sorted(need, key=lambda z: (z[0], z[1] if z[0] == "loop" else z[1].id)):
                if pr[0] == "loop":
                    info = eng.loops.get(pr[1])
                    if info is None:
                        raise Giveup("loop not recorded")
                    deps = set()
                    for x, (i, vs) in info["steps"].items():
                        if i is not None:
                            deps |= self.prims(i)
                else:
                    deps = set()
                    for x in pr[1].args[2:]:
                        deps |= self.prims(x)
                if not deps - bound:
                    ready = pr
                    break
            if ready is None:
                # the inputs of a step need further steps first
                extra = set()
                for pr in need:
                    if pr[0] == "loop":
                        for x, (i, vs) in eng.loops[pr[1]]["steps"].items():
                            if i is not None:
                                extra |= self.prims(i) - bound - need
                for pr in extra:
                    deps = set()
                    if pr[0] == "loop":
                        for x, (i, vs) in eng.loops[pr[1]]["steps"].items():
                            if i is not None:
                                deps |= self.prims(i) - bound
                    else:
                        for x in pr[1].args[2:]:
                            deps |= self.prims(x) - bound
                    if not deps:
                        ready = pr
                        break
            if ready is None:
                raise Giveup("the order of reading steps is not understood")
            for env2, K2 in self.do_prim(eng, ready, env, K):
                br.append((env2, K2, rest))
        return out

    def quantified(self, fs, env, K, bound):
        """Facts about the existence of an attribute, decided on the attributes the writer gives."""
        out, dead = [], False
        skip = set()
        for k, v in fs:
            if k.op == "exists" and not (self.prims(k) - bound):
                ix = k.args[2]
                hit = self.exists(k, env, K)
                if hit is None:
                    out.append((k, v))
                    continue
                if (hit >= 0) is not v:
                    return env, [], True
                if v:
                    env = dict(env)
                    env[ix] = I(hit)
                continue
            if k.op == "first":
                continue
            out.append((k, v))
        return env, out, dead

    def exists(self, k, env, K):
        """Index of the first literal element meeting the condition, -1 if none, None if not known."""
        ix = k.args[2]
        lists = set()
        for a in k.args[3:]:
            for x in subterms(a):
                if x.op == "idx" and x.args[1] is ix:
                    lists.add(self.ev(x.args[0], env))
        if len(lists) != 1:
            return None
        l = lists.pop()
        n = length(l)
        if n.op != "int":
            return None
        for i in range(n.args[0]):
            e2 = dict(env)
            e2[ix] = I(i)
            any_unknown = False
            for a in k.args[3:]:
                good = True
                for c, v in a.args[0]:
                    r = self.truth(self.ev(c, e2), K)
                    if r is None:
                        good = None
                    elif r is not v:
                        good = False
                        break
                if good:
                    return i
                if good is None:
                    any_unknown = True
            if any_unknown:
                return None
        return -1

    # ---- reading steps
    def do_prim(self, eng, pr, env, K):
        if pr[0] == "loop":
            out = []
            for cur, K2 in self.run_loop(eng, pr[1], env, K):
                e2 = dict(env)
                e2.update(cur)
                e2["bound"] = env["bound"] | {pr}
                out.append((e2, K2))
            return out
        c = pr[1]
        args = [self.ev(a, env) for a in c.args[2:]]
        out = []
        for res, after, K2 in self.run_call(c.args[0], args, K):
            e2 = dict(env)
            e2[c] = res
            for i, v in after.items():
                e2[T("after", c.args[0], i, c)] = v
            e2["bound"] = env["bound"] | {pr}
            out.append((e2, K2))
        return out

    def reader_run(self, path):
        r = self.readers[path]
        run = self.an.run(r, accel=False, loop_in=LOOP_IN, opaque=self.opaque)
        if run.incomplete:
            raise Giveup("%s: %s" % (path, run.incomplete))
        return run, roles(self.an.p.fns[r["key"]])

    def skip(self, n):
        while n.tok[0] == "callend":
            n = n.next
        return n

    def run_call(self, path, args, K):
        """[(result, {arg index: value afterwards}, K)] of a reading function called on the stream."""
        run, (doc, ciph, rest) = self.reader_run(path)
        pos = args[doc - 1]
        if pos.op == "eof":
            self.lost("the reader waits past the end of the document", {"fn": path})
            return []
        if pos.op != "at":
            raise Giveup("reader position not known at the call of " + path)
        n = self.nodes[pos.args[0]]
        lit = tuple(args[i - 1] for i in rest)
        j = n
        hops = 0
        while j.tok[0] == "ws":
            j = j.next
            hops += 1
        inst = j.inst
        if inst is not None and inst.obj is not None and j.off == 1 and inst.tag is not None and n.tok[0] != "callend":
            key = (inst.path, inst.tag, path, lit)
            if key not in self.pairs:
                self.pairs[key] = True
                self.todo.append(key)
            after = {doc - 1: self.at(inst.end)}
            if ciph is not None:
                self.cipher_eq(args[ciph - 1], inst.cin, "%s: key stream position when reading %s" % (path, self.path(inst.obj)),
                               self.path(inst.obj) + ":before")
                after[ciph - 1] = inst.cout
            return [(ok(inst.obj), after, K)]
        self.depth += 1
        if self.depth > 12:
            raise Giveup("nested reading calls are not matched by nested writing calls")
        try:
            return self.run_body(run, doc, ciph, args, K)
        finally:
            self.depth -= 1

    def run_body(self, run, doc, ciph, args, K, docpos=None):
        self.prepare(run)
        env = {"bound": frozenset()}
        for i, a in enumerate(args):
            if a is not None:
                env[T("sym", "arg%d" % (i + 1))] = a
        if docpos is not None:
            env["doc"] = docpos
        out = []
        for o in run.outs:
            ret = o.ret
            terms = [ret]
            if doc is not None:
                terms.append(o.arg(doc))
            if ciph is not None:
                terms.append(o.arg(ciph))
            for e2, K2 in self.settle(run.eng, self.facts_of(o.st, None, run.eng), terms, env, K):
                after = {}
                if doc is not None:
                    after[doc - 1] = self.ev(o.arg(doc), e2)
                if ciph is not None:
                    after[ciph - 1] = self.ev(o.arg(ciph), e2)
                out.append((self.ev(ret, e2), after, K2))
        return out

    def run_loop(self, eng, L, env, K):
        """Bindings of the loop's variables in its last iteration, for every way the loop can end on the stream."""
        info = eng.loops[L]
        cur = {}
        for x, (i, vs) in info["steps"].items():
            cur[x] = self.ev(i, env) if i is not None else T("undef", L, x.args[1])
        key = (L, id(eng), tuple(v.id for v in cur.values()), frozenset((k.id, v) for k, v in K.items()),
               tuple((env[x].id if x in env else None) for x in self.refs(info)))
        r = self.loop_memo.get(key)
        if r is None:
            rv = [x for x, v in cur.items() if v.op == "at"]
            if len(rv) != 1:
                r = self.run_list_loop(eng, info, cur, env, K)
            else:
                r = self.iterate(eng, info, cur, env, K, rv[0], None)[0]
            self.loop_memo[key] = r
        return r

    def refs(self, info):
        """Outer values the transitions of a loop refer to."""
        if "refs" not in info:
            out = set()
            seen = set()
            todo = [k for st in info["back"] for k in st.facts if isinstance(k, Term)]
            todo += [k for t, st in info["exits"] for k in st.facts if isinstance(k, Term)]
            todo += [v for i, vs in info["steps"].values() for v in vs if v is not None]
            for t in todo:
                for x in subterms(t, None):
                    if x.op in ("loopv", "ix", "sym", "after", "call") and x not in info["steps"]:
                        out.add(x)
            info["refs"] = sorted(out, key=lambda x: x.id)
        return info["refs"]

    def iterate(self, eng, info, cur, env, K, rv, stop):
        L = info["id"]
        W = info["W"]
        if "tab" not in info:
            tab = []
            for b, st in enumerate(info["back"]):
                step = {x: vs[b] for x, (i, vs) in info["steps"].items()}
                tab.append((self.facts_of(st, W, eng), step))
            for t, st in info["exits"]:
                tab.append((self.facts_of(st, W, eng), None))
            info["tab"] = tab
        done, body = [], []
        work = [(cur, K)]
        seen = 0
        while work:
            seen += 1
            if seen > MAX:
                raise Giveup("too many alternatives")
            cur, K = work.pop()
            n = self.nodes[cur[rv].args[0]] if cur[rv].op == "at" else None
            if n is None:
                if cur[rv].op != "eof":
                    raise Giveup("position of the reader is lost in " + info["fn"])
                self.lost("the reader waits past the end of the document", info)
                continue
            k = n.tok[0]
            if k == "callend":
                c2 = dict(cur)
                c2[rv] = self.at(n.next)
                for x, v in cur.items():
                    if is_cipher(v) and n.inst.cout is not None and v is not n.inst.cout:
                        self.cipher_eq(v, n.inst.final, "key stream position after " + self.path(n.inst.obj or UNIT),
                                       self.path(n.inst.obj or UNIT) + ":end", K)
                        c2[x] = n.inst.cout
                work.append((c2, K))
                continue
            if k == "repend":
                if n.id == stop:
                    body.append((cur, K))
                else:
                    self.lost("the reading loop does not end with the item it reads", info)
                continue
            if k == "call":
                c = n.tok[1]
                for fs, first, inst, b in self.expand(c.path, c.args, c.obj, c.cin, c.cout, n.next):
                    K2 = dict(K)
                    K2.update(fs)
                    c2 = dict(cur)
                    c2[rv] = self.at(first)
                    work.append((c2, K2))
                continue
            if k == "rep":
                work.extend(self.repetition(eng, info, cur, env, K, rv, n))
                continue
            t0 = eq(length(payload(n.tok[1])), I(0)) if k == "text" and self.maybe_empty(n.tok[1]) else None
            if t0 is not None and self.truth(t0, K) is not False:
                # an empty text leaves no event behind
                c2 = dict(cur)
                c2[rv] = self.at(n.next)
                K2 = dict(K)
                K2[t0] = True
                work.append((c2, K2))
                if self.truth(t0, K) is True:
                    continue
                K = dict(K)
                K[t0] = False
            self.events_matched += 1
            e2 = dict(env)
            e2.update(cur)
            e2["bound"] = env["bound"] | {("loop", L)}
            hits = 0
            for fs, step in info["tab"]:
                for e3, K3 in self.settle(eng, fs, [] if step is None else list(step.values()), e2, K):
                    hits += 1
                    if step is None:
                        done.append((cur, K3))
                        continue
                    c2 = {}
                    for x, v in step.items():
                        c2[x] = self.ev(v, e3) if v is not None else T("undef", L, x.args[1])
                    if c2[rv] is cur[rv]:
                        self.lost("the reading loop does not consume the event", info)
                        continue
                    work.append((c2, K3))
            if not hits:
                self.dead = "no transition of the loop in %s for %s" % (info["fn"], show(event(n.tok), 4)[:100])
        uniq = []
        seen = set()
        for c, k in done:
            key = (tuple(sorted((x.id, v.id) for x, v in c.items())), frozenset((a.id, b) for a, b in k.items()))
            if key not in seen:
                seen.add(key)
                uniq.append((c, k))
        return uniq, body

    def run_list_loop(self, eng, info, cur, env, K):
        """A loop over a literal list (the attributes of a start tag)."""
        li = list_ix(info)
        if not li:
            raise Giveup("loop in %s is not understood" % info["fn"])
        ix, bound = li
        L = info["id"]
        if self.prims(bound) - env["bound"]:
            raise Giveup("loop in %s is not understood" % info["fn"])
        n = self.ev(bound, env)
        if n.op != "int":
            raise Giveup("loop in %s is not understood" % info["fn"])
        done = []
        work = [(cur, K, 0)]
        while work:
            cur, K, i = work.pop()
            e2 = dict(env)
            e2.update(cur)
            e2[ix] = I(i)
            e2["bound"] = env["bound"] | {("loop", L)}
            if i >= n.args[0]:
                done.append((cur | {left_early(L): FALSE}, K))
                continue
            for b, st in enumerate(info["back"]):
                for e3, K3 in self.settle(eng, self.facts_of(st, info["W"], eng), [], e2, K):
                    c2 = {x: self.ev(vs[b], e3) for x, (_, vs) in info["steps"].items()}
                    work.append((c2, K3, i + 1))
            for t, st in info["exits"]:
                fs = self.facts_of(st, info["W"], eng)
                if not any(k is T("lt", ix, bound) and v for k, v in fs):
                    continue
                for e3, K3 in self.settle(eng, fs, [], e2, K):
                    c2 = dict(cur)
                    c2[ix] = I(i)
                    c2[left_early(L)] = TRUE
                    done.append((c2, K3))
        return done

    def maybe_empty(self, t):
        return t.op in ("f", "vf", "b64enc", "idx")

    def lost(self, why, info):
        self.rep.bad("loop:" + why.replace(" ", "-") + ":" + self.ctxname, info["fn"], why)

    # ---- lists
    def repetition(self, eng, info, cur, env, K, rv, n):
        R = n.tok[1]
        if R.problem:
            raise Giveup(R.problem)
        name = self.path(R.list)
        if R.skips:
            self.bad(name + ":all", R.skips)
            # the rest of the list is matched as if it were complete
        L = info["id"]
        ciphs = [x for x, v in cur.items() if is_cipher(v)]
        for x in ciphs:
            if R.cin is not None:
                self.cipher_eq(cur[x], R.cin, "key stream position before the list " + name, name + ":before")
        elem = idx(R.list, R.ix)

        def bodies(c0):
            out = []
            for a in R.alts:
                if not a.toks:
                    self.bad(name + ":all", "items with %s are not written" % self.cond(a.facts))
                    continue
                stop = self.node(("repend",), None)
                first = self.chain(a.toks, stop)
                c1 = dict(c0)
                c1[rv] = self.at(first)
                K2 = dict(K)
                K2.update(a.facts)
                done, body = self.iterate(eng, info, c1, env, K2, rv, stop.id)
                if any(not self.blanked(K3, K2) for c2, K3 in done):
                    self.bad(name + ":early", "the reading loop can end inside the list")
                for c2, K3 in body:
                    out.append((a, c2, K3))
                if not body and not done:
                    self.bad(name + ":unread", "an item with %s is not accepted by the reader (%s)"
                             % (self.cond(a.facts), getattr(self, "dead", "")))
            return out
        start = dict(cur)
        for x in ciphs:
            if R.cv is not None:
                start[x] = R.cv
        first = bodies(start)
        changed = {x for a, c2, K2 in first for x in c2 if x is not rv and c2[x] is not cur[x]} - set(ciphs)
        gen = dict(start)
        for x in changed:
            gen[x] = T("acc", L, x.args[1])
        second = bodies(gen)
        appended = {}
        for a, c2, K2 in second:
            for x in changed:
                w = c2[x]
                if w is gen[x]:
                    continue
                ps = parts(w)
                if len(ps) == 2 and ps[0] is gen[x] and ps[1].op == "one":
                    appended.setdefault(x, []).append((ps[1].args[0], K2, a))
                elif contains(w, lambda y: y is gen[x]) and vague(w, ("acc", "wix")) is None:
                    self.bad(name + ":order", "items are not appended in the order they are read: %s" % show(w, 6)[:200])
                    appended.setdefault(x, [])
                else:
                    appended.setdefault(x, []).append((None, K2, a))
            for x in ciphs:
                if a.cipher is not None:
                    self.cipher_eq(c2[x], a.cipher, "key stream position after an item of %s with %s"
                                   % (name, self.cond(a.facts)), name + ":after", K2)
        kept = [x for x in appended if not x.args[1].startswith("('H', 'clo'")]
        for a, c2, K2 in second:
            if all(c2[x] is gen[x] for x in kept):
                self.bad(name + ":all", "an item is written but not added when reading when %s"
                         % self.cond({k: v for k, v in K2.items() if k not in K}))
        new = dict(cur)
        new[rv] = self.at(n.next)
        for x in ciphs:
            if R.cv is not None:
                new[x] = R.cv
        for x, items in appended.items():
            if x not in kept:
                continue
            if any(v is None for v, _, _ in items):
                vals = [c2[x] for a, c2, K2 in second if c2[x] is not gen[x]]
                if all(vague(v, ("wix", "wcs", "adt")) is None and not contains(v, lambda y: y is gen[x]) for v in vals) \
                        and any(mentions(v, elem) for v in vals):
                    self.bad(name + ":kept", "an item replaces the items read before it")
                new[x] = T("unk", "after list " + name)
                continue
            for v, K2, a in items:
                self.compare(v, elem, K2)
            new[x] = cat(cur[x], R.list)
        return [(new, K)]

    def blanked(self, K, before):
        """The branch takes some text to be empty, which has the same form as an absent text."""
        return any(v and k not in before and k.op == "eq" and (k.args[0].op == "len" or k.args[1].op == "len")
                   for k, v in K.items())

    def cond(self, facts):
        return ", ".join("%s%s" % ("" if v else "not ", self.path(k)) for k, v in facts.items()) or "no condition"

    # ---- comparing
    def path(self, t):
        m = {}
        for x in subterms(t):
            if x.op == "wix":
                m[x] = T("sym", "i")
            elif x.op == "wcs":
                m[x] = T("sym", "cipher")
        s = show(subst(t, m) if m else t, 14)
        s = re.sub(r"idx\(([^()]*), \$i\)", r"\1[]", s)
        s = re.sub(r"\((\S+) as (\w+)\)", r"\1~\2", s)
        return s.replace("$obj", self.objname)[:400]

    def bad(self, key, text):
        if self.exact:
            return
        self.rep.bad(key, self.where, text)

    def cipher_eq(self, got, want, what, key, K=None):
        if not self.exact:
            return
        self.rep.count("cipher_comparisons")
        if got is want:
            self.rep.ok("cipher:" + key, self.where, what)
            return
        if K and strip_empty(got, K, self) is strip_empty(want, K, self):
            self.rep.ok("cipher:" + key, self.where, what)
            return
        if is_cipher(got) and is_cipher(want):
            self.rep.bad("cipher:" + key, self.where, "%s: reader at %s, writer at %s"
                         % (what, self.path(got)[:200], self.path(want)[:200]))
        else:
            self.rep.und("cipher:" + key, self.where, "%s: %s" % (what, show(got, 5)[:200]))

    def compare(self, got, want, K, root=None):
        """Every part of the rebuilt value against the written one."""
        p = self.path(want)
        if got is want:
            self.good(p)
            return
        if self.exempt(want) or self.never(want, K):
            return
        if got.op == "bool":
            v = self.truth(want, K)
            if v is got.args[0]:
                self.good(p)
                return
        if got is EMPTY or (got.op == "cat" and not got.args):
            if self.truth(eq(length(want), I(0)), K):
                self.good(p)
                return
        if got.op == "adt":
            path, var, names = got.args[:3]
            enum = len(self.an.p.adts.get(path, {}).get("variants", [1])) > 1
            if enum:
                v = self.truth(isv(want, var), K)
                if v is not True:
                    alts = [k.args[1] for k, b in K.items() if k.op == "isv" and k.args[0] is want and b]
                    if len(alts) == 1 and self.blank(alts[0], var, want, K):
                        self.good(p)
                        return
                    self.report(p, want, got, "%s comes back as %s" % (alts[0] if alts else "a value", var), K)
                    return
                for nme, x in zip(names, got.args[3:]):
                    self.compare(x, field(variant(want, var), nme), K)
                if not names:
                    self.good(p)
                return
            for nme, x in zip(names, got.args[3:]):
                self.compare(x, field(want, nme), K)
            return
        self.report(p, want, got, None, K)

    def blank(self, written, read, want, K):
        """An empty text has the same form as an absent one."""
        pairs = {("Standard", "Empty"), ("Protected", "ProtectEmpty")}
        if (written, read) not in pairs:
            return False
        return any(v and k.op == "eq" and k.args[0].op == "len" and k.args[1] is I(0)
                   and contains(k.args[0], lambda y: y is field(variant(want, written), "0"))
                   or (v and k.op == "eq" and k.args[0] is I(0) and contains(k.args[1], lambda y: y is field(variant(want, written), "0")))
                   for k, v in K.items())

    def exempt(self, want):
        return want.op == "f" and want.args[1] == "generator"

    def never(self, want, K):
        """A database always has its root group."""
        return want.op == "f" and want.args[1] == "groups" and is_sym(want.args[0], "obj") and self.objname == "Database" \
            and self.truth(eq(length(want), I(0)), K)

    def good(self, p):
        if self.exact:
            if p.endswith(".value") or "~Protected" in p:
                self.rep.ok("mark:" + p, self.where, "protection mark and text restored")
        else:
            self.rep.ok("field:" + p, self.where, "read back from where it is written")

    def report(self, p, want, got, text, K):
        if self.exact:
            if text:
                self.rep.bad("mark:" + p, self.where, text)
            elif any(x.op == "ks" for x in subterms(got)):
                self.rep.bad("value:" + p, self.where, "value read is %s" % self.path(got)[:300])
            return
        t = text or "%s is read back as %s" % (p, self.path(got)[:300])
        fs = [(k, v) for k, v in K.items() if mentions(k, want)]
        if fs:
            t += " when " + self.cond(dict(fs))[:200]
        own = any(x.op == "sym" and x.args[0] == "obj" for x in subterms(got))
        if not own and not any(x.op in ("unk", "undef", "phi", "loopv", "after", "callfn", "el", "acc") for x in subterms(got)):
            self.rep.bad("field:" + p, self.where, t + " (not restored)")
        elif vague(got, ("wix", "wcs", "wv", "cat") + tuple(self.opaque)) is None or text:
            self.rep.bad("field:" + p, self.where, t)
        else:
            self.rep.und("field:" + p, self.where, t)

    # ---- driver
    def match(self, wpath, rpath):
        """Match the document written by wpath with the reader rpath and all recursive pairs."""
        p = self.an.p
        self.todo = [(wpath, None, rpath, ())]
        done = 0
        while self.todo:
            key = self.todo.pop()
            self.one(*key)
            done += 1
        return done

    def root_of(self, path):
        return [x for x in self.an.p.roots if x["path"] == path][0]

    def one(self, wpath, tag, rpath, lit):
        run, doc, ciph, rest, alts = self.wr.alts(wpath)
        fn = self.an.p.fns[run.root["key"]]
        objs = [i for i in rest if re.search(r"^&", fn["locals"][i][0])]
        if doc is None:
            objs = [i for i in rest if fn["locals"][i][0].startswith("&")]
        if len(objs) != 1:
            raise Giveup("%s: the written object is not recognised" % wpath)
        oi = objs[0]
        ty = re.sub(r"^&('\w+ )?(mut )?", "", fn["locals"][oi][0])
        self.objname = last(ty)
        self.ctxname = self.objname
        self.where = "%s; %s" % (loc(self.root_of(wpath)), loc(self.root_of(rpath)))
        obj = T("sym", "obj")
        cin = T("wcs", "in") if ciph else None
        args = [None] * fn["argc"]
        args[oi - 1] = obj
        self._ciph = {}
        tail = self.node(("enddoc",), None) if tag is None else self.node(("tail",), None)
        if rpath in self.readers:
            rrun, (rdoc, rciph, rrest) = self.reader_run(rpath)
        else:
            r = self.root_of(rpath)
            rrun = self.an.run(r, accel=False, loop_in=LOOP_IN, opaque=self.opaque)
            if rrun.incomplete:
                raise Giveup("%s: %s" % (rpath, rrun.incomplete))
            rdoc, rciph, rrest = roles(self.an.p.fns[r["key"]])
        exps = self.expand(wpath, args, obj, cin, None, tail)
        if not exps:
            raise Giveup("%s has no successful outcome" % wpath)
        for fs, first, inst, b in exps:
            self.rep.count("written_forms")
            if b.early:
                self.bad("%s:written" % self.objname, "the writing loop can end before the last item")
            n = first
            if tag is None:
                n = self.node(("doc",), n)
            else:
                # the start tag is consumed by the caller; other forms are read elsewhere
                if inst.tag is not tag:
                    continue
                n = n.next
            rargs = [None] * self.an.p.fns[rrun.root["key"]]["argc"]
            if rdoc is not None:
                rargs[rdoc - 1] = self.at(n)
            if rciph is not None:
                rargs[rciph - 1] = cin
            for i, v in zip(rrest, lit):
                rargs[i - 1] = v
            self.dead = ""
            res = self.run_body(rrun, rdoc, rciph, rargs, dict(fs), self.at(n) if rdoc is None else None)
            oks = 0
            for ret, after, K in res:
                vn = variant_name(ret)
                if vn == "Err":
                    self.failed(ret, K, fs)
                    continue
                if vn != "Ok":
                    self.rep.und("result:" + self.objname, rpath, "result of the reader is not known: %s" % show(ret, 5)[:160])
                    continue
                oks += 1
                self.compare(field(variant(ret, "Ok"), "0"), obj, K)
                if rdoc is not None:
                    e = after[rdoc - 1]
                    m = self.nodes[e.args[0]] if e.op == "at" else None
                    while m is not None and m.tok[0] in ("callend",):
                        m = m.next
                    if m is None or m.tok[0] not in ("tail",):
                        self.bad("end:" + self.objname, "the reader of %s stops at %s instead of the end of its element"
                                 % (self.objname, m.tok if m else show(e, 4)))
                    else:
                        self.good(self.objname + ":end")
                if rciph is not None:
                    self.cipher_eq(after[rciph - 1], b.cipher, "key stream position after " + self.objname,
                                   self.objname + ":end", K)
            if not oks:
                self.bad("read:" + self.objname, "what is written for a %s is not accepted by the reader%s"
                         % (self.objname, ": " + self.dead if self.dead else ""))

    def failed(self, ret, K, fs):
        """The reader refuses something the writer produced."""
        own = [(k, v) for k, v in K.items() if k not in fs]
        if self.blanked(K, fs):
            return
        if all(vague(k, ("wix", "wcs", "wv") + tuple(self.opaque)) is None for k, v in own):
            self.bad("refused:" + self.objname, "the reader refuses a written %s when %s" % (self.objname, self.cond(dict(own))))
        elif not self.exact:
            self.rep.und("refused:" + self.objname, self.where, self.cond(dict(own))[:300])


def payload(t):
    """The text behind encodings that map the empty text, and only it, to the empty text."""
    while t.op in ("b64enc", "ks"):
        t = t.args[1]
    return t


def strip_empty(t, K, m):
    """Key stream advanced by the length of an empty text has not moved."""
    while t.op == "ksadv" and (t.args[1] is I(0) or m.truth(eq(t.args[1], I(0)), K)):
        t = t.args[0]
    return t


def b64_fits(dec, enc):
    if dec is enc:
        return True
    if dec.op != "b64" or enc.op != "b64":
        return False
    return dec.args[0] == enc.args[0] and (dec.args[1] == enc.args[1] or dec.args[2] == "Indifferent")


# ------------------------------------------------------------------ configuration of the XML library

def settings(t):
    """Options set on a configuration value, and what it was built from."""
    out = {}
    while t.op == "call" and len(t.args) == 4 and "Config::" in t.args[0]:
        out.setdefault(t.args[0].split("::")[-1], t.args[3])
        t = t.args[2]
    return out, t


def reader_config(an, m, rpath):
    run = an.run(m.root_of(rpath), accel=False, loop_in=LOOP_IN, opaque=m.opaque)
    out = []
    for info in run.eng.loops.values():
        for i, vs in info["steps"].values():
            if i is not None:
                out += [x for x in subterms(i) if x.op == "xr"]
    return sorted(set(out), key=lambda x: x.id)


def writer_config(an, m, wpath):
    run = an.run(m.root_of(wpath), accel=False, loop_in=LOOP_IN, opaque=m.opaque)
    return [e for e in run.eng.events if e.kind == "xwcfg"]
