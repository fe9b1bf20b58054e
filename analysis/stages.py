"""Stage readers and writers of the stream pipeline, recognised by what they do."""
from lib import *
from anchors import *
import spec

S = T("sym", "arg1")
BUF = T("sym", "arg2")


def mac_facts(o):
    """[(key, message, tag)] of HMAC checks that hold in the outcome."""
    out = []
    for k, v in o.facts():
        if v is True and k.op == "isv" and k.args[1] == "Ok" and k.args[0].op == "fall" and k.args[0].args[0] == "macverify":
            out.append(k.args[0].args[2:5])
        elif v is True and k.op == "eq":
            a, b = k.args
            for x, y in ((a, b), (b, a)):
                if x.op == "hmac256":
                    out.append((x.args[0], x.args[1], y))
    return out


def hash_facts(o):
    """[(message, digest)] of SHA-256 comparisons that hold."""
    out = []
    for k, v in o.facts():
        if v is True and k.op == "eq":
            a, b = k.args
            for x, y in ((a, b), (b, a)):
                if x.op == "sha256":
                    out.append((x.args[0], y))
    return out


class Reader:
    """A local Read implementation."""

    def __init__(self, an, ty, root):
        self.ty, self.root = ty, root
        self.where = loc(root)
        self.name = last(ty)
        self.run = an.run(root)
        self.oks = [o for o in self.run.outs if o.is_ok()]
        self.errs = [o for o in self.run.outs if o.variant() == "Err"]
        self.src = self._source()
        self.kind = self._kind()

    def _source(self):
        names = {}
        for o in self.oks:
            for k, v in o.facts():
                if k.op == "isv" and k.args[0].op == "fall" and k.args[0].args[0] in ("read", "read_exact", "read_all"):
                    b = self.base(o.eng, k.args[0].args[2])
                    if b.op == "deref":
                        b = b.args[0]
                    if b.op == "f" and b.args[0] is S:
                        names[b.args[1]] = names.get(b.args[1], 0) + 1
        return max(names, key=lambda n: names[n]) if names else None

    def base(self, eng, x, n=20):
        """Position term of a source reduced to the source it started from."""
        while n:
            n -= 1
            if x.op == "drop":
                x = x.args[0]
            elif x.op == "loopv":
                for i in eng.loops.values():
                    if x in i["steps"] and i["steps"][x][0] is not None:
                        x = i["steps"][x][0]
                        break
                else:
                    return x
            else:
                return x
        return x

    def _kind(self):
        ts = set()
        for o in self.oks:
            ts |= all_terms(o)
        opsx = {t.op for t in ts}
        if any(mac_facts(o) for o in self.oks) or any(t.op == "fall" and t.args[0] == "macverify" for t in ts):
            return "hmac"
        if any(hash_facts(o) for o in self.oks) or "sha256" in opsx:
            return "hash"
        if "bdec" in opsx:
            return "block"
        if "ks" in opsx:
            return "stream"
        if any(parts(v)[0] is field(S, f) for o in self.oks if o.arg(1).op == "with"
               for f, v in o.arg(1).args[1] if v.op == "cat"):
            return "record"
        return "pass"


def readers(an):
    if not hasattr(an, "_readers"):
        an._readers = {ty: Reader(an, ty, r) for ty, r in an.p.impls_of("std::io::Read", "read")}
    return an._readers


def unbox(t):
    while t.op == "boxv" or (t.op == "drop" and False):
        t = t.args[0]
    return t


def unstack(an, o, t, n=14):
    """Stages of a source term from the outside in: [(kind, reader/None, value, bytes already taken)], innermost source."""
    rs = readers(an)
    out = []
    while n:
        n -= 1
        t = unbox(source_of(o, t))
        skip = I(0)
        if t.op == "drop":
            skip = t.args[1]
            t = unbox(t.args[0])
        if t.op == "gunzip":
            out.append(("gzip", None, t, skip))
            t = t.args[0]
            continue
        if t.op == "adt" and base_ty(t.args[0]) in rs:
            r = rs[base_ty(t.args[0])]
            out.append((r.kind, r, t, skip))
            if r.src is None:
                return out, None
            t = field(t, r.src)
            continue
        if t.op == "limit":
            out.append(("limit", None, t, skip))
            t = t.args[0]
            continue
        if skip is not I(0):
            out.append(("skip", None, t, skip))
        return out, t
    return out, None


def source_of(o, x):
    """Where the stream position x (possibly a loop variable) started."""
    n = 20
    while n:
        n -= 1
        x = unbox(x)
        if x.op == "loopv":
            info = o.eng.loops.get(x.args[0])
            if info and x in info["steps"] and info["steps"][x][0] is not None:
                x = o.eng.snap(o.st, info["steps"][x][0])
                continue
            return x
        if x.op == "drop":
            y = unbox(x.args[0])
            if y.op == "loopv":
                x = y
                continue
            # skip of constant size: keep it
            z = source_of(o, y)
            return drop(z, x.args[1]) if z is not y else x
        return x
    return x


def unlock_run(an):
    p = an.p
    opq = opaque_keys(p) | {fn_path(p, "parse_xml"), fn_path(p, "write_xml")}
    return an.run(p.one("Kdbx<Locked>", "unlock"), opaque=frozenset(opq))


READING = ("from_reader", "open", "parse_xml", "decode_uuid", "decode_datetime")


def reading_runs(an):
    """The entry points that take untrusted data and every function they call that is analysed on its own:
    [(root, run)] and the calls between them [(caller, run, event, callee)]."""
    if hasattr(an, "_reading"):
        return an._reading
    p = an.p
    opq = opaque_keys(p) | {fn_path(p, "parse_xml"), fn_path(p, "write_xml")}
    todo = [(p.one(None, n), {}) for n in READING]
    todo.append((p.one("Kdbx<Locked>", "unlock"), {"opaque": frozenset(opq)}))
    for path in sorted(opaque_keys(p)):
        todo += [(r, {}) for r in p.roots if r["path"] == path]
    todo += [(r, {}) for ty, r in p.impls_of("std::io::Read", "read")]
    by = {}
    for r in p.roots:
        by.setdefault(r["path"], r)
    done, runs, calls = set(), [], []
    while todo:
        r, kw = todo.pop(0)
        if r["key"] in done:
            continue
        done.add(r["key"])
        run = an.run(r, accel=False, loop_in=600, **kw)
        runs.append((r, run))
        for e in run.eng.events:
            if e.kind in ("call", "callfn") and e.name in by and e.name not in opq:
                q = by[e.name]
                todo.append((q, {}))
                calls.append((r, run, e, q))
    an._reading = (runs, calls)
    return an._reading


def save_run(an):
    p = an.p
    opq = opaque_keys(p) | {fn_path(p, "parse_xml"), fn_path(p, "write_xml")}
    closers = frozenset(c["path"] for w in writers(an).values() if w.kind != "pass" for c in w.closers)
    return an.run(p.one("Unlocked", "write", "KdbxState"), opaque=frozenset(opq) | closers,
                  sinks=frozenset([fn_path(p, "write_xml")]), escape=closers)


class Writer:
    """A local Write implementation."""

    def __init__(self, an, ty, root):
        self.ty, self.root = ty, root
        self.where = loc(root)
        self.name = last(ty)
        self.run = an.run(root)
        self.oks = [o for o in self.run.outs if o.is_ok()]
        self.errs = [o for o in self.run.outs if o.variant() == "Err"]
        ts = set()
        for o in self.oks:
            ts |= all_terms(o)
        for i in self.run.eng.loops.values():
            for x, (a, bs) in i["steps"].items():
                for b in bs:
                    subterms(b, ts)
            for st in i["back"]:
                for k in st.facts:
                    if not isinstance(k, tuple):
                        subterms(k, ts)
        opsx = {t.op for t in ts}
        self.kind = ("hmac" if "hmac256" in opsx else "block" if "benc" in opsx else
                     "stream" if "ks" in opsx else "pass")
        # ways to complete the stage: methods on the type that hand back what is inside
        self.closers = []
        for r in an.p.roots:
            if last(r.get("selfty")) != self.name or r.get("derived") or base_ty(r.get("selfty") or "") != ty:
                continue
            io = r.get("implof") or ""
            if io.endswith("as std::io::Write>") or " as std::" in io:
                continue
            sig = r.get("sig") or ""
            m = re.match(r"^.*?fn\((.*)\)\s*->\s*(.*)$", sig)
            if not m or self.name not in m.group(1).split(",")[0]:
                continue
            if re.search(r"(^|[<\s])W\b", m.group(2)):
                self.closers.append(r)


def writers(an):
    if not hasattr(an, "_writers"):
        an._writers = {ty: Writer(an, ty, r) for ty, r in an.p.impls_of("std::io::Write", "write")}
    return an._writers


class Unlock:
    """Success outcome of unlock, taken apart."""

    def __init__(self, an, o):
        p = an.p
        self.o = o
        self.base = kdbx_sym(p)
        self.hdr = header_of(an, "Locked", self.base)
        self.major = version_of(an, "Locked", self.base)
        lt4 = o.holds(lt(self.major, I(4)))
        self.v = None if lt4 is None else (3 if lt4 else 4)
        self.state = field(o.payload(), state_field(p))
        px = fn_path(p, "parse_xml")
        db = [t for t in subterms(self.state) if t.op == "call" and t.args[0] == px]
        self.parse = db[0] if db else None
        self.xml = self.parse.args[2] if self.parse is not None else None
        self.cipher = o.eng.variant_of(o.st, field(self.hdr, "cipher"))
        self.comp = o.eng.variant_of(o.st, field(self.hdr, "compression_type"))
        self.stack = self.source = None
        # content of which only a fixed number of bytes is used
        self.cut = self.xml.args[1] if self.xml is not None and self.xml.op in ("take", "sub") and is_int(self.xml.args[-1]) else None
        if self.xml is not None and self.xml.op == "rest":
            pos = o.eng.snap(o.st, self.xml.args[0])
            self.stack, self.source = unstack(an, o, pos)
            if self.source is not None:
                self.source = o.eng.snap(o.st, self.source)


def unlocks(an):
    if not hasattr(an, "_unlocks"):
        run = unlock_run(an)
        an._unlocks = [Unlock(an, o) for o in run.outs if o.is_ok()]
    return an._unlocks


def master_bytes(prog, mk):
    """Key bytes inside a master key value."""
    return field(mk, prog.fields("MasterKey")[0])


def master_calls(an, o):
    """Master keys derived successfully in the outcome: [(call, key value)]."""
    names = {n for n in opaque_keys(an.p) if n.split("::")[-1] == "master_key"}
    out = []
    for k, v in o.facts():
        if v is True and k.op == "isv" and k.args[1] == "Ok" and k.args[0].op == "call" and k.args[0].args[0] in names:
            out.append((k.args[0], field(variant(k.args[0], "Ok"), "0")))
    return out


def expected_master(an, o, u_hdr, key):
    """Problem with how the master key was derived from credentials `key`, and the key."""
    ms = master_calls(an, o)
    if not ms:
        return None, "no master key derived"
    for c, mk in ms:
        comp, params = c.args[2], c.args[3]
        if params is not field(u_hdr, "kdf_params"):
            return mk, "the master key is derived with %s" % show(params, 5)[:200]
        if not (comp.op == "call" and comp.args[0].split("::")[-1] == "composed" and comp.args[2] is key):
            return mk, "the master key is derived from %s" % show(comp, 5)[:200]
    return ms[0][1], None


class Save:
    """Success outcome of saving an unlocked archive, taken apart."""

    def __init__(self, an, o):
        self.o = o
        self.hdr = header_of(an, "Unlocked", S)
        self.major = version_of(an, "Unlocked", S)
        self.minor = version_of(an, "Unlocked", S, "minor_version")
        self.cipher = o.eng.variant_of(o.st, field(self.hdr, "cipher"))
        self.comp = o.eng.variant_of(o.st, field(self.hdr, "compression_type"))
        self.writes = outputs(o, BUF) + elsewhere(o, BUF)
        self.problem = None
        self.closed, self.stack, self.bytes = [], [], None
        if self.writes:
            self._payload(an, self.writes[-1])

    def _payload(self, an, x):
        ps = parts(x)
        if any(p.op == "call" and p.args[0] == ELSEWHERE for p in ps):
            return
        if not ps or any(p.op != "stageout" for p in ps):
            self.problem = "the last part written is " + show(x, 6)[:300]
            return
        ws = writers(an)
        byc = {c["path"]: w for w in ws.values() for c in w.closers}
        t = ps[-1].args[0]
        calls = []
        while True:
            if t.op == "call" and t.args[0] in byc:
                calls.append(t)
                self.closed.insert(0, byc[t.args[0]])
                t = t.args[2]
            elif t.op == "f" and t.args[0].op == "v" and t.args[0].args[0].op == "call":
                t = t.args[0].args[0]
            elif t.op == "vf" and t.args[0].op == "call":
                t = t.args[0]
            else:
                break
        for p in ps[:-1]:
            if p.args[0] not in calls:
                self.problem = "output of another stage is mixed into the payload"
        if t.op == "written":
            self.bytes = t.args[1]
            t = t.args[0]
        t = unbox(t)
        while True:
            t = unbox(t)
            if t.op == "adt" and t.args[0] == OPT and t.args[1] == "Some":
                t = t.args[3]
                continue
            if t.op == "written":
                self.problem = "something is written below the outermost stage first: " + show(t.args[1], 5)[:200]
                t = t.args[0]
                continue
            if t.op == "adt" and base_ty(t.args[0]) in ws:
                w = ws[base_ty(t.args[0])]
                self.stack.append((w.kind, w, t))
                nxt = [v for v in t.args[3:] if self._sink(ws, v)]
                if len(nxt) == 1:
                    t = nxt[0]
                    continue
            break
        self.end = t

    def _sink(self, ws, v):
        v = unbox(v)
        if v.op == "ref":
            return True
        if v.op == "adt" and v.args[0] == OPT and len(v.args) > 3:
            return self._sink(ws, v.args[3])
        if v.op == "written":
            return self._sink(ws, v.args[0])
        return v.op == "adt" and base_ty(v.args[0]) in ws


def outputs(o, target):
    """Byte terms written successfully to target, in path order."""
    out = []
    for k, v in o.facts():
        if v is True and k.op == "isv" and k.args[1] == "Ok" and k.args[0].op == "fall" and k.args[0].args[0] == "write_all" \
                and base_out(k.args[0].args[2]) is target:
            out.append(k.args[0].args[3])
    return out


ELSEWHERE = "written in pieces"


def elsewhere(o, target):
    """A marker for bytes written to target piece by piece in a loop, or by a function that is not followed."""
    for e in o.eng.events:
        if e.kind == "write" and base_out(e.args[0]) is target and e.args[0].op == "written" \
                and any(x.op == "loopv" for x in parts(e.args[0].args[1])):
            return [T("call", ELSEWHERE, I(0))]
    for k, v in o.facts():
        t = k.args[0] if k.op == "isv" else None
        if t is not None and t.op == "call" and any(isinstance(x, Term) and base_out(x) is target for x in t.args[2:]):
            return [T("call", ELSEWHERE, I(0))]
    return []


def base_out(t):
    while t.op == "written":
        t = t.args[0]
    return t


def saves(an):
    if not hasattr(an, "_saves"):
        run = save_run(an)
        an._saves = [Save(an, o) for o in run.outs if o.is_ok()]
    return an._saves


def unchanged(an, rep, key, w, o, ty):
    """Looking at (or asking for access to) a part leaves every part as it was."""
    st, odd = o.arg(1), []
    for f in an.p.fields(ty):
        g = field(st, f)
        if g is not field(S, f):
            odd.append((f, vague(g, ("ix", "anyof"))))
    if not odd:
        rep.ok(key + "/unchanged", w, "asking for access changes nothing")
    for f, v in odd:
        (rep.und if v else rep.bad)(key + "/unchanged", w, "asking for access changes %s%s" % (f, " (not understood: %s)" % (v,) if v else ""))
