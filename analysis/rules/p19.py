from stages import *
from rules.p11 import split

RULE = ("every value that reaches a diagnostic sink (formatted output, error value, panic message) on any path of the library is "
        "traced to its sources; none may be, or be computed from, a credential, a derived key, an inner stream key or a protected "
        "value other than by a length, a comparison, a MAC or encryption")

# types that are secret as a whole
KEYS = ("CompositeKey", "ComposedKey", "MasterKey", "HmacKey", "HmacBlockKey", "CipherKey", "Otp")
# fields and variants that are secret
FIELDS = (("KdbxInnerHeader", None, "inner_stream_key"), ("Value", "Protected", "0"))
# parameters that are secret although their type does not say so
PARAMS = (("CompositeKey", "new", (1, 2)), ("CompositeKey", "from_password", (1,)), ("InnerStreamCipherAlgorithm", "stream_cipher", (2,)),
          ("Entry", "set_password", (2,)), ("Field", "new_protected", (2,)), ("Field", "set_value", (2,)), ("Otp", "new", (1,)))
# results that say nothing useful about their operands
CLEAN = {"len", "lt", "eq", "isv", "not", "and", "or", "hmac256", "haskey", "nonneg"}
# error types of libraries that hand back the data they were given
CARRIERS = re.compile(r"FromUtf8Error|NulError|IntoStringError|OsString|Vec<u8>|string::String|\[u8|IntoInnerError|SendError")
PRINTS = ("_print", "_eprint", "_print_to", "attempt_print_to_stderr", "emit_warning")
FILES = ("fs::write", "set_var", "Command::arg", "Command::args", "syslog", "set_hook")
STREAMS = ("stdout", "stderr", "stdio", "Stdout", "Stderr")


def check(an, rep, tier):
    p = an.p
    types(an)
    todo, done = [], set()
    by = {}
    for r in p.roots:
        by.setdefault(r["path"], r)
    heavy = {p.one("Kdbx<Locked>", "unlock")["key"]: unlock_run, p.one("Unlocked", "write", "KdbxState")["key"]: save_run}
    for k in heavy:
        done.add(k)
        todo += sinks(an, rep, next(r for r in p.roots if r["key"] == k), heavy[k](an))
    seen = reached(an, [heavy[k](an) for k in heavy])
    todo = [by[x] for x in todo if x in by]
    todo += [by[x] for x in sorted(opaque_keys(p)) if x in by]
    todo += [r for r in p.roots if not r.get("derived") and (r.get("pub") or r.get("implof"))]
    big = calling(p, heavy)
    while todo:
        r = todo.pop(0)
        if r["key"] in done or r.get("derived") or r["key"] in big or (r["path"] in seen and not entry(r)):
            continue
        done.add(r["key"])
        rep.count("functions")
        todo += [by[x] for x in sinks(an, rep, r, an.run(r)) if x in by]
    rep.assumption("an error returned by a library function does not contain the data the function was given, except for the types "
                   "listed in rules/p19.py")
    rep.assumption("Display of a library type shows nothing but the value itself")


def entry(r):
    return r.get("pub") or r.get("implof")


def reached(an, runs):
    """Functions already followed inside the runs."""
    return {e.fn for run in runs for e in run.eng.events if e.fn}


def calling(p, heavy):
    """Functions that do nothing but lead to, or are part of, an operation analysed with its parts kept apart."""
    hv = {p.fns[k]["path"] for k in heavy if k in p.fns}
    out = set()
    for r in p.roots:
        ks = p.callees(r["key"])
        if any(p.fns[k]["path"] in hv for k in ks if k in p.fns):
            out.add(r["key"])
    for k in heavy:
        for c in p.callees(k):
            f = p.fns.get(c)
            if f and f["local"] and f["path"].startswith(("binary::kdbx::Kdbx::<binary::kdbx::Locked>::", "binary::kdbx::Unlocked::")):
                out.add(c)
    return out


# ------------------------------------------------------------ types

SECRET = set()
ADTS = {}
HOLDS = {}


def types(an):
    SECRET.clear(), ADTS.clear(), HOLDS.clear()
    ADTS.update(an.p.adts)
    for n in KEYS:
        c = [path for path in ADTS if last(path) == n]
        if n in ("CompositeKey", "ComposedKey", "MasterKey") and not c:
            raise Missing("type " + n)
        SECRET.update(c)
    for n, v, f in FIELDS:
        c = [path for path in ADTS if last(path) == n and any(g[0] == f and (v is None or v == x["name"])
                                                             for x in ADTS[path]["variants"] for g in x["fields"])]
        if not c:
            raise Missing("%s.%s" % (n, f))


def owner(ty):
    """The local type named by a type, through references and boxes."""
    ty = bare(ty)
    m = re.match(r"([\w:]+)", ty)
    return m.group(1) if m and m.group(1) in ADTS else None


def bare(ty):
    while True:
        n = re.sub(r"^(&('\w+ )?(mut )?|std::boxed::Box<(?=.*>$)|\*(const|mut) )", "", ty)
        if n == ty:
            return ty
        if ty.startswith("std::boxed::Box<"):
            n = n[:-1]
        ty = n


def holds(ty):
    """Values of the type can contain something secret."""
    if ty not in HOLDS:
        HOLDS[ty] = False
        HOLDS[ty] = any(x in SECRET or leaf(x) or any(holds(f[1]) for v in ADTS[x]["variants"] for f in v["fields"])
                        for x in re.findall(r"[\w:]+", ty) if x in ADTS and not phantom(ty, x))
    return HOLDS[ty]


def phantom(ty, x):
    return "PhantomData<" in ty


def leaf(path):
    return any(last(path) == n and any(g[0] == f and (v is None or v == x["name"]) for x in ADTS[path]["variants"] for g in x["fields"])
               for n, v, f in FIELDS)


def place(t, f):
    """The field of the constructed value is secret."""
    return any(last(t.args[0]) == n and y in (None, t.args[1]) and str(f) == g for n, y, g in FIELDS)


def declared(t, f):
    for y in (ADTS.get(t.args[0]) or {"variants": ()})["variants"]:
        for g in y["fields"]:
            if y["name"] == t.args[1] and str(g[0]) == str(f):
                return g[1]
    return None


def small(ty):
    """A number, or an identifier built from one."""
    ty = bare(ty)
    if re.match(r"[ui](8|16|32|64|size)$|bool$|char$", ty):
        return True
    a = ADTS.get(ty)
    return bool(a) and all(re.match(r"[ui](8|16|32)$", f[1]) for v in a["variants"] for f in v["fields"])


def stage(t):
    """A reading stage that decrypts."""
    return t.op in ("gunzip", "rest", "boxv") and contains(t, lambda y: y.op == "adt" and any(isinstance(v, Term) and v.op == "cipher" for v in y.args[3:]))


class Taint:
    def __init__(self, an, root, eng):
        self.an, self.root, self.eng = an, root, eng
        sig = root.get("sig") or ""
        m = re.search(r"fn\((.*)\)( -> .*)?$", sig)
        self.args = [x.strip() for x in split(m.group(1))] if m else []
        self.memo = {}
        self.secret = set()
        for ty, name, ns in PARAMS:
            if root["name"] == name and last(owner(root.get("selfty") or "") or "") == ty:
                self.secret |= {T("sym", "arg%d" % n) for n in ns}

    def learn(self, run):
        """Values that end up in a secret place are secret."""
        for o in run.outs:
            for t in {o.ret} | {o.eng.snap(o.st, o.st.mem[k]) for k in o.st.mem if k[0] == "A"}:
                for x in subterms(t):
                    if x.op != "adt":
                        continue
                    for f, v in zip(x.args[2], x.args[3:]):
                        dt = declared(x, f)
                        if (x.args[0] in SECRET and dt and not small(dt)) or place(x, f):
                            if v.op in ("vf", "f", "sym", "idx", "cat", "take", "loopv", "sub") and v not in (EMPTY, NONE):
                                self.secret.add(v)

    def ty(self, t):
        """Declared type of a projection of an argument, or None."""
        if t.op == "sym":
            m = re.match(r"arg(\d+)$", t.args[0])
            n = int(m.group(1)) - 1 if m else -1
            return self.args[n] if 0 <= n < len(self.args) else None
        if t.op in ("v", "deref"):
            return self.ty(t.args[0])
        if t.op in ("f", "vf"):
            b = self.ty(t.args[0])
            if b is None:
                return None
            var, f = (t.args[1], t.args[2]) if t.op == "vf" else (None, t.args[1])
            b = bare(b)
            m = re.match(r"std::(option::Option|result::Result)<(.*)>$", b)
            if m:
                xs = split(m.group(2))
                return xs[-1].strip() if var == "Err" else xs[0].strip()
            o = owner(b)
            for v in ADTS[o]["variants"] if o else ():
                for g in v["fields"]:
                    if str(g[0]) == str(f) and var in (None, v["name"]):
                        return g[1]
            return None
        if t.op == "idx":
            b = bare(self.ty(t.args[0]) or "")
            m = re.match(r"(?:std::vec::Vec<(.*)>|\[(.*?)(?:; \w+)?\])$", b)
            return (m.group(1) or m.group(2)) if m else None
        return None

    def leaf(self, t):
        if t.op not in ("f", "vf"):
            return False
        b = self.ty(t.args[0])
        o = owner(b) if b else None
        var, f = (t.args[1], t.args[2]) if t.op == "vf" else (None, t.args[1])
        if o in SECRET:
            return True
        return any((o is None or last(o) == n) and str(f) == g and v == var and (o or v or g != "0") for n, v, g in FIELDS)

    def of(self, t, ctx=None, seen=frozenset()):
        """A secret the value is computed from, or None."""
        k = (t, ctx)
        if k not in self.memo:
            if not seen:
                self.memo[k] = None
            r = self.find(t, ctx, seen)
            if seen and r is None:
                return r
            self.memo[k] = r
        return self.memo[k]

    def find(self, t, ctx, seen):
        if t in self.secret:
            return t
        op = t.op
        if ctx and small(ctx):
            return None
        if op in CLEAN:
            return None
        if op == "sym":
            ty = self.ty(t)
            return t if ty and holds(ty) else None
        if op in ("f", "vf"):
            x = t.args[0]
            if op == "vf" and t.args[1] == "Err":
                return self.error(x, ctx, seen)
            y = t
            while y.op in ("f", "vf", "v", "deref", "idx"):
                if self.leaf(y):
                    return t
                y = y.args[0]
            if base_sym(t) in self.secret:
                return t
            ty = self.ty(t)
            if ty is not None:
                return t if holds(ty) else None
            return self.of(x, None, seen)
        if op in ("idx", "unle") and contains(t, stage):
            return None        # one number of decrypted data: an identifier or a length
        if op in ("gunzip", "rest") and contains(t, stage):
            return t
        if op == "idx" and self.ty(t) is not None:
            return t if holds(self.ty(t)) else self.of(t.args[0], None, seen)
        if op == "adt":
            path, var = t.args[0], t.args[1]
            if path in SECRET:
                return t
            for f, v in zip(t.args[2], t.args[3:]):
                if place(t, f) and v.op not in ("str", "int"):
                    return t
                r = self.of(v, declared(t, f), seen)
                if r is not None:
                    return r
            return None
        if op == "disp":
            kind, ty, v = t.args[0], t.args[3], t.args[2]
            if kind == "display" and CARRIERS.search(ty) and v.op == "vf" and v.args[1] == "Err":
                return None
            return self.of(v, ty, seen)
        if op == "ks":
            # applied to something protected this is encryption
            return None if self.protected(t.args[1]) else t
        if op == "loopv":
            if t in seen:
                return None
            info = self.eng.loops.get(t.args[0])
            st = info["steps"].get(t) if info else None
            for x in ([st[0]] + list(st[1])) if st else ():
                r = self.of(x, ctx, seen | {t}) if x is not None else None
                if r is not None:
                    return r
            return None
        if op == "fall":
            return self.of(t.args[1], ctx, seen) if isinstance(t.args[1], Term) else None
        for x in children(t):
            r = self.of(x, ctx if op in ("phi", "cat", "one") else None, seen)
            if r is not None:
                return r
        return None

    def error(self, x, ctx, seen):
        """The error of a failed call."""
        if x.op == "fall" and ctx and CARRIERS.search(ctx):
            for y in x.args[1:]:
                r = self.of(y, None, seen) if isinstance(y, Term) else None
                if r is not None:
                    return r
        return None

    def protected(self, t):
        return contains(t, lambda y: y.op == "vf" and self.leaf(y))


# ------------------------------------------------------------ sinks

def sinks(an, rep, r, run):
    """Judge what reaches the sinks of one run; returns the functions called but not followed."""
    w = loc(r)
    if run.incomplete:
        rep.und("paths:" + r["path"], w, run.incomplete)
        return [e.name for e in run.eng.events if e.kind in ("call", "callfn")]
    ta = Taint(an, r, run.eng)
    ta.learn(run)
    name = last(r["path"]) if not r.get("selfty") else "%s::%s" % (last(owner(r["selfty"]) or r["selfty"]), r["name"])
    # errors
    for o in run.outs:
        if not o.is_err():
            continue
        v = o.payload("Err")
        ret = (r.get("sig") or "").split(" -> ")[-1]
        m = re.match(r"std::(?:io::|fmt::)?(?:result::)?Result<(.*)>$", ret)
        ety = split(m.group(1))[-1].strip() if m else None
        if "Result<" not in ret:
            continue
        judge(rep, ta, "error:%s:%s" % (name, shape(v)), w, v, "the error", ety, o)
    calls = []
    for e in run.eng.events:
        if e.kind in ("call", "callfn"):
            calls.append(e.name)
        n = e.name or ""
        what = None
        if e.kind in ("call", "callfn") and last(n) in PRINTS:
            what = "the printed text"
        elif e.kind in ("call", "callfn") and any(n.endswith(x) for x in FILES):
            what = "what %s is given" % n
        elif e.kind in ("write", "call", "callfn") and any(isinstance(a, Term) and std_stream(a) for a in e.args):
            what = "the text written to a standard stream"
        elif e.kind == "diverge":
            what = "the panic message"
        if what is None:
            continue
        for i, a in enumerate(e.args):
            if isinstance(a, Term):
                judge(rep, ta, "%s:%s:%s" % ("panic" if e.kind == "diverge" else "output", last(e.fn or name), literal(a)), e.span or w, a, what, None, e)
    return calls


def std_stream(a):
    return contains(a, lambda y: y.op in ("call", "callfn", "after") and isinstance(y.args[0], str) and last(y.args[0]) in ("stdout", "stderr"))


def judge(rep, ta, key, w, v, what, ctx, src):
    s = ta.of(v, ctx)
    if s is None:
        rep.ok(key, w, "%s contains nothing secret" % what)
    else:
        rep.bad(key, w, "%s contains %s" % (what, show(s, 5)[:160]))


def shape(v):
    """Variants of an error value, without its data."""
    if v.op == "adt":
        xs = [shape(x) for x in v.args[3:] if isinstance(x, Term) and x.op == "adt"]
        return "%s.%s" % (last(v.args[0]), v.args[1]) + ("(%s)" % ",".join(xs) if xs else "")
    if v.op == "vf" and v.args[0].op in ("fall", "call"):
        return str(v.args[0].args[0]).split("::")[-1]
    return v.op


def literal(a):
    return next((x.args[0][:24].strip() for x in subterms(a) if x.op == "str" and x.args[0].strip()), a.op)
