from stages import *

RULE = ("the URL built from a secret, period and digit count is taken apart the way each accessor takes it apart (piece by piece, over "
        "texts made of literal characters and arbitrary settings); and on every outcome an accessor returns the value half of a "
        "parameter whose name half equals the accessor's own name")

A = [None] + [T("sym", "arg%d" % i) for i in range(1, 5)]
ACC = (("secret", "secret", None), ("period", "period", "u32"), ("digits", "digits", "u32"))


class Unknown(Exception):
    pass


class Depends(Exception):
    """The value is one of the settings."""


def check(an, rep, tier):
    urls = created(an, rep)
    for name, key, num in ACC:
        run = an.run(an.p.one("Otp", name))
        w = loc(run.root)
        if run.incomplete:
            rep.und(name, w, run.incomplete)
            continue
        own_name(rep, run, name, key, num, w)
        for label, url, secret in urls:
            reads(rep, run, name, num, w, label, url, secret if name == "secret" else [(name,)])
        for label, url, want in others(key):
            reads(rep, run, name, num, w, label, url, want)


def others(key):
    """URLs with parameters of similar names around, before or instead of the own one."""
    own = [(key,)]
    for label, items, want in (
            ("similar names before", ["x" + key + "=1&" + key + "x=2&my" + key + "=3&" + key + "=", own, "&z=4"], own),
            ("similar names only", ["x" + key + "=1&" + key + "x=2&my" + key + "=3"], None),
            ("other parameters only", ["issuer=" + key + "&algorithm=9"], None)):
        url = list("otpauth://totp/" + key + "?")
        for x in items:
            url += x
        yield label, url, want


# ------------------------------------------------------------ the stored URL

def created(an, rep):
    run = an.run(an.p.one("Otp", "new"))
    w = loc(run.root)
    out = []
    for o in run.outs:
        t = field(o.ret, "url")
        if t.op == "adt":
            t = t.args[3]
        for label, secret in (("a plain secret", [("secret",)]), ("a padded secret", [("secret",), "=", "=", "="])):
            try:
                out.append((label, url_items(t, secret), secret))
            except Unknown as e:
                rep.und("new", w, "URL not understood: %s" % e)
    kinds = {x[0] for _, u, _ in out for x in u if isinstance(x, tuple)}
    if out:
        rep.judge("new", w, kinds == {"secret", "period", "digits"}, "the URL carries all three settings",
                  "the URL lacks %s" % ", ".join(sorted({"secret", "period", "digits"} - kinds)))
    for bad in sorted(k for k in kinds if k.startswith("?")):
        rep.bad("new/format", w, "a number is written as %s" % bad[1:])
    return out


def url_items(t, secret):
    r = []
    for x in parts(t):
        if x.op == "str":
            r += list(x.args[0])
            continue
        if x.op == "disp":
            if x.args[2] in (A[2], A[3]):
                n = "period" if x.args[2] is A[2] else "digits"
                r.append((n if x.args[0] == "display" else "?" + x.args[0],))
                continue
            x = x.args[2]
        if x.op == "tostr":
            x = x.args[0]
        cutter = None
        if x.op == "trimpat" and x.args[2].op in ("char", "int"):
            cutter, x = x, x.args[1]
            if x.op == "tostr":
                x = x.args[0]
        if x is A[1]:
            r += secret if cutter is None else trimmed(secret, cutter)
        elif x in (A[2], A[3]):
            r.append(("period",) if x is A[2] else ("digits",))
        else:
            raise Unknown(show(x, 4)[:80])
    return r


def trimmed(s, t):
    """Text s without the characters that the trimming t removes."""
    c = t.args[2].args[0]
    c = chr(c) if isinstance(c, int) else c
    if re.match("[A-Za-z0-9]", c):
        raise Unknown("trimming " + c)
    s = list(s)
    while s and s[0] == c and t.args[0] != "trim_end_matches":
        s = s[1:]
    while s and s[-1] == c and t.args[0] != "trim_start_matches":
        s = s[:-1]
    return s


# ------------------------------------------------------------ texts over literal characters and settings

def cut(s, sep, limit=None, back=False):
    out, cur, n = [], [], len(sep)
    i = 0
    while i < len(s):
        if s[i:i + n] == sep and (limit is None or len(out) < limit - 1):
            out.append(cur)
            cur = []
            i += n
        else:
            cur.append(s[i])
            i += 1
    out.append(cur)
    return out[::-1] if back else out


class Eval:
    def __init__(self, url, bind):
        self.url, self.bind = url, bind

    def sep(self, t):
        if t.op == "char":
            return [chr(t.args[0]) if isinstance(t.args[0], int) else t.args[0]]
        if t.op == "int":
            return [chr(t.args[0])]
        if t.op == "str" and t.args[0]:
            return list(t.args[0])
        if t.op == "ref" and t.args[0][0] == "C" and not t.args[1]:
            return self.sep(t.args[0][1])
        raise Unknown("separator " + show(t, 3))

    def pieces(self, src):
        if src.op == "enumerate" or src.op in ("cloned", "copied"):
            return self.pieces(src.args[0])
        if src.op == "skip" and src.args[1].op == "int":
            return self.pieces(src.args[0])[src.args[1].args[0]:]
        if src.op != "split":
            raise Unknown("source " + src.op)
        how, s = src.args[0], self.text(src.args[1])
        if how == "str::split":
            return cut(s, self.sep(src.args[2]))
        if how == "str::rsplit":
            return cut(s, self.sep(src.args[2]), back=True)
        if how == "str::splitn" and src.args[2].op == "int":
            return cut(s, self.sep(src.args[3]), src.args[2].args[0])
        raise Unknown(how)

    def text(self, t):
        if t is T("f", A[1], "url") or t is field(A[1], "url"):
            return self.url
        if t.op == "str":
            return list(t.args[0])
        if t.op == "el":
            ps, k = self.pieces(t.args[0]), self.num(t.args[1])
            if k >= len(ps):
                raise Unknown("piece out of range")
            return ps[k]
        if t.op == "strip":
            s, pre = self.text(t.args[1]), self.sep(t.args[2])
            return s[len(pre):] if t.args[0] == "prefix" else s[:len(s) - len(pre)]
        if t.op in ("tostr", "borrowed"):
            return self.text(t.args[0])
        if t.op == "adt" and last(t.args[0]) == "Cow":
            return self.text(t.args[3])
        if t.op in ("v", "f", "vf") and "url" in show(t, 3):
            base = t
            while base.op in ("v", "f", "vf"):
                base = base.args[0]
            if base is A[1]:
                return self.url
        if t.op == "lower":
            return [x.lower() if isinstance(x, str) else x if x[0] in ("period", "digits") else ("lower " + x[0],)
                    for x in self.text(t.args[0])]
        if t.op == "trimpat" and t.args[2].op in ("char", "int"):
            return trimmed(self.text(t.args[1]), t)
        if t.op in ("trim", "trim_start", "trim_end"):
            s = self.text(t.args[0])
            while s and s[0] == " " and t.op != "trim_end":
                s = s[1:]
            while s and s[-1] == " " and t.op != "trim_start":
                s = s[:-1]
            return s
        raise Unknown("text " + show(t, 3)[:80])

    def num(self, t):
        if t.op == "int":
            return t.args[0]
        if t in self.bind:
            return self.bind[t]
        if t.op == "cnt":
            return len(self.pieces(t.args[0]))
        if t.op == "len":
            s = self.text(t.args[0])
            if not any(isinstance(x, tuple) for x in s):
                return len(s)
        if t.op == "parsed":
            s = self.text(t.args[1])
            if s and all(isinstance(x, str) and x.isdigit() for x in s):
                return int("".join(s))
            if is_number(s):
                raise Depends()
        raise Unknown("number " + show(t, 3)[:80])

    def fact(self, c):
        """Truth of a condition; None if it depends on the settings."""
        try:
            return self.truth(c)
        except Depends:
            return None

    def truth(self, c):
        o = c.op
        if o == "lt":
            return self.num(c.args[0]) < self.num(c.args[1])
        if o == "not":
            v = self.fact(c.args[0])
            return None if v is None else not v
        if o in ("and", "or"):
            vs = [self.fact(x) for x in c.args]
            short = o == "or"
            return short if short in vs else None if None in vs else not short
        if o == "eq" and any(x.op in ("int", "len", "cnt", "ix") for x in c.args):
            return self.num(c.args[0]) == self.num(c.args[1])
        if o == "eq":
            a, b = self.text(c.args[0]), self.text(c.args[1])
            if any(isinstance(x, tuple) for x in a + b):
                return True if a == b else (False if skeleton(a, b) else None)
            return a == b
        if o in ("starts_with", "ends_with"):
            s, pre = self.text(c.args[0]), self.sep(c.args[1])
            got = s[:len(pre)] if o == "starts_with" else s[max(0, len(s) - len(pre)):]
            return None if any(isinstance(x, tuple) for x in got) else got == pre
        if o == "first":
            return True
        if o == "is" and c.args[0].op == "fall" and c.args[0].args[0] == "parse":
            ok_ = is_number(self.text(c.args[0].args[3] if len(c.args[0].args) > 3 else c.args[0].args[1].args[1]))
            return ok_ if c.args[1] in ("Ok", "Some") else (None if ok_ is None else not ok_)
        if o == "isv" and c.args[0].op == "fall":
            return self.fact(T("is", *c.args))
        if o == "exists":
            return self.exists(c)
        if o == "is":
            return None
        raise Unknown("condition " + show(c, 3)[:100])

    def exists(self, c):
        _, src, ix = c.args[:3]
        for k in range(len(self.pieces(src))):
            if self.matches(c, ix, k):
                return True
        return False

    def matches(self, c, ix, k):
        e = Eval(self.url, {**self.bind, ix: k})
        return any(all(e.fact(q) is v for q, v in alt.args[0] if not isinstance(q, tuple)) for alt in c.args[3:])


def skeleton(a, b):
    """Certainly different: literal texts differ whatever the settings are."""
    lit = [x for x in (a, b) if not any(isinstance(y, tuple) for y in x)]
    if not lit:
        return False
    other = b if lit[0] is a else a
    s = "".join(lit[0])
    chars = [x for x in other if not isinstance(x, tuple)]
    if any(c not in s for c in chars):
        return True
    kinds = {x[0] for x in other if isinstance(x, tuple)}
    if kinds <= {"period", "digits"} and not any(ch.isdigit() for ch in s):
        return True
    return bool(kinds == {"secret"} and not re.search("[A-Z2-7]", s))


def is_number(s):
    if len(s) == 1 and s[0] in (("period",), ("digits",)):
        return True
    if s and all(isinstance(x, str) and x.isdigit() for x in s) and len(s) < 10:
        return True
    if any(not isinstance(x, tuple) and not x.isdigit() for x in s) or not s:
        return False
    return None


# ------------------------------------------------------------ reading back

def indices(o):
    out = []
    for k, v in o.facts():
        for x in subterms(k):
            if isinstance(x, Term) and x.op == "ix" and x not in out and k.op != "exists":
                out.append(x)
    return out


def reads(rep, run, name, num, w, label, url, want):
    key = "%s/%s" % (name, label)
    good, seen = 0, 0
    try:
        for o in run.outs:
            ixs = indices(o)
            if len(ixs) > 1:
                raise Unknown("nested searches")
            ranges = [{}]
            if ixs:
                n = len(Eval(url, {}).pieces(ixs[0].args[0]))
                ranges = [{ixs[0]: k} for k in range(n)]
            for bind in ranges:
                if not feasible(run, o, url, bind):
                    continue
                seen += 1
                rep.count("readings")
                got = result(o, url, bind, num)
                if got == want:
                    good += 1
                else:
                    rep.bad(key, w, "with %s reads %s back" % (label, text(got)))
                    return
    except Unknown as e:
        rep.und(key, w, "not understood: %s" % e)
        return
    rep.judge(key, w, good > 0 or None, "returns what was stored", "no outcome")


def text(x):
    return "nothing" if x is None else "".join(y if isinstance(y, str) else "<%s>" % y[0] for y in x)


def result(o, url, bind, num):
    n = o.variant()
    if n == "None":
        return None
    if n != "Some":
        raise Unknown("result " + str(n))
    t = o.payload("Some")
    if num:
        if t.op != "parsed":
            raise Unknown("value " + show(t, 3)[:80])
        if t.args[0] != num:
            return ["parsed as " + t.args[0]]
        t = t.args[1]
    return Eval(url, bind).text(t)


def feasible(run, o, url, bind):
    e = Eval(url, bind)
    for c, v in o.facts():
        if isinstance(c, tuple):
            continue
        if c.op == "first":
            # no earlier element satisfies the search
            for ex, ev in o.facts():
                if ex.op == "exists" and ex.args[2] is c.args[0]:
                    if any(e.matches(ex, ex.args[2], j) for j in range(bind[c.args[0]])):
                        return False
            continue
        if e.fact(c) is (not v):
            return False
    for lid, L in run.eng.loops.items():
        if ("loop", lid) not in o.st.trace:
            continue
        ixs = {x for st in L["back"] for k in st.facts if not isinstance(k, tuple) for x in subterms(k)
               if isinstance(x, Term) and x.op == "ix"}
        if len(ixs) != 1:
            if ixs:
                raise Unknown("loop over several sources")
            continue
        ix = next(iter(ixs))
        n = len(Eval(url, {}).pieces(ix.args[0]))
        for j in range(bind.get(ix, n)):
            if not any(passes(st, url, {ix: j}) for st in L["back"]):
                return False
    return True


def passes(st, url, bind):
    e = Eval(url, bind)
    for c, v in st.facts.items():
        if isinstance(c, tuple):
            continue
        if e.fact(c) is (not v):
            return False
    return True


# ------------------------------------------------------------ any stored URL

def own_name(rep, run, name, key, num, w):
    for o in run.outs:
        rep.count("outcomes")
        if o.variant() == "None":
            continue
        if o.variant() != "Some":
            rep.und(name + "/own", w, "outcome not understood")
            continue
        t = o.payload("Some")
        if num and t.op == "parsed":
            t = t.args[1]
        x = t
        while x.op in ("trim", "trim_start", "trim_end", "tostr"):
            x = x.args[0]
        if x.op == "strip":
            pre = x.args[2]
            rep.judge(name + "/own", w, pre is T("str", key + "=") or (None if pre.op != "str" else False), "value of its own parameter",
                      "returns the rest of a parameter starting with " + show(pre, 3)[:60])
            continue
        if x.op != "el" or x.args[1] is not I(1):
            (rep.und if vague(x, ("ix",)) or x.op != "el" else rep.bad)(name + "/own", w, "returns " + show(x, 4)[:160])
            continue
        half = T("el", x.args[0], I(0))
        names = [b for c, v in o.facts() if c.op == "eq" and v is True for a, b in (c.args, c.args[::-1]) if a is half]
        if T("str", key) in names:
            rep.ok(name + "/own", w, "value of its own parameter")
        elif any(n.op == "str" for n in names):
            rep.bad(name + "/own", w, "returns the value of the parameter " + ", ".join(show(n, 2) for n in names))
        elif any(contains(c, lambda q: q is half) for c, v in o.facts()):
            rep.und(name + "/own", w, "name test not understood")
        else:
            rep.bad(name + "/own", w, "returns a value without testing the parameter's name")
