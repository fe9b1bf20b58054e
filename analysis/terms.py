"""Hash-consed terms used by the abstract interpreter, with normalisation."""


class Term:
    __slots__ = ("op", "args", "id", "_free")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


_tab = {}


def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_tab)
        t._free = None
        _tab[k] = t
    return t


TRUE = T("bool", True)
FALSE = T("bool", False)
UNIT = T("tuple")
EMPTY = T("cat")


def B(b):
    return TRUE if b else FALSE


def I(n):
    return T("int", n)


def is_int(t):
    return t.op == "int"


def show(t, depth=12):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        return repr(t) if isinstance(t, str) else str(t)
    if depth <= 0:
        return "..."
    d = depth - 1
    o, a = t.op, t.args
    if o == "int":
        return str(a[0])
    if o == "bool":
        return "true" if a[0] else "false"
    if o == "str":
        return repr(a[0])
    if o == "sym":
        return "$" + ".".join(str(x) for x in a)
    if o == "f":
        return show(a[0], d) + "." + str(a[1])
    if o == "vf":
        return "(%s as %s).%s" % (show(a[0], d), a[1], a[2])
    if o == "cat":
        return "[" + " ++ ".join(show(x, d) for x in a) + "]"
    if o == "one":
        return "<" + show(a[0], d) + ">"
    if o == "adt":
        nm = a[0].split("::")[-1]
        if a[1] and a[1] != nm:
            nm += "::" + a[1]
        return nm + "{" + ", ".join("%s:%s" % (n, show(x, d)) for n, x in zip(a[2], a[3:])) + "}"
    if o == "ref":
        return "&%s%s" % (show_root(a[0], d), "".join(show_pe(p, d) for p in a[1]))
    if o == "lin":
        s = " + ".join(
            (("%d*" % c) if c != 1 else "") + show(x, d) for x, c in a[1]
        )
        return "(%s + %d)" % (s, a[0]) if a[0] else "(%s)" % s
    if o == "eq":
        return "(%s == %s)" % (show(a[0], d), show(a[1], d))
    if o == "lt":
        return "(%s < %s)" % (show(a[0], d), show(a[1], d))
    if o == "not":
        return "!" + show(a[0], d)
    if o == "isv":
        return "(%s is %s)" % (show(a[0], d), a[1])
    return o + "(" + ", ".join(show(x, d) for x in a) + ")"


def show_root(r, d):
    if isinstance(r, tuple):
        return "{" + ":".join(show(x, d) if isinstance(x, Term) else str(x) for x in r) + "}"
    return str(r)


def show_pe(p, d):
    return "." + "/".join(show(x, d) if isinstance(x, Term) else str(x) for x in p)


# ---------------------------------------------------------------- structure

def children(t):
    for a in t.args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            for x in _tuple_terms(a):
                yield x


def _tuple_terms(a):
    for x in a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            yield from _tuple_terms(x)


def subterms(t, seen=None):
    """All distinct subterms of t (t included)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(children(x))
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def free_loopvs(t):
    f = t._free
    if f is not None:
        return f
    # iterative post-order
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x._free is not None:
            continue
        ch = list(children(x))
        if not done:
            stack.append((x, True))
            stack.extend((c, False) for c in ch if c._free is None)
        else:
            if x.op == "loopv":
                s = frozenset([x])
            else:
                s = frozenset().union(*(c._free for c in ch)) if ch else frozenset()
            x._free = s
    return t._free


_REBUILD = {}


def rebuild(op, args):
    f = _REBUILD.get(op)
    if f is not None:
        return f(*args)
    return T(op, *args)


def subst(t, m, memo=None):
    """Replace subterms by the mapping m (Term->Term), renormalising."""
    if memo is None:
        memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        changed = False
        na = []
        for a in x.args:
            b = goa(a)
            if b is not a:
                changed = True
            na.append(b)
        r = rebuild(x.op, na) if changed else x
        memo[x] = r
        return r

    def goa(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            out = tuple(goa(x) for x in a)
            if all(p is q for p, q in zip(out, a)):
                return a
            return out
        return a

    return go(t)


# ---------------------------------------------------------------- integers

WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64,
         "i64": 64, "u128": 128, "i128": 128, "usize": 64, "isize": 64}


def lin_of(t):
    """(const, {atom: coef}) of an integer term."""
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return T("lin", c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def _re_lin(c, items):
    r = I(c)
    for k, v in items:
        r = add(r, mul(k, I(v)))
    return r


_REBUILD["lin"] = _re_lin


def add(a, b, s=1):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + s * v
    return mk_lin(ca + s * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a.op == "int":
        a, b = b, a
    if b.op == "int":
        c, d = lin_of(a)
        k = b.args[0]
        return mk_lin(c * k, {x: v * k for x, v in d.items()})
    x, y = sorted((a, b), key=lambda t: t.id)
    return T("mul", x, y)


def _fit(v, ty):
    w = WIDTH.get(ty)
    if w is None:
        return v
    v &= (1 << w) - 1
    if ty[0] == "i" and v >> (w - 1):
        v -= 1 << w
    return v


def trunc(ty, x):
    """Integer cast to ty where the value may change."""
    if x.op == "int":
        return I(_fit(x.args[0], ty))
    if x.op == "trunc":
        if WIDTH[ty] <= WIDTH[x.args[0]]:
            return trunc(ty, x.args[1])
    if x.op == "unle" and ty[0] == "u":
        return x if x.args[0] * 8 <= WIDTH[ty] else unle(WIDTH[ty] // 8, subseq(x.args[1], I(0), I(WIDTH[ty] // 8)))
    return T("trunc", ty, x)


def div(a, b):
    """Unsigned quotient."""
    k = _bytes_of(b)
    if a.op == "unle" and k and k < a.args[0]:
        return unle(a.args[0] - k, subseq(a.args[1], I(k), I(a.args[0])))
    return T("div", a, b)


def rem(a, b):
    """Unsigned remainder."""
    k = _bytes_of(b)
    if a.op == "unle" and k:
        return a if k >= a.args[0] else unle(k, subseq(a.args[1], I(0), I(k)))
    return T("rem", a, b)


def _bytes_of(b):
    """k for the constant 256**k."""
    if b.op == "int" and b.args[0] > 1 and b.args[0] & (b.args[0] - 1) == 0 and (b.args[0].bit_length() - 1) % 8 == 0:
        return (b.args[0].bit_length() - 1) // 8
    return 0


def joined(w, *xs):
    """Integer put together from w bytes, each moved to its place, or None."""
    at = {}
    for x in xs:
        for k, b in (_placed(x) or {None: x}).items():
            if k is None or k in at:
                return None
            at[k] = b
    if sorted(at) != list(range(w)):
        return None
    return unle(w, cat(*(T("one", at[k]) for k in range(w))))


def _placed(x):
    """{k: byte} of a sum of bytes times 256**k."""
    if x.op == "trunc":
        x = x.args[1]
    if x.op == "idx":
        return {0: x}
    if x.op == "bin" and x.args[0] == "BitOr":
        a, b = _placed(x.args[1]), _placed(x.args[2])
        return {**a, **b} if a and b and not set(a) & set(b) else None
    c, ks = lin_of(x)
    out = {}
    for b, n in ks.items():
        k = 0 if n == 1 else _bytes_of(I(n))
        if b.op != "idx" or n != 256 ** k or k in out:
            return None
        out[k] = b
    return out if c == 0 and out else None


def min_(a, b):
    if a is b:
        return a
    if a.op == "int" and b.op == "int":
        return a if a.args[0] <= b.args[0] else b
    return T("min", *sorted((a, b), key=lambda t: t.id))


_REBUILD["min"] = min_
_REBUILD["trunc"] = trunc
_REBUILD["div"] = div
_REBUILD["rem"] = rem


def le(w, x, be=False):
    """w bytes, little endian, of integer x."""
    while x.op == "trunc" and WIDTH[x.args[0]] >= w * 8:
        x = x.args[1]
    if x.op == "unle" and x.args[0] == w:
        return x.args[1]
    if x.op == "int":
        v = x.args[0] & ((1 << (8 * w)) - 1)
        bs = v.to_bytes(w, "little")
        return cat(*[T("one", I(b)) for b in bs])
    return T("le", w, x)


_REBUILD["le"] = le


def unle(w, s, signed=False):
    """Unsigned integer of the w little-endian bytes s."""
    if s.op == "le" and s.args[0] == w:
        x = s.args[1]
        return trunc(("i" if signed else "u") + str(8 * w), x)
    ps = parts(s)
    if len(ps) == w and all(p.op == "one" and p.args[0].op == "int" for p in ps):
        v = int.from_bytes(bytes(p.args[0].args[0] & 255 for p in ps), "little", signed=signed)
        return I(v)
    # a narrower number extended with zeros
    k = w
    while k > 1 and ps and ps[-1].op == "one" and ps[-1].args[0] is I(0):
        ps, k = ps[:-1], k - 1
    if k < w and len(ps) == 1 and ps[0].op == "le" and ps[0].args[0] == k:
        return unle(k, ps[0])
    ps = parts(s)
    # bytes k..k+w of the same sequence
    if len(ps) == w and w > 1 and all(p.op == "one" and p.args[0].op == "idx" for p in ps):
        base = ps[0].args[0].args[0]
        lo = ps[0].args[0].args[1]
        if all(p.args[0].args[0] is base and p.args[0].args[1] is add(lo, I(i)) for i, p in enumerate(ps)):
            s = subseq(base, lo, add(lo, I(w)))
    r = T("unle", w, s)
    if signed:
        return T("trunc", "i%d" % (8 * w), r)
    return r


_REBUILD["unle"] = unle


# ---------------------------------------------------------------- sequences

def parts(s):
    if s.op == "cat":
        return s.args
    if s.op == "rep" and s.args[1].op == "int" and s.args[1].args[0] <= 64:
        return tuple(T("one", s.args[0]) for _ in range(s.args[1].args[0]))
    return (s,)


def cat(*ps):
    out = []
    for p in ps:
        if p.op == "cat":
            out.extend(p.args)
        elif p.op == "str" and p.args[0] == "":
            continue
        elif p.op == "rep" and p.args[1].op == "int" and p.args[1].args[0] == 0:
            continue
        else:
            out.append(p)
    # merge adjacent pieces of one sequence
    m = []
    for p in out:
        if m:
            j = _adjacent(m[-1], p)
            if j is not None:
                m[-1] = j
                continue
        m.append(p)
        if p.op == "one" and p.args[0].op == "idx" and p.args[0].args[0].op == "le":
            # all bytes of an encoded number, one by one
            q = p.args[0].args[0]
            w = q.args[0]
            if len(m) >= w and all(x.op == "one" and x.args[0] is T("idx", q, I(i)) for i, x in enumerate(m[-w:])):
                m[-w:] = [q]
    if len(m) == 1 and m[0].op not in ("one",):
        return m[0]
    return T("cat", *m)


def _adjacent(a, b):
    if a.op == "sub" and b.op == "sub" and a.args[0] is b.args[0] and a.args[2] is b.args[1]:
        return subseq(a.args[0], a.args[1], b.args[2])
    if a.op == "take" and b.op == "take" and b.args[0].op == "drop" \
            and b.args[0].args[0] is a.args[0] and b.args[0].args[1] is a.args[1]:
        return T("take", a.args[0], add(a.args[1], b.args[1]))
    if a.op == "take" and b.op == "rest" and b.args[0].op == "drop" \
            and b.args[0].args[0] is a.args[0] and b.args[0].args[1] is a.args[1]:
        return T("rest", a.args[0])
    return None


_REBUILD["cat"] = cat

SEQLEN = {"sha256": 32, "sha512": 64, "hmac256": 32, "uuidbytes": 16}


def length(s):
    o = s.op
    if o == "cat":
        r = I(0)
        for p in s.args:
            r = add(r, length(p))
        return r
    if o == "one":
        return I(1)
    if o == "str":
        return I(len(s.args[0].encode("utf8", "surrogatepass")))
    if o == "le":
        return I(s.args[0])
    if o in SEQLEN:
        return I(SEQLEN[o])
    if o == "rep":
        return s.args[1]
    if o == "take":
        return s.args[1]
    if o == "sub":
        return sub(s.args[2], s.args[1])
    if o == "bmap":
        return length(s.args[2])
    if o == "iter_n" and s.args[1].op == "bmap" and s.args[1].args[2].op == "hole":
        return length(s.args[2])
    if o == "upd":
        return length(s.args[0])
    if o == "splice":
        return length(s.args[0])
    if o == "rand":
        return s.args[1]
    if o in ("keyed", "reverse", "sorted"):
        return length(s.args[-1])
    if o in ("ks", "bdec", "benc"):
        return length(s.args[1])
    if o == "phi":
        ls = {length(x) for x in s.args}
        if len(ls) == 1:
            return ls.pop()
    return T("len", s)


_REBUILD["len"] = length


def drop(s, n):
    """Stream s after n bytes were consumed."""
    if n.op == "int" and n.args[0] == 0:
        return s
    if s.op == "drop":
        return T("drop", s.args[0], add(s.args[1], n))
    return T("drop", s, n)


_REBUILD["drop"] = drop


def subseq(s, lo, hi):
    if lo.op == "int" and lo.args[0] == 0 and hi is length(s):
        return s
    if lo is hi:
        return EMPTY
    if s.op == "sub":
        return subseq(s.args[0], add(s.args[1], lo), add(s.args[1], hi))
    if s.op == "take" and s.args[0].op != "cat":
        return T("take", drop(s.args[0], lo), sub(hi, lo))
    if s.op == "str" and lo.op == "int" and hi.op == "int":
        return T("str", s.args[0].encode()[lo.args[0]:hi.args[0]].decode("latin1"))
    if s.op in ("cat", "rep") :
        # cut on part boundaries
        ps = parts(s)
        pos = I(0)
        start = end = None
        for i, p in enumerate(ps):
            if pos is lo and start is None:
                start = i
            if pos is hi and end is None:
                end = i
            pos = add(pos, length(p))
        if pos is hi:
            end = len(ps)
        if start is not None and end is not None and start <= end:
            return cat(*ps[start:end])
        if s.op == "rep":
            return T("rep", s.args[0], sub(hi, lo))
    if s.op == "splice" and lo.op == "int" and lo.args[0] == 0 and \
            s.args[1].op == "int" and s.args[1].args[0] == 0 and s.args[2] is hi:
        return s.args[3]
    if s.op == "splice" and s.args[1] is lo and s.args[2] is hi:
        return s.args[3]
    return T("sub", s, lo, hi)


_REBUILD["sub"] = subseq


def splice(s, lo, hi, x):
    """s with elements lo..hi replaced by x of the same length."""
    if lo is hi:
        return s
    if lo.op == "int" and lo.args[0] == 0 and hi is length(s):
        return x
    if s.op == "splice" and s.args[1] is lo and s.args[2] is hi:
        s = s.args[0]
    if s.op in ("cat", "rep"):
        ps = parts(s)
        pos = I(0)
        start = end = None
        for i, p in enumerate(ps):
            if pos is lo and start is None:
                start = i
            if pos is hi and end is None:
                end = i
            pos = add(pos, length(p))
        if pos is hi:
            end = len(ps)
        if start is not None and end is not None and start <= end:
            return cat(*(list(ps[:start]) + [x] + list(ps[end:])))
    return T("splice", s, lo, hi, x)


_REBUILD["splice"] = splice


def idx(s, i):
    ps = parts(s)
    if i.op == "int":
        n = i.args[0]
        pos = 0
        for p in ps:
            l = length(p)
            if l.op != "int":
                break
            k = l.args[0]
            if n < pos + k:
                if p.op == "one":
                    return p.args[0]
                if p.op == "le" and k == 1:
                    return p.args[1]
                if p is not s:
                    return idx(p, I(n - pos))
                break
            pos += k
        if s.op == "str":
            b = s.args[0].encode()
            if n < len(b):
                return I(b[n])
    if s.op == "rep":
        return s.args[0]
    if s.op == "upd":
        if s.args[1] is i:
            return s.args[2]
        d = sub(s.args[1], i)
        if d.op == "int" and d.args[0] != 0:
            return idx(s.args[0], i)
    if s.op == "sub":
        return idx(s.args[0], add(s.args[1], i))
    if s.op == "comp":
        src, ix, body = s.args[0], s.args[1], s.args[2]
        if len(s.args) == 3:
            return subst(body, {ix: i})
    if s.op == "one":
        return s.args[0]
    if s.op == "phi":
        return phi([idx(x, i) for x in s.args])
    return T("idx", s, i)


_REBUILD["idx"] = idx


def upd(s, i, v):
    if i.op == "int" and s.op in ("cat", "rep"):
        ps = parts(s)
        n = i.args[0]
        if all(p.op == "one" for p in ps) and n < len(ps):
            l = list(ps)
            l[n] = T("one", v)
            return T("cat", *l)
        if s.op == "rep" and s.args[1].op == "int" and n < s.args[1].args[0] <= 64:
            l = [T("one", s.args[0])] * s.args[1].args[0]
            l[n] = T("one", v)
            return T("cat", *l)
    if s.op == "upd" and s.args[1] is i:
        s = s.args[0]
    if v.op == "idx" and v.args[0] is s and v.args[1] is i:
        return s
    return T("upd", s, i, v)


_REBUILD["upd"] = upd


# ---------------------------------------------------------------- phi

def phi(ts):
    flat = []
    for t in ts:
        if t.op == "phi":
            flat.extend(t.args)
        else:
            flat.append(t)
    u = sorted(set(flat), key=lambda t: t.id)
    if len(u) == 1:
        return u[0]
    if len(u) == 2 and {u[0].op, u[1].op} == {"bool"}:
        pass
    return T("phi", *u)


def _re_phi(*ts):
    return phi(ts)


_REBUILD["phi"] = _re_phi


def merge(a, b, depth=24):
    """Least common generalisation of two alternative values."""
    if a is b:
        return a
    if depth > 0:
        if a.op == "adt" and b.op == "adt" and a.args[:3] == b.args[:3]:
            return T("adt", *(a.args[:3] + tuple(merge(x, y, depth - 1) for x, y in zip(a.args[3:], b.args[3:]))))
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            return T("tuple", *(merge(x, y, depth - 1) for x, y in zip(a.args, b.args)))
        if a.op == "boxv" and b.op == "boxv":
            return T("boxv", merge(a.args[0], b.args[0], depth - 1))
        if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]:
            return T("iter", a.args[0], "any")
        if a.op == "xmlw" and b.op == "xmlw" and a.args[0] is b.args[0]:
            return T("xmlw", a.args[0], merge(a.args[1], b.args[1], depth - 1))
        if a.op == "written" and b.op == "written":
            return written(merge(a.args[0], b.args[0], depth - 1), merge(a.args[1], b.args[1], depth - 1))
        if a.op == "with" and b.op == "with" and a.args[0] is b.args[0]:
            da, db = dict(a.args[1]), dict(b.args[1])
            r = a.args[0]
            for k in sorted(set(da) | set(db)):
                va = da.get(k) if k in da else field(a.args[0], k)
                vb = db.get(k) if k in db else field(b.args[0], k)
                r = with_(r, k, merge(va, vb, depth - 1))
            return r
        if a.op == "with" and b is a.args[0]:
            return merge(a, T("with", b, ()), depth)
        if b.op == "with" and a is b.args[0]:
            return merge(T("with", a, ()), b, depth)
        if a.op in ("cat", "star") or b.op in ("cat", "star"):
            pa, pb = list(parts(a)), list(parts(b))
            n = 0
            while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
                n += 1
            m = 0
            while m < len(pa) - n and m < len(pb) - n and pa[-1 - m] is pb[-1 - m]:
                m += 1
            if n or m:
                ma = cat(*pa[n:len(pa) - m])
                mb = cat(*pb[n:len(pb) - m])
                if len(pa) == len(pb) == n + m + 1 and pa[n].op == "one" and pb[n].op == "one":
                    mid = T("one", merge(pa[n].args[0], pb[n].args[0], depth - 1))
                else:
                    mid = phi([ma, mb])
                return cat(*(pa[:n] + [mid] + pa[len(pa) - m:]))
    return phi([a, b])


# ---------------------------------------------------------------- structs

def written(x, b):
    """Writer value x after the bytes b were written to it."""
    if x.op == "written":
        return T("written", x.args[0], cat(x.args[1], b))
    if x.op in ("cat", "one", "le", "str", "star", "wrote"):  # a buffer
        return cat(x, b)
    return T("written", x, b)


_REBUILD["written"] = written


def with_(base, key, val):
    if base.op == "with":
        d = dict(base.args[1])
        d[key] = val
        return T("with", base.args[0], tuple(sorted(d.items(), key=lambda kv: str(kv[0]))))
    if val.op == "f" and val.args[0] is base and val.args[1] == key:
        return base
    return T("with", base, ((key, val),))


_TRANSPARENT = ("written",)


def field(v, name):
    o = v.op
    if o == "adt":
        try:
            return v.args[3 + v.args[2].index(name)]
        except ValueError:
            return T("f", v, name)
    if o == "tuple":
        n = int(name)
        if n < len(v.args):
            return v.args[n]
        return T("f", v, name)
    if o == "closure":
        n = int(name)
        return v.args[1 + n]
    if o == "with":
        d = dict(v.args[1])
        if name in d:
            return d[name]
        return field(v.args[0], name)
    if o == "v":
        if v.args[0].op == "fall" and v.args[1] in ("Ok", "Some") and name == "0":
            return v.args[0].args[1]
        return T("vf", v.args[0], v.args[1], name)
    if o == "phi":
        return phi([field(x, name) for x in v.args])
    if o == "written":
        return written(field(v.args[0], name), v.args[1])
    return T("f", v, name)


_REBUILD["f"] = field


def variant(v, name):
    """The value v viewed as variant `name`."""
    o = v.op
    if o == "adt":
        if v.args[1] == name:
            return v
        return T("bottom")
    if o == "phi":
        xs = [variant(x, name) for x in v.args]
        xs = [x for x in xs if x.op != "bottom"]
        if not xs:
            return T("bottom")
        return phi(xs)
    if o == "with" and v.args[0].op == "v" and v.args[0].args[1] == name:
        return v
    if o == "written":
        return written(variant(v.args[0], name), v.args[1])
    if o == "v":
        return v
    return T("v", v, name)


_REBUILD["v"] = variant


def _re_vf(x, vn, name):
    return field(variant(x, vn), name)


_REBUILD["vf"] = _re_vf


def variant_name(v):
    o = v.op
    if o == "adt":
        return v.args[1]
    if o == "written":
        return variant_name(v.args[0])
    if o == "v":
        return v.args[1]
    if o == "with":
        return variant_name(v.args[0])
    if o == "phi":
        s = {variant_name(x) for x in v.args}
        if len(s) == 1:
            return s.pop()
    return None


def adt(path, var, names, vals):
    return T("adt", path, var, tuple(names), *vals)


OPT = "std::option::Option"
RES = "std::result::Result"


def some(x):
    return T("adt", OPT, "Some", ("0",), x)


NONE = T("adt", OPT, "None", ())


def ok(x):
    return T("adt", RES, "Ok", ("0",), x)


def err(x):
    return T("adt", RES, "Err", ("0",), x)


# ---------------------------------------------------------------- booleans

def not_(t):
    if t.op == "bool":
        return B(not t.args[0])
    if t.op == "not":
        return t.args[0]
    return T("not", t)


_REBUILD["not"] = not_


def and_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == "and":
            out.extend(t.args)
        else:
            out.append(t)
    u = []
    for t in out:
        if t not in u:
            u.append(t)
    if not u:
        return TRUE
    if len(u) == 1:
        return u[0]
    return T("and", *u)


_REBUILD["and"] = and_


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def isv(x, name):
    n = variant_name(x)
    if n is not None:
        return B(n == name)
    while x.op in ("written",):
        x = x.args[0]
    if name == "Err":
        return not_(T("isv", x, "Ok"))
    return T("isv", x, name)


_REBUILD["isv"] = isv


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "int" and b.op == "int":
        return B(a.args[0] == b.args[0])
    if a.op == b.op and a.op in ("str", "bool", "uuid", "char"):
        return B(a.args == b.args)
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if a.op == "adt" and b.op == "adt" and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args[3:], b.args[3:])])
    if a.op == "adt" and b.op != "phi":
        a, b = b, a
    if b.op == "adt" and a.op != "phi":
        if b is NONE:
            return not_(isv(a, "Some"))
        return and_(isv(a, b.args[1]),
                    *[eq(field(variant(a, b.args[1]), n), y) for n, y in zip(b.args[2], b.args[3:])])
    if a.op in ("cat", "le", "rep") and b.op in ("cat", "le", "rep"):
        pa, pb = parts(a), parts(b)
        if len(pa) == len(pb) and all(p.op == "one" for p in pa + pb):
            return and_(*[eq(x.args[0], y.args[0]) for x, y in zip(pa, pb)])
    for x, y in ((a, b), (b, a)):
        # length checks against constants
        if x is EMPTY or (x.op == "str" and x.args[0] == ""):
            return eq(length(y), I(0))
    if a.op in ("lin", "int") or b.op in ("lin", "int"):
        d = sub(a, b)
        if d.op == "int":
            return B(d.args[0] == 0)
        # normal form: canonical sign, constant on one side
        c, ks = lin_of(d)
        if len(ks) == 1:
            (k, v), = ks.items()
            if c % v == 0:
                return T("eq", k, I(-c // v))
    # le(w,x) == const bytes
    if a.op == "le":
        a, b = b, a
    if b.op == "le" and a.op == "cat":
        pa = parts(a)
        if len(pa) == b.args[0] and all(p.op == "one" and p.args[0].op == "int" for p in pa):
            return eq(b.args[1], unle(b.args[0], a))
    if a.op == "unle" and b.op == "int":
        pass
    if a.op in ("int", "str") or (b.op not in ("int", "str") and b.id < a.id):
        a, b = b, a
    return T("eq", a, b)


_REBUILD["eq"] = eq


def nonneg(t):
    """Is the integer term known to be >= 0 by shape?"""
    if t.op == "int":
        return t.args[0] >= 0
    if t.op in ("len", "unle", "ix", "nread", "cnt"):
        return True
    if t.op == "trunc":
        return t.args[0][0] == "u"
    if t.op == "lin":
        return t.args[0] >= 0 and all(v > 0 and nonneg(k) for k, v in t.args[1])
    if t.op == "min":
        return nonneg(t.args[0]) and nonneg(t.args[1])
    return t.op == "unsigned"


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return B(a.args[0] < b.args[0])
    d = sub(b, a)
    if d.op == "int":
        return B(d.args[0] > 0)
    # canonical: move constant part to one side
    if b.op == "int" and b.args[0] <= 0 and nonneg(a):
        return FALSE
    if a.op == "int" and a.args[0] == 0 and nonneg(b):
        return not_(eq(b, I(0)))
    if b.op == "int" and b.args[0] == 1 and nonneg(a):
        return eq(a, I(0))
    # a < b  <=>  b-a > 0 ; keep integer constant on the right-hand side
    c, ks = lin_of(d)
    if len(ks) == 1:
        (k, v), = ks.items()
        if v == 1:   # k + c > 0  <=> -c < k
            return T("lt", I(-c), k)
        if v == -1:  # c - k > 0 <=> k < c
            return T("lt", k, I(c))
    pos = mk_lin(c if c > 0 else 0, {k: v for k, v in ks.items() if v > 0})
    neg = mk_lin(-c if c < 0 else 0, {k: -v for k, v in ks.items() if v < 0})
    return T("lt", neg, pos)


_REBUILD["lt"] = lt
