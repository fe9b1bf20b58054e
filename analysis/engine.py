"""Abstract interpreter over the dumped MIR.

Every value is a hash-consed term.  Calls to functions of the crate under
analysis are followed context-sensitively, library calls are described by
models.py, loops are widened to a fixpoint.  This is value-flow analysis by
abstract interpretation in a term (value numbering) domain, with one partition
per branch outcome, joins above a bound and widening at loops; there is no
solver and nothing of the analysed program is executed.
"""
import re
from terms import *
import terms as tm

CAP = 1000         # states kept apart at one program point
LOOP_IN = 60       # states kept apart when entering a loop
DEPTH = 60
# library calls that reserve memory for a given number of elements
SIZED = {"with_capacity", "with_capacity_and_hasher", "reserve", "reserve_exact", "try_reserve", "try_reserve_exact", "repeat",
         "resize", "resize_with", "from_elem", "new_uninit_slice", "new_zeroed_slice", "zeroed", "with_capacity_in"}

# steps that decode a text or a number
DECODE = {"b64dec", "rfc3339", "parse", "uuidparse", "uuidof", "utf8", "ymd", "hms", "secs", "dateadd", "tryfrom"}


def inputs(f):
    return [x for x in f.args[2:] if isinstance(x, Term) and x.op not in ("int", "str", "b64")]


def carried(x):
    """A failure of an earlier turn of a loop."""
    return T("earlier", x) if x.op == "fall" and x.args[0] in DECODE else x


class Incomplete(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "pending", "failed", "trace")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.pending = frozenset()
        self.failed = frozenset()
        self.trace = frozenset()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.pending = self.pending
        s.failed = self.failed
        s.trace = self.trace
        return s

    def same(self, o):
        return (self.facts == o.facts and self.mem == o.mem and self.pending == o.pending
                and self.failed == o.failed and self.trace == o.trace)


# ------------------------------------------------------------------ program

def norm_def(d):
    """`alloc::vec::Vec::<T, A>::push` -> `Vec::push`, `core::num::<impl u32>::x` -> `u32::x`."""
    out, depth, i = [], 0, 0
    d = d.replace("->", "=>")
    m = re.search(r"<impl (\[?[A-Za-z0-9_:]+)", d)
    while i < len(d):
        c = d[i]
        if c == "<":
            depth += 1
        elif c == ">" and d[i - 1] != "=":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    segs = [x for x in s.split("::") if x]
    last = segs[-1] if segs else s
    if m:
        t = m.group(1)
        t = "slice" if t.startswith("[") else t.split("::")[-1]
        return t + "::" + last
    if len(segs) >= 2:
        return segs[-2] + "::" + segs[-1]
    return s


def base_ty(t):
    """ADT path of a type string, without references and generics."""
    t = t.strip()
    while True:
        n = re.sub(r"^&('\w+ )?(mut )?", "", t)
        if n == t:
            break
        t = n
    i = t.find("<")
    if t.startswith("["):
        return "[]"
    if t.startswith("dyn "):
        return t
    if i > 0:
        t = t[:i]
    return t.rstrip(":")


class Program:
    def __init__(self, dump):
        self.dump = dump
        self.fns = dump["fns"]
        self.roots = dump["roots"]
        self.adts = dump["adts"]
        self.impls = dump["impls"]
        self.by_path = {}
        for r in self.roots:
            self.by_path.setdefault(r["path"], r)
        self.root_of = {}
        for r in self.roots:
            self.root_of[r["path"]] = r["key"]
        # trait-method table: (trait, method, adt) -> root key
        self.methods = {}
        for r in self.roots:
            io = r.get("implof")
            m = re.match(r"^<(.*) as (.*)>$", io or "")
            if m:
                self_t, tr = m.group(1), m.group(2)
                self.methods[(base_ty(tr), r["name"], base_ty(self_t))] = r["key"]
        self._cfg = {}
        self._scc = None

    # -- structure of one body
    def cfg(self, key):
        c = self._cfg.get(key)
        if c is None:
            c = Cfg(self.fns[key])
            self._cfg[key] = c
        return c

    def callees(self, key):
        out = set()
        for b in self.fns[key]["blocks"]:
            if b and b[1][0] == "call":
                c = b[1][1]
                r = c.get("res")
                if r and r.get("key") in self.fns:
                    out.add(r["key"])
                if r and r.get("fn") and r["fn"].get("res") and r["fn"]["res"].get("key") in self.fns:
                    out.add(r["fn"]["res"]["key"])
            if b:
                for s in b[0]:
                    if s[0] == "=" and s[2][0] == "closure" and s[2][1] in self.fns:
                        out.add(s[2][1])
        return out

    def body_id(self, key):
        """Definition path: instances of the same generic function share it."""
        return self.fns[key]["path"]

    def recursive(self):
        """Definition paths that can call themselves (through anything local)."""
        if self._scc is None:
            g = {}
            for k in self.fns:
                if self.fns[k]["local"]:
                    g.setdefault(self.body_id(k), set()).update(
                        self.body_id(c) for c in self.callees(k) if self.fns[c]["local"])
            reach = {}

            def dfs(n, seen):
                for m in g.get(n, ()):
                    if m not in seen:
                        seen.add(m)
                        dfs(m, seen)
                return seen
            scc = {n for n in g if n in dfs(n, set())}
            loops = {self.body_id(k) for k in self.fns if self.fns[k]["local"] and self.cfg(k).loops}
            # helpers inside a recursion (straight-line, or with one caller) are followed, as long as every cycle keeps a cut
            open_ = {n for n in scc if "{closure" in n}
            one = {n for n in scc if sum(n in ms for m, ms in g.items()) == 1}
            for n in sorted(scc - open_ - (loops - one), key=lambda n: (n in loops, n)):
                seen, todo = set(), [n]
                while todo:
                    for m in g.get(todo.pop(), ()):
                        if m in open_ | {n} and m not in seen:
                            seen.add(m)
                            todo.append(m)
                if n not in seen:
                    open_.add(n)
            self._scc = {n for n in scc if n not in open_ or "{closure" in n}
        return self._scc

    _imp = None

    def impure(self, key):
        """Can the result differ between two calls with equal arguments?"""
        if self._imp is None:
            self._imp = {}
        if key in self._imp:
            return self._imp[key]
        self._imp[key] = False
        r = False
        for b in self.fns[key]["blocks"]:
            if b and b[1][0] == "call":
                d = b[1][1].get("def", "")
                if any(x in d for x in ("rand::", "rand_core", "now", "new_v4", "std::fs", "std::env", "getrandom")):
                    r = True
        if not r:
            r = any(self.impure(c) for c in self.callees(key))
        self._imp[key] = r
        return r

    _hs = None

    def has_switch(self, key, seen=None):
        """Does the body (or a local callee) branch on data?"""
        if self._hs is None:
            self._hs = {}
        if key in self._hs:
            return self._hs[key]
        self._hs[key] = False
        r = False
        for b in self.fns[key]["blocks"]:
            if b and (b[1][0] == "switch" or b[1][0] == "call" and b[1][1].get("def", "").split("::")[-1] in CHOOSING):
                r = True
        if not r:
            r = any(self.has_switch(c) for c in self.callees(key) if self.fns[c]["local"])
        self._hs[key] = r
        return r


# library calls that choose between cases
CHOOSING = {"find", "find_map", "position", "filter", "any", "all", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or",
            "map_or_else", "get", "then", "then_some"}


class Cfg:
    def __init__(self, fn):
        self.fn = fn
        blocks = fn["blocks"]
        n = len(blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(blocks):
            if b is None:
                continue
            t = b[1]
            if t[0] == "goto":
                self.succ[i] = [t[1]]
            elif t[0] == "switch":
                self.succ[i] = [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
            elif t[0] == "drop":
                self.succ[i] = [t[2]]
            elif t[0] == "call":
                self.succ[i] = [t[4]] if t[4] >= 0 else []
            elif t[0] == "assert":
                self.succ[i] = [t[5]]
        for i in range(n):
            self.succ[i] = [s for s in self.succ[i] if 0 <= s < n and blocks[s] is not None]
        # DFS
        order, state, back = [], [0] * n, []
        stack = [(0, iter(self.succ[0]))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state[s] == 0:
                    state[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
                if state[s] == 1:
                    back.append((b, s))
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        pred = [[] for _ in range(n)]
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        self.loops = {}
        for b, h in back:
            body = self.loops.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st.extend(pred[x])
        # keep DFS order consistent: reverse postorder may place exits before loop
        # bodies, which is harmless because loops are executed as one unit


# ------------------------------------------------------------------ engine

class Ctx:
    """Call context: parent, function key and call block."""
    __slots__ = ("id", "parent", "key", "block", "depth", "label")
    _tab = {}

    @staticmethod
    def get(parent, key, block, label=None):
        k = (parent.id if parent else -1, key, block)
        c = Ctx._tab.get(k)
        if c is None:
            c = Ctx()
            c.id = len(Ctx._tab)
            c.parent = parent
            c.key = key
            c.block = block
            c.depth = parent.depth + 1 if parent else 0
            c.label = label
            Ctx._tab[k] = c
        return c

    def chain(self):
        out = []
        c = self
        while c:
            out.append(c)
            c = c.parent
        return list(reversed(out))


class CallInfo:
    __slots__ = ("name", "defp", "callee", "targs", "destty", "argtys", "span", "uid", "ctx", "block", "key")


class Event:
    __slots__ = ("kind", "name", "args", "facts", "span", "fn", "ctx", "data", "uid")

    def __repr__(self):
        return "Event(%s %s %s @%s %s)" % (self.kind, self.name, self.args, self.span, self.fn)


class Engine:
    def __init__(self, prog, opaque=(), opaque_pred=None, no_conv=False, keep=(), unroll=True, sinks=(), escape=(), accel=True,
                 loop_in=None, given=()):
        import models
        self.p = prog
        self.models = models.MODELS
        self.model_prefix = models.PREFIX
        self.entries = {}
        self.sinks = sinks
        self.escape = escape
        self.fnvals = []
        self.fnidx = {}
        self.events = []
        self.loops = {}
        self.opaque = set(opaque)
        self.opaque_pred = opaque_pred
        self.no_conv = no_conv
        self.unknown_calls = {}
        self.analysed = set()
        self.blocks_run = 0
        self.unroll = unroll
        self.accel = accel
        self.loop_in = loop_in or LOOP_IN
        self.given = given
        self.unsigned = set()
        self.signed = set()         # numbers of a signed type later used as unsigned ones
        self.call_sites = set()
        self.budget = 4_000_000
        self.active = []
        self.keep = set(keep)
        self.caps = 0
        self.tags = []

    # ---------------------------------------------------------------- memory
    def content_of_root(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] == "C":
            return root[1]
        if root[0] == "D":
            return T("deref", root[1])
        return T("undef", str(root))

    def read(self, st, loc):
        root, path = loc
        v = self.content_of_root(st, root)
        for pe in path:
            v = self.proj(st, v, pe)
        return v

    def proj(self, st, v, pe):
        k = pe[0]
        if k == "f":
            return field(v, pe[1])
        if k == "v":
            return variant(v, pe[1])
        if k == "*":
            if v.op == "boxv":
                return v.args[0]
            if v.op == "written":
                inner = self.proj(st, v.args[0], pe)
                return written(inner, v.args[1])
            if v.op == "phi":
                return phi([self.proj(st, x, pe) for x in v.args])
            return T("deref", v)
        if k == "i":
            return idx(v, pe[1])
        if k == "sub":
            lo, hi = pe[1], pe[2]
            if hi is None:
                hi = length(v)
            return subseq(v, lo, hi)
        if k == "ent":
            return map_get(v, pe[1])
        if k == "chunk":
            n = pe[2]
            lo = mul(pe[1], n)
            return subseq(v, lo, add(lo, n))
        raise Incomplete("proj " + str(pe))

    def write(self, st, loc, val):
        root, path = loc
        if not path:
            st.mem[root] = val
            return
        v = self.content_of_root(st, root)
        st.mem[root] = self.update(st, v, path, val)

    def update(self, st, v, path, val):
        if not path:
            return val
        pe, rest = path[0], path[1:]
        k = pe[0]
        inner = self.proj(st, v, pe)
        new = self.update(st, inner, rest, val)
        if new is inner:
            return v
        if k == "f":
            name = pe[1]
            if v.op == "adt" and name in v.args[2]:
                i = 3 + v.args[2].index(name)
                a = list(v.args)
                a[i] = new
                return T("adt", *a)
            if v.op == "tuple" and int(name) < len(v.args):
                a = list(v.args)
                a[int(name)] = new
                return T("tuple", *a)
            if v.op == "closure":
                a = list(v.args)
                a[1 + int(name)] = new
                return T("closure", *a)
            return with_(v, name, new)
        if k == "v":
            if v.op == "phi":
                return phi([self.update(st, x, path, val) for x in v.args
                            if variant_name(x) in (None, pe[1])])
            return new
        if k == "*":
            return T("boxv", new)
        if k == "i":
            return upd(v, pe[1], new)
        if k == "sub":
            lo, hi = pe[1], pe[2]
            if hi is None:
                hi = length(v)
            return splice(v, lo, hi, new)
        if k == "ent":
            return T("mapset", v, pe[1], new)
        if k == "chunk":
            n = pe[2]
            lo = mul(pe[1], n)
            return splice(v, lo, add(lo, n), new)
        raise Incomplete("update " + str(pe))

    def place(self, st, fr, pl):
        loc = (("L", fr.id, pl[0]), ())
        for pe in pl[1]:
            k = pe[0]
            if k == "*":
                v = self.read(st, loc)
                loc = self.deref(st, v, loc)
            elif k in ("f", "v"):
                loc = (loc[0], loc[1] + ((k, pe[1]),))
            elif k == "i":
                i = self.read(st, (("L", fr.id, pe[1]), ()))
                loc = (loc[0], loc[1] + (("i", i),))
            elif k == "ci":
                off, fe = int(pe[1]), pe[2]
                i = I(off)
                if fe:
                    i = tm.sub(length(self.read(st, loc)), I(off))
                loc = (loc[0], loc[1] + (("i", i),))
            elif k == "ss":
                lo = I(int(pe[1]))
                l = length(self.read(st, loc))
                hi = tm.sub(l, I(int(pe[2]))) if pe[3] else I(int(pe[2]))
                loc = (loc[0], loc[1] + (("sub", lo, hi),))
            else:
                raise Incomplete("place " + str(pe))
        return loc

    def deref(self, st, v, loc=None):
        if v.op == "ref":
            return (v.args[0], v.args[1])
        if v.op in ("boxv",) and loc is not None:
            return (loc[0], loc[1] + (("*",),))
        if v.op == "written" and loc is not None and v.args[0].op in ("boxv", "written"):
            return (loc[0], loc[1] + (("*",),))
        if v.op == "boxv":
            return (("C", v.args[0]), ())
        return (("D", v), ())

    def ref(self, loc):
        root, path = loc
        if root[0] == "D" and not path:
            return root[1]
        return T("ref", root, path)

    def content(self, st, v, n=6):
        """Value behind any number of references."""
        while n and v.op == "ref":
            v = self.read(st, (v.args[0], v.args[1]))
            n -= 1
        return v

    def snap(self, st, v, depth=8):
        """v with references replaced by what they point to now."""
        if depth <= 0:
            return v
        if v.op == "ref":
            return self.snap(st, self.content(st, v), depth - 1)
        if v.op in ("adt", "tuple", "boxv", "cat", "one", "closure", "iter", "phi", "drop", "gunzip"):
            na, ch = [], False
            for a in v.args:
                b = self.snap(st, a, depth - 1) if isinstance(a, Term) else a
                ch |= b is not a
                na.append(b)
            return rebuild(v.op, na) if ch else v
        return v

    # ---------------------------------------------------------------- facts
    def variant_of(self, st, v):
        n = variant_name(v)
        if n is not None:
            return n
        while v.op == "written":
            v = v.args[0]
        for name in self.variants_known(v):
            r = st.facts.get(T("isv", v, name))
            if r is True:
                return name
            if r is False and name == "Ok":
                return "Err"
            if r is False and name == "Some":
                return "None"
        return None

    _vk = {}

    def variants_known(self, v):
        return self._vk.get(v, ())

    def note_variant(self, v, name):
        s = self._vk.setdefault(v, [])
        if name not in s:
            s.append(name)

    def ev(self, st, c):
        """Truth value of boolean term c, or None."""
        o = c.op
        if o == "bool":
            return c.args[0]
        r = st.facts.get(c)
        if r is not None:
            return r
        if o == "not":
            r = self.ev(st, c.args[0])
            return None if r is None else not r
        if o == "and":
            rs = [self.ev(st, x) for x in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if o == "phi":
            rs = {self.ev(st, x) for x in c.args}
            if len(rs) == 1:
                return rs.pop()
            return None
        if o == "isv":
            n = self.variant_of(st, c.args[0])
            if n is not None:
                return n == c.args[1]
            return None
        if o == "eq":
            a, b = c.args
            ka, kb = self.known(st, a), self.known(st, b)
            if ka is not a or kb is not b:
                c2 = eq(ka, kb)
                if c2 is not c:
                    return self.ev(st, c2)
            if b.op == "int" or a.op in ("lin", "len", "unle"):
                if self.prove_ge(st, tm.sub(tm.sub(a, b), I(1))) or self.prove_ge(st, tm.sub(tm.sub(b, a), I(1))):
                    return False
            return None
        if o == "lt":
            a, b = c.args
            if self.prove_ge(st, tm.sub(tm.sub(b, a), I(1))):
                return True
            if self.prove_ge(st, tm.sub(a, b)):
                return False
            return None
        return None

    def known(self, st, x):
        if x.op in ("int", "str", "bool"):
            return x
        k = st.facts.get(("val", x))
        return k if k is not None else x

    def is_nonneg(self, t):
        return nonneg(t) or t in self.unsigned

    def prove_ge(self, st, e, depth=4):
        """Prove e >= 0 from linear facts."""
        c, ks = lin_of(e)
        if c >= 0 and all(v > 0 and self.is_nonneg(k) for k, v in ks.items()):
            return True
        if depth == 0:
            return False
        # expand min(): min(a,b) <= a, <= b
        negs = [k for k, v in ks.items() if v < 0]
        if not negs and not (c < 0):
            # positive atoms of unknown sign
            negs = []
        for k in negs:
            if k.op == "min":
                for x in k.args:
                    if self.prove_ge(st, subst_lin(e, k, x), depth - 1):
                        return True
        for k in ks:
            kk = st.facts.get(("val", k))
            if kk is not None and kk.op == "int":
                if self.prove_ge(st, subst_lin(e, k, kk), depth - 1):
                    return True
        for k, v in ks.items():
            if v > 0 and k.op == "min" and len(ks) <= 3:
                if all(self.prove_ge(st, subst_lin(e, k, x), depth - 1) for x in k.args):
                    return True
        for f in self.lin_facts(st):
            # use f >= 0: prove e - f >= 0
            fc, fk = lin_of(f)
            useful = any(fk.get(k, 0) < 0 for k in negs) or (not negs and c < 0 and any(
                fk.get(k, 0) > 0 for k in ks)) or (negs == [] and c < 0 and not ks)
            if useful:
                e2 = tm.sub(e, f)
                if e2 is not e and self.prove_ge(st, e2, depth - 1):
                    return True
        return False

    def lin_facts(self, st):
        out = []
        for k, v in st.facts.items():
            if isinstance(k, tuple):
                continue
            if k.op == "lt":
                a, b = k.args
                out.append(tm.sub(tm.sub(b, a), I(1)) if v else tm.sub(a, b))
            elif k.op == "eq" and v and (k.args[1].op in ("int", "lin") or k.args[0].op in ("lin", "len", "unle", "nread")
                                         or k.args[1].op in ("len",)):
                out.append(tm.sub(k.args[0], k.args[1]))
                out.append(tm.sub(k.args[1], k.args[0]))
            elif k.op == "eq" and not v and k.args[1].op == "int" and k.args[1].args[0] == 0 and \
                    self.is_nonneg(k.args[0]):
                out.append(tm.sub(k.args[0], I(1)))
        known = set(out)
        for k, v in st.facts.items():
            if not isinstance(k, tuple) and k.op == "eq" and not v:
                # a >= b and a != b
                for d in (tm.sub(k.args[0], k.args[1]), tm.sub(k.args[1], k.args[0])):
                    if d in known:
                        out.append(tm.sub(d, I(1)))
        return out

    def assume(self, st, c, val):
        """Add the fact c == val; False if contradictory."""
        if c.op == "not":
            return self.assume(st, c.args[0], not val)
        e = self.ev(st, c)
        if e is not None:
            return e == val
        if c.op == "and":
            if val:
                return all(self.assume(st, x, True) for x in c.args)
            unk = [x for x in c.args if self.ev(st, x) is not True]
            if len(unk) == 1:
                return self.assume(st, unk[0], False)
        st.facts[c] = val
        if c.op == "eq" and val:
            a, b = c.args
            if b.op in ("int", "str", "uuid", "char", "bool"):
                st.facts[("val", a)] = b
            elif a.op in ("int", "str", "uuid"):
                st.facts[("val", b)] = a
        if c.op == "isv":
            self.note_variant(c.args[0], c.args[1])
            good = val == (c.args[1] in ("Ok", "Some"))
            if good and st.failed:
                st.failed = self.recovered(st.failed, c.args[0])
            if c.args[0] in st.pending:
                st.pending = st.pending - {c.args[0]}
                if not good:
                    st.failed = st.failed | {c.args[0]}
        return True

    def recovered(self, failed, f):
        """A decoding that failed is made good when the same input is decoded in another way."""
        if f.op != "fall" or f.args[0] not in DECODE:
            return failed
        ins = inputs(f)
        return frozenset(x for x in failed if not (
            x.op == "fall" and x.args[0] in DECODE and x is not f
            and any(contains(a, lambda y: y is b) or contains(b, lambda y: y is a) for a in inputs(x) for b in ins)))

    # ---------------------------------------------------------------- values
    def const(self, c):
        k = c["k"]
        if k == "int":
            ty = c.get("ty")
            v = int(c["v"])
            if ty == "bool":
                return B(v != 0)
            if ty == "char":
                return T("char", v)
            if ty and ty[0] == "i" and ty in WIDTH:
                v = tm._fit(v, ty)
            return I(v)
        if k == "str":
            return T("ref", ("C", T("str", c["v"])), ())
        if k == "ref":
            inner = self.const(c["v"])
            return T("ref", ("C", inner), ())
        if k == "array":
            return T("cat", *[T("one", self.const(x)) for x in c["v"]])
        if k == "tuple":
            return T("tuple", *[self.const(x) for x in c["v"]])
        if k == "adt":
            return adt(c["adt"], c["variant"], [n for n, _ in c["v"]], [self.const(x) for _, x in c["v"]])
        if k == "fn":
            return self.fnval(c["v"])
        if k == "promoted":
            return self.promoted(c["v"])
        if k == "float":
            return T("float", str(c["v"]))
        return T("const", str(c.get("name") or c.get("v")), str(c.get("ty")))

    def fnval(self, callee):
        key = repr(callee)
        i = self.fnidx.get(key)
        if i is None:
            i = len(self.fnvals)
            self.fnvals.append(callee)
            self.fnidx[key] = i
        return T("fnval", i)

    def promoted(self, key):
        st = State()
        outs = self.run_fn(key, [], st, None)
        if not outs:
            return T("const", key, "")
        s, v = outs[0]
        # promoted bodies compute a reference or a value
        return T("ref", ("C", self.snap(s, v)), ()) if v.op != "ref" else T("ref", ("C", self.snap(s, v)), ())

    def operand(self, st, fr, op):
        if op[0] == "c":
            return self.const(op[1])
        loc = self.place(st, fr, op[1])
        v = self.read(st, loc)
        x = v
        while x.op == "written":
            x = x.args[0]
        if x.op == "f":
            # the pointer inside a box stands for a reference to its content
            n = 0
            while x.op == "f":
                x, n = x.args[0], n + 1
            b = x
            while b.op == "written":
                b = b.args[0]
            if b.op == "boxv" and n <= len(loc[1]) and all(pe[0] == "f" for pe in loc[1][-n:]):
                return T("ref", loc[0], loc[1][:-n] + (("*",),))
        return v

    def rvalue(self, st, fr, rv, span):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            return self.ref(self.place(st, fr, rv[2]))
        if k == "discr":
            v = self.read(st, self.place(st, fr, rv[1]))
            return self.discr(st, v, rv[2])
        if k == "adt":
            vals = [self.operand(st, fr, o) for o in rv[4]]
            return adt(rv[1], rv[2], rv[3], vals)
        if k == "tuple":
            return T("tuple", *[self.operand(st, fr, o) for o in rv[1]])
        if k == "array":
            return T("cat", *[T("one", self.operand(st, fr, o)) for o in rv[2]])
        if k == "closure":
            return T("closure", rv[1], *[self.operand(st, fr, o) for o in rv[2]])
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = I(int(rv[2])) if str(rv[2]).isdigit() else T("sym", "constparam", str(rv[2]))
            return T("rep", v, n)
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            return self.cast(v, rv[1], rv[3], rv[4])
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, rv[4] if len(rv) > 4 else None)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if len(rv) > 3 and rv[3] in WIDTH:
                    if a.op == "int":
                        return I(tm._fit(~a.args[0], rv[3]))
                    return T("bitnot", a)
                return not_(a)
            if rv[1] == "PtrMetadata":
                return length(self.content(st, a))
            if rv[1] == "Neg":
                return tm.sub(I(0), a)
            return T("un", rv[1], a)
        if k == "rawptr":
            return self.operand(st, fr, rv[1][0])
        return T("unk", str(rv[1])[:80], fr.id)

    def discr(self, st, v, adtp):
        n = self.variant_of(st, v)
        if n is not None:
            for vr in self.p.adts.get(adtp, {}).get("variants", ()):
                if vr["name"] == n:
                    return I(int(vr["discr"]))
        return T("discr", v, adtp)

    def cast(self, v, kind, fr, to):
        if kind == "IntToInt":
            if fr == "bool":
                if v.op == "bool":
                    return I(1 if v.args[0] else 0)
                return T("b2i", v)
            if fr == "char" or to == "char":
                return T("castc", to, v)
            if fr in WIDTH and to in WIDTH:
                if v.op != "int" and fr[0] == "u":
                    self.mark_unsigned(v)
                if fr[0] == "u" and (WIDTH[to] > WIDTH[fr] or (to[0] == "u" and WIDTH[to] >= WIDTH[fr])):
                    return v
                if fr[0] == "i" and to[0] == "i" and WIDTH[to] >= WIDTH[fr]:
                    return v
                return trunc(to, v)
            if v.op == "discr":
                return T("cast", to, v)
            return v
        return v

    def mark_unsigned(self, v):
        if v.op not in ("int", "lin") and v not in self.signed:
            self.unsigned.add(v)

    def mark_signed(self, v):
        self.signed.add(v)
        self.unsigned.discard(v)

    def binop(self, st, op, a, b, ty):
        if ty and ty[0] == "u" and ty in WIDTH:
            self.mark_unsigned(a)
            self.mark_unsigned(b)
        if op in ("Add", "AddUnchecked"):
            return tm.add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return tm.sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = {"A": tm.add, "S": tm.sub, "M": mul}[op[0]](a, b)
            return T("tuple", r, T("ovf", op[:3], a, b, ty))
        if op in ("Eq", "Ne"):
            r = None
            for x, y in ((a, b), (b, a)):
                if x.op == "discr" and y.op == "int":
                    for vr in self.p.adts.get(x.args[1], {}).get("variants", ()):
                        if int(vr["discr"]) == y.args[0]:
                            r = self.vtest(x.args[0], vr["name"], x.args[1])
            if r is None:
                r = eq(a, b)
            return r if op == "Eq" else not_(r)
        if op == "Lt":
            return lt(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return not_(lt(a, b))
        if op == "Le":
            return not_(lt(b, a))
        if op == "BitAnd":
            if ty == "bool":
                return and_(a, b)
            if a.op == "int" and b.op == "int":
                return I(a.args[0] & b.args[0])
            if b.op == "int" and ty and ty[0] == "u" and b.args[0] > 0 and b.args[0] & (b.args[0] + 1) == 0:
                return tm.rem(a, I(b.args[0] + 1))
            if b.op == "int" and ty in WIDTH and ty[0] == "u":
                low = (1 << WIDTH[ty]) - b.args[0]
                if low > 1 and low & (low - 1) == 0:
                    return sub(a, tm.rem(a, I(low)))
        if op == "BitOr":
            if ty == "bool":
                return or_(a, b)
            if a.op == "int" and b.op == "int":
                return I(a.args[0] | b.args[0])
            if ty in WIDTH and ty[0] == "u":
                r = tm.joined(WIDTH[ty] // 8, a, b)
                if r is not None:
                    return r
        if op == "BitXor" and ty == "bool":
            return not_(eq(a, b))
        if op in ("Shl", "ShlUnchecked") and a.op == "int" and b.op == "int":
            return I(tm._fit(a.args[0] << b.args[0], ty))
        if op == "Div" and b.op == "int" and a.op == "int" and b.args[0]:
            return I(a.args[0] // b.args[0])
        if op in ("Div", "Rem") and ty and ty[0] == "u":
            return tm.div(a, b) if op == "Div" else tm.rem(a, b)
        if op in ("Shr", "ShrUnchecked") and b.op == "int" and ty and ty[0] == "u":
            return tm.div(a, I(1 << b.args[0]))
        if op in ("Shl", "ShlUnchecked") and b.op == "int" and ty and ty[0] == "u":
            return T("trunc", ty, mul(a, I(1 << b.args[0])))
        return T("bin", op, a, b, ty)

    # ---------------------------------------------------------------- events
    def event(self, kind, st, ctx, span, name=None, args=(), data=None, uid=None):
        e = Event()
        e.kind = kind
        e.name = name
        e.args = args
        e.facts = dict(st.facts)
        e.span = span
        e.ctx = ctx
        e.fn = self.p.fns[ctx.key]["path"] if ctx else None
        e.data = data
        e.uid = uid
        self.events.append(e)

    # ---------------------------------------------------------------- running
    def analyse(self, key, args=None, st=None):
        """Analyse a function from symbolic arguments."""
        fn = self.p.fns[key]
        st = st or State()
        if args is None:
            args = []
            for i in range(1, fn["argc"] + 1):
                ty, nm = fn["locals"][i]
                args.append(self.sym_arg(st, "arg%d" % i, ty))
            for c, v in self.given:
                self.assume(st, c, v)
        ctx = Ctx.get(None, key, 0)
        outs = self.run_fn(key, args, st, None)
        return outs

    def sym_arg(self, st, name, ty):
        if ty.startswith("&"):
            inner = re.sub(r"^&('\w+ )?(mut )?", "", ty)
            root = ("A", name)
            st.mem[root] = T("sym", name)
            if inner.startswith("&"):
                st.mem[root] = self.sym_arg(st, name + "*", inner)
            return T("ref", root, ())
        s = T("sym", name)
        if ty in WIDTH and ty[0] == "u":
            self.unsigned.add(s)
        return s

    def run_fn(self, key, args, st, parent, block=0):
        fn = self.p.fns[key]
        ctx = Ctx.get(parent, key, block)
        if ctx.depth > DEPTH:
            raise Incomplete("inlining too deep at " + key)
        self.analysed.add(key)
        for i, a in enumerate(args):
            st.mem[("L", ctx.id, i + 1)] = a
        cfg = self.p.cfg(key)
        self.active.append(key)
        before = st.failed
        rets = []
        allb = set(cfg.order)
        exits, back, rets = self.exec_region(ctx, fn, cfg, allb, 0, [st], None)
        self.active.pop()
        out = []
        for s in rets:
            rv = s.mem.get(("L", ctx.id, 0), UNIT)
            for r, v in list(s.mem.items()):
                if r[0] == "L" and r[1] == ctx.id and v.op == "xmlw":
                    self.keep_doc(s, r, v)
            s.mem = {r: v for r, v in s.mem.items() if not (r[0] == "L" and r[1] == ctx.id)}
            if rv.op == "adt" and rv.args[1] == "Err" and fn["local"] and not fn.get("closure") and not (s.failed - before):
                s.failed = s.failed | {T("refused", fn["path"])}
            out.append((s, rv))
        return out

    def keep_doc(self, st, root, v):
        """A document writer that goes out of scope: what it wrote stays known."""
        if parts(v.args[1]) != ():
            st.mem[("X",) + root[1:]] = v

    def exec_region(self, ctx, fn, cfg, region, entry, states, header):
        pending = {entry: list(states)}
        exits, back, rets = {}, [], []
        first = True
        while pending:
            b = min(pending, key=lambda x: cfg.rpo[x])
            ss = pending.pop(b)
            ss = self.limit(ctx, ss)
            if b in cfg.loops and not (b == header and first):
                ex, lr = self.exec_loop(ctx, fn, cfg, b, ss, region)
                rets.extend(lr)
                for t, l in ex.items():
                    if t == header:
                        back.extend(l)
                    elif t not in region:
                        exits.setdefault(t, []).extend(l)
                    else:
                        pending.setdefault(t, []).extend(l)
                first = False
                continue
            first = False
            for s in ss:
                for t, s2 in self.step_block(ctx, fn, b, s):
                    if t == "ret":
                        rets.append(s2)
                    elif t == header:
                        back.append(s2)
                    elif t not in region:
                        exits.setdefault(t, []).append(s2)
                    else:
                        pending.setdefault(t, []).append(s2)
        return exits, back, rets

    # -- merging
    def limit(self, ctx, ss, cap=None):
        cap = cap or CAP
        out = []
        for s in ss:
            if not any(s.same(o) for o in out):
                out.append(s)
        if len(out) <= cap:
            return out
        self.caps += 1
        buckets = {}
        # states of a failed operation first
        keep = [s for s in out if not s.failed]
        for s in out:
            if s.failed:
                buckets.setdefault(self.sig(s, ctx), []).append(s)
        fl = [self.merge_all(l) for l in buckets.values()]
        if len(keep) + len(fl) <= cap:
            return keep + fl
        buckets = {}
        for s in out:
            buckets.setdefault(self.sig(s, ctx), []).append(s)
        out = []
        for k, l in buckets.items():
            out.append(self.merge_all(l))
        if len(out) > cap:
            b2 = {}
            for s in out:
                b2.setdefault(self.sig(s, ctx, True), []).append(s)
            out = [self.merge_all(l) for l in b2.values()]
        if len(out) > cap:
            out = [self.merge_all(out)]
        return out

    def sig(self, s, ctx, small=False):
        out = []
        for r, v in s.mem.items():
            if r[0] != "L":
                continue
            if small and r != ("L", ctx.id, 0):
                continue
            if not small and r[1] != ctx.id:
                continue
            n = self.variant_of(s, v)
            if n is not None and (v.op != "adt" or v.args[0] in (OPT, RES, "std::ops::ControlFlow")
                                  or len(v.args) == 3):
                out.append((r[2], n))
            elif v.op == "bool":
                out.append((r[2], v.args[0]))
        return (tuple(sorted(out)), bool(s.failed))

    def merge_all(self, l):
        r = l[0]
        for s in l[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, a, b):
        s = State()
        for r, v in a.mem.items():
            w = b.mem.get(r)
            s.mem[r] = v if (w is None or w is v) else merge(v, w)
        for r, w in b.mem.items():
            if r not in s.mem:
                s.mem[r] = w
        for k, v in a.facts.items():
            if b.facts.get(k) == v:
                s.facts[k] = v
        s.pending = a.pending | b.pending
        s.failed = a.failed | b.failed
        s.trace = a.trace & b.trace
        return s

    # -- loops
    def exec_loop(self, ctx, fn, cfg, h, states, region):
        body = cfg.loops[h] & region
        states = self.limit(ctx, states, self.loop_in)
        exits, rets = {}, []
        for s in states:
            ex, rt = self.exec_loop1(ctx, fn, cfg, h, s, body)
            rets.extend(rt)
            for t, l in ex.items():
                exits.setdefault(t, []).extend(l)
        return exits, rets

    def finite_iter(self, s0, backs):
        """Loop over a constant table: every back edge advanced a finite iterator."""
        for r, v in s0.mem.items():
            if v.op == "iter" and isinstance(v.args[1], int):
                n = models_finite(self, s0, v.args[0])
                if n is None or n > 40:
                    continue
                ok_ = True
                for b in backs:
                    w = b.mem.get(r)
                    if w is None or w.op != "iter" or w.args[0] is not v.args[0] or w.args[1] != v.args[1] + 1:
                        ok_ = False
                if ok_ and backs:
                    return True
        return False

    def loop_id(self, ctx, kind, key):
        """Loops get one id per entry; the numbering restarts in every round of an enclosing fixpoint."""
        k = (ctx, kind, key)
        n = self.entries.get(k, 0)
        self.entries[k] = n + 1
        return Ctx.get(ctx, kind, key + (n,)).id

    def invariant_test(self, s0, back):
        """A condition on values the loop does not change that decides which way its body goes."""
        if len(back) < 2:
            return None
        mod = {r for b in back for r, v in b.mem.items() if s0.mem.get(r) is not v}
        fixed = set()
        for r, v in s0.mem.items():
            if r not in mod:
                subterms(v, fixed)
        moving = {s0.mem[r] for r in mod if r in s0.mem}
        for k, v in back[0].facts.items():
            if isinstance(k, tuple) or k.op not in ("lt", "eq", "isv") or k in s0.facts:
                continue
            if not any(b.facts.get(k) == (not v) for b in back[1:]) or any(k not in b.facts for b in back):
                continue
            ts = [a for a in k.args if isinstance(a, Term) and children(a)]
            if ts and all(a in fixed and a.op not in ("fall", "loopv") and not (subterms(a) & moving) for a in ts):
                return k
        return None

    def exec_loop1(self, ctx, fn, cfg, h, s0, body, depth=0):
        L = self.loop_id(ctx, "loop", (h, tuple(self.tags)))
        entries = dict(self.entries)
        mark = len(self.events)
        if self.unroll:
            ex, back, rt = self.exec_region(ctx, fn, cfg, body, h, [s0.copy()], h)
            if not back:
                return ex, rt
            k = self.invariant_test(s0, back) if depth < 3 else None
            if k is not None:
                del self.events[mark:]
                self.entries = entries
                exits, rets = {}, []
                for v in (True, False):
                    s = s0.copy()
                    if not self.assume(s, k, v):
                        continue
                    ex, rt = self.exec_loop1(ctx, fn, cfg, h, s, body, depth + 1)
                    rets.extend(rt)
                    for t, l in ex.items():
                        exits.setdefault(t, []).extend(l)
                return exits, rets
            if self.finite_iter(s0, back):
                exits, rets = dict(ex), list(rt)
                cur = back
                okk = True
                for trip in range(64):
                    cur = self.limit(ctx, cur, CAP)
                    self.tags.append((h, trip))
                    try:
                        ex, nb, rt = self.exec_region(ctx, fn, cfg, body, h, [c.copy() for c in cur], h)
                    finally:
                        self.tags.pop()
                    for t, l in ex.items():
                        exits.setdefault(t, []).extend(l)
                    rets.extend(rt)
                    if not nb:
                        return exits, rets
                    cur = nb
        del self.events[mark:]
        self.entries = entries
        def run(w):
            return self.exec_region(ctx, fn, cfg, body, h, [w], h)
        info = {"init": s0, "ctx": ctx, "fn": fn["path"], "header": h, "id": L}
        return self.fixpoint(s0, L, run, info, mark)

    def model_loop(self, st, ci, run):
        """Fixpoint of a library-driven loop (for_each, fold)."""
        L = self.loop_id(ci.ctx, "mloop", (ci.block, tuple(self.tags)))

        def r(w):
            exits, backs = run(w, None)
            ex = {}
            for s, k in exits:
                ex.setdefault(k, []).append(s)
            return ex, backs, []
        info = {"init": st, "ctx": ci.ctx, "fn": self.p.fns[ci.ctx.key]["path"], "header": ci.block, "id": L}
        ex, _ = self.fixpoint(st, L, r, info, len(self.events))
        return [(s, k) for k, l in ex.items() for s in l]

    def fixpoint(self, s0, L, run, info, mark):
        W = s0.copy()
        W.trace = W.trace | {("loop", L)}
        entries = dict(self.entries)
        for it in range(14):
            del self.events[mark:]
            self.entries = dict(entries)
            ex, back, rt = run(W.copy())
            if not back:
                break
            N = self.widen(W, back, L, it, s0)
            if N.same(W):
                break
            W = N
        else:
            raise Incomplete("loop does not stabilise in " + info["fn"])
        info["W"] = W
        info["back"] = back
        info["exits"] = [(t, s) for t, l in ex.items() for s in l]
        self.loops[L] = info
        # accelerate appended sequences and element-wise fills
        acc = self.accelerate(info)
        if acc:
            for l in list(ex.values()) + [rt]:
                for s in l:
                    self.subst_state(s, acc)
        info["acc"] = acc
        return ex, rt

    def subst_state(self, s, acc):
        keys = set(acc)
        memo = {}
        for r, v in list(s.mem.items()):
            if free_loopvs(v) & keys:
                s.mem[r] = subst(v, acc, memo)
        nf = {}
        for k, v in s.facts.items():
            if isinstance(k, tuple):
                k1 = k[1]
                if free_loopvs(k1) & keys:
                    k1 = subst(k1, acc, memo)
                nf[(k[0], k1)] = v
                continue
            if free_loopvs(k) & keys:
                k = subst(k, acc, memo)
                if k.op == "bool":
                    continue
                neg = False
                while k.op == "not":
                    k = k.args[0]
                    v = not v
                if k.op == "bool":
                    continue
            nf[k] = v
        s.facts = nf
        if s.pending:
            s.pending = frozenset(subst(x, acc, memo) for x in s.pending)
        if s.failed:
            s.failed = frozenset(subst(x, acc, memo) for x in s.failed)

    def widen(self, W, backs, L, it, s0):
        N = State()
        for r, v in W.mem.items():
            vals = [b.mem[r] for b in backs if r in b.mem]
            nv = v
            for w in vals:
                nv = self.widen_val(nv, w, L, (r, ()), it)
            # a root that disappeared on some back edge is dead there
            if len(vals) == len(backs) or r[0] != "L":
                N.mem[r] = nv
            elif vals:
                N.mem[r] = nv
            # else: dead in every next iteration, only live on entry
        for b in backs:
            for r, w in b.mem.items():
                if r not in N.mem and r not in W.mem and r[0] not in ("L",):
                    base = self.content_of_root(W, r)
                    N.mem[r] = self.widen_val(base, w, L, (r, ()), it)
        for k, v in W.facts.items():
            if all(b.facts.get(k) == v for b in backs):
                N.facts[k] = v
        # monotone counters keep their lower bound
        N.pending = W.pending.union(*[b.pending for b in backs])
        N.failed = W.failed.union(*[[carried(x) for x in b.failed] for b in backs])
        N.trace = W.trace
        for r, v in N.mem.items():
            self.counter_facts(N, r, v, s0, backs, L)
        self.loop_facts(N, s0, backs, L)
        return N

    def loop_facts(self, N, s0, backs, L):
        """Inductive facts of a loop: sequences that keep their length, counters that stay within the bound tested."""
        init, steps = {}, [{} for b in backs]
        for x, r in self.find_loopvs(N, L).items():
            i = self._at(N.mem[r], s0.mem.get(r), x)
            if i is None and r not in s0.mem:
                i = self._at(N.mem[r], self.content_of_root(s0, r), x)
            if i is not None:
                init[x] = i
            for b, m in zip(backs, steps):
                w = self.value_at(b, x, r, N)
                if w is not None:
                    m[x] = w
        for x, i in init.items():
            ws = [m.get(x) for m in steps]
            if any(w is None for w in ws):
                continue
            if any(w.op in ("upd", "splice") for w in ws) and all(length(w) is length(x) for w in ws):
                c = eq(length(x), length(i))
                if c.op == "eq":
                    N.facts[c] = True
            if self.prove_ge(s0, tm.sub(length(i), I(1))) and all(self.prove_ge(b, tm.sub(length(w), I(1))) for b, w in zip(backs, ws)):
                c = eq(length(x), I(0))
                if c.op == "eq":
                    N.facts[c] = False
            if not any(w.op in ("lin", "int") for w in ws):
                continue
            self.lockstep(N, x, init, steps)
            tested = set()
            for b in backs:
                for k, v in b.facts.items():
                    if not isinstance(k, tuple) and (k.op == "lt" and v or k.op == "eq" and not v):
                        d = tm.sub(k.args[1], k.args[0])
                        n = lin_of(d)[1].get(x)
                        if n == -1:
                            tested.add(tm.add(d, x))
                        elif n == 1 and k.op == "eq":
                            tested.add(tm.sub(x, d))
            for hi in tested:
                mine = [y for y in free_loopvs(hi) if y.args[0] == L]
                if any(y not in init or any(y not in m for m in steps) for y in mine):
                    continue
                c = lt(hi, x)
                if c.op == "lt" and self.prove_ge(s0, tm.sub(subst(hi, init), i)) and all(
                        self.prove_ge(self.under(b, c), tm.sub(subst(hi, m), m[x])) for b, m in zip(backs, steps)):
                    N.facts[c] = False

    def lockstep(self, N, x, init, steps):
        """Another counter raised by the same amount every time keeps its distance."""
        by = [tm.sub(m[x], x) for m in steps]
        if any(d.op != "int" for d in by) or all(d.args[0] == 0 for d in by):
            return
        for y in init:
            if y is x:
                return
            if all(y in m and m[y].op in ("lin", "int") and tm.sub(m[y], y) is d for m, d in zip(steps, by)):
                c = eq(tm.sub(x, y), tm.sub(init[x], init[y]))
                if c.op == "eq":
                    N.facts[c] = True
                return

    def under(self, st, c):
        st = st.copy()
        st.facts[c] = False
        return st

    def counter_facts(self, N, r, v, s0, backs, L):
        if v.op != "loopv" or v.args[0] != L:
            return
        i0 = s0.mem.get(r)
        if i0 is None:
            return
        good = True
        for b in backs:
            w = b.mem.get(r)
            if w is None:
                continue
            if w is v:
                continue
            d = tm.sub(w, v) if w.op in ("lin", "int", "loopv") else None
            if d is None or not (self.is_nonneg(d)):
                good = False
        if good and i0.op in ("int", "lin", "len", "sym", "f"):
            N.facts.setdefault(lt(v, i0), False) if lt(v, i0).op == "lt" else None
            if i0.op == "int" and i0.args[0] >= 0:
                self.unsigned.add(v)

    def widen_val(self, a, b, L, loc, it):
        if a is b:
            return a
        if a.op == "loopv" and a.args[0] == L and a.args[1] == self.locname(loc):
            return a
        if a.op == "adt" and b.op == "adt" and a.args[:3] == b.args[:3]:
            return T("adt", *(a.args[:3] + tuple(
                self.widen_val(x, y, L, (loc[0], loc[1] + (n,)), it)
                for n, x, y in zip(a.args[2], a.args[3:], b.args[3:]))))
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            return T("tuple", *(self.widen_val(x, y, L, (loc[0], loc[1] + (str(i),)), it)
                                for i, (x, y) in enumerate(zip(a.args, b.args))))
        if a.op == "closure" and b.op == "closure" and a.args[0] == b.args[0]:
            return T("closure", a.args[0], *(self.widen_val(x, y, L, (loc[0], loc[1] + (str(i),)), it)
                                             for i, (x, y) in enumerate(zip(a.args[1:], b.args[1:]))))
        if a.op == "boxv" and b.op == "boxv":
            return T("boxv", self.widen_val(a.args[0], b.args[0], L, (loc[0], loc[1] + ("*",)), it))
        if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]:
            return T("iter", a.args[0], "any")
        if a.op == "xmlw" and b.op == "xmlw" and a.args[0] is b.args[0]:
            return T("xmlw", a.args[0], self.widen_val(a.args[1], b.args[1], L, (loc[0], loc[1] + ("xw",)), it))
        if a.op == "written" or b.op == "written":
            xa, ya = (a.args if a.op == "written" else (a, EMPTY))
            xb, yb = (b.args if b.op == "written" else (b, EMPTY))
            if xa is xb:
                return T("written", xa, self.widen_val(ya, yb, L, (loc[0], loc[1] + ("wr",)), it))
        if (a.op == "with" and b.op == "with" and a.args[0] is b.args[0]) or \
                (a.op == "with" and b is a.args[0]) or (b.op == "with" and a is b.args[0]):
            base = a.args[0] if a.op == "with" else b.args[0]
            da = dict(a.args[1]) if a.op == "with" else {}
            db = dict(b.args[1]) if b.op == "with" else {}
            r = base
            for k in sorted(set(da) | set(db)):
                va = da.get(k) if k in da else field(base, k)
                vb = db.get(k) if k in db else field(base, k)
                r = with_(r, k, self.widen_val(va, vb, L, (loc[0], loc[1] + (k,)), it))
            return r
        return T("loopv", L, self.locname(loc))

    def locname(self, loc):
        return str(loc[0]) + "".join("." + str(x) for x in loc[1])

    def loc_values(self, s, v, w, acc, path=()):
        pass

    def find_loopvs(self, W, L):
        out = {}
        for r, v in W.mem.items():
            for x in free_loopvs(v):
                if x.args[0] == L:
                    out.setdefault(x, r)
        return out

    def value_at(self, s, x, r, W):
        """Value in state s at the location of loop variable x (found structurally)."""
        return self._at(W.mem.get(r), s.mem.get(r), x)

    def _at(self, pat, v, x):
        if pat is x:
            return v
        if pat is None or v is None:
            return None
        if x not in free_loopvs(pat):
            return None
        if pat.op in ("adt", "tuple", "closure", "boxv", "xmlw", "written", "phi", "iter"):
            if pat.op == "written" and v.op != "written":
                v = T("written", v, EMPTY)
            if v.op != pat.op or len(v.args) != len(pat.args):
                return None
            for p, q in zip(pat.args, v.args):
                if isinstance(p, Term) and isinstance(q, Term):
                    r = self._at(p, q, x)
                    if r is not None:
                        return r
        if pat.op == "with":
            for k, p in pat.args[1]:
                r = self._at(p, field(v, k), x)
                if r is not None:
                    return r
        return None

    def accelerate(self, info):
        L = info["id"]
        W, back, s0 = info["W"], info["back"], info["init"]
        acc = {}
        steps = {}
        for x, r in self.find_loopvs(W, L).items():
            init = self._at(W.mem[r], s0.mem.get(r), x)
            if init is None and r not in s0.mem:
                init = self._at(W.mem[r], self.content_of_root(s0, r), x)
            vs = [self.value_at(b, x, r, W) for b in back]
            steps[x] = (init, vs)
            if init is None or any(v is None for v in vs):
                continue
            ap = []
            good = True
            for v in vs:
                if v is x:
                    ap.append(EMPTY)
                    continue
                ps = parts(v)
                if ps and ps[0] is x and not any(x in free_loopvs(p) for p in ps[1:]):
                    ap.append(cat(*ps[1:]))
                else:
                    good = False
                    break
            if good and self.accel and any(a is not EMPTY for a in ap):
                bodies = []
                for a in ap:
                    if a not in bodies:
                        bodies.append(a)
                src = self.loop_source(info)
                b = bodies[0]
                for y in bodies[1:]:
                    b = merge(b, y)
                if len(bodies) > 1 and EMPTY in bodies:
                    b = phi(bodies)
                acc[x] = cat(init, T("star", L, b, src))
        info["steps"] = steps
        # element-wise copy: s[k] = src[c+k] for k over a range
        for x, (init, vs) in steps.items():
            if init is None or len([v for v in vs if v is not None and v is not x]) == 0:
                continue
            vs = [v for v in vs if v is not x]
            if any(v is None or v.op != "upd" or v.args[0] is not x for v in vs) or len(set(vs)) != 1:
                continue
            u = vs[0]
            ix, val = u.args[1], u.args[2]
            n = self.index_range(info, ix, steps)
            if n is None:
                continue
            if val.op == "idx" and not free_loopvs(val.args[0]) & set(steps):
                off = tm.sub(val.args[1], ix)
                if not contains(off, lambda t: t is ix) and not (free_loopvs(off) & set(steps)):
                    if n == "take":
                        continue
                    lo, hi = n
                    hi = subst(hi, {length(x): length(init)})
                    if hi.op == "min":
                        for a, b in (hi.args, hi.args[::-1]):
                            if self.prove_ge(W, tm.sub(b, a)):
                                hi = a
                                break
                    acc[x] = splice(init, lo, hi, subseq(val.args[0], tm.add(off, lo), tm.add(off, hi)))
        # x := f(x), repeated a known number of times
        for x, (init, vs) in steps.items():
            if x in acc or not self.accel or init is None or len(set(vs)) != 1 or vs[0] is None or vs[0] is x:
                continue
            v = vs[0]
            if v.op not in ("bmap", "cat", "upd", "benc", "bdec") or (free_loopvs(v) & set(steps)) - {x}:
                continue
            n = self.loop_count(info, steps)
            if n is not None:
                acc[x] = T("iter_n", n, subst(v, {x: T("hole")}), init)
        # inner occurrences of other loop variables in accelerated terms
        for x in list(acc):
            if free_loopvs(acc[x]) & set(acc):
                acc[x] = subst(acc[x], {k: v for k, v in acc.items() if k is not x})
        return acc

    def loop_count(self, info, steps):
        """Number of iterations of a loop that is left only at the end of its range."""
        src = self.loop_source(info)
        if src is not UNIT:
            for t, s in info["exits"]:
                if any(v and not isinstance(k, tuple) and k.op == "lt"
                       and k.args[0].op in ("ix", "rv") and k.args[0].args[0] is src
                       for k, v in s.facts.items() if k not in info["init"].facts):
                    return None
            return src_count(self, info["W"], src)
        for x in steps:
            r = self.index_range(info, x, steps) or self.countdown(info, x, steps)
            if r is not None:
                return tm.sub(r[1], r[0])
        return None

    def countdown(self, info, ix, steps):
        """[0,n) for a counter that goes from n to 0 one at a time."""
        init, vs = steps[ix]
        if init is None or not self.is_nonneg(init) or any(v is not tm.sub(ix, I(1)) for v in vs):
            return None
        done = {lt(I(0), ix): False, eq(ix, I(0)): True, lt(ix, I(1)): True}
        if info["exits"] and all(any(s.facts.get(c) is v for c, v in done.items()) for t, s in info["exits"]):
            return (I(0), init)
        return None

    def index_range(self, info, ix, steps):
        """[lo,hi) covered by index term ix over the whole loop, if it is a full range."""
        if ix.op == "ix":
            r = src_count(self, info["W"], ix.args[0])
            return (I(0), r) if r is not None else None
        if ix.op == "rv":
            src = ix.args[0]
            return (src.args[0], src.args[1])
        if ix.op == "loopv" and ix in steps:
            init, vs = steps[ix]
            if init is not None and all(v is tm.add(ix, I(1)) for v in vs):
                ends = []
                for t, s in info["exits"]:
                    for k, v in s.facts.items():
                        if not isinstance(k, tuple) and k.args[0] is ix and (k.op == "lt" and v is False or k.op == "eq" and v is True
                                                                           and self.prove_ge(info["init"], tm.sub(k.args[1], init))) \
                                and not free_loopvs(k.args[1]) & set(steps):
                            ends.append(k.args[1])
                            break
                if ends and len(ends) == len(info["exits"]) and len(set(ends)) == 1:
                    return (init, ends[0])
        return None

    def loop_source(self, info):
        for r, v in info["W"].mem.items():
            if v.op == "iter" and v.args[1] == "any":
                i0 = info["init"].mem.get(r)
                if i0 is not None and i0.op == "iter":
                    # only iterators consumed by this very loop
                    if any(b.mem.get(r) is not None for b in info["back"]):
                        if i0.args[1] != "any":
                            return v.args[0]
        return UNIT

    # ---------------------------------------------------------------- blocks
    def step_block(self, ctx, fn, b, st):
        self.blocks_run += 1
        if self.blocks_run > self.budget:
            raise Incomplete("analysis budget exceeded")
        stmts, term = fn["blocks"][b]
        st = st.copy()
        cid = ctx.id
        for s in stmts:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, ctx, s[2], s[3])
                self.write(st, self.place(st, ctx, s[1]), v)
            elif k in ("live", "dead"):
                v = st.mem.pop(("L", cid, s[1]), None)
                if v is not None and v.op == "xmlw":
                    self.keep_doc(st, ("L", cid, s[1]), v)
            elif k == "setd":
                loc = self.place(st, ctx, s[1])
                self.write(st, loc, adt(s[2], s[3], (), ()))
        k = term[0]
        if k == "goto":
            return [(term[1], st)]
        if k == "return":
            return [("ret", st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "drop":
            return [(term[2], st)]
        if k == "switch":
            return self.do_switch(ctx, st, term)
        if k == "assert":
            c = self.operand(st, ctx, term[1])
            exp = bool(term[2])
            ops = [self.operand(st, ctx, o) for o in term[4]]
            self.check_assert(ctx, st, c, exp, term[3], ops, term)
            return [(term[5], st)] if st.facts.get("dead") is None else []
        if k == "call":
            outs = self.do_call(ctx, st, b, term)
            res = []
            tgt = term[4]
            if tgt < 0:
                return []
            for s2, v in outs:
                self.write(s2, self.place(s2, ctx, term[3]), v)
                res.append((tgt, s2))
            return res
        raise Incomplete("terminator " + k)

    def check_assert(self, ctx, st, c, exp, kind, ops, term):
        span = term[6]
        if c.op == "ovf":
            op, a, b, ty = c.args
            r = {"Add": tm.add, "Sub": tm.sub, "Mul": mul}[op](a, b)
            okk = False
            w = WIDTH.get(ty, 64)
            if ty and ty[0] == "u":
                if op == "Sub":
                    okk = self.prove_ge(st, r)
                else:
                    hi = self.upper(st, r)
                    okk = hi is not None and hi < (1 << w)
            if not okk:
                self.event("overflow", st, ctx, span, kind, (op, a, b, ty))
            return
        r = self.ev(st, c if exp else not_(c))
        if r is True:
            return
        self.event("assert", st, ctx, span, kind, tuple(ops), data=c if exp else not_(c))
        self.assume(st, c, exp)

    def upper(self, st, t):
        """Small constant upper bound of an integer term, if evident."""
        if t.op == "int":
            return t.args[0]
        if t.op == "lin":
            s = t.args[0]
            for k, v in t.args[1]:
                if v < 0:
                    if not self.is_nonneg(k):
                        return None
                    continue
                u = self.upper(st, k)
                if u is None:
                    return None
                s += u * v
            return s
        if t.op in ("len", "nread", "cnt", "ix"):
            return 1 << 62
        if t.op == "unle":
            return (1 << (8 * t.args[0])) - 1
        if t.op == "trunc" and t.args[0][0] == "u":
            return (1 << WIDTH[t.args[0]]) - 1
        if t.op == "min":
            us = [self.upper(st, x) for x in t.args]
            us = [u for u in us if u is not None]
            return min(us) if us else None
        for k, v in st.facts.items():
            if isinstance(k, tuple):
                continue
            if k.op == "lt" and v and k.args[0] is t:
                u = self.upper(st, k.args[1]) if k.args[1] is not t else None
                if u is not None:
                    return u - 1
            if k.op == "lt" and not v and k.args[1] is t:
                u = self.upper(st, k.args[0]) if k.args[0].op in ("int", "len") else None
                if u is not None:
                    return u
        return None

    def do_switch(self, ctx, st, term):
        v = self.operand(st, ctx, term[1])
        ty = term[4]
        out = []
        if v.op == "discr":
            x, adtp = v.args
            byd = {int(vr["discr"]): vr["name"] for vr in self.p.adts.get(adtp, {}).get("variants", ())}
            seen = []
            for val, tgt in term[2]:
                name = byd.get(int(val), "?%s" % val)
                seen.append(name)
                s2 = st.copy()
                if self.assume(s2, self.vtest(x, name, adtp), True):
                    out.append((tgt, s2))
            if term[3] is not None:
                rest = [n for n in byd.values() if n not in seen]
                alive = [n for n in rest if self.ev(st, self.vtest(x, n, adtp)) is not False]
                if rest or not byd:
                    s2 = st.copy()
                    good = True
                    for n in seen:
                        if not self.assume(s2, self.vtest(x, n, adtp), False):
                            good = False
                    if good and len(alive) == 1:
                        good = self.assume(s2, self.vtest(x, alive[0], adtp), True)
                    if good and (alive or not byd):
                        out.append((term[3], s2))
            return out
        if ty == "bool":
            for val, tgt in term[2]:
                s2 = st.copy()
                if self.assume(s2, v, int(val) != 0):
                    out.append((tgt, s2))
            vals = {int(x) for x, _ in term[2]}
            other = [b for b in (0, 1) if b not in vals]
            if term[3] is not None and other:
                s2 = st.copy()
                if self.assume(s2, v, other[0] != 0):
                    out.append((term[3], s2))
            return out
        excl = []
        for val, tgt in term[2]:
            n = tm._fit(int(val), ty) if ty in WIDTH else int(val)
            c = eq(v, T("char", n) if ty == "char" else I(n))
            excl.append(c)
            s2 = st.copy()
            if self.assume(s2, c, True):
                out.append((tgt, s2))
        if term[3] is not None:
            s2 = st.copy()
            if all(self.assume(s2, c, False) for c in excl):
                out.append((term[3], s2))
        return out

    def vtest(self, x, name, adtp):
        """x is variant `name`, with two-variant library enums in one form."""
        if adtp == OPT and name == "None":
            return not_(isv(x, "Some"))
        return isv(x, name)

    # ---------------------------------------------------------------- calls
    def do_call(self, ctx, st, b, term):
        _, callee, args, dest, tgt, span, destty, argtys = term[:8]
        vals = [self.operand(st, ctx, a) for a in args]
        ci = CallInfo()
        ci.ctx = ctx
        ci.block = b
        ci.span = span
        ci.destty = destty
        ci.argtys = argtys
        ci.callee = callee
        ci.uid = Ctx.get(ctx, "call", (b, tuple(self.tags))).id
        ci.key = None
        self.call_sites.add((ctx.key, b))
        if "ptr" in callee:
            f = self.operand(st, ctx, callee["ptr"])
            return self.call_value(st, f, vals, ci)
        return self.call(st, callee, vals, ci, diverges=tgt < 0)

    def sub_ci(self, ci, tag, destty=""):
        c = CallInfo()
        c.ctx = Ctx.get(ci.ctx, "sub", (ci.block, tag))
        # models run callbacks below the current function
        c.block = (ci.block, tag)
        c.span = ci.span
        c.destty = destty
        c.argtys = []
        c.callee = None
        c.uid = Ctx.get(ci.ctx, "call", (ci.block, tag, tuple(self.tags))).id
        c.key = None
        c.ctx = ci.ctx
        return c

    def call_value(self, st, f, args, ci):
        """Call a function value with already untupled arguments."""
        f0 = f
        n = 6
        while f0.op == "ref" and n:
            inner = self.read(st, (f0.args[0], f0.args[1]))
            if inner.op in ("closure", "fnval", "ref", "boxv"):
                if inner.op == "closure":
                    return self.call_closure(st, inner, f0, args, ci)
                f0 = inner
                n -= 1
                continue
            f0 = inner
            break
        if f0.op == "boxv":
            return self.call_value(st, f0.args[0], args, ci)
        if f0.op == "closure":
            return self.call_closure(st, f0, None, args, ci)
        if f0.op == "fnval":
            return self.call(st, self.fnvals[f0.args[0]], args, ci)
        r = T("callfn", self.snap(st, f0), ci.uid, *[self.snap(st, a) for a in args])
        self.event("callfn", st, ci.ctx, ci.span, "callfn", tuple([f0] + args), data=r, uid=ci.uid)
        return [(st, r)]

    def call_closure(self, st, clo, cref, args, ci):
        key = clo.args[0]
        fn = self.p.fns.get(key)
        if fn is None:
            return [(st, T("call", key, ci.uid, *[self.snap(st, a) for a in args]))]
        mode = fn["closure"]
        if mode == "ref":
            if cref is None:
                root = ("H", "clo", ci.uid)
                st.mem[root] = clo
                cref = T("ref", root, ())
            return self.inline(st, key, [cref] + args, ci)
        return self.inline(st, key, [clo] + args, ci)

    def inline(self, st, key, args, ci):
        fn = self.p.fns[key]
        if fn["spread"] is not None and fn["spread"] is not False and len(args) < fn["argc"]:
            pass
        return self.run_fn(key, args, st, ci.ctx, ci.block)

    def call(self, st, callee, vals, ci, diverges=False):
        d = callee["def"]
        res = callee.get("res")
        ci.callee = callee
        ci.defp = d
        ci.name = norm_def(d)
        ci.targs = callee.get("targs", [])
        if callee.get("ctor"):
            a, v = callee["ctor"]
            return [(st, adt(a, v, [str(i) for i in range(len(vals))], vals))]
        if not callee.get("local") and ci.name.split("::")[-1] in SIZED:
            ns = tuple(v for v, t in zip(vals, ci.argtys or []) if t in ("usize", "u64", "u32"))
            if ns:
                self.event("alloc", st, ci.ctx, ci.span, ci.name, ns)
        if diverges:
            self.event("diverge", st, ci.ctx, ci.span, d, tuple(vals))
            # user-visible panics only; nothing continues
            return []
        # closures and function pointers through the Fn traits
        if callee.get("trait") in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"):
            tup = vals[1]
            a = list(tup.args) if tup.op == "tuple" else [tup]
            return self.call_value(st, vals[0], a, ci)
        if res and res.get("kind") in ("closure", "closure_once"):
            tup = vals[1] if len(vals) > 1 else UNIT
            a = list(tup.args) if tup.op == "tuple" else [tup]
            return self.call_value(st, vals[0], a, ci)
        if res and res.get("kind") == "clone":
            return [(st, self.content(st, vals[0]))]
        key = res.get("key") if res else None
        if key is not None and key not in self.p.fns:
            key = None
        local = callee.get("local") or (key and self.p.fns[key]["local"])
        path = (res or {}).get("path") or d
        ci.key = key
        # derived traits of local types have their library meaning
        if res and res.get("derived") and callee.get("trait"):
            m = self.models.get("derived " + ci.name)
            if m:
                out = m(self, st, vals, ci)
                if out is not None:
                    return self.outs(st, out)
        # library models take precedence over look-through bodies
        if not (key and self.p.fns[key]["local"]) or callee.get("trait") in MODELLED_TRAITS:
            m = self.models.get(ci.name)
            if m is None:
                m = self.models.get("*::" + ci.name.split("::")[-1]) if not callee.get("local") else None
            if m is not None and not (callee.get("local") and not callee.get("trait")):
                out = m(self, st, vals, ci)
                if out is not None:
                    return self.outs(st, out)
        if key is None and callee.get("trait"):
            key = self.devirt(st, callee, vals)
            if key:
                path = self.p.fns[key]["path"]
        if key is not None:
            fn = self.p.fns[key]
            if self.is_opaque(fn, key, path):
                return self.opaque_call(st, fn["path"], vals, ci, local=True, pure=not self.p.impure(key))
            if fn["local"] and not self.no_conv and callee.get("trait") == "std::convert::From" and \
                    len(vals) == 1 and self.p.has_switch(key) and self.conv_arg(st, vals[0]):
                return [(st, T("conv", path, self.snap(st, vals[0])))]
            return self.inline(st, key, vals, ci)
        return self.opaque_call(st, path if callee.get("local") else ci.name, vals, ci,
                                local=bool(callee.get("local")))

    def conv_arg(self, st, v):
        """A conversion argument whose case is not known."""
        if v.op in ("int", "uuid", "bool", "str"):
            return False
        if v.op == "adt" or self.variant_of(st, v) is not None:
            return False
        if v.op == "ref":
            return False
        return True

    def devirt(self, st, callee, vals):
        if not vals:
            return None
        m = callee["def"].split("::")[-1]
        v = self.content(st, vals[0])
        n = 8
        while v.op in ("boxv", "written", "drop") and n:
            v = v.args[0]
            if v.op == "ref":
                v = self.content(st, v)
            n -= 1
        if v.op == "adt":
            return self.p.methods.get((callee["trait"], m, v.args[0]))
        return None

    def is_opaque(self, fn, key, path):
        if path in self.opaque or fn["path"] in self.opaque:
            return True
        if self.opaque_pred and self.opaque_pred(fn, key):
            return True
        if fn["local"] and fn["path"] in self.p.recursive():
            return any(self.p.fns[k]["path"] == fn["path"] for k in self.active) or True
        return False

    def outs(self, st, out):
        if isinstance(out, Term):
            return [(st, out)]
        return out

    def opaque_call(self, st, name, vals, ci, local=False, pure=None):
        snaps = [self.snap(st, v) for v in vals]
        muts = [i for i, t in enumerate(ci.argtys or []) if t.startswith("&") and re.match(r"^&('\w+ )?mut ", t)
                and i < len(vals) and vals[i].op == "ref"]
        if not local:
            self.unknown_calls[name] = self.unknown_calls.get(name, 0) + 1
        if pure is None:
            pure = not local
        pure = pure and not muts
        r = T("call", name, 0 if pure else ci.uid, *snaps)
        self.event("call", st, ci.ctx, ci.span, name, tuple(snaps), data=r, uid=ci.uid)
        for i in muts:
            loc = (vals[i].args[0], vals[i].args[1])
            old = self.content(st, vals[i])
            loc = self.final_loc(st, vals[i])
            self.write(st, loc, self.after_call(old, name, i, r, ci))
        if name in self.escape:
            # a stage handed over by value: buffers behind it receive its output
            for v in vals:
                held = self.content(st, v)
                for x in subterms(held):
                    if x.op == "ref" and x.args[0][0] != "C":
                        c = self.read(st, (x.args[0], x.args[1]))
                        if parts(c) == () or c.op in ("cat", "stageout"):
                            self.write(st, (x.args[0], x.args[1]), cat(c, T("stageout", r)))
        self.note_result(st, r, ci)
        return [(st, r)]

    def after_call(self, old, name, i, r, ci):
        if old.op == "xmlw":
            return T("xmlw", old.args[0], cat(old.args[1], T("one", T("callout", r, i))))
        if name in self.sinks and i == 0:
            return written(old, T("wrote", name, *r.args[3:]))
        return T("after", name, i, r)

    def final_loc(self, st, v):
        loc = (v.args[0], v.args[1])
        n = 6
        while n:
            x = self.read(st, loc)
            if x.op == "ref":
                loc = (x.args[0], x.args[1])
                n -= 1
            else:
                break
        return loc

    def note_result(self, st, r, ci):
        if ci.destty and ci.destty.startswith("std::result::Result<"):
            st.pending = st.pending | {r}


MODELLED_TRAITS = {
    "std::io::Read", "std::io::Write", "std::clone::Clone", "std::cmp::PartialEq", "std::iter::Iterator",
    "std::borrow::ToOwned", "std::string::ToString", "std::iter::IntoIterator",
}


def subst_lin(e, k, x):
    c, d = lin_of(e)
    v = d.pop(k)
    return tm.add(mk_lin(c, d), mul(x, I(v)))


def map_get(m, k):
    return T("mapval", m, k)


def models_finite(eng, st, src):
    import models
    return models.finite_len(eng, st, src)


def src_count(eng, st, src):
    import models
    return models.src_count(eng, st, src)
