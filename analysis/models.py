"""Meaning of library functions, in terms of the abstract values of engine.py.

A model gets (engine, state, argument values, call info) and returns a value,
a list of (state, value) alternatives, or None to decline.
"""
import re
from terms import *
import terms as tm

MODELS = {}
PREFIX = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def fall(kind, payload, *key):
    """A library Result that may be an error; its Ok payload is `payload`."""
    return T("fall", kind, payload, *key)


def pend(st, r):
    st.pending = st.pending | {r}
    return r


def fork(st):
    return st.copy()


def inner_ty(t):
    return re.sub(r"^&('\w+ )?(mut )?", "", t or "")


SEQ_OPS = ("cat", "one", "str", "rep", "le", "take", "rest", "sub", "splice", "upd", "star", "comp",
           "sha256", "sha512", "hmac256", "uuidbytes", "ks", "rand", "resize", "b64dec", "b64enc", "lower")


def is_seq_ty(t):
    t = inner_ty(t)
    return t.startswith(("std::vec::Vec<", "alloc::vec::Vec<", "[", "std::string::String")) or t == "str"


def is_seq(eng, st, v, ty):
    return is_seq_ty(ty) or v.op in SEQ_OPS


def arg0_loc(eng, st, v):
    """Location of the object behind (possibly several) references."""
    if v.op == "ref":
        return eng.final_loc(st, v)
    return eng.deref(st, v)


# ------------------------------------------------------------ references

@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow",
       "BorrowMut::borrow_mut", "Vec::as_slice", "Vec::as_mut_slice", "String::as_str", "String::as_bytes",
       "str::as_bytes", "slice::as_ref", "GenericArray::as_slice", "GenericArray::from_slice",
       "GenericArray::as_mut_slice", "GenericArray::from_mut_slice", "String::as_mut_str", "array::as_slice",
       "str::as_ref", "slice::as_mut_ptr", "Option::as_slice")
def m_deref(eng, st, a, ci):
    v = a[0]
    if ci.name in ("GenericArray::from_slice", "GenericArray::from_mut_slice"):
        fixed(eng, st, ci, v, (ci.targs or [""])[-1])
    t = inner_ty((ci.argtys or [""])[0])
    if v.op == "ref":
        if t.startswith("std::boxed::Box<"):
            loc = (v.args[0], v.args[1])
            x = eng.read(st, loc)
            if x.op == "ref":
                return x
            return eng.ref((loc[0], loc[1] + (("*",),)))
        if ci.name.startswith(("Deref", "DerefMut")) and not t.startswith(
                ("std::vec::Vec", "std::string::String", "std::borrow::Cow", "[", "std::sync", "std::rc",
                 "cipher::generic_array", "generic_array", "std::path")):
            # smart pointers of other crates / statics
            x = eng.content(st, v)
            if ci.callee.get("local") or (ci.callee.get("res") or {}).get("key"):
                return None
            return T("ref", ("C", T("call", "Deref::deref", 0, t, x)), ())
        while True:
            x = eng.read(st, (v.args[0], v.args[1]))
            if x.op == "ref":
                v = x
            else:
                return v
    return v


@model("Box::new", "Rc::new", "Arc::new", "Box::pin")
def m_boxnew(eng, st, a, ci):
    return T("boxv", a[0])


@model("Box::new_uninit")
def m_boxuninit(eng, st, a, ci):
    return T("boxv", T("uninit"))


@model("boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(eng, st, a, ci):
    v = a[0]
    if v.op == "boxv":
        v = v.args[0]
    n = 4
    while v.op == "with" and n:
        # MaybeUninit{value: ManuallyDrop{value: [..]}}
        v = dict(v.args[1]).get("value", v)
        n -= 1
    while v.op == "adt" and n:
        v = v.args[3] if len(v.args) > 3 else v
        n -= 1
    return v


@model("Box::from_raw", "Box::into_inner", "hint::must_use", "slice::into_vec", "Vec::into_boxed_slice",
       "String::into_bytes", "String::into_boxed_str", "convert::identity", "CtOutput::into_bytes",
       "Vec::shrink_to_fit", "hint::black_box", "BufReader::new", "BufWriter::new", "String::into_string",
       "Cow::into_owned", "BufReader::with_capacity_")
def m_ident(eng, st, a, ci):
    return a[0]


@model("ToOwned::to_owned", "Clone::clone", "slice::to_vec", "str::to_owned", "str::to_string", "Vec::clone",
       "derived Clone::clone", "String::clone", "str::into_string", "Option::cloned_", "slice::to_owned",
       "Cow::to_mut_")
def m_clone(eng, st, a, ci):
    return eng.content(st, a[0], 1) if ci.name.startswith("Clone") else eng.content(st, a[0])


@model("Clone::clone_from")
def m_clone_from(eng, st, a, ci):
    eng.write(st, arg0_loc(eng, st, a[0]), eng.content(st, a[1], 1))
    return UNIT


@model("mem::take")
def m_take(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    old = eng.read(st, loc)
    eng.write(st, loc, default_of(eng, inner_ty(ci.argtys[0])))
    return old


@model("mem::replace")
def m_replace(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    old = eng.read(st, loc)
    eng.write(st, loc, a[1])
    return old


@model("mem::swap")
def m_swap(eng, st, a, ci):
    l1, l2 = arg0_loc(eng, st, a[0]), arg0_loc(eng, st, a[1])
    x, y = eng.read(st, l1), eng.read(st, l2)
    eng.write(st, l1, y)
    eng.write(st, l2, x)
    return UNIT


@model("mem::drop")
def m_drop(eng, st, a, ci):
    return UNIT


@model("mem::size_of")
def m_sizeof(eng, st, a, ci):
    t = (ci.targs or [""])[0]
    if t in WIDTH:
        return I(WIDTH[t] // 8)
    m = re.match(r"\[u8; (\d+)\]", t)
    return I(int(m.group(1))) if m else None


def default_of(eng, ty):
    ty = ty.strip()
    if is_seq_ty(ty):
        m = re.match(r"^\[(.*); (\d+)\]$", ty)
        if m:
            return T("rep", default_of(eng, m.group(1)), I(int(m.group(2))))
        return EMPTY
    if ty.startswith("std::option::Option<"):
        return NONE
    if ty in WIDTH:
        return I(0)
    if ty == "bool":
        return FALSE
    if ty.startswith("std::collections::HashMap") or ty.startswith("std::collections::BTreeMap"):
        return T("map0")
    if ty.startswith("std::boxed::Box<"):
        return T("boxv", default_of(eng, ty[len("std::boxed::Box<"):-1]))
    if ty == "()":
        return UNIT
    return T("default", ty)


@model("Default::default", "derived Default::default")
def m_default(eng, st, a, ci):
    if ci.key and eng.p.fns[ci.key]["local"]:
        return None
    t = ci.destty
    d = default_of(eng, t)
    if d.op == "default":
        # derived Default of a local struct with a dumped body is inlined
        if ci.key:
            return None
        if "sha2" in t or "Sha256" in t or "Sha512" in t or "CoreWrapper" in t:
            return T("hasher", hash_alg(t), EMPTY)
        if "OsRng" in t:
            return T("osrng")
    return d


# ------------------------------------------------------------ numbers, bytes

def _w(name):
    return WIDTH[name.split("::")[0]] // 8


for _t in ("u8", "u16", "u32", "u64", "i16", "i32", "i64", "u128", "i8", "usize"):
    def _mk(t):
        w = WIDTH[t] // 8
        sg = t[0] == "i"

        def from_le(eng, st, a, ci):
            return unle(w, eng.content(st, a[0]), sg)

        def to_le(eng, st, a, ci):
            return le(w, a[0])

        def from_be(eng, st, a, ci):
            return T("unbe", w, eng.content(st, a[0]))

        def to_be(eng, st, a, ci):
            return T("be", w, a[0])
        MODELS[t + "::from_le_bytes"] = from_le
        MODELS[t + "::to_le_bytes"] = to_le
        MODELS[t + "::from_ne_bytes"] = lambda eng, st, a, ci: T("unne", w, eng.content(st, a[0]))
        MODELS[t + "::to_ne_bytes"] = lambda eng, st, a, ci: T("ne", w, a[0])
        MODELS[t + "::from_be_bytes"] = from_be
        MODELS[t + "::to_be_bytes"] = to_be

        def w_add(eng, st, a, ci):
            return wrap(t, tm.add(a[0], a[1]))

        def w_sub(eng, st, a, ci):
            return wrap(t, tm.sub(a[0], a[1]))

        def wrap(ty, x):
            if x.op == "int":
                return I(tm._fit(x.args[0], ty))
            return T("wrap", ty, x)

        def c_op(f):
            def g(eng, st, a, ci):
                eng.mark_unsigned(a[0]) if t[0] == "u" else None
                eng.mark_unsigned(a[1]) if t[0] == "u" else None
                r = f(a[0], a[1])
                if r.op == "int":
                    return some(r) if tm._fit(r.args[0], t) == r.args[0] else NONE
                s2 = st.copy()
                fact = T("fits", t, r)
                out = []
                if f is tm.sub and t[0] == "u":
                    c = lt(a[0], a[1])
                    if eng.assume(st, c, False):
                        out.append((st, some(r)))
                    if eng.assume(s2, c, True):
                        out.append((s2, NONE))
                    return out
                if eng.assume(st, fact, True):
                    out.append((st, some(r)))
                if eng.assume(s2, fact, False):
                    out.append((s2, NONE))
                return out
            return g

        def s_sub(eng, st, a, ci):
            s2 = st.copy()
            c = lt(a[0], a[1])
            out = []
            if eng.assume(st, c, False):
                out.append((st, tm.sub(a[0], a[1])))
            if eng.assume(s2, c, True):
                out.append((s2, I(0)))
            return out
        MODELS[t + "::wrapping_add"] = w_add
        MODELS[t + "::wrapping_sub"] = w_sub
        MODELS[t + "::checked_add"] = c_op(tm.add)
        MODELS[t + "::checked_sub"] = c_op(tm.sub)
        MODELS[t + "::checked_mul"] = c_op(tm.mul)
        if t[0] == "u":
            MODELS[t + "::saturating_sub"] = s_sub
        MODELS[t + "::min"] = lambda eng, st, a, ci: tm.min_(*a)
    _mk(_t)


@model("Ord::min", "cmp::min")
def m_min(eng, st, a, ci):
    if ci.destty not in WIDTH:
        return None
    if a[0].op == "int" and a[1].op == "int":
        return I(min(a[0].args[0], a[1].args[0]))
    if a[0] is a[1]:
        return a[0]
    if ci.destty[0] == "u":
        eng.mark_unsigned(a[0])
        eng.mark_unsigned(a[1])
    x, y = a
    if eng.ev(st, lt(y, x)) is False:
        return x
    if eng.ev(st, lt(x, y)) is False:
        return y
    # keep the comparison as a fact, one state per outcome
    s2 = st.copy()
    out = []
    if eng.assume(st, lt(y, x), False):
        out.append((st, x))
    if eng.assume(s2, lt(y, x), True):
        out.append((s2, y))
    return out


@model("Ord::max", "cmp::max")
def m_max(eng, st, a, ci):
    if ci.destty not in WIDTH:
        return None
    x, y = a
    if x is y:
        return x
    s2 = st.copy()
    out = []
    if eng.assume(st, lt(x, y), False):
        out.append((st, x))
    if eng.assume(s2, lt(x, y), True):
        out.append((s2, y))
    return out


def cmp_model(f):
    def m(eng, st, a, ci):
        t = inner_ty(ci.argtys[0]) if ci.argtys else ""
        x, y = eng.content(st, a[0]), eng.content(st, a[1])
        if inner_ty(t) in WIDTH:
            return f(x, y)
        return None
    return m


MODELS["PartialOrd::lt"] = cmp_model(lambda x, y: lt(x, y))
MODELS["PartialOrd::gt"] = cmp_model(lambda x, y: lt(y, x))
MODELS["PartialOrd::le"] = cmp_model(lambda x, y: not_(lt(y, x)))
MODELS["PartialOrd::ge"] = cmp_model(lambda x, y: not_(lt(x, y)))


@model("PartialEq::eq", "derived PartialEq::eq", "str::eq", "Option::eq")
def m_eq(eng, st, a, ci):
    if ci.key and eng.p.fns[ci.key]["local"] and not (ci.callee.get("res") or {}).get("derived"):
        return None
    return eq(eng.snap(st, eng.content(st, a[0])), eng.snap(st, eng.content(st, a[1])))


@model("PartialEq::ne", "derived PartialEq::ne")
def m_ne(eng, st, a, ci):
    return not_(eq(eng.snap(st, eng.content(st, a[0])), eng.snap(st, eng.content(st, a[1]))))


@model("RangeInclusive::contains", "Range::contains")
def m_contains(eng, st, a, ci):
    r = eng.content(st, a[0])
    x = eng.content(st, a[1])
    lo, hi, incl = range_bounds(eng, st, r, None)
    if lo is None:
        return None
    return and_(not_(lt(x, lo)), not_(lt(hi, x)) if incl else lt(x, hi))


@model("RangeInclusive::new")
def m_rangeincl(eng, st, a, ci):
    return adt("std::ops::RangeInclusive", "RangeInclusive", ("start", "end", "exhausted"), (a[0], a[1], FALSE))


@model("Not::not")
def m_not(eng, st, a, ci):
    return not_(eng.content(st, a[0])) if ci.destty == "bool" else None


@model("Add::add")
def m_add(eng, st, a, ci):
    if ci.destty in WIDTH:
        return tm.add(eng.content(st, a[0]), eng.content(st, a[1]))
    if ci.destty.endswith("String"):
        return cat(a[0], eng.content(st, a[1]))
    return None


@model("Sub::sub")
def m_sub(eng, st, a, ci):
    if ci.destty in WIDTH:
        return tm.sub(eng.content(st, a[0]), eng.content(st, a[1]))
    if [inner_ty(t).endswith("NaiveDateTime") for t in ci.argtys or ()] == [True, True]:
        return T("datediff", eng.content(st, a[0]), eng.content(st, a[1]))
    return None


@model("Mul::mul", "Shr::shr", "Shl::shl", "BitAnd::bitand", "BitOr::bitor")
def m_operator(eng, st, a, ci):
    if ci.destty not in WIDTH:
        return None
    op = {"mul": "Mul", "shr": "Shr", "shl": "Shl", "bitand": "BitAnd", "bitor": "BitOr"}[ci.name.split("::")[-1]]
    return eng.binop(st, op, eng.content(st, a[0]), eng.content(st, a[1]), ci.destty)


@model("AddAssign::add_assign")
def m_addassign(eng, st, a, ci):
    t = inner_ty(ci.argtys[0])
    loc = arg0_loc(eng, st, a[0])
    if t in WIDTH:
        eng.write(st, loc, tm.add(eng.read(st, loc), eng.content(st, a[1])))
        return UNIT
    if t.endswith("String"):
        eng.write(st, loc, cat(eng.read(st, loc), eng.content(st, a[1])))
        return UNIT
    return None


# ------------------------------------------------------------ conversions

@model("From::from", "Into::into")
def m_from(eng, st, a, ci):
    if ci.key:
        return None
    if ci.callee.get("local"):
        return None
    t = ci.destty
    v = a[0]
    if ci.name == "Into::into" and (ci.callee.get("res") or {}).get("kind") == "item":
        pass
    if is_seq_ty(t) or t in WIDTH:
        return eng.content(st, v)
    if t.startswith("xml::writer::XmlEvent") or "XmlEvent" in t:
        return v
    if t.startswith("std::boxed::Box<"):
        return T("boxv", v)
    if t.startswith("std::option::Option<"):
        return some(v)
    if ci.argtys and ci.argtys[0] == t:
        return v
    return T("conv", t, eng.snap(st, v))


@model("TryFrom::try_from", "TryInto::try_into")
def m_tryfrom(eng, st, a, ci):
    if ci.key and eng.p.fns[ci.key]["local"]:
        return None
    m = re.match(r"^std::result::Result<(.*), ([^,]*)>$", ci.destty)
    if not m:
        return None
    to, x = m.group(1), a[0]
    if to in WIDTH and ci.argtys and ci.argtys[0] in WIDTH:
        fr = ci.argtys[0]
        if x.op == "int":
            return ok(x) if tm._fit(x.args[0], to) == x.args[0] else err(T("sym", "TryFromIntError"))
        if fr[0] == "u":
            eng.mark_unsigned(x)
            if WIDTH[to] > WIDTH[fr] or (to[0] == "u" and WIDTH[to] >= WIDTH[fr]):
                return ok(x)
        s2 = st.copy()
        if to[0] == "u":
            # lower and upper bound
            out = []
            conds = []
            if fr[0] == "i":
                eng.mark_signed(x)
                conds.append(not_(lt(x, I(0))))
            if WIDTH[to] < WIDTH[fr] or (fr[0] == "u" and WIDTH[to] < WIDTH[fr]):
                conds.append(lt(x, I(1 << WIDTH[to])))
            c = and_(*conds) if conds else TRUE
        else:
            c = lt(x, I(1 << (WIDTH[to] - 1)))
            if fr[0] == "i":
                c = and_(c, not_(lt(x, I(-(1 << (WIDTH[to] - 1))))))
        out = []
        if eng.assume(st, c, True):
            out.append((st, ok(x)))
        if eng.assume(s2, c, False):
            s2.failed = s2.failed | {T("tryint", to, x)}
            out.append((s2, err(T("sym", "TryFromIntError"))))
        return out
    m2 = re.match(r"^&?('\w+ )?(mut )?\[(.*); (\w+)\]$", to)
    if m2:
        s = eng.content(st, x)
        isref = to.startswith("&")
        val = x if isref else s
        n = m2.group(4)
        if not n.isdigit():
            return None
        c = eq(length(s), I(int(n)))
        s2 = st.copy()
        out = []
        if eng.assume(st, c, True):
            out.append((st, ok(val)))
        if eng.assume(s2, c, False):
            s2.failed = s2.failed | {T("trylen", I(int(n)), s)}
            out.append((s2, err(T("sym", "TryFromSliceError"))))
        return out
    if ci.key:
        return None
    return pend(st, fall("tryfrom", T("conv", to, eng.snap(st, x)), eng.snap(st, x)))


@model("String::from_utf8", "str::from_utf8", "string::from_utf8")
def m_utf8(eng, st, a, ci):
    s = eng.content(st, a[0])
    if s.op == "str":
        return ok(a[0])
    v = a[0] if ci.destty.startswith("std::result::Result<&") else s
    return pend(st, fall("utf8", v, s))


@model("FromUtf8Error::as_bytes", "FromUtf8Error::into_bytes")
def m_utf8_data(eng, st, a, ci):
    e = eng.content(st, a[0])
    if e.op == "vf" and e.args[1] == "Err" and e.args[0].op == "fall" and e.args[0].args[0] == "utf8":
        return e.args[0].args[2]
    return None


@model("String::from_utf8_lossy")
def m_lossy(eng, st, a, ci):
    x = eng.content(st, a[0])
    eng.event("lossy", st, ci.ctx, ci.span, ci.name, (x,))
    return T("lossy", x)


@model("ToString::to_string")
def m_tostring(eng, st, a, ci):
    t = inner_ty(inner_ty((ci.argtys or [""])[0]))
    v = eng.content(st, a[0])
    if t in ("str", "std::string::String") or v.op == "str":
        return v
    if ci.key and eng.p.fns[ci.key]["local"]:
        pass
    if v.op == "int":
        return T("str", str(v.args[0]))
    return T("tostr", eng.snap(st, v), t)


@model("str::parse", "FromStr::from_str")
def m_parse(eng, st, a, ci):
    if ci.key and eng.p.fns[ci.key]["local"]:
        return None
    m = re.match(r"^std::result::Result<(.*?), .*>$", ci.destty)
    t = m.group(1) if m else ci.destty
    s = eng.content(st, a[0])
    if s.op == "tostr" and s.args[1] == t:
        return ok(s.args[0])
    v = T("parsed", t, s)
    if t in WIDTH and t[0] == "u":
        eng.unsigned.add(v)
    return pend(st, fall("parse", v, t, s))


# ------------------------------------------------------------ sequences

@model("Vec::new", "String::new", "VecDeque::new")
def m_vecnew(eng, st, a, ci):
    return EMPTY


@model("Vec::with_capacity", "String::with_capacity")
def m_withcap(eng, st, a, ci):
    return EMPTY


@model("Vec::reserve", "Vec::reserve_exact", "String::reserve")
def m_reserve(eng, st, a, ci):
    return UNIT


@model("vec::from_elem")
def m_fromelem(eng, st, a, ci):
    return T("rep", a[0], a[1]) if a[1] is not I(0) else EMPTY


@model("slice::len", "Vec::len", "String::len", "str::len", "ExactSizeIterator::len", "array::len", "VecDeque::len")
def m_len(eng, st, a, ci):
    v = eng.content(st, a[0])
    if v.op == "iter":
        return src_count(eng, st, v.args[0])
    return length(v)


@model("slice::is_empty", "Vec::is_empty", "String::is_empty", "str::is_empty")
def m_isempty(eng, st, a, ci):
    return eq(length(eng.content(st, a[0])), I(0))


@model("Vec::push", "VecDeque::push_back")
def m_push(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    eng.write(st, loc, cat(eng.read(st, loc), T("one", a[1])))
    return UNIT


@model("String::push")
def m_spush(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    c = a[1]
    x = T("str", chr(c.args[0])) if c.op == "char" else T("chr", c)
    eng.write(st, loc, cat(eng.read(st, loc), x))
    return UNIT


@model("Vec::extend_from_slice", "String::push_str", "Vec::append_")
def m_extslice(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    eng.write(st, loc, cat(eng.read(st, loc), eng.content(st, a[1])))
    return UNIT


@model("Vec::append")
def m_append(eng, st, a, ci):
    loc, l2 = arg0_loc(eng, st, a[0]), arg0_loc(eng, st, a[1])
    eng.write(st, loc, cat(eng.read(st, loc), eng.read(st, l2)))
    eng.write(st, l2, EMPTY)
    return UNIT


@model("Vec::clear", "String::clear", "HashMap::clear")
def m_clear(eng, st, a, ci):
    eng.write(st, arg0_loc(eng, st, a[0]), EMPTY if "HashMap" not in ci.name else T("map0"))
    return UNIT


@model("Vec::truncate")
def m_truncate(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    v = eng.read(st, loc)
    s2 = st.copy()
    c = lt(length(v), a[1])
    out = []
    if eng.assume(st, c, False):
        eng.write(st, loc, subseq(v, I(0), a[1]))
        out.append((st, UNIT))
    if eng.assume(s2, c, True):
        out.append((s2, UNIT))
    return out


@model("Vec::resize", "Vec::resize_with")
def m_resize(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    v = eng.read(st, loc)
    x = a[2]
    if ci.name.endswith("_with"):
        outs = eng.call_value(st, x, [], eng.sub_ci(ci, "rw"))
        if len(outs) != 1:
            return None
        st, x = outs[0]
    n = a[1]
    l = length(v)
    if v is EMPTY or (l.op == "int" and l.args[0] == 0):
        eng.write(st, loc, T("rep", x, n) if n is not I(0) else EMPTY)
        return [(st, UNIT)]
    out = []
    s2 = st.copy()
    c = lt(n, l)
    if eng.assume(st, c, False):
        d = tm.sub(n, l)
        eng.write(st, loc, cat(v, T("rep", x, d)) if d is not I(0) else v)
        out.append((st, UNIT))
    if eng.assume(s2, c, True):
        eng.write(s2, loc, subseq(v, I(0), n))
        out.append((s2, UNIT))
    return out


@model("Vec::pop")
def m_pop(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    v = eng.read(st, loc)
    if v.op == "cat" and v.args and v.args[-1].op == "one":
        eng.write(st, loc, cat(*v.args[:-1]))
        return some(v.args[-1].args[0])
    s2 = st.copy()
    n = length(v)
    out = []
    if eng.assume(st, eq(n, I(0)), False):
        eng.write(st, loc, subseq(v, I(0), tm.sub(n, I(1))))
        out.append((st, some(idx(v, tm.sub(n, I(1))))))
    if eng.assume(s2, eq(n, I(0)), True):
        out.append((s2, NONE))
    return out


@model("Vec::remove", "Vec::swap_remove")
def m_remove(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    v = eng.read(st, loc)
    bounds(eng, st, ci, lt(a[1], length(v)))
    if not a[1].op == "int" or True:
        op = "removeat" if ci.name == "Vec::remove" else "swapremove"
        eng.write(st, loc, T(op, v, a[1]))
    return idx(v, a[1])


@model("Vec::insert")
def m_vinsert(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    v = eng.read(st, loc)
    bounds(eng, st, ci, not_(lt(length(v), a[1])))
    if a[1] is I(0):
        eng.write(st, loc, cat(T("one", a[2]), v))
    elif a[1] is length(v):
        eng.write(st, loc, cat(v, T("one", a[2])))
    else:
        eng.write(st, loc, T("insertat", v, a[1], a[2]))
    return UNIT


@model("Vec::retain")
def m_retain(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    v = eng.read(st, loc)
    src = T("srefs", loc[0], loc[1])
    ix = T("ix", src, ci.uid)
    outs = eng.call_value(st.copy(), a[1], [T("ref", loc[0], loc[1] + (("i", ix),))], eng.sub_ci(ci, "p"))
    conds = cond_of(eng, outs)
    eng.write(st, loc, T("retain", v, ix, conds))
    return UNIT


def cond_of(eng, outs):
    """Predicate result as one term: the disjunction over the alternatives."""
    if len(outs) == 1:
        return outs[0][1]
    return T("anyof", *sorted({v for _, v in outs}, key=lambda t: t.id))


def bounds(eng, st, ci, c):
    """Library call that panics unless c."""
    r = eng.ev(st, c)
    if r is True:
        return
    eng.event("assert", st, ci.ctx, ci.span, "bounds", (), data=c)
    eng.assume(st, c, True)


def typenum(t):
    """Number of a typenum type, or None."""
    t = re.sub(r"\w+::", "", t)
    bits = re.findall(r"\bB([01])\b", t)
    if re.fullmatch(r"(UInt<|UTerm|B0|B1|[, >])*", t):
        return int("".join(bits) or "0", 2)
    return None


def fixed(eng, st, ci, v, ty):
    """A slice viewed as an array of fixed length: panics on another length."""
    n = typenum(ty)
    x = length(eng.content(st, v))
    bounds(eng, st, ci, eq(x, T("typelen", ty) if n is None else I(n)))


def boundary(eng, st, ci, x, n):
    """A position in a text that has to be at the start of a character."""
    if n is I(0) or n is length(x) or n.op == "strfind":
        return
    bounds(eng, st, ci, T("boundary", x, n))


def range_bounds(eng, st, r, n):
    """(lo, hi, inclusive?) of a Range value; n = length for open ends."""
    r = eng.content(st, r)
    if r.op == "adt":
        k = r.args[0].split("::")[-1]
        if k == "Range":
            return field(r, "start"), field(r, "end"), False
        if k == "RangeInclusive":
            return field(r, "start"), field(r, "end"), True
        if k == "RangeFrom":
            return field(r, "start"), n, False
        if k == "RangeTo":
            return I(0), field(r, "end"), False
        if k == "RangeToInclusive":
            return I(0), field(r, "end"), True
        if k == "RangeFull":
            return I(0), n, False
    return None, None, False


@model("Index::index", "IndexMut::index_mut")
def m_index(eng, st, a, ci):
    if ci.key and eng.p.fns[ci.key]["local"]:
        return None
    t = inner_ty(ci.argtys[0])
    v = a[0]
    loc = arg0_loc(eng, st, v)
    x = eng.read(st, loc)
    it = ci.argtys[1]
    if "HashMap" in t:
        k = eng.snap(st, a[1])
        bounds(eng, st, ci, T("haskey", x, k))
        return T("ref", loc[0], loc[1] + (("ent", k),))
    if it == "usize":
        bounds(eng, st, ci, lt(a[1], length(x)))
        return T("ref", loc[0], loc[1] + (("i", a[1]),))
    n = length(x)
    lo, hi, incl = range_bounds(eng, st, a[1], n)
    if lo is None:
        return None
    if incl:
        hi = tm.add(hi, I(1))
    for z in (lo, hi):
        eng.mark_unsigned(z)
    bounds(eng, st, ci, not_(lt(hi, lo)))
    bounds(eng, st, ci, not_(lt(n, hi)))
    if t in ("str", "std::string::String"):
        boundary(eng, st, ci, x, lo)
        boundary(eng, st, ci, x, hi)
    if lo is I(0) and hi is n:
        return T("ref", loc[0], loc[1])
    return T("ref", loc[0], loc[1] + (("sub", lo, hi),))


@model("slice::get", "slice::get_mut", "str::get")
def m_get(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    x = eng.read(st, loc)
    it = ci.argtys[1]
    n = length(x)
    s2 = st.copy()
    out = []
    if it == "usize":
        eng.mark_unsigned(a[1])
        c = lt(a[1], n)
        pe = ("i", a[1])
    else:
        lo, hi, incl = range_bounds(eng, st, a[1], n)
        if lo is None:
            return None
        if incl:
            hi = tm.add(hi, I(1))
        c = and_(not_(lt(hi, lo)), not_(lt(n, hi)))
        pe = ("sub", lo, hi)
    if eng.assume(st, c, True):
        out.append((st, some(T("ref", loc[0], loc[1] + (pe,)))))
    if eng.assume(s2, c, False):
        out.append((s2, NONE))
    return out


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def m_first(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    x = eng.read(st, loc)
    n = length(x)
    s2 = st.copy()
    i = I(0) if "first" in ci.name else tm.sub(n, I(1))
    out = []
    if eng.assume(st, eq(n, I(0)), False):
        out.append((st, some(T("ref", loc[0], loc[1] + (("i", i),)))))
    if eng.assume(s2, eq(n, I(0)), True):
        out.append((s2, NONE))
    return out


@model("slice::split_at", "slice::split_at_mut")
def m_splitat(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    x = eng.read(st, loc)
    n = length(x)
    bounds(eng, st, ci, not_(lt(n, a[1])))
    return T("tuple", T("ref", loc[0], loc[1] + (("sub", I(0), a[1]),)),
             T("ref", loc[0], loc[1] + (("sub", a[1], n),)))


@model("Vec::split_off")
def m_splitoff(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    x = eng.read(st, loc)
    n = length(x)
    bounds(eng, st, ci, not_(lt(n, a[1])))
    eng.write(st, loc, subseq(x, I(0), a[1]))
    return subseq(x, a[1], n)


@model("Vec::drain")
def m_drain(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    x = eng.read(st, loc)
    n = length(x)
    lo, hi, incl = range_bounds(eng, st, a[1], n)
    if lo is None:
        return None
    if incl:
        hi = tm.add(hi, I(1))
    bounds(eng, st, ci, not_(lt(hi, lo)))
    bounds(eng, st, ci, not_(lt(n, hi)))
    eng.write(st, loc, cat(subseq(x, I(0), lo), subseq(x, hi, n)))
    return T("iter", T("svals", subseq(x, lo, hi)), 0)


@model("slice::copy_from_slice", "slice::clone_from_slice")
def m_copyslice(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    d, s = eng.read(st, loc), eng.content(st, a[1])
    bounds(eng, st, ci, eq(length(d), length(s)))
    eng.write(st, loc, s)
    return UNIT


@model("slice::fill")
def m_fill(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    eng.write(st, loc, T("rep", a[1], length(eng.read(st, loc))))
    return UNIT


@model("slice::reverse")
def m_reverse(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    eng.write(st, loc, T("reverse", eng.read(st, loc)))
    return UNIT


@model("slice::sort", "slice::sort_unstable")
def m_sort(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    eng.write(st, loc, T("sorted", "asc", eng.read(st, loc)))
    return UNIT


@model("slice::sort_by", "slice::sort_by_key", "slice::sort_unstable_by")
def m_sortby(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    eng.write(st, loc, T("sorted", eng.snap(st, a[1]), eng.read(st, loc)))
    return UNIT


@model("slice::concat", "slice::join")
def m_concat(eng, st, a, ci):
    v = eng.snap(st, eng.content(st, a[0]))
    n = length(v)
    if ci.name == "slice::concat" and v.op not in ("cat", "str") and n.op == "int" and n.args[0] <= 16:
        v = cat(*(T("one", idx(v, I(i))) for i in range(n.args[0])))
    if ci.name == "slice::concat" and v.op == "cat" and all(p.op == "one" for p in v.args):
        return cat(*[p.args[0] for p in v.args])
    return T(ci.name.split("::")[1], v, *[eng.snap(st, x) for x in a[1:]])


@model("slice::contains")
def m_scontains(eng, st, a, ci):
    v = eng.snap(st, eng.content(st, a[0]))
    x = eng.snap(st, a[1])
    if v.op == "cat" and all(p.op == "one" for p in v.args) and len(v.args) <= 32:
        return or_(*[eq(x, p.args[0]) for p in v.args])
    return T("elem", v, x)


@model("slice::starts_with", "str::starts_with", "slice::ends_with", "str::ends_with", "str::contains")
def m_starts(eng, st, a, ci):
    return T(ci.name.split("::")[1], eng.snap(st, eng.content(st, a[0])), eng.snap(st, eng.content(st, a[1])))


@model("str::to_lowercase", "str::to_ascii_lowercase")
def m_lower(eng, st, a, ci):
    return T("lower", eng.content(st, a[0]))


@model("str::eq_ignore_ascii_case")
def m_eqic(eng, st, a, ci):
    return eq(T("lower", eng.content(st, a[0])), T("lower", eng.content(st, a[1])))


@model("str::trim", "str::trim_start", "str::trim_end")
def m_trim(eng, st, a, ci):
    return T("ref", ("C", T(ci.name.split("::")[1], eng.content(st, a[0]))), ())


@model("str::trim_end_matches", "str::trim_start_matches", "str::trim_matches")
def m_trimpat(eng, st, a, ci):
    pat = eng.snap(st, eng.content(st, a[1]))
    if pat.op not in ("char", "str", "int"):
        return None
    return T("ref", ("C", T("trimpat", ci.name.split("::")[1], eng.content(st, a[0]), pat)), ())


# ------------------------------------------------------------ iterators

def mkiter(src):
    return T("iter", src, 0)


@model("slice::iter", "slice::iter_mut", "Vec::iter", "Vec::iter_mut")
def m_iter(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    return mkiter(T("srefs", loc[0], loc[1]))


@model("slice::chunks_exact", "slice::chunks", "slice::chunks_mut", "slice::chunks_exact_mut")
def m_chunks(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    if "exact" not in ci.name:
        pass
    return mkiter(T("chunks", loc[0], loc[1], a[1], "exact" if "exact" in ci.name else "any"))


@model("str::split_once")
def m_split_once(eng, st, a, ci):
    src = T("split", "str::splitn", eng.snap(st, eng.content(st, a[0])), I(2), eng.snap(st, a[1]))
    s2 = st.copy()
    out = []
    c = lt(I(1), T("cnt", src))
    if eng.assume(st, c, True):
        out.append((st, some(T("tuple", *[T("ref", ("C", T("el", src, I(k))), ()) for k in (0, 1)]))))
    if eng.assume(s2, c, False):
        out.append((s2, NONE))
    return out


@model("str::strip_prefix", "str::strip_suffix")
def m_strip(eng, st, a, ci):
    s, pre = eng.snap(st, eng.content(st, a[0])), eng.snap(st, eng.content(st, a[1]))
    which = ci.name.split("_")[1]
    c = T("starts_with" if which == "prefix" else "ends_with", s, pre)
    s2 = st.copy()
    out = []
    if eng.assume(st, c, True):
        out.append((st, some(T("ref", ("C", T("strip", which, s, pre)), ()))))
    if eng.assume(s2, c, False):
        out.append((s2, NONE))
    return out


@model("str::split", "str::lines", "str::chars", "str::bytes", "str::char_indices", "str::splitn", "slice::windows",
       "slice::split", "str::split_whitespace", "str::rsplit")
def m_split(eng, st, a, ci):
    return mkiter(T("split", ci.name, eng.snap(st, eng.content(st, a[0])), *[eng.snap(st, x) for x in a[1:]]))


@model("HashMap::iter", "HashMap::keys", "HashMap::values", "BTreeMap::iter", "HashMap::iter_mut", "HashMap::drain",
       "BTreeMap::keys", "BTreeMap::values")
def m_mapiter(eng, st, a, ci):
    return mkiter(T("mapiter", ci.name.split("::")[1], eng.content(st, a[0])))


@model("IntoIterator::into_iter")
def m_intoiter(eng, st, a, ci):
    v = a[0]
    if v.op == "iter":
        return v
    t = (ci.argtys or [""])[0]
    if v.op == "adt" and v.args[0].split("::")[-1] in ("Range", "RangeInclusive", "RangeFrom"):
        return mkrange(v)
    if v.op == "ref" or t.startswith("&"):
        it = inner_ty(t)
        loc = arg0_loc(eng, st, v)
        x = eng.read(st, loc)
        if "HashMap<" in it or "BTreeMap<" in it:
            return mkiter(T("mapiter", "iter", x))
        if it.startswith("std::option::Option"):
            return mkiter(T("optrefs", loc[0], loc[1]))
        if is_seq_ty(it) or x.op in SEQ_OPS:
            return mkiter(T("srefs", loc[0], loc[1]))
        if x.op == "iter":
            return v
    if "HashMap<" in t or "BTreeMap<" in t:
        return mkiter(T("mapiter", "into_iter", v))
    if is_seq_ty(t) or v.op in SEQ_OPS:
        return mkiter(T("svals", v))
    if v.op == "adt" and v.args[0] == OPT:
        return mkiter(T("once", v.args[3])) if v.args[1] == "Some" else mkiter(T("svals", EMPTY))
    if t.startswith("std::option::Option"):
        return mkiter(T("opt", v))
    if ci.key and eng.p.fns[ci.key]["local"]:
        return None
    return mkiter(T("ext", eng.snap(st, v)))


def mkrange(v):
    k = v.args[0].split("::")[-1]
    lo = field(v, "start")
    if k == "RangeFrom":
        return mkiter(T("range", lo, T("inf")))
    hi = field(v, "end")
    if k == "RangeInclusive":
        hi = tm.add(hi, I(1))
    return mkiter(T("range", lo, hi))


def as_iter(eng, st, v, ty=""):
    """Iterator source of a value used as an iterator."""
    if v.op == "iter":
        return v.args[0]
    if v.op == "ref":
        x = eng.content(st, v)
        if x.op == "iter":
            return x.args[0]
        if is_seq_ty(ty) or x.op in SEQ_OPS:
            loc = arg0_loc(eng, st, v)
            return T("srefs", loc[0], loc[1])
        if "HashMap" in ty:
            return T("mapiter", "iter", x)
        v = x
    if v.op == "adt" and v.args[0].split("::")[-1] in ("Range", "RangeInclusive", "RangeFrom"):
        return mkrange(v).args[0]
    if is_seq_ty(ty) or v.op in SEQ_OPS:
        return T("svals", v)
    if v.op == "adt" and v.args[0] == OPT:
        return T("once", v.args[3]) if v.args[1] == "Some" else T("svals", EMPTY)
    if ty.startswith("std::option::Option"):
        return T("opt", v)
    return T("ext", eng.snap(st, v))


def adapter(op):
    def m(eng, st, a, ci):
        v = a[0]
        if v.op == "ref":
            # by_ref-style adapters keep a reference to the underlying iterator
            x = eng.content(st, v)
            if x.op == "iter":
                return None
        tys = list(ci.argtys or []) + ["", ""]
        src = as_iter(eng, st, v, tys[0])
        rest = a[1:]
        if op in ("chain", "zip"):
            rest = [as_iter(eng, st, a[1], tys[1])]
        return mkiter(T(op, src, *rest))
    return m


for _n in ("chain", "cloned", "copied", "enumerate", "filter_map", "flat_map", "map", "take", "skip", "filter", "rev",
           "zip", "peekable", "take_while", "skip_while", "step_by", "inspect", "fuse", "by_ref_", "flatten"):
    MODELS["Iterator::" + _n] = adapter(_n)
MODELS["DoubleEndedIterator::rev"] = adapter("rev")


@model("Iterator::by_ref")
def m_byref(eng, st, a, ci):
    return a[0]


@model("iter::once")
def m_once(eng, st, a, ci):
    return mkiter(T("once", a[0]))


@model("iter::empty")
def m_iempty(eng, st, a, ci):
    return mkiter(T("svals", EMPTY))


@model("iter::repeat")
def m_irepeat(eng, st, a, ci):
    return mkiter(T("irepeat", a[0]))


def finite_len(eng, st, src):
    """Number of elements if the source is a constant-size table."""
    o = src.op
    if o == "svals":
        s = src.args[0]
        if s.op == "cat" and all(p.op == "one" for p in s.args):
            return len(s.args)
        if s.op == "rep" and s.args[1].op == "int":
            return s.args[1].args[0]
        return None
    if o == "srefs":
        s = eng.read(st, (src.args[0], src.args[1]))
        return finite_len(eng, st, T("svals", s))
    if o == "once":
        return 1
    if o in ("cloned", "copied", "enumerate", "map", "rev", "inspect", "fuse"):
        return finite_len(eng, st, src.args[0])
    if o == "chain":
        a, b = finite_len(eng, st, src.args[0]), finite_len(eng, st, src.args[1])
        return None if a is None or b is None else a + b
    if o == "zip":
        a, b = finite_len(eng, st, src.args[0]), finite_len(eng, st, src.args[1])
        return None if a is None or b is None else min(a, b)
    if o == "range" and src.args[0].op == "int" and src.args[1].op == "int":
        return max(0, src.args[1].args[0] - src.args[0].args[0])
    return None


def src_count(eng, st, src):
    o = src.op
    n = finite_len(eng, st, src)
    if n is not None:
        return I(n)
    if o == "svals":
        return length(src.args[0])
    if o == "srefs":
        return length(eng.read(st, (src.args[0], src.args[1])))
    if o in ("cloned", "copied", "enumerate", "map", "rev", "inspect", "fuse"):
        return src_count(eng, st, src.args[0])
    if o == "range":
        return tm.sub(src.args[1], src.args[0]) if src.args[1].op != "inf" else None
    if o == "take":
        n = src_count(eng, st, src.args[0])
        k = src.args[1]
        if n is None:
            return None
        if eng.ev(st, lt(n, k)) is False:
            return k
        if eng.ev(st, lt(k, n)) is False:
            return n
        return T("min", *sorted((n, k), key=lambda t: t.id))
    if o == "split" and src.args[0] in ("str::split", "str::splitn", "str::rsplit"):
        return T("cnt", src)
    if o == "zip":
        a, b = src_count(eng, st, src.args[0]), src_count(eng, st, src.args[1])
        if a is not None and b is not None:
            if eng.ev(st, lt(b, a)) is False:
                return a
            if eng.ev(st, lt(a, b)) is False:
                return b
            return T("min", *sorted((a, b), key=lambda t: t.id))
    return None


def elem(eng, st, src, i, ci, tag="e"):
    """Alternatives (state, element value) for index i of the source."""
    o = src.op
    if o == "svals":
        return [(st, idx(src.args[0], i))]
    if o == "srefs":
        loc = (src.args[0], src.args[1])
        return [(st, T("ref", loc[0], loc[1] + (("i", i),)))]
    if o == "optrefs":
        loc = (src.args[0], src.args[1])
        x = eng.read(st, loc)
        if not eng.assume(st, isv(x, "Some"), True):
            return []
        return [(st, T("ref", loc[0], loc[1] + (("v", "Some"), ("f", "0"))))]
    if o == "opt":
        if not eng.assume(st, isv(src.args[0], "Some"), True):
            return []
        return [(st, field(variant(src.args[0], "Some"), "0"))]
    if o in ("cloned", "copied"):
        return [(s, eng.content(s, v, 1)) for s, v in elem(eng, st, src.args[0], i, ci, tag)]
    if o == "once":
        return [(st, src.args[0])]
    if o == "irepeat":
        return [(st, src.args[0])]
    if o == "range":
        return [(st, tm.add(src.args[0], i))]
    if o == "enumerate":
        return [(s, T("tuple", i, v)) for s, v in elem(eng, st, src.args[0], i, ci, tag)]
    if o in ("take", "fuse", "peekable"):
        return elem(eng, st, src.args[0], i, ci, tag)
    if o == "skip":
        return elem(eng, st, src.args[0], tm.add(i, src.args[1]), ci, tag)
    if o == "rev":
        n = src_count(eng, st, src.args[0])
        if n is None:
            return [(st, T("revel", src, i))]
        return elem(eng, st, src.args[0], tm.sub(tm.sub(n, I(1)), i), ci, tag)
    if o == "map":
        out = []
        for s, v in elem(eng, st, src.args[0], i, ci, tag):
            out += eng.call_value(s, src.args[1], [v], eng.sub_ci(ci, tag + "m"))
        return out
    if o == "inspect":
        return elem(eng, st, src.args[0], i, ci, tag)
    if o in ("filter", "take_while", "skip_while"):
        out = []
        for s, v in elem(eng, st, src.args[0], i, ci, tag):
            root = ("H", "flt", ci.uid, tag)
            s.mem[root] = v
            for s2, c in eng.call_value(s, src.args[1], [T("ref", root, ())], eng.sub_ci(ci, tag + "f")):
                if o == "skip_while" or eng.assume(s2, c, True):
                    s2.mem.pop(root, None)
                    out.append((s2, v))
        return out
    if o == "filter_map":
        out = []
        for s, v in elem(eng, st, src.args[0], i, ci, tag):
            for s2, c in eng.call_value(s, src.args[1], [v], eng.sub_ci(ci, tag + "fm")):
                if eng.assume(s2, isv(c, "Some"), True):
                    out.append((s2, field(variant(c, "Some"), "0")))
        return out
    if o in ("flat_map", "flatten"):
        out = []
        outer = src.args[0]
        oi = T("ix", outer, ci.uid, tag)
        for s, v in elem(eng, st, outer, oi, ci, tag + "o"):
            outs = eng.call_value(s, src.args[1], [v], eng.sub_ci(ci, tag + "fl")) if o == "flat_map" else [(s, v)]
            for s2, w in outs:
                inner = as_iter(eng, s2, w, "std::vec::Vec<") if w.op not in ("iter", "ref") else as_iter(eng, s2, w)
                ii = T("ix", inner, ci.uid, tag)
                out += elem(eng, s2, inner, ii, ci, tag + "i")
        return out
    if o == "chain":
        na = finite_len(eng, st, src.args[0])
        if i.op == "int" and na is not None:
            if i.args[0] < na:
                return elem(eng, st, src.args[0], i, ci, tag)
            return elem(eng, st, src.args[1], I(i.args[0] - na), ci, tag)
        ia = T("ix", src.args[0], ci.uid, tag)
        ib = T("ix", src.args[1], ci.uid, tag)
        s2 = st.copy()
        return elem(eng, st, src.args[0], ia, ci, tag + "a") + elem(eng, s2, src.args[1], ib, ci, tag + "b")
    if o == "zip":
        out = []
        for s, v in elem(eng, st, src.args[0], i, ci, tag + "a"):
            for s2, w in elem(eng, s, src.args[1], i, ci, tag + "b"):
                out.append((s2, T("tuple", v, w)))
        return out
    if o == "chunks":
        loc = (src.args[0], src.args[1])
        x = eng.read(st, loc)
        n = src.args[2]
        if src.args[3] == "exact":
            return [(st, T("ref", loc[0], loc[1] + (("chunk", i, n),)))]
        return [(st, T("ref", ("C", T("chunk", x, n, i)), ()))]
    if o == "mapiter":
        m = src.args[1]
        k, v = T("mapkey", m, i), T("mapvalat", m, i)
        kind = src.args[0]
        r = (lambda x: x) if kind in ("into_iter", "drain") else (lambda x: T("ref", ("C", x), ()))
        if kind == "keys":
            return [(st, r(k))]
        if kind == "values":
            return [(st, r(v))]
        return [(st, T("tuple", r(k), r(v)))]
    return [(st, T("el", src, i))]


@model("Iterator::next", "DoubleEndedIterator::next_back_", "Iterator::nth_")
def m_next(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    it = eng.read(st, loc)
    if it.op == "adt" and it.args[0].split("::")[-1] in ("Range", "RangeInclusive", "RangeFrom"):
        it = mkrange(it)
    if it.op == "boxv" and it.args[0].op == "iter":
        loc = (loc[0], loc[1] + (("*",),))
        it = it.args[0]
    if it.op != "iter":
        if ci.key and eng.p.fns[ci.key]["local"]:
            return None
        return None
    src, ph = it.args
    if isinstance(ph, int):
        n = finite_len(eng, st, src)
        if n is not None:
            if ph >= n:
                return NONE
            eng.write(st, loc, T("iter", src, ph + 1))
            return [(s, some(v)) for s, v in elem(eng, st, src, I(ph), ci)]
    s_none = st.copy()
    out = []
    cnt = src_count(eng, st, src)
    if ph == 0 and src.op == "split" and src.args[0] in ("str::split", "str::splitn", "str::rsplit"):
        # splitting by a pattern always has a first piece
        eng.write(st, loc, T("iter", src, 1))
        return [(s, some(v)) for s, v in elem(eng, st, src, I(0), ci)]
    if isinstance(ph, int):
        i = I(ph)
        nph = ph + 1
    else:
        i = T("ix", src, ci.uid)
        nph = "any"
    good = True
    if cnt is not None:
        if i.op == "ix":
            for k in [k for k in st.facts if not isinstance(k, tuple) and (contains(k, lambda t: t is i))]:
                del st.facts[k]
        good = eng.assume(st, lt(i, cnt), True)
    if good:
        eng.write(st, loc, T("iter", src, nph))
        out += [(s, some(v)) for s, v in elem(eng, st, src, i, ci)]
    good = True
    if cnt is not None and isinstance(ph, int):
        good = eng.assume(s_none, lt(I(ph), cnt), False)
    if good:
        eng.write(s_none, loc, T("iter", src, nph))
        out.append((s_none, NONE))
    return out


def consume(eng, st, a, ci):
    src = as_iter(eng, st, a[0], (ci.argtys or [""])[0])
    return src


def is_simple(src):
    return src.op in ("svals", "srefs") or (src.op in ("cloned", "copied") and is_simple(src.args[0]))


def seq_of(eng, st, src):
    if src.op == "svals":
        return src.args[0]
    if src.op == "srefs":
        return eng.read(st, (src.args[0], src.args[1]))
    if src.op in ("cloned", "copied"):
        return seq_of(eng, st, src.args[0])
    if src.op == "chain":
        a, b = seq_of(eng, st, src.args[0]), seq_of(eng, st, src.args[1])
        return cat(a, b) if a is not None and b is not None else None
    if src.op == "take":
        a = seq_of(eng, st, src.args[0])
        if a is not None:
            return subseq(a, I(0), src.args[1])
    if src.op == "once":
        return T("cat", T("one", src.args[0]))
    if src.op == "rev":
        a = seq_of(eng, st, src.args[0])
        return T("reverse", a) if a is not None else None
    return None


def comp_of(eng, st, src, ci, value_of=None):
    """Sequence built from a source: comp(src, ix, body) or element list."""
    if value_of is None:
        s = seq_of(eng, st, src)
        if s is not None:
            return [(st, s)]
    n = finite_len(eng, st, src)
    if n is not None and n <= 16:
        cur = [(st, EMPTY)]
        for k in range(n):
            nxt = []
            for s, acc in cur:
                for s2, v in elem(eng, s, src, I(k), ci, "c%d" % k):
                    nxt.append((s2, cat(acc, T("one", v))))
            cur = nxt
        return cur
    ix = T("ix", src, ci.uid)
    s2 = st.copy()
    outs = elem(eng, s2, src, ix, ci, "c")
    if not outs:
        return [(st, EMPTY)]
    bodies = []
    for s, v in outs:
        conds = tuple((k, b) for k, b in s.facts.items() if st.facts.get(k) != b and not isinstance(k, tuple))
        bodies.append((eng.snap(s, v), conds))
    filt = has_filter(src)
    if len(bodies) == 1 and not filt:
        return [(st, T("comp", src, ix, bodies[0][0]))]
    return [(st, T("comp", src, ix, T("alts", *[T("alt", b, c) for b, c in bodies]), "filtered" if filt else "cases"))]


def has_filter(src):
    if src.op in ("filter", "filter_map", "flat_map", "take_while", "skip_while", "flatten"):
        return True
    return any(isinstance(x, Term) and has_filter(x) for x in src.args
               if isinstance(x, Term) and x.op in ITER_OPS)


ITER_OPS = {"filter", "filter_map", "flat_map", "take_while", "skip_while", "flatten", "map", "chain", "cloned",
            "copied", "enumerate", "take", "skip", "rev", "zip", "svals", "srefs", "mapiter", "split", "chunks"}


def made_up(eng, st, src, ci):
    """Elements that come from a count, not from a container."""
    if not contains(src, lambda x: x.op in ("range", "irepeat")):
        return
    s = src
    while s.op in ("cloned", "copied", "enumerate", "map", "rev", "inspect", "fuse"):
        s = s.args[0]
    n = src_count(eng, st, src)
    if n is None and s.op == "take":
        n = s.args[1]
    if n is not None and n.op != "int":
        eng.event("alloc", st, ci.ctx, ci.span, ci.name, (n,))


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(eng, st, a, ci):
    src = consume(eng, st, a, ci)
    made_up(eng, st, src, ci)
    t = ci.destty
    outs = comp_of(eng, st, src, ci)
    res = []
    for s, v in outs:
        if is_seq_ty(t):
            if t.startswith("std::string::String"):
                v = T("strof", v) if v.op == "comp" else v
            res.append((s, v))
        elif "HashMap<" in t or "BTreeMap<" in t:
            res.append((s, T("mapof", v)))
        elif t.startswith("std::result::Result"):
            r = fall("collect", T("oks", v), v)
            pend(s, r)
            res.append((s, r))
        elif t.startswith("std::option::Option"):
            res.append((s, T("allsome", v)))
        else:
            res.append((s, T("collect", t, v)))
    return res


@model("Extend::extend")
def m_extend(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    t = inner_ty(ci.argtys[0])
    src = as_iter(eng, st, a[1], ci.argtys[1])
    made_up(eng, st, src, ci)
    old = eng.read(st, loc)
    out = []
    for s, v in comp_of(eng, st, src, ci):
        if "HashMap<" in t:
            eng.write(s, loc, T("mapext", eng.read(s, loc), v))
        else:
            eng.write(s, loc, cat(eng.read(s, loc), v))
        out.append((s, UNIT))
    return out


@model("Iterator::find", "Iterator::any", "Iterator::all", "Iterator::position", "Iterator::find_map",
       "Iterator::rposition")
def m_find(eng, st, a, ci):
    what = ci.name.split("::")[1]
    itv = eng.content(st, a[0])
    src = itv.args[0] if itv.op == "iter" else consume(eng, st, a, ci)
    n = finite_len(eng, st, src)
    f = a[1]

    def test(s, v, tag):
        """[(state, value of predicate)]"""
        if what in ("find",):
            root = ("H", "find", ci.uid)
            s.mem[root] = v
            outs = eng.call_value(s, f, [T("ref", root, ())], eng.sub_ci(ci, tag))
            for s2, _ in outs:
                s2.mem.pop(root, None)
            return outs
        return eng.call_value(s, f, [v], eng.sub_ci(ci, tag))

    def hit(s, i, v, c):
        if what == "find":
            return some(v)
        if what == "position" or what == "rposition":
            return some(i)
        if what == "any":
            return TRUE
        if what == "all":
            return FALSE
        return c

    def miss():
        return {"find": NONE, "position": NONE, "rposition": NONE, "any": FALSE, "all": TRUE, "find_map": NONE}[what]

    def split(s, c):
        """(states where the search stops here, states where it goes on)"""
        s2 = s.copy()
        if what == "find_map":
            stop = s if eng.assume(s, isv(c, "Some"), True) else None
            go = s2 if eng.assume(s2, isv(c, "Some"), False) else None
        else:
            stop = s if eng.assume(s, c, what != "all") else None
            go = s2 if eng.assume(s2, c, what == "all") else None
        return stop, go
    if n is not None and n <= 40:
        res = []
        cur = [st]
        for k in range(n):
            nxt = []
            for s in cur:
                for s1, v in elem(eng, s, src, I(k), ci, "f%d" % k):
                    for s2, c in test(s1, v, "p%d" % k):
                        stop, go = split(s2, c)
                        if stop is not None:
                            res.append((stop, hit(stop, I(k), v, c)))
                        if go is not None:
                            nxt.append(go)
            cur = eng.limit(ci.ctx, nxt)
        res += [(s, miss()) for s in cur]
        return res
    ix = T("ix", src, ci.uid)
    s_none = st.copy()
    out = []
    alts = []
    cnt = src_count(eng, st, src)
    good = True
    if cnt is not None:
        good = eng.assume(st, lt(ix, cnt), True)
    base = dict(st.facts)
    if good:
        for s1, v in elem(eng, st, src, ix, ci, "f"):
            for s2, c in test(s1, v, "p"):
                s3 = s2.copy()
                stop, go = split(s2, c)
                if stop is not None:
                    conds = tuple((k, b) for k, b in stop.facts.items()
                                  if base.get(k) != b and not isinstance(k, tuple))
                    alts.append(T("conds", conds))
                    out.append((stop, hit(stop, ix, v, c)))
    # nothing matched: no element satisfies the predicate
    pred = T("exists", what, src, ix, *alts)
    for s, _ in out:
        s.facts[pred] = True
        if what in ("find", "position", "find_map"):
            s.facts[T("first", ix)] = True
    if eng.assume(s_none, pred, False):
        out.append((s_none, miss()))
    return out


@model("Iterator::count")
def m_count(eng, st, a, ci):
    src = consume(eng, st, a, ci)
    n = src_count(eng, st, src) if not has_filter(src) else None
    return n if n is not None else T("cnt", src)


@model("Iterator::last")
def m_last(eng, st, a, ci):
    src = consume(eng, st, a, ci)
    return T("lastof", src)


@model("Iterator::nth")
def m_nth(eng, st, a, ci):
    it = eng.content(st, a[0])
    if it.op != "iter":
        return None
    src, ph = it.args
    n = src_count(eng, st, src)
    if not isinstance(ph, int) or n is None:
        return None
    k = a[1]
    if ph:
        if k.op != "int":
            return None
        k = I(k.args[0] + ph)
    s2 = st.copy()
    out = []
    loc = arg0_loc(eng, st, a[0])
    nph = k.args[0] + 1 if k.op == "int" else "any"
    if eng.assume(st, lt(k, n), True):
        eng.write(st, loc, T("iter", src, nph))
        out += [(s, some(v)) for s, v in elem(eng, st, src, k, ci)]
    if eng.assume(s2, lt(k, n), False):
        eng.write(s2, loc, T("iter", src, nph))
        out.append((s2, NONE))
    return out


@model("Iterator::for_each", "Iterator::try_for_each", "Iterator::fold", "Iterator::try_fold")
def m_foreach(eng, st, a, ci):
    what = ci.name.split("::")[1]
    src = consume(eng, st, a, ci)
    f = a[-1]
    acc_root = ("H", "fold", ci.uid)
    isfold = what in ("fold", "try_fold")
    st.mem[acc_root] = a[1] if isfold else UNIT
    itroot = ("H", "it", ci.uid)
    st.mem[itroot] = mkiter(src)
    froot = ("H", "fe", ci.uid)
    st.mem[froot] = f
    fref = T("ref", froot, ())
    nci = eng.sub_ci(ci, "next")
    nci.argtys = [""]
    tryty = ci.destty

    def run(w, hdr):
        """One trip: exits, backs."""
        exits, backs = [], []
        for s, o in m_next(eng, w, [T("ref", itroot, ())], nci) if True else []:
            if o is NONE:
                exits.append((s, "done"))
                continue
            v = o.args[3]
            args = [s.mem[acc_root], v] if isfold else [v]
            for s2, r in eng.call_value(s, fref, args, eng.sub_ci(ci, "body")):
                if what in ("fold", "for_each"):
                    if isfold:
                        s2.mem[acc_root] = r
                    backs.append(s2)
                else:
                    good, bad = ("Ok", "Err") if tryty.startswith("std::result") else ("Some", "None")
                    s3 = s2.copy()
                    if eng.assume(s2, isv(r, good), True):
                        if isfold:
                            s2.mem[acc_root] = field(variant(r, good), "0")
                        backs.append(s2)
                    if eng.assume(s3, isv(r, bad), True):
                        s3.mem[("H", "brk", ci.uid)] = r
                        exits.append((s3, "break"))
        return exits, backs
    exits = eng.model_loop(st, ci, run)
    out = []
    for s, k in exits:
        acc = s.mem.pop(acc_root, UNIT)
        s.mem.pop(itroot, None)
        s.mem.pop(froot, None)
        brk = s.mem.pop(("H", "brk", ci.uid), None)
        if k == "break":
            out.append((s, brk))
        elif what == "for_each":
            out.append((s, UNIT))
        elif what == "fold":
            out.append((s, acc))
        else:
            v = acc if isfold else UNIT
            out.append((s, ok(v) if tryty.startswith("std::result") else some(v)))
    return out


# ------------------------------------------------------------ maps

@model("HashMap::new", "HashMap::with_capacity", "BTreeMap::new")
def m_mapnew(eng, st, a, ci):
    return T("map0")


@model("HashMap::insert", "BTreeMap::insert")
def m_mapinsert(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    m = eng.read(st, loc)
    k = eng.snap(st, a[1])
    eng.write(st, loc, T("mapset", m, k, a[2]))
    return T("mapold", m, k)


def map_lookup(eng, st, m, k):
    """('some', v) / ('none',) / None when unknown."""
    n = 64
    while n:
        n -= 1
        if m.op == "map0":
            return ("none",)
        if m.op == "mapset":
            e = eng.ev(st, eq(m.args[1], k))
            if e is True:
                return ("some", m.args[2])
            if e is False:
                m = m.args[0]
                continue
            return None
        if m.op == "mapdel":
            e = eng.ev(st, eq(m.args[1], k))
            if e is True:
                return ("none",)
            if e is False:
                m = m.args[0]
                continue
            return None
        return ("base", m)
    return None


@model("HashMap::remove", "HashMap::get", "HashMap::get_mut", "HashMap::contains_key", "BTreeMap::get", "BTreeMap::remove")
def m_mapget(eng, st, a, ci):
    what = ci.name.split("::")[1]
    loc = arg0_loc(eng, st, a[0])
    m = eng.read(st, loc)
    k = eng.snap(st, eng.content(st, a[1]))
    r = map_lookup(eng, st, m, k)
    base = r[1] if r and r[0] == "base" else m
    val = r[1] if r and r[0] == "some" else T("mapval", base, k)
    s2 = st.copy()
    out = []
    has = T("haskey", base, k)
    if (r and r[0] == "some") or (not (r and r[0] == "none") and eng.assume(st, has, True)):
        if what == "remove":
            eng.write(st, loc, T("mapdel", m, k))
            out.append((st, some(val)))
        elif what == "contains_key":
            out.append((st, TRUE))
        elif what == "get":
            out.append((st, some(T("ref", ("C", val), ()))))
        else:
            out.append((st, some(T("ref", loc[0], loc[1] + (("ent", k),)))))
    if (r and r[0] == "none") or (not (r and r[0] == "some") and eng.assume(s2, has, False)):
        out.append((s2, FALSE if what == "contains_key" else NONE))
    return out


@model("HashMap::is_empty", "HashMap::len")
def m_maplen(eng, st, a, ci):
    m = eng.content(st, a[0])
    n = T("cnt", m)
    return n if ci.name.endswith("len") else eq(n, I(0))


# ------------------------------------------------------------ io

def stream_loc(eng, st, v):
    loc = arg0_loc(eng, st, v)
    n = 8
    while n:
        x = eng.read(st, loc)
        if x.op == "boxv":
            loc = (loc[0], loc[1] + (("*",),))
        elif x.op == "ref":
            loc = (x.args[0], x.args[1])
        else:
            break
        n -= 1
    return loc, x


def slice_loc(eng, st, v, n, loc, x):
    """The slice variable behind n mutable references: reading moves it along and leaves what it points to alone."""
    at = (v.args[0], v.args[1]) if v.op == "ref" else eng.deref(st, v)
    for i in range(n - 1):
        y = eng.read(st, at)
        if y.op != "ref":
            return loc, x
        at = (y.args[0], y.args[1])
    y = eng.read(st, at)
    return (at, eng.snap(st, y)) if y.op == "ref" else (loc, x)


def unwritten(x):
    while x.op == "written":
        x = x.args[0]
    return x


def read_impl(eng, x):
    x = unwritten(x)
    while x.op == "drop":
        x = x.args[0]
    if x.op == "adt":
        return eng.p.methods.get(("std::io::Read", "read", x.args[0]))
    return None


def tap_like(eng, key):
    """A reader that forwards one inner read per call, without loops."""
    c = eng.__dict__.setdefault("_tap", {})
    if key in c:
        return c[key]
    n, todo, seen = 0, [key], set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        if eng.p.cfg(k).loops:
            n += 99
        todo += [y for y in eng.p.callees(k) if eng.p.fns[y]["local"]]
        for b in eng.p.fns[k]["blocks"]:
            if b and b[1][0] == "call":
                d = b[1][1].get("def", "")
                if d.endswith("io::Read::read"):
                    n += 1
                elif d.startswith("std::io::Read"):
                    n += 99
                elif re.search(r"keystream|crypt", d):
                    n += 99          # changes the bytes: a stage of its own
    c[key] = n == 1
    return c[key]


@model("Read::read_exact", "Read::read_to_end", "Read::read", "Read::read_to_string")
def m_read(eng, st, a, ci):
    what = ci.name.split("::")[1]
    loc, x = stream_loc(eng, st, a[0])
    m = re.match(r"((&('\w+ )?mut )+)&('\w+ )?\[u8\]$", (ci.argtys or [""])[0])
    if m:
        loc, x = slice_loc(eng, st, a[0], m.group(1).count("mut "), loc, x)
    dst = a[1]
    dloc = arg0_loc(eng, st, dst)
    old = eng.read(st, dloc)
    if x.op == "iter" and x.args[0].op == "svals":
        return None
    if x.op == "limit":
        return read_limited(eng, st, x, what, dloc, old, ci)
    # slices and cursors read from bytes in memory
    key = read_impl(eng, x)
    if not (key and tap_like(eng, key)):
        x = eng.snap(st, x)
    if what in ("read_to_end", "read_to_string"):
        n = T("len", T("rest", x))
        eng.event("read_all", st, ci.ctx, ci.span, ci.name, (x,))
        eng.write(st, dloc, cat(old, T("rest", x)))
        eng.write(st, loc, T("eof", x))
        return pend(st, fall("read_all", n, x))
    n = length(old)
    if what == "read_exact":
        if key and tap_like(eng, key) and x.op == "adt":
            # forwarded: one inner read delivering everything
            eng.exact = getattr(eng, "exact", 0) + 1
            outs = eng.run_fn(key, [eng.ref(loc), T("ref", dloc[0], dloc[1])], st, ci.ctx, ci.block)
            eng.exact -= 1
            res = []
            for s, v in outs:
                s2 = s.copy()
                if eng.assume(s, isv(v, "Ok"), True):
                    res.append((s, ok(UNIT)))
                if eng.assume(s2, isv(v, "Err"), True):
                    res.append((s2, err(field(variant(v, "Err"), "0"))))
            return res
        eng.write(st, dloc, T("take", x, n) if n is not I(0) else EMPTY)
        eng.write(st, loc, drop(x, n))
        return pend(st, fall("read_exact", UNIT, x, n))
    if getattr(eng, "exact", 0):
        # one read below read_exact on a forwarding reader
        if x.op == "adt" and key and tap_like(eng, key):
            return eng.run_fn(key, [eng.ref(loc), T("ref", dloc[0], dloc[1])], st, ci.ctx, ci.block)
        eng.write(st, dloc, T("take", x, n) if n is not I(0) else EMPTY)
        eng.write(st, loc, drop(x, n))
        return pend(st, fall("read_exact", n, x, n))
    if m:
        # bytes in memory: as many as there are and fit
        out = []
        for s, k in ((st.copy(), length(x)), (st, n)):
            if eng.assume(s, lt(n, length(x)), k is n):
                eng.write(s, dloc, splice(old, I(0), k, subseq(x, I(0), k)))
                eng.write(s, loc, drop(x, k))
                out.append((s, ok(k)))
        return out
    # a single read: any number of bytes up to the buffer length
    k = T("nread", x, n)
    r = fall("read", k, x, n)
    st.facts[lt(n, k)] = False
    eng.event("read", st, ci.ctx, ci.span, ci.name, (x, n), data=k)
    eng.write(st, dloc, splice(old, I(0), k, T("take", x, k)))
    eng.write(st, loc, drop(x, k))
    return pend(st, r)


def read_limited(eng, st, x, what, dloc, old, ci):
    """Reading through Read::take: all of the limit, or the source ended before."""
    src, n = x.args
    if src.op == "rd":
        inner = T("ref", src.args[0], src.args[1])
    else:
        root = ("H", "lim", ci.uid)
        st.mem.setdefault(root, src)
        inner = T("ref", root, ())
    eng.mark_unsigned(n)
    if what in ("read", "read_exact"):
        # one bounded read: the buffer may be longer than the limit
        want = length(old)
        if what == "read":
            want = T("min", *sorted((want, n), key=lambda t: t.id))
        tmp = ("H", "limbuf", ci.uid)
        st.mem[tmp] = T("rep", I(0), want)
        sub_ = eng.sub_ci(ci, "lim")
        sub_.name = "Read::" + what
        out = []
        for s, v in eng.outs(st, m_read(eng, st, [inner, T("ref", tmp, ())], sub_)):
            b = s.mem.pop(tmp)
            eng.write(s, dloc, splice(old, I(0), want, b) if want is not length(old) else b)
            out.append((s, v))
        return out
    res = []
    short = st.copy()
    # the whole limit is there
    tmp = ("H", "limbuf", ci.uid)
    st.mem[tmp] = T("rep", I(0), n)
    sub_ = eng.sub_ci(ci, "lim")
    sub_.name = "Read::read_exact"
    for s, v in eng.outs(st, m_read(eng, st, [inner, T("ref", tmp, ())], sub_)):
        b = s.mem.pop(tmp)
        eng.event("read_all", s, ci.ctx, ci.span, ci.name, (x,))
        eng.write(s, dloc, cat(old, b))
        s2 = s.copy()
        if eng.assume(s, isv(v, "Ok"), True):
            res.append((s, ok(n)))
        if eng.assume(s2, isv(v, "Err"), True):
            res.append((s2, err(field(variant(v, "Err"), "0"))))
    # the source ends before the limit
    loc, y = stream_loc(eng, short, inner)
    r = T("rest", y)
    if eng.assume(short, lt(length(r), n), True):
        eng.write(short, dloc, cat(old, r))
        eng.write(short, loc, T("eof", y))
        res.append((short, ok(length(r))))
    return res


@model("Read::take")
def m_rtake(eng, st, a, ci):
    v = a[0]
    return T("limit", v if v.op != "ref" else T("rd", v.args[0], v.args[1]), a[1])


@model("Read::by_ref", "Write::by_ref", "Iterator::by_ref")
def m_byref2(eng, st, a, ci):
    return a[0]


@model("Write::write_all", "Write::write", "Write::write_str")
def m_write(eng, st, a, ci):
    loc, x = stream_loc(eng, st, a[0])
    data = eng.content(st, a[1])
    eng.event("write", st, ci.ctx, ci.span, ci.name, (x, data), uid=ci.uid)
    t = inner_ty((ci.argtys or [""])[0])
    n = length(data)
    if x.op in SEQ_OPS or is_seq_ty(t) and x.op != "written":
        eng.write(st, loc, cat(x, data))
        return ok(UNIT if not ci.name.endswith("::write") else n)
    if ci.name == "Write::write":
        k = T("nwrite", unwritten(x), data, ci.uid)
        eng.unsigned.add(k)
        st.facts[lt(n, k)] = False
        eng.write(st, loc, written(x, subseq(data, I(0), k)))
        return pend(st, fall("write", k, unwritten(x), data, ci.uid))
    eng.write(st, loc, written(x, data))
    return pend(st, fall("write_all", UNIT, unwritten(x), data, ci.uid))


@model("Write::flush")
def m_flush(eng, st, a, ci):
    loc, x = stream_loc(eng, st, a[0])
    eng.event("flush", st, ci.ctx, ci.span, ci.name, (x,), uid=ci.uid)
    if x.op in SEQ_OPS:
        return ok(UNIT)
    return pend(st, fall("flush", UNIT, unwritten(x), ci.uid))


@model("Write::write_fmt")
def m_writefmt(eng, st, a, ci):
    loc, x = stream_loc(eng, st, a[0])
    data = eng.snap(st, a[1])
    t = inner_ty((ci.argtys or [""])[0])
    if x.op in SEQ_OPS or is_seq_ty(t):
        eng.write(st, loc, cat(x, data))
        return ok(UNIT)
    eng.event("write", st, ci.ctx, ci.span, ci.name, (x, data), uid=ci.uid)
    eng.write(st, loc, written(x, data))
    return pend(st, fall("write_all", UNIT, unwritten(x), data, ci.uid))


@model("Cursor::new")
def m_cursor(eng, st, a, ci):
    return a[0]


# ------------------------------------------------------------ formatting

@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex")
def m_fmtarg(eng, st, a, ci):
    kind = ci.name.split("new_")[1]
    v = eng.snap(st, a[0])
    t = inner_ty((ci.argtys or [""])[0])
    while t.startswith("&"):
        t = inner_ty(t)
    return T("fmtarg", kind, v, t)


@model("Arguments::new", "Arguments::from_str", "Arguments::new_const", "Arguments::new_v1")
def m_fmtargs(eng, st, a, ci):
    if ci.name == "Arguments::from_str":
        return eng.content(st, a[0])
    tmpl = eng.snap(st, eng.content(st, a[0]))
    args = eng.snap(st, eng.content(st, a[1])) if len(a) > 1 else EMPTY
    return decode_fmt(tmpl, args)


def decode_fmt(tmpl, args):
    ps = parts(tmpl)
    if not all(p.op == "one" and p.args[0].op == "int" for p in ps):
        return T("fmt", tmpl, args)
    bs = [p.args[0].args[0] for p in ps]
    av = [p.args[0] for p in parts(args) if p.op == "one"]
    out, i, k = [], 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(T("str", bytes(bs[i:i + b]).decode("utf8", "replace")))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(T("str", bytes(bs[i:i + n]).decode("utf8", "replace")))
            i += n
        elif b >= 0xC0:
            flags = b
            opts = []
            if b & 1:
                opts.append(("flags", bytes(bs[i:i + 4]).hex()))
                i += 4
            if b & 2:
                opts.append(("width", bs[i] | bs[i + 1] << 8))
                i += 2
            if b & 4:
                opts.append(("prec", bs[i] | bs[i + 1] << 8))
                i += 2
            if b & 8:
                k = bs[i] | bs[i + 1] << 8
                i += 2
            if k >= len(av):
                return T("fmt", tmpl, args)
            x = av[k]
            k += 1
            if x.op == "fmtarg":
                if x.args[0] == "display" and not opts and x.args[2] in ("str", "std::string::String"):
                    out.append(x.args[1])
                elif x.args[0] == "display" and not opts and re.match(r"[iu](\d+|size)$", x.args[2]):
                    out.append(T("str", str(x.args[1].args[0])) if x.args[1].op == "int" else T("tostr", x.args[1], x.args[2]))
                else:
                    out.append(T("disp", x.args[0], tuple(opts), x.args[1], x.args[2]))
            else:
                return T("fmt", tmpl, args)
        else:
            return T("fmt", tmpl, args)
    return cat(*out)


@model("fmt::format")
def m_format(eng, st, a, ci):
    return eng.snap(st, a[0])


# ------------------------------------------------------------ crypto, encodings

def hash_alg(t):
    if "Sha256" in t or "OidSha256" in t:
        return "sha256"
    if "Sha512" in t:
        return "sha512"
    return "hash:" + t


@model("Digest::digest")
def m_digest(eng, st, a, ci):
    alg = hash_alg(" ".join(ci.targs) + ci.callee.get("impl", "") if isinstance(ci.callee.get("impl"), str) else
                   " ".join(ci.targs))
    return T(alg, eng.content(st, a[0]))


@model("Digest::new")
def m_dnew(eng, st, a, ci):
    return T("hasher", hash_alg(" ".join(ci.targs) + ci.destty), EMPTY)


@model("Digest::new_with_prefix")
def m_dnewp(eng, st, a, ci):
    return T("hasher", hash_alg(" ".join(ci.targs) + ci.destty), eng.content(st, a[0]))


@model("Digest::update", "Mac::update", "Update::update")
def m_dupdate(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    h = eng.read(st, loc)
    d = eng.content(st, a[1])
    if h.op == "hasher":
        eng.write(st, loc, T("hasher", h.args[0], cat(h.args[1], d)))
        return UNIT
    if h.op == "mac":
        eng.write(st, loc, T("mac", h.args[0], cat(h.args[1], d)))
        return UNIT
    if h.op == "phi" and all(x.op in ("hasher", "mac") for x in h.args):
        eng.write(st, loc, phi([T(x.op, x.args[0], cat(x.args[1], d)) for x in h.args]))
        return UNIT
    if h.op == "loopv":
        eng.write(st, loc, T("hupd", h, d))
        return UNIT
    return None


@model("Digest::chain_update", "Mac::chain_update")
def m_dchain(eng, st, a, ci):
    h = a[0]
    if h.op in ("hasher", "mac"):
        return T(h.op, h.args[0], cat(h.args[1], eng.content(st, a[1])))
    return None


@model("Digest::finalize", "Mac::finalize", "Digest::finalize_fixed", "FixedOutput::finalize_fixed")
def m_dfinal(eng, st, a, ci):
    h = a[0]
    if h.op == "hasher":
        return T(h.args[0], h.args[1])
    if h.op == "mac":
        return T("hmac256", h.args[0], h.args[1])
    if h.op == "phi" and all(x.op == "hasher" for x in h.args):
        return phi([T(x.args[0], x.args[1]) for x in h.args])
    return None


@model("Digest::output_size", "OutputSizeUser::output_size")
def m_outsize(eng, st, a, ci):
    alg = hash_alg(" ".join(ci.targs))
    return I(32 if alg == "sha256" else 64) if alg in ("sha256", "sha512") else None


@model("Mac::new_from_slice")
def m_macnew(eng, st, a, ci):
    # HMAC takes keys of every length
    if hash_alg(" ".join(ci.targs) + ci.destty) != "sha256":
        return ok(T("mac512", eng.content(st, a[0]), EMPTY))
    return ok(T("mac", eng.content(st, a[0]), EMPTY))


@model("Mac::verify_slice", "Mac::verify", "Mac::verify_truncated_left", "Mac::verify_truncated_right")
def m_macverify(eng, st, a, ci):
    # a shortened tag shows in the term of the tag compared
    h = a[0]
    if h.op != "mac":
        return None
    return pend(st, fall("macverify", UNIT, h.args[0], h.args[1], eng.content(st, a[1])))


CIPHERS = {"aes256cbc": (32, 16), "chacha20": (32, 12), "salsa20": (32, 8), "twofishcbc": (32, 16), "aes256": (32, 0)}


def cipher_alg(t):
    tl = t.lower()
    d = "enc" if "encryptor" in tl else ("dec" if "decryptor" in tl else "")
    if "twofish" in tl:
        a = "twofish"
    elif "aes::" in tl or re.search(r"aes\d", tl):
        m = re.search(r"aes(\d\d\d)", tl)
        a = "aes" + (m.group(1) if m else "")
    elif "chacha" in tl:
        a = "chacha20"
    elif "salsa" in tl:
        a = "salsa20"
    else:
        a = t
    if "cbc" in tl:
        a += "cbc"
    return a, d


@model("KeyIvInit::new_from_slices", "KeyInit::new_from_slice", "KeyIvInit::new", "KeyInit::new")
def m_cipher(eng, st, a, ci):
    t = " ".join(ci.targs)
    alg, d = cipher_alg(t)
    key = eng.content(st, a[0])
    iv = eng.content(st, a[1]) if len(a) > 1 else EMPTY
    c = T("cipher", alg, d, key, iv)
    if ci.name.endswith("::new"):
        return c
    sizes = CIPHERS.get(alg)
    if sizes and length(key) is I(sizes[0]) and length(iv) is I(sizes[1]):
        return ok(c)
    r = pend(st, fall("mkcipher", c, alg, d, key, iv))
    return r


@model("StreamCipher::apply_keystream", "StreamCipher::try_apply_keystream")
def m_keystream(eng, st, a, ci):
    cl = arg0_loc(eng, st, a[0])
    c = eng.read(st, cl)
    bl = arg0_loc(eng, st, a[1])
    b = eng.read(st, bl)
    if c.op == "boxv":
        cl = (cl[0], cl[1] + (("*",),))
        c = eng.read(st, cl)
    eng.event("keystream", st, ci.ctx, ci.span, ci.name, (c, b), uid=ci.uid)
    eng.write(st, bl, T("ks", c, b))
    eng.write(st, cl, ksadv(c, length(b)))
    if "try" in ci.name:
        return pend(st, fall("keystream", UNIT, c, b))
    return UNIT


def block_items(b):
    ps = parts(b)
    if b.op in ("cat", "one") and all(p.op == "one" for p in ps):
        return [p.args[0] for p in ps]
    return None


def bmap(op, c, b):
    items = block_items(b)
    if items is None:
        return T("bmap", op, c, b)
    return cat(*[T("one", T(op, c, x)) for x in items])


tm._REBUILD["bmap"] = bmap


@model("BlockEncryptMut::encrypt_blocks_mut", "BlockDecryptMut::decrypt_blocks_mut",
       "BlockEncrypt::encrypt_blocks", "BlockDecrypt::decrypt_blocks",
       "BlockEncryptMut::encrypt_block_mut", "BlockDecryptMut::decrypt_block_mut",
       "BlockEncrypt::encrypt_block", "BlockDecrypt::decrypt_block")
def m_blocks(eng, st, a, ci):
    """One or several cipher blocks in place: benc/bdec(cipher, block); chaining modes advance."""
    cl = arg0_loc(eng, st, a[0])
    c = eng.read(st, cl)
    bl = arg0_loc(eng, st, a[1])
    b = eng.read(st, bl)
    op = "benc" if "Encrypt" in ci.name else "bdec"
    ecb = c.op == "cipher" and not c.args[0].endswith("cbc")
    if "blocks" not in ci.name:
        eng.write(st, bl, T(op, c, b))
        if not ecb:
            eng.write(st, cl, T("cadv", c, b))
        return UNIT
    items = block_items(b)
    if items is None:
        if ecb:
            eng.write(st, bl, bmap(op, c, b))
            return UNIT
        return None
    out = []
    for x in items:
        out.append(T("one", T(op, c, x)))
        if not ecb:
            c = T("cadv", c, x)
    eng.write(st, bl, cat(*out))
    eng.write(st, cl, c)
    return UNIT


@model("Padding::pad")
def m_pad(eng, st, a, ci):
    bl = arg0_loc(eng, st, a[0])
    b = eng.read(st, bl)
    eng.write(st, bl, T("padded", " ".join(ci.targs), b, eng.content(st, a[1])))
    return UNIT


@model("Padding::unpad")
def m_unpad(eng, st, a, ci):
    b = eng.content(st, a[0])
    u = T("unpad", " ".join(ci.targs), b)
    # unpadding removes at least one byte
    st.facts.setdefault(lt(length(u), length(b)), True)
    return pend(st, fall("unpad", T("ref", ("C", u), ()), b))


@model("Version::from_u32")
def m_argver(eng, st, a, ci):
    return pend(st, fall("argonver", T("argonver", a[0]), a[0]))


@model("Div::div", "Rem::rem")
def m_div(eng, st, a, ci):
    x, y = eng.content(st, a[0]), eng.content(st, a[1])
    op = "div" if ci.name.endswith("div") else "rem"
    if x.op == "int" and y.op == "int" and y.args[0]:
        return I(x.args[0] // y.args[0] if op == "div" else x.args[0] % y.args[0])
    return T(op, x, y)


def ksadv(c, n):
    if n is I(0):
        return c
    if c.op == "ksadv":
        return T("ksadv", c.args[0], tm.add(c.args[1], n))
    return T("ksadv", c, n)


tm._REBUILD["ksadv"] = ksadv


@model("RngCore::fill_bytes", "RngCore::try_fill_bytes", "Rng::fill", "Fill::try_fill")
def m_fill_bytes(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[1])
    b = eng.read(st, loc)
    rng = eng.snap(st, a[0])
    v = T("rand", rng_kind(eng, st, a[0], ci), length(b), ci.uid)
    eng.event("rand", st, ci.ctx, ci.span, ci.name, (rng,), data=v, uid=ci.uid)
    eng.write(st, loc, v)
    if "try" in ci.name:
        return pend(st, fall("rand", UNIT, ci.uid))
    return UNIT


@model("RngCore::next_u32", "RngCore::next_u64")
def m_next_int(eng, st, a, ci):
    n = 4 if ci.name.endswith("32") else 8
    v = T("rand", rng_kind(eng, st, a[0], ci), I(n), ci.uid)
    eng.event("rand", st, ci.ctx, ci.span, ci.name, (eng.snap(st, a[0]),), data=v, uid=ci.uid)
    return unle(n, v)


def rng_kind(eng, st, v, ci):
    t = " ".join(ci.targs)
    if "OsRng" in t:
        return "OsRng"
    if "ThreadRng" in t:
        return "ThreadRng"
    return "rng:" + t


@model("Engine::encode")
def m_b64e(eng, st, a, ci):
    return T("b64enc", b64_engine(eng, st, a[0]), eng.content(st, a[1]))


B64_STD = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def b64_engine(eng, st, v):
    """Short description of a base64 engine: alphabet, padding, strictness."""
    x = eng.snap(st, v)
    if x.op != "adt" or "encode_table" not in x.args[2]:
        return x
    cfg = field(x, "config")
    tab = parts(field(x, "encode_table"))
    if not all(p.op == "one" and p.args[0].op == "int" for p in tab):
        return x
    tab = bytes(p.args[0].args[0] for p in tab)
    name = ("std" if tab == B64_STD else "url" if tab == B64_STD[:-2] + b"-_" else tab.decode("latin1"))
    pad, bits = field(cfg, "encode_padding"), field(cfg, "decode_allow_trailing_bits")
    mode = eng.variant_of(st, field(cfg, "decode_padding_mode"))
    if pad not in (TRUE, FALSE) or bits not in (TRUE, FALSE) or mode is None:
        return x
    return T("b64", name, "pad" if pad is TRUE else "nopad", mode, "loose" if bits is TRUE else "strict")


def _date_ok(y, m, d):
    import datetime
    try:
        datetime.date(y, m, d)
        return True
    except (ValueError, OverflowError):
        return False


@model("NaiveDate::from_ymd_opt")
def m_ymd(eng, st, a, ci):
    if all(x.op == "int" for x in a) and _date_ok(*[x.args[0] for x in a]):
        return some(T("ndate", *a))
    return fall("ymd", T("ndate", *a), *a)


@model("Timelike::with_nanosecond")
def m_nanos(eng, st, a, ci):
    if a[1].op == "int" and 0 <= a[1].args[0] < 2000000000:
        return some(T("withnanos", eng.content(st, a[0]), a[1]))
    return None


@model("Local::now", "Utc::now")
def m_now(eng, st, a, ci):
    return T("now", ci.name.split("::")[0], ci.uid)


@model("NaiveDate::and_hms_opt")
def m_hms(eng, st, a, ci):
    if all(x.op == "int" for x in a[1:]) and all(0 <= x.args[0] < n for x, n in zip(a[1:], (24, 60, 60))):
        return some(T("ndt", eng.content(st, a[0]), *a[1:]))
    return fall("hms", T("ndt", eng.content(st, a[0]), *a[1:]), *a)


@model("TimeDelta::try_seconds")
def m_tryseconds(eng, st, a, ci):
    return fall("secs", T("secs", a[0]), a[0])


@model("NaiveDateTime::checked_add_signed")
def m_dateadd(eng, st, a, ci):
    return fall("dateadd", T("dateadd", eng.content(st, a[0]), a[1]), eng.content(st, a[0]), a[1])


@model("NaiveDateTime::signed_duration_since")
def m_datediff(eng, st, a, ci):
    return T("datediff", eng.content(st, a[0]), eng.content(st, a[1]))


@model("TimeDelta::num_seconds")
def m_numsecs(eng, st, a, ci):
    return T("numsecs", eng.content(st, a[0]))


@model("DateTime::parse_from_rfc3339")
def m_rfc3339(eng, st, a, ci):
    s = eng.content(st, a[0])
    return pend(st, fall("rfc3339", T("rfc3339", s), s))


@model("DateTime::naive_local")
def m_naive_local(eng, st, a, ci):
    v = eng.content(st, a[0])
    return T("local", v) if v.op in ("rfc3339", "now") else None


@model("Uuid::as_u128")
def m_as_u128(eng, st, a, ci):
    u = eng.content(st, a[0])
    return I(int(u.args[0], 16)) if u.op == "uuid" else None


@model("Uuid::from_u128")
def m_from_u128(eng, st, a, ci):
    return T("uuid", "%032x" % a[0].args[0]) if a[0].op == "int" else None


@model("Uuid::to_bytes_le")
def m_uuid_tole(eng, st, a, ci):
    return T("uuidle", eng.content(st, a[0]))


@model("Uuid::from_slice_le")
def m_uuid_le(eng, st, a, ci):
    s = eng.content(st, a[0])
    return pend(st, fall("uuidof", T("uuidofle", s), s))


@model("DateTime::naive_utc")
def m_naive_utc(eng, st, a, ci):
    return T("utc", eng.content(st, a[0]))


@model("Engine::decode")
def m_b64d(eng, st, a, ci):
    s = eng.content(st, a[1])
    e = b64_engine(eng, st, a[0])
    return pend(st, fall("b64dec", T("b64dec", e, s), e, s))


@model("Uuid::parse_str")
def m_uuidparse(eng, st, a, ci):
    s = eng.content(st, a[0])
    if s.op == "str":
        h = s.args[0].replace("-", "").lower()
        if re.match(r"^[0-9a-f]{32}$", h):
            return ok(T("uuid", h))
    return pend(st, fall("uuidparse", T("uuidparse", s), s))


@model("Uuid::from_slice")
def m_uuidfrom(eng, st, a, ci):
    s = eng.content(st, a[0])
    u = uuidof(s)
    if length(s) is I(16):
        return ok(u)
    return pend(st, fall("uuidof", u, s))


@model("Uuid::from_bytes")
def m_uuidfb(eng, st, a, ci):
    return uuidof(eng.content(st, a[0]))


def uuidof(s):
    if s.op == "uuidbytes":
        return s.args[0]
    ps = parts(s)
    if len(ps) == 16 and all(p.op == "one" and p.args[0].op == "int" for p in ps):
        return T("uuid", bytes(p.args[0].args[0] for p in ps).hex())
    return T("uuidof", s)


tm._REBUILD["uuidof"] = uuidof


def uuidbytes(u):
    if u.op == "uuidof":
        return u.args[0]
    if u.op == "uuid":
        return T("cat", *[T("one", I(b)) for b in bytes.fromhex(u.args[0])])
    return T("uuidbytes", u)


tm._REBUILD["uuidbytes"] = uuidbytes


@model("Uuid::as_bytes")
def m_uuidbytes(eng, st, a, ci):
    return T("ref", ("C", uuidbytes(eng.content(st, a[0]))), ())


@model("Uuid::into_bytes")
def m_uuidinto(eng, st, a, ci):
    return uuidbytes(a[0])


@model("Uuid::nil")
def m_uuidnil(eng, st, a, ci):
    return T("uuid", "0" * 32)


@model("Uuid::new_v4")
def m_uuidv4(eng, st, a, ci):
    return T("uuid4", ci.uid)


@model("argon2::hash_raw")
def m_argon2(eng, st, a, ci):
    args = [eng.snap(st, x) for x in a]
    return pend(st, fall("argon2", T("argon2", *args), *args))


@model("Decoder::new")
def m_gunzip(eng, st, a, ci):
    v = eng.snap(st, a[0])
    return pend(st, fall("gunzip", T("gunzip", v), v))


@model("Encoder::new")
def m_gzip(eng, st, a, ci):
    return pend(st, fall("gzip", T("gzipw", a[0]), ci.uid))


@model("Encoder::finish")
def m_gzfinish(eng, st, a, ci):
    v = a[0]
    data = EMPTY
    if v.op == "written":
        v, data = v.args
    if v.op == "gzipw":
        return T("gzfin", written(v.args[0], T("gz", data)))
    return None


@model("Encoder::into_inner")
def m_gzdrop(eng, st, a, ci):
    v, data = (a[0].args if a[0].op == "written" else (a[0], EMPTY))
    # what the compressor still holds is lost
    return written(v.args[0], T("gzcut", data)) if v.op == "gzipw" else None


@model("Finish::into_result", "Finish::unwrap")
def m_gzresult(eng, st, a, ci):
    if a[0].op == "gzfin":
        return pend(st, fall("gzfinish", a[0].args[0], ci.uid))
    return None


# ------------------------------------------------------------ xml

@model("EventReader::new_with_config", "EventReader::new")
def m_xr(eng, st, a, ci):
    return T("xr", a[0], *[eng.snap(st, x) for x in a[1:]])


@model("EventReader::next")
def m_xnext(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    x = eng.read(st, loc)
    r = fall("xnext", T("xev", x), x)
    eng.event("xnext", st, ci.ctx, ci.span, ci.name, (x,), data=r, uid=ci.uid)
    eng.write(st, loc, T("xadv", x))
    return pend(st, r)


@model("EventWriter::new_with_config", "EventWriter::new")
def m_xw(eng, st, a, ci):
    eng.event("xwcfg", st, ci.ctx, ci.span, ci.name, tuple(eng.snap(st, x) for x in a[1:]), uid=ci.uid)
    return T("xmlw", a[0], EMPTY)


@model("XmlEvent::start_element")
def m_xstart(eng, st, a, ci):
    return T("xstart", eng.snap(st, a[0]), ())


@model("StartElementBuilder::attr")
def m_xattr(eng, st, a, ci):
    v = a[0]
    if v.op != "xstart":
        return None
    return T("xstart", v.args[0], v.args[1] + ((eng.snap(st, a[1]), eng.snap(st, a[2])),))


@model("XmlEvent::characters")
def m_xchars(eng, st, a, ci):
    return T("xchars", eng.snap(st, a[0]))


@model("XmlEvent::end_element")
def m_xend(eng, st, a, ci):
    return T("xend")


@model("EndElementBuilder::name")
def m_xendname(eng, st, a, ci):
    return T("xend", eng.snap(st, a[1]))


@model("EventWriter::write")
def m_xwrite(eng, st, a, ci):
    loc = arg0_loc(eng, st, a[0])
    w = eng.read(st, loc)
    ev = eng.snap(st, a[1])
    eng.event("xwrite", st, ci.ctx, ci.span, ci.name, (w, ev), uid=ci.uid)
    if w.op == "xmlw":
        eng.write(st, loc, T("xmlw", w.args[0], cat(w.args[1], T("one", ev))))
    else:
        eng.write(st, loc, T("xmlw", w, T("cat", T("one", ev))))
    return pend(st, fall("xwrite", UNIT, ci.uid, ev))


@model("EventWriter::into_inner")
def m_xinner(eng, st, a, ci):
    v = a[0]
    if v.op == "xmlw":
        return written(v.args[0], T("xml", v.args[1]))
    return None


# the fold over thiserror helper traits
@model("AsDisplay::as_display", "AsDynError::as_dyn_error")
def m_asdisp(eng, st, a, ci):
    return a[0]
