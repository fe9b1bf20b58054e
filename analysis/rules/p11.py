from stages import *
from inv import fields_of, inductive

RULE = ("every construct that can stop the program (failed assertion, bounds check, unwrap, arithmetic check, library call with a "
        "panicking precondition) reached from an operation on untrusted data has its condition proved from the path taken to it, "
        "from field invariants proved inductive over the owning type, or from the ways the receiver can have been made")

# library functions that panic on part of their arguments
PANICS = {
    "TimeDelta::seconds", "TimeDelta::minutes", "TimeDelta::hours", "TimeDelta::days", "TimeDelta::weeks", "TimeDelta::milliseconds",
    "NaiveDate::from_ymd", "NaiveDate::and_hms", "NaiveDate::from_yo", "NaiveDateTime::from_timestamp", "NaiveTime::from_hms",
    "str::split_at", "String::remove", "String::insert", "String::insert_str", "String::truncate", "String::split_off", "String::drain",
    "String::replace_range", "slice::rotate_left", "slice::rotate_right", "slice::copy_within", "slice::swap", "slice::swap_with_slice",
    "Vec::splice", "VecDeque::swap", "VecDeque::insert", "Iterator::step_by", "slice::windows", "slice::rchunks",
    "RefCell::borrow", "RefCell::borrow_mut", "char::from_digit", "char::to_digit", "process::exit", "process::abort",
    "Rng::gen_range", "Finish::unwrap", "u32::pow", "u64::pow", "usize::pow", "i64::pow", "i32::pow", "i64::abs", "i32::abs",
    "panic::resume_unwind", "Duration::from_secs_f64", "Index::index", "IndexMut::index_mut", "slice::split_at", "slice::copy_from_slice",
    "slice::clone_from_slice", "Vec::remove", "Vec::insert", "Vec::swap_remove", "Vec::drain", "Vec::split_off",
    "GenericArray::clone_from_slice",
}
# not reading, or panicking by contract on an index the caller chose
WRITING = {"write", "index", "index_mut"}
# operators that panic for some types of other crates
OPERATORS = {"Add::add", "Sub::sub", "AddAssign::add_assign", "SubAssign::sub_assign", "Mul::mul", "Div::div", "Neg::neg"}
ACCESSORS = ("Database", "Group", "Entry", "Field", "Value", "Times", "History", "Meta", "MemoryProtection", "Otp",
             "Kdbx<Unlocked>", "Kdbx<Locked>", "Kdbx<T>", "KdbxHeader", "KdbxInnerHeader")


def check(an, rep, tier):
    runs, calls = reading_runs(an)
    keep = invariants(an, rep)
    made = makers(an, runs)
    for r, run in runs:
        inv = keep.get(base_ty(r.get("selfty") or "")) if "Read>::read" in r["path"] else None
        if inv:
            run = an.run(r, accel=False, loop_in=600, given=tuple(inv))
        sites(an, rep, r, run, made)
    todo, by, done = accessors(an), {}, {r["key"] for r, run in runs}
    for r in an.p.roots:
        by.setdefault(r["path"], r)
    while todo:
        r = todo.pop(0)
        if r["key"] in done:
            continue
        done.add(r["key"])
        run = an.run(r, accel=False, loop_in=600)
        sites(an, rep, r, run, made)
        todo += [by[e.name] for e in run.eng.events if e.kind in ("call", "callfn") and e.name in by]
    rep.assumption("library functions panic only where analysis/models.py or the list in rules/p11.py says so")
    rep.assumption("a 64-bit counter raised by a constant does not reach its limit; the stack is large enough for the nesting of groups")
    rep.assumption("a cipher block has at least one byte")


# ------------------------------------------------------------ field invariants

def invariants(an, rep):
    """{type: [(condition, value)]}: orderings of fields that every constructor establishes and every method keeps."""
    out = {}
    for ty, root in an.p.impls_of("std::io::Read", "read"):
        fs = fields_of(an, ty)
        ints = [f for f, t in fs if t in ("usize", "u64", "u32")]
        seqs = [f for f, t in fs if re.match(r"(std::vec::Vec<u8>|\[u8; |.*GenericArray<u8)", t)]
        cand = [(f, ("n", g)) for f in ints for g in ints if f != g] + [(f, ("len", g)) for f in ints for g in seqs]
        if not cand:
            continue
        rep.count("invariant_types")
        cand = inductive(an, ty, cand, term, accel=False, loop_in=600)
        out[ty] = [term(S, x) for x in cand] + [(eq(length(field(S, g)), I(0)), False) for g, t in fs if "GenericArray<u8" in t]
        rep.count("invariants", len(cand))
    return out


def term(x, c):
    f, (k, g) = c
    hi = field(x, g) if k == "n" else length(field(x, g))
    return lt(hi, field(x, f)), False


# ------------------------------------------------------------ how receivers are made

def makers(an, runs):
    """{type: [(outcome, value)]} of the values the reading operations hand out."""
    out = {}
    for r, run in runs:
        ret = (r.get("sig") or "").split("->")[-1].strip()
        m = re.match(r"std::result::Result<", ret)
        ty = split(ret[m.end():-1])[0] if m else ret
        if not re.match(r"[\w:]+(<.*>)?$", ty) or run.incomplete or ty.startswith("std::") or "::" not in ty:
            continue
        for o in run.outs:
            v = o.payload("Ok") if m and o.variant() == "Ok" else None if m else o.ret
            if v is not None:
                out.setdefault(ty, []).append((o, v))
    return out


def split(s):
    out, d, cur = [], 0, ""
    for c in s:
        d += c in "<([" 
        d -= c in ">)]"
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def accessors(an):
    """Public methods that read a database, and the trait methods behind them."""
    out = []
    for r in an.p.roots:
        t = an.p.fns[r["key"]]["locals"][1][0] if an.p.fns[r["key"]]["argc"] else ""
        ret = (r.get("sig") or "").partition(" -> ")[2]
        if r["pub"] and not r.get("derived") and t.startswith("&") and (not re.match(r"&('\w+ )?mut ", t) or "&" in ret and "mut " in ret) \
                and last(r.get("selfty") or "") in {last(x) for x in ACCESSORS} and r["name"] not in WRITING:
            out.append(r)
    if not out:
        raise Missing("reading accessors")
    return out


# ------------------------------------------------------------ sites

def sites(an, rep, r, run, made):
    rep.count("operations")
    if run.incomplete:
        rep.und("run:" + r["path"], loc(r), run.incomplete)
        return
    n = 0
    for e in run.eng.events:
        if e.kind == "diverge" or e.kind == "assert" and e.name != "other" or e.kind == "overflow":
            what = e
        elif e.kind == "call" and (e.name in PANICS or e.name in OPERATORS):
            what = e
        else:
            continue
        n += 1
        fn, span = place(an, e)
        res, why = decide(an, r, run, e, made)
        rep.judge("panic:%s:%s" % (fn, kind(e)), span, res, why, why)
    rep.count("sites", n)
    rep.ok("panic:" + r["path"], loc(r), "every way to stop is excluded")


def kind(e):
    if e.kind == "assert":
        return e.name + (":" + anon(e.data)[:80] if isinstance(e.data, Term) else "")
    return "%s:%s" % (e.kind, e.name.split("::")[-1])


def place(an, e):
    """The function of the crate in which it happens, and the line there."""
    c, span = e.ctx, e.span
    while c is not None and not an.p.fns[c.key]["local"]:
        f = c
        c = c.parent
        if c is not None:
            span = call_span(an, c, f) or span
    return (an.p.fns[c.key]["path"] if c else e.fn), span


def call_span(an, c, f):
    b = an.p.fns[c.key]["blocks"][f.block]
    return b[1][5] if b and b[1][0] == "call" else None


def decide(an, r, run, e, made):
    eng = run.eng
    st = State()
    st.facts = dict(e.facts)
    if e.kind == "overflow":
        op, a, b, ty = e.args
        if limited(eng, st, op, a, b, ty):
            return True, "stays within %s" % ty
        bad = "%s of %s and %s can exceed %s" % (op.lower(), show(a, 4)[:80], show(b, 4)[:80], ty)
        return (None if vague(a, KNOWN) or vague(b, KNOWN) else False), bad
    if e.kind == "call":
        if e.args and all(x.op in ("int", "str", "char") for x in e.args):
            return True, "constant arguments"
        return (None if e.name in OPERATORS and not dated(e) else False), "%s panics on part of its arguments" % e.name
    c = e.data if e.kind == "assert" else None
    if c is not None and eng.ev(st, c) is True:
        return True, "proved from the path"
    ty = an.p.fns[r["key"]]["locals"][1][0] if an.p.fns[r["key"]]["argc"] else ""
    ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
    if ty in made and all(excluded(o, v, st, c) for o, v in made[ty]):
        return True, "excluded by how the receiver is made"
    if c is not None:
        return (None if vague(c, KNOWN) else False), "not excluded: " + show(not_(c), 5)[:160]
    last_ = [k for k, v in e.facts.items() if isinstance(k, Term)][-1:]
    odd = last_ and vague(last_[0], KNOWN | {x.args[0] for x in subterms(last_[0]) if x.op == "call" and local(an, x.args[0])}
                          | {"el" for x in subterms(last_[0]) if x.op == "el" and x.args[0].op == "split"})
    return (None if odd else False), "reached when " + ("%s is %s" % (show(last_[0], 5)[:160], e.facts[last_[0]]) if last_ else "called")


KNOWN = {"loopv", "ix", "idx", "phi", "bin"}


def local(an, path):
    return any(q["path"] == path for q in an.p.roots)


def dated(e):
    return any("NaiveDate" in show(x, 3) or x.op in ("ymd", "hms", "dateadd", "secs", "utc", "rfc3339") for x in e.args)


def excluded(o, v, st, c):
    """The path cannot be taken, or the condition holds, for the receiver v."""
    m = {S: v}
    for k, w in st.facts.items():
        if isinstance(k, Term) and mentions(k, S):
            if o.eng.ev(o.st, subst(k, m)) is (not w):
                return True
    if c is None:
        return False
    for x in subterms(c):
        n = pieces(x, v)
        if n is not None:
            m[x] = I(n)
    return o.eng.ev(o.st, subst(c, m)) is True


def pieces(x, v):
    """How many pieces a field of the receiver v is cut into, for the length of the list of pieces."""
    if x.op != "len" or x.args[0].op != "comp":
        return None
    src = x.args[0].args[0]
    while src.op in ("map", "enumerate", "rev"):
        src = src.args[0]
    if src.op != "chunks" or src.args[0] != ("A", "arg1") or src.args[2].op != "int":
        return None
    for k in src.args[1]:
        v = field(v, k[1])
    n, w = length(v), src.args[2].args[0]
    if n.op != "int":
        return None
    return n.args[0] // w if "exact" in src.args[3:] else -(-n.args[0] // w)


def limited(eng, st, op, a, b, ty):
    if op == "Sub":
        return eng.prove_ge(st, sub(a, b))
    if op != "Add" or ty not in ("usize", "u64", "u128"):
        return False
    if b.op == "int" and b.args[0] < 1 << 16 or a.op == "int" and a.args[0] < 1 << 16:
        x = a if b.op == "int" else b
        return not attacker(x)
    r = add(a, b)
    atoms = set()
    for k in list(st.facts) + [a, b]:
        if isinstance(k, Term):
            atoms |= {x for x in subterms(k) if x.op == "len" or x.op == "f"}
    if any(eng.prove_ge(st, sub(x, r)) for x in atoms):
        return True
    k, ks = lin_of(r)
    return 0 <= k < 1 << 32 and all(n > 0 and small(x) for x, n in ks.items()) and sum(ks.values()) <= 2


def small(x):
    return x.op in ("len", "nread", "nwrite", "ix") or x.op == "unle" and x.args[0] <= 4


def attacker(x):
    """A number taken as it is from the input."""
    return any(y.op == "unle" and y.args[0] >= 8 for y in lin_of(x)[1])
