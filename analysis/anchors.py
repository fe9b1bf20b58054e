"""Names shared by several rules, resolved from public types and signatures."""
from lib import *


def opaque_keys(prog):
    """Key derivation is analysed on its own: functions that return the derived keys."""
    names = set()
    for r in prog.roots:
        if r.get("derived"):
            continue
        ret = (r.get("sig") or "").split("->")[-1]
        if re.search(r"\b(ComposedKey|MasterKey)\b", ret) and not re.search(r"[({].*,", ret.split("<")[0]):
            if "std::result::Result<" in ret and not re.search(r"Result<crypto::MasterKey,|Result<[\w:]*MasterKey,", ret):
                continue
            names.add(r["path"])
    return names


def fn_path(prog, name):
    return prog.one(None, name)["path"]


def state_field(prog):
    fs = prog.fields("Kdbx")
    return fs[0]


def kdbx_sym(prog, arg="arg1"):
    return field(T("sym", arg), state_field(prog))


def header_of(an, state, base):
    """The header inside the state value `base` of type Locked / Unlocked."""
    r = an.p.one(state, "header", "KdbxState")
    run = an.run(r)
    t = run.outs[0].ret
    return subst(t, {T("sym", "arg1"): base})


def version_of(an, state, base, which="major_version"):
    r = an.p.one(state, which, "KdbxState")
    return subst(an.run(r).outs[0].ret, {T("sym", "arg1"): base})


def credential_fields(an):
    """(password field, key file field) of the composite key."""
    run = an.run(an.p.one("CompositeKey", "new"))
    ret = run.outs[0].ret
    pw = kf = None
    if ret.op == "adt":
        for n, v in zip(ret.args[2], ret.args[3:]):
            if mentions(v, T("sym", "arg1")):
                pw = n
            if mentions(v, T("sym", "arg2")):
                kf = n
    return pw, kf, ret


def all_terms(o):
    """Every term that occurs in an outcome."""
    seen = set()
    subterms(o.ret, seen)
    for k, v in o.facts():
        subterms(k, seen)
    for r, v in o.st.mem.items():
        if r[0] == "A":
            subterms(v, seen)
    return seen


def writes(o, arg):
    """Bytes written to the writer argument in this outcome, in order, per call."""
    out = []
    s = T("sym", arg)
    for e in o.eng.events:
        pass
    return out


def consumed(eng, x, s):
    """Source position after the byte term x was read from position s, or None
    when x is not exactly the bytes that follow s."""
    for p in parts(x):
        if p.op == "take" and p.args[0] is s:
            s = drop(s, p.args[1])
        elif p.op == "take" and p.args[0].op != "loopv" and drop(p.args[0], I(0)) is s:
            s = drop(s, p.args[1])
        elif p.op == "star" and p.args[1].op == "take" and p.args[1].args[0].op == "loopv":
            lv, n = p.args[1].args
            info = eng.loops.get(p.args[0])
            if not info or lv not in info["steps"]:
                return None
            init, steps = info["steps"][lv]
            if init is not s or any(v is not drop(lv, n) for v in steps):
                return None
            s = lv
        else:
            return None
    return s


def unrecorded(eng, x):
    """A loop that, in some round, takes bytes from its source and adds none of them to x: its number, or None."""
    for t in subterms(x):
        info = eng.loops.get(t.args[0]) if t.op == "star" and t.args[1].op == "phi" and EMPTY in t.args[1].args else None
        if not info:
            continue
        moving = [v for v, (i, ss) in info["steps"].items() if contains(t.args[1], lambda y: y is v)
                  and any(z is not None and z.op == "drop" and z.args[0] is v for z in ss)]
        for y, z in (info.get("acc") or {}).items():
            if not contains(z, lambda q: q is t):
                continue
            for i, b in enumerate(info["back"]):
                if info["steps"][y][1][i] is y and any(info["steps"][v][1][i] is not v for v in moving):
                    return t.args[0]
    return None


def locked_roles(an):
    """Names of the raw-header, HMAC and payload fields of the locked state."""
    p = an.p
    path, a = p.adt("Locked")
    raw = mac = data = None
    run = an.run(p.one(None, "from_reader"))
    sf = state_field(p)
    for o in run.outs:
        if o.variant() != "Ok":
            continue
        st = field(o.payload(), sf)
        for f in p.fields("Locked"):
            v = field(st, f)
            if v.op == "rest":
                data = f
            elif v.op == "adt" and v.args[0] == OPT:
                mac = f
    tys = {f[0]: f[1] for f in a["variants"][0]["fields"]}
    vecs = [f for f, t in tys.items() if re.search(r"^(std|alloc)::vec::Vec<u8>", t)]
    rest_ = [f for f in vecs if f != data]
    if len(rest_) == 1:
        raw = rest_[0]
    return raw, mac, data


def understood(k, about):
    """Is the fact k about `about` a plain comparison with a known value?"""
    return k.op in ("eq", "lt", "isv") and not vague(k)


def require(rep, o, key, where, conds, about, good, bad):
    """The outcome may only exist when one of conds holds."""
    if any(o.holds(c) is True for c in conds):
        rep.ok(key, where, good)
        return True
    odd = [k for k, v in o.facts() if mentions(k, about) and k.op not in ("eq", "lt", "isv")
           and not (k.op in ("fall",))]
    if odd and not any(o.holds(c) is False for c in conds):
        rep.und(key, where, bad + " (condition not understood: %s)" % show(odd[0], 5)[:160])
        return None
    rep.bad(key, where, bad)
    return False
