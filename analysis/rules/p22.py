from stages import *
from rules.p04 import opening

RULE = ("the sequence of byte terms written by the locked state's writer on every success outcome must be raw header, SHA-256 of "
        "it, stored HMAC and payload (version 4) or raw header and payload (version 3), and the public writer must pass "
        "through to it; opening must have filled these with the consecutive pieces of the file")


def check(an, rep, tier):
    p = an.p
    root = p.one("Locked", "write", "KdbxState")
    w = loc(root)
    run = an.run(root)
    if run.incomplete:
        rep.und("write", w, run.incomplete)
        return
    raw_f, mac_f, data_f = locked_roles(an)
    if not (raw_f and mac_f and data_f):
        rep.und("roles", w, "fields of the locked state not identified")
        return
    major = version_of(an, "Locked", S)
    raw, data = field(S, raw_f), field(S, data_f)
    tag = field(variant(field(S, mac_f), "Some"), "0")
    seen = set()
    for o in run.outs:
        if not o.is_ok():
            continue
        v3 = o.holds(lt(major, I(4)))
        if elsewhere(o, BUF):
            seen |= {3} if v3 is True else {4} if v3 is False else {3, 4}
            rep.und("written", w, "bytes are written piece by piece")
            continue
        got = cat(*outputs(o, BUF))
        for v in ((3,) if v3 is True else (4,) if v3 is False else (3, 4)):
            seen.add(v)
            want = cat(raw, T("sha256", raw), tag, data) if v == 4 else cat(raw, data)
            gone = [n for n, t in (("raw header", raw), ("payload", data)) if not mentions(got, t)]
            if gone:
                rep.bad("written/v%d" % v, w, "the %s read is not written: %s" % (gone[0], show(got, 5)[:200]))
                continue
            rep.exact("written/v%d" % v, w, got, want, "bytes of a locked version %d archive" % v)
        other = [k for k, val in o.facts() if k.op == "isv" and k.args[0].op == "fall" and k.args[0].args[0] == "write"
                 and base_out(k.args[0].args[2]) is BUF]
        rep.judge("complete", w, not other, "all output goes through write_all", "a partial write is not completed")
    for v in (3, 4):
        if v not in seen:
            rep.bad("written/v%d" % v, w, "no way to write a locked version %d archive" % v)
    passthrough(an, rep)
    # what is written is what was read
    opening(an, Part(rep, ("from_reader", "raw-header", "hmac", "payload/v3", "payload/v4")))


def passthrough(an, rep):
    """Kdbx<T>::write hands its output to the state's writer and returns its result."""
    p = an.p
    root = [r for r in p.find("Kdbx", "write") if "Locked" not in (r.get("selfty") or "") and "Unlocked" not in (r.get("selfty") or "")]
    if not root:
        raise Missing("Kdbx<T>::write")
    root = root[0]
    w = loc(root)
    run = an.run(root)
    if run.incomplete:
        rep.und("public-write", w, run.incomplete)
        return
    st = kdbx_sym(p)
    for o in run.outs:
        if o.variant() == "Err":
            continue
        calls = [k.args[0] for k, v in o.facts() if v is True and k.op == "isv" and k.args[1] == "Ok" and k.args[0].op == "call"
                 and k.args[0].args[0].endswith("::write")]
        ret = o.ret
        if ret.op == "call" and ret.args[0].endswith("::write"):
            calls.append(ret)
        good = [c for c in calls if c.args[2] is st and c.args[3] is BUF]
        if good:
            rep.ok("public-write", w, "Kdbx::write is the state's writer")
        elif not calls and not vague(ret):
            rep.bad("public-write", w, "Kdbx::write reports success without the state having been written")
        else:
            rep.und("public-write", w, "writer not understood: " + show(ret, 5)[:200])
