from stages import *

RULE = ("every success outcome of unlocking a version 4 archive must carry a holding HMAC check of the stored tag over the kept "
        "raw header bytes under the specified key; outcomes where it fails must be the HMAC-invalid error, without having "
        "touched the payload")


def check(an, rep, tier):
    p = an.p
    run = unlock_run(an)
    w = loc(run.root)
    if run.incomplete:
        rep.und("unlock", w, run.incomplete)
        return
    raw_f, mac_f, data_f = locked_roles(an)
    if not (raw_f and mac_f and data_f):
        rep.und("roles", w, "fields of the locked state not identified")
        return
    base = kdbx_sym(p)
    hdr = header_of(an, "Locked", base)
    major = version_of(an, "Locked", base)
    key_arg = T("sym", "arg2")
    raw, data = field(base, raw_f), field(base, data_f)
    tag = field(variant(field(base, mac_f), "Some"), "0")
    n = bad = 0
    allow = tuple(opaque_keys(p))
    for o in run.outs:
        v3 = o.holds(lt(major, I(4)))
        if o.is_ok():
            if v3 is True:
                continue
            n += 1
            lab = "%s/%s" % (o.eng.variant_of(o.st, field(hdr, "cipher")), o.eng.variant_of(o.st, field(hdr, "compression_type")))
            mk, prob = expected_master(an, o, hdr, key_arg)
            if prob:
                (rep.und if mk is None and o.variant() is None else rep.bad)("master-key/" + lab, w, prob)
                if mk is None:
                    continue
            else:
                rep.ok("master-key/" + lab, w, "master key derived from the supplied credentials and the header's parameters")
            want = (spec.block_key(I(spec.U64MAX), spec.hmac_key(field(hdr, "master_seed"), master_bytes(p, mk))), raw, tag)
            facts = mac_facts(o)
            if want in [tuple(f) for f in facts]:
                rep.ok("verified/" + lab, w, "stored HMAC verified over the raw header")
                continue
            hits = [f for f in facts if f[2] is tag or f[1] is raw]
            if not hits:
                odd = [k for k, v in o.facts() if mentions(k, tag) and not (k.op == "isv" and k.args[0] is field(base, mac_f))]
                if any(vague(k, allow) for k in odd) or any(vague(f[1], allow) for f in facts):
                    rep.und("verified/" + lab, w, "condition on the stored HMAC not understood")
                else:
                    rep.bad("verified/" + lab, w, "unlocking succeeds without verifying the stored header HMAC"
                            + (": only under %s" % show(odd[0], 8)[:300] if odd else ""))
                continue
            k, m, t = hits[0]
            for got, exp, what in ((m, raw, "covers"), (t, tag, "is compared with"), (k, want[0], "key is")):
                if got is not exp:
                    (rep.und if vague(got, allow) else rep.bad)(
                        "verified/" + lab, w, "the header HMAC %s %s, expected %s" % (what, show(got, 10)[:300], show(exp, 10)[:300]))
                    break
        elif v3 is not True:
            failed = [k for k, v in o.facts() if v is False and k.op == "isv" and k.args[1] == "Ok" and k.args[0].op == "fall"
                      and k.args[0].args[0] == "macverify"]
            failed += [k for k, v in o.facts() if v is False and k.op == "eq" and any(
                x.op == "hmac256" for x in k.args)]
            if not failed:
                continue
            bad += 1
            e = error_of(an, o)
            vn = o.eng.variant_of(o.st, e) if e is not None else None
            if vn == "HmacInvalid":
                rep.ok("rejected", w, "a failed header HMAC is reported as HmacInvalid")
            else:
                (rep.und if e is None or vn is None else rep.bad)(
                    "rejected", w, "a failed header HMAC is reported as %s" % (vn or show(o.ret, 4)[:200]))
            used = [k for k, v in o.facts() if mentions(k, data)]
            rep.judge("rejected/untouched", w, not used, "the payload is not touched when the header HMAC fails",
                      "the payload is processed although the header HMAC failed: " + (show(used[0], 4)[:200] if used else ""))
    # the check must be able to fail
    if n:
        rep.judge("rejectable", w, True if bad else False, "a failing HMAC check leads to an error outcome",
                  "no outcome rejects a wrong header HMAC")
    else:
        raise Missing("a success outcome of unlocking a version 4 archive")
    rep.count("v4_success_outcomes", n)
    rep.count("hmac_failure_outcomes", bad)


def error_of(an, o):
    """The UnlockError inside the failure value."""
    e = o.payload("Err")
    if e.op == "adt" and last(e.args[0]) == "UnlockError":
        return e
    if e.op == "adt":
        for v in e.args[3:]:
            if v.op == "adt" and last(v.args[0]) == "UnlockError":
                return v
    fs = an.p.fields("FailedUnlock")
    return field(e, fs[1]) if len(fs) > 1 else None
