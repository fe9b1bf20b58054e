from stages import *

RULE = ("the four codecs are compared term by term with Base64 of the 16 UUID bytes and of the 8-byte little-endian count of "
        "seconds since 0001-01-01; every refusal must be justified by a failed decoding step, every accepted text by a successful one")

A1 = T("sym", "arg1")
STD = T("b64", "std", "pad", "RequireCanonical", "strict")
EPOCH = T("ndt", T("ndate", I(1), I(1), I(1)), I(0), I(0), I(0))
ALPHABET = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=")
ALWAYS_ISO = set("-:")


def check(an, rep, tier):
    p = an.p
    encoders(an, rep)
    decode_uuid(an, rep, an.run(p.one(None, "decode_uuid")))
    decode_date(an, rep, an.run(p.one(None, "decode_datetime")))
    rep.assumption("Base64 decoding of correctly padded text inverts encoding; RFC 3339 dates contain '-' and ':'")


# library results known not to be the count required
OTHER = ("TimeDelta::num_minutes", "TimeDelta::num_hours", "TimeDelta::num_days", "TimeDelta::num_weeks", "i64::abs", "i64::unsigned_abs")
# texts every decoder of these formats takes
ISO = ("2020-01-02T03:04:05Z", "2020-01-02T03:04:05+02:00", "1999-12-31T23:59:59.25-01:30")
COUNT = ("AAAAAAAAAAA=", "zv2cyg4AAAA=", "//////////8=")


def on(k, text):
    """The condition k on a concrete text, None if not known."""
    if k.op == "isv" and k.args[0].op == "fall":
        good = {"rfc3339": text in ISO, "b64dec": text in COUNT, "secs": True, "dateadd": True}.get(k.args[0].args[0])
        if good is None or k.args[0].args[-1] is not A1 and k.args[0].args[0] in ("rfc3339", "b64dec"):
            return None
        return good == (k.args[1] in ("Ok", "Some"))
    if k.op == "not":
        v = on(k.args[0], text)
        return None if v is None else not v
    if k.op in ("contains", "starts_with", "ends_with") and k.args[0] is A1:
        x = k.args[1]
        x = chr(x.args[0]) if x.op == "char" else x.args[0] if x.op == "str" else None
        if x is None:
            return None
        return x in text if k.op == "contains" else text.startswith(x) if k.op == "starts_with" else text.endswith(x)
    if k.op in ("lt", "eq"):
        m = {length(A1): I(len(text)), length(T("b64dec", STD, A1)): I(8)}
        v = subst(k, m)
        return v.args[0] if v.op == "bool" else True if v is TRUE else False if v is FALSE else None
    return None


def taken(o, texts):
    """One of the texts for which all conditions of the outcome hold, if there is one."""
    for t in texts:
        if all(on(k, t) is v for k, v in o.facts() if mentions(k, A1)):
            return t
    return None


def encoders(an, rep):
    for name, want in (("encode_uuid", T("b64enc", STD, T("uuidbytes", A1))),
                       ("encode_datetime", T("b64enc", STD, le(8, T("numsecs", T("datediff", A1, EPOCH)))))):
        run = an.run(an.p.one(None, name))
        w = loc(run.root)
        if run.incomplete:
            rep.und(name, w, run.incomplete)
            continue
        for o in run.outs:
            rep.count("outcomes")
            rep.exact(name, w, untrunc(o.ret), want, "encoded form", allow=() if ops(o.ret, "numsecs") else OTHER)


def untrunc(t):
    """Drop conversions that keep the value: i64 counts are within i64."""
    m = {}
    for x in subterms(t):
        if x.op == "trunc" and x.args[0] == "i64" and x.args[1].op == "numsecs":
            m[x] = x.args[1]
    return subst(t, m) if m else t


def falls(o, kind):
    """Verdict of the fallible step `kind` in this outcome and its arguments: (True/False/None, term)."""
    for k, v in o.facts():
        if k.op == "isv" and k.args[0].op == "fall" and k.args[0].args[0] == kind:
            ok_ = v if k.args[1] in ("Ok", "Some") else not v
            return ok_, k.args[0]
    return None, None


def decode_uuid(an, rep, run):
    w = loc(run.root)
    if run.incomplete:
        rep.und("decode_uuid", w, run.incomplete)
        return
    dec = T("b64dec", STD, A1)
    for o in run.outs:
        rep.count("outcomes")
        n = o.variant()
        b, bt = falls(o, "b64dec")
        u, ut = falls(o, "uuidof")
        if n in ("Some", "Ok"):
            rep.exact("decode_uuid/value", w, o.payload(n), T("uuidof", dec), "decoded identifier")
            rep.judge("decode_uuid/checked", w, b is True and u is True or None if vague(o.ret) else b is True and u is True,
                      "both decoding steps succeeded", "a value without successful decoding")
        elif n in ("None", "Err"):
            good = b is False or u is False
            rep.judge("decode_uuid/refused", w, good or (None if odd(o) else False), "refused only after a failed decoding step",
                      "well-formed text may be refused")
        else:
            rep.und("decode_uuid", w, "outcome not understood: " + show(o.ret, 4)[:160])


def odd(o):
    """A condition on the text that the rule does not know."""
    for k, v in o.facts():
        if not mentions(k, A1):
            continue
        if k.op == "isv" and k.args[0].op == "fall":
            continue
        if k.op == "contains" and k.args[1].op == "char":
            continue
        if any(x.op == "b64dec" for x in subterms(k)) and k.op in ("lt", "eq"):
            continue
        return k
    return None


def decode_date(an, rep, run):
    w = loc(run.root)
    key = "decode_datetime"
    if run.incomplete:
        rep.und(key, w, run.incomplete)
        return
    dec = T("b64dec", STD, A1)
    whole = (dec, subseq(dec, I(0), I(8)))
    routes = set()
    outs = []
    for o in run.outs:
        n = o.variant()
        if n is None and o.ret.op == "fall":
            for var, val in (("Some", True), ("None", False)):
                s2 = o.st.copy()
                if o.eng.assume(s2, isv(o.v, "Some"), val):
                    outs.append((Out(o.eng, s2, o.v), var))
        else:
            outs.append((o, n))
    for o, n in outs:
        rep.count("outcomes")
        b64 = excluded_b64(o, dec)
        iso = excluded_iso(o)
        if n in ("Some", "Ok"):
            v = o.payload(n)
            failed = [k for k in ("secs", "dateadd") if falls(o, k)[0] is False]
            if falls(o, "rfc3339")[0] is not True and (failed or falls(o, "b64dec")[0] is False):
                rep.bad(key + "/accepted", w, "a value for text that is not a date in range: " + show(v, 5)[:160])
                continue
            if v is T("utc", T("rfc3339", A1)):
                routes.add("iso")
                rep.judge(key + "/iso", w, b64 or (None if odd(o) else False), "ISO text gives its UTC time",
                          "text that is the encoding of a date is read as an ISO date")
                rep.judge(key + "/iso-checked", w, falls(o, "rfc3339")[0] is True, "parsed successfully", "not checked")
                continue
            if v.op == "dateadd":
                d = v.args[1]
                ln = o.holds(lt(length(dec), I(8)))
                x = d.args[0] if d.op == "secs" else None
                if x is not None and x.op == "trunc" and x.args[0] == "i64":
                    x = x.args[1]
                if v.args[0] is not EPOCH:
                    (rep.und if vague(v.args[0]) else rep.bad)(key + "/epoch", w, "counted from " + show(v.args[0], 5)[:120])
                    continue
                if ln is True or o.holds(eq(length(dec), I(8))) is False:
                    continue      # a text whose count has another width: not part of the property
                if x is not None:
                    x = subst(x, {length(dec): I(8)})
                if x is not None and x.op == "unle" and x.args[0] == 8 and x.args[1] in whole:
                    routes.add("b64")
                    rep.ok(key + "/count", w, "seconds since year 1 from the little-endian count")
                else:
                    (rep.und if vague(d, OTHER) else rep.bad)(key + "/count", w, "the time added is " + show(d, 6)[:200])
                continue
            (rep.und if vague(v) else rep.bad)(key + "/value", w, "date is " + show(v, 6)[:200])
        elif n in ("None", "Err"):
            good = bool(b64 and iso)
            t = taken(o, ISO + COUNT)
            rep.judge(key + "/refused", w, good or (None if odd(o) and t is None else False),
                      "refused only after a failed decoding step", "a valid date such as %s is refused" % (t or "any"))
        else:
            rep.und(key, w, "outcome not understood: " + show(o.ret, 4)[:160])
    for r in ("iso", "b64"):
        rep.judge(key + "/route-" + r, w, (r in routes) or None, "accepted", "no accepted outcome for %s text" % r)


def excluded_b64(o, dec):
    """Does the outcome exclude texts that encode a date?"""
    for kind in ("b64dec", "secs", "dateadd"):
        if falls(o, kind)[0] is False:
            return True
    if falls(o, "rfc3339")[0] is True:
        return True       # has a '-', which is not a Base64 character
    if o.holds(eq(length(dec), I(8))) is False or o.holds(lt(length(dec), I(8))) is True:
        return True
    for k, v in o.facts():
        if k.op == "contains" and k.args[0] is A1 and k.args[1].op == "char" and v is True and chr(k.args[1].args[0]) not in ALPHABET:
            return True
    return False


def excluded_iso(o):
    """Does the outcome exclude valid ISO dates?"""
    if falls(o, "rfc3339")[0] is False or falls(o, "b64dec")[0] is True:
        return True
    for k, v in o.facts():
        if k.op == "contains" and k.args[0] is A1 and k.args[1].op == "char" and v is False and chr(k.args[1].args[0]) in ALWAYS_ISO:
            return True
    return False
