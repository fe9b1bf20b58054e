from lib import *
from anchors import *
import spec

RULE = ("the terms computed by set-key, unlock and save for composed key, master key, HMAC key and cipher key are "
        "compared with the KDBX derivation for every credential combination and KDF variant; outcomes with an unknown "
        "KDF or truncated parameters must be errors")


def check(an, rep, tier):
    p = an.p
    pwf, kff, made = credential_fields(an)
    where = loc(p.one("CompositeKey", "new"))
    A1, A2 = T("sym", "arg1"), T("sym", "arg2")
    ok = pwf is not None and kff is not None and pwf != kff
    if ok:
        rep.exact("new/password", where, field(made, pwf), A1, "the password is kept as given")
        rep.exact("new/keyfile", where, field(made, kff), A2, "the key file is kept as given")
    else:
        rep.bad("new/fields", where, "a credential is dropped: " + show(made, 6))
        return
    fp = p.one("CompositeKey", "from_password")
    r = an.run(fp).outs
    for o in r:
        rep.exact("from_password/password", loc(fp), field(o.ret, pwf), some(A1), "password-only credentials")
        rep.exact("from_password/keyfile", loc(fp), field(o.ret, kff), NONE, "password-only credentials have no key file")
    set_key(an, rep, pwf, kff)
    key_use(an, rep)


def leaves(t, base, path=()):
    """Fields of struct value t that differ from base: [(path, value)]."""
    if t is base:
        return []
    if t.op == "with":
        out = []
        for k, v in t.args[1]:
            out += leaves(v, field(base, k), path + (k,))
        return out
    if t.op == "adt" and t.args[0] not in (OPT, RES) and len(t.args) > 4:
        out = []
        for k, v in zip(t.args[2], t.args[3:]):
            out += leaves(v, field(base, k), path + (k,))
        return out
    return [(path, t)]


def strip(t):
    """Key bytes inside Some(..) and newtype wrappers."""
    n = 6
    while n and t.op == "adt" and len(t.args) == 4:
        t = t.args[3]
        n -= 1
    return t


def set_key(an, rep, pwf, kff):
    p = an.p
    root = p.one("Kdbx<Unlocked>", "set_key")
    where = loc(root)
    run = an.run(root)
    if run.incomplete:
        rep.und("set_key", where, run.incomplete)
        return
    S = T("sym", "arg1")
    hdr = header_of(an, "Unlocked", kdbx_sym(p))
    kdf = field(hdr, "kdf_params")
    cred = T("sym", "arg2")
    pw, kf = field(cred, pwf), field(cred, kff)
    seen = set()
    for o in run.outs:
        if not o.is_ok():
            continue
        hp, hk = o.holds(isv(pw, "Some")), o.holds(isv(kf, "Some"))
        kv = o.eng.variant_of(o.st, kdf)
        ch = leaves(o.arg(1), S)
        ks = [(pa, strip(v)) for pa, v in ch]
        tag = "%s+%s/%s" % ({True: "password", False: "none", None: "?"}[hp],
                            {True: "keyfile", False: "none", None: "?"}[hk], kv)
        if kv not in ("Aes", "Argon2"):
            rep.bad("set_key/unsupported-kdf", where,
                    "a key is accepted although the key derivation function is %s" % (kv or "not decided on this path"))
            continue
        if hp is None or hk is None:
            bad = [x for x, h, n in ((pw, hp, "password"), (kf, hk, "key file")) if h is None]
            if all(not any(mentions(v, b) for _, v in ks) for b in bad):
                rep.bad("set_key/credential-ignored", where, "a key is derived without looking at %s" % show(bad[0]))
            else:
                rep.und("set_key/" + tag, where, "credential case not separated")
            continue
        comp = spec.composed(field(variant(pw, "Some"), "0") if hp else None,
                             field(variant(kf, "Some"), "0") if hk else None)
        masters = [(pa, v) for pa, v in ks if contains(v, lambda t: t.op in ("argon2", "iter_n", "benc"))]
        others = [(pa, v) for pa, v in ks if (pa, v) not in masters]
        for pa, v in others:
            rep.exact("set_key/composed/" + tag, where, v, comp, "composed key is SHA-256 of the credential hashes")
        if not others:
            pass
        if len(masters) != 1:
            (rep.und if any(vague(v) for pa, v in ks) else rep.bad)("set_key/master/" + tag, where, "success without a derived key being stored")
            continue
        mk = masters[0][1]
        P = lambda f: field(variant(kdf, kv), f)
        if kv == "Aes":
            prob = spec.aes_kdf_problem(mk, comp, P("rounds"), P("salt"))
        else:
            prob = spec.argon_problem(mk, comp, P)
        seen.add((hp, hk, kv))
        if prob is None:
            rep.ok("set_key/master/" + tag, where, "master key follows the %s key derivation" % kv)
        elif isinstance(prob, tuple):
            rep.und("set_key/master/" + tag, where, prob[1])
        else:
            rep.bad("set_key/master/" + tag, where, prob)
    rep.count("credential_and_kdf_cases", len(seen))
    if len(seen) < 8 and not rep.of("undecided") and not rep.of("violated"):
        rep.bad("set_key/cases", where, "only %d of the 8 credential and KDF cases can succeed" % len(seen))


def key_use(an, rep):
    """Keys that protect the file, at the places where they are used."""
    p = an.p
    opq = opaque_keys(p) | {fn_path(p, "parse_xml"), fn_path(p, "write_xml")}
    for root, state, base in ((p.one("Kdbx<Locked>", "unlock"), "Locked", kdbx_sym(p)),
                              (p.one("Unlocked", "write", "KdbxState"), "Unlocked", T("sym", "arg1"))):
        where = loc(root)
        name = root["name"]
        run = an.run(root, opaque=opq)
        if run.incomplete:
            rep.und(name, where, run.incomplete)
            continue
        hdr = header_of(an, state, base)
        seed = field(hdr, "master_seed")
        terms = set()
        for o in run.outs:
            if o.is_ok():
                terms |= all_terms(o)
        used = set()  # merged paths keep no facts: keys handed to a call count too
        for e in run.eng.events:
            for a in e.args:
                if isinstance(a, Term):
                    subterms(a, used)
        terms |= {t for t in used if t.op in ("sha512", "sha256")}
        if state == "Locked":
            same_keys(an, rep, opq, opaque_keys(p), run, hdr, where)
        ismk = lambda t: t.op == "f" and t.args[1] == "0" and (
            (t.args[0].op == "vf" and t.args[0].args[1] in ("Ok", "Some")))
        hk = ck = 0
        for t in terms:
            if t.op in ("sha512", "sha256"):
                ps = parts(t.args[0])
                if not any(x is seed for x in subterms(t.args[0])) or any(x.op in ("sha512", "star") for x in subterms(t.args[0])):
                    continue
                mks = [x for x in ps if ismk(x)]
                if t.op == "sha512":
                    if mks and t is spec.hmac_key(seed, mks[0]):
                        hk += 1
                        rep.ok(name + "/hmac-key", where, "HMAC key = SHA-512(seed, master key, 1)")
                    else:
                        rep.bad(name + "/hmac-key", where, "HMAC key is " + show(t, 8)[:300])
                else:
                    if mks and t is spec.cipher_key(seed, mks[0]):
                        ck += 1
                        rep.ok(name + "/cipher-key", where, "cipher key = SHA-256(seed, master key)")
                    else:
                        rep.bad(name + "/cipher-key", where, "cipher key is " + show(t, 8)[:300])
            if t.op == "cipher" and t.args[0] in ("aes256cbc", "aes128cbc", "twofishcbc"):
                k = t.args[2]
                good = k.op == "sha256" and any(x is seed for x in parts(k.args[0]))
                rep.judge(name + "/cipher-uses-key/" + t.args[0], where, good or (None if vague(k) else False),
                          "cipher is keyed with the derived cipher key", "cipher key is " + show(k, 6)[:300])
            if t.op == "hmac256" or (t.op == "fall" and t.args[0] == "macverify"):
                k = t.args[0] if t.op == "hmac256" else t.args[2]
                good = k.op == "sha512" and len(parts(k.args[0])) == 9 and \
                    parts(k.args[0])[:8] == tuple(spec.ones([255] * 8)) and parts(k.args[0])[8].op == "sha512"
                rep.judge(name + "/header-hmac-key", where, good or (None if vague(k) else False),
                          "header HMAC is keyed with block key 2^64-1", "header HMAC key is " + show(k, 8)[:300])
        if not hk:
            rep.bad(name + "/hmac-key-missing", where, "no HMAC key derived from the master seed and master key is used")
        if not ck:
            rep.bad(name + "/cipher-key-missing", where, "no cipher key derived from the master seed and master key is used")


def same_keys(an, rep, opq, keys, run, hdr, where):
    """Unlock derives its keys from the given credentials and the header exactly as set_key does."""
    p = an.p
    sk = p.one("Kdbx<Unlocked>", "set_key")
    r2 = an.run(sk, opaque=opq)
    uh = header_of(an, "Unlocked", kdbx_sym(p))
    want = set()
    for o in r2.outs:
        if o.is_ok():
            for pa, v in leaves(o.arg(1), T("sym", "arg1")):
                want.add(subst(strip(v), {uh: hdr, T("sym", "arg2"): T("sym", "arg2")}))
    got = set()
    for o in run.outs:
        if not o.is_ok():
            continue
        for t in all_terms(o):
            if t.op == "call" and t.args[0] in keys:
                got.add(t)
    calls = set()
    for w in want:
        calls |= {t for t in subterms(w) if t.op == "call" and t.args[0] in keys}
    fn = lambda t: (t.args[0],) + tuple(t.args[2:])
    wantf = {fn(t) for t in calls}
    for t in got:
        if fn(t) in wantf:
            rep.ok("unlock/derivation/" + last(t.args[0]), where, "same derivation as for saving, from the given credentials")
        elif vague(t, allow=opq):
            rep.und("unlock/derivation/" + last(t.args[0]), where, "key term not understood: " + show(t, 5)[:200])
        else:
            rep.bad("unlock/derivation/" + last(t.args[0]), where, "unlocking derives " + show(t, 6)[:300])
    rep.count("derivation_calls_compared", len(got))
