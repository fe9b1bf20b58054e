from stages import *
from rules.p21 import key_fields

RULE = ("the stage structure of every success outcome of saving and unlocking is read off the terms: compression, cipher with key "
        "and IV, HMAC blocks, per configured cipher and compression; settings outside the supported set have no success outcome")

CIPHERS = {"Aes256": "aes256cbc", "Aes128": "aes128cbc", "TwoFish": "twofishcbc", "ChaCha20": "chacha20"}
COMP = {"None": False, "Gzip": True}


def ignored(o, t, used):
    """The outcome does not depend on the setting, and what it does is known."""
    return used is not None and not vague(used, allow=("star", "phi", "el", "loopv", "call")) and \
        not any(looks_at(k, t) for k, v in o.facts())


def looks_at(k, t):
    """The condition k depends on t other than as part of bytes written."""
    if k is t:
        return True
    if k.op in ("fall", "call", "le", "star", "cat", "one"):
        return False
    return any(looks_at(a, t) for a in k.args if isinstance(a, Term))


def check(an, rep, tier):
    save(an, rep)
    load(an, rep)
    inner_streams(an, rep)


def cipher_value(t):
    """The cipher object held by a stage value."""
    for v in t.args[3:]:
        if v.op == "cipher":
            return v
    return None


def judge_cipher(an, rep, key, w, name, t, direction, hdr, mk, allow):
    c = cipher_value(t)
    if c is None:
        rep.und(key, w, "no cipher found in the stage: " + show(t, 3)[:200])
        return
    alg, dr, k, iv = c.args
    want = CIPHERS.get(name)
    if alg != want:
        rep.bad(key, w, "cipher setting %s is served by %s" % (name, alg))
    elif dr not in ("", direction):
        rep.bad(key, w, "cipher used in the wrong direction: " + dr)
    elif mk is None:
        rep.und(key, w, "master key not known")
    else:
        wk = spec.cipher_key(field(hdr, "master_seed"), master_bytes(an.p, mk))
        if k is not wk:
            (rep.und if vague(k, allow) else rep.bad)(key, w, "cipher key is %s, expected %s" % (show(k, 8)[:300], show(wk, 8)[:300]))
        elif iv is not field(hdr, "encryption_iv"):
            (rep.und if vague(iv, allow) else rep.bad)(key, w, "IV is %s instead of the header's" % show(iv, 6)[:200])
        else:
            rep.ok(key, w, "%s with the derived key and the header's IV" % alg)


def save(an, rep):
    p = an.p
    run = save_run(an)
    w = loc(run.root)
    if run.incomplete:
        rep.und("save", w, run.incomplete)
        return
    ckf, mkf = key_fields(p)
    hdr = header_of(an, "Unlocked", S)
    mk = field(variant(field(S, mkf), "Some"), "0")
    wx = fn_path(p, "write_xml")
    db = None
    seen = set()
    for s in saves(an):
        lab = "save/%s/%s" % (s.cipher, s.comp)
        o = s.o
        if s.cipher not in CIPHERS:
            (rep.bad if s.cipher or ignored(o, field(hdr, "cipher"), s.bytes) else rep.und)(
                lab, w, "saving succeeds with cipher setting %s" % (s.cipher or "ignored"))
            continue
        if s.comp not in COMP:
            (rep.bad if s.comp or ignored(o, field(hdr, "compression_type"), s.bytes) else rep.und)(
                lab, w, "saving succeeds with compression setting %s" % (s.comp or "ignored"))
            continue
        seen.add((s.cipher, s.comp))
        if s.bytes is None:
            last_ = s.writes[-1] if s.writes else EMPTY
            (rep.und if vague(last_) and s.problem is None else rep.bad)(lab, w, s.problem or "payload not understood: " + show(last_, 5)[:200])
            continue
        kinds = [k for k, _, _ in s.stack]
        want = ["stream" if s.cipher == "ChaCha20" else "block", "hmac"]
        # bytes entering the pipeline
        b = s.bytes
        gz = b.op == "gz" or (len(parts(b)) == 1 and parts(b)[0].op == "gz")
        if gz:
            b = parts(b)[0].args[0]
        rep.judge(lab + "/compression", w, gz == COMP[s.comp], "compressed exactly when configured",
                  "compression setting %s but the data is %scompressed" % (s.comp, "" if gz else "not "))
        if kinds == want and s.end.op == "ref" and not s.problem:
            rep.ok(lab + "/stages", w, "data passes " + " then ".join(kinds))
        else:
            rep.bad(lab + "/stages", w, "data passes %s to %s%s" % (" then ".join(kinds) or "no stage", show(s.end, 3)[:120],
                                                                    "; " + s.problem if s.problem else ""))
            continue
        judge_cipher(an, rep, lab + "/cipher", w, s.cipher, s.stack[0][2], "enc", hdr, mk, ())
        hv = s.stack[1][2]
        hk = spec.hmac_key(field(hdr, "master_seed"), master_bytes(p, mk))
        keys = [v for v in hv.args[3:] if mentions(v, T("sym", "arg1")) or v.op == "sha512"]
        if any(contains(v, lambda t: t is hk) and not ops_other(v, hk) for v in keys):
            rep.ok(lab + "/hmac-key", w, "block HMACs use the archive's HMAC key")
        else:
            (rep.und if any(vague(v) for v in keys) else rep.bad)(lab + "/hmac-key", w, "block HMAC key is "
                                                                  + "; ".join(show(v, 7)[:200] for v in keys))
        # inner header then XML of the database
        ps = parts(b)
        xs = [i for i, x in enumerate(ps) if x.op == "wrote" and x.args[0] == wx]
        if xs == [len(ps) - 1] and len(ps) >= 2:
            rep.ok(lab + "/content", w, "inner header, then the database")
        else:
            rep.bad(lab + "/content", w, "the pipeline receives %s" % show(b, 4)[:300])
            continue
        wrote = ps[-1]
        ih = field(S, inner_field(p))
        if not all(mentions(cat(*ps[:-1]), field(ih, f)) for f in ("inner_stream_key",)):
            rep.bad(lab + "/inner-header", w, "what precedes the database is not the inner header: " + show(cat(*ps[:-1]), 5)[:200])
        else:
            rep.ok(lab + "/inner-header", w, "the inner header precedes the database")
        algo = o.eng.variant_of(o.st, field(ih, "inner_stream_cipher"))
        wc = spec.inner_cipher(algo, field(ih, "inner_stream_key"))
        if wc is None:
            gone = algo or spec.no_inner_stream(o, field(ih, "inner_stream_cipher"))
            (rep.bad if gone else rep.und)(lab + "/inner-stream", w, "saving succeeds with inner stream %s: %s" % (algo or "undetermined", show(wrote.args[2], 4)[:160]))
        else:
            rep.exact("%s/inner-stream/%s" % (lab, algo), w, wrote.args[2], wc, "inner stream of the inner header")
        dbf = [f for f in p.fields("Unlocked") if wrote.args[1] is field(S, f)]
        rep.judge(lab + "/database", w, bool(dbf), "the held database is written", "writes " + show(wrote.args[1], 5)[:160])
        # every stage completed
        if [x.kind for x in s.closed] == want:
            rep.ok(lab + "/completed", w, "every stage is completed from the outside in")
        else:
            rep.bad(lab + "/completed", w, "stages completed: " + (", ".join(x.kind for x in s.closed) or "none"))
    for c in CIPHERS:
        for z in COMP:
            if (c, z) not in seen:
                rep.bad("save/%s/%s" % (c, z), w, "a supported setting cannot be saved")
    rep.count("save_outcomes", len(saves(an)))


def ops_other(v, hk):
    """Hash terms in v that are not part of the key hk."""
    inside = subterms(hk)
    return [t for t in subterms(v) if t.op in ("sha512", "sha256", "hmac256") and t not in inside]


def inner_field(p):
    path, a = p.adt("Unlocked")
    for f in a["variants"][0]["fields"]:
        if re.search(r"\bKdbxInnerHeader\b", f[1]):
            return f[0]
    raise Missing("inner header of the unlocked state")


def load(an, rep):
    p = an.p
    run = unlock_run(an)
    w = loc(run.root)
    if run.incomplete:
        rep.und("unlock", w, run.incomplete)
        return
    _, _, data_f = locked_roles(an)
    calls = tuple(opaque_keys(p))
    seen = set()
    for u in unlocks(an):
        lab = "load/v%s/%s/%s" % (u.v, u.cipher, u.comp)
        if u.cipher not in CIPHERS:
            (rep.bad if u.cipher or ignored(u.o, field(u.hdr, "cipher"), u.source) else rep.und)(
                lab, w, "unlocking succeeds with cipher setting %s" % (u.cipher or "ignored"))
            continue
        if u.comp not in COMP:
            (rep.bad if u.comp or ignored(u.o, field(u.hdr, "compression_type"), u.source) else rep.und)(
                lab, w, "unlocking succeeds with compression setting %s" % (u.comp or "ignored"))
            continue
        seen.add((u.v, u.cipher, u.comp))
        if u.stack is None or u.source is None:
            (rep.und if u.xml is None or vague(u.xml) and not u.cut else rep.bad)(lab, w, "content does not come from a reading pipeline")
            continue
        kinds = [k for k, _, _, _ in u.stack]
        cs = "stream" if u.cipher == "ChaCha20" else "block"
        want = (["gzip"] if COMP[u.comp] else []) + ([cs, "hmac"] if u.v == 4 else ["hash", cs])
        if kinds == want and u.source is field(u.base, data_f):
            rep.ok(lab + "/stages", w, "content passes " + ", ".join(kinds))
        elif vague(u.source):
            rep.und(lab + "/stages", w, "source not understood")
            continue
        else:
            rep.bad(lab + "/stages", w, "content passes %s over %s, expected %s" % (
                ", ".join(kinds), show(u.source, 4)[:120], ", ".join(want)))
            continue
        st = [x for x in u.stack if x[0] == cs][0]
        mk, prob = expected_master(an, u.o, u.hdr, T("sym", "arg2"))
        judge_cipher(an, rep, lab + "/cipher", w, u.cipher, st[2], "dec", u.hdr, mk, calls)
    for v in (3, 4):
        for c in CIPHERS:
            for z in COMP:
                if (v, c, z) not in seen:
                    rep.bad("load/v%d/%s/%s" % (v, c, z), w, "a supported setting cannot be read")
    rep.count("load_outcomes", len(unlocks(an)))


def inner_streams(an, rep):
    """stream_cipher: supported algorithms as specified, everything else an error."""
    p = an.p
    root = p.one("InnerStreamCipherAlgorithm", "stream_cipher")
    w = loc(root)
    run = an.run(root)
    if run.incomplete:
        rep.und("inner", w, run.incomplete)
        return
    a, key = T("sym", "arg1"), T("sym", "arg2")
    seen = set()
    path, adt_ = p.adt("InnerStreamCipherAlgorithm")
    for o in run.outs:
        if not o.is_ok():
            continue
        name = o.eng.variant_of(o.st, a)
        seen.add(name)
        want = spec.inner_cipher(name, key)
        got = unbox(o.payload())
        if want is None:
            (rep.bad if name or spec.no_inner_stream(o, a) else rep.und)("inner/%s" % name, w, "unsupported inner stream %s is served by %s" % (name, show(got, 4)[:160]))
        else:
            rep.exact("inner/" + name, w, got, want, "inner stream construction")
    for n in ("ChaCha20", "Salsa20"):
        if n not in seen and None not in seen:
            rep.bad("inner/" + n, w, "the inner stream %s is not supported any more" % n)
