from stages import *

RULE = ("each conversion between an identifier and its enum is evaluated for every case of its own comparisons (all 256 values "
        "for one-byte identifiers): known identifiers have the KDBX values, both directions agree, everything else is kept verbatim")

OUTER = {"EndOfHeader": 0, "Comment": 1, "CipherId": 2, "CompressionFlags": 3, "MasterSeed": 4, "LegacyTransformSeed": 5,
         "LegacyTransformRounds": 6, "EncryptionIv": 7, "ProtectedStreamKey": 8, "StreamStartBytes": 9,
         "InnerRandomStreamId": 10, "KdfParameters": 11, "PublicCustomData": 12}
INNER = {"EndOfHeader": 0, "InnerRandomStreamCipherId": 1, "InnerRandomStreamKey": 2, "Binary": 3}
STREAM = {"ArcFour": 1, "Salsa20": 2, "ChaCha20": 3}
COMPRESSION = {"None": 0, "Gzip": 1}
CIPHER = {"Aes128": "61ab05a1946441c38d743a563df8dd35", "Aes256": "31c1f2e6bf714350be5805216afc5aff",
          "TwoFish": "ad68f29f576f4bb9a36ad47af965346c", "ChaCha20": "d6038a2b8b6f4cb5a524339a31dbb59a"}
KDF = {"Aes256_Kdbx3_1": "c9d9f39a628a4460bf740d08c18a4fea", "Aes256_Kdbx4": "7c02bb8279a74ac0927d114a00648238",
       "Argon2d": "ef636ddf8c29444b91f7a9a403e30a0c", "Argon2id": "9e298b1956db4773b23dfc3ec6f0a1e6"}
TAGS = {"Uint32": 4, "Uint64": 5, "Boolean": 8, "Int32": 12, "Int64": 13, "String": 24, "Array": 66}

A1 = T("sym", "arg1")


def const(c):
    return I(c) if isinstance(c, int) else T("uuid", c)


def check(an, rep, tier):
    p = an.p
    for ty, raw, table in (("OuterHeaderId", "u8", OUTER), ("InnerHeaderId", "u8", INNER),
                           ("InnerStreamCipherAlgorithm", "u32", STREAM), ("CompressionType", "u32", COMPRESSION),
                           ("Cipher", "Uuid", CIPHER), ("KdfAlgorithm", "Uuid", KDF)):
        fwd = [r for r in p.find(ty, "from", "From") if from_arg(r) == raw]
        back = [r for r in p.find(raw, "from", "From") if from_arg(r) == ty]
        if not fwd or not back:
            raise Missing("conversions between %s and %s" % (raw, ty))
        decode(an, rep, ty, raw, table, an.run(fwd[0]), lambda o: o.ret)
        encode(an, rep, ty, table, an.run(back[0]), lambda o: o.ret)
    tags(an, rep)


def from_arg(r):
    m = re.match(r"^<.* as .*?From<(.*)>>$", r.get("implof") or "")
    return last(m.group(1)) if m else None


def tags(an, rep):
    """Tags of the variant dictionary values, found by signature."""
    fwd, back = [], []
    for r in an.p.roots:
        m = re.match(r"^(?:for<[^>]*> )?fn\((.*)\) -> (.*)$", r.get("sig") or "")
        if not m or last(r.get("selfty")) != "Value" or r.get("derived"):
            continue
        if m.group(1).startswith("u8, ") and "Value" in m.group(2):
            fwd.append(r)
        if re.match(r"^&'?\w*\s*[\w:]*Value$", m.group(1)) and m.group(2) == "u8":
            back.append(r)
    if not fwd or not back:
        rep.und("Value", "src/binary/variant_dict.rs", "no function turns a tag into a value or back")
        return
    decode(an, rep, "Value", "u8", TAGS, an.run(fwd[0]), lambda o: o.payload(), lambda o: o.variant() == "Err")
    encode(an, rep, "Value", TAGS, an.run(back[0]), lambda o: o.ret)


def feasible(o, c):
    """Can the outcome happen when the identifier is c?  (True, False or None)"""
    res = True
    for k, v in o.facts():
        if not mentions(k, A1):
            continue
        x = subst(k, {A1: c})
        if x is TRUE or x is FALSE:
            if (x is TRUE) != v:
                return False
        else:
            res = None
    return res


def name_of(o, t):
    n = o.eng.variant_of(o.st, t)
    return n


def decode(an, rep, ty, raw, table, run, value, skip=lambda o: False):
    w = loc(run.root)
    if run.incomplete:
        rep.und(ty + "/decode", w, run.incomplete)
        return
    outs = [o for o in run.outs if not skip(o)]
    consts = {const(c) for c in table.values()}
    for o in outs:
        for k, v in o.facts():
            if mentions(k, A1):
                for x in subterms(k):
                    if x.op == "uuid" or x.op == "int" and raw in ("u8", "u32"):
                        consts.add(x)
                        if x.op == "int":
                            consts |= {I(max(0, x.args[0] - 1)), I(x.args[0] + 1)}
    if raw == "u8":
        consts = {I(n) for n in range(256)}
    elif raw == "Uuid":
        consts.add(T("uuid", "00112233445566778899aabbccddeeff"))
    else:
        consts |= {I(0), I((1 << 32) - 1)}
        consts = {c for c in consts if c.args[0] < (1 << 32)}
    want = {const(c): n for n, c in table.items()}
    rep.count("identifiers_decoded", len(consts))
    for c in sorted(consts, key=str):
        lab = "%s/decode/%s" % (ty, want.get(c) or "unknown")
        got = 0
        for o in outs:
            f = feasible(o, c)
            if f is False:
                continue
            got += 1
            t = value(o)
            n = name_of(o, t)
            if f is None or n is None:
                rep.und(lab, w, "case for %s not understood" % show(c, 3))
                continue
            if c in want:
                rep.judge(lab, w, n == want[c], "%s is %s" % (show(c, 3), n), "%s is read as %s instead of %s" % (show(c, 3), n, want[c]))
            else:
                kept = subst(field(variant(t, n), "0"), {A1: c}) if fields_of(an.p, ty, n) else None
                if kept is c and n not in table:
                    rep.ok(lab, w, "kept verbatim")
                elif kept is not None and vague(kept):
                    rep.und(lab, w, "stored identifier not understood")
                else:
                    rep.bad(lab, w, "%s is read as %s, which does not keep it" % (show(c, 3), show(t, 4)[:100]))
        if not got:
            if c in want:
                rep.bad(lab, w, "%s has no case" % show(c, 3))
            else:
                rep.bad(lab, w, "%s is not accepted" % show(c, 3))


def fields_of(p, ty, var):
    path, a = p.adt(ty)
    for v in a["variants"]:
        if v["name"] == var:
            return v["fields"]
    return []


def encode(an, rep, ty, table, run, value):
    w = loc(run.root)
    if run.incomplete:
        rep.und(ty + "/encode", w, run.incomplete)
        return
    path, a = an.p.adt(ty)
    for v in a["variants"]:
        n = v["name"]
        lab = "%s/encode/%s" % (ty, n)
        c = isv(A1, n)
        outs = [o for o in run.outs if o.eng.variant_of(o.st, A1) == n or
                (o.eng.variant_of(o.st, A1) is None and o.holds(c) is not False)]
        if not outs:
            rep.bad(lab, w, "no identifier for %s" % n)
        for o in outs:
            rep.count("variants_encoded")
            got = value(o)
            want = const(table[n]) if n in table else field(variant(A1, n), "0")
            if got is want:
                rep.ok(lab, w, "%s is written as %s" % (n, show(want, 3)))
            elif vague(got):
                rep.und(lab, w, "identifier not understood: " + show(got, 4)[:120])
            else:
                rep.bad(lab, w, "%s is written as %s, expected %s" % (n, show(got, 4)[:120], show(want, 4)))
        for o in outs:
            pass
    for n in table:
        if n not in [v["name"] for v in a["variants"]]:
            raise Missing("%s::%s" % (ty, n))
