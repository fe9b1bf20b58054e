from lib import *
from anchors import *
import spec

RULE = ("every success outcome of opening must carry the signature, version, end-of-header, checksum and required-field "
        "conditions, and the archive's parts must be the consecutive pieces of the input term")

MAGIC1, MAGIC2 = 0x9AA2D903, 0xB54BFB67


def is_const(s, n):
    return [eq(unle(4, s), I(n)), eq(s, cat(*spec.ones(n.to_bytes(4, "little"))))]


def check(an, rep, tier):
    p = an.p
    opening(an, rep)
    path_open(an, rep)


def opening(an, rep):
    p = an.p
    root = p.one(None, "from_reader")
    where = loc(root)
    run = an.run(root)
    if run.incomplete:
        rep.und("from_reader", where, run.incomplete)
        return
    sf = state_field(p)
    raw_f, mac_f, data_f = locked_roles(an)
    if not (raw_f and mac_f and data_f):
        rep.und("roles", where, "fields of the locked state not identified")
        return
    src = T("sym", "arg1")
    s1, s2 = T("take", src, I(4)), T("take", drop(src, I(4)), I(4))
    minor, major = unle(2, T("take", drop(src, I(8)), I(2))), unle(2, T("take", drop(src, I(10)), I(2)))
    n3 = n4 = 0
    open_ = False
    cases = {3: [], 4: []}
    for o in run.outs:
        if not o.is_ok():
            continue
        if o.variant() is None:
            rep.und("from_reader/result", where, "result not understood: " + show(o.ret, 4)[:200])
            continue
        st = field(o.payload(), sf)
        require(rep, o, "signature-1", where, is_const(s1, MAGIC1), s1, "first signature checked",
                "opening can succeed without the KeePass signature")
        require(rep, o, "signature-2", where, is_const(s2, MAGIC2), s2, "second signature checked",
                "opening can succeed without the KDBX signature")
        lo = o.eng.prove_ge(o.st, sub(major, I(3)))
        hi = o.eng.prove_ge(o.st, sub(I(4), major))
        held = field(st, role_version(an, "major_version"))
        rep.judge("version-range", where, True if lo and hi else None if held is not major and vague(held) else False,
                  "major version is 3 or 4", "opening can succeed with major version %s" % ("above 4" if lo else "below 3"))
        rep.exact("major-version", where, field(st, role_version(an, "major_version")), major, "major version comes from the file")
        rep.exact("minor-version", where, field(st, role_version(an, "minor_version")), minor, "minor version comes from the file")
        v4 = o.holds(lt(major, I(4)))
        if v4 is None:
            open_ = True
        else:
            n3, n4 = n3 + bool(v4), n4 + (not v4)
            cases[3 if v4 else 4].append(o)
        raw, mac, data = field(st, raw_f), field(st, mac_f), field(st, data_f)
        pos = consumed(o.eng, raw, src)
        if pos is None:
            v = vague(raw, allow=("star", "loopv")) and unrecorded(o.eng, raw) is None
            (rep.und if v else rep.bad)("raw-header", where, "the kept raw header is not exactly the bytes read from the start: "
                                        + show(raw, 10)[:400])
            continue
        rep.ok("raw-header", where, "raw header is the input from its start up to the end of the header")
        end_of_header(rep, o, where, raw, pos)
        want_pos = data.args[0] if data.op == "rest" else None
        if v4 is None:
            rep.und("version-case", where, "version case not separated")
            continue
        if v4 is False:
            h = T("take", pos, I(32))
            require(rep, o, "checksum", where, [eq(h, T("sha256", raw))], h, "checksum over the raw header compared",
                    "opening a version 4 archive can succeed without the SHA-256 of the raw header being checked")
            rep.exact("hmac", where, mac, some(T("take", drop(pos, I(32)), I(32))), "the HMAC follows the checksum",
                      allow=("loopv",))
            rep.exact("payload/v4", where, data, T("rest", drop(pos, I(64))), "the payload is everything after the HMAC",
                      allow=("loopv",))
        else:
            rep.exact("payload/v3", where, data, T("rest", pos), "the payload is everything after the header",
                      allow=("loopv",))
        required(an, rep, o, field(st, header_field(an)), where, src)
    rep.count("success_outcomes", n3 + n4)
    for v, outs in cases.items():
        if outs:
            header_fields(an, rep, run, v, outs)
    if not n4:
        (rep.und if open_ else rep.bad)("v4-possible", where, "no outcome opens a version 4 archive")
    if not n3:
        (rep.und if open_ else rep.bad)("v3-possible", where, "no outcome opens a version 3 archive")


def role_version(an, which):
    t = version_of(an, "Locked", T("sym", "S"), which)
    return t.args[1] if t.op == "f" else which


def header_field(an):
    t = header_of(an, "Locked", T("sym", "S"))
    return t.args[1] if t.op == "f" else "header"


def end_of_header(rep, o, where, raw, pos):
    """The header list ends at the end-of-header field only."""
    ok = any(v and k.op == "isv" and k.args[1] == "EndOfHeader" for k, v in o.facts())
    ids = [k for k, v in o.facts() if v and k.op == "eq" and is_int(k.args[1]) and k.args[1] is I(0)]
    if ok:
        rep.ok("end-of-header", where, "header fields are read up to the end marker")
    elif ids:
        rep.und("end-of-header", where, "end of the header not recognised")
    else:
        rep.bad("end-of-header", where, "the header can end without an end-of-header field")


REQUIRED = ["cipher", "compression_type", "master_seed", "encryption_iv"]


def required(an, rep, o, hdr, where, src):
    for f in REQUIRED:
        v = field(hdr, f)
        b = v
        while b.op in ("f", "vf", "v"):
            b = b.args[0]
        opt = v.args[0] if v.op == "vf" and v.args[1] == "Some" else None
        if opt is not None and o.holds(isv(opt, "Some")) is True:
            rep.ok("required/" + f, where, "present, or opening fails")
        elif v.op in ("adt", "int", "rep", "str", "one") and not contains(v, lambda t: t.op in ("sym", "loopv")):
            rep.bad("required/" + f, where, "a missing %s is replaced by %s" % (f, show(v, 4)[:160]))
        elif v.op == "default" or v is EMPTY:
            rep.bad("required/" + f, where, "a missing %s is replaced by a default" % f)
        else:
            rep.und("required/" + f, where, "value not understood: " + show(v, 4)[:160])
    v = field(hdr, "kdf_params")
    opt = v.args[0] if v.op == "vf" and v.args[1] == "Some" else None
    if opt is not None and o.holds(isv(opt, "Some")) is True:
        rep.ok("required/kdf_params", where, "present, or opening fails")
    elif v.op == "adt" and v.args[1] == "Aes":
        r, s = field(v, "rounds"), field(v, "salt")
        for n, x, ty in (("rounds", r, "LegacyTransformRounds"), ("salt", s, "LegacyTransformSeed")):
            el = [t for t in subterms(x) if t.op == "idx" and contains(t, lambda y: y.op == "star")]
            el = [t for t in el if o.holds(isv(field(t, "ty"), ty)) is True]
            key = "required/legacy-" + n
            if el and n == "salt":
                rep.exact(key, where, x, field(el[0], "data"), "legacy salt is the transform seed field", allow=OPAQUE_OPS)
                if x is not field(el[0], "data"):
                    rep.bad(key, where, "legacy salt is " + show(x, 6)[:200])
            elif el:
                d = field(el[0], "data")
                if x is unle(8, subseq(d, I(0), I(8))):
                    rep.ok(key, where, "legacy rounds are the transform rounds field")
                else:
                    rep.bad(key, where, "legacy rounds are " + show(x, 6)[:200])
            elif not contains(x, lambda t: t.op in ("sym", "loopv", "star")):
                rep.bad(key, where, "a missing legacy %s is replaced by %s" % (n, show(x, 4)[:100]))
            else:
                others = [t for t in subterms(x) if t.op == "idx"
                          and o.eng.variant_of(o.st, field(t, "ty")) not in (None, ty)]
                if others:
                    rep.bad(key, where, "legacy %s is taken from field %s" % (n, o.eng.variant_of(o.st, field(others[0], "ty"))))
                else:
                    rep.und(key, where, "legacy %s not understood: %s" % (n, show(x, 5)[:200]))
    elif not contains(v, lambda t: t.op in ("sym", "loopv", "star")):
        rep.bad("required/kdf_params", where, "missing key derivation parameters are replaced by " + show(v, 4)[:160])
    else:
        rep.und("required/kdf_params", where, "value not understood: " + show(v, 4)[:160])


def path_open(an, rep):
    p = an.p
    root = p.one(None, "open")
    where = loc(root)
    fr = fn_path(p, "from_reader")
    run = an.run(root, opaque=frozenset([fr]))
    if run.incomplete:
        rep.und("open", where, run.incomplete)
        return
    n = 0
    for o in run.outs:
        r = o.ret
        if not o.is_ok():
            continue
        n += 1
        calls = [t for t in subterms(r) if t.op == "call" and t.args[0] == fr]
        good = bool(calls) and base_sym_call(r) is calls[0]
        if good:
            rep.ok("open/file", where, "opening a path opens the reader on the file")
        else:
            rep.judge("open/file", where, None if vague(r) else False, "", "open returns " + show(r, 6)[:200])
    if not n:
        rep.bad("open/possible", where, "opening a path never succeeds")


def base_sym_call(t):
    while t.op in ("f", "vf", "v") or (t.op == "adt" and t.args[0] == RES):
        t = t.args[0] if t.op != "adt" else t.args[3]
    return t


# ------------------------------------------------------------------ header fields

def header_fields(an, rep, run, v, outs):
    """Each field of the header is the data of the field with its identifier."""
    from rules.p15 import Reader, Odd, Wrong, OUTER, exposed
    p = an.p
    where = loc(run.root)
    header = lambda o: field(field(o.payload(), state_field(p)), header_field(an))
    taken = lambda x: (x.args[0] if x.op == "vf" else x).op == "loopv"
    lab = "field/v%d" % v
    names = p.fields("KdbxHeader")
    o = max(outs, key=lambda o: sum(taken(field(header(o), f)) for f in names))
    try:
        rd = Reader(an, o, header(o), names, OUTER, [x for x in run.outs if x.is_ok()])
        exposed(an, rep, lab, where, rd, "OuterHeaderId", OUTER, 2 if v == 3 else 4)
    except Odd as e:
        rep.und(lab, where, str(e))
    except Wrong as e:
        rep.bad(lab, where, str(e))
