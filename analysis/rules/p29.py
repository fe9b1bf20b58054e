from stages import *
from rules.p04 import is_const, MAGIC1, MAGIC2, header_field

RULE = ("for every failure outcome of opening, the condition that failed on the path (signature, version, checksum, missing field or "
        "parameter, failed read) is compared with the error value returned, in both directions; conversions between error "
        "types must carry the error they were given")

S1 = T("sym", "arg1")
FIELD_ID = (("cipher", "CipherId"), ("compression_type", "CompressionFlags"), ("master_seed", "MasterSeed"),
            ("encryption_iv", "EncryptionIv"), ("kdf_params", "KdfParameters"))


def check(an, rep, tier):
    opening(an, rep)
    conversions(an, rep)


def opening(an, rep):
    p = an.p
    root = p.one(None, "from_reader")
    w = loc(root)
    run = an.run(root)
    if run.incomplete:
        rep.und("from_reader", w, run.incomplete)
        return
    s1, s2 = T("take", S1, I(4)), T("take", drop(S1, I(4)), I(4))
    major = unle(2, T("take", drop(S1, I(10)), I(2)))
    optional = options(an, run)
    seen = set()
    for o in run.outs:
        if o.variant() != "Err" or o.eng.prove_ge(o.st, I(-1)):
            continue           # success, or a path with contradictory conditions
        rep.count("failure_outcomes")
        e = o.payload("Err")
        path, inner = name(o, e)
        if path is None:
            rep.und("error", w, "error not understood: " + show(e, 4)[:120])
            continue
        for cause, want, arg in causes(o, s1, s2, major, optional):
            seen.add(cause)
            key = "cause/" + cause
            if path != want:
                rep.bad(key, w, "%s is reported as %s" % (cause, path))
            elif arg is not None and not arg(inner):
                (rep.und if vague(inner, OPAQUE) else rep.bad)(key, w, "%s is reported with %s" % (cause, show(inner, 4)[:120]))
            else:
                rep.ok(key, w, "%s is reported as %s" % (cause, path))
            break
        else:
            if path in ONLY:
                (rep.bad if excluded(o, path, s1, s2, major) else rep.und)("only/" + path, w, "%s is reported for something else: %s" % (
                    path, "; ".join("%s %s" % (v, show(k, 4)[:80]) for k, v in list(o.facts())[-1:])))
    for c in ("a wrong first signature", "a wrong second signature", "an unsupported version", "a wrong header checksum",
              "a failed read"):
        if c not in seen:
            rep.und("cause/" + c, w, "no failure outcome was recognised as " + c)


OPAQUE = ("loopv", "star", "phi", "el", "fall", "ix")
ONLY = ("NonKeepassFormat", "UnsupportedFileFormat", "UnsupportedMajorVersion", "InvalidHeader/ChecksumFailed",
        "InvalidHeader/MissingRequiredField", "InvalidHeader/MissingKdfParam")


def excluded(o, path, s1, s2, major):
    """What the error says is known not to be so."""
    if path == "UnsupportedMajorVersion":
        return o.eng.prove_ge(o.st, sub(major, I(3))) and o.eng.prove_ge(o.st, sub(I(4), major))
    if path in ("NonKeepassFormat", "UnsupportedFileFormat"):
        return any(o.holds(c) is True for c in (is_const(s1, MAGIC1) if path == "NonKeepassFormat" else is_const(s2, MAGIC2)))
    return path.endswith("ChecksumFailed") and o.holds(lt(major, I(4))) is True


def name(o, e):
    """('InvalidHeader/ChecksumFailed', innermost error) of an error value."""
    out = []
    while e.op == "adt" and re.search(r"Error$", e.args[0]) and last(e.args[0]) in ("OpenError", "HeaderError"):
        out.append(e.args[1])
        nested = e.args[3] if len(e.args) > 3 else None
        if nested is None or nested.op != "adt" or last(nested.args[0]) not in ("OpenError", "HeaderError"):
            return "/".join(out), e
        e = nested
    return None, None


def options(an, run):
    """{optional value: identifier} for the header fields that must be present."""
    out = {}
    hf = header_field(an)
    for o in run.outs:
        if not o.is_ok() or o.variant() is None:
            continue
        h = field(field(o.payload(), state_field(an.p)), hf)
        for f, i in FIELD_ID:
            v = field(h, f)
            if v.op == "vf" and v.args[1] == "Some":
                out[v.args[0]] = i
    return out


def first(e):
    return e.args[3] if len(e.args) > 3 else None


def causes(o, s1, s2, major, optional):
    """(what failed, error it must be reported as, test of the error's content), the first that applies counts."""
    if any(o.holds(c) is False for c in is_const(s1, MAGIC1)):
        yield "a wrong first signature", "NonKeepassFormat", None
    if any(o.holds(c) is False for c in is_const(s2, MAGIC2)):
        yield "a wrong second signature", "UnsupportedFileFormat", None
    if all(o.holds(eq(major, I(n))) is False for n in (3, 4)) or o.holds(lt(major, I(3))) is True or o.holds(lt(I(4), major)) is True or any(
            v is False and k.op == "and" and all(set(subterms(x)) & {major} and x.op in ("not", "lt") for x in k.args) for k, v in o.facts()):
        yield "an unsupported version", "UnsupportedMajorVersion", lambda e: first(e) is major
    for k, v in o.facts():
        if v is False and k.op == "eq" and any(x.op == "sha256" for x in k.args):
            yield "a wrong header checksum", "InvalidHeader/ChecksumFailed", None
    gone = sorted({i for t, i in optional.items() if o.holds(isv(t, "Some")) is False})
    # older archives have other fields for the key derivation
    if gone and (gone != ["KdfParameters"] or missing(o)):
        yield "a missing field", "InvalidHeader/MissingRequiredField", lambda e: first(e).op == "adt" and first(e).args[1] in gone
    maps = [t for k, v in o.facts() if v is False for t in subterms(k) if isinstance(t, Term) and t.op in ("mapval", "haskey")]
    if maps and not o.payload("Err").args[1] == "Io" and name(o, o.payload("Err"))[0] == "InvalidHeader/MissingKdfParam":
        yield "a missing parameter", "InvalidHeader/MissingKdfParam", lambda e: any(
            t.args[1] is first(e) or t.args[1] == first(e).args[0] for t in maps)
    k, v = o.facts()[-1] if o.facts() else (None, None)
    if k is not None and v is False and k.op == "isv" and k.args[1] == "Ok" and k.args[0].op == "fall" \
            and k.args[0].args[0] in ("read_exact", "read_all", "read") and source(k.args[0]):
        p = "InvalidHeader/Io" if o.payload("Err").args[1] == "InvalidHeader" else "Io"
        yield "a failed read", p, None


def missing(o):
    return (name(o, o.payload("Err"))[0] or "").endswith("MissingRequiredField")


def source(t):
    """The read is one of the caller's source at a known position."""
    x = t.args[2]
    while x.op == "drop":
        x = x.args[0]
    return x is S1


# ------------------------------------------------------------ conversions

def conversions(an, rep):
    p = an.p
    fs = p.fields("FailedUnlock")
    err = field(S1, fs[1])
    n = 0
    for r in p.roots:
        if r["name"] != "from" or r.get("derived") or "FailedUnlock" not in (r.get("sig") or "").split("->")[0]:
            continue
        n += 1
        run = an.run(r)
        for o in run.outs:
            t = o.ret
            if t.op == "adt" and last(t.args[0]) == "Error":
                rep.judge("convert/%s/kind" % last(r["selfty"]), loc(r), t.args[1] == "Unlock", "an unlock error", "becomes " + str(t.args[1]))
                t = first(t)
            rep.exact("convert/" + last(r["selfty"]), loc(r), t, err, "the reason the unlock failed")
    if not n:
        raise Missing("conversions of a failed unlock")
