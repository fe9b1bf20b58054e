from stages import *
from rules.p22 import passthrough
from rules.p21 import key_fields

RULE = ("the byte terms written on every success outcome of saving must be signatures, version, header, the SHA-256 term of exactly "
        "those bytes, their HMAC under the specified key and the pipeline's output; outcomes without a key write nothing")

MAGIC = (0x9AA2D903).to_bytes(4, "little") + (0xB54BFB67).to_bytes(4, "little")


def check(an, rep, tier):
    p = an.p
    run = save_run(an)
    w = loc(run.root)
    if run.incomplete:
        rep.und("write", w, run.incomplete)
        return
    ckf, mkf = key_fields(p)
    hdr = header_of(an, "Unlocked", S)
    mkopt = field(S, mkf)
    mk = field(variant(mkopt, "Some"), "0")
    n = 0
    for s in saves(an):
        n += 1
        layout(an, rep, w, s, hdr, mk)
    if not n:
        rep.bad("success", w, "saving can never succeed")
    missing(an, rep, w, run, mkopt)
    passthrough(an, rep)
    rep.count("success_outcomes", n)


def layout(an, rep, w, s, hdr, mk):
    o = s.o
    lab = "%s/%s" % (s.cipher, s.comp)
    ps = list(parts(cat(*s.writes)))
    cut = next((i for i, x in enumerate(ps) if x.op == "sha256" and x.args[0] is cat(*ps[:i])), None)
    pre = cat(spec_bytes(), le(2, s.minor), le(2, s.major))
    if o.holds(lt(s.major, I(4))) is not False:
        rep.bad("version", w, "the version 4 layout is written under a version that may be below 4")
    else:
        rep.ok("version", w, "only version 4 archives are written in this layout")
    if cut is None:
        hs = [x for x in ps if x.op == "sha256"]
        if not hs:
            (rep.und if vague(cat(*ps), allow=("star", "phi", "el", "loopv")) and not ps else rep.bad)(
                "checksum/" + lab, w, "no SHA-256 of the header is written")
        else:
            rep.bad("checksum/" + lab, w, "the written checksum does not cover exactly the bytes written before it")
        return
    head = cat(*ps[:cut])
    np = len(parts(pre))
    if parts(head)[:np] == parts(pre):
        rep.ok("prefix/" + lab, w, "signatures and version")
    else:
        got = cat(*parts(head)[:np])
        (rep.und if vague(got) else rep.bad)("prefix/" + lab, w, "output starts with %s" % show(got, 8)[:300])
    rep.judge("header/" + lab, w, len(parts(head)) > np and mentions_header(head, hdr), "the header follows",
              "the header is not part of the checked bytes")
    rep.ok("checksum/" + lab, w, "SHA-256 of exactly the bytes written before")
    want = spec.header_hmac(field(hdr, "master_seed"), master_bytes(an.p, mk), head)
    if len(ps) <= cut + 1:
        rep.bad("hmac/" + lab, w, "no header HMAC is written")
        return
    got = ps[cut + 1]
    if got is want:
        rep.ok("hmac/" + lab, w, "HMAC of the header under the archive's own key")
    elif got.op == "hmac256":
        for g, x, what in ((got.args[1], want.args[1], "covers"), (got.args[0], want.args[0], "key is")):
            if g is not x:
                (rep.und if vague(g, allow=("star", "phi", "el", "loopv", "comp")) else rep.bad)(
                    "hmac/" + lab, w, "the header HMAC %s %s, expected %s" % (what, show(g, 9)[:300], show(x, 9)[:300]))
                break
    else:
        (rep.und if vague(subst(got, {want: T("sym", "#hmac")})) else rep.bad)("hmac/" + lab, w, "after the checksum comes %s instead of the header HMAC" % show(got, 6)[:200])
        return
    rest_ = ps[cut + 2:]
    if rest_ and all(x.op == "stageout" for x in rest_):
        rep.ok("payload/" + lab, w, "the pipeline's output follows last")
    else:
        (rep.und if any(vague(x) for x in rest_) else rep.bad)("payload/" + lab, w, "after the HMAC comes %s" % show(cat(*rest_), 5)[:300])


def spec_bytes():
    return cat(*spec.ones(MAGIC))


def mentions_header(x, hdr):
    return all(mentions(x, field(hdr, f)) for f in ("master_seed", "encryption_iv", "cipher"))


def missing(an, rep, w, run, mkopt):
    n = 0
    for o in run.outs:
        has = o.holds(isv(mkopt, "Some"))
        wrote = [k for k, v in o.facts() if k.op == "isv" and k.args[0].op == "fall" and k.args[0].args[0] in ("write_all", "write")
                 and base_out(k.args[0].args[2]) is BUF]
        if has is not True:
            n += 1
            if o.is_ok():
                rep.bad("no-key", w, "saving without a key can succeed")
                continue
            e = o.payload("Err")
            vn = o.eng.variant_of(o.st, e)
            rep.judge("no-key/error", w, True if vn == "MissingKeys" else (None if vn is None else False),
                      "reported as MissingKeys", "a missing key is reported as %s" % (vn or show(e, 4)[:160]))
            rep.judge("no-key/nothing-written", w, not wrote, "nothing is written", "something is written before the key is known to exist")
    if not n:
        rep.bad("no-key", w, "no outcome handles a missing key")
