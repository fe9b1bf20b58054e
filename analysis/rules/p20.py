from stages import *

RULE = ("every failure outcome of unlock must carry the locked archive argument unchanged and the failure's own reason; "
        "functions that yield an unlocked archive or give access to content are enumerated from their signatures and must be "
        "unlock and from_database, or take an unlocked archive")


def check(an, rep, tier):
    p = an.p
    failures(an, rep)
    constructors(an, rep)
    accessors(an, rep)


def failures(an, rep):
    p = an.p
    run = unlock_run(an)
    w = loc(run.root)
    if run.incomplete:
        rep.und("unlock", w, run.incomplete)
        return
    a1 = T("sym", "arg1")
    fs = p.fields("FailedUnlock")
    px = fn_path(p, "parse_xml")
    n = 0
    for o in run.outs:
        if o.variant() is None:
            rep.und("result", w, "result not understood: " + show(o.ret, 4)[:200])
            continue
        if o.variant() == "Ok":
            continue
        n += 1
        e = o.payload("Err")
        back, why = field(e, fs[0]), field(e, fs[1])
        vn = o.eng.variant_of(o.st, why)
        key = "%s" % (vn or "error")
        if same_value(back, a1):
            rep.ok("returned/" + key, w, "the archive comes back unchanged")
        elif vague(back):
            rep.und("returned/" + key, w, "returned archive not understood: " + show(back, 5)[:200])
        else:
            rep.bad("returned/" + key, w, "the archive given back after a failure is " + show(back, 6)[:300])
        # content in the error
        leak = [t for t in subterms(why) if t.op == "call" and t.args[0] == px]
        leak = [t for t in subterms(why) if t.op == "f" and t.args[0].op == "v" and t.args[0].args[1] == "Ok"
                and t.args[0].args[0] in leak]
        rep.judge("no-content/" + key, w, not leak, "no content in the failure", "the failure carries parsed content")
        reason(an, rep, w, o, why, vn, key)
    if not n:
        raise Missing("a failure outcome of unlock")
    rep.count("failure_outcomes", n)


def same_value(t, a):
    """t is a, possibly rebuilt field by field."""
    if t is a:
        return True
    if t.op == "adt" and len(t.args) > 3:
        return all(same_value(v, field(a, f)) for f, v in zip(t.args[2], t.args[3:]))
    return False


CAUSE = {"KeyGen": lambda k, an: k.args[0].op == "call" and k.args[0].args[0].split("::")[-1] == "master_key",
         "HmacInvalid": lambda k, an: k.args[0].op == "fall" and k.args[0].args[0] == "macverify",
         "InvalidXml": lambda k, an: k.args[0].op == "call" and k.args[0].args[0].split("::")[-1] == "parse_xml"}


def reason(an, rep, w, o, why, vn, key):
    """The reason given belongs to the step that failed."""
    fails = [k for k, v in o.facts() if v is False and k.op == "isv" and k.args[1] == "Ok" and k.args[0].op in ("call", "fall")]
    if not fails:
        return
    k = fails[-1]
    for name, f in CAUSE.items():
        if f(k, an):
            if vn == name:
                rep.ok("reason/" + name, w, "failure reported as " + name)
            elif vn is None:
                rep.und("reason/" + name, w, "reason not understood: " + show(why, 4)[:160])
            else:
                rep.bad("reason/" + name, w, "a failed %s is reported as %s" % (show(k.args[0], 2)[:80], vn))


def ty_words(sig):
    return re.sub(r"\b[a-z_0-9]+::", "", sig or "")


def constructors(an, rep):
    """Public functions returning an unlocked archive."""
    p = an.p
    allowed = {("Kdbx<Locked>", "unlock"), ("Kdbx<Unlocked>", "from_database")}
    for r in p.roots:
        sig = ty_words(r.get("sig"))
        ret = sig.split("->")[-1] if "->" in sig else ""
        if not re.search(r"\bKdbx<Unlocked>|(?<![<\w])Unlocked\b", ret) or "&" in ret.split("Unlocked")[0]:
            continue
        params = sig.split("->")[0]
        st = ty_words(r.get("selfty"))
        key = "constructor/%s::%s" % (st, r["name"])
        if (st, r["name"]) in allowed:
            rep.ok(key, loc(r), "specified way to obtain an unlocked archive")
        elif not r.get("pub"):
            rep.ok(key, loc(r), "not public")
        elif "Kdbx<Unlocked>" in params or re.search(r"\bDatabase\b", params):
            rep.ok(key, loc(r), "made from an unlocked archive or a caller's database")
        else:
            rep.bad(key, loc(r), "a public function yields an unlocked archive without a successful unlock: " + sig[:200])
    for n, f in (("Kdbx<Locked>", "unlock"), ("Kdbx<Unlocked>", "from_database")):
        p.one(n, f)


CONTENT = re.compile(r"\b(Database|Group|Entry|KdbxInnerHeader|MasterKey|ComposedKey)\b")


def accessors(an, rep):
    """On a locked (or either) archive no public method returns content."""
    p = an.p
    n = 0
    for r in p.roots:
        if r.get("derived"):
            continue
        sig = ty_words(r.get("sig"))
        if "->" not in sig:
            continue
        params, ret = sig.split("->", 1)
        st = ty_words(r.get("selfty"))
        if not re.match(r"^(Kdbx<(Locked|T|S)>|Locked|FailedUnlock)$", st):
            continue
        if not r.get("pub") and not (r.get("implof") and " as " in r["implof"]):
            continue
        n += 1
        key = "accessor/%s::%s" % (st, r["name"])
        if CONTENT.search(ret.replace("Kdbx<Unlocked>", "")):
            rep.bad(key, loc(r), "content is accessible on an archive that is not unlocked: " + sig[:200])
        else:
            rep.ok(key, loc(r), "returns no content")
    if not n:
        raise Missing("public methods of a locked archive")
    rep.count("locked_methods", n)
    # the state field itself must not be reachable from outside
    path, a = p.adt("Kdbx")
    for v in a["variants"]:
        for f in v["fields"]:
            pub = len(f) > 2 and f[2] == "pub"
            rep.judge("state-private", "struct Kdbx", not pub, "the state is private", "the state of an archive is a public field")
