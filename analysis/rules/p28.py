from stages import *
from rules.p21 import field_of_type, key_fields

RULE = ("the values built by the constructors and Default implementations of databases, groups, entries, times and archives are "
        "compared part by part with what a new one must hold: one empty root group, the given name and nothing else, whole seconds, "
        "and the documented protection settings with no key")

A1 = T("sym", "arg1")


def check(an, rep, tier):
    database(an, rep)
    groups(an, rep)
    entries(an, rep)
    times(an, rep)
    archive(an, rep)


def made(an, rep, key, root):
    """(where, outcome, constructed value) of each way through a constructor."""
    run = an.run(root)
    w = loc(root)
    if run.incomplete:
        rep.und(key, w, run.incomplete)
        return
    for o in run.outs:
        rep.count("constructor_outcomes")
        yield w, o, o.ret


def empty(rep, key, w, t, what):
    if t is EMPTY or t is T("str", ""):
        rep.ok(key, w, what + " is empty")
    else:
        (rep.und if vague(t) else rep.bad)(key, w, "a new one starts with %s %s" % (what, show(t, 4)[:120]))


def typed(p, name, ty):
    return field_of_type(p, name, ty)


def plain_group(an, rep, key, w, g, name):
    """A group without members and with the given name."""
    p = an.p
    for f in typed(p, "Group", r"Vec<.*\b(Entry|Group)\b"):
        empty(rep, "%s/%s" % (key, f), w, field(g, f), f)
    for f in typed(p, "Group", r"\bString$"):
        if name is None:
            empty(rep, "%s/%s" % (key, f), w, field(g, f), f)
            continue
        t = field(g, f)
        while t.op == "tostr":
            t = t.args[0]
        rep.exact("%s/%s" % (key, f), w, t, name, "the name given")
    for f in typed(p, "Group", r"\bTimes$"):
        whole(an, rep, "%s/%s" % (key, f), w, field(g, f))


def database(an, rep):
    p = an.p
    gl = typed(p, "Database", r"\bGroup\b")
    if len(gl) != 1:
        raise Missing("root group of the database")
    ty = dict((f[0], f[1]) for f in p.adt("Database")[1]["variants"][0]["fields"])[gl[0]]
    for w, o, v in made(an, rep, "database", p.one("Database", "default", "Default")):
        g = field(v, gl[0])
        if "Vec" in ty:
            ps = parts(g)
            if len(ps) != 1 or ps[0].op != "one":
                (rep.und if vague(g) else rep.bad)("database/root", w, "a new database starts with the groups " + show(g, 3)[:120])
                continue
            g = ps[0].args[0]
        rep.ok("database/root", w, "one root group")
        name = [field(g, f) for f in typed(p, "Group", r"\bString$")]
        rep.judge("database/name", w, not any(n is EMPTY or n is T("str", "") for n in name), "the root group has a name", "the root group has no name")
        for f in typed(p, "Group", r"Vec<.*\b(Entry|Group)\b"):
            empty(rep, "database/" + f, w, field(g, f), f)
        m = typed(p, "Database", r"\bMeta$")
        for f in p.fields("Meta") if m else ():
            t = field(field(v, m[0]), f)
            if t.op in ("str", "cat") or t is EMPTY:
                empty(rep, "database/meta/" + f, w, t, f)


def groups(an, rep):
    p = an.p
    for w, o, v in made(an, rep, "group", p.one("Group", "new")):
        plain_group(an, rep, "Group::new", w, v, A1)
    for w, o, v in made(an, rep, "group", p.one("Group", "default", "Default")):
        plain_group(an, rep, "Group::default", w, v, None)


def entries(an, rep):
    p = an.p
    for w, o, v in made(an, rep, "entry", p.one("Entry", "default", "Default")):
        for f in typed(p, "Entry", r"Vec<.*\bField\b"):
            empty(rep, "entry/" + f, w, field(v, f), f)
        for f in typed(p, "Entry", r"\bHistory$"):
            for h in typed(p, "History", r"\bEntry\b"):
                empty(rep, "entry/%s" % f, w, field(field(v, f), h), f)
        for f in typed(p, "Entry", r"\bTimes$"):
            whole(an, rep, "entry/" + f, w, field(v, f))


def whole(an, rep, key, w, t):
    """Every date in the value is a whole second, which is what a file can hold."""
    for f in typed(an.p, "Times", r"\bNaiveDateTime$"):
        x = field(t, f)
        k = "%s/%s" % (key, f)
        if x.op == "withnanos" and x.args[1] is I(0) or x.op == "ndt":
            rep.ok(k, w, "a whole second")
        elif x.op == "withnanos" or x.op in ("local", "utc") and x.args[0].op == "now":
            rep.bad(k, w, "%s has a fraction of a second, which is lost on saving: %s" % (f, show(x, 4)[:120]))
        else:
            rep.und(k, w, "date not understood: " + show(x, 4)[:120])


def times(an, rep):
    p = an.p
    for w, o, v in made(an, rep, "times", p.one("Times", "default", "Default")):
        whole(an, rep, "times", w, v)
        for f in typed(p, "Times", r"^bool$"):
            rep.exact("times/" + f, w, field(v, f), FALSE, "new items do not expire")
        for f in typed(p, "Times", r"^u32$"):
            rep.exact("times/" + f, w, field(v, f), I(0), "new items have not been used")


# ------------------------------------------------------------ archives

def archive(an, rep):
    p = an.p
    db = typed(p, "Unlocked", r"\bDatabase\b")[0]
    ih = typed(p, "Unlocked", r"\bKdbxInnerHeader\b")[0]
    ck, mk = key_fields(p)
    for w, o, v in made(an, rep, "archive", p.one("Kdbx", "from_database")):
        s = field(v, state_field(p))
        rep.exact("archive/database", w, field(s, db), A1, "the database given")
        rep.exact("archive/version", w, version_of(an, "Unlocked", s), I(4), "format version 4, the one that can be written")
        for f in (ck, mk):
            if f:
                rep.exact("archive/key", w, field(s, f), NONE, "no key yet")
        for f in typed(p, "Unlocked", r"Vec<u8>"):
            rep.exact("archive/xml", w, field(s, f), NONE, "no XML was read")
        algo = o.eng.variant_of(o.st, field(field(s, ih), "inner_stream_cipher"))
        rep.judge("archive/inner-stream", w, None if algo is None else algo == "ChaCha20", "inner stream ChaCha20", "inner stream " + str(algo))
        header(an, rep, "archive", w, o, header_of(an, "Unlocked", s))
    for w, o, v in made(an, rep, "header", p.one("KdbxHeader", "from_os_random")):
        header(an, rep, "header", w, o, v)


LEAST = (("version", 19), ("memory_bytes", 0xFFFF * 1024), ("iterations", 10))


def header(an, rep, key, w, o, h):
    c = o.eng.variant_of(o.st, field(h, "cipher"))
    rep.judge(key + "/cipher", w, None if c is None else c == "Aes256", "cipher AES-256", "cipher " + str(c))
    k = field(h, "kdf_params")
    kv = o.eng.variant_of(o.st, k)
    if kv != "Argon2":
        (rep.bad if kv else rep.und)(key + "/kdf", w, "key derivation " + str(kv))
        return
    rep.ok(key + "/kdf", w, "key derivation Argon2")
    for f, least in LEAST:
        t = field(variant(k, "Argon2"), f)
        if t.op != "int":
            (rep.und if vague(t) else rep.bad)("%s/%s" % (key, f), w, "%s is %s" % (f, show(t, 4)[:80]))
        else:
            good = t.args[0] >= least if f != "version" else t.args[0] == least
            rep.judge("%s/%s" % (key, f), w, good, "%s %d" % (f, t.args[0]), "%s is %d, documented is %d" % (f, t.args[0], least))
    for f in ("other_headers",):
        empty(rep, "%s/%s" % (key, f), w, field(h, f), f)
