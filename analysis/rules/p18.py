from stages import *

RULE = ("the value of every secret a new archive starts with is traced to one complete fill by the operating system's generator, "
        "no two secrets share a fill, and the identifiers of new entries and groups are fresh random UUIDs")

IV = {"Aes256": 16, "Aes128": 16, "TwoFish": 16, "ChaCha20": 12}


def check(an, rep, tier):
    p = an.p
    secrets = set()
    made = 0
    for r in makers(p):
        run = an.run(r)
        w = loc(r)
        if run.incomplete:
            rep.und(r["name"], w, run.incomplete)
            continue
        for o in run.outs:
            v = o.ret
            name = "%s::%s" % (last(r["selfty"]), r["name"])
            rep.count("constructor_outcomes")
            found = pieces(o, v)
            for kind, cipher, t, at in found:
                made += 1
                secrets.add(kind)
                one(rep, "%s/%s" % (name, kind), w, kind, cipher, t)
            apart(rep, name, w, [(k, t) for k, c, t, at in found])
    for k in ("master_seed", "encryption_iv", "salt", "inner_stream_key"):
        if k not in secrets:
            rep.bad("created/" + k, "src/binary/kdbx.rs", "no constructor fills " + k)
    identifiers(an, rep)


def makers(p):
    """Public functions without a file that produce a header, an inner header or an archive."""
    out = []
    for r in p.roots:
        m = re.match(r"^(?:for<[^>]*> )?fn\((.*)\) -> (.*)$", r.get("sig") or "")
        if not m or not r["pub"] or r.get("derived") or not r.get("selfty"):
            continue
        ret = m.group(2)
        if re.match(r"^[\w:]*(KdbxHeader|KdbxInnerHeader)$", ret) and "&" not in m.group(1) or r["name"] == "from_database":
            if "R" not in m.group(1).replace("Result", ""):
                out.append(r)
    if not any(r["name"] == "from_database" for r in out):
        raise Missing("Kdbx::from_database")
    return out


def pieces(o, v):
    """(kind, cipher, value, holder) of each secret inside a constructed value."""
    out = []
    for t in subterms(v):
        if t.op != "adt":
            continue
        n = last(t.args[0])
        fs = dict(zip(t.args[2], t.args[3:]))
        if n == "KdbxHeader":
            c = o.eng.variant_of(o.st, fs["cipher"])
            out.append(("master_seed", c, fs["master_seed"], t))
            out.append(("encryption_iv", c, fs["encryption_iv"], t))
        elif n == "KdfParams" and "salt" in fs:
            out.append(("salt", t.args[1], fs["salt"], t))
        elif n == "KdbxInnerHeader":
            c = o.eng.variant_of(o.st, fs["inner_stream_cipher"])
            out.append(("inner_stream_key", c, fs["inner_stream_key"], t))
    return out


def fill(t):
    """(generator, fill id, start, end, size) if t is (a constant part of) one random fill."""
    if t.op == "rand":
        return t.args[0], t.args[2], 0, t.args[1], t.args[1]
    if t.op == "sub" and t.args[0].op == "rand" and t.args[1].op == "int" and t.args[2].op == "int":
        return t.args[0].args[0], t.args[0].args[2], t.args[1].args[0], sub(t.args[2], t.args[1]), t.args[0].args[1]
    return None


def one(rep, key, w, kind, cipher, t):
    f = fill(t)
    fs = [fill(x) for x in parts(t)]
    if f is None and len(fs) > 1 and all(fs) and len({x[1] for x in fs}) == len(fs):
        f = max(x[0] for x in fs if x[0] != "OsRng") if any(x[0] != "OsRng" for x in fs) else "OsRng", None, 0, add(*[x[3] for x in fs]), None
    if f is None:
        (rep.und if vague(t) else rep.bad)(key, w, "%s is %s, not one random fill" % (kind, show(t, 5)[:200]))
        return
    gen, _, _, n, _ = f
    if gen != "OsRng":
        rep.bad(key, w, "%s comes from %s" % (kind, gen))
        return
    if n.op != "int":
        rep.und(key, w, "size of %s not known" % kind)
        return
    n = n.args[0]
    if kind == "master_seed":
        good, want = n == 32, "32"
    elif kind == "encryption_iv":
        good, want = n == IV.get(cipher), str(IV.get(cipher))
    elif kind == "salt":
        good, want = (n == 32 if cipher == "Aes" else n >= 16), "32 for AES, at least 16 for Argon2"
    else:
        good, want = n >= 32, "at least 32"
    rep.judge(key, w, good, "%d bytes of operating system randomness" % n, "%s has %d random bytes, expected %s" % (kind, n, want))


def apart(rep, name, w, found):
    """No two secrets come from the same random bytes."""
    for i, (k1, a) in enumerate(found):
        for k2, b in found[:i]:
            fa, fb = fill(a), fill(b)
            key = "%s/%s-%s" % (name, k2, k1)
            if not fa or not fb:
                continue
            if fa[1] != fb[1]:
                rep.ok(key, w, "separate fills")
                continue
            e1, e2 = fa[3], fb[3]
            if e1.op == "int" and e2.op == "int" and (fa[2] + e1.args[0] <= fb[2] or fb[2] + e2.args[0] <= fa[2]):
                rep.ok(key, w, "separate parts of one fill")
            else:
                rep.bad(key, w, "%s and %s are the same random bytes" % (k2, k1))


def identifiers(an, rep):
    p = an.p
    roots = []
    for ty in ("Entry", "Group"):
        d = p.find(ty, "default", "Default")
        if not d:
            raise Missing("Default for " + ty)
        roots += d + p.find(ty, "new")
    roots += p.find("Database", "default", "Default") + p.find("Database", "new")
    for r in roots:
        run = an.run(r)
        w = loc(r)
        name = "%s::%s" % (last(r["selfty"]), r["name"])
        if run.incomplete:
            rep.und(name, w, run.incomplete)
            continue
        for o in run.outs:
            ids = []
            for t in subterms(o.ret):
                if t.op == "adt" and last(t.args[0]) in ("Entry", "Group") and "uuid" in t.args[2]:
                    ids.append((last(t.args[0]), dict(zip(t.args[2], t.args[3:]))["uuid"]))
            for k, u in ids:
                rep.count("identifiers")
                key = "%s/%s-uuid" % (name, k)
                if u.op == "uuid4":
                    rep.ok(key, w, "random version 4 UUID")
                elif any(x.op == "rand" and x.args[0] == "OsRng" for x in subterms(u)):
                    rep.ok(key, w, "made from operating system randomness")
                else:
                    (rep.und if vague(u) else rep.bad)(key, w, "identifier is " + show(u, 4)[:120])
            us = [u for k, u in ids]
            if len(us) != len(set(us)):
                rep.bad(name + "/distinct", w, "two elements share one identifier")
            if not ids and last(r["selfty"]) != "Database":
                (rep.und if vague(o.ret) else rep.bad)(name, w, "no identifier in " + show(o.ret, 4)[:200])
