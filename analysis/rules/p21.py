from stages import *

RULE = ("fields of the unlocked state in every success outcome of unlock must be the terms of the locked header and versions, the "
        "decrypted bytes, the database parsed from those same bytes with the inner cipher of the inner header held, and both "
        "keys of the supplied credentials; set_key must replace both keys together or nothing")


def check(an, rep, tier):
    unlocked(an, rep)
    inner_fields(an, rep)
    set_key(an, rep)
    accessors(an, rep)


def inner_fields(an, rep):
    """Each field of the inner header is the data of the decrypted field with its identifier."""
    from rules.p15 import Reader, Odd, Wrong, INNER, exposed, inner_field
    us = [u for u in unlocks(an) if u.v == 4]
    w = loc(unlock_run(an).root)
    names = an.p.fields("KdbxInnerHeader")
    seen = set()
    for u in us:
        try:
            rd = Reader(an, u.o, field(u.state, inner_field(an.p)), names, INNER, [x.o for x in us])
            if (rd.L, rd.list_loop) in seen:
                continue
            seen.add((rd.L, rd.list_loop))
            exposed(an, rep, "inner-field", w, rd, "InnerHeaderId", INNER, 4)
        except Odd as e:
            rep.und("inner-field", w, str(e))
        except Wrong as e:
            rep.bad("inner-field", w, str(e))


def key_fields(p):
    """Names of the composed-key and master-key fields of the unlocked state."""
    path, a = p.adt("Unlocked")
    ck = mk = None
    for f in a["variants"][0]["fields"]:
        if re.search(r"\bComposedKey\b", f[1]):
            ck = f[0]
        if re.search(r"\bMasterKey\b", f[1]):
            mk = f[0]
    return ck, mk


def field_of_type(p, name, ty):
    path, a = p.adt(name)
    return [f[0] for f in a["variants"][0]["fields"] if re.search(ty, f[1])]


def unlocked(an, rep):
    p = an.p
    run = unlock_run(an)
    w = loc(run.root)
    if run.incomplete:
        rep.und("unlock", w, run.incomplete)
        return
    ckf, mkf = key_fields(p)
    if not mkf:
        raise Missing("master key of the unlocked state")
    db_f = field_of_type(p, "Unlocked", r"\bDatabase\b")[0]
    ih_f = field_of_type(p, "Unlocked", r"\bKdbxInnerHeader\b")[0]
    xml_f = [f for f in field_of_type(p, "Unlocked", r"Vec<u8>")]
    calls = tuple(opaque_keys(p)) + (fn_path(p, "parse_xml"),)
    base = kdbx_sym(p)
    n = 0
    for u in unlocks(an):
        n += 1
        o, st = u.o, u.state
        lab = "v%s/%s/%s" % (u.v, u.cipher, u.comp)
        for nm, acc in (("header", lambda s, b: header_of(an, s, b)),
                        ("major", lambda s, b: version_of(an, s, b)),
                        ("minor", lambda s, b: version_of(an, s, b, "minor_version"))):
            rep.exact("%s/%s" % (nm, lab), w, acc("Unlocked", st), acc("Locked", base), nm + " of the file is kept")
        mk, prob = expected_master(an, o, u.hdr, T("sym", "arg2"))
        if mk is None:
            rep.und("keys/" + lab, w, prob)
        else:
            rep.exact("master-key/" + lab, w, field(st, mkf), some(mk), "master key of the supplied credentials is kept", allow=calls)
            if prob:
                rep.bad("master-key/" + lab, w, prob)
            if ckf:
                comp = master_calls(an, o)[0][0].args[2]
                rep.exact("composed-key/" + lab, w, field(st, ckf), some(comp), "composite key of the supplied credentials is kept",
                          allow=calls)
        if u.parse is None:
            d = field(st, db_f)
            (rep.und if vague(d) else rep.bad)("database/" + lab, w, "the database is not the parse of the payload: " + show(d, 5)[:200])
            continue
        rep.exact("database/" + lab, w, field(st, db_f), field(variant(u.parse, "Ok"), "0"),
                  "the database is the successful parse", allow=calls + ("loopv",))
        ok = o.holds(isv(u.parse, "Ok"))
        rep.judge("parsed/" + lab, w, True if ok is True else None, "parsing succeeded", "parse result unknown")
        xv = [field(st, f) for f in xml_f]
        if not any(x is some(u.xml) or x is u.xml for x in xv):
            rep.bad("xml/" + lab, w, "the raw XML kept is %s, the database was parsed from %s"
                    % (show(xv[0], 5)[:200] if xv else "missing", show(u.xml, 5)[:200]))
        else:
            rep.ok("xml/" + lab, w, "the raw XML kept is what was parsed")
        if u.stack is None:
            (rep.und if vague(u.xml) and not u.cut else rep.bad)("payload/" + lab, w, "the XML bytes are %s" % show(u.xml, 5)[:200])
        else:
            rep.ok("payload/" + lab, w, "the XML bytes are the rest of the decrypted payload")
        inner(an, rep, w, u, field(st, ih_f), lab)
    if not n:
        raise Missing("a success outcome of unlock")
    rep.count("success_outcomes", n)


def inner(an, rep, w, u, ih, lab):
    """The inner stream used for parsing is the one the kept inner header specifies."""
    o = u.o
    algo, key = field(ih, "inner_stream_cipher"), field(ih, "inner_stream_key")
    name = o.eng.variant_of(o.st, algo)
    used = u.parse.args[3]
    want = spec.inner_cipher(name, key)
    if want is None:
        if name is None and not spec.no_inner_stream(o, algo):
            rep.und("inner-stream/" + lab, w, "inner stream algorithm not known on this path")
        else:
            rep.bad("inner-stream/" + lab, w, "parsing proceeds for the unsupported inner stream " + (name or "other than Salsa20 and ChaCha20"))
        return
    if used is want:
        rep.ok("inner-stream/%s/%s" % (lab, name), w, "values are decrypted with the kept inner header's stream")
    else:
        (rep.und if vague(used, allow=("loopv", "star", "phi", "el")) else rep.bad)(
            "inner-stream/%s/%s" % (lab, name), w, "values are decrypted with %s, the kept inner header specifies %s"
            % (show(used, 8)[:300], show(want, 8)[:300]))
    # where do algorithm and key come from?
    if u.v == 3:
        for what, t, ident in (("key", key, "ProtectedStreamKey"), ("algorithm", algo, "InnerRandomStreamId")):
            els = [x for x in subterms(t) if x.op == "idx" and x.args[0] is field(u.hdr, "other_headers")]
            if not els:
                (rep.und if vague(t) else rep.bad)("inner-source/v3/" + what, w,
                                                   "the inner stream %s is %s" % (what, show(t, 5)[:200]))
                continue
            hit = o.holds(isv(field(els[0], "ty"), ident))
            if hit is True:
                d = field(els[0], "data")
                good = t is d if what == "key" else t.op == "conv" and t.args[1] in (unle(4, subseq(d, I(0), I(4))), unle(4, d))
                if not good:
                    v = vague(t, allow=("conv",))
                    (rep.und if v else rep.bad)("inner-source/v3/" + what, w, "the inner stream %s is %s" % (what, show(t, 6)[:200]))
                    continue
            rep.judge("inner-source/v3/" + what, w, True if hit is True else (False if hit is False else None),
                      "taken from the %s header field" % ident, "inner stream %s is not known to come from %s" % (what, ident))
    else:
        # every read on this path comes from the decrypted stream that also yields the XML
        srcs = set()
        for k, v in o.facts():
            if v is True and k.op == "isv" and k.args[0].op == "fall" and k.args[0].args[0] in ("read_exact", "read", "read_all"):
                x = o.eng.snap(o.st, source_of(o, k.args[0].args[2]))
                while x.op == "drop":
                    x = unbox(x.args[0])
                srcs.add(unbox(x))
        pos = o.eng.snap(o.st, source_of(o, u.xml.args[0]))if u.xml.op == "rest" else None
        if pos is not None:
            while pos.op == "drop":
                pos = unbox(pos.args[0])
            pos = unbox(pos)
        if pos is not None and srcs == {pos}:
            rep.ok("inner-source/v4", w, "inner header and XML are read from the same decrypted stream")
        elif pos is None or any(x.op == "loopv" for x in srcs):
            rep.und("inner-source/v4", w, "stream of the inner header not traced")
        else:
            rep.bad("inner-source/v4", w, "inner header and XML come from different sources: "
                    + "; ".join(show(x, 3)[:100] for x in srcs))
        for what, t in (("key", key), ("algorithm", algo)):
            b = base_sym(t)
            if t.op in ("str", "int", "one", "rep", "cat", "adt") and not vague(t):
                rep.bad("inner-source/v4/" + what, w, "the inner stream %s is the constant %s" % (what, show(t, 4)[:100]))
            else:
                rep.ok("inner-source/v4/" + what, w, "comes from the inner header fields read")


def set_key(an, rep):
    p = an.p
    root = p.one("Kdbx<Unlocked>", "set_key")
    w = loc(root)
    run = an.run(root, opaque=frozenset(opaque_keys(p)))
    if run.incomplete:
        rep.und("set_key", w, run.incomplete)
        return
    ckf, mkf = key_fields(p)
    calls = tuple(opaque_keys(p))
    base = kdbx_sym(p)
    hdr = header_of(an, "Unlocked", base)
    n = 0
    for o in run.outs:
        after = field(o.arg(1), state_field(p))
        if o.variant() == "Err":
            for f in p.fields("Unlocked"):
                g, b = field(after, f), field(base, f)
                if g is b:
                    rep.ok("set_key/failed/" + f, w, "unchanged when no key can be derived")
                else:
                    (rep.und if vague(g, calls) else rep.bad)("set_key/failed/" + f, w,
                                                              "%s changes although setting the key failed" % f)
            continue
        n += 1
        ms = master_calls(an, o)
        if not ms:
            (rep.und if vague(field(after, mkf), calls) else rep.bad)(
                "set_key/master", w, "setting a key succeeds without deriving a master key")
            continue
        c, mk = ms[-1]
        rep.exact("set_key/master", w, field(after, mkf), some(mk), "master key replaced", allow=calls)
        if ckf:
            rep.exact("set_key/composed", w, field(after, ckf), some(c.args[2]), "composite key replaced", allow=calls)
        rep.exact("set_key/parameters", w, c.args[3], field(hdr, "kdf_params"), "derived with the current parameters")
        if c.args[2].op == "call" and c.args[2].args[0].split("::")[-1] == "composed":
            rep.exact("set_key/credentials", w, c.args[2].args[2], T("sym", "arg2"), "derived from the new credentials", allow=calls)
        else:
            rep.und("set_key/credentials", w, "composite key not understood")
        for f in p.fields("Unlocked"):
            if f not in (ckf, mkf):
                g, b = field(after, f), field(base, f)
                if g is b:
                    rep.ok("set_key/" + f, w, "nothing else changes")
                else:
                    (rep.und if vague(g, calls) else rep.bad)("set_key/" + f, w, "setting a key changes " + f)
    if not n:
        rep.bad("set_key/success", w, "setting a key can never succeed")


# ------------------------------------------------------------ what the caller is shown

def untouched(an, rep, n, w, o, state, after, before):
    """Asking for access changes neither the keys nor any other part (the XML kept may be given up)."""
    p = an.p
    for f in p.fields(state):
        if state == "Unlocked" and f in field_of_type(p, "Unlocked", r"Vec<u8>"):
            continue
        g, b = field(after, f), field(before, f)
        if g is b:
            rep.ok("accessor/%s/keeps/%s" % (n, f), w, "asking for access changes nothing")
        else:
            (rep.und if vague(g) else rep.bad)("accessor/%s/keeps/%s" % (n, f), w, "asking for access changes " + f)


def accessors(an, rep):
    """The public accessors hand out exactly these parts."""
    p = an.p
    base = kdbx_sym(p)
    ih = field(base, field_of_type(p, "Unlocked", r"\bKdbxInnerHeader\b")[0])
    db = field(base, field_of_type(p, "Unlocked", r"\bDatabase\b")[0])
    for n, want in (("inner_header", ih), ("inner_header_mut", ih), ("database", db), ("database_mut", db)):
        run = an.run(p.one("Kdbx", n))
        for o in run.outs:
            rep.exact("accessor/" + n, loc(run.root), o.ret, want, "the part of its name")
            if n.endswith("_mut"):
                untouched(an, rep, n, loc(run.root), o, "Unlocked", field(o.arg(1), state_field(p)), base)
    for n, trait in (("deref", "Deref"), ("deref_mut", "DerefMut")):
        for root in p.find("Kdbx", n, trait):
            run = an.run(root)
            for o in run.outs:
                rep.exact("accessor/" + n, loc(root), o.ret, db, "the database")
                if n.endswith("_mut"):
                    untouched(an, rep, n, loc(root), o, "Unlocked", field(o.arg(1), state_field(p)), base)
    for n in ("header", "header_mut", "major_version", "minor_version"):
        root = [r for r in p.find("Kdbx", n) if "Locked" not in (r.get("selfty") or "") and "Unlocked" not in (r.get("selfty") or "")]
        if len(root) != 1:
            raise Missing("Kdbx::" + n)
        run = an.run(root[0])
        for o in run.outs:
            r = o.ret
            good = r.op == "call" and r.args[0].split("::")[-1] == n and r.args[2] is base
            (rep.ok if good else rep.bad if r.op == "call" and r.args[0].split("::")[-1] in ("major_version", "minor_version", "header")
             or not vague(r) else rep.und)("accessor/" + n, loc(root[0]), "hands out the state's %s" % n if good else "returns " + show(r, 4)[:120])
    for s in ("Locked", "Unlocked"):
        run = an.run(p.one(s, "header_mut", "KdbxState"))
        for o in run.outs:
            rep.exact("accessor/%s::header_mut" % s, loc(run.root), o.ret, header_of(an, s, S), "the header that is read and written")
            untouched(an, rep, s + "::header_mut", loc(run.root), o, s, o.arg(1), S)
    xf = field_of_type(p, "Unlocked", r"Vec<u8>")
    if len(xf) != 1:
        return
    x = field(base, xf[0])
    run = an.run(p.one("Kdbx", "raw_xml"))
    w = loc(run.root)
    for o in run.outs:
        if o.ret is x:
            rep.ok("accessor/raw_xml", w, "the XML kept")
        elif o.variant() == "Some":
            rep.exact("accessor/raw_xml", w, o.payload("Some"), field(variant(x, "Some"), "0"), "the XML kept")
        elif o.variant() == "None":
            none = o.holds(isv(x, "Some")) is False
            (rep.ok if none else rep.bad)("accessor/raw_xml/none", w, "nothing only if nothing was kept" if none
                                          else "the XML kept is withheld")
        else:
            rep.und("accessor/raw_xml", w, "returns " + show(o.ret, 4)[:120])
