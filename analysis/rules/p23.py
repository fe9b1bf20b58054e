from stages import *

RULE = ("per named property, the element the getter reads and the element the setter writes are compared on every outcome (first field "
        "with the standard name, or appended when there is none), with its protection; the field operations are evaluated for every "
        "kind of stored value")

A2 = T("sym", "arg2")
PROPS = (("title", "set_title", "Title", False), ("username", "set_username", "UserName", False), ("url", "set_url", "URL", False),
         ("password", "set_password", "Password", True), ("otp", "set_otp", "otp", True))
PROT, STD, EMPTYV, PEMPTY = "Protected", "Standard", "Empty", "ProtectEmpty"


def check(an, rep, tier):
    p = an.p
    ff = p.adt("Entry")[1]["variants"][0]["fields"]
    lists = [f[0] for f in ff if re.search(r"\bField\b", f[1])]
    if len(lists) != 1:
        raise Missing("field list of an entry")
    F = lists[0]
    vty, keyf, valf = field_roles(p)
    if vty is None:
        rep.und("Field", "src/database.rs", "representation of a field not recognised")
        return
    for get, put, name, secret in PROPS:
        orders = set()
        getter(an, rep, F, keyf, valf, get, name, orders)
        setter(an, rep, F, keyf, valf, put, name, secret, orders)
        same_order(rep, put + "/same", loc(p.one("Entry", put)), orders)
    finders(an, rep, F, keyf)
    fields(an, rep, keyf, valf)
    plain(an, rep, F)


def field_roles(p):
    keyf = valf = vty = None
    for f in p.adt("Field")[1]["variants"][0]["fields"]:
        if f[1].endswith("String"):
            keyf = f[0]
        else:
            valf, vty = f[0], f[1]
    try:
        _, a = p.adt(last(vty))
    except Missing:
        return None, keyf, valf
    for path, a in p.adts.items():
        if path == vty or path == base_ty(vty):
            if {v["name"] for v in a["variants"]} == {PROT, STD, EMPTYV, PEMPTY}:
                return path, keyf, valf
    return None, keyf, valf


def text_of(t):
    """Text of a value handed over as ToString, Cow or reference."""
    while True:
        if t.op == "tostr":
            t = t.args[0]
        elif t.op == "adt" and last(t.args[0]) == "Cow":
            t = t.args[3]
        elif t.op == "adt" and last(t.args[0]) == "Otp":
            t = t.args[3]
        else:
            return t


def found(o, F, keyf, want):
    """How the outcome selected a field: (state, index, problem); state in found / absent / None."""
    fs = field(S, F)
    for k, v in o.facts():
        if k.op != "eq" or v is not True:
            continue
        for a, b in (k.args, k.args[::-1]):
            if a.op == "f" and a.args[1] == keyf and a.args[0].op == "idx" and a.args[0].args[0] is fs:
                if b is want:
                    return "found", a.args[0].args[1], None
                if b.op == "str" or b is A2:
                    return "found", a.args[0].args[1], "looks for the field %s" % show(b, 3)
    for k, v in o.facts():
        if k.op == "exists" and v is False:
            if str(F) not in show(k.args[1], 4):
                continue
            cs = k.args[3] if len(k.args) > 3 else None
            if cs is not None and cond_is(cs, fs, keyf, want):
                return "absent", None, None
            return "absent", None, "treats the field as absent when no field satisfies %s" % show(cs, 7)[:200]
    for L in o.eng.loops.values():
        # a search written as a loop: every continuing path has ruled the element out
        if L["back"] and all(ruled_out(st, fs, keyf, want) for st in L["back"]):
            return "absent", None, None
    return None, None, None


def cond_is(cs, fs, keyf, want):
    items = cs.args[0] if cs.op == "conds" else ()
    if len(items) != 1:
        return False
    c, val = items[0]
    if c.op != "eq" or val is not True:
        return False
    for a, b in (c.args, c.args[::-1]):
        if b is want and a.op == "f" and a.args[1] == keyf and a.args[0].op == "idx" and a.args[0].args[0] is fs:
            return True
    return False


def ruled_out(st, fs, keyf, want):
    for k, v in st.facts.items():
        if not isinstance(k, tuple) and k.op == "eq" and v is False:
            for a, b in (k.args, k.args[::-1]):
                if b is want and a.op == "f" and a.args[1] == keyf and a.args[0].op == "idx" and a.args[0].args[0] is fs:
                    return True
    return False


def order(F, i):
    """Which of several matching fields is meant."""
    if i.op == "ix":
        return "first" if i.args[0].op in ("srefs", "svals", "enumerate") else None
    ixs = [x for x in subterms(i) if isinstance(x, Term) and x.op == "ix"]
    if len(ixs) == 1 and ixs[0].args[0].op == "rev" and i is sub(sub(length(field(S, F)), ixs[0]), I(1)):
        return "last"
    return None


def same_order(rep, key, w, got):
    """Getter and setter mean the same one of several fields of a name."""
    if None in got or not got:
        rep.und(key, w, "order of the search not understood")
    else:
        rep.judge(key, w, len(got) == 1, "getter and setter search in the same order",
                  "of several fields with the name the getter and the setter take different ones")


def getter(an, rep, F, keyf, valf, name, key, orders):
    run = an.run(an.p.one("Entry", name))
    w = loc(run.root)
    if run.incomplete:
        rep.und(name, w, run.incomplete)
        return
    want = T("str", key)
    for o in run.outs:
        rep.count("outcomes")
        st, i, prob = found(o, F, keyf, want)
        if prob:
            rep.bad(name, w, prob + " instead of " + key)
            continue
        if st is None:
            rep.und(name, w, "selection of the field not understood")
            continue
        n = o.variant()
        if st == "absent":
            rep.judge(name + "/absent", w, n == "None", "nothing without the field", "returns something although the field is absent")
            continue
        val = field(idx(field(S, F), i), valf)
        v = o.eng.variant_of(o.st, val)
        if n == "Some":
            got = text_of(o.payload("Some"))
            if v in (PROT, STD) and got is field(variant(val, v), "0"):
                rep.ok(name + "/value", w, "the text of the field named " + key)
            else:
                (rep.und if vague(got, ("ix",)) else rep.bad)(name + "/value", w, "returns " + show(got, 5)[:160])
        elif n == "None":
            if o.holds(isv(val, PROT)) is False and o.holds(isv(val, STD)) is False or v in (EMPTYV, PEMPTY):
                rep.ok(name + "/empty", w, "nothing for an empty field")
            else:
                rep.bad(name + "/empty", w, "a filled field may be reported as absent")
        else:
            rep.und(name, w, "outcome not understood")
        orders.add(order(F, i))


def setter(an, rep, F, keyf, valf, name, key, secret, orders):
    run = an.run(an.p.one("Entry", name))
    w = loc(run.root)
    if run.incomplete:
        rep.und(name, w, run.incomplete)
        return
    want = T("str", key)
    fs = field(S, F)
    efields = an.p.fields("Entry")
    for o in run.outs:
        rep.count("outcomes")
        st = o.arg(1)
        for f in efields:
            if f != F and field(st, f) is not field(S, f):
                (rep.und if vague(field(st, f)) else rep.bad)(name + "/other", w, "also changes " + f)
        sel, i, prob = found(o, F, keyf, want)
        if prob:
            rep.bad(name, w, prob + " instead of " + key)
            continue
        got = field(st, F)
        if sel is None:
            rep.und(name, w, "selection of the field not understood: " + show(got, 5)[:160])
            continue
        if sel == "absent":
            ps, base = list(parts(got)), list(parts(fs))
            if ps[:len(base)] != base or len(ps) != len(base) + 1 or ps[-1].op != "one":
                (rep.und if vague(got) else rep.bad)(name + "/new", w, "without the field the list becomes " + show(got, 6)[:240])
                continue
            x = ps[-1].args[0]
            stored(rep, name + "/new", w, o, x, keyf, valf, want, secret, None)
            continue
        if got.op != "upd" or got.args[0] is not fs or got.args[1] is not i:
            (rep.und if vague(got) else rep.bad)(name + "/existing", w, "with the field present the list becomes " + show(got, 6)[:240])
            continue
        old = idx(fs, i)
        stored(rep, name + "/existing", w, o, got.args[2], keyf, valf, None, secret, old)
        orders.add(order(F, i))


def stored(rep, key, w, o, x, keyf, valf, name, secret, old):
    """The stored field has the right name, text and protection."""
    k = field(x, keyf)
    if name is not None and k is not name:
        (rep.und if vague(k) else rep.bad)(key, w, "stores under the name " + show(k, 3)[:80])
        return
    if old is not None and k is not field(old, keyf) and not (k.op == "str" and o.holds(eq(k, field(old, keyf))) is True):
        (rep.und if vague(k) else rep.bad)(key, w, "renames the field to " + show(k, 3)[:80])
        return
    v = field(x, valf)
    n = o.eng.variant_of(o.st, v)
    if n is None:
        rep.und(key, w, "stored value not understood: " + show(v, 4)[:120])
        return
    if n not in (PROT, STD):
        rep.bad(key, w, "stores an empty value")
        return
    t = text_of(field(variant(v, n), "0"))
    src = A2 if not key.startswith("set_otp") else field(A2, "url")
    if t is not src and text_of(t) is not src:
        (rep.und if vague(t) else rep.bad)(key, w, "stores the text " + show(t, 5)[:160])
        return
    if secret:
        rep.judge(key, w, n == PROT, "stored protected under the standard name", "a secret is stored unprotected")
        return
    if old is not None:
        ov = field(old, valf)
        on = o.eng.variant_of(o.st, ov)
        was = on in (PROT, PEMPTY) if on else (False if o.holds(isv(ov, PROT)) is False and o.holds(isv(ov, PEMPTY)) is False else None)
        if was is None:
            # one outcome for protected and unprotected fields alike: the mark is lost for one of them
            poss = [x for x in (PROT, STD, EMPTYV, PEMPTY) if o.holds(isv(ov, x)) is not False]
            lost = [x for x in poss if (x in (PROT, PEMPTY)) != (n == PROT)]
            rep.judge(key, w, not lost, "text replaced, protection kept", "a field that is %s becomes %s" % ("/".join(lost), n))
            return
        rep.judge(key, w, was == (n == PROT), "text replaced, protection kept", "the protection mark of an existing field changes")
        return
    rep.ok(key, w, "appended under the standard name")


def finders(an, rep, F, keyf):
    for name in ("find", "find_mut"):
        run = an.run(an.p.one("Entry", name))
        w = loc(run.root)
        for o in run.outs:
            rep.count("outcomes")
            unchanged(an, rep, name, w, o, "Entry")
            st, i, prob = found(o, F, keyf, A2)
            if prob or st is None:
                (rep.und if st is None else rep.bad)(name, w, prob or "selection not understood")
                continue
            n = o.variant()
            if n == "Some" and st == "found":
                rep.exact(name + "/found", w, o.payload("Some"), idx(field(S, F), i), "the field with that key", ("ix",))
            elif n == "None" and st == "absent":
                rep.ok(name + "/absent", w, "nothing when no field has the key")
            else:
                rep.bad(name, w, "returns %s when the field is %s" % (n, st))


def cases(an, rep, name, valf):
    """Outcomes of a Field method for every kind of stored value."""
    run = an.run(an.p.one("Field", name))
    w = loc(run.root)
    val = field(S, valf)
    if run.incomplete:
        rep.und("Field::" + name, w, run.incomplete)
        return
    for old in (PROT, STD, EMPTYV, PEMPTY):
        outs = []
        for o in run.outs:
            if o.holds(isv(val, old)) is False or o.eng.variant_of(o.st, val) not in (None, old):
                continue
            outs.append(o)
        if not outs:
            rep.bad("Field::%s/%s" % (name, old), w, "no outcome")
        for o in outs:
            rep.count("cases")
            yield old, o, w


def now(o, valf, old):
    """(variant, text) of the stored value after the call."""
    v = field(o.arg(1), valf)
    if v is field(S, valf):
        n = old
    else:
        n = o.eng.variant_of(o.st, v)
    t = field(variant(v, n), "0") if n in (PROT, STD) else None
    return n, t


def fields(an, rep, keyf, valf):
    val = field(S, valf)
    old_text = lambda old: field(variant(val, old), "0") if old in (PROT, STD) else None

    def expect(key, w, o, old, want, text):
        n, t = now(o, valf, old)
        if field(o.arg(1), keyf) is not field(S, keyf):
            rep.bad(key, w, "the field is renamed")
        elif n is None:
            rep.und(key, w, "stored value not understood")
        elif n != want:
            rep.bad(key, w, "a %s value becomes %s, expected %s" % (old, n, want))
        elif want in (PROT, STD) and text_of(t) is not text:
            (rep.und if vague(t) else rep.bad)(key, w, "the text becomes " + show(t, 4)[:120])
        else:
            rep.ok(key, w, "%s becomes %s" % (old, n))
    for old, o, w in cases(an, rep, "set_value", valf):
        expect("Field::set_value/" + old, w, o, old, PROT if old in (PROT, PEMPTY) else STD, A2)
    for old, o, w in cases(an, rep, "clear", valf):
        expect("Field::clear/" + old, w, o, old, PEMPTY if old in (PROT, PEMPTY) else EMPTYV, None)
    on = {PROT: PROT, STD: PROT, EMPTYV: PEMPTY, PEMPTY: PEMPTY}
    off = {PROT: STD, STD: STD, EMPTYV: EMPTYV, PEMPTY: EMPTYV}
    for old, o, w in cases(an, rep, "set_protected", valf):
        for b, tab in ((TRUE, on), (FALSE, off)):
            if o.holds(A2) is (b is FALSE):
                continue
            expect("Field::set_protected/%s/%s" % (show(b), old), w, o, old, tab[old], old_text(old))
    for old, o, w in cases(an, rep, "protected", valf):
        want = TRUE if old in (PROT, PEMPTY) else FALSE
        got = o.ret
        if got is want or o.holds(got) is (want is TRUE):
            rep.ok("Field::protected/" + old, w, show(want))
        else:
            (rep.und if vague(got) else rep.bad)("Field::protected/" + old, w, "reports " + show(got, 4)[:100])
    for old, o, w in cases(an, rep, "value", valf):
        n = o.variant()
        if old in (PROT, STD):
            good = n == "Some" and text_of(o.payload("Some")) is old_text(old)
        else:
            good = n == "None"
        rep.judge("Field::value/" + old, w, good or (None if n is None else False), "the stored text", "returns " + show(o.ret, 4)[:120])
    for name, kind in (("new", STD), ("new_protected", PROT)):
        run = an.run(an.p.one("Field", name))
        for o in run.outs:
            v = field(o.ret, valf)
            k = o.eng.variant_of(o.st, v)
            good = k == kind and text_of(field(variant(v, k), "0")) is A2 and text_of(field(o.ret, keyf)) is S
            rep.judge("Field::" + name, loc(run.root), good or (None if vague(o.ret) else False), "name, text and protection as given",
                      "makes " + show(o.ret, 5)[:160])
    run = an.run(an.p.one("Field", "key"))
    for o in run.outs:
        rep.exact("Field::key", loc(run.root), o.ret, field(S, keyf), "the field's name")
    run = an.run(an.p.one("Field", "set_key"))
    for o in run.outs:
        st = o.arg(1)
        rep.exact("Field::set_key", loc(run.root), text_of(field(st, keyf)), A2, "the new name")
        if field(st, valf) is not val:
            rep.bad("Field::set_key/value", loc(run.root), "also changes the value")


def plain(an, rep, F):
    """Identifier, times, field list."""
    p = an.p
    for name, f in (("uuid", "uuid"), ("times", "times"), ("times_mut", "times")):
        run = an.run(p.one("Entry", name))
        for o in run.outs:
            rep.exact("Entry::" + name, loc(run.root), o.ret, field(S, f), "the entry's " + f)
            unchanged(an, rep, "Entry::" + name, loc(run.root), o, "Entry")
    run = an.run(p.one("Entry", "set_uuid"))
    for o in run.outs:
        st = o.arg(1)
        rep.exact("Entry::set_uuid", loc(run.root), field(st, "uuid"), A2, "the identifier")
        for f in p.fields("Entry"):
            if f != "uuid" and field(st, f) is not field(S, f):
                rep.bad("Entry::set_uuid/other", loc(run.root), "also changes " + f)
    run = an.run(p.one("Entry", "add_field"))
    for o in run.outs:
        rep.exact("Entry::add_field", loc(run.root), field(o.arg(1), F), cat(field(S, F), T("one", A2)), "the field is appended")
    for name in ("fields", "fields_mut"):
        run = an.run(p.one("Entry", name))
        for o in run.outs:
            r = o.ret
            good = r.op == "iter" and r.args[0] is T("srefs", ("A", "arg1"), (("f", F),)) and r.args[1] in (0, I(0))
            rep.judge("Entry::" + name, loc(run.root), good or (None if r.op != "iter" else False), "all fields in order",
                      "lists " + show(r, 4)[:120])
            unchanged(an, rep, "Entry::" + name, loc(run.root), o, "Entry")
