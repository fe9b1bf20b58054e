from stages import *
from blocks import changed

RULE = ("the effect of each history operation is read off its outcomes: which list element is returned, what the list becomes, "
        "and that a new version appends one copy of the entry whose every field except its own history equals the entry's")

A2 = T("sym", "arg2")


def check(an, rep, tier):
    p = an.p
    hf = p.fields("History")
    ef = p.fields("Entry")
    lists = [f[0] for f in p.adt("History")[1]["variants"][0]["fields"] if "Entry" in f[1]]
    hist = [f[0] for f in p.adt("Entry")[1]["variants"][0]["fields"] if last(f[1]) == "History"]
    if len(lists) != 1 or len(hist) != 1:
        raise Missing("history list of an entry")
    L, H = lists[0], hist[0]
    E = field(S, L)
    new_version(an, rep, ef, L, H)
    run = each(an, rep, "History", "push", lambda o, w: state(rep, "push", w, o, L, cat(E, T("one", A2)), hf))
    each(an, rep, "History", "len", lambda o, w: rep.exact("len", w, o.ret, length(E), "number of versions"))
    each(an, rep, "History", "is_empty", lambda o, w: empty(rep, "is_empty", w, o, E))
    for n in ("get", "get_mut"):
        each(an, rep, "History", n, lambda o, w, n=n: (get(rep, n, w, o, E), unchanged(an, rep, n, w, o, "History")))
    each(an, rep, "History", "remove", lambda o, w: remove(rep, w, o, L, E, hf))
    for n in ("entries", "entries_mut"):
        each(an, rep, "History", n, lambda o, w, n=n: (listing(rep, n, w, o, L), unchanged(an, rep, n, w, o, "History")))
    for tr, n in (("Index", "index"), ("IndexMut", "index_mut")):
        run = an.run(p.one("History", n, tr))
        for o in run.outs:
            rep.exact(n, loc(run.root), o.ret, idx(E, A2), "version at the position")
            unchanged(an, rep, n, loc(run.root), o, "History")
    for n, want in (("history", field(S, H)), ("history_mut", field(S, H))):
        each(an, rep, "Entry", n, lambda o, w, n=n, want=want: (rep.exact("Entry::" + n, w, o.ret, want, "the entry's own history"),
                                                                unchanged(an, rep, "Entry::" + n, w, o, "Entry")))


def each(an, rep, ty, name, fn):
    run = an.run(an.p.one(ty, name))
    w = loc(run.root)
    if run.incomplete:
        rep.und(name, w, run.incomplete)
        return run
    for o in run.outs:
        rep.count("outcomes")
        fn(o, w)
    return run


def same_rest(st, fields, but):
    return [f for f in fields if f not in but and field(st, f) is not field(S, f)]


def state(rep, key, w, o, L, want, fields):
    st = o.arg(1)
    rep.exact(key, w, field(st, L), want, "list of versions")
    for f in same_rest(st, fields, (L,)):
        rep.bad(key + "/other", w, "also changes " + f)


def empty(rep, key, w, o, E):
    """The answer is true exactly when the list is empty."""
    want = eq(length(E), I(0))
    if o.ret is want or o.holds(eq(o.ret, want)) is True:
        rep.ok(key, w, "true exactly for an empty list")
        return
    if o.ret in (TRUE, FALSE) and o.holds(want) is (o.ret is TRUE):
        rep.ok(key, w, "true exactly for an empty list")
        return
    (rep.und if vague(o.ret) else rep.bad)(key, w, "returns " + show(o.ret, 4)[:120])


def get(rep, key, w, o, E):
    n = o.variant()
    inside = o.holds(lt(A2, length(E)))
    if n == "Some":
        rep.exact(key, w, o.payload("Some"), idx(E, A2), "version at the position")
        if o.arg(1) is not S:
            rep.bad(key + "/unchanged", w, "changes the history")
    elif n == "None":
        rep.judge(key + "/absent", w, True if inside is False else (None if vague_facts(o) else False),
                  "nothing only beyond the end", "an existing version may be reported as absent")
    else:
        rep.und(key, w, "outcome not understood")


def vague_facts(o):
    return any(vague(k) for k, v in o.facts())


def remove(rep, w, o, L, E, fields):
    st = o.arg(1)
    r = o.ret
    if o.eng.variant_of(o.st, o.v) in ("Some", "None"):
        if o.variant() == "None":
            return
        r = o.payload("Some")
    rep.exact("remove/returned", w, r, idx(E, A2), "the removed version is returned")
    rep.exact("remove/list", w, field(st, L), T("removeat", E, A2), "only that version is gone")
    for f in same_rest(st, fields, (L,)):
        rep.bad("remove/other", w, "also changes " + f)


def listing(rep, key, w, o, L):
    r = o.ret
    if r.op == "iter" and r.args[0] is T("srefs", ("A", "arg1"), (("f", L),)) and r.args[1] in (0, I(0)):
        rep.ok(key, w, "all versions in recorded order")
    else:
        (rep.und if vague(o.ret, ()) or o.ret.op not in ("iter", "rev", "skip") else rep.bad)(key, w, "lists " + show(o.ret, 5)[:160])


def new_version(an, rep, ef, L, H):
    run = an.run(an.p.one("Entry", "new_version"))
    w = loc(run.root)
    if run.incomplete:
        rep.und("new_version", w, run.incomplete)
        return
    E = field(field(S, H), L)
    for o in run.outs:
        rep.count("outcomes")
        st = o.arg(1)
        for f in same_rest(st, ef, (H,)):
            v = field(st, f)
            (rep.und if vague(v) else rep.bad)("new_version/entry", w, "the entry's %s becomes %s" % (f, show(v, 4)[:120]))
        got = field(field(st, H), L)
        ps, base = list(parts(got)), list(parts(E))
        if ps[:len(base)] != base or len(ps) != len(base) + 1 or ps[-1].op != "one":
            (rep.und if vague(got) else rep.bad)("new_version/appended", w, "the history becomes " + show(got, 6)[:300])
            continue
        rep.ok("new_version/appended", w, "one version is appended after the earlier ones")
        x = ps[-1].args[0]
        for f in ef:
            if f == H:
                rep.exact("new_version/copy/" + f, w, field(field(x, H), L), EMPTY, "the copy has no history of its own")
            else:
                rep.exact("new_version/copy/" + f, w, field(x, f), field(S, f), "the copy's " + f)
        if not same_rest(st, ef, (H,)):
            rep.ok("new_version/entry", w, "the entry itself is unchanged")
