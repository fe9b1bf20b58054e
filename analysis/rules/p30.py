from rules.p11 import *
from rules import p11

RULE = ("every construct that can stop the program reached from saving an archive, setting its key or changing a database has its "
        "condition proved from the path taken to it, from the ways the receiver is made, or from a field invariant proved "
        "inductive over its type")

# these stop the program by contract on an index the caller chose
BY_CONTRACT = {("History", "index"), ("History", "index_mut"), ("History", "remove")}


def check(an, rep, tier):
    p = an.p
    made = makers(an, reading_runs(an)[0])
    made = {ty: vs for ty, vs in made.items() if "Unlocked" not in ty}      # also made from a database, and changed later
    for ty, vs in list(made.items()):
        m = re.match(r"binary::kdbx::Kdbx<(.*)>$", ty)
        if m:
            made.setdefault(m.group(1), []).extend((o, field(v, "state")) for o, v in vs)
    opq = frozenset(opaque_keys(p) | {fn_path(p, "parse_xml"), fn_path(p, "write_xml")})
    todo = [(p.one("Unlocked", "write", "KdbxState"), {"opaque": opq}), (p.one("Locked", "write", "KdbxState"), {}),
            (p.one(None, "write_xml"), {}), (p.one("Kdbx<Unlocked>", "set_key"), {"opaque": opq})]
    by, done = {}, set()
    kinds = {last(x) for x in ACCESSORS}
    for r in p.roots:
        by.setdefault(r["path"], r)
        t = p.fns[r["key"]]["locals"][1][0] if p.fns[r["key"]]["argc"] else ""
        ty = last(r.get("selfty") or "")
        if r["pub"] and not r.get("derived") and re.match(r"&('\w+ )?mut ", t) and ty in kinds and (ty, r["name"]) not in BY_CONTRACT:
            todo.append((r, {"opaque": opq}))
        elif r["pub"] and not r.get("derived") and ty in kinds and not re.match(r"&", t) and ty != "Kdbx":
            todo.append((r, {"opaque": opq}))       # constructors
    todo += [(by[x], {}) for x in sorted(opaque_keys(p)) if x in by]
    while todo:
        r, kw = todo.pop(0)
        if r["key"] in done:
            continue
        done.add(r["key"])
        run = an.run(r, accel=False, loop_in=600, **kw)
        judge(an, rep, r, run, made)
        for e in run.eng.events:
            if e.kind in ("call", "callfn") and e.name in by and e.name not in opq:
                todo.append((by[e.name], {}))
    rep.assumption("library functions panic only where analysis/models.py or the list in rules/p11.py says so")
    rep.assumption("positions in the buffers of the writing stages are those P08 establishes")
    rep.assumption("a 64-bit counter raised by a constant does not reach its limit; the stack is large enough for the nesting of groups")


def judge(an, rep, r, run, made):
    rep.count("operations")
    if run.incomplete:
        rep.und("run:" + r["path"], loc(r), run.incomplete)
        return
    for e in run.eng.events:
        if not (e.kind in ("diverge", "overflow") or e.kind == "assert" and e.name != "other"
                or e.kind == "call" and (e.name in PANICS or e.name in OPERATORS)):
            continue
        rep.count("sites")
        fn, span = p11.place(an, e)
        res, why = decide(an, r, run, e, made)
        if res is False and e.kind == "assert" and contains(e.data, lambda x: x.op == "loopv"):
            res = None         # a list that changes while it is walked
        if res is None and descending(run, e):
            res, why = True, "positions of the list, removed from the last to the first"
        rep.judge("panic:%s:%s" % (fn, kind(e)), span, res, why, why)
    rep.ok("panic:" + r["path"], loc(r), "every way to stop is excluded")


def descending(run, e):
    """The bound of removing from a list, in falling order, positions that were found in it."""
    c = e.data if e.kind == "assert" else None
    if c is None or c.op != "lt" or c.args[0].op != "idx" or c.args[1].op != "len":
        return False
    xs, now = c.args[0].args[0], c.args[1].args[0]
    info = run.eng.loops.get(now.args[0]) if now.op == "loopv" else None
    st = info["steps"].get(now) if info else None
    if not st or xs.op not in ("reverse", "rev"):
        return False
    xs = xs.args[0]
    xs = xs.args[1] if xs.op == "sorted" and xs.args[0] == "asc" else xs
    src = xs.args[0] if xs.op == "comp" else None
    if src is None or src.op not in ("filter_map", "filter") or src.args[0].op != "enumerate":
        return False
    src = src.args[0].args[0]
    return src.op == "srefs" and st[0] is not None and st[0].op == "f" and str(st[0].args[1]) == str(src.args[1][-1][1]) \
        and all(x is not None and (x is now or x.op == "removeat" and x.args[0] is now and x.args[1] is c.args[0]) for x in st[1])
