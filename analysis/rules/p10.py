from stages import *
from rules.p08 import untested

RULE = ("every result of a fallible step (library call or function analysed on its own) is carried along each path; an outcome "
        "that reports success must have seen every such result to be Ok; the count of a partial read or write must be looked at; "
        "decoding must not use a lossy conversion")

LOSSY = ("from_utf8_lossy", "to_string_lossy", "from_utf16_lossy", "from_utf8_lossy_owned")


def roots(an):
    p = an.p
    opq = opaque_keys(p) | {fn_path(p, "parse_xml"), fn_path(p, "write_xml")}
    closers = {c["path"] for w in writers(an).values() for c in w.closers}
    out = []
    for r in p.roots:
        ret = (r.get("sig") or "").split("->")[-1].strip()
        if r.get("derived") or not re.match(r"(std::result::Result|std::io::Result)<", ret) or "src/bin/" in (r.get("span") or ""):
            continue
        if r["pub"] or r["path"] in closers or r["path"] in opq or re.search(r" as std::io::(Read|Write)>", r["path"]):
            out.append(r)
    return out, opq


def check(an, rep, tier):
    p = an.p
    todo, opq = roots(an)
    if not todo:
        raise Missing("public operations returning a Result")
    by = {}
    for r in p.roots:
        by.setdefault(r["path"], r)
    done = set()
    while todo:
        r = todo.pop(0)
        if r["key"] in done:
            continue
        done.add(r["key"])
        run = an.run(r, accel=False, loop_in=600, opaque=frozenset(opq - {r["path"]}))
        rep.count("operations")
        key = "result:" + r["path"]
        if run.incomplete:
            rep.und(key, loc(r), run.incomplete)
        else:
            outcome(rep, r, run, key)
        for e in run.eng.events:
            if e.kind in ("call", "callfn") and e.name in by:
                todo.append(by[e.name])
            if e.kind == "call":
                rep.count("calls_seen")
            if e.kind in ("call", "lossy"):
                if e.name.split("::")[-1] in LOSSY and not (e.args and all(x.op == "str" for x in e.args)):
                    rep.bad("lossy:" + (e.fn or ""), e.span, "%s replaces what cannot be decoded instead of reporting it" % e.name)
    rep.assumption("a Result is the way the libraries used report failure; a function returning an Option is an optional accessor, "
                   "its callers are checked on the failure behind it")


def outcome(rep, r, run, key):
    ret = (r.get("sig") or "").split("->")[-1]
    for o in run.outs:
        if o.variant() in ("Err", "None"):
            continue
        if not re.match(r"\s*(std::result::Result|std::io::Result)<", ret):
            # recursive helper with another type of result: its failures must not be dropped either
            if not untested(o):
                rep.ok(key, loc(r), "no failure dropped")
            continue
        rep.count("success_outcomes")
        u = [t for t in untested(o, True) if not excused(run, t)]
        if o.variant() is None and u and any(contains(o.ret, lambda x, t=t: x is t) for t in u):
            u = []
        if u:
            t = u[0]
            how = "was not looked at" if t in o.st.pending else "failed"
            rep.bad(key, loc(r), "reports success although %s %s" % (name(t), how))
        else:
            rep.ok(key, loc(r), "every fallible step of a success outcome was seen to succeed")
        partial(rep, r, o)


def name(t):
    if t.op == "earlier":
        t = t.args[0]
    if t.op == "fall":
        return "%s(%s)" % (t.args[0], ", ".join(show(x, 3)[:60] for x in t.args[2:4] if isinstance(x, Term)))
    if t.op == "refused":
        return "the check in %s" % t.args[0]
    return show(t, 3)[:140]


def excused(run, t):
    """A step that is tried again when it was only interrupted."""
    return t.op == "fall" and t.args[0] in ("read", "read_exact", "write", "write_all") and any(
        t in st.failed and any(isinstance(k, Term) and "Interrupted" in show(k, 8) for k in st.facts)
        for info in run.eng.loops.values() for st in info["back"])


def partial(rep, r, o):
    """The number of bytes moved by a partial read or write is compared or returned."""
    seen = [k.args[0] for k, v in o.facts() if v is True and k.op == "isv" and k.args[1] == "Ok" and k.args[0].op == "fall"
            and k.args[0].args[0] in ("read", "write")]
    for f in seen:
        n = f.args[1]
        if n.op == "int":
            continue
        used = any(k.op != "isv" and not (k.op == "lt" and k.args[1] is n and v is False) and counted(k, n) for k, v in o.facts()) \
            or counted(o.ret, n) or any(counted(v, n) for v in kept(o))
        rep.judge("count:" + r["path"], loc(r), True if used else (False if not o.eng.caps else None),
                  "the count of a partial %s is used" % f.args[0],
                  "%s may move fewer bytes than asked for, and its count is not used" % name(f))


def counted(t, n):
    """Does the number n matter in t, other than as the extent of what was moved?"""
    if t is n:
        return True
    if t.op == "splice" and t.args[2] is n or t.op in ("drop", "rest", "written"):
        return False
    return any(counted(x, n) for x in children(t))


def kept(o):
    """What the arguments hold afterwards in their number fields."""
    out = []
    for i in range(1, 4):
        try:
            a = o.arg(i)
        except Exception:
            continue
        for x in subterms(a) if a is not None else ():
            if x.op == "with":
                out += [v for k, v in x.args[1] if v.op in ("lin", "nread", "nwrite", "trunc")]
    return out
