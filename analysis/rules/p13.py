import re

from stages import *
from terms import lin_of
import xmlmap

RULE = ("every back edge of every loop and every recursive call on the reading side must carry a measure that decreases: an "
        "index below a fixed bound, a positive number of bytes taken from the source, or an XML event other than the end of the "
        "document; an XML loop that does not stop at the end of the document must stop at the end tag of the element it was "
        "entered in, and reading after the end must not deliver further data")

def check(an, rep, tier):
    needs = {}
    runs, calls = reading_runs(an)
    for r, run in runs:
        rep.count("entry_points")
        if run.incomplete:
            rep.und("termination:" + r["path"], loc(r), run.incomplete)
            continue
        for L, info in sorted(run.eng.loops.items()):
            rep.count("loops")
            loop(an, rep, run, info, needs)
    recursion(an, rep, calls, needs)
    for ty, r in an.p.impls_of("std::io::Read", "read"):
        ends(an, rep, last(ty), r)
    rep.assumption("a source delivers finitely many bytes; xml-rs consumes its source, reports every end tag before the end of the "
                   "document, matches end tags with start tags and repeats its last event or error afterwards")


# ------------------------------------------------------------------ loops

def loop(an, rep, run, info, needs):
    eng, W = run.eng, info["W"]
    name = info["fn"]
    key = "loop:" + name
    where = span_of(an, run, info)
    early = ahead(info)
    xml = early[0] if early else xml_var(info)
    open_edges = []
    for b, st in enumerate(info["back"]):
        rep.count("back_edges")
        step = {x: vs[b] for x, (i, vs) in info["steps"].items()}
        fs = {k: v for k, v in st.facts.items() if isinstance(k, Term) and W.facts.get(k) is not v}
        if final(info, step):
            rep.ok(key, where, "the pass is the last one")
            continue
        if failing_read(fs) and any(interrupted(k) for k in fs):
            rep.ok(key, where, "an interrupted call is repeated")
            continue
        ret = retried(fs)
        if ret is not None:
            rep.bad(key, where, "the loop continues after %s failed; a source that keeps failing is asked for ever"
                    % show(ret, 4)[:120])
            continue
        if counted(eng, st, info, step, fs):
            rep.ok(key, where, "bounded by an index")
            continue
        if consumed(eng, st, info, step):
            rep.ok(key, where, "every pass consumes input")
            continue
        if xml is not None:
            us = walk(eng, step[xml], xml)
            if us is None:
                rep.und(key, where, "position of the XML reader after a pass: %s" % show(step[xml], 4)[:160])
                continue
            if any(not_end(fs, u) for u in us) or early and not_end(fs, None, early[1]):
                rep.ok(key, where, "every pass consumes an event other than the end of the document")
                continue
            if us:
                open_edges.append((st, us, fs))
                continue
        why = idle(eng, st, info, step, fs)
        if why is None:
            rep.und(key, where, "no measure found for a pass of the loop")
        else:
            rep.bad(key, where, why)
    if open_edges:
        waiting(an, rep, run, info, xml, key, where, needs, early)


def final(info, step):
    """After this pass no further pass is possible."""
    m = {x: y for x, y in step.items() if y is not None and y is not x}
    if not m or not any(y.op in ("bool", "int", "adt") for y in m.values()):
        return False
    for st in info["back"]:
        dead = False
        for k, v in st.facts.items():
            if isinstance(k, Term) and info["W"].facts.get(k) is not v and subst(k, m) is B(not v):
                dead = True
                break
        if not dead:
            return False
    return True


def span_of(an, run, info):
    for r in an.p.roots:
        if r["path"] == info["fn"]:
            return loc(r)
    return info["fn"]


def retried(fs):
    """A fallible step that failed on this pass and leads to another one."""
    return None if any(interrupted(x) for x in fs) else failing_read(fs)


def failing_read(fs):
    for k, v in fs.items():
        if k.op == "isv" and k.args[0].op == "fall" and k.args[0].args[0] in ("xnext", "read", "read_exact", "read_all"):
            good = v if k.args[1] in ("Ok", "Some") else (not v if k.args[1] in ("Err", "None") else None)
            if good is False:
                return k.args[0]
    return None


def interrupted(k):
    return "Interrupted" in show(k, 8) or "kind" in show(k, 8)


def indices(info, fs, step):
    out = set()
    for t in list(fs) + [v for v in step.values() if v is not None]:
        for x in subterms(t):
            if x.op == "ix":
                out.add(x)
    return out


def counted(eng, st, info, step, fs):
    # an iterator over something finite
    for k, v in fs.items():
        if k.op == "lt" and v and not contains(k.args[1], lambda x: x.op == "inf") and any(
                x.op == "ix" and n > 0 and inner(eng, info, x) is False for x, n in lin_of(k.args[0])[1].items()):
            return True
    li = xmlmap.list_ix(info)
    if li and not contains(li[1], lambda x: x.op == "inf"):
        return True
    for x in indices(info, fs, step):
        src = x.args[0]
        if src.op in ("skip", "filter", "stepby", "takewhile", "skipwhile", "map", "enumerate", "chain", "rev", "zip", "filtermap",
                      "chars", "bytes", "split", "chunks") \
                and not contains(src, lambda y: y.op in ("inf", "irepeat")) and not inner(eng, info, x):
            return True
    # a variable that moves towards a bound
    for k, v in fs.items():
        for x, y in step.items():
            if y is None or not mentions(k, x) or k.op not in ("lt", "eq"):
                continue
            d = sub(y, x)
            if contains(d, lambda z: z is x) and not pos(eng, st, d):
                pass
            if k.op == "lt" and v and k.args[0] is x and steady(info, step, k.args[1], x) and pos(eng, st, d):
                return True
            if k.op == "lt" and v and k.args[1] is x and steady(info, step, k.args[0], x) and pos(eng, st, sub(x, y)):
                return True
            if k.op == "lt" and not v and k.args[0] is x and steady(info, step, k.args[1], x) and pos(eng, st, sub(x, y)):
                return True
            if k.op == "eq" and not v and k.args[0] is x and k.args[1] is I(0) and sub(x, y) is I(1):
                return True
            if k.op == "eq" and not v and k.args[1] is x and k.args[0] is I(0) and sub(x, y) is I(1):
                return True
    return False


def inner(eng, info, ix):
    """The index belongs to a loop inside this one."""
    for j in eng.loops.values():
        if (j["fn"], j["header"]) != (info["fn"], info["header"]):
            li = xmlmap.list_ix(j)
            if li and li[0] is ix:
                return True
    return False


def steady(info, step, bound, x):
    """The bound does not change in the loop (the length of a buffer overwritten in place counts as fixed)."""
    for y, w in step.items():
        if y is x or w is y or not mentions(bound, y):
            continue
        if w is None:
            return False
        if bound.op == "len" and bound.args[0] is y and same_len(w, y):
            continue
        return False
    return not mentions(bound, x)


def same_len(w, y):
    while w.op in ("splice", "upd") and w is not y:
        w = w.args[0]
    return w is y


def pos(eng, st, n):
    """The amount is at least one."""
    if n.op == "int":
        return n.args[0] >= 1
    if st.facts.get(eq(n, I(0))) is False or st.facts.get(tm_lt(I(0), n)) is True:
        return True
    try:
        if eng.prove_ge(st, sub(n, I(1))):
            return True
    except Exception:
        pass
    c, ts = lin_of(n)
    if c >= 1 and all(k > 0 for k in ts.values()):
        return True
    return c >= 0 and all(k > 0 for k in ts.values()) and any(
        st.facts.get(eq(t, I(0))) is False or st.facts.get(tm_lt(I(0), t)) is True for t in ts)


def tm_lt(a, b):
    return T("lt", a, b)


def consumed(eng, st, info, step):
    """Some source or slice has become shorter."""
    for x, y in step.items():
        if y is None or y is x:
            continue
        n = I(0)
        z = y
        good = False
        while z is not x and z.op == "drop":
            n = add(n, z.args[1])
            z = z.args[0]
        if z is not x:
            z2 = back_to(eng, z, x)
            good = z2 and n is not I(0)
        if (z is x or good) and pos(eng, st, n):
            return True
        if y.op in ("rest", "removeat", "sub") and y.args[0] is x:
            if y.op != "sub":
                return True
    return False


def back_to(eng, z, x, n=12):
    """The position z was reached from x by reading only."""
    while n:
        n -= 1
        if z is x:
            return True
        if z.op == "drop":
            z = z.args[0]
        elif z.op == "loopv":
            j = [i for i in eng.loops.values() if z in i["steps"]]
            if not j or j[0]["steps"][z][0] is None:
                return False
            z = j[0]["steps"][z][0]
        elif z.op == "after":
            c = z.args[2]
            z = c.args[2 + z.args[1]]
        else:
            return False
    return False


def idle(eng, st, info, step, fs):
    """Text when a pass certainly makes no progress, None when that is not known."""
    ch = {x: y for x, y in step.items() if y is not x}
    if any(y is None for y in ch.values()):
        return None
    if eng.caps:
        return None
    if not ch:
        if indices(info, fs, step) or any(k.op in ("exists", "first") for k in fs):
            return None
        return "a pass of the loop changes nothing, so the loop never ends once it is taken"
    if not indices(info, fs, step) and not any(contains(y, lambda z: z.op in ("loopv", "after", "call", "phi", "unk", "nread"))
                                               for y in ch.values()):
        # the values set no longer depend on the pass: does the same pass follow again?
        if all(subst(k, ch) is (k if not any(mentions(k, x) for x in ch) else B(v)) for k, v in fs.items()):
            return "a pass of the loop leads to the same pass again without consuming anything"
    reads = {}
    for x, y in ch.items():
        n, z = I(0), y
        while z is not x and z.op == "drop":
            n, z = add(n, z.args[1]), z.args[0]
        if z is x and n.op == "nread":
            reads[x] = n
    if reads and not indices(info, fs, step):
        x, n = sorted(reads.items(), key=lambda t: t[0].id)[0]
        # everything else that changes only collects what was read
        other = [y for v, y in ch.items() if v is not x and not (contains(y, lambda z: z is n) or contains(y, lambda z: z.op == "take"))]
        if not other:
            return "a read that returns no bytes leads to another pass: the loop does not end at the end of the stream"
    if any(contains(k, lambda z: z.op == "inf") or contains(k, lambda z: z.op == "irepeat") for k in fs):
        return "the loop counts without a bound"
    return None


# ------------------------------------------------------------------ XML

def xml_var(info):
    """The loop variable whose events the loop looks at."""
    for x in info["steps"]:
        for st in info["back"] + [s for t, s in info["exits"]]:
            if any(isinstance(k, Term) and contains(k, lambda z: z is ev(x)) for k in st.facts):
                return x
    return None


def ahead(info):
    """(position, event looked at, where the loop was entered) of a loop that reads the next event at the end of a pass."""
    for x, (i, vs) in info["steps"].items():
        if i is None or i.op != "xadv" or any(y is None or y.op != "xadv" for y in vs):
            continue
        for e, (j, ws) in info["steps"].items():
            if j is ev(i.args[0]) and all(w is ev(y.args[0]) for y, w in zip(vs, ws)):
                return x, e, i.args[0]
    return None


def walk(eng, y, x, n=60):
    """Positions whose event was consumed on the way from x to y."""
    out = []
    while n:
        n -= 1
        if y is x:
            return out
        if y.op == "xadv":
            y = y.args[0]
            out.append(y)
        elif y.op == "loopv":
            j = [i for i in eng.loops.values() if y in i["steps"]]
            if not j or j[0]["steps"][y][0] is None:
                return None
            y = j[0]["steps"][y][0]
        elif y.op == "after" and y.args[2].op == "call":
            y = y.args[2].args[2 + y.args[1]]
        else:
            return None
    return None


def ev(u):
    return T("xev", u)


def not_end(fs, u, e=None):
    for k, v in fs.items():
        if k.op == "isv" and k.args[0] is (e or ev(u)):
            if v and k.args[1] != "EndDocument":
                return True
            if not v and k.args[1] == "EndDocument":
                return True
    return False


def waiting(an, rep, run, info, xml, key, where, needs, early=None):
    """A loop that runs on at the end of the document must stop at the end tag of the element around it."""
    eng = run.eng
    seen = early[1] if early else ev(xml)
    names = None
    unsure = None
    for b, st in enumerate(info["back"]):
        fs = {k: v for k, v in st.facts.items() if isinstance(k, Term) and info["W"].facts.get(k) is not v}
        if final(info, {x: vs[b] for x, (i, vs) in info["steps"].items()}):
            continue
        if any(k.op == "isv" and k.args[0] is seen and ((v and k.args[1] != "EndElement") or
                                                          (not v and k.args[1] == "EndElement")) for k, v in fs.items()):
            continue
        nm = field(field(variant(seen, "EndElement"), "name"), "local_name")
        no = set()
        for k, v in fs.items():
            if k.op == "eq" and not v:
                for s, t in (k.args, k.args[::-1]):
                    if s is nm:
                        no.add(t)
            elif mentions(k, seen) and k.op not in ("isv",) and not (k.op == "eq" and nm in k.args):
                unsure = k
        names = no if names is None else names & no
    if names is not None and not names:
        if unsure is not None or eng.caps:
            rep.und(key, where, "which end tag ends the loop is not understood: %s" % (show(unsure, 5)[:160] if unsure is not None else ""))
        else:
            rep.bad(key, where, "the loop runs on at the end of the document and at every end tag: a document that ends first "
                    "is waited on for ever")
        return
    # where the loop starts
    init = early[2] if early else info["steps"][xml][0]
    where_in = entered(eng, info, init, names)
    if where_in is True:
        rep.ok(key, where, "ends at the end tag of the element it is entered in")
    elif isinstance(where_in, tuple):
        needs.setdefault(run.root["path"], []).append((where_in[1], names, key, where))
        rep.ok(key, where, "ends at the end tag of the element it is entered in (checked at the callers)")
    elif isinstance(where_in, str) and not eng.caps:
        rep.bad(key, where, where_in)
    else:
        rep.und(key, where, "the element the loop is entered in is not known")


def entered(eng, info, init, names, facts=None):
    fs = facts if facts is not None else info["W"].facts
    if init is None:
        return None
    wants = "any end tag" if names is None else "</" + "|".join(sorted(show(t, 3) for t in names)) + ">"
    if init.op == "sym" and re.match(r"arg\d+$", init.args[0]):
        return ("arg", int(init.args[0][3:]))
    if init.op == "xr":
        return "the loop waits for %s from the start of the document and runs on at its end" % wants
    if init.op == "xadv":
        u = init.args[0]
        if fs.get(T("isv", ev(u), "StartElement")) is True:
            if names is None:
                return True
            nm = field(field(variant(ev(u), "StartElement"), "name"), "local_name")
            got = [t for k, v in fs.items() if isinstance(k, Term) and v is True and k.op == "eq" and nm in k.args
                   for t in k.args if t is not nm]
            if nm in names or any(t in names for t in got):
                return True
            if got and all(t.op == "str" for t in got) and all(t.op == "str" for t in names):
                return "inside <%s> the loop waits for %s" % (got[0].args[0], wants)
            if not any(isinstance(k, Term) and mentions(k, nm) and (k.op != "eq") for k in fs):
                return "inside an element of any name the loop waits for %s" % wants
            return None
        if any(isinstance(k, Term) and v is True and k.op == "isv" and k.args[0] is ev(u) and k.args[1] == "EndElement"
               for k, v in fs.items()):
            return "the loop is entered after the end tag it waits for (%s) has been read" % wants
        if any(isinstance(k, Term) and v is True and k.op == "isv" and k.args[0] is ev(u) for k, v in fs.items()):
            return None
        return None
    return None


# ------------------------------------------------------------------ recursion

def recursion(an, rep, calls, needs):
    p = an.p
    rec = {}
    for r, run, e, q in calls:
        rec.setdefault(r["path"], set()).add(q["path"])

    def reach(a, b):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for y in rec.get(x, ()):
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return False
    for r, run, e, q in calls:
        rep.count("recursive_calls")
        key = "call:%s->%s" % (r["path"], q["path"])
        where = loc(e) if hasattr(e, "span") and isinstance(e, dict) else (e.span or loc(r))
        fn = p.fns[q["key"]]
        doc = [i for i in range(1, fn["argc"] + 1) if "EventReader" in fn["locals"][i][0]]
        if not reach(q["path"], r["path"]):
            rep.ok(key, where, "not recursive")
        elif doc:
            a = eng_arg(e, doc[0])
            us = [] if a is None else chain_events(run.eng, a)
            if any(not_end(facts_of(e), u) for u in us):
                rep.ok(key, where, "an event is consumed before the recursive call")
            elif a is not None and a.op == "sym":
                rep.bad(key, where, "the recursive call starts at the same place of the document as the caller")
            else:
                rep.und(key, where, "progress before the recursive call is not known: %s" % show(a, 5)[:160])
        else:
            args = [x for x in e.args if isinstance(x, Term)]
            if args and all(x.op == "sym" for x in args):
                rep.bad(key, where, "the function calls itself with the arguments it was given")
            elif args and any(x.op in ("f", "vf", "idx") or x.op == "drop" for x in args):
                rep.ok(key, where, "called on a part of its argument")
            else:
                rep.und(key, where, "progress before the recursive call is not known")
        for i, names, k, w in needs.get(q["path"], ()):
            a = eng_arg(e, i)
            res = entered(run.eng, None, a, names, facts_of(e))
            if res is True:
                rep.ok(k, where, "entered inside the element it waits for")
            elif isinstance(res, tuple) and r["path"] == q["path"]:
                rep.und(k, where, "position at the call is not known")
            elif isinstance(res, str) and not run.eng.caps:
                rep.bad(k, where, "%s calls %s where %s" % (r["path"], q["path"], res))
            else:
                rep.und(k, where, "the element around the call of %s is not known" % q["path"])


def facts_of(e):
    return {k: v for k, v in dict(e.facts).items() if isinstance(k, Term)}


def eng_arg(e, i):
    return e.args[i - 1] if len(e.args) >= i else None


def chain_events(eng, y, n=60):
    out = []
    while n and y is not None:
        n -= 1
        if y.op == "xadv":
            y = y.args[0]
            out.append(y)
        elif y.op == "loopv":
            j = [i for i in eng.loops.values() if y in i["steps"]]
            y = j[0]["steps"][y][0] if j else None
        elif y.op == "after" and y.args[2].op == "call":
            y = y.args[2].args[2 + y.args[1]]
        else:
            break
    return out


# ------------------------------------------------------------------ stages

def ends(an, rep, name, r):
    """A read that returns bytes has taken them from somewhere."""
    run = an.run(r)
    key = "read:" + name
    if run.incomplete:
        rep.und(key, loc(r), run.incomplete)
        return
    for o in run.outs:
        if not o.is_ok():
            continue
        n = o.payload("Ok")
        if is_sym(o.arg(1), "arg1") and n is not I(0) and o.holds(eq(n, I(0))) is not True:
            if vague(n) is None and not contains(n, lambda x: x.op in ("nread", "fall", "call")) and n.op != "phi":
                rep.bad(key, loc(r), "%s bytes are returned without any change of state: the stream never ends" % show(n, 5)[:100])
            else:
                rep.ok(key, loc(r), "bytes come from the source")
        else:
            rep.ok(key, loc(r), "bytes returned are taken from the stage")
