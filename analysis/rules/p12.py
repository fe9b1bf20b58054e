from stages import *
from terms import lin_of

RULE = ("every call on the reading side that reserves memory for a number of elements (capacity, resize, repeat, a collected "
        "count) is found with the term of that number; the term must be a small constant, the length of data already in memory, "
        "or a number of bytes that a successful read delivered before, never a number decoded from the file alone")

SMALL = 1 << 20


class At:
    def __init__(self, facts):
        self.facts = facts


def check(an, rep, tier):
    runs, calls = reading_runs(an)
    prefixed = 0
    for r, run in runs:
        rep.count("entry_points")
        if run.incomplete:
            rep.und("allocations:" + r["path"], loc(r), run.incomplete)
        for e in run.eng.events:
            if e.kind == "alloc":
                rep.count("allocation_sites")
                for n in e.args:
                    site(rep, run, e, n)
            elif e.kind == "read_all" and e.args and e.args[0].op == "limit" and from_file(e.args[0].args[1]):
                prefixed += 1
                rep.ok("prefixed:" + e.fn, e.span, "a length-prefixed read grows its buffer with the data that arrives")
            elif e.kind == "read":
                rep.ok("read:" + e.fn, e.span, "a read fills memory reserved before")
    lengths = {x for r, run in runs for e in run.eng.events for t in e.args if isinstance(t, Term) for x in subterms(t)
               if x.op == "unle" and x.args[0] >= 2}
    rep.count("length_prefixed_reads", prefixed)
    if not lengths:
        raise Missing("length fields decoded from the file")
    rep.assumption("read_to_end on a limited source grows its buffer with the data that arrives (standard library); the XML and gzip "
                   "libraries hold data in proportion to what they decode; the Argon2 memory cost is a cost setting, not a length")


def site(rep, run, e, n):
    key = "alloc:%s:%s" % (e.fn, e.name.split("::")[-1])
    r = bounded(run, e.facts, n)
    if r is True:
        rep.ok(key, e.span, "reserves %s" % show(n, 5)[:80])
    elif r is False:
        rep.bad(key, e.span, "reserves memory for %s elements, a number taken from the file before that much data was read"
                % show(n, 6)[:160])
    else:
        rep.und(key, e.span, "number of elements %s" % show(n, 6)[:160])


def from_file(t):
    return contains(t, lambda x: (x.op == "unle" and x.args[0] >= 4) or x.op == "parsed")


def bounded(run, facts, n):
    """True: bounded by data present, False: certainly not, None: not known."""
    if n.op == "int":
        return n.args[0] <= SMALL
    if n.op == "min":
        rs = [bounded(run, facts, x) for x in n.args]
        return True if True in rs else (False if all(x is False for x in rs) else None)
    if n.op == "phi" or n.op == "ite":
        rs = [bounded(run, facts, x) for x in n.args if isinstance(x, Term) and x.op != "bool"]
        return False if False in rs else (True if all(rs) else None)
    if run.eng.prove_ge(At(facts), sub(I(SMALL), n)):
        return True
    c, ks = lin_of(n)
    res = True
    for a, k in ks.items():
        if k < 0:
            continue
        r = atom(run, facts, a)
        if r is False:
            return False
        if r is None:
            res = None
    return res


def atom(run, facts, a):
    if a.op in ("min", "phi", "ite"):
        return bounded(run, facts, a)
    while a.op == "trunc" and a.args[0] in ("usize", "u64", "u32"):
        if delivered(run, facts, a):
            return True
        a = a.args[1]
    if a.op in ("len", "nread", "cnt"):
        return True
    if delivered(run, facts, a) or run.eng.prove_ge(At(facts), sub(I(SMALL), a)):
        return True
    if a.op == "unle" and a.args[0] <= 2:
        return True
    if a.op == "idx" or (a.op == "trunc" and a.args[0] in ("u8", "u16")):
        return True
    if a.op == "mul":
        rs = [bounded(run, facts, x) for x in a.args]
        return False if False in rs else (True if all(rs) else None)
    if a.op == "trunc":
        return atom(run, facts, a.args[1])
    if a.op in ("unle", "parsed"):
        return False
    if from_file(a) and vague(a) is None:
        return False
    return None


def delivered(run, facts, a):
    """A successful read returned that many bytes."""
    for k, v in facts.items():
        if not isinstance(k, Term):
            continue
        if v is True and k.op == "isv" and k.args[1] == "Ok" and k.args[0].op == "fall" \
                and k.args[0].args[0] in ("read_exact", "read") and len(k.args[0].args) > 3:
            c, ks = lin_of(k.args[0].args[3])
            if ks.get(a, 0) >= 1 and all(x > 0 for x in ks.values()):
                return True
        if k.op == "lt" and v is False and k.args[0].op == "len" and k.args[1] is a:
            return True
    return False
