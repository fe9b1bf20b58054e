"""Orderings of fields that every constructor of a type establishes and every method keeps."""
from stages import *


def inductive(an, ty, cand, term, **opts):
    """The candidates x for which term(value, x) = (condition, truth) is an invariant of the type."""
    p = an.p
    methods = [r for r in p.roots if base_ty(r.get("selfty") or "") == ty and re.match(r"fn\(&('\w+ )?mut ", r.get("sig") or "fn(&mut ")
               and (" as " in r["path"] or not inside(p, r, ty))]
    ctors = builders(p, ty)
    while cand:
        n = len(cand)
        for c in ctors:
            run = an.run(c, **opts)
            cand = [] if run.incomplete else [x for x in cand if all(
                holds(o, v, x, term) for o in run.outs for v in instances(o, ty))]
        for m in methods:
            if not cand:
                break
            run = an.run(m, given=tuple(term(S, x) for x in cand), **opts)
            cand = [] if run.incomplete else [x for x in cand if all(holds(o, o.arg(1), x, term) for o in run.outs)]
        if len(cand) == n:
            break
    return cand


def holds(o, v, c, term):
    t, want = term(v, c)
    return o.eng.ev(o.st, t) is want


def fields_of(an, ty):
    a = an.p.adts.get(ty)
    return [(f[0], f[1]) for f in a["variants"][0]["fields"]] if a else []


def instances(o, ty):
    out = []
    for t in [o.ret] + list(o.st.mem.values()):
        out += [x for x in subterms(t) if x.op == "adt" and x.args[0] == ty]
    return out


def builders(p, ty):
    """Functions with an expression making a value of the type."""
    keys = set()
    for k, f in p.fns.items():
        if f["local"] and any(s[0] == "=" and s[2][0] == "adt" and s[2][1] == ty for b in f["blocks"] if b for s in b[0]):
            keys.add(f["path"])
    return [r for r in p.roots if r["path"] in keys]


def inside(p, r, ty):
    """Only called by other methods of the type."""
    callers = [q for q in p.roots if q["key"] != r["key"] and r["path"] in {p.fns[k]["path"] for k in p.callees(q["key"])}]
    return bool(callers) and all(base_ty(q.get("selfty") or "") == ty for q in callers)
