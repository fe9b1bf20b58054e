"""Shared parts of the checks: program lookup, cached analyses, reporting."""
import json
import os
import re
import sys
import time

import mir
from terms import *
import terms as tm
from engine import Engine, Program, Incomplete, State, base_ty

sys.setrecursionlimit(40000)

VERIF = mir.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(mir.VERIF, "evidence"))


class Missing(Exception):
    """An anchor of the property is not in the program."""


def last(path):
    """Last segment of a type path without generics: `a::B<C>` -> `B`."""
    return base_ty(path or "").split("::")[-1]


def loc(rec):
    s = rec.get("span") or ""
    return s if isinstance(s, str) else str(s)


class Prog(Program):
    """Lookup by type, trait and method name, independent of module paths."""

    def find(self, selfty, name, trait=None, arg=None):
        """Roots of methods `name` on the type whose last segment is selfty."""
        out = []
        for r in self.roots:
            if r["name"] != name or r.get("derived"):
                continue
            if selfty is None:
                if r.get("selfty"):
                    continue
            elif "<" in selfty:
                t = re.sub(r"\b[a-z_0-9]+::", "", r.get("selfty") or "")
                if t != selfty:
                    continue
            elif last(r.get("selfty")) != selfty:
                continue
            io = r.get("implof")
            if trait is None and io and " as " in io:
                continue
            if trait is not None:
                m = re.match(r"^<(.*) as (.*)>$", io or "")
                if not m or last(m.group(2)) != trait:
                    continue
                if arg is not None and arg not in m.group(2):
                    continue
            out.append(r)
        return out

    def one(self, selfty, name, trait=None, arg=None):
        rs = self.find(selfty, name, trait, arg)
        if not rs:
            raise Missing("%s%s::%s" % ((trait + " for ") if trait else "", selfty or "", name))
        return rs[0]

    def adt(self, name):
        for p, a in self.adts.items():
            if a.get("local") and p.split("::")[-1] == name:
                return p, a
        raise Missing("type " + name)

    def fields(self, name, variant=None):
        p, a = self.adt(name)
        vs = a["variants"]
        for v in vs:
            if variant is None or v["name"] == variant:
                return [f[0] for f in v["fields"]]
        raise Missing("variant %s::%s" % (name, variant))

    def impls_of(self, trait, method):
        """[(type path, root)] of local impls of trait::method."""
        out = []
        for r in self.roots:
            m = re.match(r"^<(.*) as (.*)>$", r.get("implof") or "")
            if m and r["name"] == method and base_ty(m.group(2)) == trait:
                out.append((base_ty(m.group(1)), r))
        return out


class Out:
    """One abstract outcome of an analysed function."""
    __slots__ = ("st", "v", "eng")

    def __init__(self, eng, st, v):
        self.eng, self.st, self.v = eng, st, v

    @property
    def ret(self):
        return self.eng.snap(self.st, self.v)

    def variant(self):
        return self.eng.variant_of(self.st, self.v)

    def is_ok(self):
        """Can this outcome be a success?"""
        n = self.variant()
        return n is None or n in ("Ok", "Some")

    def is_err(self):
        n = self.variant()
        return n is None or n in ("Err", "None")

    def payload(self, var="Ok"):
        return self.eng.snap(self.st, field(variant(self.v, var), "0"))

    def arg(self, n):
        """Current content behind reference argument n."""
        return self.eng.snap(self.st, self.eng.content_of_root(self.st, ("A", "arg%d" % n)))

    def facts(self):
        return [(k, v) for k, v in self.st.facts.items() if not isinstance(k, tuple)]

    def holds(self, c):
        return self.eng.ev(self.st, c)


class Run:
    def __init__(self, prog, root, **kw):
        self.root = root
        self.eng = Engine(prog, **kw)
        self.incomplete = None
        self.outs = []
        try:
            self.outs = [Out(self.eng, s, v) for s, v in self.eng.analyse(root["key"])]
        except Incomplete as e:
            self.incomplete = str(e)


class Analysis:
    def __init__(self, name="kdbx_rs.json"):
        self.p = Prog(mir.load(name))
        self._runs = {}
        self.used = []

    def run(self, root, **kw):
        k = (root["key"], tuple(sorted((a, repr(sorted(b) if isinstance(b, (set, frozenset)) else b))
                                       for a, b in kw.items() if not callable(b))))
        r = self._runs.get(k)
        if r is None:
            r = Run(self.p, root, **kw)
            self._runs[k] = r
            self.used.append(r)
        return r

    def totals(self):
        fns, sites, blocks, states = set(), set(), 0, 0
        for r in self.used:
            fns |= {k for k in r.eng.analysed}
            sites |= r.eng.call_sites
            blocks += r.eng.blocks_run
            states += len(r.outs)
        local = {k for k in fns if self.p.fns[k]["local"]}
        return {"functions_analysed": len(local), "call_sites_analysed": len(sites),
                "block_visits": blocks, "abstract_outcomes": states, "entry_points": len(self.used)}


# ------------------------------------------------------------------ terms

OPAQUE_OPS = {"loopv", "unk", "undef", "after", "hupd", "bottom", "phi", "el", "revel", "star", "comp", "alts",
              "callfn", "anyof", "uninit", "const", "default", "deref", "iter_n", "fmt", "lastof", "bin", "un",
              "bitnot", "wrap", "collect", "mapof"}


def vague(t, allow=()):
    """A subterm whose meaning the analysis does not know exactly, or None."""
    for x in subterms(t):
        if x.op in OPAQUE_OPS and x.op not in allow:
            return x
        if x.op == "call" and "call" not in allow and not (isinstance(x.args[0], str) and x.args[0] in allow):
            return x
    return None


def unrelated(got, want):
    """`want` is a part of an input from which `got` was not computed, so they differ in general."""
    x = want
    while x.op in ("f", "v") and isinstance(x.args[0], Term):
        x = x.args[0]
    return x.op == "sym" and x is not want and vague(got, ("call",)) is None and not contains(got, lambda y: y is x)


def anon(t, m=None):
    """Term text with run-dependent numbers removed (for keys)."""
    return re.sub(r"\b\d{3,}\b", "#", show(t, 30))


def mentions(t, x):
    return contains(t, lambda y: y is x)


def ops(t, op):
    return [x for x in subterms(t) if x.op == op]


def is_sym(t, name):
    return t.op == "sym" and t.args[0] == name


def base_sym(t):
    """Root symbol of a projection chain."""
    while t.op in ("f", "vf", "v", "deref", "idx", "with", "written", "drop", "sub", "take", "rest"):
        t = t.args[0]
    return t


# ------------------------------------------------------------------ report

class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obl = []          # (status, key, where, text)
        self.seen = {}
        self.assume = []
        self.counters = {}
        self.t0 = time.time()

    def add(self, status, key, where, text):
        """status: holds / violated / undecided; the worst status of a key counts."""
        rank = {"holds": 0, "undecided": 1, "violated": 2}
        old = self.seen.get(key)
        if old is None:
            self.seen[key] = len(self.obl)
            self.obl.append([status, key, where, text])
        elif rank[status] > rank[self.obl[old][0]]:
            self.obl[old] = [status, key, where, text]

    def ok(self, key, where, text=""):
        self.add("holds", key, where, text)

    def bad(self, key, where, text):
        self.add("violated", key, where, text)

    def und(self, key, where, text):
        self.add("undecided", key, where, text)

    def judge(self, key, where, cond, good, bad):
        """cond: True / False / None."""
        if cond is True:
            self.ok(key, where, good)
        elif cond is False:
            self.bad(key, where, bad)
        else:
            self.und(key, where, bad)
        return cond

    def exact(self, key, where, got, want, what, allow=()):
        """The value must be `want`; a value not fully understood is undecided."""
        if got is want:
            self.ok(key, where, what)
            return True
        v = vague(got, allow)
        if v is not None and not unrelated(got, want):
            self.und(key, where, "%s: not decided, value contains %s" % (what, show(v, 4)[:160]))
            return None
        self.bad(key, where, "%s: got %s, expected %s" % (what, show(got, 14)[:700], show(want, 14)[:500]))
        return False

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def assumption(self, s):
        if s not in self.assume:
            self.assume.append(s)

    def of(self, status):
        return [o for o in self.obl if o[0] == status]


class Part:
    """Passes on the obligations with the given keys only."""

    def __init__(self, rep, keys):
        self.rep, self.keys = rep, keys

    def add(self, status, key, where, text):
        if key in self.keys:
            self.rep.add(status, key, where, text)

    def count(self, name, n=1):
        pass

    def assumption(self, s):
        self.rep.assumption(s)

    ok, bad, und, judge, exact = Report.ok, Report.bad, Report.und, Report.judge, Report.exact


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            m = re.match(r"^known: property=(\S+) key=(\S+) (.*)$", l)
            if m:
                out.append(m.groups())
    return out


BASE_ASSUMPTIONS = [
    "the compiler's MIR (nightly, unoptimised, built from the working tree on this run) is the program",
    "library calls behave as described by analysis/models.py (std, sha2/hmac, aes/twofish/chacha20/salsa20, argon2, "
    "libflate, xml-rs, base64, uuid, chrono); the primitives themselves are trusted",
]


def finish(rep, an, rule, tier, seed):
    known = {k: t for p, k, t in load_known() if p == rep.pid}
    viol, listed = [], []
    for o in rep.of("violated"):
        (listed if o[1] in known else viol).append(o)
    os.makedirs(EVIDENCE, exist_ok=True)
    und = rep.of("undecided")
    cov = {
        "explanation": "Static analysis of the working tree: " + rule,
        "obligations": len(rep.obl),
        "discharged": len(rep.of("holds")),
        "undecided": len(und),
        "samples": [{"obligation": o[1], "where": o[2], "status": o[0], "rule": o[3][:300]} for o in rep.obl[:12]],
    }
    cov.update(an.totals() if an else {})
    cov.update(rep.counters)
    if und:
        cov["undecided_list"] = [{"obligation": o[1], "where": o[2], "why": o[3][:300]} for o in und[:60]]
    cov["obligation_list"] = [o[1] for o in rep.obl][:400]
    ev = {"property": rep.pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": BASE_ASSUMPTIONS + rep.assume, "wall_s": round(time.time() - rep.t0, 3),
          "violations": len(viol), "known_findings": [o[1] for o in listed]}
    with open(os.path.join(EVIDENCE, rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o in listed:
        print("KNOWN-FINDING: property=%s %s at %s: %s" % (rep.pid, o[1], o[2], known[o[1]]))
    if viol:
        path = os.path.join(EVIDENCE, rep.pid + ".violations.txt")
        with open(path, "w") as f:
            for o in viol:
                f.write("%s\n  at %s\n  %s\n" % (o[1], o[2], o[3]))
        for o in viol[:20]:
            print("  %s at %s: %s" % (o[1], o[2], o[3][:600]))
        print("VIOLATION property=%s replay=%s" % (rep.pid, path))
        return 1
    print("%s: %d obligations, %d discharged, %d undecided, %d known" % (
        rep.pid, len(rep.obl), len(rep.of("holds")), len(und), len(listed)))
    for o in und[:10]:
        print("  undecided %s at %s: %s" % (o[1], o[2], o[3][:240]))
    return 0
