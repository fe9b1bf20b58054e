from stages import *

RULE = ("each search is followed through its recursion: an outcome without a result is only accepted when every entry (or child group) of "
        "the group was tested and every child group was searched with the same predicate; each listing is taken apart into the lists it "
        "draws from; additions, removals and counts are compared with the list they change")

A2 = T("sym", "arg2")
SEARCH = {"find_group": "groups", "find_group_mut": "groups", "find_entry": "entries", "find_entry_mut": "entries"}


def check(an, rep, tier):
    p = an.p
    ff = p.adt("Group")[1]["variants"][0]["fields"]
    role = {}
    for f in ff:
        m = re.match(r".*Vec<(?:.*::)?(\w+)(?:, .*)?>$", f[1])
        if m and m.group(1) in ("Entry", "Group"):
            role["entries" if m.group(1) == "Entry" else "groups"] = f[0]
    if set(role) != {"entries", "groups"}:
        raise Missing("entry and group lists of a group")
    lists = {}
    for name, kind in (("recursive_entries", "entries"), ("recursive_entries_mut", "entries"), ("recursive_groups", "groups")):
        lists[p.one("Group", name)["path"]] = (kind, listing(an, rep, name, kind, role))
    sigs = {}
    for name, kind in SEARCH.items():
        sigs[name] = Search(an, rep, name, kind, role, lists).check()
    for a, b in (("find_group", "find_group_mut"), ("find_entry", "find_entry_mut")):
        if sigs[a] is not None and sigs[b] is not None:
            rep.judge(b + "/same", loc(p.one("Group", b)), sigs[a] == sigs[b], "searches in the same order as " + a,
                      "searches in another order than %s: %s against %s" % (a, order(sigs[b]), order(sigs[a])))
    for name, kind in (("groups", "groups"), ("groups_mut", "groups"), ("entries", "entries"), ("entries_mut", "entries")):
        run = an.run(p.one("Group", name))
        for o in run.outs:
            r = unboxed(o.ret)
            unchanged(an, rep, name, loc(run.root), o, "Group")
            if r.op != "iter":
                rep.und(name, loc(run.root), "not understood: " + show(r, 3)[:100])
                continue
            direct(rep, name, loc(run.root), an, r, role[kind])
    for name, kind in (("group_count", "groups"), ("entry_count", "entries")):
        run = an.run(p.one("Group", name))
        for o in run.outs:
            if o.ret.op == "cnt" and any(isinstance(x, Term) and x.op == "call" and x.args[0] in lists for x in subterms(o.ret)):
                rep.bad(name, loc(run.root), "counts the whole subtree, not the direct children")
                continue
            rep.exact(name, loc(run.root), o.ret, length(field(S, role[kind])), "the number of direct children")
    gf = p.fields("Group")
    for name, kind in (("add_entry", "entries"), ("add_group", "groups")):
        run = an.run(p.one("Group", name))
        for o in run.outs:
            only(rep, name, loc(run.root), o.arg(1), S, gf, role[kind], cat(field(S, role[kind]), T("one", A2)))
    for name, kind in (("remove_entry", "entries"), ("remove_group", "groups")):
        remove(an, rep, name, role[kind], gf)
    remove_field(an, rep)
    database(an, rep, role)
    plain(an, rep, gf)


def unboxed(t):
    while t.op in ("boxv", "box"):
        t = t.args[0]
    return t


def only(rep, key, w, st, was, fields_, f, want):
    for g in fields_:
        if g != f and field(st, g) is not field(was, g):
            (rep.und if vague(field(st, g)) else rep.bad)(key + "/other", w, "also changes " + g)
    rep.exact(key, w, field(st, f), want, "changes only the named element")


# ------------------------------------------------------------ searches

class Search:
    """One search function of Group and everything it hands the search on to."""

    def __init__(self, an, rep, name, kind, role, lists):
        self.lists = lists
        self.an, self.rep, self.name, self.kind, self.role = an, rep, name, kind, role
        self.own, self.sub = role[kind], role["groups"]
        self.sigs = {}
        self.todo = []

    def check(self):
        root = self.an.p.one("Group", self.name)
        self.start = root["path"]
        self.todo = [root["path"]]
        seen = []
        while self.todo:
            path = self.todo.pop()
            if path in seen:
                continue
            seen.append(path)
            rs = [r for r in self.an.p.roots if r["path"] == path]
            if len(rs) != 1:
                self.rep.und(self.name, path, "searching function not found")
                self.sigs[path] = None
                continue
            self.sigs[path] = self.one(rs[0])
        if any(s is None for s in self.sigs.values()):
            return None
        return frozenset().union(*self.sigs.values())

    def norm(self, run):
        """Rewrite values carried round the loops to their starting values, and calls to a form without call site."""
        subs = {}
        for L in run.eng.loops.values():
            for x, (init, steps) in L["steps"].items():
                if init is not None and all(self.harmless(x, s) for s in steps):
                    subs[x] = init
        memo = {}

        def go(t):
            if not isinstance(t, Term):
                return tuple(go(x) for x in t) if isinstance(t, tuple) else t
            if t in memo:
                return memo[t]
            memo[t] = t
            if t in subs:
                r = go(subs[t])
            elif t.op == "after" and isinstance(t.args[2], Term) and t.args[2].op == "call":
                r = go(t.args[2].args[2 + t.args[1]])
            elif t.op in ("call", "callfn"):
                r = T(t.op, go(t.args[0]), 0, *[go(x) for x in t.args[2:]])
            elif t.op == "ix":
                r = t
            else:
                r = T(t.op, *[go(x) for x in t.args])
            memo[t] = r
            return r
        return go

    def harmless(self, x, s):
        if s is x:
            return True
        if s.op == "after":
            return True
        return s.op == "upd" and s.args[0] is x and s.args[2].op == "after"

    def one(self, root):
        run = self.an.run(root)
        w = loc(root)
        rep, key = self.rep, self.name
        if run.incomplete:
            rep.und(key, w, run.incomplete)
            return None
        go = self.norm(run)
        sig = set()
        self.lost = False
        for o in run.outs:
            rep.count("outcomes")
            facts = [(go(k), v) for k, v in o.facts()]
            r = go(o.ret)
            n = o.variant()
            if r.op == "call" and len(r.args) == 4 and r.args[2] is S and self.pred(r.args[3]):
                # handed on as it is
                self.todo.append(r.args[0])
                continue
            if n in ("Some", "None") and self.by_listing(w, o, n, facts, go, sig):
                continue
            if n == "Some":
                x = go(o.payload("Some"))
                self.found(w, run, o, x, facts, sig)
            elif n == "None":
                self.missing(w, run, o, facts, go)
            elif r.op == "call" and self.child(r, facts):
                rep.bad(key + "/complete", w, "the result of searching one child group is returned without looking at the others")
                return None
            else:
                rep.und(key, w, "result not understood: " + show(r, 5)[:160])
                return None
        return None if self.lost else frozenset(sig)

    def und(self, *a):
        self.lost = True
        self.rep.und(*a)

    def pred(self, t):
        return t is A2

    def elem(self, t, lst):
        """The index term when t is an element of the list."""
        if t.op == "idx" and t.args[0] is field(S, lst):
            return step(t.args[1])
        return None

    def child(self, c, facts):
        """c is a search of a child group with the predicate: its index."""
        if c.op != "call" or len(c.args) != 4 or not isinstance(c.args[2], Term) or not self.pred(c.args[3]):
            return None
        i = self.elem(c.args[2], self.sub)
        if i is not None and c.args[0] not in self.todo:
            self.todo.append(c.args[0])
        return i

    def by_listing(self, w, o, n, facts, go, sig):
        """The search is left to one of the complete listings."""
        for k, v in facts:
            if k.op != "exists" or v is not (n == "Some") or k.args[1].op != "ext":
                continue
            c = k.args[1].args[0]
            if c.op != "call" or c.args[0] not in self.lists or len(c.args) != 3 or c.args[2] is not S:
                continue
            kind, sg = self.lists[c.args[0]]
            el = T("el", k.args[1], k.args[2])
            conds = [tuple((go(a), b) for a, b in alt.args[0]) for alt in k.args[3:]]
            if len(conds) != 1 or len(conds[0]) != 1 or conds[0][0][1] is not True:
                return False
            t = conds[0][0][0]
            if t.op != "callfn" or not self.pred(t.args[0]) or len(t.args) != 3 or t.args[2] is not go(el):
                return False
            if kind != self.kind:
                self.rep.bad(self.name, w, "searches a listing of other elements")
                return True
            if n == "Some":
                if go(o.payload("Some")) is not go(el):
                    return False
                self.rep.ok(self.name + "/sound", w, "the listed element for which the predicate holds")
            else:
                self.rep.ok(self.name + "/complete", w, "nothing only when no listed element satisfies the predicate")
            if sg is None:
                self.lost = True
            else:
                sig |= sg
            return True
        return False

    def found(self, w, run, o, x, facts, sig):
        rep, key = self.rep, self.name + "/sound"
        i = self.elem(x, self.own)
        if i is not None:
            tests = [(k, v) for k, v in facts if k.op == "callfn" and self.pred(k.args[0]) and len(k.args) == 3 and k.args[2] is x]
            if any(v is True for _, v in tests):
                rep.ok(key, w, "returns an element for which the predicate holds")
                sig.add(("own", direction(i), self.before(run, o, facts, i)))
            elif any(k.op == "callfn" and v is True for k, v in facts):
                rep.bad(key, w, "returns another element than the one for which the predicate holds")
            else:
                rep.bad(key, w, "returns an element for which the predicate was not found to hold")
            return
        c = x
        while c.op in ("vf", "v", "f"):
            c = c.args[0]
        i = self.child(c, facts)
        if i is not None and (isv(c, "Some"), True) in facts:
            rep.ok(key, w, "returns what the search of a child group found")
            sig.add(("deep", direction(i), self.before(run, o, facts, i)))
            return
        if x.op == "idx" and x.args[0] in (field(S, self.own), field(S, self.sub)):
            rep.bad(key, w, "returns " + show(x, 4)[:120])
        else:
            self.und(key, w, "result not understood: " + show(x, 5)[:160])

    def before(self, run, o, facts, i):
        """What had been ruled out before this result was found."""
        go = self.norm(run)
        r = set()
        for k, v in facts:
            if v is not False:
                continue
            if k.op == "callfn" and len(k.args) == 3 and k.args[2] is T("idx", field(S, self.own), i):
                r.add("its own test")
        r |= {("all", c) for c in self.covered(run, o, facts, go, i)}
        return frozenset(r)

    def covered(self, run, o, facts, go, i=None):
        """Which complete sweeps are behind this outcome: 'own' all own elements tested, 'deep' all child groups searched."""
        r = set()
        for k, v in facts:
            if k.op == "exists" and v is False:
                src = listof(k.args[1])
                alts = [[(go(c), b) for c, b in alt.args[0]] for alt in k.args[3:]]
                alone = [a[0] for a in alts if len(a) == 1]
                for conds in alts:
                    if len(conds) > 1:
                        # what another way of finding it has already ruled out
                        conds = [(c, b) for c, b in conds if (c, not b) not in alone]
                    if len(conds) != 1 or conds[0][1] is not True:
                        continue
                    c = conds[0][0]
                    if src == self.own and c.op == "callfn" and self.pred(c.args[0]) and self.elem(c.args[2], self.own) is k.args[2]:
                        r.add("own")
                    if src == self.sub and c.op in ("isv", "is") and self.child(c.args[0], facts) is k.args[2]:
                        r.add("deep")
        for lid, L in run.eng.loops.items():
            if ("loop", lid) not in o.st.trace:
                continue
            got = self.sweep(run, L, go)
            if got is None:
                continue
            ixs, what = got
            if any(x is i for x in ixs) or any(k.op == "lt" and v is True and k.args[0] in ixs for k, v in facts):
                continue
            r |= what
        return r

    def sweep(self, run, L, go):
        """(index terms of the loop, what every continuing path has ruled out)."""
        ixs = set()
        for st in L["back"] + [s for _, s in L["exits"]]:
            for k in st.facts:
                if not isinstance(k, tuple) and k.op == "lt" and k.args[0].op == "ix" and listof(k.args[0].args[0]) in (self.own, self.sub):
                    ixs.add(k.args[0])
        ixs = {x for x in ixs if any(any(not isinstance(k, tuple) and contains(k, lambda t: t is x) for k in st.facts) for st in L["back"]) or not L["back"]}
        if not ixs:
            return None
        what = None
        for st in L["back"]:
            mine = set()
            for k, v in st.facts.items():
                if isinstance(k, tuple) or v is not False:
                    continue
                k = go(k)
                if k.op == "callfn" and len(k.args) == 3 and self.pred(k.args[0]):
                    if self.elem(k.args[2], self.own) in ixs:
                        mine.add("own")
                if k.op in ("isv", "is") and k.args[1] == "Some" and k.args[0].op == "call":
                    if self.child(k.args[0], ()) in ixs:
                        mine.add("deep")
            what = mine if what is None else what & mine
        if what is None:
            what = {"own"} if {listof(x.args[0]) for x in ixs} == {self.own} else set()
        return ixs, what

    def missing(self, w, run, o, facts, go):
        rep, key = self.rep, self.name + "/complete"
        live = [k.args[0] for k, v in facts if k.op == "lt" and v is True and k.args[0].op == "ix"]
        if live:
            rep.bad(key, w, "gives up before all elements of %s were looked at" % listof(live[0].args[0]))
            return
        got = self.covered(run, o, facts, go)
        lack = {"own", "deep"} - got
        if not lack:
            # leaving a sweep early must mean a result
            for lid, L in run.eng.loops.items():
                if ("loop", lid) in o.st.trace and self.leaves(run, L, go):
                    rep.bad(key, w, "a sweep over %s is left early without a result" % self.leaves(run, L, go))
                    return
            rep.ok(key, w, "nothing is returned only after testing all elements and searching all child groups")
            return
        why = {"own": "every element of %s being tested" % self.own, "deep": "every child group being searched"}
        msg = "nothing is returned without " + " and ".join(why[x] for x in sorted(lack))
        if self.understood(run, o, facts):
            rep.bad(key, w, msg)
        else:
            self.und(key, w, msg + " (not understood)")

    def leaves(self, run, L, go):
        got = self.sweep(run, L, go)
        if got is None:
            return None
        for _, st in L["exits"]:
            fs = [(go(k), v) for k, v in st.facts.items() if not isinstance(k, tuple)]
            mine = [k for k, v in fs if k.op == "lt" and v is True and k.args[0] in got[0]]
            if not mine:
                continue
            if any(v is True and (k.op == "callfn" or k.op in ("isv", "is") and k.args[0].op == "call" and k.args[1] == "Some") for k, v in fs):
                continue
            return listof(mine[0].args[0].args[0])
        return None

    def understood(self, run, o, facts):
        """Everything the outcome depends on is a test, a child search or the end of a list."""
        pats = []
        for L in run.eng.loops.values():
            for st in L["back"]:
                pats += [k for k in st.facts if not isinstance(k, tuple)]
            for x, (init, steps) in L["steps"].items():
                if not all(self.harmless(x, s) for s in steps) and x.op == "loopv" and not iterator(init):
                    return False
        for k in pats + [k for k, v in facts]:
            if k.op == "exists":
                if listof(k.args[1]) is None:
                    return False
                continue
            if k.op in ("callfn", "lt", "eq", "isv", "is") and not any(
                    isinstance(t, Term) and t.op == "call" and "Group" not in str(t.args[0]) for t in subterms(k)):
                continue
            return False
        return True


def step(i):
    """The loop's own index behind a position counted from the back."""
    ixs = [x for x in subterms(i) if isinstance(x, Term) and x.op == "ix" and x.args[0].op == "rev"]
    return ixs[0] if i.op != "ix" and len(ixs) == 1 else i


def iterator(t):
    return t is None or t.op in ("iter", "boxv")


def order(sig):
    return "; ".join(sorted("%s %s after %s" % (a, b, ", ".join(sorted(map(str, c))) or "nothing") for a, b, c in sig))


def direction(i):
    if i.op == "ix":
        return "backward" if i.args[0].op == "rev" else "forward"
    return show(i, 3)


def listof(src):
    """Name of the list a source walks completely."""
    while src.op in ("enumerate", "cloned", "copied", "rev", "inspect", "fuse"):
        src = src.args[0]
    if src.op == "srefs" and src.args[0] == ("A", "arg1") and len(src.args[1]) == 1 and src.args[1][0][0] == "f":
        return src.args[1][0][1]
    if src.op == "range" and src.args[0] is I(0) and src.args[1].op == "len":
        t = src.args[1].args[0]
        if t.op == "f" and t.args[0] is S:
            return t.args[1]
    return None


# ------------------------------------------------------------ listings

def direct(rep, key, w, an, r, lst):
    src, pos = r.args
    if listof(src) == lst and src.op in ("srefs", "rev") and pos in (0, I(0)):
        rep.ok(key, w, "all direct children")
        return
    drop = lossy(src)
    if drop or (isinstance(pos, int) and pos):
        rep.bad(key, w, "the listing leaves out elements (%s)" % (drop or "starts at %d" % pos))
    elif listof(src) is not None:
        rep.bad(key, w, "lists %s" % listof(src))
    else:
        rep.und(key, w, "not understood: " + show(src, 4)[:120])


def lossy(src):
    if src.op in ("skip", "step_by") and src.args[1].op == "int" and src.args[1].args[0] > (0 if src.op == "skip" else 1):
        return src.op
    if src.op == "take" and src.args[1].op == "int":
        return "take"
    if src.op in ("enumerate", "cloned", "copied", "rev", "inspect", "fuse", "filter", "take_while", "skip_while"):
        if src.op in ("filter", "take_while", "skip_while"):
            return src.op
        return lossy(src.args[0])
    return None


def listing(an, rep, name, kind, role):
    run = an.run(an.p.one("Group", name))
    w = loc(run.root)
    sig = None
    if run.incomplete:
        rep.und(name, w, run.incomplete)
        return
    for o in run.outs:
        r = unboxed(o.ret)
        unchanged(an, rep, name, w, o, "Group")
        if r.op != "iter" or r.args[1] not in (0, I(0)):
            rep.und(name, w, "not understood: " + show(r, 4)[:120])
            continue
        got, vague_ = [], None
        todo = [r.args[0]]
        while todo:
            s = todo.pop(0)
            s = unboxed(s)
            if s.op == "iter":
                s = s.args[0]
            if s.op == "chain":
                todo = [s.args[0], s.args[1]] + todo
            elif s.op in ("srefs", "rev") and listof(s):
                got.append(("own", listof(s)))
            elif s.op == "flat_map" or (s.op == "flatten" and s.args[0].op == "map"):
                m = s if s.op == "flat_map" else s.args[0]
                x = each_child(an, m, run, role)
                if x is None:
                    vague_ = show(s, 3)
                else:
                    got.append(x)
            elif s.op == "once" and s.args[0].op == "ref" and s.args[0].args == (("A", "arg1"), ()):
                got.append(("self", "self"))
            elif lossy(s):
                got.append(("part", lossy(s)))
            else:
                vague_ = show(s, 4)
        if vague_:
            rep.und(name, w, "source not understood: " + vague_[:120])
            continue
        want = sorted([("own", role[kind]), ("deep", name)])
        first = got[0][0] if got else None
        got = sorted((a, name if a == "deep" and last(b) == name else b) for a, b in got)
        if got == want and len(run.outs) == 1 and not any(isinstance(x, Term) and x.op == "rev" for x in subterms(r)):
            second = "own" if first == "deep" else "deep"
            sig = frozenset({(first, "forward", frozenset()), (second, "forward", frozenset({("all", first)}))})
        rep.count("sources", len(got))
        rep.judge(name, w, got == want, "own elements and those of every child group, once each",
                  "draws from %s" % ("; ".join("%s %s" % x for x in got) or "nothing"))
    return sig


def each_child(an, m, run, role):
    """What a flat_map over the child groups contributes."""
    base, clo = m.args[0], m.args[1]
    if listof(base) != role["groups"]:
        l = lossy(base)
        return ("part", l) if l else (("wrong", listof(base)) if listof(base) else None)
    if clo.op == "fnval":
        callee = run.eng.fnvals[clo.args[0]]
        return ("deep", callee["def"])
    if clo.op != "closure" or clo.args[0] not in an.p.fns:
        return None
    sub_ = an.run({"key": clo.args[0], "path": clo.args[0]})
    if sub_.incomplete or len(sub_.outs) != 1:
        return None
    r = unboxed(sub_.outs[0].ret)
    if r.op == "call" and len(r.args) == 3 and r.args[2] is A2:
        return ("deep", r.args[0])
    if r.op == "iter" and r.args[0].op == "srefs":
        return ("only the direct", str(r.args[0].args[1][-1][1]))
    return None


# ------------------------------------------------------------ removals

def remove(an, rep, name, lst, gf):
    run = an.run(an.p.one("Group", name))
    w = loc(run.root)
    fs = field(S, lst)
    if run.incomplete:
        rep.und(name, w, run.incomplete)
        return
    for o in run.outs:
        rep.count("outcomes")
        st = o.arg(1)
        n = o.variant()
        for g in gf:
            if g != lst and field(st, g) is not field(S, g):
                (rep.und if vague(field(st, g)) else rep.bad)(name + "/other", w, "also changes " + g)
        got = field(st, lst)
        if n == "None":
            if got is not fs:
                (rep.und if vague(got) else rep.bad)(name + "/absent", w, "changes the list although nothing is returned")
                continue
            ex = [k for k, v in o.facts() if k.op == "exists" and v is False]
            full = False
            for k in ex:
                if listof(k.args[1]) == lst and len(k.args) == 4:
                    cs = k.args[3].args[0]
                    if len(cs) == 1 and cs[0][1] is True and is_match(cs[0][0], fs, k.args[2]):
                        full = True
            for lid, L in run.eng.loops.items():
                if ("loop", lid) in o.st.trace and L["back"] and all(
                        any(not isinstance(k, tuple) and v is False and k.op == "eq" and any(
                            a.op == "f" and a.args[1] == "uuid" and a.args[0].op == "idx" and a.args[0].args[0] is fs
                            and listof(a.args[0].args[1].args[0]) == lst for a, b in (k.args, k.args[::-1]) if b is A2
                            and a.op == "f" and a.args[0].op == "idx" and a.args[0].args[1].op == "ix")
                            for k, v in s.facts.items()) for s in L["back"]):
                    full = True
            live = any(k.op == "lt" and v is True and k.args[0].op == "ix" for k, v in o.facts())
            if full and not live:
                rep.ok(name + "/absent", w, "nothing is removed only when no element has the identifier")
            elif ex and all(not vague(k, ("ix",)) for k in ex):
                rep.bad(name + "/absent", w, "an element with the identifier may be left in place")
            else:
                rep.und(name + "/absent", w, "search not understood")
            continue
        if n != "Some":
            rep.und(name, w, "result not understood")
            continue
        x = o.payload("Some")
        if x.op != "idx" or x.args[0] is not fs:
            (rep.und if vague(x, ("ix",)) else rep.bad)(name + "/found", w, "returns " + show(x, 4)[:120])
            continue
        i = x.args[1]
        hit = [k for k, v in o.facts() if v is True and is_match(k, fs, i)]
        if not hit:
            known = any(k.op == "eq" and contains(k, lambda t: t is A2) for k, v in o.facts())
            (rep.bad if known or not any(k.op not in ("lt", "exists", "first") for k, v in o.facts()) else rep.und)(
                name + "/found", w, "the removed element is not the one with the identifier")
            continue
        if got is T("removeat", fs, i):
            rep.ok(name + "/found", w, "exactly the element with the identifier is taken out and returned")
        else:
            (rep.und if vague(got, ("ix",)) else rep.bad)(name + "/found", w, "the list becomes " + show(got, 5)[:160])


def is_match(k, fs, i):
    return k.op == "eq" and any(b is A2 and a is field(idx(fs, i), "uuid") for a, b in (k.args, k.args[::-1]))


CUT = ("take", "skip", "take_while", "skip_while", "step_by")


def remove_field(an, rep):
    """All fields with the key go, all others stay in order."""
    run = an.run(an.p.one("Entry", "remove_field"))
    w = loc(run.root)
    lists = [f[0] for f in an.p.adt("Entry")[1]["variants"][0]["fields"] if re.search(r"\bField\b", f[1])]
    keys = [f[0] for f in an.p.adt("Field")[1]["variants"][0]["fields"] if f[1].endswith("String")]
    if len(lists) != 1 or len(keys) != 1:
        raise Missing("field list of an entry")
    F, K = lists[0], keys[0]
    fs = field(S, F)
    for o in run.outs:
        st = o.arg(1)
        for g in an.p.fields("Entry"):
            if g != F and field(st, g) is not field(S, g):
                (rep.und if vague(field(st, g)) else rep.bad)("remove_field/other", w, "also changes " + g)
        got = field(st, F)
        if got.op == "retain" and got.args[0] is fs:
            keep = got.args[2]
            want = eq(field(idx(fs, got.args[1]), K), A2)
            if keep is not_(want):
                rep.ok("remove_field", w, "keeps exactly the fields with another key")
            else:
                (rep.und if vague(keep, ("ix",)) else rep.bad)("remove_field", w, "keeps the fields for which " + show(keep, 5)[:120])
            continue
        Ls = [L for L in run.eng.loops.values() if got in L["steps"]]
        if got.op != "loopv" or len(Ls) != 1:
            (rep.und if vague(got, ("ix",)) else rep.bad)("remove_field", w, "the list becomes " + show(got, 5)[:160])
            continue
        init, steps = Ls[0]["steps"][got]
        for s in steps:
            if s is got:
                continue
            if init is fs and s.op == "swapremove" and s.args[0] is got:
                rep.bad("remove_field/order", w, "a field that stays is moved to the place of the removed one")
                continue
            if init is not fs or s.op != "removeat" or s.args[0] is not got:
                rep.und("remove_field", w, "not understood: " + show(s, 4)[:120])
                continue
            indices(rep, w, s.args[1], F, K, fs)
        if any(k.op == "lt" and v is True and k.args[0].op == "ix" for _, st_ in Ls[0]["exits"] for k, v in st_.facts.items()
               if not isinstance(k, tuple)):
            rep.bad("remove_field/all", w, "stops before all fields with the key are removed")


def indices(rep, w, i, F, K, fs):
    """The positions to remove, collected before: which ones, and in which order."""
    if i.op != "idx" or step(i.args[1]).op != "ix":
        rep.und("remove_field", w, "position not understood: " + show(i, 4)[:120])
        return
    d, seq = 1, i.args[0]
    src = step(i.args[1]).args[0]
    while src.op in ("rev",) + CUT:
        if src.op in CUT:
            rep.bad("remove_field/all", w, "only some of the positions found are removed: " + show(src, 3)[:120])
            return
        d, src = -d, src.args[0]
    while True:
        if seq.op == "reverse":
            d, seq = -d, seq.args[0]
        elif seq.op == "sorted":
            # whatever the order was, it is now ascending (or descending)
            d = d if seq.args[0] == "asc" else -d
            seq = seq.args[1]
            while seq.op in ("reverse", "sorted"):
                seq = seq.args[-1]
            break
        else:
            break
    if seq.op != "comp":
        rep.und("remove_field", w, "positions not understood: " + show(seq, 4)[:120])
        return
    ix = seq.args[1]
    short = [t for t in subterms(seq.args[0]) if isinstance(t, Term) and t.op in CUT]
    if short:
        rep.bad("remove_field/all", w, "not all fields with the key are looked for: " + show(short[0], 3)[:120])
        return
    if not any(isinstance(t, Term) and t.op == "srefs" and t.args[1] == (("f", F),) for t in subterms(seq.args[0])):
        rep.und("remove_field", w, "positions not understood: " + show(seq, 4)[:120])
        return
    alts = seq.args[2].args if seq.args[2].op == "alts" else ()
    want = eq(field(idx(fs, ix), K), A2)
    good = len(alts) == 1 and alts[0].args[0] is ix and [(c, b) for c, b in alts[0].args[1] if c.op != "lt"] == [(want, True)]
    if not good:
        (rep.und if any(vague(a, ("ix",)) for a in alts) or not alts else rep.bad)(
            "remove_field/which", w, "removes the fields for which " + show(seq.args[2], 6)[:160])
        return
    rep.ok("remove_field/which", w, "exactly the fields with the key")
    rep.judge("remove_field/order", w, d < 0, "removed from the back, so positions stay right",
              "positions are removed front to back, so later ones name other fields")


# ------------------------------------------------------------ database and plain accessors

def database(an, rep, role):
    p = an.p
    gl = [f[0] for f in p.adt("Database")[1]["variants"][0]["fields"] if re.search(r"\bGroup\b", f[1])]
    if len(gl) != 1:
        raise Missing("root group of the database")
    G = gl[0]
    ty = dict((f[0], f[1]) for f in p.adt("Database")[1]["variants"][0]["fields"])[G]
    root = idx(field(S, G), I(0)) if "Vec" in ty else field(S, G)
    df = p.fields("Database")
    for n in ("root", "root_mut"):
        run = an.run(p.one("Database", n))
        for o in run.outs:
            rep.exact("Database::" + n, loc(run.root), o.ret, root, "the root group")
            unchanged(an, rep, "Database::" + n, loc(run.root), o, "Database")
    for n in SEARCH:
        inner = an.run(p.one("Group", n))
        run = an.run(p.one("Database", n))
        w = loc(run.root)
        direct_ = {o.ret.args[0] for o in inner.outs if o.ret.op == "call" and len(o.ret.args) == 4}
        paths = direct_ | {p.one("Group", n)["path"]}
        for o in run.outs:
            r = o.ret
            if r.op == "call" and len(r.args) == 4:
                good = r.args[0] in paths and r.args[2] is root and r.args[3] is A2
                rep.judge("Database::" + n, w, good, "searches the root group", "searches with " + show(r, 4)[:120])
            else:
                rep.und("Database::" + n, w, "not understood: " + show(r, 4)[:100])
    for n, kind in (("add_entry", "entries"), ("add_group", "groups")):
        run = an.run(p.one("Database", n))
        w = loc(run.root)
        for o in run.outs:
            st = o.arg(1)
            for g in df:
                if g != G and field(st, g) is not field(S, g):
                    rep.bad("Database::%s/other" % n, w, "also changes " + g)
            got = field(st, G)
            if root.op == "idx":
                if got.op != "upd" or got.args[0] is not field(S, G) or got.args[1] is not I(0):
                    (rep.und if vague(got) else rep.bad)("Database::" + n, w, "the groups become " + show(got, 5)[:120])
                    continue
                got = got.args[2]
            only(rep, "Database::" + n, w, got, root, p.fields("Group"), role[kind], cat(field(root, role[kind]), T("one", A2)))
    run = an.run(p.one("Database", "replace_root"))
    for o in run.outs:
        st = o.arg(1)
        for g in df:
            if g != G and field(st, g) is not field(S, g):
                rep.bad("Database::replace_root/other", loc(run.root), "also changes " + g)
        rep.exact("Database::replace_root", loc(run.root), field(st, G), cat(T("one", A2)) if root.op == "idx" else A2, "the new root")


def strip(t):
    while t.op == "tostr":
        t = t.args[0]
    return t


def plain(an, rep, gf):
    p = an.p
    for ty, name, path in (("Group", "uuid", ("uuid",)), ("Group", "name", ("name",)), ("Group", "times", ("times",)),
                           ("Group", "times_mut", ("times",)), ("Database", "name", ("meta", "database_name")),
                           ("Database", "description", ("meta", "database_description")), ("Database", "meta", ("meta",)),
                           ("Database", "meta_mut", ("meta",))):
        run = an.run(p.one(ty, name))
        want = S
        for f in path:
            want = field(want, f)
        for o in run.outs:
            rep.exact("%s::%s" % (ty, name), loc(run.root), o.ret, want, "the " + path[-1])
            unchanged(an, rep, "%s::%s" % (ty, name), loc(run.root), o, ty)
    for ty, name, path in (("Group", "set_uuid", ("uuid",)), ("Group", "set_name", ("name",)), ("Database", "set_name", ("meta", "database_name")),
                           ("Database", "set_description", ("meta", "database_description"))):
        run = an.run(p.one(ty, name))
        w = loc(run.root)
        for o in run.outs:
            st, was, key = o.arg(1), S, "%s::%s" % (ty, name)
            owner = ty
            for k, f in enumerate(path):
                for g in p.fields(owner):
                    if g != f and field(st, g) is not field(was, g):
                        (rep.und if vague(field(st, g)) else rep.bad)(key + "/other", w, "also changes " + g)
                st, was = field(st, f), field(was, f)
                if k + 1 < len(path):
                    owner = "Meta"
            rep.exact(key, w, strip(st), A2, "stores what it is given")
