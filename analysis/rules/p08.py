from stages import *
from blocks import changed, ge
from inv import inductive

RULE = ("for every success outcome of every writing stage, the bytes handed to the next stage plus the bytes still buffered are "
        "compared with the bytes buffered before plus the accepted input; block framing, counts, padding and the closing block "
        "are read off the same terms, and no success outcome may leave the result of an inner write untested")


def check(an, rep, tier):
    ws = writers(an)
    kinds = {w.kind for w in ws.values()}
    for k in ("hmac", "block", "stream"):
        if k not in kinds:
            raise Missing("writing stage of kind " + k)
    for w in ws.values():
        rep.count("writing_stages")
        if w.run.incomplete:
            rep.und(w.name + "/write", w.where, w.run.incomplete)
            continue
        {"hmac": hmac, "block": block, "stream": stream, "pass": passing}[w.kind](an, rep, w)
        results(rep, w.name + "/write", w.where, w.run)
        for r in w.closers:
            results(rep, "%s/%s" % (w.name, r["name"]), loc(r), an.run(r))
    flushes(an, rep)
    start(an, rep)
    complete(an, rep)


def complete(an, rep):
    """Saving repeats a write that took only part of the bytes."""
    for root in (an.p.one("Unlocked", "write", "KdbxState"), an.p.one("Locked", "write", "KdbxState")):
        run = save_run(an) if last(root["selfty"]) == "Unlocked" else an.run(root)
        if run.incomplete:
            rep.und("complete/" + last(root["selfty"]), loc(root), run.incomplete)
            continue
        for o in run.outs:
            if not o.is_ok():
                continue
            once = [k.args[0] for k, v in o.facts() if v is True and k.op == "isv" and k.args[1] == "Ok" and k.args[0].op == "fall"
                    and k.args[0].args[0] == "write" and base_out(k.args[0].args[2]) is BUF
                    and k.args[0].args[2] is BUF and k.args[0].args[1].op == "nwrite"]
            once = [t for t in once if not any(mentions(k, t.args[1]) for k, v in o.facts() if not (k.op == "isv" and k.args[0] is t)
                                               and k is not lt(length(t.args[3]), t.args[1]))]
            if once:
                rep.bad("complete/" + last(root["selfty"]), loc(root), "%s is handed over in one call that may take only part of it"
                        % show(once[0].args[3], 4)[:120])
            else:
                rep.ok("complete/" + last(root["selfty"]), loc(root), "every write is one that is repeated until all bytes are taken")


def untested(o, refused=False):
    """Fallible steps whose failure this success outcome does not exclude."""
    out = []
    r = o.ret
    for t in list(o.st.pending) + list(o.st.failed):
        if t.op == "refused" and not refused:
            continue
        if contains(r, lambda x: x is t):
            continue
        out.append(t)
    return out


def results(rep, key, where, run):
    if run.incomplete:
        rep.und(key + "/results", where, run.incomplete)
        return
    for o in run.outs:
        if o.variant() == "Err":
            continue
        u = [t for t in untested(o) if t.op == "fall"]
        if u:
            rep.bad(key + "/results", where, "succeeds although %s was not seen to succeed" % show(u[0], 4)[:200])
        else:
            rep.ok(key + "/results", where, "every inner write of a success outcome succeeded")


def nonempty(o, d):
    return o.eng.prove_ge(o.st, sub(length(d), I(1)))


def norm(o, seq):
    """Sequence without the parts known to be empty."""
    return cat(*[x for x in parts(seq) if o.holds(eq(length(x), I(0))) is not True])


def frame(o, seq):
    """Split written bytes into HMAC blocks: [(counter, key, data)], or text of what does not fit."""
    ps, out = list(parts(seq)), []
    while ps:
        h = ps.pop(0)
        if h.op != "hmac256":
            return None, "a block starts with %s instead of its HMAC" % show(h, 4)[:160]
        key, msg = h.args[0], list(parts(h.args[1]))
        if key.op != "sha512":
            return None, "block key is " + show(key, 4)[:160]
        kp = list(parts(key.args[0]))
        i = msg[0].args[1] if msg and msg[0].op == "le" and msg[0].args[0] == 8 else None
        if i is None and len(msg) > 8 and all(x.op == "one" for x in msg[:8]):
            i, msg = unle(8, cat(*msg[:8])), msg[8:]
        elif i is not None:
            msg = msg[1:]
        else:
            return None, "the HMAC does not start with the block counter: " + show(h.args[1], 4)[:160]
        body = cat(*msg)
        # length then data, in the HMAC and in what is written
        if ps[:len(msg)] != msg:
            n = next((k for k, x in enumerate(msg) if k >= len(ps) or ps[k] is not x), 0)
            return None, "the HMAC covers %s but %s is written" % (show(msg[n], 4)[:120], show(ps[n], 4)[:120] if n < len(ps) else "nothing")
        ps = ps[len(msg):]
        if msg and msg[0].op == "le" and msg[0].args[0] == 4:
            ln, d = msg[0].args[1], cat(*msg[1:])
        elif len(msg) >= 4 and all(x.op == "one" for x in msg[:4]):
            ln, d = unle(4, cat(*msg[:4])), cat(*msg[4:])
        else:
            return None, "no 4-byte length after the HMAC: " + show(body, 4)[:160]
        if ln is not length(d) and o.holds(eq(ln, length(d))) is not True:
            return None, "length field is %s for data of %s bytes" % (show(ln, 4)[:120], show(length(d), 4)[:120])
        out.append((i, cat(*kp), d))
    return out, None


def emitted(v, base):
    """Bytes written on top of the sink `base`, or None."""
    if v is base:
        return EMPTY
    if v.op == "written" and v.args[0] is base:
        return v.args[1]
    return None


class HmacRoles:
    """Fields of the HMAC stage, from what it writes."""

    def __init__(self, an, w):
        self.sink = self.idx = self.key = self.buf = None
        fs = an.p.fields(w.name)
        for o in w.run.outs:
            ch = changed(o.arg(1)) or {}
            for f, v in ch.items():
                e = emitted(v, field(S, f))
                if v.op == "written" and e is not None:
                    self.sink = f
                    for h in ops(e, "hmac256"):
                        for x in ops(h.args[0], "le"):
                            for y in subterms(x.args[1]):
                                if y.op == "f" and y.args[0] is S:
                                    self.idx = y.args[1]
        for o in w.oks:
            for f, v in (changed(o.arg(1)) or {}).items():
                if f not in (self.sink, self.idx) and mentions(v, BUF):
                    self.buf = f


def hmac_blocks(rep, key, where, o, ro, st, before, after, idx0, closing):
    """Common obligations of write, flush and completion of the HMAC stage."""
    def verdict(cond, good, bad, terms_):
        if cond:
            rep.ok(key, where, good)
        else:
            (rep.und if any(vague(t) for t in terms_ if t is not None) else rep.bad)(key, where, bad)
        return cond
    e = st
    bl, why = frame(o, e)
    if bl is None:
        return verdict(False, "", why, [e])
    for n, (i, k, d) in enumerate(bl):
        want = add(idx0, I(n))
        if not verdict(i is want, "", "block %d after the call is authenticated as block %s" % (n, show(i, 4)[:100]), [i]):
            return False
        kp = list(parts(k))
        if kp[:1] != [T("le", 8, want)] or len(kp) < 2 or any(base_sym(x) is not S for x in kp[1:]):
            return verdict(False, "", "the block key uses %s" % show(k, 4)[:160], [k])
        if closing and n == len(bl) - 1:
            if o.holds(eq(length(d), I(0))) is not True:
                return verdict(False, "", "the last block holds %s instead of being empty" % show(d, 4)[:160], [d])
        elif not nonempty(o, d):
            return verdict(False, "", "a block with data %s may be empty, which ends the payload early" % show(d, 4)[:160], [d])
    if closing and not bl:
        return verdict(False, "", "completes without the closing empty block", [e])
    got = norm(o, cat(*([d for _, _, d in bl] + [after])))
    want = norm(o, before)
    return verdict(got is want, "data is emitted once and in order, in authenticated blocks with the next counters",
                   "%s goes out or is kept where %s came in" % (show(got, 7)[:300], show(want, 7)[:300]), [got])


def hmac(an, rep, w):
    ro = HmacRoles(an, w)
    if not (ro.sink and ro.idx and ro.buf):
        rep.und(w.name + "/write", w.where, "fields of the stage not recognised: %s %s %s" % (ro.sink, ro.idx, ro.buf))
        return
    w.roles, w.full = ro, full(an, w, ro)
    B, X = field(S, ro.buf), field(S, ro.idx)
    for o in w.oks:
        st = o.arg(1)
        if changed(st) is None:
            rep.und(w.name + "/write", w.where, "state not understood")
            continue
        n = o.payload()
        rep.count("write_outcomes")
        e = emitted(field(st, ro.sink), field(S, ro.sink))
        if e is None:
            rep.und(w.name + "/write", w.where, "what is written is not known")
            continue
        hmac_blocks(rep, w.name + "/write", w.where, o, ro, e, cat(B, subseq(BUF, I(0), n)), field(st, ro.buf), X, False)
        counter(rep, w.name + "/write/counter", w.where, o, ro, st, e)
        progress(rep, w, o, n)
    for r in w.closers:
        run = an.run(r)
        key = "%s/%s" % (w.name, r["name"])
        for o in run.outs:
            if o.variant() == "Err":
                continue
            e = emitted(o.payload(), field(S, ro.sink))
            if e is None:
                (rep.und if vague(o.payload()) else rep.bad)(key, loc(r), "hands back " + show(o.payload(), 5)[:200])
                continue
            rep.count("completion_outcomes")
            hmac_blocks(rep, key, loc(r), o, ro, e, B, EMPTY, X, True)
    for ty, r in an.p.impls_of("std::io::Write", "flush"):
        if last(ty) != w.name:
            continue
        for o in an.run(r).outs:
            if o.variant() == "Err":
                continue
            st = o.arg(1)
            e = emitted(field(st, ro.sink), field(S, ro.sink))
            if e is None:
                rep.und(w.name + "/flush", loc(r), "what is written is not known")
                continue
            hmac_blocks(rep, w.name + "/flush", loc(r), o, ro, e, B, field(st, ro.buf), X, False)
            counter(rep, w.name + "/flush/counter", loc(r), o, ro, st, e)


def counter(rep, key, where, o, ro, st, e):
    bl, why = frame(o, e)
    if bl is None:
        return
    got, want = field(st, ro.idx), add(field(S, ro.idx), I(len(bl)))
    rep.exact(key, where, got, want, "the counter advances by the number of blocks written")


def full(an, w, ro):
    """Bounds the number of buffered bytes never exceeds, from the sizes the stage compares it with."""
    n = length(field(S, ro.buf))
    sizes = {y for o in w.run.outs for k, v in o.facts() if k.op in ("eq", "lt") and mentions(k, n) for y in subterms(k)
             if y.op == "int" and y.args[0] > 0}
    term = lambda x, c: (lt(c, length(field(x, ro.buf))), False)
    return [term(S, c) for c in inductive(an, w.ty, sorted(sizes, key=lambda y: y.args[0]), term)]


def progress(rep, w, o, n):
    """A non-empty write accepts at least one byte."""
    key = w.name + "/write/progress"
    st = o.st.copy()
    st.facts.update(w.full)
    if n is length(BUF) or o.eng.prove_ge(st, sub(n, I(1))):
        rep.ok(key, w.where, "a non-empty write accepts something")
    elif vague(n):
        rep.und(key, w.where, "count not understood")
    else:
        rep.bad(key, w.where, "may accept nothing of a non-empty write: count %s" % show(n, 5)[:160])


def prefix(o, b, n):
    """First n bytes of buffer b as a list of (buffer, count) pieces and single bytes."""
    if n is I(0):
        return []
    if b.op == "upd" and o.eng.prove_ge(o.st, sub(n, add(b.args[1], I(1)))) and o.eng.prove_ge(o.st, sub(add(b.args[1], I(1)), n)):
        return prefix(o, b.args[0], b.args[1]) + [b.args[2]]
    return [("pre", b, n)]


def block(an, rep, w):
    """The block cipher stage: one iteration per byte, whole blocks emitted."""
    key = w.name + "/write"
    p = an.p
    roots = {}
    for L in w.run.eng.loops.values():
        for x, (a, bs) in L["steps"].items():
            if a is not None and a.op == "f" and a.args[0] is S:
                roots.setdefault(L["id"], {})[a.args[1]] = (x, bs)
    loops = [L for L in w.run.eng.loops.values() if L["id"] in roots]
    done = False
    for L in loops:
        r = roots[L["id"]]
        sinkf = [f for f, (x, bs) in r.items() if any(ops(b, "benc") for b in bs)
                 and any(ops(b, "written") for b in bs)]
        cf = [f for f, (x, bs) in r.items() if any(ops(b, "cadv") for b in bs) and f not in sinkf]
        bf = [f for f, (x, bs) in r.items() if any(ops(b, "upd") for b in bs) and f not in sinkf + cf]
        pf = [f for f in r if f not in sinkf + cf + bf]
        if len(sinkf) != 1 or len(cf) != 1 or len(bf) != 1 or len(pf) != 1:
            continue
        done = True
        w.block_roles = (sinkf[0], cf[0], bf[0], pf[0])
        (sx, sb), (cx, cb), (bx, bb), (px, pb) = r[sinkf[0]], r[cf[0]], r[bf[0]], r[pf[0]]
        if not len(sb) == len(cb) == len(bb) == len(pb) == len(L["back"]):
            rep.und(key, w.where, "loop paths not separated")
            continue
        for i, st in enumerate(L["back"]):
            o = Out(w.run.eng, st, UNIT)
            rep.count("loop_paths")
            step(rep, key, w.where, o, sx, sb[i], cx, cb[i], bx, bb[i], px, pb[i])
    if not done:
        rep.und(key, w.where, "the way bytes enter the block buffer is not recognised")
    for o in w.oks:
        n = o.payload()
        if n is length(BUF):
            rep.ok(key + "/count", w.where, "all bytes are accepted and reported")
        else:
            (rep.und if vague(n) and not varies(w.run.eng, sub(length(BUF), n)) else rep.bad)(
                key + "/count", w.where, "reports %s bytes" % show(n, 4)[:120])
    if not done:
        return
    sinkf, cf, bf, pf = w.block_roles
    for r in w.closers:
        run = an.run(r)
        ck = "%s/%s" % (w.name, r["name"])
        for o in run.outs:
            if o.variant() == "Err":
                continue
            rep.count("completion_outcomes")
            v = o.payload()
            if v.op != "written":
                (rep.und if vague(v) else rep.bad)(ck, loc(r), "hands back %s without the final block" % show(v, 5)[:200])
                continue
            e, b = v.args[1], field(S, bf)
            pos = field(S, pf)
            good = (e.op == "benc" and e.args[0] is field(S, cf) and e.args[1].op == "padded"
                    and "Pkcs7" in str(e.args[1].args[0]) and e.args[1].args[1] is b and e.args[1].args[2] is pos)
            if good:
                rep.ok(ck, loc(r), "the buffered bytes are padded (PKCS#7), encrypted and emitted")
            else:
                (rep.und if vague(e, ("default",)) else rep.bad)(ck, loc(r), "the final block is " + show(e, 7)[:300])


def step(rep, key, where, o, sx, s1, cx, c1, bx, b1, px, p1):
    """One iteration: the byte taken from the input is buffered or goes out with the full block."""
    inner = field(variant(sx, "Some"), "0")
    base = s1
    if s1.op == "with":
        base = field(s1, "0")
    elif s1.op == "adt" and s1.args[0] == OPT and s1.args[1] == "Some":
        base = s1.args[3]
    out, c = [], cx
    if s1 is not sx:
        e = emitted(base, inner)
        if e is None:
            e = emitted(s1, sx)
        if e is None:
            rep.und(key, where, "sink after one byte not understood: " + show(s1, 4)[:160])
            return
        for x in parts(e):
            if x.op != "benc" or x.args[0] is not c:
                (rep.und if vague(x, ("loopv", "default")) else rep.bad)(key, where, "emits %s" % show(x, 5)[:200])
                return
            c = T("cadv", c, x.args[1])
            out += prefix(o, x.args[1], length(bx))
            if not (o.eng.prove_ge(o.st, sub(px, sub(length(bx), I(1))))):
                rep.bad(key, where, "a block is emitted before the buffer is full")
                return
    if c1 is not c:
        (rep.und if vague(c1, ("loopv", "default")) else rep.bad)(key, where, "cipher state becomes %s" % show(c1, 5)[:200])
        return
    got = out + prefix(o, b1, p1)
    want = prefix(o, bx, px)
    byte = got[-1] if got and not isinstance(got[-1], tuple) else None

    def same(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a[1] is b[1] and o.eng.prove_ge(o.st, sub(a[2], b[2])) and o.eng.prove_ge(o.st, sub(b[2], a[2]))
        return a is b
    ok = byte is not None and len(got) == len(want) + 1 and all(same(a, b) for a, b in zip(got, want))
    if not ok:
        rep.bad(key, where, "after one more byte the stage holds or emitted %s instead of %s and that byte" % (text(got), text(want)))
        return
    if not (byte.op == "idx" and byte.args[0] is BUF):
        (rep.und if vague(byte, ("loopv",)) else rep.bad)(key, where, "buffers %s instead of a byte of the input" % show(byte, 4)[:120])
        return
    if s1 is sx and not o.eng.prove_ge(o.st, sub(length(bx), add(p1, I(1)))):
        rep.bad(key, where, "a full buffer is not emitted")
        return
    rep.ok(key, where, "each byte is buffered once, full blocks are encrypted in order and emitted")


def text(xs):
    return "[" + ", ".join("%s[..%s]" % (show(x[1], 2), show(x[2], 3)) if isinstance(x, tuple) else show(x, 3) for x in xs)[:200] + "]"


def stream(an, rep, w):
    key = w.name + "/write"
    for o in w.oks:
        rep.count("write_outcomes")
        n, st = o.payload(), o.arg(1)
        ch = changed(st)
        if ch is None:
            rep.und(key, w.where, "state not understood")
            continue
        e = c1 = None
        for f, v in ch.items():
            for base, now in ((field(variant(field(S, f), "Some"), "0"), field(variant(v, "Some"), "0")), (field(S, f), v)):
                x = emitted(now, base)
                if x is not None and x is not EMPTY:
                    e = x
        if e is None:
            if n is I(0) or o.holds(eq(length(BUF), I(0))) is True:
                rep.ok(key, w.where, "nothing to write")
            else:
                (rep.und if any(vague(v) for v in ch.values()) else rep.bad)(key, w.where, "accepts %s bytes but writes nothing on" % show(n, 3)[:80])
            continue
        want = subseq(BUF, I(0), n)
        good = e.op == "ks" and e.args[1] is want and field(st, cipher_field(e, ch)) is T("ksadv", e.args[0], length(want)) \
            if cipher_field(e, ch) else False
        if good:
            rep.ok(key, w.where, "the accepted bytes are encrypted once and written, the cipher advances by their count")
        else:
            (rep.und if vague(e) or vague(n) else rep.bad)(key, w.where, "accepts %s bytes, writes %s; cipher %s" % (
                show(n, 4)[:100], show(e, 6)[:200], "; ".join(show(v, 5)[:120] for f, v in ch.items() if v.op == "ksadv")))
    for r in w.closers:
        ck = "%s/%s" % (w.name, r["name"])
        for o in an.run(r).outs:
            if o.variant() == "Err":
                continue
            v = o.payload() if o.variant() == "Ok" else o.ret
            if v.op in ("vf", "f") and base_sym(v) is S:
                rep.ok(ck, loc(r), "hands back the next stage; nothing is buffered")
            else:
                (rep.und if vague(v) else rep.bad)(ck, loc(r), "hands back " + show(v, 5)[:200])


def cipher_field(e, ch):
    if e.op == "ks":
        for f in ch:
            if e.args[0] is field(S, f):
                return f
    return None


def passing(an, rep, w):
    """A wrapper hands the input to the stage inside and returns its count."""
    key = w.name + "/write"
    for o in w.oks:
        r, st = o.ret, o.arg(1)
        var = "?"
        for k, v in o.facts():
            if v is True and k.op == "isv" and base_sym(k.args[0]) is S:
                var = k.args[1]
        k = "%s/%s" % (key, var)
        wr = [t for t in subterms(r) if t.op == "nwrite"]
        n = o.payload()
        if n.op == "nwrite" and n.args[1] is BUF and any(
                x.op == "written" and x.args[1] is subseq(BUF, I(0), n) for x in subterms(st)):
            rep.ok(k, w.where, "the inner stage's own count of the same bytes is returned")
        elif n is length(BUF) and any(x.op == "written" and x.args[1] is BUF for x in subterms(st)):
            rep.ok(k, w.where, "everything is handed to the inner stage")
        else:
            (rep.und if vague(n) or vague(st) else rep.bad)(k, w.where, "returns %s after handing on %s" % (
                show(n, 4)[:160], "; ".join(show(x.args[1], 4)[:120] for x in subterms(st) if x.op == "written") or "nothing"))


def flushes(an, rep):
    """Flushing changes nothing but what the HMAC stage emits."""
    ws = writers(an)
    for ty, r in an.p.impls_of("std::io::Write", "flush"):
        w = ws.get(ty)
        if w is None or w.kind == "hmac":
            continue
        run = an.run(r)
        key = last(ty) + "/flush"
        if run.incomplete:
            rep.und(key, loc(r), run.incomplete)
            continue
        for o in run.outs:
            if o.variant() == "Err":
                continue
            st = o.arg(1)
            if st is S:
                rep.ok(key, loc(r), "flushing changes no state of the stage")
            elif any(x.op in ("benc", "ks", "written") for x in subterms(st)):
                (rep.und if vague(st) else rep.bad)(key, loc(r), "flushing emits or discards data: " + show(st, 5)[:200])
            else:
                (rep.und if vague(st) else rep.bad)(key, loc(r), "flushing changes the stage to " + show(st, 5)[:200])


def start(an, rep):
    """The stages of a save start empty, with block counter 0, and a save reports success only when all inner steps did."""
    ws = writers(an)
    run = save_run(an)
    where = loc(run.root)
    if run.incomplete:
        rep.und("save", where, run.incomplete)
        return
    for s in saves(an):
        lab = "save/%s/%s" % (s.cipher, s.comp)
        for kind, w, v in s.stack:
            ro = getattr(w, "roles", None)
            if ro is not None:
                rep.exact(lab + "/first-counter", where, o_field(v, ro.idx), I(0), "blocks are counted from zero")
                rep.exact(lab + "/first-buffer", where, o_field(v, ro.buf), EMPTY, "the block buffer starts empty")
            br = getattr(w, "block_roles", None)
            if br is not None:
                rep.exact(lab + "/first-position", where, o_field(v, br[3]), I(0), "the cipher buffer starts empty")
        if s.bytes is not None:
            if contains(s.bytes, lambda t: t.op == "gzcut"):
                rep.bad(lab + "/completed", where, "the compressor is taken apart without being finished, so the end of the data is lost")
            if [x.kind for x in s.closed] == [k for k, _, _ in s.stack]:
                rep.ok(lab + "/completed", where, "success only after each stage was completed")
            else:
                rep.bad(lab + "/completed", where, "succeeds with stages completed: " + (", ".join(x.kind for x in s.closed) or "none"))
        u = untested(s.o)
        if u:
            rep.bad(lab + "/results", where, "succeeds although %s was not seen to succeed" % show(u[0], 4)[:200])
        else:
            rep.ok(lab + "/results", where, "no inner step may have failed")


def varies(eng, d):
    """The term is a loop variable that grows with each round, so it is not always zero."""
    info = eng.loops.get(d.args[0]) if d.op == "loopv" else None
    steps = info["steps"].get(d) if info else None
    return bool(steps) and any(b is not None and b is add(d, I(1)) for b in steps[1])


def o_field(v, f):
    return field(v, f)
