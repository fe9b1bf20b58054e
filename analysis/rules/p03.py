from blocks import *

RULE = ("every version 3 unlock must compare the first 32 decrypted bytes with the header's start bytes, and read the rest "
        "through the hashed block reader, which may deliver only bytes of blocks whose SHA-256 was compared on the same path")


def covered(u, want, cval):
    """Positions of the start bytes compared with the same position of the decrypted data, None if other conditions are involved."""
    out = set()
    for k, v in u.o.facts():
        if not mentions(k, want) or k.op == "isv":
            continue
        if all(x.op == "len" for x in subterms(k) if want in x.args):
            continue
        if k.op != "eq":
            return None
        a, b = [u.o.eng.snap(u.o.st, x) for x in k.args]
        a, b = (a, b) if mentions(a, want) else (b, a)
        x, y = within(a, lambda t: t is want), within(b, lambda t: unbox(t) is unbox(cval))
        if x is None or y is None:
            return None
        if v is True and x == y and x[1] is not None:
            out |= set(range(*x))
    return out


def within(t, isbase):
    """The constant range of the base that t is, or None."""
    if isbase(t):
        return 0, None
    if t.op not in ("take", "drop", "sub") or any(not isinstance(x, Term) or x.op != "int" for x in t.args[1:]):
        return None
    r = within(t.args[0], isbase)
    if r is None:
        return None
    n = [x.args[0] for x in t.args[1:]]
    lo, hi = {"take": (0, n[0]), "drop": (n[0], None), "sub": (n[0], n[-1])}[t.op]
    return r[0] + lo, r[1] if hi is None else r[0] + hi


def check(an, rep, tier):
    rs = [r for r in readers(an).values() if r.kind == "hash"]
    if not rs:
        raise Missing("a Read implementation that verifies block hashes")
    for r in rs:
        reader(an, rep, r)
    pipeline(an, rep, rs)


def hash_problem(o, body, digest):
    fs = hash_facts(o)
    if not fs:
        return "no hash was compared", False
    for m, d in fs:
        if m is body and d is digest:
            return None, None
    m, d = fs[0]
    if m is not body:
        return "the hash covers " + show(m, 6)[:240], vague(m)
    return "the hash is compared with " + show(d, 6)[:240], vague(d)


def reader(an, rep, r):
    w = r.where
    if r.run.incomplete:
        rep.und("hash-reader", w, r.run.incomplete)
        return
    ro = Roles(r)
    if ro.pos is None or r.src is None:
        rep.und("hash-reader/roles", w, "buffer, position and source of the reader not identified")
        return
    r.roles = ro
    rep.count("reader_outcomes", len(r.run.outs))
    src = field(S, r.src)
    dig = T("take", drop(src, I(4)), I(32))
    for o in r.oks:
        d = Delivery(ro, o)
        if d.kind == "refill":
            got = fresh_block(rep, "hash-reader/block", w, d, 40, 36, ())
            body = got[2] if got else ro.data(d.st)
            pr, v = hash_problem(o, body, dig)
            if pr is None:
                rep.ok("hash-reader/verified", w, "the block's SHA-256 over its data holds before delivery")
            else:
                (rep.und if v else rep.bad)("hash-reader/verified", w, "block data is delivered although " + pr)
        elif d.kind == "pending":
            check_pending(rep, "hash-reader/pending", w, d)
        elif d.kind == "none":
            if o.holds(eq(length(BUF), I(0))) is True:
                rep.ok("hash-reader/empty-request", w, "an empty request reads nothing")
            else:
                rep.bad("hash-reader/end", w, "reports the end of data without a verified empty block")
        else:
            rep.und("hash-reader/state", w, "state after reading not understood: " + show(d.st, 4)[:200])
    check_errors(rep, "hash-reader/after-error", w, ro, lambda o, b: hash_problem(o, b, dig)[0] is None)


def pipeline(an, rep, rs):
    p = an.p
    run = unlock_run(an)
    w = loc(run.root)
    if run.incomplete:
        rep.und("unlock", w, run.incomplete)
        return
    _, _, data_f = locked_roles(an)
    n = 0
    for u in unlocks(an):
        if u.v == 4:
            continue
        n += 1
        lab = "%s/%s" % (u.cipher, u.comp)
        if u.stack is None:
            if u.xml is not None and (u.cut or not vague(u.xml)):
                rep.bad("pipeline/" + lab, w, "content does not come from a reading pipeline: " + show(u.xml, 6)[:300])
            else:
                rep.und("pipeline/" + lab, w, "content not traced to a reading pipeline")
            continue
        kinds = [k for k, _, _, _ in u.stack]
        if u.source is None or vague(u.source):
            rep.und("pipeline/" + lab, w, "source not understood")
            continue
        good = [k for k in kinds if k != "gzip"]
        if len(good) == 2 and good[0] == "hash" and good[1] in ("block", "stream") and u.source is field(u.base, data_f) \
                and kinds[0] in ("gzip", "hash"):
            rep.ok("pipeline/" + lab, w, "stages " + ", ".join(kinds) + " over the stored payload")
        else:
            rep.bad("pipeline/" + lab, w, "stages %s over %s: content is not fed by verified blocks of the decrypted payload"
                    % (", ".join(kinds), show(u.source, 5)[:200]))
            continue
        kd, cr, cval, skip = u.stack[-1]
        if skip is I(32):
            rep.ok("start-bytes-skipped/" + lab, w, "blocks begin after the 32 start bytes")
        else:
            rep.bad("start-bytes-skipped/" + lab, w, "blocks are read from decrypted offset %s" % show(skip, 4))
        want = field(variant(field(u.hdr, "stream_start_bytes"), "Some"), "0")
        starts = []
        isfirst = lambda y: y.op == "take" and y.args[1] is I(32) and unbox(y.args[0]) is unbox(cval)
        differ = prefix = False
        for k, v in u.o.facts():
            if k.op in ("eq", "starts_with") and want in k.args:
                y = u.o.eng.snap(u.o.st, k.args[0] if k.args[1] is want else k.args[1])
                if isfirst(y):
                    differ = differ or k.op == "eq" and v is False
                    prefix = prefix or k.op != "eq" and v is True
            if v is True and k.op == "eq" and want in k.args:
                y = k.args[0] if k.args[1] is want else k.args[1]
                starts.append(u.o.eng.snap(u.o.st, y))
        first = [y for y in starts if isfirst(y)]
        if first or prefix and u.o.holds(eq(length(want), I(32))) is True:
            rep.ok("start-bytes/" + lab, w, "first 32 decrypted bytes equal the header's start bytes")
        elif differ:
            rep.bad("start-bytes/" + lab, w, "unlocking can succeed although the first 32 decrypted bytes differ from the start bytes")
        elif prefix:
            rep.bad("start-bytes/" + lab, w, "start bytes of another length than 32 are compared as a prefix only")
        elif not starts and covered(u, want, cval) is not None:
            got = covered(u, want, cval)
            good = got >= set(range(32)) and u.o.holds(eq(length(want), I(32))) is True
            (rep.ok if good else rep.bad)("start-bytes/" + lab, w, "each of the first 32 decrypted bytes is compared" if good else
                                          "only %d of the 32 start bytes are compared" % len(got))
        elif not starts:
            odd = [k for k, v in u.o.facts() if mentions(k, want) and k.op not in ("isv",)]
            if odd and any(vague(k) for k in odd):
                rep.und("start-bytes/" + lab, w, "condition on the start bytes not understood: " + show(odd[0], 6)[:200])
            else:
                rep.bad("start-bytes/" + lab, w, "unlocking succeeds without comparing the start bytes"
                        + (": only %s" % show(odd[0], 8)[:200] if odd else ""))
        else:
            (rep.und if vague(starts[0], allow=("call",)) else rep.bad)(
                "start-bytes/" + lab, w, "the start bytes are compared with " + show(starts[0], 8)[:300])
        hr, hv = [(x[1], x[2]) for x in u.stack if x[0] == "hash"][0]
        ro = getattr(hr, "roles", None)
        if ro is not None:
            q = ro.pending(hv)
            rep.judge("start-buffer/" + lab, w, True if q is I(0) else (None if vague(q) else False),
                      "no bytes are pending before the first block", "the reader starts with pending bytes")
        if kinds[0] == "gzip":
            from rules.p02 import drained
            if not drained(u, kinds):
                rep.bad("gzip-tail", w, "after the compressed content ends the remaining blocks are not read, so their absence "
                        "goes unnoticed")
    if not n:
        raise Missing("a success outcome of unlocking a version 3 archive")
    rep.count("pipelines", n)
