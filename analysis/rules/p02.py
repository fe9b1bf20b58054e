from blocks import *

RULE = ("every byte the HMAC block reader delivers must be pending from a verified block or from a block whose HMAC over "
        "counter, length and data was checked on the same path, with the counter advancing by one from zero; every "
        "version 4 decryption pipeline must read the payload through that reader")


def check(an, rep, tier):
    rs = [r for r in readers(an).values() if r.kind == "hmac"]
    if not rs:
        raise Missing("a Read implementation that verifies block HMACs")
    for r in rs:
        reader(an, rep, r)
    pipeline(an, rep, rs)


def mac_problem(o, ctr, lenb, body, tag):
    """None when a holding HMAC check covers counter, length and body; otherwise a description."""
    facts = mac_facts(o)
    if not facts:
        return "no HMAC was verified", False
    msgs = []
    for key, msg, t in facts:
        if t is not tag:
            msgs.append(("the HMAC is compared with " + show(t, 5)[:160], vague(t)))
            continue
        good = [cat(le(8, ctr), le(4, length(body)), body), cat(le(8, ctr), lenb, body)]
        if msg not in good:
            msgs.append(("the HMAC covers " + show(msg, 8)[:300], vague(msg)))
            continue
        if not (key.op == "sha512" and len(parts(key.args[0])) == 2 and parts(key.args[0])[0] is le(8, ctr)
                and base_sym(parts(key.args[0])[1]) is S):
            msgs.append(("the HMAC key is " + show(key, 8)[:300], vague(key)))
            continue
        return None, parts(key.args[0])[1]
    return msgs[0]


def reader(an, rep, r):
    w = r.where
    if r.run.incomplete:
        rep.und("hmac-reader", w, r.run.incomplete)
        return
    ro = Roles(r)
    if ro.pos is None or r.src is None:
        rep.und("hmac-reader/roles", w, "buffer, position and source of the reader not identified")
        return
    rep.count("reader_outcomes", len(r.run.outs))
    r.roles, r.ctr, r.hk = ro, None, None
    for o in r.oks:
        d = Delivery(ro, o)
        if d.kind == "refill":
            fresh(rep, r, ro, d)
        elif d.kind == "pending":
            check_pending(rep, "hmac-reader/pending", w, d)
        elif d.kind == "none":
            if o.holds(eq(length(BUF), I(0))) is True:
                rep.ok("hmac-reader/empty-request", w, "an empty request reads nothing")
            else:
                rep.bad("hmac-reader/end", w, "reports the end of data without an authenticated empty block")
        else:
            rep.und("hmac-reader/state", w, "state after reading not understood: " + show(d.st, 4)[:200])

    def ver(o, body):
        ctrs = [f for f in an.p.fields(r.name)]
        src = field(S, r.src)
        return any(mac_problem(o, field(S, f), T("take", drop(src, I(32)), I(4)), body, T("take", src, I(32)))[0] is None
                   for f in ctrs)
    check_errors(rep, "hmac-reader/after-error", w, ro, ver)


def fresh(rep, r, ro, d):
    o, w = d.o, r.where
    got = fresh_block(rep, "hmac-reader/block", w, d, 36, 32, ())
    if got is None:
        src = field(S, r.src)
        lenb = T("take", drop(src, I(32)), I(4))
        body = ro.data(d.st)
    else:
        src, ln, body = got
        lenb = T("take", drop(src, I(32)), I(4))
    tag = T("take", src, I(32))
    steps = [f for f, v in d.ch.items() if f not in (ro.pos, ro.lim) and v in (add(field(S, f), I(1)), T("wrap", "u64", add(field(S, f), I(1))))]
    cand = steps or [f for f, v in d.ch.items() if f not in (ro.pos, ro.lim, ro.buf, r.src)] or \
        [None]
    probs = []
    for f in cand:
        c = field(S, f) if f else None
        pr, hk = mac_problem(o, c, lenb, body, tag) if c is not None else ("no block counter advances", False)
        if pr is None:
            rep.ok("hmac-reader/verified", w, "the block's HMAC over counter, length and data holds before delivery")
            if f in steps:
                rep.ok("hmac-reader/counter", w, "block counter advances by one")
                r.ctr, r.hk = f, hk
            else:
                v = d.ch[f]
                (rep.und if vague(v, allow=("wrap",)) else rep.bad)("hmac-reader/counter", w, "block counter becomes " + show(v, 5)[:160])
            return
        probs.append((pr, hk))
    pr, v = probs[0]
    if cand == [None]:
        # which counter does the check use?
        c = [field(S, f) for f in set_fields(o)]
        hit = [x for x in c if mac_problem(o, x, lenb, body, tag)[0] is None]
        if hit:
            rep.bad("hmac-reader/counter", w, "the block counter %s does not advance" % show(hit[0], 4))
            return
        pr, v = (mac_problem(o, I(-1), lenb, body, tag))
    (rep.und if v else rep.bad)("hmac-reader/verified", w, "block data is delivered although " + pr)


def set_fields(o):
    out = set()
    for k, v in o.facts():
        for t in subterms(k):
            if t.op == "f" and t.args[0] is S:
                out.add(t.args[1])
    return sorted(out)


def pipeline(an, rep, rs):
    p = an.p
    run = unlock_run(an)
    w = loc(run.root)
    if run.incomplete:
        rep.und("unlock", w, run.incomplete)
        return
    _, _, data_f = locked_roles(an)
    n = 0
    for u in unlocks(an):
        if u.v == 3:
            continue
        n += 1
        lab = "%s/%s" % (u.cipher, u.comp)
        if u.stack is None:
            if u.xml is not None and (u.cut or not vague(u.xml)):
                rep.bad("pipeline/" + lab, w, "content does not come from a reading pipeline: " + show(u.xml, 6)[:300])
            else:
                rep.und("pipeline/" + lab, w, "content not traced to a reading pipeline")
            continue
        kinds = [k for k, _, _, _ in u.stack]
        src_ok = u.source is field(u.base, data_f)
        if kinds and kinds[-1] == "hmac" and kinds.count("hmac") == 1 and src_ok and all(
                x[3] is I(0) for x in u.stack[-1:]):
            rep.ok("pipeline/" + lab, w, "stages " + ", ".join(kinds) + " over the stored payload")
        elif "hmac" not in kinds and u.source is not None and not vague(u.source):
            rep.bad("pipeline/" + lab, w, "a version 4 payload is read through %s without the HMAC block reader" % ", ".join(kinds))
            continue
        elif u.source is None or vague(u.source):
            rep.und("pipeline/" + lab, w, "source not understood")
            continue
        else:
            rep.bad("pipeline/" + lab, w, "stages %s over %s: decryption is not fed directly by verified blocks of the whole payload"
                    % (", ".join(kinds), show(u.source, 5)[:200]))
            continue
        r, val = [(x[1], x[2]) for x in u.stack if x[0] == "hmac"][0]
        ro = getattr(r, "roles", None)
        if ro is None:
            continue
        if r.ctr:
            rep.exact("start-counter/" + lab, w, field(val, r.ctr), I(0), "first block has position 0")
        st = o_pending(u.o, ro, val)
        rep.judge("start-buffer/" + lab, w, st, "no bytes are pending before the first block",
                  "the reader starts with pending bytes " + show(ro.data(val), 4)[:160])
        if r.hk is not None:
            mk, prob = expected_master(an, u.o, u.hdr, T("sym", "arg2"))
            want = spec.hmac_key(field(u.hdr, "master_seed"), master_bytes(p, mk)) if mk is not None else None
            if want is not None:
                rep.exact("block-key/" + lab, w, subst(r.hk, {S: val}), want, "HMAC key of the archive", allow=tuple(opaque_keys(p)))
        if kinds[0] == "gzip" and not drained(u, kinds):
            rep.bad("gzip-tail", w, "after the compressed content ends the remaining blocks and the closing empty block are "
                    "not read, so their absence goes unnoticed")
    if not n:
        raise Missing("a success outcome of unlocking a version 4 archive")
    rep.count("pipelines", n)


def drained(u, kinds):
    """Is the stage below the decompressor read to its end on this path?"""
    inner = [x[2] for x in u.stack if x[0] != "gzip"][0]
    for k, v in u.o.facts():
        if v is True and k.op == "isv" and k.args[0].op == "fall" and k.args[0].args[0] == "read_all":
            x = u.o.eng.snap(u.o.st, source_of(u.o, k.args[0].args[2]))
            if x is not None and not contains(x, lambda t: t.op in ("gunzip", "loopv")):
                return True
    return False


def o_pending(o, ro, val):
    q = ro.pending(val)
    if q is I(0) or o.holds(eq(q, I(0))) is True:
        return True
    return None if vague(q) else False
