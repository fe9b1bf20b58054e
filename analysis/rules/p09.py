from blocks import *

RULE = ("for every Read implementation, each success outcome is compared with what its source delivered: bytes handed out, bytes "
        "recorded or decrypted, position fields and the returned count must all refer to the bytes actually read, once and in order")


def check(an, rep, tier):
    rs = readers(an)
    if len(rs) < 3:
        raise Missing("the reading stages")
    for ty, r in sorted(rs.items()):
        if r.run.incomplete:
            rep.und(r.name, r.where, r.run.incomplete)
            continue
        rep.count("readers")
        rep.count("read_outcomes", len(r.run.outs))
        for o in r.oks:
            n = o.payload()
            if not (n is I(0) or ge(o, length(BUF), n)):
                (rep.und if vague(n, allow=("loopv", "nread")) else rep.bad)(
                    r.name + "/count", r.where, "returns %s, which may exceed the caller's buffer" % show(n, 5)[:160])
            else:
                rep.ok(r.name + "/count", r.where, "the count never exceeds the caller's buffer")
        if r.kind in ("record", "pass", "stream"):
            direct(rep, r)
        elif r.kind in ("hmac", "hash"):
            blocks(rep, r, 36 if r.kind == "hmac" else 40)
        elif r.kind == "block":
            cipher_blocks(an, rep, r)


def src_of(r):
    """Source term(s) of a direct reader: the field itself or what it points to."""
    f = field(S, r.src)
    return (f, T("deref", f))


def direct(rep, r):
    """One inner read per call, handed on as it is (or after the key stream)."""
    w, key = r.where, r.name
    if r.src is None:
        rep.und(key + "/source", w, "source not identified")
        return
    for o in r.oks:
        n = o.payload()
        x = subseq(o.arg(2), I(0), n)
        reads = [t for t in subterms(x) if t.op == "take"]
        st = o.arg(1)
        if n is I(0):
            if o.holds(eq(length(BUF), I(0))) is True:
                continue
            rep.bad(key + "/end", w, "reports the end of data without asking the source")
            continue
        got = None
        for s in src_of(r):
            if n.op == "nread" and n.args[0] is s:
                got = s
        if got is None:
            other = n.op == "nread"
            (rep.bad if not vague(n, allow=("nread", "deref", "loopv")) else rep.und)(
                key + "/returned", w, "returns %s instead of the number of bytes read" % show(n, 5)[:200])
            continue
        rep.ok(key + "/returned", w, "returns the number of bytes read")
        raw = T("take", got, n)
        if r.kind == "stream":
            cs = [f for f, v in (changed(st) or {}).items() if v.op == "ksadv"]
            c = field(S, cs[0]) if cs else None
            if c is not None and x is T("ks", c, raw) and field(st, cs[0]) is T("ksadv", c, n):
                rep.ok(key + "/bytes", w, "the key stream is applied to exactly the bytes read")
            else:
                adv = [show(v, 5)[:160] for v in (changed(st) or {}).values() if v.op == "ksadv"]
                (rep.und if vague(x, allow=("deref",)) else rep.bad)(
                    key + "/bytes", w, "delivers %s, key stream position %s, for the bytes read %s"
                    % (show(x, 7)[:240], adv, show(raw, 5)[:120]))
        else:
            if x is raw:
                rep.ok(key + "/bytes", w, "delivers exactly the bytes read")
            else:
                (rep.und if vague(x, allow=("deref",)) else rep.bad)(key + "/bytes", w, "delivers %s" % show(x, 7)[:300])
        if r.kind == "record":
            ch = changed(st)
            if ch is None:
                rep.und(key + "/recorded", w, "state not understood: " + show(st, 4)[:160])
            else:
                rec = [(f, v) for f, v in ch.items() if f != r.src]
                good = [f for f, v in rec if v is cat(field(S, f), raw)]
                if len(rec) == 1 and good:
                    rep.ok(key + "/recorded", w, "records exactly the bytes read")
                else:
                    (rep.und if any(vague(v, allow=("deref",)) for f, v in rec) else rep.bad)(
                        key + "/recorded", w, "records %s for the bytes read %s" % (
                            "; ".join("%s = %s" % (f, show(v, 6)[:200]) for f, v in rec) or "nothing", show(raw, 5)[:120]))
        ns = field(st, r.src)
        if got is field(S, r.src):
            rep.exact(key + "/source", w, ns, drop(got, n), "the source advances by the bytes read", allow=("nread",))
    for o in r.errs:
        st = o.arg(1)
        ch = changed(st)
        if r.kind == "record" and ch is not None:
            rec = [f for f in ch if f != r.src]
            rep.judge(key + "/error", w, not rec, "a failed read records nothing", "a failed read changes %s" % ", ".join(rec))


def no_roles(rep, r):
    """A reader without identified position; wrong if bytes are counted as delivered but taken from the front each time."""
    for o in r.oks:
        n = o.payload()
        x = subseq(o.arg(2), I(0), n)
        new = changed(o.arg(1))
        if not (x.op in ("take", "sub") and x is subseq(x.args[0], I(0), n) and x.args[0].op == "f" and x.args[0].args[0] is S and new):
            continue
        for f, t in new.items():
            at = field(S, f)
            if t is add(at, n) and x.args[0].args[1] not in new and o.holds(eq(at, I(0))) is not True:
                rep.bad(r.name + "/delivered", r.where, "bytes are delivered from the front of %s whatever %s is" %
                        (x.args[0].args[1], f))
                return
    rep.und(r.name + "/roles", r.where, "buffer, position and source of the reader not identified")


def blocks(rep, r, at):
    w = r.where
    ro = Roles(r)
    if ro.pos is None or r.src is None:
        no_roles(rep, r)
        return
    for o in r.oks:
        d = Delivery(ro, o)
        if d.kind == "refill":
            fresh_block(rep, r.name + "/block", w, d, at, at - 4, ())
        elif d.kind == "pending":
            check_pending(rep, r.name + "/pending", w, d)
        elif d.kind == "none":
            if o.holds(eq(length(BUF), I(0))) is not True:
                rep.bad(r.name + "/end", w, "reports the end of data without asking the source")
        else:
            rep.und(r.name + "/state", w, "state after reading not understood: " + show(d.st, 4)[:200])


def bounds_read(k, v, n):
    """The fact says something about the count n of bytes read, beyond its not being zero or too large."""
    if k is eq(n, I(0)) or k.op == "lt" and k.args[1] is n and v is False:
        return False

    def seen(t):
        return t is n or t.op not in ("drop", "fall") and any(seen(a) for a in t.args if isinstance(a, Term))
    return seen(k)


def fill_loop(o, r, t):
    """The loop that fills a cipher block: (problem, unsure, first byte or None, count loopv, source loopv)."""
    if t.op != "loopv":
        once = t.op == "splice" and t.args[2].op == "nread" and t.args[3].op == "take" and t.args[3].args[1] is t.args[2]
        if once and not any(bounds_read(k, v, t.args[2]) for k, v in o.facts()):
            return "the block is filled by a single read, which may deliver less: " + show(t, 5)[:200], False, None, None, None
        return "block is " + show(t, 5)[:200], True, None, None, None
    info = o.eng.loops.get(t.args[0])
    if not info or t not in info["steps"]:
        return "fill loop not understood", True, None, None, None
    steps = info["steps"]
    s = k = None
    for x, (i, bs) in steps.items():
        if i is field(S, r.src):
            s = x
        elif i is not None and i.op == "int":
            k = x
    if s is None or k is None:
        return "fill loop not understood", True, None, None, None
    binit, bsteps = steps[t]
    kinit = steps[k][0].args[0]
    first = None
    prob = None
    if kinit == 1:
        if binit.op == "upd" and binit.args[1] is I(0):
            first = binit.args[2]
        else:
            prob = "one byte is counted as present but the buffer starts as " + show(binit, 5)[:160]
    elif kinit != 0:
        prob = "filling starts at offset %d" % kinit
    for j in range(len(bsteps)):
        sv, kv, bv = steps[s][1][j], steps[k][1][j], bsteps[j]
        if sv is None or kv is None or bv is None:
            return "fill loop not understood", True, None, None, None
        n = sub(kv, k)
        if sv is not drop(s, n):
            prob = prob or "the fill count advances by %s while the source advances to %s" % (show(n, 5)[:160], show(sv, 5)[:200])
        raw = T("take", s, n)
        forms = (splice(t, k, add(k, n), raw),
                 splice(t, k, length(t), splice(subseq(t, k, length(t)), I(0), n, raw)))
        if bv not in forms:
            prob = prob or "the buffer becomes %s" % show(bv, 8)[:300]
        if n.op != "nread" or n.args[0] is not s:
            prob = prob or "the fill count advances by " + show(n, 5)[:200]
    return prob, False, first, k, s


def cipher_blocks(an, rep, r):
    w, key = r.where, r.name
    ro = Roles(r)
    if ro.pos is None or r.src is None:
        no_roles(rep, r)
        return
    src = field(S, r.src)
    flds = an.p.fields(r.name)
    for o in r.oks:
        d = Delivery(ro, o)
        if d.ch is None:
            rep.und(key + "/state", w, "state after reading not understood: " + show(d.st, 4)[:200])
            continue
        moved = {f for f in d.ch if f != ro.pos}
        if not moved and d.empty is not True:
            check_pending(rep, key + "/pending", w, d)
            continue
        if d.empty is not True:
            rep.bad(key + "/refill", w, "a new block is loaded while decrypted bytes are still pending")
            continue
        bd = [t for t in subterms(d.st) if t.op == "bdec"]
        if not bd:
            # end of data
            end_case(rep, r, ro, d, o)
            continue
        bd = bd[0]
        cf = [f for f in flds if field(S, f) is bd.args[0]]
        prob, unsure, first, k, s = fill_loop(o, r, bd.args[1])
        if prob:
            (rep.und if unsure else rep.bad)(key + "/fill", w, prob)
            continue
        rep.ok(key + "/fill", w, "the block is the look-ahead byte followed by bytes read, to its full length")
        # complete before decryption
        full = o.holds(lt(k, length(bd.args[1])))
        rep.judge(key + "/full", w, True if full is False else None if full is None else False,
                  "a block is decrypted only when complete", "a partly filled block is decrypted")
        if first is not None:
            pk = [f for f in flds if field(variant(field(S, f), "Some"), "0") is first]
            rep.judge(key + "/look-ahead", w, True if pk and o.holds(isv(field(S, pk[0]), "Some")) else False,
                      "the look-ahead byte comes first", "first byte is " + show(first, 5)[:120])
        rep.exact(key + "/chain", w, field(d.st, cf[0]) if cf else T("unk"), T("cadv", bd.args[0], bd.args[1]),
                  "the cipher state moves on by this block", allow=("loopv",))
        # look-ahead after the block
        nr = T("nread", s, I(1))
        last_ = o.holds(eq(nr, I(0)))
        inner = field(d.st, r.src)
        want_inner = (drop(s, nr), drop(s, I(1)), s) if last_ else (drop(s, nr), drop(s, I(1)))
        if last_ is None:
            rep.bad(key + "/last", w, "it is not determined whether the block is the last one")
            continue
        pend = d.ro.end(d.st)
        pk2 = [(f, v) for f, v in d.ch.items() if v.op == "adt" and v.args[0] == OPT]
        if last_ is True:
            un = pend.op == "len" and pend.args[0].op == "unpad" and pend.args[0].args[1] is bd
            padok = [k_ for k_, v in o.facts() if v is True and k_.op == "isv" and k_.args[1] == "Ok" and k_.args[0].op == "fall"
                     and k_.args[0].args[0] == "unpad" and k_.args[0].args[2] is bd]
            rep.judge(key + "/padding", w, bool(un and padok), "the last block ends where its padding begins",
                      "the last block is delivered up to %s%s" % (show(pend, 6)[:200], "" if padok else " without valid padding"))
            if any(v.args[1] == "Some" for f, v in pk2):
                rep.bad(key + "/look-ahead-end", w, "a look-ahead byte is kept although the source has ended")
        else:
            fullp = pend is length(bd) or pend is length(bd.args[1]) or (pend is k)
            rep.judge(key + "/middle", w, True if fullp else (None if vague(pend, allow=("loopv",)) else False),
                      "a block that is not the last is delivered whole", "a middle block is delivered up to " + show(pend, 6)[:200])
            b1 = [v for f, v in pk2 if v.args[1] == "Some" and next_byte(v.args[3], s)]
            rep.judge(key + "/look-ahead-kept", w, bool(b1), "the look-ahead byte is kept for the next block",
                      "the byte read ahead is lost: " + "; ".join(show(v, 6)[:120] for f, v in pk2))
        rep.judge(key + "/source", w, inner in want_inner, "the source stands after the look-ahead byte",
                  "the source is left at " + show(inner, 6)[:200])
        if ro.data(d.st) is not bd:
            rep.bad(key + "/buffer", w, "the buffer holds " + show(ro.data(d.st), 6)[:200])
        elif d.x is not subseq(bd, I(0), d.n):
            rep.bad(key + "/delivered", w, "delivers " + show(d.x, 6)[:200])
        elif ro.at(d.st) is not d.n:
            rep.bad(key + "/position", w, "position becomes " + show(ro.at(d.st), 6)[:200])
        elif not (ge(o, pend, d.n) or d.n is pend):
            rep.bad(key + "/delivered", w, "may deliver more than the block's content")
        elif not (d.n is length(BUF) or d.n is pend):
            (rep.und if vague(d.n, allow=("loopv",)) else rep.bad)(key + "/delivered", w, "returns " + show(d.n, 6)[:200])
        else:
            rep.ok(key + "/delivered", w, "decrypted bytes are delivered from the start of the block")


def next_byte(t, s):
    if t.op != "idx" or t.args[1] is not I(0):
        return False
    x = t.args[0]
    raws = (T("take", s, T("nread", s, I(1))), T("take", s, I(1)))
    return x in raws or (x.op == "splice" and x.args[3] in raws and x.args[1] is I(0))


def end_case(rep, r, ro, d, o):
    """Success without a decrypted block: only at the end of the source."""
    w, key = r.where, r.name + "/end"
    if o.holds(eq(length(BUF), I(0))) is True and d.n in (I(0), length(BUF)):
        rep.ok(key, w, "an empty request")
        return
    if d.n is not I(0):
        (rep.und if vague(d.x) or vague(d.n) else rep.bad)(key, w, "delivers %s without a decrypted block" % show(d.x, 5)[:200])
        return
    if ro.pending(d.st) is not I(0):
        (rep.und if vague(ro.pending(d.st)) else rep.bad)(key, w, "bytes count as pending after the end")
        return
    # either nothing was ever read ahead, or the source ended on a block boundary
    eofs = [k for k, v in o.facts() if v is True and k.op == "eq" and any(x.op == "nread" for x in k.args) and I(0) in k.args]
    if eofs:
        q = [x for x in eofs[0].args if x.op == "nread"][0]
        info = o.eng.loops.get(q.args[0].args[0]) if q.args[0].op == "loopv" else None
        ks = [x for x, (i, bs) in (info["steps"] if info else {}).items() if i is not None and i.op == "int"]
        if ks:
            z = o.holds(eq(ks[0], I(0)))
            rep.judge(key + "/boundary", w, True if z is True else (None if vague(ks[0], allow=("loopv",)) else False),
                      "the source ended on a block boundary",
                      "a source that ends inside a block is reported as the regular end of data")
        else:
            rep.ok(key, w, "the source has ended")
        return
    la = [k for k, v in o.facts() if v is False and k.op == "isv" and k.args[1] == "Some" and base_sym(k.args[0]) is S]
    rep.judge(key + "/no-look-ahead", w, bool(la), "no byte was left after the last block",
              "the end of data is reported without the source having ended")
