"""Buffered stage readers: which field holds data, position and limit, and what a refill brings."""
from stages import *


class Roles:
    """Field names of a buffered reader, found from how pending bytes are delivered."""

    def __init__(self, rd):
        self.rd = rd
        self.buf = self.pos = self.lim = None
        for o in rd.oks:
            n = o.payload()
            x = subseq(o.arg(2), I(0), n)
            if x.op in ("sub", "drop", "take") and x.args[0].op == "f" and x.args[0].args[0] is S:
                a = x.args[1] if x.op != "take" else None
                if a is not None and a.op == "f" and a.args[0] is S:
                    self.buf, self.pos = x.args[0].args[1], a.args[1]
                    break
        if self.pos is None:
            return
        p = field(S, self.pos)
        for o in rd.run.outs:
            for k, v in o.facts():
                if k.op == "eq" and p in k.args:
                    q = k.args[0] if k.args[1] is p else k.args[1]
                    if q.op == "f" and q.args[0] is S:
                        self.lim = q.args[1]

    def data(self, st):
        return field(st, self.buf)

    def at(self, st):
        return field(st, self.pos)

    def end(self, st):
        return field(st, self.lim) if self.lim else length(self.data(st))

    def pending(self, st):
        return sub(self.end(st), self.at(st))


def changed(st):
    """Fields of the state that differ from the entry state."""
    if st is S:
        return {}
    if st.op == "with" and st.args[0] is S:
        return dict(st.args[1])
    return None


def ge(o, a, b):
    return o.eng.prove_ge(o.st, sub(a, b))


class Delivery:
    """What one successful read call delivers."""

    def __init__(self, ro, o):
        self.o, self.ro = o, ro
        self.n = o.payload()
        self.x = subseq(o.arg(2), I(0), self.n)
        self.st = o.arg(1)
        self.ch = changed(self.st)
        self.empty = o.holds(eq(ro.pending(S), I(0)))
        if self.empty is None:
            self.empty = o.holds(eq(ro.end(S), ro.at(S)))
        self.kind = None
        if self.ch is None:
            return
        rest_ = {f for f in self.ch if f != ro.pos}
        if not rest_ and (self.ch or self.n is I(0)):
            self.kind = "pending"
        elif not rest_:
            self.kind = "none"
        else:
            self.kind = "refill"

    def counts(self):
        """Is the returned count the whole of what is available or of the caller's buffer?"""
        n = self.n
        if n is length(BUF):
            return True
        avail = self.ro.pending(S) if self.kind == "pending" else self.ro.end(self.st)
        return n is avail or self.o.holds(eq(n, avail)) is True


def check_pending(rep, key, where, d):
    """Pending bytes are delivered in order and marked as delivered."""
    ro, o = d.ro, d.o
    want = subseq(ro.data(S), ro.at(S), add(ro.at(S), d.n))
    bad = None
    if d.x is not want:
        bad = "delivers %s instead of the pending bytes" % show(d.x, 6)[:300]
    elif ro.at(d.st) is not add(ro.at(S), d.n):
        bad = "position becomes %s after delivering %s bytes" % (show(ro.at(d.st), 5)[:200], show(d.n, 5)[:120])
    elif not ge(o, ro.pending(S), d.n):
        if vague(d.n):
            rep.und(key, where, "count not understood")
            return
        bad = "may deliver more bytes than are pending"
    elif not d.counts():
        if vague(d.n):
            rep.und(key, where, "count not understood")
            return
        bad = "returns %s although more is pending and the caller's buffer has room" % show(d.n, 5)[:200]
    elif d.n is not length(BUF) and d.empty is not False:
        bad = "reports the end of data when the buffer is used up, without looking for the next block"
    if bad is None:
        rep.ok(key, where, "pending bytes are delivered in order, once")
    elif vague(d.x) or vague(d.st):
        rep.und(key, where, bad)
    else:
        rep.bad(key, where, bad)


def fresh_block(rep, key, where, d, body_at, len_at, data_fields):
    """A refill installs the complete body of the next block: returns (src, length, body) or None."""
    ro, o = d.ro, d.o
    src = field(S, ro.rd.src)
    ln = unle(4, T("take", drop(src, I(len_at)), I(4)))
    body = T("take", drop(src, I(body_at)), ln)
    probs = []
    if d.empty is not True:
        probs.append("a new block is loaded while bytes are still pending")
    got = ro.data(d.st)
    if got is not body:
        probs.append("the buffer holds %s, not the next block's data" % show(got, 6)[:240])
    if field(d.st, ro.rd.src) is not drop(src, add(ln, I(body_at))):
        probs.append("the source is left at %s" % show(field(d.st, ro.rd.src), 6)[:240])
    if ro.lim and ro.end(d.st) is not ln and ro.end(d.st) is not length(body):
        probs.append("the limit is %s" % show(ro.end(d.st), 5)[:200])
    if d.x is not subseq(body, I(0), d.n):
        probs.append("delivers %s" % show(d.x, 6)[:240])
    if ro.at(d.st) is not d.n:
        probs.append("position becomes %s" % show(ro.at(d.st), 5)[:200])
    if not ge(o, ln, d.n) and not ge(o, length(body), d.n):
        probs.append("may deliver more bytes than the block has")
    if not d.counts() and d.n is not ln:
        probs.append("returns %s" % show(d.n, 5)[:200])
    if not probs:
        rep.ok(key, where, "the next block is loaded whole and delivered from its start")
        return src, ln, body
    if vague(d.st) or vague(d.x) or vague(d.n):
        rep.und(key, where, "; ".join(probs)[:500])
    else:
        rep.bad(key, where, "; ".join(probs)[:700])
    return None


def check_errors(rep, key, where, ro, ver):
    """After an error no unverified data is pending. ver(o, body): was body verified in o?"""
    for o in ro.rd.errs:
        st = o.arg(1)
        b = ro.data(st)
        if b is ro.data(S) or b is EMPTY or o.holds(eq(ro.pending(st), I(0))) is True or ro.pending(st) is I(0):
            rep.ok(key, where, "an error leaves no unverified bytes pending")
        elif ver(o, b):
            rep.ok(key, where, "an error leaves no unverified bytes pending")
        elif vague(b):
            rep.und(key, where, "buffer after an error not understood: " + show(b, 5)[:200])
        else:
            rep.bad(key, where, "after a failed read the unverified bytes %s stay readable" % show(b, 6)[:300])
