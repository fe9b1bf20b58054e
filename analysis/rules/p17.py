from lib import *
from terms import children
import xmlmap

RULE = ("in the match of the written token tree with the parsing loops the key-stream position is carried along: the "
        "position at which the reader applies the cipher must be the term at which the writer applied it, after every item; "
        "plain texts must not contain a protected value")


def check(an, rep, tier):
    p = an.p
    w, r = p.one(None, "write_xml"), p.one(None, "parse_xml")
    m = xmlmap.Match(an, rep, True)
    try:
        n = m.match(w["path"], r["path"])
        rep.count("writer_reader_pairs", n)
        rep.count("tokens_matched", m.events_matched)
        written(an, rep, m)
    except xmlmap.Unclosed as e:
        rep.bad("document", loc(w), str(e))
    except xmlmap.Giveup as e:
        rep.und("document", loc(r), str(e))
    rep.assumption("xml-rs delivers the events that were written, in order; try_apply_keystream XORs the next len bytes of the "
                   "stream and advances by len")


def written(an, rep, m):
    """No text contains a protected value except under the cipher; every text under the cipher carries the mark."""
    p = an.p
    var = "Protected"
    if not any(a.get("local") and var in [v["name"] for v in a["variants"]] for a in p.adts.values()):
        raise Missing("variant Value::" + var)
    for path, (run, doc, ciph, rest, alts) in sorted(m.wr.memo.items()):
        m.objname = m.ctxname = "obj"
        where = loc(run.root)
        for a in alts:
            walk(rep, path, where, a.toks, var)


def walk(rep, path, where, toks, var):
    name = path.split("::")[-1]
    attrs = []
    for t in toks:
        if t[0] == "start":
            attrs.append((t[1], t[2]))
        elif t[0] == "end":
            attrs.pop()
        elif t[0] == "rep":
            for a in t[1].alts:
                walk(rep, path, where, a.toks, var)
        elif t[0] == "text":
            rep.count("texts")
            raw = exposed(t[1], var)
            rep.judge("plain:" + name, where, not raw, "no protected value outside the cipher",
                      "a protected value is written without the inner stream cipher: %s" % show(t[1], 8)[:200])
            under = [x for x in subterms(t[1]) if x.op == "ks"]
            if under:
                tag, at = attrs[-1]
                ok_ = any(a.op == "str" and a.args[0] == "Protected" and b.op == "str" and b.args[0].lower() == "true"
                          for a, b in at)
                rep.judge("flag:" + name, where, ok_, "flagged", "an encrypted text is not flagged as protected")
                for x in under:
                    rep.judge("once:" + name, where, x.args[1].op != "ks", "one application",
                              "the cipher is applied more than once to a value")
        if t[0] == "start":
            for a, b in t[2]:
                if exposed(b, var) or exposed(a, var):
                    rep.bad("plain:" + name, where, "a protected value is written as an attribute")


def exposed(t, var):
    """The protected text occurs outside the cipher."""
    if t.op == "ks":
        return False
    if t.op == "vf" and t.args[1] == var:
        return True
    return any(exposed(x, var) for x in children(t))
