from lib import *
import xmlmap

RULE = ("the token tree written for a database (tags, attributes, texts, one repetition per list, recursive writers) is "
        "matched with the transition tables of the parsing loops; the value every field of the rebuilt object receives, as a "
        "term over the written object, must be that object's field")


def check(an, rep, tier):
    p = an.p
    w, r = p.one(None, "write_xml"), p.one(None, "parse_xml")
    m = xmlmap.Match(an, rep, False)
    try:
        n = m.match(w["path"], r["path"])
        rep.count("writer_reader_pairs", n)
        rep.count("tokens_matched", m.events_matched)
        config(an, rep, m, w, r)
    except xmlmap.Unclosed as e:
        rep.bad("document", loc(w), str(e))
    except xmlmap.Giveup as e:
        rep.und("document", loc(r), str(e))
    rep.assumption("xml-rs delivers the events that were written, with coalesced text and indentation between elements; "
                   "the date and UUID codecs invert each other (P25)")
    rep.assumption("exempt: Meta.generator (the library writes its own name), an empty text and an absent one have the same "
                   "form, a field key is not empty, a database has at least its root group")


def config(an, rep, m, w, r):
    """Options of the XML library that would change texts."""
    for x in xmlmap.reader_config(an, m, r["path"]):
        s, base = xmlmap.settings(x.args[1]) if len(x.args) > 1 else ({}, None)
        if base is not None and not (base.op in ("call", "default") and not [a for a in base.args[2:]]):
            rep.und("reader-config", loc(r), "configuration %s" % show(x, 8)[:200])
            continue
        rep.judge("reader-config:trim", loc(r), flag(s.get("trim_whitespace"), False, False),
                  "texts keep their spaces", "the reader trims the texts it reads (trim_whitespace)")
        ws = flag(s.get("whitespace_to_characters"), False, True)
        if ws is False:
            # blank texts arrive as whitespace events
            sub = Report(rep.pid)
            m2 = xmlmap.Match(an, sub, False)
            m2.text_as = "Whitespace"
            m2.match(w["path"], r["path"])
            lost = [o for o in sub.of("violated") if o[1].startswith("field:") and blank_possible(o[1])]
            ws = not lost
        rep.judge("reader-config:blank", loc(r), ws, "texts made of spaces are kept",
                  "texts made of spaces only are dropped by the reader (whitespace_to_characters is off)")
        if flag(s.get("coalesce_characters"), True, True) is not True:
            m2 = xmlmap.Match(an, rep, False)
            m2.split = True
            m2.match(w["path"], r["path"])
    for e in xmlmap.writer_config(an, m, w["path"]):
        s, base = xmlmap.settings(e.args[0]) if e.args else ({}, None)
        rep.judge("writer-config:escaping", loc(w), flag(s.get("perform_escaping"), True, True),
                  "texts are escaped", "texts are written without escaping")
        ind = s.get("indent_string")
        if ind is not None and ind.op == "str":
            rep.judge("writer-config:indent", loc(w), ind.args[0].strip() == "", "indentation is white space",
                      "indentation %r is not white space" % ind.args[0])


def flag(t, default, want):
    """Does the boolean option have the wanted value (None: not known)?"""
    if t is None:
        return default is want
    if t.op == "bool":
        return t.args[0] is want
    return None


def blank_possible(key):
    """Fields with free text."""
    return any(x in key for x in ("name", "description", ".key", "~Standard"))
