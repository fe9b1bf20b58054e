"""What the KDBX format specifies, written as terms."""
from terms import *
import terms as tm
from lib import *

U64MAX = (1 << 64) - 1


def ones(bs):
    return [T("one", I(b)) for b in bs]


def composed(pw, kf):
    """Composite key hash; pw/kf are byte terms or None."""
    return T("sha256", cat(*[T("sha256", x) for x in (pw, kf) if x is not None]))


def hmac_key(seed, mk):
    return T("sha512", cat(seed, mk, *ones([1])))


def cipher_key(seed, mk):
    return T("sha256", cat(seed, mk))


def block_key(i, hk):
    return T("sha512", cat(le(8, i), hk))


def header_hmac(seed, mk, data):
    return T("hmac256", block_key(I(U64MAX), hmac_key(seed, mk)), data)


def block_msg(i, data):
    return cat(le(8, i), le(4, length(data)), data)


def split_fixed(x, sizes):
    """Cut sequence x into pieces of the given constant sizes, or None."""
    pos, out = 0, []
    for s in sizes:
        p = subseq(x, I(pos), I(pos + s))
        out.append(p)
        pos += s
    return out


def aes_kdf_problem(x, comp, rounds, salt):
    """None if the master key bytes x are the AES-KDF of comp; a message, or
    ("?", message) when the shape is not understood."""
    if x.op != "sha256":
        return "the transformed key is not hashed with SHA-256: " + show(x, 6)[:200]
    body = x.args[0]
    halves = []
    ps = list(parts(body))
    if len(ps) == 1 and ps[0].op == "iter_n":
        ps = [idx(ps[0], I(0)), idx(ps[0], I(1))]
    if len(ps) != 2:
        return ("?", "transformed key has %d parts" % len(ps))
    want_init = [subseq(comp, I(0), I(16)), subseq(comp, I(16), I(32))]
    for k, p in enumerate(ps):
        pos = k
        it = p
        if it.op == "one":
            it = it.args[0]
        if it.op == "idx" and it.args[1].op == "int":
            pos = it.args[1].args[0]
            it = it.args[0]
        else:
            pos = None
        if it.op != "iter_n":
            # no repetition at all
            if not contains(it, lambda t: t.op in OPAQUE_OPS):
                return "the key is not transformed the configured number of rounds: " + show(p, 6)[:200]
            return ("?", "no iterated transformation found")
        n, step, init = it.args
        if n is not rounds:
            if vague(n):
                return ("?", "round count not understood")
            return "transformed %s times instead of the configured rounds" % show(n, 6)
        if pos is None:
            inits, results = [init], [subst(step, {T("hole"): T("sym", "h0")})]
            pos = 0
        else:
            h = [T("sym", "h%d" % i) for i in range(2)]
            r = subst(step, {T("hole"): T("cat", *[T("one", x) for x in h])})
            inits = [q.args[0] if q.op == "one" else q for q in parts(init)]
            results = [q.args[0] if q.op == "one" else q for q in parts(r)]
        if len(inits) <= pos or len(results) <= pos:
            return ("?", "blocks not understood")
        if inits[pos] is not want_init[k]:
            if vague(inits[pos]):
                return ("?", "initial block not understood")
            return "half %d of the composite key is %s" % (k, show(inits[pos], 8)[:200])
        want = T("benc", T("cipher", "aes256", "", salt, EMPTY), T("sym", "h%d" % pos))
        if results[pos] is not want:
            if vague(results[pos]):
                return ("?", "round function not understood")
            return "round function is %s" % show(results[pos], 8)[:300]
    return None


def argon_problem(x, comp, P):
    """P: projection of the Argon2 parameters by field name."""
    if x.op != "argon2":
        return ("?", "not an Argon2 result") if vague(x) else "not an Argon2 result: " + show(x, 5)[:200]
    pw, salt, cfg = x.args
    want = {"lanes": P("lanes"), "mem_cost": T("div", P("memory_bytes"), I(1024)), "time_cost": P("iterations"),
            "variant": P("variant"), "version": T("argonver", P("version"))}
    if pw is not comp:
        return ("?", "secret input not understood") if vague(pw) else "hashes %s instead of the composite key" % show(pw, 6)[:200]
    if salt is not P("salt"):
        return ("?", "salt not understood") if vague(salt) else "salt is " + show(salt, 6)[:200]
    for f, w in want.items():
        g = field(cfg, f)
        if g is not w:
            g2 = norm_shift(g)
            if g2 is w:
                continue
            if g.op == "f" and g.args[0].op == "default":
                return "%s is left at its default" % f
            if vague(g) and not (g.op == "f"):
                return ("?", f + " not understood")
            return "%s is %s" % (f, show(g, 6)[:200])
    for f in ("ad", "secret", "hash_length"):
        g = field(cfg, f)
        if f == "hash_length" and g is I(32):
            continue
        if not (g.op == "f" and g.args[0].op == "default") and g is not EMPTY:
            return "%s is %s instead of the default" % (f, show(g, 6)[:200])
    return None


def norm_shift(g):
    if g.op == "bin" and g.args[0] in ("Shr", "ShrUnchecked") and g.args[2].op == "int":
        return T("div", g.args[1], I(1 << g.args[2].args[0]))
    if g.op == "bin" and g.args[0] == "Div" and g.args[2].op == "int":
        return T("div", g.args[1], g.args[2])
    return g


SALSA_IV = bytes.fromhex("e830094b97205d2a")


def inner_cipher(algo, key):
    """Inner stream cipher for a known algorithm name."""
    if algo == "ChaCha20":
        h = T("sha512", key)
        return T("cipher", "chacha20", "", subseq(h, I(0), I(32)), subseq(h, I(32), I(44)))
    if algo == "Salsa20":
        return T("cipher", "salsa20", "", T("sha256", key), cat(*ones(SALSA_IV)))
    return None


def no_inner_stream(o, algo):
    """Outcome o has excluded both supported inner streams."""
    return all(o.holds(isv(algo, n)) is False for n in ("ChaCha20", "Salsa20"))


def inner_algo(o, algo):
    """Names the inner stream algorithm value can have in outcome o."""
    n = o.eng.variant_of(o.st, algo)
    return n
