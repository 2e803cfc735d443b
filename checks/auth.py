"""P12, P13: the OPEN digest, the HMAC proofs and their digit encoding."""
import random as _random
from .common import *
from .messages import same

OPEN = "pyown.auth:own_calc_pass"
HMACM = "pyown.auth:"


# ------------------------------------------------------------------------------------------------ P12
def rot(bits, n):
    """rotate left by n"""
    return [bits[(i - n) % 32] for i in range(32)]


def byte_perm(bits, src):
    """result byte i is byte src[i] (0 = least significant)"""
    return [bits[src[i // 8] * 8 + i % 8] for i in range(32)]


# the table of the OpenWebNet documentation, as permutations of the 32 bits (7 and 8: byte shuffles, 9: complement)
STEP = {
    "1": lambda b: rot(b, -7), "2": lambda b: rot(b, -4), "3": lambda b: rot(b, -3),
    "4": lambda b: rot(b, 1), "5": lambda b: rot(b, 5), "6": lambda b: rot(b, 12),
    # 7: B3 B2 B1 B0 -> B0 B3 B1 B2          8: B3 B2 B1 B0 -> B1 B0 B2 B3
    "7": lambda b: byte_perm(b, (2, 1, 3, 0)), "8": lambda b: byte_perm(b, (3, 2, 0, 1)),
    "9": lambda b: [flip(x) for x in b], "0": lambda b: b,
}


def flip(x):
    return 1 - x if x in (0, 1) else ("~" if x[0] == "b" else "b",) + x[1:]


def expected(name, nonce):
    bits = None
    for c in nonce:
        if bits is None and c != "0":
            bits = [("b", name, i) for i in range(32)]      # the password is loaded at the first non-zero digit
        if bits is not None:
            bits = STEP[c](bits)
    return Bits(bits, 0) if bits is not None else Const(0)


@prop("P12", "Bit-level dataflow: the digest function is interpreted on a password whose 32 bits are opaque, for every nonce of up to three digits and a "
             "sample of long ones; each result bit must be the bit of the password (or its complement) that the documented rotations select.")
def p12(ck):
    ck.rules.append("bit i of the result = the password bit selected by composing the documented permutation of each nonce digit; the result is its decimal text")
    ck.assumptions.append("passwords below 2**32; nonces longer than three digits are covered by a sample of digit sequences, not by induction")
    f = ck.r(OPEN)
    wh = ck.where(f)
    name = atom("password_value", "int")
    pb = Bits([("b", name, i) for i in range(32)], 0)
    st0, ps = ck.satom(ck.st, "password", L.DIGIT.plus())
    ck.ip.int_values[ps] = pb

    def run(label, pw, nonce, word):
        for s, v in ck.call(st0, f, pw, nonce):
            if not ck.clean(s, label):
                continue
            if isinstance(v, ABN):
                ck.violation("digest-raises", wh, f"nonce {word}: {ck.ip.describe_abn(s, v)}")
                continue
            want = expected(name, word)
            texts = list(ck.ip.to_str(s, want))
            wv = Const(str(want.v)) if isinstance(want, Const) else texts[0][1]
            if v == wv:
                continue
            if isinstance(v, Top):
                ck.undecided(label, "result not modelled")
                continue
            if isinstance(v, (Bits,)) or isinstance(v, Const) and not isinstance(v.v, str):
                ck.violation("digest-type", wh, f"nonce {word}: the result is not a text")
                continue
            if isinstance(v, Const):
                ck.violation("digest-" + word, wh, f"nonce {word}: the result is {v.v!r} whatever the password")
                continue
            for n in (1, 2, 3, 12345, 0x12345678, 0xFFFFFFFF, 0x80000001, 987654321, 0xA5A5A5A5, 0x00FF8001):
                try:
                    g, e = S.ev(v, {name: n, ps: str(n)}), S.ev(wv, {name: n})
                except S.NoValue:
                    continue
                if g != e:
                    ck.violation("digest-" + word, wh, f"password {n}, nonce {word}: {g}, documented {e}")
                    return
            ck.undecided(label, f"result not in normal form: {ck.show(s, v)[:120]}")

    words = ["".join(w) for n in range(1, 4) for w in itertools.product("0123456789", repeat=n)]
    groups = {}
    for w in words:
        groups.setdefault((len(w), w[0]), []).append(w)
    for (n, c), ws in groups.items():
        with ck.obligation(f"nonces of {n} digits beginning with {c}"):
            for w in ws:
                run(f"nonce {w}", ps, Const(w), w)
                ck.count("nonces")
            ck.sample(f"nonce {ws[0]} -> {ck.show(ck.st, expected(name, ws[0]))[:160]}")
    rnd = _random.Random(ck.seed)
    with ck.obligation("long nonces"):
        for i in range(2000 if ck.thorough else 200):
            w = "".join(rnd.choice("0123456789") for _ in range(rnd.randint(4, 14)))
            run(f"nonce {w}", ps, Const(w), w)
            ck.count("nonces")
    if ck.thorough:
        for c in "0123456789":
            with ck.obligation(f"nonces of 4 digits beginning with {c}"):
                for t in itertools.product("0123456789", repeat=3):
                    w = c + "".join(t)
                    run(f"nonce {w}", ps, Const(w), w)
                    ck.count("nonces")
    with ck.obligation("the password as a number, the nonce as a number"):
        for w in ("1", "29", "709", "84567", "1234567890", "603356072"):
            run(f"number, nonce {w}", pb, Const(w), w)
            run(f"numeric nonce {w}", ps, Const(int(w)), w)
    with ck.obligation("leading zeros of the password do not matter"):
        for w in ("1", "7", "840"):
            a = [v for s, v in ck.call(ck.st, f, Const("00012345"), Const(w))]
            b = [v for s, v in ck.call(ck.st, f, Const("12345"), Const(w))]
            if a != b and all(isinstance(x, Const) for x in a + b):
                ck.violation("digest-zeros", wh, f"nonce {w}: passwords 00012345 and 12345 give different answers")


# ------------------------------------------------------------------------------------------------ P13
def members(ck, st, dotted):
    out = {}
    for s, items in ck.ip.to_items(st, ck.r(dotted)):
        for x in items:
            c = s.get(x.addr)
            out[c.attrs["_name_"].v] = (x, c.attrs["_value_"])
    return out


def enc(*parts):
    """UTF-8 encoding of the concatenation"""
    return cat([Const(p) if isinstance(p, str) else p for p in parts], "bytes")


@prop("P13", "The proofs are interpreted with opaque keys and password over an uninterpreted keyed digest: the resulting term must be the documented one for "
             "each algorithm. The encoding of keys and proofs is checked on every symbol of its alphabet, every pair of symbols and every kind of malformed text.")
def p13(ck):
    ck.rules.append("client proof = HMAC(alg, Ra, Ra.Rb.736F70653E.636F70653E.hash(pw)); server proof = HMAC(alg, Ra, Ra.Rb.hash(pw)); decode(encode(h)) = h; no other text decodes")
    algs = members(ck, ck.st, "pyown.auth:AuthAlgorithm")
    fs = {n: ck.r(HMACM + n) for n in ("client_hmac", "server_hmac", "compare_hmac", "create_key", "hex_to_digits", "digits_to_hex")}
    W = {n: ck.where(f) for n, f in fs.items()}
    if set(algs) != {"SHA1", "SHA256"}:
        ck.undecided("algorithms", f"the algorithms are {sorted(algs)}")
    HEXL = S.HEXCH.star()
    st, ra = ck.satom(ck.st, "ra", HEXL)
    st, rb = ck.satom(st, "rb", HEXL)
    st, pw = ck.satom(st, "password", L.DIGIT.plus())
    HN = {"SHA1": "sha1", "SHA256": "sha256"}

    def enc_(s, parts):
        v = cat([Const(p) if isinstance(p, str) else p for p in parts])
        r = list(ck.mcall(s, v, "encode"))
        return r[0][1]

    def proof(s, who, alg):
        h = HN[alg]
        kab = Term("hexstr", (Term("digest", (Const(h), enc_(s, [pw])), "bytes"),), "str")
        mid = ["736F70653E", "636F70653E"] if who == "client" else []
        return Term("hmac", (Const(h), enc_(s, [ra]), enc_(s, [ra, rb] + mid + [kab])), "bytes")

    for who in ("client", "server"):
        f, wh = fs[who + "_hmac"], W[who + "_hmac"]
        for alg, (ref, _) in sorted(algs.items()):
            with ck.obligation(f"{who} proof, {alg}"):
                for s, v in ck.call(st, f, server_key=ra, client_key=rb, password=pw, hash_algorithm=ref):
                    judge_proof(ck, s, v, proof(s, who, alg), f"{who}-{alg}", wh)
                ck.sample(f"{who} {alg}: {ck.show(st, proof(st, who, alg))[:200]}")
        with ck.obligation(f"{who} proof, positional keys, default algorithm"):
            for s, v in ck.call(st, f, ra, rb, pw):
                judge_proof(ck, s, v, proof(s, who, "SHA256"), f"{who}-default", wh)
        for bad in (Const(3), Const(0), NONE, Const("3"), Const("sha512")):
            with ck.obligation(f"{who} proof, algorithm {bad.v!r}"):
                for s, v in ck.call(st, f, server_key=ra, client_key=rb, password=pw, hash_algorithm=bad):
                    if ck.clean(s, "algorithm") and not isinstance(v, ABN):
                        ck.violation(f"{who}-algorithm", wh, f"a proof is computed for the unsupported algorithm {bad.v!r}")
    odd = [("", ""), ("ABCDEF", "0aF"), ("00ff", "ff00"), ("a" * 40, "b" * 40), ("c" * 64, "D" * 64)]
    pws = ["12345", "0", "00012345", " 12 ", "12\n", "a b", "Abc", "ABC", "pa%s", "{0}", "p\u00e0\u00df", "x" * 200, "1" * 65, ""]
    for who in ("client", "server"):
        f, wh = fs[who + "_hmac"], W[who + "_hmac"]
        with ck.obligation(f"{who} proof, keys and passwords of unusual form"):
            for alg, (ref, _) in sorted(algs.items()):
                for k, (x, y) in enumerate(odd):
                    for q in pws if k < 2 else pws[:1]:
                        h = HN[alg]
                        kab = Term("hexstr", (Term("digest", (Const(h), Const(q.encode())), "bytes"),), "str")
                        mid = "736F70653E636F70653E" if who == "client" else ""
                        want = Term("hmac", (Const(h), Const(x.encode()), enc_(ck.st, [Const(x + y + mid), kab])), "bytes")
                        for s, v in ck.call(ck.st, f, Const(x), Const(y), Const(q), hash_algorithm=ref):
                            ck.count("proofs of constants")
                            judge_proof(ck, s, v, want, f"{who}-odd", wh)
    with ck.obligation("identities given by the caller"):
        st2, ia = ck.satom(st, "ia", HEXL)
        st2, ib = ck.satom(st2, "ib", HEXL)
        kab = Term("hexstr", (Term("digest", (Const("sha256"), enc_(st2, [pw])), "bytes"),), "str")
        for s, v in ck.call(st2, fs["client_hmac"], ra, rb, pw, client_identity=ia, server_identity=ib):
            judge_proof(ck, s, v, Term("hmac", (Const("sha256"), enc_(s, [ra]), enc_(s, [ra, rb, ia, ib, kab])), "bytes"), "client-identity", W["client_hmac"])

    # --- comparison
    with ck.obligation("comparison of proofs"):
        a, b = atom("h1", "bytes"), atom("h2", "bytes")
        f = fs["compare_hmac"]

        def verdicts(x, y):
            for s, v in ck.call(ck.st, f, x, y):
                for s2, t in ck.ip.truth(s, v) if not isinstance(v, ABN) else [(s, v)]:
                    if ck.clean(s2, "compare"):
                        yield s2, t
        p20 = b"00112233445566778899aabbccddeeff01234567"
        cases = [(x, x) for x in (p20, p20 + p20[:24], bytes(range(32)), bytes(20), b"\xff" * 32)]
        for base in (p20, bytes(range(32))):
            cases += [(base, base[:i] + bytes([base[i] ^ 1]) + base[i + 1:]) for i in range(len(base))]
            cases += [(base, base[:n]) for n in (0, 1, 8, 16, len(base) - 1)] + [(base, base[n:]) for n in (1, 8, 16)] + [(base, base + b"0"), (base, base * 2), (base, base[::-1])]
        cases += [(y, x) for x, y in cases]
        for x, y in cases:
            ck.count("pairs of proofs")
            for s2, t in verdicts(Const(x), Const(y)):
                if t is not (x == y):
                    ck.violation("compare-equal" if x == y else "compare-different", W["compare_hmac"],
                                 f"the proofs {x!r} and {y!r} {'raise ' + ck.ip.describe_abn(s2, t) if isinstance(t, ABN) else 'compare equal' if t else 'do not compare equal'}", ck.trace_text(s2))
        for s2, t in verdicts(a, b):
            if isinstance(t, ABN):
                continue
            w = ck.witness(s2, [a, b], lambda g: (g[a] == g[b]) is not t)
            if w:
                ck.violation("compare-symbolic", W["compare_hmac"], f"the proofs {w[a]!r} and {w[b]!r} {'compare equal' if t else 'do not compare equal'}", ck.trace_text(s2))

    # --- keys
    for alg, (ref, _) in sorted(algs.items()):
        with ck.obligation(f"client key, {alg}"):
            s1, k1 = ck.call1(ck.st, fs["create_key"], ref)
            if isinstance(k1, ABN):
                ck.violation("key-raises", W["create_key"], ck.ip.describe_abn(s1, k1))
                continue
            s2, k2 = ck.call1(s1, fs["create_key"], ref)
            weak = [ck.ip.show(s1, p[0]) if isinstance(p[0], V) else str(p[0]) for k, p, loc in s1.events("extcall") if "random." in str(p[0]) and "SystemRandom" not in str(p[0])]
            if weak:
                ck.violation("key-weak", W["create_key"], f"the key comes from {weak[0]}, which is not a secure random source")
                continue
            if not ck.clean(s1, "key"):
                continue
            ats = {x for x in atoms_of(k1) if str(x.args[0]).startswith("random")}
            size = sum(p[1].v if isinstance(p[1], Const) and isinstance(p[1].v, int) else 32 for k, p, loc in s1.events("random"))
            if ats and size < 16:
                ck.violation("key-short", W["create_key"], f"the client key is drawn from {size} random bytes only")
            if not ats or k1 == k2:
                ck.violation("key-fixed", W["create_key"], "the client key is not drawn anew: " + ck.show(s1, k1))
            elif not isinstance(k1, Top):
                ok = S.lang_of(s1, k1).is_subset(S.HEXCH.star()) if hasattr(L.DFA, "is_subset") else (S.lang_of(s1, k1) - S.HEXCH.star()).is_empty()
                if not ok:
                    ck.undecided("key", "the key is not known to be hex text")

    # --- algorithm negotiation
    with ck.obligation("algorithm named by the gateway"):
        st2, t = ck.satom(ck.st, "alg", L.chars("0123456789#").star())
        fs_ = ck.method(ck.r("pyown.auth:AuthAlgorithm"), "from_string")
        wh = ck.where(fs_)
        seen = set()
        for s, v in ck.call(st2, fs_, t):
            if not ck.clean(s, "from_string"):
                continue
            lg = S.lang_of(s, t)
            w = lg.shortest()
            for txt, nm in (("1", "SHA1"), ("2", "SHA256")):
                if lg.accepts(txt):
                    seen.add(nm)
                    if isinstance(v, ABN) or v != algs[nm][0]:
                        ck.violation("alg-" + nm, wh, f"algorithm {txt} gives {ck.ip.describe_abn(s, v) if isinstance(v, ABN) else ck.show(s, v)}")
            rest = lg - (L.const("1") | L.const("2"))
            if not rest.is_empty() and not isinstance(v, Exc):
                ck.violation("alg-other", wh, f"the unsupported algorithm {L.text_of(rest.shortest()) if not isinstance(rest.shortest(), str) else rest.shortest()!r} is accepted")
        if len(seen) < 2 and not ck.undecided_:
            ck.violation("alg-missing", wh, f"only {sorted(seen)} can be negotiated")
    for nm, num in (("SHA1", "1"), ("SHA256", "2")):
        with ck.obligation(f"announcement of {nm}"):
            for s, m in ck.mcall(ck.st, algs[nm][0], "to_message"):
                if isinstance(m, ABN):
                    ck.violation("alg-message", "AuthAlgorithm.to_message", ck.ip.describe_abn(s, m))
                    continue
                for s2, t in ck.ip.to_str(s, m):
                    same(ck, s2, t, Const(f"*98*{num}##"), "alg-message-" + nm, "pyown/auth/enum.py AuthAlgorithm.to_message", f"announcement of {nm}")

    codec(ck, fs, W)


def judge_proof(ck, s, v, want, key, wh):
    if not ck.clean(s, key):
        return
    if isinstance(v, ABN):
        ck.violation(key, wh, ck.ip.describe_abn(s, v))
        return
    if isinstance(v, Top):
        ck.undecided(key, "the proof is not modelled")
        return
    if v != want:
        ck.violation(key, wh, f"the proof is {ck.show(s, v)}; documented: {ck.show(s, want)}")


def codec(ck, fs, W):
    h2d, d2h = fs["hex_to_digits"], fs["digits_to_hex"]

    def one(f, text):
        outs = list(ck.call(ck.st, f, Const(text)))
        ck.count("codec evaluations")
        if len(outs) != 1 or not ck.clean(outs[0][0], f"codec {text!r}"):
            if len(outs) != 1:
                ck.undecided("codec", f"{len(outs)} outcomes on {text!r}")
            return None
        return outs[0]

    HEX = "0123456789abcdef"

    def code(t):
        return "".join(f"{int(c, 16):02d}" for c in t)
    texts = [""] + list(HEX + "ABCDEF") + [a + b for a in HEX for b in HEX] + ["0123456789abcdef" * 2, "f" * 64, "00000000" * 5, "a0" * 32]
    with ck.obligation("encoding of every symbol, every pair of symbols, and long keys"):
        for t in texts:
            o = one(h2d, t)
            if o is None:
                continue
            if o[1] != Const(code(t)):
                ck.violation("encode", W["hex_to_digits"], f"{t!r} is encoded as {ck.ip.describe_abn(*o) if isinstance(o[1], ABN) else ck.show(*o)}, documented {code(t)!r}")
    with ck.obligation("decoding of every pair of digits, every pair of pairs, and long keys"):
        for t in texts:
            o = one(d2h, code(t))
            if o is None:
                continue
            if o[1] != Const(t.lower()) and o[1] != Const(t.upper()):
                ck.violation("decode", W["digits_to_hex"], f"{code(t)!r} is decoded as {ck.ip.describe_abn(*o) if isinstance(o[1], ABN) else ck.show(*o)}, must be {t.lower()!r}")
    with ck.obligation("malformed digit texts are refused"):
        bad = [f"{n:02d}" for n in range(16, 100)] + [f"0{n}" + f"{m:02d}" for n in range(10) for m in (16, 20, 99)] + [f"{m:02d}00" for m in range(16, 100)]
        bad += [str(d) for d in range(10)] + ["000", "01020", "1" * 31, "0", "ab", "0a", "a0", "#0", "0#", "0x", "0 "]
        for t in bad:
            o = one(d2h, t)
            if o is None:
                continue
            if not isinstance(o[1], Exc) or not ck.exc_is(o[0], o[1], "ValueError"):
                ck.violation("decode-refuse", W["digits_to_hex"], f"{t!r} encodes no hex text; the result is {ck.ip.describe_abn(*o) if isinstance(o[1], ABN) else ck.show(*o)}")
    with ck.obligation("texts that are not hexadecimal are refused by the encoder"):
        for t in ["g", "0g", "-", "#", "z0"]:
            o = one(h2d, t)
            if o is not None and not isinstance(o[1], Exc):
                ck.violation("encode-refuse", W["hex_to_digits"], f"{t!r} is not hexadecimal and is encoded as {ck.show(*o)}")
