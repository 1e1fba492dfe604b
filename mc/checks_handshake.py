"""C14-C17: acceptor, joiner and the proofs they exchange."""
import base64
import itertools
import json

import nacl.signing

from mc import clock, wire
from mc.checks_router import passing
from mc.checks_wire import MORE_TEXTS, WORD_DICTS
from mc.words import SIZES
from mc.core import Mismatch, pmap
from mc.handshake import (ABORTS, ACCEPTOR_UNSUPPORTED, AUTH_FAILED, CHALLENGE_A, CHALLENGE_B, HELLOS, JOINER_UNSUPPORTED, KEY_A,
                          KEY_B, METHODS, MISLEADING, PUB_A, PUB_B, SALT, SECRET, TICKET, VERDICTS, WORDED, AcceptorWorld, JoinerWorld, Server, WithExtra,
                          client,
                          cryptosign_proof, derived, details, run_handshake, text_of, wampcra_proof)
from wampproto import auth
from wampproto.acceptor import Acceptor
from wampproto.auth import cryptosign as cryptosign_module
from wampproto.auth import wampcra as wampcra_module
from wampproto.exception import ApplicationError
from wampproto.joiner import Joiner
from wampproto.types import SessionDetails

SERS = ("json", "cbor", "msgpack")
SERVERS = {
    "no authenticator": None,
    "grants": {},
    "grants, salted secret": dict(salted=True),
    "grants any key, assigns another authid": dict(authid="boss", authrole="ünï", pubkeys=None),
    "refuses with ValueError": dict(grant=False),
    "refuses with RuntimeError": dict(grant=False, error="runtime"),
    "refuses with KeyError": dict(grant=False, error="key"),
    "refuses with ApplicationError": dict(grant=False, error="app"),
    "refuses with bare Exception": dict(grant=False, error="bare"),
    "refuses with an object": dict(grant=False, error="object"),
    "refuses with odd arguments": dict(grant=False, error="surrogate"),
}


def C14(c):
    c.assumptions.append("proofs are computed with nacl and hmac directly; an authenticator refuses by raising an exception; "
                         "whether a handshake can go on after a HELLO that was rejected "
                         "with a ValueError is left open, but it must be safe")
    for ser in (None,) + SERS:
        for name, kw in SERVERS.items():
            c.run(f"{ser or 'objects'}: authenticator {name}",
                  lambda: AcceptorWorld(ser, kw, others=ACCEPTOR_UNSUPPORTED, bad=True), c.pick(10, 30))
    for name in ("no authenticator", "grants", "refuses with ValueError"):
        passing(c, lambda: AcceptorWorld("json", SERVERS[name], others=("Welcome",)), c.pick(5, 10), 40_000, f"{name}, ")  # noqa: B023
    for name in ("no authenticator", "grants", "grants any key, assigns another authid", "refuses with ValueError"):
        c.run(f"no reduction: authenticator {name}",
              lambda: AcceptorWorld(None, SERVERS[name], others=("Welcome", "Goodbye")), c.pick(3, 4), dedupe=False,
              max_transitions=c.pick(100_000, 5_000_000))
        ser = {"no authenticator": None, "grants": "json", "refuses with ValueError": "cbor"}.get(name, "msgpack")
        c.run(f"{ser or 'objects'}: HELLOs with every word of the code, authenticator {name}",
              lambda: AcceptorWorld(ser, SERVERS[name], hellos=(), proofs=("good", "junk", "other secret", "ticket")), 1, start=tuple((("hello", h),) for h in WORDED))  # noqa: B023
        c.run(f"{ser or 'objects'}: proofs with every word of the code, authenticator {name}",
              lambda: AcceptorWorld(ser, SERVERS[name], hellos=(), proofs=("good", "junk", "other key", "wrong ticket", "old"), words=True), 1,  # noqa: B023
              start=((),) + tuple((("hello", m),) for m in METHODS) + ((("hello", "ticket"), ("auth", "wrong ticket")), (("abort",),)))
        small = lambda: AcceptorWorld(None, SERVERS[name], hellos=tuple(HELLOS), others=("Welcome",))  # noqa: E731
        hs = [(), (("hello", "ticket"),), (("hello", "wampcra"),), (("hello", "cryptosign"),), (("hello", "anonymous"),),
              (("hello", "ticket"), ("auth", "wrong ticket")), (("hello", "unknown"),), (("abort",),)]
        c.pump(f"one message repeated: authenticator {name}", small, hs, 1, c.pick(20, 200))
        c.pump(f"two messages alternating: authenticator {name}", small, hs, 2, c.pick(4, 30))


# ---------------------------------------------------------------------------------------------------- C15
def challenged(method, server_kw=None, ser=None):
    w = AcceptorWorld(ser, server_kw or {})
    w.step(("hello", method))
    if w.state != "challenged":
        raise Mismatch("C15", f"HELLO {method} was not challenged")
    return w


def hex_variants(sig, wide):
    """Every one-character change, truncation, extension and rotation of a hex proof."""
    out = []
    alphabet = "0123456789abcdef" + ("gG x\u00fc" if wide else "g")
    for i, ch in enumerate(sig):
        out += [sig[:i] + x + sig[i + 1:] for x in alphabet if x != ch]
    out += [sig[:i] for i in range(0, len(sig))] + [sig[i:] for i in range(1, len(sig))]
    out += [sig + x for x in ("0", "00", "ff", sig, "zz", " ", "\n")] + ["00" + sig, " " + sig]
    out += [sig[i:] + sig[:i] for i in range(2, len(sig), 2)] + [sig[::-1]]
    out += [sig[:i] + sig[i + 2:] for i in range(0, len(sig), 2)]
    return out


def b64_variants(sig, wide):
    alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=" + ("-_ \u00fc\n" if wide else "-")
    out = []
    for i, ch in enumerate(sig):
        out += [sig[:i] + x + sig[i + 1:] for x in alphabet if x != ch]
    out += [sig[:i] for i in range(0, len(sig))] + [sig[i:] for i in range(1, len(sig))]
    out += [sig + x for x in ("A", "AA==", sig, "=", "\u00fc")]
    raw = base64.b64decode(sig)
    out += [base64.b64encode(raw[:i]).decode() for i in range(len(raw))]
    out += [base64.b64encode(raw + x).decode() for x in (b"\0", b"\0\0", raw)] + [raw.hex()]
    for bit in range(len(raw) * 8):
        b = bytearray(raw)
        b[bit // 8] ^= 1 << bit % 8
        out.append(base64.b64encode(bytes(b)).decode())
    return out


def C15(c):
    c.assumptions.append("proofs are computed with nacl and hmac directly; ed25519 and HMAC-SHA256 themselves are trusted")
    n = accepted = 0

    def attempt(job):
        method, kw, make = job
        w = challenged(method, kw)
        sig = make(w)
        right = w.verdict(sig)
        kind, out = w.send("AUTHENTICATE", wire.make("Authenticate", signature=sig, extra={}))
        try:
            w.judge(f"AUTHENTICATE {sig!r} for challenge {w.challenge!r}", kind, out, VERDICTS[right],
                    tags="C15", reason=f" ({method}, {right} proof)")
            w.observe("AUTHENTICATE")
        except Mismatch as m:
            return m.text
        return right == "right"

    jobs = []
    for method, kw, variants in (("cryptosign", {}, hex_variants), ("wampcra", {}, b64_variants),
                                 ("wampcra", dict(salted=True), b64_variants)):
        w = challenged(method, kw)
        count = len(variants(w.proof("good"), c.thorough))
        for i in range(count):
            jobs.append((method, kw, lambda w, i=i, v=variants: v(w.proof("good"), c.thorough)[i]))
        jobs.append((method, kw, lambda w: w.proof("good")))
    # proofs of this principal over other material, and of others over this challenge
    other = nacl.signing.SigningKey(bytes(31) + b"\x07")
    for make in (
        lambda w: cryptosign_proof(KEY_B, w.challenge), lambda w: cryptosign_proof(other, w.challenge),
        lambda w: cryptosign_proof(KEY_A, "00" * 32), lambda w: cryptosign_proof(KEY_A, ""),
        lambda w: cryptosign_proof(KEY_A, w.challenge + "00"), lambda w: cryptosign_proof(KEY_A, w.challenge[:-2]),
        lambda w: cryptosign_proof(KEY_A, w.challenge[2:] + w.challenge[:2]),
        lambda w: cryptosign_proof(KEY_A, w.challenge.encode().hex()),
        lambda w: cryptosign_proof(KEY_A, w.challenge * 2),
        lambda w: cryptosign_proof(KEY_A, "00" * 32)[:128] + w.challenge,
        lambda w: cryptosign_proof(KEY_A, w.challenge)[:128],
        lambda w: cryptosign_proof(KEY_A, w.challenge)[:128] + "00" * 32,
        lambda w: cryptosign_proof(KEY_B, w.challenge)[:128] + w.challenge,
        lambda w: cryptosign_proof(KEY_A, w.challenge)[:64] + cryptosign_proof(KEY_B, w.challenge)[64:],
        lambda w: "00" * 64 + w.challenge, lambda w: w.challenge, lambda w: "", lambda w: PUB_A, lambda w: "00" * 96,
    ):
        jobs.append(("cryptosign", {}, make))
        jobs.append(("cryptosign", dict(pubkeys=None), make))
    for kw in ({}, dict(salted=True)):
        for make in (
            lambda w: wampcra_proof("", w.challenge), lambda w: wampcra_proof(SECRET + " ", w.challenge),
            lambda w: wampcra_proof(SECRET[:-1], w.challenge), lambda w: wampcra_proof(SECRET.upper(), w.challenge),
            lambda w: wampcra_proof(SALT, w.challenge), lambda w: wampcra_proof(w.challenge, SECRET),
            lambda w: wampcra_proof(w.secret(), ""), lambda w: wampcra_proof(w.secret(), w.challenge + " "),
            lambda w: wampcra_proof(w.secret(), w.challenge[:-1]), lambda w: wampcra_proof(w.secret(), w.challenge.upper()),
            lambda w: wampcra_proof(w.secret(), json.dumps(parsed(w.challenge), sort_keys=True, indent=1)),
            lambda w: wampcra_proof(w.secret(), challenged("wampcra", kw).challenge),
            lambda w: wampcra_proof(SECRET, w.challenge), lambda w: wampcra_proof(derived(SECRET, SALT, 1, 32), w.challenge),
            lambda w: wampcra_proof(derived(SECRET, SALT, 2, 31), w.challenge),
            lambda w: wampcra_proof(derived(SECRET, "salt-2", 2, 32), w.challenge),
            lambda w: "", lambda w: "====", lambda w: SECRET, lambda w: base64.b64encode(SECRET.encode()).decode(),
            lambda w: w.challenge, lambda w: base64.b64encode(w.challenge.encode()).decode(),
        ):
            jobs.append(("wampcra", kw, make))
    # every secret of a pool on the server against proofs made with every other one
    for held, shown in itertools.product(ALIKE, repeat=2):
        jobs.append(("wampcra", dict(secret=held), lambda w, s=shown: wampcra_proof(s, w.challenge)))
        jobs.append(("wampcra", dict(secret=held, salted=True), lambda w, s=shown: wampcra_proof(derived(s, SALT, 2, 32), w.challenge)))
    for (s1, i1, k1), (s2, i2, k2) in itertools.product(itertools.product((SALT, SALT + " ", "", "SALT-1"), (1, 2, 3), (16, 32, 64, 65)), repeat=2):
        if (s1 != s2) + (i1 != i2) + (k1 != k2) < 2:
            jobs.append(("wampcra", dict(salted=True, salt=s1, iterations=i1, keylen=k1),
                         lambda w, x=(s2, i2, k2): wampcra_proof(derived(SECRET, *x), w.challenge)))
    for i, out in enumerate(pmap(lambda i: attempt(jobs[i]), range(len(jobs)), chunk=50)):
        n += 1
        if isinstance(out, str):
            c.violation("altered proofs", {"job": i, "method": jobs[i][0], "server": jobs[i][1]}, out)
        accepted += bool(out)
    c.counts["altered or foreign proofs tried"] = n
    c.counts["right proofs among them, accepted"] = accepted
    if accepted < 3:
        c.violation("altered proofs", {}, f"only {accepted} right proofs were accepted")

    # concurrent handshakes: every proof against every acceptor
    total = off = 0
    for method, kw in (("cryptosign", {}), ("wampcra", {}), ("wampcra", dict(salted=True))):
        k = c.pick(6, 20)
        for i, j in itertools.product(range(k), repeat=2):
            ws = [challenged(method, kw) for _ in range(k)]
            total += 1
            off += i != j
            kind, out = ws[i].send("AUTHENTICATE", wire.make("Authenticate", signature=ws[j].proof("good"), extra={}))
            name = wire.type_name(out) if out is not None and kind == "message" else kind
            if name != ("Welcome" if i == j else "Abort"):
                c.violation("crossed handshakes", {"method": method, "server": kw, "proof_of": j, "sent_to": i},
                            f"proof of handshake {j} sent to acceptor {i}: {name}")
    c.counts["crossed pairs of concurrent handshakes"] = total

    # fresh challenges that name their session
    seen, fresh = {}, c.pick(300, 5000)
    for method, kw in itertools.product(("cryptosign", "wampcra"), (
            {}, dict(salted=True), dict(authid="boss", authrole="ünï"), dict(authid="", authrole="a\"b\\"),
            Server(remember=True), Server(remember=True, salted=True))):
        waiting = []

        def finish(w):
            kind, out = w.send("AUTHENTICATE", wire.make("Authenticate", signature=w.proof("good"), extra={}))
            if kind != "message" or wire.type_name(out) != "Welcome":
                c.violation("fresh challenges", {"method": method}, f"right proof was refused: {wire.show(out) if out else kind}")
            if method == "wampcra":
                d = parsed(w.challenge)
                want = dict(session=out.session_id, authid=out.authid, authrole=out.authrole, authmethod="wampcra")
                if any(not wire.same(d.get(k), v) for k, v in want.items()):
                    c.violation("fresh challenges", {"method": method, "server": str(kw)},
                                f"challenge {w.challenge!r} does not name {want}")

        for i in range(fresh):
            w = challenged(method, kw)
            if w.challenge in seen:
                c.violation("fresh challenges", {"method": method}, f"challenge {w.challenge!r} was sent before")
            seen[w.challenge] = 1
            if method == "cryptosign" and len(bytes.fromhex(w.challenge)) != 32:
                c.violation("fresh challenges", {"method": method}, f"challenge {w.challenge!r} is not 32 bytes")
            waiting.append(w)
            if i % 3:       # two of three handshakes end before the next one starts, the others overlap
                finish(waiting.pop(i % 2 - 1))
        for w in waiting:
            finish(w)
    c.counts["fresh challenges"] = len(seen)
    many = c.pick(20_000, 1_000_000)
    for make in (auth.generate_cryptosign_challenge, lambda: auth.generate_wampcra_challenge(7, "joe", "role-1", "dynamic")):
        for frozen in (False, True):
            with clock.at(frozen=frozen):
                if len({make() for _ in range(many)}) != many:
                    c.violation("fresh challenges", {}, f"a challenge came twice among {many}{', the clock standing still' if frozen else ''}")

    # what a challenge says, for every session ID and name near a boundary
    named = 0
    ids = sorted({max(1, min(2**53, 2**k + d)) for k in range(54) for d in (-1, 0, 1)})
    names = ("joe", "", "ünï 码", "a\"b\\c", "x" * 300, "null", "1", " a ", "\n")
    for sid, authid, role in itertools.product(ids, names[:2], names[:2]):
        named += 1
        named_challenge(c, sid, authid, role)
    for sid, authid, role in itertools.product((1, 2**53), names, names):
        named += 1
        named_challenge(c, sid, authid, role)
    c.counts["challenges asked what they name"] = named

    # the verification functions themselves
    verify = differing = 0
    keys = [b"", b"k", b" k", b"k ", b"k\n", b"\tk", b"K", b"k\0x", b"a" * 64, b"a" * 65, SECRET.encode(), "ünï".encode(), bytes(range(64)), bytes(200), derived(SECRET, SALT, 2, 32)]
    texts = ["", "c", "{\"a\": 1}", "x" * 1000, "ünï", "c ", " c"]
    for (k1, t1), (k2, t2) in itertools.product(itertools.product(keys, texts), repeat=2):
        verify += 1
        sig = wampcra_proof(k1, t1)
        want = t1 == t2 and (k1 == k2 or pad(k1) == pad(k2))
        differing += not want
        got = auth.verify_wampcra_signature(sig, t2, k2)
        if got is not want or auth.sign_wampcra_challenge(t1, k1) != sig:
            c.violation("verify functions", {"keys": [k1, k2], "texts": [t1, t2]},
                        f"verify_wampcra_signature of key {k1!r} text {t1!r} under key {k2!r} text {t2!r} is {got!r}")
    skeys = [KEY_A, KEY_B, other]
    chals = [CHALLENGE_A, CHALLENGE_B, "00" * 32, "00", "", "ab" * 33]
    for k1, t1, k2, t2 in itertools.product(skeys, chals, skeys, chals):
        verify += 1
        sig = cryptosign_proof(k1, t1)
        want = k1 is k2 and t1 == t2
        differing += not want
        got = auth.verify_cryptosign_signature(sig, k2.verify_key.encode(), t2)
        got2 = auth.verify_cryptosign_signature(sig, k2.verify_key.encode())
        if got is not want or got2 is not (k1 is k2) or auth.sign_cryptosign_challenge(t1, k1) != sig:
            c.violation("verify functions", {"texts": [t1, t2]}, f"verify_cryptosign_signature over {t1!r} for {t2!r}: {got!r}")
    for junk in ("", " ", "zz", "0", "00", "ü", "=", "a" * 127, "00" * 63, "00" * 64, "00" * 65, "\x00", "A" * 44, "A" * 43 + "="):
        verify += 2
        for fn in (lambda: auth.verify_wampcra_signature(junk, "c", b"k"),
                   lambda: auth.verify_cryptosign_signature(junk, KEY_A.verify_key.encode(), CHALLENGE_A),
                   lambda: auth.verify_cryptosign_signature(junk, KEY_A.verify_key.encode())):
            try:
                got = fn()
            except Exception as e:
                got = e
            if got is not False:
                c.violation("verify functions", {"signature": junk}, f"signature text {junk!r} gives {got!r}")
    for salt, secret, it, kl in [
            *itertools.product(("s", "", "ünï", "x" * 99), ("p", "", "ünï"), (1, 2, 100), (1, 16, 32, 64)),
            *itertools.product(ALIKE, ALIKE[:1], (1,), (32,)), *itertools.product(ALIKE[:1], ALIKE, (1,), (32,)),
            *itertools.product((" s", "s ", "s\n", "S", "s\0", "x" * 65), (" p", "p\n", "P", "x" * 65), (1,), (32,)),
            *itertools.product(("s",), ("p",), range(1, c.pick(40, 400)), (32,)),
            *itertools.product(("s",), ("p",), (1,), range(1, c.pick(300, 3000))), ("s", "p", 100_000, 32), ("s", "p", 1_000_003, 32)]:
        verify += 1
        if wampcra_module.derive_cra_key(salt, secret, it, kl) != derived(secret, salt, it, kl):
            c.violation("derived keys", {"salt": salt, "secret": secret, "iterations": it, "keylen": kl}, "wrong derived key")
    c.counts["verification function cases"] = verify
    c.counts["evaluations"] = n + total + len(seen) + verify
    c.counts["distinct_nontrivial"] = n - accepted + off + len(seen) + differing
    c.rules.append("every one-character change, truncation, extension, rotation and bit flip of a right proof, proofs by others "
                   "and over other material, all pairs of concurrent handshakes, all pairs of key and text for the verification "
                   "functions; non-trivial: the proof differs from the right one, or the challenge was never seen before")
    c.samples.append("cryptosign proof with character 5 changed, sent to the acceptor that issued the challenge -> ABORT")
    # all orders of messages, with recorded proofs
    for name in ("grants", "grants, salted secret", "grants any key, assigns another authid"):
        for ser in (None,) + SERS:
            c.run(f"{ser or 'objects'}: recorded and foreign proofs in all orders, authenticator {name}",
                  lambda: AcceptorWorld(ser, SERVERS[name], hellos=("wampcra", "cryptosign", "cryptosign other key")), 10)


parsed = text_of


def named_challenge(c, sid, authid, role):
    text = auth.generate_wampcra_challenge(sid, authid, role, "dynamic")
    d = parsed(text)
    want = dict(session=sid, authid=authid, authrole=role, authmethod="wampcra")
    if any(not wire.same(d.get(k), v) for k, v in want.items()):
        c.violation("challenge text", {"session": sid, "authid": authid, "authrole": role}, f"challenge {text!r} does not name {want}")


# secrets that a careless normalisation takes for each other
ALIKE = ("s", "S", " s", "s ", "s\n", "\ts", "s\0", "s\0t", "", " ", "\u00e9", "e\u0301", "\ufeffs", "\u00a0s", "ss", "ſ", "\u017fs", "s" * 64,
         "s" * 65, "s" * 80, "czM=", "73", "s;t", "s:t", "s\r\n", "\ufb01", "fi", "\u212b", "\u00c5", "A\u030a", "\uff53", "\u00df", "\u1e9e", "SS", "\u0130", "i\u0307", "i",
         "\u00b2", "2", "s\u200b", "s\u00ad", "\u2126", "\u03a9", "\U0001f600", "\ufffd", "?", "%73", "\\u0073", "&#115;", "s" * 255, "s" * 256, "s" * 257)


def pad(key):
    import hashlib
    if len(key) > 64:
        key = hashlib.sha256(key).digest()
    return key + bytes(64 - len(key))


# ---------------------------------------------------------------------------------------------------- C16
TEXTS = ("joe", "", "ünï 码", "x" * 300)
EXTRAS = (None, {}, {"a": 1, "b": {"c": [1, "ü", None, True]}}, MISLEADING,
          {"none": None, "zero": 0, "no": False, "empty": "", "list": [], "dict": {}, "": "", "deep": {"none": None, "list": [None]}, "f": 1.5})
ROLES = (None, {"caller": {}}, {"caller": {"features": {"x": True}}, "callee": {}, "publisher": {}, "subscriber": {}})


def C16(c):
    c.assumptions.append("the server's authenticator returns a WAMPCRASaltedResponse whose secret is the derived key")
    jobs = []
    realms = ("realm1", "", "ünï.realm", "x" * 300)
    for ser, method, realm, authid, extra, roles in itertools.product(
            SERS, METHODS, realms, TEXTS, EXTRAS, ROLES):
        jobs.append(dict(ser=ser, method=method, realm=realm, authid=authid, extra=extra, roles=roles))
    secrets = ("s", "", "ünï 码", "x" * 200, "with \"quotes\" and \\", " s ", "s\n", "s\0t")
    for secret in ALIKE:
        for kw in (dict(method="ticket"), dict(method="wampcra"), dict(method="wampcra", salted=("s", 1, 32))):
            jobs.append(dict(ser="json", secret=secret, **kw))
        jobs.append(dict(ser="json", method="wampcra", secret="s", salted=(secret, 1, 32)))
        for ser, method in itertools.product(SERS, METHODS):
            jobs.append(dict(ser=ser, method=method, realm=secret, authid="a" + secret, given=("b" + secret, secret), extra={secret: secret, "x": [secret]}))
    for i, word in enumerate((*MORE_TEXTS, *LENGTHY)):
        for method in METHODS:
            ser = SERS[i % 3]
            jobs.append(dict(ser=ser, method=method, realm=word, authid=word, given=(None, word)))
            jobs.append(dict(ser=ser, method=method, authid="a" + word, given=(word, "r"), extra={word: word, "x": [word]} if word != "pubkey" else {}))
        for kw in (dict(method="ticket"), dict(method="wampcra"), dict(method="wampcra", salted=("s", 1, 32))):
            jobs.append(dict(ser="json", secret=word, **kw))
        jobs.append(dict(ser="json", method="wampcra", secret="s", salted=(word, 1, 32)))
    for ser, method, extra in itertools.product(SERS, METHODS, WORD_DICTS):
        jobs.append(dict(ser=ser, method=method, extra={k: v for k, v in extra.items() if k != "pubkey"}))
        jobs.append(dict(ser=ser, method=method, answer=extra))
        jobs.append(dict(ser=ser, method=method, roles={"caller": {"features": extra}}))
    for n in SIZES:
        jobs.append(dict(ser="json", method="wampcra", secret="s", salted=("s", n, 32)))
        jobs.append(dict(ser="json", method="wampcra", secret="s", salted=("s", 1, n)))
    for ser, secret in itertools.product(SERS, secrets):
        jobs.append(dict(ser=ser, method="ticket", secret=secret))
        jobs.append(dict(ser=ser, method="wampcra", secret=secret))
        for salt, it, kl in [*itertools.product(("s", "", "ünï", "x" * 99), (1, 2, 1000), (1, 16, 32, 64)),
                             *itertools.product(("s",), (1, 2, 3, 99, 4097), (16, 32, 33, 63, 65, 100, 256, 1024)),
                             *itertools.product((" s", "s ", "s\n", "s\0"), (1,), (32,))]:
            jobs.append(dict(ser=ser, method="wampcra", secret=secret, salted=(salt, it, kl)))
    for secret, salted in itertools.product(secrets[:1], (("s", 10_001, 32), ("s", 100_001, 32), ("s", 600_000, 32), ("s", 1_000_003, 32))):
        jobs.append(dict(ser="json", method="wampcra", secret=secret, salted=salted))
    for ser, method, extra, answer in itertools.product(SERS, METHODS, EXTRAS, ({"x": 1}, {"authid": "eve", "pubkey": PUB_B}, {**MISLEADING, "pubkey": PUB_B})):
        jobs.append(dict(ser=ser, method=method, extra=extra, answer=answer))
    for ser, key in itertools.product(SERS, range(1, c.pick(20, 256))):
        jobs.append(dict(ser=ser, method="cryptosign", key=bytes([key]) * 32))
    for ser, method, authid, role in itertools.product(SERS, METHODS, TEXTS + ("a\"b\\c",), TEXTS[1:] + ("r",)):
        jobs.append(dict(ser=ser, method=method, given=(authid, role)))
    for ser, method in itertools.product(SERS, (None,) + METHODS):
        jobs.append(dict(ser=ser, method=method, open=True))
        jobs.append(dict(ser=ser, method=method, open=True, roles={"broker": {}}))
    pairs = [cryptosign_module.generate_cryptosign_keypair() for _ in range(c.pick(100, 2000))]
    for public, private in pairs:
        jobs.append(dict(ser="json", method="cryptosign", key=bytes.fromhex(private), public=public))
    if len({x for pair in pairs for x in pair}) != 2 * len(pairs):
        c.violation("key pairs", {}, "generate_cryptosign_keypair gave the same key twice")
    texts = ("", "a", "A", "b")
    tuples = list(itertools.product((1, 2, 2**53), texts, texts, texts))
    for x, y in itertools.product(tuples, repeat=2):
        a, b = SessionDetails(*x), SessionDetails(*y)
        if (a == b) is not (x == y) or (a != b) is not (x != y):
            c.violation("equality", {"details": [x, y]}, f"session details {x} and {y}: == gives {a == b!r}, != gives {a != b!r}")
    for x, other in itertools.product(tuples, (None, 1, "a", *tuples[:2], [1], {}, object())):
        if SessionDetails(*x) == other or other == SessionDetails(*x):
            c.violation("equality", {"details": [x, repr(other)]}, f"session details {x} equal {other!r}")
    c.counts["pairs of session details"] = len(tuples) ** 2
    jobs = [{**j, "wrong": False} for j in jobs] + [
        {**j, "wrong": True} for j in jobs if not j.get("open") and j.get("method") is not None]
    results = {}
    for job, out in zip(jobs, pmap(handshake, jobs)):
        if isinstance(out, Bad):
            c.violation("handshake", {"handshake": job}, out)
        results[out] = results.get(out, 0) + 1
    c.counts["evaluations"] = len(jobs)
    c.counts["distinct_nontrivial"] = len({repr(j) for j in jobs})
    c.counts.update(results)
    c.rules.append("full product of method, serializer, realm, authid, auth extra and roles; of secrets, salts, iteration "
                   "counts and key lengths; of keys; each with the right and a wrong credential; distinct inputs counted")
    c.samples += [repr(j) for j in jobs[:3] + jobs[-2:]]
    c.cover["exhaustive"] = True


LENGTHY = ["x" * n for n in (2047, 2048, 2049, 4095, 8191, 8193, 10_001, 65_535, 65_537)]


class Bad(str):
    pass


def handshake(job):
    try:
        return _handshake(**job)
    except Exception as e:
        return Bad(f"{job}: {type(e).__name__}: {e}")


def _handshake(ser, method, realm="realm1", authid="joe", extra=None, roles=None, secret=None, salted=None, key=None,
               given=(None, "role-1"), open=False, wrong=False, answer=None, public=None):
    key = nacl.signing.SigningKey(key) if key else KEY_A
    cred = secret if secret is not None else {"ticket": TICKET}.get(method, SECRET)
    extra_in = json.loads(json.dumps(extra))
    a = client(method, authid, extra, ticket=cred + "!" if wrong else cred, secret=cred + "!" if wrong else cred, key=key)
    if answer is not None:
        a = WithExtra(a, dict(answer))
    salt, it, kl = salted or (None, 1, 1)
    pubs = [key.verify_key.encode().hex()] if not (wrong and method == "cryptosign") else [PUB_B]
    server = None if open else Server(grant=not (wrong and method == "anonymous"), authid=given[0], authrole=given[1],
                                      secret=cred, ticket=cred, pubkeys=pubs, salted=salted is not None, salt=salt,
                                      iterations=it, keylen=kl)
    kw = {} if roles is None else {"roles": roles}
    joiner, acceptor = Joiner(realm, wire.SERIALIZERS[ser](), a), Acceptor(wire.SERIALIZERS[ser](), server)
    frames, finals, error = run_handshake(joiner, acceptor, **kw)
    what = f"{ser} {method}"
    if wrong and salted and kl < 4:
        # a derived key this short may coincide for two secrets
        if error is None and details(joiner) == details(acceptor) is not None:
            return f"{method} joined"
    if public is not None and public != key.verify_key.encode().hex():
        return Bad(f"{what}: {public} is not the public key of the generated pair")
    if wrong:
        if not isinstance(error, ApplicationError) or error.message != AUTH_FAILED:
            return Bad(f"{what}: wrong credential ended with {error!r}")
        if details(joiner) is not None or details(acceptor) is not None or not acceptor.is_aborted():
            return Bad(f"{what}: a session exists after a wrong credential")
        if finals[-1] is not True:
            return Bad(f"{what}: the acceptor does not report the end of the handshake")
        return f"{method} refused"
    if error is not None:
        return Bad(f"{what}: right credential ended with {error!r}")
    want = 2 if open or method in (None, "anonymous") else 4
    if len(frames) != want:
        return Bad(f"{what}: {len(frames)} messages instead of {want}")
    if finals != [False] * (len(finals) - 1) + [True]:
        return Bad(f"{what}: end of handshake reported as {finals}")
    dj, da = details(joiner), details(acceptor)
    if dj is None or not wire.same(list(dj), list(da)) or not joiner.get_session_details() == acceptor.get_session_details():
        return Bad(f"{what}: joiner reports {dj}, acceptor {da}")
    who = ("anonymous", "anonymous") if open else (given[0] if given[0] is not None else authid, given[1])
    if dj[1] != realm or dj[2:] != who or not 1 <= dj[0] <= wire.ID_MAX:
        return Bad(f"{what}: session details {dj}")
    if open:
        return f"{method} joined without authenticator"
    if len(server.requests) != 1:
        return Bad(f"{what}: the authenticator was asked {len(server.requests)} times")
    r = server.requests[0]
    sent = dict(extra_in or {})
    if method == "cryptosign":
        sent["pubkey"] = key.verify_key.encode().hex()
    if (r.method, r.realm, r.authid) != (method, realm, authid) or not wire.same(r.auth_extra, sent):
        return Bad(f"{what}: the authenticator was asked about {(r.method, r.realm, r.authid, r.auth_extra)}")
    if method == "ticket" and r.ticket != cred or method == "cryptosign" and r.public_key != sent["pubkey"]:
        return Bad(f"{what}: the authenticator saw the wrong credential")
    return f"{method} joined"


# ---------------------------------------------------------------------------------------------------- C17
def C17(c):
    c.assumptions.append("send_hello is not called again once it has sent a HELLO")
    for ser in (None,) + SERS:
        for kind in (None,) + METHODS + ("custom", "empty ticket"):
            c.run(f"{ser or 'objects'}: {kind or 'default'} authenticator",
                  lambda: JoinerWorld(ser, kind, others=JOINER_UNSUPPORTED, bad=True), c.pick(6, 9),
                  max_transitions=c.pick(60_000, 400_000))
    for ser, kind in zip((None, *SERS, None, "json", "cbor"), (None,) + METHODS + ("custom", "empty ticket")):
        c.run(f"{ser or 'objects'}: {kind or 'default'} authenticator, every word of the code in WELCOME, CHALLENGE and ABORT",
              lambda: JoinerWorld(ser, kind, words=True), 1, dedupe=False,  # noqa: B023
              start=((), (("hello",),), (("hello",), ("challenge", "a 0")), (("hello",), ("welcome", 0)), (("hello",), ("abort", 0))))
    for kind in METHODS:
        passing(c, lambda: JoinerWorld("json", kind, others=("Goodbye",)), c.pick(5, 8), 40_000, f"{kind}, ")  # noqa: B023
    for kind in METHODS + ("custom",):
        c.run(f"no reduction: {kind} authenticator",
              lambda: JoinerWorld(None, kind, others=("Hello", "Goodbye")), c.pick(4, 5), dedupe=False,
              max_transitions=c.pick(200_000, 3_000_000))
        small = lambda: JoinerWorld(None, kind, others=("Goodbye",))  # noqa: E731
        hs = [(), (("hello",),), (("hello",), ("challenge", "a")), (("hello",), ("welcome", 0)), (("hello",), ("abort", 0))]
        c.pump(f"one message repeated: {kind} authenticator", small, hs, 1, c.pick(20, 200))
        c.pump(f"two messages alternating: {kind} authenticator", small, hs, 2, c.pick(6, 40))


assert ABORTS
C15.level = C16.level = "exploration"
CHECKS = {"C14": C14, "C15": C15, "C16": C16, "C17": C17}
