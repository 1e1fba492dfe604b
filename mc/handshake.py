"""Worlds over the acceptor and the joiner; all proofs are computed here with nacl and hmac directly."""
import base64
import hashlib
import hmac
import json

import nacl.signing

from mc import wire
from mc.client import BAD_ARRAYS, DUMPS, LOADS
from mc.core import Mismatch, snapshot
from mc.router import sample_message
from mc.words import WORDS
from wampproto import auth
from wampproto.acceptor import Acceptor
from wampproto.exception import ApplicationError
from wampproto.joiner import Joiner

AUTH_FAILED = "wamp.error.authentication_failed"
METHODS = ("anonymous", "ticket", "wampcra", "cryptosign")
KEY_A = nacl.signing.SigningKey(bytes(range(32)))
KEY_B = nacl.signing.SigningKey(bytes(range(1, 33)))
PUB_A = KEY_A.verify_key.encode().hex()
PUB_B = KEY_B.verify_key.encode().hex()
TICKET, SECRET, SALT = "tick-1", "secret-1", "salt-1"


def unhex(text):
    try:
        return bytes.fromhex(text)
    except ValueError:
        return None


def unbase64(text):
    try:
        return base64.b64decode(text)
    except ValueError:
        return None


def text_of(challenge):
    """What a WAMP-CRA challenge says, nothing if it is no JSON object."""
    try:
        d = json.loads(challenge)
    except ValueError:
        d = None
    return d if isinstance(d, dict) else {}


def cryptosign_proof(key, challenge_hex):
    return key.sign(bytes.fromhex(challenge_hex)).signature.hex() + challenge_hex


def wampcra_proof(secret, challenge):
    key = secret if isinstance(secret, bytes) else secret.encode()
    return base64.b64encode(hmac.new(key, challenge.encode(), hashlib.sha256).digest()).decode()


def derived(secret, salt, iterations, keylen):
    return base64.b64encode(hashlib.pbkdf2_hmac("sha256", secret.encode(), salt.encode(), iterations, keylen))


class Server(auth.IServerAuthenticator):
    """Grants what it is told to, records every request."""

    def __init__(self, grant=True, salted=False, error=None, authid=None, authrole="role-1", secret=SECRET, ticket=TICKET,
                 pubkeys=(PUB_A,), salt=SALT, iterations=2, keylen=32, remember=False):
        self.grant, self.salted, self.error = grant, salted, error
        self.authid, self.authrole, self.secret, self.ticket, self.pubkeys = authid, authrole, secret, ticket, pubkeys
        self.salt, self.iterations, self.keylen = salt, iterations, keylen
        self.requests = []
        self.answers = {} if remember else None     # the same response object for every request of a kind

    def methods(self):
        return list(METHODS)

    def authenticate(self, request):
        if self.answers is None:
            return self.decide(request)
        key = (request.method, request.authid)
        if key not in self.answers:
            self.answers[key] = self.decide(request)
        return self.answers[key]

    def decide(self, request):
        self.requests.append(request)
        if not self.grant:
            raise self.error if self.error is not None else ValueError("not welcome")
        authid = request.authid if self.authid is None else self.authid
        if request.method == "ticket" and request.ticket != self.ticket:
            raise ValueError("wrong ticket")
        if request.method == "cryptosign" and self.pubkeys is not None and request.public_key not in self.pubkeys:
            raise ValueError("unknown key")
        if request.method == "wampcra":
            if self.salted:
                key = derived(self.secret, self.salt, self.iterations, self.keylen).decode()
                return auth.WAMPCRASaltedResponse(authid, self.authrole, key, self.salt, self.iterations, self.keylen)
            return auth.WAMPCRAResponse(authid, self.authrole, self.secret)
        return auth.Response(authid, self.authrole)


def mask(tokens):
    """Random values of a handshake (IDs, nonces, challenges) replaced by the order of their first occurrence."""
    seen, out = {}, []
    for t in tokens:
        if isinstance(t, (str, bytes)) and len(t) >= 16 and not (isinstance(t, str) and t.startswith("_")) or \
                type(t) is int and t >= 2**20:
            t = ("*", seen.setdefault((type(t), t), len(seen)))
        out.append(t)
    return out


def worded(v, but=()):
    return {w: v for w in WORDS if w not in but}


ERRORS = {
    "value": lambda: ValueError("no"),
    "runtime": lambda: RuntimeError("no", 1),
    "key": lambda: KeyError("no"),
    "app": lambda: ApplicationError("com.no", ["no"], None),
    "bare": lambda: Exception(),
    "object": lambda: ValueError("no", object()),
    "surrogate": lambda: RuntimeError("no \ud800", 2**70, {1: {2}}, b"\xff", float("nan")),
}
# extras whose keys look like what the handshake itself works with
MISLEADING = {"realm": "realm2", "authid": "eve", "authrole": "admin", "authmethod": "anonymous", "session": 1, "session_id": 1,
              "challenge": "cd" * 32, "secret": "secret-2", "ticket": "tick-2", "salt": "", "iterations": 1, "keylen": 1,
              "signature": "", "roles": {}, "anonymous": True, "channel_binding": "tls-unique"}
# HELLO variants: name -> (authmethods, authextra)
HELLOS = {
    "none": (None, None),
    "empty": ([], {}),
    "anonymous": (["anonymous"], MISLEADING),
    "ticket": (["ticket"], {}),
    "wampcra": (["wampcra"], None),
    "wampcra misleading": (["wampcra"], {"pubkey": PUB_B, **MISLEADING}),
    "cryptosign": (["cryptosign"], {"pubkey": PUB_A}),
    "cryptosign misleading": (["cryptosign"], {"pubkey": PUB_A, **MISLEADING}),
    "cryptosign other key": (["cryptosign"], {"pubkey": PUB_B}),
    "cryptosign without key": (["cryptosign"], {}),
    "cryptosign without extra": (["cryptosign"], None),
    "cryptosign odd key": (["cryptosign"], {"pubkey": PUB_A[:-1]}),
    "cryptosign short key": (["cryptosign"], {"pubkey": PUB_A[:-2]}),
    "unknown": (["scram"], {}),
}
# several methods at once: which one is taken is open, but the one taken counts
SEVERAL = {
    "first wampcra": (["wampcra", "ticket"], {"pubkey": PUB_A}),
    "first ticket": (["ticket", "anonymous", "cryptosign"], {"pubkey": PUB_A, **MISLEADING}),
    "first cryptosign": (["cryptosign", "cryptosign", "wampcra"], {"pubkey": PUB_A}),
    "first anonymous": (["anonymous", "ticket"], None),
    "first unknown": (["scram", "ticket"], {}),
}
# every word of the code as a key, with each of these values and with each word as value
WORD_VALUES = (*wire.OF_ALL, TICKET, SECRET, "tick-2", "secret-2", SALT, PUB_A, PUB_B, 2**53, *WORDS)
WORDED = {f"word {i} {method}": ([method], {**worded(v, ("pubkey",)), "pubkey": PUB_A}) for method in METHODS for i, v in enumerate(WORD_VALUES)}
OWN = ("session", "challenge", "authid", "realm", "method", "role", "right", "server secret")     # what the handshake itself has said
VERDICTS = {"right": {"welcome"}, "wrong": {"abort"}, "either": {"welcome", "abort"}}
PROOFS = ("good", "old", "old challenge", "other key", "other secret", "empty", "junk", "ticket", "wrong ticket", "half",
          "challenge", "non-ascii")


class AcceptorWorld:
    """Everything a client can send to one acceptor, in any order."""

    def __init__(self, ser=None, server=None, hellos=(*HELLOS, *SEVERAL), proofs=PROOFS, others=(), bad=False, words=False):
        self.ser, self.words = ser, words
        self.hellos, self.proofs, self.others, self.bad = hellos, proofs, others, bad
        self.server = server if server is None or isinstance(server, Server) else \
            Server(**{**server, "error": ERRORS[server["error"]]() if server.get("error") else None})
        self.serializer = wire.SERIALIZERS[ser or "json"]()
        self.a = Acceptor(self.serializer, self.server)
        self.authid, self.realm, self.extra = None, None, None   # of the HELLO that counts
        self.state = "new"        # new, challenged, welcomed, aborted
        self.loose = False        # a HELLO was rejected: whether the handshake can go on is open
        self.method = None
        self.challenge = ""
        self.pub = None
        self.details = None
        self.aborted = False
        self.welcomes = 0
        self.old = {}
        self.last = "-"

    def enabled(self):
        if self.words:
            return [("auth", p, 10 + e) for p in self.proofs for e in range(len(WORD_VALUES) + len(OWN))]
        ops = [("hello", h) for h in self.hellos]
        ops += [("auth", p, e) for p in self.proofs for e in (
            range(3) if p in ("good", "junk", "wrong ticket") else (0, 2) if p in ("old challenge", "other key", "other secret") else (0,))]
        ops += [("abort",)]
        ops += [("other", o) for o in self.others]
        if self.bad and self.ser:
            ops += [("bad", i) for i in range(len(BAD_ARRAYS) + 3)]
        return ops

    def send(self, what, msg):
        """('message', m) | ('nothing', None) | ('rejected', error)"""
        try:
            if self.ser:
                arr = wire.to_array(wire.type_name(msg), wire.fields(msg))
                out, final = self.a.receive(DUMPS[self.ser](arr))
                if out is None:
                    if not final:
                        raise Mismatch("C14", f"{what}: nothing to send and not finished")
                    return "nothing", None
                arr = LOADS[self.ser](out)
                if wire.faults(arr):
                    raise Mismatch("C14", f"{what}: answered with malformed frame {out!r}")
                name, f = wire.from_array(arr)
                if final is not (name in ("Welcome", "Abort")):
                    raise Mismatch("C14", f"{what}: {name} reported as final={final}")
                return "message", wire.make(name, **f)
            out = self.a.receive_message(msg)
            return ("nothing", None) if out is None else ("message", out)
        except ValueError as e:
            return "rejected", e
        except Mismatch:
            raise
        except Exception as e:
            raise Mismatch("C14", f"{what}: ended with {type(e).__name__} ({e}) instead of ValueError")

    def step(self, op):
        self.last = "-"
        getattr(self, "op_" + op[0])(*op[1:])
        self.observe(op)

    def observe(self, op):
        if self.aborted is not None and self.a.is_aborted() is not self.aborted:
            raise Mismatch("C14", f"after {op!r}: is_aborted() is {self.a.is_aborted()}, state {self.state}")
        try:
            d = self.a.get_session_details()
        except Exception:
            d = None
        want = self.details
        if (d is None) != (want is None):
            raise Mismatch("C14", f"after {op!r}: session details are {'un' if d is None else ''}available ({self.state})")
        if want is not None and (d.session_id, d.realm, d.authid, d.authrole) != want:
            raise Mismatch("C14", f"after {op!r}: session details {(d.session_id, d.realm, d.authid, d.authrole)} "
                                  f"instead of {want}")

    def judge(self, what, kind, out, want, tags="C14", reason=""):
        """want: a set of acceptable reactions among welcome, challenge, abort, rejected, nothing."""
        got = wire.type_name(out).lower() if kind == "message" else kind
        if got not in want:
            raise Mismatch(tags, f"{what} in state {self.state}{reason}: expected {' or '.join(sorted(want))}, got "
                                 f"{wire.show(out) if kind == 'message' else kind + (f' ({out})' if out else '')}")
        self.last = f"{self.state}: {got}"
        if got == "abort":
            if out.reason != AUTH_FAILED:
                raise Mismatch(tags, f"{what}: aborted with {out.reason}")
            self.state, self.aborted = "aborted", True
        if got == "welcome":
            self.welcomes += 1
            f = wire.fields(out)
            if type(f["session_id"]) is not int or not 1 <= f["session_id"] <= wire.ID_MAX:
                raise Mismatch(tags + " C10", f"{what}: session ID {f['session_id']!r}")
            self.state = "welcomed"
            self.details = (f["session_id"], self.realm, f["authid"], f["authrole"])
            who = ("anonymous", "anonymous") if self.server is None else (
                self.server.authid if self.server.authid is not None else self.authid, self.server.authrole)
            if (f["authid"], f["authrole"]) != who:
                raise Mismatch(tags, f"{what}: welcomed as {(f['authid'], f['authrole'])} instead of {who}")
        return got

    def ended(self):
        return self.state in ("welcomed", "aborted")

    def op_hello(self, h):
        methods, extra = HELLOS[h] if h in HELLOS else SEVERAL[h] if h in SEVERAL else WORDED[h]
        extra = None if extra is None else dict(extra)
        realm, authid = f"realm {h}", f"joe {h}"
        if self.state == "new":
            self.realm, self.authid, self.extra = realm, authid, None if extra is None else dict(extra)
        msg = wire.make("Hello", realm=realm, roles={"caller": {"features": {}}}, authid=authid,
                        authmethods=methods and list(methods), authextra=extra)
        what = f"HELLO {h}"
        asked = len(self.server.requests) if self.server else 0
        kind, out = self.send(what, msg)
        if self.ended():
            self.judge(what, kind, out, {"rejected", "nothing"})
            return
        if self.state == "challenged":
            self.judge(what, kind, out, {"rejected"})
            return
        offered = methods or ["anonymous"]
        want = {"rejected"} if self.loose else set()
        for method in offered:
            want |= {"welcome"} if self.server is None else self.reactions(method, extra)
        got = self.judge(what, kind, out, want)
        if got == "challenge":
            if out.authmethod not in offered or "challenge" not in self.reactions(out.authmethod, extra):
                raise Mismatch("C14 C16", f"{what}: was challenged for {out.authmethod}")
            self.challenged(out.authmethod, out)
            if self.method == "cryptosign":
                self.pub = extra and extra.get("pubkey")
        elif got == "rejected":
            self.loose = True
        if self.server and got == "welcome" and all(r.method != "anonymous" for r in self.server.requests[asked:]):
            raise Mismatch("C14", f"{what}: welcomed without asking the authenticator")
        if self.server:
            for r in self.server.requests:
                self.asked(what, r, offered)
            self.server.requests.clear()

    def reactions(self, method, extra):
        """What a HELLO with this one method may be answered with."""
        key = (extra or {}).get("pubkey")
        if method == "anonymous":
            return {"welcome"} if self.server.grant else {"abort"}
        if method == "ticket":
            return {"challenge"}
        if method == "wampcra":
            return {"challenge"} if self.server.grant else {"abort"}
        if method != "cryptosign" or key is None:
            return {"rejected", "abort"}
        knows = self.server.grant and (self.server.pubkeys is None or key in self.server.pubkeys)
        return ({"challenge"} if knows else {"abort"}) | ({"rejected", "abort"} if len(key) < 64 else set())

    def asked(self, what, r, methods):
        """The authenticator is asked about what the HELLO said."""
        extra = self.extra if self.extra is not None else {}
        if r.method not in methods or (r.realm, r.authid) != (self.realm, self.authid) or \
                not wire.same(r.auth_extra if r.auth_extra is not None else {}, extra):
            raise Mismatch("C14 C16", f"{what}: the authenticator was asked about {(r.method, r.realm, r.authid, r.auth_extra)}")
        if r.method == "cryptosign" and r.public_key != extra.get("pubkey"):
            raise Mismatch("C14 C16", f"{what}: the authenticator was asked about key {r.public_key!r}")

    def challenged(self, method, out):
        self.state, self.method = "challenged", method
        self.challenge = out.extra.get("challenge", "")
        if method != "ticket" and not (isinstance(self.challenge, str) and self.challenge):
            raise Mismatch("C14 C15", f"challenge for {method} carries none: {out.extra!r}")

    def earlier(self):
        """A proof recorded in an earlier handshake of the same client, and its challenge."""
        method = self.method if self.method in ("wampcra", "cryptosign") else "wampcra"
        if method not in self.old:
            other = AcceptorWorld(server={**vars_of(self.server), "grant": True} if self.server else None)
            other.op_hello(method)
            self.old[method] = (other.challenge, other.proof("good")) if other.state == "challenged" else ("00" * 32, "x")
        return self.old[method]

    def secret(self):
        s = self.server
        return s.secret if not s.salted else derived(s.secret, s.salt, s.iterations, s.keylen)

    def proof(self, p):
        sign = self.method == "cryptosign"
        good = cryptosign_proof(KEY_A, self.challenge) if sign else \
            wampcra_proof(self.secret(), self.challenge) if self.method == "wampcra" else \
            self.server.ticket if self.server else "x"
        if p == "good":
            return good
        if p == "old":
            return self.earlier()[1]
        if p == "old challenge":
            return cryptosign_proof(KEY_A, self.earlier()[0]) if sign else \
                wampcra_proof(SECRET, self.earlier()[0] or "x")
        if p == "other key":
            return cryptosign_proof(KEY_B, self.challenge if sign else "00" * 32)
        if p == "other secret":
            return wampcra_proof("secret-2", self.challenge)
        if p == "half":
            return good[:len(good) // 2]
        if p == "challenge":
            return self.challenge
        return {"empty": "", "junk": "zz!", "ticket": TICKET, "wrong ticket": "tick-2", "non-ascii": "ü" * 4}[p]

    def own(self, what):
        said = {"session": 1, **text_of(self.challenge)}
        return {"session": said["session"], "challenge": self.challenge, "authid": self.authid, "realm": self.realm, "method": self.method,
                "role": self.server.authrole if self.server else "anonymous", "right": self.right() if self.server and self.method else None,
                "server secret": self.server.secret if self.server else SECRET}[what]

    def right(self):
        """The one proof of the right principal over this very challenge, computed without /repo."""
        if self.method == "ticket":
            return self.server.ticket if self.server.grant else None
        if self.method == "wampcra":
            return wampcra_proof(self.secret(), self.challenge)
        key = {PUB_A: KEY_A, PUB_B: KEY_B}.get(self.pub)
        return cryptosign_proof(key, self.challenge) if key else None

    def verdict(self, sig):
        """'right', 'wrong', or 'either' for another spelling of the right proof."""
        good = self.right()
        if sig == good:
            return "right"
        if good is None:
            return "wrong"
        if self.method == "cryptosign":
            return "either" if unhex(sig) == unhex(good) else "wrong"
        if self.method == "wampcra":
            return "either" if unbase64(sig) == unbase64(good) else "wrong"
        return "wrong"

    def op_auth(self, p, e=0):
        sig = self.proof(p)
        extra = {"authid": "eve", "x": 1, "ticket": TICKET} if e == 1 else {}
        if e == 2:      # everything that would make this proof a right one
            extra = {**MISLEADING, "pubkey": PUB_B, "public_key": PUB_B,
                     "challenge": self.earlier()[0] or "x" if p == "old challenge" else self.challenge}
        if e >= 10:
            extra = worded(WORD_VALUES[e - 10] if e - 10 < len(WORD_VALUES) else self.own(OWN[e - 10 - len(WORD_VALUES)]))
        msg = wire.make("Authenticate", signature=sig, extra=extra)
        what = f"AUTHENTICATE {p}"
        kind, out = self.send(what, msg)
        if self.server:
            for r in self.server.requests:
                self.asked(what, r, ("ticket",))
                if r.ticket != sig:
                    raise Mismatch("C14 C16", f"{what}: the authenticator was asked about ticket {r.ticket!r}")
            self.server.requests.clear()
        if self.ended():
            self.judge(what, kind, out, {"rejected", "nothing"})
        elif self.state == "new":
            self.judge(what, kind, out, {"rejected"})
        else:
            right = self.verdict(sig)
            tags = "C14" if p in ("good", "ticket", "wrong ticket", "empty", "junk") else "C14 C15"
            self.judge(what, kind, out, VERDICTS[right], tags=tags, reason=f" ({self.method}, {right} proof)")

    def op_abort(self):
        kind, out = self.send("ABORT", wire.make("Abort", details={}, reason="com.bye"))
        self.judge("ABORT", kind, out, {"rejected", "nothing"} if self.ended() else {"nothing"})
        if self.state == "welcomed":
            self.aborted = None   # left open
        elif self.state != "aborted":
            self.state, self.aborted = "aborted", True

    def op_other(self, name):
        kind, out = self.send(name, sample_message(name))
        self.judge(name, kind, out, {"rejected"} if not self.ended() else {"rejected", "nothing"})

    def op_bad(self, i):
        if i < len(BAD_ARRAYS):
            frame = DUMPS[self.ser](BAD_ARRAYS[i])
        else:
            good = DUMPS[self.ser](wire.to_array("Hello", dict(realm="r", roles={"caller": {}})))
            frame = [good[:-1], good + good[:1], good[:0]][i - len(BAD_ARRAYS)]
        try:
            out = self.a.receive(frame)
        except Exception:
            self.last = "bad frame"
            return
        raise Mismatch("C14 C20 C21", f"bad frame {frame!r} was answered with {out!r}")

    def canon(self):
        model = (self.state, self.loose, self.method, self.aborted, self.welcomes, self.details is None)
        return mask(snapshot((self.a, model, self.challenge)))

    def outcome(self):
        return self.last


def vars_of(server):
    return {k: getattr(server, k) for k in ("salted", "authid", "authrole", "secret", "ticket", "pubkeys", "salt",
                                            "iterations", "keylen")}


# ------------------------------------------------------------------------------------------------- joiner
WELCOMES = (
    dict(session_id=1, roles={"dealer": {}}, authid="joe", authrole="user"),
    dict(session_id=2**53, roles={"broker": {}}, authid="", authrole="ünï", authmethod="ticket", authextra={"a": 1}),
    dict(session_id=7, roles={"broker": {}, "dealer": {}}, authid="joe", authrole="joe", authmethod="anonymous", authextra={"authid": "eve"}),
    dict(session_id=9, roles={"dealer": {}}, authid=None, authrole=None),
)
ABORTS = (
    dict(details={}, reason="com.no"),
    dict(details={"m": 1}, reason="wamp.error.authentication_failed", args=["a", 2], kwargs={"k": [1]}),
    dict(details={}, reason="", args=[], kwargs={}),
    dict(details={}, reason="com.no", args=[], kwargs={"k": 1}),
)
UNSENDABLE = range(3)     # no serializer takes it
WORD_WELCOMES = tuple(dict(session_id=5 + i, roles={"dealer": {"features": worded(v)}}, authid=v if isinstance(v, str) else "joe", authrole=v if isinstance(v, str) else "user",
                           authmethod=v if isinstance(v, str) else "ticket", authextra=worded(v)) for i, v in enumerate(WORD_VALUES))
WORD_ABORTS = tuple(dict(details=worded(v), reason=v if isinstance(v, str) else "com.no", args=[v], kwargs=worded(v)) for v in WORD_VALUES) + tuple(
    dict(details={}, reason=w) for w in WORDS)
CHALLENGE_A, CHALLENGE_B = "ab" * 32, "cd" * 32
FOREIGN = ("ticket", "wampcra", "scram")
CHALLENGES = {
    "a": {"challenge": CHALLENGE_A},
    "b": {"challenge": CHALLENGE_B, "other": 1},
    "salted": {"challenge": "{\"session\": 1}", "salt": SALT, "iterations": 3, "keylen": 16},
    "none": {},
    "unsendable": {"unsendable": 1},
    "salted broken": {"challenge": CHALLENGE_A, "salt": SALT},
}


ABOUT = ("challenge", "salt", "iterations", "keylen")
WORD_CHALLENGES = {f"{base} {i}": {**worded(v, ABOUT), **CHALLENGES[base]} for base in ("a", "salted", "none") for i, v in enumerate(WORD_VALUES)}
WORD_CHALLENGES.update({f"text {i}": {"challenge": w} for i, w in enumerate(WORDS)})


class Custom(auth.IClientAuthenticator):
    """Application-supplied authenticator that answers with what it was asked, or fails."""

    def __init__(self):
        super().__init__("custom", "joe", {"x": 1})
        self.asked = []

    def authenticate(self, challenge):
        self.asked.append(challenge.extra)
        if not challenge.extra:
            raise RuntimeError("cannot answer")
        if "unsendable" in challenge.extra:
            return wire.make("Authenticate", signature="unsendable", extra={"n": UNSENDABLE})
        return wire.make("Authenticate", signature=f"answer {len(self.asked)}", extra={"n": len(self.asked)})


def client(kind, authid="joe", extra=None, ticket=TICKET, secret=SECRET, key=KEY_A):
    if kind is None:
        return None
    if kind == "anonymous":
        return auth.AnonymousAuthenticator(authid, extra)
    if kind == "ticket":
        return auth.TicketAuthenticator(authid, ticket, extra)
    if kind == "wampcra":
        return auth.WAMPCRAAuthenticator(authid, secret, extra)
    if kind == "cryptosign":
        return auth.CryptoSignAuthenticator(authid, key.encode().hex(), extra)
    if kind == "empty ticket":
        return auth.TicketAuthenticator("", "", extra)
    return Custom()


class WithExtra(auth.IClientAuthenticator):
    """Application-supplied authenticator that adds something to another one's answer."""

    def __init__(self, base, extra):
        super().__init__(base.auth_method, base.authid, base.auth_extra)
        self.base, self.more = base, extra

    def authenticate(self, challenge):
        return wire.make("Authenticate", signature=self.base.authenticate(challenge).signature, extra=self.more)


class JoinerWorld:
    """Everything a router can send to one joiner, in any order, before and after its HELLO."""

    def __init__(self, ser=None, kind="ticket", others=(), bad=False, realm="realm1", words=False):
        self.words = words
        self.welcomes, self.aborts, self.challenges = (WORD_WELCOMES, WORD_ABORTS, WORD_CHALLENGES) if words else (WELCOMES, ABORTS, CHALLENGES)
        self.ser, self.kind, self.others, self.bad, self.realm = ser, kind, others, bad, realm
        self.auth = client(kind)
        self.j = Joiner(realm, wire.SERIALIZERS[ser or "json"](), self.auth)
        self.method = {None: "anonymous", "empty ticket": "ticket"}.get(kind, kind)
        self.state = "new"      # new, hello, answered, joined, aborted
        self.details = None
        self.answers = 0
        self.last = "-"

    def enabled(self):
        ops = [("hello",), ("hello", True)] if self.state == "new" else []
        if self.state in ("hello", "answered", "aborted") and self.details is None:
            ops.append(("again",))
        ops += [("welcome", i) for i in range(len(self.welcomes))] + [("challenge", k) for k in self.challenges]
        if not self.words:
            ops += [("challenge", "a", m) for m in FOREIGN if m != self.method]
        ops += [("abort", i) for i in range(len(self.aborts))] + [("other", o) for o in self.others]
        if self.bad and self.ser:
            ops += [("bad", i) for i in range(len(BAD_ARRAYS) + 3)]
        return ops

    def step(self, op):
        self.last = "-"
        getattr(self, "op_" + op[0])(*op[1:])
        try:
            d = self.j.get_session_details()
        except Exception:
            d = None
        if (d is None) != (self.details is None) and not (self.state == "aborted" and self.details is not None):
            raise Mismatch("C17", f"after {op!r}: session details are {'un' if d is None else ''}available ({self.state})")
        if d is not None and (d.session_id, d.realm, d.authid, d.authrole) != self.details:
            raise Mismatch("C17", f"after {op!r}: session details {(d.session_id, d.realm, d.authid, d.authrole)} "
                                  f"instead of {self.details}")

    def receive(self, name, **f):
        msg = wire.make(name, **f)
        if self.ser:
            out = self.j.receive(DUMPS[self.ser](wire.to_array(name, wire.fields(msg))))
            if out is None:
                return None
            arr = LOADS[self.ser](out)
            if wire.faults(arr):
                raise Mismatch("C17", f"{name} was answered with malformed frame {out!r}")
            n, f = wire.from_array(arr)
            return wire.make(n, **f)
        return self.j.receive_message(msg)

    def rejects(self, what, name, **f):
        try:
            out = self.receive(name, **f)
        except Mismatch:
            raise
        except Exception:
            self.last = f"{self.state}: {name} rejected"
            return
        raise Mismatch("C17", f"{what} in state {self.state} must be rejected, but gave {wire.show(out)}")

    def op_hello(self, unsendable=False):
        if unsendable:
            try:
                out = self.j.send_hello({"caller": {"features": {"x": UNSENDABLE}}})
            except Exception:
                self.last = "HELLO not sent"
                return
            raise Mismatch("C17", f"send_hello() with roles that cannot be encoded gave {out!r}")
        out = LOADS[self.ser or "json"](self.j.send_hello())
        name, f = wire.from_array(out) if not wire.faults(out) else (None, {})
        method = self.method
        want = dict(realm=self.realm, authid=self.auth.authid if self.auth else "", authmethods=[method])
        if name != "Hello" or any(f[k] != v for k, v in want.items()) or not f["roles"]:
            raise Mismatch("C17 C16", f"send_hello() gave {out!r} instead of a HELLO with {want}")
        if method == "cryptosign" and f["authextra"].get("pubkey") != PUB_A:
            raise Mismatch("C17 C16", f"send_hello() gave authextra {f['authextra']!r} without the public key")
        self.state, self.last = "hello", "hello"

    def op_again(self):
        """Another HELLO, which begins the handshake anew unless it is refused."""
        try:
            self.op_hello()
        except Mismatch:
            raise
        except Exception:
            self.last = f"{self.state}: HELLO refused"

    def op_welcome(self, i):
        f = {**self.welcomes[i], "roles": dict(self.welcomes[i]["roles"])}
        what = f"WELCOME {i}"
        if self.state not in ("hello", "answered"):
            return self.rejects(what, "Welcome", **f)
        try:
            out = self.receive("Welcome", **f)
        except Mismatch:
            raise
        except Exception as e:
            raise Mismatch("C17", f"{what} in state {self.state} was rejected: {type(e).__name__} {e}")
        if out is not None:
            raise Mismatch("C17", f"{what} was answered with {wire.show(out)}")
        self.last = f"{self.state}: joined"
        self.state, self.details = "joined", (f["session_id"], self.realm, f["authid"], f["authrole"])

    def expected(self, k):
        """The proof of the configured authenticator for a challenge, or None if it cannot answer."""
        extra = self.challenges[k]
        c = extra.get("challenge")
        if self.method == "ticket":
            return TICKET if self.kind == "ticket" else "", {}
        if self.kind == "wampcra" and c is not None:
            if "salt" in extra and "keylen" not in extra:
                return None
            key = SECRET if "salt" not in extra else derived(SECRET, extra["salt"], extra["iterations"], extra["keylen"])
            return wampcra_proof(key, c), {}
        if self.kind == "cryptosign" and c in (CHALLENGE_A, CHALLENGE_B):
            return cryptosign_proof(KEY_A, c), {}
        if self.kind == "custom" and "unsendable" in extra:
            return None if self.ser else ("unsendable", {"n": UNSENDABLE})
        if self.kind == "custom" and extra:
            return f"answer {len(self.auth.asked)}", {"n": len(self.auth.asked)}
        return None

    def op_challenge(self, k, method=None):
        """A CHALLENGE for a method that was not offered may be refused; an answer must be that of the own authenticator."""
        f = dict(authmethod=method or self.method, extra=dict(self.challenges[k]))
        what = f"CHALLENGE {k} {method or ''}"
        asked = len(self.auth.asked) if self.kind == "custom" else 0
        if self.state != "hello":
            self.rejects(what, "Challenge", **f)
            if self.kind == "custom" and len(self.auth.asked) != asked:
                raise Mismatch("C17", f"{what} in state {self.state} was passed to the authenticator")
            return
        try:
            out = self.receive("Challenge", **f)
        except Mismatch:
            raise
        except Exception as e:
            if self.expected(k) is None or method:
                self.last = "foreign method refused" if method else "authenticator failed"
                return
            raise Mismatch("C17", f"{what} was rejected: {type(e).__name__} {e}")
        want = self.expected(k)
        if want is None:
            raise Mismatch("C17", f"{what}, which the authenticator cannot answer, was answered with {wire.show(out)}")
        if out is None or wire.type_name(out) != "Authenticate" or (out.signature, out.extra) != want:
            raise Mismatch("C17", f"{what} was answered with {wire.show(out)} instead of {want}")
        self.answers += 1
        self.state, self.last = "answered", "answered"

    def op_abort(self, i):
        f = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in self.aborts[i].items()}
        try:
            out = self.receive("Abort", **f)
        except ApplicationError as e:
            if e.message != f["reason"] or not wire.same(e.kwargs, f.get("kwargs")) or \
                    not wire.same(list(e.args), f.get("args") or []):
                raise Mismatch("C17", f"ABORT {f} was raised as {e.message!r} {e.args!r} {e.kwargs!r}")
            said = [f["reason"], *(f.get("args") or ()), *(f.get("kwargs") or {}), *(f.get("kwargs") or {}).values()]
            lost = [x for x in said if isinstance(x, (str, int)) and str(x).isalnum() and str(x) not in str(e)]
            if lost or f["reason"] not in str(e):
                raise Mismatch("C17", f"the text of ABORT {f} is {str(e)!r}, without {lost}")
        except Mismatch:
            raise
        except Exception as e:
            raise Mismatch("C17", f"ABORT {f} was raised as {type(e).__name__}: {e}")
        else:
            raise Mismatch("C17", f"ABORT was not raised but gave {wire.show(out)}")
        self.last = f"{self.state}: aborted"
        self.state = "aborted"

    def op_other(self, name):
        self.rejects(name, name, **wire.fields(sample_message(name)))

    def op_bad(self, i):
        if i < len(BAD_ARRAYS):
            frame = DUMPS[self.ser](BAD_ARRAYS[i])
        else:
            good = DUMPS[self.ser](wire.to_array("Welcome", dict(session_id=1, roles={"dealer": {}})))
            frame = [good[:-1], good + good[:1], good[:0]][i - len(BAD_ARRAYS)]
        try:
            out = self.j.receive(frame)
        except Exception:
            self.last = "bad frame"
            return
        raise Mismatch("C17 C20 C21", f"bad frame {frame!r} gave {out!r}")

    def canon(self):
        asked = len(self.auth.asked) if self.kind == "custom" else 0
        return snapshot((self.j, self.state, self.answers, asked, self.details))

    def outcome(self):
        return self.last


ACCEPTOR_UNSUPPORTED = tuple(n for n in wire.SPEC if n not in ("Hello", "Authenticate", "Abort"))
JOINER_UNSUPPORTED = tuple(n for n in wire.SPEC if n not in ("Welcome", "Challenge", "Abort"))


# ----------------------------------------------------------------------------------------- whole handshakes
def run_handshake(joiner, acceptor, roles=None, limit=10):
    """Passes frames between both until nobody has anything to say; (frames sent, error raised by the joiner)."""
    frames = [joiner.send_hello(roles) if roles is not None else joiner.send_hello()]
    finals = []
    while len(frames) < limit:
        reply, final = acceptor.receive(frames[-1])
        finals.append(final)
        frames.append(reply)
        try:
            answer = joiner.receive(reply)
        except ApplicationError as e:
            return frames, finals, e
        if answer is None:
            break
        frames.append(answer)
    return frames, finals, None


def details(x):
    try:
        d = x.get_session_details()
    except Exception:
        return None
    return d.session_id, d.realm, d.authid, d.authrole
