"""C10 (IDs) and C25 (independence of instances)."""
import itertools
import json
import math
import os
import random
import secrets
import threading
import time

from mc import codec, threads, wire
from mc.core import Mismatch, Workers, attributes, pmap, snapshot
from mc.handshake import (AcceptorWorld, JoinerWorld, METHODS, Server, client, cryptosign_proof, KEY_A, KEY_B, mask, run_handshake,
                          wampcra_proof, SECRET, TICKET, details as hs_details)
from mc.wire import ID_MAX
from wampproto import auth, idgen
from wampproto.acceptor import Acceptor
from wampproto.auth.wampcra import derive_cra_key
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.joiner import Joiner
from wampproto.session import WAMPSession
from wampproto.types import SessionDetails


# ---------------------------------------------------------------------------------------------------- C10
def counters(gen):
    """Names of the integer attributes of a generator that follow the ID it gave last, with their offset from it."""
    a = gen.next()
    before = dict(attributes(gen) or [])
    b = gen.next()
    after = dict(attributes(gen) or [])
    return {k: v - b for k, v in after.items() if type(v) is int and type(before.get(k)) is int
            and v - before[k] == b - a and v != before[k]}


def jump(gen, last):
    """Makes the generator believe `last` was the ID it gave last; False if it has no counter of its own."""
    where = counters(gen)
    for k, off in where.items():
        setattr(gen, k, last + off)
    return bool(where)


def generators(obj, out=None, seen=None):
    """All ID generators reachable from an object."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if id(obj) in seen or isinstance(obj, (int, str, bytes, type(None), float)):
        return out
    seen.add(id(obj))
    if isinstance(obj, idgen.SessionScopeIDGenerator):
        out.append(obj)
    elif isinstance(obj, dict):
        for v in obj.values():
            generators(v, out, seen)
    elif isinstance(obj, (list, tuple, set)):
        for v in obj:
            generators(v, out, seen)
    else:
        for _, v in attributes(obj) or ():
            generators(v, out, seen)
    return out


def succ(i):
    return 1 if i == ID_MAX else i + 1


class RandomSource:
    """Replaces every source of random numbers by scripted answers (and keeps the last one when they run out)."""

    TARGETS = [(random, n) for n in ("getrandbits", "random", "randbytes")] + [(random._inst, n) for n in ("getrandbits", "random")] + \
        [(random.SystemRandom, n) for n in ("getrandbits", "random")] + [(os, "urandom")]

    def __init__(self, answers):
        self.answers = answers
        self.used = 0

    def pick(self, lo, hi, scale):
        """The next answer, as a number lo..hi; after the script, answers that end any rejection loop."""
        i = self.used
        self.used += 1
        if i > 60:
            raise Mismatch("C10", "the random source is asked without end")
        a = self.answers[i] if i < len(self.answers) else (0, 1, 12345)[i % 3]
        return min(hi, max(lo, a if a >= 0 else hi + 1 + a))

    def bits(self, *a):
        k = a[-1]
        return self.pick(0, (1 << k) - 1, k)

    def real(self, *a):
        i = self.used
        self.used += 1
        a = self.answers[i] if i < len(self.answers) else 7
        return {0: 0.0, 1: 5e-324, -1: 1 - 2.0**-53, -2: 1 - 2.0**-52}.get(a, (a % (2**53)) / 2.0**53)

    def octets(self, *a):
        n = a[-1]
        return (self.bits(8 * n) if n else 0).to_bytes(n, "big")

    def __enter__(self):
        self.saved = []
        for obj, n in self.TARGETS:
            had = n in vars(obj) if hasattr(obj, "__dict__") else True
            self.saved.append((obj, n, vars(obj).get(n), had))
            f = {"getrandbits": self.bits, "random": self.real}.get(n, self.octets)
            if isinstance(obj, type):
                f = (lambda g: lambda s, *a: g(*a))(f)
            setattr(obj, n, f)
        return self

    def __exit__(self, *exc):
        for obj, n, v, had in self.saved:
            if had:
                setattr(obj, n, v)
            else:
                delattr(obj, n)


def C10(c):
    c.assumptions.append("far IDs are reached by moving the generator's own counter, found by observing which integer attribute "
                         "follows the IDs; a generator without such an attribute is only run from its start")
    # from the start
    n = c.pick(300_000, 5_000_000)
    gen, other = idgen.SessionScopeIDGenerator(), idgen.SessionScopeIDGenerator()
    for i in range(1, n + 1):
        got = gen.next()
        if got != i or type(got) is not int:
            c.violation("from the start", {"call": i}, f"ID number {i} of a fresh generator is {got!r}")
        if i % 1000 == 1 and other.next() != i // 1000 + 1:
            c.violation("from the start", {"call": i}, "another generator was disturbed")
    c.counts["evaluations"] += n
    c.counts["distinct_nontrivial"] += n
    # around every power of two, and over the end, from every starting point
    jumped = 0
    starts = sorted({x for k in range(1, 54) for x in range(2**k - 4, 2**k + 4) if 0 < x <= ID_MAX} |
                    {ID_MAX - d for d in range(64)} | {10**k + d for k in range(1, 16) for d in range(-4, 4)} | {3 * 2**k for k in range(8, 51)} | {x * 10**k for k in range(3, 16) for x in range(2, 9)})
    for last in starts:
        gen = idgen.SessionScopeIDGenerator()
        if not jump(gen, last):
            break
        jumped += 1
        want = last
        for _ in range(140):
            want = succ(want)
            got = gen.next()
            c.counts["evaluations"] += 1
            if got != want or type(got) is not int:
                c.violation("wrap", {"last": last}, f"after {last} came ... {got!r} instead of {want}")
        got = [idgen.SessionScopeIDGenerator().next() for _ in range(2)] + [gen.next()]
        if got != [1, 1, succ(want)]:
            c.violation("independence", {"last": last}, f"after another generator went on from {last}, new ones begin with {got[:2]} "
                                                        f"and it goes on with {got[2]} after {want}")
    c.counts["starting points up to 2^53"] = jumped
    c.counts["distinct_nontrivial"] += jumped
    # wrapping twice
    gen = idgen.SessionScopeIDGenerator()
    for _ in range(3):
        if jump(gen, ID_MAX - 2):
            got = [gen.next() for _ in range(5)]
            if got != [ID_MAX - 1, ID_MAX, 1, 2, 3]:
                c.violation("wrap", {"last": ID_MAX - 2}, f"after {ID_MAX - 2} came {got}")
    # independence: all interleavings of three generators
    length = c.pick(9, 12)
    for order in itertools.product(range(3), repeat=length):
        gens, counts = [idgen.SessionScopeIDGenerator() for _ in range(3)], [0, 0, 0]
        c.counts["evaluations"] += 1
        c.counts["distinct_nontrivial"] += 1
        for g in order:
            counts[g] += 1
            got = gens[g].next()
            if got != counts[g]:
                c.violation("independence", {"order": list(order)}, f"order {order}: generator {g} gave {got} as its number {counts[g]}")
    # session IDs for every script of extreme random answers
    extremes = (0, 1, 2, -1, -2, -3, 2**31, 2**32, 2**52 - 1, 2**52, 2**52 + 1, 2**53 - 2, 2**53 - 1, 2**53, 2**53 + 1, 2**54, 2**63, 12345)
    scripts = [s for k in (1, 2) for s in itertools.product(extremes, repeat=k)] + list(itertools.product(extremes[:6] + (2**53 - 1, 2**53), repeat=3))
    seen = set()
    for s in scripts:
        with RandomSource(s):
            try:
                got = idgen.generate_session_id()
            except Mismatch as m:
                bad = str(m)
                got = 0
            except Exception as e:
                bad = f"{type(e).__name__}: {e}"
                got = 0
            else:
                bad = None
        c.counts["evaluations"] += 1
        c.counts["session IDs from scripted random sources"] += 1
        seen.add(got)
        if bad or type(got) is not int or not 1 <= got <= ID_MAX:
            c.violation("session IDs", {"random": list(s)}, f"random answers {s} give session ID {bad or repr(got)}")
    c.counts["distinct_nontrivial"] += len(seen)
    for s in scripts[:len(extremes)]:
        for method in (None,) + METHODS:
            with RandomSource(s):
                try:
                    out = acceptor_welcome(method)
                except Mismatch as m:
                    out = m
                except Exception as e:
                    out = e
            c.counts["evaluations"] += 1
            if isinstance(out, Exception):
                c.violation("acceptor IDs", {"random": list(s), "method": method}, f"random answers {s}, {method}: {type(out).__name__} {out}")
            if type(out) is not int or not 1 <= out <= ID_MAX:
                c.violation("acceptor IDs", {"random": list(s), "method": method}, f"random answers {s}, {method}: WELCOME has session ID {out!r}")
    for i in range(c.pick(20_000, 500_000)):
        got = idgen.generate_session_id()
        if type(got) is not int or not 1 <= got <= ID_MAX:
            c.violation("session IDs", {}, f"session ID {got!r}")
    # what a router puts in its messages, from every starting point near the ends
    for last in [None, 0, 1, 254, 255, 2**31 - 2, 2**31 - 1, 2**32 - 2] + [ID_MAX - d for d in range(13)]:
        for name, router in (("dealer", dealer_ids), ("broker", broker_ids)):
            got = router(last)
            if got is None:
                continue
            c.counts["evaluations"] += 1
            c.counts["router runs"] += 1
            c.counts["distinct_nontrivial"] += 1
            for what, ids in got.items():
                for x in ids:
                    if type(x) is not int or not 1 <= x <= ID_MAX:
                        c.violation("router IDs", {"router": name, "last": last}, f"{name} after ID {last}: {what} has ID {x!r}")
                if len(set(ids)) != len(ids):
                    c.violation("router IDs", {"router": name, "last": last}, f"{name} after ID {last}: {what} IDs {ids} repeat")
    c.rules.append("a generator's first IDs, 140 IDs from each starting point around every power of two and the end, every order of nine "
                   "calls to three generators, every script of one to three extreme answers of the random sources, router runs started near "
                   "the end; distinct starting points, orders, resulting session IDs and runs are counted.")
    c.samples += [f"after {ID_MAX - 1}: {ID_MAX}, 1, 2, ...", "random source answers -1 (all ones) -> session ID in range"]
    c.cover["exhaustive"] = True


def acceptor_welcome(method):
    server = Server() if method else None
    a = Acceptor(wire.SERIALIZERS["json"](), server)
    extra = {"pubkey": KEY_A.verify_key.encode().hex()} if method == "cryptosign" else {}
    out = a.receive_message(wire.make("Hello", realm="r", roles={"caller": {}}, authid="j", authmethods=[method] if method else None, authextra=extra))
    if wire.type_name(out) == "Challenge":
        ch = out.extra.get("challenge", "")
        sig = {"ticket": lambda: TICKET, "wampcra": lambda: wampcra_proof(SECRET, ch), "cryptosign": lambda: cryptosign_proof(KEY_A, ch)}[method]()
        out = a.receive_message(wire.make("Authenticate", signature=sig, extra={}))
    if not wire.same(out.session_id, a.get_session_details().session_id):
        raise Mismatch("C10", f"WELCOME has session ID {out.session_id}, the session {a.get_session_details().session_id}")
    return out.session_id


def details(sid):
    return SessionDetails(sid, "realm1", f"joe{sid}", "user")


def start(router, last):
    gens = generators(router)
    if last is not None:
        if not gens:
            return False
        for g in gens:
            if not jump(g, last or ID_MAX):
                return False
    for sid in (1, 2, ID_MAX):
        router.add_session(details(sid))
    return True


def dealer_ids(last):
    d = Dealer()
    if not start(d, last):
        return None
    regs, invs = [], []
    for i in range(5):
        regs.append(d.receive_message(1, wire.make("Register", request_id=i + 1, procedure=f"p{i}")).message.registration_id)
        inv = d.receive_message(2, wire.make("Call", request_id=i + 1, procedure=f"p{i}")).message
        invs.append(inv.request_id)
        if inv.registration_id != regs[-1]:
            raise Mismatch("C10", f"registration {regs[-1]} invoked as {inv.registration_id}")
        if i % 2:
            d.receive_message(1, wire.make("Yield", request_id=inv.request_id))
    return {"REGISTERED": regs, "INVOCATION": invs}


def broker_ids(last):
    b = Broker()
    if not start(b, last):
        return None
    subs, pubs = [], []
    for i in range(5):
        subs.append(b.receive_message(1, wire.make("Subscribe", request_id=i + 1, topic=f"t{i}")).message.subscription_id)
        p = b.receive_publish(2, wire.make("Publish", request_id=i + 1, topic=f"t{i}", options={"acknowledge": True}))
        pubs.append(p.event.publication_id)
        if p.ack.message.publication_id != pubs[-1] or p.event.subscription_id != subs[-1]:
            raise Mismatch("C10", f"event {wire.show(p.event)} acknowledged as {wire.show(p.ack.message)}")
    return {"SUBSCRIBED": subs, "EVENT": pubs}


# ---------------------------------------------------------------------------------------------------- C25
def seen(x):
    """Observation: comparable form of what an operation gave."""
    if isinstance(x, BaseException):
        return ["raised", type(x).__name__, str(x)]
    if type(x).__module__.startswith("wampproto.messages"):
        f = wire.fields(x)
        out = [wire.type_name(x), f]
        if wire.type_name(x) in wire.PAYLOAD:
            out.append(wire.binary(x))
        return snapshot(out)
    return snapshot(x)


class Kept(threading.local):
    """The objects handed out to the program that runs now, each with what was observed of it."""
    now = None


KEPT = Kept()


def attempt(fn, *a, **kw):
    try:
        out = fn(*a, **kw)
    except Exception as e:
        return seen(e)
    got = seen(out)
    for x in out if type(out) in (list, tuple) else (out,):
        if type(x).__module__.startswith("wampproto"):
            KEPT.now.append((x, seen(x)))
    return got


class Run:
    """One program under way, and which of the objects it was handed have changed since."""

    def __init__(self, name, sh, v):
        self.gen = PROGRAMS[name](sh, v)
        self.kept = []

    def __iter__(self):
        return self

    def __next__(self):
        KEPT.now, before = self.kept, KEPT.now
        try:
            return next(self.gen)
        finally:
            KEPT.now = before

    def changed(self):
        return [i for i, (x, was) in enumerate(self.kept) if seen(x) != was]


SHARED = {"progress": True}


class Shared:
    """What the application hands to both instances."""

    def __init__(self, ser="json"):
        self.serializer = wire.SERIALIZERS[ser]()
        self.options = {"acknowledge": True, "receive_progress": True}
        self.extra = {"x": 1}
        self.roles = {"caller": {"features": {}}, "callee": {}}
        self.server = Server(pubkeys=None)
        self.clients = {}
        self.args, self.kwargs = [1, {"a": 2}], {"k": [1]}
        self.details = details(1)
        self.initial = snapshot((self.options, self.extra, self.roles, self.args, self.kwargs))

    def client(self, kind):
        if kind not in self.clients:
            self.clients[kind] = client(kind, extra=self.extra)
        return self.clients[kind]

    def untouched(self):
        return snapshot((self.options, self.extra, self.roles, self.args, self.kwargs)) == self.initial


M = wire.make


def p_dealer(sh, v):
    d = Dealer()
    n = "" if v == 0 else "x"
    yield attempt(d.add_session, sh.details)
    yield attempt(d.add_session, details(2))
    yield attempt(d.receive_message, 1, M("Register", request_id=1, procedure="p" + n, options=sh.options))
    yield attempt(d.receive_message, 2, M("Call", request_id=7 - v, procedure="p", args=sh.args, options=sh.options))
    yield attempt(d.receive_message, 1, M("Yield", request_id=2, args=["r" + n], options={"progress": v == 0}))
    yield attempt(d.receive_message, 1, M("Register", request_id=2, procedure="p"))
    yield attempt(d.receive_message, 2, M("Call", request_id=3, procedure="p", kwargs=sh.kwargs))
    yield attempt(lambda: (d.has_registration("p"), d.has_registration("px")))
    yield attempt(d.remove_session, 1)
    yield attempt(lambda: (d.has_registration("p"), d.has_registration("px")))


def p_broker(sh, v):
    b = Broker()
    yield attempt(b.add_session, sh.details)
    yield attempt(b.add_session, details(2 + v))
    yield attempt(b.receive_message, 1, M("Subscribe", request_id=1, topic="t", options=sh.options))
    yield attempt(b.receive_message, 2 + v, M("Subscribe", request_id=1, topic=f"t{v or ''}"))
    yield attempt(b.receive_publish, 1, M("Publish", request_id=2, topic="t", args=sh.args, options=sh.options))
    yield attempt(b.receive_message, 1, M("Unsubscribe", request_id=3, subscription_id=1))
    yield attempt(b.receive_publish, 2 + v, M("Publish", request_id=2, topic="t", kwargs=sh.kwargs))
    yield attempt(lambda: (b.has_subscription("t"), b.has_subscription("t1")))
    yield attempt(b.remove_session, 2 + v)
    yield attempt(lambda: (b.has_subscription("t"), b.has_subscription("t1")))


def p_session(sh, v, default=False):
    s = WAMPSession() if default else WAMPSession(sh.serializer)
    ser = "json" if default else next(k for k, t in wire.SERIALIZERS.items() if isinstance(sh.serializer, t))
    enc = lambda name, **f: codec.DUMPS[ser](wire.to_array(name, wire.fields(M(name, **f))))  # noqa: E731
    if v == 0:
        yield attempt(s.send_message, M("Call", request_id=1, procedure="p", args=sh.args, options=sh.options))
        yield attempt(s.receive, enc("Result", request_id=1, args=[1], details={"progress": True}))
        yield attempt(s.send_message, M("Register", request_id=2, procedure="p"))
        yield attempt(s.receive, enc("Registered", request_id=2, registration_id=9))
        yield attempt(s.receive, enc("Invocation", request_id=3, registration_id=9, kwargs={"a": 1}))
        yield attempt(s.send_message, M("Yield", request_id=3, kwargs=sh.kwargs))
        yield attempt(s.send_message, M("Yield", request_id=3))
        yield attempt(s.receive, enc("Result", request_id=1, args=[2]))
        yield attempt(s.receive, enc("Result", request_id=1, args=[2]))
    else:
        yield attempt(s.receive, enc("Result", request_id=1, args=[1]))
        yield attempt(s.receive, enc("Invocation", request_id=3, registration_id=9))
        yield attempt(s.send_message, M("Subscribe", request_id=2, topic="t", options=sh.options))
        yield attempt(s.receive, enc("Registered", request_id=2, registration_id=9))
        yield attempt(s.receive, enc("Subscribed", request_id=2, subscription_id=9))
        yield attempt(s.receive, enc("Event", subscription_id=9, publication_id=1, args=[]))
        yield attempt(s.send_message, M("Publish", request_id=1, topic="t", options=sh.options, args=sh.args))
        yield attempt(s.receive, enc("Published", request_id=1, publication_id=5))
        yield attempt(s.send_message, M("Yield", request_id=3))


def p_session_default(sh, v):
    yield from p_session(sh, v, True)


def p_acceptor(sh, v, method="wampcra", default=False):
    if v == 1:
        method = {"wampcra": "cryptosign", "cryptosign": "ticket", "ticket": "wampcra"}[method]
    server = sh.server
    a = Acceptor(authenticator=server) if default else Acceptor(sh.serializer, server)
    extra = {"pubkey": KEY_A.verify_key.encode().hex()}
    yield mask(attempt(lambda: a.get_session_details().session_id))
    challenge = []

    def hello():
        out = a.receive_message(M("Hello", realm=f"realm{v}", roles=sh.roles, authid=f"joe{v}", authmethods=[method], authextra=extra))
        challenge.append(out.extra.get("challenge", ""))
        said = {}
        if method == "wampcra":
            said = {k: x for k, x in json.loads(challenge[0]).items() if k not in ("nonce", "timestamp", "session")}
        return [wire.type_name(out), out.authmethod, sorted(out.extra), said]
    yield attempt(hello)
    yield attempt(lambda: a.is_aborted())
    sig = {"ticket": lambda: TICKET, "wampcra": lambda: wampcra_proof(SECRET, challenge[0]),
           "cryptosign": lambda: cryptosign_proof(KEY_A, challenge[0])}[method]
    yield mask(attempt(lambda: a.receive_message(M("Authenticate", signature=sig() if v == 0 or method != "ticket" else "wrong", extra={}))))
    yield attempt(lambda: (a.is_aborted(), a.get_session_details().realm, a.get_session_details().authid))
    yield attempt(a.receive_message, M("Hello", realm="r", roles=sh.roles, authmethods=["anonymous"]))


def p_roles(sh, v):
    """Roles of one acceptor or joiner, beside the default ones of another."""
    own = ({"dealer": {"features": {"mine": True}}, "x_extra": {}}, None)[v]
    ser = next(k for k, t in wire.SERIALIZERS.items() if isinstance(sh.serializer, t))
    for _ in range(2):
        a = Acceptor(sh.serializer, None, own) if own else Acceptor(sh.serializer)
        hello = codec.DUMPS[ser](wire.to_array("Hello", wire.fields(M("Hello", realm="r", roles=sh.roles))))
        yield attempt(lambda: codec.decode(ser, a.receive(hello)[0])[2]["roles"])
        j = Joiner("realm", sh.serializer)
        yield attempt(lambda: codec.decode(ser, j.send_hello({"caller": {}, "x_mine": {}}) if own else j.send_hello()))
        if own:
            own["dealer"]["features"]["later"] = True
            yield attempt(lambda: own)


def p_acceptor_default(sh, v):
    yield from p_acceptor(sh, v, "cryptosign", True)


def p_joiner(sh, v, kind="cryptosign", default=False):
    if v == 1:
        kind = {"cryptosign": "wampcra", "wampcra": "ticket"}[kind]
    ser = "json" if default else next(k for k, t in wire.SERIALIZERS.items() if isinstance(sh.serializer, t))
    j = Joiner(f"realm{v}", authenticator=sh.client(kind)) if default else Joiner(f"realm{v}", sh.serializer, sh.client(kind))
    enc = lambda name, **f: codec.DUMPS[ser](wire.to_array(name, wire.fields(M(name, **f))))  # noqa: E731
    yield attempt(lambda: codec.decode(ser, j.send_hello() if v else j.send_hello(sh.roles)))
    yield attempt(j.get_session_details)
    yield attempt(lambda: codec.decode(ser, j.receive(enc("Challenge", authmethod=kind, extra={"challenge": "ab" * 32}))))
    if v:
        yield attempt(j.receive, enc("Abort", details={}, reason="com.no", args=[1]))
    yield attempt(j.receive, enc("Welcome", session_id=5 + v, roles={"dealer": {}}, authid=f"joe{v}", authrole="user"))
    yield attempt(lambda: [getattr(j.get_session_details(), k) for k in ("session_id", "realm", "authid", "authrole")])


def p_joiner_plain(sh, v):
    """Joiners without an authenticator of their own."""
    j = Joiner(f"realm{v}")
    enc = lambda name, **f: json.dumps(wire.to_array(name, wire.fields(M(name, **f))))  # noqa: E731
    yield attempt(lambda: json.loads(j.send_hello()))
    if v:
        yield attempt(j.receive, enc("Challenge", authmethod="x", extra={}))
        yield attempt(j.receive, enc("Abort", details={}, reason="com.no"))
    yield attempt(j.receive, enc("Welcome", session_id=5 + v, roles={"dealer": {}}, authid=f"joe{v}", authrole="user"))
    yield attempt(lambda: [getattr(j.get_session_details(), k) for k in ("session_id", "realm", "authid", "authrole")])


def p_joiner_default(sh, v):
    yield from p_joiner(sh, v, "wampcra", True)


def p_authenticators(sh, v):
    """Authenticators built over one extra dictionary."""
    kinds = ("cryptosign", "anonymous") if v == 0 else ("ticket", "wampcra")
    for kind in kinds:
        a = client(kind, authid=f"joe{v}", extra=sh.extra)
        yield attempt(lambda: (a.auth_method, a.authid, dict(a.auth_extra)))
        yield attempt(lambda: a.authenticate(M("Challenge", authmethod=kind, extra={"challenge": "ab" * 32})))
        b = client(kind, authid=f"ann{v}", extra=None)
        yield attempt(lambda: (b.auth_method, b.authid, sorted(b.auth_extra or {})))
        yield attempt(lambda: (a.auth_method, a.authid, dict(a.auth_extra)))


def p_generator(sh, v):
    g = idgen.SessionScopeIDGenerator()
    for _ in range(6 + v):
        yield attempt(g.next)


OPTION_FIELD = {"Call": "options", "Publish": "options", "Subscribe": "options", "Register": "options", "Yield": "options", "Cancel": "options",
                "Interrupt": "options", "Error": "details", "Event": "details", "Invocation": "details", "Result": "details"}
MINIMAL = {
    "Call": dict(request_id=1, procedure="p"), "Publish": dict(request_id=1, topic="t"), "Subscribe": dict(request_id=1, topic="t"),
    "Register": dict(request_id=1, procedure="p"), "Yield": dict(request_id=1), "Cancel": dict(request_id=1), "Interrupt": dict(request_id=1),
    "Error": dict(message_type=48, request_id=1, uri="u"), "Event": dict(subscription_id=1, publication_id=2),
    "Invocation": dict(request_id=1, registration_id=2), "Result": dict(request_id=1), "Welcome": dict(session_id=1, roles={"dealer": {}}),
    "Hello": dict(realm="r", roles={"caller": {}}), "Abort": dict(details={}, reason="u"),
}
EMPTY = {"Welcome": "authextra", "Hello": "authextra", "Abort": "details"}


def p_messages(sh, v):
    """Messages built with default arguments or over one options dictionary, with and without opaque payload."""
    from wampproto import messages
    for name, f in MINIMAL.items():
        field = OPTION_FIELD.get(name)
        import inspect
        params = inspect.signature(getattr(messages, name + "Fields").__init__).parameters
        f = {k: x for k, x in f.items()}
        if any(p.default is inspect.Parameter.empty and k not in f for k, p in params.items() if k != "self" and p.kind is not p.VAR_KEYWORD):
            f[field or EMPTY[name]] = {}
        a = M(name, **f)
        yield attempt(lambda: [a, a.marshal()])
        if field and v == 0:
            # what the owner of a message writes into its dictionary stays there
            d = getattr(a, field)
            if type(d) is dict:
                d["mine"] = 1
            b = M(name, **f)
            yield attempt(lambda: b.marshal())
            if field in f:
                f[field] = {}
        if field and field in params:
            p = {"payload": b"\x01", "serializer": 1 + v, "binary": True} if v == 0 and "payload" in params else {}
            m = M(name, **{**f, field: sh.options}, **p)
            yield attempt(lambda: wire.binary(m) if name in wire.PAYLOAD else None)
            yield attempt(lambda: [getattr(m, field), m.marshal()])
            m2 = M(name, **{**f, field: sh.options})
            yield attempt(lambda: [getattr(m2, field), m2.marshal()])


def p_decoded(sh, v):
    """Two messages decoded from one frame share nothing."""
    from mc.checks_wire import message_pool
    ser = next(k for k, t in wire.SERIALIZERS.items() if isinstance(sh.serializer, t))
    for name, f in message_pool()[v::2]:
        frame = codec.DUMPS[ser](wire.to_array(name, f))

        def both():
            a, b = sh.serializer.deserialize(frame), sh.serializer.deserialize(frame)
            before = seen(b)
            for field, value in wire.fields(a).items():
                if type(value) is dict:
                    value["mine"] = 1
                if type(value) is list:
                    value.append("mine")
            return [seen(b) == before, seen(sh.serializer.deserialize(frame)) == before, before]
        yield attempt(both)


def p_malformed(sh, v):
    """Frames that are refused, among others of the same type that are not."""
    from mc.checks_wire import message_pool
    ser = next(k for k, t in wire.SERIALIZERS.items() if isinstance(sh.serializer, t))
    for name, f in dict(message_pool()[::-1]).items():
        arr = wire.to_array(name, f)
        bad = [arr[:i] + [(None, "x")[(i + v) % 2]] + arr[i + 1:] for i in range(1, len(arr))] + [arr[:1] + [None] * (len(arr) - 1)]
        if name in ("Hello", "Welcome"):
            bad += [arr[:2] + [{"roles": r, "authid": 5 + v, "authmethods": 6, "authextra": v}] for r in ({}, {"x": {}}, None)]
        yield attempt(sh.serializer.deserialize, codec.DUMPS[ser](bad[v]))
        yield [attempt(sh.serializer.deserialize, codec.DUMPS[ser](x)) for x in (bad[2 + v:] if len(bad) > 3 else bad) + [arr]]


def p_handshake(sh, v):
    """Whole handshakes over one server authenticator and one client authenticator."""
    for method in METHODS if v == 0 else METHODS[::-1]:
        j = Joiner(f"realm{v}", sh.serializer, sh.client(method))
        a = Acceptor(sh.serializer, sh.server)

        def go():
            frames, finals, error = run_handshake(j, a)
            d, e = j.get_session_details(), a.get_session_details()
            return [len(frames), finals, error and str(error), d == e, d.realm, d.authid, d.authrole]
        yield attempt(go)


def p_principals(sh, v):
    """Handshakes of one and the same principal with servers and clients that hold different credentials."""
    cred = dict(secret=f"secret-{v}", ticket=f"ticket-{v}", pubkeys=((KEY_A, KEY_B)[v].verify_key.encode().hex(),))
    server = Server(authid=(None, "other")[v], authrole=f"role-{v}", salt=f"salt-{v}", iterations=2 + v, keylen=32 - 16 * v, **cred)
    for method, salted, mine in itertools.product(("wampcra", "ticket", "cryptosign"), (False, True), (True, False)):
        if salted and method != "wampcra":
            continue
        server.salted = salted
        w = v if mine else 1 - v
        a = Acceptor(sh.serializer, server)
        j = Joiner("realm1", sh.serializer, client(method, ticket=f"ticket-{w}", secret=f"secret-{w}", key=(KEY_A, KEY_B)[w]))

        def go():
            frames, finals, error = run_handshake(j, a)
            return [len(frames), finals, error and str(error), hs_details(j), hs_details(a), a.is_aborted()]
        yield mask(attempt(go))


def p_proofs(sh, v):
    """Principals with different credentials answer, and servers judge, the same challenges."""
    key = (KEY_A, KEY_B)[v]
    for n, extra in ((0, {"challenge": "ab" * 32}), (1, {"challenge": "cd" * 32}),
                     (2, {"challenge": "ab" * 32, "salt": "s", "iterations": 2, "keylen": 32})):
        for method in ("wampcra", "cryptosign", "ticket", "anonymous"):
            a = client(method, authid="joe", ticket=f"ticket-{v}", secret=f"secret-{v}", key=key)
            yield attempt(lambda: a.authenticate(M("Challenge", authmethod=method, extra=dict(extra))))
    proofs = [cryptosign_proof(k, ch) for k in (KEY_A, KEY_B) for ch in ("ab" * 32, "cd" * 32)]
    for proof in proofs:
        yield attempt(lambda: [auth.verify_cryptosign_signature(proof, key.verify_key.encode(), ch) for ch in ("ab" * 32, "cd" * 32)])
    for secret in ("secret-0", "secret-1"):
        proof = wampcra_proof(secret, "c")
        yield attempt(lambda: [auth.verify_wampcra_signature(proof, ch, f"secret-{v}".encode()) for ch in ("c", "d")])
    yield attempt(lambda: [auth.sign_wampcra_challenge("c", f"secret-{v}".encode()), auth.sign_cryptosign_challenge("ab" * 32, key)])
    for salt, secret, it, kl in (("s", f"secret-{v}", 2, 32), (f"s{v}", "secret", 2, 32), ("s", "secret", 2 + v, 32), ("s", "secret", 2, 32 - v)):
        yield attempt(lambda: derive_cra_key(salt, secret, it, kl))


def p_twin_router(sh, v):
    """Dealers and brokers in which the same IDs and names mean something else."""
    d, b = Dealer(), Broker()
    for sid in (1, 2):
        yield attempt(d.add_session, details(sid))
        yield attempt(b.add_session, details(sid))
    callee, caller = (1, 2)[v], (2, 1)[v]
    yield attempt(d.receive_message, callee, M("Register", request_id=1, procedure="p"))
    yield attempt(d.receive_message, caller, M("Register", request_id=1, procedure="p"))
    for args in (["x"], [v]):
        yield attempt(d.receive_message, caller, M("Call", request_id=5 + len(args[:v]), procedure="p", args=args,
                                                   options={"receive_progress": v == 0}))
    for inv in (2, 3, 2, 3):
        yield attempt(d.receive_message, callee, M("Yield", request_id=inv, args=[v, inv], options={"progress": True}))
    yield attempt(d.receive_message, callee, M("Unregister", request_id=2, registration_id=1))
    yield attempt(lambda: d.has_registration("p"))
    yield attempt(d.receive_message, caller, M("Call", request_id=9, procedure="p"))
    for sid in ((1, 2), (2,))[v]:
        yield attempt(b.receive_message, sid, M("Subscribe", request_id=1, topic=("t", "u")[v]))
        yield attempt(b.receive_message, sid, M("Subscribe", request_id=2, topic=("u", "t")[v]))
    for topic in ("t", "u"):
        yield attempt(b.receive_publish, 1, M("Publish", request_id=3, topic=topic, args=[v], options={"acknowledge": v == 0}))
    yield attempt(b.receive_message, 1, M("Unsubscribe", request_id=4, subscription_id=1))
    yield attempt(lambda: [b.has_subscription(t) for t in ("t", "u")])
    yield attempt(lambda: d.remove_session(2) and None)
    yield attempt(b.remove_session, 2)
    yield attempt(lambda: [b.has_subscription(t) for t in ("t", "u")])
    yield attempt(b.receive_publish, 1, M("Publish", request_id=5, topic="t"))


def p_twin_session(sh, v):
    """Sessions in which one ID belongs to requests of different kinds."""
    s = WAMPSession(sh.serializer)
    for step in range(2):
        for name, f in (("Call", dict(procedure="p")), ("Register", dict(procedure="p")), ("Subscribe", dict(topic="t")),
                        ("Publish", dict(topic="t", options={"acknowledge": v == 0})))[v + step::2]:
            yield attempt(s.send_message, M(name, request_id=1, **f))
        for name, f in (("Published", dict(publication_id=9)), ("Result", dict(args=[v])), ("Registered", dict(registration_id=9)),
                        ("Subscribed", dict(subscription_id=9))):
            yield attempt(s.receive_message, M(name, request_id=1, **f))
        yield attempt(s.receive_message, M("Event", subscription_id=9, publication_id=1))
        yield attempt(s.receive_message, M("Invocation", request_id=1, registration_id=9))
        for _ in range(2):
            yield attempt(s.send_message, M("Yield", request_id=1, args=[v]))
        for name, field in (("Unregister", "registration_id"), ("Unsubscribe", "subscription_id"))[v:]:
            yield attempt(s.send_message, M(name, request_id=1, **{field: 9}))
        for name in ("Unregistered", "Unsubscribed"):
            yield attempt(s.receive_message, M(name, request_id=1))


def p_twin_joiner(sh, v):
    """Joiners and acceptors that have some of their particulars in common."""
    ser = next(k for k, t in wire.SERIALIZERS.items() if isinstance(sh.serializer, t))
    enc = lambda name, **f: codec.DUMPS[ser](wire.to_array(name, wire.fields(M(name, **f))))  # noqa: E731
    sides = []
    for bits in range(16):
        own = lambda text, k: text if bits >> k & 1 else f"{text}-{v}"  # noqa: E731
        j = Joiner(own("realm", 0), sh.serializer, client("cryptosign", authid=own("joe", 1), key=KEY_A if bits & 8 else (KEY_A, KEY_B)[v]))
        yield attempt(lambda: codec.decode(ser, j.send_hello({"caller": {}} if bits & 4 else {("caller", "callee")[v]: {}})))
        yield attempt(j.receive, enc("Welcome", session_id=5 if bits & 8 else 6 + v, roles={"dealer": {}}, authid=own("joe", 1),
                                     authrole=own("role", 2)))
        a = Acceptor(sh.serializer, Server(authrole=own("role", 2), ticket=own("ticket", 3), pubkeys=None))
        yield attempt(lambda: wire.type_name(a.receive_message(M("Hello", realm=own("realm", 0), roles={"caller": {}}, authid=own("joe", 1),
                                                                 authmethods=["ticket"]))))
        yield attempt(lambda: wire.type_name(a.receive_message(M("Authenticate", signature="ticket-0", extra={}))))
        sides += [j, a]
    for x in sides:
        yield mask(attempt(lambda: hs_details(x)))
        yield attempt(lambda: x.get_session_details() == sides[0].get_session_details())


PROGRAMS = {f.__name__[2:]: f for f in (p_roles, p_dealer, p_broker, p_session, p_session_default, p_acceptor, p_acceptor_default, p_joiner,
                                       p_joiner_plain, p_joiner_default, p_authenticators, p_generator, p_messages, p_decoded, p_malformed, p_handshake,
                                       p_principals, p_proofs, p_twin_router, p_twin_session, p_twin_joiner)}


def solo(job):
    """What a program observes, and after each step which of the objects handed to it have changed."""
    name, v, ser = job
    run = Run(name, Shared(ser), v)
    return [(got, run.changed()) for got in run]


def clean(fn, jobs):
    """Each job in a process of its own in which nothing was used before."""
    workers = Workers(fn, 8, jobs_each=1)
    try:
        return list(workers.imap(jobs))
    finally:
        workers.close()


def interleavings(a, b, limit):
    """All orders of a steps of one and b of the other; with a limit, those with the fewest switches first."""
    total = math.comb(a + b, a)
    if total <= limit:
        for pos in itertools.combinations(range(a + b), a):
            order = [1] * (a + b)
            for p in pos:
                order[p] = 0
            yield order
        return
    for switches in range(1, 6):
        # blocks of steps, alternating, at most `switches` switches
        for first in (0, 1):
            blocks = [(switches + 2) // 2, (switches + 1) // 2]
            if first:
                blocks = blocks[::-1]
            for ca in splits(a, blocks[0]):
                for cb in splits(b, blocks[1]):
                    order, x, y = [], list(ca), list(cb)
                    side = first
                    while x or y:
                        src = x if side == 0 else y
                        if src:
                            order += [side] * src.pop(0)
                        side = 1 - side
                    yield order
                    limit -= 1
                    if limit <= 0:
                        return


def splits(n, k):
    for cuts in itertools.combinations(range(1, n), k - 1) if k > 0 else ():
        yield [y - x for x, y in zip((0,) + cuts, cuts + (n,))]


def mixed(job):
    (na, va), (nb, vb), ser, limit, want_a, want_b = job
    n, steps = 0, 0
    for order in interleavings(len(want_a), len(want_b), limit):
        n += 1
        sh = Shared(ser)
        gens = [Run(na, sh, va), Run(nb, sh, vb)]
        wants = [iter(want_a), iter(want_b)]
        changed = [[], []]
        for k, who in enumerate(order):
            steps += 1
            try:
                got = next(gens[who])
            except StopIteration:
                return n, steps, (order[:k + 1], "the program ended early")
            want, changed[who] = next(wants[who])
            if got != want:
                return n, steps, (order[:k + 1], f"instance {who} ({(na, nb)[who]} {(va, vb)[who]}) gives {got} instead of {want}")
            if k + 1 == len(order) or order[k + 1] != who:      # whenever the other one goes on
                bad = next((i for i in (0, 1) if gens[i].changed() != changed[i]), None)
                if bad is not None:
                    i = next(i for i in gens[bad].changed() if i not in changed[bad])
                    return n, steps, (order[:k + 1], f"what instance {bad} ({(na, nb)[bad]} {(va, vb)[bad]}) was handed before, "
                                                     f"{gens[bad].kept[i][1]}, is now {seen(gens[bad].kept[i][0])}")
        if not sh.untouched():
            return n, steps, (order, f"the application's own objects were changed: options {sh.options} extra {sh.extra} roles {sh.roles} "
                                     f"args {sh.args} kwargs {sh.kwargs}")
    return n, steps, None


def C25(c):
    c.assumptions.append("the observations of each program alone are taken in a process in which nothing else ran; random values "
                         "are compared by their pattern of repetition; opaque arguments handed through by reference are not copies")
    names = list(PROGRAMS)
    jobs = [(n, v, s) for n in names for v in (0, 1) for s in wire.SERIALIZERS]
    alone = dict(zip(jobs, clean(solo, jobs)))
    again = dict(zip(jobs, clean(solo, jobs)))
    for j in jobs:
        if alone[j] != again[j]:
            c.violation("alone", {"program": j}, f"program {j} does not behave the same in two processes")
    budget = c.pick(12_000, 2_000_000)   # steps per pair of programs
    todo = []
    for ser in wire.SERIALIZERS:
        for na, nb in itertools.combinations_with_replacement(names, 2):
            same_kind = na.split("_")[0] == nb.split("_")[0]
            for va, vb in itertools.product((0, 1), repeat=2):
                if ser != "json" and not (same_kind or c.thorough):
                    continue
                a, b = alone[na, va, ser], alone[nb, vb, ser]
                limit = max(8, budget // (1 if same_kind else 10) // (len(a) + len(b)))
                todo.append(((na, va), (nb, vb), ser, limit, a, b))
    r = [0, 0]
    for job, (n, steps, bad) in zip(todo, pmap(mixed, todo, chunk=2)):
        r[0] += n
        r[1] += steps
        if bad:
            (na, va), (nb, vb) = job[:2]
            c.violation(f"{na} beside {nb}", {"programs": [[na, va], [nb, vb]], "serializer": job[2], "order": bad[0]},
                        f"{na} {va} beside {nb} {vb} ({job[2]}), order {bad[0]}: {bad[1]}")
    c.counts["evaluations"] += r[1]
    c.counts["pairs of programs"] = len(todo)
    c.counts["interleavings"] = r[0]
    c.counts["distinct_nontrivial"] += r[0]
    products(c)
    c.rules.append("every order of the steps of two fixed programs (pairs with more than the limit: those with the fewest switches), "
                   "evaluations are steps whose observation was compared with the program alone, distinct orders are counted; plus "
                   "the states of pairs of model-checked instances.")
    c.samples += [f"{a} {b} {s}" for a, b, s, *_ in todo[::max(1, len(todo) // 5)]]
    in_threads(c, alone)


# ------------------------------------------------------------------------------------------- two threads
def interrupted(job):
    """Two programs in two threads; the first is interrupted before each of the given lines of each of its steps."""
    (na, va), (nb, vb), ser, cuts, want_a, want_b = job
    n = steps = waited = 0
    for r, s in cuts:
        sh = Shared(ser)
        runs = [Run(na, sh, va), Run(nb, sh, vb)]
        try:
            seen_, cut, schedule, w = threads.lockstep(runs, r, s)
        except threads.Deadlock:
            return n, steps, waited, ([], f"the threads wait for each other for ever (line {r}, {s})")
        n += cut
        waited += w
        if waited == 3:     # a lock is held at every line of this step: the remaining schedules hardly exist either
            break
        for i, want in enumerate((want_a, want_b)):
            steps += len(seen_[i])
            bad = next((k for k, (x, (y, _)) in enumerate(itertools.zip_longest(seen_[i], want, fillvalue=(None, None))) if x != y), None)
            who = f"{(na, nb)[i]} {(va, vb)[i]} in thread {i}"
            if bad is not None:
                got = seen_[i][bad] if bad < len(seen_[i]) else "nothing"
                return n, steps, waited, (schedule, f"step {bad} of {who} gives {got} instead of {want[bad][0] if bad < len(want) else 'nothing'} "
                                                    f"(interrupted before line {r} of each step, the other one before line {s})")
            if runs[i].changed() != want[-1][1]:
                return n, steps, waited, (schedule, f"what {who} was handed has changed (interrupted before line {r}, {s})")
        if not sh.untouched():
            return n, steps, waited, (schedule, f"the application's own objects were changed (interrupted before line {r}, {s})")
    return n, steps, waited, None


ALL_KINDS = ("session", "acceptor", "joiner", "messages", "handshake", "dealer", "broker", "proofs")
ALL_SERIALIZERS = ("session", "acceptor", "joiner", "roles", "handshake")
LONG = ("malformed", "principals", "decoded", "handshake", "twin_joiner")


def in_threads(c, alone):
    """Preemptions inside of operations."""
    todo = []
    spans = {}
    for name, v, ser in alone:
        spans[name, v, ser] = threads.span(Run(name, Shared(ser), v))
    size = 40

    def add(a, b, ser, cuts):
        for i in range(0, len(cuts), size):
            todo.append((a, b, ser, cuts[i:i + size], alone[(*a, ser)], alone[(*b, ser)]))
    grid = c.pick(12, 200)
    for ser in wire.SERIALIZERS:
        for na, nb in itertools.product(PROGRAMS, repeat=2):
            if na != nb and not (c.thorough or ser == "json" and na in ALL_KINDS and nb in ALL_KINDS):
                continue
            if na == nb and ser != "json" and na not in ALL_SERIALIZERS and not c.thorough:
                continue
            if na != nb or (ser != "json" or na in LONG) and not c.thorough:
                variants = ((0, 1),)
            else:
                variants = ((0, 0), (0, 1), (1, 0))
            for va, vb in variants:
                top = spans[na, va, ser]
                add((na, va), (nb, vb), ser, [(r, None) for r in range(1, top + 1)])
                if na == nb and va != vb and ser == "json":
                    add((na, va), (nb, vb), ser, [(r, s) for r in range(1, min(top, grid) + 1)
                                                  for s in range(1, min(spans[nb, vb, ser], grid) + 1)])
    total = [0, 0, 0]
    t0 = time.time()
    done = pmap(interrupted, todo, chunk=2)
    for k, (job, (n, steps, waited, bad)) in enumerate(zip(todo, done)):
        if time.time() - t0 > (20000 if c.thorough else 400):
            done.close()
            c.rules.append(f"The time limit stopped the threads after {k} of {len(todo)} parts.")
            break
        for i, x in enumerate((n, steps, waited)):
            total[i] += x
        if bad:
            (na, va), (nb, vb) = job[:2]
            c.violation(f"{na} and {nb} in two threads", {"programs": [[na, va], [nb, vb]], "serializer": job[2], "order": bad[0]},
                        f"{na} {va} and {nb} {vb} ({job[2]}) in two threads: {bad[1]}")
    c.counts["evaluations"] += total[1]
    c.counts["thread schedules"] = total[0]
    c.counts["thread schedules that do not exist (one waits for the other)"] = total[2]
    c.counts["distinct_nontrivial"] += total[0]
    c.rules.append("programs in two threads, the first interrupted before every line of wampproto it executes by the same step of the other "
                   f"one (one preemption per step), and both before their first {grid} lines (two preemptions per step).")


# ------------------------------------------------------------------------ products of model-checked instances
def kinds():
    from mc.client import SessionWorld
    from mc.router import BrokerWorld, DealerWorld
    return {
        "dealer": lambda: DealerWorld(**KIND_ARGS["dealer"]),
        "broker": lambda: BrokerWorld(**KIND_ARGS["broker"]),
        "session": lambda: SessionWorld(groups=("call", "reg"), n=1),
        "session pubsub": lambda: SessionWorld(groups=("pub", "sub"), n=1),
        "acceptor": lambda: AcceptorWorld("json", {}, hellos=("anonymous", "wampcra", "cryptosign"), proofs=("good", "junk")),
        "joiner": lambda: JoinerWorld("json", "wampcra"),
    }


KIND_ARGS = {"dealer": dict(nsessions=2, nprocs=1, attach=2, max_calls=1, keep=1),
             "broker": dict(nsessions=2, ntopics=1, attach=2, keep=1)}


class Pair:
    """Two worlds side by side; each is held against its own model."""

    picklable = False

    def __init__(self, a, b):
        self.names = (a, b)
        ks = kinds()
        self.w = (ks[a](), ks[b]())
        self.h = ([], [])
        self.last = "-"

    def enabled(self):
        return [("a",) + tuple(o) for o in self.w[0].enabled()] + [("b",) + tuple(o) for o in self.w[1].enabled()]

    def step(self, op):
        i = 0 if op[0] == "a" else 1
        o = op[1:]
        self.h[i].append(o)
        try:
            self.w[i].step(o)
        except Exception as e:
            if alone_ok(self.names[i], tuple(self.h[i])):
                text = e.text if isinstance(e, Mismatch) else f"{type(e).__name__}: {e}"
                raise Mismatch("C25", f"{self.names[i]} {'second' if i else 'first'}, which alone behaves right, here does not: {text}")
            raise Mismatch("other", "fails alone too")
        self.last = f"{op[0]}: {self.w[i].outcome()}"

    def canon(self):
        return (self.w[0].canon(), self.w[1].canon())

    def outcome(self):
        return self.last


_ALONE = {}


def alone_ok(kind, ops):
    """Whether these operations pass on one instance in a process in which nothing was used before."""
    if (kind, ops) not in _ALONE:
        if len(_ALONE) > 40:
            return False
        import pickle
        import subprocess
        import sys
        code = "import sys, pickle; from mc.checks_misc import replay_alone; sys.exit(replay_alone(*pickle.load(sys.stdin.buffer)))"
        r = subprocess.run([sys.executable, "-c", code], input=pickle.dumps((kind, ops)), capture_output=True, timeout=60)
        _ALONE[kind, ops] = r.returncode == 0
    return _ALONE[kind, ops]


def replay_alone(kind, ops):
    w = kinds()[kind]()
    for o in ops:
        w.step(o)
    return 0


def products(c):
    ks = list(kinds())
    depth = c.pick(3, 4)
    for a, b in itertools.combinations_with_replacement(ks, 2):
        if a.split()[0] != b.split()[0] and not c.thorough:
            continue
        c.run(f"{a} beside {b}", lambda: Pair(a, b), depth, dedupe=False, max_transitions=c.pick(60_000, 3_000_000))


C10.level = "exploration"
C25.level = "exploration"
assert auth and secrets
CHECKS = {"C10": C10, "C25": C25}
