"""C26: whole systems of clients and a router."""
import itertools

from mc.handshake import METHODS
from mc.network import Network

P, Q, R, T, U, V = "com.p", "com.q", "com.r", "com.t", "com.u", "com.v"

SCENARIOS = {
    # one callee, one caller
    "call while registering and unregistering": ([("register", P), ("unregister", P)], [("call", P), ("call", P)]),
    "two callers": ([("register", P), ("unregister", P)], [("call", P), ("call", P)], [("call", P)]),
    "progressive results": ([("register", P), ("unregister", P)], [("call", P, "progress"), ("call", P, "progress")]),
    "progressive call": ([("register", P)], [("until", P), ("call", P, "chunks"), ("wait",), ("call", P, "chunks")]),
    "progressive call and results": ([("register", P)], [("until", P), ("call", P, "both"), ("call", P)]),
    "two progressive calls": ([("register", P)], [("until", P), ("call", P, "chunks")], [("until", P), ("call", P, "both")]),
    "failing callee": ([("register", P, "fail"), ("unregister", P)], [("call", P), ("call", P, "progress")]),
    "callees compete": ([("register", P), ("unregister", P)], [("register", P), ("unregister", P)], [("call", P), ("call", P)]),
    "clients call each other": ([("register", P), ("call", Q), ("wait",), ("unregister", P)],
                                [("register", Q), ("call", P), ("wait",), ("unregister", Q)]),
    "client calls itself": ([("register", P), ("call", P), ("call", P, "progress"), ("wait",), ("unregister", P)], [("call", P)]),
    "client calls itself and unregisters": ([("register", P), ("until", P), ("call", P, "progress"), ("call", P),
                                             ("unregister", P)], [("until", P), ("call", P)]),
    "client publishes to itself and unsubscribes": ([("subscribe", T), ("until", T), ("publish", T), ("publish", T, 0), ("unsubscribe", T),
                                                     ("publish", T), ("subscribe", T)], [("publish", T)]),
    "unregisters with calls open": ([("register", P), ("register", Q), ("until", Q), ("call", Q), ("unregister", Q)],
                                    [("until", Q), ("call", P, "progress"), ("call", Q)]),
    "two procedures": ([("register", P), ("register", Q), ("unregister", P)], [("call", P), ("call", Q), ("call", P)]),
    # publish and subscribe
    "events": ([("subscribe", T), ("unsubscribe", T)], [("publish", T), ("publish", T), ("publish", T, 0)]),
    "two subscribers, two publishers": ([("subscribe", T), ("unsubscribe", T)], [("subscribe", T), ("publish", T)],
                                        [("publish", T), ("publish", T, 0)]),
    "subscribe again": ([("subscribe", T), ("unsubscribe", T), ("subscribe", T)], [("subscribe", T), ("unsubscribe", T), ("publish", T)]),
    "publisher subscribes": ([("subscribe", T), ("publish", T), ("unsubscribe", T), ("publish", T)], [("publish", T, 0), ("publish", T)]),
    # leaving
    "callee leaves": ([("register", P), ("wait",), ("leave",)], [("call", P), ("call", P)]),
    "callee leaves, another takes over": ([("register", P), ("leave",)], [("register", P), ("wait",), ("unregister", P)], [("call", P), ("call", P)]),
    "subscriber leaves": ([("subscribe", T), ("leave",)], [("subscribe", T), ("publish", T)], [("publish", T), ("leave",)]),
    "everyone leaves": ([("register", P), ("subscribe", T), ("leave",)], [("call", P), ("publish", T), ("leave",)]),
    # both parts of the router at once
    "calls and events": ([("register", P), ("subscribe", T), ("unsubscribe", T)], [("publish", T), ("call", P), ("publish", T)]),
    # several of everything in one session
    "three subscriptions": ([("subscribe", T), ("subscribe", U), ("subscribe", V), ("wait",), ("unsubscribe", U)],
                            [("until", V), ("publish", T), ("publish", U), ("publish", V)]),
    "three registrations": ([("register", P), ("register", Q), ("register", R), ("wait",), ("unregister", Q)],
                            [("until", R), ("call", P), ("call", Q), ("call", R)]),
    "three calls": ([("register", P), ("register", Q, "fail")], [("until", Q), ("call", P), ("call", Q), ("call", P, "progress")]),
    "event in a call": ([("register", P), ("subscribe", T)], [("subscribe", T), ("call", P), ("publish", T), ("unsubscribe", T)]),
}
DEEP = {
    "three clients, calls": ([("register", P), ("call", Q), ("unregister", P)], [("register", Q), ("call", P), ("unregister", Q)],
                             [("call", P, "progress"), ("call", Q)]),
    "three clients, events": ([("subscribe", T), ("publish", T), ("unsubscribe", T)], [("subscribe", T), ("publish", T), ("unsubscribe", T)],
                              [("subscribe", T), ("publish", T), ("unsubscribe", T)]),
    "long": ([("register", P), ("unregister", P), ("register", P), ("unregister", P), ("register", P)],
             [("call", P, "progress"), ("wait",), ("call", P, "progress"), ("call", P)]),
}
SERS = ("json", "cbor", "msgpack")


def specs(scripts, shift, methods=(None,)):
    return [dict(ser=SERS[(i + shift) % 3], script=s, method=methods[i % len(methods)]) for i, s in enumerate(scripts)]


def C26(c):
    c.assumptions += [
        "links are ordered and lose nothing; the router hands each frame to the acceptor, then to dealer or broker by message type, and "
        "answers GOODBYE by detaching the session",
        "a client leaves only when nothing of its own is outstanding; a caller does not have chunks of a progressive call under way when "
        "its callee leaves or ends the call early (the protocol has no way to tell those from a new call)",
    ]
    cap = c.pick(120_000, 4_000_000)
    rounds = range(3) if c.thorough else range(1)
    for name, scripts in SCENARIOS.items():
        for shift in rounds:
            c.run(f"{name} ({shift})", lambda: Network(specs(scripts, shift)), 200, max_transitions=cap)
    for name, scripts in DEEP.items():
        c.run(name, lambda: Network(specs(scripts, 1)), c.pick(14, 200), max_transitions=c.pick(30_000, 6_000_000))
    # every pair of short scripts over one procedure and one topic
    steps = [("register", P), ("call", P), ("subscribe", T), ("publish", T), ("call", P, "progress"), ("leave",)]
    if c.thorough:
        for a in itertools.product(steps, repeat=2):
            for b in itertools.product(steps, repeat=2):
                c.run(f"pair {a} {b}", lambda: Network(specs((a, b), 2)), 200, max_transitions=200_000)
    else:
        for a, b in itertools.product(steps, repeat=2):
            c.run(f"pair {a} {b}", lambda: Network(specs(((a,), (b,)), 2)), 200)
    # handshakes in the interleavings
    for k, methods in enumerate([(None, None), *itertools.product(METHODS, repeat=2)] if c.thorough else
                                [(None, None), ("anonymous", "ticket"), ("wampcra", "cryptosign"), ("cryptosign", "ticket")]):
        scripts = ([("register", P), ("publish", T)], [("call", P), ("subscribe", T)])
        c.run(f"from the handshake on: {methods}", lambda: Network(specs(scripts, k, methods), handshakes=True), 200,
              max_transitions=c.pick(80_000, 2_000_000))


CHECKS = {"C26": C26}
