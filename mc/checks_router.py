"""C01-C09: dealer and broker."""
import itertools

from mc import core
from mc import wire
from mc.contents import CONTENTS
from mc.words import NAMES
from mc.core import explore, leaks
from mc.router import (BROKER_UNSUPPORTED, COLLIDE, CONTENT, DEALER_UNSUPPORTED, HUGE, JOINED, JOINED_NAMES, KS, MANY, ODD, PACKED, XORED, BrokerWorld, CrowdedBroker, CrowdedDealer, DealerWorld, LeaveBroker,
                       LeaveDealer, NamedBroker, NamedDealer, RejectBroker, RejectDealer, crowded)
from mc.client import SessionWorld

ALL_FLAGS = ((0, 0), (1, 0), (0, 1), (1, 1))
PLAIN = ((0, 0),)
SHAPES = tuple(range(6))
URIS = ("", "com", "com.p", "com.P", "com.p.", "com..p", "wamp.p", "ünï.码", "com.p*", " com.p",
        "com." + "a" * 300 + ".b", "com." + "a" * 300 + ".c", "com.p\x00", "co\u0301m", "c\u00f3m")
MODEL = ("reference model in mc/router.py, written from the property statements; session and request IDs are taken "
         "from three fixed layouts (disjoint from, equal to and far above generated IDs)")

PAIRS = (("com.p", "com.P"), ("com.p", "com.p."), ("com", "com.p"), ("com.p", "com..p"), ("", " "), ("com.p*", "com.p"), (" com.p", "com.p"),
         ("com.p\x00", "com.p"), ("co\u0301m", "c\u00f3m"), (URIS[-5], URIS[-4]), ("1", "01"), ("None", "wamp.p"))


def pairs(c, cls, what, **kw):
    """Two names that a careless comparison takes for one: all states."""
    for i, (a, b) in enumerate(PAIRS):
        c.run(f"look-alike {'procedures' if what == 'nprocs' else 'topics'}, pair {i}", world(cls, nsessions=2, unordered=True, attach=2, **{what: (a, b)}, **kw), 40,
              max_transitions=c.pick(8_000, 400_000))


def world(cls, **kw):
    return lambda: cls(**kw)


def vocabulary(c, cls, names, kinds, **kw):
    """Every word of the code as option or detail, with all kinds of values; names made of these words."""
    kw = dict(nsessions=2, attach=2, unordered=True, **kw)
    where = "" if not issubclass(cls, (LeaveDealer, LeaveBroker, RejectDealer, RejectBroker)) else "dealer, " if names == "nprocs" else "broker, "
    c.run(f"{where}every word of the code in options and details, all states", world(cls, noise=wire.ANY_WORD, **kw, **{names: 1}), 40,
          max_transitions=c.pick(150_000, 1_500_000))
    hs = states_of(world(cls, **kw, **{names: 1}), 4, c.prop, 400)
    c.run(f"{where}options and details that say every word of the code", world(cls, noise=wire.ANY_VALUE, **kw, **{names: 1}), 1, dedupe=False,
          start=tuple(hs[::max(1, len(hs) // c.pick(10, 60))]), max_transitions=c.pick(150_000, 1_500_000))
    what = "reg" if names == "nprocs" else "sub"
    if what in kinds:
        named = NamedDealer if what == "reg" else NamedBroker
        c.run("names made of the words and sizes of the code", world(named, kinds=kinds, **{**kw, names: NAMES, "attach": 2}), 2,
              start=tuple(((what, 0, i),) for i in range(len(NAMES))), max_transitions=c.pick(150_000, 1_500_000))


def alike(c, kinds, flags=PLAIN):
    """IDs that look alike when they are packed into one number or written one after the other: two open calls."""
    c.run("IDs that pack alike", world(DealerWorld, layout=PACKED, nsessions=3, nprocs=1, nreqs=1 + len(KS), max_calls=2, attach=3,
                                       unordered=True, flags=flags[-1:], kinds=kinds), c.pick(3, 4), start=((("reg", 0, 0),),))
    c.run("IDs that hash alike", world(DealerWorld, layout=XORED, nsessions=3, nprocs=1, nreqs=1 + len(ODD), max_calls=2, attach=3,
                                       unordered=True, flags=flags[-1:], kinds=tuple(k for k in kinds if k != "call")), c.pick(2, 4),
          start=tuple((("reg", 2, 0), ("call", a, 0, r, *flags[-1], None, 0), ("call", b, 0, 0, *flags[-1], None, 0))
                      for r in range(1, 1 + len(ODD)) for a, b in itertools.permutations(range(3), 2)))
    c.run("IDs and names that read alike", world(DealerWorld, layout=JOINED, nsessions=3, nprocs=JOINED_NAMES[:3], nreqs=3, max_calls=2, attach=3,
                                                 unordered=True, flags=flags[-1:], kinds=("reg", "unreg") + kinds), c.pick(4, 6),
          max_transitions=c.pick(150_000, 2_000_000))


def alike_topics(c):
    c.run("IDs and names that read alike", world(BrokerWorld, layout=JOINED, nsessions=3, ntopics=JOINED_NAMES, attach=3, unordered=True,
                                                 acks=(0,),
                                                 kinds=("sub", "unsub", "pub", "detach")), c.pick(4, 5), max_transitions=c.pick(250_000, 2_000_000))


def habits(c, cls, calls=True, **kw):
    """Applications that send the same again and again, keep what they were handed, or write into it."""
    for same, what in ((1, "equal messages"), (2, "the same message objects")):
        c.run(f"{what} sent again and again", world(cls, same=same, **kw), c.pick(6, 9), max_transitions=c.pick(40_000, 1_000_000))
    c.run("what was handed out is kept and looked at again", world(cls, keep=1, **kw), c.pick(4, 5), dedupe=False,
          max_transitions=c.pick(40_000, 1_000_000))
    c.run("the application writes into what it was handed", world(cls, keep=2, **kw), c.pick(6, 9), max_transitions=c.pick(40_000, 1_000_000))
    passing(c, world(cls, **kw), c.pick(6, 9))


def passing(c, factory, depth, limit=20_000, what=""):
    """Time passes, or the clock is set, between any two messages; nothing in the protocol depends on it."""
    for pace, name in core.PACES:
        c.run(f"{what}{name} between any two messages", core.timed(factory, pace), depth, max_transitions=c.pick(limit, 20 * limit))


def calling(c, flags, **kw):
    habits(c, DealerWorld, nsessions=2, nprocs=1, nreqs=2, max_calls=2, attach=2, flags=flags, **kw)


def contents(c, start, kinds, what, flags=((0, 0),), yields=(0, 1)):
    """Everything a message may carry, from a state where it is passed on."""
    shapes = tuple(CONTENT + i for i in range(len(CONTENTS)))
    for i in range(0, len(shapes), 500):
        c.run(f"{what} with contents {i} to {min(i + 500, len(shapes)) - 1}",
              world(DealerWorld, nsessions=2, nprocs=1, nreqs=1, attach=2, max_calls=1, flags=flags, shapes=shapes[i:i + 500], kinds=kinds, yields=yields), 1,
              start=start, dedupe=False)


def publishing(c):
    habits(c, BrokerWorld, nsessions=3, ntopics=2, attach=3, kinds=("sub", "unsub", "pub", "detach"))


def crowd(c, calls, flags=PLAIN):
    """300 (1100) sessions, procedures and open calls, and 5000 (20000) for single operations after that."""
    for n, depth in ((c.pick(300, 1100), c.pick(2, 3)), (c.pick(5000, 20_000), 1)):
        names = tuple(f"com.m{i}" for i in range(n))
        regs = tuple(("reg", i, i) for i in range(n))
        kw = dict(layout=crowded(n), nsessions=n, nprocs=names, nreqs=n, attach=n, max_calls=n + 3, flags=flags)
        f = [flags[i % len(flags)] for i in range(n)]
        c.run(f"{n} sessions, one registration and one call each", world(CrowdedDealer, **kw), depth,
              start=(regs + tuple(("call", i, (i + 1) % n, i, *f[i], None, 0) for i in range(calls and n)),), max_transitions=c.pick(20_000, 200_000), dedupe=False)
        c.run(f"one session with {n} registrations and {n} calls", world(CrowdedDealer, **{**kw, "nsessions": 3, "attach": 3}), depth,
              start=(tuple(("reg", 0, i) for i in range(n)) + tuple(("call", 1, i, i, *f[i], None, 0) for i in range(calls and n)),),
              max_transitions=c.pick(20_000, 200_000), dedupe=False)


def crowd_topics(c):
    for n, depth in ((c.pick(300, 1100), c.pick(2, 3)), (c.pick(5000, 20_000), 1)):
        names = tuple(f"com.m{i}" for i in range(n))
        kw = dict(layout=crowded(n), nsessions=n, ntopics=names, attach=n, acks=(0,))
        c.run(f"{n} subscribers of one topic", world(CrowdedBroker, **kw), depth, start=(tuple(("sub", i, 0) for i in range(n)),),
              max_transitions=c.pick(20_000, 200_000), dedupe=False)
        c.run(f"{n} topics with a subscriber each", world(CrowdedBroker, **kw), depth, start=(tuple(("sub", i, i) for i in range(n)),),
              max_transitions=c.pick(20_000, 200_000), dedupe=False)
        c.run(f"one session with {n} subscriptions", world(CrowdedBroker, **{**kw, "nsessions": 3, "attach": 3}), depth,
              start=(tuple(("sub", 0, i) for i in range(n)),), max_transitions=c.pick(20_000, 200_000), dedupe=False)


def states_of(factory, depth, prop, limit):
    """Representative histories of the states up to a depth."""
    r = explore("states", factory, depth, prop=prop, collect=True, max_transitions=limit * 60)
    return r.histories[:limit] if not r.bad else [()]


def long(c, small, n=None):
    """A few states, from each every pair of operations in turn for long enough to show what a counter in the code does."""
    hs = states_of(small, 5, c.prop, 4000)
    n = n or c.pick(10, 60)
    hs = list(dict.fromkeys(hs[i * (len(hs) - 1) // (n - 1)] for i in range(n)))
    c.pump("two operations in turn, many times", small, hs, 2, c.pick(120, 190), probe=False)
    c.pump("one operation, very many times", small, hs, 1, 1100)


def C01(c):
    c.assumptions.append(MODEL)
    c.run("2 sessions, 1 procedure, all progress flags, all states",
          world(DealerWorld, nsessions=2, nprocs=1, max_calls=1, flags=ALL_FLAGS, unordered=True), 40)
    c.run("3 sessions, 2 procedures, 2 open calls",
          world(DealerWorld, nsessions=3, nprocs=2, max_calls=2, unordered=True),
          c.pick(6, 12), max_transitions=c.pick(150_000, 4_000_000))
    c.run("colliding IDs", world(DealerWorld, layout=COLLIDE, nsessions=3, nprocs=2, nreqs=2, max_calls=3, attach=3,
                                 kinds=("reg", "unreg", "call", "yield", "err", "detach", "attach")),
          c.pick(5, 7), max_transitions=c.pick(150_000, 3_000_000))
    c.run("boundary IDs", world(DealerWorld, layout=HUGE, nsessions=3, nprocs=2, nreqs=3, max_calls=3, attach=3,
                                kinds=("reg", "unreg", "call", "yield", "err")),
          c.pick(5, 7), max_transitions=c.pick(60_000, 2_000_000))
    c.run("all payload shapes and opaque payloads, no reduction",
          world(DealerWorld, nsessions=2, nprocs=1, nreqs=1, attach=2, max_calls=1, flags=((0, 0), (1, 1)), shapes=SHAPES,
                binaries=(0, 1, 2, 3), kinds=("call", "yield", "err")), c.pick(2, 3), dedupe=False,
          start=((("reg", 0, 0),),))
    contents(c, ((("reg", 0, 0),),), ("call",), "a call", ((0, 0), (1, 1)))
    c.run("look-alike procedure URIs",
          world(DealerWorld, nsessions=2, nprocs=URIS, nreqs=1, attach=2, max_calls=1, max_regs=3, unordered=True,
                kinds=("reg", "unreg", "call", "yield")), c.pick(3, 5), max_transitions=c.pick(60_000, 2_000_000))
    pairs(c, DealerWorld, "nprocs", nreqs=1, max_calls=1, kinds=("reg", "unreg", "call", "yield"))
    c.run("any options and details, calls, all states",
          world(DealerWorld, nsessions=2, nprocs=1, max_calls=1, attach=2, flags=ALL_FLAGS,
                kinds=("reg", "unreg", "call", "yield", "err", "detach", "attach"), unordered=True, noise=True), 40,
          max_transitions=c.pick(150_000, 3_000_000))
    vocabulary(c, DealerWorld, "nprocs", ("reg", "call"), max_calls=1, flags=((0, 0), (1, 1)))
    crowd(c, True, ALL_FLAGS)
    calling(c, ((0, 0), (1, 1)))
    alike(c, ("call", "yield"))
    small = world(DealerWorld, nsessions=2, nprocs=2, max_calls=2, flags=((0, 0), (1, 1)), unordered=True)
    hs = states_of(small, c.pick(5, 6), "C01", c.pick(150, 600))
    c.pump("one operation repeated", small, hs, 1, c.pick(40, 300))
    c.pump("two operations alternating", small, hs[:c.pick(24, 300)], 2, c.pick(18, 70))
    long(c, small)
    c.run("many sessions", world(DealerWorld, nsessions=40, nprocs=2, nreqs=1, max_calls=45, kinds=("reg", "call", "yield"),
                                 attach=40), c.pick(3, 4), max_transitions=c.pick(30_000, 600_000))


def C02(c):
    c.assumptions.append(MODEL)
    reply = ("reg", "call", "yield", "err", "stale")
    c.run("2 sessions, all progress flags, stale and foreign replies, all states",
          world(DealerWorld, nsessions=2, nprocs=1, nreqs=1, max_calls=2, flags=ALL_FLAGS, attach=2, unordered=True,
                kinds=reply + ("unreg",)), 40, max_transitions=c.pick(200_000, 3_000_000))
    c.run("2 sessions, all progress flags, all error URIs, all states",
          world(DealerWorld, nsessions=2, nprocs=1, nreqs=1, max_calls=2, flags=ALL_FLAGS, attach=2, unordered=True,
                kinds=("reg", "call", "yield", "err", "stale"), errs=SHAPES), 40, max_transitions=c.pick(200_000, 3_000_000))
    c.run("3 sessions, 2 requests each, detach and rejoin",
          world(DealerWorld, nsessions=3, nprocs=1, nreqs=2, max_calls=2, flags=((0, 0), (1, 0)), attach=3, unordered=True,
                kinds=reply + ("detach", "attach")), c.pick(6, 9), max_transitions=c.pick(150_000, 4_000_000))
    c.run("3 open calls", world(DealerWorld, nsessions=3, nprocs=2, nreqs=2, max_calls=3, flags=((0, 0), (1, 0)), attach=3,
                                unordered=True, kinds=reply), c.pick(6, 9), max_transitions=c.pick(150_000, 4_000_000))
    c.run("colliding IDs", world(DealerWorld, layout=COLLIDE, nsessions=3, nprocs=2, nreqs=3, max_calls=3, attach=3,
                                 kinds=reply), c.pick(5, 7), max_transitions=c.pick(150_000, 3_000_000))
    c.run("boundary IDs", world(DealerWorld, layout=HUGE, nsessions=3, nprocs=1, nreqs=3, max_calls=3, attach=3,
                                kinds=reply), c.pick(4, 6), max_transitions=c.pick(60_000, 2_000_000))
    c.run("all payload shapes and opaque payloads, no reduction",
          world(DealerWorld, nsessions=2, nprocs=1, nreqs=1, attach=2, max_calls=1, flags=((0, 0), (1, 1)), shapes=SHAPES,
                binaries=(0, 1, 2, 3), kinds=("call", "yield", "err")), c.pick(2, 3), dedupe=False,
          start=((("reg", 0, 0),),))
    contents(c, ((("reg", 0, 0), ("call", 1, 0, 0, 1, 0, None, 0)),), ("yield", "err"), "a reply")
    c.run("any options and details, replies, all states",
          world(DealerWorld, nsessions=2, nprocs=1, max_calls=2, attach=2, flags=((0, 0), (1, 0)),
                kinds=reply, unordered=True, noise=True), 40,
          max_transitions=c.pick(150_000, 3_000_000))
    vocabulary(c, DealerWorld, "nprocs", reply, max_calls=1, flags=((0, 0), (1, 0)))
    crowd(c, True, ((0, 0), (1, 0)))
    calling(c, ((0, 0), (1, 0)))
    alike(c, ("call", "yield", "err", "detach"))
    small = world(DealerWorld, nsessions=2, nprocs=1, nreqs=2, max_calls=2, flags=((0, 0), (1, 0)), attach=2, unordered=True,
                  kinds=reply)
    hs = states_of(small, c.pick(5, 6), "C02", c.pick(150, 600))
    c.pump("one operation repeated", small, hs, 1, c.pick(40, 300))
    c.pump("two operations alternating", small, hs[:c.pick(24, 300)], 2, c.pick(18, 70))
    long(c, small)
    c.run("many open calls", world(DealerWorld, nsessions=2, nprocs=1, nreqs=1, attach=2, max_calls=1,
                                   kinds=("reg", "call", "yield", "err")), 6)


def C03(c):
    c.assumptions.append(MODEL + "; all chunks of a call name the same procedure and the same receive_progress")
    c.run("2 sessions, all progress flags, all states",
          world(DealerWorld, nsessions=2, nprocs=1, nreqs=1, max_calls=2, flags=ALL_FLAGS, attach=2, unordered=True,
                kinds=("reg", "unreg", "call", "yield", "err")), 40, max_transitions=c.pick(200_000, 3_000_000))
    c.run("2 sessions, all progress flags, all error URIs, all states",
          world(DealerWorld, nsessions=2, nprocs=1, nreqs=1, max_calls=2, flags=ALL_FLAGS, attach=2, unordered=True,
                kinds=("reg", "call", "yield", "err", "stale"), errs=SHAPES), 40, max_transitions=c.pick(200_000, 3_000_000))
    c.run("callee changes under a progressive call, 3 sessions",
          world(DealerWorld, nsessions=3, nprocs=1, nreqs=1, max_calls=2, flags=((0, 0), (0, 1), (1, 1)), attach=3,
                unordered=True, kinds=("reg", "unreg", "call", "yield", "detach", "attach")),
          c.pick(7, 10), max_transitions=c.pick(150_000, 4_000_000))
    c.run("two procedures, two requests",
          world(DealerWorld, nsessions=2, nprocs=2, nreqs=2, max_calls=3, flags=ALL_FLAGS, attach=2, unordered=True,
                kinds=("reg", "unreg", "call", "yield")), c.pick(5, 8), max_transitions=c.pick(150_000, 4_000_000))
    c.run("colliding IDs", world(DealerWorld, layout=COLLIDE, nsessions=2, nprocs=1, nreqs=3, max_calls=3, attach=2,
                                 flags=ALL_FLAGS, kinds=("reg", "unreg", "call", "yield")),
          c.pick(6, 8), max_transitions=c.pick(150_000, 3_000_000))
    c.run("any options and details, progressive calls, all states",
          world(DealerWorld, nsessions=2, nprocs=1, max_calls=1, attach=2, flags=ALL_FLAGS,
                kinds=("reg", "unreg", "call", "yield", "err"), unordered=True, noise=True), 40,
          max_transitions=c.pick(150_000, 3_000_000))
    contents(c, ((("reg", 0, 0), ("call", 1, 0, 0, 1, 1, None, 0)),), ("call", "yield"), "a chunk or result", ((1, 1), (1, 0)))
    c.run("three progressive calls open", world(DealerWorld, nsessions=2, nprocs=1, nreqs=3, max_calls=3, attach=2,
                                                flags=((1, 1), (1, 0)), unordered=True, kinds=("reg", "call", "yield", "err")),
          c.pick(8, 14), max_transitions=c.pick(150_000, 4_000_000), start=((("reg", 0, 0),),))
    vocabulary(c, DealerWorld, "nprocs", (), max_calls=1, flags=((1, 1), (0, 1)))
    crowd(c, True, ((1, 1), (0, 1)))
    calling(c, ((1, 1), (0, 1)))
    alike(c, ("call", "yield"), ((1, 1),))
    small = world(DealerWorld, nsessions=2, nprocs=1, nreqs=2, max_calls=2, flags=ALL_FLAGS, attach=2, unordered=True,
                  kinds=("reg", "unreg", "call", "yield", "err"))
    hs = states_of(small, c.pick(4, 5), "C03", c.pick(150, 600))
    c.pump("one chunk or result repeated", small, hs, 1, c.pick(70, 400))
    c.pump("two operations alternating", small, hs[:c.pick(60, 300)], 2, c.pick(20, 70))
    long(c, small)


def C04(c):
    c.assumptions.append(MODEL)
    table = ("attach", "detach", "reg", "unreg", "stale")
    c.run("3 sessions, 2 procedures, all states",
          world(DealerWorld, nsessions=3, nprocs=2, unordered=True, kinds=table), 60,
          max_transitions=c.pick(300_000, 3_000_000))
    c.run("2 sessions, 3 procedures", world(DealerWorld, nsessions=2, nprocs=3, unordered=True, kinds=table), 60,
          max_transitions=c.pick(200_000, 3_000_000))
    c.run("registrations among calls", world(DealerWorld, nsessions=2, nprocs=2, max_calls=1, unordered=True),
          c.pick(7, 30), max_transitions=c.pick(120_000, 3_000_000))
    c.run("registrations among progressive calls, all states", world(DealerWorld, nsessions=2, nprocs=1, nreqs=1, max_calls=2, unordered=True, flags=ALL_FLAGS, errs=(0, 2)),
          40, max_transitions=c.pick(200_000, 3_000_000))
    c.run("colliding IDs", world(DealerWorld, layout=COLLIDE, nsessions=3, nprocs=3, kinds=table, attach=2),
          c.pick(5, 7), max_transitions=c.pick(150_000, 3_000_000))
    c.run("look-alike procedure URIs", world(DealerWorld, nsessions=2, nprocs=URIS, kinds=table, attach=2,
                                             unordered=True), c.pick(3, 4), max_transitions=c.pick(60_000, 2_000_000))
    pairs(c, DealerWorld, "nprocs", kinds=table)
    c.run("any options and details, registrations, all states",
          world(DealerWorld, nsessions=2, nprocs=2, kinds=table, unordered=True, noise=True), 40,
          max_transitions=c.pick(150_000, 3_000_000))
    vocabulary(c, DealerWorld, "nprocs", ("reg", "unreg", "call"), max_calls=1)
    crowd(c, False)
    habits(c, DealerWorld, nsessions=2, nprocs=2, attach=2, kinds=("reg", "unreg", "stale", "detach", "attach"))
    alike(c, ("call", "detach"))
    small = world(DealerWorld, nsessions=2, nprocs=2, max_calls=1, unordered=True)
    hs = states_of(small, c.pick(5, 6), "C04", c.pick(150, 600))
    c.pump("one operation repeated", small, hs, 1, c.pick(40, 300))
    c.pump("two operations alternating", small, hs[:c.pick(24, 300)], 2, c.pick(18, 70))
    long(c, small)
    many = tuple(f"com.m{i}" for i in range(40))
    c.run("many procedures", world(DealerWorld, nsessions=2, nprocs=many, attach=2, kinds=("reg", "unreg", "detach")),
          3, max_transitions=c.pick(30_000, 600_000), start=(tuple(("reg", i % 2, i) for i in range(40)),))


def C05(c):
    c.assumptions.append(MODEL)
    c.assumptions.append("a mismatch that only shows when a session ID is used again is recognised by replaying the "
                         "history with a new ID for every session that joins")
    c.run("dealer, 2 sessions, all states",
          world(LeaveDealer, nsessions=2, nprocs=1, max_calls=2, flags=((0, 0), (1, 1)), unordered=True), 40,
          max_transitions=c.pick(250_000, 4_000_000))
    c.run("dealer, 3 sessions", world(LeaveDealer, nsessions=3, nprocs=2, max_calls=3, attach=3, unordered=True),
          c.pick(6, 8), max_transitions=c.pick(150_000, 4_000_000))
    passing(c, world(LeaveDealer, nsessions=2, nprocs=1, max_calls=1, unordered=True), c.pick(6, 9), what="dealer, ")
    passing(c, world(LeaveBroker, nsessions=2, ntopics=2, unordered=True), c.pick(6, 9), what="broker, ")
    c.run("dealer, colliding IDs",
          world(LeaveDealer, layout=COLLIDE, nsessions=3, nprocs=2, nreqs=2, max_calls=3, attach=3,
                kinds=("reg", "call", "yield", "detach", "attach", "stale")), c.pick(5, 6),
          max_transitions=c.pick(150_000, 3_000_000))
    c.run("broker, 3 sessions, all states", world(LeaveBroker, nsessions=3, ntopics=2, unordered=True), 40,
          max_transitions=c.pick(200_000, 3_000_000))
    c.run("broker, colliding IDs", world(LeaveBroker, layout=COLLIDE, nsessions=3, ntopics=2, attach=3), c.pick(4, 6),
          max_transitions=c.pick(100_000, 3_000_000))
    vocabulary(c, LeaveDealer, "nprocs", (), max_calls=1)
    vocabulary(c, LeaveBroker, "ntopics", ())
    crowd(c, True)
    crowd_topics(c)
    names = tuple(f"com.m{i}" for i in range(40))
    full = tuple(("reg", i % 3, i) for i in range(40)) + tuple(
        ("call", i % 5, i % 40, i // 5, i % 2, 0, None, 0) for i in range(60))
    c.run("dealer, 40 procedures and 60 open calls",
          world(LeaveDealer, layout=MANY, nsessions=5, nprocs=names, nreqs=13, max_calls=61, attach=5,
                flags=((0, 0), (1, 0)), kinds=("detach", "yield")), c.pick(2, 3), start=(full, full[::-1][:60][::-1]),
          max_transitions=c.pick(20_000, 400_000))
    c.run("dealer, 40 procedures and 60 open calls, everybody leaves and comes back",
          world(LeaveDealer, layout=MANY, nsessions=5, nprocs=names, nreqs=13, max_calls=61, attach=5,
                flags=((0, 0), (1, 0)), kinds=("detach", "attach")), c.pick(5, 9), start=(full,),
          max_transitions=c.pick(20_000, 400_000))
    full = tuple(("sub", i % 5, t) for t in range(40) for i in range(t, t + 3))
    c.run("broker, 40 topics with 3 subscribers each", world(LeaveBroker, layout=MANY, nsessions=5, ntopics=names, attach=5),
          c.pick(2, 3), start=(full,), max_transitions=c.pick(20_000, 400_000))
    c.run("broker, 40 topics with 3 subscribers each, everybody leaves and comes back",
          world(LeaveBroker, layout=MANY, nsessions=5, ntopics=names, attach=5, kinds=("detach", "attach")),
          c.pick(5, 9), start=(full,), max_transitions=c.pick(20_000, 400_000))
    for name, small in (
        ("dealer", world(LeaveDealer, nsessions=2, nprocs=1, max_calls=1, unordered=True)),
        ("broker", world(LeaveBroker, nsessions=2, ntopics=1, unordered=True)),
    ):
        hs = states_of(small, 5, "C05", c.pick(80, 400))
        c.pump(f"{name}: one operation repeated", small, hs, 1, c.pick(20, 100))
        c.pump(f"{name}: two operations alternating", small, hs[:c.pick(40, 300)], 2, c.pick(10, 70))


def C06(c):
    c.assumptions.append(MODEL)
    c.run("3 sessions, 2 topics, all states", world(BrokerWorld, nsessions=3, ntopics=2, unordered=True), 40,
          max_transitions=c.pick(200_000, 3_000_000))
    c.run("order of subscriptions kept apart", world(BrokerWorld, nsessions=3, ntopics=2, attach=3), c.pick(6, 9),
          max_transitions=c.pick(120_000, 4_000_000))
    c.run("colliding IDs", world(BrokerWorld, layout=COLLIDE, nsessions=3, ntopics=3, attach=2), c.pick(5, 6),
          max_transitions=c.pick(120_000, 3_000_000))
    c.run("boundary IDs", world(BrokerWorld, layout=HUGE, nsessions=4, ntopics=2, attach=3), c.pick(4, 6),
          max_transitions=c.pick(80_000, 2_000_000))
    c.run("all payload shapes, no reduction",
          world(BrokerWorld, nsessions=2, ntopics=1, attach=2, shapes=SHAPES, kinds=("sub", "pub", "unsub")), 4,
          dedupe=False, max_transitions=c.pick(40_000, 2_000_000))
    c.run("a publication with any contents", world(BrokerWorld, nsessions=2, ntopics=1, attach=2, kinds=("pub",),
                                                  shapes=tuple(CONTENT + i for i in range(len(CONTENTS)))), 1, start=((("sub", 0, 0),),), dedupe=False)
    c.run("look-alike topic URIs", world(BrokerWorld, nsessions=2, ntopics=URIS, attach=2, unordered=True, acks=(0,),
                                         kinds=("sub", "unsub", "pub")), c.pick(3, 4),
          max_transitions=c.pick(80_000, 2_000_000))
    pairs(c, BrokerWorld, "ntopics", acks=(0,), kinds=("sub", "unsub", "pub", "detach", "attach"))
    c.run("any options and details, publications, all states",
          world(BrokerWorld, nsessions=2, ntopics=2, unordered=True, noise=True), 40,
          max_transitions=c.pick(150_000, 3_000_000))
    vocabulary(c, BrokerWorld, "ntopics", ("sub", "pub"))
    crowd_topics(c)
    publishing(c)
    alike_topics(c)
    small = world(BrokerWorld, nsessions=2, ntopics=2, unordered=True)
    hs = states_of(small, c.pick(5, 6), "C06", c.pick(150, 600))
    c.pump("one operation repeated", small, hs, 1, c.pick(40, 300))
    c.pump("two operations alternating", small, hs[:c.pick(24, 300)], 2, c.pick(18, 70))
    long(c, small)
    c.run("40 subscribers", world(BrokerWorld, nsessions=40, ntopics=2, attach=40, kinds=("sub", "unsub", "pub")),
          2, start=(tuple(("sub", i, 0) for i in range(39)),))


def C07(c):
    c.assumptions.append(MODEL)
    c.run("3 sessions, 2 topics, all states", world(BrokerWorld, nsessions=3, ntopics=2, unordered=True), 40,
          max_transitions=c.pick(200_000, 3_000_000))
    c.run("order of subscriptions kept apart",
          world(BrokerWorld, nsessions=3, ntopics=2, attach=3, kinds=("sub", "unsub", "detach", "attach", "stale")),
          c.pick(6, 10), max_transitions=c.pick(120_000, 4_000_000))
    c.run("2 sessions, 3 topics", world(BrokerWorld, nsessions=2, ntopics=3, unordered=True), c.pick(9, 40),
          max_transitions=c.pick(120_000, 4_000_000))
    c.run("colliding IDs", world(BrokerWorld, layout=COLLIDE, nsessions=3, ntopics=3, attach=2), c.pick(5, 6),
          max_transitions=c.pick(120_000, 3_000_000))
    c.run("look-alike topic URIs", world(BrokerWorld, nsessions=2, ntopics=URIS, attach=2, unordered=True, acks=(0,),
                                         kinds=("sub", "unsub", "pub")), c.pick(3, 4),
          max_transitions=c.pick(80_000, 2_000_000))
    pairs(c, BrokerWorld, "ntopics", acks=(0,), kinds=("sub", "unsub", "pub", "detach", "attach"))
    c.run("any options and details, subscriptions, all states",
          world(BrokerWorld, nsessions=2, ntopics=2, kinds=("attach", "detach", "sub", "unsub", "stale"), unordered=True, noise=True), 40,
          max_transitions=c.pick(150_000, 3_000_000))
    vocabulary(c, BrokerWorld, "ntopics", ("sub", "unsub"))
    crowd_topics(c)
    publishing(c)
    alike_topics(c)
    small = world(BrokerWorld, nsessions=2, ntopics=2, unordered=True)
    hs = states_of(small, c.pick(5, 6), "C07", c.pick(150, 600))
    c.pump("one operation repeated", small, hs, 1, c.pick(40, 300))
    c.pump("two operations alternating", small, hs[:c.pick(24, 300)], 2, c.pick(18, 70))
    long(c, small)
    c.run("40 subscribers", world(BrokerWorld, nsessions=40, ntopics=2, attach=40, kinds=("sub", "unsub", "pub")),
          2, start=(tuple(("sub", i, 0) for i in range(39)),))


def C08(c):
    c.assumptions.append(MODEL)
    c.assumptions.append("a later response that is wrong is blamed on a rejected input exactly when it is right after the "
                         "same history without the rejected inputs")
    c.run("dealer, 2 sessions, every unsupported message type, all states",
          world(RejectDealer, nsessions=2, nprocs=1, max_calls=1, flags=((0, 0), (1, 1)), unordered=True,
                others=DEALER_UNSUPPORTED), 40, max_transitions=c.pick(150_000, 3_000_000))
    c.run("dealer, 2 open calls", world(RejectDealer, nsessions=2, nprocs=2, nreqs=2, max_calls=2, attach=2, unordered=True,
                                        flags=((0, 0), (0, 1))),
          c.pick(6, 8), max_transitions=c.pick(120_000, 4_000_000))
    c.run("dealer, colliding IDs", world(RejectDealer, layout=COLLIDE, nsessions=3, nprocs=2, nreqs=1, max_calls=2,
                                         attach=2), c.pick(4, 6), max_transitions=c.pick(100_000, 3_000_000))
    c.run("broker, 3 sessions, every unsupported message type, all states",
          world(RejectBroker, nsessions=3, ntopics=2, unordered=True, others=BROKER_UNSUPPORTED), c.pick(8, 40),
          max_transitions=c.pick(120_000, 4_000_000))
    c.run("broker, colliding IDs", world(RejectBroker, layout=COLLIDE, nsessions=3, ntopics=2, attach=2),
          c.pick(5, 6), max_transitions=c.pick(100_000, 3_000_000))
    vocabulary(c, RejectDealer, "nprocs", (), max_calls=1)
    vocabulary(c, RejectBroker, "ntopics", ())
    for name, small in (
        ("dealer", world(RejectDealer, nsessions=2, nprocs=1, max_calls=1, unordered=True)),
        ("broker", world(RejectBroker, nsessions=2, ntopics=1, unordered=True)),
    ):
        hs = states_of(small, 5, "C08", c.pick(80, 400))
        c.pump(f"{name}: one input repeated", small, hs, 1, c.pick(20, 300))


def C09(c):
    c.assumptions.append("retained memory is measured as the number of container entries and characters of text reachable "
                         "from the instance (and, for all that is new since the walk began, from the modules, classes and functions of the library); growth over 6, 40, 200 and 600 repetitions counts")
    for name, small, depth, length in (
        ("dealer", world(DealerWorld, nsessions=2, nprocs=1, max_calls=1, flags=((0, 0), (1, 1)), unordered=True,
                         others=DEALER_UNSUPPORTED[:4]), 6, c.pick(4, 5)),
        ("dealer, 2 requests", world(DealerWorld, nsessions=2, nprocs=1, nreqs=2, max_calls=2, attach=2,
                                     flags=((0, 0), (1, 1)), unordered=True), c.pick(2, 3), c.pick(4, 6)),
        ("broker", world(BrokerWorld, nsessions=2, ntopics=2, unordered=True, others=BROKER_UNSUPPORTED[:4]), 5,
         c.pick(3, 4)),
        ("client session, remote calls", world(SessionWorld, groups=("call", "reg"), n=1, fails=True, others=True), 8,
         c.pick(3, 4)),
        ("client session, publish and subscribe", world(SessionWorld, groups=("pub", "sub"), n=1, fails=True), 8,
         c.pick(4, 6)),
        ("client session, frames", world(SessionWorld, n=1, ser="cbor", bad=True), 3, c.pick(3, 4)),
    ):
        hs = states_of(small, depth, "C09", c.pick(120, 600))
        c.take(leaks(name, small, hs, length))
    two, three = ((), (("detach", 0),), (("detach", 0), ("detach", 1))), ((("detach", 0),), (("detach", 0), ("detach", 1), ("detach", 2)))
    for name, small, homes, states in (
        ("dealer", world(DealerWorld, nsessions=2, nprocs=1, max_calls=1, attach=2, flags=((0, 0), (1, 1)), unordered=True), two, c.pick(200, 4000)),
        ("dealer, 2 procedures", world(DealerWorld, nsessions=2, nprocs=2, nreqs=2, max_calls=2, attach=2, unordered=True), two[:2], c.pick(200, 4000)),
        ("dealer, 3 sessions", world(DealerWorld, nsessions=3, nprocs=1, max_calls=2, attach=3, unordered=True), three, c.pick(200, 4000)),
        ("broker", world(BrokerWorld, nsessions=2, ntopics=2, attach=2, unordered=True), two, c.pick(200, 4000)),
        ("broker, 3 sessions", world(BrokerWorld, nsessions=3, ntopics=1, attach=3, unordered=True), three, c.pick(200, 4000)),
        ("client session, remote calls", world(SessionWorld, groups=("call", "reg"), n=1, fails=True), ((),), c.pick(200, 4000)),
        ("client session, publish and subscribe", world(SessionWorld, groups=("pub", "sub"), n=1, fails=True), ((),), c.pick(200, 4000)),
    ):
        c.take(core.round_trips(f"{name}: to every operation and back", small, homes, states))


CHECKS = {k: v for k, v in globals().items() if k.startswith("C0") and callable(v)}
