"""C11-C13: the client-side session."""
from mc import wire
from mc.contents import CONTENTS
from mc.checks_router import passing, states_of, world
from mc.client import PARADE, VALUES, FaultSession, SessionWorld

MODEL = ("reference model in mc/client.py, written from the property statements; the application does not reuse a request "
         "ID of the same kind that is still open, except for CALL, and a router confirms an UNREGISTER or UNSUBSCRIBE only "
         "of what is in force")


def live(n, groups):
    """A history after which n calls, registrations, invocations, publications and subscriptions are open."""
    ops = []
    for r in range(n):
        if "reg" in groups:
            ops += [("s_reg", r), ("r_registered", r, r), ("r_inv", r, r)]
        if "sub" in groups:
            ops += [("s_sub", r), ("r_subscribed", r, r)]
    for r in range(n):
        if "call" in groups:
            ops += [("s_call", r)]
        if "pub" in groups:
            ops += [("s_pub", r, 1)]
    return tuple(ops)


def _common(c, cls, quick_pumps=True, **kw):
    prop = c.prop
    c.assumptions.append(MODEL)
    for ser in (None, "json", "cbor", "msgpack"):
        c.run(f"all kinds, one ID each, {ser or 'message objects'}, all states",
              world(cls, n=1, ser=ser, others=True, bad=ser is not None, **kw), 60,
              max_transitions=c.pick(400_000, 4_000_000))
    for groups in (("call", "reg"), ("pub", "sub")):
        c.run(f"{' and '.join(groups)}, any options and details, all states",
              world(cls, groups=groups, noise=True, **kw), 60, max_transitions=c.pick(400_000, 4_000_000))
        c.run(f"{' and '.join(groups)}, every word of the code in options and details", world(cls, groups=groups, n=1, noise=wire.ANY_WORD, others=True, **kw), 60,
              max_transitions=c.pick(150_000, 4_000_000))
        hs = states_of(world(cls, groups=groups, n=1, **kw), 8, prop, 400)
        c.run(f"{' and '.join(groups)}, names, options and details that say every word of the code",
              world(cls, groups=groups, n=1, noise=wire.ANY_VALUE, others=True, **kw), 1, dedupe=False,
              start=tuple(hs[::max(1, len(hs) // c.pick(10, 100))]), max_transitions=c.pick(150_000, 1_500_000))
    for v, value in enumerate(VALUES):
        c.run(f"all kinds, one ID each, payload shape {value[0]}, {value[1]!r}, {value[2]!r}, {value[3]!r}, all states",
              world(cls, n=1, values=v, others=True, ser=(None, "cbor", "msgpack", "json")[v % 4], **kw), 60, max_transitions=c.pick(400_000, 4_000_000))
    for ser in ("json", "cbor", "msgpack"):
        # each with every content in turn
        for ops, rep in (
            ((("s_call", 0),), ("r_result", 0, 1)),
            ((("s_reg", 0), ("r_registered", 0, 0), ("r_inv", 0, 0)), ("s_yield", 0, 1)),
            ((("s_reg", 0), ("r_registered", 0, 0)), ("r_inv", 0, 0)),
            ((("s_sub", 0), ("r_subscribed", 0, 0)), ("r_event", 0)),
            ((), ("s_pub", 0, 0)),
            ((), ("s_call", 0)),
        ):
            c.pump(f"{rep[0]} with any contents, {ser}", world(cls, n=1, ser=ser, values=(PARADE, None, "com.e", "bye", 7)), (ops,), 1, len(CONTENTS), want=lambda o: o == rep, probe=False)
    for habit, what in ((1, "the same message objects sent and received again and again"), (2, "messages written into after they were sent or received")):
        c.run(f"{what}, all states", world(cls, n=1, habit=habit, **kw), 60, max_transitions=c.pick(400_000, 4_000_000))
    passing(c, world(cls, n=1, ser="json", **kw), 60, 400_000)
    for layout in ("apart", "huge"):
        c.run(f"all kinds, one ID each, {layout} IDs, all states", world(cls, n=1, layout=layout, **kw), 60,
              max_transitions=c.pick(400_000, 4_000_000))
    for layout in ("collide", "apart"):
        c.run(f"remote calls, two IDs each, {layout} IDs, all states",
              world(cls, groups=("call", "reg"), n=2, layout=layout, **kw), 60, max_transitions=c.pick(400_000, 4_000_000))
        c.run(f"publish and subscribe, two IDs each, {layout} IDs, all states",
              world(cls, groups=("pub", "sub"), n=2, layout=layout, **kw), 60, max_transitions=c.pick(400_000, 4_000_000))
    n = c.pick(5, 9)
    for layout in ("many", "many collide"):
        for groups in (("call", "reg"), ("pub", "sub")):
            c.run(f"{n} of everything live, {' and '.join(groups)}, {layout}",
                  world(cls, groups=groups, n=n, layout=layout, **kw), c.pick(3, 4), start=(live(n, groups),),
                  max_transitions=c.pick(100_000, 2_000_000))
    for n, depth in ((300, 2), (c.pick(5000, 70_000), 1)):
        for groups in (("call", "reg"), ("pub", "sub")):
            c.run(f"{n} of everything live, {' and '.join(groups)}, some of them acting",
                  world(cls, groups=groups, n=n, layout="crowd", acting=(0, n - 1) if depth > 1 else (0, n // 2, n - 1), **kw), depth,
                  start=(live(n, groups),))
    if c.thorough:
        c.run("all kinds, two IDs each", world(cls, n=2, layout="collide", **kw), 60, max_transitions=6_000_000)
    small = world(cls, n=1, others=True, **kw)
    hs = states_of(small, 8, prop, c.pick(150, 1000))
    c.pump("one operation repeated", small, hs, 1, c.pick(40, 300))
    c.pump("two operations alternating", world(cls, n=1, **kw), hs[:c.pick(20, 150)], 2, c.pick(18, 70))
    c.pump("one operation, very many times", small, hs[:c.pick(8, 100)], 1, 1100)
    for groups in (("call", "reg"), ("pub", "sub")):
        few = world(cls, n=1, groups=groups, **kw)
        hs = states_of(few, 5, prop, 4000)
        hs = list(dict.fromkeys(hs[i * (len(hs) - 1) // 9] for i in range(10)))
        c.pump(f"two operations in turn, many times, {' and '.join(groups)}", few, hs, 2, c.pick(120, 190), probe=False)


def C11(c):
    _common(c, SessionWorld)


def C12(c):
    _common(c, SessionWorld)


def C13(c):
    c.assumptions.append("a later reaction that is wrong is blamed on a failed send or receive exactly when it is right "
                         "after the same history without the failures")
    _common(c, FaultSession, fails=True)


CHECKS = {"C11": C11, "C12": C12, "C13": C13}
