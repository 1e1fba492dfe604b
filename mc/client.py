"""World over the client-side WAMPSession with a model of its open requests, registrations and subscriptions."""
import json

import cbor2
import msgpack

from mc import wire
from mc.core import Mismatch, snapshot
from mc.router import differential, payload, sample_message, scribble_message
from wampproto.session import WAMPSession

DUMPS = {"json": json.dumps, "cbor": cbor2.dumps, "msgpack": msgpack.dumps}
LOADS = {"json": json.loads, "cbor": cbor2.loads, "msgpack": msgpack.loads}

BAD_ARRAYS = [
    [], [50], [50, 0, {}], [50, True, {}], [50, 1], [50, 1, []], [65, 1, 0], [65, 1], [33, 1, "x"], [36, 1, 1],
    [8, 48, 1, {}], [8, 48, 1, {}, 5], [8, "48", 1, {}, "u"], [67], [67, 1, 1], [35, None], [68, 1, 1], [999, 1],
    ["50", 1, {}], {}, 5, [17, 1], [17, 1, 2**53 + 1],
]


class FailingSerializer(wire.serializers.Serializer):
    """Application-supplied serializer whose serialize fails when told to."""

    def __init__(self, kind):
        self.base = wire.SERIALIZERS[kind]()
        self.fail = None

    def serialize(self, message):
        if self.fail is not None:
            raise self.fail
        return self.base.serialize(message)

    def deserialize(self, data):
        return self.base.deserialize(data)

    def static(self):
        return False


REQ_KINDS = ("call", "reg", "unreg", "pub", "sub", "unsub")
REQ_CODES = {"call": 48, "reg": 64, "unreg": 66, "pub": 16, "sub": 32, "unsub": 34}
SEND_FORBIDDEN = ("Hello", "Welcome", "Abort", "Challenge", "Authenticate", "Published", "Subscribed", "Unsubscribed",
                  "Event", "Cancel", "Result", "Registered", "Unregistered", "Invocation", "Interrupt")
RECV_FORBIDDEN = ("Hello", "Welcome", "Challenge", "Authenticate", "Publish", "Subscribe", "Unsubscribe", "Call",
                  "Cancel", "Register", "Unregister", "Yield", "Interrupt")


NOISY = ("s_call", "s_reg", "s_yield", "s_err", "s_pub", "s_sub", "s_goodbye", "r_result", "r_inv", "r_event", "r_error", "r_goodbye", "r_abort")
PARADE = -1     # a payload shape: the contents of mc/contents.py one after the other

# what messages of a scenario say besides IDs: payload shape, procedure or topic, error URI, reason, publication ID
VALUES = (
    (0, "com.x", "wamp.error.no_such_procedure", "wamp.close.goodbye_and_out", 1),
    (1, "", "", "", 2**53),
    (2, "wamp.session.get", "wamp.error.canceled", "wamp.close.close_realm", 2),
    (3, "com.p", "wamp.error.no_such_registration", "wamp.close.system_shutdown", 3),
    (4, "com..p*", "wamp.error.no_such_subscription", "wamp.error.authentication_failed", 11),
    (5, "\u00fcn\u00ef.\u7801", "wamp.error.invalid_argument", "wamp.error.no_such_realm", 2**32),
    (0, "wamp.topic.on_create", "wamp.error.timeout", "wamp.error.system_shutdown", 2**31),
    (3, "com.progress", "wamp.error.procedure_already_exists", "progress", 5),
)


class IDs:
    def __init__(self, req, reg, sub, inv):
        self.req, self.reg, self.sub, self.inv = req, reg, sub, inv


ID_LAYOUTS = {
    "collide": IDs((1, 2), (1, 2), (1, 2), (1, 2)),
    "apart": IDs((11, 12), (21, 22), (31, 32), (41, 42)),
    "many": IDs(*[tuple(range(b + 1, b + 13)) for b in (10, 30, 50, 70)]),
    "many collide": IDs(*[tuple(range(1, 13))] * 4),
    "crowd": IDs(*[range(b + 1, b + 100_001) for b in (1_000_000, 3_000_000, 5_000_000, 7_000_000)]),
    "huge": IDs((2**53, 1), (2**53, 1), (2**53, 2**53 - 1), (2**53, 2**32)),
}


class SessionWorld:
    """ops: s_* the application sends, f_* a send that fails, r_* the router's message arrives, b_* a bad frame."""

    picklable = True

    def __init__(self, groups=("call", "reg", "pub", "sub"), n=1, layout="collide", ser=None, fails=False, bad=False,
                 others=False, noise=False, acting=None, values=None, habit=0):
        self.acting = acting        # the IDs with operations of their own (default: all)
        self.ids = ID_LAYOUTS[layout]
        self.n = n
        self.groups = groups
        self.ser = ser              # None: receive_message with objects; otherwise frames of that serializer
        self.fails, self.bad, self.others = fails, bad, others
        self.noisy, self.noise = wire.IRRELEVANT if noise is True else noise or (), 0
        self.serializer = FailingSerializer(ser or "json")
        self.s = WAMPSession(self.serializer)
        self.open = {k: {} for k in REQ_KINDS}   # kind -> request -> target (registration/subscription) or None
        self.regs, self.subs, self.invs = set(), set(), set()
        self.values = values        # which of VALUES all messages use (default: fixed texts, rotating payloads)
        self.shape, self.text, self.uri, self.reason, self.pub_id = (VALUES[values] if type(values) is int else values) if values is not None else (None, None, "com.e", "bye", 7)
        self.habit = habit          # 1: equal messages are the same object, 2: the application writes into messages it sent or received
        self.made = {}
        self.count = 0
        self.last = "-"

    # ---- operations
    def enabled(self):
        ops = self.plain()
        if self.noisy:
            ops += [("n", k) + op for op in ops for k in self.noisy if op[0] in NOISY]
        return ops

    def plain(self):
        ops = []
        R = self.acting or range(self.n)

        def send(*op):
            ops.append(op)
            if self.fails:
                ops.append(("f",) + op)

        def is_open(kind, r):
            return self.ids.req[r] in self.open[kind]

        if "call" in self.groups:
            for r in R:
                send("s_call", r)
                for pr in (0, 1):
                    ops.append(("r_result", r, pr))
        if "reg" in self.groups:
            for r in R:
                if not is_open("reg", r):
                    send("s_reg", r)
                for g in R:
                    if not is_open("unreg", r):
                        send("s_unreg", r, g)
                    ops.append(("r_registered", r, g))
                    ops.append(("r_inv", r, g))
                if not is_open("unreg", r) or self.open["unreg"][self.ids.req[r]] in self.regs:
                    ops.append(("r_unregistered", r))
                elif self.fails:
                    ops.append(("r_unheld", "Unregistered", r))
                for pr in (0, 1):
                    send("s_yield", r, pr)
                send("s_err", r)
        if "pub" in self.groups:
            for r in R:
                for ack in (0, 1):
                    if not is_open("pub", r):
                        send("s_pub", r, ack)
                ops.append(("r_published", r))
        if "sub" in self.groups:
            for r in R:
                if not is_open("sub", r):
                    send("s_sub", r)
                for g in R:
                    if not is_open("unsub", r):
                        send("s_unsub", r, g)
                    ops.append(("r_subscribed", r, g))
                if not is_open("unsub", r) or self.open["unsub"][self.ids.req[r]] in self.subs:
                    ops.append(("r_unsubscribed", r))
                elif self.fails:
                    ops.append(("r_unheld", "Unsubscribed", r))
                ops.append(("r_event", r))
        for r in R:
            for k in REQ_KINDS:
                if {"unreg": "reg", "unsub": "sub"}.get(k, k) in self.groups:
                    ops.append(("r_error", k, r))
        if self.others:
            send("s_goodbye")
            ops += [("r_goodbye",), ("r_abort",)]
            for r in R:
                for code in (0, 8, 17, 36, 50, 68, 70, 999):
                    ops.append(("r_error_code", code, r))
                for code in (48, 64, 66, 16, 32, 34, 0, 70, 50):
                    ops.append(("s_error_code", code, r))
            ops += [("s_other", x) for x in SEND_FORBIDDEN]
            ops += [("r_other", x) for x in RECV_FORBIDDEN]
            ops += [("s_junk", x) for x in range(3)]
            if self.ser is None:
                ops += [("r_junk", x) for x in range(3)]
        if self.bad and self.ser:
            ops += [("b", x) for x in range(len(BAD_ARRAYS) + 5)]
        return ops

    def pay(self):
        self.count += 1
        if self.habit == 1:
            return payload(0, "tok")
        shape = self.count % 5 if self.shape is None else self.shape
        if shape == PARADE:
            from mc.contents import BY_FORMAT
            pool = BY_FORMAT[self.ser or "json"]
            args, kwargs = pool[self.count % len(pool)]
            return {"args": args, "kwargs": kwargs}
        p = payload(shape, f"tok:{self.count}")
        if shape == 5 and self.ser in (None, "json"):
            p["args"][0]["n"][3] = "no bytes"       # JSON has none
        return p

    def make(self, name, **f):
        if self.habit != 1:
            return wire.build(name, **f)
        key = name, repr(f)
        if key not in self.made:
            self.made[key] = wire.build(name, **f)
        return self.made[key]

    def step(self, op):
        self.last = "-"
        self.noise = 0
        if op[0] == "n":
            self.noise, op = op[1], op[2:]
        if op[0] == "f":
            return self.failing(op[1:])
        getattr(self, "op_" + op[0])(*op[1:])

    def failing(self, op):
        """The same send, with a serializer that cannot encode the message."""
        self.serializer.fail = (ValueError, TypeError, RuntimeError)[self.count % 3]("cannot encode")
        msg, _, _ = self.build(op)
        msg = self.noisily(msg)
        try:
            out = self.s.send_message(msg)
        except Exception:
            self.last = "send failed"
        else:
            raise Mismatch("C13", f"{op!r}: a message that cannot be encoded was sent as {out!r}")
        finally:
            self.serializer.fail = None

    # ---- sending
    def noisily(self, msg):
        if not self.noise or not isinstance(msg, wire.messages.Message):
            return msg
        name = wire.type_name(msg)
        if name in ("Hello", "Welcome"):
            return msg
        return wire.make(name, **wire.with_word(self.noise, name, wire.fields(msg)))

    def build(self, op):
        """(message, allowed: True/False/None for either, tags)"""
        kind, ids = op[0], self.ids
        if kind == "s_call":
            opts = ({}, {"receive_progress": True}, {"progress": True})[self.count % 3]
            return self.make("Call", request_id=ids.req[op[1]], procedure="com.p" if self.text is None else self.text, options=opts, **self.pay()), True, "C11"
        if kind == "s_reg":
            return self.make("Register", request_id=ids.req[op[1]], procedure="com.p" if self.text is None else self.text), True, "C11"
        if kind == "s_unreg":
            return self.make("Unregister", request_id=ids.req[op[1]], registration_id=ids.reg[op[2]]), True, "C11"
        if kind == "s_pub":
            self.count += 1
            opts = {"acknowledge": True} if op[2] else ({}, {"acknowledge": False})[self.count % 2]
            return self.make("Publish", request_id=ids.req[op[1]], topic="com.t" if self.text is None else self.text, options=opts, **self.pay()), True, "C11"
        if kind == "s_sub":
            return self.make("Subscribe", request_id=ids.req[op[1]], topic="com.t" if self.text is None else self.text), True, "C11"
        if kind == "s_unsub":
            return self.make("Unsubscribe", request_id=ids.req[op[1]], subscription_id=ids.sub[op[2]]), True, "C11"
        if kind == "s_yield":
            self.count += 1
            opts = {"progress": True} if op[2] else ({}, {"progress": False})[self.count % 2]
            inv = ids.inv[op[1]]
            return self.make("Yield", request_id=inv, options=opts, **self.pay()), inv in self.invs, "C12"
        if kind == "s_err":
            inv = ids.inv[op[1]]
            # an ERROR for an invocation the session does not know may be let out or not, but has no effect
            return (self.make("Error", message_type=68, request_id=inv, uri=self.uri, **self.pay()),
                    True if inv in self.invs else None, "C12")
        if kind == "s_goodbye":
            return self.make("Goodbye", details={}, reason=self.reason), True, "C12"
        if kind == "s_error_code":
            return self.make("Error", message_type=op[1], request_id=ids.inv[op[2]], uri=self.uri), False, "C12"
        if kind == "s_other":
            return sample_message(op[1]), False, "C12"
        if kind == "s_junk":
            return (None, "x", object())[op[1]], False, "C12"
        raise AssertionError(op)

    def send(self, op):
        msg, allowed, tags = self.build(op)
        msg = self.noisily(msg)
        want = wire.copied(wire.to_array(wire.type_name(msg), wire.fields(msg))) if isinstance(msg, wire.messages.Message) else None
        try:
            out = self.s.send_message(msg)
        except ValueError as e:
            if allowed:
                raise Mismatch(tags, f"{op!r}: sending was refused: {e}")
            self.last = f"{op[0]} refused"
            return False
        except Exception as e:
            raise Mismatch(tags, f"{op!r}: sending ended with {type(e).__name__} ({e}) instead of ValueError")
        if allowed is False:
            raise Mismatch(tags, f"{op!r}: was sent as {out!r}, but must be refused")
        got = LOADS[self.ser or "json"](out)
        if not wire.same(got, json.loads(json.dumps(want)) if not self.ser or self.ser == "json" else want):
            raise Mismatch(tags, f"{op!r}: the frame says {got!r} instead of {want!r}")
        if self.habit == 2:
            scribble_message(msg)
        self.last = f"{op[0]} sent"
        return True

    def op_s_call(self, r):
        self.send(("s_call", r))
        self.open["call"][self.ids.req[r]] = None

    def op_s_reg(self, r):
        self.send(("s_reg", r))
        self.open["reg"][self.ids.req[r]] = None

    def op_s_unreg(self, r, g):
        self.send(("s_unreg", r, g))
        self.open["unreg"][self.ids.req[r]] = self.ids.reg[g]

    def op_s_pub(self, r, ack):
        self.send(("s_pub", r, ack))
        if ack:
            self.open["pub"][self.ids.req[r]] = None

    def op_s_sub(self, r):
        self.send(("s_sub", r))
        self.open["sub"][self.ids.req[r]] = None

    def op_s_unsub(self, r, g):
        self.send(("s_unsub", r, g))
        self.open["unsub"][self.ids.req[r]] = self.ids.sub[g]

    def op_s_yield(self, i, pr):
        if self.send(("s_yield", i, pr)) and not pr:
            self.invs.discard(self.ids.inv[i])

    def op_s_err(self, i):
        if self.send(("s_err", i)):
            self.invs.discard(self.ids.inv[i])

    def op_s_goodbye(self):
        self.send(("s_goodbye",))

    def op_s_error_code(self, code, r):
        self.send(("s_error_code", code, r))

    def op_s_other(self, name):
        self.send(("s_other", name))

    def op_s_junk(self, x):
        self.send(("s_junk", x))

    # ---- receiving
    def receive(self, tags, accept, name, **f):
        msg = self.make(name, **wire.with_word(self.noise, name, f))
        what = wire.show(msg)
        want = wire.copied(wire.fields(msg))
        try:
            if self.ser:
                out = self.s.receive(DUMPS[self.ser](wire.to_array(name, want)))
            else:
                out = self.s.receive_message(msg)
        except ValueError as e:
            if accept is True:
                raise Mismatch(tags, f"{what} must be accepted, but was rejected: {e}")
            self.last = f"{name} rejected"
            return False
        except Exception as e:
            raise Mismatch(tags, f"{what}: ended with {type(e).__name__} ({e})")
        if accept is False:
            raise Mismatch(tags, f"{what} must be rejected, but was accepted")
        if out is None or wire.type_name(out) != name or not wire.same(wire.fields(out), want):
            raise Mismatch(tags, f"{what} was returned as {wire.show(out)}")
        if self.habit == 2:
            scribble_message(out)
        self.last = f"{name} accepted"
        return True

    def op_r_result(self, r, pr):
        rid = self.ids.req[r]
        self.count += 1
        det = {"progress": True} if pr else ({}, {"progress": False})[self.count % 2]
        if self.receive("C11", rid in self.open["call"], "Result", request_id=rid, details=det, **self.pay_rx()):
            if not pr:
                del self.open["call"][rid]

    def pay_rx(self):
        p = self.pay()
        if p["args"] is None and p["kwargs"] is not None and self.ser:
            p["args"] = []
        if self.ser == "json":
            p = json.loads(json.dumps(p))
        return p

    def op_r_registered(self, r, g):
        rid = self.ids.req[r]
        if self.receive("C11", rid in self.open["reg"], "Registered", request_id=rid, registration_id=self.ids.reg[g]):
            del self.open["reg"][rid]
            self.regs.add(self.ids.reg[g])

    def op_r_unregistered(self, r):
        rid = self.ids.req[r]
        if self.receive("C11", rid in self.open["unreg"], "Unregistered", request_id=rid):
            self.regs.discard(self.open["unreg"].pop(rid))

    def op_r_unheld(self, name, r):
        """Confirms the end of what is not in force: may be accepted or rejected, but only the former has an effect."""
        rid = self.ids.req[r]
        kind = "unreg" if name == "Unregistered" else "unsub"
        if self.receive("C13", None, name, request_id=rid):
            del self.open[kind][rid]

    def op_r_inv(self, i, g):
        gid = self.ids.reg[g]
        if self.receive("C12", gid in self.regs, "Invocation", request_id=self.ids.inv[i], registration_id=gid,
                        **self.pay_rx()):
            self.invs.add(self.ids.inv[i])

    def op_r_published(self, r):
        rid = self.ids.req[r]
        if self.receive("C11", rid in self.open["pub"], "Published", request_id=rid, publication_id=self.pub_id):
            del self.open["pub"][rid]

    def op_r_subscribed(self, r, g):
        rid = self.ids.req[r]
        if self.receive("C11", rid in self.open["sub"], "Subscribed", request_id=rid, subscription_id=self.ids.sub[g]):
            del self.open["sub"][rid]
            self.subs.add(self.ids.sub[g])

    def op_r_unsubscribed(self, r):
        rid = self.ids.req[r]
        if self.receive("C11", rid in self.open["unsub"], "Unsubscribed", request_id=rid):
            self.subs.discard(self.open["unsub"].pop(rid))

    def op_r_event(self, g):
        gid = self.ids.sub[g]
        self.receive("C12", gid in self.subs, "Event", subscription_id=gid, publication_id=self.pub_id, **self.pay_rx())

    def op_r_error(self, kind, r):
        rid = self.ids.req[r]
        if self.receive("C11", rid in self.open[kind], "Error", message_type=REQ_CODES[kind], request_id=rid,
                        uri=self.uri, **self.pay_rx()):
            del self.open[kind][rid]

    def op_r_error_code(self, code, r):
        self.receive("C11", False, "Error", message_type=code, request_id=self.ids.req[r], uri=self.uri)

    def op_r_goodbye(self):
        self.receive("C12", True, "Goodbye", details={}, reason=self.reason)

    def op_r_abort(self):
        self.receive("C12", True, "Abort", details={}, reason=self.uri)

    def op_r_other(self, name):
        msg = sample_message(name)
        self.receive("C12", False, name, **wire.fields(msg))

    def op_r_junk(self, x):
        self.last = "junk rejected"
        try:
            out = self.s.receive_message((None, "x", object())[x])
        except ValueError:
            return
        except Exception as e:
            raise Mismatch("C12", f"receiving junk ended with {type(e).__name__} ({e})")
        raise Mismatch("C12", f"receiving junk returned {out!r}")

    def op_b(self, x):
        """A frame that is no message, or no frame at all."""
        if x < len(BAD_ARRAYS):
            frame = DUMPS[self.ser](BAD_ARRAYS[x])
        else:
            whole = DUMPS[self.ser]([50, self.ids.req[0], {}])
            frame = [whole[:-1], whole[:1], whole[:0], whole + whole[:1], whole[1:]][x - len(BAD_ARRAYS)]
        try:
            out = self.s.receive(frame)
        except Exception:
            self.last = "bad frame rejected"
            return
        raise Mismatch("C13 C20 C21", f"bad frame {frame!r} was accepted as {wire.show(out)}")

    def rejected(self):
        return any(x in self.last for x in ("rejected", "refused", "failed"))

    def refresh(self, k):
        """From now on, IDs never used before take the place of those that mean nothing to the model at present."""
        ids = self.ids = IDs(self.ids.req, self.ids.reg, self.ids.sub, self.ids.inv)
        targets = list(self.open["unreg"].values()), list(self.open["unsub"].values())
        far = 1000 * (k + 1)
        self.pub_id = far + 800
        if not any(self.open.values()):
            ids.req = tuple(far + r for r in range(1, self.n + 1))
        if not self.invs:
            ids.inv = tuple(far + 200 + r for r in range(1, self.n + 1))
        if not self.regs and not targets[0]:
            ids.reg = tuple(far + 400 + r for r in range(1, self.n + 1))
        if not self.subs and not targets[1]:
            ids.sub = tuple(far + 600 + r for r in range(1, self.n + 1))

    # ---- state
    def impl(self):
        return self.s

    def model_key(self):
        return ({k: sorted(v.items(), key=repr) for k, v in self.open.items()}, sorted(self.regs), sorted(self.subs),
                sorted(self.invs))

    def canon(self):
        model = ({k: sorted(v.items(), key=repr) for k, v in self.open.items()}, sorted(self.regs), sorted(self.subs),
                 sorted(self.invs))
        return snapshot((self.s, model), ordered=False)

    def outcome(self):
        return self.last


def _accepted(w):
    return not w.rejected()


FaultSession = differential(SessionWorld, "C13", _accepted)
FaultSession.__module__ = __name__
FaultSession.__qualname__ = FaultSession.__name__ = "FaultSession"
