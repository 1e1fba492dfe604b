"""Damaged frames at client sessions and joiners (part of C21)."""
from mc import codec, wire
from mc.core import pmap
from wampproto import auth
from wampproto.exception import ApplicationError
from wampproto.joiner import Joiner
from wampproto.session import WAMPSession

# genuine frames, in an order in which every one of them is accepted
SESSION_FRAMES = [
    ("Result", dict(request_id=7, args=["a"], kwargs={"k": 1}, details={"progress": True})),
    ("Result", dict(request_id=7, args=[1])),
    ("Error", dict(message_type=48, request_id=9, uri="com.err", args=[1])),
    ("Registered", dict(request_id=5, registration_id=15)),
    ("Invocation", dict(request_id=21, registration_id=10, args=["x"])),
    ("Invocation", dict(request_id=22, registration_id=15, args=[], kwargs={"k": None})),
    ("Subscribed", dict(request_id=6, subscription_id=16)),
    ("Event", dict(subscription_id=11, publication_id=99, args=["x"])),
    ("Event", dict(subscription_id=16, publication_id=98)),
    ("Published", dict(request_id=8, publication_id=97)),
    ("Unsubscribed", dict(request_id=12)),
    ("Unregistered", dict(request_id=13)),
    ("Goodbye", dict(details={}, reason="wamp.close.normal")),
]
SENT = [
    ("Register", dict(request_id=2, procedure="p2")), ("Subscribe", dict(request_id=3, topic="t3")),
    ("Register", dict(request_id=5, procedure="p5")), ("Subscribe", dict(request_id=6, topic="t6")),
    ("Call", dict(request_id=7, procedure="p", options={"receive_progress": True})), ("Call", dict(request_id=9, procedure="p")),
    ("Publish", dict(request_id=8, topic="t", options={"acknowledge": True})),
]
LATER = [("Unsubscribe", dict(request_id=12, subscription_id=11)), ("Unregister", dict(request_id=13, registration_id=10))]
JOINER_FRAMES = [
    ("Challenge", dict(authmethod="ticket", extra={"a": 1})),
    ("Welcome", dict(session_id=77, roles={"dealer": {}, "broker": {}}, authid="joe", authrole="user", authmethod="ticket")),
    ("Abort", dict(details={}, reason="com.no", args=["x"])),
]


def encode(ser, name, f):
    return codec.DUMPS[ser](wire.to_array(name, wire.fields(wire.make(name, **f))))


def damaged_endpoints(c, judge_frame):
    jobs = [("session", ser, i) for ser in wire.SERIALIZERS for i in range(len(SESSION_FRAMES))]
    jobs += [("joiner", ser, i) for ser in wire.SERIALIZERS for i in range(len(JOINER_FRAMES))]

    def run(job):
        kind, ser, i = job
        cls = SessionProbe if kind == "session" else JoinerProbe
        name, f = (SESSION_FRAMES if kind == "session" else JOINER_FRAMES)[i]
        n = 0
        probe = cls(ser)
        probe.until(i)
        bad = probe.rest(i)
        if bad:
            return n, (kind, ser, encode(ser, name, f), f"without any damaged frame: {bad}")
        for frame in codec.damages(ser, encode(ser, name, f), c.thorough):
            n += 1
            probe = cls(ser)
            probe.until(i)
            accepted = probe.feed(frame)
            if accepted:
                text, ok = judge_frame(wire.SERIALIZERS[ser](), ser, frame)
                if text or not ok:
                    return n, (kind, ser, frame, text or "accepted although it is no frame of one well-formed message")
                continue
            bad = probe.rest(i)
            if bad:
                return n, (kind, ser, frame, f"after this frame was rejected: {bad}")
        return n, None

    for job, (n, bad) in zip(jobs, pmap(run, jobs, chunk=1)):
        c.counts["evaluations"] += n
        c.counts[f"damaged frames at a {job[0]}"] += n
        if bad:
            kind, ser, frame, text = bad
            c.violation(f"damaged frame at a {kind}", {"serializer": ser, "frame": frame if isinstance(frame, str) else frame.hex()},
                        f"{kind} {ser} {frame!r}: {text}")


class SessionProbe:
    def __init__(self, ser):
        self.ser = ser
        self.s = WAMPSession(wire.SERIALIZERS[ser]())
        for name, f in SENT:
            self.s.send_message(wire.make(name, **f))
        for name, f in (("Registered", dict(request_id=2, registration_id=10)), ("Subscribed", dict(request_id=3, subscription_id=11))):
            self.s.receive(encode(ser, name, f))
        self.later = False

    def genuine(self, i):
        name, f = SESSION_FRAMES[i]
        if name == "Unsubscribed" and not self.later:
            self.later = True
            for n, g in LATER:
                self.s.send_message(wire.make(n, **g))
        try:
            out = self.s.receive(encode(self.ser, name, f))
        except Exception as e:
            return f"the genuine {name} {f} was rejected: {type(e).__name__} {e}"
        if wire.type_name(out) != name or not wire.same(wire.fields(out), wire.fields(wire.make(name, **f))):
            return f"the genuine {name} {f} was returned as {wire.show(out)}"

    def until(self, i):
        for k in range(i):
            self.genuine(k)
        if SESSION_FRAMES[i][0] in ("Unsubscribed", "Unregistered") and not self.later:
            self.later = True
            for n, g in LATER:
                self.s.send_message(wire.make(n, **g))

    def feed(self, frame):
        try:
            self.s.receive(frame)
        except Exception:
            return False
        return True

    def rest(self, i):
        for k in range(i, len(SESSION_FRAMES)):
            bad = self.genuine(k)
            if bad:
                return bad
        # what was answered stays answered, and what was never asked stays rejected
        for k in (1, 2, 3, 6, 9, 10, 11):
            if self.feed(encode(self.ser, *SESSION_FRAMES[k])):
                return f"{SESSION_FRAMES[k]} was accepted a second time"
        for name, f in (("Event", dict(subscription_id=11, publication_id=1)), ("Invocation", dict(request_id=23, registration_id=10)),
                        ("Result", dict(request_id=1)), ("Event", dict(subscription_id=5, publication_id=1))):
            if self.feed(encode(self.ser, name, f)):
                return f"{name} {f} was accepted"
        for req in (21, 22):
            try:
                self.s.send_message(wire.make("Yield", request_id=req, args=[1]))
            except ValueError as e:
                return f"the answer to invocation {req} was refused: {e}"
            try:
                self.s.send_message(wire.make("Yield", request_id=req, args=[1]))
            except ValueError:
                continue
            return f"invocation {req} could be answered twice"
        return None


class JoinerProbe:
    def __init__(self, ser):
        self.ser = ser
        self.j = Joiner("realm1", wire.SERIALIZERS[ser](), auth.TicketAuthenticator("joe", "tick", {}))
        self.j.send_hello()

    def until(self, i):
        if i == 1:
            self.j.receive(encode(self.ser, *JOINER_FRAMES[0]))

    def feed(self, frame):
        try:
            self.j.receive(frame)
        except ApplicationError:
            return True     # an ABORT
        except Exception:
            return False
        return True

    def rest(self, i):
        try:
            self.j.get_session_details()
            return "session details are available"
        except Exception:
            pass
        try:
            if i != 1:
                out = self.j.receive(encode(self.ser, *JOINER_FRAMES[0]))
                name, f = wire.from_array(codec.decode(self.ser, out))
                if name != "Authenticate" or f["signature"] != "tick":
                    return f"the genuine CHALLENGE was answered with {out!r}"
            self.j.receive(encode(self.ser, *JOINER_FRAMES[1]))
            d = self.j.get_session_details()
        except Exception as e:
            return f"the handshake could not go on: {type(e).__name__} {e}"
        if (d.session_id, d.realm, d.authid, d.authrole) != (77, "realm1", "joe", "user"):
            return f"session details are {(d.session_id, d.realm, d.authid, d.authrole)}"
        return None
