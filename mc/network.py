"""C26: clients (joiner + session) and one router (acceptors + dealer + broker) joined by ordered links.

Every interleaving of client steps and deliveries is explored; what must come out is decided by a small model that
only looks at the order in which the router handles frames.
"""
import random

from mc import wire
from mc.core import Mismatch, snapshot
from mc.handshake import KEY_A, SECRET, TICKET, Server
from wampproto import auth, idgen
from wampproto.acceptor import Acceptor
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.joiner import Joiner
from wampproto.session import WAMPSession

M = wire.make
ROUTED = {"Call": "dealer", "Yield": "dealer", "Register": "dealer", "Unregister": "dealer", "Error": "dealer",
          "Subscribe": "broker", "Unsubscribe": "broker"}


def authenticator(method):
    return {"anonymous": lambda: auth.AnonymousAuthenticator("joe", {}), "ticket": lambda: auth.TicketAuthenticator("joe", TICKET, {}),
            "wampcra": lambda: auth.WAMPCRAAuthenticator("joe", SECRET, {}),
            "cryptosign": lambda: auth.CryptoSignAuthenticator("joe", KEY_A.encode().hex(), {})}[method]()


class Client:
    """A well-behaved application: runs its script in order, answers invocations, checks what it receives.

    Script steps: (register p [behaviour]) (unregister p) (subscribe t) (unsubscribe t) (publish t ack) (call p mode)
    (leave) (wait) (until p) -- (wait) is only done once nothing is outstanding, (until p) once the router has known
    p as a procedure or topic.  Registering and subscribing do not wait for
    the reply; unregister and unsubscribe wait until theirs has come.
    """

    def __init__(self, name, ser, script, method):
        self.name, self.ser, self.script, self.method = name, ser, tuple(tuple(s) for s in script), method
        serializer = wire.SERIALIZERS[ser]()
        self.joiner = Joiner("realm1", serializer, authenticator(method) if method else None)
        self.session = WAMPSession(serializer)
        self.ids = idgen.SessionScopeIDGenerator()
        self.state = "new"        # new, joining, joined, leaving, left
        self.pos = 0
        self.sent = {}            # request -> (kind, name, ...) still open
        self.regs, self.subs = {}, {}          # name -> ID, confirmed
        self.behave = {}          # procedure -> how it answers
        self.work = []            # invocations received and not answered: [inv, proc, chunks so far, progress wanted, got final chunk, step]
        self.call_chunks = 0      # chunks of the call under way still to be sent
        self.seq = 0

    def next_step(self):
        """The script step that may be done now, or None."""
        if self.state != "joined" or self.pos >= len(self.script):
            return None
        step = self.script[self.pos]
        if step[0] in ("unregister", "unsubscribe"):
            if any(x[0] in ("register", "subscribe", "unregister", "unsubscribe") and x[1] == step[1] for x in self.sent.values()):
                return None
            if step[1] not in (self.regs if step[0] == "unregister" else self.subs):
                return ("skip",)    # the registration was refused
        if step[0] == "wait" and (self.sent or self.work):
            return None
        if step[0] == "leave" and (self.sent or self.work):
            return None
        return step


class Network:
    picklable = True

    def __init__(self, clients, handshakes=False, seed=7):
        random.seed(seed)
        self.server = Server(pubkeys=None)
        self.dealer, self.broker = Dealer(), Broker()
        self.c = [Client(f"c{i}", **spec) for i, spec in enumerate(clients)]
        self.acceptors = [Acceptor(wire.SERIALIZERS[c.ser](), self.server if c.method else None) for c in self.c]
        self.up, self.down = [[] for _ in self.c], [[] for _ in self.c]
        self.sid = [None] * len(self.c)      # attached session IDs as the router sees them
        # the model: what the router has handled so far
        self.reg_of, self.sub_of = {}, {}    # procedure -> (client, behaviour); topic -> [clients]
        self.reg_ids, self.sub_ids = {}, {}
        self.expect = {}                     # (client, request) -> list of replies still to come, known once the router handled it
        self.events = [[] for _ in self.c]   # events still to come, in order
        self.calls = {}                      # (client, request) -> [callee, procedure, chunks received]
        self.hops = [0] * len(self.c)        # handshake frames handled so far
        self.last = "-"
        if not handshakes:
            for i in range(len(self.c)):
                self.op_join(i)
                while self.up[i] or self.down[i]:
                    self.op_up(i) if self.up[i] else self.op_down(i)

    # ---- exploration interface
    def enabled(self):
        ops = []
        for i, c in enumerate(self.c):
            if c.state == "new":
                ops.append(("join", i))
            step = c.next_step()
            if step and (step[0] != "until" or step[1] in self.reg_ids or step[1] in self.sub_ids):
                ops.append(("act", i))
            for k, w in enumerate(c.work):
                if c.state != "joined":
                    break       # whoever has said GOODBYE sends nothing more
                if w[4] or w[5] > 0:
                    ops.append(("answer", i, k))
            if c.call_chunks:
                ops.append(("chunk", i))
            if self.up[i]:
                ops.append(("up", i))
            if self.down[i]:
                ops.append(("down", i))
        return ops

    def step(self, op):
        self.last = "-"
        getattr(self, "op_" + op[0])(*op[1:])
        if not self.enabled():
            self.quiescent()

    def outcome(self):
        return self.last

    def canon(self):
        """Frames are compared by what they decode to, generated IDs by what they name.

        A handshake is compared by how far it has come: given its client it has only one course.
        """
        names = {s: f"session {i}" for i, s in enumerate(self.sid) if s}
        for kind, ids in (("reg", self.reg_ids.items()), ("sub", [(t, [x]) for t, x in self.sub_ids.items()])):
            names.update({x: (kind, name, n) for name, xs in ids for n, x in enumerate(xs)})
        links = [(len(up), len(down)) if self.sid[i] is None and c.state in ("new", "joining") else
                 ([self.plain(i, f, False) for f in up], [self.plain(i, f, c.state == "joining" and n == 0) for n, f in enumerate(down)])
                 for i, (c, up, down) in enumerate(zip(self.c, self.up, self.down))]
        clients = [(c.session, c.ids, c.state, c.pos, c.sent, c.regs, c.subs, c.work, c.call_chunks) for c in self.c]
        return snapshot((clients, self.hops, self.dealer, self.broker, links, self.sid, self.reg_of, self.sub_of, self.reg_ids,
                         self.sub_ids, self.expect, self.events, self.calls), names, (1000, 2**53))

    def plain(self, i, frame, welcome):
        if welcome:
            return "WELCOME"
        m = wire.SERIALIZERS[self.c[i].ser]().deserialize(frame)
        return [wire.type_name(m), wire.fields(m)]

    def wrong(self, text):
        raise Mismatch("C26", text)

    # ---- client side
    def op_join(self, i):
        c = self.c[i]
        c.state = "joining"
        self.up[i].append(c.joiner.send_hello())
        self.last = "join"

    def send(self, i, msg):
        c = self.c[i]
        try:
            frame = c.session.send_message(msg)
        except Exception as e:
            self.wrong(f"{c.name}: its own session refuses to send {wire.show(msg)}: {type(e).__name__} {e}")
        self.up[i].append(frame)

    def op_act(self, i):
        c = self.c[i]
        step = c.next_step()
        c.pos += 1
        self.last = f"act {step[0]}"
        kind = step[0]
        if kind in ("skip", "wait", "until"):
            return
        if kind == "leave":
            c.state = "leaving"
            return self.send(i, M("Goodbye", details={}, reason="wamp.close.normal"))
        r = c.ids.next()
        if kind == "register":
            c.behave[step[1]] = step[2] if len(step) > 2 else "echo"
            c.sent[r] = (kind, step[1])
            self.send(i, M("Register", request_id=r, procedure=step[1]))
        elif kind == "unregister":
            c.sent[r] = (kind, step[1])
            self.send(i, M("Unregister", request_id=r, registration_id=c.regs[step[1]]))
        elif kind == "subscribe":
            c.sent[r] = (kind, step[1])
            self.send(i, M("Subscribe", request_id=r, topic=step[1]))
        elif kind == "unsubscribe":
            c.sent[r] = (kind, step[1])
            self.send(i, M("Unsubscribe", request_id=r, subscription_id=c.subs[step[1]]))
        elif kind == "publish":
            ack = bool(step[2]) if len(step) > 2 else True
            if ack:
                c.sent[r] = (kind, step[1])
            self.send(i, M("Publish", request_id=r, topic=step[1], args=[c.name, r, "\u00fc", None], kwargs={"n": {"deep": [r]}},
                           options={"acknowledge": True} if ack else {}))
        elif kind == "call":
            mode = step[2] if len(step) > 2 else "plain"
            options = {"receive_progress": True} if mode in ("progress", "both") else {}
            if mode in ("chunks", "both"):
                options["progress"] = True
                c.call_chunks = 2
            c.sent[r] = (kind, step[1], mode)
            self.send(i, M("Call", request_id=r, procedure=step[1], args=[c.name, r, 0], kwargs={"k": "\u00fc"}, options=options))

    def op_chunk(self, i):
        """The next chunk of the progressive call that was begun last."""
        c = self.c[i]
        r, (_, proc, mode) = [(r, s) for r, s in c.sent.items() if s[0] == "call" and len(s) > 2 and s[2] in ("chunks", "both")][-1]
        c.call_chunks -= 1
        options = {"receive_progress": True} if mode == "both" else {}
        if c.call_chunks:
            options["progress"] = True
        self.last = "chunk" if c.call_chunks else "final chunk"
        self.send(i, M("Call", request_id=r, procedure=proc, args=[c.name, r, 2 - c.call_chunks], kwargs={"k": "\u00fc"}, options=options))

    def op_answer(self, i, k):
        c = self.c[i]
        inv, proc, chunks, wants, final, left = c.work[k]
        if left > 0:
            c.work[k][5] -= 1
            self.last = "progressive yield"
            return self.send(i, M("Yield", request_id=inv, args=[proc, chunks, "part", left], options={"progress": True}))
        del c.work[k]
        if c.behave.get(proc) == "fail":
            self.last = "fails"
            return self.send(i, M("Error", message_type=68, request_id=inv, uri="com.failed", args=[proc, chunks], kwargs={"e": 1}))
        self.last = "yield"
        self.send(i, M("Yield", request_id=inv, args=[proc, chunks, c.name], kwargs={"of": [c.name]}))

    def op_down(self, i):
        """The oldest frame on the way to a client arrives."""
        c = self.c[i]
        frame = self.down[i].pop(0)
        if c.state == "joining":
            self.hops[i] += 1
            try:
                answer = c.joiner.receive(frame)
            except Exception as e:
                self.wrong(f"{c.name}: joiner rejects {frame!r}: {type(e).__name__} {e}")
            if answer is not None:
                self.up[i].append(answer)
                self.last = "authenticate"
            else:
                d = c.joiner.get_session_details()
                if d.session_id != self.sid[i] or d != self.acceptors[i].get_session_details():
                    self.wrong(f"{c.name}: joined as {d.session_id}, the router attached {self.sid[i]}")
                c.state = "joined"
                self.last = "joined"
            return
        try:
            msg = c.session.receive(frame)
        except Exception as e:
            self.wrong(f"{c.name}: session rejects {frame!r} which the router sent: {type(e).__name__} {e}")
        name = wire.type_name(msg)
        self.last = f"client gets {name}"
        f = wire.fields(msg)
        if name == "Goodbye":
            if c.state != "leaving":
                self.wrong(f"{c.name}: GOODBYE without leaving")
            c.state = "left"
        elif name == "Event":
            self.got_event(i, f)
        elif name == "Invocation":
            self.got_invocation(i, f)
        else:
            self.got_reply(i, name, f)

    def got_event(self, i, f):
        c = self.c[i]
        if not self.events[i]:
            self.wrong(f"{c.name}: unexpected EVENT {f}")
        want = self.events[i].pop(0)
        if not wire.same([f["subscription_id"], f["args"], f["kwargs"]], want):
            self.wrong(f"{c.name}: EVENT {f} instead of {want}")

    def got_invocation(self, i, f):
        c = self.c[i]
        proc = next((p for p, x in self.reg_ids.items() if f["registration_id"] in x), None)
        caller, r, n = f["args"]
        if not wire.same(f["kwargs"], {"k": "\u00fc"}) or proc is None:
            self.wrong(f"{c.name}: INVOCATION {f}")
        progress = bool(f["details"].get("progress"))
        wants = bool(f["details"].get("receive_progress"))
        for w in c.work:
            if w[0] == f["request_id"]:
                if w[4] or w[2][-1] != [caller, r, n - 1]:
                    self.wrong(f"{c.name}: chunk {f} after {w}")
                w[2] = w[2] + [[caller, r, n]]
                w[4] = not progress
                if w[4] and wants:
                    w[5] = 2
                return
        if n != 0:
            self.wrong(f"{c.name}: chunk {n} of a call arrives as a new invocation: {f}")
        c.work.append([f["request_id"], proc, [[caller, r, n]], wants, not progress, 2 if wants and not progress else 0])

    def got_reply(self, i, name, f):
        c = self.c[i]
        r = f["request_id"]
        if r not in c.sent:
            self.wrong(f"{c.name}: {name} for request {r} that is not open")
        kind, what = c.sent[r][:2]
        replies = self.expect.get((i, r), [])
        if not replies:
            self.wrong(f"{c.name}: {name} {f} for {kind} {what} before the router decided it")
        want = replies.pop(0)
        got = self.essence(name, f)
        if not wire.same(got, want):
            self.wrong(f"{c.name}: {kind} {what} gets {got} instead of {want}")
        if name == "Result" and f["details"].get("progress"):
            return
        if replies:
            self.wrong(f"{c.name}: {kind} {what} ends with {got} although {replies} are missing")
        del c.sent[r]
        self.expect.pop((i, r), None)
        if name == "Registered":
            c.regs[what] = f["registration_id"]
        elif name == "Unregistered":
            del c.regs[what]
        elif name == "Subscribed":
            c.subs[what] = f["subscription_id"]
        elif name == "Unsubscribed":
            del c.subs[what]

    @staticmethod
    def essence(name, f):
        """What a reply is compared by; generated IDs were recorded when the router made them."""
        out = [name] + [f[k] for k in ("message_type", "registration_id", "subscription_id", "publication_id", "uri", "args", "kwargs")
                        if k in f]
        if name == "Result":
            out.append(bool(f["details"].get("progress")))
        return out

    # ---- router side
    def op_up(self, i):
        """The router handles the oldest frame of a client."""
        c = self.c[i]
        frame = self.up[i].pop(0)
        a = self.acceptors[i]
        if self.sid[i] is None:
            if c.state == "left" or c.state == "leaving":
                self.wrong(f"frame {frame!r} after GOODBYE")
            self.hops[i] += 1
            try:
                reply, final = a.receive(frame)
            except Exception as e:
                self.wrong(f"acceptor of {c.name} rejects {frame!r}: {type(e).__name__} {e}")
            self.down[i].append(reply)
            self.last = "acceptor"
            if final:
                if a.is_aborted():
                    self.wrong(f"acceptor of {c.name} aborts: {reply!r}")
                d = a.get_session_details()
                self.sid[i] = d.session_id
                self.dealer.add_session(d)
                self.broker.add_session(d)
            return
        try:
            msg = wire.SERIALIZERS[c.ser]().deserialize(frame)
        except Exception as e:
            self.wrong(f"router cannot read {frame!r}: {type(e).__name__} {e}")
        name = wire.type_name(msg)
        self.last = f"router gets {name}"
        f = wire.fields(msg)
        sid = self.sid[i]
        try:
            if name == "Goodbye":
                out = self.dealer.remove_session(sid)
                self.broker.remove_session(sid)
            elif name == "Publish":
                out = self.broker.receive_publish(sid, msg)
            else:
                out = (self.dealer if ROUTED[name] == "dealer" else self.broker).receive_message(sid, msg)
        except Exception as e:
            self.wrong(f"router rejects {wire.show(msg)} of {c.name}: {type(e).__name__} {e}")
        if name == "Goodbye":
            self.handled_goodbye(i, out or [])
        elif name == "Publish":
            self.handled_publish(i, f, out)
        else:
            self.route(out)
            getattr(self, "handled_" + name.lower())(i, f, out)

    def route(self, out):
        if out is None or out.recipient not in self.sid or out.recipient is None:
            self.wrong(f"message {out!r} is for nobody attached")
        k = self.sid.index(out.recipient)
        self.down[k].append(wire.SERIALIZERS[self.c[k].ser]().serialize(out.message))
        return k

    def handled_register(self, i, f, out):
        p = f["procedure"]
        if p in self.reg_of:
            want = ["Error", 64, "wamp.error.procedure_already_exists", None, None]
        else:
            rid = getattr(out.message, "registration_id", None)
            self.reg_of[p] = i
            self.reg_ids.setdefault(p, []).append(rid)
            want = ["Registered", rid]
        self.expect[i, f["request_id"]] = [want]

    def handled_unregister(self, i, f, out):
        p = next(p for p, x in self.reg_ids.items() if f["registration_id"] in x)
        del self.reg_of[p]
        self.expect[i, f["request_id"]] = [["Unregistered"]]

    def handled_subscribe(self, i, f, out):
        t = f["topic"]
        s = getattr(out.message, "subscription_id", None)
        if self.sub_of.get(t) and s != self.sub_ids[t]:
            self.wrong(f"{self.c[i].name}: subscribed to {t} under {s}, the others under {self.sub_ids[t]}")
        self.sub_of.setdefault(t, []).append(i)
        self.sub_ids[t] = s
        self.expect[i, f["request_id"]] = [["Subscribed", s]]

    def handled_unsubscribe(self, i, f, out):
        t = next(t for t, s in self.sub_ids.items() if s == f["subscription_id"])
        self.sub_of[t].remove(i)
        self.expect[i, f["request_id"]] = [["Unsubscribed"]]

    def handled_publish(self, i, f, out):
        t = f["topic"]
        want = sorted(self.sub_of.get(t, []))
        got = sorted(self.sid.index(s) for s in (out.recipients or []))
        if got != want or bool(want) != (out.event is not None):
            self.wrong(f"{self.c[i].name}: publish to {t} reaches {got} instead of {want}")
        for s in out.recipients or []:
            k = self.sid.index(s)
            self.down[k].append(wire.SERIALIZERS[self.c[k].ser]().serialize(out.event))
            self.events[k].append([self.sub_ids[t], f["args"], f["kwargs"]])
        ack = bool(f["options"].get("acknowledge"))
        if ack != (out.ack is not None):
            self.wrong(f"{self.c[i].name}: acknowledgement {out.ack!r}")
        if ack:
            self.route(out.ack)
            p = getattr(out.ack.message, "publication_id", None)
            if out.event is not None and out.event.publication_id != p:
                self.wrong(f"{self.c[i].name}: EVENT {out.event.publication_id} acknowledged as {p}")
            self.expect[i, f["request_id"]] = [["Published", p]]

    def handled_call(self, i, f, out):
        p, r = f["procedure"], f["request_id"]
        key = (i, r)
        owner = self.reg_of.get(p)
        call = self.calls.get(key)
        if owner is None or call is not None and call[0] != owner:
            self.calls.pop(key, None)
            self.expect.setdefault(key, []).append(["Error", 48, "wamp.error.no_such_procedure", None, None])
            return
        self.expect.setdefault(key, [])
        if call is None:
            call = self.calls[key] = [owner, p, [], out.message.request_id]
        call[2] = call[2] + [f["args"]]
        if self.sid.index(out.recipient) != owner or out.message.request_id != call[3]:
            self.wrong(f"{self.c[i].name}: chunk {f['args']} goes to {out.recipient} as invocation {out.message.request_id}, not to {call}")

    def handled_yield(self, i, f, out):
        key = next((k for k, x in self.calls.items() if x[3] == f["request_id"] and x[0] == i), None)
        if key is None:
            self.wrong(f"{self.c[i].name}: answer to an unknown call is routed: {out!r}")
        progress = bool(f["options"].get("progress"))
        self.expect[key].append(["Result", f["args"], f["kwargs"], progress])
        if not progress:
            del self.calls[key]

    def handled_error(self, i, f, out):
        key = next((k for k, x in self.calls.items() if x[3] == f["request_id"] and x[0] == i), None)
        if key is None:
            self.wrong(f"{self.c[i].name}: failure of an unknown call is routed: {out!r}")
        self.expect[key].append(["Error", 48, f["uri"], f["args"], f["kwargs"]])
        del self.calls[key]

    def handled_goodbye(self, i, out):
        sid, self.sid[i] = self.sid[i], None
        for m in out:
            if m.recipient == sid:
                self.wrong(f"{self.c[i].name}: gets {m!r} after leaving")
            self.route(m)
        for p in [p for p, k in self.reg_of.items() if k == i]:
            del self.reg_of[p]
        for t in self.sub_of:
            if i in self.sub_of[t]:
                self.sub_of[t].remove(i)
        for key, call in list(self.calls.items()):
            if call[0] == i:
                del self.calls[key]
                self.expect[key].append(["Error", 48, "wamp.error.canceled", None, None])
        self.down[i].append(wire.SERIALIZERS[self.c[i].ser]().serialize(M("Goodbye", details={}, reason="wamp.close.goodbye_and_out")))

    # ---- the end
    def quiescent(self):
        self.last += ", end"
        for i, c in enumerate(self.c):
            if c.pos < len(c.script):
                self.wrong(f"{c.name}: stuck before {c.script[c.pos]}, open requests {c.sent}, invocations {c.work}")
            if c.sent:
                self.wrong(f"{c.name}: requests {c.sent} never got their reply")
            if self.events[i] and c.state != "left":
                self.wrong(f"{c.name}: events {self.events[i]} never came")
            if c.state not in ("joined", "left"):
                self.wrong(f"{c.name}: handshake ended {c.state}")
        for p in {s[1] for c in self.c for s in c.script if s[0] == "register"}:
            if self.dealer.has_registration(p) is not (p in self.reg_of):
                self.wrong(f"registration of {p}: {self.dealer.has_registration(p)}")
        for t in {s[1] for c in self.c for s in c.script if s[0] in ("subscribe", "publish")}:
            if self.broker.has_subscription(t) is not bool(self.sub_of.get(t)):
                self.wrong(f"subscription to {t}: {self.broker.has_subscription(t)}")
