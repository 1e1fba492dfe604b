"""Worlds over the dealer and the broker, with reference models of what each operation must produce."""
import copy

from mc import wire
from mc.core import Mismatch, Weak, snapshot
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.types import SessionDetails

IDS = (1, 450)  # generated IDs of a world; session and request IDs of the "apart" layout lie above

NO_SUCH_PROCEDURE = "wamp.error.no_such_procedure"
ALREADY_EXISTS = "wamp.error.procedure_already_exists"

PROCS = ("com.p", "com.q", "com.p.sub")
TOPICS = ("com.t", "com.u", "com.t.sub")


class Layout:
    """How abstract sessions and requests map to concrete IDs."""

    def __init__(self, name, sessions, requests, rename):
        self.name, self.sessions, self.requests, self.rename = name, sessions, requests, rename

    def session(self, i):
        return self.sessions[i] if i < len(self.sessions) else self.sessions[0] + 10 + i


APART = Layout("apart", (1001, 1002, 1003, 1004), (501, 502, 503), True)
# session and request IDs coincide with each other and with the IDs the router generates
COLLIDE = Layout("collide", (1, 2, 3, 4), (1, 2, 3), False)
# big and boundary IDs
HUGE = Layout("huge", (2**53, 2**53 - 1, 2**32, 2**31), (2**53, 1, 2**32 + 1), True)
# IDs whose decimal forms, written one after the other or together with a name, read alike
JOINED = Layout("joined", (7001, 70017001, 1), (7001, 70017001, 17001, 70011), True)
JOINED_NAMES = ("x", "7001x", "x7001", "7001", "x,7001", "7001.x")
# caller * K + request, for the usual K, and request modulo K, read alike
KS = (2, 3, 10, 16, 64, 100, 256, 1000, 1024, 4096, 10_000, 2**16, 10**5, 2**20, 10**6, 2**24, 2**31, 2**32, 10**9, 2**48)
# and the usual multipliers of hash functions, with + and with ^ (1001 * k ^ 1 is 1002 * k ^ this)
PRIMES = (31, 33, 37, 97, 101, 131, 997, 1009, 9973, 10007, 65537, 65599, 1000003, 999_983, 10**9 + 7, 2**31 - 1)
ODD = tuple(dict.fromkeys(PRIMES + tuple(((1001 * k) ^ (1002 * k) ^ 1) - 1 for k in KS + PRIMES)))
XORED = Layout("xored", (1001, 1002, 2001), (1,) + tuple(1 + k for k in ODD), True)
PACKED = Layout("packed", (1001, 1002, 2001), (1,) + tuple(1 + k for k in KS), True)
MANY = Layout("many", tuple(range(1001, 1041)), tuple(range(501, 541)), True)
LAYOUTS = {x.name: x for x in (APART, COLLIDE, HUGE, JOINED, PACKED, XORED, MANY)}


def crowded(n):
    return Layout("crowd", tuple(range(1_000_001, 1_000_001 + n)), tuple(range(5_000_001, 5_000_001 + n)), True)


def details_of(sid):
    """Every other session has the same authid; nobody said that they differ."""
    return SessionDetails(sid, "realm1", f"user{sid % 2}", "role")


ERROR_URIS = (NO_SUCH_PROCEDURE, "", "wamp.error.canceled", ALREADY_EXISTS, "wamp.error.runtime_error", "com.f\u00fcr.\u7801 x")

PAYLOADS = [
    dict(args=["A"], kwargs={"k": "A"}),
    dict(args=["A"]),
    dict(kwargs={"k": "A"}),
    dict(),
    dict(args=[], kwargs={}),
    dict(args=[{"n": ["A", None, 1.5, b"\x00\xff", True]}, "A"], kwargs={"k": {"m": ["A"]}, "": "A", "q": [1, 2]}),
]


CONTENT = 1_000_000     # shapes from here on are those of mc/contents.py


def payload(shape, token):
    """A fresh payload of the given shape with a unique token in it."""

    if shape >= CONTENT:
        from mc.contents import CONTENTS
        args, kwargs = CONTENTS[shape - CONTENT]
        return {"args": args, "kwargs": kwargs}

    def fill(v):
        if v == "A":
            return token
        if isinstance(v, list):
            return [fill(x) for x in v]
        if isinstance(v, dict):
            return {k: fill(x) for k, x in v.items()}
        return v

    p = {k: fill(v) for k, v in PAYLOADS[shape % len(PAYLOADS)].items()}
    return {"args": p.get("args"), "kwargs": p.get("kwargs")}


def binary_of(kind, token):
    """Opaque payload parameters; kind 0 has none."""
    if kind == 0:
        return {}
    if kind == 1:
        return dict(payload=token.encode(), serializer=3, binary=True)
    if kind == 2:
        return dict(payload=token.encode(), serializer=1, binary=False)
    return dict(payload=b"", serializer=0, binary=True)


def describe(out):
    """Everything an application can see of what the router handed out, by value."""
    if isinstance(out, (list, tuple)):
        return [describe(x) for x in out]
    if out is None or not hasattr(out, "recipient") and not hasattr(out, "recipients"):
        return copy.deepcopy(wire.fields(out)) if hasattr(out, "TYPE") else None
    if hasattr(out, "recipient"):
        return [wire.type_name(out.message), copy.deepcopy(wire.fields(out.message)), out.recipient]
    return [describe(out.event), None if out.recipients is None else sorted(out.recipients), describe(out.ack)]


def scribble(out):
    """The application that received it uses it as its own."""
    if isinstance(out, list):
        for x in out:
            scribble(x)
        out.append("scribble")
    elif out is not None and hasattr(out, "recipient"):
        scribble_message(out.message)
    elif out is not None:
        if isinstance(out.recipients, list):
            out.recipients.append(424242)
        for m in (out.event, out.ack and out.ack.message):
            if m is not None:
                scribble_message(m)


def scribble_message(msg):
    for v in wire.fields(msg).values():
        if type(v) is dict:
            v["scribble"] = True
        elif type(v) is list:
            v.append("scribble")


class RouterWorld:
    """Shared by dealer and broker: attached sessions, tokens, rejection handling, comparisons."""

    picklable = True

    def __init__(self, layout, nsessions, fresh_sids=False, same=0, keep=0):
        self.same = same            # 1: all messages of a kind say the same, 2: they are even the same objects
        self.keep = keep            # 1: what was handed out must not change later, 2: the application writes into it
        self.kept, self.made = [], {}
        self.layout = layout
        self.sids = [layout.session(i) for i in range(nsessions)]
        self.fresh_sids = fresh_sids  # a session that attaches again gets an ID never used before
        self.seen = set()
        self.attached = set()
        self.n = 0
        self.used = {}  # kind of ID -> all IDs of that kind handed out so far
        self.last = "-"
        self.noisy, self.noise = (), 0
        self.far = 0

    def few(self, of):
        """The sessions, names or requests that have operations of their own."""
        return range(len(of))

    def tok(self):
        self.n += 1
        return "tok:0" if self.same else f"tok:{self.n}"

    @property
    def turn(self):
        """What changes from step to step."""
        return 0 if self.same else self.n

    def enabled(self):
        ops = self.plain()
        if self.noisy:
            ops += [("n", k) + op for op in ops for k in self.noisy
                    if op[0] in ("reg", "call", "yield", "err", "sub", "pub")]
        return ops

    def perform(self, op):
        self.last = "-"
        self.noise = 0
        if op[0] == "n":
            self.noise, op = op[1], op[2:]
        held = len(self.kept)
        getattr(self, "op_" + op[0])(*op[1:])
        if self.keep:
            for what, out, told in self.kept[:held]:
                if not wire.same(describe(out), told):
                    raise Mismatch(self.kept_tags, f"{what} had handed out {told}, which after {op!r} is {describe(out)}")
            if self.keep == 2:
                for k in self.kept:
                    scribble(k[1])
                self.kept = []

    def make(self, name, **f):
        """The message, with whatever else its options or details say at this step."""
        if self.same == 2:
            key = name, self.noise, repr(f)
            if key not in self.made:
                self.made[key] = wire.build(name, **wire.with_noise(self.noise, name, f))
            return self.made[key]
        return wire.build(name, **wire.with_noise(self.noise, name, f))

    def call_impl(self, tags, what, fn, *args):
        """Runs one call into the implementation; only ValueError counts as a rejection."""
        try:
            return True, fn(*args)
        except ValueError as e:
            return False, e
        except Exception as e:
            raise Mismatch(tags + " C08", f"{what}: rejected with {type(e).__name__} ({e}) instead of ValueError")

    def must_reject(self, tags, what, fn, *args):
        ok, out = self.call_impl(tags, what, fn, *args)
        if ok:
            raise Mismatch(tags, f"{what}: must be rejected, but was answered with {self.show(out)}")
        self.last = "reject"

    def must_accept(self, tags, what, fn, *args):
        ok, out = self.call_impl(tags, what, fn, *args)
        if not ok:
            raise Mismatch(tags, f"{what}: must be accepted, but was rejected: {out}")
        if self.keep and out is not None:
            self.kept.append((what, out, describe(out)))
        return out

    @staticmethod
    def show(out):
        if out is None:
            return "nothing"
        if hasattr(out, "recipient"):
            return f"{wire.show(out.message)} to {out.recipient}"
        return repr(out)

    def expect(self, tags, what, out, kind, recipient, binary=None, **fields):
        """out is one message of the given kind with exactly these fields for exactly that recipient."""
        if out is None or not hasattr(out, "recipient"):
            raise Mismatch(tags, f"{what}: no message")
        msg = out.message
        if wire.type_name(msg) != kind:
            raise Mismatch(tags, f"{what}: expected {kind} but got {self.show(out)}")
        if not wire.same(out.recipient, recipient):
            if out.recipient not in self.attached:
                tags += " C05"
            raise Mismatch(tags, f"{what}: {kind} is addressed to {out.recipient} instead of {recipient}")
        got = wire.fields(msg)
        for k, v in fields.items():
            g = got[k]
            if k == "details" and kind != "Error":
                g = {a: b for a, b in g.items() if not (a in ("progress", "receive_progress") and b is False)}
                if self.noise:
                    g = {a: b for a, b in g.items() if a in ("progress", "receive_progress", "x_payload_serializer")}
            if callable(v):
                if not v(g):
                    raise Mismatch(tags, f"{what}: wrong {k} in {self.show(out)}")
            elif not wire.same(g, v):
                raise Mismatch(tags, f"{what}: {k} is {g!r} instead of {v!r} in {self.show(out)}")
        if binary is not None and not wire.same(wire.binary(msg), binary):
            raise Mismatch(tags, f"{what}: binary payload is {wire.binary(msg)} instead of {binary}")
        for k in ("request_id", "registration_id", "subscription_id", "publication_id"):
            v = got.get(k, 1)
            if type(v) is not int or not 1 <= v <= wire.ID_MAX:
                raise Mismatch(tags, f"{what}: {k} is {v!r}, not an ID")
        return msg

    def fresh(self, tags, what, kind, value):
        used = self.used.setdefault(kind, set())
        if value in used:
            raise Mismatch(tags, f"{what}: the {kind} ID {value} was used before")
        used.add(value)

    # ---- attach/detach
    def do_attach(self, router, i, tags):
        sid = self.sids[i]
        what = f"attach {sid}"
        if sid in self.attached:
            self.must_reject(tags, what, router.add_session, details_of(sid))
            return
        if self.fresh_sids and sid in self.seen:
            self.sids[i] = sid = 5000 + 10 * len(self.seen) + i
        self.must_accept(tags, what, router.add_session, details_of(sid))
        self.seen.add(sid)
        self.attached.add(sid)
        self.last = "attach"

    def rejected(self):
        return self.last == "reject"

    def refresh(self, k):
        """From now on, IDs and names never used before take the place of those that mean nothing to the model at present."""
        for i, sid in enumerate(self.sids):
            if sid not in self.attached:
                self.sids[i] = 100_000 + 10 * k + i
        self.far = 10_000 + 10 * k
        self.renew(k)

    def newest(self):
        return max((max(v) for v in self.used.values()), default=0)

    def outcome(self):
        return self.last


class DealerWorld(RouterWorld):
    """Dealer against the model: who is attached, who owns which procedure, which calls are open."""

    kept_tags = "C01 C02 C03 C04 C05"

    def __init__(self, layout=APART, nsessions=3, nprocs=2, nreqs=1, max_calls=2, flags=((0, 0),), kinds=None,
                 shapes=None, errs=None, unordered=False, attach=0, binaries=(0,), others=(), max_regs=9, yields=(0, 1), fresh_sids=False,
                 noise=False, same=0, keep=0):
        super().__init__(layout, nsessions, fresh_sids, same, keep)
        self.noisy = wire.IRRELEVANT if noise is True else noise or ()
        self.dealer = Dealer()
        self.procs = PROCS[:nprocs] if isinstance(nprocs, int) else tuple(nprocs)
        self.reqs = layout.requests[:nreqs]
        self.max_calls, self.max_regs = max_calls, max_regs
        self.flags = flags          # (receive_progress, progress) of the calls tried
        self.kinds = kinds          # operation kinds enabled
        self.shapes = shapes        # payload shapes tried as operations of their own (None: rotate)
        self.errs = errs or shapes  # the same for ERROR, with one of ERROR_URIS each
        self.binaries = binaries
        self.unordered = unordered
        self.others = others
        self.yields = yields
        self.regs = {}              # procedure -> (sid, registration ID)
        self.calls = {}             # (caller, request) -> dict
        self.dead_regs = {}         # session -> its registration that ended last
        self.dead_invs = {}         # session -> invocation it finished last
        for i in range(attach):
            self.do_attach(self.dealer, i, "any")

    # ---- operations
    def plain(self):
        ops = []
        n, on = len(self.sids), self.on
        P, Q = self.few(self.procs), self.few(self.reqs)
        for i in self.few(self.sids):
            if on("attach"):
                ops.append(("attach", i))
            if on("detach"):
                ops.append(("detach", i))
            for p in P:
                if on("reg") and (len(self.regs) < self.max_regs or self.procs[p] in self.regs):
                    ops.append(("reg", i, p))
                if on("unreg") and self.procs[p] in self.regs:
                    ops.append(("unreg", i, ("reg", p)))
            if on("unreg"):
                if i in self.dead_regs:
                    ops.append(("unreg", i, ("dead", i)))
                if on("stale"):
                    ops.append(("unreg", i, ("bogus",)))
            for p in P:
                for r in Q:
                    if not on("call"):
                        continue
                    open_ = self.calls.get((self.sids[i], self.reqs[r]))
                    for rp, pr in self.flags:
                        if open_ is None and len(self.calls) >= self.max_calls:
                            continue
                        if open_ is not None and open_["more"] and (open_["p"] != p or open_["rp"] != rp):
                            continue
                        for s in self.shapes or (None,):
                            for b in self.binaries:
                                ops.append(("call", i, p, r, rp, pr, s, b))
            handles = [("c", j, r) for j in self.few(self.sids) for r in Q if (self.sids[j], self.reqs[r]) in self.calls]
            if on("stale"):
                handles.append(("bogus",))
                handles += [("dead", j) for j in range(n) if j in self.dead_invs and j in (i, (i + 1) % n)]
                handles += [("regid", p) for p in P if self.procs[p] in self.regs][:1]
            for h in handles:
                mine = h[0] == "c" and self.calls[(self.sids[h[1]], self.reqs[h[2]])]["callee"] == self.sids[i]
                if on("yield"):
                    for pr in self.yields if mine else self.yields[:1]:
                        for s in (self.shapes or (None,)) if mine else (None,):
                            for b in self.binaries if mine else self.binaries[:1]:
                                ops.append(("yield", i, h, pr, s, b))
                if on("err"):
                    for s in (self.errs or (None,)) if mine else (None,):
                        ops.append(("err", i, h, s))
                    if mine and on("stale"):
                        ops.append(("err_as", i, h, 48))
            for o in self.others:
                ops.append(("other", i, o))
        return ops

    def on(self, kind):
        return self.kinds is None or kind in self.kinds

    def renew(self, k):
        if not self.calls:
            self.reqs = tuple(self.far + 500 + j for j in range(len(self.reqs)))
            self.procs = tuple(p if p in self.regs else f"com.new{k}.{j}" for j, p in enumerate(self.procs))

    def inv_id(self, h):
        if h[0] == "c":
            return self.calls[(self.sids[h[1]], self.reqs[h[2]])]["inv"]
        if h[0] == "dead":
            return self.dead_invs[h[1]]
        if h[0] == "regid":
            return self.regs[self.procs[h[1]]][1]
        return 449

    def find_inv(self, inv):
        for k, c in self.calls.items():
            if c["inv"] == inv:
                return k, c
        return None, None

    def flag(self, name, on):
        """Options with the flag set, or left out or set to False alternately."""
        if on:
            return {name: True}
        return {} if self.turn % 2 else {name: False}

    def send(self, sid, msg):
        return self.dealer.receive_message, sid, msg

    def step(self, op):
        self.perform(op)
        self.queries(op)

    def queries(self, op):
        for p in self.procs:
            want, got = p in self.regs, self.dealer.has_registration(p)
            if got is not want:
                raise Mismatch("C04", f"after {op!r}: has_registration({p!r}) is {got!r}")
        for p in {"com.none", ""} - set(self.procs):
            if self.dealer.has_registration(p) is not False:
                raise Mismatch("C04", f"after {op!r}: has_registration({p!r}) of a procedure never registered")

    def op_attach(self, i):
        self.do_attach(self.dealer, i, "C05 C04 C08")

    def op_detach(self, i):
        sid = self.sids[i]
        what = f"detach {sid}"
        if sid not in self.attached:
            return self.must_reject("C05 C08", what, self.dealer.remove_session, sid)
        out = self.must_accept("C05 C04", what, self.dealer.remove_session, sid)
        self.attached.discard(sid)
        for p, (owner, rid) in list(self.regs.items()):
            if owner == sid:
                del self.regs[p]
                self.dead_regs[self.sids.index(sid)] = rid
        told = {}
        for key, c in list(self.calls.items()):
            if sid in (c["callee"], key[0]):
                if key[0] != sid:
                    told[key] = 1
                self.dead_invs[self.sids.index(c["callee"])] = c["inv"]
                del self.calls[key]
        got = list(out) if out is not None else []
        for o in got:
            key = (o.recipient, getattr(o.message, "request_id", None))
            if key not in told:
                raise Mismatch("C05 C02", f"{what}: unexpected {self.show(o)}")
            del told[key]
            self.expect("C05 C02", what, o, "Error", key[0], message_type=48, request_id=key[1])
        if told:
            raise Mismatch("C05", f"{what}: callers of open calls {sorted(told)} are not told")
        self.last = f"detach told={len(got)}"

    def op_reg(self, i, p):
        sid, proc, req = self.sids[i], self.procs[p], self.far + 901 + self.turn % 2
        what = f"REGISTER {proc} by {sid}"
        self.n += 1
        send = self.send(sid, self.make("Register", request_id=req, procedure=proc))
        if sid not in self.attached:
            return self.must_reject("C05 C04 C08", what, *send)
        out = self.must_accept("C04", what, *send)
        if proc in self.regs:
            self.expect("C04", what, out, "Error", sid, message_type=64, request_id=req, uri=ALREADY_EXISTS)
            self.last = "reg taken"
            return
        msg = self.expect("C04", what, out, "Registered", sid, request_id=req)
        self.fresh("C04", what, "registration", msg.registration_id)
        self.regs[proc] = (sid, msg.registration_id)
        self.last = "registered"

    def op_unreg(self, i, h):
        sid, req = self.sids[i], self.far + 903 + self.turn % 2
        self.n += 1
        rid = self.regs[self.procs[h[1]]][1] if h[0] == "reg" else 448 if h[0] == "bogus" else self.dead_regs[h[1]]
        what = f"UNREGISTER {h} by {sid}"
        send = self.send(sid, self.make("Unregister", request_id=req, registration_id=rid))
        proc = next((p for p, (s, r) in self.regs.items() if r == rid and s == sid), None)
        if sid not in self.attached or proc is None:
            return self.must_reject("C04 C08" + ("" if sid in self.attached else " C05"), what, *send)
        out = self.must_accept("C04", what, *send)
        self.expect("C04", what, out, "Unregistered", sid, request_id=req)
        del self.regs[proc]
        self.dead_regs[self.sids.index(sid)] = rid
        self.last = "unregistered"

    def op_call(self, i, p, r, rp, pr, shape, bin_):
        sid, proc, req = self.sids[i], self.procs[p], self.reqs[r]
        token = self.tok()
        pay = payload(self.turn if shape is None else shape, token)
        b = binary_of(bin_, token)
        opts = {**self.flag("receive_progress", rp), **self.flag("progress", pr)}
        msg = self.make("Call", request_id=req, procedure=proc, options=opts, **pay, **b)
        what = f"CALL {proc} request {req} by {sid} receive_progress={rp} progress={pr}"
        send = self.send(sid, msg)
        open_ = self.calls.get((sid, req))
        if sid not in self.attached:
            return self.must_reject("C01 C05 C08", what, *send)
        if open_ is not None and not open_["more"]:
            return self.must_reject("C03 C08", what, *send)
        tags = "C01" if open_ is None and not pr and not rp else "C01 C03"
        out = self.must_accept(tags, what, *send)
        owner, rid = self.regs.get(proc, (None, None))
        if owner is None or (open_ is not None and open_["callee"] != owner):
            uri = NO_SUCH_PROCEDURE if owner is None else (lambda u: isinstance(u, str))
            self.expect(tags + " C04", what, out, "Error", sid, message_type=48, request_id=req, uri=uri)
            if open_ is not None:
                self.dead_invs[self.sids.index(open_["callee"])] = open_["inv"]
                del self.calls[(sid, req)]
            self.last = "call error" if open_ is None else "progressive call ended by error"
            return
        want = {}
        if rp:
            want["receive_progress"] = True
        if pr:
            want["progress"] = True
        if "serializer" in b:
            want["x_payload_serializer"] = b["serializer"]
        wantb = (b.get("payload"), b.get("serializer"), b.get("binary", False))
        m = self.expect(tags, what, out, "Invocation", owner, binary=wantb, registration_id=rid, details=want, **pay)
        if open_ is None:
            self.fresh(tags, what, "invocation", m.request_id)
            self.calls[(sid, req)] = dict(inv=m.request_id, callee=owner, p=p, rp=rp, more=pr)
            self.last = f"invoked {len(self.calls)}"
        else:
            if m.request_id != open_["inv"]:
                raise Mismatch("C03", f"{what}: chunk of invocation {open_['inv']} was sent as {m.request_id}")
            open_["more"] = pr
            self.last = "chunk passed on"

    def op_yield(self, i, h, pr, shape, bin_):
        sid, inv = self.sids[i], self.inv_id(h)
        token = self.tok()
        pay = payload(self.turn if shape is None else shape, token)
        b = binary_of(bin_, token)
        msg = self.make("Yield", request_id=inv, options=self.flag("progress", pr), **pay, **b)
        what = f"YIELD {h} by {sid} progress={pr}"
        key, call = self.find_inv(inv)
        if call is None or call["callee"] != sid or sid not in self.attached:
            tags = "C02 C08" + ("" if sid in self.attached else " C05")
            return self.must_reject(tags, what, *self.send(sid, msg))
        passed = bool(pr and call["rp"])
        tags = "C02 C03" if pr or call["rp"] or call["more"] else "C02"
        out = self.must_accept(tags, what, *self.send(sid, msg))
        want = {"progress": True} if passed else {}
        if "serializer" in b:
            want["x_payload_serializer"] = b["serializer"]
        wantb = (b.get("payload"), b.get("serializer"), b.get("binary", False))
        self.expect(tags, what, out, "Result", key[0], binary=wantb, request_id=key[1], details=want, **pay)
        if not passed:
            self.dead_invs[i] = inv
            del self.calls[key]
        self.last = "result progressive" if passed else "result"

    def op_err(self, i, h, shape):
        self.op_err_as(i, h, 68, shape)

    def op_err_as(self, i, h, code, shape=None):
        sid, inv = self.sids[i], self.inv_id(h)
        token = self.tok()
        pay = payload(self.turn if shape is None else shape, token)
        uri, det = f"com.error.{self.turn % 3}", ({}, {"d": token})[self.turn % 2]
        if shape is not None:
            uri = ERROR_URIS[shape % len(ERROR_URIS)]
        if shape is not None and shape >= CONTENT:
            from mc.contents import DETAILS, TEXTUAL
            uri, det = TEXTUAL[shape % len(TEXTUAL)], DETAILS[shape % len(DETAILS)]
        det = wire.with_noise(self.noise, "Error", dict(details=det))["details"]
        msg = self.make("Error", message_type=code, request_id=inv, uri=uri, details=det, **pay)
        what = f"ERROR({code}) {h} by {sid}"
        key, call = self.find_inv(inv)
        if code != 68 or call is None or call["callee"] != sid or sid not in self.attached:
            tags = "C02 C08" + ("" if sid in self.attached else " C05")
            return self.must_reject(tags, what, *self.send(sid, msg))
        out = self.must_accept("C02", what, *self.send(sid, msg))
        self.expect("C02", what, out, "Error", key[0], message_type=48, request_id=key[1], uri=uri, details=det, **pay)
        self.dead_invs[i] = inv
        del self.calls[key]
        self.last = "call failed"

    def op_other(self, i, name):
        msg = sample_message(name)
        self.must_reject("C08", f"{name} by {self.sids[i]}", *self.send(self.sids[i], msg))

    # ---- state
    def names(self):
        names = {}
        for p, (s, rid) in self.regs.items():
            names[rid] = ("r", p)
        for key, c in self.calls.items():
            names[c["inv"]] = ("i",) + key
        return names

    def impl(self):
        return self.dealer

    def model_key(self):
        """What is live now."""
        return (sorted(self.attached), sorted((p, s) for p, (s, r) in self.regs.items()),
                sorted((k, c["callee"], c["p"], c["rp"], c["more"]) for k, c in self.calls.items()))

    def canon(self):
        model = (sorted(self.attached), sorted((p, s, Weak(r)) for p, (s, r) in self.regs.items()),
                 sorted((k, c["callee"], c["p"], c["rp"], c["more"], Weak(c["inv"])) for k, c in self.calls.items()),
                 sorted((k, Weak(v)) for k, v in self.dead_regs.items()),
                 sorted((k, Weak(v)) for k, v in self.dead_invs.items()))
        newest = self.newest()
        if not self.layout.rename:
            return snapshot((self.dealer, model, newest, self.n % 6))
        return snapshot((self.dealer, newest, model), names=self.names(), ids=IDS, ordered=not self.unordered)


def sample_message(name):
    """A well-formed message of the given type."""
    f = {}
    for field, kind in wire.SPEC[name][1]:
        if kind == "id":
            f[field] = 1
        elif kind == "int":
            f[field] = 48
        elif kind == "str":
            f[field] = "com.p"
        elif kind == "dict":
            f[field] = {}
        else:
            f["roles"] = {"caller": {}}
    return wire.make(name, **f)


DEALER_UNSUPPORTED = tuple(n for n in wire.SPEC if n not in ("Call", "Yield", "Register", "Unregister", "Error"))
BROKER_UNSUPPORTED = tuple(n for n in wire.SPEC if n not in ("Subscribe", "Unsubscribe"))


class BrokerWorld(RouterWorld):
    """Broker against the model: who is attached, who is subscribed to which topic under which ID."""

    kept_tags = "C06 C07"

    def __init__(self, layout=APART, nsessions=3, ntopics=2, kinds=None, shapes=None, unordered=False, attach=0,
                 others=(), acks=(0, 1), fresh_sids=False, noise=False, same=0, keep=0):
        super().__init__(layout, nsessions, fresh_sids, same, keep)
        self.noisy = wire.IRRELEVANT if noise is True else noise or ()
        self.broker = Broker()
        self.topics = TOPICS[:ntopics] if isinstance(ntopics, int) else tuple(ntopics)
        self.kinds, self.shapes, self.unordered, self.others, self.acks = kinds, shapes, unordered, others, acks
        self.subs = {}        # topic -> (subscription ID, [sids])
        self.sub_ids = {}     # every subscription ID ever -> topic
        self.dead = {}        # topic -> subscription ID that ended last
        for i in range(attach):
            self.do_attach(self.broker, i, "any")

    def on(self, kind):
        return self.kinds is None or kind in self.kinds

    def plain(self):
        ops = []
        for i in self.few(self.sids):
            if self.on("attach"):
                ops.append(("attach", i))
            if self.on("detach"):
                ops.append(("detach", i))
            for t in self.few(self.topics):
                if self.on("sub"):
                    ops.append(("sub", i, t))
                if self.on("unsub") and self.topics[t] in self.subs:
                    ops.append(("unsub", i, ("sub", t)))
                if self.on("unsub") and self.topics[t] in self.dead and self.on("stale"):
                    ops.append(("unsub", i, ("dead", t)))
                if self.on("pub"):
                    for ack in self.acks:
                        for s in self.shapes or (None,):
                            ops.append(("pub", i, t, ack, s))
            if self.on("stale"):
                ops.append(("unsub", i, ("bogus",)))
            for o in self.others:
                ops.append(("other", i, o))
        return ops

    def renew(self, k):
        before = self.topics
        self.topics = tuple(t if t in self.subs else f"com.new{k}.{j}" for j, t in enumerate(before))
        for old, new in zip(before, self.topics):
            if old in self.dead:
                self.dead[new] = self.dead.pop(old)

    def step(self, op):
        self.perform(op)
        self.queries(op)

    def queries(self, op):
        for t in self.topics:
            want, got = t in self.subs, self.broker.has_subscription(t)
            if got is not want:
                raise Mismatch("C07", f"after {op!r}: has_subscription({t!r}) is {got!r}")
        for t in {"com.none", ""} - set(self.topics):
            if self.broker.has_subscription(t) is not False:
                raise Mismatch("C07", f"after {op!r}: has_subscription({t!r}) of a topic nobody subscribed to")

    def end(self, topic, sid):
        ident, who = self.subs[topic]
        who.remove(sid)
        if not who:
            del self.subs[topic]
            self.dead[topic] = ident

    def op_attach(self, i):
        self.do_attach(self.broker, i, "C05 C07 C08")

    def op_detach(self, i):
        sid = self.sids[i]
        what = f"detach {sid}"
        if sid not in self.attached:
            return self.must_reject("C05 C08", what, self.broker.remove_session, sid)
        self.must_accept("C05 C07", what, self.broker.remove_session, sid)
        self.attached.discard(sid)
        for t in list(self.subs):
            if sid in self.subs[t][1]:
                self.end(t, sid)
        self.last = "detach"

    def op_sub(self, i, t):
        sid, topic, req = self.sids[i], self.topics[t], self.far + 901 + self.turn % 2
        self.n += 1
        what = f"SUBSCRIBE {topic} by {sid}"
        send = self.broker.receive_message, sid, self.make("Subscribe", request_id=req, topic=topic)
        if sid not in self.attached:
            return self.must_reject("C07 C05 C08", what, *send)
        out = self.must_accept("C07", what, *send)
        msg = self.expect("C07", what, out, "Subscribed", sid, request_id=req)
        ident = msg.subscription_id
        if topic in self.subs:
            if ident != self.subs[topic][0]:
                raise Mismatch("C07", f"{what}: answered with ID {ident} instead of the topic's "
                                                     f"{self.subs[topic][0]}")
            if sid not in self.subs[topic][1]:
                self.subs[topic][1].append(sid)
                self.last = "joined"
            else:
                self.last = "again"
            return
        if self.sub_ids.get(ident, topic) != topic or ident in [x for x, _ in self.subs.values()]:
            raise Mismatch("C07", f"{what}: subscription ID {ident} belongs to {self.sub_ids.get(ident)}")
        self.sub_ids[ident] = topic
        self.used.setdefault("subscription", set()).add(ident)
        self.subs[topic] = (ident, [sid])
        self.last = "subscribed"

    def op_unsub(self, i, h):
        sid, req = self.sids[i], self.far + 903 + self.turn % 2
        self.n += 1
        ident = self.subs[self.topics[h[1]]][0] if h[0] == "sub" else self.dead[self.topics[h[1]]] \
            if h[0] == "dead" else 448
        what = f"UNSUBSCRIBE {h} by {sid}"
        send = self.broker.receive_message, sid, self.make("Unsubscribe", request_id=req, subscription_id=ident)
        topic = next((t for t, (x, who) in self.subs.items() if x == ident and sid in who), None)
        if sid not in self.attached or topic is None:
            return self.must_reject("C07 C08" + ("" if sid in self.attached else " C05"), what, *send)
        out = self.must_accept("C07", what, *send)
        self.expect("C07", what, out, "Unsubscribed", sid, request_id=req)
        self.end(topic, sid)
        self.last = "unsubscribed" + (" last" if topic not in self.subs else "")

    def op_pub(self, i, t, ack, shape):
        sid, topic, req = self.sids[i], self.topics[t], self.far + 905 + self.turn % 2
        pay = payload(self.turn if shape is None else shape, self.tok())
        opts = {"acknowledge": True} if ack else ({} if self.turn % 2 else {"acknowledge": False})
        if shape is not None and shape >= 4:
            opts["x_other"] = True
        what = f"PUBLISH {topic} by {sid} acknowledge={ack}"
        send = self.broker.receive_publish, sid, self.make("Publish", request_id=req, topic=topic, options=opts, **pay)
        if sid not in self.attached:
            return self.must_reject("C06 C05 C08", what, *send)
        out = self.must_accept("C06", what, *send)
        tags = "C06"
        recipients = list(out.recipients or [])
        want = list(self.subs[topic][1]) if topic in self.subs else []
        for r in recipients:
            if r not in self.attached:
                raise Mismatch(tags + " C05", f"{what}: recipient {r} is not attached")
        if sorted(recipients) != sorted(want):
            raise Mismatch(tags + " C07", f"{what}: recipients are {recipients} instead of {want}")
        pub_id = None
        if want:
            ev = out.event
            if ev is None or wire.type_name(ev) != "Event":
                raise Mismatch(tags, f"{what}: no EVENT for the subscribers {want}")
            got = wire.fields(ev)
            if got["subscription_id"] != self.subs[topic][0]:
                raise Mismatch(tags + " C07", f"{what}: EVENT carries subscription {got['subscription_id']}, "
                                              f"the topic's is {self.subs[topic][0]}")
            for k in ("args", "kwargs"):
                if not wire.same(got[k], pay[k]):
                    raise Mismatch(tags, f"{what}: EVENT {k} {got[k]!r} instead of {pay[k]!r}")
            pub_id = got["publication_id"]
        elif out.event is not None:
            raise Mismatch(tags, f"{what}: EVENT without a subscriber: {wire.show(out.event)}")
        if ack:
            m = self.expect("C06", what, out.ack, "Published", sid, request_id=req)
            if pub_id is not None and m.publication_id != pub_id:
                raise Mismatch(tags, f"{what}: PUBLISHED names publication {m.publication_id}, EVENT {pub_id}")
            pub_id = m.publication_id
        elif out.ack is not None:
            raise Mismatch(tags, f"{what}: unasked acknowledgement {self.show(out.ack)}")
        if pub_id is not None:
            if type(pub_id) is not int or not 1 <= pub_id <= wire.ID_MAX:
                raise Mismatch(tags, f"{what}: publication ID {pub_id!r}")
            self.fresh("C06", what, "publication", pub_id)
        self.last = f"published to {len(want)} ack={ack}"

    def op_other(self, i, name):
        msg = sample_message(name)
        self.must_reject("C08", f"{name} by {self.sids[i]}", self.broker.receive_message, self.sids[i], msg)

    def names(self):
        return {x: ("s", t) for t, (x, _) in self.subs.items()}

    def impl(self):
        return self.broker

    def model_key(self):
        """What is live now."""
        return sorted(self.attached), sorted((t, sorted(w)) for t, (x, w) in self.subs.items())

    def canon(self):
        model = (sorted(self.attached),
                 sorted((t, Weak(x), sorted(w) if self.unordered else w) for t, (x, w) in self.subs.items()),
                 sorted((k, Weak(v)) for k, v in self.dead.items()))
        newest = self.newest()
        if not self.layout.rename:
            return snapshot((self.broker, model, newest, self.n % 6))
        return snapshot((self.broker, newest, model), names=self.names(), ids=IDS, ordered=not self.unordered)


def differential(base, prop, keep, **changed):
    """A world like `base` that blames `prop` for a mismatch exactly when it disappears in a second run.

    The second run leaves out the operations for which keep(world, op) was false, or uses changed parameters.
    """

    class Differential(base):
        def __init__(self, **kw):
            self.kw = kw
            self.hist = []
            super().__init__(**kw)

        def step(self, op):
            try:
                super().step(op)
            except Mismatch as m:
                if prop in m.tags or not self.differs(op):
                    raise
                raise Mismatch({prop} | m.tags, m.text + f" -- not so {self.alternative}")
            if keep(self):
                self.hist.append(op)

        def differs(self, op):
            w = base(**{**self.kw, **changed})
            try:
                for o in self.hist:
                    w.step(o)
                w.step(op)
            except Mismatch:
                return False
            except Exception:
                return False
            return True

        alternative = "without the failed or rejected inputs before" if not changed else "when sessions come back under new IDs"

    return Differential


def rejections(base):
    return differential(base, "C08", lambda w: w.last != "reject")


def departures(base):
    return differential(base, "C05", lambda w: True, fresh_sids=True)


RejectDealer, RejectBroker = rejections(DealerWorld), rejections(BrokerWorld)
LeaveDealer, LeaveBroker = departures(DealerWorld), departures(BrokerWorld)
for _c, _n in ((RejectDealer, "RejectDealer"), (RejectBroker, "RejectBroker"), (LeaveDealer, "LeaveDealer"),
               (LeaveBroker, "LeaveBroker")):
    _c.__qualname__ = _c.__name__ = _n


class Crowded:
    """Hundreds of everything; only the first, the last and one in the middle act and are acted upon."""

    def few(self, of):
        n = len(of)
        return [0, n // 2, n - 1] if of is self.sids and n > 3 else [0, 1, 2] if of is self.sids else [0, n - 1]

    def queries(self, op):
        if self.n % 50 == 0:
            super().queries(op)


class CrowdedDealer(Crowded, DealerWorld):
    pass


class CrowdedBroker(Crowded, BrokerWorld):
    pass


class Named:
    """Very many names; only those in use and the ones beside them act."""

    def few(self, of):
        if of is not self.all_names():
            return range(len(of))
        used = [i for i, x in enumerate(of) if x in self.in_use()] or [0]
        return sorted({j for i in used for j in (i - 1, i, i + 1) if 0 <= j < len(of)})

    def queries(self, op):
        every = self.all_names()
        self.rename(tuple(every[i] for i in self.few(every)))
        try:
            super().queries(op)
        finally:
            self.rename(every)


class NamedDealer(Named, DealerWorld):
    def all_names(self):
        return self.procs

    def in_use(self):
        return self.regs

    def rename(self, names):
        self.procs = names


class NamedBroker(Named, BrokerWorld):
    def all_names(self):
        return self.topics

    def in_use(self):
        return self.subs

    def rename(self, names):
        self.topics = names
