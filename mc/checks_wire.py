"""C18-C24: frames, messages, payloads and rawsocket headers, by exhaustive enumeration of bounded input spaces."""
import copy
import itertools
import json
import re

from mc import codec, wire
from mc.core import Mismatch, NPROC, pmap
from mc.wire import ID_MAX, SPEC, SERIALIZERS, same
from mc.words import NUMBERS, SIZES, WORDS

SERS = ("json", "cbor", "msgpack")

IDS = (1, 2, 23, 24, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53 - 1, 2**53)
TYPES = (48, 68, 64, 66, 32, 34, 16, 0, -1, 1, 2**31, 255)
LENGTHS = (15, 16, 23, 24, 31, 32, 255, 256, 65535, 65536)
TEXTS = ("com.example.topic", "", "a", "\u00fc\u7801\U0001f600", "\x00", "\"\\/\b\f\n\r\t", "\x7f\u2028\ufeff", " a ", "null", "1") + \
    tuple("x" * n for n in LENGTHS) + tuple("\u00fc" * n for n in (15, 16, 127, 128))
# values any of the three formats can carry, and those only some can
ATOMS = (None, True, False, 0, 1, -1, 23, 24, -24, -25, 127, 128, -32, -33, -128, -129, 255, 256, -256, -257, 65535, 65536, -32768,
         -32769, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**53, -2**53, 2**63 - 1, -2**63, 2**63, 2**64 - 1,
         0.0, -0.0, 0.5, 1.0, -1.5, 1e300, 5e-324, 0.1, 3.4028234663852886e38, 65504.0) + TEXTS
BIG = (2**64, -2**64 - 1, 2**100, -2**100)
BYTES = (b"", b"\x00", bytes(range(256)), b"\xff" * 65536) + tuple(b"y" * n for n in LENGTHS[:8])
FLOATS = (float("inf"), float("-inf"), float("nan"))
CARRIES = {"json": ATOMS + BIG, "cbor": ATOMS + BIG + BYTES + FLOATS, "msgpack": ATOMS + BYTES + FLOATS}

# texts that a careless normalisation takes for others, words of the code, sizes near its numbers
ODD_TEXTS = ("com.cafe\u0301", "com.caf\u00e9", "A\u030a", "\u212b", "\u00c5", "\ufb01", "fi", "\uff53", "\u017f", "s", "\u0130", "i\u0307", "\u00df", "SS", "ss", "x\u200b",
             "x\u00ad", "\u00a0x", "x\u00a0", "\r\n", "a\rb", "%41", "\\u0041", "&#65;", "\ufffd", "\ufeffx", "\u2028", "COM.A", "com.a.", ".com.a", "com..a", "com.a ", " com.a",
             "com.a#", "a\x00", "\x00a", "\x1b[0m", "\U0010ffff", "\U00010000", "\ue000", "\u1100\u1161", "\uac00", "\u2126", "\u03a9", "${a}", "{a}", "{}", "[]", "[1]", "1.0", "true",
             "None", "True", "nan", "0x10", "1e5", "-0", "\"a\"", "'a'", "<a>", "b'a'", "bytes", "data:,a")
MORE_TEXTS = ODD_TEXTS + tuple(WORDS) + tuple("x" * n for n in SIZES) + tuple("\u00fc" * n for n in SIZES) + tuple("x" * n for n in (500, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097))
MORE_IDS = tuple(sorted({m for n in (*NUMBERS, *(2**k for k in range(54)), *(10**k for k in range(16))) for m in (n - 1, n, n + 1) if 1 <= m <= ID_MAX}))
WORD_DICTS = [{w: v for w in WORDS} for v in wire.OF_ALL + tuple(WORDS)]


def trees(n, atoms):
    """All values with exactly n nodes over the given atoms; dictionary keys are a, b, c by position."""
    if n == 1:
        yield from atoms
        yield []
        yield {}
        return
    for parts in compositions(n - 1):
        for kids in itertools.product(*[list(trees(p, atoms)) for p in parts]):
            yield list(kids)
            yield dict(zip("abc" if len(kids) < 4 else "abcdefgh", kids))


def compositions(n):
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first,) + rest


def wrapped(values):
    for v in values:
        yield v
        yield [v]
        yield {"k": v}


def dictionaries(ser, wide):
    out = [{}, {"a": 1}, {"a": {"b": [1, {"c": None}]}, "\u00fc": "\u7801", "": []}, {"x_payload_serializer": 1}, {"progress": True},
           {"receive_progress": False, "acknowledge": True}]
    out += [{str(i): i for i in range(n)} for n in (15, 16, 23, 24, 255, 256)]
    out += [{"v": v} for v in CARRIES[ser]]
    if wide:
        out += [{k: 1} for k in TEXTS] + [{str(i): i for i in range(n)} for n in (65535, 65536)]
    return out


def lists(ser, wide):
    out = [None, [], [None], [[]], [{}], [1, "a", [2.5, {"b": None}]], [[], {}, "", 0]]
    out += [list(range(n)) for n in (15, 16, 23, 24, 255, 256)] + ([list(range(n)) for n in (65535, 65536)] if wide else [])
    out += [[v] for v in CARRIES[ser]]
    return out


ROLE_SETS = ({"caller": {}}, {"callee": {"features": {"a": True}}, "publisher": {}, "subscriber": {}},
             {"dealer": {}, "broker": {"features": {}}}, {r: {} for r in wire.ROLES})


def pools(name, ser, wide):
    """field -> (values tried one at a time, few values for full products)"""
    few_dict = ({}, {"a": {"b": [1, None]}}, {"progress": True})
    out = {}
    spec, opt = SPEC[name][1:]
    for field, kind in spec:
        if kind == "id":
            out[field] = (IDS, (1, 256, ID_MAX))
        elif kind == "int":
            out[field] = (TYPES, (48, 34))
        elif kind == "str":
            out[field] = (TEXTS, ("com.a", "", "\u00fc\u7801"))
        elif kind == "dict":
            out[field] = (dictionaries(ser, wide), few_dict)
    if name in ("Hello", "Welcome"):
        for f in wire.HELLO_DETAILS if name == "Hello" else wire.WELCOME_DETAILS:
            if f == "roles":
                out[f] = (ROLE_SETS, ROLE_SETS[:2])
            elif f == "authextra":
                out[f] = ([None] + dictionaries(ser, wide), (None, {}, {"pubkey": "ab", "x": [1]}))
            elif f == "authmethods":
                out[f] = ((None, [], ["anonymous"], ["wampcra", "ticket"], ["x" * 300], ["\u00fc"] * 20), (None, [], ["ticket", "\u00fc"]))
            else:
                out[f] = ((None,) + TEXTS, (None, "", "joe\u00fc"))
    if opt:
        kw = [None] + dictionaries(ser, wide)
        out["args"] = (lists(ser, wide), (None, [], [1, "\u00fc"]))
        out["kwargs"] = (kw, (None, {}, {"k": [1, {"m": None}]}))
    return out


def nested(depth, kind):
    v = 1.5
    for _ in range(depth):
        v = [v] if kind else {"k": v}
    return v


# sizes and depths no pool of small values has
LARGE = ["x" * ((1 << 20) + 1), "\u00fc" * (1 << 19), list(range(131_073)), {str(i): [i] for i in range(33_000)},
         *(nested(d, kind) for d in (8, 33, 65, 129, 257, 300) for kind in (0, 1)), [[]] * 3000, [{"a": None}] * 3000]
LARGE_BYTES = [bytes((1 << 20) + 1)]


def field_cases(name, ser, wide):
    """Deterministic enumeration of field assignments of one message type."""
    p = pools(name, ser, wide)
    names = list(p)
    for few in itertools.product(*[p[f][1] for f in names]):
        yield dict(zip(names, few))
    bases = [{f: p[f][1][0] for f in names}, {f: p[f][1][-1] for f in names}]
    for base in bases:
        for f in names:
            for v in p[f][0]:
                yield {**base, f: v}
    if "args" in p:
        for a, k in itertools.product(p["args"][0], p["kwargs"][0]):
            if wide or (len(repr(a)) + len(repr(k)) < 400):
                yield {**bases[0], "args": a, "kwargs": k}
        for v in trees_upto(5 if wide else 4):
            yield {**bases[0], "args": [v]}
            yield {**bases[1], "args": None, "kwargs": {"k": v}}
        for v in LARGE + (LARGE_BYTES if ser != "json" else []):
            yield {**bases[0], "args": [v]}
            yield {**bases[1], "args": [], "kwargs": {"k": v, "l": [v]}}
    kinds = dict(SPEC[name][1])
    for f in names:
        for v in more(name, f, kinds.get(f)):
            yield {**bases[0], f: v}
            yield {**bases[1], f: v}
    for f in names:
        if f in ("options", "details", "extra", "authextra"):
            for v in trees_upto(4 if wide else 3):
                yield {**bases[0], f: {"k": v}}


def more(name, f, kind):
    """Longer pools that are not combined with each other."""
    if kind == "id":
        yield from MORE_IDS
    elif kind == "int":
        yield from (m for n in NUMBERS for m in (n - 1, n, n + 1, -n))
    elif kind == "str" or f in ("authid", "authrole", "authmethod"):
        yield from MORE_TEXTS
    elif f == "authmethods":
        for t in MORE_TEXTS:
            yield [t]
        yield list(WORDS)
    elif f == "args":
        for t in MORE_TEXTS:
            yield [t]
        for n in SIZES:
            yield list(range(n))
        yield list(MORE_IDS)
    elif f != "roles":
        for t in MORE_TEXTS:
            yield {t: t}
        for n in SIZES:
            yield {str(i): i for i in range(n)}
        yield from WORD_DICTS
        yield {"v": WORD_DICTS, "ids": list(MORE_IDS)}


TREE_ATOMS = (None, True, 0, -1, "", "\u00fc", 1.5)
_TREES = {}


def trees_upto(n):
    if n not in _TREES:
        atoms = TREE_ATOMS if n < 4 else TREE_ATOMS[1:6]
        _TREES[n] = [t for k in range(1, n + 1) for t in trees(k, atoms)]
    return _TREES[n]


def parts(c, per=1):
    return [(ser, name, i, n) for ser in SERS for name in SPEC
            for n in [(4 if SPEC[name][2] else 1) * per] for i in range(n)]


def enumerate_fields(c, judge, what):
    """Runs judge(ser, serializer, name, fields) -> error text or None over the whole field space, in parallel."""
    wide = c.thorough

    def job(j):
        ser, name, part, n = j
        s = SERIALIZERS[ser]()
        seen, count = set(), 0
        for i, f in enumerate(field_cases(name, ser, wide)):
            if i % n != part:
                continue
            count += 1
            try:
                bad, frame = judge(ser, s, name, f)
            except Exception as e:
                bad, frame = f"{type(e).__name__}: {e}", None
            if bad:
                return count, seen, (ser, name, f, bad)
            seen.add(hash(frame))
        return count, seen, None

    jobs = parts(c, 2 if wide else 1)
    seen = set()
    for j, (count, keys, bad) in zip(jobs, pmap(job, jobs, chunk=1)):
        c.counts["evaluations"] += count
        seen |= {(j[0], k) for k in keys}
        if bad:
            ser, name, f, text = bad
            c.violation(what, {"serializer": ser, "message": name, "fields": f}, f"{ser} {name} {short(f)}: {text}")
    c.counts["distinct_nontrivial"] += len(seen)
    c.counts[f"{what}: messages"] = c.counts["evaluations"]
    c.samples += [f"{s} {n} {short(next(itertools.islice(field_cases(n, s, wide), 40, None)))}" for s, n in
                  (("json", "Call"), ("cbor", "Welcome"), ("msgpack", "Error"), ("cbor", "Event"))]
    c.cover["exhaustive"] = True


def short(x, n=600):
    r = repr(x)
    return r if len(r) <= n else r[:n // 2] + " ... " + r[-n // 2:]


def expected_back(name, f):
    """Fields the decoded message may have: absent args may come back as [] when there are kwargs."""
    f = dict(f)
    if name == "Welcome" and f["authextra"] is None:
        f["authextra"] = {}
    alt = None
    if f.get("args", 0) is None and f.get("kwargs") is not None:
        alt = {**f, "args": []}
    return f, alt


def back_ok(name, f, got):
    a, b = expected_back(name, f)
    return same(a, got) or b is not None and same(b, got)


# ---------------------------------------------------------------------------------------------------- C18
def C18(c):
    c.assumptions.append("values are those WAMP allows in the format: text keys, no surrogates, integers within the format's "
                         "range, bytes only in CBOR and MsgPack, no infinities in JSON; binary payloads are not part of the "
                         "frames of these three serializers")

    def judge(ser, s, name, f):
        msg = wire.make(name, **f)
        before = copy.deepcopy(wire.fields(msg))
        frame = s.serialize(msg)
        if not same(wire.fields(msg), before):
            return f"serializing changed the message to {short(wire.fields(msg))}", frame
        back = s.deserialize(frame)
        if wire.type_name(back) != name:
            return f"comes back as {wire.type_name(back)}", frame
        got = wire.fields(back)
        if not back_ok(name, f, got):
            return f"comes back as {short(got)} from {short(frame)}", frame
        again = s.serialize(back)
        if again != frame:
            return f"serialized again as {short(again)} instead of {short(frame)}", frame
        if s.serialize(msg) != frame:
            return "serialized differently the second time", frame
        return None, frame

    c.rules.append("full product of few values per field, every field over its whole pool around two bases, product of the args "
                   "and kwargs pools, all nested values up to a node count; distinct frames are counted.")
    enumerate_fields(c, judge, "round trip")

    # one serializer used for everything: every ordered pair (and with failures in between)
    pool = message_pool()
    bad_frames = {"json": ["", "{", "[1", "[99]", "[48,0,{},\"a\"]", "[48]"],
                  "cbor": [b"", b"\x83", codec.DUMPS["cbor"]([99]), codec.DUMPS["cbor"]([48, 0, {}, "a"])],
                  "msgpack": [b"", b"\x93", codec.DUMPS["msgpack"]([99]), codec.DUMPS["msgpack"]([48, 0, {}, "a"])]}

    def pairs(j):
        ser, i = j
        fresh = [SERIALIZERS[ser]().serialize(wire.make(n, **copy.deepcopy(f))) for n, f in pool]
        back = [wire.fields(SERIALIZERS[ser]().deserialize(fr)) for fr in fresh]
        s = SERIALIZERS[ser]()
        n = 0
        for k in range(len(pool)):
            for op in ("serialize", "deserialize", "fail"):
                n += 1
                if op == "serialize":
                    s.serialize(wire.make(pool[i][0], **copy.deepcopy(pool[i][1])))
                elif op == "deserialize":
                    s.deserialize(fresh[i])
                else:
                    for b in bad_frames[ser]:
                        try:
                            s.deserialize(b)
                        except Exception:
                            pass
                    try:
                        s.serialize(wire.make("Call", request_id=1, procedure="a", args=[object()]))
                    except Exception:
                        pass
                m = s.serialize(wire.make(pool[k][0], **copy.deepcopy(pool[k][1])))
                if m != fresh[k]:
                    return n, (ser, i, k, f"after {op} of {pool[i]}: {short(pool[k])} is serialized as {short(m)}, alone as {short(fresh[k])}")
                m = wire.fields(s.deserialize(fresh[k]))
                if not same(m, back[k]):
                    return n, (ser, i, k, f"after {op} of {pool[i]}: {short(fresh[k])} is read as {short(m)}, alone as {short(back[k])}")
        return n, None

    for n, bad in pmap(pairs, [(ser, i) for ser in SERS for i in range(len(pool))], chunk=4):
        c.counts["evaluations"] += n
        c.counts["ordered pairs of operations on one serializer"] += n
        if bad:
            c.violation("order of use", {"serializer": bad[0], "first": pool[bad[1]], "second": pool[bad[2]]}, bad[3])

    # histories of two messages whose containers the application goes on changing
    length = c.pick(4, 6)
    jobs = [(ser, i) for ser in SERS for i in range(len(pool))]
    for (ser, i), (n, bad) in zip(jobs, pmap(lambda j: histories(j[0], pool[j[1]], length), jobs, chunk=4)):
        c.counts["evaluations"] += n
        c.counts["steps of histories of two messages"] += n
        if bad:
            c.violation("messages in use", {"serializer": ser, "message": pool[i], "history": bad[0]},
                        f"{ser} {short(pool[i])}, history {bad[0]}: {bad[1]}")


def histories(ser, case, length):
    """All sequences of: serialize one of two messages, change its containers, read its frame and change what was read."""
    name, f = case
    n = 0

    def change(m, token):
        for field, v in wire.fields(m).items():
            if field == "roles":  # a role is not a free key
                continue
            if type(v) is dict:
                v["t"] = token
            elif type(v) is list:
                v.append(token)

    for ops in itertools.product(("s0", "s1", "c0", "c1", "d0", "d1"), repeat=length):
        s = SERIALIZERS[ser]()
        ms = [wire.make(name, **copy.deepcopy(f)), wire.make(name, **copy.deepcopy(f))]
        for k, op in enumerate(ops):
            n += 1
            m = ms[int(op[1])]
            if op[0] == "c":
                change(m, k)
                continue
            want = copy.deepcopy(wire.fields(m))
            if op[0] == "s":
                got = wire.from_array(codec.plain(ser, s.serialize(m)))[1]
            else:
                back = s.deserialize(codec.DUMPS[ser](wire.to_array(name, want)))
                got = copy.deepcopy(wire.fields(back))
                change(back, k)
            if not (back_ok(name, want, got) and back_ok(name, wire.fields(m), got)):
                return n, (ops[:k + 1], f"{'frame says' if op[0] == 's' else 'read as'} {short(got)} for {short(want)}")
    return n, None


def message_pool():
    """A few messages of every type, plain and full."""
    out = []
    for name in SPEC:
        p = pools(name, "json", False)
        out.append((name, {f: p[f][1][0] for f in p}))
        out.append((name, {f: p[f][1][-1] for f in p}))
        if SPEC[name][2]:
            out.append((name, {**{f: p[f][1][1] for f in p}, "args": None, "kwargs": {"k": 1}}))
    return out


# ---------------------------------------------------------------------------------------------------- C19
def C19(c):
    c.assumptions.append("the wire layout of the 24 messages is the specification's, restated in mc/wire.py; json, cbor2 and "
                         "msgpack are the standard codecs")

    def judge(ser, s, name, f):
        msg = wire.make(name, **f)
        frame = s.serialize(msg)
        if type(frame) is not (str if ser == "json" else bytes):
            return f"frame is {type(frame).__name__}", frame
        if ser == "json":
            frame.encode()
        want = wire.to_array(name, expected_back(name, f)[0])
        got = codec.plain(ser, frame)
        if not same(got, want) and not (name == "Welcome" and same(got, wire.to_array(name, f))):
            return f"frame is {short(got)} instead of {short(want)}", frame
        want_f = wire.from_array(want)[1]
        for i, spell in enumerate(codec.SPELLINGS[ser]):
            peer = spell(want)
            back = s.deserialize(peer)
            if wire.type_name(back) != name or not same(wire.fields(back), want_f):
                return f"peer's frame {short(peer)} is read as {short(wire.show(back))} instead of {short(want_f)}", frame
        return None, frame

    c.rules.append("same field space as the round trip of C18; each frame is compared with the specification's array, and the "
                   "array in every alternative spelling of the format is read back; distinct frames are counted.")
    enumerate_fields(c, judge, "wire format")
    # optional trailing elements present in all forms a peer may send
    for ser, name in itertools.product(SERS, SPEC):
        if not SPEC[name][2]:
            continue
        base = wire.to_array(name, {f: v[1][-1] for f, v in pools(name, ser, False).items() if f not in ("args", "kwargs")})
        for tail in ([], [[]], [[], {}], [[1]], [[1], {}], [[], {"k": 1}], [[None], {"k": None}]):
            c.counts["evaluations"] += 1
            arr = base + tail
            for spell in codec.SPELLINGS[ser]:
                back = SERIALIZERS[ser]().deserialize(spell(arr))
                if not same(wire.fields(back), wire.from_array(arr)[1]):
                    c.violation("trailing elements", {"serializer": ser, "array": arr}, f"{ser} {arr} is read as {wire.show(back)}")
    # extra keys in HELLO and WELCOME details that other implementations send
    for ser, name in itertools.product(SERS, ("Hello", "Welcome")):
        for extra in ({"agent": "x"}, {"resume": True, "x_cb_node": {"a": [1]}}, {"authprovider": "static", "transport": None}):
            c.counts["evaluations"] += 1
            arr = [SPEC[name][0], "realm1" if name == "Hello" else 5, {"roles": {"caller": {"features": {"x": 1}}}, "authid": "j", **extra}]
            back = SERIALIZERS[ser]().deserialize(codec.DUMPS[ser](arr))
            if not same(wire.fields(back), wire.from_array(arr)[1]):
                c.violation("other details", {"serializer": ser, "array": arr}, f"{ser} {arr} is read as {wire.show(back)}")


# ---------------------------------------------------------------------------------------------------- C20
ANY = (None, True, False, 0, 1, -1, 2**53, 2**53 + 1, 2**64 - 1, 1.0, 1.5, "", "1", "wampcra", [], {}, [1], {"a": 1}, [[]], [{}])


def anyval(ser):
    return ANY + ((b"", b"x") if ser != "json" else ())


def detail_values(name, ser, wide):
    """Details dictionaries of HELLO and WELCOME: product over what each key may hold."""
    absent = object()
    few = (absent, None, "x", "", 0, 1, True, [], {}, ["x"], {"a": 1}, 1.5) if wide else (absent, None, "x", 0, True, [], {})
    roles = (absent, None, {}, {"caller": {}}, {"nobody": {}}, {"caller": {}, "nobody": {}}, {"nobody": {}, "caller": {}}, [], ["caller"],
             "caller", 1, {"Caller": {}}, {"": {}}, {"caller ": {}}, {r: {} for r in wire.ROLES}, {"call": {}}, {"callers": {}})
    keys = ("authid", "authmethods", "authextra") if name == "Hello" else ("authid", "authrole", "authmethod", "authextra")
    for r in roles:
        for vals in itertools.product(few, repeat=len(keys)):
            d = {k: v for k, v in zip(("roles",) + keys, (r,) + vals) if v is not absent}
            yield d
    base = {"roles": {"caller": {}}}
    for v in (*wire.OF_ALL, *WORDS):
        for w in WORDS:
            if (name, w) != ("Hello", "authrole"):
                yield {**base, w: v}
        yield {"roles": {"caller": {w: v for w in WORDS}}}
        yield {"roles": {"caller": {}, v: {}}} if isinstance(v, str) else {"roles": {"caller": v}}
    yield from anyval(ser)


def arrays(name, ser, wide):
    """Candidate arrays of one type: products of good and bad values per position, every length, every value anywhere."""
    code, spec, opt = SPEC[name]
    good = {"id": 5, "int": 48, "str": "com.a", "dict": {}, "hello": {"roles": {"caller": {}}}, "welcome": {"roles": {"dealer": {}}}}
    base = [code] + [good[k] for _, k in spec] + ([[1], {"k": 1}] if opt else [])
    lo = 1 + len(spec)
    # every value in every position, at every length
    for n in range(1, len(base) + 1):
        yield base[:n]
        for i in range(1, n):
            for v in anyval(ser):
                yield base[:i] + [v] + base[i + 1:n]
    for extra in ([None], [[]], [{}], [1], ["x"], [None, None], [{}, {}], [[], {}, None]):
        yield base + extra
        yield base[:lo] + extra
    for i in range(1, len(base)):
        for v in (*WORDS, *ODD_TEXTS, *(m for n in NUMBERS for m in (n - 1, n, n + 1, -n, float(n))), [list(WORDS)], *WORD_DICTS[::4]):
            yield base[:i] + [v] + base[i + 1:]
    for v in (48.0, float(code), -code, code + 256, code + 2**32, str(code), [code], None, True, False):
        yield [v] + base[1:]
    # several faults at once
    few = {"id": (5, ID_MAX, 1, 0, -1, ID_MAX + 1, True, "5", None, 5.0), "int": (48, 0, True, "48", None, 48.0),
           "str": ("com.a", "", None, 5, [], b"x" if ser != "json" else {}), "dict": ({}, {"a": 1}, None, [], "x", 0)}
    if not wide:
        few = {k: v[:6] if k == "id" else v[:5] for k, v in few.items()}
    choices = []
    for _, k in spec:
        choices.append(list(few[k]) if k in few else [good[k], None, {}, {"roles": {}}, {"roles": {"x": {}}, "authid": 5}, {
            "roles": 1, "authid": 5, "authextra": 6, "authmethods": 7, "authmethod": 8}])
    if opt:
        for tail in ((), ([],), (None,), ("x",), ([], {}), ([], None), ({}, []), (None, "x"), ([1], [])):
            for vals in itertools.product(*choices):
                yield [code, *vals, *tail]
    else:
        for vals in itertools.product(*choices):
            yield [code, *vals]
    if name in ("Hello", "Welcome"):
        for d in detail_values(name, ser, wide):
            yield [code, "r" if name == "Hello" else 5, d]
            if wide or len(repr(d)) < 40:
                yield [code, 0, d]


def judge_array(s, ser, frame, arr):
    """Error text when the reaction to an array is not the reference's."""
    want = wire.faults(arr)
    try:
        msg = s.deserialize(frame)
    except (ValueError, TypeError) as e:
        if not want:
            return f"well-formed message {short(arr)} was refused: {type(e).__name__}: {e}"
        text = " ".join(map(str, e.args))
        for f in want:
            if isinstance(f, tuple):
                idx, key = f
                if key is not None and not re.search(rf"\b{key}\b", text) or \
                        key is None and not re.search(rf"\bindex\D{{0,4}}{idx}\b", text):
                    return f"{short(arr)} is refused without naming position {idx}{' key ' + key if key else ''}: {text!r}"
        return None
    except Exception as e:
        return f"{short(arr)} was refused with {type(e).__name__} ({e}) instead of a ValueError or TypeError"
    if want:
        return f"malformed message {short(arr)} ({want}) was accepted as {short(wire.show(msg))}"
    name, f = wire.from_array(arr)
    if wire.type_name(msg) != name or not same(wire.fields(msg), f):
        return f"{short(arr)} was read as {short(wire.show(msg))}"
    return None


def C20(c):
    c.assumptions.append("an authrole inside HELLO details and the values inside the roles dictionary are left open")
    wide = c.thorough

    def job(j):
        ser, name, part, n = j
        s, seen, count, accepted = SERIALIZERS[ser](), set(), 0, 0
        for i, arr in enumerate(arrays(name, ser, wide)):
            if i % n != part:
                continue
            try:
                frame = codec.DUMPS[ser](arr)
            except Exception:
                continue
            count += 1
            seen.add(hash(frame))
            accepted += not wire.faults(arr)
            bad = judge_array(s, ser, frame, arr)
            if bad:
                return count, seen, accepted, (ser, arr, bad)
        return count, seen, accepted, None

    jobs = parts(c, 2)
    total = set()
    for (ser, name, _, _), (count, seen, accepted, bad) in zip(jobs, pmap(job, jobs, chunk=1)):
        c.counts["evaluations"] += count
        c.counts["well-formed arrays"] += accepted
        total |= {(ser, k) for k in seen}
        if bad:
            c.violation("arrays", {"serializer": bad[0], "array": bad[1]}, f"{bad[0]}: {bad[2]}")
    # type codes and things that are no message at all
    tops = [None, True, 0, 1, "x", "", {}, {"a": 1}, 1.5, [], [[]], [None], [[1, 2]], [{}], {"0": 1}]
    tops += [[code] + tail for code in list(range(-300, 301)) + [2**31, 2**32, 2**53, 2**63, -2**63, 1.0, 1.5, "1", "HELLO", True, False]
             for tail in ([], [1], ["r", {"roles": {"caller": {}}}], [1, {}], [1, {}, "u"], [1, 2], [1, 2, {}], [1, 1, {}, "u"],
                          [{}, "u"], ["u", {}], [None] * 3)]
    for ser in SERS:
        s = SERIALIZERS[ser]()
        for arr in tops:
            try:
                frame = codec.DUMPS[ser](arr)
            except Exception:
                continue
            c.counts["evaluations"] += 1
            total.add((ser, hash(frame)))
            bad = judge_array(s, ser, frame, arr)
            if bad:
                c.violation("type codes", {"serializer": ser, "array": arr}, f"{ser}: {bad}")
    # each class only takes arrays of its own type
    for a, b in itertools.product(SPEC, repeat=2):
        good = dict(next(field_cases(b, "json", False)))
        c.counts["evaluations"] += 1
        arr = wire.to_array(b, good)
        try:
            m = wire.cls(a).parse(arr)
        except (ValueError, TypeError):
            m = None
        except Exception as e:
            c.violation("parse", {"class": a, "array": arr}, f"{a}.parse of a {b} ended with {type(e).__name__}: {e}")
        if (m is None) != (a != b):
            c.violation("parse", {"class": a, "array": arr}, f"{a}.parse of the {b} {arr} gives {wire.show(m)}")
    c.counts["distinct_nontrivial"] = len(total)
    c.rules.append("every value of a pool at every position and length; products of good and bad values over all positions of a "
                   "message; products over the keys of HELLO and WELCOME details; all type codes -300..300; distinct frames counted.")
    c.samples += [short(a) for a in itertools.islice(arrays("Error", "cbor", wide), 60, 2000, 400)]
    c.cover["exhaustive"] = True


# ---------------------------------------------------------------------------------------------------- C21
def frame_pool(ser, wide):
    out = []
    for name in SPEC:
        p = pools(name, ser, False)
        fs = [{f: p[f][1][0] for f in p}, {f: p[f][1][-1] for f in p}]
        if SPEC[name][2]:
            fs.append({**fs[0], "args": None, "kwargs": {"k": 1}})
        if name in ("Hello", "Welcome"):
            fs = [{**f, "authextra": None} for f in fs]
        for f in fs if wide else fs[:1] + fs[-1:] if SPEC[name][2] else fs:
            out.append((name, codec.DUMPS[ser](wire.to_array(name, f))))
    return list(dict.fromkeys(out))


def like(a, b):
    try:
        return same(a, b) or repr(a) == repr(b)
    except RecursionError:
        return True


def judge_frame(s, ser, frame):
    """(error text, accepted) for one frame, against codec plus reference."""
    try:
        arr = codec.decode(ser, frame)
        want = wire.faults(arr)
    except codec.Undecodable as e:
        want, arr = [str(e)], None
    try:
        msg = s.deserialize(frame)
    except RecursionError:
        return (None if want else "RecursionError"), False
    except Exception as e:
        if not want:
            return f"{short(frame)} encodes {short(arr)} but was refused: {type(e).__name__}: {e}", False
        return None, False
    if want:
        return f"{short(frame)} is no frame of one well-formed message ({short(want, 200)}) but was read as {short(wire.show(msg))}", True
    name, f = wire.from_array(arr)
    if wire.type_name(msg) != name or not like(wire.fields(msg), f):
        return f"{short(frame)} encodes {short(arr)} but was read as {short(wire.show(msg))}", True
    return None, True


def C21(c):
    c.assumptions.append("json, cbor2 and msgpack decide what is an encoding; mc/wire.py what is a well-formed message")
    wide = c.thorough
    jobs = [("damage", ser, name, frame) for ser in SERS for name, frame in frame_pool(ser, wide)]
    if wide:
        jobs += [("two", ser, name, frame) for ser in ("cbor", "msgpack") for name, frame in frame_pool(ser, False) if len(frame) < 14]
        jobs += [("short", ser, bytes([b]), 3) for ser in ("cbor", "msgpack") for b in range(256)]
    else:
        jobs += [("short", ser, bytes([b]), 2) for ser in ("cbor", "msgpack") for b in range(256)]
    for ser in ("cbor", "msgpack"):
        for name, (code, _, _) in SPEC.items():
            for n in range(1, 6):
                head = codec.DUMPS[ser]([code] + [0] * n)[:-n]
                jobs.append(("short", ser, head, len(head) + 2))
    alphabet = "[]{}\",:01-.tn e" if wide else "[]{}\",:01-"
    jobs += [("text", "json", a, 5) for a in alphabet] + [("text", "json", f"[{code},", len(str(code)) + 2 + 4) for code in (1, 35, 48)]

    def frames_of(job):
        kind, ser, x, y = job
        if kind == "damage":
            yield from codec.damages(ser, y, wide)
        elif kind == "two":
            n = len(y)
            for i, j in itertools.combinations(range(n), 2):
                for a, b in itertools.product(range(0, 256, 5), repeat=2):
                    f = bytearray(y)
                    f[i], f[j] = a, b
                    yield bytes(f)
        elif kind == "short":
            yield x
            for n in range(1, y - len(x) + 1):
                for t in itertools.product(range(256), repeat=n):
                    yield x + bytes(t)
        else:
            yield x
            for n in range(1, y - len(x) + 1):
                for t in itertools.product(alphabet, repeat=n):
                    yield x + "".join(t)

    def run(job):
        s, n, accepted, seen = SERIALIZERS[job[1]](), 0, 0, set()
        for f in frames_of(job):
            n += 1
            seen.add(hash(f))
            bad, ok = judge_frame(s, job[1], f)
            accepted += ok
            if bad:
                return n, accepted, len(seen), (job[1], f, bad)
        return n, accepted, len(seen), None

    for job, (n, accepted, distinct, bad) in zip(jobs, pmap(run, jobs, chunk=2)):
        c.counts["evaluations"] += n
        c.counts["distinct_nontrivial"] += distinct
        c.counts[f"{job[1]}: {'damaged frames' if job[0] in ('damage', 'two') else 'all short frames'}"] += n
        c.counts["still a well-formed message"] += accepted
        if bad:
            c.violation("frames", {"serializer": bad[0], "frame": bad[1] if isinstance(bad[1], str) else bad[1].hex()}, f"{bad[0]}: {bad[2]}")
    endpoints(c)
    c.rules.append("every truncation, extension, one-symbol substitution, insertion, deletion, doubling, swap and bit flip of a frame "
                   "of every message type; every short byte string, also after every message head; the distinct frames per damaged "
                   "frame or prefix are counted; all are then also fed to sessions and joiners.")
    c.samples += [f"cbor {f.hex()}" for f in itertools.islice(codec.damages("cbor", frame_pool("cbor", False)[0][1]), 30, 4000, 900)]
    c.cover["exhaustive"] = True


def endpoints(c):
    """Sessions and joiners fed with damaged frames behave afterwards as if these had not come."""
    from mc.checks_endpoints import damaged_endpoints
    damaged_endpoints(c, judge_frame)


# ---------------------------------------------------------------------------------------------------- C22
PAYLOAD_IDS = {"none": 0, "json": 1, "msgpack": 2, "cbor": 3}


def exported(c, module, values, what):
    """The numbers an application takes from the library, for its peers, are those of the protocol."""
    for name, want in values.items():
        got = getattr(module, name, None)
        c.counts["evaluations"] += 1
        if isinstance(got, bool) or got != want:
            c.violation("exported numbers", {"name": name}, f"{what} {name} is {got!r} instead of {want}")


def C22(c):
    from wampproto.serializers import payload as pl
    c.assumptions.append("the payload serializers are identified by 0 (none), 1 (JSON), 2 (MsgPack), 3 (CBOR)")
    wide = c.thorough

    def pair(ser, a, k):
        a0, k0 = copy.deepcopy(a), copy.deepcopy(k)
        data = pl.serialize_payload(PAYLOAD_IDS[ser], a, k)
        if not same([a, k], [a0, k0]):
            return f"encoding changed the arguments to {short([a, k])}"
        if type(data) is not bytes:
            return f"encoded as {short(data)}"
        if a is not None or k is not None:
            arr = codec.plain(ser, data.decode() if ser == "json" else data)
            if not same(arr, [[] if a is None else a] + ([] if k is None else [k])):
                return f"encoded as {short(arr)}"
        elif data and codec.decode(ser, data) not in (None, []):
            return f"nothing is encoded as {short(data)}"
        got = pl.deserialize_payload(PAYLOAD_IDS[ser], data)
        again = copy.deepcopy(list(got)) if type(got) is tuple else None
        if not (type(got) is tuple and len(got) == 2):
            return f"decodes to {short(got)}"
        if not same(list(got), [a, k]) and not (a is None and k is not None and same(list(got), [[], k])):
            return f"decodes to {short(got)}"
        # what was encoded before is no excuse for what is encoded now, nor is what was decoded before
        for side in (0, 1):
            if type(got[side]) is list:
                got[side].append("mine")
            elif type(got[side]) is dict:
                got[side]["mine"] = 1
        if not same(list(pl.deserialize_payload(PAYLOAD_IDS[ser], data)), again):
            return "decodes differently the second time"
        if type(a) is list and len(a) < 300:
            a.append("more")
            arr = codec.plain(ser, pl.serialize_payload(PAYLOAD_IDS[ser], a, k).decode() if ser == "json" else
                              pl.serialize_payload(PAYLOAD_IDS[ser], a, k))
            if not same(arr, [a] + ([] if k is None else [k])):
                return f"with one more argument encoded as {short(arr)}"
            a.pop()
        return None

    def pairs(ser, part, n):
        kws = [None] + dictionaries(ser, wide)
        ls = lists(ser, wide)
        i = 0
        for a, k in itertools.product(ls, kws):
            if not wide and len(repr(a)) + len(repr(k)) > 300 and i % 7 and a is not None and k is not None:
                i += 1
                continue
            if i % n == part:
                yield a, k
            i += 1
        for v in trees_upto(5 if wide else 4):
            if i % n == part:
                yield [v], None
                yield None, {"k": v}
                yield [v, v], {"k": v}
            i += 1
        for v in LARGE + (LARGE_BYTES if ser != "json" else []):
            if i % n == part:
                yield [v], None
                yield [1], {"k": v}
            i += 1

    def run(job):
        ser, part, n = job
        count, seen = 0, set()
        for a, k in pairs(ser, part, n):
            count += 1
            try:
                bad = pair(ser, a, k)
                seen.add(hash(repr((a, k))))
            except Exception as e:
                bad = f"{type(e).__name__}: {e}"
            if bad:
                return count, len(seen), (a, k, bad)
        return count, len(seen), None

    jobs = [(ser, i, 8) for ser in SERS for i in range(8)]
    for (ser, _, _), (count, distinct, bad) in zip(jobs, pmap(run, jobs, chunk=1)):
        c.counts["evaluations"] += count
        c.counts["distinct_nontrivial"] += distinct
        c.counts[f"{ser} pairs"] += count
        if bad:
            c.violation("pairs", {"serializer": ser, "args": bad[0], "kwargs": bad[1]}, f"{ser} args={short(bad[0])} kwargs={short(bad[1])}: {bad[2]}")

    def refuses(what, fn, data, kinds=(ValueError, TypeError)):
        c.counts["evaluations"] += 1
        c.counts["distinct_nontrivial"] += 1
        c.counts["must be refused"] += 1
        try:
            out = fn()
        except kinds:
            return
        except Exception as e:
            c.violation("refusals", data, f"{what} ended with {type(e).__name__}: {e}")
        c.violation("refusals", data, f"{what} gave {short(out)} instead of an error")

    from wampproto import serializers
    exported(c, serializers, {"NONE_SERIALIZER_ID": 0, "JSON_SERIALIZER_ID": 1, "MSGPACK_SERIALIZER_ID": 2, "CBOR_SERIALIZER_ID": 3},
             "payload serializer")
    # the none serializer
    for b in BYTES + tuple(bytes([i]) for i in range(256)) + tuple(bytearray(x) for x in BYTES[:4]):
        for k in (None, {}):
            c.counts["evaluations"] += 1
            c.counts["distinct_nontrivial"] += 1
            try:
                data = pl.serialize_payload(0, [b], k)
                got = pl.deserialize_payload(0, bytes(data))
                bad = None if data == b and same(got[0], [bytes(b)]) and not got[1] else f"encoded as {short(data)}, decodes to {short(got)}"
            except Exception as e:
                bad = f"{type(e).__name__}: {e}"
            if bad:
                c.violation("none serializer", {"payload": bytes(b).hex()}, f"none args=[{short(b)}] kwargs={k}: {bad}")
    if pl.serialize_payload(0, None, None) is not None:
        c.violation("none serializer", {}, "nothing is encoded as something")
    for a in ([], [b"a", b"b"], ["a"], [1], [None], [[b"a"]], [{}], [b"a", 1], [b"", b"", b""]):
        for k in (None, {}, {"k": 1}):
            refuses(f"none serializer with args {a!r} kwargs {k!r}", lambda: pl.serialize_payload(0, a, k), {"args": repr(a), "kwargs": k})
    for k in ({"k": 1}, {"": None}):
        refuses(f"none serializer with kwargs {k!r}", lambda: pl.serialize_payload(0, None, k), {"kwargs": k})
        refuses(f"none serializer with kwargs {k!r}", lambda: pl.serialize_payload(0, [b"x"], k), {"kwargs": k})
    # unknown serializers
    for sid in list(range(-300, 0)) + list(range(4, 300)) + [2**31, 2**53, "1", "json", None, b"\x01", (), "", 1.5]:
        refuses(f"serializing for serializer {sid!r}", lambda: pl.serialize_payload(sid, [1], {"a": 1}), {"serializer": sid})
        refuses(f"serializing nothing for serializer {sid!r}", lambda: pl.serialize_payload(sid, None, None), {"serializer": sid})
        for data in (b"", b"[]", b"[[1]]"):
            refuses(f"deserializing for serializer {sid!r}", lambda: pl.deserialize_payload(sid, data), {"serializer": sid})
    # wrong shapes, and all short byte strings
    vals = (None, True, 0, 1, -1, 1.5, "", "x", "[]", [], {}, [1], {"a": 1}, [[]], [[], {}])
    shapes = list(vals) + [[a] for a in vals] + [[a, b] for a in vals for b in vals] + [[a, b, x] for a in vals for b in vals for x in ({}, None, [])]
    shapes += [[[], {}, {}, {}], [[1], {}, [], {}], {"args": [1]}, {"0": [], "1": {}}]

    def shape_judge(ser, data):
        try:
            arr = codec.decode(ser, data)
        except codec.Undecodable:
            return "any", None
        if type(arr) is not list or len(arr) > 2 or arr and type(arr[0]) is not list or len(arr) == 2 and type(arr[1]) is not dict:
            return "shape", arr
        return "ok", [arr[0] if arr else None, arr[1] if len(arr) == 2 else None]

    def shape(ser, data):
        kind, want = shape_judge(ser, data)
        if not data:
            kind, want = "ok", [None, None]
        try:
            got = pl.deserialize_payload(PAYLOAD_IDS[ser], data)
        except (ValueError, TypeError) as e:
            return None if kind != "ok" else f"{ser} payload {short(data)} was refused: {e}"
        except Exception as e:
            return None if kind == "any" else f"{ser} payload {short(data)} ended with {type(e).__name__}: {e}"
        if kind != "ok":
            return f"{ser} payload {short(data)} was decoded to {short(got)} instead of being refused"
        if type(got) is not tuple or not like(list(got), want):
            return f"{ser} payload {short(data)} was decoded to {short(got)} instead of {short(want)}"
        return None

    def short_run(job):
        ser, head, n = job
        count, seen = 0, set()
        todo = head if isinstance(head, list) else (head + bytes(t) for k in range(n + 1) for t in itertools.product(range(256), repeat=k))
        for data in todo:
            count += 1
            seen.add(hash(data))
            bad = shape(ser, data)
            if bad:
                return count, len(seen), (ser, data, bad)
        return count, len(seen), None

    jobs = []
    for ser in SERS:
        enc = lambda v: codec.DUMPS[ser](v).encode() if ser == "json" else codec.DUMPS[ser](v)  # noqa: E731
        jobs.append((ser, [b""] + [enc(v) for v in shapes], 0))
        jobs += [(ser, [sp(v) if ser != "json" else sp(v).encode() for v in shapes if type(v) in (list, dict) for sp in codec.SPELLINGS[ser]], 0)]
        for v in ([[1, "a"], {"k": None}], [["\u00fc"]], [[], {}]):
            good = codec.DUMPS[ser](v)
            ds = codec.damages(ser, good, wide)
            jobs.append((ser, [d.encode("utf-8", "surrogatepass") if isinstance(d, str) else d for d in ds], 0))
        jobs += [(ser, bytes([b]), 2 if wide else 1) for b in range(256)]
    for count, distinct, bad in pmap(short_run, jobs, chunk=4):
        c.counts["evaluations"] += count
        c.counts["distinct_nontrivial"] += distinct
        c.counts["payload byte strings decoded"] += count
        if bad:
            c.violation("payload bytes", {"serializer": bad[0], "payload": bad[1].hex()}, bad[2])
    c.rules.append("product of args and kwargs pools and all nested values up to a node count, per serializer; 256 one-byte and other "
                   "payloads for none; all identifiers -300..299; shapes of up to three elements; damaged payloads and all short byte "
                   "strings; the distinct ones of each part are counted.")
    c.samples += [short(x) for x in itertools.islice(pairs("cbor", 0, 1), 50, 8000, 2500)]
    c.cover["exhaustive"] = True


# ------------------------------------------------------------------------------------------------- C23, C24
def ranges(lo, hi, n=None):
    n = n or NPROC * 4
    step = (hi - lo + n - 1) // n
    return [(a, min(hi, a + step)) for a in range(lo, hi, step)]


def refused(fn):
    """None if fn raises ValueError, else what happened."""
    try:
        out = fn()
    except ValueError:
        return None
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    return f"gave {out!r}"


def C23(c):
    from wampproto.transports import rawsocket as rs
    c.assumptions.append("sizes between 2^24 and 2^25 are left open")
    exported(c, rs, {"SERIALIZER_TYPE_JSON": 1, "SERIALIZER_TYPE_MSGPACK": 2, "SERIALIZER_TYPE_CBOR": 3,
                     "PROTOCOL_MAX_MSG_SIZE": 2**24, "MAGIC": 0x7F}, "rawsocket constant")
    size = rs.DEFAULT_MAX_MSG_SIZE
    if refused(lambda: rs.Handshake(1, size).to_bytes()) is None or rs.Handshake.from_bytes(rs.Handshake(1, size).to_bytes()).max_msg_size != size:
        c.violation("exported numbers", {"size": size}, f"the default maximum message size {size} cannot be advertised")
    protocols = range(16)

    def sizes(r):
        lo, hi = r
        n = 0
        for size in range(lo, hi):
            exp = size.bit_length() - 1
            for p in (protocols if c.thorough or size & (size - 1) == 0 or size & (size + 1) == 0 else (size % 16,)):
                n += 1
                b = rs.Handshake(p, size).to_bytes()
                if b != bytes((0x7F, (exp - 9) << 4 | p, 0, 0)):
                    return n, (p, size, f"is encoded as {b!r}")
                h = rs.Handshake.from_bytes(b)
                if h.protocol != p or h.max_msg_size != 1 << exp:
                    return n, (p, size, f"decodes to {(h.protocol, h.max_msg_size)}")
        return n, None

    def guarded(fn):
        def g(x):
            try:
                return fn(x)
            except Exception as e:
                return 1, (x, type(e).__name__, str(e))
        return g

    def all_bytes(b1):
        n = 0
        for rest in range(65536):
            n += 1
            data = bytes((0x7F, b1, rest >> 8, rest & 255))
            try:
                h = rs.receive_handshake(data)
            except ValueError:
                if rest == 0:
                    return n, (data, "was refused")
                continue
            if rest:
                return n, (data, f"was accepted as {(h.protocol, h.max_msg_size)}")
            if h.protocol != b1 & 15 or h.max_msg_size != 512 << (b1 >> 4) or rs.send_handshake(h) != data:
                return n, (data, f"was read as {(h.protocol, h.max_msg_size)}, written back as {rs.send_handshake(h)!r}")
        for b0 in range(256):
            if b0 == 0x7F:
                continue
            for b2, b3 in itertools.product((0, 1, 0x7F, 0x80, 255), repeat=2):
                n += 1
                data = bytes((b0, b1, b2, b3))
                bad = refused(lambda: rs.Handshake.from_bytes(data))
                if bad:
                    return n, (data, bad)
        return n, None

    for n, bad in pmap(guarded(sizes), ranges(512, 2**24 + 1), chunk=1):
        c.counts["evaluations"] += n
        c.counts["sizes and codes"] += n
        if bad:
            c.violation("sizes", {"handshake": bad}, f"handshake with protocol {bad[0]} and size {bad[1]} {bad[2]}")
    for n, bad in pmap(guarded(all_bytes), range(256), chunk=8):
        c.counts["evaluations"] += n
        c.counts["byte strings"] += n
        if bad:
            c.violation("byte strings", {"bytes": repr(bad)}, f"handshake {bad}")
    n = 0
    for length in (0, 1, 2, 3, 5, 6, 7, 8, 12, 100):
        for data in (b"\x7f\xf1\0\0\0\0\0\0"[:length], (b"\x7f\x01" + bytes(length))[:length], (b"\x7f" * length), bytes(length),
                     (b"\x7f\xf3\0\0" * 30)[:length]):
            n += 1
            bad = refused(lambda: rs.receive_handshake(data)) if len(data) != 4 else None
            if bad:
                c.violation("lengths", {"bytes": data.hex()}, f"handshake of {len(data)} bytes {data!r} {bad}")
    small = list(range(512))
    large = [2**k + d for k in range(26, 60) for d in (-1, 0, 1)] + [2**25, 2**25 + 1, 2**25 + 12345, 2**64, 2**100, 10**30]
    for size in small + large:
        for p in (0, 1, 2, 3, 15):
            n += 1
            bad = refused(lambda: rs.Handshake(p, size).to_bytes())
            if bad:
                c.violation("bad sizes", {"protocol": p, "size": size}, f"handshake with protocol {p} and size {size} {bad}")
    for p in list(range(-300, 0)) + list(range(16, 300)) + [2**k for k in range(9, 64)] + [-2**k for k in range(9, 64)]:
        for k in range(9, 25):
            n += 1
            bad = refused(lambda: rs.Handshake(p, 1 << k).to_bytes())
            if bad:
                c.violation("bad codes", {"protocol": p, "size": 1 << k}, f"handshake with protocol {p} and size {1 << k} {bad}")
    c.counts["must be refused"] = n
    c.counts["evaluations"] += n
    c.counts["distinct_nontrivial"] = c.counts["sizes and codes"] + 2**24 + c.counts["must be refused"]
    c.rules.append("every size 512..2^24 (thorough: with every code; quick: with one code each, all codes around powers of two); every "
                   "four-byte string with the magic byte, the others with 25 reserved patterns (counted as trivial); wrong lengths, "
                   "sizes and codes; all inputs are distinct.")
    c.samples += ["Handshake(3, 1000000) -> 7f a3 00 00 -> (3, 524288)", "7f 00 00 01 -> ValueError"]
    c.cover["exhaustive"] = True


def C24(c):
    from wampproto.transports import rawsocket as rs
    exported(c, rs, {"MSG_TYPE_WAMP": 0, "MSG_TYPE_PING": 1, "MSG_TYPE_PONG": 2}, "frame kind")

    def lengths(r):
        n = 0
        for length in range(*r):
            for kind in ((length % 256, 0, 1, 255) if c.thorough else (length % 257 % 256,)):
                n += 1
                b = rs.MessageHeader(kind, length).to_bytes()
                if b != bytes((kind,)) + length.to_bytes(3, "big"):
                    return n, (kind, length, f"is encoded as {b!r}")
                h = rs.MessageHeader.from_bytes(b)
                if h.kind != kind or h.length != length:
                    return n, (kind, length, f"decodes to {(h.kind, h.length)}")
        return n, None

    def guarded(r):
        try:
            return lengths(r)
        except Exception as e:
            return 1, (r, type(e).__name__, str(e))

    for n, bad in pmap(guarded, ranges(0, 2**24, NPROC * 8), chunk=1):
        c.counts["evaluations"] += n
        c.counts["headers"] += n
        if bad:
            c.violation("headers", {"header": bad}, f"header with kind {bad[0]} and length {bad[1]} {bad[2]}")
    edges = sorted({x for k in range(0, 24) for x in (2**k - 1, 2**k, 2**k + 1)} | {2**24 - 1, 0xABCDEF, 0x00FF00, 0xFF00FF})
    for kind in range(256):
        for length in edges:
            c.counts["evaluations"] += 1
            c.counts["kinds at boundary lengths"] += 1
            b = rs.MessageHeader(kind, length).to_bytes()
            h = rs.MessageHeader.from_bytes(b)
            if b != bytes((kind,)) + length.to_bytes(3, "big") or (h.kind, h.length) != (kind, length):
                c.violation("kinds", {"kind": kind, "length": length}, f"kind {kind} length {length}: {b!r} {(h.kind, h.length)}")
    bad_lengths = [-2**k for k in range(40)] + [-3, -255, -256, -257] + [2**k + d for k in range(25, 64) for d in (-1, 0, 1)] + \
        [2**24, 2**24 + 1, 2**24 + 255, 2**24 + 256, 2**32 + 5, 2**100]
    bad_kinds = [-x for x in range(1, 300)] + list(range(256, 600)) + [2**k for k in range(10, 64)]
    for kind, length in [(k, n) for k in (0, 1, 2, 255) for n in bad_lengths] + [(k, n) for k in bad_kinds for n in (0, 1, 255, 65536, 2**24 - 1)]:
        c.counts["evaluations"] += 1
        c.counts["must be refused"] += 1
        bad = refused(lambda: rs.MessageHeader(kind, length).to_bytes())
        if bad:
            c.violation("does not fit", {"kind": kind, "length": length}, f"header with kind {kind} and length {length} {bad}")
    tails = [bytes(x) for n in range(3) for x in itertools.product((0, 1, 127, 255), repeat=n)]
    wrong = [bytes(x) for n in range(3) for x in itertools.product(range(256) if n < 2 else range(0, 256, 3), repeat=n)]
    wrong += [bytes(x) for x in itertools.product((0, 1, 2, 3, 127, 128, 255), repeat=3)]
    wrong += [bytes(x) + t for x in itertools.product((0, 1, 2, 255), repeat=4) for t in tails if t]
    wrong += [x * n for x in (b"\0", b"\1", b"\xff") for n in (*range(5, 300), 65536, 65540, 2**20)]
    for data in wrong:
        c.counts["evaluations"] += 1
        c.counts["must be refused"] += 1
        bad = refused(lambda: rs.MessageHeader.from_bytes(data))
        if bad:
            c.violation("wrong size", {"bytes": data[:40].hex(), "size": len(data)},
                        f"{len(data)} bytes {data[:40].hex()} as a header: {bad}")
    c.counts["distinct_nontrivial"] = c.counts["headers"] + c.counts["must be refused"]
    c.rules.append("every length 0..2^24-1, all kinds at the boundary lengths, lengths and kinds that do not fit, byte strings of other sizes; those of the first and the last part are distinct and counted.")
    c.samples += ["kind 1, length 0xABCDEF -> 01 ab cd ef", "length 2^24 -> ValueError"]
    c.cover["exhaustive"] = True


for _f in (C18, C19, C20, C21, C22, C23, C24):
    _f.level = "exploration"
assert json and Mismatch
CHECKS = {"C18": C18, "C19": C19, "C20": C20, "C21": C21, "C22": C22, "C23": C23, "C24": C24}
