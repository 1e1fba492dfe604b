"""What messages may carry that a router has to pass on as it is: args, kwargs, error details, from a fixed enumeration."""
import itertools

from mc.words import SIZES, WORDS
from mc.checks_wire import BYTES, LARGE, TEXTS, dictionaries, lists, trees_upto

KEYS = ("_id", "__class__", "-", "$ref", "a.b", "a b", " a", "A", "0", "1", "null", "self", "cls", "args", "kwargs", "request_id", "request", "procedure",
        "topic", "uri", "options", "details", "payload", "serializer", "binary", "progress", "receive_progress", "acknowledge", "x_payload_serializer",
        "exclude_me", "password", "token", "ticket", "secret", "timestamp", "k" * 300) + TEXTS
VALUES = (None, False, True, 0, -1, 1.0, 0.0, "", " ", "x ", " x", "X", [], {}, [None], [[]], [{}], {"": None}, {"a": {}}, (1 << 53) + 1, 2**64 - 1, 1e300,
          b"", b"\x00") + TEXTS


def contents():
    """(args, kwargs)"""
    for v in VALUES:
        yield [v], None
        yield [v, 1], None
        yield [1, v], None
        yield [1, v, v], {}
        yield [[1, v]], None
        yield [v, v], {"k": v}
        yield [], {"k": v, "l": 1}
        yield None, {"k": v}
        yield None, {"k": {"l": v, "m": 1}}
    for k in KEYS:
        yield None, {k: 1}
        yield [{k: 1, "z": 2}], {"z": {k: None}}
        yield [k], {"z": 1, k: k}
    for w in WORDS:
        yield [w], {"k": w, w: 1}
        yield None, {w: w}
    yield None, {w: 1 for w in WORDS}
    yield None, {"a": 1, "A": 2, "a ": 3}
    yield None, {k: i for i, k in enumerate(KEYS)}
    yield [1, True, 1.0, "1", 0, False, 0.0, ""], {"a": 1, "b": True, "c": 1.0}
    yield [1, 1, 1, [1], [1]], {"a": 1, "b": 1}
    yield [3, 1, 2, "b", "a"], {"z": 1, "a": 2, "m": 3}
    for n in sorted({*SIZES, 7, 8, 9, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 500, 512, 513, 1000, 1001, 1024, 1025, 2049, 4097, 5000, 10_001, 70_000}):
        yield list(range(n)), None
        yield None, {f"k{i}": i for i in range(n)}
        yield ["x" * n, b"x" * n], {"k": "\u00fc" * n}
    for a, k in itertools.product(lists("cbor", False)[:12], [None] + dictionaries("cbor", False)[:10]):
        yield a, k
    for a in lists("cbor", False)[12:]:
        yield a, None
    for k in dictionaries("cbor", False)[10:]:
        yield None, k
    for t in trees_upto(3):
        yield [t], {"k": t}
    for v in LARGE + list(BYTES):
        yield [v], {"k": v}


CONTENTS = list(contents())
DETAILS = [{}] + [{"d": v} for v in VALUES] + [{k: 1} for k in KEYS] + [{w: v for w in WORDS} for v in VALUES] + [{"a": 1, "b": {"c": [None]}}, {f"k{i}": i for i in range(1100)}]
TEXTUAL = ("com.error.a", *TEXTS, "COM.Error.A", "com.error.a.", "wamp.error.no_such_procedure", "wamp.error", "wamp.close.normal", "com..error", *WORDS)


def carried(ser, v):
    """Whether the format can carry it."""
    if type(v) in (list, tuple):
        return all(carried(ser, x) for x in v)
    if type(v) is dict:
        return all(carried(ser, x) for x in v.values())
    if ser == "json":
        return type(v) is not bytes and (type(v) is not float or v - v == 0)
    return ser != "msgpack" or type(v) is not int or -2**63 <= v < 2**64


BY_FORMAT = {s: [c for c in CONTENTS if carried(s, list(c))] for s in ("json", "cbor", "msgpack")}
