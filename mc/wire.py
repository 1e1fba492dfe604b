"""Reference description of the 24 WAMP messages, written from the WAMP specification.

Independent of /repo except for the class names and the names of the public fields.
"""
import sys

from mc.core import REPO

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

from wampproto import messages, serializers  # noqa: E402

from mc.words import WORDS  # noqa: E402

ID_MAX = 2**53
ROLES = ("callee", "caller", "publisher", "subscriber", "dealer", "broker")

# name -> (type code, [(field, kind)], has args/kwargs)
SPEC = {
    "Hello": (1, [("realm", "str"), (None, "hello")], False),
    "Welcome": (2, [("session_id", "id"), (None, "welcome")], False),
    "Abort": (3, [("details", "dict"), ("reason", "str")], True),
    "Challenge": (4, [("authmethod", "str"), ("extra", "dict")], False),
    "Authenticate": (5, [("signature", "str"), ("extra", "dict")], False),
    "Goodbye": (6, [("details", "dict"), ("reason", "str")], False),
    "Error": (8, [("message_type", "int"), ("request_id", "id"), ("details", "dict"), ("uri", "str")], True),
    "Publish": (16, [("request_id", "id"), ("options", "dict"), ("topic", "str")], True),
    "Published": (17, [("request_id", "id"), ("publication_id", "id")], False),
    "Subscribe": (32, [("request_id", "id"), ("options", "dict"), ("topic", "str")], False),
    "Subscribed": (33, [("request_id", "id"), ("subscription_id", "id")], False),
    "Unsubscribe": (34, [("request_id", "id"), ("subscription_id", "id")], False),
    "Unsubscribed": (35, [("request_id", "id")], False),
    "Event": (36, [("subscription_id", "id"), ("publication_id", "id"), ("details", "dict")], True),
    "Call": (48, [("request_id", "id"), ("options", "dict"), ("procedure", "str")], True),
    "Cancel": (49, [("request_id", "id"), ("options", "dict")], False),
    "Result": (50, [("request_id", "id"), ("details", "dict")], True),
    "Register": (64, [("request_id", "id"), ("options", "dict"), ("procedure", "str")], False),
    "Registered": (65, [("request_id", "id"), ("registration_id", "id")], False),
    "Unregister": (66, [("request_id", "id"), ("registration_id", "id")], False),
    "Unregistered": (67, [("request_id", "id")], False),
    "Invocation": (68, [("request_id", "id"), ("registration_id", "id"), ("details", "dict")], True),
    "Interrupt": (69, [("request_id", "id"), ("options", "dict")], False),
    "Yield": (70, [("request_id", "id"), ("options", "dict")], True),
}
CODES = {code: name for name, (code, _, _) in SPEC.items()}
HELLO_DETAILS = ("roles", "authid", "authmethods", "authextra")
WELCOME_DETAILS = ("roles", "authid", "authrole", "authmethod", "authextra")

SERIALIZERS = {
    "json": serializers.JSONSerializer,
    "cbor": serializers.CBORSerializer,
    "msgpack": serializers.MsgPackSerializer,
}


def cls(name):
    return getattr(messages, name)


def field_names(name):
    code, fields, opt = SPEC[name]
    out = [f for f, kind in fields if f]
    if name == "Hello":
        out += HELLO_DETAILS
    if name == "Welcome":
        out += WELCOME_DETAILS
    return out + (["args", "kwargs"] if opt else [])


def make(name, **fields):
    """A message built the way an application builds one."""
    return cls(name)(getattr(messages, name + "Fields")(**fields))


def copied(v):
    """The same value in lists and dictionaries of its own."""
    if type(v) is list:
        return [copied(x) for x in v]
    if type(v) is dict:
        return {k: copied(x) for k, x in v.items()}
    return v


def build(name, **fields):
    """A message that shares no list or dictionary with what it was built from."""
    return make(name, **{k: copied(v) for k, v in fields.items()})


def type_name(msg):
    return type(msg).__name__


def fields(msg):
    """All protocol fields of a message through its public properties."""
    return {f: getattr(msg, f) for f in field_names(type_name(msg))}


PAYLOAD = ("Call", "Invocation", "Yield", "Result", "Event", "Error")


def binary(msg):
    """(payload, payload serializer, binary flag) of a message that may carry an opaque payload."""
    return msg.payload, msg.payload_serializer, msg.payload_is_binary()


def show(msg):
    if msg is None:
        return "None"
    try:
        return f"{type_name(msg)}({', '.join(f'{k}={v!r}' for k, v in fields(msg).items())})"
    except Exception:
        return repr(msg)


def to_array(name, f):
    """The wire array of a message with fields f, from the specification."""
    code, spec, opt = SPEC[name]
    arr = [code]
    for field, kind in spec:
        if kind == "hello":
            arr.append({k: f[k] for k in HELLO_DETAILS if f.get(k) is not None})
        elif kind == "welcome":
            arr.append({k: f[k] for k in WELCOME_DETAILS if f.get(k) is not None})
        else:
            arr.append(f[field])
    if opt:
        args, kwargs = f.get("args"), f.get("kwargs")
        if args is not None or kwargs is not None:
            arr.append([] if args is None else args)
        if kwargs is not None:
            arr.append(kwargs)
    return arr


def _fault_details(name, d, idx):
    faults = []
    if type(d) is not dict:
        return [(idx, None)]
    keys = [("authid", str), ("authmethods", list), ("authextra", dict)] if name == "Hello" else \
        [("authid", str), ("authrole", str), ("authmethod", str), ("authextra", dict)]
    for k, t in keys:
        v = d.get(k)
        if v is not None and type(v) is not t:
            faults.append((idx, k))
    roles = d.get("roles")
    if type(roles) is not dict or not roles or any(r not in ROLES for r in roles):
        faults.append((idx, "roles"))
    return faults


def faults(arr):
    """[] for a well-formed message array; otherwise the faulty (position, key) pairs or a structural fault."""
    if type(arr) is not list:
        return ["not a list"]
    if not arr:
        return ["empty"]
    if type(arr[0]) is not int:
        return ["type code is no integer"]
    name = CODES.get(arr[0])
    if name is None:
        return ["unknown type code"]
    code, spec, opt = SPEC[name]
    lo = 1 + len(spec)
    hi = lo + (2 if opt else 0)
    if not lo <= len(arr) <= hi:
        return ["length"]
    out = []
    for i, (field, kind) in enumerate(spec, 1):
        v = arr[i]
        if kind == "id":
            ok = type(v) is int and 1 <= v <= ID_MAX
        elif kind == "int":
            ok = type(v) is int
        elif kind == "str":
            ok = type(v) is str
        elif kind == "dict":
            ok = type(v) is dict
        else:
            out += _fault_details(name, v, i)
            continue
        if not ok:
            out.append((i, None))
    if len(arr) > lo and type(arr[lo]) is not list:
        out.append((lo, None))
    if len(arr) > lo + 1 and type(arr[lo + 1]) is not dict:
        out.append((lo + 1, None))
    return out


def from_array(arr):
    """(name, fields) of a well-formed array."""
    name = CODES[arr[0]]
    code, spec, opt = SPEC[name]
    f = {}
    for i, (field, kind) in enumerate(spec, 1):
        if kind == "hello":
            f.update({k: arr[i].get(k) for k in HELLO_DETAILS})
        elif kind == "welcome":
            f.update({k: arr[i].get(k) for k in WELCOME_DETAILS})
            if f["authextra"] is None:
                f["authextra"] = {}
        else:
            f[field] = arr[i]
    if opt:
        n = 1 + len(spec)
        f["args"] = arr[n] if len(arr) > n else None
        f["kwargs"] = arr[n + 1] if len(arr) > n + 1 else None
    return name, f


def same(a, b):
    """Equality that tells types apart (True from 1, 1 from 1.0) and treats NaN as equal to itself."""
    if type(a) is not type(b):
        return False
    if type(a) is dict:
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is float:
        return a == b or (a != a and b != b)
    return a == b


# what the options or details of a message may say besides what the message needs; it changes nothing
NOISE = ({}, {"progress": True, "receive_progress": True, "acknowledge": True, "x_foo": True, "x_kill": "x",
               "match": "prefix", "invoke": "roundrobin", "exclude_me": True, "exclude": [1, 2, 3, 1001, 1002, 1003], "eligible": [],
               "disclose_me": True, "timeout": 1, "mode": "kill", "force_reregister": True, "get_retained": True, "retain": True,
               "exclude_authid": ["user0", "user1"], "exclude_authrole": ["role"], "eligible_authid": [], "eligible_authrole": [],
               "caller": 1001, "callee": 1002, "publisher": 1001, "caller_authrole": "role", "trustlevel": 1, "topic": "com.u", "procedure": "com.q",
               "concurrency": 1, "runmode": "partition", "rkey": "x", "reflect": True, "message": "x", "reason": "x", "ppt_scheme": "mqtt",
               "ppt_serializer": "cbor", "request": 1, "invocation": 1, "subscription": 1, "registration": 1, "publication": 1, "session": 1001,
               "error": "wamp.error.canceled", "args": [1], "kwargs": {"a": 1}},
         {"progress": False, "receive_progress": False, "acknowledge": False, "x_none": None, "x_error": {},
                "match": "wildcard", "exclude_me": False, "eligible": [1001], "disclose_me": False, "timeout": 0, "": "",
                "eligible_authid": ["nobody"], "eligible_authrole": ["nobody"], "exclude_authid": [], "exclude_authrole": [], "match_": None,
                "concurrency": 0, "force_reregister": False, "retain": False, "get_retained": False, "mode": "skip"})
# every word of the code as a key, with each of these values and with each word as value
OF_ALL = (True, False, None, 0, 1, -1, 1.5, "", "x", [], ["x"], {}, {"x": 1}, 1001, [1001, 1002, 1003], [1, 2, 3], "user0", ["user0", "user1"], ["role"])
NOISE = NOISE + tuple({w: v for w in WORDS} for v in OF_ALL + tuple(WORDS))
IRRELEVANT = range(1, 3)
ANY_WORD = range(3, 3 + len(OF_ALL))
ANY_VALUE = range(3 + len(OF_ALL), len(NOISE))
TEXT_FIELDS = ("procedure", "topic", "uri", "reason")
SIGNIFICANT = {"Yield": ("progress",), "Result": ("progress",), "Publish": ("acknowledge",),
               "Call": ("progress", "receive_progress")}


def with_noise(k, name, f):
    key = next((x for x in ("options", "details") if x in f or x in field_names(name)), None)
    if not k or key is None:
        return f
    noise = {a: b for a, b in NOISE[k].items() if a not in SIGNIFICANT.get(name, ()) or b is False}
    return {**f, key: {**noise, **f.get(key, {})}}


def with_word(k, name, f):
    """Also names and URIs are the word."""
    f = with_noise(k, name, f)
    if k in ANY_VALUE:
        f = {**f, **{x: WORDS[k - ANY_VALUE[0]] for x in TEXT_FIELDS if x in f}}
    return f
