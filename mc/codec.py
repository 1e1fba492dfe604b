"""Standard codecs, alternative spellings of the same value, and the damages done to frames; nothing from /repo."""
import io
import json
import struct

import cbor2
import msgpack

DUMPS = {"json": json.dumps, "cbor": cbor2.dumps, "msgpack": msgpack.dumps}


class Undecodable(Exception):
    pass


def decode(ser, frame):
    """The value of a frame that is exactly one encoding, else Undecodable."""
    try:
        if ser == "json":
            return json.loads(frame)
        if ser == "cbor":
            fp = io.BytesIO(frame)
            value = cbor2.load(fp)
            if fp.read(1):
                raise ValueError("trailing data")
            return value
        return msgpack.loads(frame)
    except Exception as e:
        raise Undecodable(f"{type(e).__name__}: {e}") from None


def _cbor(b, i):
    """One item of core CBOR (no tags but big numbers) at position i; (value, next position)."""
    major, info = b[i] >> 5, b[i] & 31
    i += 1
    if major == 7:
        if info in (20, 21, 22):
            return (False, True, None)[info - 20], i
        if info in (25, 26, 27):
            n = 1 << info - 24
            if i + n > len(b):
                raise ValueError("truncated")
            return struct.unpack({2: ">e", 4: ">f", 8: ">d"}[n], b[i:i + n])[0], i + n
        raise ValueError(f"simple value {info}")
    n = None
    if info < 24:
        n = info
    elif info < 28:
        k = 1 << info - 24
        if i + k > len(b):
            raise ValueError("truncated")
        n, i = int.from_bytes(b[i:i + k], "big"), i + k
    elif info != 31 or major not in (2, 3, 4, 5):
        raise ValueError("reserved head")
    if major == 0:
        return n, i
    if major == 1:
        return -1 - n, i
    if major in (2, 3):
        if n is None:
            parts = []
            while b[i] != 255:
                if b[i] >> 5 != major or b[i] & 31 == 31:
                    raise ValueError("bad chunk")
                part, i = _cbor(b, i)
                parts.append(part)
            return (b"" if major == 2 else "").join(parts), i + 1
        if i + n > len(b):
            raise ValueError("truncated")
        raw = bytes(b[i:i + n])
        return (raw if major == 2 else raw.decode()), i + n
    if major in (4, 5):
        out, k = [], 0
        while (b[i] != 255) if n is None else k < n * (major - 3):
            v, i = _cbor(b, i)
            out.append(v)
            k += 1
        i += n is None
        return (out if major == 4 else dict(zip(out[::2], out[1::2], strict=True))), i
    v, i = _cbor(b, i)
    if n not in (2, 3) or type(v) is not bytes:
        raise ValueError(f"tag {n}")
    v = int.from_bytes(v, "big")
    return (v if n == 2 else -1 - v), i


def _refuse(*a):
    raise ValueError(f"no plain value: {a}")


def plain(ser, frame):
    """The value of a frame that any conforming decoder reads, without tags, extensions or non-standard words."""
    try:
        if ser == "json":
            return json.loads(frame, parse_constant=_refuse)
        if ser == "cbor":
            value, i = _cbor(frame, 0)
            if i != len(frame):
                raise ValueError("trailing data")
            return value
        return msgpack.loads(frame, ext_hook=_refuse)
    except Exception as e:
        raise Undecodable(f"{type(e).__name__}: {e}") from None


# ------------------------------------------------------------------------------------ alternative encodings
def cbor_wide(v):
    """CBOR with eight-byte heads everywhere."""
    def head(major, n):
        return bytes([major << 5 | 27]) + n.to_bytes(8, "big")
    if v is None or isinstance(v, (bool, float)):
        return cbor2.dumps(v)
    if isinstance(v, int):
        if -2**64 <= v < 2**64:
            return head(0, v) if v >= 0 else head(1, -1 - v)
        return cbor2.dumps(v)
    if isinstance(v, str):
        b = v.encode()
        return head(3, len(b)) + b
    if isinstance(v, bytes):
        return head(2, len(v)) + v
    if isinstance(v, list):
        return head(4, len(v)) + b"".join(map(cbor_wide, v))
    return head(5, len(v)) + b"".join(cbor_wide(k) + cbor_wide(x) for k, x in v.items())


def cbor_open(v):
    """CBOR with indefinite lengths everywhere, text and bytes in one-character chunks."""
    if isinstance(v, str):
        return b"\x7f" + b"".join(cbor2.dumps(c) for c in v[:40]) + (cbor2.dumps(v[40:]) if v[40:] else b"") + b"\xff"
    if isinstance(v, bytes):
        return b"\x5f" + b"".join(cbor2.dumps(v[i:i + 7]) for i in range(0, len(v), 7)) + b"\xff"
    if isinstance(v, list):
        return b"\x9f" + b"".join(map(cbor_open, v)) + b"\xff"
    if isinstance(v, dict):
        return b"\xbf" + b"".join(cbor_open(k) + cbor_open(x) for k, x in v.items()) + b"\xff"
    return cbor2.dumps(v)


def msgpack_wide(v):
    """MsgPack with the widest head everywhere."""
    if v is None or isinstance(v, (bool, float)):
        return msgpack.dumps(v)
    if isinstance(v, int):
        return b"\xcf" + struct.pack(">Q", v) if v >= 0 else b"\xd3" + struct.pack(">q", v)
    if isinstance(v, str):
        b = v.encode()
        return b"\xdb" + struct.pack(">I", len(b)) + b
    if isinstance(v, bytes):
        return b"\xc6" + struct.pack(">I", len(v)) + v
    if isinstance(v, list):
        return b"\xdd" + struct.pack(">I", len(v)) + b"".join(map(msgpack_wide, v))
    return b"\xdf" + struct.pack(">I", len(v)) + b"".join(msgpack_wide(k) + msgpack_wide(x) for k, x in v.items())


def json_escaped(v):
    """JSON with every character of every text as \\u escapes."""
    if isinstance(v, str):
        units = v.encode("utf-16-be", "surrogatepass")
        return '"' + "".join("\\u%02X%02x" % (units[i], units[i + 1]) for i in range(0, len(units), 2)) + '"'
    if isinstance(v, list):
        return "[" + ",".join(map(json_escaped, v)) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(json_escaped(k) + ":" + json_escaped(x) for k, x in v.items()) + "}"
    return json.dumps(v)


SPELLINGS = {
    "json": (lambda v: json.dumps(v, indent=1), lambda v: json.dumps(v, ensure_ascii=False, separators=(",", ":")),
             lambda v: "\r\n\t " + json.dumps(v, separators=(" ,\n", "\t:  ")) + " \n", json_escaped),
    "cbor": (cbor_wide, cbor_open, lambda v: cbor2.dumps(v, canonical=True)),
    "msgpack": (msgpack_wide, lambda v: msgpack.dumps(v, use_bin_type=True)),
}

# --------------------------------------------------------------------------------------------------- damage
JSON_CHARS = "[]{}\",:0159-+.eE tfnrulasN\\/ux\u00fc\x00\n"


def damages(ser, frame, wide=False):
    """Truncations, extensions and one-symbol substitutions, insertions, deletions of a frame."""
    if ser == "json":
        symbols = list(JSON_CHARS)
        if not wide:
            symbols = list("[]{}\",:01-.e tn\\x\u00fc")
    else:
        symbols = [bytes([i]) for i in (range(256) if wide else (
            *range(0, 256, 7), 0x18, 0x1b, 0x20, 0x40, 0x60, 0x7f, 0x80, 0x81, 0x90, 0x9f, 0xa0, 0xa1, 0xc0, 0xc1, 0xc2, 0xc3,
            0xc4, 0xca, 0xcb, 0xcf, 0xd0, 0xd6, 0xd9, 0xdc, 0xde, 0xdf, 0xe0, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xff))]
    n = len(frame)
    out = [frame[:i] for i in range(n)] + [frame[i:] for i in range(1, n)]
    every = list(map(chr, range(256))) + list("\u2028\ufeff\u00a0\u3000") if ser == "json" else [bytes([i]) for i in range(256)]
    out += [frame + s for s in every] + [s + frame for s in every] + [frame + frame]
    for i in range(n):
        out += [frame[:i] + s + frame[i + 1:] for s in symbols]
        out += [frame[:i] + s + frame[i:] for s in symbols]
        out.append(frame[:i] + frame[i + 1:])
        out.append(frame[:i] + frame[i:i + 1] * 2 + frame[i + 1:])
    if ser != "json":
        for bit in range(8 * n):
            b = bytearray(frame)
            b[bit // 8] ^= 1 << bit % 8
            out.append(bytes(b))
    for i in range(n - 1):
        out.append(frame[:i] + frame[i + 1:i + 2] + frame[i:i + 1] + frame[i + 2:])
    return list(dict.fromkeys(out))
