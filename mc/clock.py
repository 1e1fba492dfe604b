"""The clocks the code under test may look at, under the control of the explorer.

Imported before anything of /repo.  Outside of steps of worlds that ask for it the clocks show the real time.
"""
import contextlib
import datetime
import importlib
import time

for _name in ("cbor2", "msgpack", "nacl.signing"):      # these keep the real classes
    with contextlib.suppress(ImportError):
        importlib.import_module(_name)

_real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "process_time", "time_ns", "monotonic_ns", "perf_counter_ns",
                                       "gmtime", "localtime", "strftime", "ctime", "asctime")}
monotonic = _real["monotonic"]
_state = {"offset": 0, "frozen": None}


def _now(name):
    base = (_state["frozen"] or {}).get(name) or _real[name]()
    off = _state["offset"]
    return base + (off * 10**9 if name.endswith("_ns") else off)


def _reading(name):
    def read():
        return _now(name) if _state["offset"] or _state["frozen"] else _real[name]()
    read.__name__ = name
    return read


def _broken_down(name):
    def read(secs=None):
        return _real[name](time.time() if secs is None else secs)
    read.__name__ = name
    return read


def _strftime(fmt, t=None):
    return _real["strftime"](fmt, time.localtime() if t is None else t)


for _n in ("time", "monotonic", "perf_counter", "process_time", "time_ns", "monotonic_ns", "perf_counter_ns"):
    setattr(time, _n, _reading(_n))
for _n in ("gmtime", "localtime", "ctime"):
    setattr(time, _n, _broken_down(_n))
time.strftime = _strftime


class _Meta(type(datetime.datetime)):
    def __instancecheck__(cls, x):
        return isinstance(x, _datetime)

    def __subclasscheck__(cls, x):
        return issubclass(x, _datetime)


_datetime, _date = datetime.datetime, datetime.date


class Datetime(_datetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        return _datetime.fromtimestamp(time.time(), tz)

    @classmethod
    def utcnow(cls):
        return _datetime.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return _datetime.fromtimestamp(time.time())


Datetime.__name__ = Datetime.__qualname__ = "datetime"
datetime.datetime = Datetime


@contextlib.contextmanager
def at(offset=0, frozen=False):
    """The clocks are that many seconds off, or stand still."""
    before = dict(_state)
    _state["offset"] = offset
    if frozen:
        _state["frozen"] = {n: _real[n]() for n in ("time", "monotonic", "perf_counter", "process_time", "time_ns", "monotonic_ns", "perf_counter_ns")}
    try:
        yield
    finally:
        _state.update(before)
