"""Explicit-state exploration of the real wampproto code.

A *world* holds fresh implementation objects of /repo and a small reference model.  `enabled()` lists the
operations (plain JSON-able tuples with symbolic handles, never raw generated IDs), `step(op)` performs one
operation on both and raises Mismatch when the observable behaviour differs, `canon()` is a canonical form of
implementation *and* model state.  A state is the operation history that reaches it; histories are replayed on
fresh objects, so no copying or patching of the implementation is needed.
"""
import collections
import contextlib
import functools
import hashlib
import io
import json
import marshal
import multiprocessing
import multiprocessing.connection
import os
import pickle
import re
import signal
import sys
import threading
import time
import traceback
import types

from mc import clock

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
STEP_TIMEOUT = 30
# the run stops exploring (and says so) after this time: a code change can make the state space larger
TIME_LIMIT = float(os.environ.get("MC_TIME_LIMIT") or ("20000" if os.environ.get("VERIF_TIER") == "thorough" else "600"))
START = clock.monotonic()


def out_of_time():
    return clock.monotonic() - START > TIME_LIMIT


class Mismatch(Exception):
    """The implementation's observable behaviour differs from the reference model's."""

    def __init__(self, tags, text):
        super().__init__(text)
        self.tags = frozenset(tags.split()) if isinstance(tags, str) else frozenset(tags)
        self.text = text

    def concerns(self, prop):
        return prop is None or prop in self.tags or "any" in self.tags

    @property
    def tag(self):
        return " ".join(sorted(self.tags))


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


# ----------------------------------------------------------------------------------------------- snapshots
_ADDR = re.compile(r" at 0x[0-9a-fA-F]+")
FUNCS = (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type(str.join), type(object.__init__))
ATOMS = (int, float, complex, str, bytes, bool, type(None))


class Weak(int):
    """An ID the model remembers; it only matters to a state if the implementation still knows it."""


def snapshot(obj, names=None, ids=None, ordered=True):
    """Structure of everything reachable from obj, independent of addresses.

    Shared mutable objects keep their identity as back references.  Nothing is assumed about attribute names or
    the classes involved.  With ids=(lo, hi), integers in that range are the generated IDs of this world and are
    replaced by `names` (ID -> name the model has for it) or else by their rank among the unnamed; "tok:N"
    strings are replaced by their rank: future behaviour depends on equality (and order) of such values only.
    With ordered=False the order of dictionary entries is dropped as well.
    """
    names = names or {}
    lo, hi = ids or (1, 0)
    ints, toks = set(), set()
    memo = {}
    keep = []
    out = []
    holes = []   # positions of out to be replaced by ranks at the end

    def key_of(k):
        if type(k) is int and k in names and lo <= k <= hi:
            return ("@", repr(names[k]))
        return (type(k).__name__, _ADDR.sub("", repr(k)))

    def walk(o):
        t = type(o)
        if t is int:
            if lo <= o <= hi:
                n = names.get(o)
                if n is not None:
                    out.append(("@", n))
                else:
                    ints.add(o)
                    holes.append(len(out))
                    out.append(("#", o))
            else:
                out.append(o)
        elif t is str:
            if o.startswith("tok:"):
                toks.add(int(o[4:]))
                holes.append(len(out))
                out.append(("$", int(o[4:])))
            else:
                out.append(o)
        elif t is Weak:
            n = names.get(int(o))
            if n is not None:
                out.append(("@", n))
            else:
                holes.append(len(out))
                out.append(("w", int(o)))
        elif t in ATOMS:
            out.append(o)
        elif isinstance(o, FUNCS):
            out.append(getattr(o, "__qualname__", t.__name__))
            if t is types.FunctionType and o.__closure__ and id(o) not in memo:
                memo[id(o)] = len(memo)
                keep.append(o)
                walk([c.cell_contents for c in o.__closure__ if not empty(c)])
        else:
            key = id(o)
            if key in memo:
                out.append(("ref", memo[key]))
                return
            memo[key] = len(memo)
            keep.append(o)
            out.append("<" + t.__name__)
            if t is list or t is tuple or isinstance(o, (list, tuple, collections.deque)):
                for x in o:
                    walk(x)
            elif isinstance(o, dict):
                items = o.items()
                if not ordered:
                    items = sorted(items, key=lambda kv: key_of(kv[0]))
                for k, v in items:
                    walk(k)
                    walk(v)
            elif isinstance(o, (set, frozenset)):
                for x in sorted(o, key=key_of):
                    walk(x)
            elif t is types.GeneratorType:
                if o.gi_frame is not None:
                    out.append(o.gi_frame.f_lasti)
                    walk(sorted(o.gi_frame.f_locals.items()))
            elif isinstance(o, types.MethodType):
                out.append(o.__func__.__qualname__)
                walk(o.__self__)
            else:
                attrs = attributes(o)
                if attrs is None:
                    out.append(_ADDR.sub("", repr(o)))
                else:
                    for k, v in attrs:
                        out.append(k)
                        walk(v)
            out.append(">")

    walk(obj)
    if holes:
        irank = {v: i for i, v in enumerate(sorted(ints))}
        trank = {v: i for i, v in enumerate(sorted(toks))}
        for i in holes:
            kind, v = out[i]
            out[i] = ("$", trank[v]) if kind == "$" else ("#", irank.get(v, -1))
    return out


def empty(cell):
    try:
        cell.cell_contents
        return False
    except ValueError:
        return True


_SLOTTED = {}


def attributes(o):
    """Sorted (name, value) pairs of an object's instance attributes, None if it has none to show."""
    t = type(o)
    names = _SLOTTED.get(t)
    if names is None:
        names = []
        for c in t.__mro__:
            slots = c.__dict__.get("__slots__", ())
            names += [n for n in ((slots,) if isinstance(slots, str) else slots) if n not in ("__dict__", "__weakref__")]
        _SLOTTED[t] = names
    d = getattr(o, "__dict__", None)
    if names:
        return sorted(list((d or {}).items()) + [(n, getattr(o, n)) for n in names if hasattr(o, n)])
    return None if d is None else sorted(d.items())


def held(fn):
    """What a function that is no part of a module or class holds."""
    if isinstance(fn, functools.partial):
        return [fn.func, fn.args, fn.keywords]
    if isinstance(fn, types.MethodType):
        return [fn.__self__]
    if isinstance(fn, types.BuiltinFunctionType):
        return [] if isinstance(fn.__self__, (type, types.ModuleType)) else [fn.__self__]
    if not isinstance(fn, types.FunctionType) or "<locals>" not in fn.__qualname__:
        return []
    out = list(fn.__defaults__ or ()) + list((fn.__kwdefaults__ or {}).values()) + list(vars(fn).values())
    for cell in fn.__closure__ or ():
        with contextlib.suppress(ValueError):
            out.append(cell.cell_contents)
    return out


def footprint(obj):
    """Number of container entries and characters of text reachable from obj."""
    seen, total, todo = set(), 0, [obj]
    while todo:
        o = todo.pop()
        if isinstance(o, (str, bytes, bytearray)):
            total += len(o)
            continue
        if type(o) is int:
            if o.bit_length() > 64:     # a set of small numbers kept as one large one
                total += o.bit_count()
            continue
        if isinstance(o, ATOMS):
            continue
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, FUNCS) or isinstance(o, (types.MethodType, functools.partial)):
            todo.extend(held(o))
            continue
        if isinstance(o, dict):
            total += len(o)
            todo.extend(o.keys())
            todo.extend(o.values())
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            total += len(o)
            todo.extend(o)
        else:
            attrs = attributes(o)
            if attrs is not None:
                total += len(attrs)
                todo.extend(v for _, v in attrs)
    return total


def ambient():
    """The same for all that the modules of /repo hold besides their instances: tables, caches, attributes of classes and functions."""
    total = 0
    seen = set()
    todo = [m for name, m in list(sys.modules.items()) if name == "wampproto" or name.startswith("wampproto.")]

    def ours(o):
        return (getattr(o, "__module__", None) or "").split(".")[0] == "wampproto"

    while todo:
        o = todo.pop()
        if isinstance(o, ATOMS):
            total += len(o) if isinstance(o, (str, bytes)) else footprint(o)
        elif isinstance(o, (property, staticmethod, classmethod)):
            todo += [getattr(o, n, None) for n in ("fget", "fset", "fdel", "__func__")]
        elif callable(getattr(o, "cache_info", None)) and ours(o):
            total += o.cache_info().currsize
            todo.append(getattr(o, "__wrapped__", None))
        elif isinstance(o, (types.ModuleType, type, types.FunctionType)):
            if id(o) in seen or not (ours(o) or isinstance(o, types.ModuleType) and (o.__name__ + ".").startswith("wampproto.")):
                continue
            seen.add(id(o))
            todo += [v for k, v in vars(o).items() if not (k.startswith("__") and k.endswith("__")) or k == "__init__"]
            total += len(vars(o))
            if isinstance(o, types.FunctionType):
                todo += list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values())
                for cell in o.__closure__ or ():
                    with contextlib.suppress(ValueError):
                        todo.append(cell.cell_contents)
        elif o is not None and not isinstance(o, FUNCS):
            total += footprint(o)
    return total


def digest(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=12).digest()


# ------------------------------------------------------------------------------------------------ stepping
def do_step(world, op):
    """One guarded step: a crash or a hang of the implementation is a mismatch too."""
    signal.setitimer(signal.ITIMER_REAL, STEP_TIMEOUT)
    try:
        pace = getattr(world, "pace", 0)
        if pace:
            world.passed = getattr(world, "passed", 0) + pace
            with clock.at(world.passed):
                world.step(op)
        else:
            world.step(op)
    except Mismatch:
        raise
    except Hang:
        raise Mismatch("any", f"{op!r} did not finish within {STEP_TIMEOUT} s")
    except Exception as e:
        raise Mismatch("any", f"{op!r} ended with unexpected {type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def timed(factory, pace):
    """Worlds in which that many seconds pass (or the clock is set back) with every step."""
    def make():
        w = factory()
        w.pace = pace
        return w
    return make


PACES = ((30.5, "half a minute"), (3601, "an hour"), (40 * 86400, "40 days"), (-3600, "an hour backwards"))


def replay(factory, hist):
    w = factory()
    for op in hist:
        do_step(w, op)
    return w


_FACTORY = None
_PROP = None


def freeze(world):
    """Bytes that thaw() turns into independent copies of the world, or None when it holds what cannot be copied."""
    if not getattr(world, "picklable", False):
        return None
    for pickler in (pickle.Pickler, Freezer):
        out = io.BytesIO()
        try:
            pickler(out, -1).dump(world)
            thaw(out.getvalue())
            return out.getvalue()
        except Exception:
            pass
    return None


thaw = pickle.loads


class Freezer(pickle.Pickler):
    """Also copies locks (as free ones) and functions that cannot be imported by name."""

    def reducer_override(self, o):
        if isinstance(o, (LOCK, RLOCK)):
            return type_lock, (isinstance(o, RLOCK),)
        if isinstance(o, types.FunctionType) and ("<" in o.__qualname__ or o.__closure__):
            state = (o.__defaults__, o.__kwdefaults__, o.__dict__, [c.cell_contents for c in o.__closure__ or ()])
            return bare_function, (marshal.dumps(o.__code__), o.__module__, o.__qualname__, len(state[3])), state, None, None, fill_function
        return NotImplemented


LOCK, RLOCK = type(threading.Lock()), type(threading.RLock())


def type_lock(again):
    return threading.RLock() if again else threading.Lock()


def bare_function(code, module, qualname, cells):
    f = types.FunctionType(marshal.loads(code), sys.modules[module].__dict__, closure=tuple(types.CellType() for _ in range(cells)))
    f.__qualname__ = qualname
    return f


def fill_function(f, state):
    f.__defaults__, f.__kwdefaults__ = state[:2]
    f.__dict__.update(state[2])
    for cell, value in zip(f.__closure__ or (), state[3]):
        cell.cell_contents = value


def _init_worker():
    signal.signal(signal.SIGALRM, _on_alarm)


def _expand(job):
    """Expands every history in the job by every enabled operation; all on fresh objects."""
    hists, want_canon = job
    out, n, steps, foreign, outcomes = [], 0, 0, 0, collections.Counter()
    for hist in hists:
        base = replay(_FACTORY, hist)
        frozen = None
        if len(hist) > 2:
            frozen = freeze(base)
        for op in base.enabled():
            n += 1
            try:
                if frozen is not None:
                    w = thaw(frozen)
                else:
                    w = replay(_FACTORY, hist)
                do_step(w, op)
            except Mismatch as m:
                if m.concerns(_PROP):
                    return {"bad": (hist + (op,), m.tag, m.text), "n": n}
                foreign += 1
                continue
            steps += 1
            outcomes[w.outcome()] += 1
            out.append((digest(w.canon()) if want_canon else None, hist + (op,)))
    return {"bad": None, "out": out, "n": n, "steps": steps, "foreign": foreign, "outcomes": outcomes}


class Result:
    def __init__(self, name):
        self.name = name
        self.states = 0
        self.transitions = 0
        self.steps = 0
        self.traces = 0      # histories run on the implementation that no longer history extends
        self.depth = 0
        self.foreign = 0
        self.fixpoint = False
        self.capped = None
        self.bad = None
        self.samples = []
        self.outcomes = collections.Counter()
        self.wall = 0.0

    def summary(self):
        d = dict(scenario=self.name, states=self.states, transitions=self.transitions, complete_traces=self.traces,
                 depth_completed=self.depth, all_reachable_states=self.fixpoint, wall_s=round(self.wall, 2),
                 distinct_outcomes=len(self.outcomes), outcomes=dict(self.outcomes.most_common(24)))
        if self.capped:
            d["cap"] = self.capped
        if self.foreign:
            d["pruned_other_properties"] = self.foreign
        return d


MAX_TRANSITIONS = 10**9 if os.environ.get("VERIF_TIER") == "thorough" else 10**6


def explore(name, factory, depth, max_transitions=MAX_TRANSITIONS, dedupe=True, prop=None, start=((),), collect=False):
    """Breadth-first over all histories up to `depth` (all states if a fixpoint comes first).

    With dedupe, histories reaching a state whose canonical form was seen before are not extended.
    The cap is checked between levels, so that everything up to the reported depth is complete.
    """
    global _FACTORY, _PROP
    _FACTORY, _PROP = factory, prop
    r, t0 = Result(name), time.time()
    signal.signal(signal.SIGALRM, _on_alarm)
    seen, frontier = set(), []
    for hist in start:
        try:
            w = replay(factory, hist)
        except Mismatch as m:
            if m.concerns(prop):
                r.bad = (tuple(hist), m.tag, m.text)
                return r
            r.foreign += 1
            continue
        seen.add(digest(w.canon()))
        frontier.append(tuple(hist))
    r.states = len(frontier)
    r.histories = list(frontier) if collect else None
    pool = None
    rate = 0
    try:
        for level in range(depth):
            if not frontier:
                r.fixpoint = dedupe
                break
            if rate and r.transitions + rate * len(frontier) > max_transitions:
                r.capped = f"stopped before depth {level + 1}: {len(frontier)} states x {rate:.0f} operations " \
                           f"exceeds {max_transitions} transitions"
                break
            size = max(1, min(64, len(frontier) // (NPROC * 4) or 1))
            jobs = [(frontier[i:i + size], dedupe) for i in range(0, len(frontier), size)]
            if len(jobs) < 4 or NPROC == 1:
                results = map(_expand, jobs)
            else:
                if pool is None:
                    pool = Workers(_expand)
                results = pool.imap(jobs)
            nxt, bads, before = [], [], r.transitions
            for res in results:
                r.transitions += res["n"]
                if res["bad"]:
                    bads.append(res["bad"])
                    break
                r.steps += res["steps"]
                r.foreign += res["foreign"]
                r.outcomes.update(res["outcomes"])
                for c, hist in res["out"]:
                    if c is not None:
                        if c in seen:
                            continue
                        seen.add(c)
                    nxt.append(hist)
                if out_of_time():
                    r.capped = f"stopped by the time limit of {TIME_LIMIT} s in depth {level + 1}"
                    break
            if bads:
                r.bad = bads[0]
                break
            r.states += len(nxt)
            if collect:
                r.histories += nxt
            if r.capped:
                break
            rate = (r.transitions - before) / max(1, len(frontier))
            r.traces = r.steps - (r.states - len(nxt) - len(start)) if dedupe else len(nxt)
            frontier = nxt
            r.depth = level + 1
            if nxt:
                r.samples = [list(nxt[len(nxt) // 2])]
        else:
            if dedupe and not frontier:
                r.fixpoint = True
    finally:
        if pool is not None:
            pool.close()
    r.wall = time.time() - t0
    return r


def clone_factory(world, hist):
    """A function giving independent copies of a world (by pickling, or else by replaying its history)."""
    frozen = freeze(world)
    if frozen is not None:
        return lambda: thaw(frozen)
    return lambda: replay(_FACTORY, hist)


def pump(name, factory, hists, cycle, times, prop=None, probe=True, want=None):
    """From each history: every enabled cycle of `cycle` operations repeated up to `times` times, then every operation.

    Finds what only shows after many repetitions, which breadth-first search does not reach.
    """
    global _FACTORY, _PROP
    _FACTORY, _PROP = factory, prop
    r, t0 = Result(name), time.time()
    signal.signal(signal.SIGALRM, _on_alarm)

    parts = max(1, -(-4 * NPROC // max(1, len(hists)))) if cycle > 1 else 1

    def one(job):
        hist, part = job
        n, loops, bad = 0, 0, None
        base = replay(_FACTORY, hist)
        copy = clone_factory(base, hist)

        def run(w, op, done):
            nonlocal bad, n
            n += 1
            try:
                do_step(w, op)
                return True
            except Mismatch as m:
                if m.concerns(_PROP):
                    bad = (tuple(done) + (op,), m.tag, m.text)
                return False

        def cycles(w, copy_w, prefix):
            if len(prefix) == cycle:
                yield prefix, w
                return
            for k, op in enumerate(w.enabled()):
                if want is not None and not want(op) or not prefix and k % parts != part:
                    continue
                w2 = copy_w()
                if not run(w2, op, hist + prefix):
                    if bad:
                        return
                    continue
                p2 = prefix + (op,)
                if len(p2) == cycle:
                    yield p2, w2
                else:
                    yield from cycles(w2, clone_factory(w2, hist + p2), p2)
                if bad:
                    return

        for cyc, w in cycles(base, copy, ()):
            if bad:
                break
            done = list(hist) + list(cyc)
            ok = True
            for _ in range(times - 1):
                for op in cyc:
                    if op not in w.enabled():
                        ok = False
                        break
                    if not run(w, op, done):
                        ok = False
                        break
                    done.append(op)
                if not ok:
                    break
            if bad:
                break
            loops += 1
            if ok and probe:
                cp = clone_factory(w, tuple(done))
                for op in w.enabled():
                    run(cp(), op, done)
                    if bad:
                        break
        return n, loops, bad

    for n, loops, bad in pmap(one, [(h, k) for h in hists for k in range(parts)], chunk=1):
        r.transitions += n
        r.traces += loops
        if bad and r.bad is None:
            r.bad = bad
            break
        if out_of_time():
            r.capped = f"stopped by the time limit of {TIME_LIMIT} s"
            break
    r.depth = times * cycle
    r.wall = time.time() - t0
    r.samples = [[list(hists[-1]), f"(every {cycle}-operation cycle) x {times}"]] if hists else []
    return r


def growth(w, home, cyc, done, anew, closely):
    """(operations run, sizes that keep growing or None) of a closed walk repeated."""
    global _EPOCH
    _EPOCH += closely * 1000
    n, sizes, around = 0, [footprint(w.impl())], {}
    for goal in (6, 40, 200, 600):
        while len(sizes) <= goal:
            if anew:
                w.refresh(_EPOCH + len(sizes))
            for op in cyc:
                if op not in w.enabled():
                    return n, None
                n += 1
                try:
                    do_step(w, op)
                except Mismatch:
                    return n, None
                done.append(op)
            if w.model_key() != home:
                return n, None
            sizes.append(footprint(w.impl()))
            if closely and len(sizes) - 1 in (1, goal // 2, goal):
                around[len(sizes) - 1] = ambient()
        here = sizes[-1] > sizes[len(sizes) // 2] > sizes[1]
        there = closely and around[goal] > around[goal // 2] > around[1]
        if not here and not there:
            return n, None
    return n, sizes if here else sorted(around.items())


def round_trips(name, factory, homes, max_states, what="C09"):
    """For every operation in every state a home leads to: the shortest walk there, the operation, the shortest walk home.

    Repeated as in `leaks`, so that walks of any length are covered, though not every one of them.
    """
    global _FACTORY, _PROP
    _FACTORY, _PROP = factory, what
    r, t0 = Result(name), time.time()
    signal.signal(signal.SIGALRM, _on_alarm)
    jobs = []
    for hist in homes:
        base = replay(_FACTORY, hist)
        start = repr(base.model_key())
        there, back, edges, todo = {start: ()}, {}, [], [(start, clone_factory(base, hist), base.enabled())]
        for key, copy, ops in todo:     # grows while it is gone through
            for op in ops:
                w = copy()
                r.transitions += 1
                try:
                    do_step(w, op)
                except Mismatch:
                    continue
                to = repr(w.model_key())
                if w.rejected() and to != key:
                    continue
                edges.append((key, op, to))
                if to not in there and len(there) < max_states:
                    there[to] = there[key] + (op,)
                    todo.append((to, clone_factory(w, tuple(hist) + there[to]), w.enabled()))
        back[start] = ()
        before = collections.defaultdict(list)
        for a, op, b in edges:
            if a != b:
                before[b].append((a, op))
        todo = [start]
        for b in todo:
            for a, op in before[b]:
                if a not in back:
                    back[a] = (op,) + back[b]
                    todo.append(a)
        cycles = list(dict.fromkeys(there[a] + (op,) + back[b] for a, op, b in edges if b in back))
        r.states += len(there)
        jobs += [(tuple(hist), cycles[k:k + 40]) for k in range(0, len(cycles), 40)]

    def one(job):
        hist, cycles = job
        n = 0
        base = replay(_FACTORY, hist)
        home, copy = base.model_key(), clone_factory(base, hist)
        before = ambient()
        for closely in (False, True):
            for cyc in cycles:
                for anew in (False, True):
                    k, sizes = growth(copy(), home, cyc, list(hist), anew, closely)
                    n += k
                    if sizes:
                        return n, len(cycles), (hist + cyc, what, f"repeating {list(cyc)!r}{' with new IDs and names each time' if anew else ''} after "
                                                f"{list(hist)!r} makes the retained state grow: {sizes[:8]} ... {sizes[-1]} (600 repetitions)")
            if ambient() <= before:
                break
        return n, len(cycles), None

    for n, loops, bad in pmap(one, jobs, chunk=1):
        r.transitions += n
        r.traces += loops
        if bad and r.bad is None:
            r.bad = bad
            break
        if out_of_time():
            r.capped = f"stopped by the time limit of {TIME_LIMIT} s"
            break
    r.depth = max((len(c) for _, cs in jobs for c in cs), default=0)
    r.wall = time.time() - t0
    if jobs:
        r.samples = [[list(jobs[-1][0]), f"{list(jobs[-1][1][-1])!r} repeated"]]
    return r


_EPOCH = 0


def leaks(name, factory, hists, length, what="C09"):
    """Every closed walk (same model state before and after) of accepted operations, and every single rejected one,
    repeated: the memory retained must not keep growing."""
    global _FACTORY, _PROP
    _FACTORY, _PROP = factory, what
    r, t0 = Result(name), time.time()
    signal.signal(signal.SIGALRM, _on_alarm)

    def one(hist):
        """All walks from one history; a second time and more closely if anything outside the instances has grown."""
        before = ambient()
        n, loops, bad = walks(hist, False)
        if not bad and ambient() > before:
            n2, loops, bad = walks(hist, True)
            n += n2
        return n, loops, bad

    def walks(hist, closely):
        n, loops, bad = 0, 0, None
        base = replay(_FACTORY, hist)
        home = base.model_key()

        def grows(w, cyc, done, anew):
            nonlocal n
            k, sizes = growth(w, home, cyc, done, anew, closely)
            n += k
            return sizes

        def walk(copy, ops, prefix):
            nonlocal n, loops, bad
            for op in ops:
                w = copy()
                n += 1
                try:
                    do_step(w, op)
                except Mismatch:
                    continue
                rejected = w.rejected()
                if rejected and prefix:
                    continue
                cyc = prefix + (op,)
                if w.model_key() == home:
                    loops += 1
                    again = clone_factory(w, hist + cyc)
                    for anew in (False, True):
                        sizes = grows(again(), cyc, list(hist) + list(cyc), anew)
                        if sizes:
                            bad = (tuple(hist) + cyc, what, f"repeating {list(cyc)!r}{' with new IDs and names each time' if anew else ''} after "
                                   f"this history makes the retained state grow: {sizes[:8]} ... {sizes[-1]} (600 repetitions)")
                            return
                elif len(cyc) < length and not rejected:
                    walk(clone_factory(w, hist + cyc), w.enabled(), cyc)
                    if bad:
                        return

        walk(clone_factory(base, hist), base.enabled(), ())
        return n, loops, bad

    for n, loops, bad in pmap(one, hists, chunk=1):
        r.transitions += n
        r.traces += loops
        if bad and r.bad is None:
            r.bad = bad
            break
        if out_of_time():
            r.capped = f"stopped by the time limit of {TIME_LIMIT} s"
            break
    r.depth = length
    r.wall = time.time() - t0
    r.states = len(hists)
    r.samples = [[list(hists[-1]), f"(every closed walk of up to {length} operations) repeated"]] if hists else []
    return r


class Died(Exception):
    """A worker process ended in the middle of a job."""


class Workers:
    """Forked workers, each with a connection of its own and no lock that one ending early could leave behind.

    (multiprocessing.Pool can hang when it is terminated while results are on their way.)
    """

    QUEUED = 3          # jobs a worker has at a time, as long as they are small enough for the connection to hold
    SMALL = 40_000

    def __init__(self, fn, n=None, jobs_each=None):
        self.ctx = multiprocessing.get_context("fork")
        self.fn, self.n, self.jobs_each = fn, n or NPROC, jobs_each
        self.workers = {}       # connection -> [process, jobs it was given, in order]

    def start(self):
        ours, theirs = self.ctx.Pipe()
        p = self.ctx.Process(target=self._serve, args=(theirs, ours, list(self.workers)), daemon=True)
        p.start()
        theirs.close()
        self.workers[ours] = [p, collections.deque(), 0]

    def _serve(self, conn, ours, others):
        for c in [ours] + others:
            c.close()
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        _init_worker()
        while True:
            try:
                i, item = pickle.loads(conn.recv_bytes())
            except EOFError:
                os._exit(0)
            try:
                out = i, True, self.fn(item)
                data = pickle.dumps(out)
            except BaseException as e:
                text = "".join(traceback.format_exception(e))
                try:
                    data = pickle.dumps((i, False, e, text))
                    pickle.loads(data)
                except BaseException:
                    data = pickle.dumps((i, False, RuntimeError(text), text))
            try:
                conn.send_bytes(data)
            except OSError:
                os._exit(0)

    def imap(self, items):
        """The results of all items in their order."""
        items = list(items)
        todo, results, shown = collections.deque(range(len(items))), {}, 0
        tried = collections.Counter()
        while len(self.workers) < min(self.n, len(items)):
            self.start()
        data = {}
        while shown < len(items):
            for conn, w in list(self.workers.items()):
                while todo and len(w[1]) < (1 if self.jobs_each else self.QUEUED):
                    i = todo[0]
                    if i not in data:
                        data[i] = pickle.dumps((i, items[i]))
                    if w[1] and len(data[i]) > self.SMALL:
                        break
                    todo.popleft()
                    w[1].append(i)
                    w[2] += 1
                    try:
                        conn.send_bytes(data[i])
                    except OSError:
                        break       # it has ended, as the next read tells
            for conn in multiprocessing.connection.wait([c for c, w in self.workers.items() if w[1]]):
                p, given, _ = self.workers[conn]
                try:
                    got = pickle.loads(conn.recv_bytes())
                except (EOFError, OSError):
                    self.gone(conn, todo, tried)
                    continue
                given.remove(got[0])
                data.pop(got[0], None)
                results[got[0]] = got[1:]
                if self.jobs_each and self.workers[conn][2] >= self.jobs_each:
                    self.end(conn)
                    if todo:
                        self.start()
            while shown in results:
                got = results.pop(shown)
                shown += 1
                if not got[0]:
                    sys.stderr.write(got[2])
                    raise got[1]
                yield got[1]

    def gone(self, conn, todo, tried):
        p, given, _ = self.workers[conn]
        self.end(conn)
        for i in reversed(given):
            todo.appendleft(i)
        tried[given[0]] += 1
        if tried[given[0]] > 2:
            raise Died(f"a process of this check ended with code {p.exitcode} in the same job three times")
        self.start()

    def end(self, conn):
        p = self.workers.pop(conn)[0]
        conn.close()
        p.join(0.05 if self.jobs_each else 0)
        if p.is_alive():
            p.kill()
        p.join()

    def close(self):
        for conn in list(self.workers):
            self.workers[conn][0].kill()
            self.end(conn)


def pmap(fn, items, chunk=None):
    """Parallel ordered map over a list with forked workers (closures allowed)."""
    items = list(items)
    if NPROC == 1 or len(items) < 2:
        signal.signal(signal.SIGALRM, _on_alarm)
        for i in items:
            yield fn(i)
        return
    size = chunk or max(1, min(32, len(items) // (NPROC * 4) or 1))
    workers = Workers(lambda part: [fn(i) for i in part])
    try:
        for part in workers.imap(items[i:i + size] for i in range(0, len(items), size)):
            yield from part
    finally:
        workers.close()


# ------------------------------------------------------------------------------------------------- reports
class Check:
    """Collects scenario results of one property, writes evidence and ends the process."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.results = []
        self.cover = {}
        self.assumptions = []
        self.samples = []
        self.counts = collections.Counter()
        self.rules = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def run(self, name, factory, depth, **kw):
        return self.take(explore(name, factory, depth, prop=self.prop, **kw))

    def pump(self, name, factory, hists, cycle, times, **kw):
        return self.take(pump(name, factory, hists, cycle, times, prop=self.prop, **kw))

    def take(self, r):
        name = r.name
        self.results.append(r)
        if r.bad:
            hist, tag, text = r.bad
            self.violation(name, {"ops": [list(o) for o in hist]}, f"[{tag}] {text}")
        return r

    def violation(self, scenario, data, text):
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        path = os.path.join(VERIF, "out", f"{self.prop}-{re.sub(r'[^A-Za-z0-9_.-]', '_', scenario)}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "scenario": scenario, "what": text, **data}, f, indent=1, default=repr)
            f.write("\n")
        print(f"{self.prop} {scenario}: {text}")
        if "ops" in data:
            for i, o in enumerate(data["ops"]):
                print(f"   {i + 1}. {tuple(o)!r}")
        print(f"VIOLATION property={self.prop} replay={path}")
        self.evidence(1)
        sys.stdout.flush()
        sys.exit(1)

    def evidence(self, violations):
        cov = {}
        if self.results:
            cov["states"] = sum(r.states for r in self.results)
            cov["transitions"] = sum(r.transitions for r in self.results)
            cov["traces_validated_against_impl"] = sum(r.traces for r in self.results)
            cov["scenarios"] = [r.summary() for r in self.results]
            for r in self.results:
                self.samples.extend(r.samples[:1])
        if self.counts:
            cov["evaluations"] = cov.get("evaluations", 0) + self.counts["evaluations"]
            cov["distinct_nontrivial"] = self.counts["distinct_nontrivial"]
            cov["rule"] = " ".join(self.rules)
            cov["parts"] = {k: v for k, v in self.counts.items() if k not in ("evaluations", "distinct_nontrivial")}
        if self.level == "model_checking":
            for k in ("states", "transitions", "traces_validated_against_impl"):
                cov.setdefault(k, 0)
        cov["samples"] = [repr(s)[:2000] if len(repr(s)) > 2000 or not isinstance(s, (list, dict, str)) else s for s in self.samples[:12]] or ["-"]
        cov.update(self.cover)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")

    def done(self):
        self.evidence(0)
        tot = {k: sum(getattr(r, k) for r in self.results) for k in ("states", "transitions")}
        for r in self.results:
            cap = f" CAP {r.capped}" if r.capped else ""
            print(f"  {r.name}: states={r.states} transitions={r.transitions} depth={r.depth}"
                  f"{' (all reachable states)' if r.fixpoint else ''} outcomes={len(r.outcomes)} {r.wall:.1f}s{cap}")
        print(f"OK property={self.prop} tier={self.tier} {tot} {dict(self.counts)} {time.time() - self.t0:.1f}s")
        sys.stdout.flush()
        sys.exit(0)
