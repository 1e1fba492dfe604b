"""Replays a violation file: ./run.sh out/C03-....json

A history of operations is replayed step by step on fresh objects of /repo; a violation that is an input rather than
a history is looked for by running the check again.  Exit 1 when the violation shows, 0 when it does not.
"""
import json
import os
import signal
import sys

from mc import core
from mc.main import find


def tuples(x):
    return tuple(tuples(y) for y in x) if isinstance(x, list) else x


class Replay(core.Check):
    def __init__(self, data):
        super().__init__(data["property"])
        self.data = data
        self.found = False

    def run(self, name, factory, depth, **kw):
        if name == self.data["scenario"]:
            self.play(factory)
        return core.Result(name)

    def pump(self, name, factory, *a, **kw):
        return self.run(name, factory, 0)

    def play(self, factory):
        signal.signal(signal.SIGALRM, core._on_alarm)
        w = factory()
        for i, op in enumerate(self.data["ops"]):
            op = tuples(op)
            try:
                core.do_step(w, op)
            except core.Mismatch as m:
                print(f"{i + 1}. {op!r}\nVIOLATION property={self.prop} replay={sys.argv[1]}\n{m.text}")
                sys.exit(1)
            print(f"{i + 1}. {op!r}: {w.outcome()}")
        print("the history shows no violation")
        sys.exit(0)

    def take(self, r):
        if r.bad and r.name == self.data["scenario"]:
            super().take(r)
        return r

    def evidence(self, violations):
        pass


def main():
    with open(sys.argv[1]) as f:
        data = json.load(f)
    os.environ.setdefault("VERIF_TIER", "quick")
    fn = find(data["property"])
    if "ops" not in data:
        c = core.Check(data["property"])
        c.evidence = lambda violations: None
        fn(c)
    else:
        fn(Replay(data))
    print("the check shows no violation")


if __name__ == "__main__":
    main()
