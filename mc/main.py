"""Runs the check of one property: python -m mc.main C01"""
import importlib
import sys

from mc.core import Check

MODULES = ("checks_router", "checks_client", "checks_handshake", "checks_wire", "checks_misc", "checks_network")


def find(prop):
    for name in MODULES:
        try:
            m = importlib.import_module("mc." + name)
        except ModuleNotFoundError as e:
            if e.name != "mc." + name:
                raise
            continue
        if prop in m.CHECKS:
            return m.CHECKS[prop]
    raise SystemExit(f"no check for {prop}")


def main():
    prop = sys.argv[1]
    fn = find(prop)
    c = Check(prop, getattr(fn, "level", "model_checking"))
    fn(c)
    c.done()


if __name__ == "__main__":
    main()
