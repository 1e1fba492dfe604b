"""The vocabulary of the code under test: words and numbers that occur as constants in it.

They only extend the alphabets (option keys and values, names, sizes).  What a message must do does not depend on them, so a
tree with more or other constants is judged the same way; but code that treats some word or size specially is met with it.
"""
import ast
import os
import re
import sys

from mc.core import REPO

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import wampproto  # noqa: E402

ROOT = os.path.dirname(os.path.abspath(wampproto.__file__))
WORD = re.compile(r"[^\s{}%()\[\]]{1,64}")


def constants():
    words, numbers = set(), set()
    for folder, _, files in sorted(os.walk(ROOT)):
        for name in sorted(files):
            if not name.endswith(".py"):
                continue
            with open(os.path.join(folder, name), encoding="utf-8") as f:
                try:
                    tree = ast.parse(f.read())
                except SyntaxError:
                    continue
            for node in ast.walk(without_exports(tree)):
                if isinstance(node, ast.BinOp):
                    try:
                        value = eval(compile(ast.Expression(node), "?", "eval"), {"__builtins__": {}}) if small(node) else None
                    except Exception:  # noqa: BLE001
                        value = None
                elif isinstance(node, ast.Constant):
                    value = node.value
                else:
                    continue
                if isinstance(value, bytes):
                    value = value.decode("latin-1")
                if isinstance(value, str) and WORD.fullmatch(value):
                    words.add(value)
                elif type(value) in (int, float) and value == value and abs(value) < 2**70:
                    numbers.add(int(value))
    return sorted(words), sorted(numbers)


def without_exports(tree):
    tree.body = [x for x in tree.body if not (isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in x.targets))]
    return tree


def small(node):
    """Only numbers and arithmetic with small exponents."""
    return all(isinstance(x, (ast.BinOp, ast.operator, ast.UnaryOp, ast.unaryop)) or
               isinstance(x, ast.Constant) and type(x.value) in (int, float) and abs(x.value) < 2**64 for x in ast.walk(node)) and \
        not any(isinstance(x, (ast.Pow, ast.LShift)) for x in ast.walk(node.left)) and \
        all(abs(x.value) <= 64 for x in ast.walk(node.right) if isinstance(x, ast.Constant))


WORDS, NUMBERS = constants()
# names made of them, and names whose length is near one of the numbers
ROUND = (64, 100, 128, 255, 256, 500, 512, 1000, 1024, 2048, 4096, 10_000, 65_535)
NAMES = tuple(dict.fromkeys([n for w in WORDS for n in (w, w + ".x", "x." + w, w + "x")] + [
    name for n in sorted({*ROUND, *(n for n in NUMBERS if 8 <= n <= 100_000)})
    for name in ("com." + "a" * (n - 4), "com." + "a" * (n - 4) + "b", "com." + "a" * (n - 4) + "c", "com." + "a" * (n - 5))]))
# lengths and counts around which something may change
SIZES = sorted({m for n in NUMBERS if 2 <= n <= 20_000 for m in (n - 1, n, n + 1)})
