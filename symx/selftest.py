# -*- coding: utf-8 -*-
"""Sanity of the tool chain: the engine finds a planted counterexample and proves its absence."""
import os
import shutil
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from symx import engine  # noqa: E402


def good(c):
    a, b = c.int("a", 0, 9), c.int("b", 0, 9)
    m = a if a > b else b
    c.check(m >= a, "max")
    c.check(m >= b, "max")


def bad(c):
    a, b = c.int("a", 0, 9), c.int("b", 0, 9)
    m = a if a > 7 else b
    c.check(m >= a, "max")


def main():
    d = tempfile.mkdtemp(prefix="symx-selftest-")
    try:
        r = engine.explore(good, workers=4, timeout_s=60, workdir=os.path.join(d, "g"))
        assert r["paths"] == 2 and not r["violations"] and not r["truncated"] and not r["crashes"], r
        r = engine.explore(bad, workers=4, timeout_s=60, workdir=os.path.join(d, "b"))
        assert r["violations"], r
        m = r["violations"][0]["model"]
        assert engine.replay(bad, m), m
    finally:
        shutil.rmtree(d, ignore_errors=True)
    from symx.ipf import NB

    nb = NB()
    assert nb.run("x = 1").error is None and nb.ns["x"] == 1
    print("selftest ok")


if __name__ == "__main__":
    main()
