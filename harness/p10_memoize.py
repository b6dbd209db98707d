# -*- coding: utf-8 -*-
"""P10: a memoized cell that is skipped leaves what re-running it would leave."""
from harness.p01_transparency import Ref, err, norm
from symx.api import Harness
from symx.engine import sym_eq
from symx.ipf import NB, boot

PROPERTY = "P10"
PROP = {
 "id": "P10", "title": "Memoized cells give the results of re-running them",
 "statement": "After any history of cell executions, running a memoized cell leaves every variable with the value that running its code would leave, whether or not the cached result was used: inputs that differ in value, type, length or order, functions redefined or with changed dependencies, inputs and results mutated after the cached run, cells that update their own inputs, and cells that failed are all told apart. When all inputs are primitives and containers equal to those of an earlier run, the cell is skipped.",
 "quantifier": {"over": ["histories", "inputs", "programs"], "text": "all histories up to the bound over producer variants, memoized cell bodies and mutations, all values of the symbolic integers (their equality decides cache hits)"},
 "why_tests_cant": "Six tests re-run fixed cells with literal inputs; soundness of the cache ranges over all pairs of runs, all input shapes and everything that happens between the runs.",
 "anchors": {"files": ["core/ipyflow/data_model/cell.py", "core/ipyflow/data_model/symbol.py", "core/ipyflow/shell/interactiveshell.py", "core/ipyflow/memoization/__init__.py"],
  "mechanism": [{"name": "comparable snapshots of the inputs", "where": "core/ipyflow/data_model/symbol.py"}, {"name": "lookup of an earlier execution and restoration of its outputs", "where": "core/ipyflow/data_model/cell.py"}],
  "observe_at": ["user namespace after run_cell", "skipped_due_to_memoization_ctr"], "hook_needed": None},
 "level_note": "bounded: histories up to the stated length; oracle is CPython running the same code without memoization; values are compared, object identity of results is not",
}
NAMES = ["x", "y", "z", "w", "o", "k"]

X = [
    "x = a", "x = b", "x = [a, b]", "x = [b]", "x = (a, b)", "x = [a, [b]]", "x = [a, (b,)]", "x = {'k': a}", "x = {'k': a, 'j': b}",
    "x = {'j': b, 'k': a}", "x = [['j', b], ['k', a]]", "x = {1, 2}", "x = {2, 3}", "x = True", "x = 1", "x = 1.0", "x = '1'", "x = None", "x = []",
    "x = {1: 2, 'q': 3}", "x = frozenset({1, 2})", "x = b'1'", "x = bytearray(b'1')", "x = [True, a]", "x = [1, a]",
]
M = ["y = [x, 7]", "y = [type(x), x]", "y = list(x) if hasattr(x, '__len__') else 0", "z = w\ny = [x, w]", "y = str(type(x))\nz = 5"]


def step(c, nb, ref, code, cid, names=NAMES):
    plain = "\n".join(code.splitlines()[1:]) if code.startswith("%%memoize") else code
    c.note("[%s] %s" % (cid, code))
    ref.run(plain)
    r = nb.run(code, cid)
    c.check(err(r.error) == err(ref.error), "memo-exception",
            lambda: "%r raised %r, re-running raises %r" % (code, r.error, ref.error))
    for k in names:
        c.check((k in nb.ns) == (k in ref.ns), "memo-names", lambda: "%s after %r" % (k, code))
        if k in nb.ns and k in ref.ns:
            got, want = norm(nb.ns[k], {}), norm(ref.ns[k], {})
            c.check(sym_eq(got, want), "memo-value",
                    lambda: "after %r: %s is %r, re-running gives %r" % (code, k, got, want))
    return nb.cells().from_id(cid)


def start(c):
    nb, ref = NB(), Ref()
    for name in "ab":
        v = c.user_int(name, -2, 2)
        nb.ns[name] = v
        ref.ns[name] = v
    return nb, ref


def inputs(c):
    """two runs of the memoized cell with any two inputs"""
    nb, ref = start(c)
    xs = X[c.params["off"]::c.params["stride"]]
    step(c, nb, ref, "w = b", "w0")
    first = c.choice("x0", len(xs))
    step(c, nb, ref, xs[first], "x0")
    m = "%%memoize\n" + c.pick("m", M)
    cell = step(c, nb, ref, m, "m0")
    c.check(cell.skipped_due_to_memoization_ctr == -1, "first-run-executes")
    second = c.choice("x1", len(xs))
    step(c, nb, ref, xs[second], "x0")
    cell = step(c, nb, ref, m, "m0")
    skipped = cell.skipped_due_to_memoization_ctr > 0
    c.reach("skipped" if skipped else "executed")
    if first == second and xs[first] not in ("x = None",):
        c.check(skipped, "equal-inputs-are-skipped", lambda: "%r then the same" % xs[first])


BETWEEN = [
    "x = a", "x = [a, b]", "x = b", "x = w", "w[0] = a", "w = [a]", "x = len(y) if 'y' in globals() else 0", "y.append(9)", "y[0] = b", "y = 3", "del y", "y = [x, 7]", "w = a", "z = y\nz.append(1)", "x = [x, 5]",
    "M", "pass", "k.v = a", "k.u[0] = a", "k.u = [a, b]", "k = K()\nk.v = a\nk.u = [a]",
]
MB = ["y = [x, 7]", "y = [x]\nz = w", "y = [[x], w]\nk = [y]", "x = [x, 1]", "w.append(x)", "y = [x]\ny.append(w)", "w += [1]", "y = {'x': x}",
      "if x == b:\n    y = [w]\nelse:\n    y = []", "for v in [x]:\n    y = [v]", "y = [v for v in w]", "w[0] = x", "x = 4\ny = [x]", "y = [x]\nw = [y]", "y = [x]\nk = {'y': [x]}", "def o(q):\n    return [q, x]", "y = 1 // x", "y = (x, w[0])", "y = w[0]", "y = k.v", "y = k.u[0]", "w.append(x)\ny = w[0]", "w[0] = x\ny = w[0]", "y = w[0]\nw = [x]", "y = w\ny[0] = x", "k.v = x\ny = k.v", "y = k.v\nk.u = [y]", "v = k.u\nv.append(x)\ny = [v[0]]", "import math\ny = [math.floor(w[0])]",
      "y = [x]\nassert x == b\nz = 2", "y = [w]\nz = 1 // a", "y = [x]\ndel undefined"]


def history(c):
    nb, ref = start(c)
    step(c, nb, ref, "w = [b]", "w0")
    step(c, nb, ref, "x = a", "x0")
    step(c, nb, ref, "class K:\n    pass\nk = K()\nk.v = b\nk.u = [b]", "k0")
    m = "%%memoize\n" + c.pick("m", MB)
    step(c, nb, ref, m, "m0")
    for k in range(c.params["steps"]):
        s = c.pick("s%d" % k, BETWEEN)
        if s == "M":
            step(c, nb, ref, m, "m0")
        else:
            step(c, nb, ref, s, "x0" if s.startswith("x =") else "w0" if s.startswith("w =") else "s%d" % k)
    cell = step(c, nb, ref, m, "m0")
    c.reach("skipped" if cell.skipped_due_to_memoization_ctr > 0 else "executed")


FUNCS = [
    "def f(q):\n    return [q, w]", "def f(q, r=w):\n    return [q, r]", "def f(q):\n    return [q]", "def f(q):\n    return g(q)",
    "f = lambda q: [q, w]", "f = lambda q, r=w: [q, r]",
    "class f:\n    c = w\n    def __new__(cls, q):\n        return [q, cls.c]", "class f(h):\n    pass",
    "def f(q):\n    v = [q]\n    v.append(w)\n    return v", "f = g",
    "def f(q, *, r=w):\n    return [q, r]", "def mk(n):\n    return lambda q: [q, n]\nf = mk(w)",
    "def mk(n):\n    def inner(q):\n        return [q, n]\n    return inner\nf = mk(w)", "def f(q):\n    def inner():\n        return [q, w]\n    return inner()", "f = {'f': g}['f']", "import functools\nf = functools.partial(g)",
    "class f(list):\n    pass\nf.__init__ = lambda self, q: self.append(w)",
    "@deco\ndef f(q):\n    return [q]", "def f(q):\n    return [q, k[0]]",
]
FBETWEEN = ["pass", "w = a", "w = [a]", "w[0] = a", "def g(q):\n    return (q, w)", "def g(q):\n    return q", "F", "class h:\n    def __new__(cls, q):\n        return [q, q]",
            "def deco(p):\n    return lambda q: [q, q]", "F2", "k[0] = a", "f.c = 5", "k.append(a)", "k = [a]", "def deco(p):\n    return lambda q: [p(q), w]"]


def functions(c):
    """memoized cells whose inputs are functions and classes"""
    nb, ref = start(c)
    step(c, nb, ref, "w = b", "w0")
    step(c, nb, ref, "k = [a]", "k0")
    step(c, nb, ref, "def g(q):\n    return [q, w, 1]", "g0")
    step(c, nb, ref, "class h:\n    def __new__(cls, q):\n        return [q, w]", "h0")
    step(c, nb, ref, "def deco(p):\n    return lambda q: [p(q), w]", "d0")
    f = c.pick("f", FUNCS)
    step(c, nb, ref, f, "f0")
    m = "%%memoize\ny = f(3)"
    step(c, nb, ref, m, "m0")
    for k in range(c.params["steps"]):
        s = c.pick("s%d" % k, FBETWEEN)
        if s == "F2":
            s = c.pick("f%d" % k, FUNCS)
        if s == "F":
            s = f
        cid = {"def f": "f0", "class": "h0", "def g": "g0", "def d": "d0", "w = a": "w0"}.get(s[:5], "s%d" % k)
        if s in FUNCS:
            cid = "f0"
        step(c, nb, ref, s, cid)
    cell = step(c, nb, ref, m, "m0")
    c.reach("skipped" if cell.skipped_due_to_memoization_ctr > 0 else "executed")


OBJECTS = ["x = K(a)", "x = K(b)", "x = np.array([1, 2])", "x = np.array([1, 3])", "x = np.array([1.0, 2.0])", "x = np.array([[1, 2]])", "x = np.array([1, 2], dtype=object)", "x = pd.DataFrame({'k': [1, 2]})", "x = pd.DataFrame({'k': [1, 3]})",
           "x = pd.DataFrame({'j': [1, 2]})", "x = pd.Series([1, 2])", "x = [K(a)]", "x = {'o': K(b)}", "x = bytearray(b'12')", "x = range(3)", "x = np.int64(1)", "x = np.float64(1)", "x = L([1])", "x = L([1])\nx.v = 3"]
TOUCH = ["pass", "x.v = b", "x[0] = 1", "x[0] = 7", "x['k'] = 5", "x = x", "x.k[0] = 9", "OTHER", "x0", "x0\nOTHER", "w = x\nw.v = b"]
SHOW = """
import numpy as np
import pandas as pd
class L(list):
    pass
class K:
    def __init__(self, v):
        self.v = v
def show(q):
    if isinstance(q, (np.ndarray, np.generic)):
        return [str(q.dtype), q.tolist()]
    if isinstance(q, pd.DataFrame):
        return [[str(j) for j in q.columns], q.values.tolist()]
    if isinstance(q, pd.Series):
        return q.tolist()
    if isinstance(q, K):
        return ['K', q.v]
    if isinstance(q, L):
        return ['L', list(q), vars(q).get('v')]
    if isinstance(q, bytearray):
        return [int(i) for i in q]
    if isinstance(q, dict):
        return [[i, show(j)] for i, j in q.items()]
    if isinstance(q, list):
        return [show(j) for j in q]
    return [q, str(type(q))]
"""


def objects(c):
    """inputs that are objects, arrays and frames, replaced and changed in place between the runs"""
    nb, ref = start(c)
    ref.run(SHOW)
    nb.run(SHOW, "pre")
    x0 = c.pick("x0", OBJECTS)
    step(c, nb, ref, x0, "x0", ["y"])
    m = "%%memoize\ny = show(x)"
    step(c, nb, ref, m, "m0", ["y"])
    t = c.pick("touch", TOUCH)
    for part in t.split("\n"):
        if part == "OTHER":
            step(c, nb, ref, c.pick("x1", OBJECTS), "x0", ["y"])
        elif part == "x0":
            step(c, nb, ref, x0, "x0", ["y"])
        else:
            step(c, nb, ref, part, "t0", ["y"])
    cell = step(c, nb, ref, m, "m0", ["y"])
    skipped = cell.skipped_due_to_memoization_ctr > 0
    c.reach("skipped" if skipped else "executed")
    if t in ("pass", "x0") and x0.startswith(("x = np.array([1, 2])", "x = pd", "x = np.int64", "x = bytearray")):
        c.check(skipped, "equal-inputs-are-skipped", lambda: "%r then the same" % x0, sig=x0)


HARNESSES = [
    Harness("inputs", inputs, lambda p: "every pair out of %d input values (every %d-th) x %d memoized bodies" % (len(X), p["stride"], len(M)),
            outside="other input types", quick={"off": 0, "stride": 1}, thorough={"off": 0, "stride": 1}, setup=boot, must_reach=["skipped", "executed"]),
    Harness("history", history, lambda p: "%d memoized bodies, %d steps out of %d between the runs" % (len(MB), p["steps"], len(BETWEEN)),
            outside="longer histories", quick={"steps": 1}, thorough={"steps": 2}, setup=boot, must_reach=["skipped", "executed"]),
    Harness("objects", objects, lambda p: "%d inputs (instances, ndarrays, frames, series, bytearrays, list subclasses), %d things in between" % (len(OBJECTS), len(TOUCH)),
            outside="other classes; changes made through views of arrays and frames", quick={}, thorough={}, setup=boot, must_reach=["skipped", "executed"]),
    Harness("functions", functions, lambda p: "%d functions / classes, %d steps out of %d between the runs" % (len(FUNCS), p["steps"], len(FBETWEEN)),
            outside="longer histories", quick={"steps": 1}, thorough={"steps": 2}, setup=boot, must_reach=["skipped", "executed"]),
]
