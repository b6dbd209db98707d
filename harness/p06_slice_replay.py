# -*- coding: utf-8 -*-
"""P06: re-running the code of a variable's backward slice in a fresh interpreter recreates its value."""
import builtins

from harness.p01_transparency import norm
from symx.api import Harness
from symx.engine import sym_eq
from symx.ipf import NB, boot

PROPERTY = "P06"
PROP = {'id': 'P06',
 'title': "Replaying a variable's slice recreates its value",
 'statement': "Running the code returned as a variable's backward slice in a fresh interpreter, with only "
              'the external inputs provided, defines the variable with the same value it has in the '
              'notebook. This holds after any history of assignments, in-place mutations, deletions, '
              'aliasing, loops and function calls.',
 'quantifier': {'over': ['programs', 'inputs', 'histories'],
                'text': 'all menu programs up to the stated length after a fixed preamble, all values of the '
                        'symbolic integers'},
 'why_tests_cant': 'Slicing tests compare statement numbers for fixed programs; none re-executes slices, and '
                   'none covers all values or statement combinations.',
 'anchors': {'files': ['core/ipyflow/slicing/mixin.py',
                       'core/ipyflow/data_model/symbol.py',
                       'core/ipyflow/data_model/statement.py',
                       'core/ipyflow/data_model/cell.py'],
             'mechanism': [{'name': 'dynamic dependency edges per statement and cell',
                            'where': 'core/ipyflow/slicing/mixin.py'},
                           {'name': 'timestamps of a symbol and of its elements',
                            'where': 'core/ipyflow/data_model/symbol.py'}],
             'observe_at': ['public lifted API: code of a symbol'],
             'hook_needed': None},
 'level_note': 'bounded: programs from the menu, values symbolic; oracle is CPython running the returned '
               'slice'}

PREAMBLE = [
    "x = a + 1",
    "y = b",
    "lst = [x, y]",
    "class P:\n    def __init__(self, v):\n        self.v = v\n    def inc(self):\n        self.v += y\n        return self\no = P(x)",
    "def f(q):\n    return q + y",
]

MENU = [
    "x = y + 1",
    "y = x",
    "x += y",
    "z = x",
    "x, y = y, x",
    "z = lst[0] + lst[-1]",
    "lst.append(x)",
    "lst[0] = y",
    "lst = [x]",
    "lst += [y]",
    "del lst[0]",
    "z = sum(lst)",
    "z = f(x)",
    "def f(q):\n    return q * 2",
    "o.v = y",
    "o.inc()",
    "z = o.v",
    "o = P(y)",
    "for i in lst:\n    x = x + i",
    "if x > y:\n    z = x\nelse:\n    z = y",
    "z = [v + y for v in lst]",
    "d = {'k': x, 'j': lst}",
    "try:\n    z = lst[5]\nexcept IndexError:\n    z = x",
    "while x < 3:\n    x = x + 1",
    "m = lst\nm.append(y)",
]
NAMES = ["x", "y", "z", "lst", "o", "d", "i", "m"]


def fresh(c, a, b, code):
    ns = {"__name__": "__main__", "__builtins__": builtins, "a": a, "b": b}
    exec(compile(code, "<slice>", "exec"), ns)
    return ns


def lost_deletion(history):
    """Known finding: the slice of a list loses an element deletion that a later update or
    use of the list follows."""
    return "del lst[0]" in history[:-1] or (history.count("del lst[0]") > 0 and history[-1] != "del lst[0]")


def check_var(c, nb, a, b, v, text, label, history):
    # only the known shape gets its own signature: the slice lacks a deletion that was executed
    sig = None
    if v in ("lst", "m", "z", "x", "d") and lost_deletion(history) and text.count("del lst[0]") < history.count("del lst[0]"):
        sig = "slice-loses-list-deletion"
    try:
        ns = fresh(c, a, b, text)
    except Exception as e:
        c.check(False, label + "-runs", "slice of %s raised %r:\n%s" % (v, e, text), sig=sig)
        return
    if not c.check(v in ns, label + "-defines", "slice of %s does not define it:\n%s" % (v, text)):
        return
    got, want = norm(ns[v], {}), norm(nb.ns[v], {})
    c.check(sym_eq(got, want), label + "-value",
            lambda: "%s is %r but replaying its slice gives %r:\n%s" % (v, want, got, text), sig=sig)


def variables(c):
    nb = NB(dynamic_slicing_enabled=True, static_slicing_enabled=c.params.get("static", True))
    a, b = c.user_int("a", -2, 2), c.user_int("b", -2, 2)
    nb.ns["a"], nb.ns["b"] = a, b
    for i, s in enumerate(PREAMBLE):
        assert nb.run(s, "p%d" % i).error is None
    menu = MENU[c.params.get("offset", 0)::c.params.get("stride", 1)]
    history = []
    for k in range(c.params["steps"]):
        s = c.pick("s%d" % k, menu)
        c.note(s)
        history.append(s)
        r = nb.run(s, "c%d" % k)
        if r.error is not None:
            c.note("raised %r" % r.error)
            return
    for v in NAMES:
        if v in nb.ns and nb.gsym(v) is not None:
            check_var(c, nb, a, b, v, str(nb.gsym(v).code(format_type=str)), "slice", history)


HARNESSES = [
    Harness("variables", variables,
            lambda p: "%d statements from a menu of %d after a fixed preamble" % (p["steps"], len(MENU)),
            quick={"steps": 2}, thorough={"steps": 3, "stride": 2}, setup=boot,
            must_reach=["assert:slice-value"]),
]
