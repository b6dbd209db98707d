# -*- coding: utf-8 -*-
"""P01: running code under dataflow tracking does what plain Python does."""
import ast
import builtins
import contextlib
import io
import re
import sys
import types

from symx.api import Harness
from symx.engine import SYMS, UserInt, sym_and, sym_eq
from symx.ipf import NB, boot

PROPERTY = "P01"
PROP = {'id': 'P01',
 'title': 'Tracked execution is indistinguishable from plain Python',
 'statement': 'Running a sequence of cells with dataflow tracking on leaves the same variable values, '
              'output, result and raised exception as running the same code in plain Python, for every '
              'program and all input values. This holds inside functions, loops, branches and try blocks, '
              'when cells are re-run, and when tracking is switched off and on between cells. Reactive '
              'modifiers in front of names change no value.',
 'quantifier': {'over': ['programs', 'inputs'],
                'text': 'all programs built from the statement menu in every structural position, all values '
                        'of the symbolic integers they read'},
 'why_tests_cant': 'The tests assert on the dependency state after a few hand-written programs; none '
                   'compares tracked to untracked execution over all input values and all statement '
                   'combinations.',
 'anchors': {'files': ['core/ipyflow/tracing/ipyflow_tracer.py',
                       'core/ipyflow/shell/interactiveshell.py',
                       'core/ipyflow/tracing/flow_ast_rewriter.py',
                       'core/ipyflow/tracing/utils.py'],
             'mechanism': [{'name': 'AST instrumentation whose handlers return the traced value unchanged',
                            'where': 'core/ipyflow/tracing/ipyflow_tracer.py'},
                           {'name': 'cell execution under tracing context',
                            'where': 'core/ipyflow/shell/interactiveshell.py'}],
             'observe_at': ['run_cell result and error', 'user namespace'],
             'hook_needed': None},
 'level_note': 'bounded: all paths of the real tracer for menu programs up to the stated length, values '
               'symbolic; the oracle is CPython executing the same source in a plain namespace with the same '
               'symbolic values'}

PREAMBLE = '''
lst = [a, b, 5]
nest = [[a, 1], [b, 2]]
d = {'k': a, 'j': b}
tup = (a, b)
log = []
class P:
    cls_attr = 10
    def __init__(self, v):
        self.v = v
        self.w = [v]
    def get(self):
        return self.v
    def add(self, k):
        self.v = self.v + k
        return self
    @property
    def prop(self):
        return self.v + 1
    @staticmethod
    def st(q):
        return q + 1
    @classmethod
    def cm(cls, q):
        return cls.cls_attr + q
    def __getitem__(self, i):
        return self.w[i]
    def __setitem__(self, i, v):
        self.w[i] = v
    def __enter__(self):
        log.append('enter')
        return self
    def __exit__(self, *exc):
        log.append('exit')
        return False
o = P(a)
def f(x, y=1):
    return x + y
def g(*args, **kw):
    t = 0
    for q in args:
        t += q
    for k in kw:
        t += kw[k]
    return t
def gen(m):
    i = 0
    while i < m:
        yield i + a
        i += 1
def mut(z):
    z.append(b)
    return z
def rec(m):
    if m <= 0:
        return 0
    return 1 + rec(m - 1)
def deco(fn):
    def inner(*args):
        log.append('deco')
        return fn(*args) + 1
    return inner
def raiser(x):
    if x > 0:
        raise ValueError('pos')
    return x
'''

# every statement is valid after the preamble; several raise for some values
MENU = [
    "x = a + b",
    "x = lst",
    "x, y = b, a",
    "x, *y = lst",
    "(x, y), z = (a, b), lst",
    "x = y = a",
    "lst[0] = b",
    "lst[n] = a",
    "lst[-1] += b",
    "lst.append(a)",
    "lst.insert(n, b)",
    "x = lst.pop()",
    "x = lst.pop(n)",
    "lst.extend([a, b])",
    "lst += [b]",
    "del lst[0]",
    "del lst[n:]",
    "lst.remove(5)",
    "lst.reverse()",
    "lst.clear()",
    "lst[:2] = [b]",
    "x = lst[n]",
    "x = nest[0][1] + nest[1][0]",
    "nest[0][n - 1] = b",
    "nest.append(lst)",
    "d['k'] = b",
    "d['new'] = lst",
    "x = d.get('zz', a)",
    "x = d.pop('k')",
    "d.update(k=b, q=a)",
    "del d['j']",
    "x = d['missing']",
    "x = {**d, 'k': 1}",
    "x = {'p': [a, {'q': b}], 'r': (a, lst)}",
    "x = [*lst, *tup]",
    "x = {v for v in range(n)}",
    "x = o.v + o.w[0]",
    "o.v = b",
    "o.w.append(a)",
    "o.v += 1",
    "o.new = lst",
    "del o.v",
    "x = o.get()",
    "x = o.add(a).add(b).v",
    "x = o.prop",
    "x = P.st(a) + P.cm(b)",
    "P.cls_attr = a\nx = o.cls_attr",
    "o[0] = b\nx = o[0]",
    "x = o.nope",
    "x = f(a)",
    "x = f(y=b, x=a)",
    "x = g(a, b, *tup, k=1, **d)",
    "x = f(f(a, b), f(b))",
    "x = f(*tup)",
    "x = list(gen(n))",
    "x = sum(gen(n))",
    "x = mut(lst)",
    "x = mut(mut([a]))",
    "x = rec(n)",
    "x = [v + 1 for v in lst if v > 0]",
    "x = {k: v + 1 for k, v in d.items()}",
    "x = [u + v for u in tup for v in (1, 2)]",
    "x = list(map(lambda v: v + b, lst))",
    "x = (lambda p, q=b: p + q)(a)",
    "x = a if b > 0 else lst",
    "x = a > 0 and b",
    "x = not a or b",
    "x = 0 < a < b",
    "x = (y := a + 1) + y",
    "x = f'{a}-{b!r}-{n}'",
    "if a > b:\n    x = a\nelif a == b:\n    x = 0\nelse:\n    y = b",
    "for i in range(n):\n    x = i + a\nelse:\n    y = i if n else 7",
    "for v in lst:\n    if v > 0:\n        break\n    x = v\nelse:\n    y = 1",
    "i = 0\nwhile i < n:\n    i += 1\n    if i == 1:\n        continue\n    lst.append(i)",
    "for i, v in enumerate(lst):\n    lst[i] = v + 1",
    "for u, v in zip(lst, tup):\n    x = u + v",
    "try:\n    x = raiser(a)\nexcept ValueError as e:\n    x = 'caught'\nelse:\n    y = 2\nfinally:\n    z = 3",
    "try:\n    x = lst[7]\nexcept (IndexError, KeyError):\n    x = -1",
    "x = raiser(a)",
    "with o as oo:\n    oo.v = 9\n    x = raiser(a)",
    "assert a > 0, 'neg'",
    "def h(u):\n    return u + a\nx = h(b)",
    "def h(u=lst):\n    u.append(1)\n    return len(u)\nx = h() + h()",
    "@deco\ndef h(u):\n    return u + a\nx = h(b)",
    "def mk(u):\n    c = [u]\n    def inner(v):\n        nonlocal u\n        u = u + v\n        c.append(u)\n        return c\n    return inner\nx = mk(a)\nx(1)\ny = x(b)",
    "def setg():\n    global a\n    a = b + 1\n    return a\nx = setg()",
    "class Q(P):\n    extra = a\n    def get(self):\n        return super().get() + self.extra\nx = Q(b).get()",
    "class Q:\n    z = [a]\n    for i in range(2):\n        z.append(i)\nx = Q.z",
    "import math\nx = math.floor(2.5)",
    "from math import ceil as cc\nx = cc(2.5)",
    "x = sorted([3, 1, 2], key=lambda v: -v)",
    "x = [lst, lst]\nx[0].append(b)",
    "x = lst\nx.append(a)\ny = lst[-1]",
    "del a",
    "x = undefined_name",
    "x = len(lst) + len(d)",
    "x = max(1, 3) - abs(-2)",
    "x = isinstance(o, P) and hasattr(o, 'v')",
    "x = tup[0], tup[1:]",
    "x = 'abc'[n]",
    "x: int = a",
    "x = o if o is not None else None",
    "x = [i for i in (j for j in range(n))]",
    "x = {'a': 1}['a'] + [1, 2][0] + (lambda: b)()",
    "a += 1\nb -= a",
    "x = print",
    "pass",
    "o2 = o\no2.v = b\nx = o.v",
    "x = type(o)(a).get()",
    "x = [f, g][0](a)",
    "x = d.setdefault('k', b) + d.setdefault('n', 1)",
    "x = a in lst",
    "x = lst == [a, b, 5]",
    "x = lst is lst\ny = lst is [*lst]",
    "x = getattr(o, 'v') + getattr(o, 'zzz', b)",
    "setattr(o, 'v', b)\nx = o.v",
    "x = lst.index(b)",
    "x = lst.count(5)",
    "lst.sort(key=lambda v: 0)",
    "x = lst.copy()\nx.append(1)",
    "x = lst * 2",
    "match n:\n    case 0:\n        x = a\n    case 1:\n        x = b\n    case _:\n        x = 3",
]


def norm(v, ids, depth=0):
    """A structural picture of a value, preserving aliasing between containers."""
    if isinstance(v, SYMS) or v is None or isinstance(v, (bool, int, float, str, range)):
        return v
    if id(v) in ids:
        return ("ref", ids[id(v)])
    if isinstance(v, (list, tuple, set, frozenset, dict)) or type(v).__module__ in ("__main__", "builtins"):
        ids[id(v)] = len(ids)
    if isinstance(v, BaseException):
        return ("exc", type(v).__name__, str(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(norm(x, ids) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted(v, key=str))
    if isinstance(v, dict):
        return ("dict",) + tuple((k, norm(x, ids)) for k, x in v.items())
    if isinstance(v, types.ModuleType):
        return ("module", v.__name__)
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        return ("function", v.__name__)
    if isinstance(v, type):
        if v.__module__ == "builtins":
            return ("type", v.__name__)
        return ("type", v.__name__,
                norm({k: x for k, x in vars(v).items() if not k.startswith("__")
                      and not isinstance(x, (types.FunctionType, property, staticmethod, classmethod))}, ids))
    if hasattr(v, "__dict__"):
        return ("obj", type(v).__name__, norm(dict(vars(v)), ids))
    return ("opaque", type(v).__name__)


NAMES = ["cnt", "a", "b", "n", "lst", "nest", "d", "tup", "log", "o", "x", "y", "z", "i", "u", "v", "k",
         "e", "oo", "h", "mk", "P", "Q", "math", "cc", "o2", "q", "f", "g", "t", "w", "K", "G", "ob"]


def picture(ns):
    ids = {}
    return {k: norm(ns[k], ids) for k in NAMES if k in ns}


class Ref:
    """Plain Python."""

    def __init__(self):
        self.ns = {"__name__": "__main__", "__builtins__": builtins}
        self.error = None

    def run(self, code):
        self.error = None
        try:
            exec(compile(code, "<ref>", "exec"), self.ns)
        except Exception as e:
            self.error = e


def err(e):
    return None if e is None else (type(e).__name__, str(e))


def compare(c, nb, ref, code, got_err, tag):
    sig = None
    if isinstance(ref.error, UnboundLocalError) and type(got_err) is AttributeError \
            and "'NoneType' object has no attribute 'startswith'" in str(got_err):
        sig = "unbound-local-reported-as-attribute-error"
    elif isinstance(ref.error, UnboundLocalError) and type(got_err) is NameError \
            and "cannot access free variable" in str(got_err):
        sig = "unbound-local-in-a-display-reported-as-free-variable"
    elif ref.error is None and isinstance(got_err, TypeError) and str(got_err).endswith("object is not callable") \
            and re.search(r"(try|match).*(await|async) .*\n +(except|case)", code, re.S):
        sig = "coroutine-suspended-within-a-statement"
    c.check(err(got_err) == err(ref.error), "same-exception" + tag,
            lambda: "%r: tracked raised %r, plain Python %r" % (code, got_err, ref.error), sig=sig)
    got, want = picture(nb.ns), picture(ref.ns)
    c.check(set(got) == set(want), "same-names" + tag,
            lambda: "%r: names %s" % (code, set(got) ^ set(want)), sig=sig)
    for k in want:
        if k in got:
            c.check(sym_eq(got[k], want[k]), "same-value" + tag,
                    lambda: "after %r: %s is %r, plain Python has %r" % (code, k, got[k], want[k]))


def start(c, settings, preamble=PREAMBLE):
    nb = NB(**settings)
    ref = Ref()
    for name, v in (("a", c.user_int("a", -2, 2)), ("b", c.user_int("b", -2, 2)), ("n", 1)):
        nb.ns[name] = v
        ref.ns[name] = v
    ref.run(preamble)
    assert ref.error is None
    r = nb.run(preamble, "c0")
    compare(c, nb, ref, "preamble", r.error, ":preamble")
    return nb, ref


def step(c, nb, ref, code, cid):
    if "n" not in c.choices and re.search(r"\bn\b", code):
        # n drives iteration counts and indices, so it is an ordinary int: one value per path
        nb.ns["n"] = ref.ns["n"] = c.choice("n", 3)
    c.note("[%s] %s" % (cid, code))
    ref.run(code)
    r = nb.run(code, cid)
    compare(c, nb, ref, code, r.error, "")
    return r


def separate_cells(c):
    nb, ref = start(c, {})
    menu = MENU[:: c.params.get("stride", 1)]
    for k in range(c.params["steps"]):
        step(c, nb, ref, c.pick("s%d" % k, menu), "c%d" % (k + 1))


def one_cell(c):
    """All statements in one cell, inside a function body, a loop, or a branch."""
    nb, ref = start(c, {})
    stmts = [c.pick("s%d" % k, MENU) for k in range(c.params["steps"])]
    body = "\n".join(stmts)
    shape = c.choice("shape", 5)
    ind = "\n".join("    " + l for l in body.splitlines())
    if shape == 1:
        glob = "    global " + ", ".join(n for n in ("x", "y", "z", "i", "a", "b")) + "\n"
        body = "def wrap():\n" + glob + ind + "\nwrap()"
        if "global" in ind or "nonlocal" in ind or "x: int" in ind or "import" in ind:
            return
    elif shape == 2:
        body = "for rep in range(2):\n" + ind
    elif shape == 3:
        body = "if a >= b:\n" + ind + "\nelse:\n    z = 1"
    elif shape == 4:
        body = "try:\n" + ind + "\nfinally:\n    z = 4"
    step(c, nb, ref, body, "c1")
    c.reach("shape%d" % shape)


def rerun(c):
    """The same cell run twice; re-execution is transparent too."""
    nb, ref = start(c, {})
    s = c.pick("s0", MENU)
    step(c, nb, ref, s, "c1")
    step(c, nb, ref, s, "c1")
    step(c, nb, ref, "z = (a if 'a' in globals() else 0)\nlst.append(b)\nx = lst[0] if lst else None", "c2")


def toggled(c):
    """Tracking switched off and on between cells; reactive modifiers in front of names."""
    nb, ref = start(c, {})
    s = c.pick("s0", MENU)
    mode = c.choice("mode", 3)
    if mode == 0:
        nb.run("%flow disable", "m1")
        step(c, nb, ref, s, "c1")
        nb.run("%flow enable", "m2")
        step(c, nb, ref, "lst.append(b)\nx = lst[-1]", "c2")
    elif mode == 1:
        step(c, nb, ref, s, "c1")
        # `$` modifiers are stripped before execution
        code = "x = $b + $$b"
        c.note(code)
        ref.run(code.replace("$", ""))
        r = nb.run(code, "c2")
        compare(c, nb, ref, code, r.error, ":modifier")
    else:
        r = nb.run("%config InteractiveShell.ast_node_interactivity = 'last_expr'", "m")
        step(c, nb, ref, s + "\n42", "c1")


# ---- lambdas and functions handed to library code ---------------------------------------
CALLBACKS = [
    "p = functools.partial(lambda: f(x))",
    "p = functools.partial(lambda v=q(): [v, x])",
    "p = functools.partial(lambda v=x, *, w=q(): [v, w])",
    "l = lambda: x\np = functools.partial(l)\nz = p.func is l",
    "p = functools.partial(f, x)",
    "def mk():\n    loc = x\n    r = functools.partial(lambda: loc)\n    loc = b\n    return r\np = mk()",
    "def mk():\n    loc = 0\n    def up():\n        nonlocal loc\n        loc += 1\n        return loc\n    return functools.partial(lambda: [up(), loc])\np = mk()",
    "def mk():\n    x = 9\n    return functools.partial(lambda k=x: [k, x])\np = mk()",
    "fs = []\nfor i in range(2):\n    fs.append(functools.partial(lambda k=i: [k, x, i]))\np = lambda: [g() for g in fs]",
    "p = functools.partial(lambda: h())",
    "p = functools.partial(lambda: setx(a))",
    "p = functools.partial(lambda u: u, x)",
    "p = functools.lru_cache(None)(lambda: [x, f(b)])",
    "p = functools.partial(functools.reduce, lambda u, v: [u, v, x], [1, 2, 3])",
    "class K:\n    m = functools.partialmethod(lambda self, k: [k, x], 3)\np = K().m",
    "z = itertools.takewhile(lambda v: v < x, [1, 2, 3])\np = lambda: list(z)",
    "z = functools.partial(lambda: 1)\nz.func.tag = 5\np = lambda: z.func.tag",
    "z = functools.partial(lambda: 1)\np = lambda: z.func.__name__",
    "l = functools.cmp_to_key(lambda u, v: u - v)\np = lambda: sorted([3, 1, 2], key=l)",
    "z = collections.defaultdict(lambda: x)\np = lambda: z[0]",
    "p = functools.singledispatch(lambda v=0: x)\np = functools.partial(p, 1)",
    "z = re.sub('1', lambda m: f('q'), '010')\np = lambda: z",
    "p = functools.wraps(f)(lambda: f(x))",
    "p = functools.partial(max, [1, -2], key=lambda v: v * (1 if x > 0 else -1))",
]
CALLBACK_STEPS = ["x = b", "def f(v):\n    return [v, 'new']", "y = p()", "q = lambda: 7", "setx(a)", "del x"]
CALLBACK_PRE = """
import functools, itertools, collections, re
x = a
cnt = []
def q():
    cnt.append(1)
    return 3
def f(v):
    return v
def h():
    global x
    x = b
    return k2()
def k2():
    global x
    x = [x]
    return x
def setx(v):
    global x
    x = v
"""


def callbacks(c):
    """functions handed to library code behave as in plain Python, whenever they are called"""
    nb, ref = start(c, {}, CALLBACK_PRE)
    step(c, nb, ref, c.pick("s0", CALLBACKS), "c1")
    for k in range(c.params["steps"]):
        step(c, nb, ref, c.pick("t%d" % k, CALLBACK_STEPS), "d%d" % k)
    step(c, nb, ref, "y = p()", "c2")
    c.check_eq(nb.ns["cnt"], ref.ns["cnt"], "evaluated-once")
    c.reach("called")


# ---- printed output and displayed results --------------------------------------------------
OUT = [
    "print(a)", "print(a, b, sep='-', end='|')\nx", "for i in range(n):\n    print(i)\ni if n else None", "def pr(v):\n    print(v)\n    return v\npr(pr(a))",
    "x = 1\nx", "None", "a", "print('p')\n1 / 0\nprint('q')", "try:\n    print('t')\n    1 / 0\nexcept ZeroDivisionError:\n    print('c')\nfinally:\n    print('f')",
    "[print(v) for v in range(n)]", "y = _\ny", "_", "print(_)", "lst.append(a)\nlst", "lst[0]", "d['k']", "o.v", "o", "(lambda v: v)(a)", "f(a)",
    "sys.stdout.write('w\\n')\nNone", "print('e', file=sys.stderr)", "import sys as s2\nprint('z', file=s2.stdout)", "a;", "print(a);", "if a > b:\n    print('gt')\nelse:\n    'unused'",
    "x = print\nx('alias')", "sys.stdout.flush()", "a == b", "'s'", "f'{a}'", "lst, tup", "{'k': a}", "del a", "raise ValueError(a)", "print(*lst)", "def g():\n    yield print('lazy')\nz = list(g())",
    "with o:\n    print('in')", "print(len(lst)) or lst", "x = y = _\nx is y", "assert a > 0\nprint('ok')", "# comment only", "", "a # trailing", "(\na\n)", "sys.stdout.isatty() and None",
    "class R:\n    def __repr__(self):\n        print('in repr')\n        return 'R'\nR()", "import builtins\nbuiltins.print('b')", "_ + 1 if isinstance(_, int) else 0", "_ = 5\n_",
]


class OutRef(Ref):
    """what IPython shows for a cell: printed text and the value of a trailing expression"""

    def run(self, code):
        self.error, self.value, self.displayed = None, None, []
        out, er = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(er):
            try:
                tree = ast.parse(code)
                last = tree.body.pop() if tree.body and isinstance(tree.body[-1], ast.Expr) else None
                exec(compile(tree, "<ref>", "exec"), self.ns)
                if last is not None:
                    v = eval(compile(ast.Expression(last.value), "<ref>", "eval"), self.ns)
                    self.value = v
                    if v is not None and not code.rstrip().endswith(";"):
                        self.displayed.append(repr(v))
                        if "_" not in self.ns or self.ns["_"] is self.under:
                            self.ns["_"] = v
                            self.under = v
            except Exception as e:
                self.error = e
        self.out, self.err = out.getvalue(), er.getvalue()

    under = ""


def output(c):
    nb, ref0 = start(c, {})
    ref = OutRef()
    ref.ns = ref0.ns
    ref.ns["_"] = ref.under
    nb.ns["_"] = ref.under
    nb.ns["sys"] = ref.ns["sys"] = sys
    hook = nb.sh.displayhook
    shown = []
    for k in range(c.params["steps"]):
        code = c.pick("s%d" % k, OUT[:: c.params["stride"]] if k == 0 and c.params["steps"] > 1 else OUT)
        if "n" not in c.choices and re.search(r"\bn\b", code):
            nb.ns["n"] = ref.ns["n"] = c.choice("n", 3)
        c.note(code)
        ref.run(code)
        del shown[:]
        hook.write_output_prompt = lambda: None
        hook.write_format_data = lambda fd, md=None: shown.append(fd["text/plain"])
        hook.finish_displayhook = lambda: None
        hook.log_output = lambda fd: None
        out, er = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(er):
            r = nb.run(code, "c%d" % (k + 1))
        c.check(err(r.error) == err(ref.error), "same-exception:output", lambda: "%r: %r vs %r" % (code, r.error, ref.error))
        c.check(out.getvalue() == ref.out, "same-stdout", lambda: "%r printed %r, plain Python prints %r" % (code, out.getvalue(), ref.out))
        c.check(er.getvalue() == ref.err, "same-stderr", lambda: "%r printed %r to stderr, plain Python prints %r" % (code, er.getvalue(), ref.err))
        if ref.error is None:
            got, want = norm(r.value, {}), norm(ref.value, {})
            if not code.rstrip().endswith(";"):
                c.check(sym_eq(got, want), "same-result", lambda: "%r evaluates to %r, plain Python gives %r" % (code, got, want))
            if " at 0x" not in str(shown) and not code.rstrip().endswith(";"):  # `;` needs IPython's input history
                c.check(shown == ref.displayed, "same-display", lambda: "%r displays %r, IPython displays %r" % (code, shown, ref.displayed))
            ran = nb.cells().from_id_nullable("c%d" % (k + 1))
            cap = None if ran is None else ran.captured_output
            if cap is not None:
                c.check(cap.stdout == ref.out, "captured-stdout", lambda: "%r captured %r, printed %r" % (code, cap.stdout, ref.out))
        c.check("print" in dir(builtins) and nb.ns.get("__builtins__") is not None, "builtins-intact")
    c.reach("ran")


# ---- expressions that depend on the scope they are evaluated in ---------------------------
OPERANDS = [
    "a", "t", "(w := b)", "[t, (w := t)]", "[q + t for q in [b]]", "{t: b}", "(lambda v=t: v)()", "f'{t}${b}{{t}}'", "'${t}'",
    "sorted(locals())[-1]", "[*(w := [t])]", "(t, *[b])", "[t][0]", "{**{'k': t}}", "lst[0]", "(w := [a, t])[1]", "ob.m((w := t)).v",
    "mkp(t).add(b).v", "(t if a < b else [b])", "(t and (w := 2))", "sum([t for _ in [1, 2]])", "vars()['t']", "eval('t')", "[super]", "not (w := t)",
    "[lambda: 0][0]()", "(yield t)", "[(yield t), b]", "(yield from [t, b])", "(await co(t))", "[await co(t), b]", "[q async for q in aco(t)]",
    "[super().m(t), 1]", "super().m(t)", "(await (w := co(t)))", "__class__.__name__", "[self.v, t]",
]
HOSTS = [
    "z = {}", "z = [{}, t]", "z = ({}, 2)", "z = {{'k': {}}}", "z = idn({})", "z = ob.m({}).v", "z = {} if a < b else 0", "z = [[{}]][0]", "z = f'{{{}}}$'",
    "z = 1, [{}]", "assert [{}]\nz = 1", "for z in [{}]:\n    pass", "z = [[1, t], {}]", "z, y = {}, t", "z = []\nz.append({})", "z = [*[{}]]", "z = dict(k={})",
    "z = [1, 2]\nz[0] = {}", "ob.v = {}\nz = ob.v", "z = [t]\nz += [{}]", "z = {} == t", "z = [0, {}][1]", "z: list = [{}]", "z = idn(*[{}])", "z = idn(**{{'v': {}}})",
    "z = idn(v={})", "if [{}]:\n    z = 1", "with ob.ctx({}) as z:\n    pass", "while [{}]:\n    z = 3\n    break", "z = {{{}: 1}} if 0 else [{}]", "z = {{1: {}}}[1]",
    "try:\n    raise ValueError({})\nexcept ValueError as ex:\n    z = ex.args", "z = (lambda v: v)({})", "z = y = [{}]", "def g(v=[{}]):\n    return v\nz = g()",
    "@idn\nclass G:\n    v = [{}]\nz = G.v", "z = {}\ndel t", "del [[{}]][0]\nz = 1", "z = slice({}, t)", "match [{}]:\n    case [z]:\n        pass", "z = [0, {}][1:]", "z = [q for q in [t]] + [{}]",
]
SCOPES = [
    ("module", "{}"), ("class", "class K:\n    t = a\n{}"), ("function", "def fn():\n    t = a\n{}\n    return z, t\nx = fn()"),
    ("method", "class K(B):\n    def m(self, v):\n        t = v\n{}\n        return z\nx = K().m(a)"),
    ("generator", "def fn():\n    t = a\n{}\n    yield z\nx = list(fn())"),
    ("coroutine", "async def fn():\n    t = a\n{}\n    return z\nx = drive(fn())"),
    ("nested", "def fn(t):\n    def fn2():\n        nonlocal t\n        t = t + 0\n{}\n        return z\n    return fn2(), t\nx = fn(a)"),
    ("inner-class", "def fn(t):\n    class K:\n{}\n    return K, t\nx = fn(a)"),
    ("class-in-loop", "x = []\nfor j in [0, 1]:\n    class K:\n        t = j\n{}\n    x.append(K)"),
    ("global", "def fn():\n    global t, z, w\n    t = b\n{}\nfn()\nx = t"),
    ("tab", "if a < 9:\n\tif b < 9:\n\t\tt = b\n{}\n\tx = t"),
]
SCOPE_INDENT = {"module": "", "class": "    ", "function": "    ", "method": "        ", "generator": "    ", "coroutine": "    ",
                "nested": "        ", "inner-class": "        ", "class-in-loop": "        ", "global": "    ", "tab": "\t\t"}
SCOPE_PRE = """
import types
t = 7
lst = [a, b]
def idn(v, k=0):
    return v
class B:
    v = 5
    def m(self, v):
        return v
class Ob:
    def __init__(self):
        self.v = 1
    def m(self, v):
        self.v = v
        return self
    def __getitem__(self, k):
        return k
    def add(self, v):
        return self
    def ctx(self, v):
        self.v = v
        return self
    def __enter__(self):
        return self.v
    def __exit__(self, *exc):
        pass
ob = Ob()
def mkp(v):
    return Ob().m(v)
@types.coroutine
def pause(v):
    got = yield v
    return v
async def co(v):
    await pause(v)
    return v
async def aco(v):
    for q in [v, v]:
        await pause(q)
        yield q
def drive(cr):
    log = []
    try:
        while True:
            log.append(cr.send(None))
    except StopIteration as ex:
        return log, ex.value
"""


def compiles(code):
    try:
        compile(code, "<ref>", "exec")
        return True
    except SyntaxError:
        return False


def scoping(c):
    """an expression, as a part of a statement, in some scope"""
    p = c.params
    sname, scope = c.pick("scope", SCOPES)
    host = c.choice("host", len(HOSTS))
    skip = (host + p["off"]) % p["stride"]
    menu = OPERANDS[skip::p["stride"]]
    e = c.pick("operand", menu)
    body = HOSTS[host].format(*[e] * 2)
    ind = SCOPE_INDENT[sname]
    code = scope.format("\n".join(ind + (l.replace("    ", "\t") if sname == "tab" else l) for l in body.splitlines()))
    if not compiles(code):
        return
    modified = bool(c.bool("modifier"))
    nb, ref = start(c, {}, SCOPE_PRE)
    for ns in (nb.ns, ref.ns):
        ns.pop("n", None)
    c.note(code)
    ref.run(code)
    r = nb.run(code + ("\nu = $a" if modified else ""), "c1")
    for ns in (nb.ns, ref.ns):
        ns.pop("u", None)
    compare(c, nb, ref, code, r.error, ":scoping")
    c.reach("scope-" + sname)


HARNESSES = [
    Harness("separate_cells", separate_cells,
            lambda p: "%d statement(s) in separate cells, each from a menu of %d (stride %d), after a fixed preamble; ints a,b in [-2,2], n in [0,2] symbolic" % (p["steps"], len(MENU), p.get("stride", 1)),
            outside="longer histories, other statement kinds, threads/async, C extensions",
            quick={"steps": 2, "stride": 4}, thorough={"steps": 2, "stride": 1}, setup=boot,
            must_reach=["assert:same-value", "assert:same-exception"]),
    Harness("one_cell", one_cell,
            lambda p: "%d menu statement(s) in one cell: flat, in a function, loop body, branch or try/finally" % p["steps"],
            outside="deeper nesting",
            quick={"steps": 1}, thorough={"steps": 1}, setup=boot,
            must_reach=["shape%d" % i for i in range(5)]),
    Harness("rerun", rerun, "each menu statement's cell run twice then a dependent cell", setup=boot,
            must_reach=["assert:same-value"]),
    Harness("toggled", toggled, "each menu statement with tracking toggled / reactive modifiers / trailing expression", setup=boot,
            must_reach=["assert:same-value:modifier"]),
    Harness("callbacks", callbacks, lambda p: "%d ways to hand a function to library code, %d steps out of %d in between" % (len(CALLBACKS), p["steps"], len(CALLBACK_STEPS)),
            outside="other libraries", quick={"steps": 1}, thorough={"steps": 2}, setup=boot, must_reach=["called"]),
    Harness("output", output, lambda p: "%d cells from a menu of %d (the first from every %d-th) that print, display or fail" % (p["steps"], len(OUT), p["stride"]),
            outside="rich display, widgets, output written by other threads", quick={"steps": 2, "stride": 5}, thorough={"steps": 2, "stride": 1}, setup=boot, must_reach=["ran"]),
    Harness("scoping", scoping,
            lambda p: "%d expressions (every %s), in %d positions of statements, in %d kinds of scopes, with and without a reactive modifier elsewhere in the cell"
            % (len(OPERANDS), "%d-th, rotating with the position" % p["stride"], len(HOSTS), len(SCOPES)),
            outside="top-level await", quick={"stride": 20, "off": 0}, thorough={"stride": 2, "off": 0}, setup=boot,
            must_reach=["scope-" + s for s, _ in SCOPES]),
]
