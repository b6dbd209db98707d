# -*- coding: utf-8 -*-
"""P07: a cell becomes ready when any variable it reads is changed by another cell."""
import builtins

from symx.api import Harness
from symx.ipf import NB, boot

PROPERTY = "P07"
PROP = {
 "id": "P07", "title": "A cell reacts to a change of anything it reads",
 "statement": "When a cell reads the value that a variable had before the cell ran, in any syntactic position, in any taken branch, loop, handler, comprehension, class body, default argument or annotation, or in a function or method that the cell calls by name, a later reassignment of that variable in another cell makes the cell ready. Reassigning a variable that the cell does not mention, directly or through what it calls, does not.",
 "quantifier": {"over": ["programs", "inputs"], "text": "all cells made of the menu's statements in every nesting shape, all values of the symbolic inputs that steer their branches, every variable of the notebook as the one reassigned"},
 "why_tests_cant": "The liveness tests list expected names for some snippets; soundness ranges over all programs and all branch outcomes and needs an execution oracle.",
 "anchors": {"files": ["core/ipyflow/analysis/live_refs.py", "core/ipyflow/analysis/symbol_ref.py", "core/ipyflow/analysis/resolved_symbols.py", "core/ipyflow/frontend.py", "core/ipyflow/data_model/cell.py"],
  "mechanism": [{"name": "static live reference computation", "where": "core/ipyflow/analysis/live_refs.py"}, {"name": "resolution of references and call chains to symbols", "where": "core/ipyflow/analysis/live_refs.py"}],
  "observe_at": ["ready cells in the response to a schedule request"], "hook_needed": None},
 "level_note": "bounded: all cells from the menu and shapes; the oracle records the names CPython really looks up while running the same source with the same symbolic values",
}

VARS = {
    "c0": "c0 = b",
    "x": "x = a",
    "y": "y = b",
    "i": "i = 0",
    "lst": "lst = [a, b, 5]",
    "nest": "nest = [[1, 2], [3]]",
    "d": "d = {'k': a}",
    "s": "s = 'k'",
    "o": "class P:\n    def __init__(self, v):\n        self.v = v\n        self.lst = [v]\n    def get(self):\n        return self.v\no = P(a)",
    "g": "def g(q):\n    return q + y",
    "h": "def h():\n    return g(i)",
    "P0": "class P0:\n    def __init__(self, v):\n        self.v = v\n    def __enter__(self):\n        return self\n    def __exit__(self, *a):\n        return False",
    "z0": "z0 = (1, 2)",
    "g0": "def g0(q):\n    return q",
    "f": "f = [5, 6]",
}
UPDATE = {
    "c0": "c0 = 5",
    "x": "x = 70", "y": "y = 71", "i": "i = 1", "lst": "lst = [7, 8, 9, 1, 1, 1, 1, 1, 1, 1, 1]", "nest": "nest = [[7], [8]]",
    "d": "d = {'k': 9, 'j': 8}", "s": "s = 'j'", "o": "o = P(77)", "g": "def g(q):\n    return q - y",
    "h": "def h():\n    return 3", "P0": "def P0(v):\n    return v", "z0": "z0 = 5", "g0": "def g0(q):\n    return 6", "f": "f = [0]",
}
MENU = [
    "z = x", "z = x + y", "z = -x", "z = x if y > 0 else i", "z = x > 0 and y > 0",
    "z = [x, (y, i)]", "z = {x: y}", "z = {s: x, **d}", "z = [*lst, x]", "z = f'{x:>{i}}'",
    "z = lst[i]", "z = lst[i:2]", "z = nest[i][0]", "z = d[s]", "z = o.v", "z = o.lst[i]", "z = o.get()",
    "z = len(lst)", "z = max(x, y)", "z = max(*lst)", "z = dict(q=x, **d)", "z = str(x).join(['', s])",
    "z = g(x)", "z = h()", "z = g(g(x))", "z = [g(v) for v in lst]",
    "z = [v for v in lst]", "z = [v + x for v in lst if v > y]", "z = [w for v in nest for w in v]",
    "z = {v: x for v in lst}", "z = {v for v in lst}", "z = list(v + y for v in lst)", "z = [lst for lst in lst]",
    "z = [x for x in nest[i]]",
    "z = (lambda q=x: q)()", "z = lambda *, q=x: q",
    "z = (w := x) + w", "x = x + 1", "x += y", "x, z = z0, x", "z = w = x", "lst[0] = x", "lst[i] = 4",
    "d[s] = x", "o.v = x", "o.lst[i] = 2", "nest[i][0] = y", "lst += [x]", "lst.append(x)", "d.update(q=x)",
    "lst[0], z = x, y", "x, y = y, x", "z, *w = lst",
    "for v in lst:\n    z = v", "for v in lst:\n    z = x\n    x = v", "for i in lst:\n    z = i",
    "for v in range(i, 2):\n    pass\nelse:\n    z = x", "while x > 0:\n    x = x - 1\n    z = y",
    "if x > 0:\n    z = y\nelse:\n    z = i", "if x > 0:\n    y = 1\nz = y", "if x > 0:\n    y = 1\nelse:\n    y = 2\nz = i",
    "if x > 0:\n    pass\nelif y > 0:\n    z = i\nelse:\n    z = s",
    "def k(q=x):\n    return q\nz = k()", "def k(*, q=x):\n    return q\nz = k(q=1)", "def k(q):\n    return q + y\nz = k(x)",
    "def k(q):\n    return k(q - 1) + x if q > 0 else y\nz = k(2)", "def k():\n    return g(i)\nz = k()",
    "def k(q, *r, w=y, **t):\n    return q + w\nz = k(*lst, t=x)",
    "@g0\ndef k():\n    return 1\nz = k", "class C:\n    w = x\n    def m(self):\n        return self.w\nz = C().m()",
    "class C(P0):\n    pass\nz = C(x)",
    "try:\n    z = lst[9]\nexcept IndexError:\n    z = x\nfinally:\n    w = y", "try:\n    z = 1\nexcept x:\n    pass\nelse:\n    w = y",
    "with P0(x) as w:\n    z = y", "with P0(x) as x:\n    z = i", "assert x < 9, y", "z: int = x", "import math\nz = math.floor(x)",
    "print(x, end=s)", "x\ny", "lst", "z = not x", "z = x < y < i", "z = ...\nz = x", "z = x\nz = 1",
    "match x:\n    case 1:\n        z = y\n    case _:\n        z = i", "del d[s]", "del lst[i]", "z = sorted(lst, key=lambda v: v * y)",
    "try:\n    i = int('q')\nexcept ValueError:\n    z = i", "z = (lambda: x)()", "z = f[i]",
]
# statement -> (signature of the known finding, the reads that the analysis misses)
KNOWN = {
    "z = sorted(lst, key=lambda v: v * y)": ("lambda-body", {"y"}), "z = (lambda: x)()": ("lambda-body", {"x"}),
    "try:\n    i = int('q')\nexcept ValueError:\n    z = i": ("read-in-handler-after-failed-assignment", {"i"}),
    "z = f[i]": ("subscript-of-a-variable-named-f", {"f", "i"}),
}
SHAPES = [
    "%s",
    "if c0 > 0:\n@@%s",
    "if c0 > 0:\n@@w = 1\nelse:\n@@%s",
    "for v0 in range(2):\n@@%s",
    "try:\n@@%s\nfinally:\n@@w = 1",
    "try:\n@@z0[9]\nexcept Exception:\n@@%s",
    "with P0(1):\n@@%s",
    "w = 0\nwhile w < 1:\n@@w += 1\n@@%s",
]


def indent(shape, s):
    out = []
    for line in shape.split("\n"):
        ind = "    " if line.startswith("@@") else ""
        line = line[2:] if ind else line
        if "%s" in line:
            out += [ind + ln for ln in s.split("\n")]
        else:
            out.append(ind + line)
    return "\n".join(out)


class Recorder(dict):
    """A namespace that notes which names are looked up before being assigned."""

    def begin(self):
        self.reads, self.writes = set(), set()

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if hasattr(self, "reads") and k not in self.writes:
            self.reads.add(k)
        return v

    def __setitem__(self, k, v):
        if hasattr(self, "writes"):
            self.writes.add(k)
        dict.__setitem__(self, k, v)


def externals(a, b):
    return {"a": a, "b": b}


def run_oracle(a, b, code):
    ns = Recorder()
    ns.update(externals(a, b))
    ns["__builtins__"] = builtins
    ns["print"] = lambda *a, **k: None
    for src in VARS.values():
        exec(compile(src, "<pre>", "exec"), ns)
    ns.begin()
    try:
        exec(compile(code, "<cell>", "exec"), ns)
    except Exception as e:
        return ns.reads, e
    return ns.reads, None


def drive(c, code, stmts):
    nb = NB()
    a, b = c.user_int("a", -1, 1), c.user_int("b", 0, 1)
    nb.ns.update(externals(a, b))
    nb.ns["print"] = lambda *a, **k: None
    for v, src in VARS.items():
        assert nb.run(src, "def_" + v).error is None
    reads, err = run_oracle(a, b, code)
    r = nb.run(code, "T")
    c.check((r.error is None) == (err is None), "same-outcome", lambda: "%r vs %r" % (r.error, err))
    if err is not None:
        c.reach("cell-raises")
        return
    c.note(code)
    v = c.pick("changed", list(VARS))
    c.note(UPDATE[v])
    assert nb.run(UPDATE[v], "U").error is None
    resp = nb.schedule("U")
    ready = "T" in resp["ready_cells"] or "T" in resp["waiting_cells"]
    sig = None
    for s in stmts:
        if s in KNOWN and v in KNOWN[s][1]:
            sig = KNOWN[s][0]
    if v in reads:
        c.check(ready, "read-makes-ready",
                lambda: "the cell read %s, which was then reassigned, but is neither ready nor waiting:\n%s" % (v, code), sig=sig)
    elif not mentions(code, v):
        c.check(not ready, "unrelated-keeps-quiet",
                lambda: "the cell does not mention %s but became ready or waiting when it changed:\n%s" % (v, code))


def mentions(code, v):
    """v occurs in the cell or in what it may call (g and h read y, g, i)."""
    import re

    names = set(re.findall(r"[A-Za-z_]\w*", code))
    if "h" in names:
        names |= {"g", "i"}
    if "g" in names:
        names |= {"y"}
    if names & {"lst", "nest", "d", "o"}:
        pass
    return v in names


def menu(c):
    return MENU[c.params.get("offset", 0)::c.params.get("stride", 1)]


def single(c):
    s = c.pick("stmt", menu(c))
    code = indent(c.pick("shape", SHAPES[: c.params["shapes"]]), s)
    drive(c, code, [s])


def pairs(c):
    s = c.pick("s0", MENU[c.params["o0"]::c.params["stride0"]])
    t = c.pick("s1", MENU[c.params["o1"]::c.params["stride1"]])
    drive(c, s + "\n" + t, [s, t])


# ---- every syntactic position ----------------------------------------------------------------
PRE = """
z0 = (1, 2)
l0 = [5, 6]
d0 = {'k': 1, 0: 2}
def g0(q):
    return q
def g2(q, r=0):
    return [q, r]
def dec(q):
    return g0
class C0:
    def __init__(self, v):
        self.v = v
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def m(self, q):
        return q
o0 = C0(3)
z = 4
"""
EXPRS = [
    "@", "(@ + 1)", "(1 + @)", "(-@)", "(not @)", "(@ and 1)", "(1 and @)", "(0 or @)", "(@ == 5)", "(0 == 0 == @)", "(0 == @ == 5)",
    "(1 if @ else 2)", "(@ if 1 else 2)", "(2 if 0 else @)",
    "[@]", "[0, @]", "(@, 1)", "(0, (1, @))", "{str(@)}", "{str(@): 1}", "{1: @}", "{1: 2, 3: @}", "{**{1: @}}", "{1: 2, **{1: @}}", "[*[@]]", "(*[@], 1)", "{*[str(@)]}",
    "z0[@ == 0]", "z0[(@ == 0):]", "z0[:(@ == 0)]", "z0[::(@ == 0) + 1]", "[@][0]", "[[@]][0][0]", "{1: @}[1]", "{'q': {'r': @}}['q']['r']", "z0[0:2][@ == 0]", "[z0, z0][@ == 0][@ == 1]",
    "type(@).__name__", "str(@).upper()", "C0(@).v", "C0(1).m(@)", "o0.m(@)", "o0.m(q=@)",
    "g0(@)", "g0(q=@)", "g2(0, @)", "g2(0, r=@)", "g2(*[0, @])", "g2(*z0[:1], *[@])", "g2(**{'q': 0, 'r': @})", "g2(1, **{'r': @})", "len([@, 0])", "[g0][0](@)",
    "(lambda q: q)(@)", "(lambda q=@: q)()", "(lambda *, q=@: q)()", "(lambda *q: q)(@)", "g0(g0(@))", "dec(1)(@)", "dec(@)(1)",
    "[@ for w in z0]", "[w for w in [@]]", "[w for w in z0 if str(@)]", "[w for w in z0 if w if str(@)]", "[w for w in z0 if w == 1 if str(@)]",
    "[w for t in z0 if str(@) for w in z0]", "[w for t in z0 for w in [@]]", "[[@ for w in z0] for t in z0]", "[w for w in [t for t in [@]]]",
    "{str(@): w for w in z0}", "{w: @ for w in z0}", "{str(@) for w in z0}", "list(@ for w in z0)", "list(w for w in [@])", "{w for w in [str(@)]}", "{w: 1 for w in z0 if str(@)}",
    "{w: t for w in z0 for t in [@]}", "list(w for t in z0 if str(@) for w in z0 if w)",
    "f'{@}'", "f'{1:>{len(str(@))}}'", "f'{@!r}'", "f'a{1}b{@}c'", "f'{@:>3}'", "f'{f'{@}'}'", "(w := @)", "(1, (w := @), w)", "'%s' % @", "'{}'.format(@)", "(@).__class__", "[@].index(@)", "[1, @][-1]", "[0][:@ == 7]",
]
STMTS = [
    "z = @", "z: int = @", "z: str(@) = 1", "z += len(str(@))", "z = w = @", "z, w = @, 1", "z, w = 1, @", "z, *w = [@, 2]", "[z, w] = [1, @]", "(z, w), t = (1, @), 2", "*z, w = 1, @",
    "l0[0] = @", "l0[@ == 0] = 1", "l0[@ == 0] += 1", "l0[0] += len(str(@))", "l0[0], z = 1, @", "l0[@ == 0], z = 1, 2", "z, l0[@ == 0] = 1, 2", "[*l0[@ == 0:]] = [1, 2]",
    "o0.v = @", "o0.v += len(str(@))", "d0[str(@)] = 1", "d0['k'] = @", "d0['k'] += len(str(@))", "l0[(@ == 0):] = [1]", "[o0][@ == 7].v = 1", "g0(l0)[@ == 0] = 1", "(o0 if @ else o0).v = 2",
    "del l0[@ == 0]", "del d0[0 if @ else 0]", "del [l0][@ == 7][0]", "z = l0.append(@)", "l0.append(@)", "@", "print(@)", "assert str(@)", "assert str(@), 'm'", "z = 1; z = @",
    "if str(@):\n    pass", "if 0:\n    pass\nelif str(@):\n    z = 1", "if 1:\n    z = @", "if 0:\n    pass\nelse:\n    z = @", "if 0:\n    pass\nelif 1:\n    z = @", "if 0:\n    pass\nelif 0:\n    pass\nelse:\n    z = @",
    "for w in [@]:\n    pass", "for w in z0:\n    z = @", "for w in z0:\n    pass\nelse:\n    z = @", "for l0[@ == 0] in z0:\n    pass", "for w in z0:\n    if str(@):\n        break", "for w in z0:\n    if str(@):\n        continue\n    z = 1",
    "for w in z0:\n    for t in z0:\n        z = @", "for w, t in [(1, @)]:\n    pass",
    "while not str(@):\n    pass", "while 0:\n    pass\nelse:\n    z = @", "t = 0\nwhile t == 0:\n    t = 1\n    z = @", "while True:\n    z = @\n    break",
    "with C0(@):\n    pass", "with C0(1) as w, C0(@):\n    pass", "with C0(1):\n    z = @", "with C0(1) as l0[@ == 0]:\n    pass", "with C0(1) as w:\n    w.v = @",
    "try:\n    z = @\nfinally:\n    pass", "try:\n    z0[9]\nexcept IndexError:\n    z = @", "try:\n    z0[9]\nexcept IndexError as w:\n    z = @", "try:\n    z = 1\nexcept IndexError:\n    pass\nelse:\n    z = @", "try:\n    pass\nfinally:\n    z = @",
    "try:\n    z0[9]\nexcept (IndexError if str(@) else KeyError):\n    pass", "try:\n    raise KeyError(@)\nexcept KeyError:\n    pass", "try:\n    raise KeyError from ValueError(@)\nexcept KeyError:\n    pass", "try:\n    z0[9]\nexcept KeyError:\n    pass\nexcept IndexError:\n    z = @",
    "try:\n    try:\n        z0[9]\n    finally:\n        z = @\nexcept IndexError:\n    pass",
    "def k(q=@):\n    return q\nz = k()", "def k(r, q=@):\n    return q\nz = k(1)", "def k(*, q=@):\n    return q\nz = k()", "def k():\n    return @\nz = k()", "def k(q):\n    return q\nz = k(@)", "def k(q: str(@) = 1):\n    return q", "def k() -> str(@):\n    pass",
    "def k():\n    if 1:\n        return @\n    return 2\nz = k()", "def k():\n    for w in z0:\n        return @\nz = k()", "def k():\n    t = @\n    return t\nz = k()", "def k():\n    def m():\n        return @\n    return m()\nz = k()",
    "def k():\n    t = @\n    def m():\n        return t\n    return m()\nz = k()", "def k(t):\n    def m():\n        return t\n    return m()\nz = k(@)", "def k(t):\n    m = lambda: t\n    return m()\nz = k(@)",
    "def k(t):\n    def m(s):\n        def n():\n            return s, t\n        return n()\n    return m(t)\nz = k(@)", "def k(t):\n    t = t, 1\n    def m():\n        return [t for w in z0]\n    return m\nz = k(@)()",
    "def k():\n    yield @\nz = list(k())", "def k():\n    yield from [@]\nz = list(k())", "def k(*q, **r):\n    return q, r\nz = k(1, *[@], r=2)",
    "@(g0 if str(@) else g0)\ndef k():\n    pass", "@dec(@)\ndef k():\n    pass", "@g0\n@dec(@)\ndef k():\n    pass",
    "class K:\n    w = @", "class K(C0 if str(@) else C0):\n    pass", "class K(metaclass=type if str(@) else type):\n    pass", "class K:\n    def m(self, q=@):\n        return q", "class K:\n    w: str(@) = 1", "@(g0 if str(@) else g0)\nclass K:\n    pass",
    "class K:\n    for w in [@]:\n        pass", "class K:\n    class M:\n        w = @", "class K:\n    w = 1\n    if w:\n        t = @", "class K:\n    @dec(@)\n    def m(self):\n        pass",
    "match str(@):\n    case _:\n        z = 1", "match 1:\n    case 1 if str(@):\n        z = 1", "match 1:\n    case 1:\n        z = @", "match 1:\n    case 2:\n        z = 1\n    case _:\n        z = @", "match (1, @):\n    case (1, w):\n        z = w", "match 1:\n    case w if str(@):\n        z = w",
    "try:\n    z0[9]\nexcept IndexError as w:\n    z = w, @", "match [1, 2, @]:\n    case [1, *w]:\n        z = w", "match {'k': 1, 'r': @}:\n    case {'k': 1, **w}:\n        z = w",
    "match C0(@):\n    case C0(v=w) as t if w:\n        z = w, t", "match 1:\n    case 1 | 2 as w:\n        z = w, @\nw = 1", "z = ext, @", "def k():\n    return ext\nz = k(), @", "from math import *\nz = floor(1.5), @", "exec('ex = 1')\nz = ex, @",
    "import math\nz = @", "z = 1\nif z:\n    z = @", "z = 2\nz = z, @", "w = @\nw = 3", "del z\nz = @", "u0 = 1\ndel u0\nz = @", "global z\nz = @", "async def k(q=@):\n    pass", "lambda: 0\nz = @", "pass\nz = @\npass", "[z for z in z0]\nz = @",
]
# position -> signature of the known finding
KNOWN_POS = {}


def positions(c):
    """the variable stands in one place only, anywhere; reassigning it makes the cell ready"""
    p = c.params
    if p["mode"] == "stmt":
        st = c.pick("stmt", STMTS)
        ex = c.pick("expr", ["@"] + EXPRS[p["off"]:: p["stride"]])
        code = fill(st, fill(ex, "u"))
    else:
        st = "z = @"
        ex = c.pick("e1", EXPRS[p["off"]:: p["stride"]])
        e2 = c.pick("e2", EXPRS)
        code = fill(st, fill(ex, fill(e2, "u")))
    try:
        compile(code, "<cell>", "exec")
    except SyntaxError:
        return
    nb = NB()
    ns = Recorder({"__builtins__": builtins, "print": lambda *a, **k: None})
    nb.ns["print"] = ns["print"]
    v = c.user_int("v", 0, 1)
    ns["src"] = nb.ns["src"] = v
    ns["ext"] = nb.ns["ext"] = 3           # exists without having been assigned by a cell
    for src, cid in ((PRE, "pre"), ("u = src", "u")):
        exec(compile(src, "<pre>", "exec"), ns)
        assert nb.run(src, cid).error is None
    c.note(code)
    ns.begin()
    try:
        exec(compile(code, "<cell>", "exec"), ns)
        werr = None
    except Exception as e:
        werr = e
    r = nb.run(code, "T")
    c.check((r.error is None) == (werr is None), "same-outcome", lambda: "%r vs %r: %s" % (r.error, werr, code))
    if werr is not None:
        c.reach("raises")
        return
    if "u" not in ns.reads:
        return
    assert nb.run("u = 70", "u").error is None
    resp = nb.schedule("u")
    c.reach("read")
    # an update of a variable that depends on itself waits for that variable
    ready = set(resp["ready_cells"]) | set(resp["waiting_cells"] if "+=" in st else ())
    c.check("T" in ready, "position-is-live",
            lambda: "the cell read u, which was then reassigned, but is not ready%s:\n%s" % (" but waiting" if "T" in resp["waiting_cells"] else "", code), sig=KNOWN_POS.get(st) or KNOWN_POS.get(ex))

# functions and methods defined in another cell; T calls them by name
CALLS = [
    ("def g(q=0):\n    return u", ["z = g()", "z = [g()]", "a0(g())", "z = [w for w in z0 if g(w)]", "print(g())", "g()", "z = 1 + g() * 2", "f2 = g\nz = f2()", "if g():\n    pass", "z = -g()", "z = {1: g()}[1]",
     "z = str(g()).upper()", "l0[0] = g()", "while g() > 90:\n    pass", "def k():\n    return g()\nz = k()", "class W:\n    w = g()", "z = f'{g()}'", "z = (lambda q=g(): q)()", "assert g() < 99", "with C0(g()):\n    pass", "z = g(g(1))"]),
    ("def g(q=0):\n    return h0()\ndef h0():\n    return u", ["z = g()", "z = [g() for w in z0]"]),
    ("def h0():\n    return u", ["def g(q=0):\n    return h0()\nz = g()"]),
    ("def g():\n    def k():\n        return u\n    return k()", ["z = g()"]),
    ("def g():\n    def k():\n        return u\n    return k", ["k = g()\nz = k()"]),
    ("def g():\n    t = u\n    def k():\n        return t\n    return k()", ["z = g()", "z = [g()]"]), ("def g(q=0):\n    t = u\n    k = lambda: (t, q)\n    return k()", ["z = g()", "z = [g(u)]"]),
    ("def g(t):\n    def k():\n        def n():\n            return t\n        return n()\n    return k()", ["z = g(u)", "z = [g([u])]"]), ("def g(*t):\n    return sum(v for v in t)", ["z = g(u)", "z = g(*z0, u)"]),
    ("def g():\n    yield u", ["z = list(g())", "for w in g():\n    pass", "z = [*g()]"]),
    ("g = lambda: u", ["z = g()"]), ("g = lambda q=1, *r: [q, u]", ["z = g()"]),
    ("def g(q=0):\n    return [u for w in z0]", ["z = g()"]),
    ("def g(q=0):\n    if q:\n        return u\n    return 1", ["z = g(1)"]),
    ("def g(q=0):\n    if not q:\n        return 1\n    else:\n        v = u\n    return v", ["z = g(1)"]),
    ("def g(q=0):\n    for w in z0:\n        v = u\n    return v", ["z = g(1)"]),
    ("def g(q=0):\n    while q == 0:\n        q = [u]\n    return q", ["z = g()"]),
    ("def g(q=0):\n    global t\n    t = u", ["g()", "z = g()"]),
    ("def g(q=0):\n    try:\n        z0[9]\n    except IndexError:\n        return u", ["z = g(1)"]),
    ("def g(q=0):\n    with C0(u) as w:\n        return w.v", ["z = g(1)"]),
    ("def g(n=2):\n    return g(n - 1) if n else u", ["z = g()"]),
    ("def g(n=2):\n    return even(n - 1) if n else u\ndef even(n):\n    return g(n)", ["z = g()", "z = even(1)"]),
    ("def g(n=2):\n    return [(u, 1), l0[0]]", ["z = g()"]),
    ("def g(*q, **r):\n    return [q, r, u]", ["z = g(1, *z0, **{'k': 2})"]),
    ("def g(v, /, w, *, t=1):\n    return [v, w, t, u]", ["z = g(1, 2)"]),
    ("class K:\n    def m(self, q=0):\n        return u\no = K()", ["z = o.m()", "z = K.m(o)", "o.m()", "z = [o.m(1)]", "def k():\n    return o.m()\nz = k()", "if o.m():\n    pass"]),
    ("class K:\n    @staticmethod\n    def p():\n        return u\no = K()", ["z = o.p()", "z = K.p()"]),
    ("class K:\n    @classmethod\n    def p(cls):\n        return u\no = K()", ["z = o.p()", "z = K.p()"]),
    ("async def g():\n    return u", ["z = g().close()"]),
]


def calls(c):
    """the variable is read by a function or method of another cell that the cell calls by name"""
    dsrc, uses = c.pick("def", CALLS)
    code = c.pick("use", uses)
    nb = NB()
    nb.ns["print"] = lambda *a, **k: None
    nb.ns["src"] = c.user_int("v", 0, 1)
    for src, cid in ((PRE + "def a0(q):\n    return q\n", "pre"), ("u = src", "u"), ("spare = 1", "sp")):
        assert nb.run(src, cid).error is None
    redefine = c.bool("redefined")
    if redefine:
        assert nb.run("def g(q=0):\n    return 1", "d").error is None
    c.note("%s || %s" % (dsrc, code))
    assert nb.run(dsrc, "d").error is None
    assert nb.run(code, "T").error is None
    order = c.choice("then", 3)
    if order == 1:                    # an unrelated change first
        assert nb.run("spare = 2", "sp").error is None
        c.check("T" not in nb.schedule("sp")["ready_cells"], "unrelated-keeps-quiet:call", lambda: code)
    elif order == 2:                  # the cell reacts every time, not only the first
        assert nb.run("u = 69", "u").error is None
        nb.schedule("u")
        assert nb.run(code, "T").error is None
        c.check("T" not in nb.schedule("T")["ready_cells"], "rerun-settles", lambda: code)
    assert nb.run("u = 70", "u").error is None
    resp = nb.schedule("u")
    c.reach("called")
    c.check("T" in resp["ready_cells"], "callee-reads-are-live",
            lambda: "the cell called a function that read u, which was then reassigned, but is not ready%s:\n%s\n%s" % (" but waiting" if "T" in resp["waiting_cells"] else "", dsrc, code))


# ---- chains of attributes, subscripts and calls -----------------------------------------------
CHAIN_PRE = """
class U:
    def __init__(self, q):
        self.q, self.v = q, self
    def m(self, *q):
        return self
    __getitem__ = __call__ = __add__ = __radd__ = __or__ = __neg__ = m
    def __iter__(self):
        return iter([self])
    def __str__(self):
        return 'ab'
def idn(q):
    return q
z0 = 1, 2
"""
CHAIN_OF = {"u": "u = U({k})", "v": "v = {k}", "m": "m = {k}", "i": "i = {k}", "w": "w = {k}"}
ROOTS = [
    "u", "(u)", "(u or 1)", "(0 or u)", "(u and u)", "(1 and u)", "(u if 1 else 0)", "(0 if 0 else u)", "(x := u)", "[u][0]", "[[u]][0][0]", "(u, 1)[0]", "{{1: u}}[1]", "(u + 1)", "(1 + u)",
    "(-u)", "(u | 3)", "idn(u)", "idn(idn)(u)", "idn(q=u)", "idn([u])[0]", "[x for x in [u]][0]", "[u for x in z0][0]", "list(u)[0]", "(lambda x: x)(u)", "(lambda x=u: x)()", "[*u][0]",
    "(u == 1 or u)", "(u.v or 1)", "(u[0] if 1 else 0)", "(u() or 0)", "(i == 90 or u)", "(u if i == 90 else u)", "idn(u or i)", "(idn or i)(u)", "[idn][0](u)", "idn(u)(i)",
]
LINKS = [".v", "[0]", "[i]", "[0 + 0]", "[0:]", "[-1]", "(1)", ".m(2)", "[idn(0)]", "['k']", "['k', 1]", "[i, 0]", "()", "(q)", "(*z0)", ".v.v", "[1:i]", "[i:][0]", "[i == 90 or 1]", "(u)"]
CHAIN_USES = ["z = {}", "{}", "z = [{}]", "z = idn({})", "if {}:\n    pass", "{}.y = 1", "z = str({})", "for z in [{}]:\n    pass", "z = {} is None", "z = f'{{ {} }}'", "del [{}][0]", "z = {} or 1", "def k(q={}):\n    pass", "{}[1:2]"]


def chains(c):
    """what a chain starts with, and what is in its subscripts and arguments, is read; its attributes are not variables"""
    p = c.params
    root = c.pick("root", ROOTS)
    k = ROOTS.index(root)
    links = ""
    for j in range(p["links"]):
        at = c.pick("link%d" % j, [""] + LINKS[(k + j + p["off"]) % p["stride"]::p["stride"]])
        k += LINKS.index(at) + 1 if at else 0
        links += at
    use = CHAIN_USES[(k + p["off"]) % len(CHAIN_USES)] if root != "u" or links else CHAIN_USES[0]
    code = use.format(root.format() + links)
    if code.startswith("(0 or u).y") or "(q)" in links and "def k" in use:
        return
    nb = NB()
    for n, (v, src) in enumerate(CHAIN_OF.items()):
        nb.ns["k" + v] = c.user_int("k" + v, 0, 1) if v != "i" else 0
    nb.ns["q"] = 3
    assert nb.run(CHAIN_PRE, "pre").error is None
    for v, src in CHAIN_OF.items():
        assert nb.run(src.format(k="k" + v), v).error is None
    c.note(code)
    r = nb.run(code, "T")
    c.check(r.error is None, "no-error", lambda: "%s: %r" % (code, r.error))
    import re
    read = set(re.findall(r"(?<![.\w'])[uvmiw]\b", code))
    v = c.pick("changed", list(CHAIN_OF))
    assert nb.run(CHAIN_OF[v].format(k="90 + k" + v), v).error is None
    resp = nb.schedule(v)
    ready = "T" in set(resp["ready_cells"]) | set(resp["waiting_cells"])
    c.check_eq(ready, v in read, "chain", lambda: "%s after %s was reassigned" % (code, v))
    c.reach("read" if v in read else "not-read")


def fill(template, hole):
    """put `hole` in place of the (non-decorator) @ marks of a template"""
    out = []
    for line in template.split("\n"):
        lead = len(line) - len(line.lstrip())
        body = line[lead:]
        deco = body.startswith("@") and len(body) > 1 and (body[1].isalpha() or body[1] == "(") and template != "@"
        head, rest = (line[: lead + 1], line[lead + 1:]) if deco else ("", line)
        out.append(head + rest.replace("@", hole))
    return "\n".join(out)


HARNESSES = [
    Harness("flat", single, "every menu statement (%d) as a cell, every variable (%d) reassigned" % (len(MENU), len(VARS)),
            quick={"shapes": 1}, thorough={"shapes": 1}, setup=boot,
            must_reach=["assert:read-makes-ready", "assert:unrelated-keeps-quiet"]),
    Harness("nested", single, lambda p: "every %d-th menu statement in %d nesting shapes" % (p["stride"], len(SHAPES)),
            quick={"shapes": len(SHAPES), "stride": 24, "offset": 5}, thorough={"shapes": len(SHAPES), "stride": 2},
            setup=boot, must_reach=["assert:read-makes-ready"]),
    Harness("pairs", pairs, lambda p: "two-statement cells: every %d-th then every %d-th menu statement" % (p["stride0"], p["stride1"]),
            outside="longer cells, await, star imports", setup=boot,
            quick={"o0": 3, "stride0": 20, "o1": 1, "stride1": 20}, thorough={"o0": 0, "stride0": 4, "o1": 1, "stride1": 5},
            must_reach=["assert:read-makes-ready"]),
    Harness("statements", positions, lambda p: "every statement template (%d) with every %d-th expression template (of %d) around the only use of the variable" % (len(STMTS), p["stride"], len(EXPRS)),
            outside="await, star imports", setup=boot, quick={"mode": "stmt", "off": 1, "stride": 60}, thorough={"mode": "stmt", "off": 0, "stride": 2}, must_reach=["read"]),
    Harness("expressions", positions, lambda p: "every %d-th expression template around every expression template (%d)" % (p["stride"], len(EXPRS)),
            outside="deeper nesting", setup=boot, quick={"mode": "expr", "off": 0, "stride": 30}, thorough={"mode": "expr", "off": 0, "stride": 1}, must_reach=["read"]),
    Harness("chains", chains, lambda p: "%d things to start a chain with x up to %d links, every %dth of %d per position (rotating), in %d uses (rotating); each of five variables reassigned" % (len(ROOTS), p["links"], p["stride"], len(LINKS), len(CHAIN_USES)),
            outside="longer chains; chains that start with a call of a lambda without arguments (known finding)", setup=boot, quick={"links": 2, "stride": 10, "off": 0}, thorough={"links": 2, "stride": 1, "off": 0}, must_reach=["read", "not-read"]),
    Harness("calls", calls, "%d functions and methods of another cell, called by name in %d ways; with earlier redefinition, unrelated changes and repeated changes" % (len(CALLS), sum(len(u) for _, u in CALLS)),
            outside="calls that reach a function indirectly: as an argument, property, operator, constructor, through a container or a decorator; methods of a class defined in the same cell", setup=boot,
            must_reach=["called"]),
]
