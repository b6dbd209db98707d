# -*- coding: utf-8 -*-
"""P03: which cells are reported as ready / waiting after any history of executions."""
import builtins
import re

from symx.api import Harness
from symx.ipf import NB, boot

PROPERTY = "P03"
PROP = {'id': 'P03',
 'title': 'Ready and waiting cells are exactly those with out-of-date inputs',
 'statement': 'After any history of cell executions in any order, a cell is reported ready exactly when a '
              'variable it reads was reassigned by another cell after the cell last ran and none of its '
              'inputs is itself out of date; it is reported waiting exactly when some input was computed '
              'from a value that changed afterwards. Re-running cells, editing their source and having '
              'several cells write one variable do not break this.',
 'quantifier': {'over': ['histories', 'programs'],
                'text': 'all execution histories up to the bound over symbolic dataflow graphs between '
                        'cells, including edits'},
 'why_tests_cant': 'Tests check a few hundred fixed histories; readiness depends on the whole order of '
                   'executions and on the dataflow graph, which are unbounded.',
 'anchors': {'files': ['core/ipyflow/frontend.py',
                       'core/ipyflow/data_model/symbol.py',
                       'core/ipyflow/data_model/utils/update_protocol.py',
                       'core/ipyflow/analysis/live_refs.py'],
             'mechanism': [{'name': 'update propagation marks dependents waiting',
                            'where': 'core/ipyflow/data_model/utils/update_protocol.py'},
                           {'name': 'schedule computation from live symbols',
                            'where': 'core/ipyflow/frontend.py'}],
             'observe_at': ['response to a schedule request: ready and waiting cells'],
             'hook_needed': None},
 'level_note': 'bounded: every history up to the stated steps over the stated families of notebooks; oracle '
               'is an independent last-writer model of staleness'}


class Model:
    """Reference semantics: variables carry (value, computed_at, inputs); a variable is out of date
    when something it was (transitively) computed from changed afterwards."""

    def __init__(self):
        self.t = 0
        self.val = {}
        self.computed = {}
        self.changed = {}
        self.parents = {}
        self.outdated_by = {}      # var -> time of the latest change upstream of it

    def children(self, v):
        return [w for w, ps in self.parents.items() if v in ps]

    def assign(self, v, value, reads, shield=()):
        changed = v not in self.val or self.val[v] != value
        self.val[v] = value
        self.computed[v] = self.t
        self.parents[v] = set(reads) - {v}
        self.outdated_by.pop(v, None)
        if changed:
            self.changed[v] = self.t
            todo, seen = [v], {v} | set(shield)
            while todo:
                for w in self.children(todo.pop()):
                    if w not in seen:
                        seen.add(w)
                        todo.append(w)
                        self.outdated_by[w] = self.t

    def waiting(self, v):
        return v in self.outdated_by


def triangular(c):
    """cell i computes v_i from a symbolic subset of v_0..v_{i-1}; any re-execution/edit history."""
    k, steps = c.params["cells"], c.params["steps"]
    nb = NB()
    reads = [[j for j in range(i) if c.bool("r%d%d" % (i, j))] for i in range(k)]
    c.assume(all(reads[i] for i in range(1, k)))
    lit = [1] * k
    m = Model()
    last_run = {}

    def src(i):
        return "v%d = %d%s" % (i, lit[i], "".join(" + v%d" % j for j in reads[i]))

    def execute(i):
        r = nb.run(src(i), "c%d" % i)
        assert r.error is None, r.error
        m.t += 1
        m.assign("v%d" % i, lit[i] + sum(m.val["v%d" % j] for j in reads[i]), ["v%d" % j for j in reads[i]])
        last_run[i] = m.t
        c.note("run c%d: %s" % (i, src(i)))

    for i in range(k):
        execute(i)
    for s in range(steps):
        i = c.choice("which%d" % s, k)
        if c.bool("edit%d" % s):
            lit[i] += 1
        execute(i)
        resp = nb.schedule("c%d" % i)
        waiting = {"c%d" % q for q in range(k) if any(m.waiting("v%d" % j) for j in reads[q])}
        ready = {"c%d" % q for q in range(k)
                 if any(m.computed["v%d" % j] > last_run[q] for j in reads[q])} - waiting
        c.reach("ready" if ready else "none-ready")
        if waiting:
            c.reach("waiting")
        c.check_eq(sorted(resp["waiting_cells"]), sorted(waiting), "waiting")
        c.check_eq(sorted(resp["ready_cells"]), sorted(ready), "ready")
        new = {"c%d" % q for q in range(k)
               if "c%d" % q in ready and any(m.computed["v%d" % j] == m.t for j in reads[q])}
        c.check_eq(sorted(resp["new_ready_cells"]), sorted(new), "new-ready")



def multi_writer(c):
    """Several cells may write the same variable and read what they write."""
    k, steps = c.params["cells"], c.params["steps"]
    nb = NB()
    names = ["x", "y"]
    lo, hi = Model(), Model()          # certain / possible dependencies
    nb.run("x = 1\ny = 2", "c0")
    writes, reads = ["x"], [[]]
    for m in (lo, hi):
        m.t = 1
        m.assign("x", 1, [])
        m.assign("y", 2, [])
    last_run = {}
    progs = []
    for i in range(1, k + 1):
        w = c.pick("w%d" % i, names)
        rs = [n for n in names if c.bool("r%d%s" % (i, n))]
        if not rs:
            c.assume(False)
        progs.append((w, rs))

    def execute(i):
        w, rs = progs[i - 1]
        src = "%s = 1 + %s" % (w, " + ".join(rs))
        c.note("run c%d: %s" % (i, src))
        assert nb.run(src, "c%d" % i).error is None
        for m, accumulate in ((lo, False), (hi, True)):
            m.t += 1
            old = m.parents.get(w, set())
            keep = old if w in rs or (accumulate and any(w in m.parents.get(r, ()) for r in rs)) else set()
            # with cyclic definitions, what the statement itself just read need not be flagged
            m.assign(w, 1 + sum(m.val[r] for r in rs), set(rs) | keep, () if accumulate else rs)
        last_run[i] = lo.t

    for i in range(1, k + 1):
        execute(i)
    for s in range(steps):
        i = c.choice("which%d" % s, k) + 1
        execute(i)
        resp = nb.schedule("c%d" % i)
        got_w, got_r = set(resp["waiting_cells"]), set(resp["ready_cells"])
        for q in range(1, k + 1):
            cid = "c%d" % q
            rs = progs[q - 1][1]
            must = any(lo.waiting(r) for r in rs)
            may = any(hi.waiting(r) for r in rs)
            fresh = any(lo.computed[r] > last_run[q] for r in rs)
            c.check(not must or cid in got_w, "must-wait", lambda: "%s reads an out-of-date variable but is not waiting" % cid)
            c.check(may or cid not in got_w, "no-false-wait", lambda: "%s is waiting without reason" % cid)
            c.check_eq(cid in got_r, fresh and cid not in got_w, "ready-iff-updated", lambda: cid)
            if must:
                c.reach("waits")
            if fresh:
                c.reach("fresh")


def pending_edits(c):
    """Edits that have not been executed yet count: readiness follows the current text of a cell."""
    nb = NB()
    k = 3
    for i in range(k):
        assert nb.run("v%d = %d" % (i, i + 1), "c%d" % i).error is None
    m = Model()
    m.t = k
    names = ["v0", "v1", "v2"]
    for i, n in enumerate(names):
        m.computed[n] = i + 1
    old = [n for n in names if c.bool("old_" + n)]
    new = [n for n in names if c.bool("new_" + n)]
    assert nb.run("s = [0%s]" % "".join(", " + n for n in old), "s").error is None
    ran = 4
    j = c.choice("rerun", 3)
    when = c.choice("edit_when", 3)            # edit before the re-run, after it, or never
    content = "s = [1%s]" % "".join(", " + n for n in new)
    if c.bool("syntax_error"):
        content = "s = [1, "
        new = old                               # unparsable text: the previous text stays in force
    if when == 0:
        nb.content["s"] = content
        nb.request({"type": "notify_content_changed", "cell_metadata_by_id": nb.metadata()})
    nb.run("v%d = 50" % j, "c%d" % j)
    m.computed[names[j]] = 5
    c.note("s read %s, now %s (when=%d); rerun v%d" % (old, new, when, j))
    if when == 1:
        nb.content["s"] = content
    resp = nb.schedule("c%d" % j)
    cur = old if when == 2 else new
    # an edited cell is ready when what its text reads was updated after it ran
    want = any(m.computed[n] > ran for n in cur)
    c.reach("ready" if want else "not-ready")
    c.check_eq("s" in resp["ready_cells"], want, "edited-ready")
    c.check_eq(resp["waiting_cells"], [], "edited-waiting")
    # the edit also redirects dependencies once executed
    if when != 2 and content != "s = [1, ":
        assert nb.run(content, "s").error is None
        nb.run("v%d = 60" % j, "c%d" % j)
        resp = nb.schedule("c%d" % j)
        c.check_eq("s" in resp["ready_cells"], names[j] in new, "redirected")


def conditional(c):
    """The inputs of a cell are decided at run time by symbolic values."""
    nb = NB()
    p, q = c.user_int("p", -3, 3), c.user_int("q", -3, 3)
    nb.ns["p"] = p
    nb.ns["q"] = q
    for i, n in enumerate("abd"):
        nb.run("%s = %d" % (n, i + 1), "c" + n)
    form = c.pick("form", [
        "r = a if p > q else b",
        "if p > q:\n    r = a\nelse:\n    r = b",
        "r = (p > q and a) or b",
        "def pick():\n    if p > q:\n        return a\n    return b\nr = pick()",
        "r = d\nif p > q:\n    r = a\nelif p == q:\n    r = b",
    ])
    assert nb.run(form, "cr").error is None
    assert nb.run("t = [r]", "ct").error is None
    changed = c.pick("changed", "abd")
    nb.run("%s = 40" % changed, "c" + changed)
    resp = nb.schedule("c" + changed)
    # inside one expression, every name written in it counts as an input
    exact = "if" in form and not form.startswith("r = a if")
    if not exact:
        read = ["a"] if p > q else ["b"]
    elif form.startswith("r = d"):
        read = ["a"] if p > q else (["b"] if p == q else ["d"])
    else:
        read = ["a"] if p > q else ["b"]
    c.note("%s took %s; changed %s" % (form, read, changed))
    if changed in read:
        c.check("ct" in resp["waiting_cells"], "dynamic-must-wait", lambda: "r was computed from %s" % changed)
        c.reach("must")
    if changed not in read and exact:
        c.check("ct" not in resp["waiting_cells"], "dynamic-no-false-wait",
                lambda: "r was not computed from %s" % changed)
        c.reach("must-not")


# ---- how a value was computed from a variable ------------------------------------------------
PRE = ["x = x0", "y = y0", "w = 3", "lst = [5, 6]", "d = {'k': 7, 'j': 8}",
       "class K:\n    def __init__(self, v):\n        self.v = v\n    def m(self):\n        return self.v + w\no = K(4)",
       "def f(q):\n    return q + y", "def h(q):\n    return f(q) + w", "def s(q):\n    global z\n    z = q", "g = lambda q: q + w", "import math"]
CHANGE = {"x": "x = 71", "y": "y = 72", "w": "w = 73", "lst": "lst = [74, 75]", "d": "d = {'k': 76, 'j': 77}", "f": "def f(q):\n    return q + y + 1"}
DERIVED = [
    "z = x + y", "z = [x, y]", "z = (x, y)", "z = {x, y}", "z = {'a': x}", "z = {x: 1}", "z = [[x]]", "z = [x + 1]", "z = [x] * 3", "z = [0, *lst]", "z = (*lst, x)", "z = {*lst}", "z = {**d}", "z = {**d, 'q': x}",
    "z = [x] + [y]", "z = lst + [w]", "z, q = x, y", "q, (z, r) = x, (y, w)", "z, *q = lst", "q, *z = lst", "(z,) = [x]", "z = (x, y)[0]", "z = [x, y][1]",
    "z = [x]\nz += [y]", "z = [x]\nz.append(y)", "z = []\nz.extend([x])", "z = []\nz.extend(lst)", "z = []\nz.insert(0, x)", "z = [0]\nz[0] = x", "z = {}\nz['k'] = x", "z = {}\nz[x] = 1", "z = {}\nz.update(d)", "z = {}\nz.update(q=x)",
    "z = {}\nz.setdefault('k', x)", "z = set()\nz.add(x)", "z = K(x).v", "z = str(x)", "z = f'{x} {y:>{w}}'", "z = [i + w for i in lst]", "z = {i: w for i in lst}", "z = [x for i in lst]", "z = list(lst)", "z = dict(d)", "z = lst[:]", "z = lst.copy()", "z = lst",
    "z = o.m()", "z = f(x)", "z = [f(x)]", "z = h(x)", "z = g(x)", "z = sorted([x, y])", "z = max([x, y])", "z = max(x, y)", "z = [x][0] + 1", "z = {'a': x}['a']", "z = lst[0]", "z = lst[len([x]) - 1]", "z = lst[len([x]) - 1:]", "z = lst[::len([x])]", "z = [lst[i] for i in [0]]", "z = [lst[len([x]) - 1] for i in [0]]", "z = [lst, 0][len([x]) - 1][0]", "z = [[1, w], 0][len([x]) - 1][1]", "z = [o][len([x]) - 1].v", "z = d['k']", "z = d.get('k')", "z = lst[0] + d['k']",
    "for z in lst:\n    pass", "for i in lst:\n    z = i + w", "for i in [x]:\n    z = i", "z = 0\nfor i in lst:\n    z += i", "for z, q in [(x, y)]:\n    pass", "for i, z in enumerate(lst):\n    pass", "for z, q in zip(lst, [x, y]):\n    pass", "for q, z in d.items():\n    pass", "for q in d:\n    z = d[q]",
    "while True:\n    z = x\n    break", "z = 0\nwhile z < x:\n    z += x", "with open('/dev/null') as q:\n    z = x", "try:\n    z = 1 / 0\nexcept ZeroDivisionError:\n    z = y", "try:\n    z = x\nfinally:\n    q = 1", "(z := x)", "z = (q := x) + 1", "z = [(z := i) for i in lst]", "z = x\nz += y", "z = x\nz = z + y", "z = 1\nz = x", "z = x\nz = 1",
    "s(x)", "z = q = x", "z = x if y else w", "z = x and y", "z = 0 or x", "z = not x", "z = -x", "z = x < y", "z = x is y", "z = (lambda a: a)(y)", "z = next(iter(lst))", "z = any(i > w for i in lst)", "z = sum(i for i in lst if i != w)", "z = [x, [y]][1][0]", "z = math.floor(x)", "z = [math.floor(x)]", "z = list(map(f, lst))", "z = sorted(lst, key=f)",
    "q = [x]\nz = q[0]", "q = [x]\nz = q", "q = {'a': [x]}\nz = q['a'][0]", "q = (x, y)\nz, r = q", "q = x\nr = q\nz = r + 1", "q = K(x)\nz = q.v", "q = K(1)\nq.v = x\nz = q.m()", "q = [0, 0]\nq[1] = x\nz = q[1]", "q = [0, 0]\nq[1] = x\nz = len(q)",
    "def k():\n    return x\nz = k()", "def k(q):\n    q = q + 1\n    return q\nz = k(x)", "def k(q):\n    return [q]\nz = k(x)", "def k(*a):\n    return a\nz = k(x)", "def k(**a):\n    return a\nz = k(q=x)", "def k(q):\n    yield q\nz = list(k(x))", "def k(q=x):\n    return q\nz = k()",
    "def k(a, q=1):\n    return q\nz = k(y, x)", "def k(a, /, *, q):\n    return a + q\nz = k(x, q=y)", "def k(q):\n    if q > 0:\n        return x\n    return y\nz = k(1)", "def k(q):\n    for i in q:\n        return i\nz = k(lst)", "def k(q):\n    q.append(x)\nz = []\nk(z)", "def k():\n    global z\n    z = x\nk()", "def k(q):\n    return k(q - 1) if q > 0 else x\nz = k(2)",
    "def k():\n    r = x\n    def m():\n        return r\n    return m()\nz = k()", "class C:\n    v = x\nz = C.v", "class C:\n    def m(self):\n        return x\nz = C().m()", "class C:\n    @property\n    def p(self):\n        return self.q\nc = C()\nc.q = x\nz = c.p", "import copy\nz = copy.copy(lst)", "import json\nz = json.dumps(d)", "z = '%s %s' % (x, y)", "z = '{}'.format(x)", "z = ','.join([str(x)])",
    "z = lst if x else d", "z = [lst, d][0]", "z = lst or d", "z = int(str(w))", "z = abs(x) + len(lst)", "z = isinstance(x, int)", "z = id(x)", "z = print(x)", "z = 5", "z = lambda: x", "z = dict(zip(lst, [x, y]))", "z = {i: j for i, j in d.items()}", "z = list(reversed(lst))", "z = tuple(lst)", "z = set(lst)", "z = min(lst) if lst else x", "z = sum(lst, x)",
]
# control decides, not data; the value of z does not contain the variable
CONTROL = {("z = 0\nwhile z < x:\n    z += x", "x"), ("def k(q):\n    if q > 0:\n        return x\n    return y\nz = k(1)", "y")}
# z that does not hold data of what was read, or where it is a matter of taste
VALUE_FREE = {"z = x\nz = 1", "z = id(x)", "z = print(x)", "q = [0, 0]\nq[1] = x\nz = len(q)", "z = lambda: x"}
# z does not contain the other parts of what the statement read
PARTS = {("z, q = x, y", "y"), ("q, (z, r) = x, (y, w)", "x"), ("q, (z, r) = x, (y, w)", "w"), ("z = (x, y)[0]", "y"), ("z = [x, y][1]", "x"), ("z = [x, [y]][1][0]", "x"), ("q = (x, y)\nz, r = q", "y"), ("z = [lst, d][0]", "d")}
# read by functions that the cell does not call by name
INDIRECT = {("z = list(map(f, lst))", "y"), ("z = sorted(lst, key=f)", "y"), ("class C:\n    def m(self):\n        return x\nz = C().m()", "x")}
# known findings (see known_findings.json)
GAPS = {
    key: "value-of-an-element-of-a-replaced-container"
    for key in {
        ("z = lst[0]", "lst"),
        ("z = [lst[i] for i in [0]]", "lst"),
        ("z = [lst[len([x]) - 1] for i in [0]]", "lst"),
        ("z = d['k']", "d"),
        ("z = lst[0] + d['k']", "lst"),
        ("z = lst[0] + d['k']", "d"),
        ("z = lst[len([x]) - 1]", "lst"),
        ("q, *z = lst", "lst"),
        ("z, *q = lst", "lst"),
        ("z = (*lst, x)", "lst"),
        ("z = [0, *lst]", "lst"),
    }
}
GAPS["z = {}\nz.setdefault('k', x)", "x"] = "argument-of-setdefault"
GAPS["z = {}\nz[x] = 1", "x"] = "key-of-a-stored-item"


class Reads(dict):
    """a namespace that notes which names are looked up"""

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        self.reads.add(k)
        return v


def derived(c):
    """z is computed from variables in every which way, another cell uses z"""
    nb = NB()
    ext = {"x0": c.user_int("x0", 1, 2), "y0": c.user_int("y0", 1, 2), "print": lambda *a, **k: None}
    ns = Reads(ext)
    ns.reads = set()
    ns["__builtins__"] = builtins
    nb.ns.update(ext)
    src = c.pick("stmt", DERIVED[c.params["off"]::c.params["stride"]])
    v = c.pick("changed", list(CHANGE))
    for i, p in enumerate(PRE):
        exec(compile(p, "<pre>", "exec"), ns)
        assert nb.run(p, "p%d" % i).error is None
    ns.reads.clear()
    exec(compile(src, "<cell>", "exec"), ns)
    read = v in ns.reads
    c.note(src)
    if not read and "f" == v and "f" in src:
        return
    assert nb.run(src, "A").error is None
    assert nb.run("u = str(z)", "B").error is None
    resp = nb.schedule("B")
    c.check_eq(sorted(resp["ready_cells"] + resp["waiting_cells"]), [], "settled-after-running")
    if (src, v) in INDIRECT:
        return
    c.note(CHANGE[v])
    at = [i for i, p in enumerate(PRE) if p.startswith(v + " =") or p.startswith("def %s(" % v)][0]
    assert nb.run(CHANGE[v], "p%d" % at).error is None
    resp = nb.schedule("p%d" % at)
    status = lambda cid: "ready" if cid in resp["ready_cells"] else "waiting" if cid in resp["waiting_cells"] else "quiet"
    a, b = status("A"), status("B")
    sig = GAPS.get((src, v))
    if not read:
        c.reach("not-read")
        if re.search(r"\b%s\b" % v, src) is None:
            c.check_eq((a, b), ("quiet", "quiet"), "not-read-keeps-quiet")
        return
    c.reach("read")
    c.check_eq(a, "ready", "reader-is-ready")
    if src in VALUE_FREE or (src, v) in CONTROL:
        return
    if (src, v) in PARTS:
        c.check_eq(b, "quiet", "user-of-another-part-keeps-quiet")
        return
    c.check_eq(b, "waiting", "user-of-the-result-waits", sig=sig)
    assert nb.run(src, "A").error is None
    resp = nb.schedule("A")
    c.check_eq((status("A"), status("B")), ("quiet", "ready"), "result-recomputed")
    assert nb.run("u = str(z)", "B").error is None
    resp = nb.schedule("B")
    c.check_eq(sorted(resp["ready_cells"] + resp["waiting_cells"]), [], "settled-in-the-end")


HARNESSES = [
    Harness("triangular", triangular,
            lambda p: "%d cells, cell i computing v_i from any non-empty subset of earlier variables; run in order, then %d re-executions of any cell, each with or without an edit that changes its value" % (p["cells"], p["steps"]),
            quick={"cells": 4, "steps": 2}, thorough={"cells": 4, "steps": 3}, setup=boot,
            must_reach=["ready", "none-ready", "waiting"]),
    Harness("multi_writer", multi_writer,
            lambda p: "%d cells each writing x or y from any non-empty subset of {x,y}, then %d re-executions" % (p["cells"], p["steps"]),
            quick={"cells": 2, "steps": 2}, thorough={"cells": 3, "steps": 2}, setup=boot,
            must_reach=["waits", "fresh"]),
    Harness("pending_edits", pending_edits, "any subset of 3 inputs before and after an unexecuted (possibly unparsable) edit", setup=boot,
            must_reach=["ready", "not-ready", "assert:redirected"]),
    Harness("conditional", conditional, "symbolic ints p,q in [-3,3] decide which input is read; 5 control-flow forms", setup=boot,
            must_reach=["must", "must-not"]),
    Harness("derived", derived, lambda p: "every %d-th of %d ways to compute a value from variables (x, y symbolic ints in [1,2]); every one of %d variables changed" % (p["stride"], len(DERIVED), len(CHANGE)), setup=boot,
            outside="values computed under the control of a variable only; elements of a container that is replaced as a whole", quick={"off": 0, "stride": 1}, thorough={"off": 0, "stride": 1}, must_reach=["read", "not-read"]),
]
