# -*- coding: utf-8 -*-
"""P08: in JupyterLab, running a cell brings the notebook up to date."""
from symx.api import Harness
from symx.ipf import boot
from symx.lab import Lab

PROPERTY = "P08"
PROP = {'id': 'P08',
 'title': 'Reactive notebooks: running an edited cell brings its dependents up to date',
 'statement': 'With the settings JupyterLab uses (reactive execution in batches, over the dependency graph of the cells), '
              'after a cell is edited and run, the kernel has told the frontend to run exactly the cells that depend on it '
              '(and whatever those still need), once each, top to bottom: every variable then has the value which running '
              'all the cells from top to bottom in a fresh session gives, no cell is reported ready or waiting, and the '
              'reported parents and children of each cell are those that the code of the cells implies. This holds for '
              'single definitions of each variable however computed and used, for edits that change which variables a '
              'cell reads, for edits that are only run later, for cells that redefine or mutate a variable from above, '
              'for inserted cells, and for cells that raised and were corrected.',
 'quantifier': {'over': ['inputs', 'histories', 'configurations'],
                'text': 'all dependency patterns between the cells up to the bound, all values of the constants in them, '
                        'which cells are edited (and how) and which are run, in which order, all three schedules where stated'},
 'why_tests_cant': 'The unit tests check which cells are ready in fixed small notebooks in a few histories; that the '
                   'graph, the staleness bookkeeping and the frontend protocol together always lead to the top-to-bottom '
                   'state quantifies over all notebooks and edit histories.',
 'anchors': {'files': ['core/ipyflow/frontend.py', 'core/ipyflow/comm_manager.py', 'core/ipyflow/flow.py',
                       'core/ipyflow/data_model/cell.py', 'core/ipyflow/data_model/symbol.py',
                       'core/ipyflow/slicing/mixin.py', 'core/ipyflow/shell/interactiveshell.py'],
             'mechanism': [{'name': 'schedule computed over the cell graph', 'where': 'core/ipyflow/frontend.py'},
                           {'name': 'edges added and removed as cells are edited and run', 'where': 'core/ipyflow/slicing/mixin.py'}],
             'observe_at': ['responses to schedule requests and content notifications', 'values of the variables'],
             'hook_needed': None},
 'level_note': 'bounded: all notebooks in the stated shapes; the frontend (frontend/labextension/src/store.ts, index.ts) is '
               'represented by a line-by-line Python port of its closure computation; constants are solver variables, so '
               'equality of values is decided for all of them'}

VS = "vwxyz"
SCHEDULES = ["dag_based", "hybrid_dag_liveness_based"]


class Book(Lab):
    """A Lab that compares itself with running everything top to bottom."""

    def __init__(self, c, ids, settings=None):
        self.c, self.n = c, 0
        self.ext = {}
        super().__init__(ids, settings)

    def const(self):
        """a fresh constant: any value"""
        name = "k%d" % self.n
        self.n += 1
        self.ext[name] = self.nb.ns[name] = self.c.user_int(name)
        return name

    def put(self, cid, src):
        self.c.note("edit %s: %s" % (cid, src))
        self.edit(cid, src)

    def go(self, cid):
        k = len(self.log)
        self.run(cid)
        self.c.note("run %s -> %s%s" % (cid, self.log[k:], "".join(" %s: %r" % e for e in self.errors.items() if e[1])))
        return self.log[k:]

    def plain(self):
        ns = dict(self.ext)
        for cid in self.order:
            exec(self.content[cid], ns)
        return ns

    def up_to_date(self, exprs, label="values", sig=None):
        want = self.plain()
        for e in exprs:
            w = eval(e, want)
            try:
                g = eval(e, self.nb.ns)
            except Exception as ex:
                self.c.check(False, label, lambda: "%s raises %r" % (e, ex))
                continue
            self.c.check_eq(g, w, label, lambda: e, sig=sig)
        self.c.check_eq(sorted(self.ready), [], "nothing-ready")
        self.c.check_eq(sorted(self.waiting), [], "nothing-waiting")

    def graph(self, want):
        for cid in self.order:
            self.c.check_eq(sorted(self.parents[cid]), sorted(want[cid]), "cell-parents", lambda: cid)
            self.c.check_eq(sorted(self.children[cid]), sorted(d for d in want if cid in want[d]), "cell-children", lambda: cid)

    def ran_what_depends(self, cid, ran, want):
        """nothing was pending: cid and what depends on it, in order, once"""
        need = {cid}
        for d in self.order:
            if need & set(want[d]):
                need.add(d)
        if self.settings.get("flow_order") != "any_order":
            self.c.check_eq(ran, [d for d in self.order if d in need], "what-ran", lambda: cid)
            return
        # then the cells run in some order in which what a cell reads is there
        self.c.check_eq(sorted(ran), sorted(need), "what-ran", lambda: cid)
        self.c.check(all(p not in ran[k:] for k, d in enumerate(ran) for p in want[d]), "order-of-the-cells",
                     lambda: repr(ran))


# ---- each variable defined by one cell ----------------------------------------------

def single(c):
    n, rounds = c.params["cells"], c.params["rounds"]
    settings = c.pick("settings", c.params["settings"])
    ids = list("abcde"[:n])
    b = Book(c, ids, settings)
    reads = {i: [j for j in range(i) if c.bool("r%d%d" % (i, j))] for i in range(n)}

    def src(i):
        return "%s = %s%s" % (VS[i], b.const(), "".join(" + " + VS[j] for j in reads[i]))

    def want():
        return {ids[i]: [ids[j] for j in reads[i]] for i in range(n)}
    for i in range(n):
        b.put(ids[i], src(i))
        b.go(ids[i])
    b.up_to_date(VS[:n])
    b.graph(want())
    for r in range(rounds):
        i = c.choice("edit%d" % r, n)
        clean = not b.dirty
        flip = c.choice("flip%d" % r, i + 1)            # an edit adds or removes at most one read
        if flip:
            j = flip - 1
            reads[i] = sorted(set(reads[i]) ^ {j})
        b.put(ids[i], src(i))
        if r < rounds - 1 and c.bool("later%d" % r):
            c.reach("edit-left-for-later")
            continue
        ran = b.go(ids[i])
        if clean:
            b.ran_what_depends(ids[i], ran, want())
        c.reach("ran-%d" % min(len(ran), 3))
    for cid in ids:
        if cid in b.dirty:
            b.go(cid)
    b.up_to_date(VS[:n])
    b.graph(want())


# ---- redefinitions --------------------------------------------------------------------

def redefine(c):
    """several cells assign to the same variables, from what is above them; edits change constants"""
    n, rounds = c.params["cells"], c.params["rounds"]
    b = Book(c, list("abcde"[:n]), {"exec_schedule": c.pick("schedule", SCHEDULES)})
    target, reads, values = {}, {}, {}
    for i, cid in enumerate(b.order):
        target[cid] = c.pick("t%d" % i, ["x", "y"])
        reads[cid] = [v for v in sorted(set(target[d] for d in b.order[:i])) if c.bool("r%d%s" % (i, v))]

    def src(cid):
        return "%s = %s%s" % (target[cid], b.const(), "".join(" + " + v for v in reads[cid]))
    orig = b.nb.run

    def recording(code, cid):
        out = orig(code, cid)
        values[cid] = b.nb.ns.get(target[cid])
        return out
    b.nb.run = recording

    def verify():
        ns = dict(b.ext)
        for cid in b.order:
            exec(b.content[cid], ns)
            c.check_eq(values[cid], ns[target[cid]], "result-of-the-cell", lambda: cid)
    for cid in b.order:
        b.put(cid, src(cid))
        b.go(cid)
    verify()
    for r in range(rounds):
        cid = b.order[c.choice("edit%d" % r, n)]
        b.put(cid, src(cid))
        b.go(cid)
        verify()
    if len(set(target.values())) == 1:
        c.reach("one-variable")


# ---- all sorts of cells -----------------------------------------------------------------

DEFINE = {
    "int": ("{v} = {e}", "{v}"),
    "list": ("{v} = [{e}, 0]", "{v}[0]"),
    "dict": ("{v} = {{'a': {e}}}", "{v}['a']"),
    "function": ("def {v}():\n    return {e}", "{v}()"),
    "class": ("class {v}:\n    a = {e}", "{v}.a"),
    "object": ("{v} = Obj()\n{v}.a = {e}", "{v}.a"),
    "loop": ("{v} = 0\nfor i_ in [1, 2]:\n    {v} += {e}", "{v}"),
    "tuple": ("{v}, _{v} = {e}, 1", "{v}"),
    "comprehension": ("{v} = sum([q + {e} for q in [1, 2]])", "{v}"),
    "if": ("if True:\n    {v} = {e}\nelse:\n    {v} = 0", "{v}"),
    "with": ("with Obj():\n    {v} = {e}", "{v}"),
    "try": ("try:\n    {v} = {e}\nfinally:\n    pass", "{v}"),
    "walrus": ("[({v} := {e})]", "{v}"),
    "nested": ("{v} = {{'a': [{e}]}}", "{v}['a'][0]"),
    "lambda": ("{v} = lambda: {e}", "{v}()"),
    "method": ("class {v}:\n    def m(self):\n        return {e}", "{v}().m()"),
    "whole-list": ("{v} = [{e}, 0]", "sum({v})"),
    "augmented": ("{v} = 0\n{v} += {e}", "{v}"),
}


class Obj:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def forms(c):
    """a defines with one construct, b uses that and defines with another, c uses b; d is apart"""
    names = list(DEFINE)
    f, g = c.pick("first", names), c.pick("second", names[c.params["off"]::c.params["stride"]])
    b = Book(c, list("abcd"))
    for k, v in (("Obj", Obj),):
        b.nb.ns[k] = b.ext[k] = v
    (df, uf), (dg, ug) = DEFINE[f], DEFINE[g]
    sources = {
        "a": lambda: df.format(v="v", e=b.const()),
        "b": lambda: dg.format(v="w", e=b.const() + " + " + uf.format(v="v")),
        "c": lambda: "x = %s + %s" % (b.const(), ug.format(v="w")),
        "d": lambda: "y = " + b.const(),
    }
    want = {"a": [], "b": ["a"], "c": ["b"], "d": []}
    if f in ("function", "lambda", "method") or g in ("function", "lambda", "method"):
        # what the body of a function reads counts where the function is called
        want = None
    exprs = [uf.format(v="v"), ug.format(v="w"), "x", "y"]
    for cid in b.order:
        b.put(cid, sources[cid]())
        b.go(cid)
    b.up_to_date(exprs)
    for r in range(c.params["rounds"]):
        cid = c.pick("edit%d" % r, ["a", "b", "c"])
        b.put(cid, sources[cid]())
        ran = b.go(cid)
        b.up_to_date(exprs, sig="lambda-called-in-a-method" if f == "lambda" and g == "method" else None)
        c.check("d" not in ran, "unrelated-cell", "d was run")
        if want:
            b.ran_what_depends(cid, ran, want)
            b.graph(want)
            c.reach("graph")
        c.reach("edit-" + cid)


# ---- mutation -----------------------------------------------------------------------------

MUTATE = {
    "append": ("x = [{k}]", ["x.append({k})", "x.extend([{k}, 1])", "x += [{k}]"], "sum(x)"),
    "dict": ("x = {{'a': {k}}}", ["x['b'] = {k}", "x.update(b={k})", "x['b'] = x['a'] + {k}", "x['a'] = {k}"], "sum(x.values())"),
    "item": ("x = [{k}, 2]", ["x[1] = {k}", "x[0] = x[1] + {k}", "x[0] += {k}", "x.insert(0, {k})"], "x[0] * 10 + x[1]"),
    "attribute": ("x = Obj()\nx.a = {k}", ["x.b = {k}", "x.b = x.a + {k}", "x.a = {k}"], "x.a + getattr(x, 'b', 0)"),
}


def mutate(c):
    """one cell makes a container, others above the reader change it in place"""
    kind = c.pick("kind", list(MUTATE))
    define, muts, use = MUTATE[kind]
    m = c.params["mutators"]
    ids = list("abcde"[: m + 2])
    b = Book(c, ids)
    b.nb.ns["Obj"] = b.ext["Obj"] = Obj
    how = {ids[1 + i]: c.pick("m%d" % i, muts) for i in range(m)}

    def src(cid):
        t = define if cid == ids[0] else how.get(cid) or "r = {k} + " + use
        return t.replace("{k}", b.const()).replace("{{", "{").replace("}}", "}")
    for cid in ids:
        b.put(cid, src(cid))
        b.go(cid)
    b.up_to_date([use, "r"])
    for r in range(c.params["rounds"]):
        cid = c.pick("edit%d" % r, ids)
        b.put(cid, src(cid))
        b.go(cid)
        b.up_to_date([use, "r"])
        c.reach("edit-the-reader" if cid == ids[-1] else "edit-the-definition" if cid == ids[0] else "edit-a-mutation")


# ---- errors and insertions ------------------------------------------------------------------

def failing(c):
    """an edit makes the cell raise, before or after its assignment; the next edit corrects it"""
    n = c.params["cells"]
    ids = list("abcde"[:n])
    b = Book(c, ids, c.pick("settings", [{}, {"exec_schedule": "hybrid_dag_liveness_based"}, {"flow_direction": "any_order"}]))
    reads = {i: [j for j in range(i) if c.bool("r%d%d" % (i, j))] for i in range(n)}

    def src(i):
        return "%s = %s%s" % (VS[i], b.const(), "".join(" + " + VS[j] for j in reads[i]))

    def want():
        return {ids[i]: [ids[j] for j in reads[i]] for i in range(n)}
    for i in range(n):
        b.put(ids[i], src(i))
        b.go(ids[i])
    i = c.choice("fails", n)
    b.put(ids[i], c.pick("how", ["1 / 0\n%s", "%s\n1 / 0", "%s + undefined_"]) % src(i))
    ran = b.go(ids[i])
    c.check_eq(ran, [ids[i]], "the-error-stops-the-rest")
    b.put(ids[i], src(i))
    ran = b.go(ids[i])
    b.ran_what_depends(ids[i], ran, want())
    b.up_to_date(VS[:n])
    b.graph(want())
    c.reach("others-updated" if len(ran) > 1 else "alone")


def inserted(c):
    """cells are inserted anywhere, or deleted, and edited and run"""
    n = 3
    ids = list("abc")
    b = Book(c, ids, c.pick("settings", [{}, {"exec_schedule": "hybrid_dag_liveness_based"}]))
    reads = {"a": [], "b": [v for v in "v" if c.bool("rb" + v)], "c": [v for v in "vw" if c.bool("rc" + v)]}
    target = dict(zip(ids, VS))

    def src(cid):
        return "%s = %s%s" % (target[cid], b.const(), "".join(" + " + v for v in reads[cid]))

    def want():
        by = {v: k for k, v in target.items()}
        return {cid: [by[v] for v in reads[cid]] for cid in b.order}
    for cid in ids:
        b.put(cid, src(cid))
        b.go(cid)
    pos = c.choice("at", n + 1)
    target["n"] = "u"
    reads["n"] = [target[d] for d in b.order[:pos] if c.bool("rn" + target[d])]
    b.insert("n", pos, "")
    b.put("n", src("n"))
    ran = b.go("n")
    b.ran_what_depends("n", ran, want())
    b.graph(want())
    below = b.order[pos + 1:]
    if below and c.bool("uses"):
        cid = below[c.choice("user", len(below))]
        reads[cid] = reads[cid] + ["u"]
        b.put(cid, src(cid))
        b.ran_what_depends(cid, b.go(cid), want())
        c.reach("inserted-cell-used")
    cid = c.pick("edit", b.order)
    b.put(cid, src(cid))
    b.ran_what_depends(cid, b.go(cid), want())
    b.up_to_date([target[d] for d in b.order])
    b.graph(want())


def several(c):
    """a cell defines two variables, until an edit removes one of them, and another one puts it back"""
    ids = list("anbc")
    b = Book(c, ids, c.pick("settings", c.params["settings"]))
    defs = {"a": ["v", "w"], "n": ["u"], "b": ["x"], "c": ["y"]}
    reads = {"a": [], "n": [], "b": [v for v in "vwu" if c.bool("rb" + v)], "c": [v for v in "vwx" if c.bool("rc" + v)]}

    def put(cid):
        b.put(cid, "\n".join("%s = %s%s" % (v, b.const(), "".join(" + " + r for r in reads[cid])) for v in defs[cid]))

    def want():
        by = {v: k for k, vs in defs.items() for v in vs}
        return {cid: sorted({by[v] for v in reads[cid] if v in by}) for cid in b.order}
    for cid in ids:
        put(cid)
        b.go(cid)
    b.up_to_date("vwuxy")
    b.graph(want())
    gone = c.pick("gone", "vw")
    defs["a"] = [v for v in defs["a"] if v != gone]
    put("a")
    b.graph(want())         # as soon as the text says so
    c.reach("gone")
    if c.bool("run-n"):
        put("n")
        if "a" in b.go("n"):
            c.reach("ran-without")
            return
        b.graph(want())
    defs["a"] = defs["a"] + [gone] if c.bool("second") else [gone] + defs["a"]
    put("a")
    b.go("a")
    b.up_to_date("vwuxy")
    b.graph(want())


ALL = [{}, {"exec_schedule": "hybrid_dag_liveness_based"}, {"exec_schedule": "liveness_based"},
       {"flow_direction": "any_order"}, {"pull_reactive_updates": False}]

HARNESSES = [
    Harness("single", single,
            lambda p: "%d cells with any read pattern, %d edits (each adds or removes at most one read), run at once or later; %d settings"
            % (p["cells"], p["rounds"], len(p["settings"])),
            quick={"cells": 3, "rounds": 2, "settings": ALL[:2]},
            thorough={"cells": 4, "rounds": 2, "settings": ALL}, setup=boot,
            must_reach=["edit-left-for-later", "ran-1", "ran-2", "ran-3"]),
    Harness("redefine", redefine,
            lambda p: "%d cells assigning to either of two variables, with any read pattern, %d edits of constants" % (p["cells"], p["rounds"]),
            quick={"cells": 3, "rounds": 2}, thorough={"cells": 4, "rounds": 2}, setup=boot, must_reach=["one-variable"],
            outside="edits that make a cell read a variable which only cells below it define by then"),
    Harness("forms", forms,
            lambda p: "%d ways of defining and using a variable, after one another, %d edits of constants" % (len(DEFINE), p["rounds"]),
            quick={"off": 0, "stride": 3, "rounds": 1}, thorough={"off": 0, "stride": 1, "rounds": 2}, setup=boot,
            must_reach=["graph", "edit-a", "edit-b", "edit-c"]),
    Harness("mutate", mutate,
            lambda p: "a container, %d cells changing it in place, a reader; %d edits of constants" % (p["mutators"], p["rounds"]),
            quick={"mutators": 1, "rounds": 2}, thorough={"mutators": 2, "rounds": 2}, setup=boot,
            must_reach=["edit-the-reader", "edit-the-definition", "edit-a-mutation"]),
    Harness("failing", failing, lambda p: "%d cells with any read pattern; one raises, then is corrected" % p["cells"],
            quick={"cells": 3}, thorough={"cells": 4}, setup=boot, must_reach=["others-updated", "alone"]),
    Harness("inserted", inserted, "3 cells with any read pattern, a fourth inserted anywhere, reading anything above, then used or not; an edit",
            setup=boot, must_reach=["inserted-cell-used"]),
    Harness("several", several, lambda p: "4 cells, one of which defines two variables, with any read pattern; an edit removes one of them and another puts it back, maybe with another cell run in between; %d settings" % len(p["settings"]),
            quick={"settings": ALL[:2]}, thorough={"settings": ALL}, setup=boot, must_reach=["gone"],
            outside="running the cell while the definition is missing (cells that need it cannot run then either)"),
]
