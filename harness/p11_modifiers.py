# -*- coding: utf-8 -*-
"""P11: reactive modifiers."""
from symx.api import Harness
from symx.ipf import NB, boot

PROPERTY = "P11"
PROP = {
    "id": "P11",
    "title": "Reactive modifiers run exactly the cells they ask to run",
    "statement": "In the classic (non-reactive) notebook, where a cell that runs is followed by the cells its modifiers force: `$v` (or `$$v`) in front of a name, attribute or item that a cell reads makes that cell run again after a run of another cell updates it; in front of what a cell stores, it makes the cells that read it run after that run; `$$` goes on from there, to the cells that depend on what the forced cells compute; `$:` in front of a read or of a store keeps that read from being a reason to run. Nothing else runs: not a cell whose reads carry no modifier, not a cell that still waits for something another cell has yet to recompute, not a cell that ran already in the same round. This holds wherever in the cell the modifier stands, and a modifier never changes what the cell computes.",
    "quantifier": {"over": ["programs", "inputs", "histories"], "text": "every assignment of no modifier, `$`, `$$` and `$:` to the stores and the reads of a notebook of three or four cells (chains and every pattern of reads of earlier cells), one or two re-runs of any cell, both flow directions; and every combination of a place to store, a place to read and their modifiers; the stored numbers are unconstrained symbols"},
    "why_tests_cant": "tests run a dozen notebooks with a modifier or two in plain assignments; which cells are forced is decided from the modifiers of the read, of the write, of every dependency in between, from timestamps and from what is still waiting, so it takes the combinations to find that one overrides another or that one survives into a later round",
    "anchors": {"files": ["core/ipyflow/tracing/utils.py", "core/ipyflow/analysis/live_refs.py", "core/ipyflow/analysis/resolved_symbols.py",
                          "core/ipyflow/frontend.py", "core/ipyflow/flow.py", "core/ipyflow/data_model/symbol.py", "core/ipyflow/types.py"],
                "mechanism": [{"name": "modifiers found in the text, kept per position", "where": "core/ipyflow/tracing/utils.py"},
                              {"name": "forced cells computed with the ready cells", "where": "core/ipyflow/frontend.py"}],
                "observe_at": ["responses to schedule requests: forced_reactive_cells, forced_cascading_reactive_cells"], "hook_needed": None},
    "level_note": "bounded symbolic execution of the real tracer, resolver and frontend checker; the front end's loop (run the forced cell with the smallest id, check, repeat, clean up) is the harness's, as the extension's is",
}
MODS = ["", "$", "$$", "$:"]


def run(c, nb, log, cid, src):
    """the loop of the classic notebook: run the cell, then whatever is forced, until nothing new is"""
    done, pending, first = set(), set(), None
    order = []
    sources = log
    sources[cid] = src
    while cid is not None:
        done.add(cid)
        order.append(cid)
        r = nb.run(sources[cid], cid, pos="0abcd".index(cid))
        c.check(r.error is None, "no-error", lambda: repr(r.error))
        f = nb.schedule(cid, content=sources)
        pending |= set(f["forced_reactive_cells"]) | set(f["forced_cascading_reactive_cells"])
        cid = next(iter(sorted(pending - done)), None)
    nb.request({"type": "reactivity_cleanup"})
    c.note("%s: %s -> %s" % (order[0], src, order))
    return order


class Model:
    def __init__(self, target):
        self.target = target
        self.cell_of = {v: k for k, v in target.items() if v}
        self.now, self.stale, self.unread = 0, set(), {}   # unread: cell -> variables updated since it ran

    def run(self, start, stores, loads):
        """the cells that run when `start` is run; stores: cell -> modifier, loads: cell -> {variable: modifier}"""
        target, stale = self.target, self.stale
        ran, cascading, forced = [], set(), set()
        cid = start
        while cid is not None:
            ran.append(cid)
            self.unread[cid] = set()
            v = target[cid]
            if v:
                for d in loads:
                    if v in loads[d]:
                        self.unread.setdefault(d, set()).add(v)
                stale.discard(v)
                if stores[cid] == "$$" or any(m == "$$" or u in cascading for u, m in loads[cid].items()):
                    cascading.add(v)
                todo = {v}
                while todo:
                    u = todo.pop()
                    for d in loads:
                        w = target[d]
                        if u in loads[d] and w and w not in stale and d not in ran:
                            stale.add(w)
                            todo.add(w)
            for d in loads:
                if d in ran or set(loads[d]) & stale:
                    continue        # it waits for what another cell has yet to compute
                for u, m in loads[d].items():
                    if u not in self.unread.get(d, ()) or m == "$:" or stores[self.cell_of[u]] == "$:":
                        continue
                    if m in ("$", "$$") or u in cascading or (stores[self.cell_of[u]] in ("$", "$$") and self.cell_of[u] == cid):
                        forced.add(d)
            cid = min(forced - set(ran), default=None)
        return ran


def chain(c):
    nb, src = NB(), {}
    target = {"a": "v", "b": "w", "c": "x", "d": None}
    loads = {"a": {}, "b": {"v": c.pick("bv", MODS)}, "c": {"w": c.pick("cw", MODS)}, "d": {"x": c.pick("dx", ["", "$"])}}
    extra = c.pick("cv", [None, "", "$"])
    if extra is not None:
        loads["c"]["v"] = extra
    stores = {"a": "", "b": c.pick("b", MODS), "c": c.pick("c", ["", "$:"]), "d": ""}
    k = [0]

    def text(cid):
        name = "k%d" % k[0]
        k[0] += 1
        nb.ns[name] = c.user_int(name)
        t = "%s%s = " % (stores[cid], target[cid]) if target[cid] else ""
        return t + name + "".join(" + %s%s" % (m, v) for v, m in sorted(loads[cid].items()))
    for cid in "abcd":
        run(c, nb, src, cid, text(cid))
    stores["a"] = c.pick("a", MODS)
    order = run(c, nb, src, "a", text("a"))
    c.check_eq(order, Model(target).run("a", stores, loads), "what-ran", lambda: str(order))
    c.reach("chained")


def web(c):
    """any reads, two reruns"""
    n = c.params["cells"]
    nb, src = NB(**c.pick("flow", [{}, {"flow_direction": "in_order"}])), {}
    ids = "abcd"[:n]
    target = {cid: "vwxy"[i] for i, cid in enumerate(ids)}
    loads, stores = {}, {}
    for i, cid in enumerate(ids):
        loads[cid] = {}
        for j in range(i):
            m = c.pick("%s%s" % (cid, target[ids[j]]), [None] + MODS)
            if m is not None:
                loads[cid][target[ids[j]]] = m
        stores[cid] = ""
    k = [0]

    def text(cid):
        name = "k%d" % k[0]
        k[0] += 1
        nb.ns[name] = c.user_int(name)
        return "%s%s = %s" % (stores[cid], target[cid], name) + "".join(" + %s%s" % (m, v) for v, m in sorted(loads[cid].items()))
    for cid in ids:
        run(c, nb, src, cid, text(cid))
    model = Model(target)
    for r in range(c.params["rounds"]):
        cid = c.pick("edit%d" % r, ids[:-1])
        stores[cid] = c.pick("m%d" % r, MODS)
        order = run(c, nb, src, cid, text(cid))
        want = model.run(cid, stores, loads)
        c.check_eq(order, want, "what-ran", lambda: str(order))
        c.reach("forced" if len(want) > 1 else "plain")


STORES = {
    "name": ("{m}v = {k}", "v"), "walrus": ("if ({m}v := {k}) is None:\n    pass", "v"), "def": ("def {m}v():\n    return {k}", "v()"),
    "for": ("for {m}v in [{k}]:\n    pass", "v"), "with": ("with cm({k}) as {m}v:\n    pass", "v"), "tuple": ("{m}v, u = {k}, 1", "v"),
    "list": ("[u, {m}v] = 1, {k}", "v"), "annotated": ("{m}v: int = {k}", "v"), "class": ("class {m}v:\n    a = {k}", "v.a"),
    "attribute": ("{m}o.v = {k}", "o.v"), "last-attribute": ("o.{m}v = {k}", "o.v"), "item": ("{m}l[0] = {k}", "l[0]"),
    "augmented": ("v = 0\n{m}v += {k}", "v"), "chained": ("u = {m}v = {k}", "v"), "in-function": ("def fn():\n    global v\n    {m}v = {k}\nfn()", "v"),
    "starred": ("u, *{m}v = 1, {k}, 2", "v[0]"), "nested": ("u, (w, {m}v) = 1, (2, {k})", "v"), "branch": ("if {k} is not None:\n    {m}v = {k}", "v"),
}
LOADS = {
    "name": "x = {r}", "expression": "{r}", "sum": "x = {k} + {r} + 1", "lambda": "g = lambda: {r}\nx = g()", "comprehension": "x = [q + 0 for q in [{r}]]",
    "comprehension-body": "x = [{r} for q in [1]]", "argument": "x = idn({r})", "keyword": "x = idn(v={r})", "if": "if {r} is None:\n    pass", "item": "x = [{r}]",
    "dict": "x = {{1: {r}}}", "function": "def g():\n    return {r}\nx = g()", "conditional": "x = {k} if {r} is None else 2", "assert": "assert {r} is not None",
    "loop": "for i in [{r}]:\n    x = i", "body": "for i in [1, 2]:\n    x = {r}", "boolean": "x = {r} is None or 5", "method": "x = [].append({r})", "default": "def g(p={r}):\n    return p",
    "class": "class C:\n    a = {r}", "return": "def g():\n    y = {r}\n    return y\nx = g()", "compare": "x = {r} == {k}", "subscript": "x = [].count({r})",
    "while": "while {r} is None:\n    pass", "try": "try:\n    x = {r}\nfinally:\n    pass", "with": "with cm({r}) as x:\n    pass", "walrus": "(x := {r})", "augmented": "x = 0\nx += {r}", "slice": "x = [1][:{r} is None]",
}
PLACE_PRE = """
class Obj:
    pass
o = Obj()
l = [0, 0]
class cm:
    def __init__(self, v):
        self.v = v
    def __enter__(self):
        return self.v
    def __exit__(self, *e):
        pass
def idn(v):
    return v
"""


def places(c):
    """modifiers in front of anything that is stored or loaded"""
    k = c.params["stride"]
    at, to = c.pick("pair", [(a, b) for i, a in enumerate(STORES) for j, b in enumerate(LOADS) if (i + j) % k == c.params["offset"] % k])
    (store, use), load = STORES[at], LOADS[to]
    ms, ml = c.pick("ms", MODS), c.pick("ml", MODS)
    if at == "augmented" and ms == "$:":
        return c.reach("left-out")      # `v = 0` in front of it is an update without a modifier
    nb, src = NB(), {}
    k = [0]

    def fill(t, m, u=""):
        name = "k%d" % k[0]
        k[0] += 1
        nb.ns[name] = c.user_int(name)
        return t.format(m=m, k=name, r=u)
    run(c, nb, src, "0", PLACE_PRE)
    run(c, nb, src, "a", fill(store, ""))
    run(c, nb, src, "b", fill(load, "", ml + use))
    run(c, nb, src, "c", fill("y = {k}", ""))
    order = run(c, nb, src, "a", fill(store, ms))
    blocked = "$:" in (ms, ml)
    want = ["a", "b"] if not blocked and "$" in ms + ml else ["a"]
    c.check_eq(order, want, "what-ran", lambda: str(order))
    c.reach("ran" if len(want) > 1 else "blocked" if blocked else "plain")


HARNESSES = [
    Harness("chain", chain, "four cells in a chain v -> w -> x -> reader, with or without a second read of v by the third; no modifier, $, $$ and $: on the reads of v and w, on the edited store of v and on the store of w; no modifier and $: on the store of x; no modifier and $ on the last read and the second read",
            "more than one re-run (see web); cells with several stores; the text of a cell changing what it reads", quick={}, thorough={}, setup=boot, must_reach=["chained"]),
    Harness("web", web, lambda p: "%(cells)d cells, each of which reads any of the earlier cells' variables with any modifier (or does not read it), then %(rounds)d rounds in which any cell but the last is run again with any modifier on its store; any-order and in-order" % p,
            "more cells and rounds; a re-run that changes what a cell reads", quick={"cells": 3, "rounds": 1}, thorough={"cells": 3, "rounds": 2}, setup=boot, must_reach=["forced", "plain"]),
    Harness("places", places, lambda p: "%d places to store x %d places to read x 16 pairs of modifiers, every %dth pair of places" % (len(STORES), len(LOADS), p["stride"]),
            "several modifiers in one statement; del and import; two cells in between", quick={"stride": 7, "offset": 0}, thorough={"stride": 1, "offset": 0}, setup=boot, must_reach=["ran", "blocked", "plain"]),
]
