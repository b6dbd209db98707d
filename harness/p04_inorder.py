# -*- coding: utf-8 -*-
"""P04: in-order semantics: only what comes from above a cell can affect it."""
from symx.api import Harness
from symx.engine import SymIntConstHash, sym_and
from symx.ipf import NB, boot

PROPERTY = "P04"
PROP = {'id': 'P04',
 'title': 'In-order notebooks: only cells above can affect a cell',
 'statement': 'With in-order dataflow, a cell is reported ready or waiting only because of definitions '
              'positioned above it, whatever the execution history and however cells are arranged or moved. '
              'Shadowing follows the closest defining cell above.',
 'quantifier': {'over': ['histories', 'configurations'],
                'text': 'all arrangements of the cells (positions are symbolic), all execution histories up '
                        'to the bound, both schedule kinds'},
 'why_tests_cant': 'Tests fix the positions; the guarantee ranges over all arrangements and moves combined '
                   'with all histories.',
 'anchors': {'files': ['core/ipyflow/frontend.py',
                       'core/ipyflow/data_model/cell.py',
                       'core/ipyflow/analysis/live_refs.py',
                       'core/ipyflow/flow.py'],
             'mechanism': [{'name': 'position filter on updates and live references',
                            'where': 'core/ipyflow/frontend.py'}],
             'observe_at': ['response to a schedule request'],
             'hook_needed': None},
 'level_note': 'bounded: positions are solver variables, all relative orders of up to 4 cells are decided; '
               'oracle is an independent in-order model'}


def setup_notebook(c, schedule, k):
    from ipyflow.config import ExecutionSchedule, FlowDirection, Interface

    nb = NB(exec_schedule=ExecutionSchedule(schedule), flow_direction=FlowDirection.IN_ORDER)
    nb.flow().mut_settings.interface = Interface.JUPYTER
    ids = ["c%d" % i for i in range(k)]
    pos = {}
    for i, cid in enumerate(ids):
        pos[cid] = c.int("pos_%s" % cid, 0, k + 1, cls=SymIntConstHash)
    for i in range(k):
        for j in range(i):
            c.assume(pos[ids[i]] != pos[ids[j]])
    nb.pos = pos
    return nb, ids, pos


def tell(nb):
    """the frontend reports content and positions"""
    nb.request({"type": "notify_content_changed", "cell_metadata_by_id": nb.metadata()})


def liveness(c):
    k, steps = c.params["cells"], c.params["steps"]
    nb, ids, pos = setup_notebook(c, "liveness_based", k)
    reads = [[j for j in range(i) if c.bool("r%d%d" % (i, j))] for i in range(k)]
    c.assume(all(reads[i] for i in range(1, k)))
    lit = [1] * k
    for i in range(k):
        nb.content[ids[i]] = "v%d = %d%s" % (i, lit[i], "".join(" + v%d" % j for j in reads[i]))
    tell(nb)
    computed, t = {}, 0

    def execute(i):
        nonlocal t
        t += 1
        src = "v%d = %d%s" % (i, lit[i], "".join(" + v%d" % j for j in reads[i]))
        c.note("run %s: %s" % (ids[i], src))
        assert nb.run(src, ids[i]).error is None
        computed[i] = t

    def above(i, j):
        return pos[ids[i]] <= pos[ids[j]]

    def stale_at(j, q):
        """v_j is out of date as seen from cell q's position"""
        if not above(j, q):
            return False
        return any(above(p, j) and (computed[p] > computed[j] or stale_at(p, j)) for p in reads[j])

    for i in range(k):
        execute(i)
    for s in range(steps):
        i = c.choice("which%d" % s, k)
        lit[i] += 1
        execute(i)
        resp = nb.schedule(ids[i])
        for q in range(k):
            wait = any(stale_at(j, q) for j in reads[q])
            fresh = any(above(j, q) and computed[j] > computed[q] for j in reads[q])
            new = fresh and not wait and any(above(j, q) and computed[j] == t for j in reads[q])
            c.check_eq(ids[q] in resp["waiting_cells"], wait, "waiting", lambda: ids[q])
            c.check_eq(ids[q] in resp["ready_cells"], fresh and not wait, "ready", lambda: ids[q])
            isnew = ids[q] in resp["new_ready_cells"]
            c.check(not isnew or not above(q, i), "no-upward-reactivity",
                    lambda: "%s sits above the executed %s" % (ids[q], ids[i]))
            c.check_eq(isnew, bool(new and not above(q, i)), "new-ready", lambda: ids[q])
            unsafe = {ids[j] for j in reads[q] if not above(j, q)}
            c.check_eq(sorted(resp["unsafe_order_cells"].get(ids[q], [])), sorted(unsafe), "unsafe-order", lambda: ids[q])
            c.reach("wait" if wait else "ready" if fresh else "neither")
            if unsafe:
                c.reach("unsafe")



def dag(c):
    """the cell graph based schedules, in order and in any order"""
    k, steps = c.params["cells"], c.params["steps"]
    schedule = c.pick("schedule", ["dag_based", "hybrid_dag_liveness_based"])
    nb, ids, pos = setup_notebook(c, schedule, k)
    reads = [[j for j in range(i) if c.bool("r%d%d" % (i, j))] for i in range(k)]
    c.assume(all(reads[i] for i in range(1, k)))
    lit = [1] * k
    for i in range(k):
        nb.content[ids[i]] = "v%d = %d%s" % (i, lit[i], "".join(" + v%d" % j for j in reads[i]))
    tell(nb)
    ran, t = {}, 0

    def execute(i):
        nonlocal t
        t += 1
        src = "v%d = %d%s" % (i, lit[i], "".join(" + v%d" % j for j in reads[i]))
        c.note("run %s: %s" % (ids[i], src))
        assert nb.run(src, ids[i]).error is None
        ran[i] = t

    def above(i, j):
        return pos[ids[i]] <= pos[ids[j]]

    for i in range(k):
        execute(i)
    for s in range(steps):
        i = c.choice("which%d" % s, k)
        lit[i] += 1
        execute(i)
        resp = nb.schedule(ids[i])
        fresh = {q: any(above(j, q) and ran[j] > ran[q] for j in reads[q]) for q in range(k)}
        flagged, wait = {q for q in range(k) if fresh[q]}, set()
        while True:
            more = {q for q in range(k) if q not in wait and any(above(j, q) and j in flagged for j in reads[q])}
            if not more:
                break
            wait |= more
            flagged |= more
        for q in range(k):
            c.check_eq(ids[q] in resp["waiting_cells"], q in wait, "dag-waiting", lambda: ids[q])
            c.check_eq(ids[q] in resp["ready_cells"], fresh[q] and q not in wait, "dag-ready", lambda: ids[q])
            want = {ids[j] for j in reads[q] if above(j, q)}
            c.check_eq(set(resp["cell_parents"][ids[q]]), want, "dag-parents", lambda: ids[q])
            c.reach("dag-wait" if q in wait else "dag-ready" if fresh[q] else "dag-neither")



def shadow(c):
    """several cells define the same variable: a reader depends on the nearest definition above it"""
    k = c.params["cells"]
    schedule = c.pick("schedule", ["dag_based", "hybrid_dag_liveness_based"])
    nb, ids, pos = setup_notebook(c, schedule, k)
    writer = [c.bool("w%d" % i) for i in range(k)]
    kinds = ["w" if w else "r" for w in writer]
    def src(i, lit):
        return "x = %d" % lit if kinds[i] == "w" else "r%d = [x]" % i
    for i in range(k):
        nb.content[ids[i]] = src(i, 10 + i)
    tell(nb)
    for j in range(k - 1):                      # which cell is where is symmetric: the kinds vary
        c.assume(pos[ids[j]] < pos[ids[j + 1]])
    rank = order = list(range(k))
    if kinds[order[0]] != "w":
        c.assume(False)
    for i in order:
        assert nb.run(src(i, 10 + i), ids[i]).error is None
        resp = nb.schedule(ids[i])

    def source(i):
        above = [j for j in order[: rank[i]] if kinds[j] == "w"]
        return above[-1]

    readers = [i for i in range(k) if kinds[i] == "r"]
    for i in readers:
        c.check_eq(set(resp["cell_parents"][ids[i]]), {ids[source(i)]}, "nearest-definition", lambda: ids[i])
    pending = set()
    for s in range(c.params["steps"]):
        i = c.choice("again%d" % s, k)
        c.note("kinds by position %s; rerun the cell at %d" % ([kinds[j] for j in order], rank[i]))
        assert nb.run(src(i, 50 + s), ids[i]).error is None
        resp = nb.schedule(ids[i])
        pending.discard(i)
        if kinds[i] == "w":
            pending |= {q for q in readers if source(q) == i}
        if s and kinds[i] == "w":
            # two different definitions re-run: only what the last one feeds is certain
            certain = {q for q in readers if source(q) == i}
        else:
            certain = pending
        got = set(resp["ready_cells"])
        if certain:
            c.reach("some-ready")
        c.check(got >= {ids[q] for q in certain} and got <= {ids[q] for q in pending}, "shadow-ready",
                lambda: "ready %s, expected %s" % (sorted(got), sorted(ids[q] for q in pending)))
        c.check_eq(set(resp["waiting_cells"]), set(), "shadow-waiting")
        if kinds[i] != "w":
            break


def moved(c):
    """cells are moved after they ran: the new positions decide"""
    k = 3
    nb, ids, pos = setup_notebook(c, c.pick("schedule", ["liveness_based", "dag_based"]), k)
    nb.pos = {cid: i for i, cid in enumerate(ids)}
    srcs = ["v0 = 1", "v1 = [v0]", "v2 = [v0, v1]"]
    for cid, s in zip(ids, srcs):
        nb.content[cid] = s
    tell(nb)
    for cid, s in zip(ids, srcs):
        assert nb.run(s, cid).error is None
    nb.pos = pos
    tell(nb)
    i = c.choice("again", k)
    assert nb.run(srcs[i], ids[i]).error is None
    resp = nb.schedule(ids[i])
    reads = {0: [], 1: [0], 2: [0, 1]}
    for q in range(k):
        if q == i:
            continue
        fresh = i in reads[q] and pos[ids[i]] <= pos[ids[q]]
        flagged = ids[q] in resp["ready_cells"] or ids[q] in resp["waiting_cells"]
        via1 = q == 2 and i == 0 and pos["c0"] <= pos["c1"] and pos["c1"] <= pos["c2"]
        c.check_eq(flagged, bool(fresh or via1), "moved", lambda: "%s after rerunning %s" % (ids[q], ids[i]))
        c.reach("moved-flag" if flagged else "moved-quiet")


HARNESSES = [
    Harness("liveness", liveness,
            lambda p: "%d cells with any read pattern, at symbolic distinct positions, %d re-execution(s)" % (p["cells"], p["steps"]),
            quick={"cells": 4, "steps": 1}, thorough={"cells": 4, "steps": 2}, setup=boot,
            must_reach=["wait", "ready", "neither", "unsafe"]),
    Harness("dag", dag,
            lambda p: "%d cells with any read pattern, at symbolic distinct positions, %d re-execution(s), dag and hybrid schedules" % (p["cells"], p["steps"]),
            quick={"cells": 3, "steps": 2}, thorough={"cells": 4, "steps": 2}, setup=boot,
            must_reach=["dag-wait", "dag-ready", "dag-neither"]),
    Harness("shadow", shadow,
            lambda p: "%d cells at symbolic positions, each defining or reading the same variable; run top to bottom, up to %d re-executed" % (p["cells"], p["steps"]),
            quick={"cells": 4, "steps": 2}, thorough={"cells": 5, "steps": 2}, setup=boot, must_reach=["some-ready"]),
    Harness("moved", moved, "3 cells run in order, then moved to any symbolic positions; one re-executed", setup=boot,
            must_reach=["moved-flag", "moved-quiet"]),
]
