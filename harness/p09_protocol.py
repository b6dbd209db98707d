# -*- coding: utf-8 -*-
"""P09: the messages between the kernel and the frontend."""
import json

from symx.api import Harness
from symx.ipf import NB, boot

PROPERTY = "P09"
PROP = {
    "id": "P09",
    "title": "What the kernel tells the frontend is consistent and complete",
    "statement": "After any history of running, editing, moving and removing cells, under every execution schedule, dataflow direction and execution mode, the response to compute_exec_schedule is consistent: it serializes to JSON; no cell is both ready and waiting, newly ready and forced cells are ready; the cells that a waiting cell waits for do not wait themselves and ready_maker_links is the inverse of waiter_links; cell_children is the inverse of cell_parents, no cell is its own parent and with in-order dataflow all parents are above; only cells of the notebook are mentioned; executed_cells are those that ran; last_execution_was_error tells whether the last one raised; the settings in it are those in force. Sending the same request again, or with the cells listed in another order, gives the same response. get_code, get_last_updated_cell_id, upsert_symbol, refresh_symbols and requests nobody handles answer with what the notebook really holds, and a failing request is reported as such and changes nothing.",
    "quantifier": {"over": ["histories", "configurations", "inputs"], "text": "every history within the bound of runs, edits, moves and removals over notebooks of four cells from menus, every combination of schedule, direction and mode, all integer values of the variables"},
    "why_tests_cant": "The unit tests look at a few fields of the responses to a few histories, nearly all under one configuration; the invariants tie the fields of one response, and responses to one another, for every history and configuration.",
    "anchors": {
        "files": ["core/ipyflow/comm_manager.py", "core/ipyflow/frontend.py", "core/ipyflow/flow.py", "core/ipyflow/data_model/cell.py"],
        "mechanism": [
            {"name": "CommManager.handle and the handlers", "where": "core/ipyflow/comm_manager.py"},
            {"name": "FrontendCheckerResult", "where": "core/ipyflow/frontend.py"},
        ],
        "observe_at": ["the responses to comm requests"],
        "hook_needed": None,
    },
    "level_note": "bounded: histories up to the stated number of steps; the variables' values are symbolic",
}

BODIES = {
    "a": ["x = {k}", "x = y + {k}"],
    "b": ["y = x + {k}", "y = u", "y = {k}"],
    "c": ["z = x + y", "x += {k}", "z = fn(y)\nfn2 = fn"],
    "d": ["y = z", "assert {k} is None", "def fn(t):\n    return x + t", "u = {k}\nz = u", "z = ("],
}


def settings(c):
    from ipyflow.config import ExecutionMode, ExecutionSchedule, FlowDirection

    p = c.params
    return dict(exec_schedule=c.pick("schedule", list(ExecutionSchedule)), flow_direction=c.pick("direction", list(FlowDirection)),
                exec_mode=c.pick("mode", list(ExecutionMode)) if p.get("modes", True) else ExecutionMode.LAZY)


def same(c, r1, r2, label, *but):
    norm = lambda v: {k: norm(w) for k, w in v.items() if w} if isinstance(v, dict) else sorted(v, key=repr) if isinstance(v, list) else v
    for k in r1.keys() | r2.keys():
        if k not in but:
            c.check_eq(norm(r2.get(k)), norm(r1.get(k)), label, lambda: k)


def consistent(c, nb, r, conf, ran, error):
    cs, pos = set(nb.content), nb.pos
    ok = lambda cond, label, *what: c.check(cond, label, lambda: " ".join(map(repr, what)))
    ok(r["success"], "success", r)
    ok(r["type"] == "compute_exec_schedule", "type")
    try:
        json.dumps(r)
    except TypeError as e:
        ok(False, "json", e)
    ready, waiting, new = set(r["ready_cells"]), set(r["waiting_cells"]), set(r["new_ready_cells"])
    for k in ("ready_cells", "waiting_cells", "new_ready_cells", "forced_reactive_cells", "forced_cascading_reactive_cells"):
        ok(len(set(r[k])) == len(r[k]), "no-duplicates", k, r[k])
        ok(set(r[k]) <= cs, "only-cells-of-the-notebook", k, r[k])
    ok(not ready & waiting, "ready-and-waiting", ready, waiting)
    ok(new <= ready, "new-ready", new, ready)
    ok(set(r["forced_reactive_cells"]) | set(r["forced_cascading_reactive_cells"]) <= ready, "forced-ready")
    links = {(w, m) for w, ms in r["waiter_links"].items() for m in ms}
    ok({w for w, _ in links} <= waiting, "only-waiting-cells-wait", links, waiting)
    ok(not {m for _, m in links} & waiting, "waits-for-waiting", links, waiting)
    ok({(w, m) for m, ws in r["ready_maker_links"].items() for w in ws} == links, "links-inverse", links, r["ready_maker_links"])
    parents = {(k, p) for k, ps in r["cell_parents"].items() for p in ps}
    ok({(k, p) for p, ks in r["cell_children"].items() for k in ks} == parents, "children-inverse", r["cell_parents"], r["cell_children"])
    ok(all(k != p for k, p in parents), "own-parent", parents)
    ok(set(r["cell_parents"]) == cs, "parents-of-all", r["cell_parents"], sorted(cs))
    if conf["flow_direction"].value == "in_order":
        ok(all(pos[p] < pos[k] for k, p in parents), "parents-above", parents, pos)
        ok(all(pos[m] < pos[w] for w, m in links), "made-ready-from-above", links, pos)
        pos = {**pos, **{u: float("inf") for us in r["unsafe_order_cells"].values() for u in us if u not in cs}}   # a removed cell
        ok(all(pos[u] > pos[k] for k, us in r["unsafe_order_cells"].items() for u in us), "unsafe-below", r["unsafe_order_cells"])
    else:
        ok(not any(r["unsafe_order_cells"].values()), "no-unsafe-order", r["unsafe_order_cells"])
    ok(set(r["executed_cells"]) >= ran, "executed", r["executed_cells"], ran)
    ok(set(r["executed_cells"]) & cs <= ran, "not-executed", r["executed_cells"], ran)
    ok(r["last_execution_was_error"] is error, "error", error)
    ok((r["exec_mode"], r["exec_schedule"], r["flow_order"]) == (conf["exec_mode"].value, conf["exec_schedule"].value, conf["flow_direction"].value), "settings", r["settings"])
    for k, v in nb.flow().mut_settings.to_json().items():
        ok(r["settings"].get(k) == v, "settings", k)


def messages(c):
    p = c.params
    conf = settings(c)
    nb = NB(**conf)
    conf["interface"] = c.pick("interface", p["interfaces"])
    body = {}
    for i, cid in enumerate("abcd"):
        body[cid] = c.pick(cid, BODIES[cid][:p["bodies"]])
        nb.ns["k" + cid] = c.user_int("k" + cid)
        nb.pos[cid] = i
        nb.content[cid] = body[cid].format(k="k" + cid)
    c.note("%s %s: %s" % (conf["exec_schedule"].value, conf["flow_direction"].value, "; ".join(nb.content.values())))
    nb.flow().initialize(interface=conf["interface"], cell_metadata_by_id=nb.metadata(), **{k: v.value for k, v in conf.items() if k != "interface"})
    r = nb.schedule()      # what the frontend asks for when it connects
    c.check(r["success"], "success", lambda: repr(r))
    ran, error, last = set(), False, None
    ops = ["run-" + cid for cid in "abcd"] + p["ops"]
    for s in range(-p["runs"], p["steps"]):
        if s < 0:
            op = "run-" + "abcd"[s + p["runs"]]       # the cells that have run before
        else:
            op = c.pick("op%d" % s, ops)
        c.note(op)
        kind, _, cid = op.partition("-")
        if cid and cid not in nb.content:
            return
        if kind == "run":
            r = nb.run(nb.content[cid], cid)
            ran.add(cid)
            error, last = r.error is not None, cid
        elif kind == "edit":
            nb.content[cid] = BODIES[cid][(BODIES[cid].index(body[cid]) + 1) % len(BODIES[cid])].format(k="k" + cid)
        elif kind == "move":
            nb.pos[cid], nb.pos["a" if cid != "a" else "d"] = nb.pos["a" if cid != "a" else "d"], nb.pos[cid]
        elif kind == "remove":
            del nb.content[cid]
            ran.discard(cid)
        if s < 0:
            continue
        if kind != "run":
            out = nb.request({"type": "notify_content_changed", "cell_metadata_by_id": nb.metadata()})
            c.check(len(out) == 1 and out[0]["success"], "notify", lambda: repr(out))
            if out[0]["type"] == "compute_exec_schedule":
                consistent(c, nb, out[0], conf, ran, error)
        if last not in nb.content:
            return
        r = nb.schedule(last)
        consistent(c, nb, r, conf, ran, error)
        r1 = nb.schedule(last)
        same(c, r, r1, "same-again", "new_ready_cells")
        r2 = nb.schedule(last, content=dict(reversed(list(nb.content.items()))))
        same(c, r1, r2, "any-order-of-cells")
        c.reach(kind)
        if r["ready_cells"]:
            c.reach("ready")
        if r["waiting_cells"]:
            c.reach("waiting")
        if any(r["waiter_links"].values()):
            c.reach("links")


REQUESTS = ["code", "last-updated", "upsert-new", "upsert-changed", "upsert-same", "upsert-missing", "upsert-unknown-dep", "refresh", "refresh-unknown", "bump", "cleanup", "active-cell", "unknown-type", "malformed", "dynamic", "raises"]


def flagged(nb):
    r = nb.schedule()
    return set(r["ready_cells"]), set(r["waiting_cells"])


def requests(c):
    """the other requests, one after the other, between runs of cells"""
    p = c.params
    conf = settings(c)
    nb = NB(**conf)
    for i, (cid, src) in enumerate([("a", "x = ka"), ("b", "y = x + kb"), ("c", "z = y + x"), ("w", "w0 = 1"), ("d", "v = [w, x]")]):
        nb.content[cid], nb.pos[cid] = src, i
        nb.ns["k" + cid] = c.user_int("k" + cid)
    nb.flow().initialize(interface="jupyterlab", cell_metadata_by_id=nb.metadata(), **{k: v.value for k, v in conf.items()})
    r = nb.schedule()
    c.check(r["success"], "success", lambda: repr(r))
    num = {}
    for cid in "abcw":
        nb.run(nb.content[cid], cid)
        num[cid] = nb.cells().exec_counter()
    for s in range(p["steps"]):
        if p["steps"] > 1 and c.bool("run%d" % s):
            cid = c.pick("cell%d" % s, "abc")
            nb.run(nb.content[cid], cid)
            num[cid] = nb.cells().exec_counter()
        req = c.pick("request%d" % s, REQUESTS)
        c.note(req)
        before = flagged(nb)
        ask = lambda **kw: nb.request(kw)
        ok = lambda cond, label="answer", what=None: c.check(cond, label, lambda: "%s: %r" % (req, what))
        deps = lambda q: sorted(d.readable_name for d in nb.gsym(q).parents)
        dag = conf["exec_schedule"].value != "liveness_based"
        quiet = True
        if req == "code":
            for name, cells in (("x", "a"), ("y", "ab"), ("z", "abc")):
                out = ask(type="get_code", symbol=name)
                c.check(len(out) == 1 and out[0]["success"] and out[0]["type"] == "get_code" and out[0]["symbol"] == name, "code", lambda: repr(out))
                if all(num[q] < num[w] for q, w in zip(cells, cells[1:])):
                    want = "\n\n".join("# Cell %d\n%s" % (num[q], nb.content[q]) for q in cells)
                    c.check_eq(out[0]["code"], want, "code", lambda: name)
            out = ask(type="get_code", symbol="nothing")
            ok(len(out) == 1 and out[0]["success"] is False, what=out)
        elif req == "last-updated":
            for name, cid in (("x", "a"), ("y", "b"), ("z", "c")):
                out = ask(type="get_last_updated_cell_id", symbol=name)
                ok(len(out) == 1 and out[0].get("cell_id") == cid and out[0]["success"], what=out)
            out = ask(type="get_last_updated_cell_id", symbol="nothing")
            ok(len(out) == 1 and out[0]["success"] is False, what=out)
        elif req == "upsert-new":
            nb.ns["w"] = c.user_int("w%d" % s)
            known = nb.gsym("w") is not None
            out = ask(type="upsert_symbol", symbol="w", deps=["x"])
            ok(len(out) == 1 and out[0]["success"] is True, what=out)
            ok(nb.gsym("w").obj is nb.ns["w"] and deps("w") == ["x"], "upserted", deps("w"))
            quiet = False
        elif req == "upsert-changed":
            nb.ns["x"] = c.user_int("x%d" % s)
            out = ask(type="upsert_symbol", symbol="x")
            ok(len(out) == 1 and out[0]["success"] is True, what=out)
            ok(nb.gsym("x").obj is nb.ns["x"] and deps("x") == [], "upserted", deps("x"))
            if not dag and conf["flow_direction"].value == "any_order":    # else it counts as updated in the cell that ran last
                ready, waiting = flagged(nb)
                ok({"b", "c"} - {max(num, key=num.get)} <= ready | waiting, "upsert-flags", (ready, waiting))
            return
        elif req == "upsert-same":
            out = ask(type="upsert_symbol", symbol="y", deps=["z"])
            ok(len(out) == 1 and out[0]["success"] is False, what=out)
            ok(deps("y") == ["kb", "x"] or deps("y") == ["x"], "untouched", deps("y"))
        elif req == "upsert-missing":
            out = ask(type="upsert_symbol", symbol="nothing", deps=["x"])
            ok(len(out) == 1 and out[0]["success"] is False, what=out)
            ok(nb.gsym("nothing") is None, "untouched")
        elif req == "upsert-unknown-dep":
            nb.ns["q"] = c.user_int("q%d" % s)
            out = ask(type="upsert_symbol", symbol="q", deps=["nothing", "y"])
            ok(len(out) == 1 and out[0]["success"] is True and deps("q") == ["y"], what=out)
        elif req == "refresh":
            out = ask(type="refresh_symbols", symbols=["x", "nothing"])
            ok(len(out) == 1 and out[0]["success"], what=out)
            if not dag and conf["flow_direction"].value == "any_order":    # else it counts as updated in the cell that ran last
                ready, waiting = flagged(nb)
                ok({"b", "c"} - {max(num, key=num.get)} <= ready | waiting, "refresh-flags", (ready, waiting))
            return
        elif req == "refresh-unknown":
            out = ask(type="refresh_symbols", symbols=["nothing", "nobody.v"])
            ok(len(out) == 1 and out[0]["success"], what=out)
        elif req == "bump":
            out = ask(type="bump_timestamp", timestamp="t")
            ok(len(out) == 1 and out[0]["success"] and nb.flow().tracked_timestamps["t"].cell_num == nb.cells().exec_counter(), what=out)
        elif req == "cleanup":
            out = ask(type="reactivity_cleanup")
            ok(len(out) == 1 and out[0]["success"], what=out)
            ok(nb.schedule()["new_ready_cells"] == [], "no-new-ready")
        elif req == "active-cell":
            out = ask(type="change_active_cell", active_cell_id="b")
            ok(len(out) == 1 and out[0]["success"] and nb.flow().active_cell_id == "b", what=out)
        elif req == "unknown-type":
            ok(ask(type="what_is_this", symbol="x") == [], what="no handler")
        elif req == "malformed":
            for kind in ("get_code", "get_last_updated_cell_id", "upsert_symbol", "bump_timestamp", "change_active_cell"):
                out = ask(type=kind)
                ok(len(out) == 1 and out[0]["success"] is False and out[0]["type"] == kind and "error" in out[0], what=out)
        elif req == "dynamic":
            kind = "ask%d" % s
            out = ask(type="register_dynamic_comm_handler", msg_type=kind, handler="  n = request['n']\n  return {'twice': n * 2}")
            ok(len(out) == 1 and out[0]["success"], what=out)
            n = c.user_int("n%d" % s)
            out = ask(type=kind, n=n)
            ok(len(out) == 1 and out[0]["success"] and out[0]["type"] == kind, what=out)
            c.check_eq(out[0]["twice"], n * 2, "answer", lambda: "dynamic")
            out = ask(type="register_dynamic_comm_handler", msg_type="get_code", handler="return {}")
            ok(len(out) == 1 and out[0]["success"] is False, "registered-twice", out)
            ok("code" in ask(type="get_code", symbol="x")[0], "registered-twice")
        elif req == "raises":
            kind = "bad%d" % s
            ask(type="register_dynamic_comm_handler", msg_type=kind, handler="raise ValueError('because')")
            out = ask(type=kind)
            ok(len(out) == 1 and out[0]["success"] is False and out[0]["error"] == "because", what=out)
        c.reach(req)
        if quiet:
            c.check_eq(sorted(map(sorted, flagged(nb))), sorted(map(sorted, before)), "changes-nothing", lambda: req)


def links(c):
    """which cells are ready and which ones wait for which, in notebooks of any shape"""
    from ipyflow.config import ExecutionSchedule, FlowDirection

    n = c.params["cells"]
    nb = NB(exec_schedule=ExecutionSchedule.LIVENESS_BASED, flow_direction=c.pick("direction", list(FlowDirection)))
    ids, reads, at = ["c%d" % i for i in range(n)], [], []
    for i, cid in enumerate(ids):
        reads.append([j for j in range(i) if c.bool("r%d%d" % (i, j))])
        nb.ns["k%d" % i] = c.user_int("k%d" % i)
        nb.pos[cid], nb.content[cid] = i, "v%d = k%d" % (i, i) + "".join(" + v%d" % j for j in reads[i])
    c.note("; ".join(nb.content.values()))
    nb.request({"type": "notify_content_changed", "cell_metadata_by_id": nb.metadata()})
    for i, cid in enumerate(ids):
        r = nb.run(nb.content[cid], cid)
        c.check(r.error is None, "no-error", lambda: repr(r.error))
        at.append(i)
    for s in range(c.params["runs"]):
        i = c.choice("run%d" % s, n)
        old = nb.ns["v%d" % i]
        nb.ns["k%d" % i] = c.user_int("n%d" % s)
        c.note("run " + ids[i])
        r = nb.run(nb.content[ids[i]], ids[i])
        c.check(r.error is None, "no-error", lambda: repr(r.error))
        if not nb.ns["v%d" % i] != old:
            return
        at[i] = n + s
        stale = []
        for q in range(n):
            stale.append(any(at[j] > at[q] or stale[j] for j in reads[q]))
        ready = {q for q in range(n) if stale[q] and not any(stale[j] for j in reads[q])}
        waiting = {q for q in range(n) if stale[q]} - ready
        # a cell that has just run with something out of date is up to date with it
        got = nb.schedule(ids[i])
        name = lambda qs: sorted(ids[q] for q in qs)
        if not stale[i]:
            c.check_eq(sorted(got["ready_cells"]), name(ready), "links-ready")
            c.check_eq(sorted(got["waiting_cells"]), name(waiting), "links-waiting")
        makers = {}
        for q in range(n):
            makers[q] = set().union(*[{j} if j in ready else makers[j] for j in reads[q] if stale[j]])
        if not stale[i]:
            c.check_eq(sorted([w, sorted(ms)] for w, ms in got["waiter_links"].items() if ms), sorted([ids[q], name(makers[q])] for q in waiting), "links")
        else:
            c.reach("ran-out-of-date")
            return
        c.reach("waiting" if waiting else "none")


HARNESSES = [
    Harness("links", links, lambda p: "%d cells, each computed from any of the earlier ones; %d of them run again with other values; any order and in order" % (p["cells"], p["runs"]),
            outside="more cells; other statements; the DAG schedules", setup=boot, quick={"cells": 4, "runs": 2}, thorough={"cells": 5, "runs": 2}, must_reach=["waiting", "none"]),
    Harness("messages", messages, lambda p: "four cells with %d bodies each at most, %d of them run at first, then %d steps out of running one, %s; every schedule and direction%s"
            % (p["bodies"], p["runs"], p["steps"], ", ".join(p["ops"]), " and mode" if p.get("modes", True) else ""),
            outside="other cells, longer histories, tags, override refs", setup=boot,
            quick={"bodies": 3, "runs": 3, "steps": 1, "modes": False, "interfaces": ["jupyterlab"], "ops": ["edit-a", "edit-b", "edit-c", "edit-d", "move-d", "move-b", "remove-b", "remove-d"]},
            thorough={"bodies": 2, "runs": 3, "steps": 2, "modes": False, "interfaces": ["jupyterlab"], "ops": ["edit-a", "edit-b", "edit-c", "edit-d", "move-d", "move-b", "remove-b", "remove-d"]},
            must_reach=["run", "edit", "move", "remove", "ready", "waiting", "links"]),
    Harness("requests", requests, lambda p: "%d requests out of %d, %s; every schedule, direction and mode" % (p["steps"], len(REQUESTS), "each after a run of a cell or not" if p["steps"] > 1 else "after the cells ran"),
            outside="other requests and arguments; longer sequences", setup=boot,
            quick={"steps": 1}, thorough={"steps": 2, "modes": False}, must_reach=["code", "last-updated", "unknown-type", "malformed", "dynamic", "raises", "cleanup", "bump"]),
]
