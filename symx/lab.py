# -*- coding: utf-8 -*-
"""What the JupyterLab extension does with the kernel's answers (frontend/labextension/src/{store,index}.ts),
for the settings that JupyterLab uses: cells run in batches, together with everything that depends on them."""
from symx.ipf import NB


class Lab:
    def __init__(self, order, settings=None, exec_mode="reactive"):
        self.nb = NB()
        self.order = list(order)
        self.content = {cid: "" for cid in self.order}
        self.dirty, self.executed = set(), set()
        self.parents, self.children = {}, {}
        self.ready, self.waiting = set(), set()
        self.stale, self.stale_ec, self.stale_ce = {}, {}, {}
        self.new_ready, self.forced, self.forced_cascading, self.done = set(), set(), set(), set()
        self.settings = {}
        self.log = []
        self.errors = {}
        self.reactively = False
        kw = dict(settings or {})
        kw.setdefault("interface", "jupyterlab")
        self.nb.flow().initialize(cell_metadata_by_id=self.metadata(), **kw)
        self.last = None
        self.request_schedule()

    # -- the notebook ------------------------------------------------------------
    def metadata(self):
        return {cid: {"index": i, "content": self.content[cid], "type": "code"} for i, cid in enumerate(self.order)}

    def edit(self, cid, src):
        if self.content.get(cid) == src:
            return
        self.content[cid] = src
        self.dirty.add(cid)
        self.content_changed()

    def insert(self, cid, pos, src=""):
        self.order.insert(pos, cid)
        self.content[cid] = src
        self.content_changed()

    def content_changed(self):
        for msg in self.nb.request({"type": "notify_content_changed", "cell_metadata_by_id": self.metadata()}):
            self.on_msg(msg)

    def run(self, *cids):
        """shift-enter"""
        if self.settings.get("exec_mode") == "reactive":
            self.execute(self.closure(cids))
        else:
            self.execute(cids)

    def run_only(self, *cids):
        """as when the extension does not interfere"""
        self.execute(cids)

    # -- store.ts ------------------------------------------------------------------
    def execute(self, cids):
        if not cids:
            return
        for cid in cids:
            r = self.nb.run(self.content[cid], cid)
            self.log.append(cid)
            self.errors[cid] = r.error
            self.executed.add(cid)
            self.dirty.discard(cid)
            if r.error is not None:
                break
        self.reactively = False
        self.request_schedule()

    def request_schedule(self):
        for msg in self.nb.request({"type": "compute_exec_schedule", "cell_metadata_by_id": self.metadata(),
                                    "is_reactively_executing": self.reactively}):
            self.on_msg(msg)

    def _closure(self, closure, cid, edges, pull=False, skip=False):
        if not skip and cid in closure:
            return
        if not pull:
            closure.add(cid)
        relatives = edges.get(cid)
        if relatives is None:
            return
        before = len(closure)
        for rel in relatives:
            self._closure(closure, rel, edges, pull)
        if pull and (len(closure) > before or cid not in self.executed or cid in self.ready
                     or cid in self.waiting or cid in self.dirty):
            closure.add(cid)
        if not pull or cid not in closure:
            return
        for rel in relatives:
            if rel in closure:
                continue
            include = rel in self.stale.get(cid, ())
            if not include:
                for ex, stale in self.stale_ec.get(cid, {}).items():
                    if ex not in closure:
                        continue
                    include = rel in stale
                    if include:
                        break
            if include:
                closure.add(rel)
                self._closure(closure, rel, edges, pull, True)
        for child, stale in self.stale_ce.get(cid, {}).items():
            if child not in closure:
                continue
            for parent in stale:
                if parent in closure or parent not in edges.get(child, ()):
                    continue
                closure.add(parent)
                self._closure(closure, parent, edges, pull, True)

    def raw_closure(self, start):
        cids = list(start)
        closure = dict.fromkeys(cids)

        class S(dict):
            def add(self, k):
                self[k] = None
        closure = S(closure)
        while True:
            for cid in list(cids):
                self._closure(closure, cid, self.children, False, True)
            if self.settings.get("pull_reactive_updates") in (None, "False", False):
                break
            for cid in list(closure):
                self._closure(closure, cid, self.parents, True, True)
            if len(cids) == len(closure) or self.settings.get("push_reactive_updates_to_cousins") in (None, "False", False):
                break
            cids = list(closure)
        return list(closure)

    def closure(self, start):
        idx = {cid: i for i, cid in enumerate(self.order)}
        if self.settings.get("flow_order") == "any_order":
            out, seen = [], set()

            def visit(cid):
                if cid in seen or cid not in idx:
                    return
                seen.add(cid)
                for child in self.children.get(cid, ()):
                    visit(child)
                out.insert(0, cid)
            for cid in self.order:
                visit(cid)
            idx = {cid: i for i, cid in enumerate(out)}
        return sorted((cid for cid in self.raw_closure(start) if cid in idx), key=idx.get)

    # -- index.ts --------------------------------------------------------------------
    def on_msg(self, msg):
        if msg.get("type") != "compute_exec_schedule" or not msg.get("success", True):
            return
        self.last = msg
        self.settings = msg["settings"]
        self.parents, self.children = msg["cell_parents"], msg["cell_children"]
        self.executed = set(msg["executed_cells"])
        self.waiting, self.ready = set(msg["waiting_cells"]), set(msg["ready_cells"])
        self.forced |= set(msg["forced_reactive_cells"])
        self.forced_cascading |= set(msg["forced_cascading_reactive_cells"])
        self.stale = msg["stale_parents"]
        self.stale_ec = msg["stale_parents_by_executed_cell_by_child"]
        self.stale_ce = msg["stale_parents_by_child_by_executed_cell"]
        mode = msg["exec_mode"]
        self.reactively = self.reactively or msg.get("is_reactively_executing", False) or mode == "reactive"
        self.new_ready = self.new_ready | set(msg["new_ready_cells"]) if mode == "reactive" else set()
        self.done.add(msg["last_executed_cell_id"])
        cells = []
        if not msg["last_execution_was_error"]:
            cascading = self.closure([c for c in self.forced_cascading if c not in self.done])
            if mode == "reactive":
                start = [c for c in list(self.new_ready) + list(self.forced) + cascading if c not in self.done]
                cells = [c for c in self.closure(start) if c not in self.done]
            else:
                cells = sorted({c for c in list(self.forced) + cascading if c not in self.done and c in self.order},
                               key=self.order.index)
        if cells:
            self.reactively = True
            self.done |= set(cells)
            self.execute(cells)
            return
        if self.reactively:
            self.nb.request({"type": "reactivity_cleanup"})
        self.forced, self.forced_cascading, self.new_ready, self.done = set(), set(), set(), set()
        self.reactively = False
