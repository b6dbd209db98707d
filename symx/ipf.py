# -*- coding: utf-8 -*-
"""Boots the real ipyflow shell from /repo and drives it the way a frontend does."""
import logging
import os
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
_sh = None


def boot():
    """Import ipyflow from the repo's working tree and create its interactive shell."""
    global _sh
    if _sh is not None:
        return _sh
    core = os.path.join(REPO, "core")
    if core not in sys.path:
        sys.path.insert(0, core)
    os.environ.setdefault("IPYTHONDIR", tempfile.mkdtemp(prefix="symx-ipy-"))
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["MPLBACKEND"] = "agg"
    os.environ.pop("PYCCOLO_DEV_MODE", None)
    sys.dont_write_bytecode = True
    from traitlets.config import Config

    c = Config()
    c.HistoryManager.enabled = False
    c.HistoryManager.hist_file = ":memory:"
    c.InteractiveShell.colors = "nocolor"
    c.InteractiveShell.xmode = "Minimal"
    from ipyflow.shell.interactiveshell import IPyflowInteractiveShell

    import ipyflow

    assert os.path.realpath(ipyflow.__file__).startswith(os.path.realpath(core)), ipyflow.__file__
    try:
        _sh = IPyflowInteractiveShell.instance(config=c)
    except Exception:
        c = Config()
        _sh = IPyflowInteractiveShell.instance(config=c)
    logging.disable(logging.CRITICAL)
    return _sh


class FakeComm:
    def __init__(self):
        self.sent = []
        self.handler = None

    def send(self, data):
        self.sent.append(data)

    def on_msg(self, f):
        self.handler = f


class CellRun:
    def __init__(self, result):
        self.result = result
        self.error = result.error_in_exec or result.error_before_exec
        self.value = result.result


class NB:
    """A notebook session against the real kernel-side machinery."""

    def __init__(self, dev=False, **kw):
        sh = boot()
        from ipyflow.config import (ExecutionMode, ExecutionSchedule, FlowDirection,
                                    ReactivityMode)
        from ipyflow.data_model.cell import cells
        from ipyflow.flow import NotebookFlow
        from ipyflow.singletons import flow
        from ipyflow.tracing.ipyflow_tracer import DataflowTracer

        self.sh = sh
        self.flow = flow
        self.cells = cells
        sh.cleanup_tracers()
        # hide tracebacks: formatting them is slow and irrelevant here
        sh._showtraceback = lambda *a, **k: None
        sh.InteractiveTB.structured_traceback = lambda *a, **k: []
        sh.SyntaxTB.structured_traceback = lambda *a, **k: []
        NotebookFlow.clear_instance()
        kw.setdefault("exec_schedule", ExecutionSchedule.LIVENESS_BASED)
        kw.setdefault("flow_direction", FlowDirection.ANY_ORDER)
        NotebookFlow.instance(is_dev_mode=dev, **kw)
        DataflowTracer.clear_instance()
        DataflowTracer.reset_bookkeeping()
        DataflowTracer.instance()
        sh.reset()
        self.ns = sh.user_ns
        self.content = {}
        self.pos = {}
        self.comm = FakeComm()

    # -- running cells --------------------------------------------------
    def run(self, code, cell_id=None, pos=None) -> CellRun:
        n = self.cells().next_exec_counter()
        self.sh.execution_count = n
        if cell_id is None:
            cell_id = "c%d" % n
        self.flow().set_active_cell(cell_id)
        if pos is not None:
            self.pos[cell_id] = pos
            self.cells()._position_by_cell_id[cell_id] = pos
        elif cell_id not in self.pos:
            self.pos[cell_id] = len(self.pos)
        self.content[cell_id] = code
        return CellRun(self.sh.run_cell(code, cell_id=cell_id))

    def metadata(self, content=None, order=None):
        content = self.content if content is None else content
        order = self.pos if order is None else order
        return {cid: {"index": order[cid], "content": src, "type": "code"}
                for cid, src in content.items()}

    def request(self, req, comm=None):
        """Send one protocol request; returns the list of responses it produced."""
        comm = comm or FakeComm()
        self.flow().comm_manager.handle(req, comm=comm)
        return comm.sent

    def schedule(self, last=None, content=None, order=None, **kw):
        req = {"type": "compute_exec_schedule", "cell_metadata_by_id": self.metadata(content, order)}
        if last is not None:
            req["executed_cell_id"] = last
        req.update(kw)
        out = self.request(req)
        assert len(out) == 1, out
        return out[0]

    # -- symbols ----------------------------------------------------------
    def sym(self, ref):
        """The tracked symbol for a reference such as x, x.a or x[0] (or None)."""
        from ipyflow.analysis.symbol_ref import SymbolRef

        return SymbolRef.resolve(ref)

    def gsym(self, name):
        return self.flow().global_scope.lookup_symbol_by_name_this_indentation(name)
