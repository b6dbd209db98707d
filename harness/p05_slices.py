# -*- coding: utf-8 -*-
"""P05: slices are exactly the backward closure of what was executed."""
import black

from harness.p01_transparency import norm
from harness.p06_slice_replay import fresh
from symx.api import Harness
from symx.engine import sym_eq
from symx.ipf import NB, boot

PROPERTY = "P05"
PROP = {
 "id": "P05", "title": "Slices are exactly what the value was computed from",
 "statement": "The code returned for a variable (code(x), symbol.code()) consists of exactly the executed statements that its current value was computed from, directly or indirectly, each with the text and in the order it was executed: earlier versions of re-executed or edited cells count with their old text, later executions and edits that were not run never appear. With the default settings, statements that the executed ones mention only on branches not taken may be added, and nothing else. A cell's slice (%flow slice, make_slice) consists of exactly the cell executions it depends on, as long as no cell depends on an execution that a re-execution of the same cell has superseded (with the default settings: and no re-executed cell updates a variable that it reads); with --stmt it is the union of its statements' slices. Slices of several cells are the unions of theirs.",
 "quantifier": {"over": ["histories", "programs", "inputs"], "text": "all histories of cell executions and re-executions up to the bound, all values of the symbolic integers (they decide the branches)"},
 "why_tests_cant": "Tests compare a few fixed slices; that no statement is missing or superfluous after any sequence of executions, re-executions and edits of cells is a property of all histories.",
 "anchors": {"files": ["core/ipyflow/slicing/mixin.py", "core/ipyflow/data_model/cell.py", "core/ipyflow/data_model/statement.py", "core/ipyflow/data_model/symbol.py", "core/ipyflow/line_magics.py"],
  "mechanism": [{"name": "parent edges of statements and cells by id", "where": "core/ipyflow/slicing/mixin.py"}, {"name": "versions of a re-executed cell", "where": "core/ipyflow/data_model/cell.py"}],
  "observe_at": ["code(symbol)", "cells().at_counter(n).make_slice()", "%flow slice"], "hook_needed": None},
 "level_note": "bounded: histories up to the stated length over the menu",
}


class Log:
    """what was executed: an independent dependency tracker"""

    def __init__(self):
        self.stmts = []   # (cell_num, text, parents, parents including branches not taken)
        self.last = {}    # var -> indices of the statements that made up its value
        self.cell_text = {}
        self.cell_id = {}
        self.edited = set()
        self.stale = set()  # cell executions that read from a superseded execution

    def add(self, num, cid, text, defs, uses, may):
        latest = {i: n for n, i in sorted(self.cell_id.items())}
        me = len(self.stmts)
        parents = {p for u in uses for p in self.last.get(u, ())}
        maybe = {p for u in may for p in self.last.get(u, ())} | parents
        for p in maybe:
            pn = self.stmts[p][0]
            if pn != num and (latest.get(self.cell_id[pn]) != pn or self.cell_id[pn] == cid):
                self.stale.add(num)
        self.stmts.append((num, text, parents, maybe))
        for d in defs:
            if d.isupper():  # changed in place: the earlier statements still count
                self.last[d.lower()] = self.last[d.lower()] | {me}
            else:
                self.last[d] = {me}

    def closure(self, seeds, which=2):
        seen, todo = set(), list(seeds)
        while todo:
            i = todo.pop()
            if i not in seen:
                seen.add(i)
                todo.extend(self.stmts[i][which])
        return sorted(seen)

    def cell_closure(self, nums, which=2):
        seen, todo = set(), list(nums)
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.add(n)
                todo.extend(self.stmts[p][0] for s in self.stmts if s[0] == n for p in s[which])
        return sorted(seen)

    def representable(self, num):
        """cell slices are only exact if the edges between cells (as opposed to executions) have no cycle"""
        nums = self.cell_closure([num], 3)
        if any(n in self.stale for n in nums):
            return False
        deps = {}
        for n, i in self.cell_id.items():
            deps.setdefault(i, set()).update(self.cell_id[self.stmts[p][0]] for s in self.stmts if s[0] == n for p in s[3] if self.stmts[p][0] != n)
        done = {}

        def cyclic(i):
            if i in done:
                return done[i]
            done[i] = True
            done[i] = any(cyclic(j) for j in deps.get(i, ()))
            return done[i]
        return not any(cyclic(self.cell_id[n]) for n in nums)

    def text(self, idx, black_=True):
        by = {}
        for i in idx:
            by.setdefault(self.stmts[i][0], []).append(self.stmts[i][1])
        return "\n\n".join("# Cell %d\n%s" % (n, fmt("\n".join(t)) if black_ else "\n".join(t)) for n, t in sorted(by.items()))

    def cells_text(self, nums):
        return "\n\n".join("# Cell %d\n%s" % (n, self.cell_text[n]) for n in nums)


_fmt = {}


def fmt(text):
    if text not in _fmt:
        _fmt[text] = black.format_str(text, mode=black.FileMode()).strip()
    return _fmt[text]


# (cell id, [(statement, defined, used, used on any branch)])
MENU = [
    ("A", [("x = a", "x", "", "")]),
    ("A", [("x = b + 0", "x", "", "")]),
    ("A", [("x = y", "x", "y", "")]),
    ("B", [("y = x + 1", "y", "x", "")]),
    ("B", [("y = b", "y", "", "")]),
    ("C", [("z = x + y", "z", "xy", "")]),
    ("C", [("x += 1", "x", "x", "")]),
    ("D", [("x, y = y, x", "xy", "xy", "")]),
    ("D", [("if x > 0:\n    z = y\nelse:\n    z = x", "z", lambda e: "xy" if e["x"] > 0 else "x", "xy")]),
    ("E", [("x = a", "x", "", ""), ("w = 5", "w", "", ""), ("y = x", "y", "x", ""), ("x = w", "x", "w", "")]),
    ("E", [("w = z", "w", "z", ""), ("z = a", "z", "", ""), ("y = w", "y", "w", "")]),
    ("F", [("z = f(y)", "z", lambda e: "fyx" if "+ x" in e["fsrc"] else "fy", "")]),
    ("G", [("def f(q):\n    return q + x", "f", "", "")]),
    ("L", [("l.append(x)", "L", "lx", "")]),
    ("L", [("z = len(l)", "z", "l", "")]),
    ("L", [("l = [y]", "l", "y", "")]),
    ("R", [("x = y", "x", "y", ""), ("1 / 0", "", "", ""), ("z = x", None, "", "")]),
    ("EDIT", "A"), ("EDIT", "C"),
]


def play(c, nb, log, cid, stmts):
    code = "\n".join(s[0] for s in stmts)
    c.note("[%s] %s" % (cid, code))
    num = nb.cells().next_exec_counter()
    log.cell_text[num] = code
    log.cell_id[num] = cid
    raises = False
    for s, defs, uses, may in stmts:
        raises = raises or defs is None
        if raises:
            break
        env = dict(nb.ns, fsrc=log.stmts[max(log.last["f"])][1] if "f" in log.last else "")
        log.add(num, cid, s, defs, uses(env) if callable(uses) else uses, may)
    # re-executed cells that update what they read inherit the parents of their previous execution
    written = {v for _, d, _, _ in stmts for v in (d or "").lower()}
    read = {v for _, _, u, m in stmts for v in (m or (u if isinstance(u, str) else "fyx"))}
    if c.params["setting"] == "default" and sum(i == cid for i in log.cell_id.values()) > 1 and written & read:
        log.stale.add(num)
    r = nb.run(code, cid)
    assert (r.error is not None) == raises, r.error
    return num


def start(c):
    nb = NB(**SETTINGS[c.params["setting"]])
    log = Log()
    a, b = c.user_int("a", -1, 1), c.user_int("b", -1, 1)
    nb.ns["a"], nb.ns["b"] = a, b
    play(c, nb, log, "p", [("x = 1", "x", "", ""), ("y = 2", "y", "", ""), ("z = 3", "z", "", ""), ("w = 4", "w", "", ""), ("l = [6]", "l", "", ""), ("def f(q):\n    return q", "f", "", "")])
    return nb, log


def between(c, label, log, got, low, high, black_=True):
    """got consists of whole statements, at least those of `low`, at most those of `high`, in order"""
    if low == high:
        want = log.text(low, black_)
        c.check(got == want, label, lambda: "slice is\n%s\nexpected\n%s" % (got, want))
        return
    c.reach("bounds")
    by = {}
    for i in high:
        by.setdefault(log.stmts[i][0], []).append(i)
    have, last = {}, 0
    for part in (got.split("# Cell ")[1:] if got else []):
        num, text = part.split("\n", 1)
        num = int(num)
        ok = num in by and num > last
        last = num
        if ok:
            have[num] = next((set(sub) for sub in subsets(by[num]) if fmt("\n".join(log.stmts[i][1] for i in sub)) == text.strip()), None)
            ok = have[num] is not None
        c.check(ok, label, lambda: "cell %d of the slice\n%s\nis not made up of statements that the value can depend on:\n%s" % (num, got, log.text(high)))
        if not ok:
            return
    missing = [i for i in low if i not in have.get(log.stmts[i][0], ())]
    c.check(not missing, label, lambda: "slice\n%s\nlacks statements of\n%s" % (got, log.text(low)))


def subsets(idx):
    for m in range(1, 1 << len(idx)):
        yield [i for k, i in enumerate(idx) if m >> k & 1]


def histories(c):
    nb, log = start(c)
    menu = [MENU[i] for i in c.params["only"]] if "only" in c.params else [m for i, m in enumerate(MENU) if i not in c.params.get("skip", ())][c.params.get("off", 0)::c.params.get("stride", 1)]
    for k in range(c.params["steps"]):
        cid, stmts = c.pick("s%d" % k, menu)
        if cid == "EDIT":
            if stmts not in nb.content:
                return
            c.note("edit %s without running it" % stmts)
            nb.schedule(stmts, content=dict(nb.content, **{stmts: "x = 99\ny = 98\nz = 97"}))
            nb.content[stmts] = "x = 99\ny = 98\nz = 97"
            edited = max(n for n, i in log.cell_id.items() if i == stmts)
            log.stale.add(edited)
            log.edited.add(edited)
            c.reach("edited")
        else:
            play(c, nb, log, cid, stmts)
    default = c.params["setting"] == "default"
    for v in "xyzwlf":
        seeds = log.last[v]
        between(c, "statement-slice", log, str(nb.gsym(v).code(format_type=str)), log.closure(seeds), log.closure(seeds, 3 if default else 2))
    from ipyflow.line_magics import get_code, make_slice
    nums = [n for n in log.cell_text]
    texts = {}
    for n in nums:
        cell = nb.cells().at_counter(n)
        mine = [i for i, s in enumerate(log.stmts) if s[0] == n]
        low, high = log.closure(mine), log.closure(mine, 3 if default else 2)
        between(c, "statements-of-cell-slice", log, str(cell.slice(stmts=True, format_type=str)), low, high)
        between(c, "magic-stmt-slice", log, make_slice("--stmt %d" % n), low, high)
        if n in log.edited:
            continue  # whole cells are shown as they are now
        got = str(cell.code(format_type=str))
        c.check(got == log.cells_text([n]), "cell-code", lambda: "code of cell %d is\n%s\nexecuted was\n%s" % (n, got, log.cell_text[n]))
        if not log.representable(n):
            c.reach("superseded")
            continue
        low, high = log.cell_closure([n]), log.cell_closure([n], 3 if default else 2)
        got = [x.cell_ctr for x in cell.make_slice()]
        ok = got == sorted(set(got)) and set(low) <= set(got) <= set(high)
        c.check(ok, "cell-slice", lambda: "slice of cell %d is %r, expected %r" % (n, got, low))
        got = str(cell.slice(format_type=str))
        if low == high:
            c.check(got == log.cells_text(low), "cell-slice-text", lambda: "slice of cell %d is\n%s\nexpected\n%s" % (n, got, log.cells_text(low)))
            texts[n] = low
            c.check_eq(make_slice(str(n)), got, "magic-slice")
    if len(texts) > 1:
        m, n = list(texts)[0], list(texts)[-1]
        got = [x.cell_ctr for x in nb.cells().make_multi_slice([m, n])]
        c.check(got == sorted(set(texts[m]) | set(texts[n])), "multi-slice", lambda: "slice of cells %d and %d is %r" % (m, n, got))
    for v in "xz":
        c.check_eq(get_code(v).strip() if get_code(v) else None, str(nb.gsym(v).code(format_type=str)), "magic-code")


SETTINGS = {"default": {}, "dynamic": {"dynamic_slicing_enabled": True, "static_slicing_enabled": False}}


def _bounds(p):
    return "%s settings; %d executions of / edits to cells out of %d, cells re-run with the same and with other contents; both integers in -1..1" % (p["setting"], p["steps"], len(p["only"]) if "only" in p else len(MENU) - len(p.get("skip", ())))


HARNESSES = [
    Harness("dynamic", histories, _bounds, outside="longer histories; slices of cells that depend on superseded executions", quick={"steps": 3, "setting": "dynamic", "skip": [1, 5, 9, 14]}, thorough={"steps": 4, "setting": "dynamic", "off": 1, "stride": 2}, setup=boot,
            must_reach=["assert:statement-slice", "assert:cell-slice", "assert:multi-slice", "edited", "superseded"]),
    Harness("default", histories, _bounds, outside="longer histories; slices of cells that depend on superseded executions", quick={"steps": 3, "setting": "default", "skip": [0, 4, 10, 15]}, thorough={"steps": 3, "setting": "default"}, setup=boot,
            must_reach=["assert:statement-slice", "assert:cell-slice", "assert:multi-slice", "edited", "superseded", "bounds"]),
    Harness("reruns", histories, _bounds, outside="longer histories; slices of cells that depend on superseded executions", quick={"steps": 4, "setting": "default", "only": [0, 3, 5, 6]}, thorough={"steps": 5, "setting": "default", "only": [0, 3, 5, 7]}, setup=boot,
            must_reach=["assert:statement-slice", "assert:cell-slice", "assert:multi-slice", "superseded"]),
]
