# -*- coding: utf-8 -*-
"""P12: in-place changes reach every cell that reads the changed part, through whatever name."""
import builtins

from symx.api import Harness
from symx.engine import sym_eq
from symx.ipf import NB, boot
from harness.p01_transparency import norm

PROPERTY = "P12"
PROP = {
 "id": "P12", "title": "In-place changes reach all readers of the object and only those",
 "statement": "When a cell changes a list, dict or object in place (element or attribute assignment and deletion, append, extend, insert, pop, remove, augmented assignment, also inside a called function), every other cell whose result would now be different is reported ready or waiting, whichever name, alias, nested container or attribute path it reads the object through. A cell that only reads other elements, attributes or objects than those changed is not; in particular, just creating another reference to an object or putting it in a new container flags nothing. After the affected cells are re-run, none of them stays flagged.",
 "quantifier": {"over": ["histories", "inputs", "programs"], "text": "all histories up to the bound over object graphs with aliases, readers and mutations of the menus; all values of the symbolic integers"},
 "why_tests_cant": "Tests fix single graphs and mutations; completeness over alias structure, order of alias creation and repeated mutations is a property of all histories.",
 "anchors": {"files": ["core/ipyflow/data_model/utils/update_protocol.py", "core/ipyflow/data_model/namespace.py", "core/ipyflow/data_model/symbol.py", "core/ipyflow/tracing/external_calls/"],
  "mechanism": [{"name": "alias sets and namespaces keyed by object identity", "where": "core/ipyflow/data_model/namespace.py"}, {"name": "propagation of updates to aliases, containers and elements", "where": "core/ipyflow/data_model/utils/update_protocol.py"}],
  "observe_at": ["schedule response"], "hook_needed": None},
 "level_note": "bounded: the stated menus and number of steps; the oracle re-evaluates every reader in plain Python and compares the values symbolically",
}

PRE = """
class K:
    def __init__(self, v):
        self.v = v
        self.w = 5
def mut(q):
    q.append(p)
def set0(q, e):
    q[0] = e
def ident(q):
    return q
"""
GRAPH = [
    ("a", "a = [p, 11, 12]"), ("b", "b = a"), ("c", "c = [a, 13]"), ("d", "d = {'k': a, 'j': 14}"), ("o", "o = K(a)"), ("t", "t = (a, 15)"), ("u", "u = [16, 17]"),
]
READERS = [
    "len(a)", "sum(a)", "a[0]", "a[1]", "b[0]", "b[1]", "len(b)", "[b]", "c[0][0]", "c[1]", "len(c[0])", "d['k'][0]", "d['j']", "len(d)", "o.v[0]", "o.w", "t[0][1]", "t[1]",
    "u[0]", "len(u)", "a + u", "[v for v in b]", "a[1:]", "str(c)", "ident(b)[0]", "[*a]", "p", "(len(a), u[0])", "max(a[0], a[1])", "c[0 + 0][0]", "(c or 0)[0][0]", "ident(c)[0][0]", "a[:2][0]", "[c][0][1]", "o.w + u[1]", "f'{a[1]}'", "b[-1]",
]
MUT = [
    # element and attribute assignments, through every name
    "a[0] = n", "b[0] = n", "c[0][0] = n", "d['k'][0] = n", "o.v[0] = n", "t[0][1] = n", "a[-1] = n", "a[1], a[0] = n, 3", "a[0] += n", "c[1] = n", "d['j'] = n", "d['new'] = n", "o.v = u", "c[0] = u", "o.w = n", "o.w += n", "o.new = n", "u[0] = n", "u[0] = a[1]",
    # in-place methods of lists
    "a.append(n)", "b.append(n)", "c[0].append(n)", "o.v.extend([n])", "d['k'].insert(0, n)", "a.insert(1, n)", "a.pop()", "b.pop(0)", "a.remove(12)", "u.append(n)", "c.append(n)", "x = a.append(n)", "[a.append(v) for v in (n, 2)]", "a.extend(b)", "a.extend(v for v in (n, 1))",
    "c[1], z = n, 0", "z, a[0] = 5, n", "[a[0], *z] = n, 4", "for a[0] in [n]:\n    pass", "(c[1], z), o.w = (n, 5), n", "a[:] = [n]", "a[0:1] = [n, 3]", "a[1:] += [n]", "a[:1], z = [n], 5", "del c[:1]", "c[1:] = [a]", "c[1] += n", "c[0] += [n]", "o.v += [n]", "d['k'] += [n]", "a[0], a[1] = a[1], a[0]",
    "c[0], z = u, 1", "c[0] = [n, 3]", "d.update(j=n)", "d['k'] = u", "a.sort()", "a.reverse()", "a.clear()", "d.pop('j')", "del d['j']", "del o.w", "a *= 2", "del a[:]", "d |= {'j': n}", "d.setdefault('new', n)", "class N: w = n", "z = K(n)",
    # deletions, augmented assignments
    "del a[0]", "del b[-1]", "a += [n]", "b += [n]",
    # inside functions, through new names, conditionally
    "mut(a)", "mut(b)", "mut(c[0])", "set0(b, n)", "set0(u, n)", "ident(a).append(n)", "if n > 0:\n    b[1] = n", "m = b\nm.append(n)", "m = b\nm[1] = n", "with_ = [a][0]\nwith_[0] = n",
    # rebinding
    "a = [n, 2, 3]", "b = [n, 1]", "u = a", "c = 5", "a = b", "pass", "p = n",
    # new references to existing objects, which change nothing
    "z = a", "z = [a]", "z = {'k': a, 'j': [b]}", "z = (a, u)", "z = o", "z = ident", "z = d['k']", "z = [o, c]", "z = len(a)", "z = [v for v in a]", "z = list(a)",
]


class Plain:
    def __init__(self):
        self.ns = {"__builtins__": builtins}

    def run(self, code):
        exec(compile(code, "<ref>", "exec"), self.ns)


def picture(v):
    return norm(v, {})


def graph(c, order):
    """the object graph, built in separate cells in one of several orders"""
    nb, ref = NB(), Plain()
    for name in ("p0", "n"):
        v = c.user_int(name, 0, 2)
        nb.ns[name] = ref.ns[name] = v
    src = [("pre", PRE), ("p", "p = p0")] + GRAPH
    for cid, s in src:
        run(nb, ref, s, cid)
    return nb, ref


def run(nb, ref, code, cid):
    e = None
    try:
        ref.run(code)
    except Exception as x:
        e = x
    r = nb.run(code, cid)
    assert (r.error is None) == (e is None), (code, r.error, e)
    return e


def evaluate(ref, expr):
    try:
        return picture(eval(expr, ref.ns))
    except Exception as e:
        return ("raises", type(e).__name__)


# what a mutation changes / what a reader looks at, for the precise direction
SLOT = {"a[0] = n": ("A", 0), "b[0] = n": ("A", 0), "c[0][0] = n": ("A", 0), "d['k'][0] = n": ("A", 0), "o.v[0] = n": ("A", 0), "t[0][1] = n": ("A", 1), "set0(b, n)": ("A", 0), "m = b\nm[1] = n": ("A", 1),
        "c[1] = n": ("C", 1), "c[0] = u": ("C", 0), "d['j'] = n": ("D", "j"), "o.v = u": ("O", "v"), "o.w = n": ("O", "w"), "u[0] = n": ("U", 0), "set0(u, n)": ("U", 0), "o.w += n": ("O", "w"),
        "a.append(n)": ("A", "len"), "b.append(n)": ("A", "len"), "o.v.extend([n])": ("A", "len"), "a += [n]": ("A", "len"), "u.append(n)": ("U", "len"), "d['new'] = n": ("D", "new"), "c.append(n)": ("C", "len"), "o.new = n": ("O", "new")}
SLOT.update({m: ("none", 0) for m in MUT if m.startswith("z = ") or m == "pass"})
READS = {"a[0]": {("A", 0)}, "a[1]": {("A", 1)}, "b[0]": {("A", 0)}, "b[1]": {("A", 1)}, "c[0][0]": {("C", 0), ("A", 0)}, "c[1]": {("C", 1)}, "d['k'][0]": {("D", "k"), ("A", 0)}, "d['j']": {("D", "j")},
         "o.v[0]": {("O", "v"), ("A", 0)}, "o.w": {("O", "w")}, "t[0][1]": {("A", 1)}, "t[1]": set(), "u[0]": {("U", 0)}, "p": set(),
         "len(a)": {("A", "*")}, "sum(a)": {("A", "*")}, "len(b)": {("A", "*")}, "[b]": {("A", "*")}, "len(c[0])": {("A", "*"), ("C", 0)}, "len(d)": {("A", "*"), ("D", "*")}, "len(u)": {("U", "*")}, "[v for v in b]": {("A", "*")},
         "a[1:]": {("A", "*")}, "a + u": {("A", "*"), ("U", "*")}, "str(c)": {("A", "*"), ("C", "*"), ("U", "*")}, "[*a]": {("A", "*")}, "{**d}": {("A", "*"), ("D", "*"), ("U", "*")}, "ident(b)[0]": {("A", "*")},
         "(len(a), u[0])": {("A", "*"), ("U", 0)}, "max(a[0], a[1])": {("A", "*")}}


def flags(nb, cid):
    resp = nb.schedule(cid)
    return set(resp["ready_cells"]), set(resp["waiting_cells"])


def single(c):
    """one mutation; every reader is judged"""
    nb, ref = graph(c, 0)
    before = {}
    mut = c.pick("mut", MUT[c.params.get("off", 0)::c.params.get("stride", 1)])
    names = ["r%d" % i for i in range(len(READERS))]
    for rn, e in zip(names, READERS):
        assert run(nb, ref, "%s = %s" % (rn, e), rn) is None
        before[rn] = evaluate(ref, e)
    c.note(mut)
    if run(nb, ref, mut, "M") is not None:
        c.reach("mutation-raises")
        return
    judge(c, nb, ref, names, before, mut, "M", READERS)


def judge(c, nb, ref, names, before, mut, cid, readers):
    ready, waiting = flags(nb, cid)
    for rn, e in zip(names, readers):
        after = evaluate(ref, e)
        flagged = rn in ready or rn in waiting
        c.reach("flagged" if flagged else "quiet")
        if any(isinstance(v, tuple) and v[:1] == ("raises",) for v in (before[rn], after)):
            continue
        c.check(flagged or sym_eq(before[rn], after), "change-is-seen", lambda: "%s changed from %r to %r, but the cell that reads it is not flagged after %r" % (e, before[rn], after, mut),
                sig="%s | %s" % (mut, e))
        if mut in SLOT and e in READS and not READS[e] & {SLOT[mut], (SLOT[mut][0], "*")}:
            c.reach("other-part")
            c.check(not flagged, "other-parts-keep-quiet", lambda: "%s does not read what %r changes, but its cell is flagged" % (e, mut), sig="%s | %s" % (mut, e))
    return ready, waiting


# the recorded findings (see known_findings.json) are judged by the single-change harness only
READERS2 = [e for e in READERS if e != "b[-1]"]


def double(c):
    """two changes, the affected readers re-run in between"""
    nb, ref = graph(c, 0)
    names = ["r%d" % i for i in range(len(READERS2))]
    for rn, e in zip(names, READERS2):
        assert run(nb, ref, "%s = %s" % (rn, e), rn) is None
    muts = [c.pick("m1", MUT[c.params["off"]::c.params["stride"]]), c.pick("m2", MUT[c.params["off2"]::c.params["stride"]])]
    for i, mut in enumerate(muts):
        c.note(mut)
        before = {rn: evaluate(ref, e) for rn, e in zip(names, READERS2)}
        if run(nb, ref, mut, "M%d" % i) is not None:
            c.reach("mutation-raises")
            return
        ready, waiting = judge(c, nb, ref, names, before, mut, "M%d" % i, READERS2)
        if i:
            return
        for rn, e in zip(names, READERS2):
            if rn in ready or rn in waiting:
                if run(nb, ref, "%s = %s" % (rn, e), rn) is not None:
                    c.reach("reader-raises")
                    return
        ready, waiting = flags(nb, names[-1])
        left = sorted((ready | waiting) & set(names))
        c.check(not left, "settles", lambda: "after re-running the affected cells, %s are still flagged" % [READERS2[int(x[1:])] for x in left], sig=mut)


ELEMENT_OPS = ["a[I] = n", "b[I] += n", "del a[I]", "del b[I]", "a.insert(I, n)", "a.pop(I)", "b.pop()", "a.append(n)", "a.extend([n, 4])", "b.remove(12)", "b += [n]", "a[I], b[1] = n, 7", "a[I:] = [n]", "del b[:I]", "b[:1] += [n]"]


def elements(c):
    """a sequence of element operations with arbitrary indices on one list that has two names"""
    nb, ref = NB(), Plain()
    for name in ("p0", "n"):
        v = c.user_int(name, 0, 2)
        nb.ns[name] = ref.ns[name] = v
    for cid, s in [("p", "p = p0"), ("q", "q = 12"), ("s", "s = p0 + 30"), ("a", "a = [p, q, s]"), ("b", "b = a")]:
        run(nb, ref, s, cid)
    exprs = ["a[0]", "b[1]", "a[2]", "a[3]", "len(a)", "sum(b)"]
    names = ["r%d" % i for i in range(len(exprs))]
    for rn, e in zip(names, exprs):
        run(nb, ref, "%s = %s" % (rn, e), rn)
    for i in range(c.params["ops"]):
        t = c.pick("op%d" % i, ELEMENT_OPS)
        mut = t.replace("I", str(c.pick("i%d" % i, c.params["indices"])))  if "I" in t else t
        c.note(mut)
        before = {rn: evaluate(ref, e) for rn, e in zip(names, exprs)}
        if run(nb, ref, mut, "M%d" % i) is not None:
            c.reach("mutation-raises")
            return
        judge(c, nb, ref, names, before, mut, "M%d" % i, exprs)
        for rn, e in zip(names, exprs):
            run(nb, ref, "%s = %s" % (rn, e), rn)
        ready, waiting = flags(nb, names[-1])
        left = sorted((ready | waiting) & set(names))
        c.check(not left, "settles", lambda: "after re-running the readers, %s are still flagged" % [exprs[int(x[1:])] for x in left], sig=mut)


def _doubles(p):
    return "all ordered pairs of %d x %d changes, the flagged readers re-run in between; %d readers" % (len(MUT[p["off"]::p["stride"]]), len(MUT[p["off2"]::p["stride"]]), len(READERS2))


HARNESSES = [
    Harness("single", single, "one fixed object graph (list with two names inside a list, a dict, an object and a tuple; a separate list); %d changes, %d readers; all integers in 0..2" % (len(MUT), len(READERS)),
            outside="other graphs; deeper nesting; sets, ndarrays and frames; slice assignment, sort, reverse, clear, dict methods, setattr; changes in later iterations of a loop", quick={}, thorough={}, setup=boot, must_reach=["flagged", "quiet", "other-part"]),
    Harness("elements", elements, lambda p: "a list of three elements with two names, readers of every element, sequences of %d operations out of %d with indices %r" % (p["ops"], len(ELEMENT_OPS), p["indices"]),
            outside="longer lists and sequences", quick={"ops": 2, "indices": [-2, 0]}, thorough={"ops": 2, "indices": [-4, -3, -2, -1, 0, 1, 2, 3, 9]}, setup=boot, must_reach=["flagged", "quiet", "mutation-raises"]),
    Harness("double", double, _doubles, outside="three or more changes; the pairs the stride leaves out", quick={"off": 0, "off2": 1, "stride": 7}, thorough={"off": 0, "off2": 0, "stride": 1}, setup=boot, must_reach=["flagged", "quiet", "other-part"]),
]
