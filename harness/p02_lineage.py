# -*- coding: utf-8 -*-
"""P02: deps, users, rdeps, rusers and timestamp after any history."""
from symx.api import Harness
from symx.ipf import NB, boot

PROPERTY = "P02"
PROP = {
    "id": "P02",
    "title": "deps, users, rdeps, rusers, timestamp and lift tell where a value came from",
    "statement": "After any history of executed cells that assign, augment, alias, unpack into and delete variables, `deps(x)` is exactly the set of symbols whose values were read to compute the current value of x (if that was its own previous value, directly or through one other variable, also those of its previous value; none left over from a value that was overwritten, none of a statement that failed or did not run, none that were deleted since), `users(x)` is the inverse of `deps` over everything that exists, `rdeps(x)` and `rusers(x)` are their transitive closures, `timestamp(x)` is the cell execution and statement that last set x, and `lift(x)` is the symbol of that very value. The same place in an object, list, dict or tuple is the same symbol with the same users, timestamp and tags through every name and subscript expression that leads to it. The parents and children of every symbol are each other's mirror image.",
    "quantifier": {"over": ["histories", "programs", "inputs"], "text": "every history within the bound of the listed statement forms over the listed names and places, every set of names read by each, every choice of cell (new or rerun), and all integer values of the variables"},
    "why_tests_cant": "The unit tests look at deps and users after a handful of fixed histories; leftovers and losses show only after particular sequences of overwriting, deleting, redefining, failing and rerunning, and for particular ways to reach the same element.",
    "anchors": {
        "files": ["core/ipyflow/models.py", "core/ipyflow/api/lift.py", "core/ipyflow/data_model/symbol.py", "core/ipyflow/data_model/statement.py", "core/ipyflow/data_model/namespace.py", "core/ipyflow/data_model/scope.py", "core/ipyflow/tracing/ipyflow_tracer.py", "core/ipyflow/tracing/symbol_resolver.py"],
        "mechanism": [
            {"name": "Statement.handle_dependencies / _handle_assign_target_for_deps", "where": "core/ipyflow/data_model/statement.py"},
            {"name": "Symbol.update_deps, parents / children, collect_self_garbage", "where": "core/ipyflow/data_model/symbol.py"},
            {"name": "DataflowTracer.resolve_store_data_for_target", "where": "core/ipyflow/tracing/ipyflow_tracer.py"},
            {"name": "deps, users, rdeps, rusers, timestamp, lift", "where": "core/ipyflow/api/lift.py"},
        ],
        "observe_at": ["the results of deps, users, rdeps, rusers, timestamp, lift and has_tag, called in a cell of their own", "Symbol.parents / Symbol.children"],
        "hook_needed": None,
    },
    "level_note": "Values are computed by expressions of integer variables; the values are symbolic, the histories and statement forms are enumerated by symbolic choices. The order in which a set of deps comes is not part of the claim. Tuples and containers on the right hand side have symbols of their own between them and the names in them (outside the claim).",
}
NAMES = ["v", "w", "x", "y"]
PRE = "from ipyflow import code, deps, has_tag, lift, rdeps, rusers, set_tag, timestamp, unset_tag, users\ndef fn2(*args):\n    return 0\n"


class Lineage:
    """What the statements that ran say about who was computed from whom."""

    def __init__(self):
        self.deps, self.when = {}, {}

    def assign(self, name, reads, when, keep=False):
        old = self.deps.get(name, set())
        # a value computed from the previous value of the variable, directly or through one other
        # variable, still is one computed from what that was computed from
        keep = keep or name in reads or any(name in self.deps.get(r, ()) for r in reads)
        self.deps[name] = (old if keep else set()) | (set(reads) - {name})
        self.when[name] = when

    def delete(self, name):
        self.deps.pop(name)
        self.when.pop(name)
        for d in self.deps.values():
            d.discard(name)

    def users(self, name):
        return {n for n, d in self.deps.items() if name in d}

    def closure(self, name, step):
        seen, todo = set(), {name}
        while todo:
            for n in step(todo.pop()):
                if n not in seen:
                    seen.add(n)
                    todo.add(n)
        return seen - {name}


def query(c, nb, name):
    """what the user sees: an expression in a cell of its own"""
    r = nb.run("deps({0}), users({0}), rdeps({0}), rusers({0}), timestamp({0}), lift({0})".format(name), "query", pos=99)
    c.check(r.error is None, "no-error", lambda: "%s: %r" % (name, r.error))
    return r.value


def names(symbols):
    return sorted(s.readable_name for s in symbols)


def mirrored(c, nb):
    """parents and children are each other's inverse, with the same timestamps"""
    flow = nb.flow()
    syms = {s for group in flow.aliases.values() for s in group}
    for s in syms:
        for p, tss in s.parents.items():
            if tss:
                c.check(s in p.children and set(p.children[s]) == set(tss), "mirrored", lambda: "%r -> %r: %r %r" % (p, s, tss, p.children.get(s)), sig="parents")
        for k, tss in s.children.items():
            if tss:
                c.check(s in k.parents and set(k.parents[s]) == set(tss), "mirrored", lambda: "%r -> %r: %r %r" % (s, k, tss, k.parents.get(s)), sig="children")


FORMS = {
    "sum": "{t} = {k}{sum}", "augmented": "{t} += {k}{sum}", "call": "{t} = fn2({list})", "chained": "{t} = {u} = {k}{sum}",
    "twice": "{t} = 0\n{t} = {k}{sum}", "walrus": "({t} := {k}{sum})", "taken": "if {k} is not None:\n    {t} = {k}{sum}", "untaken": "if {k} is None:\n    {t} = {k}{sum}",
    "loop": "for _ in [1, 2]:\n    {t} = {k}{sum}", "del": "del {t}", "try": "try:\n    {t} = {k}{sum}\nfinally:\n    pass", "fails": "{t} = {k}{sum} + undefined",
    "deleted-and-back": "{t} = 0\ndel {t}\n{t} = {k}{sum}", "alias": "{t} = {first}", "annotated": "{t}: int = {k}{sum}",
    "other": "{t} = {k}{sum}\n{u} = {t} + 1", "global": "def fn():\n    global {t}\n    {t} = {k}{sum}\nfn()", "assert": "assert (t9 := {k}) is not None\n{t} = {k}{sum}",
}


def history(c):
    n = c.params["names"]
    nb, m = NB(), Lineage()
    vs = NAMES[:n]
    nb.run(PRE, "pre", pos=0)
    m.assign("fn2", [], (1, 1))
    for i, v in enumerate(vs):
        nb.ns["k_" + v] = c.user_int("k_" + v)
        r = nb.run("%s = k_%s" % (v, v), v, pos=i + 1)
        m.assign(v, [], (nb.cells().exec_counter(), 0))
    for s in range(c.params["steps"]):
        form = c.pick("form%d" % s, c.params["forms"] if s else c.params["first"])
        t = c.pick("t%d" % s, vs if s else vs[:1])      # the names are interchangeable until the first step
        u = vs[(vs.index(t) + 1) % n]
        reads = [v for v in vs if form != "del" and c.bool("r%d%s" % (s, v))]
        k = "k%d" % s
        nb.ns[k] = c.user_int(k)
        if form == "alias" and not reads:
            return
        src = FORMS[form].format(t=t, u=u, k=k, sum="".join(" + " + v for v in reads), list=", ".join(reads), first=(reads or [k])[0])
        c.note(src)
        known = all(v in m.deps for v in reads)
        r = nb.run(src, c.pick("cell%d" % s, ["a", t]) if s else "a", pos=n + 1)
        if r.error is not None and form != "fails":
            c.check(not known or ((form in ("del", "augmented") and t not in m.deps) or (form == "deleted-and-back" and t in reads)), "no-error", lambda: repr(r.error))
            return
        num = nb.cells().exec_counter()
        if form == "alias":
            m.assign(t, reads[:1], (num, 0))
        elif form == "del":
            m.delete(t)
        elif form in ("fails", "untaken"):
            pass
        elif form == "chained":
            m.assign(t, reads, (num, 0))
            m.assign(u, reads, (num, 0))
        elif form == "other":
            m.assign(t, reads, (num, 0))
            m.assign(u, [t], (num, 1))
        elif form == "deleted-and-back":
            m.delete(t) if t in m.deps else None
            m.assign(t, [v for v in reads if v != t], (num, 2))
        elif form == "twice":
            m.assign(t, [], (num, 0))
            m.assign(t, reads, (num, 1))
        elif form == "call":
            m.assign(t, reads + ["fn2"], (num, 0))
        elif form == "global":
            m.assign(t, reads, (num, 1))
        elif form == "assert":
            m.assign("t9", [], (num, 0))
            m.assign(t, reads, (num, 1))
        else:
            m.assign(t, reads, (num, 0), keep=form == "augmented")
        mirrored(c, nb)
        for v in sorted(m.deps):
            got = query(c, nb, v)
            c.check_eq(names(got[0]), sorted(m.deps[v]), "deps", lambda: "of %s after %s" % (v, src))
            c.check_eq(names(got[1]), sorted(m.users(v)), "users", lambda: "of %s after %s" % (v, src))
            c.check_eq(names(got[2]), sorted(m.closure(v, lambda q: m.deps[q])), "rdeps", lambda: "of %s after %s" % (v, src))
            c.check_eq(names(got[3]), sorted(m.closure(v, m.users)), "rusers", lambda: "of %s after %s" % (v, src))
            c.check_eq(tuple(got[4]), m.when[v], "timestamp", lambda: "of %s after %s" % (v, src))
            c.check(got[5] is nb.gsym(v) and got[5].obj is nb.ns[v], "lift", lambda: v)
        c.reach(form)


# ---- places: what is stored in objects and containers ------------------------------------------
PLACES_PRE = """class O:
    def __init__(self):
        self.i = k0
o = O()
o.v = k1
o.l = [k2, [k3, k4], {'k': k5}]
o.p = O()
o.p.v = k6
lst = o.l
d = {'k': k7, 'l': lst, 8: [k8]}
q = o.p
t = (k9, [k10])
"""
PLACES = {      # place -> (last set by statement, every way to get there)
    "o.v": (3, ["o.v"]), "o.l[0]": (4, ["o.l[0]", "lst[0]", "lst[-3]", "d['l'][0]", "lst[int(0)]"]),
    "o.l[1][0]": (4, ["o.l[1][0]", "lst[1][0]", "lst[0 + 1][0]", "d['l'][1][0]", "o.l[-2][0]"]), "o.l[2]['k']": (4, ["o.l[2]['k']", "lst[2]['k']", "lst[-1]['' + 'k']"]),
    "o.p.v": (6, ["o.p.v", "q.v"]), "d['k']": (8, ["d['k']"]), "d[8][0]": (8, ["d[8][0]", "d[4 + 4][-1]"]), "t[1][0]": (10, ["t[1][0]", "t[-1][0]"]),
}
READ_AS = ["z = {p} + {k}", "z = fn2({p}, {k})", "z = {p} + {p}", "if {k} is not None:\n    z = -{p}", "z = {k} if {p} is None else {p} + 0", "z = 0\nfor _ in [1]:\n    z += {p}"]
SET_AS = [("{p} = {k}", 0), ("{p} += {k}", 0), ("{p}, x9 = {k}, 0", 0), ("x9 = {k}\n{p} = x9", 1), ("for _ in [1]:\n    {p} = {k}", 0), ("def fn():\n    {p} = {k}\nfn()", 1), ("x8 = {other}\n{p} = {k}", 1)]


def places(c):
    p = c.params
    place = c.pick("place", list(PLACES))
    when, ways = PLACES[place]
    nb = NB()
    for i in range(11):
        nb.ns["k%d" % i] = c.user_int("k%d" % i)
    assert nb.run(PRE, "pre", pos=0).error is None
    assert nb.run(PLACES_PRE, "objects", pos=1).error is None
    n = list(PLACES).index(place)
    src = c.pick("read", READ_AS[n % p["stride"]::p["stride"]]).format(p=c.pick("way", ways), k="ka")
    nb.ns["ka"], nb.ns["kb"] = c.user_int("ka"), c.user_int("kb")
    r = nb.run(src, "z", pos=2)
    c.check(r.error is None, "no-error", lambda: "%s: %r" % (src, r.error))
    when = {q: (nb.cells().exec_counter() - 1, w - 1) for q, (w, _) in PLACES.items()}
    hist = [src]
    c.note(src)
    for s in range(p["steps"]):
        other = c.pick("set%d" % s, [""] + list(PLACES))
        if other:
            m = n + list(PLACES).index(other) + s
            how, stmt = c.pick("how%d" % s, SET_AS[m % p["stride"]::p["stride"]])
            through = c.pick("through%d" % s, PLACES[other][1][m % 2::2] or PLACES[other][1])
            code = how.format(p=through, k="kb", other=place)
            c.note(code)
            hist.append(code)
            r = nb.run(code, "w", pos=3)
            c.check(r.error is None, "no-error", lambda: "%s: %r" % (code, r.error))
            when[other] = (nb.cells().exec_counter(), stmt)
    lifted = None
    for way in ways:
        r = nb.run("deps(z), users({0}), tuple(timestamp({0})), lift({0}), {0}".format(way), "query", pos=99)
        c.check(r.error is None, "no-error", lambda: "%s: %r" % (way, r.error))
        deps, users, at, sym, value = r.value
        c.check(sym.obj is value, "lift", lambda: "lift(%s) is %r" % (way, sym.obj))
        c.check(lifted in (None, sym), "lift-alias", lambda: "lift(%s) is %r, not %r" % (way, sym, lifted))
        lifted = sym
        c.check(sym in deps, "deps", lambda: "%s: deps(z) lacks %s: %r" % (hist, way, deps))
        c.check(nb.gsym("z") in users, "users", lambda: "%s: users(%s) lacks z: %r" % (hist, way, users))
        c.check_eq(at, when[place], "timestamp", lambda: "of %s after %s" % (way, hist))
    for other in PLACES:
        r = nb.run("lift(%s)" % other, "query", pos=99)
        c.check(r.error is None, "no-error", lambda: repr(r.error))
        c.check((r.value in deps) == (other == place or other == "o.l[0]" and False), "deps-only", lambda: "%s: deps(z) has %r: %r" % (hist, other, deps))
    r = nb.run("set_tag(%s, 'a tag')" % c.pick("tag", ways), "query", pos=99)
    for way in ways:
        r = nb.run("has_tag(%s, 'a tag')" % way, "query", pos=99)
        c.check(r.error is None and r.value is True, "tag", lambda: "has_tag(%s): %r" % (way, r.error or r.value))
    c.reach("set" if len(hist) > 1 else "not-set")


# ---- unpacking -----------------------------------------------------------------------------------
TARGETS = {     # targets of three elements -> what ends up where
    "a, b, e": ["a", "b", "e"], "[a, b, e]": ["a", "b", "e"], "a, *r": ["a", "r[0]", "r[1]"], "*r, a": ["r[0]", "r[1]", "a"], "a, *r, b": ["a", "r[0]", "b"],
    "(a, b), e": ["a", "b", "e"], "a, (b, e)": ["a", "b", "e"], "(a, *r), e": ["a", "r[0]", "e"], "*r, (a, b)": ["r[0]", "a", "b"], "a, [b, *r]": ["a", "b", "r[0]"],
    "(*r, a), b": ["r[0]", "a", "b"], "a, b, *r": ["a", "b", "r[0]"], "m[0], a, b": ["m[0]", "a", "b"], "a, (m[0], b)": ["a", "m[0]", "b"], "v, w, x": ["v", "w", "x"], "x, *r": ["x", "r[0]", "r[1]"],
}
SHAPES = {"(a, b), e": "({0}, {1}), {2}", "(a, *r), e": "({0}, {1}), {2}", "(*r, a), b": "({0}, {1}), {2}", "a, (b, e)": "{0}, ({1}, {2})", "*r, (a, b)": "{0}, ({1}, {2})", "a, [b, *r]": "{0}, ({1}, {2})", "a, (m[0], b)": "{0}, ({1}, {2})"}
SOURCES = ["tuple", "list", "variable", "set-after", "call", "inner-call", "conditional", "loop", "partial", "dict", "object", "function"]


def unpack(c):
    target = c.pick("target", c.params["targets"])
    source = c.pick("source", c.params["sources"])
    places = TARGETS[target]
    shape = SHAPES.get(target, "{0}, {1}, {2}")
    nb = NB()
    nb.run(PRE, "pre", pos=0)
    nb.ns["pack"] = lambda *args: args if len(args) != 1 else args[0]
    nb.ns["packl"] = lambda *args: list(args)
    for i, v in enumerate(["v", "w", "x", "u"]):
        nb.ns["k_" + v] = c.user_int("k_" + v)
        nb.run("%s = k_%s" % (v, v), v, pos=i + 1)
    nb.ns["k"] = c.user_int("k")
    nb.run("m = [k]", "m", pos=5)
    reads = [[v for v in ["v", "w", "x"] if c.bool("r%d%s" % (i, v))] if i == c.params["any"] else ["v", "w", "x"][i:i + 1] for i in range(3)]
    exprs = ["k" + "".join(" + " + v for v in rs) for rs in reads]
    expect, called = [set(rs) for rs in reads], []
    if source in ("variable", "set-after", "conditional", "loop"):
        r = nb.run("l = [%s]" % shape.format(*exprs), "l", pos=6)
        c.check(r.error is None, "no-error", lambda: repr(r.error))
        nested = "(" in shape
        at = [["l[0][0]", "l[0][1]", "l[1]"], ["l[0]", "l[1][0]", "l[1][1]"]][shape.startswith("{0}")] if nested else ["l[0]", "l[1]", "l[2]"]
        if source == "set-after":
            which = max(i for i in range(3) if at[i].count("[") == 1)
            r = nb.run("%s = u" % at[which], "set", pos=7)
            c.check(r.error is None, "no-error", lambda: repr(r.error))
            expect[which] = {"u"}
        expect = [e | {p} for e, p in zip(expect, at)]
        src = {"conditional": "%s = (l if k is not None else 0)", "loop": "for _ in [0]:\n    %s = l"}.get(source, "%s = l") % target
    elif source == "partial":
        # of the elements of what a call returned, only one has been set since
        nested = "(" in shape
        at = [["l[0][0]", "l[0][1]", "l[1]"], ["l[0]", "l[1][0]", "l[1][1]"]][shape.startswith("{0}")] if nested else ["l[0]", "l[1]", "l[2]"]
        which = c.pick("which", [i for i in range(3) if at[i].count("[") == 1])
        r = nb.run("l = packl(%s)" % shape.replace("(", "packl(").format(*exprs) + "\n%s = u" % at[which], "l", pos=6)
        c.check(r.error is None, "no-error", lambda: repr(r.error))
        expect = [{"l"}.union(*reads)] * 3
        expect[which] = {at[which], "u"}
        called = [i for i in range(3) if i != which]
        src = "%s = l" % target
    elif source in ("dict", "object"):
        if "(" in shape:
            return
        first = "l = {0: %s, 1: %s, 2: %s}" % tuple(exprs) if source == "dict" else "class I:\n    def __iter__(self):\n        return iter([1, 2, 3])\nl = I()\nl.v = %s" % exprs[0]
        r = nb.run(first, "l", pos=6)
        c.check(r.error is None, "no-error", lambda: repr(r.error))
        expect, called = [{"l"} if source == "dict" else {"l", "I"}] * 3, [0, 1, 2]
        src = "%s = l" % target
    elif source == "function":
        r = nb.run("def mk(p):\n    return %s" % shape.format("p", "p", "k"), "l", pos=6)
        c.check(r.error is None, "no-error", lambda: repr(r.error))
        src, expect, called = "%s = mk(%s)" % (target, exprs[1]), [{"mk"} | set(reads[1])] * 3, [0, 1, 2]
    elif source == "call":
        if "(" in shape:
            return
        src = "%s = pack(%s)" % (target, shape.format(*exprs))
        expect, called = [set().union(*expect)] * 3, [0, 1, 2]
    elif source == "inner-call":
        inner = "pack(%s, %s)"
        if shape.startswith("({0}"):
            src = "%s = %s, %s" % (target, inner % tuple(exprs[:2]), exprs[2])
            expect[0] = expect[1] = expect[0] | expect[1]
            called = [0, 1]
        elif "(" in shape:
            src = "%s = %s, %s" % (target, exprs[0], inner % tuple(exprs[1:]))
            expect[1] = expect[2] = expect[1] | expect[2]
            called = [1, 2]
        else:
            return
    else:
        src = "%s = " % target + ("[%s]" if source == "list" else "%s") % shape.format(*exprs)
    c.note(src)
    if target.startswith("v, ") or target.startswith("x, "):
        # the names that are read are set: what is looked at are the direct dependencies of the new values
        if source not in ("variable", "set-after"):
            return
        expect = [{p} for p in at]
    r = nb.run(src, "t", pos=8)
    c.check(r.error is None, "no-error", lambda: "%s: %r" % (src, r.error))
    num = nb.cells().exec_counter()
    for i, (place, want) in enumerate(zip(places, expect)):
        if i in called and place == "r[%s]" % place[2:3]:
            place = "r"         # what a call returned is known by its container
        r = nb.run("deps({0}), rdeps({0}), tuple(timestamp({0}))".format(place), "query", pos=99)
        c.check(r.error is None, "no-error", lambda: "%s: %r" % (place, r.error))
        got, all_got, when = r.value
        if target in ("v, w, x", "x, *r"):
            c.check_eq(names(got), sorted(want), "unpacked-deps", lambda: "of %s after %s" % (place, src))
        else:
            c.check_eq([n for n in names(all_got) if n not in ("k", "p")], sorted(want), "unpacked", lambda: "rdeps(%s) after %s" % (place, src))
        if not place.startswith("r"):
            c.check_eq(when, (num, 0), "unpacked-timestamp", lambda: "of %s after %s" % (place, src))
    mirrored(c, nb)
    c.reach(source)


FORM_SET = ["sum", "augmented", "chained", "del", "alias", "other", "fails", "global", "deleted-and-back"]
HARNESSES = [
    Harness("history", history, lambda p: "%d names, %d statements after they are defined, the first of %d forms and the others of %d; every set of names read; every name assigned; each in a cell of its own or a rerun cell"
            % (p["names"], p["steps"], len(p["first"]), len(p["forms"])),
            outside="more names, longer histories, other statements", setup=boot,
            quick={"names": 2, "steps": 2, "first": ["sum", "del", "other"], "forms": FORM_SET},
            thorough={"names": 2, "steps": 2, "first": list(FORMS), "forms": list(FORMS)}, must_reach=FORM_SET),
    Harness("wider", history, lambda p: "%d names, %d statements after they are defined, the first of %d forms and the others of %d; every set of names read; every name assigned; each in a cell of its own or a rerun cell"
            % (p["names"], p["steps"], len(p["first"]), len(p["forms"])),
            outside="more names, longer histories, other statements", setup=boot,
            quick={"names": 3, "steps": 2, "first": ["sum"], "forms": ["sum", "del"]},
            thorough={"names": 3, "steps": 2, "first": ["sum", "del", "augmented"], "forms": ["sum", "augmented", "chained", "del", "other", "alias"]}, must_reach=["sum", "del"]),
    Harness("longer", history, lambda p: "%d names, %d statements after they are defined, the first of %d forms and the others of %d; every set of names read; every name assigned; each in a cell of its own or a rerun cell"
            % (p["names"], p["steps"], len(p["first"]), len(p["forms"])),
            outside="more names, longer histories, other statements", setup=boot, thorough_only=True,
            thorough={"names": 2, "steps": 3, "first": ["sum"], "forms": ["sum", "del", "augmented"]}, must_reach=["sum", "del"]),
    Harness("places", places, lambda p: "%d places in objects, lists, dicts and tuples, with every way to get to each; read in every %dth of %d ways, then %d times one of them set in every %dth of %d ways (rotating)"
            % (len(PLACES), p["stride"], len(READ_AS), p["steps"], p["stride"], len(SET_AS)),
            outside="other containers; histories with more writes; the containers themselves being replaced", setup=boot,
            quick={"steps": 1, "stride": 6}, thorough={"steps": 1, "stride": 1}, must_reach=["set", "not-set"]),
    Harness("unpack", unpack, lambda p: "%d unpacking targets of three elements (starred, nested, subscripts), %d sources (literals, variables, variables with an element set later, calls, what a call returned with an element set later, dicts, other iterables); every set of names read by one element"
            % (len(p["targets"]), len(p["sources"])), outside="more elements; unpacking in for loops over literals; iterators", setup=boot,
            quick={"targets": list(TARGETS), "sources": SOURCES, "any": 1}, thorough={"targets": list(TARGETS), "sources": SOURCES, "any": 0}, must_reach=["tuple", "variable", "set-after", "call", "inner-call", "partial", "dict", "object"]),
]
