# -*- coding: utf-8 -*-
"""
symx: a small dynamic symbolic execution engine for Python.

The code under test is *not* translated: it is imported from /repo and executed by
CPython.  Inputs are replaced by proxy objects that carry z3 terms.  Whenever the real
code needs the truth value (or the concrete value) of a term, the solver is asked which
outcomes are feasible under the current path condition; if there is more than one, the
process forks and every outcome is followed (fork-based DFS, bounded parallelism through
a token pipe).  At assertion points the query `path condition AND NOT property` is
discharged: unsat means that the property holds for every value of the symbolic inputs
that drives execution down this path; sat yields a model, which is written out as a
counterexample and later replayed concretely (plain Python values, no proxies, fresh
process).

When exploration ends without truncation every path within the declared bounds was
covered, so the verdict is for all values within bounds.
"""
import json
import os
import resource
import select
import signal
import sys
import time
import traceback
from typing import Any, Callable, Dict, List, Optional

try:
    import z3
except ImportError:  # the repo's interpreter has no z3; borrow the one of the tool venv
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3


class PathEnd(BaseException):
    """Ends the current path quietly (infeasible assumption, pruned)."""


class Unsupported(Exception):
    """The encoding does not cover an operation: inconclusive, never a violation."""


_CTX: Optional["Ctx"] = None


def ctx() -> "Ctx":
    assert _CTX is not None
    return _CTX


def _term(v):
    if isinstance(v, (SymInt, SymBool)):
        return v._t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    raise Unsupported("no term for %r" % type(v))


def _iterm(v):
    t = _term(v)
    if z3.is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def _isnum(v):
    return isinstance(v, (SymInt, SymBool, int)) and not isinstance(v, float)


class SymBool:
    __slots__ = ("_t",)

    def __init__(self, t):
        self._t = t

    def __bool__(self):
        return ctx().branch(self._t)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self._t == _term(o))
        if _isnum(o):
            return SymBool(_iterm(self) == _iterm(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(z3.Not(r._t))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return sym_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sym_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self._t))

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return "<symbool %s>" % z3.simplify(self._t).sexpr()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _cmp(name):
    def f(self, o):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            pos = o > 0
            return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos}[name]
        if not _isnum(o):
            return NotImplemented
        a, b = _iterm(self), _iterm(o)
        return SymBool({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[name])

    return f


def _arith(name, swap=False):
    def f(self, o):
        if not _isnum(o):
            return NotImplemented
        a, b = _iterm(self), _iterm(o)
        if swap:
            a, b = b, a
        if name == "add":
            t = a + b
        elif name == "sub":
            t = a - b
        elif name == "mul":
            t = a * b
        elif name in ("floordiv", "mod"):
            bs = z3.simplify(b)
            if not z3.is_int_value(bs) or bs.as_long() <= 0:
                raise Unsupported("division by a non-constant or non-positive term")
            t = (a / b) if name == "floordiv" else (a % b)
        else:
            raise Unsupported(name)
        return type(self)._make(z3.simplify(t))

    return f


class SymInt:
    """A symbolic integer; not an int (isinstance(x, int) is False)."""

    __slots__ = ("_t",)

    def __init__(self, t):
        self._t = t

    @classmethod
    def _make(cls, t):
        return cls(t)

    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")
    __add__ = _arith("add")
    __radd__ = _arith("add", True)
    __sub__ = _arith("sub")
    __rsub__ = _arith("sub", True)
    __mul__ = _arith("mul")
    __rmul__ = _arith("mul", True)
    __floordiv__ = _arith("floordiv")
    __mod__ = _arith("mod")

    def __neg__(self):
        return type(self)._make(-self._t)

    def __pos__(self):
        return self

    def __eq__(self, o):
        if isinstance(o, float):
            return False if o in (float("inf"), float("-inf")) else NotImplemented
        if not _isnum(o):
            return NotImplemented
        return SymBool(_iterm(self) == _iterm(o))

    def __ne__(self, o):
        if isinstance(o, float):
            return True if o in (float("inf"), float("-inf")) else NotImplemented
        if not _isnum(o):
            return NotImplemented
        return SymBool(_iterm(self) != _iterm(o))

    def __bool__(self):
        return ctx().branch(self._t != 0)

    def concretize(self) -> int:
        return ctx().concretize(self._t)

    def __hash__(self):
        return hash(self.concretize())

    def __index__(self):
        return self.concretize()

    def __int__(self):
        return self.concretize()

    def __repr__(self):
        return "<symint %s>" % z3.simplify(self._t).sexpr()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymIntConstHash(SymInt):
    """A symbolic integer hashed to a constant: sound only among its own kind."""

    __slots__ = ()

    def __hash__(self):
        return 7


_POISON = 987654321987


class UserInt(int):
    """
    A symbolic integer that *is* an int for isinstance purposes, for values flowing
    through notebook programs.  The concrete payload is an absurd number, so a C fast
    path that reads it (bypassing the overloads) fails loudly instead of silently.
    """

    def __new__(cls, t):
        o = int.__new__(cls, _POISON)
        o._t = t
        return o

    @classmethod
    def _make(cls, t):
        return cls(t)

    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")
    __add__ = _arith("add")
    __radd__ = _arith("add", True)
    __sub__ = _arith("sub")
    __rsub__ = _arith("sub", True)
    __mul__ = _arith("mul")
    __rmul__ = _arith("mul", True)
    __floordiv__ = _arith("floordiv")
    __mod__ = _arith("mod")

    def __neg__(self):
        return type(self)._make(-self._t)

    def __eq__(self, o):
        if not _isnum(o):
            return NotImplemented
        return SymBool(_iterm(self) == _iterm(o))

    def __ne__(self, o):
        if not _isnum(o):
            return NotImplemented
        return SymBool(_iterm(self) != _iterm(o))

    def __bool__(self):
        return ctx().branch(self._t != 0)

    def __hash__(self):
        return hash(ctx().concretize(self._t))

    def __index__(self):
        return ctx().concretize(self._t)

    __int__ = __index__

    def __repr__(self):
        return "<userint %s>" % z3.simplify(self._t).sexpr()

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


# _term must see UserInt terms before the int branch
def _term(v):  # noqa: F811
    if isinstance(v, (SymInt, SymBool, UserInt)):
        return v._t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    raise Unsupported("no term for %r" % type(v))


SYMS = (SymInt, SymBool, UserInt)


def _b(v):
    if isinstance(v, SymBool):
        return v._t
    if z3.is_expr(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise Unsupported("not a boolean: %r" % (v,))


def sym_and(*vs):
    if all(isinstance(v, bool) for v in vs):
        return all(vs)
    return SymBool(z3.simplify(z3.And(*[_b(v) for v in vs])))


def sym_or(*vs):
    if all(isinstance(v, bool) for v in vs):
        return any(vs)
    return SymBool(z3.simplify(z3.Or(*[_b(v) for v in vs])))


def sym_not(v):
    if isinstance(v, bool):
        return not v
    return SymBool(z3.simplify(z3.Not(_b(v))))


def sym_implies(a, b):
    return sym_or(sym_not(a), b)


def sym_iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return SymBool(z3.simplify(_b(a) == _b(b)))


def sym_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return type(a if isinstance(a, SYMS) else b)(z3.If(_b(c), _term(a), _term(b)))


def sym_eq(a, b):
    """Structural equality over nested containers of symbolic / concrete values.

    Returns a bool or a SymBool and never forks.
    """
    if isinstance(a, SYMS) or isinstance(b, SYMS):
        if not (_isnum(a) and _isnum(b)):
            return False
        if isinstance(a, (bool, SymBool)) != isinstance(b, (bool, SymBool)):
            return SymBool(_iterm(a) == _iterm(b))
        return SymBool(z3.simplify(_term(a) == _term(b)))
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        return sym_and(True, *[sym_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        if list(a.keys()) != list(b.keys()):
            return False
        return sym_and(True, *[sym_eq(a[k], b[k]) for k in a])
    if isinstance(a, (int, str, float, bool, type(None), set, frozenset, bytes, range)):
        return bool(a == b)
    raise Unsupported("sym_eq on %r" % type(a))


class Stats:
    FIELDS = ("paths", "pruned", "queries", "unsat", "sat", "branches", "asserts",
              "asserts_const", "asserts_solver", "forks")

    def __init__(self):
        self.reset()

    def reset(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.labels: Dict[str, int] = {}
        self.sites: Dict[str, int] = {}

    def dump(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = self.solver_s
        d["labels"] = self.labels
        d["sites"] = self.sites
        return d


class Ctx:
    def __init__(self, mode: str, out_fd: int = -1, tok=(None, None), deadline=None,
                 stop_flag: Optional[str] = None, model: Optional[dict] = None,
                 max_viol: int = 6):
        self.mode = mode  # "sym" | "replay"
        self.out_fd = out_fd
        self.tok_r, self.tok_w = tok
        self.have_token = False
        self.deadline = deadline
        self.stop_flag = stop_flag
        self.stats = Stats()
        self.model = model or {}
        self.vars: Dict[str, Any] = {}
        self.choices: Dict[str, int] = {}
        self.notes: List[str] = []
        self.decided: Dict[int, Any] = {}
        self.children: List[int] = []
        self.replay_failures: List[dict] = []
        self.in_probe = False
        self.max_viol = max_viol
        self.params: Dict[str, Any] = {}
        self.known_sigs: frozenset = frozenset()
        if mode == "sym":
            self.solver = z3.SolverFor("QF_LIA") if False else z3.Solver()
            # no wall-clock timeout: its helper thread does not survive fork()
            self.solver.set("rlimit", 40_000_000)

    # ---------------------------------------------------------------- inputs
    def _fresh(self, name):
        if name in self.vars:
            raise Unsupported("duplicate symbolic variable " + name)

    def bool(self, name) -> Any:
        if self.mode == "replay":
            return bool(self.model.get(name, False))
        self._fresh(name)
        v = z3.Bool(name)
        self.vars[name] = v
        return SymBool(v)

    def int(self, name, lo=None, hi=None, cls=SymInt) -> Any:
        if self.mode == "replay":
            return int(self.model.get(name, lo if lo is not None else 0))
        self._fresh(name)
        v = z3.Int(name)
        self.vars[name] = v
        if lo is not None:
            self.solver.add(v >= lo)
        if hi is not None:
            self.solver.add(v <= hi)
        return cls(v)

    def user_int(self, name, lo=None, hi=None):
        return self.int(name, lo, hi, cls=UserInt)

    def choice(self, name, n: int) -> int:
        """A structural choice in range(n); every feasible value is explored."""
        if n == 1:
            return 0
        if self.mode == "replay":
            self.choices[name] = int(self.model.get(name, 0))
            return self.choices[name]
        self._fresh(name)
        v = z3.Int(name)
        self.vars[name] = v
        self.solver.add(v >= 0, v < n)
        r = self.concretize(v)
        self.choices[name] = r
        return r

    def pick(self, name, options):
        options = list(options)
        return options[self.choice(name, len(options))]

    # ---------------------------------------------------------------- solver
    def _check(self, *extra):
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            raise Unsupported("solver answered unknown: " + self.solver.reason_unknown())
        if r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.sat += 1
        return r == z3.sat

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd()
            return
        if self.mode == "replay":
            if not cond:
                raise PathEnd()
            return
        t = _b(cond)
        if not self._check(t):
            raise PathEnd()
        self.solver.add(t)

    def must(self, cond) -> bool:
        """True iff cond holds for all values on this path (no fork)."""
        if isinstance(cond, bool):
            return cond
        return not self._check(z3.Not(_b(cond)))

    def branch(self, t) -> bool:
        if self.mode == "replay":
            raise Unsupported("symbolic branch during replay")
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        self.stats.branches += 1
        known = self.decided.get(t.get_id())
        if known is not None:
            return known[1]
        nt = z3.simplify(z3.Not(t))
        can_t = self._check(t)
        can_f = self._check(nt)
        if can_t and can_f:
            res = not self._fork()
            self.solver.add(t if res else nt)
        elif not can_t and not can_f:
            raise PathEnd()
        else:
            res = can_t
        # the path condition only grows, so the answer stays valid
        self.decided[t.get_id()] = (t, res)
        self.decided[nt.get_id()] = (nt, not res)
        return res

    def concretize(self, t) -> int:
        if self.mode == "replay":
            raise Unsupported("concretize during replay")
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        n = 0
        while True:
            n += 1
            if n > 4096:
                raise Unsupported("unbounded concretization")
            if not self._check():
                raise PathEnd()
            v = self.solver.model().eval(t, model_completion=True)
            if not self._check(t != v):
                self.solver.add(t == v)
                return v.as_long()
            if self._fork():
                self.solver.add(t == v)
                return v.as_long()
            self.solver.add(t != v)

    def ask(self, cond) -> bool:
        """Fork on a (possibly symbolic) condition of the harness itself."""
        return bool(cond)

    # ---------------------------------------------------------------- forking
    def _aborting(self):
        if self.stop_flag and os.path.exists(self.stop_flag):
            return True
        return False

    def _fork(self) -> bool:
        """Returns True in the child."""
        if self._aborting():
            raise PathEnd()
        if self.deadline and time.time() > self.deadline:
            self.emit({"kind": "truncated"})
            with open(self.stop_flag + ".deadline", "w"):
                pass
            with open(self.stop_flag, "w"):
                pass
            raise PathEnd()
        self.stats.forks += 1
        sys.stdout.flush()
        sys.stderr.flush()
        got = False
        r, _, _ = select.select([self.tok_r], [], [], 0)
        if r:
            try:
                got = len(os.read(self.tok_r, 1)) == 1
            except BlockingIOError:
                got = False
        pid = os.fork()
        if pid == 0:
            cpu_watchdog()
            self.have_token = got
            self.children = []
            self.stats.reset()
            self.is_child = True
            return True
        if got:
            self.children.append(pid)
        else:
            self._wait(pid)
        return False

    def _wait(self, pid):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            self.emit({"kind": "crash", "status": st})

    def finish_process(self):
        """Flush statistics, give the token back, reap children."""
        self.emit({"kind": "stats", **self.stats.dump()})
        if self.have_token:
            os.write(self.tok_w, b"x")
            self.have_token = False
        for c in self.children:
            self._wait(c)

    def emit(self, rec: dict):
        data = (json.dumps(rec) + "\n").encode()
        os.write(self.out_fd, data)

    def maybe_witness(self):
        if self.mode == "replay":
            return
        p = self.stop_flag + ".wit"
        try:
            n = os.path.getsize(p)
        except OSError:
            n = 0
        # the first few completed paths, then exponentially rarer ones
        if n < 4 or (n < 12 and self.stats.forks % 16 == 0):
            with open(p, "a") as f:
                f.write("x")
            self.emit({"kind": "witness", "model": self.get_model(), "notes": self.notes[-12:]})

    # ---------------------------------------------------------------- verdicts
    def note(self, s):
        self.notes.append(str(s))

    def reach(self, label):
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1

    def get_model(self, *extra):
        if not self._check(*extra):
            return None
        m = self.solver.model()
        out = {}
        for name, v in self.vars.items():
            val = m.eval(v, model_completion=True)
            if z3.is_bool(val):
                out[name] = z3.is_true(val)
            else:
                out[name] = val.as_long()
        return out

    def violation(self, label, detail, model, sig=None):
        rec = {"kind": "violation", "label": label, "detail": str(detail)[-1800:],
               "sig": sig or label, "model": model, "notes": self.notes[-25:]}
        if self.mode == "replay":
            self.replay_failures.append(rec)
            return
        if rec["sig"] in self.known_sigs:
            self.reach("known:" + rec["sig"])
            return
        self.emit(rec)

    def check(self, cond, label, detail="", sig=None):
        """Assert cond for every value on the current path."""
        self.stats.asserts += 1
        self.reach("assert:" + label)
        if callable(detail):
            det = detail
        else:
            det = lambda: detail  # noqa: E731
        if isinstance(cond, SymBool):
            t = z3.simplify(cond._t)
            if z3.is_true(t):
                cond = True
            elif z3.is_false(t):
                cond = False
            else:
                self.stats.asserts_solver += 1
                m = self.get_model(z3.Not(t))
                if m is not None:
                    self.violation(label, det(), m, sig)
                    # continue on the side where the property holds, if any
                    if not self._check(t):
                        raise PathEnd()
                    self.solver.add(t)
                    return False
                return True
        self.stats.asserts_const += 1
        if not cond:
            self.violation(label, det(), None if self.mode == "replay" else self.get_model(), sig)
            return False
        return True

    def check_eq(self, got, want, label, detail="", sig=None):
        return self.check(sym_eq(got, want), label,
                          lambda: "%s got=%r want=%r" % (detail() if callable(detail) else detail, got, want), sig)


CPU_LIMIT = 40


def cpu_watchdog():
    """Bounds the CPU time of one path (CPU time of a process starts at 0 after fork)."""

    def on_cpu(signum, frame):
        # the code under test may swallow exceptions, so report and leave from here
        c = _CTX
        tb = "".join(traceback.format_stack(frame)[-9:])
        try:
            model = None if c.mode == "replay" else c.get_model()
            c.violation("hang", "no termination within %d CPU seconds\n%s" % (CPU_LIMIT, tb), model)
            if c.mode == "replay":
                c.on_hang(c.replay_failures)
            else:
                c.finish_process()
        finally:
            os._exit(0)

    signal.signal(signal.SIGXCPU, on_cpu)
    used = resource.getrusage(resource.RUSAGE_SELF)
    lim = int(used.ru_utime + used.ru_stime) + CPU_LIMIT
    resource.setrlimit(resource.RLIMIT_CPU, (lim, resource.RLIM_INFINITY))
    # a loop inside C code never runs the handler; SIGXCPU is repeated every second, and the
    # supervisor kills what survives its deadline


def run_path_body(c: Ctx, fn: Callable[[Ctx], None]):
    """Runs fn on the current process' path; classifies how it ended."""
    try:
        fn(c)
        c.stats.paths += 1
        c.maybe_witness()
        return "ok"
    except PathEnd:
        c.stats.pruned += 1
        return "pruned"
    except Unsupported as e:
        rec = {"kind": "unsupported", "what": str(e), "tb": traceback.format_exc()[-1500:],
               "notes": c.notes[-25:]}
        if c.mode == "replay":
            c.replay_failures.append(rec)
        else:
            c.emit(rec)
        return "unsupported"
    except Exception as e:
        tb = traceback.format_exc()
        c.stats.paths += 1
        try:
            model = None if c.mode == "replay" else c.get_model()
        except Exception:
            model = None
        c.violation("exception:%s" % type(e).__name__, tb[-1400:], model,
                    sig="exception:%s" % type(e).__name__)
        return "exception"


def explore(fn: Callable[[Ctx], None], *, workers: int, timeout_s: float, workdir: str,
            params: Optional[dict] = None, setup: Optional[Callable[[], None]] = None,
            max_viol: int = 6, known_sigs=()) -> dict:
    """Exhaustively explore fn.  Returns aggregated records."""
    global _CTX
    os.makedirs(workdir, exist_ok=True)
    out_path = os.path.join(workdir, "records.jsonl")
    stop_flag = os.path.join(workdir, "stop")
    for p in (out_path, stop_flag, stop_flag + ".deadline", stop_flag + ".wit"):
        if os.path.exists(p):
            os.unlink(p)
    fd = os.open(out_path, os.O_CREAT | os.O_WRONLY | os.O_APPEND)
    r, w = os.pipe()
    os.set_blocking(r, False)
    os.write(w, b"x" * max(0, workers - 1))
    t0 = time.time()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            c = Ctx("sym", fd, (r, w), t0 + timeout_s, stop_flag, max_viol=max_viol)
            c.params = params or {}
            c.known_sigs = frozenset(known_sigs)
            c.is_child = True
            _CTX = c
            cpu_watchdog()
            if setup is not None:
                setup()
            run_path_body(c, fn)
            c.finish_process()
        except BaseException:
            code = 3
            try:
                os.write(fd, (json.dumps({"kind": "crash", "status": -1,
                                          "tb": traceback.format_exc()[-1500:]}) + "\n").encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    # watch for too many violations
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        time.sleep(0.05)
        if not os.path.exists(stop_flag):
            try:
                nviol = 0
                with open(out_path) as f:
                    for line in f:
                        if '"kind": "violation"' in line[:30]:
                            nviol += 1
                if nviol >= max_viol * 20:
                    open(stop_flag, "w").close()
            except OSError:
                pass
            # reading the whole file is O(n); slow the loop down as it grows
            time.sleep(min(1.0, os.path.getsize(out_path) / 5e6))
    os.close(fd)
    os.close(r)
    os.close(w)
    res = {"violations": [], "unsupported": [], "crashes": [], "truncated": False,
           "witnesses": [], "labels": {}, "wall_s": time.time() - t0, "procs": 0, "solver_s": 0.0}
    for f in Stats.FIELDS:
        res[f] = 0
    if st != 0:
        res["crashes"].append({"status": st})
    with open(out_path) as f:
        for line in f:
            rec = json.loads(line)
            k = rec["kind"]
            if k == "stats":
                res["procs"] += 1
                for fl in Stats.FIELDS:
                    res[fl] += rec[fl]
                res["solver_s"] += rec["solver_s"]
                for lb, n in rec["labels"].items():
                    res["labels"][lb] = res["labels"].get(lb, 0) + n
            elif k == "violation":
                res["violations"].append(rec)
            elif k == "witness":
                res["witnesses"].append(rec)
            elif k == "unsupported":
                res["unsupported"].append(rec)
            elif k == "truncated":
                res["truncated"] = True
            elif k == "crash":
                res["crashes"].append(rec)
    if os.path.exists(stop_flag) and not res["violations"]:
        res["truncated"] = True
    return res


def replay(fn, model: dict, params: Optional[dict] = None, on_hang=None) -> List[dict]:
    """Run fn concretely under the given model; returns the failures observed."""
    global _CTX
    c = Ctx("replay", model=model)
    c.on_hang = on_hang
    cpu_watchdog()
    c.params = params or {}
    _CTX = c
    run_path_body(c, fn)
    return c.replay_failures
