"""Path-exploring symbolic executor on top of z3.

Numbers are SymNum (an SMT real term + flags nan/pinf/ninf), truth values SymBool.
A SymBool that is asked for its truth value (``if``, ``and``, sorting ...) is a branch:
the engine asks the solver which outcomes are feasible under the path condition and
explores all of them by depth-first re-execution.
"""
import math
import time
from fractions import Fraction

import z3


class PathEnd(BaseException):
    """the current path is infeasible (failed assumption) or deliberately cut"""


class Unsupported(BaseException):
    """the code under test used an operation the numpy/pandas model does not have"""


class Budget(BaseException):
    """path / time budget of one harness configuration used up"""


ENG = None  # the engine executing the current path


def eng():
    return ENG


# --------------------------------------------------------------------------- terms
# real payload: int | Fraction | z3.ArithRef (sort Real);  bool payload: bool | z3.BoolRef

_TRUE = z3.BoolVal(True)
_FALSE = z3.BoolVal(False)
_num_cache = {}


def rz(x):
    if isinstance(x, z3.ExprRef):
        return x
    t = _num_cache.get(x)
    if t is None:
        t = _num_cache[x] = z3.RealVal(str(x) if isinstance(x, Fraction) else x)
    return t


def bz(x):
    if isinstance(x, z3.ExprRef):
        return x
    return _TRUE if x else _FALSE


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def norm(x):
    """normalise concrete reals: ints for integral fractions"""
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def r_add(a, b):
    if not is_sym(a):
        if not is_sym(b):
            return norm(a + b)
        if a == 0:
            return b
    elif not is_sym(b) and b == 0:
        return a
    return rz(a) + rz(b)


def r_sub(a, b):
    if not is_sym(b):
        if not is_sym(a):
            return norm(a - b)
        if b == 0:
            return a
    elif is_sym(a) and a.get_id() == b.get_id():
        return 0
    elif not is_sym(a) and a == 0:
        return -b
    return rz(a) - rz(b)


def r_neg(a):
    if not is_sym(a):
        return -a
    return -a


def r_mul(a, b):
    if not is_sym(a):
        if not is_sym(b):
            return norm(a * b)
        if a == 0:
            return 0
        if a == 1:
            return b
    elif not is_sym(b):
        if b == 0:
            return 0
        if b == 1:
            return a
    elif a.get_id() > b.get_id():
        a, b = b, a
    return rz(a) * rz(b)


def r_div(a, b):
    """b must not be concretely zero"""
    if not is_sym(b):
        if not is_sym(a):
            return norm(Fraction(a) / Fraction(b))
        if b == 1:
            return a
    elif not is_sym(a) and a == 0:
        return 0  # callers handle b == 0 separately
    elif is_sym(a) and a.get_id() == b.get_id():
        return 1
    return rz(a) / rz(b)


def r_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if not is_sym(a) and not is_sym(b) and a == b:
        return a
    if is_sym(a) and is_sym(b) and a.get_id() == b.get_id():
        return a
    k = known(c)
    if k is not None:
        return a if k else b
    return z3.If(c, rz(a), rz(b))


def known(b):
    """truth value of a boolean payload if decided by recorded path facts, else None"""
    if isinstance(b, bool):
        return b
    e = ENG
    if e is None:
        return None
    return e.facts.get(b.get_id())


def b_not(a):
    k = known(a)
    if k is not None:
        return not k
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out, seen = [], set()
    for x in xs:
        k = known(x)
        if k is False:
            return False
        if k is True:
            continue
        i = x.get_id()
        if i not in seen:
            seen.add(i)
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out, seen = [], set()
    for x in xs:
        k = known(x)
        if k is True:
            return True
        if k is False:
            continue
        i = x.get_id()
        if i not in seen:
            seen.add(i)
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_ite(c, a, b):
    k = known(c)
    if k is not None:
        return a if k else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else b_not(c)
    if is_sym(a) and is_sym(b) and a.get_id() == b.get_id():
        return a
    if isinstance(a, bool):
        return b_or(c, b) if a else b_and(b_not(c), b)
    if isinstance(b, bool):
        return b_or(b_not(c), a) if b else b_and(c, a)
    return z3.If(c, a, b)


def b_iff(a, b):
    ka, kb = known(a), known(b)
    if ka is not None and kb is not None:
        return ka == kb
    if ka is not None:
        return b if ka else b_not(b)
    if kb is not None:
        return a if kb else b_not(a)
    if a.get_id() == b.get_id():
        return True
    return a == b


def b_implies(a, b):
    return b_or(b_not(a), b)


def r_lt(a, b):
    if not is_sym(a) and not is_sym(b):
        return a < b
    if is_sym(a) and is_sym(b) and a.get_id() == b.get_id():
        return False
    e = ENG
    if e is not None:
        k = e.order.lt(a, b)
        if k is not None:
            return k
    return rz(a) < rz(b)


def r_le(a, b):
    if not is_sym(a) and not is_sym(b):
        return a <= b
    if is_sym(a) and is_sym(b) and a.get_id() == b.get_id():
        return True
    e = ENG
    if e is not None:
        k = e.order.lt(b, a)
        if k is not None:
            return not k
    return rz(a) <= rz(b)


def r_eq(a, b):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        return a == b
    if sa and sb and a.get_id() == b.get_id():
        return True
    e = ENG
    if e is not None:
        k = e.order.eq(a, b)
        if k is not None:
            return k
    if sa and sb and a.get_id() > b.get_id():
        a, b = b, a
    return rz(a) == rz(b)


def r_floor(a):
    if not is_sym(a):
        return a.__floor__()
    return z3.ToReal(z3.ToInt(a))


_ISINT = []


def r_isint(a):
    """is the number integral?  An uninterpreted predicate: only dtype inference asks, and both answers
    are explored (models used for replaying pick numbers which agree with it where possible)"""
    if not is_sym(a):
        return a == a.__floor__()
    if not _ISINT:
        _ISINT.append(z3.Function("isint", z3.RealSort(), z3.BoolSort()))
    return _ISINT[0](a)


class OrderDB:
    """decided order facts between terms, closed under transitivity"""

    def __init__(self):
        self.succ = {}  # key -> {key: strict}
        self.ne = set()
        self.nums = []
        self.memo = {}

    @staticmethod
    def key(t):
        return ("t", t.get_id()) if is_sym(t) else ("n", t)

    def _node(self, t):
        if is_sym(t):
            if z3.is_rational_value(t):
                t = norm(t.as_fraction())
            else:
                k = ("t", t.get_id())
                if k not in self.succ:
                    self.succ[k] = {}
                return k
        k = ("n", t)
        if k not in self.succ:
            self.succ[k] = {}
            for o in self.nums:
                if o < t:
                    self.succ[("n", o)][k] = True
                else:
                    self.succ[k][("n", o)] = True
            self.nums.append(t)
            self.memo.clear()
        return k

    def add_le(self, a, b, strict):
        ka, kb = self._node(a), self._node(b)
        if ka == kb:
            return
        if self.succ[ka].get(kb) is not True:
            self.succ[ka][kb] = strict
        self.memo.clear()

    def add_ne(self, a, b):
        ka, kb = self._node(a), self._node(b)
        self.ne.add((ka, kb))
        self.ne.add((kb, ka))
        self.memo.clear()

    def _reach(self, ka, kb):
        """None: no path; False: path without strict edge; True: strict path"""
        m = self.memo.get((ka, kb), 0)
        if m != 0:
            return m
        best = {ka: False}
        stack = [ka]
        while stack:
            k = stack.pop()
            s = best[k]
            for n, st in self.succ[k].items():
                v = s or st
                if n not in best or (v and not best[n]):
                    best[n] = v
                    stack.append(n)
        for k, v in best.items():
            self.memo[(ka, k)] = v
        if kb not in best:
            self.memo[(ka, kb)] = None
            return None
        return best[kb]

    def _keys(self, a, b):
        ka = ("t", a.get_id()) if is_sym(a) else None
        kb = ("t", b.get_id()) if is_sym(b) else None
        if ka is None:
            if kb not in self.succ:
                return None
            ka = self._node(a)
        elif ka not in self.succ:
            return None
        if kb is None:
            kb = self._node(b)
        elif kb not in self.succ:
            return None
        return ka, kb

    def lt(self, a, b):
        """True/False if a < b is decided, None otherwise"""
        ks = self._keys(a, b)
        if ks is None:
            return None
        f = self._reach(*ks)
        if f:
            return True
        if f is False and ks in self.ne:
            return True
        g = self._reach(ks[1], ks[0])
        if g is not None:  # b <= a
            return False
        return None

    def eq(self, a, b):
        ks = self._keys(a, b)
        if ks is None:
            return None
        f = self._reach(*ks)
        g = self._reach(ks[1], ks[0])
        if f or g:
            return False
        if ks in self.ne:
            return False
        if f is False and g is False:
            return True
        return None


class Entry:
    __slots__ = ("cond", "val", "alt", "altmodel", "pushed", "kind")

    def __init__(self, cond, val, alt, altmodel, pushed, kind="b"):
        self.cond, self.val, self.alt = cond, val, alt
        self.altmodel, self.pushed, self.kind = altmodel, pushed, kind


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.proofs = 0  # assertion queries answered unsat by the solver
        self.trivial = 0  # assertions closed by term rewriting alone
        self.solver_s = 0.0
        self.unknown_branches = 0

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    def __init__(self, branch_timeout_ms=3000, prove_timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set("timeout", branch_timeout_ms)
        self.branch_timeout = branch_timeout_ms
        self.prove_timeout = prove_timeout_ms
        self.trail = []
        self.stats = Stats()
        self.simp = {}  # condition id -> truth value if it simplifies to a constant
        self.keep = []  # keep ASTs alive so that ids stay unique
        self.deadline = None
        self.start_path()

    # -- one path ---------------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.facts = {}
        self.order = OrderDB()
        self.obligations = []
        self.inputs = {}
        self.model = getattr(self, "_root_model", None)
        self.nfresh = 0
        self.path_unknown = False
        self.ints = []
        self.sides = []

    def _check(self, *extra):
        t = time.time()
        self.stats.queries += 1
        if extra:
            self.solver.push()
            for x in extra:
                self.solver.add(x)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.solver_s += time.time() - t
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        return r, m

    def learn(self, c, v):
        """record the literal facts implied by boolean term c having value v"""
        self.facts[c.get_id()] = v
        self.keep.append(c)
        if z3.is_not(c):
            return self.learn(c.arg(0), not v)
        if z3.is_and(c):
            if v:
                for i in range(c.num_args()):
                    self.learn(c.arg(i), True)
            return
        if z3.is_or(c):
            if not v:
                for i in range(c.num_args()):
                    self.learn(c.arg(i), False)
            return
        k = c.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            if _ISINT and c.decl().eq(_ISINT[0]):
                self.ints.append((c.arg(0), v))
            return
        if k == z3.Z3_OP_EQ:
            a, b = c.arg(0), c.arg(1)
            if a.sort_kind() == z3.Z3_REAL_SORT:
                a, b = self._unval(a), self._unval(b)
                if v:
                    self.order.add_le(a, b, False)
                    self.order.add_le(b, a, False)
                else:
                    self.order.add_ne(a, b)
            return
        if k in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
            a, b = c.arg(0), c.arg(1)
            if a.sort_kind() != z3.Z3_REAL_SORT:
                return
            a, b = self._unval(a), self._unval(b)
            if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
                a, b = b, a
                k = z3.Z3_OP_LT if k == z3.Z3_OP_GT else z3.Z3_OP_LE
            if k == z3.Z3_OP_LT:
                if v:
                    self.order.add_le(a, b, True)
                else:
                    self.order.add_le(b, a, False)
            else:
                if v:
                    self.order.add_le(a, b, False)
                else:
                    self.order.add_le(b, a, True)

    @staticmethod
    def _unval(t):
        if z3.is_rational_value(t):
            return norm(t.as_fraction())
        return t

    def _eval(self, cond):
        if self.model is None:
            return None
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        f = self.facts.get(cond.get_id())
        if f is not None:
            return f
        k = cond.get_id()
        sv = self.simp.get(k, 0)
        if sv == 0:
            s = z3.simplify(cond)
            sv = True if z3.is_true(s) else False if z3.is_false(s) else None
            self.simp[k] = sv
            self.keep.append(cond)
        if sv is not None:
            self.facts[k] = sv
            return sv
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != "b" or not e.cond.eq(cond):
                raise RuntimeError(
                    "non-deterministic re-execution: %s vs %s" % (e.cond, cond)
                )
            self.pos += 1
            self.learn(cond, e.val)
            if self.pos == len(self.trail):
                self.model = self._tail_model
            return e.val
        ncond = z3.Not(cond)
        v = self._eval(cond)
        alt, altmodel = False, None
        if v is not None:
            r, m = self._check(ncond if v else cond)
            if r != z3.unsat:
                alt, altmodel = True, m
                if r == z3.unknown:
                    self.stats.unknown_branches += 1
        else:
            r1, m1 = self._check(cond)
            r2, m2 = self._check(ncond)
            if r1 == z3.unknown or r2 == z3.unknown:
                self.stats.unknown_branches += 1
            if r1 == z3.unsat and r2 == z3.unsat:
                raise PathEnd()
            if r1 == z3.unsat:
                v, self.model = False, m2
            elif r2 == z3.unsat:
                v, self.model = True, m1
            else:
                v, self.model, alt, altmodel = True, m1, True, m2
                if m1 is None and m2 is not None:
                    v, self.model, altmodel = False, m2, None
        pushed = alt
        if pushed:
            self.solver.push()
            self.solver.add(cond if v else ncond)
        self.trail.append(Entry(cond, v, alt, altmodel, pushed))
        self.stats.branches += 1
        self.pos += 1
        self._tail_model = self.model
        self.learn(cond, v)
        return v

    def assume(self, cond):
        """restrict the inputs of the harness"""
        if isinstance(cond, SymBool):
            cond = cond.b
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd()
            return
        f = self.facts.get(cond.get_id())
        if f is True:
            return
        if f is False:
            raise PathEnd()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != "a" or not e.cond.eq(cond):
                raise RuntimeError("non-deterministic re-execution (assume)")
            self.pos += 1
            if e.val is False:
                raise PathEnd()
            self.learn(cond, True)
            if self.pos == len(self.trail):
                self.model = self._tail_model
            return
        if self._eval(cond) is not True:
            r, m = self._check(cond)
            if r == z3.unsat:
                self.trail.append(Entry(cond, False, False, None, False, "a"))
                self.pos += 1
                raise PathEnd()
            self.model = m
        self.solver.push()
        self.solver.add(cond)
        self.trail.append(Entry(cond, True, False, None, True, "a"))
        self.pos += 1
        self._tail_model = self.model
        self.learn(cond, True)

    def prove(self, cond, label):
        if isinstance(cond, SymBool):
            cond = cond.b
        self.obligations.append((label, cond))

    def side(self, fact):
        """a definitional constraint on a fresh symbol (e.g. square root)"""
        self.assume(fact)

    def fresh(self, prefix, sort="real"):
        self.nfresh += 1
        n = "%s!%d" % (prefix, self.nfresh)
        return z3.Real(n) if sort == "real" else z3.Bool(n)

    # -- discharging --------------------------------------------------------
    def discharge(self):
        """-> (status, failing labels, model); status in proved/cex/unknown"""
        todo = []
        for label, c in self.obligations:
            k = known(c)
            if k is True:
                self.stats.trivial += 1
                continue
            if not isinstance(c, bool):
                s = z3.simplify(c)
                if z3.is_true(s):
                    self.stats.trivial += 1
                    continue
            todo.append((label, c))
        if not todo:
            return "proved", [], None
        bad = [l for l, c in todo if c is False]
        if bad:
            # the path itself must be feasible
            if self.model is not None:
                return "cex", bad, self.model
            self.solver.set("timeout", self.prove_timeout)
            r, m = self._check()
            self.solver.set("timeout", self.branch_timeout)
            if r == z3.unsat:
                return "proved", [], None
            if r == z3.sat:
                return "cex", bad, m
            return "unknown", bad, None
        neg = z3.Or(*[z3.Not(c) for _, c in todo]) if len(todo) > 1 else z3.Not(todo[0][1])
        r, m = self._check(neg)
        if r == z3.unknown:
            # one by one, stronger procedures
            unknown = []
            for l, c in todo:
                rr, mm = self._hard(z3.Not(c))
                if rr == z3.sat:
                    return "cex", [l], mm
                if rr == z3.unknown:
                    unknown.append(l)
                else:
                    self.stats.proofs += 1
            if unknown:
                return "unknown", unknown, None
            return "proved", [], None
        if r == z3.unsat:
            self.stats.proofs += len(todo)
            return "proved", [], None
        labels = []
        for l, c in todo:
            v = m.eval(c, model_completion=True)
            if not z3.is_true(v):
                labels.append(l)
        return "cex", labels, m

    def _hard(self, goal):
        t = time.time()
        try:
            for mk in (
                lambda: z3.SolverFor("QF_NRA"),
                lambda: z3.Then(
                    "simplify", "propagate-values", "solve-eqs", "elim-term-ite",
                    "simplify", "qfnra-nlsat").solver(),
            ):
                s = mk()
                s.set("timeout", self.prove_timeout)
                for a in self.solver.assertions():
                    s.add(a)
                s.add(goal)
                self.stats.queries += 1
                try:
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r == z3.sat:
                    return r, s.model()
                if r == z3.unsat:
                    return r, None
            return z3.unknown, None
        finally:
            self.stats.solver_s += time.time() - t
            if self.deadline and time.time() > self.deadline:
                raise Budget()

    # -- exploration ----------------------------------------------------------
    def next_path(self):
        """backtrack; False when the tree is exhausted"""
        while self.trail:
            e = self.trail[-1]
            if e.alt:
                break
            if e.pushed:
                self.solver.pop()
            self.trail.pop()
        if not self.trail:
            return False
        e = self.trail[-1]
        self.solver.pop()
        e.val = not e.val
        e.alt = False
        self.solver.push()
        self.solver.add(e.cond if e.val else z3.Not(e.cond))
        e.pushed = True
        self._tail_model = e.altmodel
        e.altmodel = None
        return True

    def run(self, fn, on_path, max_paths=None):
        """explore every path of fn(); on_path(status, exc) is called after each"""
        global ENG
        prev, ENG = ENG, self
        try:
            while True:
                self.start_path()
                exc = None
                status = "ok"
                try:
                    fn()
                except PathEnd:
                    status = "cut"
                except Unsupported as e:
                    status, exc = "unsupported", e
                except Exception as e:  # noqa: BLE001 - the code under test raised
                    status, exc = "raised", e
                if status != "cut":
                    self.stats.paths += 1
                    on_path(status, exc)
                if self.deadline and time.time() > self.deadline:
                    raise Budget()
                if max_paths and self.stats.paths >= max_paths:
                    raise Budget()
                if not self.next_path():
                    return
        finally:
            ENG = prev


# --------------------------------------------------------------------------- values
NAN = float("nan")


def _flag(b):
    return SymBool(b) if not isinstance(b, bool) else b


class SymBool:
    """a truth value; ``b`` is bool | z3.BoolRef. np=True behaves like numpy.bool_"""

    __slots__ = ("b", "np")

    def __init__(self, b, np=True):
        self.b = b.b if isinstance(b, SymBool) else b
        self.np = np

    def __bool__(self):
        if isinstance(self.b, bool):
            return self.b
        return ENG.branch(self.b)

    def __invert__(self):
        if not self.np:
            return ~int(bool(self))
        return SymBool(b_not(self.b))

    def _coerce(self, o):
        if isinstance(o, SymBool):
            return o.b
        if isinstance(o, bool):
            return o
        return None

    def __and__(self, o):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        return SymBool(b_and(self.b, c), True)

    __rand__ = __and__

    def __or__(self, o):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        return SymBool(b_or(self.b, c), True)

    __ror__ = __or__

    def __xor__(self, o):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        return SymBool(b_not(b_iff(self.b, c)), True)

    __rxor__ = __xor__

    def num(self):
        return SymNum(r_ite(self.b, 1, 0), kind="i", np=self.np)

    def __eq__(self, o):
        c = self._coerce(o)
        if c is not None:
            return SymBool(b_iff(self.b, c), self.np)
        return self.num() == o

    def __ne__(self, o):
        c = self._coerce(o)
        if c is not None:
            return SymBool(b_not(b_iff(self.b, c)), self.np)
        return self.num() != o

    def __lt__(self, o):
        return self.num() < o

    def __le__(self, o):
        return self.num() <= o

    def __gt__(self, o):
        return self.num() > o

    def __ge__(self, o):
        return self.num() >= o

    def __add__(self, o):
        if self.np and isinstance(o, SymBool) and o.np:
            return self | o
        return self.num() + o

    def __radd__(self, o):
        return o + self.num()

    def __sub__(self, o):
        if self.np and isinstance(o, SymBool) and o.np:
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        if self.np and isinstance(o, SymBool) and o.np:
            return self & o
        return self.num() * o

    def __rmul__(self, o):
        return o * self.num()

    def __truediv__(self, o):
        return self.num() / o

    def __rtruediv__(self, o):
        return o / self.num()

    def __neg__(self):
        if self.np:
            raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
        return -self.num()

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return 0

    def any(self):
        return self

    all = any

    def item(self):
        return SymBool(self.b, np=False)

    def astype(self, t):
        from . import npshim

        return npshim.scalar_astype(self, t)

    def __repr__(self):
        return "SymBool(%s)" % (self.b,)


class SymNum:
    """a number: nan/pinf/ninf flags plus a real payload valid when none is set.

    kind: 'f' float, 'i' int.  np=True: numpy scalar semantics (division by zero)."""

    __slots__ = ("nan", "pinf", "ninf", "r", "kind", "np")
    __array_priority__ = 0

    def __init__(self, r, nan=False, pinf=False, ninf=False, kind="f", np=True):
        self.r, self.nan, self.pinf, self.ninf = r, nan, pinf, ninf
        self.kind, self.np = kind, np

    # -- construction
    @staticmethod
    def of(x):
        """coerce a scalar; None when it is not a number"""
        if isinstance(x, SymNum):
            return x
        if isinstance(x, SymBool):
            return x.num()
        if isinstance(x, bool):
            return SymNum(int(x), kind="i", np=False)
        if isinstance(x, int):
            return SymNum(int(x), kind="i", np=False)
        if isinstance(x, float):
            if x != x:
                return SymNum(0, nan=True, np=False)
            if x == float("inf"):
                return SymNum(0, pinf=True, np=False)
            if x == float("-inf"):
                return SymNum(0, ninf=True, np=False)
            return SymNum(norm(Fraction(x)), np=False)
        if isinstance(x, Fraction):
            return SymNum(norm(x), np=False)
        return None

    def with_(self, **kw):
        d = dict(r=self.r, nan=self.nan, pinf=self.pinf, ninf=self.ninf,
                 kind=self.kind, np=self.np)
        d.update(kw)
        return SymNum(**d)

    def has_inf(self):
        return self.pinf is not False or self.ninf is not False

    def isnan(self):
        return self.nan

    def isinf(self):
        return b_or(self.pinf, self.ninf)

    def isfinite(self):
        return b_not(b_or(self.nan, self.pinf, self.ninf))

    def is_concrete(self):
        return (
            not is_sym(self.r) and isinstance(self.nan, bool)
            and isinstance(self.pinf, bool) and isinstance(self.ninf, bool)
        )

    # -- arithmetic
    def _k(self, o):
        return "i" if self.kind == "i" and o.kind == "i" else "f"

    def _add(self, o):
        k, n = self._k(o), self.np or o.np
        nan = b_or(self.nan, o.nan)
        if nan is True:
            return SymNum(0, nan=True, kind="f", np=n)
        if not self.has_inf() and not o.has_inf():
            return SymNum(r_add(self.r, o.r), nan=nan, kind=k, np=n)
        nan = b_or(nan, b_and(self.pinf, o.ninf), b_and(self.ninf, o.pinf))
        nn = b_not(nan)
        return SymNum(
            r_add(self.r, o.r), nan=nan, pinf=b_and(nn, b_or(self.pinf, o.pinf)),
            ninf=b_and(nn, b_or(self.ninf, o.ninf)), kind=k, np=n)

    def _mul(self, o):
        k, n = self._k(o), self.np or o.np
        nan = b_or(self.nan, o.nan)
        if nan is True:
            return SymNum(0, nan=True, kind="f", np=n)
        if not self.has_inf() and not o.has_inf():
            return SymNum(r_mul(self.r, o.r), nan=nan, kind=k, np=n)
        i1, i2 = self.isinf(), o.isinf()
        z1 = b_and(self.isfinite(), r_eq(self.r, 0))
        z2 = b_and(o.isfinite(), r_eq(o.r, 0))
        nan = b_or(nan, b_and(i1, z2), b_and(i2, z1))
        p1 = b_or(self.pinf, b_and(b_not(self.ninf), r_lt(0, self.r)))
        p2 = b_or(o.pinf, b_and(b_not(o.ninf), r_lt(0, o.r)))
        isinf = b_and(b_not(nan), b_or(i1, i2))
        pos = b_iff(p1, p2)
        return SymNum(r_mul(self.r, o.r), nan=nan, pinf=b_and(isinf, pos),
                      ninf=b_and(isinf, b_not(pos)), kind=k, np=n)

    def _div(self, o):
        n = self.np or o.np
        nan = b_or(self.nan, o.nan)
        if nan is True:
            return SymNum(0, nan=True, np=n)
        if not n:
            z = b_and(o.isfinite(), r_eq(o.r, 0))
            if ENG.branch(z) if not isinstance(z, bool) else z:
                raise ZeroDivisionError("division by zero")
        if self.has_inf() or o.has_inf():
            # decide the special cases by branching; rare
            if SymBool(nan):
                return SymNum(0, nan=True, np=n)
            si, oi = bool(SymBool(self.isinf())), bool(SymBool(o.isinf()))
            if si and oi:
                return SymNum(0, nan=True, np=n)
            if oi:
                return SymNum(0, np=n)
            if si:
                neg = bool(SymBool(self.ninf)) != bool(SymBool(r_lt(o.r, 0)))
                return SymNum(0, pinf=not neg, ninf=neg, np=n)
            return SymNum(self.r, np=n)._div(SymNum(o.r, np=n))
        if not is_sym(o.r):
            if o.r == 0:
                nan2 = b_or(nan, r_eq(self.r, 0))
                return SymNum(
                    0, nan=nan2, pinf=b_and(b_not(nan), r_lt(0, self.r)),
                    ninf=b_and(b_not(nan), r_lt(self.r, 0)), np=n)
            return SymNum(r_div(self.r, o.r), nan=nan, np=n)
        z = r_eq(o.r, 0)
        if z is False:
            return SymNum(r_div(self.r, o.r), nan=nan, np=n)
        nn = b_not(nan)
        return SymNum(
            r_div(self.r, o.r), nan=b_or(nan, b_and(z, r_eq(self.r, 0))),
            pinf=b_and(nn, z, r_lt(0, self.r)), ninf=b_and(nn, z, r_lt(self.r, 0)), np=n)

    def _neg(self):
        return SymNum(r_neg(self.r), nan=self.nan, pinf=self.ninf, ninf=self.pinf,
                      kind=self.kind, np=self.np)

    def _bin(self, o, f, swap=False):
        o = SymNum.of(o)
        if o is None:
            return NotImplemented
        return f(o, self) if swap else f(self, o)

    def __add__(self, o):
        return self._bin(o, SymNum._add)

    def __radd__(self, o):
        return self._bin(o, SymNum._add, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a._sub(b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a._sub(b), True)

    def _sub(self, o):
        if not self.has_inf() and not o.has_inf():
            nan = b_or(self.nan, o.nan)
            if nan is True:
                return SymNum(0, nan=True, np=self.np or o.np)
            return SymNum(r_sub(self.r, o.r), nan=nan, kind=self._k(o), np=self.np or o.np)
        return self._add(o._neg())

    def __mul__(self, o):
        return self._bin(o, SymNum._mul)

    def __rmul__(self, o):
        return self._bin(o, SymNum._mul, True)

    def __truediv__(self, o):
        return self._bin(o, SymNum._div)

    def __rtruediv__(self, o):
        return self._bin(o, SymNum._div, True)

    def _floordiv(self, o):
        q = self._div(o)
        if q.has_inf():
            raise Unsupported("floordiv with possibly zero divisor")
        return SymNum(r_floor(q.r), nan=q.nan, kind=self._k(o), np=q.np)

    def __floordiv__(self, o):
        return self._bin(o, SymNum._floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, SymNum._floordiv, True)

    def _mod(self, o):
        return self._sub(self._floordiv(o)._mul(o))

    def __mod__(self, o):
        return self._bin(o, SymNum._mod)

    def __rmod__(self, o):
        return self._bin(o, SymNum._mod, True)

    def __pow__(self, o):
        o = SymNum.of(o)
        if o is None:
            return NotImplemented
        if is_sym(o.r) or o.nan is not False:
            raise Unsupported("symbolic exponent")
        if o.r == Fraction(1, 2):
            return sqrt(self)
        if not isinstance(o.r, int) or o.r < 0 or o.r > 8:
            raise Unsupported("exponent %r" % (o.r,))
        out = SymNum(1, kind=self._k(o), np=self.np)
        for _ in range(o.r):
            out = out._mul(self)
        return out

    def __neg__(self):
        return self._neg()

    def __pos__(self):
        return self

    def __abs__(self):
        neg = r_lt(self.r, 0)
        return SymNum(r_ite(neg, r_neg(self.r), self.r), nan=self.nan,
                      pinf=self.isinf(), kind=self.kind, np=self.np)

    # -- comparisons
    def _lt(self, o):
        if not self.has_inf() and not o.has_inf():
            if self.nan is False and o.nan is False:
                return r_lt(self.r, o.r)
            return b_and(b_not(self.nan), b_not(o.nan), r_lt(self.r, o.r))
        return b_and(
            b_not(self.nan), b_not(o.nan), b_not(self.pinf), b_not(o.ninf),
            b_or(self.ninf, o.pinf, r_lt(self.r, o.r)))

    def _eq(self, o):
        if not self.has_inf() and not o.has_inf():
            return b_and(b_not(self.nan), b_not(o.nan), r_eq(self.r, o.r))
        return b_and(
            b_not(self.nan), b_not(o.nan), b_iff(self.pinf, o.pinf),
            b_iff(self.ninf, o.ninf),
            b_or(self.pinf, self.ninf, r_eq(self.r, o.r)))

    def _le(self, o):
        if not self.has_inf() and not o.has_inf():
            if self.nan is False and o.nan is False:
                return r_le(self.r, o.r)
            return b_and(b_not(self.nan), b_not(o.nan), r_le(self.r, o.r))
        return b_or(self._lt(o), self._eq(o))

    def _cmp(self, o, f, refl="__eq__"):
        other, o = o, SymNum.of(o)
        if o is None:
            if self.np and type(other).__module__.startswith("staircase"):
                # numpy: object-array comparison unless the other side asks for deference
                cls = type(other)
                if getattr(cls, "_sx_defer", False):
                    # an extension array: reached by numpy with a 0-d array
                    return getattr(other, refl)(SymNum.zero_dim(self))
                if getattr(cls, "__array_ufunc__", 0) is None or \
                        getattr(cls, "__array_priority__", -1000000.0) > -1000000.0:
                    return NotImplemented
                r = getattr(other, refl)(self)
                if r is NotImplemented:
                    return r
                r = r if isinstance(r, SymBool) else bool(r)
                return SymBool(r.b if isinstance(r, SymBool) else r, True)
            return NotImplemented
        if not self.np and (o.np and (o.kind == "i" or self.kind == "i") or self.kind == "i" and o.kind == "f"):
            return NotImplemented  # as float.__eq__(numpy.int64): python then asks the other side
        return SymBool(f(self, o), self.np or o.np)

    def __lt__(self, o):
        return self._cmp(o, SymNum._lt, "__gt__")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: b._lt(a), "__lt__")

    def __le__(self, o):
        return self._cmp(o, SymNum._le, "__ge__")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: b._le(a), "__le__")

    def __eq__(self, o):
        return self._cmp(o, SymNum._eq)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: b_not(a._eq(b)), "__ne__")

    def __hash__(self):
        if ENG is None and not is_sym(self.r):
            return hash(self.r)
        return 0

    def __bool__(self):
        return bool(SymBool(b_or(self.nan, self.pinf, self.ninf, b_not(r_eq(self.r, 0)))))

    # -- conversions
    def concretize(self):
        """branch over the possible concrete values"""
        if not is_sym(self.r):
            return self.r
        e = ENG
        memo = e.__dict__.setdefault("_conc_memo", {})
        for i in range(64):
            # deterministic across re-executions: the candidate tried at a trail position
            # is remembered
            k = (e.pos, self.r.get_id(), i)
            v = memo.get(k)
            if v is None:
                if e.model is None:
                    r, m = e._check()
                    if m is None:
                        raise Unsupported("cannot concretize")
                    e.model = m
                v = e.model.eval(self.r, model_completion=True)
                if not z3.is_rational_value(v):
                    raise Unsupported("concretize irrational")
                v = norm(v.as_fraction())
                memo[k] = v
                e.keep.append(self.r)
            if e.branch(self.r == rz(v)):
                return v
        raise Unsupported("too many values to concretize")

    def _noninf(self):
        if SymBool(self.nan):
            raise ValueError("cannot convert float NaN to integer")
        if SymBool(self.isinf()):
            raise OverflowError("cannot convert float infinity to integer")

    def __index__(self):
        if self.kind != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(self.concretize())

    def __int__(self):
        self._noninf()
        return int(self.concretize())

    def __float__(self):
        if self.is_concrete():
            if self.nan:
                return NAN
            if self.pinf:
                return float("inf")
            if self.ninf:
                return float("-inf")
            return float(self.r)
        raise Unsupported("float() of a symbolic number in unmodelled code")

    def __floor__(self):
        self._noninf()
        return SymNum(r_floor(self.r), kind="i", np=False)

    def __ceil__(self):
        self._noninf()
        return SymNum(r_neg(r_floor(r_neg(self.r))), kind="i", np=False)

    def __trunc__(self):
        self._noninf()
        if known(r_isint(self.r)) is True:
            return self.with_(kind="i", np=False)
        fl = r_floor(self.r)
        ce = r_neg(r_floor(r_neg(self.r)))
        return SymNum(r_ite(r_lt(self.r, 0), ce, fl), kind="i", np=False)

    def __round__(self, nd=None):
        if not self.is_concrete() or self.nan or self.pinf or self.ninf:
            raise Unsupported("round")
        return self.with_(r=norm(round(Fraction(self.r), nd or 0)))

    # numpy scalar API
    @property
    def dtype(self):
        from . import npshim

        return npshim.float64_dt if self.kind == "f" else npshim.int64_dt

    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self.with_(np=False)

    def astype(self, t):
        from . import npshim

        return npshim.scalar_astype(self, t)

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    mean = min = max = sum

    @property
    def real(self):
        return self

    def is_integer(self):
        return SymBool(b_and(self.isfinite(), r_eq(self.r, r_floor(self.r))), False)

    def __repr__(self):
        if self.is_concrete():
            return repr(float(self)) if self.kind == "f" else repr(int(self.r))
        return "Sym(%s|nan=%s)" % (self.r, self.nan)

    def __format__(self, spec):
        if self.is_concrete():
            return format(float(self) if self.kind == "f" else int(self.r), spec)
        return repr(self)


def sqrt(x):
    """square root through a fresh non-negative symbol (memoised per path and term)"""
    n = x.np
    if not is_sym(x.r):
        if x.nan is True:
            return SymNum(0, nan=True, np=n)
        v = Fraction(x.r)
        if v >= 0:
            p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if p * p == v.numerator and q * q == v.denominator:
                return SymNum(norm(Fraction(p, q)), nan=x.nan, np=n)
        else:
            return SymNum(0, nan=True, np=n)
    e = ENG
    if e is None:
        return SymNum(norm(Fraction(math.sqrt(x.r))), nan=x.nan, np=n)
    memo = e.__dict__.setdefault("_sqrt_memo", {})
    if e.pos == 0 or memo.get("path") is not e.facts:
        memo.clear()
        memo["path"] = e.facts
    t = z3.simplify(rz(x.r), som=True)
    k = t.get_id()
    if k not in memo:
        s = e.fresh("sqrt")
        e.keep.append(t)
        e.side(z3.And(s >= 0, z3.Implies(rz(x.r) >= 0, s * s == rz(x.r))))
        memo[k] = s
    s = memo[k]
    neg = r_lt(x.r, 0)
    return SymNum(s, nan=b_or(x.nan, neg), np=n)


def ite_num(c, a, b):
    """non-branching selection between two numbers"""
    if isinstance(c, SymBool):
        c = c.b
    k = known(c)
    if k is not None:
        return a if k else b
    a, b = SymNum.of(a), SymNum.of(b)
    return SymNum(
        r_ite(c, a.r, b.r), nan=b_ite(c, a.nan, b.nan), pinf=b_ite(c, a.pinf, b.pinf),
        ninf=b_ite(c, a.ninf, b.ninf),
        kind="i" if a.kind == b.kind == "i" else "f", np=a.np or b.np)
