"""Path exploration: the code under test runs on CPython with symbolic values; every truth test on
a symbolic value asks the SMT solver which outcomes are feasible, and one run follows one of them.
The remaining outcomes are queued as decision prefixes and explored by re-execution."""
import time
import types
import z3
from . import ival


class PathEnd(BaseException):
    """The current path is finished (infeasible, or cut by a stated bound)."""


class Unsupported(BaseException):
    """The engine cannot encode an operation the code performed."""


class Budget(BaseException):
    pass


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported('symbolic value used outside an exploration')
    return CTX


class CS:
    """Guard: character variable `key` (z3 Int `expr`) lies in an interval set."""
    __slots__ = ('key', 'expr', 'iv', '_z')

    def __init__(self, key, expr, iv):
        self.key = key
        self.expr = expr
        self.iv = iv
        self._z = None

    def z(self):
        if self._z is None:
            self._z = iv_z3(self.expr, self.iv)
        return self._z


_IVZ = {}


def iv_z3(e, iv):
    """Membership of an integer term in an interval set, memoised (terms outlive paths)."""
    k = (e.decl().name() if z3.is_const(e) else e.sexpr(), iv)
    r = _IVZ.get(k)
    if r is None:
        if len(_IVZ) > 200000:
            _IVZ.clear()
        r = _IVZ[k] = _iv_z3(e, iv)
    return r


def _iv_z3(e, iv):
    if not iv:
        return z3.BoolVal(False)
    terms = []
    for lo, hi in iv:
        if lo == hi:
            terms.append(e == lo)
        elif lo == 0:
            terms.append(e <= hi)
        elif hi == ival.MAXC:
            terms.append(e >= lo)
        else:
            terms.append(z3.And(e >= lo, e <= hi))
    return terms[0] if len(terms) == 1 else z3.Or(terms)


def gz(g):
    """z3 form of a guard."""
    if g is True:
        return z3.BoolVal(True)
    if g is False:
        return z3.BoolVal(False)
    return g.z() if isinstance(g, CS) else g


def gor(gs):
    """Disjunction of guards; guards on one character merge into one interval set."""
    cs = {}
    rest = []
    for g in gs:
        if g is True:
            return True
        if g is False:
            continue
        if isinstance(g, CS):
            if g.key in cs:
                cs[g.key][1].append(g.iv)
            else:
                cs[g.key] = (g.expr, [g.iv])
        else:
            rest.append(g)
    out = []
    for k, (e, ivs) in cs.items():
        out.append(CS(k, e, ivs[0] if len(ivs) == 1 else ival.norm([p for iv in ivs for p in iv])))
    out += rest
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or([gz(g) for g in out])


def gand(gs):
    out = []
    cs = {}
    for g in gs:
        if g is False:
            return False
        if g is True:
            continue
        if isinstance(g, CS):
            if g.key in cs:
                cs[g.key] = CS(g.key, g.expr, ival.inter(cs[g.key].iv, g.iv))
                if not cs[g.key].iv:
                    return False
            else:
                cs[g.key] = g
        else:
            out.append(g)
    out = list(cs.values()) + out
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And([gz(g) for g in out])


def gnot(g):
    if g is True:
        return False
    if g is False:
        return True
    if isinstance(g, CS):
        return CS(g.key, g.expr, ival.compl(g.iv))
    return z3.Not(g)


class Ctx:
    def __init__(self, prefix, ex):
        self.prefix = prefix
        self.ex = ex
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.query_ms)
        self.dom = {}          # character variable -> interval set known on this path
        self.vars = {}         # recorded inputs: name -> evaluator(model)
        self.model = None
        self.fresh_n = 0
        self.expanded = 0      # holes expanded on this path
        self.notes = []
        self.failed = False

    # -- solver ------------------------------------------------------------------------------
    def assume_z(self, e):
        self.solver.add(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def sat(self, *assumptions):
        """'sat' / 'unsat' / 'unknown' for path condition + assumptions; keeps a model."""
        t = time.time()
        r = self.solver.check(*assumptions)
        st = self.ex.stats
        st['queries'] += 1
        st['solver_s'] += time.time() - t
        if time.time() > self.ex.deadline.value:
            raise Budget()
        if r == z3.sat:
            self.last_model = self.solver.model()
            return 'sat'
        if r == z3.unsat:
            st['unsat'] += 1
            return 'unsat'
        st['unknown'] += 1
        return 'unknown'

    def assume(self, g):
        """Add a guard to the path condition (no feasibility check)."""
        if g is True:
            return
        if g is False:
            raise PathEnd()
        if isinstance(g, CS):
            d = ival.inter(self.dom.get(g.key, ival.ALL), g.iv)
            if not d:
                raise PathEnd()
            self.dom[g.key] = d
        self.assume_z(gz(g))

    def branch(self, g):
        """Decide a guard: returns the outcome this path takes."""
        if g is True or g is False:
            return g
        if isinstance(g, CS):
            d = self.dom.get(g.key, ival.ALL)
            i = ival.inter(d, g.iv)
            if not i:
                return False
            if i == d:
                return True
            z = CS(g.key, g.expr, i).z()
            neg = CS(g.key, g.expr, ival.minus(d, i))
        else:
            g = z3.simplify(g)
            if z3.is_true(g):
                return True
            if z3.is_false(g):
                return False
            z = g
            neg = z3.Not(g)
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.model = None
        else:
            if self.ex.stats['decisions'] >= self.ex.max_decisions:
                raise Budget()
            t_ok = f_ok = None
            if self.model is not None:
                v = self.model.eval(z, model_completion=True)
                if z3.is_true(v):
                    t_ok = True
                elif z3.is_false(v):
                    f_ok = True
            mt = mf = self.model
            if t_ok is None:
                r = self.sat(z)
                t_ok = r != 'unsat'
                mt = self.last_model if r == 'sat' else None
            if f_ok is None:
                if not t_ok:
                    f_ok = True
                    mf = None
                else:
                    r = self.sat(gz(neg))
                    f_ok = r != 'unsat'
                    mf = self.last_model if r == 'sat' else None
            if t_ok and f_ok:
                self.ex.push(self.trace + [0])
                self.ex.stats['forks'] += 1
                d = 1
            else:
                d = 1 if t_ok else 0
            self.model = mt if d else mf
        self.trace.append(d)
        self.ex.stats['decisions'] += 1
        if isinstance(g, CS):
            c = CS(g.key, g.expr, i) if d else neg
            self.dom[g.key] = c.iv
            self.solver.add(c.z())
        else:
            self.solver.add(z if d else neg)
        return bool(d)

    def replaying(self):
        return len(self.trace) < len(self.prefix)

    def get_model(self):
        if self.model is None:
            r = self.sat()
            if r == 'unsat':
                raise PathEnd()
            if r == 'unknown':
                return None
            self.model = self.last_model
        return self.model

    def fresh(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)


class SymBool:
    __slots__ = ('g',)

    def __init__(self, g):
        self.g = g

    def __bool__(self):
        return ctx().branch(self.g)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(gz(self.g) == gz(o.g))
        if o is True or o is False or o == 0 or o == 1:
            return mkbool(self.g if o else gnot(self.g))
        return False

    def __ne__(self, o):
        return lnot(self == o)

    def __hash__(self):
        return id(self)

    def __and__(self, o):
        return mkbool(gand([self.g, guard(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(gor([self.g, guard(o)]))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(gz(self.g), gz(guard(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(gnot(self.g))

    def __int__(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return int(self)

    def as_int(self):
        return SymInt(z3.If(gz(self.g), z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __repr__(self):
        return 'SymBool(%s)' % (self.g,)


def mkbool(g):
    if g is True or g is False:
        return g
    if isinstance(g, CS):
        if CTX is not None:
            d = CTX.dom.get(g.key, ival.ALL)
            i = ival.inter(d, g.iv)
            if not i:
                return False
            if i == d:
                return True
        return SymBool(g)
    g = z3.simplify(g)
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return False
    return SymBool(g)


def guard(b):
    if isinstance(b, SymBool):
        return b.g
    return bool(b)


def lnot(b):
    if isinstance(b, SymBool):
        return mkbool(gnot(b.g))
    return not b


def land(*bs):
    return mkbool(gand([guard(b) for b in bs]))


def lor(*bs):
    return mkbool(gor([guard(b) for b in bs]))


def implies(a, b):
    return lor(lnot(a), b)


def iz(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return x.as_int().e
    return z3.IntVal(int(x))


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


class SymInt:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _ok(o):
        return isinstance(o, (SymInt, SymBool, int))

    def _cmp(self, o, f):
        if not self._ok(o):
            return NotImplemented
        return mkbool(f(self.e, iz(o)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b) if self._ok(o) else False

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b) if self._ok(o) else True

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def _bin(self, o, f):
        if not self._ok(o):
            return NotImplemented
        return mkint(f(self.e, iz(o)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.e % o)
        return int(self) % o

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.e / o)
        return int(self) // o

    def __neg__(self): return mkint(-self.e)
    def __abs__(self): return mkint(z3.If(self.e < 0, -self.e, self.e))
    def __bool__(self): return ctx().branch(self.e != 0)
    def __hash__(self): return id(self)
    def __index__(self): return concretize_int(self.e)
    def __int__(self): return concretize_int(self.e)
    def __str__(self): return str(int(self))
    def __repr__(self): return 'SymInt(%s)' % self.e
    def __format__(self, spec): return format(int(self), spec)


def concretize_int(e):
    """Fork over the feasible values of an integer term, one solver-given value at a time."""
    c = ctx()
    while True:
        if c.replaying():
            # the value is re-derived from the recorded path: ask for the same sequence
            pass
        v = c.ex.int_choice(c, e)
        if c.branch(e == v):
            return v


class Explorer:
    def __init__(self, fn, deadline, query_ms=20000, max_paths=200000, max_decisions=5000000):
        self.fn = fn
        self.work = [[]]
        self.deadline = deadline if hasattr(deadline, 'value') else types.SimpleNamespace(value=deadline)
        self.query_ms = query_ms
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.stats = dict(paths=0, decisions=0, forks=0, queries=0, unsat=0, unknown=0, solver_s=0.0,
                          proved=0, refuted=0, cuts=0, checks=0)
        self.cut_reasons = {}
        self.unsupported = {}
        self.values = {}

    def push(self, prefix):
        self.work.append(prefix)

    def int_choice(self, c, e):
        """A value for `e`; the same on every re-execution of the same decision prefix."""
        k = (tuple(c.trace), e.sexpr())
        if k not in self.values:
            m = c.get_model()
            if m is None:
                raise Unsupported('no model to concretise ' + str(e))
            self.values[k] = m.eval(e, model_completion=True).as_long()
        return self.values[k]

    def cut(self, reason):
        self.stats['cuts'] += 1
        self.cut_reasons[reason] = self.cut_reasons.get(reason, 0) + 1

    def run(self, on_path):
        """on_path(ctx, outcome) is called at the end of each complete path."""
        global CTX
        while self.work:
            if self.stats['paths'] >= self.max_paths or time.time() > self.deadline.value:
                raise Budget()
            c = Ctx(self.work.pop(), self)
            CTX = c
            try:
                try:
                    out = ('done', self.fn(c))
                except PathEnd:
                    out = ('end', None)
                except Unsupported as e:
                    out = ('unsupported', str(e))
                    self.unsupported[str(e)] = self.unsupported.get(str(e), 0) + 1
                except Budget:
                    raise
                except RecursionError as e:
                    out = ('error', e)
                except Exception as e:
                    out = ('error', e)
                self.stats['paths'] += 1
                on_path(c, out)
            finally:
                CTX = None
