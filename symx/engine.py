"""symx: symbolic execution of real Python code by proxy values, decided by z3.

A SymNum is an affine form  sum_i coef_i * atom_i + c  with exact rational coefficients over solver atoms
(integer or real solver variables, or non-linear solver terms).  Floats are modelled as exact reals (a Python float
literal stands for the decimal number that it prints as).  A comparison yields a SymBool; asking for its truth value
makes the explorer ask z3 which outcomes are possible on the current path and forks when both are.
"""
import sys, os, time, math, hashlib, traceback
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from fractions import Fraction as Fr
import numpy as np
import z3

NAN = float('nan')


class PathAbort(BaseException):
    """control flow of the explorer; must not be swallowed (a dead flag backs it up)"""


class Infeasible(PathAbort):
    pass


class Unsupported(Exception):
    pass


_ctx = None


def ctx():
    return _ctx


class Atom:
    __slots__ = ('id', 'z', 'isint', 'lo', 'hi', 'name')

    def __init__(self, id, z, isint, lo=None, hi=None, name=None):
        self.id = id; self.z = z; self.isint = isint
        self.lo = lo; self.hi = hi; self.name = name


def frac(x):
    """exact rational of a concrete number, None if not finite"""
    if isinstance(x, (bool, np.bool_)):
        return Fr(int(x))
    if isinstance(x, (int, np.integer)):
        return Fr(int(x))
    if isinstance(x, Fr):
        return x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if not math.isfinite(x):
            return None
        if x == int(x) and abs(x) < 1e15:
            return Fr(int(x))
        return Fr(repr(x))
    raise TypeError(type(x))


def is_number(x):
    return isinstance(x, (int, float, np.integer, np.floating, bool, np.bool_, Fr)) and type(x) is not SymNum


def is_sym(x):
    return type(x) in (SymNum, SymBool)


class Stats:
    def __init__(self):
        self.queries = 0; self.solver_time = 0.0; self.unknown = 0
        self.paths = 0; self.forks = 0; self.decisions = 0; self.checks = 0; self.checks_unknown = 0
        self.infeasible = 0; self.concretised = 0; self.unsupported = 0; self.assertions_discharged = 0
        self.incomplete = False

    def merge(self, o):
        for k, v in o.__dict__.items():
            if isinstance(v, bool):
                setattr(self, k, getattr(self, k, False) or v)
            else:
                setattr(self, k, getattr(self, k, 0) + v)


class Failure:
    def __init__(self, msg, inputs, kind='assert', detail=''):
        self.msg = msg; self.inputs = inputs; self.kind = kind; self.detail = detail


class Context:
    """One path."""

    def __init__(self, prefix, stats, timeout_ms=10000):
        self.prefix = prefix; self.pos = 0; self.trail = []; self.pending = []
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms); self.timeout_ms = timeout_ms
        self.atoms = []
        self.inputs = {}          # name -> SymNum or concrete
        self.choices = {}
        self.known = {}
        self.memo = {}
        self.model = None
        self.dead = False
        self.notes = []           # incompleteness notes
        self.failures = []
        self.reached = []
        self.tokens = []
        self.chars = []
        self.observed = []
        self.tolerance_notes = set()
        self.nonlinear = False
        self.ufinfo = {}
        self.monos = {}; self.factors = {}; self.sqrt_arg = {}; self.lazy = {}

    # ---- atoms
    def new_atom(self, name, isint, lo=None, hi=None, z=None):
        if z is None:
            nm = '%s!%d' % (name, len(self.atoms))
            z = z3.Int(nm) if isint else z3.Real(nm)
            fresh = True
        else:
            fresh = False
        a = Atom(len(self.atoms), z, isint, lo, hi, name)
        self.atoms.append(a)
        if fresh:
            if lo is not None:
                self.add_raw(z >= z3q(lo, isint))
            if hi is not None:
                self.add_raw(z <= z3q(hi, isint))
        return a

    def monomial(self, i, j):
        """atom standing for the product of two atoms"""
        fi = self.factors.get(i, (i,)); fj = self.factors.get(j, (j,))
        f = tuple(sorted(fi + fj))
        a = self.monos.get(f)
        if a is None:
            self.nonlinear = True
            lo = hi = Fr(1)
            for k in f:
                A = self.atoms[k]
                if A.lo is None or A.hi is None:
                    lo = hi = None
                    break
                ps = [lo * A.lo, lo * A.hi, hi * A.lo, hi * A.hi]
                lo, hi = min(ps), max(ps)
            if all(f.count(k) % 2 == 0 for k in f):
                lo = max(Fr(0), lo) if lo is not None else Fr(0)
            isint = all(self.atoms[k].isint for k in f)
            z = self.atoms[f[0]].z
            if not isint and self.atoms[f[0]].isint:
                z = z3.ToReal(z)
            for k in f[1:]:
                w = self.atoms[k].z
                z = z * (z3.ToReal(w) if self.atoms[k].isint and not isint else w)
            a = self.new_atom('mono', isint, lo, hi, z=z)
            self.monos[f] = a
            self.factors[a.id] = f
        return a.id

    def add_raw(self, e):
        self.solver.add(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def check_sat(self, *extra):
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.last = self.solver
        self.stats.solver_time += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def sat_with(self, e):
        """is path & e satisfiable; keeps the model when sat"""
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(e, model_completion=True)):
                    return z3.sat, self.model
            except z3.Z3Exception:
                pass
        r = self.check_sat(e)
        return r, (self.last.model() if r == z3.sat else None)

    # ---- decisions
    def decide(self, b):
        """truth value of a SymBool on this path (forks)"""
        if self.dead:
            raise PathAbort('dead path')
        self.stats.decisions += 1
        v = b.quick()
        if v is not None:
            return v
        k = b.key()
        if k in self.known:
            return self.known[k]
        e = b.z()
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != 'd':
                self.die('nondeterministic replay')
            self.pos += 1
            self.trail.append((kind, val))
            self.add_raw(e if val else z3.Not(e))
            self.learn(b, k, val)
            return val
        rt, mt = self.sat_with(e)
        rf, mf = self.sat_with(z3.Not(e))
        if rt == z3.unsat and rf == z3.unsat:
            self.stats.infeasible += 1
            self.die('infeasible', Infeasible)
        if rt == z3.unsat:
            val = False
        elif rf == z3.unsat:
            val = True
        else:
            val = True
            self.stats.forks += 1
            self.pending.append(self.trail + [('d', False)])
        self.trail.append(('d', val))
        self.solver.add(e if val else z3.Not(e))
        self.model = mt if val else mf
        self.learn(b, k, val)
        return val

    def learn(self, b, k, val):
        self.known[k] = val
        b.learn(self, val)

    def die(self, msg, cls=PathAbort):
        self.dead = True
        raise cls(msg)

    def choose(self, name, n):
        """non-deterministic choice among range(n)"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != 'c':
                self.die('nondeterministic replay')
            self.pos += 1
        else:
            val = 0
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trail + [('c', k)])
            self.stats.forks += n - 1
        self.trail.append(('c', val))
        return val

    def pick_value(self, x):
        """a feasible concrete value of a SymNum (recorded so that re-execution is deterministic)"""
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != 'v':
                self.die('nondeterministic replay')
            self.pos += 1
        else:
            m = self.get_model()
            val = modelval(m, x.z())
        self.trail.append(('v', val))
        return val

    def recorded(self, f):
        """outcome of a solver question, recorded so that re-execution is deterministic"""
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != 'r':
                self.die('nondeterministic replay')
            self.pos += 1
        else:
            val = f()
        self.trail.append(('r', val))
        return val

    def get_model(self):
        if self.model is None:
            r = self.check_sat()
            if r == z3.unsat:
                self.stats.infeasible += 1
                self.die('infeasible', Infeasible)
            if r != z3.sat:
                self.die('unknown', Infeasible)
            self.model = self.last.model()
        return self.model

    def concretize(self, x, why='float', enumerate_ok=True, limit=260):
        """a concrete Fraction for x; complete when the feasible values are enumerated by forking"""
        q = x.constant()
        if q is not None:
            return q
        if x.is_integral() and enumerate_ok:
            lo, hi = x.interval()
            if lo is not None and hi is not None and hi - lo <= limit:
                for _ in range(limit + 2):
                    v = self.pick_value(x)
                    if self.decide(SymBool.cmp('eq', x - v)):
                        return v
            # the interval is loose: do the path's constraints bound the values?
            for _ in range(4 * limit):
                v = self.pick_value(x)
                if not self.recorded(lambda: self.check_sat(z3.Or(x.z() > z3q(v + limit, True), x.z() < z3q(v - limit, True))) == z3.unsat):
                    break
                if self.decide(SymBool.cmp('eq', x - v)):
                    return v
        # unbounded: is the value unique on this path?
        v = self.pick_value(x)
        e = x.z() == z3q(v, x.is_integral_sort())
        if self.pos >= len(self.prefix):
            r = self.check_sat(z3.Not(e))
            if r != z3.unsat:
                self.stats.concretised += 1
                self.note('value concretised (%s)' % why)
        self.add_raw(e)
        return v

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def assume(self, cond):
        if cond is True or (isinstance(cond, (bool, np.bool_)) and bool(cond)):
            return
        if isinstance(cond, (bool, np.bool_)):
            self.die('assumption false', Infeasible)
        v = cond.quick()
        if v is True:
            return
        if v is False:
            self.die('assumption false', Infeasible)
        e = cond.z()
        r, m = self.sat_with(e)
        if r == z3.unsat:
            self.stats.infeasible += 1
            self.die('assumption infeasible', Infeasible)
        self.solver.add(e)
        self.model = m
        self.known[cond.key()] = True
        cond.learn(self, True)

    def check(self, cond, msg):
        """assert cond for every value of the path"""
        if self.dead:
            raise PathAbort('dead path')
        self.stats.checks += 1
        if isinstance(cond, SymBool):
            v = cond.quick()
            if v is None:
                v = self.known.get(cond.key())
        else:
            v = bool(cond)
        if v is True:
            self.stats.assertions_discharged += 1
            return True
        if v is False:
            m = self.get_model()
            self.failures.append(Failure(msg, self.model_inputs(m)))
            return False
        e = cond.z()
        r, m = self.sat_with(z3.Not(e))
        if r == z3.sat:
            self.failures.append(Failure(msg, self.model_inputs(m)))
            # alternative counterexamples (a float replay may not reproduce the first one)
            return False
        if r == z3.unknown:
            self.stats.checks_unknown += 1
            self.note('solver gave no answer for: ' + msg)
            return True
        self.stats.assertions_discharged += 1
        self.known[cond.key()] = True
        return True

    def model_inputs(self, m):
        out = {}
        for name, x in self.inputs.items():
            if type(x) is SymNum:
                out[name] = modelval(m, x.z())
            elif type(x) is SymBool:
                out[name] = bool(z3.is_true(m.eval(x.z(), model_completion=True)))
            else:
                out[name] = x
        return out

    def diverse_model(self, rnd, limit=1.5):
        """a model of this path whose inputs are, one after the other where possible, random values of their range"""
        t0 = time.time()
        chosen = []
        m = None
        xs = [x for x in self.inputs.values() if type(x) is SymNum and len(x.t) == 1]
        rnd.shuffle(xs)
        self.solver.set('timeout', 400)
        try:
            for x in xs:
                if time.time() - t0 > limit:
                    break
                (i, q), = x.t.items()
                a = self.atoms[i]
                if a.lo is None or a.hi is None or a.lo == a.hi:
                    continue
                if a.isint:
                    lo, hi = math.ceil(a.lo), math.floor(a.hi)
                    v = Fr(max(lo, min(hi, rnd.choice([rnd.randint(lo, hi), lo + rnd.randint(0, 7), hi - rnd.randint(0, 7)]))))
                else:
                    v = a.lo + (a.hi - a.lo) * Fr(rnd.randint(0, 1000), 1000)
                e = a.z == z3q(v, a.isint)
                if self.solver.check(*chosen, e) == z3.sat:
                    m = self.solver.model()
                    chosen.append(e)
        except z3.Z3Exception:
            m = None
        finally:
            self.solver.set('timeout', self.timeout_ms)
        return m

    def more_models(self, cond, n):
        """further counterexamples, preferring different input values"""
        res = []
        self.solver.push()
        try:
            if cond is not None:
                self.solver.add(z3.Not(cond.z()))
            xs = [x for x in self.inputs.values() if type(x) is SymNum and x.constant() is None]
            for _ in range(n):
                r = self.check_sat()
                if r != z3.sat:
                    break
                m = self.last.model()
                res.append(self.model_inputs(m))
                blocks = [x.z() != m.eval(x.z(), model_completion=True) for x in xs]
                if not blocks:
                    break
                self.solver.add(z3.And(*blocks) if len(blocks) < 40 else z3.Or(*blocks))
        finally:
            self.solver.pop()
        return res


def z3q(v, isint=False):
    v = Fr(v)
    if isint and v.denominator == 1:
        return z3.IntVal(int(v))
    if v.denominator == 1:
        return z3.RealVal(int(v))
    return z3.Q(v.numerator, v.denominator)


def modelval(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return Fr(v.as_long())
    if z3.is_rational_value(v):
        return Fr(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fr(a.numerator_as_long(), a.denominator_as_long())
    return Fr(0)


# --------------------------------------------------------------------------------------------------
class SymNum:
    """affine form; py is 'i' or 'f' (the Python type that it stands for)"""
    __slots__ = ('t', 'c', 'py', '_z', '_h')

    def __init__(self, t, c, py):
        self.t = t; self.c = c; self.py = py; self._z = None; self._h = None

    # make isinstance(x, int)/isinstance(x, float) answer like the modelled type
    @property
    def __class__(self):
        return int if self.py == 'i' else float

    @staticmethod
    def atom(a, py=None):
        return SymNum({a.id: Fr(1)}, Fr(0), py or ('i' if a.isint else 'f'))

    @staticmethod
    def const(v, py='f'):
        return SymNum({}, Fr(v), py)

    def constant(self):
        return self.c if not self.t else None

    def is_integral_sort(self):
        A = _ctx.atoms
        return self.c.denominator == 1 and all(A[i].isint and q.denominator == 1 for i, q in self.t.items())

    is_integral = is_integral_sort

    def z(self):
        if self._z is None:
            A = _ctx.atoms
            if _ctx.lazy:
                for i in self.t:
                    for j in _ctx.factors.get(i, (i,)):
                        if j in _ctx.lazy:
                            _ctx.add_raw(_ctx.lazy.pop(j))
            if self.is_integral_sort():
                parts = []
                for i, q in sorted(self.t.items()):
                    parts.append(A[i].z if q == 1 else z3.IntVal(int(q)) * A[i].z)
                if self.c != 0 or not parts:
                    parts.append(z3.IntVal(int(self.c)))
            else:
                parts = []
                for i, q in sorted(self.t.items()):
                    az = z3.ToReal(A[i].z) if A[i].isint else A[i].z
                    parts.append(az if q == 1 else z3q(q) * az)
                if self.c != 0 or not parts:
                    parts.append(z3q(self.c))
            self._z = parts[0] if len(parts) == 1 else z3.Sum(parts)
        return self._z

    def interval(self):
        A = _ctx.atoms
        lo = hi = self.c
        for i, q in self.t.items():
            a = A[i]
            l, h = (a.lo, a.hi) if q > 0 else (a.hi, a.lo)
            lo = None if (lo is None or l is None) else lo + q * l
            hi = None if (hi is None or h is None) else hi + q * h
            if lo is None and hi is None:
                break
        return lo, hi

    # ---- arithmetic
    @staticmethod
    def lift(o):
        """(sym, special): sym a SymNum, special a non-finite float"""
        if type(o) is SymNum:
            return o, None
        if type(o) is SymBool:
            return SymNum.const(int(bool(o)), 'i'), None
        if is_number(o):
            q = frac(o)
            if q is None:
                return None, float(o)
            return SymNum({}, q, 'i' if isinstance(o, (int, np.integer, bool, np.bool_)) else 'f'), None
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return SymNum.lift(o.item())
        return None, None

    def _lin(self, o, ks, ko):
        py = 'i' if (self.py == 'i' and o.py == 'i') else 'f'
        t = dict(self.t) if ks == 1 else {i: q * ks for i, q in self.t.items()}
        for i, q in o.t.items():
            v = t.get(i, 0) + q * ko
            if v == 0:
                t.pop(i, None)
            else:
                t[i] = v
        return SymNum(t, self.c * ks + o.c * ko, py)

    def __add__(self, o):
        s, sp = SymNum.lift(o)
        if s is None:
            return sp if sp is not None else NotImplemented
        return self._lin(s, 1, 1)
    __radd__ = __add__

    def __sub__(self, o):
        s, sp = SymNum.lift(o)
        if s is None:
            return -sp if sp is not None else NotImplemented
        return self._lin(s, 1, -1)

    def __rsub__(self, o):
        s, sp = SymNum.lift(o)
        if s is None:
            return sp if sp is not None else NotImplemented
        return s._lin(self, 1, -1)

    def __neg__(self):
        return SymNum({i: -q for i, q in self.t.items()}, -self.c, self.py)

    def __pos__(self):
        return self

    def __abs__(self):
        lo, hi = self.interval()
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi <= 0:
            return -self
        if self >= 0:
            return self
        return -self

    def scale(self, q, py):
        if q == 0:
            return SymNum({}, Fr(0), py)
        return SymNum({i: k * q for i, k in self.t.items()}, self.c * q, py)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)) and type(o) is not SymNum:
            return o * self.__index__()
        s, sp = SymNum.lift(o)
        if s is None:
            if sp is None:
                return NotImplemented
            if math.isnan(sp):
                return NAN
            if self == 0:
                return NAN
            return sp if self > 0 else -sp
        py = 'i' if (self.py == 'i' and s.py == 'i') else 'f'
        if not s.t:
            return self.scale(s.c, py)
        if not self.t:
            return s.scale(self.c, py)
        # non-linear: expand small products into monomials
        C = _ctx
        if len(self.t) * len(s.t) <= 12:
            cc = self.c * s.c
            t = {}
            for i, x in self.t.items():
                t[i] = t.get(i, 0) + x * s.c
            for i, x in s.t.items():
                t[i] = t.get(i, 0) + x * self.c
            for i, x in self.t.items():
                for j, y in s.t.items():
                    if i == j and i in C.sqrt_arg:
                        q = C.sqrt_arg[i]
                        for k, z in q.t.items():
                            t[k] = t.get(k, 0) + x * y * z
                        cc += q.c * x * y
                        continue
                    m = C.monomial(i, j)
                    t[m] = t.get(m, 0) + x * y
            return SymNum({i: x for i, x in t.items() if x}, cc, py)
        ka = tuple(sorted(self.t.items())) + (self.c,)
        kb = tuple(sorted(s.t.items())) + (s.c,)
        key = ('mul',) + ((ka, kb) if ka <= kb else (kb, ka))
        a = C.memo.get(key)
        if a is None:
            C.nonlinear = True
            l1, h1 = self.interval(); l2, h2 = s.interval()
            lo = hi = None
            if None not in (l1, h1, l2, h2):
                ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
                lo, hi = min(ps), max(ps)
            if ka == kb:
                lo = max(Fr(0), lo) if lo is not None else Fr(0)
            isint = self.is_integral_sort() and s.is_integral_sort()
            a = C.new_atom('mul', isint, lo, hi, z=self.z() * s.z())
            C.memo[key] = a
        return SymNum.atom(a, py)
    __rmul__ = __mul__

    def __truediv__(self, o):
        s, sp = SymNum.lift(o)
        if s is None:
            if sp is None:
                return NotImplemented
            return NAN if math.isnan(sp) else SymNum.const(0)
        if not s.t:
            if s.c == 0:
                raise ZeroDivisionError('division by zero')
            return self.scale(1 / s.c, 'f')
        if bool(s == 0):
            raise ZeroDivisionError('division by zero')
        C = _ctx
        key = ('div', self.key(), s.key())
        a = C.memo.get(key)
        if a is None:
            C.nonlinear = True
            # q * s == self
            zs = z3.ToReal(s.z()) if s.is_integral_sort() else s.z()
            zx = z3.ToReal(self.z()) if self.is_integral_sort() else self.z()
            a = C.new_atom('quot', False)
            C.add_raw(a.z * zs == zx)
            C.memo[key] = a
        return SymNum.atom(a, 'f')

    def __rtruediv__(self, o):
        s, sp = SymNum.lift(o)
        if s is None:
            if sp is None:
                return NotImplemented
            if math.isnan(sp):
                return NAN
            return sp if self > 0 else -sp
        return s.__truediv__(self)

    def key(self):
        return (tuple(sorted(self.t.items())), self.c)

    def _floor_int(self):
        """floor as an integral SymNum"""
        if self.is_integral():
            return SymNum(self.t, self.c, 'i')
        # split off the integral part
        C = _ctx
        A = C.atoms
        ti = {}; tr = {}
        for i, q in self.t.items():
            if A[i].isint and q.denominator == 1:
                ti[i] = q
            else:
                tr[i] = q
        ci = Fr(math.floor(self.c)); cr = self.c - ci
        rest = SymNum(tr, cr, 'f')
        if not tr:
            return SymNum(ti, ci, 'i')
        key = ('floor', rest.key())
        a = C.memo.get(key)
        if a is None:
            lo, hi = rest.interval()
            a = C.new_atom('fl', True, Fr(math.floor(lo)) if lo is not None else None,
                           Fr(math.floor(hi)) if hi is not None else None)
            # scaled: d*q <= d*rest < d*q + d
            d = 1
            for q in list(tr.values()) + [cr]:
                d = d * q.denominator // math.gcd(d, q.denominator)
            sc = rest.scale(Fr(d), 'f')
            z = sc.z()
            if sc.is_integral_sort():
                C.add_raw(z3.IntVal(d) * a.z <= z)
                C.add_raw(z < z3.IntVal(d) * a.z + z3.IntVal(d))
            else:
                az = z3.ToReal(a.z) * z3q(d)
                C.add_raw(az <= z)
                C.add_raw(z < az + z3q(d))
            C.memo[key] = a
        ti = dict(ti); ti[a.id] = ti.get(a.id, 0) + 1
        if ti[a.id] == 0: del ti[a.id]
        return SymNum(ti, ci, 'i')

    def __floordiv__(self, o):
        s, sp = SymNum.lift(o)
        if s is None:
            if sp is None:
                return NotImplemented
            if math.isnan(sp):
                return NAN
            return 0.0 if (self >= 0) == (sp > 0) else -1.0
        py = 'i' if (self.py == 'i' and s.py == 'i') else 'f'
        if s.t:
            r = self / s
        else:
            if s.c == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            r = self.scale(1 / s.c, 'f')
        r = r._floor_int()
        return SymNum(r.t, r.c, py)

    def __rfloordiv__(self, o):
        s, sp = SymNum.lift(o)
        if s is None:
            return NotImplemented if sp is None else NAN
        return s.__floordiv__(self)

    def __mod__(self, o):
        s, sp = SymNum.lift(o)
        if s is None:
            return NotImplemented if sp is None else NAN
        r = self - (self // s) * s
        return SymNum(r.t, r.c, 'i' if (self.py == 'i' and s.py == 'i') else 'f')

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        s, sp = SymNum.lift(o)
        if s is None:
            return NotImplemented if sp is None else NAN
        return s.__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        s, sp = SymNum.lift(o)
        if s is None or s.t:
            if s is not None and self.constant() is not None and False:
                pass
            return _uf('pow', self, s)
        n = s.c
        if n == Fr(1, 2):
            return self.sqrt()
        if n.denominator != 1:
            return _uf('pow', self, s)
        n = int(n)
        if n < 0:
            return 1 / (self ** (-n))
        r = SymNum.const(1, self.py)
        for _ in range(n):
            r = r * self
        if s.py == 'f':
            r = SymNum(r.t, r.c, 'f') if type(r) is SymNum else r
        return r

    def __rpow__(self, o):
        s, sp = SymNum.lift(o)
        return _uf('pow', s, self)

    def sqrt(self):
        C = _ctx
        q = self.constant()
        if q is not None:
            return math.sqrt(q) if q >= 0 else NAN
        key = ('sqrt', self.key())
        a = C.memo.get(key)
        if a is None:
            if not (self >= 0):
                return NAN
            C.nonlinear = True
            lo, hi = self.interval()
            a = C.new_atom('sqrt', False, Fr(0), None)
            C.sqrt_arg[a.id] = self
            C.lazy[a.id] = a.z * a.z == (z3.ToReal(self.z()) if self.is_integral_sort() else self.z())
            C.memo[key] = a
        return SymNum.atom(a, 'f')

    def log10(self):
        return _uf('log10', self)

    def log(self):
        return _uf('log', self)

    def exp(self):
        return _uf('exp', self)

    def cos(self):
        return _uf('cos', self)

    def sin(self):
        return _uf('sin', self)

    def arctan2(self, o):
        return _uf('arctan2', self, SymNum.lift(o)[0])

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    # numpy scalar-like
    def item(self):
        return self

    def astype(self, dt, *a, **k):
        from . import shims
        return shims.cast(self, dt)

    @property
    def dtype(self):
        return np.dtype('int64') if self.py == 'i' else np.dtype('float64')

    def copy(self):
        return self

    # ---- comparisons
    def _cmp(self, o, op):
        s, sp = SymNum.lift(o)
        if s is None:
            if sp is None:
                if op == 'eq':
                    return False if (o is None or isinstance(o, (str, bytes, list, tuple, dict))) else NotImplemented
                if op == 'ne':
                    return True if (o is None or isinstance(o, (str, bytes, list, tuple, dict))) else NotImplemented
                return NotImplemented
            x = 0.0
            return {'lt': x < sp, 'le': x <= sp, 'gt': x > sp, 'ge': x >= sp, 'eq': False, 'ne': True}[op]
        d = self._lin(s, 1, -1)
        if op == 'lt':
            return SymBool.cmp('lt', d)
        if op == 'le':
            return SymBool.cmp('le', d)
        if op == 'gt':
            return SymBool.cmp('lt', -d)
        if op == 'ge':
            return SymBool.cmp('le', -d)
        if op == 'eq':
            return SymBool.cmp('eq', d)
        r = SymBool.cmp('eq', d)
        return ~r if type(r) is SymBool else not r

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne')

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        q = _ctx.concretize(self, 'hash') if _ctx is not None else Fr(0)
        return hash(q)

    # ---- conversions
    def __int__(self):
        q = _ctx.concretize(_trunc(self), 'int()')
        return int(q)

    def __index__(self):
        if self.py != 'i':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(_ctx.concretize(self, 'index'))

    def __float__(self):
        return float(_ctx.concretize(self, 'float()'))

    def __complex__(self):
        return complex(float(self))

    def __floor__(self):
        return self._floor_int()

    def __ceil__(self):
        return -((-self)._floor_int())

    def __trunc__(self):
        return _trunc(self)

    def __round__(self, nd=None):
        r = sym_round(self, nd or 0)
        if nd is None:
            return SymNum(r.t, r.c, 'i')
        return SymNum(r.t, r.c, self.py)

    def is_integer(self):
        return self == self._floor_int()

    def bit_length(self):
        return int(self).bit_length()

    # numpy object-ufunc hooks
    def floor(self):
        return SymNum(*_tc(self._floor_int()), self.py)

    def ceil(self):
        return SymNum(*_tc(-((-self)._floor_int())), self.py)

    def trunc(self):
        return SymNum(*_tc(_trunc(self)), self.py)

    def rint(self):
        return SymNum(*_tc(sym_round(self, 0)), self.py)

    def round(self, nd=0):
        return SymNum(*_tc(sym_round(self, nd)), self.py)

    def isnan(self):
        return False

    def __and__(self, o):
        return self._bits(o, '&')
    __rand__ = __and__

    def _bits(self, o, op):
        if is_number(o) and op == '&':
            n = int(o) + 1
            if n > 0 and n & (n - 1) == 0:
                return self % n
        return int(self) & int(o)

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    # ---- text: a token that stands for the value
    def __format__(self, spec):
        C = _ctx
        q = self.constant()
        if q is not None:
            v = int(q) if self.py == 'i' else float(q)
            return format(v, spec)
        return make_token(self, spec)

    def __str__(self):
        return self.__format__('')

    def __repr__(self):
        if _ctx is None:
            return '<sym>'
        return self.__format__('')

    def __reduce__(self):
        return (_unpickle, ())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _unpickle():
    raise Unsupported('pickled symbolic value')


def _tc(s):
    return s.t, s.c


TOK_L, TOK_R = '\x01', '\x02'


def make_token(x, spec=''):
    C = _ctx
    k = ('tok', x.key())
    n = C.memo.get(k)
    if n is None:
        n = len(C.tokens)
        C.tokens.append(x)
        C.memo[k] = n
    return '%s%d%s%s' % (TOK_L, n, (':' + spec) if spec else '', TOK_R)


def _trunc(x):
    if x.is_integral():
        return SymNum(x.t, x.c, 'i')
    lo, hi = x.interval()
    if (lo is not None and lo >= 0) or bool(x >= 0):
        return x._floor_int()
    return -((-x)._floor_int())


def sym_round(x, nd=0):
    """round half to even at nd decimals"""
    nd = int(nd)
    k = Fr(10) ** nd
    s = x.scale(k, 'f')
    if s.is_integral():
        return x
    # integral part of the form can be left out only when ties are impossible; keep it simple
    C = _ctx
    A = C.atoms
    key = ('round', s.key())
    a = C.memo.get(key)
    if a is None:
        lo, hi = s.interval()
        a = C.new_atom('rnd', True, Fr(math.floor(lo)) if lo is not None else None,
                       Fr(math.ceil(hi)) if hi is not None else None)
        d = 1
        for q in list(s.t.values()) + [s.c]:
            d = d * q.denominator // math.gcd(d, q.denominator)
        sc = s.scale(Fr(2 * d), 'f')    # 2d*s
        z = sc.z()
        if sc.is_integral_sort():
            az = z3.IntVal(2 * d) * a.z
            D = z3.IntVal(d)
        else:
            az = z3q(2 * d) * z3.ToReal(a.z)
            D = z3q(d)
        C.add_raw(z - az <= D)
        C.add_raw(az - z <= D)
        # ties go to even
        tie_possible = True
        if sc.is_integral_sort() and d % 2 == 1:
            # 2d*s = +-d mod 2d impossible only if all coefficients of 2d*s are even and d is odd
            if all(int(q) % 2 == 0 for q in list(sc.t.values()) + [sc.c]):
                tie_possible = False
        if tie_possible:
            C.add_raw(z3.Implies(z3.Or(z - az == D, az - z == D), a.z % 2 == 0))
        C.memo[key] = a
    return SymNum({a.id: 1 / k}, Fr(0), x.py)


_ufs = {}


def _uf(name, *args):
    """uninterpreted function over reals (same arguments, same value)"""
    C = _ctx
    if all(a.constant() is not None for a in args):
        vals = [float(a.c) for a in args]
        f = {'pow': lambda a, b: a ** b, 'log10': math.log10, 'log': math.log, 'exp': math.exp, 'cos': math.cos,
             'sin': math.sin, 'arctan2': math.atan2}[name]
        try:
            return f(*vals)
        except (ValueError, OverflowError):
            return NAN
    key = ('uf', name) + tuple(a.key() for a in args)
    a = C.memo.get(key)
    if a is None:
        fn = _ufs.get((name, len(args)))
        if fn is None:
            fn = z3.Function('uf_' + name, *([z3.RealSort()] * (len(args) + 1)))
            _ufs[(name, len(args))] = fn
        zs = [z3.ToReal(x.z()) if x.is_integral_sort() else x.z() for x in args]
        lo = hi = None
        if name in ('cos', 'sin'):
            lo, hi = Fr(-1), Fr(1)
        elif name == 'arctan2':
            lo, hi = Fr('-3.1416'), Fr('3.1416')
        elif name == 'exp' or name == 'pow' and args[0].constant() is not None and args[0].constant() > 0:
            lo = Fr(1, 10 ** 300)            # positive, as long as it does not underflow
        a = C.new_atom('uf_' + name, False, lo, hi, z=fn(*zs))
        C.ufinfo[a.id] = (name, args)
        C.nonlinear = True
        C.memo[key] = a
    return SymNum.atom(a, 'f')


# --------------------------------------------------------------------------------------------------
def _sqrt_cmp(op, l, i):
    """k*sqrt(v) + R (op) 0 without the square root (v >= 0 is known)"""
    C = _ctx
    k = l.t[i]
    v = C.sqrt_arg[i]
    R = SymNum({j: q for j, q in l.t.items() if j != i}, l.c, 'f')
    d = R * R - v * (k * k)             # R^2 - k^2 v
    def zb(x):
        return z3.BoolVal(bool(x)) if isinstance(x, (bool, np.bool_)) else x.z()
    if op == 'eq':
        return z3.And(zb(R <= 0 if k > 0 else R >= 0), zb(d == 0))
    if k > 0:                            # sqrt part < -R
        return z3.And(zb(R < 0 if op == 'lt' else R <= 0), zb(d > 0 if op == 'lt' else d >= 0))
    return z3.Or(zb(R < 0), zb(d < 0)) if op == 'lt' else z3.Or(zb(R <= 0), zb(d <= 0))


class SymBool:
    __slots__ = ('op', 'a', 'b', '_z', '_k')

    def __init__(self, op, a, b=None):
        self.op = op; self.a = a; self.b = b; self._z = None; self._k = None

    @property
    def __class__(self):
        return bool

    @staticmethod
    def cmp(op, lin):
        q = lin.constant()
        if q is not None:
            return (q < 0) if op == 'lt' else (q <= 0) if op == 'le' else (q == 0)
        return SymBool(op, lin)

    def quick(self):
        """decided by intervals?"""
        op = self.op
        if op in ('lt', 'le', 'eq'):
            lo, hi = self.a.interval()
            if op == 'lt':
                if hi is not None and hi < 0: return True
                if lo is not None and lo >= 0: return False
            elif op == 'le':
                if hi is not None and hi <= 0: return True
                if lo is not None and lo > 0: return False
            else:
                if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
                if lo is not None and lo == hi == 0: return True
                # parity style integrality test
                if self.a.c.denominator != 1 and all(q.denominator == 1 and _ctx.atoms[i].isint
                                                     for i, q in self.a.t.items()):
                    return False
            k = _ctx.known.get(self.key())
            return k
        if op == 'not':
            v = self.a.quick()
            return None if v is None else not v
        if op == 'and':
            va, vb = _q(self.a), _q(self.b)
            if va is False or vb is False: return False
            if va is True and vb is True: return True
            return None
        if op == 'or':
            va, vb = _q(self.a), _q(self.b)
            if va is True or vb is True: return True
            if va is False and vb is False: return False
            return None
        return None

    def key(self):
        if self._k is None:
            op = self.op
            if op in ('lt', 'le', 'eq'):
                l = self.a
                items = sorted(l.t.items())
                s = abs(items[0][1])
                if op == 'eq' and items[0][1] < 0:
                    s = -s
                self._k = (op, tuple((i, q / s) for i, q in items), l.c / s)
            elif op == 'z':
                self._k = ('z', self.a.get_id())
            else:
                self._k = (op, _key(self.a)) + ((_key(self.b),) if self.b is not None else ())
        return self._k

    def z(self):
        if self._z is None:
            op = self.op
            if op in ('lt', 'le', 'eq'):
                l = self.a
                sq = [i for i in l.t if i in _ctx.sqrt_arg]
                if len(sq) == 1:
                    self._z = _sqrt_cmp(op, l, sq[0])
                    return self._z
                d = 1
                for q in list(l.t.values()) + [l.c]:
                    d = d * q.denominator // math.gcd(d, q.denominator)
                e = l.scale(Fr(d), l.py) if d != 1 else l
                ze = e.z()
                zero = z3.IntVal(0) if e.is_integral_sort() else z3.RealVal(0)
                self._z = (ze < zero) if op == 'lt' else (ze <= zero) if op == 'le' else (ze == zero)
            elif op == 'not':
                self._z = z3.Not(_zb(self.a))
            elif op == 'and':
                self._z = z3.And(_zb(self.a), _zb(self.b))
            elif op == 'or':
                self._z = z3.Or(_zb(self.a), _zb(self.b))
            elif op == 'z':
                self._z = self.a
        return self._z

    def learn(self, C, val):
        """propagate what a decision teaches (complements, single-atom bounds)"""
        op = self.op
        if op == 'not':
            if type(self.a) is SymBool:
                C.known[self.a.key()] = not val
                self.a.learn(C, not val)
            return
        if op == 'and' and val:
            for x in (self.a, self.b):
                if type(x) is SymBool:
                    C.known[x.key()] = True; x.learn(C, True)
            return
        if op == 'or' and not val:
            for x in (self.a, self.b):
                if type(x) is SymBool:
                    C.known[x.key()] = False; x.learn(C, False)
            return
        if op in ('lt', 'le'):
            comp = SymBool('le' if op == 'lt' else 'lt', -self.a)
            C.known[comp.key()] = not val
            if len(self.a.t) == 1:
                (i, q), = self.a.t.items()
                at = C.atoms[i]
                # q*x + c  (<|<=) 0   or its negation
                l, strict = (self.a, op == 'lt') if val else (-self.a, op == 'le')
                (i, q), = l.t.items()
                bnd = -l.c / q
                if q > 0:      # x < / <= bnd
                    if at.isint:
                        bnd = Fr(math.ceil(bnd) - 1) if strict else Fr(math.floor(bnd))
                    if at.hi is None or bnd < at.hi:
                        at.hi = bnd
                else:          # x > / >= bnd
                    if at.isint:
                        bnd = Fr(math.floor(bnd) + 1) if strict else Fr(math.ceil(bnd))
                    if at.lo is None or bnd > at.lo:
                        at.lo = bnd
        elif op == 'eq' and val and len(self.a.t) == 1:
            (i, q), = self.a.t.items()
            at = C.atoms[i]
            at.lo = at.hi = -self.a.c / q

    def __bool__(self):
        return _ctx.decide(self)

    def __invert__(self):
        if self.op == 'not':
            return self.a
        if self.op == 'lt':
            return SymBool('le', -self.a)
        if self.op == 'le':
            return SymBool('lt', -self.a)
        return SymBool('not', self)

    def __and__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = _asb(o)
        if o is True: return self
        if o is False: return False
        return SymBool('and', self, o)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = _asb(o)
        if o is True: return True
        if o is False: return self
        return SymBool('or', self, o)
    __ror__ = __or__

    def __xor__(self, o):
        o = _asb(o)
        if o is True: return ~self
        if o is False: return self
        return SymBool('z', z3.Xor(self.z(), o.z()))
    __rxor__ = __xor__

    def __eq__(self, o):
        o2 = _asb(o)
        if o2 is NotImplemented: return NotImplemented
        if o2 is True: return self
        if o2 is False: return ~self
        return SymBool('z', self.z() == o2.z())

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented: return r
        return ~r if type(r) is SymBool else not r

    def __hash__(self):
        return hash(bool(self))

    def _n(self):
        return 1 if bool(self) else 0

    def __int__(self): return self._n()
    def __index__(self): return self._n()
    def __float__(self): return float(self._n())
    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __neg__(self): return -self._n()
    def __truediv__(self, o): return self._n() / o
    def __lt__(self, o): return self._n() < o
    def __le__(self, o): return self._n() <= o
    def __gt__(self, o): return self._n() > o
    def __ge__(self, o): return self._n() >= o
    def __repr__(self): return '<symbool>'

    def __str__(self): return str(bool(self))
    def logical_not(self): return ~self
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def _q(x):
    return x.quick() if type(x) is SymBool else bool(x)


def _key(x):
    return x.key() if type(x) is SymBool else bool(x)


def _zb(x):
    return x.z() if type(x) is SymBool else z3.BoolVal(bool(x))


def _asb(o):
    if type(o) is SymBool:
        return o
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return _asb(o.item())
    if is_number(o):
        return bool(o)
    return NotImplemented


# ---- helpers for oracles: no forking
def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    r = True
    for x in xs:
        if type(x) is not SymBool:
            if not bool(x):
                return False
            continue
        r = x if r is True else SymBool('and', r, x)
    return r


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    r = False
    for x in xs:
        if type(x) is not SymBool:
            if bool(x):
                return True
            continue
        r = x if r is False else SymBool('or', r, x)
    return r


def Not(x):
    return ~x if type(x) is SymBool else (not bool(x))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if type(a) is SymBool:
        return a == b
    if type(b) is SymBool:
        return b == a
    return bool(a) == bool(b)


def Abs(x):
    """|x| without forking"""
    if type(x) is SymNum:
        lo, hi = x.interval()
        if lo is not None and lo >= 0: return x
        if hi is not None and hi <= 0: return -x
        C = _ctx
        k = ('abs', x.key())
        a = C.memo.get(k)
        if a is None:
            z = x.z()
            isint = x.is_integral_sort()
            a = C.new_atom('abs', isint, Fr(0), None)
            C.add_raw(z3.Or(a.z == z, a.z == -z))
            C.memo[k] = a
        return SymNum.atom(a, x.py)
    return abs(x)


def AbsLe(x, b):
    """|x| <= b"""
    return And(x <= b, -x <= b)


def Ite(c, a, b):
    if type(c) is not SymBool:
        return a if c else b
    C = _ctx
    sa, _ = SymNum.lift(a); sb, _ = SymNum.lift(b)
    isint = sa.is_integral_sort() and sb.is_integral_sort()
    za = sa.z() if isint or not sa.is_integral_sort() else z3.ToReal(sa.z())
    zb = sb.z() if isint or not sb.is_integral_sort() else z3.ToReal(sb.z())
    la, ha = sa.interval(); lb, hb = sb.interval()
    lo = None if (la is None or lb is None) else min(la, lb)
    hi = None if (ha is None or hb is None) else max(ha, hb)
    at = C.new_atom('ite', isint, lo, hi)
    C.add_raw(at.z == z3.If(c.z(), za, zb))
    return SymNum.atom(at, 'i' if (sa.py == 'i' and sb.py == 'i') else 'f')


def sym_eq(a, b):
    """equality as a formula or bool, no forking; nan equals nan"""
    if type(a) in (SymNum, SymBool):
        r = a == b
        return False if r is NotImplemented else r
    if type(b) in (SymNum, SymBool):
        r = b == a
        return False if r is NotImplemented else r
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b


# --------------------------------------------------------------------------------------------------
class IO:
    """interface between a harness and the explorer (symbolic) or the replayer (concrete)"""
    symbolic = True

    def __init__(self, C, case):
        self.C = C; self.case = case

    def _reg(self, name, v):
        assert name not in self.C.inputs, name
        self.C.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, py='i'):
        if lo is not None and lo == hi:
            self._reg(name, Fr(lo))
            return int(lo) if py == 'i' else float(lo)
        a = self.C.new_atom(name, True, None if lo is None else Fr(lo), None if hi is None else Fr(hi))
        return self._reg(name, SymNum.atom(a, py))

    def grid(self, name, lo, hi, denom):
        """a float on the grid k/denom, lo <= k <= hi"""
        a = self.C.new_atom(name, True, Fr(lo), Fr(hi))
        x = SymNum({a.id: Fr(1, denom)}, Fr(0), 'f')
        return self._reg(name, x)

    def real(self, name, lo=None, hi=None):
        a = self.C.new_atom(name, False, None if lo is None else frac(lo), None if hi is None else frac(hi))
        return self._reg(name, SymNum.atom(a, 'f'))

    def choice(self, name, options):
        k = self.C.choose(name, len(options))
        self._reg(name, k)
        return options[k]

    def bool(self, name):
        return self.choice(name, [False, True])

    def assume(self, cond):
        self.C.assume(cond)

    def check(self, cond, msg):
        return self.C.check(cond, msg)

    def reach(self, label):
        self.C.reached.append(label)

    def observe(self, label, v):
        self.C.observed.append((label, v))

    def free(self, name, lo=None, hi=None, isint=False):
        """an unconstrained internal value (not an input of the replay)"""
        a = self.C.new_atom(name, isint, None if lo is None else frac(lo), None if hi is None else frac(hi))
        return SymNum.atom(a, 'i' if isint else 'f')


class Misfit(Exception):
    """the harness does not fit the code (a function it stands in for is gone)"""


class AssumeFailed(Exception):
    pass


class CIO:
    """concrete replay"""
    symbolic = False

    def __init__(self, inputs, case):
        self.inputs = inputs; self.case = case; self.failures = []; self.reached = []; self.observed = []

    def _get(self, name):
        v = self.inputs.get(name, 0)
        if isinstance(v, str):
            v = Fr(v)
        return v

    def int(self, name, lo=None, hi=None, py='i'):
        v = int(self._get(name))
        return v if py == 'i' else float(v)

    def grid(self, name, lo, hi, denom):
        return float(Fr(self._get(name)))

    def real(self, name, lo=None, hi=None):
        return float(Fr(self._get(name)))

    def choice(self, name, options):
        return options[int(self._get(name))]

    def bool(self, name):
        return bool(int(self._get(name)))

    def assume(self, cond):
        if not bool(cond):
            raise AssumeFailed()

    def check(self, cond, msg):
        if not bool(cond):
            self.failures.append(msg)
            return False
        return True

    def reach(self, label):
        self.reached.append(label)

    def observe(self, label, v):
        self.observed.append((label, v))


class ReplayResult:
    pass


def replay(harness, inputs, case, env=None):
    """run the harness on plain values with the unmodified libraries"""
    global _ctx
    saved = _ctx
    _ctx = None
    io = CIO(inputs, case)
    r = ReplayResult()
    r.error = None; r.vacuous = False; r.harness_error = None
    try:
        harness(io)
    except AssumeFailed:
        r.vacuous = True
    except Exception as e:
        r.error = ''.join(traceback.format_exception_only(type(e), e)).strip()
        r.trace = traceback.format_exc()
        fr = traceback.extract_tb(e.__traceback__)[-1]
        if isinstance(e, Misfit) or os.sep + 'checks' + os.sep in fr.filename and isinstance(e, (AttributeError, NameError, TypeError)):
            r.harness_error = r.error        # the harness does not fit the code (e.g. a renamed function): no verdict
            r.error = None
    finally:
        _ctx = saved
    r.failures = io.failures; r.reached = io.reached; r.observed = io.observed
    return r


def evaluate(C, v, m):
    if type(v) is SymNum:
        return modelval(m, v.z())
    if type(v) is SymBool:
        return bool(z3.is_true(m.eval(v.z(), model_completion=True)))
    if isinstance(v, (list, tuple)):
        return [evaluate(C, x, m) for x in v]
    return v


def explore(harness, case, env, stats, max_paths=100000, deadline=None, on_path=None, timeout_ms=10000):
    """depth-first exploration of all feasible paths of harness(io)"""
    global _ctx
    stack = [[]]
    while stack:
        if stats.paths >= max_paths or (deadline is not None and time.time() > deadline):
            stats.incomplete = True
            break
        prefix = stack.pop()
        C = Context(prefix, stats, timeout_ms)
        _ctx = C
        err = None
        try:
            with env():
                harness(IO(C, case))
        except PathAbort as e:
            err = None
            C.dead = True
            C.abort = str(e)
            if not isinstance(e, Infeasible):
                C.note('path aborted: %s' % e)
        except RecursionError as e:
            err = e
        except Exception as e:
            err = e
            C.err_trace = traceback.format_exc()
        finally:
            pass
        stack.extend(C.pending)
        C.error = err
        try:
            if not C.dead or C.failures:
                stats.paths += 1
            stop = on_path(C) if on_path else False
        finally:
            _ctx = None
        if stop:
            break
    _ctx = None
    return stats
