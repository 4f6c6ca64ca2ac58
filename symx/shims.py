"""Execution environment for symx: instrumented copies of the current /repo modules, numpy/pandas semantics for
symbolic values, and (in obs.py) obspy time stamps.

load('core') parses /repo/gemlog/core.py as it is now, rewrites every call f(...) into __sx_call(f, ...) and executes the
result as module sxgemlog.core.  __sx_call passes plain values straight through; for arguments that contain symbolic
values it substitutes the semantics of the few C-implemented functions that cannot take proxy values.
"""
import ast, os, sys, types, math, builtins, contextlib, importlib, tempfile, shutil
from fractions import Fraction as Fr
import numpy as np
import pandas as pd
from . import engine as E
from . import strs
from .engine import SymNum, SymBool, is_sym, is_number, NAN, PathAbort, Unsupported, And, Or, Not

REPO = os.environ.get('GEMLOG_REPO', '/repo')
PKG = 'sxgemlog'

# ------------------------------------------------------------------------------------------ predicates
def has_sym(x, depth=0):
    t = type(x)
    if t is SymNum or t is SymBool:
        return True
    if t in (str, bytes, float, int, bool, type(None)):
        return False
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        for v in x.ravel():
            tv = type(v)
            if tv is SymNum or tv is SymBool:
                return True
        return False
    if t in (list, tuple):
        if depth > 4:
            return False
        return any(has_sym(v, depth + 1) for v in x)
    if t is dict:
        return any(has_sym(v, depth + 1) for v in x.values())
    if isinstance(x, pd.Series):
        return x.dtype == object and has_sym(np.asarray(x.values))
    if isinstance(x, pd.Index):
        return x.dtype == object and has_sym(np.asarray(x.values))
    if isinstance(x, pd.DataFrame):
        return any(has_sym(x.iloc[:, i]) for i in range(x.shape[1]))
    return False


def isobj(x):
    return isinstance(x, (np.ndarray, pd.Series)) and x.dtype == object


def asobj(x):
    """object ndarray"""
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (pd.Series, pd.Index, pd.DataFrame)):
        v = x.values
        v = np.asarray(v)
        return v if v.dtype == object else v.astype(object)
    if isinstance(x, (list, tuple)):
        return nparray(x)
    if isinstance(x, (map, filter, zip, range)) or hasattr(x, '__next__'):
        return nparray(list(x))
    a = np.empty((), object)
    a[()] = x
    return a


def nparray(x):
    """np.array(x, dtype=object) that never looks into proxy values"""
    def shape(v):
        if isinstance(v, np.ndarray):
            return v.shape
        if isinstance(v, (pd.Series, pd.DataFrame, pd.Index)):
            return v.shape
        if type(v) in (list, tuple) or isinstance(v, range):
            if len(v) == 0:
                return (0,)
            ss = [shape(w) for w in v]
            if all(s == ss[0] for s in ss):
                return (len(v),) + ss[0]
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        return ()
    s = shape(x)
    out = np.empty(s, object)

    def fill(v, idx):
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                out[idx] = v.item()
            else:
                for j in range(v.shape[0]):
                    fill(v[j], idx + (j,))
            return
        if isinstance(v, (pd.Series, pd.DataFrame, pd.Index)):
            fill(np.asarray(v.values), idx); return
        if type(v) in (list, tuple) or isinstance(v, range):
            for j, w in enumerate(v):
                fill(w, idx + (j,))
            return
        out[idx] = v
    fill(x, ())
    return out


def demote(x):
    """an object array of plain numbers as a numeric one"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        vals = x.ravel().tolist()
        if vals and all(isinstance(v, (bool, np.bool_)) for v in vals):
            return x.astype(bool)
        if all(is_number(v) for v in vals):
            if vals and all(isinstance(v, (int, np.integer)) for v in vals):
                try:
                    return x.astype(np.int64)
                except OverflowError:
                    return x
            return x.astype(float)
        return x
    if isinstance(x, pd.Series) and x.dtype == object:
        v = demote(np.asarray(x.values))
        if v.dtype != object:
            return pd.Series(v, index=x.index, name=x.name)
        return x
    if type(x) is SymNum and x.constant() is not None:
        return int(x.c) if x.py == 'i' else float(x.c)
    return x


def rewrap(out, like):
    if isinstance(like, pd.Series):
        return pd.Series(out, index=like.index, name=like.name)
    if isinstance(like, pd.DataFrame):
        return pd.DataFrame(out, index=like.index, columns=like.columns)
    if isinstance(out, np.ndarray) and out.ndim == 0:
        return out.item() if out.dtype == object else out[()]
    return out


def isnum(x):
    return type(x) is SymNum or type(x) is SymBool or is_number(x)


def isnanv(x):
    if is_sym(x):
        return False
    try:
        return isinstance(x, (float, np.floating)) and x != x
    except Exception:
        return False


def scal(x):
    """plain python scalar of a numpy scalar / 0-d array"""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    if isinstance(x, np.generic):
        return x.item()
    return x


def boolarr(o):
    a = np.empty(o.shape, bool)
    for i, v in np.ndenumerate(o):
        a[i] = bool(v)
    return a


# ------------------------------------------------------------------------------------------ scalar semantics
def from_token(s):
    """the symbolic value that a piece of text stands for, or None"""
    C = E._ctx
    if C is None or not isinstance(s, str):
        return None
    s = s.strip()
    neg = False
    if s.startswith('-') and s[1:2] == E.TOK_L:
        neg = True; s = s[1:]
    if s.startswith('+') and s[1:2] == E.TOK_L:
        s = s[1:]
    if s.startswith(E.TOK_L) and s.endswith(E.TOK_R) and s.count(E.TOK_L) == 1:
        body = s[1:-1]
        n, _, spec = body.partition(':')
        v = C.tokens[int(n)]
        if spec:
            v = apply_spec(v, spec)
        return -v if neg else v
    if C.chars and strs.pua(s):
        return strs.tonum(s)
    return None


def apply_spec(v, spec):
    """numeric value of the text that v formats to"""
    import re
    m = re.fullmatch(r'[ 0-9+<>=]*?(?:\.(\d+))?([dfgeEs]?)', spec)
    if not m:
        raise Unsupported('format spec ' + spec)
    p, c = m.group(1), m.group(2)
    if c == 'f' and p is not None:
        return E.sym_round(v, int(p))
    if c == 'f':
        return E.sym_round(v, 6)
    if c in ('d', '', 's') and p is None:
        return v
    raise Unsupported('format spec ' + spec)


def sx_int(x=0, *a, **k):
    x = scal(x)
    if type(x) is SymNum:
        r = E._trunc(x)
        return SymNum(r.t, r.c, 'i')
    if isinstance(x, str):
        v = from_token(x)
        if v is not None:
            if v.py != 'i' and not bool(v == E._trunc(v)):
                raise ValueError("invalid literal for int() with base 10")
            if v.py != 'i':
                raise ValueError("invalid literal for int() with base 10")
            return v
        h = STR_INT.get('hook')
        if h is not None:
            r = h(x)
            if r is not None:
                return r
    if isinstance(x, pd.Series) and len(x) == 1:
        return sx_int(x.iloc[0])
    if isinstance(x, np.ndarray) and x.size == 1:
        return sx_int(x.ravel()[0])
    if hasattr(x, '__sx_float__'):
        return sx_int(x.__sx_float__())
    return int(x, *a, **k)


STR_INT = {}


def sx_float(x=0.0):
    x = scal(x)
    if type(x) is SymNum:
        return SymNum(x.t, x.c, 'f')
    if isinstance(x, str):
        v = from_token(x)
        if v is not None:
            return SymNum(v.t, v.c, 'f')
    if isinstance(x, pd.Series) and len(x) == 1:
        return sx_float(x.iloc[0])
    if isinstance(x, np.ndarray) and x.size == 1:
        return sx_float(x.ravel()[0])
    if hasattr(x, '__sx_float__'):
        return x.__sx_float__()
    return float(x)


def sx_round(x, nd=None):
    if type(x) is SymNum:
        return x.__round__(nd)
    if hasattr(x, 'dtype') and has_sym(x):
        return np_round(x, nd or 0)
    return round(x, nd) if nd is not None else round(x)


def sx_print(*a, **k):
    return None


def sx_str(x='', *a, **k):
    return str(x, *a, **k)


def sx_minmax(which):
    orig = builtins.min if which == 'min' else builtins.max

    def g(*a, **k):
        if k or len(a) == 0:
            return orig(*a, **k)
        items = list(a[0]) if len(a) == 1 else list(a)
        if not has_sym(items) or any(not (isnum(v)) for v in items):
            return orig(items) if len(a) == 1 else orig(*a)
        r = items[0]
        for v in items[1:]:
            c = (v < r) if which == 'min' else (v > r)
            if bool(c):
                r = v
        return r
    return g


def sx_sum(x, start=0):
    r = start
    for v in x:
        r = r + v
    return r


def sx_map(f, *its):
    return map(wrapfn(f), *its)


def wrapfn(f):
    if f is int:
        return sx_int
    if f is float:
        return sx_float
    if f is round:
        return sx_round
    try:
        o = OV.get(f)
    except TypeError:
        o = None
    if o is not None:
        return lambda *a, **k: sx_call(f, *a, **k)
    return f


KINDS_INT = 'iu'


def narrow_int(r, dt):
    """a symbolic integer stored in an integer type of limited width: it wraps around"""
    if dt.itemsize >= 8 and dt.kind == 'i':
        return r
    i = np.iinfo(dt)
    lo, hi = r.interval()
    if lo is not None and hi is not None and lo >= int(i.min) and hi <= int(i.max):
        return r
    if bool(And(r >= int(i.min), r <= int(i.max))):
        return r
    n = 2 ** (8 * dt.itemsize)
    return (r - int(i.min)) % n + int(i.min)


def narrow_float(r, dt):
    """a symbolic number stored in a float of 32 (16) bits"""
    if dt.itemsize >= 8:
        return r
    bits = 24 if dt.itemsize == 4 else 11
    if r.py == 'i' or r.is_integral_sort():
        for k in range(0, 40):
            if bool(And(r <= 2 ** (bits + k), r >= -2 ** (bits + k))):
                if k == 0:
                    return r
                return sx_float(E.sym_round(r / 2 ** k, 0) * 2 ** k)
        return r
    e = SymNum.atom(E._ctx.new_atom('f%d' % (8 * dt.itemsize), False, Fr(-1), Fr(1)))
    return r + r * e / 2 ** bits


class IntArr(np.ndarray):
    """object array standing for one of a type that holds whole numbers (or short floats): what is stored is converted"""
    _dt = None

    def __setitem__(self, k, v):
        if self._dt is not None and E._ctx is not None:
            if isinstance(v, (np.ndarray, pd.Series, list, tuple)):
                w = asobj(v)
                o = np.empty(w.shape, object)
                for i, x in np.ndenumerate(w):
                    o[i] = cast(scal(x), self._dt)
                v = o
            elif not isinstance(v, str):
                v = cast(scal(v), self._dt)
        np.ndarray.__setitem__(self, k, v)

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, k)
        if isinstance(r, IntArr):
            r._dt = self._dt
        return r

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, a, context=None, return_scalar=False):
        a = np.asarray(a)
        return a[()] if return_scalar and a.ndim == 0 else a.view(np.ndarray)


def cast(x, dt):
    """elementwise numpy/pandas cast of one value"""
    if dt is int:
        kind = 'i'
    elif dt is float:
        kind = 'f'
    elif dt is bool:
        kind = 'b'
    elif dt is str:
        kind = 'U'
    else:
        try:
            kind = np.dtype(dt).kind
        except TypeError:
            kind = 'O'
    if kind in 'iu':
        if isnanv(x):
            raise ValueError('cannot convert float NaN to integer')
        r = sx_int(x) if is_sym(x) or not isinstance(x, (float, np.floating)) or math.isfinite(x) else int(x)
        return narrow_int(r, np.dtype(dt)) if type(r) is SymNum else r
    if kind == 'f':
        r = sx_float(x) if x is not None else NAN
        return narrow_float(r, np.dtype(dt)) if type(r) is SymNum else r
    if kind == 'b':
        return bool(x)
    if kind in 'U':
        return str(x)
    return x


# ------------------------------------------------------------------------------------------ numpy semantics
OV = {}        # real function object -> replacement (called with the same arguments when symbolic values are around)
CTORS = {}     # array constructors: always replaced while a path runs


def ov(*fs):
    def d(g):
        for f in fs:
            if f is not None:
                OV[f] = g
        return g
    return d


def ew1(fn, boolean=False):
    def g(x, *a, **k):
        out_kw = k.pop('out', None)
        where = k.pop('where', True)
        arr = asobj(x)
        out = np.empty(arr.shape, object)
        for i, v in np.ndenumerate(arr):
            out[i] = fn(scal(v), *a)
        if boolean:
            out = boolarr(out)
        return rewrap(out, x)
    return g


def ew2(fn, boolean=False):
    def g(x, y, *a, **k):
        k.pop('out', None); k.pop('where', None)
        bx, by = asobj(x), asobj(y)
        bx, by = np.broadcast_arrays(bx, by)
        out = np.empty(bx.shape, object)
        for i, v in np.ndenumerate(bx):
            out[i] = fn(scal(v), scal(by[i]), *a)
        if boolean:
            out = boolarr(out)
        return rewrap(out, x if isinstance(x, (pd.Series, pd.DataFrame)) else y)
    return g


def _meth(name):
    def f(v):
        if is_sym(v):
            return getattr(v if type(v) is SymNum else SymNum.lift(v)[0], name)()
        return getattr(np, {'sqrt': 'sqrt', 'log10': 'log10', 'log': 'log', 'exp': 'exp', 'sin': 'sin', 'cos': 'cos',
                            'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'rint': 'rint'}[name])(v)
    return f


for _n in ('sqrt', 'log10', 'log', 'exp', 'sin', 'cos', 'floor', 'ceil', 'trunc', 'rint'):
    OV[getattr(np, _n)] = ew1(_meth(_n))
OV[np.fix] = OV[np.trunc]
OV[math.floor] = lambda x: x._floor_int() if type(x) is SymNum else math.floor(x)
OV[math.ceil] = lambda x: x.__ceil__() if type(x) is SymNum else math.ceil(x)
OV[math.trunc] = lambda x: E._trunc(x) if type(x) is SymNum else math.trunc(x)
OV[math.sqrt] = lambda x: x.sqrt()
OV[math.isnan] = lambda x: False
OV[math.isinf] = lambda x: False
OV[math.isfinite] = lambda x: True
OV[math.fabs] = lambda x: sx_float(abs(x))
OV[math.log10] = lambda x: x.log10()
OV[math.fmod] = lambda x, y: E._trunc(x / y) * -y + x


def sx_fsum(x):
    return sx_sum(x, 0.0)


OV[math.fsum] = sx_fsum
OV[np.isnan] = ew1(lambda v: isnanv(v), True)
OV[np.isinf] = ew1(lambda v: (not is_sym(v)) and isinstance(v, (float, np.floating)) and math.isinf(v), True)
OV[np.isfinite] = ew1(lambda v: is_sym(v) or math.isfinite(v), True)
OV[np.absolute] = ew1(lambda v: abs(v))
OV[np.fabs] = ew1(lambda v: abs(v))
OV[np.square] = ew1(lambda v: v * v)
OV[np.negative] = ew1(lambda v: -v)
OV[np.sign] = ew1(lambda v: (1 if bool(v > 0) else (0 if bool(v == 0) else -1)) if not isnanv(v) else v)
OV[np.logical_not] = ew1(lambda v: not bool(v), True)
OV[np.nan_to_num] = ew1(lambda v, *a: 0.0 if isnanv(v) else v)
OV[np.degrees] = OV[np.rad2deg] = ew1(lambda v: v * (180 / math.pi))
OV[np.radians] = OV[np.deg2rad] = ew1(lambda v: v * (math.pi / 180))
OV[np.real] = ew1(lambda v: v)
OV[np.isreal] = ew1(lambda v: True, True)


def _round1(v, nd=0):
    if type(v) is SymNum:
        r = E.sym_round(v, nd)
        return SymNum(r.t, r.c, v.py)
    if isinstance(v, (float, int)):
        return np.round(v, nd)
    if hasattr(v, 'round'):
        return v.round(nd)
    return np.round(v, nd)


def np_round(x, decimals=0, out=None):
    return ew1(lambda v: _round1(v, decimals))(x)


OV[np.round] = np_round
OV[np.around] = np_round


def _max2(a, b):
    if isnanv(a) or isnanv(b):
        return NAN
    return a if bool(a >= b) else b


def _min2(a, b):
    if isnanv(a) or isnanv(b):
        return NAN
    return a if bool(a <= b) else b


def _fmax2(a, b):
    if isnanv(a): return b
    if isnanv(b): return a
    return _max2(a, b)


def _fmin2(a, b):
    if isnanv(a): return b
    if isnanv(b): return a
    return _min2(a, b)


import operator as op
for _f, _g, _b in [(np.maximum, _max2, 0), (np.minimum, _min2, 0), (np.fmax, _fmax2, 0), (np.fmin, _fmin2, 0),
                   (np.add, op.add, 0), (np.subtract, op.sub, 0), (np.multiply, op.mul, 0),
                   (np.true_divide, op.truediv, 0), (np.floor_divide, op.floordiv, 0), (np.mod, op.mod, 0),
                   (np.power, op.pow, 0),
                   (np.less, op.lt, 1), (np.less_equal, op.le, 1), (np.greater, op.gt, 1), (np.greater_equal, op.ge, 1),
                   (np.equal, op.eq, 1), (np.not_equal, op.ne, 1),
                   (np.logical_and, lambda a, b: bool(a) and bool(b), 1),
                   (np.logical_or, lambda a, b: bool(a) or bool(b), 1),
                   (np.logical_xor, lambda a, b: bool(a) != bool(b), 1),
                   (np.hypot, lambda a, b: (SymNum.lift(a)[0]).hypot(b), 0),
                   (np.arctan2, lambda a, b: (SymNum.lift(a)[0]).arctan2(b), 0)]:
    OV[_f] = ew2(_g, bool(_b))
OV[math.hypot] = lambda a, b: SymNum.lift(a)[0].hypot(b)
OV[math.atan2] = lambda a, b: SymNum.lift(a)[0].arctan2(b)


@ov(np.isclose)
def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if isnanv(x) or isnanv(y):
            return bool(equal_nan and isnanv(x) and isnanv(y))
        return bool(abs(x - y) <= atol + rtol * abs(y))
    return ew2(f, True)(a, b)


@ov(np.allclose)
def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.all(np_isclose(a, b, rtol, atol, equal_nan)))


@ov(np.array_equal)
def np_array_equal(a, b, equal_nan=False):
    a, b = asobj(a), asobj(b)
    return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))


@ov(np.clip)
def np_clip(x, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min); a_max = k.get('max', a_max)
    def f(v):
        if a_min is not None and bool(v < a_min): v = a_min
        if a_max is not None and bool(v > a_max): v = a_max
        return v
    return ew1(f)(x)


# ---- reductions
def redax(f, x, axis, keepdims=False):
    arr = asobj(x)
    if axis is None:
        r = f(list(arr.ravel()))
        if keepdims:
            o = np.empty((1,) * arr.ndim, object); o[...] = r; return o
        return r
    if isinstance(axis, tuple):
        if len(axis) == arr.ndim:
            return redax(f, x, None, keepdims)
        raise Unsupported('reduction over several axes')
    arr = np.moveaxis(arr, axis, -1)
    out = np.empty(arr.shape[:-1], object)
    for i in np.ndindex(*out.shape):
        out[i] = f(list(arr[i]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return out if out.ndim else out.item()


def l_sum(v):
    r = 0
    for x in v:
        r = r + x
    return r


def l_mean(v):
    if len(v) == 0:
        return NAN
    return l_sum(v) / len(v) if not any(isnanv(x) for x in v) else NAN


def l_var(v, ddof=0):
    if any(isnanv(x) for x in v) or len(v) - ddof <= 0:
        return NAN
    m = l_mean(v)
    return l_sum([(x - m) * (x - m) for x in v]) / (len(v) - ddof)


def l_sqrt(x):
    return x.sqrt() if type(x) is SymNum else (math.sqrt(x) if not isnanv(x) and x >= 0 else NAN)


def l_std(v, ddof=0):
    if len(v) == 1 and ddof == 0:
        return 0.0
    return l_sqrt(l_var(v, ddof))


def l_sorted(v):
    out = []
    for x in v:                # insertion sort; comparisons fork
        i = len(out)
        while i > 0 and bool(x < out[i - 1]):
            i -= 1
        out.insert(i, x)
    return out


def l_median(v):
    if len(v) == 0 or any(isnanv(x) for x in v):
        return NAN
    s = l_sorted(v)
    n = len(s)
    return s[n // 2] * 1.0 if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def l_min(v):
    if len(v) == 0:
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    r = v[0]
    for x in v[1:]:
        r = _min2(r, x)
    return r


def l_max(v):
    if len(v) == 0:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    r = v[0]
    for x in v[1:]:
        r = _max2(r, x)
    return r


def l_quantile(v, q):
    s = l_sorted(v)
    pos = q * (len(s) - 1)
    k = int(math.floor(pos)); fr = pos - k
    if k + 1 >= len(s):
        return s[-1]
    return s[k] + (s[k + 1] - s[k]) * fr


def l_prod(v):
    r = 1
    for x in v:
        r = r * x
    return r


def dropnan(v):
    return [x for x in v if not isnanv(x)]


def red(f, nan=False):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        kw = {}
        if 'ddof' in k: kw['ddof'] = k['ddof']
        if keepdims is np._NoValue: keepdims = False
        def h(v):
            v = dropnan(v) if nan else v
            return f(v, **kw)
        if isinstance(a, pd.DataFrame) and axis is None and f in (l_sum, l_mean, l_std, l_var, l_min, l_max):
            return pd.Series([h(list(asobj(a.iloc[:, i]))) for i in range(a.shape[1])], index=a.columns)
        if isinstance(a, pd.Series) and f in (l_sum, l_mean, l_std, l_var, l_min, l_max, l_prod):
            return f(dropnan(list(asobj(a))), **kw)      # numpy defers to the pandas method, which skips nan (ddof as given)
        return redax(h, a, axis, keepdims)
    return g


for _fs, _g, _nan in [((np.sum,), l_sum, 0), ((np.nansum,), l_sum, 1), ((np.mean, np.average), l_mean, 0),
                      ((np.nanmean,), l_mean, 1), ((np.var,), l_var, 0), ((np.nanvar,), l_var, 1),
                      ((np.std,), l_std, 0), ((np.nanstd,), l_std, 1), ((np.median,), l_median, 0),
                      ((np.nanmedian,), l_median, 1), ((np.min, np.amin), l_min, 0), ((np.max, np.amax), l_max, 0),
                      ((np.nanmin,), l_min, 1), ((np.nanmax,), l_max, 1), ((np.prod,), l_prod, 0)]:
    for _f in _fs:
        OV[_f] = red(_g, _nan)


@ov(np.percentile)
def np_percentile(a, q, axis=None, **k):
    return redax(lambda v: l_quantile(v, q / 100), a, axis)


@ov(np.quantile)
def np_quantile(a, q, axis=None, **k):
    return redax(lambda v: l_quantile(v, q), a, axis)


@ov(np.ptp)
def np_ptp(a, axis=None, **k):
    return redax(lambda v: l_max(v) - l_min(v), a, axis)


@ov(np.any)
def np_any(a, axis=None, **k):
    return redax(lambda v: any(bool(x) for x in v), a, axis) if axis is None else boolarr(
        asobj(redax(lambda v: any(bool(x) for x in v), a, axis)))


@ov(np.all)
def np_all(a, axis=None, **k):
    return redax(lambda v: all(bool(x) for x in v), a, axis) if axis is None else boolarr(
        asobj(redax(lambda v: all(bool(x) for x in v), a, axis)))


@ov(np.count_nonzero)
def np_count_nonzero(a, axis=None, **k):
    return redax(lambda v: sum(1 for x in v if bool(x)), a, axis)


def accum(f):
    def g(a, axis=None, dtype=None, out=None):
        arr = asobj(a)
        if axis is None:
            arr = arr.ravel(); axis = 0
        arr = np.moveaxis(arr, axis, 0)
        o = np.empty(arr.shape, object)
        for i in range(arr.shape[0]):
            o[i] = arr[i] if i == 0 else f(o[i - 1], arr[i])
        return rewrap(np.moveaxis(o, 0, axis), a)
    return g


OV[np.cumsum] = accum(op.add)
OV[np.cumprod] = accum(op.mul)


@ov(np.diff)
def np_diff(a, n=1, axis=-1, prepend=None, append=None):
    arr = asobj(a)
    if prepend is not None and prepend is not np._NoValue:
        arr = np.concatenate([np.atleast_1d(asobj(prepend)), arr])
    if append is not None and append is not np._NoValue:
        arr = np.concatenate([arr, np.atleast_1d(asobj(append))])
    for _ in range(n):
        arr = np.moveaxis(arr, axis, 0)
        arr = arr[1:] - arr[:-1]
        arr = np.moveaxis(arr, 0, axis)
    return arr


@ov(np.ediff1d)
def np_ediff1d(a, *x, **k):
    return np_diff(asobj(a).ravel())


@ov(np.argsort)
def np_argsort(a, axis=-1, kind=None, **k):
    arr = list(asobj(a).ravel())
    idx = []
    for j, x in enumerate(arr):
        i = len(idx)
        while i > 0 and bool(x < arr[idx[i - 1]]):
            i -= 1
        idx.insert(i, j)
    return np.array(idx, dtype=int)


@ov(np.sort)
def np_sort(a, axis=-1, **k):
    arr = asobj(a)
    if arr.ndim != 1:
        raise Unsupported('sort of a matrix')
    return nparray(l_sorted(list(arr)))


def sx_sorted(x, key=None, reverse=False):
    x = list(x)
    ks = [wrapfn(key)(v) for v in x] if key is not None else x
    if not has_sym(ks):
        return sorted(x, key=wrapfn(key) if key else None, reverse=reverse)
    idx = []
    for j, v in enumerate(ks):
        i = len(idx)
        while i > 0 and bool((v > ks[idx[i - 1]]) if reverse else (v < ks[idx[i - 1]])):
            i -= 1
        idx.insert(i, j)
    return [x[i] for i in idx]


@ov(np.argmin)
def np_argmin(a, axis=None, **k):
    v = list(asobj(a).ravel()); r = 0
    for i in range(1, len(v)):
        if bool(v[i] < v[r]): r = i
    return r


@ov(np.argmax)
def np_argmax(a, axis=None, **k):
    v = list(asobj(a).ravel()); r = 0
    for i in range(1, len(v)):
        if bool(v[i] > v[r]): r = i
    return r


@ov(np.unique)
def np_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    v = list(asobj(a).ravel())
    order = list(np_argsort(v))
    vals, first, inv, cnt = [], [], [0] * len(v), []
    for i in order:
        if vals and bool(v[i] == vals[-1]):
            inv[i] = len(vals) - 1; cnt[-1] += 1
        else:
            vals.append(v[i]); first.append(i); cnt.append(1); inv[i] = len(vals) - 1
    r = [nparray(vals) if vals else np.array([])]
    if return_index: r.append(np.array(first, dtype=int))
    if return_inverse: r.append(np.array(inv, dtype=int))
    if return_counts: r.append(np.array(cnt, dtype=int))
    return r[0] if len(r) == 1 else tuple(r)


@ov(np.isin, getattr(np, 'in1d', None))
def np_isin(a, b, assume_unique=False, invert=False, **k):
    bs = list(asobj(b).ravel())
    return ew1(lambda v: any(bool(v == w) for w in bs) != invert, True)(a)


@ov(np.where)
def np_where(cond, *xy):
    c = boolarr(asobj(cond))
    if not xy:
        return np.where(c)
    x, y = asobj(xy[0]), asobj(xy[1])
    c, x, y = np.broadcast_arrays(c, x, y)
    out = np.empty(c.shape, object)
    for i in np.ndindex(*c.shape):
        out[i] = x[i] if c[i] else y[i]
    return out if out.ndim else out


OV[np.argwhere] = lambda c: np.argwhere(boolarr(asobj(c)))
OV[np.nonzero] = lambda c: np.nonzero(boolarr(asobj(c)))
OV[np.flatnonzero] = lambda c: np.flatnonzero(boolarr(asobj(c)))


@ov(np.select)
def np_select(conds, choices, default=0):
    conds = [boolarr(asobj(c)) for c in conds]
    shape = np.broadcast_shapes(*[c.shape for c in conds])
    out = np.empty(shape, object)
    chs = [np.broadcast_to(asobj(c), shape) for c in choices]
    for i in np.ndindex(*shape):
        out[i] = default
        for c, ch in zip(conds, chs):
            if c[i]:
                out[i] = ch[i]; break
    return out


@ov(np.searchsorted)
def np_searchsorted(a, v, side='left', sorter=None):
    arr = list(asobj(a).ravel())
    def f(x):
        n = 0
        for y in arr:
            if bool(y < x if side == 'left' else y <= x):
                n += 1
            else:
                break
        return n
    r = ew1(f)(v)
    return r.astype(int) if isinstance(r, np.ndarray) else r


@ov(np.digitize)
def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, side='left' if right else 'right')


@ov(np.interp)
def np_interp(x, xp, fp, left=None, right=None, period=None):
    xp = list(asobj(xp)); fp = list(asobj(fp))
    def f(v):
        if bool(v < xp[0]): return fp[0] if left is None else left
        if bool(v > xp[-1]): return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if bool(v <= xp[i + 1]):
                if bool(v == xp[i + 1]): return fp[i + 1]
                return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
        return fp[-1]
    return ew1(f)(x)


@ov(np.dot, np.matmul)
def np_dot(a, b, *x, **k):
    a, b = asobj(a), asobj(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return l_sum([x * y for x, y in zip(a, b)])
    if a.ndim == 2 and b.ndim == 1:
        return nparray([l_sum([x * y for x, y in zip(r, b)]) for r in a])
    if a.ndim == 1:
        return np_dot(a[None, :], b)[0]
    out = np.empty((a.shape[0], b.shape[1]), object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            out[i, j] = l_sum([a[i, q] * b[q, j] for q in range(a.shape[1])])
    return out


def _solve(A, B):
    """exact Gauss-Jordan on object matrices (pivots by first non-zero)"""
    n = A.shape[0]
    M = np.concatenate([A.copy(), B.copy()], axis=1)
    for c in range(n):
        p = None
        for r in range(c, n):
            if bool(M[r, c] != 0):
                p = r; break
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        if p != c:
            M[[c, p]] = M[[p, c]]
        pv = M[c, c]
        M[c] = [x / pv for x in M[c]]
        for r in range(n):
            if r != c:
                f = M[r, c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return M[:, n:]


@ov(np.linalg.inv)
def np_inv(A):
    A = asobj(A)
    n = A.shape[0]
    I = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            I[i, j] = 1.0 if i == j else 0.0
    return _solve(A, I)


@ov(np.linalg.pinv)
def np_pinv(A, *a, **k):
    A = asobj(A)
    if A.shape[0] >= A.shape[1]:
        At = A.T
        return np_dot(np_inv(np_dot(At, A)), At)
    raise Unsupported('pinv of a wide matrix')


@ov(np.linalg.solve)
def np_solve(A, b):
    A, b = asobj(A), asobj(b)
    if b.ndim == 1:
        return _solve(A, b[:, None])[:, 0]
    return _solve(A, b)


@ov(np.linalg.lstsq)
def np_lstsq(A, b, rcond=None):
    A, b = asobj(A), asobj(b)
    At = A.T
    x = np_solve(np_dot(At, A), np_dot(At, b))
    return x, nparray([]), A.shape[1], nparray([])


@ov(np.linalg.det)
def np_det(A):
    A = asobj(A); n = A.shape[0]
    if n == 1: return A[0, 0]
    if n == 2: return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    r = 0
    for j in range(n):
        m = np.delete(np.delete(A, 0, 0), j, 1)
        r = r + (-1) ** j * A[0, j] * np_det(m)
    return r


@ov(np.linalg.norm)
def np_norm(x, ord=None, axis=None, **k):
    return redax(lambda v: l_sqrt(l_sum([a * a for a in v])), x, axis)


def polyfit_lin(x, y, deg):
    """least-squares polynomial coefficients (ascending), exact arithmetic; x must be concrete"""
    xs = [E.frac(scal(demote(v))) if not is_sym(v) or v.constant() is None else v.constant() for v in asobj(x).ravel()] \
        if not has_sym(x) else list(asobj(x).ravel())
    ys = list(asobj(y).ravel())
    n = deg + 1
    A = np.empty((n, n), object); b = np.empty((n, 1), object)
    pw = [[1] * len(xs)]
    for k in range(2 * n - 1):
        pw.append([p * v for p, v in zip(pw[-1], xs)])
    for i in range(n):
        for j in range(n):
            A[i, j] = l_sum(pw[i + j])
        b[i, 0] = l_sum([SymNum.lift(v)[0].scale(p, 'f') if isinstance(p, Fr) or isinstance(p, int) else v * p
                         for p, v in zip(pw[i], ys)])
    # exact rational solve
    if not has_sym(A):
        A = nparray([[Fr(v) for v in r] for r in A])
        inv = _solve(A, nparray([[Fr(1 if i == j else 0) for j in range(n)] for i in range(n)]))
        return nparray([l_sum([SymNum.lift(b[j, 0])[0].scale(inv[i, j], 'f') for j in range(n)]) for i in range(n)])
    return _solve(A, b)[:, 0]


@ov(np.polynomial.polynomial.polyfit)
def np_polyfit_asc(x, y, deg, *a, **k):
    if len(asobj(x)) <= deg:
        raise np.exceptions.RankWarning('The fit may be poorly conditioned')
    return polyfit_lin(x, y, deg)


@ov(np.polyfit)
def np_polyfit_desc(x, y, deg, *a, **k):
    return polyfit_lin(x, y, deg)[::-1]


class SxPoly:
    def __init__(self, coef):
        self.coef = asobj(coef)

    def __call__(self, x):
        def f(v):
            r = 0
            for c in list(self.coef)[::-1]:
                r = r * v + c
            return r
        return ew1(f)(x)


OV[np.polynomial.Polynomial] = lambda coef, *a, **k: SxPoly(coef)
OV[np.poly1d] = lambda coef, *a, **k: SxPoly(asobj(coef)[::-1])
OV[np.polyval] = lambda p, x: SxPoly(asobj(p)[::-1])(x)
OV[np.polynomial.polynomial.polyval] = lambda x, c, **k: SxPoly(c)(x)


@ov(np.trapezoid if hasattr(np, 'trapezoid') else None, getattr(np, 'trapz', None))
def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = list(asobj(y).ravel())
    if x is not None:
        x = list(asobj(x).ravel())
        return l_sum([(x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2 for i in range(len(y) - 1)])
    return l_sum([dx * (y[i] + y[i + 1]) / 2 for i in range(len(y) - 1)])


# ---- constructors
def _ratio(a, b):
    """k with a == k*b for affine forms a, b (exact), or None"""
    if not is_sym(a) and not is_sym(b):
        return Fr(a) / Fr(b) if b else None
    a = SymNum.lift(a)[0] if not type(a) is SymNum else a
    b = SymNum.lift(b)[0] if not type(b) is SymNum else b
    ca, cb = a.constant(), b.constant()
    if ca is not None and ca == 0:
        return Fr(0)
    k = None
    for at, c in b.t.items() if isinstance(b.t, dict) else b.t:
        d = dict(a.t).get(at)
        if d is None:
            return None
        k = Fr(d) / Fr(c); break
    if k is None:
        return None
    r = a - b * k
    r = r.constant() if type(r) is SymNum else r
    return k if r is not None and r == 0 else None


class SxSpline:
    """interpolating cubic spline: exact for concrete abscissae (linear in the ordinates) and for points on a straight line, arbitrary otherwise"""

    def __init__(self, x, y, axis=0, bc_type='not-a-knot', extrapolate=None, **k):
        self.x = [scal(v) for v in asobj(x).ravel()]; self.y = [scal(v) for v in asobj(y).ravel()]
        self.ex = True if extrapolate is None else extrapolate
        self.bc = bc_type
        if len(self.x) != len(self.y):
            raise ValueError('The length of `y` along `axis`=0 doesn\'t match the length of `x`')
        if len(self.x) < 2:
            raise ValueError('`x` must contain at least 2 elements.')
        if any(isnanv(v) for v in self.x + self.y):
            raise ValueError('`y` must contain only finite values.')
        for a, b in zip(self.x, self.x[1:]):
            if not bool(a < b):
                raise ValueError('`x` must be strictly increasing sequence.')
        self.mode = None

    def __call__(self, t, nu=0, extrapolate=None):
        if nu: raise Unsupported('spline derivative')
        ex = self.ex if extrapolate is None else extrapolate
        tt = asobj(t)
        out = np.empty(tt.shape, object)
        symx = has_sym(self.x)
        slope = None
        if symx or has_sym(t):
            slope = _ratio(self.y[1] - self.y[0], self.x[1] - self.x[0])
            if slope is not None and not all(_ratio(yv - self.y[0], xv - self.x[0]) == slope for xv, yv in zip(self.x[2:], self.y[2:])):
                slope = None
        for i, v in np.ndenumerate(tt):
            v = scal(v)
            if not ex and not bool(And(v >= self.x[0], v <= self.x[-1])):
                out[i] = float('nan'); continue
            if slope is not None:
                out[i] = self.y[0] + (v - self.x[0]) * slope
            elif not symx and not is_sym(v):
                out[i] = self.lin(float(v))
            else:
                hit = None
                for xv, yv in zip(self.x, self.y):
                    d = v - xv
                    if not is_sym(d) and d == 0 or is_sym(d) and d.constant() == 0:
                        hit = yv
                out[i] = hit if hit is not None else SymNum.atom(E._ctx.new_atom('spline', False), 'f')
        return out

    def lin(self, v):
        import scipy.interpolate as si
        if self.mode is None:
            n = len(self.x)
            self.mode = si.CubicSpline(np.array([float(a) for a in self.x]), np.eye(n), bc_type=self.bc)
        w = self.mode(v)
        r = 0
        for c, yv in zip(w, self.y):
            c = Fr(float(c)).limit_denominator(10 ** 12)
            if c: r = r + yv * c
        return r

    def integrate(self, a, b, extrapolate=None):
        """exact for concrete abscissae and limits, or for a constant; arbitrary (one unknown per pair of limits) otherwise"""
        a, b = scal(a), scal(b)
        ex = self.ex if extrapolate is None else extrapolate
        if isnanv(a) or isnanv(b): return float('nan')
        if not ex and not bool(And(a >= self.x[0], a <= self.x[-1], b >= self.x[0], b <= self.x[-1])):
            return float('nan')
        if all((d.constant() if type(d) is SymNum else d) == 0 for d in (v - self.y[0] for v in self.y)):
            return self.y[0] * (b - a)
        if not has_sym(self.x) and not is_sym(a) and not is_sym(b):
            self.lin(float(self.x[0]))
            r = 0
            for c, yv in zip(self.mode.integrate(float(a), float(b)), self.y):
                c = Fr(float(c)).limit_denominator(10 ** 12)
                if c: r = r + yv * c
            return r
        return SymNum.atom(E._ctx.new_atom('integral', False), 'f')


def sx_quad(f, a, b, *args, **k):
    if not isinstance(f, SxSpline):
        if getattr(f, '__self__', None).__class__ is SxSpline: f = f.__self__
        else:
            import scipy.integrate
            return scipy.integrate.quad(f, a, b, *args, **k)
    return f.integrate(a, b), 0.0


def _splines():
    import scipy.interpolate as si
    import scipy.integrate
    OV[si.CubicSpline] = SxSpline
    CTORS[scipy.integrate.quad] = sx_quad


_splines()


def kindof(dt):
    if dt is None:
        return None
    if dt is int: return 'i'
    if dt is float: return 'f'
    if dt is bool: return 'b'
    if dt is object: return 'O'
    if dt is str: return 'U'
    try:
        return np.dtype(dt).kind
    except TypeError:
        return None


def sx_array(x, dtype=None, **k):
    if isinstance(x, (map, filter, zip)) or (hasattr(x, '__next__')):
        x = list(x)
    if not has_sym(x):
        if isinstance(x, np.ndarray) and x.dtype == object and dtype is not None:
            x = demote(x)
        return np.array(x, dtype=dtype, **k) if dtype is not None else np.array(x, **k)
    a = asobj(x)
    if a is x or not a.flags.writeable or a.base is not None:
        a = a.copy()
    kd = kindof(dtype)
    if kd in ('i', 'u', 'f', 'b', 'U'):
        o = np.empty(a.shape, object)
        for i, v in np.ndenumerate(a):
            o[i] = cast(v, dtype)
        a = boolarr(o) if kd == 'b' else o
    return a


OV[np.array] = sx_array
OV[np.asarray] = sx_array
OV[np.asanyarray] = sx_array
OV[np.ascontiguousarray] = sx_array
OV[np.require] = lambda x, dtype=None, *a, **k: sx_array(x, dtype)


def filled(shape, v, dtype):
    kd = kindof(dtype)
    if kd in (None, 'f', 'i', 'u', 'O'):
        if kd in ('i', 'u') and isinstance(v, float):
            v = int(v)
        if kd == 'f' and isinstance(v, int):
            v = float(v)
        a = np.empty(shape, object)
        a[...] = v
        if kd in ('i', 'u') or kd == 'f' and np.dtype(dtype).itemsize < 8:
            a = a.view(IntArr); a._dt = dtype
        if a.ndim == 0:
            b = np.empty((), object); b[()] = v
            return b
        return a
    return None


def _shape(s):
    if is_sym(s):
        return int(s)
    if isinstance(s, (list, tuple)):
        return tuple(int(v) if is_sym(v) else v for v in s)
    return s


def sx_zeros(shape, dtype=float, order='C', **k):
    r = filled(_shape(shape), 0.0 if kindof(dtype) == 'f' else 0, dtype)
    return np.zeros(_shape(shape), dtype) if r is None else r


def sx_ones(shape, dtype=float, order='C', **k):
    r = filled(_shape(shape), 1.0 if kindof(dtype) in ('f', None) else 1, dtype)
    return np.ones(_shape(shape), dtype) if r is None else r


def sx_full(shape, fill, dtype=None, order='C', **k):
    if dtype is None and isinstance(fill, (bool, np.bool_)):
        return np.full(shape, fill)
    if isinstance(fill, str):
        return np.full(shape, fill)
    r = filled(_shape(shape), fill, dtype)
    return np.full(_shape(shape), fill, dtype) if r is None else r


def sx_zeros_like(a, dtype=None, **k):
    a = np.asarray(a) if not has_sym(a) else asobj(a)
    if dtype is None and a.dtype.kind == 'b':
        return np.zeros_like(a)
    return sx_zeros(a.shape, dtype or (float if a.dtype.kind in 'fO' else int))


def sx_ones_like(a, dtype=None, **k):
    a = np.asarray(a) if not has_sym(a) else asobj(a)
    return sx_ones(a.shape, dtype or (float if a.dtype.kind in 'fO' else int))


def sx_full_like(a, fill, dtype=None, **k):
    a = np.asarray(a) if not has_sym(a) else asobj(a)
    return sx_full(a.shape, fill, dtype)


CTORS[np.zeros] = sx_zeros
CTORS[np.empty] = sx_zeros
CTORS[np.ndarray] = sx_zeros
CTORS[np.ones] = sx_ones
CTORS[np.full] = sx_full
CTORS[np.zeros_like] = sx_zeros_like
CTORS[np.empty_like] = sx_zeros_like
CTORS[np.ones_like] = sx_ones_like
CTORS[np.full_like] = sx_full_like


@ov(np.arange)
def np_arange(*a, **k):
    dtype = k.pop('dtype', None)
    if len(a) == 1: start, stop, step = 0, a[0], 1
    elif len(a) == 2: start, stop, step = a[0], a[1], 1
    else: start, stop, step = a[:3]
    step = k.get('step', step)
    start, stop, step = scal(start), scal(stop), scal(step)
    n = (stop - start) / step
    n = int(-((-SymNum.lift(n)[0])._floor_int())) if is_sym(n) else int(math.ceil(n))
    return nparray([start + i * step for i in range(max(n, 0))]) if n > 0 else np.array([])


@ov(np.linspace)
def np_linspace(a, b, num=50, endpoint=True, **k):
    num = int(num)
    d = (num - 1) if endpoint else num
    return nparray([a + (b - a) * Fr(i, d) if is_sym(b - a) else a + (b - a) * i / d for i in range(num)]) if num > 1 \
        else nparray([a])


OV[np.float64] = OV[np.float32] = ew1(sx_float)
for _t in (np.int64, np.int32, np.int16, np.intp):
    OV[_t] = ew1(sx_int)
OV[np.uint8] = OV[np.int8] = ew1(sx_int)
OV[int] = sx_int
OV[float] = sx_float
OV[round] = sx_round
OV[min] = sx_minmax('min')
OV[max] = sx_minmax('max')
OV[sum] = sx_sum
OV[sorted] = sx_sorted
OV[bool] = lambda x: bool(x)
OV[any] = lambda x: any(bool(v) for v in x)
OV[all] = lambda x: all(bool(v) for v in x)
OV[abs] = lambda x: OV[np.absolute](x) if isinstance(x, (np.ndarray, pd.Series, pd.DataFrame)) else abs(x)
OV[divmod] = lambda a, b: (a // b, a % b)
OV[pow] = lambda a, b, *c: a ** b

OV[chr] = lambda x: E.make_token(x, 'chr')


def sx_ord(x):
    C = E._ctx
    if C is not None and isinstance(x, str) and len(x) > 1 and x.startswith(E.TOK_L) and x.endswith(':chr' + E.TOK_R) and x.count(E.TOK_L) == 1:
        return C.tokens[int(x[1:-1].partition(':')[0])]
    return ord(x)


def sx_strmod(a, b):
    """a % b where a may be a text"""
    if E._ctx is None or not isinstance(a, str) or not has_sym(b):
        return a % b
    import re
    args = list(b) if isinstance(b, tuple) else [b]
    pos = [0]

    def sub(m):
        if m.group(2) == '%':
            return '%'
        v = args[pos[0]]; pos[0] += 1
        if not is_sym(v):
            return m.group(0) % (v,)
        fl, t = m.group(1), m.group(2)
        if t in 'di':
            return format(sx_int(v), fl + 'd' if fl else '')
        if t in 'sr':
            return format(v, '')
        return format(v, fl + t)
    return re.sub(r'%([-+ 0#]*\d*(?:\.\d+)?)([diufFeEgGsrxXc%])', sub, a)


ALWAYS = {ord: sx_ord, print: sx_print, map: sx_map, int: sx_int, float: sx_float, sorted: sx_sorted}


# ---- methods of object arrays / series
def a_astype(a, dtype, *x, **k):
    return sx_array(a, dtype)


def a_method(fn):
    def g(a, *x, **k):
        return fn(a, *x, **k)
    return g


ARR = {'astype': a_astype, 'round': lambda a, d=0, **k: np_round(a, d), 'mean': a_method(OV[np.mean]),
       'std': a_method(OV[np.std]), 'var': a_method(OV[np.var]), 'sum': a_method(OV[np.sum]),
       'min': a_method(OV[np.min]), 'max': a_method(OV[np.max]), 'any': a_method(np_any), 'all': a_method(np_all),
       'cumsum': a_method(OV[np.cumsum]), 'argsort': a_method(np_argsort), 'argmin': a_method(np_argmin),
       'argmax': a_method(np_argmax), 'clip': a_method(np_clip), 'dot': a_method(np_dot), 'ptp': a_method(np_ptp),
       'nonzero': a_method(OV[np.nonzero]), 'prod': a_method(OV[np.prod]), 'searchsorted': a_method(np_searchsorted)}


def a_sort(a, *x, **k):
    a[:] = np_sort(a)


ARR['sort'] = a_sort


# ------------------------------------------------------------------------------------------ the call hook
def sx_call(f, *a, **k):
    C = E._ctx
    if C is None:
        return f(*a, **k)
    if C.dead:
        raise PathAbort('dead path')
    try:
        g = ALWAYS.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(*a, **k)
    slf = getattr(f, '__self__', None)
    if C.chars:
        r = strs.call(f, slf, a, k)
        if r is not NotImplemented:
            return r
    if type(slf) is SymNum and getattr(f, '__name__', '') == '__float__':
        return SymNum(slf.t, slf.c, 'f')
    if slf is not None and isinstance(slf, np.ndarray) and slf.dtype == object:
        m = ARR.get(f.__name__)
        if m is not None:
            if has_sym(slf) or has_sym(a):
                return m(slf, *a, **k)
            if f.__name__ not in ('sort',):
                d = demote(slf)
                if d is not slf:
                    return getattr(d, f.__name__)(*[demote(v) for v in a], **k)
        return f(*a, **k)
    try:
        g = CTORS.get(f)
        if g is not None:
            return g(*a, **k)
        g = OV.get(f)
    except TypeError:
        g = None
    if g is not None:
        if has_sym(a) or (k and has_sym(list(k.values()))):
            try:
                return g(*a, **k)
            except TypeError as e:
                if 'unexpected keyword' in str(e) or 'positional argument' in str(e):
                    raise Unsupported('%s: %s' % (getattr(f, '__name__', f), e))
                raise
        if any(isobj(v) for v in a):
            a = tuple(demote(v) for v in a)
            if any(isobj(v) for v in a):         # e.g. None or strings among the values
                try:
                    return f(*a, **k)
                except TypeError:
                    return g(*a, **k)
        return f(*a, **k)
    if slf is not None and isinstance(slf, (pd.Series, pd.DataFrame)) and f.__name__ in ('apply', 'map', 'agg', 'transform', 'applymap'):
        a = tuple(wrapfn(v) if callable(v) else v for v in a)
        return f(*a, **k)
    mod = getattr(f, '__module__', None) or ''
    if isinstance(mod, str) and (mod.startswith('numpy') or mod.startswith('scipy')) and not has_sym(a):
        a = tuple(demote(v) for v in a)
    if isinstance(mod, str) and (mod.startswith('numpy') or mod.startswith('scipy')) and (has_sym(a) or has_sym(list(k.values()))):
        try:
            return f(*a, **k)
        except PathAbort:
            raise
        except Exception as e:
            C.note('library function %s.%s not modelled: %s' % (mod, getattr(f, '__name__', '?'), str(e)[:80]))
            raise
    return f(*a, **k)


# ------------------------------------------------------------------------------------------ loader
class Rewriter(ast.NodeTransformer):
    SKIP = {'super', 'locals', 'globals', 'vars', 'isinstance', 'type', 'len', 'getattr', 'hasattr', 'setattr',
            '__sx_call__', '__sx_cmp__', 'Exception'}

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in self.SKIP:
            return node
        return ast.copy_location(ast.Call(func=ast.Name('__sx_call__', ast.Load()), args=[f] + node.args,
                                          keywords=node.keywords), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and not (isinstance(node.left, ast.Constant) and not isinstance(node.left.value, str)):
            return ast.copy_location(ast.Call(func=ast.Name('__sx_mod__', ast.Load()), args=[node.left, node.right], keywords=[]), node)
        return node

    CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'not in'}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in self.CMP:
            return ast.copy_location(ast.Call(func=ast.Name('__sx_cmp__', ast.Load()), keywords=[],
                                              args=[ast.Constant(self.CMP[type(node.ops[0])]), node.left, node.comparators[0]]), node)
        return node

    def visit_ImportFrom(self, node):
        if node.module and (node.module == 'gemlog' or node.module.startswith('gemlog.')) and not node.level:
            node.module = PKG + node.module[6:]
        return node

    def visit_Import(self, node):
        for al in node.names:
            if al.name == 'gemlog' or al.name.startswith('gemlog.'):
                new = PKG + al.name[6:]
                if al.asname is None and '.' not in al.name:
                    al.asname = 'gemlog'
                al.name = new
        return node


MODS = ['core', 'exceptions', 'gem_cat', 'gem_network', 'gemconvert', 'gemconvert_single', 'gemlog_aux', 'huddle_test',
        'xcorr', 'version']
_loaded = {}


def source(name):
    return open(os.path.join(REPO, 'gemlog', name + '.py'), encoding='utf-8').read()


def load(name):
    """the instrumented copy of gemlog.<name>"""
    full = PKG + '.' + name
    if full in sys.modules and getattr(sys.modules[full], '__sx__', False):
        return sys.modules[full]
    ensure_pkg()
    return _exec(name)


def _exec(name):
    full = PKG + '.' + name if name != '__init__' else PKG
    src = source(name)
    tree = Rewriter().visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    path = os.path.join(REPO, 'gemlog', name + '.py')
    code = compile(tree, path, 'exec')
    m = sys.modules.get(full) or types.ModuleType(full)
    m.__file__ = path
    m.__package__ = PKG
    m.__sx__ = True
    m.__dict__['__sx_call__'] = sx_call; m.__dict__['__sx_mod__'] = sx_strmod; m.__dict__['__sx_cmp__'] = strs.compare
    sys.modules[full] = m
    exec(code, m.__dict__)
    if name != '__init__':
        setattr(sys.modules[PKG], name, m)
    return m


class _Finder:
    """imports sxgemlog.<name> on demand"""

    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname.startswith(PKG + '.') and fullname[len(PKG) + 1:] in MODS:
            return importlib.machinery.ModuleSpec(fullname, _Loader)
        return None


class _Loader:
    @staticmethod
    def create_module(spec):
        return None

    @staticmethod
    def exec_module(m):
        name = m.__name__[len(PKG) + 1:]
        _exec(name)


import importlib.machinery


def ensure_pkg():
    if PKG in sys.modules:
        return sys.modules[PKG]
    if _Finder not in sys.meta_path:
        sys.meta_path.insert(0, _Finder)
    m = types.ModuleType(PKG)
    m.__path__ = []
    m.__sx__ = True
    m.__dict__['__sx_call__'] = sx_call; m.__dict__['__sx_mod__'] = sx_strmod; m.__dict__['__sx_cmp__'] = strs.compare
    sys.modules[PKG] = m
    # the compiled parser is reached through this name; harnesses replace parse_gemfile
    p = types.ModuleType(PKG + '.parsers')

    def parse_gemfile(*a, **k):
        raise Unsupported('parse_gemfile has not been provided')
    p.parse_gemfile = parse_gemfile
    sys.modules[PKG + '.parsers'] = p
    m.parsers = p
    init = open(os.path.join(REPO, 'gemlog', '__init__.py')).read()
    tree = Rewriter().visit(ast.parse(init))
    for n in ast.walk(tree):
        if isinstance(n, ast.ImportFrom) and n.level == 1:
            n.level = 0
            n.module = PKG + ('.' + n.module if n.module else '')
    ast.fix_missing_locations(tree)
    m.__file__ = os.path.join(REPO, 'gemlog', '__init__.py')
    exec(compile(tree, m.__file__, 'exec'), m.__dict__)
    return m


def pristine(name):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    m = importlib.import_module('gemlog.' + name)
    assert m.__file__.startswith(REPO), m.__file__
    return m


# ------------------------------------------------------------------------------------------ pandas patches
import pandas.core.dtypes.astype as _pda
import pandas.core.series as _pds
import pandas.core.frame as _pdf

_orig = {}


def _p_astype_nansafe(arr, dtype, copy=True, skipna=False):
    if isinstance(arr, np.ndarray) and arr.dtype == object and E._ctx is not None and \
            (has_sym(arr) or any(from_token(v) is not None if isinstance(v, str) else hasattr(v, '__sx_float__') for v in arr.ravel())):
        o = np.empty(arr.shape, object)
        for i, v in np.ndenumerate(arr):
            o[i] = cast(v, dtype)
        return o
    return _orig['astype'](arr, dtype, copy, skipna)


def _p_astype_array(values, dtype, copy=False):
    if E._ctx is not None and not isinstance(values, np.ndarray) and getattr(dtype, 'kind', 'O') in 'fiu' and \
            any(isinstance(v, str) and from_token(v) is not None for v in values):
        return _pda._astype_nansafe(np.array(list(values), dtype=object), dtype)
    return _orig['astype_array'](values, dtype, copy=copy)


def _p_to_numeric(arg, errors='raise', **k):
    if E._ctx is not None and isinstance(arg, (pd.Series, np.ndarray, list)) and arg is not None:
        a = asobj(arg)
        if has_sym(a) or any(from_token(v) is not None for v in a.ravel() if isinstance(v, str)):
            o = np.empty(a.shape, object)
            for i, v in np.ndenumerate(a):
                if isinstance(v, str):
                    t = from_token(v)
                    try:
                        o[i] = t if t is not None else _orig['to_numeric']([v], errors='raise')[0]
                    except (ValueError, TypeError):
                        if errors == 'coerce':
                            o[i] = NAN
                        else:
                            raise
                else:
                    o[i] = v
            return rewrap(o, arg)
    return _orig['to_numeric'](arg, errors, **k)


_RED = {'sum': l_sum, 'mean': l_mean, 'median': l_median, 'min': l_min, 'max': l_max, 'std': l_std, 'var': l_var,
        'prod': l_prod}


def _reduce_list(vals, name, skipna, kwds):
    if name in ('any', 'all'):
        return (any if name == 'any' else all)(bool(v) for v in vals)
    if skipna:
        vals = [v for v in vals if not isnanv(v) and v is not None]
    elif any(isnanv(v) for v in vals):
        return NAN
    if len(vals) == 0:
        return 0 if name == 'sum' else NAN
    kw = {}
    if name in ('std', 'var'):
        kw['ddof'] = kwds.get('ddof', 1)
    return _RED[name](vals, **kw)


def _p_series_reduce(self, op_, name, *, axis=0, skipna=True, numeric_only=False, filter_type=None, **kwds):
    if E._ctx is not None and self.dtype == object and name in list(_RED) + ['any', 'all'] and has_sym(self):
        return _reduce_list(list(asobj(self)), name, skipna, kwds)
    return _orig['sreduce'](self, op_, name, axis=axis, skipna=skipna, numeric_only=numeric_only, filter_type=filter_type,
                            **kwds)


def _p_frame_reduce(self, op_, name, *, axis=0, skipna=True, numeric_only=False, filter_type=None, **kwds):
    if E._ctx is not None and name in list(_RED) + ['any', 'all'] and has_sym(self):
        if axis in (0, 'index', None):
            return pd.Series([_reduce_list(list(asobj(self.iloc[:, i])), name, skipna, kwds) for i in range(self.shape[1])],
                             index=self.columns)
        v = asobj(self)
        return pd.Series([_reduce_list(list(r), name, skipna, kwds) for r in v], index=self.index)
    return _orig['freduce'](self, op_, name, axis=axis, skipna=skipna, numeric_only=numeric_only, filter_type=filter_type,
                            **kwds)


def _p_series_round(self, decimals=0, *a, **k):
    if E._ctx is not None and self.dtype == object:
        return np_round(self, decimals)
    return _orig['sround'](self, decimals, *a, **k)


def _p_series_between(self, left, right, inclusive='both'):
    if E._ctx is not None and self.dtype == object:
        l = (self >= left) if inclusive in ('both', 'left') else (self > left)
        r = (self <= right) if inclusive in ('both', 'right') else (self < right)
        return l & r
    return _orig['sbetween'](self, left, right, inclusive)


def _p_series_quantile(self, q=0.5, interpolation='linear'):
    if E._ctx is not None and self.dtype == object and has_sym(self):
        v = [x for x in asobj(self) if not isnanv(x)]
        if isinstance(q, (list, tuple, np.ndarray)):
            return pd.Series([l_quantile(v, x) for x in q], index=q)
        return l_quantile(v, q)
    return _orig['squantile'](self, q, interpolation)


def _p_series_isin(self, values):
    if E._ctx is not None and (has_sym(self) or has_sym(list(values) if not isinstance(values, (pd.Series, np.ndarray)) else values)):
        return np_isin(self, list(values))
    return _orig['sisin'](self, values)


def _p_series_cumsum(self, *a, **k):
    if E._ctx is not None and self.dtype == object and has_sym(self):
        return OV[np.cumsum](self)
    return _orig['scumsum'](self, *a, **k)


def _p_series_clip(self, lower=None, upper=None, **k):
    if E._ctx is not None and (has_sym(self) or has_sym([lower, upper])):
        return np_clip(self, lower, upper)
    return _orig['sclip'](self, lower, upper, **k)


def conv_tokens(vals):
    """cells of one text column that pandas would have parsed as numbers"""
    out = []
    anysym = False
    for v in vals:
        if isinstance(v, str):
            t = from_token(v)
            if t is not None:
                anysym = True
                out.append(t); continue
            if E.TOK_L in v:
                return None
            try:
                out.append(int(v)); continue
            except ValueError:
                pass
            try:
                out.append(float(v)); continue
            except ValueError:
                return None
        elif v is None or (isinstance(v, float) and v != v) or v is pd.NA:
            out.append(NAN)
        else:
            out.append(v)
    if not anysym:
        return None
    if any((type(v) is SymNum and v.py == 'f') or isinstance(v, float) for v in out):
        out = [SymNum(v.t, v.c, 'f') if type(v) is SymNum else float(v) for v in out]
    return out


def _p_read_csv(*a, **k):
    df = _orig['read_csv'](*a, **k)
    C = E._ctx
    if C is None or not isinstance(df, pd.DataFrame) or not C.tokens:
        return df
    dt = k.get('dtype')
    for j in range(df.shape[1]):
        col = df.iloc[:, j]
        if col.dtype.kind not in 'OUST' and str(col.dtype) not in ('str', 'string', 'object'):
            continue
        vals = list(col)
        if not any(isinstance(v, str) and E.TOK_L in v for v in vals):
            continue
        d = dt.get(df.columns[j]) if isinstance(dt, dict) else dt
        new = None if d in ('str', str, 'object', object) else conv_tokens(vals)
        o = np.empty(len(vals), object)
        for i, v in enumerate(new if new is not None else vals):
            o[i] = v
        if new is not None or d is None:
            cols = list(df.columns)
            ser = pd.Series(o, index=df.index, dtype=object)
            df = df.astype(object) if False else df
            df.isetitem(j, ser)
    return df


def _p_block_setitem(self, indexer, value):
    # a symbolic value stored in a column of numbers: the column keeps it (as objects) instead of forcing a number out of it
    if E._ctx is not None and self.dtype != object and (is_sym(value) or isinstance(value, (list, np.ndarray)) and has_sym(value)):
        return _orig['bsetitem'](self.astype(np.dtype(object)), indexer, value)
    return _orig['bsetitem'](self, indexer, value)


import pandas.core.internals.blocks as _pblocks
PATCHES = [
    (_pblocks.Block, 'setitem', _p_block_setitem, 'bsetitem'),
    (pd, 'read_csv', _p_read_csv, 'read_csv'),
    (_pda, '_astype_nansafe', _p_astype_nansafe, 'astype'), (_pda, 'astype_array', _p_astype_array, 'astype_array'),
    (pd, 'to_numeric', _p_to_numeric, 'to_numeric'),
    (pd.Series, '_reduce', _p_series_reduce, 'sreduce'),
    (pd.DataFrame, '_reduce', _p_frame_reduce, 'freduce'),
    (pd.Series, 'round', _p_series_round, 'sround'),
    (pd.Series, 'between', _p_series_between, 'sbetween'),
    (pd.Series, 'quantile', _p_series_quantile, 'squantile'),
    (pd.Series, 'isin', _p_series_isin, 'sisin'),
    (pd.Series, 'cumsum', _p_series_cumsum, 'scumsum'),
    (pd.Series, 'clip', _p_series_clip, 'sclip'),
]
EXTRA = []          # context managers factories added by obs.py


@contextlib.contextmanager
def env():
    for mod, name, fn, key in PATCHES:
        _orig[key] = getattr(mod, name)
    try:
        for mod, name, fn, key in PATCHES:
            setattr(mod, name, fn)
        with contextlib.ExitStack() as st:
            for f in EXTRA:
                st.enter_context(f())
            with np.errstate(all='ignore'):
                yield
    finally:
        for mod, name, fn, key in PATCHES:
            setattr(mod, name, _orig[key])
        STR_INT.clear()
