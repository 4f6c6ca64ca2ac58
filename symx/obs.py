"""obspy under symx: the real obspy classes run with instrumented copies of their own method bodies, so that time stamps
(nanoseconds, seconds, dates) may be symbolic; calendar arithmetic of the C datetime module is modelled here."""
import ast, contextlib, types, datetime, inspect, calendar
from fractions import Fraction as Fr
import numpy as np
import pandas as pd
import obspy
import obspy.core.utcdatetime as U
import obspy.core.trace as T
import obspy.core.stream as ST
import obspy.core.compatibility as CP
import obspy.core.util.base as UB
import obspy.core.util.misc as UM
from . import engine as E, shims as S
from .engine import SymNum, SymBool, is_sym, And, Or, Not, Ite, Unsupported


class SupRewriter(S.Rewriter):
    """also replaces zero-argument super()"""

    def __init__(self, cls=None):
        self.cls = cls; self.first = []

    def visit_FunctionDef(self, node):
        self.first.append(node.args.args[0].arg if node.args.args else 'self')
        self.generic_visit(node)
        self.first.pop()
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args and self.cls:
            node.args = [ast.Name(self.cls, ast.Load()), ast.Name(self.first[-1], ast.Load())]
            return node
        return super().visit_Call(node)


SRC = {}


def module_tree(mod):
    if mod not in SRC:
        SRC[mod] = ast.parse(open(mod.__file__, encoding='utf-8').read())
    return SRC[mod]


def instrument_class(mod, name, skip=()):
    """(real class, {attribute: instrumented function/property})"""
    real = getattr(mod, name)
    node = next(n for n in module_tree(mod).body if isinstance(n, ast.ClassDef) and n.name == name)
    import copy
    node = SupRewriter(name).visit(copy.deepcopy(node))
    m = ast.Module(body=[node], type_ignores=[])
    ast.fix_missing_locations(m)
    g = G[mod]
    exec(compile(m, mod.__file__, 'exec'), g)
    new = g[name]
    g[name] = real
    out = {}
    for k, v in new.__dict__.items():
        if k in skip or k in ('__dict__', '__weakref__', '__doc__', '__module__', '__slots__'):
            continue
        if isinstance(v, (types.FunctionType, property, staticmethod, classmethod)):
            out[k] = v
    return real, out


def instrument_func(mod, name):
    node = next(n for n in module_tree(mod).body if isinstance(n, ast.FunctionDef) and n.name == name)
    import copy
    node = SupRewriter().visit(copy.deepcopy(node))
    m = ast.Module(body=[node], type_ignores=[])
    ast.fix_missing_locations(m)
    exec(compile(m, mod.__file__, 'exec'), G[mod])
    return G[mod][name]


G = {}
for _m in (U, T, ST, CP, UB, UM):
    G[_m] = dict(_m.__dict__)
    G[_m]['__sx_call__'] = S.sx_call; G[_m]['__sx_cmp__'] = S.strs.compare; G[_m]['__sx_mod__'] = S.sx_strmod


def _ident(f=None, *a, **k):
    return f


# ------------------------------------------------------------------------------------------ calendar
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def days_from_civil(y, m, d):
    """days since 1970-01-01 of symbolic y, m, d (m in 1..12)"""
    leap = is_leap(y)
    cum = 0
    for k in range(12):
        cum = Ite(m == k + 1, CUM[k], cum)
    p = y - 1
    base = p * 365 + p // 4 - p // 100 + p // 400 - 719162
    return base + cum + Ite(And(leap, m > 2), 1, 0) + d - 1


def is_leap(y):
    return And((y % 4) == 0, Or(Not((y % 100) == 0), (y % 400) == 0))


class SymDT:
    """a datetime.datetime with symbolic fields"""

    def __init__(self, us=None, **f):
        self._us = us
        self._f = f

    @property
    def us(self):
        """microseconds since 1970"""
        if self._us is None:
            f = self._f
            days = days_from_civil(f['year'], f['month'], f['day'])
            self._us = ((days * 24 + f['hour']) * 60 + f['minute']) * 60 * 10 ** 6 + f['second'] * 10 ** 6 + f['microsecond']
        return self._us

    def _need(self):
        if 'year' in self._f:
            return
        sec = self.us // 10 ** 6
        day = sec // 86400
        if is_sym(day):
            day = int(E._ctx.concretize(day, 'day of a time stamp'))
        dt = datetime.datetime(1970, 1, 1) + datetime.timedelta(days=day)
        self._day = dt
        sod = sec - day * 86400
        self._f.update(year=dt.year, month=dt.month, day=dt.day, hour=sod // 3600, minute=(sod // 60) % 60,
                       second=sod % 60, microsecond=self.us % 10 ** 6)

    def __getattr__(self, k):
        if k in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
            self._need()
            return self._f[k]
        raise AttributeError(k)

    def __sub__(self, o):
        if isinstance(o, datetime.datetime):
            return SymTD(self.us - int((o - datetime.datetime(1970, 1, 1)) / datetime.timedelta(microseconds=1)))
        if isinstance(o, SymDT):
            return SymTD(self.us - o.us)
        if isinstance(o, SymTD):
            return SymDT(self.us - o.us)
        return NotImplemented

    def __add__(self, o):
        return SymDT(self.us + SymTD.of(o).us)
    __radd__ = __add__

    def utctimetuple(self):
        return self.timetuple()

    def timetuple(self):
        if 'year' in self._f and is_sym(self._f['year']) or is_sym(self._f.get('month')) or is_sym(self._f.get('day')):
            f = self._f
            yday = days_from_civil(f['year'], f['month'], f['day']) - days_from_civil(f['year'], 1, 1) + 1
        else:
            self._need()
            yday = datetime.date(self.year, self.month, self.day).timetuple().tm_yday
        return types.SimpleNamespace(tm_yday=yday, tm_year=self.year, tm_mon=self.month, tm_mday=self.day, tm_hour=self.hour,
                                     tm_min=self.minute, tm_sec=self.second)

    def date(self):
        self._need()
        return datetime.date(int(self.year), int(self.month), int(self.day))

    def concrete(self):
        us = E._ctx.concretize(self.us, 'time stamp') if is_sym(self.us) else self.us
        return datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=int(us))

    def strftime(self, fmt):
        m = {'Y': ('year', '04'), 'm': ('month', '02'), 'd': ('day', '02'), 'H': ('hour', '02'), 'M': ('minute', '02'),
             'S': ('second', '02'), 'f': ('microsecond', '06'), 'j': (None, '03')}
        out = ''
        i = 0
        while i < len(fmt):
            if fmt[i] == '%':
                i += 1
                while fmt[i].isdigit():
                    i += 1
                c = fmt[i]
                if c not in m:
                    return self.concrete().strftime(fmt)
                if c == 'j':
                    out += format(self.timetuple().tm_yday, '03')
                else:
                    out += format(getattr(self, m[c][0]), m[c][1])
            else:
                out += fmt[i]
            i += 1
        return out

    def isoformat(self, sep='T'):
        return self.strftime('%Y-%m-%d' + sep + '%H:%M:%S.%f')

    def __repr__(self):
        return 'datetime.datetime(symbolic)'


class SymTD:
    def __init__(self, us):
        self.us = us

    @staticmethod
    def of(x):
        if isinstance(x, SymTD):
            return x
        return SymTD(int(x / datetime.timedelta(microseconds=1)))

    @property
    def days(self):
        return self.us // (86400 * 10 ** 6)

    # (days*86400 + seconds)*10^6 + microseconds is all that is ever computed from the parts
    @property
    def seconds(self):
        return (self.us // 10 ** 6) - self.days * 86400

    @property
    def microseconds(self):
        return self.us - (self.us // 10 ** 6) * 10 ** 6

    def total_seconds(self):
        return self.us / 10 ** 6

    def __add__(self, o):
        if isinstance(o, datetime.datetime):
            return SymDT(self.us + int((o - datetime.datetime(1970, 1, 1)) / datetime.timedelta(microseconds=1)))
        return SymTD(self.us + SymTD.of(o).us)
    __radd__ = __add__

    def __sub__(self, o): return SymTD(self.us - SymTD.of(o).us)
    def __neg__(self): return SymTD(-self.us)


def sx_datetime(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **k):
    a = [year, month, day, hour, minute, second, microsecond]
    a = [S.scal(x) for x in a]
    for x in a:
        if type(x) is SymNum and x.py != 'i':
            raise TypeError("'float' object cannot be interpreted as an integer")
    year, month, day, hour, minute, second, microsecond = a
    ok = And(year >= 1, year <= 9999, month >= 1, month <= 12, hour >= 0, hour <= 23, minute >= 0, minute <= 59,
             second >= 0, second <= 59, microsecond >= 0, microsecond <= 999999, day >= 1)
    if not bool(ok):
        raise ValueError('date/time field out of range')
    dim = 31
    for k_ in range(12):
        dim = Ite(month == k_ + 1, DIM[k_], dim)
    dim = dim + Ite(And(is_leap(year), month == 2), 1, 0)
    if not bool(day <= dim):
        raise ValueError('day is out of range for month')
    return SymDT(year=year, month=month, day=day, hour=hour, minute=minute, second=second, microsecond=microsecond)


S.OV[datetime.datetime] = sx_datetime


def sx_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    us = (((weeks * 7 + days) * 24 + hours) * 60 + minutes) * 60 * 10 ** 6 + seconds * 10 ** 6 + milliseconds * 1000 + microseconds
    return SymTD(E.sym_round(us, 0) if type(us) is SymNum and not us.is_integral() else us)


S.OV[datetime.timedelta] = sx_timedelta


# ------------------------------------------------------------------------------------------ UTCDateTime
def _utc_sx_float(self):
    return self.timestamp


def _utc_float(self):
    v = self.timestamp
    if is_sym(v):
        return float(v)
    return v


def utc_from_ns(ns):
    return obspy.UTCDateTime(ns=ns)


CLASSES = []


def build():
    if CLASSES:
        return
    G[U]['_datetime_to_ns'] = instrument_func(U, '_datetime_to_ns')
    real, d = instrument_class(U, 'UTCDateTime')
    d['__float__'] = _utc_float
    d['__sx_float__'] = _utc_sx_float
    CLASSES.append((real, d))
    ra = instrument_func(CP, 'round_away')
    cp = types.SimpleNamespace(**{k: v for k, v in vars(CP).items() if not k.startswith('__')})
    cp.round_away = ra
    ced = instrument_func(UB, 'create_empty_data_chunk')
    gwt = instrument_func(UM, 'get_window_times')
    for m in (T, ST):
        G[m]['compatibility'] = cp
        for nm, f in (('create_empty_data_chunk', ced), ('get_window_times', gwt)):
            if nm in G[m]:
                G[m][nm] = f
    G[T]['_add_processing_info'] = _ident
    G[T]['_data_sanity_checks'] = instrument_func(T, '_data_sanity_checks')
    CLASSES.append(instrument_class(T, 'Stats'))
    CLASSES.append(instrument_class(T, 'Trace', skip=('write', 'plot', 'spectrogram', 'filter')))
    CLASSES.append(instrument_class(ST, 'Stream', skip=('write', 'plot', 'spectrogram')))


@contextlib.contextmanager
def patched():
    build()
    saved = []
    try:
        for real, d in CLASSES:
            for k, v in d.items():
                saved.append((real, k, real.__dict__.get(k, None), k in real.__dict__))
                setattr(real, k, v)
        yield
    finally:
        for real, k, old, had in reversed(saved):
            if had:
                setattr(real, k, old)
            else:
                delattr(real, k)


S.EXTRA.append(patched)
S.ensure = build
