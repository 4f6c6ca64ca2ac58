"""Shared pieces of the harnesses."""
import numpy as np
from symx import engine as E, shims as S
from symx import strs
from symx.engine import SymNum, And, Or, Not, Implies, Abs, AbsLe, Iff, sym_eq

VERSIONS_NEW = ['0.85C', '0.9', '0.91', '1.10']
VERSIONS_OLD = ['0.8', '0.85']
NG = 9          # values on a GPS line after the millisecond count
NM = {'0.8': 9}  # values on a metadata line after the millisecond count (11 otherwise)


def obj(rows, n):
    a = np.empty((len(rows), n), object)
    for i, r in enumerate(rows):
        for j in range(n):
            a[i, j] = r[j] if j < len(r) else 0.0
    return a


def arr1(vals):
    a = np.empty(len(vals), object)
    for i, v in enumerate(vals):
        a[i] = v
    return a


def parser_result(io, rows):
    """what the compiled parser returns for rows of (type, millis, values...)"""
    types = np.array([r[0].encode() for r in rows], dtype='S1')
    if io.symbolic:
        vals = obj([r[2] for r in rows], 11)
        mil = arr1([r[1] for r in rows])
        if not S.has_sym(vals): vals = vals.astype(float)
        if not S.has_sym(mil): mil = mil.astype(float)
    else:
        vals = np.zeros((len(rows), 11))
        for i, r in enumerate(rows):
            for j, v in enumerate(r[2]):
                vals[i, j] = v
        mil = np.array([float(r[1]) for r in rows])
    return vals, types, mil


def parsers_mod(io):
    import sys
    if io.symbolic:
        S.ensure_pkg()
        return sys.modules[S.PKG + '.parsers']
    S.pristine('core')
    import gemlog.parsers
    return gemlog.parsers


def feed(io, core, table):
    """table: file name -> rows, or an exception instance; replaces the compiled parser"""
    def parse_gemfile(filename, n_row=1560000):
        fn = filename.decode() if isinstance(filename, bytes) else str(filename)
        r = table[fn]
        if isinstance(r, BaseException):
            raise r
        return parser_result(io, r)
    io.patch(parsers_mod(io), 'parse_gemfile', parse_gemfile)
    if hasattr(core, 'parse_gemfile'):
        io.patch(core, 'parse_gemfile', parse_gemfile)
    return parse_gemfile


def text(v):
    """text of a number on a raw line"""
    if type(v) is SymNum:
        return str(v)
    if isinstance(v, float):
        return repr(v)
    return str(v)


def raw_lines(version, rows):
    """raw text lines of rows (type, millis, values...) in the layout of a raw format version"""
    out = []
    for t, ms, vals in rows:
        if t == 'D' and version not in VERSIONS_OLD:
            out.append('D%s,%s' % (text(ms), ','.join(text(v) for v in vals)))
        else:
            out.append('%s,%s,%s' % (t, text(ms), ','.join(text(v) for v in vals)))
    return out


def write_raw(path, version, rows, SN='077', config='C,1,15,20,0,0,0'):
    """a raw file as the loggers write it"""
    head = ['#GemCSV' + version, '#DmsSamp,ADC', '#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon',
            '#M,ms,batt(V),temp(C),A2,A3,maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,freeStackIdle',
            'S,' + SN, config]
    with open(path, 'w') as f:
        f.write('\n'.join(head + raw_lines(version, rows)) + '\n')
    return path


def items(x):
    """flat list of the values of a column"""
    return list(np.asarray(x).ravel()) if not isinstance(x, list) else x


def num(v):
    """plain number or SymNum of a cell"""
    v = S.scal(v)
    return v


def near(a, b, tol=1e-6):
    """|a-b| <= tol"""
    if S.isnanv(a) or S.isnanv(b):
        return S.isnanv(a) and S.isnanv(b)
    return AbsLe(a - b, tol)


def dist_mod(x, R, tol=1e-6):
    """x within tol of a multiple of R (x SymNum or number)"""
    import math
    from fractions import Fraction as Fr
    if type(x) is SymNum:
        r = x % R
        return Or(r <= tol, r >= R - tol)
    r = x % R
    return r <= tol or r >= R - tol


def sym_char(io, name, alphabet):
    """one character of an alphabet (as text)"""
    al = ''.join(sorted(set(alphabet)))
    k = io.int(name, 0, len(al) - 1)
    return strs.new_char(al, k) if io.symbolic else al[k]


def digits(io, name, n, alphabet='0123456789'):
    """n digits (as text)"""
    return ''.join(sym_char(io, '%s%d' % (name, j), alphabet) for j in range(n))


def value(s):
    """number written as text"""
    v = strs.tonum(s)
    return int(s) if v is None else v


def arg_numbers(io):
    """let argparse convert symbolic numbers in command line options"""
    if not io.symbolic: return
    import argparse
    orig = argparse.ArgumentParser._registry_get

    def get(self, registry, value, default=None):
        f = orig(self, registry, value, default)
        return {float: S.sx_float, int: S.sx_int}.get(f, f) if registry == 'type' else f
    io.patch(argparse.ArgumentParser, '_registry_get', get)
