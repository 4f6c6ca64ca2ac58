"""C15: conversion of raw files to the compact format."""
import itertools, os, re, tempfile, shutil
from checks.common import *
from checks import c01
from symx import pyx
from symx.pyx import Num

FUNCS = ['gemlog_aux._convert_raw_091_110', 'core._read_format_version', 'parsers.parse_gemfile (translated from parsers.pyx)', 'core._read_single']
BOUNDS = ('input files of formats 0.85C, 0.9 and 0.91 with three or four data lines (thorough: four) and other lines between them; every millisecond count 0..8191 '
          'for each data line and every pressure difference in -2^23..2^23; data lines with one or three numbers among them; both line endings')
OUTSIDE = 'lines that do not start with an ASCII letter or #; non-integer numbers on data lines; millisecond counts outside 0..8191'
MAX_PATHS = 20000
MAX_REPLAYS = 200
REACH = ['compact', 'kept']
MODS = ['core', 'gemlog_aux']
CASE_BUDGET = {'quick': 250, 'thorough': 700}
OTHER = {'G': 'G,1234.5,70,2020,6,20,5,21,22.0,43.62226,-116.20594', 'M': 'M,1240,3.02,22.1,1.412,2.052,94,66,9,0,0,57,86',
         'R': 'R,$GPRMC,052122.000,A,4337.3356,N,11612.3564,W,0.02', 'P': 'P,31,0.5'}
setup = c01.setup
teardown = c01.teardown


def cases(tier):
    r = []
    pats = ['DGDMD', 'DEDD', 'GDTDM', 'EDDD', 'DDED', 'MRDPDGD'] + (['DDDD', 'DEDED', 'TGDMD'] if tier == 'thorough' else [])
    for v in ['0.85C', '0.9', '0.91']:
        for p in pats if v == '0.91' else pats[:2]:
            r.append({'name': '%s_%s' % (v, p), 'version': v, 'pat': p, 'eol': '\n' if v != '0.9' else '\r\n'})
    r.append({'name': 'reads_0.91', 'version': '0.91', 'pat': 'DMDDD', 'eol': '\n', 'concrete': True})
    return r


def decode(io, fn):
    """lines of cells of a text file that may hold tokens"""
    b = open(fn, 'rb').read().decode('latin-1')
    out = []
    for ln in re.findall(r'[^\n]*\n|[^\n]+', b):
        cs = []
        for part in re.split('(\x01[^\x02]*\x02)', ln):
            if part.startswith('\x01'):
                n, _, spec = part[1:-1].partition(':')
                v = E._ctx.tokens[int(n)]
                if spec == 'chr':
                    cs.append(v)
                else:
                    cs.append(Num(S.apply_spec(v, spec) if spec else v, None if v.py == 'i' else 5))
            else:
                cs += [ord(c) for c in part]
        out.append(cs)
    return out


def parse_text(io, fn, **kw):
    if io.symbolic:
        ns = pyx.load()
        pyx.FILES['dec'] = decode(io, fn)
        try:
            return ns['parse_gemfile'](b'dec', **kw)
        finally:
            pyx.FILES.pop('dec', None)
    return pyx.build(None).parse_gemfile(fn.encode(), **kw)


def other_lines(fn):
    L = [l.rstrip('\r\n') for l in open(fn, newline='')]
    return [l for l in L if not l.startswith('#') and not re.match('[D\x01a-z]', l)]


def harness(io):
    aux = io.mod('gemlog_aux'); core = io.mod('core')
    cs = io.case; eol = cs['eol']
    d = io.tmpdir(); src = d + '/FILE0001.077'; dst = d + '/out.077'
    lines = ['#GemCSV' + cs['version'], '#DmsSamp,ADC', '#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon', 'S,077', 'C,1,15,20,0,0,0']
    for i, k in enumerate(cs['pat']):
        if k in 'DET':
            if cs.get('concrete'):
                ms, a = [10, 20, 21, 31, 41, 51][i], [5, 0, -12, 13, 12, -13][i]
            else:
                ms = io.int('ms%d' % i, 0, 8191) if k != 'E' else 0
                a = io.int('a%d' % i, -2 ** 23, 2 ** 23)
            lines.append({'D': 'D%s,%s' % (text(ms), text(a)), 'E': 'D%s' % text(a), 'T': 'D%s,%s,%s' % (text(ms), text(a), text(-1))}[k])
        else:
            lines.append(OTHER[k])
    with open(src, 'w', newline='') as f:
        f.write(eol.join(lines) + eol)
    aux._convert_raw_091_110(src, dst)
    if not io.check(os.path.exists(dst), 'the converted file exists'):
        return
    # other lines
    io.check(other_lines(src) == other_lines(dst), 'lines other than data are kept')
    v0, t0, m0 = parse_text(io, src); v1, t1, m1 = parse_text(io, dst)
    if not io.check(len(t0) == len(t1), 'as many records as before: %d, %d' % (len(t0), len(t1))):
        return
    obs = []
    for i in range(len(t0)):
        if not io.check(t0[i] == t1[i], 'record types'): return
        io.check(near(num(m0[i]), num(m1[i]), 1e-9), 'millisecond count: %s' % t0[i].decode())
        for j in range(11):
            io.check(near(num(v0[i, j]), num(v1[i, j]), 1e-9), 'value: %s field %d' % (t0[i].decode(), j))
        obs += [num(m1[i]), num(v1[i, 0])]
    io.observe('dec', obs)
    for l in decode(io, dst) if io.symbolic else [list(x) for x in open(dst, 'rb').read().split(b'\n') if x]:
        c = l[0]
        if type(c) is SymNum or 97 <= c <= 122: io.reach('compact')
        elif c == 68: io.reach('kept')
    ver = core._read_format_version(dst)
    io.observe('version', str(ver))
    if cs.get('concrete'):
        # the package itself reads it
        par = parsers_mod(io)
        f = (lambda filename, n_row=1560000: parse_text(io, filename.decode() if isinstance(filename, bytes) else filename, n_row=n_row))
        io.patch(par, 'parse_gemfile', f)
        if hasattr(core, 'parse_gemfile'): io.patch(core, 'parse_gemfile', f)
        shutil.copy(dst, d + '/FILE0002.077'); os.remove(src); os.remove(dst)
        try:
            L = core.read_gem(d, 2, SN='077', require_gps=False)
            ok = True; n = sum(len(tr.data) for tr in L['data']); msg = ''
        except Exception as e:
            ok = False; n = 0; msg = repr(e)[:100]
        if io.check(ok, 'the package reads the converted file: ' + msg):
            io.check(n >= 2, 'the package reads the samples of the converted file')
    else:
        io.check(str(ver) in VERSIONS_NEW, 'declared version is one that the package reads: %s' % ver)
