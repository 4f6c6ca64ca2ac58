"""C14: concatenation of raw files."""
import itertools, os, re, glob
from checks.common import *
from checks import c01, c15
from symx import pyx

FUNCS = ['gem_cat.gem_cat', 'gem_cat.AppendFile', 'core._read_SN', 'core._read_format_version', 'core._read_single',
         'parsers.parse_gemfile (translated from parsers.pyx)']
BOUNDS = ('three or four input files (thorough: up to five) of every raw format, each with or without GPS records (every combination), with symbolic first and '
          'later pressure values (-2^23..2^23), GPS/metadata records before or after the first data line, first data lines written in full, with one number or '
          'in the compact form, files ending in mid-line, gaps in the numbering, and the concatenate-everything mode')
OUTSIDE = 'compact letters other than the listed ones; input files of different formats or loggers; blank header lines; files without any data line'
REACH = ['appended', 'split', 'skipped', 'compact', 'single', 'cat_all', 'old']
MODS = ['core', 'gem_cat']
setup = c01.setup
teardown = c01.teardown
DIFF = ['0.85C', '0.9', '0.91', '1.10']
# layouts of a file: F full data line, E one number, a/b compact lines (fixed letters), G/M/R other lines; '!' ends in mid-line
LAY = {'0.9': ['FMF', 'MFF', 'FMF!'], '1.10': ['FEMa', 'bMFa', 'EbMF!', 'MaF', 'aFMb'], '0.91': ['FMF', 'RFMF'], '0.85C': ['FMF'], '0.85': ['FMF', 'MFF!'], '0.8': ['FMF', 'MFF']}


def cases(tier):
    r = []
    for v, ls in LAY.items():
        for l in ls:
            n = 3 if tier == 'quick' else 4
            for ga in (0, 1):
                if ga and l not in (ls[0], ls[-1]) and tier == 'quick': continue
                r.append({'name': '%s_%s_%s' % (v, l, 'gps_first' if ga else 'gps_last'), 'version': v, 'lays': [l] * n, 'gfirst': ga})
    r.append({'name': '1.10_mixed', 'version': '1.10', 'lays': ['FaME', 'aFMb', 'EME', 'bbMF'], 'gfirst': 0})
    r.append({'name': '0.9_four', 'version': '0.9', 'lays': ['FMF', 'FMF', 'MFF!', 'FFM'], 'gfirst': 1})
    r.append({'name': '0.9_all', 'version': '0.9', 'lays': ['FMF', 'FMF', 'MFF!', 'FMF'], 'gfirst': 0, 'cat_all': True})
    r.append({'name': '1.10_all', 'version': '1.10', 'lays': ['FME', 'aME', 'EMF'], 'gfirst': 0, 'cat_all': True})
    r.append({'name': '0.8_all', 'version': '0.8', 'lays': ['FFM', 'MF', 'FMF'], 'gfirst': 0, 'cat_all': True})
    if tier == 'thorough':
        r.append({'name': '0.91_five', 'version': '0.91', 'lays': ['FMF'] * 5, 'gfirst': 0})
        r.append({'name': '1.10_five', 'version': '1.10', 'lays': ['FaMF', 'MEF', 'bME!', 'FME', 'aMF'], 'gfirst': 0})
    return r


HEAD = {'1.10': ['#[msSamp]ADC #m=10,0', '#[DmsSamp,]ADC']}
REST = ['#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon', '#M,ms,batt(V),temp(C),A2,A3,maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,freeStackIdle', 'S,077']


def write(io, fn, v, lay, k, gps):
    """writes a file; returns True if it has a GPS record"""
    L = ['#GemCSV' + v] + HEAD.get(v, ['#DmsSamp,ADC']) + REST + (['C,1,15,20,0,0,0'] if v not in ('0.85', '0.8', '0.85C') else ['#R,NMEA'] if v != '0.85' else ['#R,NMEA', 'C,1,15,20'])
    old = v in VERSIONS_OLD
    ms = 100
    cut = lay.endswith('!')
    for i, c in enumerate(lay.rstrip('!')):
        if c == 'F':
            a = io.int('f%d_%d' % (k, i), -2 ** 23, 2 ** 23)
            L.append(('D,%d,%s' if old else 'D%d,%s') % (ms, text(a)))
        elif c == 'E':
            L.append('D%s' % text(io.int('f%d_%d' % (k, i), -2 ** 23, 2 ** 23))); io.reach('single')
        elif c == 'a':
            L.append('agz'[(i + k) % 3]); io.reach('compact')
        elif c == 'b':
            L.append(['mm', 'hx', 'zb'][(i + k) % 3])
        elif c == 'M':
            L.append('M,%d,3.02,22.1,%s94,66,9,0,%d,57,86' % (ms, '' if v == '0.8' else '1.412,2.052,', k))
        elif c == 'R':
            L.append('R,$GPRMC,052122.000,A,4337.3356,N')
        ms += 10
    if gps:
        L.insert(len(L) - 1, 'G,%d,70,2020,6,20,5,%d,22.0,43.62226,-116.20594' % (ms - 12, k))
    with open(fn, 'w') as f:
        f.write('\n'.join(L) + ('' if cut else '\n'))


def body(fn):
    """lines past the header"""
    L = open(fn).read().split('\n')
    if L[-1] == '': L.pop()
    j = 0
    while j < len(L) and L[j][:1] in ('#', 'S', 'C'): j += 1
    return L[j:]


def decode(io, core, fn, v):
    """(absolute pressure readings, millisecond counts)"""
    L = core._read_single(fn, require_gps=False, version=v)
    return [num(x) for x in L['data'][:, 1]], [int(num(x)) for x in L['data'][:, 0]]


def harness(io):
    cat = io.mod('gem_cat'); core = io.mod('core')
    cs = io.case; v = cs['version']
    d = io.tmpdir(); src = d + '/raw'; dst = d + '/merged'
    os.mkdir(src)
    par = parsers_mod(io)
    f = (lambda filename, n_row=1560000: c15.parse_text(io, filename.decode() if isinstance(filename, bytes) else filename, n_row=n_row))
    if v in DIFF:
        io.patch(par, 'parse_gemfile', f)
        if hasattr(core, 'parse_gemfile'): io.patch(core, 'parse_gemfile', f)
    else:
        io.reach('old')
    n = len(cs['lays']); gps = []; files = []
    for k, lay in enumerate(cs['lays']):
        g = io.bool('gps%d' % k)
        if k == 0:
            io.assume(Iff(g, bool(cs['gfirst'])))
        g = bool(g); gps.append(g)
        fn = src + '/FILE%04d.077' % (3 * k + 1 if k < 2 else 2 * k + 2)
        write(io, fn, v, lay, k, g); files.append(fn)
    readings = [decode(io, core, fn, v) for fn in files]
    bodies = [body(fn) for fn in files]
    # expected outputs: lists of file indices
    exp = []
    if cs.get('cat_all'):
        exp = [list(range(n))]; io.reach('cat_all')
    else:
        for k in range(n):
            if not exp and not gps[k]:
                io.reach('skipped'); continue
            if not exp or (gps[k] and gps[k - 1]):
                exp.append([k])
                if len(exp) > 1: io.reach('split')
            else:
                exp[-1].append(k); io.reach('appended')
    cat.gem_cat(src, dst, '077', **({'cat_all': True} if cs.get('cat_all') else {}))
    outs = sorted(glob.glob(dst + '/*'))
    io.observe('outs', [os.path.basename(o) for o in outs])
    if not io.check(len(outs) == len(exp), 'one output per group of files: %d for %s' % (len(outs), exp)):
        return
    for o, idx in zip(outs, exp):
        io.check(re.fullmatch(r'FILE\d{4}\.077', os.path.basename(o)) is not None, 'name of an output')
        want = [x for k in idx for x in bodies[k]]
        got = body(o)
        if not io.check(len(got) == len(want), 'every line past the header is copied once: %d of %d' % (len(got), len(want))):
            return
        isdata = lambda l: l[:1] == 'D' or (l[:1].islower())
        for a, b in zip(want, got):
            io.check(isdata(a) == isdata(b) and (isdata(a) or a == b), 'lines are kept in order')
        p, ms = decode(io, core, o, v)
        q = [x for k in idx for x in readings[k][0]]
        qm = [x for k in idx for x in readings[k][1]]
        if not io.check(len(p) == len(q), 'as many readings as in the inputs: %d, %d' % (len(p), len(q))):
            return
        for a, b in zip(p, q):
            io.check(near(a, b), 'absolute pressure readings are kept')
        io.check(all((a - b) % 8192 == 0 for a, b in zip(ms, qm)), 'millisecond counts are kept')
        io.observe('p', p)
