"""C01: the compiled reader, line by line."""
import itertools, os, tempfile, shutil
from checks.common import *
from symx import pyx
from symx.pyx import Num

FUNCS = ['parsers.parse_gemfile (translated from parsers.pyx through the Cython parser; replays compile the same parsers.pyx)']
BOUNDS = ('files of a header and 3 (thorough: 4) lines, every sequence of the line kinds: full data line (count 0..8191, value -2^23..2^23, also negative and '
          'fractional counts), data line with one number, compact lines of one and of two letters (every letter), GPS, metadata, any other line (every other '
          'first character), empty line, and data/GPS/metadata lines cut after each field; numbers are symbolic')
OUTSIDE = 'lines longer than 254 characters; letters other than a-z within a compact line; a number cut in the middle; files with more rows than the reader was told to expect'
REACH = ['full', 'one', 'c1', 'c2', 'gps', 'meta', 'other', 'cut']
MODS = ['core']
ASSUMPTIONS = ['sscanf reads the decimal text of a number field as exactly that number']
KINDS = ['D', 'E', 'a', 'b', 'G', 'M', 'o', 't']
BUDGET = {'quick': 400, 'thorough': 780}
_tmp = None


def setup(tier):
    global _tmp
    pyx.load()
    _tmp = tempfile.mkdtemp(prefix='symx_pyx_')
    pyx.build(_tmp)


def teardown():
    shutil.rmtree(_tmp, ignore_errors=True)


def cases(tier):
    r = []
    n = 4 if tier == 'thorough' else 3
    first = list(itertools.product(KINDS, repeat=n - 2))
    for p in first:
        r.append({'name': ''.join(p) + '**', 'head': list(p)})
    cuts = [('D', 0)] + [('G', k) for k in range(10)] + [('M', k) for k in range(12)]
    for k, (t, j) in enumerate(cuts):
        r.append({'name': 'cut_%s%d' % (t, j), 'lines': ['D', 'G', 'M', ('cut', t, j), 'a']})
    for s in ('DaEbGMaob', 'bbMbGbbab', 'EEEaDb', 'eDeae', 'GGMMDD'):
        r.append({'name': 'long_' + s, 'lines': list(s)})
    r.append({'name': 'crlf', 'lines': ['D', 'a', 'G', 'M', 'E', 'b'], 'end': '\r\n'})
    r.append({'name': 'noeol', 'lines': ['D', 'a', 'M', 'b'], 'noeol': True})
    r.append({'name': 'fractional', 'lines': ['D', 'G', 'M', 'a'], 'frac': True})
    return r


def cells(s): return [ord(c) for c in s]


def num_(io, name, lo, hi, nd=None):
    if nd is None:
        return Num(io.int(name, lo, hi), None)
    return Num(io.grid(name, lo, hi, 10 ** nd), nd)


def build_lines(io, kinds, frac=False, end='\n', noeol=False):
    """[(cells, expected)]; expected None or (type, ms | 'prev', [values], letter offset)"""
    out = []
    for i, k in enumerate(kinds):
        p = 'l%d_' % i
        if isinstance(k, (list, tuple)):
            _, t, j = k
            c = {'D': cells('D'), 'G': cells('G,'), 'M': cells('M,')}[t]
            for q in range(j):
                c += [Num(io.int('%sf%d' % (p, q), 1, 60), None)] + cells(',')
            out.append((c, ('cut', t, j))); continue
        if k == 't':
            c = cells(['D', 'G,', 'M,', 'D'][i % 4]); out.append((c, ('cut', 'DGMD'[i % 4], 0))); continue
        if k == 'D':
            ms = num_(io, p + 'ms', -100, 8300, 1 if frac else None); v = num_(io, p + 'v', -2 ** 23, 2 ** 23)
            out.append((cells('D') + [ms] + cells(',') + [v], ('D', ms.value, [v.value], None)))
        elif k == 'E':
            v = num_(io, p + 'v', -2 ** 23, 2 ** 23)
            out.append((cells('D') + [v], ('D', 'prev', [v.value], 0)))
        elif k == 'a':
            c = io.int(p + 'c', 97, 122)
            out.append(([c], ('D', 'prev', [c - 109], 0)))
        elif k == 'b':
            c = io.int(p + 'c', 97, 122); d = io.int(p + 'd', 97, 122)
            out.append(([c, d], ('D', 'prev', [d - 109], c - 109)))
        elif k == 'G':
            ms = num_(io, p + 'ms', -100, 8300, 2 if frac else None)
            f = [num_(io, p + 'lag', -5, 2000, None), num_(io, p + 'yr', 0, 2100), num_(io, p + 'mo', 0, 99), num_(io, p + 'dy', 0, 99), num_(io, p + 'hr', 0, 99),
                 num_(io, p + 'mi', 0, 99), num_(io, p + 's', 0, 999, 1), num_(io, p + 'la', -9000000, 9000000, 5), num_(io, p + 'lo', -18000000, 18000000, 5)]
            c = cells('G,') + [ms]
            for x in f: c += cells(',') + [x]
            out.append((c, ('G', ms.value, [x.value for x in f], None)))
        elif k == 'M':
            ms = num_(io, p + 'ms', -100, 8300, 1 if frac else None)
            f = [num_(io, p + 'ba', -999, 999, 2), num_(io, p + 'te', -999, 999, 1), num_(io, p + 'a2', 0, 9999, 3), num_(io, p + 'a3', 0, 9999, 3)]
            f += [num_(io, p + 'i%d' % q, 0, 9999) for q in range(7)]
            c = cells('M,') + [ms]
            for x in f: c += cells(',') + [x]
            out.append((c, ('M', ms.value, [x.value for x in f], None)))
        elif k == 'o':
            ch = io.int(p + 'ch', -128, 127)
            io.assume(Not(Or(And(ch >= 97, ch <= 122), ch == 68, ch == 71, ch == 77, ch == 0, ch == 10, ch == 13)))
            out.append(([ch] + cells(',12,34'), None))
        elif k == 'e':
            out.append(([], None))
    e = cells(end)
    return [(c + (e if not (noeol and i == len(out) - 1) else []), x) for i, (c, x) in enumerate(out)]


def to_bytes(cs):
    b = bytearray()
    for c in cs:
        if isinstance(c, Num): b += c.text().encode()
        else: b.append(int(c) & 255)
    return bytes(b)


HEAD = ['#GemCSV1.10', '#DmsSamp,ADC', '#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon', 'S,077', 'C,1,15,20,0,0,0']


def parse(io, lines, **kw):
    """(values, types, millis) of the reader on HEAD + lines (lists of cells)"""
    head = [cells(h + '\n') for h in HEAD]
    if io.symbolic:
        ns = pyx.load()
        pyx.FILES['sym'] = [list(l) for l in head + lines]
        try:
            return ns['parse_gemfile'](b'sym', **kw)
        finally:
            pyx.FILES.pop('sym', None)
    f = io.tmpdir() + '/x'
    with open(f, 'wb') as h:
        for l in head + lines: h.write(to_bytes(l))
    return pyx.build(None).parse_gemfile(f.encode(), **kw)


def harness(io):
    cs = io.case
    kinds = cs.get('lines')
    if kinds is None:
        kinds = list(cs['head']) + [io.choice('k1', KINDS), io.choice('k2', KINDS)]
    L = build_lines(io, kinds, cs.get('frac', False), cs.get('end', '\n'), cs.get('noeol', False))
    v, t, ms = parse(io, [c for c, _ in L])
    exp = [x for _, x in L if x is not None]
    n = len(t)
    io.observe('n', n)
    whole = [x for x in exp if x[0] != 'cut']
    if not io.check(len(whole) <= n <= len(exp) and len(ms) == n and v.shape[0] == n, 'one record per line: %d records for %d lines' % (n, len(exp))):
        return
    if n == len(whole):
        exp = whole
    elif n != len(exp):
        return
    prev = 0
    for i, x in enumerate(exp):
        tt = t[i].decode() if isinstance(t[i], bytes) else str(t[i])
        row = [num(v[i, j]) for j in range(11)]; m = num(ms[i])
        if x[0] == 'cut':
            io.reach('cut')
            # fields that are not on the line must not come from an earlier one (all other fields are at least 1 here)
            if x[2] == 0 and x[1] != 'D':
                io.check(S.isnanv(m) or m == 0, 'a line that was cut short does not have the time of an earlier line: %s' % (x,))
            for j in range(max(x[2] - 1, 0), 11):
                io.check(S.isnanv(row[j]) or row[j] == 0, 'a line that was cut short has none of the values of earlier lines: %s' % (x,))
            continue
        if not io.check(tt == x[0], 'record type'): return
        k = x[1]
        if isinstance(k, str):
            want = prev + 10 + x[3]
            want = want % 8192
            io.reach('c2' if x[3] is not 0 else 'one')
            io.reach('c1')
        else:
            want = k
            io.reach({'D': 'full', 'G': 'gps', 'M': 'meta'}[x[0]])
        io.check(near(m, want, 1e-9), 'millisecond count of the line: %s' % x[0])
        if x[0] == 'D': prev = want
        for j, w in enumerate(x[2]):
            io.check(near(row[j], w, 1e-9), 'value on the line: %s field %d' % (x[0], j))
        io.observe('rec', [tt, m] + row[:len(x[2])])
    if 'o' in kinds: io.reach('other')
    if any(k == 't' or isinstance(k, (list, tuple)) for k in kinds): io.reach('cut')
