"""C03: decoding of pressure and metadata values."""
from checks.common import *

FUNCS = ['core._read_single', 'core._read_with_cython', 'core._read_with_pandas', 'core._read_0_8_pd', 'core._process_gemlog_data']
BOUNDS = ('files of 4 to 7 records (10 thorough) in every listed order of data/GPS/metadata records, some with the same millisecond count; every logged pressure difference in '
          '-2^23..2^23 and every metadata value (integers in -10^6..10^6, or multiples of 0.001), read through the compiled-parser path '
          'and, for formats 0.85C and later, also through the text fallback')
OUTSIDE = 'more records (values are decoded column-wise); metadata values with more decimals'
REACH = ['cython', 'pandas', 'old']
MODS = ['core', 'gemlog_aux']
PAT = ['DMGD', 'GDDMD', 'MDGMDD', 'DDGDDM', 'DM=M=GD']          # '=': same millisecond count as the record before
PAT_T = ['DGDMDDGMDD', 'MMDDGGDDDM', 'DDDDDMGDDM', 'DM=GDM=M=M=DD', 'D=M=D=G=M']
COLS = ['batt', 'temp', 'A2', 'A3', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag', 'unusedStack1',
        'unusedStackIdle']
COLS08 = ['batt', 'temp', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag', 'unusedStack1',
          'unusedStackIdle']


def cases(tier):
    r = []
    for v in VERSIONS_NEW + VERSIONS_OLD:
        for p in PAT + (PAT_T if tier == 'thorough' else []):
            for reader in (['cython', 'pandas'] if v in VERSIONS_NEW else ['file']):
                if reader == 'pandas' and v in ('1.10',):
                    continue          # compact lines are only understood by the compiled parser
                r.append({'name': '%s_%s_%s' % (v, p, reader), 'version': v, 'pat': p, 'reader': reader})
    return r


def harness(io):
    core = io.mod('core')
    v = io.case['version']; pat = io.case['pat']; reader = io.case['reader']
    cols = COLS08 if v == '0.8' else COLS
    rows = []; A = []; MD = []
    ms = -7
    for i, t in enumerate(pat):
        if t == '=':
            continue
        ms += 0 if pat[:i].endswith('=') else 10
        if t == 'D':
            a = io.int('a%d' % i, -2 ** 23, 2 ** 23)
            A.append(a); rows.append((t, ms, [a]))
        elif t == 'G':
            rows.append((t, ms, [70, 2020, 6, 20, 5, 21, 22 + i, 43.62226, -116.20594]))
        else:
            vals = []
            for c in cols:
                if c in ('batt', 'temp', 'A2', 'A3'):
                    vals.append(io.grid('%s%d' % (c, i), -10 ** 6, 10 ** 6, 1000))
                else:
                    vals.append(io.int('%s%d' % (c, i), -10 ** 6, 10 ** 6))
            MD.append(vals); rows.append((t, ms, vals))
    if reader == 'cython':
        fn = 'FILE0000.077'
        feed(io, core, {fn: rows}); io.reach('cython')
    else:
        fn = write_raw(io.tmpdir() + '/FILE0000.077', v, rows)
        if reader == 'pandas':
            feed(io, core, {fn: ValueError('no compiled parser')}); io.reach('pandas')
        else:
            io.reach('old')
    L = core._read_single(fn, 0, version=v)
    D = L['data']
    if not io.check(D.shape[0] == len(A), 'one pressure sample per data record: %s' % (D.shape,)):
        return
    run = 0
    got = []
    for i, a in enumerate(A):
        run = a if v in VERSIONS_OLD else run + a
        got.append(num(D[i, 1]))
        io.check(near(num(D[i, 1]), run), 'pressure value: sample %d' % i)
    io.observe('p', got)
    for c_i, c in enumerate(cols):
        col = items(L['metadata'][c])
        if not io.check(len(col) == len(MD), 'one metadata row per record: %d' % len(col)):
            return
        for i, vals in enumerate(MD):
            io.check(near(num(col[i]), vals[c_i]), 'metadata value: %s row %d' % (c, i))
        io.observe(c, [num(x) for x in col])
