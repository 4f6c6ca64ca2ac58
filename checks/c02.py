"""C02: unwrapping the millisecond counter."""
from checks.common import *

FUNCS = ['core._read_single', 'core._read_with_cython', 'core._read_0_8_pd', 'core._process_gemlog_data', 'core._gps_in_bounds',
         'core._make_gps_time', 'core._unwrap_millis']
BOUNDS = ('files of 3 to 5 records (quick; 7 thorough), every listed order of data/GPS/metadata records, every true step strictly '
          'between -R/2 and R/2 (integer ms; GPS counts on a 0.01 ms grid in the formats that have fractional GPS counts), every starting count, every starting offset 0..1e9 '
          '(integer and, in some cases, with 0.01 ms fraction); all six format versions')
OUTSIDE = 'longer files (each record is unwrapped from its neighbour only, so longer files add no new cases in a loop-free implementation)'
REACH = ['wrap_up', 'wrap_down', 'read']
MODS = ['core', 'gemlog_aux']
PAT = ['DMG', 'GDM', 'DGMD', 'MDGD', 'DMGDD']
PAT_T = ['DDMGGD', 'GDDMMD', 'DMGDDGM', 'MGDMGDD']


def cases(tier):
    r = []
    for v in ['0.9', '0.85C', '0.91', '1.10', '0.85', '0.8']:
        for p in PAT + (PAT_T if tier == 'thorough' else []):
            r.append({'name': '%s_%s' % (v, p), 'version': v, 'pat': p, 'off': 'int'})
        r.append({'name': '%s_%s_fracoff' % (v, 'DMG'), 'version': v, 'pat': 'DMG', 'off': 'frac'})
    r.append({'name': '0.9_unwrap_millis', 'version': None, 'pat': '', 'off': 'int'})
    return r


def harness(io):
    core = io.mod('core')
    v = io.case['version']
    if v is None:
        # the single-step rule used when lines are read one by one
        R = 8192
        T0 = io.int('old', 0, 10 ** 9); d = io.int('d', -4095, 4095)
        got = core._unwrap_millis((T0 + d) % R, T0)
        io.observe('got', got)
        io.check(near(got, T0 + d), 'single step unwraps to the true count: ')
        return
    R = 8192 if v in VERSIONS_NEW else 65536
    H = R // 2
    pat = io.case['pat']
    T = [None] * len(pat)
    T[0] = io.int('T0', 0, 10 ** 6)
    gfrac = v in VERSIONS_NEW      # fractional GPS counts exist only in the later formats
    if pat[0] == 'G' and gfrac:
        T[0] = T[0] + io.grid('f0', 0, 99, 100)
    for i in range(1, len(pat)):
        if gfrac and (pat[i] == 'G' or pat[i - 1] == 'G'):
            st = io.grid('s%d' % i, -H * 100 + 1, H * 100 - 1, 100)
            # data and metadata counts are whole milliseconds
            if pat[i] != 'G':
                prev = T[i - 1]
                t = io.int('T%d' % i, -10 ** 6, 3 * 10 ** 6)
                io.assume(near(t - prev, st, 0))
                T[i] = t
                continue
        else:
            st = io.int('s%d' % i, -H + 1, H - 1)
        T[i] = T[i - 1] + st
    saw = [t % R for t in T]
    rows = []
    for i, t in enumerate(pat):
        if t == 'D': vals = [7 + i]
        elif t == 'G': vals = [70, 2020, 6, 20 + i, 5, 21, 22.0, 43.62226, -116.20594]
        else: vals = [3.02 + i, 22.1, 1.412, 2.052, 94, 66, 9, 0, 0, 57, 86][:11]
        if t == 'M' and v == '0.8': vals = vals[:2] + vals[4:]
        rows.append((t, saw[i], vals))
    off = io.int('offset', 0, 10 ** 9)
    if io.case['off'] == 'frac':
        off = off + io.grid('offfrac', 0, 99, 100)
    if v in VERSIONS_NEW:
        fn = 'FILE0000.077'
        feed(io, core, {fn: rows})
    else:
        fn = write_raw(io.tmpdir() + '/FILE0000.077', v, rows)
    L = core._read_single(fn, off, version=v)
    io.reach('read')
    D = L['data']; M = items(L['metadata']['millis']); G = items(L['gps']['msPPS'])
    if not io.check(D.shape[0] == pat.count('D') and len(M) == pat.count('M') and len(G) == pat.count('G'),
                    'every record is returned: %s' % [D.shape[0], len(M), len(G)]):
        return
    it = {'D': [D[i, 0] for i in range(D.shape[0])], 'M': M, 'G': G}
    k = {'D': 0, 'M': 0, 'G': 0}
    got = []
    for t in pat:
        x = num(it[t][k[t]]); k[t] += 1
        # data samples carry a constant analog-filter delay correction of 8.93 ms
        got.append(x - 8.93 if t == 'D' else x)
    io.observe('got', got)
    for i in range(1, len(pat)):
        io.check(near(got[i] - got[0], T[i] - T[0], 1e-4), 'difference equals the true elapsed time: record %d' % i)
    if io.symbolic and len(pat) <= 3:
        for i in range(1, len(pat)):
            if bool(saw[i] - saw[i - 1] < -H): io.reach('wrap_up')
            if bool(saw[i] - saw[i - 1] > H): io.reach('wrap_down')
    elif len(pat) <= 3:
        for i in range(1, len(pat)):
            if saw[i] - saw[i - 1] < -H: io.reach('wrap_up')
            if saw[i] - saw[i - 1] > H: io.reach('wrap_down')
    # first count congruent to the logged one and within half a period of the offset (the others follow)
    io.check(dist_mod(got[0] - saw[0], R, 1e-3), 'first count is congruent to the logged count: ')
    io.check(AbsLe(got[0] - off, H + 1e-3), 'first count lies within half a period of the offset: ')
