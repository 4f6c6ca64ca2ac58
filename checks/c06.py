"""C06: reading several files; a bad one is skipped and reported and has no effect on the others."""
from checks.common import *
from fractions import Fraction as Fr

FUNCS = ['core._read_several', 'core._read_single', 'core._read_with_cython', 'core._read_0_8_pd', 'core._process_gemlog_data', 'core._make_empty_header']
BOUNDS = ('two to four files of three samples, a metadata record and a GPS record each; every combination of outcomes (good, unreadable, corrupt, no GPS record, GPS refused in three ways, '
          'no serial number, unexpected error) for two files and for the middle file of three (thorough: all combinations for three); symbolic counter start of each file, symbolic step of '
          '-1500..1500 ms between samples, symbolic pressures; formats 0.9, 0.85 and 0.8; GPS required or not')
OUTSIDE = 'the accept/refuse decision itself (C05) and the decoding of lines (C01), which are replaced by chosen outcomes'
REACH = ['good', 'bad', 'backwards', 'jump', 'all bad', 'rollover between files', 'old format']
MODS = ['core', 'gemlog_aux']
ASSUMPTIONS = ['outcome of the timing model and of the header reader are arbitrary']
CASE_BUDGET = {'quick': 100, 'thorough': 500}
MAX_REPLAYS = 40
FAIL = ['parse', 'corrupt', 'nog', 'drift0', 'drift1', 'drift2', 'drift3', 'nosn']


def cases(tier):
    r = []
    import itertools
    def add(outs, version='0.9', req=True, step=True):
        r.append({'name': '%s_%s_%s' % ('-'.join(outs), version, 'req' if req else 'opt'), 'outs': list(outs), 'version': version, 'req': req, 'step': step})
    for a, b in itertools.product(['ok'] + FAIL, repeat=2):
        add((a, b), step=(a == 'ok' or b == 'ok'))
    for f in ('parse', 'nog', 'drift0', 'drift3', 'nosn'):
        add(('ok', f, 'ok'), step=False)
    add(('ok', 'ok', 'ok'), step=False)
    for v in VERSIONS_OLD:
        for o in (('ok', 'ok'), ('ok', 'nosn', 'ok'), ('drift0', 'ok'), ('ok', 'parse')):
            add(o, v, step=len(o) == 2)
    for o in (('ok', 'ok'), ('ok', 'nog'), ('nog', 'ok'), ('ok', 'nosn', 'ok'), ('ok', 'parse', 'nog')):
        add(o, '0.9', False, step=len(o) == 2)
    if tier == 'thorough':
        for o in itertools.product(['ok'] + FAIL, repeat=3):
            add(o, step=False)
        add(('ok', 'nog', 'ok'), '0.9', False)
        add(('ok', 'nosn', 'drift1', 'ok'), step=False)
    return r


def harness(io):
    core = io.mod('core')
    cs = io.case; outs = cs['outs']; v = cs['version']; req = cs['req']
    old = v in VERSIONS_OLD
    R = 2 ** 16 if old else 2 ** 13
    exc = core.CorruptRawFileNoGPS, core.CorruptRawFileInadequateGPS, core.CorruptRawFileDiscontinuousGPS
    names = []; table = {}; info = []
    d = io.tmpdir() if old else ''
    nm = {'0.8': 9}.get(v, 11)
    for i, o in enumerate(outs):
        fn = 'FILE%04d.%s' % (i, 'TXT' if v == '0.8' else '077')
        if old: fn = d + '/' + fn
        names.append(fn)
        s = io.int('s%d' % i, 0, R - 1)          # counter at the first sample
        st = [10, 10]
        if cs['step'] and o == 'ok':
            st[1] = io.int('st%d' % i, -1500, 1500)
        p = [io.int('p%d_%d' % (i, k), -10 ** 6, 10 ** 6) for k in range(3)]
        rel = [0, st[0], st[0] + st[1]]
        mrel, grel = 5, 7
        def saw(x):
            return (s + x) % R
        rows = [('D', saw(0), [p[0]]), ('M', saw(mrel), [3000 + 10 * i + k for k in range(nm)]),
                ('G', saw(grel), [70, 2020, 6, 20, 5, 21, 22 + i, 43.62226, -116.20594 - i]),
                ('D', saw(rel[1]), [p[1]]), ('D', saw(rel[2]), [p[2]])]
        if o == 'nog': rows = [x for x in rows if x[0] != 'G']
        # the counter difference between records is known from the counter only up to half a period, which these steps stay within
        if o == 'parse': table[fn] = FileNotFoundError('cannot open ' + fn)
        elif o == 'corrupt': table[fn] = ValueError('bad line')
        else: table[fn] = rows
        if old and not isinstance(table[fn], Exception):
            write_raw(fn, v, rows, config='C,1,15,20,0,0,0')
        bad = o in ('parse', 'corrupt', 'drift0', 'drift1', 'drift2', 'drift3', 'nosn') or (o == 'nog' and req)
        if not bad:
            if bool(st[1] < 0): bad = True; io.reach('backwards')
            elif bool(st[1] > 1000): bad = True; io.reach('jump')
        io.reach('bad' if bad else 'good')
        info.append({'bad': bad, 's': s, 'rel': rel, 'p': p, 'g': o != 'nog', 'i': i, 'mrel': mrel, 'grel': grel})
    if old: io.reach('old format')
    if all(x['bad'] for x in info): io.reach('all bad')
    if old:
        oread = core._read_0_8_pd
        def r08(fn, *a, **k):
            if isinstance(table[fn], Exception): raise table[fn]
            return oread(fn, *a, **k)
        io.patch(core, '_read_0_8_pd', r08)
    else:
        feed(io, core, table)
        def rp(fn, *a, **k):
            raise core.CorruptRawFile('not readable: ' + fn)
        io.patch(core, '_read_with_pandas', rp)
    def drift(L, fn, require_gps):
        o = outs[names.index(fn)]
        if o.startswith('drift'):
            q = int(o[5:])
            if q == 3: raise ZeroDivisionError('unexpected ' + fn)
            raise exc[q]('GPS is no good in ' + fn)
        i = names.index(fn)
        return {'lat': 40.0 + i, 'lon': -100.0 - i, 'start_ms': L['data'][0, 0], 'end_ms': L['data'][-1, 0], 'drift_deg3': 0.0, 'drift_deg2': 0.0,
                'drift_deg1': 0.001024, 'drift_deg0': 1000.0 + i, 'drift_resid_std': 0.0, 'drift_resid_MAD': 0.0, 'num_gps_pts': len(L['gps'].lat)}
    io.patch(core, '_calculate_drift', drift)
    def sn(fn):
        if outs[names.index(fn)] == 'nosn': raise core.CorruptRawFile(fn + ': missing serial number')
        return '077'
    io.patch(core, '_read_SN', sn)
    oh = core._make_empty_header
    def eh(l):
        h = oh(l)
        return h.astype(object) if io.symbolic else h
    io.patch(core, '_make_empty_header', eh)
    L = core._read_several(list(names), version=v, require_gps=req) if old else core._read_several(list(names), require_gps=req)
    good = [x for x in info if not x['bad']]
    P = [str(q) for q in L['problems']]
    D = L['data']
    if not io.check(D.shape[0] == 3 * len(good), 'data of exactly the good files: %d samples for %d good files' % (D.shape[0], len(good))): return
    M = L['metadata']; G = L['gps']
    if not io.check(len(M) == len(good), 'metadata of exactly the good files: %d' % len(M)): return
    ng = [x for x in good if x['g']]
    if not io.check(len(G) == len(ng), 'GPS of exactly the good files: %d' % len(G)): return
    last = 0
    ob = []
    mm = items(M['millis']); mb = items(M['batt'])
    gm = items(G['msPPS']); gl = items(G['lon'])
    gi = 0
    for k, x in enumerate(good):
        ms = [num(D[3 * k + j, 0]) for j in range(3)]
        run = 0
        for j in range(3):
            run = x['p'][j] if old else run + x['p'][j]
            io.check(near(num(D[3 * k + j, 1]), run), 'pressure values of a good file')
            io.check(near(ms[j] - ms[0], x['rel'][j]), 'sample spacing of a good file')
        io.check(dist_mod(ms[0] - 8.93 - x['s'], R, 1e-5), 'sample count agrees with the logged counter')
        io.check(ms[0] >= last - 1e-6, 'sample clock does not run backwards between files')
        io.check(ms[0] <= last + R + 1e-6, 'sample clock does not jump ahead by more than a counter period')
        io.check(near(num(mm[k]) - (ms[0] - 8.93), x['mrel'], 1e-5), 'metadata of a good file keep their place')
        io.check(near(num(mb[k]), 3000 + 10 * x['i']), 'metadata values of a good file')
        if x['g']:
            io.check(near(num(gm[gi]) - (ms[0] - 8.93), x['grel'], 1e-5), 'GPS of a good file keep their place')
            io.check(near(num(gl[gi]), -116.20594 - x['i'], 1e-9), 'GPS values of a good file')
            gi += 1
        if k and bool(x['s'] < good[k - 1]['s']): io.reach('rollover between files')
        last = ms[2]
        ob += ms
    nb = sum(x['bad'] for x in info)
    io.check(len(P) == nb, 'one problem per bad file: %d problems for %d bad files' % (len(P), nb))
    for x in info:
        io.check(sum(names[x['i']] in q for q in P) == (1 if x['bad'] else 0), 'every bad file, and no other, is named in one problem')
    H = L['header']
    if not io.check(len(H) == len(names), 'one header row per file'): return
    for x in info:
        a, b = num(H['start_ms'][x['i']]), num(H['end_ms'][x['i']])
        if x['bad']:
            io.check(S.isnanv(a) or S.isnanv(b), 'a bad file has no time span')
        else:
            k = good.index(x)
            io.check(And(near(a, num(D[3 * k, 0])), near(b, num(D[3 * k + 2, 0]))), 'time span of a good file')
            io.check(near(num(H['drift_deg0'][x['i']]), 1000.0 + x['i']), 'clock model of a good file')
            io.check(str(H['SN'][x['i']]) == '077', 'serial number of a good file')
    io.observe('ms', ob)
