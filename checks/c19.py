"""C19: GPS summary."""
from checks.common import *
from checks import c10
import obspy, os, math
import pandas as pd
from fractions import Fraction as Fr

FUNCS = ['gem_network.summarize_gps', 'gem_network.read_gps', 'gem_network._remove_outliers', 'gem_network._get_station_info']
BOUNDS = ('logs of one to thirty fixes per logger (thorough: up to sixty), of which up to three have any symbolic position (the others are fixed: equal, or scattered by some 1e-6 degree), at fixed times one minute '
          'apart; symbolic start and stop of the period (10 ms grid) or none; one to three loggers, with three- and four-digit serial numbers that are prefixes of one another, in order of time or not, listed through a folder, '
          'a pattern or file names; included and excluded serial numbers; station tables in any order (and any index) with or without the logger')
OUTSIDE = 'paths on which a fix lies within 1e-9 degree of a limit; symbolic times in the log itself; rounding of the averages'
REACH = ['outlier', 'two rounds', 'nothing removed', 'period', 'empty period', 'table', 'unlisted', 'selection', 'lon outlier']
MODS = ['gem_network']
CASE_BUDGET = {'quick': 120, 'thorough': 500}
MAX_REPLAYS = 40


def cases(tier):
    r = []
    def add(name, n, sym, **k):
        r.append(dict({'name': name, 'n': n, 'sym': sym, 'scatter': 0, 'lim': '', 'sns': ['077'], 'how': 'dir', 'table': None, 'inc': None, 'exc': None, 'order': None}, **k))
    add('one', 1, [(0, 'lat')]); add('two', 2, [(0, 'lat'), (1, 'lon')]); add('three', 3, [(0, 'lat'), (1, 'lat'), (2, 'lat')])
    add('out1', 30, [(3, 'lat')]); add('out1_lon', 30, [(0, 'lon')]); add('out_both', 30, [(29, 'lat'), (29, 'lon')])
    add('out2', 30, [(3, 'lat'), (20, 'lat')], scatter=1)
    add('out2_mixed', 30, [(3, 'lat'), (20, 'lon')], scatter=1)
    for lim in ('t1', 't2', 't1t2'):
        add('period_' + lim, 5, [(1, 'lat')], lim=lim)
    add('period_out', 31, [(0, 'lat')], lim='t1', scatter=1)
    add('period_text', 5, [(1, 'lat')], lim='text')
    for o in ('back', 'mixed'):
        add('order_' + o, 5, [(1, 'lat')], order=o); add('order_out_' + o, 30, [(0 if o == 'back' else 29, 'lat')], scatter=1, order=o)
    add('order_period', 5, [(1, 'lat')], order='mixed', lim='t1t2')
    S = ['107', '1077', '077']
    for how in ('dir', 'glob', 'files', 'dirs'):
        add('loggers_' + how, 3, [(1, 'lat')], sns=S, how=how)
    add('inc', 2, [(0, 'lat')], sns=S, inc=['107', '077']); add('exc', 2, [(0, 'lat')], sns=S, exc=['107'])
    add('table', 2, [(0, 'lat')], sns=['077', '088', '1077'], table='file'); add('table_df', 2, [(0, 'lat')], sns=['088', '077'], table='df')
    if tier == 'thorough':
        add('out3', 40, [(3, 'lat'), (20, 'lat'), (30, 'lat')], scatter=1)
        add('out60', 60, [(3, 'lat'), (20, 'lat')], scatter=1)
        add('four', 4, [(k, 'lat') for k in range(4)])
        add('period_out2', 34, [(0, 'lat'), (33, 'lon')], lim='t1t2', scatter=1)
    return r


T0 = '2020-06-20T05:%02d:%02d.000000Z'


def spec_keep(io, fixes):
    """the fixes that remain, by the statement of the property; None close to a limit"""
    rounds = 0
    while True:
        ok = [True] * len(fixes)
        for c in (0, 1):
            v = [f[c] for f in fixes]
            if not S.has_sym(v):
                med = float(np.median(v)); sd = float(np.std(v))
            else:
                med = S.l_median(v); sd = S.l_std(v)
            lim = (sd + 1e-5) * 5
            for k, x in enumerate(v):
                d = abs(x - med)
                if bool(And(d > lim - 1e-9, d < lim + 1e-9)): return None, 0
                if not bool(d < lim):
                    ok[k] = False
                    io.reach('outlier' if c == 0 else 'lon outlier')
        if all(ok): break
        fixes = [f for f, o in zip(fixes, ok) if o]
        rounds += 1
    return fixes, rounds


def harness(io):
    G = io.mod('gem_network'); cs = io.case
    d = io.tmpdir(); os.mkdir(d + '/gps'); os.mkdir(d + '/gps2')
    n = cs['n']; logs = {}
    for q, sn in enumerate(cs['sns']):
        fx = []
        for k in range(n):
            e = [0, 3, -2, 1, -4, 5, 2, -1][k % 8] * 1e-6 if cs['scatter'] else 0
            lat = 43.5 + q + e; lon = -116.25 - q - e / 2
            if q == 0:
                if (k, 'lat') in cs['sym']: lat = io.real('lat%d' % k, -90, 90)
                if (k, 'lon') in cs['sym']: lon = io.real('lon%d' % k, -180, 180)
            fx.append((lat, lon, T0 % (k, 10 + q)))
        logs[sn] = fx
        dd = d + ('/gps2/' if cs['how'] == 'dirs' and q else '/gps/')
        with open(dd + sn + 'gps_000.txt', 'w') as f:
            f.write('year,date,lat,lon,t\n')
            rows = list(enumerate(fx))
            if cs['order'] == 'back': rows = rows[::-1]
            if cs['order'] == 'mixed': rows = rows[1::2] + rows[::2][::-1]
            for k, (a, b, t) in rows:
                f.write('2020,172.2,%s,%s,%s\n' % (text(a), text(b), t))
    if cs['how'] in ('dir', 'dirs'):
        where = d + '/gps' if cs['how'] == 'dir' else [d + '/gps', d + '/gps2']
    elif cs['how'] == 'glob': where = d + '/g*s'
    else: where = [d + '/gps/' + sn + 'gps_000.txt' for sn in cs['sns'][::-1]]
    kw = {}; w1 = w2 = None
    B = float(obspy.UTCDateTime(T0 % (0, 10)).timestamp)
    if cs['lim'] == 'text':
        w1, w2 = 55, 175
        kw = {'t1': '2020-06-20T05:01:05', 't2': '2020-06-20_05:03:05'.replace('_', 'T')}
    for key, nm in (('t1', 'w1'), ('t2', 'w2')):
        if key in cs['lim']:
            w = io.grid(nm, -500, 100 * 60 * n, 100)
            kw[key] = obspy.UTCDateTime(B) + w
            if key == 't1': w1 = w
            else: w2 = w
    if cs['inc']: kw['include_SN'] = cs['inc']
    if cs['exc']: kw['exclude_SN'] = cs['exc']
    codes = {'088': ('XX', 'AB', '00', '12.5'), '077': ('', 'LADR1', '', '-3'), '999': ('ZZ', 'Q', '', '1')}
    if cs['table']:
        io.reach('table')
        order = list(codes) if io.choice('torder', [True, False]) else list(codes)[::-1]
        if cs['table'] == 'file':
            with open(d + '/table.txt', 'w') as f:
                f.write('SN,Network,Station,Location,Elevation\n' + ''.join('%s,%s,%s,%s,%s\n' % ((sn,) + codes[sn]) for sn in order))
            kw['station_info'] = d + '/table.txt'
        else:
            kw['station_info'] = pd.DataFrame({'SN': order, 'sn': order, 'network': [codes[s][0] for s in order], 'station': [codes[s][1] for s in order],
                                               'location': [codes[s][2] for s in order], 'elevation': [float(codes[s][3]) for s in order]},
                                              index=io.choice('index', [[0, 1, 2], [2, 0, 1], [5, 6, 7]]))
    out = G.summarize_gps(where, **kw)
    want = [sn for sn in sorted(cs['sns']) if (not cs['inc'] or sn in cs['inc']) and sn not in (cs['exc'] or [])]
    if cs['inc'] or cs['exc']: io.reach('selection')
    exp = {}
    for q, sn in enumerate(cs['sns']):
        if sn not in want: continue
        fx = []
        for k, f in enumerate(logs[sn]):
            t = 60 * k + q
            inside = And(True if w1 is None else t >= w1, True if w2 is None else t <= w2)
            if bool(inside): fx.append(f + (t,))
        if len(fx) < n: io.reach('period')
        if not fx: io.reach('empty period'); continue
        keep, rounds = spec_keep(io, fx)
        if keep is None: return
        if rounds > 1: io.reach('two rounds')
        if rounds == 0: io.reach('nothing removed')
        if keep: exp[sn] = keep
    io.observe('rows', [str(s) for s in out['SN']])
    if not io.check([str(s) for s in out['SN']] == [sn for sn in want if sn in exp], 'one row per logger: %s' % list(out['SN'])): return
    for i, sn in enumerate(out['SN']):
        r = out.iloc[i]; f = exp[sn]; m = len(f)
        io.check(num(r['num_samples']) == m, 'number of fixes of %s' % sn)
        for key, c in (('lat', 0), ('lon', 1)):
            io.check(near(num(r[key]) * m, sum((x[c] for x in f[1:]), f[0][c]), 1e-6), 'mean %s of %s' % (key, sn))
        io.check(str(r['starttime']) == f[0][2] and str(r['endtime']) == f[-1][2], 'start and end time of %s' % sn)
        if cs['table']:
            e = codes.get(sn)
            if e is None: io.reach('unlisted')
            got = (r['network'], r['station'], r['location'])
            io.check(got == ((e[0], e[1], e[2]) if e else ('', '', '')), 'codes of %s' % sn)
            io.check(float(r['elevation']) == (float(e[3]) if e else -9999), 'elevation of %s' % sn)
