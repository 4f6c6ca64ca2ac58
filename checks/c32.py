"""C32: the command-line tools do what their options say."""
from checks.common import *
from checks import c10, c22
import obspy, os, inspect
import pandas as pd
import obspy.core.inventory as INV
from obspy.core.inventory import channel as CHM, station as STM
from fractions import Fraction as Fr

FUNCS = ['gemconvert_single.main', 'core._convert_one_file', 'core._read_format_version', 'gem_cat.main', 'huddle_test.main', 'huddle_test.verify_huddle_test', 'xcorr.calculate_direction_terminal', 'xcorr.get_coordinates', 'xcorr.invert_for_slowness',
         'gem_network.summarize_gps_terminal', 'gem_network.summarize_gps', 'gem_network.make_gem_inventory']
BOUNDS = ('every raw format version; every option of the five tools in its short and long form, given or left out; two symbolic digits in every serial number; three to five sensors in an inventory listed in any of several orders, crossed by one or two plane waves of any slowness up to 5 s/km per component; '
          'GPS logs of one to three loggers with symbolic latitude, longitude and elevation; files that fail to convert')
OUTSIDE = 'converting one file beyond the choice of file, time model and GPS requirement (C01 to C08); concatenation itself (C14); the huddle verdicts (C24); writing of StationXML and KML'
REACH = ['single', 'old format', 'forced', 'default name', 'failed', 'cat', 'huddle', 'excluded', 'found', 'direction', 'inventory', 'listed', 'not listed', 'no table', 'long options', 'short options']
MODS = ['core', 'gemconvert_single', 'gem_cat', 'huddle_test', 'xcorr', 'gem_network']
MAX_REPLAYS = 40
BUDGET = {'quick': 220, 'thorough': 1200}
CASE_BUDGET = {'quick': 60, 'thorough': 400}
POS = {'tri': [(0.0, 0.0), (0.001, 0.0), (0.0, 0.001)], 'quad': [(0.0, 0.0), (0.002, 0.0005), (-0.001, 0.003), (0.004, 0.004)],
       'five': [(0.0, 0.0), (0.001, 0.0), (0.0, 0.001), (-0.001, 0.0015), (0.002, -0.001)]}


def cases(tier):
    r = []

    def c(kind, **k):
        r.append(dict({'name': '_'.join([kind] + ['%s%s' % (a, v) for a, v in k.items()]), 'kind': kind, 'long': False}, **k))
    for lg in (False, True):
        for v in ('0.9', '0.8') if lg else ('0.85', '0.85C', '0.91', '1.10'): c('single', long=lg, version=v)
        c('single', long=lg, fail='gps'); c('single', long=lg, fail='corrupt'); c('single', long=lg, fail='missing')
        c('huddle', long=lg, n=2); c('huddle', long=lg, n=1)
        c('direction', long=lg, shape='tri', order=0); c('direction', long=lg, shape='quad', order=1)
        c('inventory', long=lg, n=2, table='yes'); c('inventory', long=lg, n=1, table='no')
    c('cat'); c('found', n=2); c('found', n=3)
    for o in (1, 2): c('direction', shape='tri', order=o)
    c('direction', shape='quad', order=2); c('direction', shape='five', order=1)
    c('inventory', n=2, table='nonet'); c('inventory', n=3, table='no'); c('inventory', n=2, table='elevation')
    if tier == 'thorough':
        for o in (0, 1, 2):
            for s in POS: c('direction', shape=s, order=o, long=True)
        c('inventory', n=3, table='yes'); c('huddle', n=3); c('found', n=4)
    return r


def harness(io):
    io.reach('long options' if io.case['long'] else 'short options')
    globals()[io.case['kind']](io, io.case, (lambda s, l: l) if io.case['long'] else (lambda s, l: s))


def run(main, argv):
    try:
        main(argv)
    except SystemExit as e:
        return 'exit'
    return None


def single(io, cs, o):
    M = io.mod('gemconvert_single'); core = io.mod('core')
    d = io.tmpdir(); name = 'FILE00%s.077' % digits(io, 'f', 2)
    path = os.path.join(d, name)
    v = cs.get('version', '1.10')
    if cs.get('fail') != 'missing': write_raw(path, v, [])
    out = os.path.join(d, 'result.mseed') if io.bool('output given') else None
    force = io.bool('force')
    a = [io.real('m%d' % q, lo, hi) for q, (lo, hi) in enumerate(((0, 1000), (0.0009, 0.0012)))]
    ms = [100 * k for k in range(4)]
    P = [io.int('p%d' % k, -100, 100) for k in range(4)]
    calls = []; runs = []; written = []; formats = []

    def several(fn, *k, **kw):
        b = inspect.signature(orig).bind(fn, *k, **kw); b.apply_defaults()
        calls.append(([str(x) for x in b.arguments['fnList']], b.arguments['require_gps'])); formats.append(str(b.arguments['version']))
        if cs.get('fail') == 'corrupt': raise core.CorruptRawFile('bad')
        n = 0 if cs.get('fail') == 'gps' and b.arguments['require_gps'] else 4
        D = obj([[ms[k], P[k]] for k in range(n)], 2) if io.symbolic else np.array([[ms[k], P[k]] for k in range(n)], float).reshape(n, 2)
        h = {'file': [path], 'SN': ['077'], 'drift_deg0': [a[0]], 'drift_deg1': [a[1]], 'drift_deg2': [0.0], 'drift_deg3': [0.0], 'start_ms': [0], 'end_ms': [300]}
        return {'data': D, 'metadata': pd.DataFrame({'millis': [50.0]}), 'gps': pd.DataFrame({'msPPS': []}), 'header': pd.DataFrame(h)}
    orig = core._read_several

    def interp(D, *k, **kw):
        runs.append([list(r) for r in D])
        return obspy.Stream([obspy.Trace(np.arange(3.0))])
    io.patch(core, '_read_several', several); io.patch(core, '_interp_time', interp)
    io.patch(obspy.Stream, 'write', lambda self, fn, *k, **kw: written.append((str(fn), len(self))))
    argv = [o('-i', '--input_file'), path]
    if out: argv += [o('-o', '--output_file'), out]
    else: io.reach('default name')
    if force: argv.insert(0, o('-f', '--force-conversion')); io.reach('forced')
    io.check(run(M.main, argv) is None, 'the options are accepted')
    fails = cs.get('fail')
    bad = fails in ('missing', 'corrupt') or fails == 'gps' and not force
    if fails != 'missing': io.check(calls == [([path], not force)], 'the given file is read, and GPS is required unless conversion is forced')
    io.check(len(written) == (0 if bad else 1), 'a file is written exactly if conversion succeeds')
    for f in formats: io.check(f == v if v in VERSIONS_OLD else f in VERSIONS_NEW, 'the file is read in its own format version'); io.reach('old format' if v in VERSIONS_OLD else 'single')
    if bad: io.reach('failed'); return
    io.reach('single')
    io.check(And(strs.eq(written[0][0], out or name + '.mseed'), written[0][1] == 1), 'the output goes where it is asked to')
    if io.check(len(runs) == 1 and len(runs[0]) == 4, 'all samples are converted'):
        for k, r in enumerate(runs[0]): io.check(And(near(num(r[0]), ms[k]), near(num(r[1]), P[k]), near(num(r[2]), a[0] + a[1] * ms[k], 1e-6)), 'each sample is timed by the clock model of the file')


def cat(io, cs, o):
    M = io.mod('gem_cat')
    d = io.tmpdir(); raw = os.path.join(d, 'raw'); os.makedirs(raw); open(os.path.join(raw, 'FILE0001.077'), 'w').close()
    sn = '0' + digits(io, 's', 2)
    calls = []
    sig = inspect.signature(M.gem_cat)

    def rec(*a, **k):
        b = sig.bind(*a, **k); b.apply_defaults(); calls.append(dict(b.arguments))
    io.patch(M, 'gem_cat', rec)
    ext = io.bool('ext'); outd = io.bool('out')
    argv = (['-e', sn] if ext else []) + ['-i', raw] + (['-o', os.path.join(d, 'x')] if outd else [])
    run(M.main, argv)
    if not io.check(len(calls) == 1, 'concatenation runs once'): return
    c = calls[0]; io.reach('cat')
    io.check(And(strs.eq(str(c['ext']), sn if ext else ''), str(c['input_dir']) == raw, str(c['output_dir']) == (os.path.join(d, 'x') if outd else 'raw_merged')), 'options are passed on')


def huddle(io, cs, o):
    H = io.mod('huddle_test')
    sel = ['0' + digits(io, 's%d' % k, 2) for k in range(cs['n'])]
    exc = ['0' + digits(io, 'x', 2)] if io.bool('exclude') else []
    d = io.tmpdir()
    for s in ('gps', 'metadata', 'mseed', 'figures'): os.mkdir(d + '/' + s)
    with_list = io.bool('list')
    calls = []
    sig = inspect.signature(H.verify_huddle_test)

    def rec(*a, **k):
        q = sig.bind(*a, **k); q.apply_defaults(); calls.append(dict(q.arguments))
    io.patch(H, 'verify_huddle_test', rec)
    argv = [o('-i', '--inputdir'), d] + ([o('-s', '--serialnumbers'), ','.join(sel)] if with_list else []) + ([o('-x', '--exclude_serialnumbers'), ','.join(exc)] if exc else [])
    if not io.check(run(H.main, argv) is None, 'the huddle test accepts its long option names' if cs['long'] else 'the options are accepted'): return
    io.reach('huddle')
    if not io.check(len(calls) == 1, 'the test runs once'): return
    c = calls[0]
    io.check(str(c['path']) == d, 'the folder is the requested one')
    for key, want in (('SN_list', sel if with_list else []), ('SN_to_exclude', exc)):
        io.check(len(c[key]) == len(want) and all(x == y for x, y in zip(c[key], want)), 'requested and excluded loggers are passed on')


class Stop(Exception): pass


def examined(io, H):
    """record the list of loggers under test at the first use of it"""
    seen = []

    def DF(*a, **k):
        if 'index' in k and not seen:
            seen.append(list(k['index']))
            raise Stop()
        return orig(*a, **k)
    orig = pd.DataFrame
    io.patch(H, 'pd', type('P', (), {'__getattr__': lambda s, n: DF if n == 'DataFrame' else getattr(pd, n)})())
    return seen


def judge(io, seen, sel, exc):
    if not io.check(len(seen) == 1, 'loggers are examined'): return
    for s in sel:
        out = Or(*[strs.eq(s, x) for x in exc]) if exc else False
        have = Or(*[strs.eq(s, t) for t in seen[0]]) if seen[0] else False
        io.check(Iff(have, Not(out)), 'a requested logger is examined unless it is excluded')
        if exc and bool(out): io.reach('excluded')
    for t in seen[0]: io.check(Or(*[strs.eq(t, s) for s in sel]), 'only requested loggers are examined')


def found(io, cs, o):
    H = io.mod('huddle_test')
    d = io.tmpdir()
    for s in ('gps', 'metadata', 'mseed', 'figures'): os.mkdir(d + '/' + s)
    sns = []
    for k in range(cs['n']):
        s = io.choice('len%d' % k, ['0', '10']) + digits(io, 's%d' % k, 2)
        for t in sns: io.assume(Not(strs.eq(s, t)))
        sns.append(s)
        for j in range(1 + (k == 0)): open(d + '/gps/%sgps_00%d.txt' % (s, j), 'w').close()
    exc = [sns[0]] if io.bool('exclude') else []
    seen = examined(io, H)
    kw = {}
    if io.bool('list'): sel = kw['SN_list'] = sns[::-1][:2]
    else: sel = sns
    try: H.verify_huddle_test(d, SN_to_exclude=exc, generate_report=False, **kw)
    except Stop: pass
    except Exception:
        if not seen: return                 # the list of loggers could not be observed
    io.reach('found')
    if sel is sns and any(len(s) > 3 for s in sns):
        ok = len(seen) == 1 and len(seen[0]) == len(sns) - len(exc) and And(*[Or(*[strs.eq(s, t) for t in seen[0]]) for s in sns if s not in exc])
        io.check(ok, 'four-digit serial numbers are found in the gps folder')
        return
    judge(io, seen, sel, exc)
    if seen and sel is sns: io.check(len(seen[0]) == len(sns) - len(exc), 'each logger found is examined once')


def direction(io, cs, o):
    X = io.mod('xcorr')
    import obspy.signal.util
    pos = POS[cs['shape']]; n = len(pos)
    order = list(range(n))
    if cs['order'] == 1: order = order[::-1]
    if cs['order'] == 2: order = order[1:] + order[:1]
    codes = [('XX', 'S%d' % (9 - k if k % 2 else k), '' if k == 1 else '0%d' % k) for k in range(n)]
    inv = INV.Inventory()
    N = INV.Network('XX')
    for k in order:
        lon, lat = pos[k]
        st = INV.Station(codes[k][1], latitude=lat, longitude=lon, elevation=0)
        st.channels.append(INV.Channel('HDF', location_code=codes[k][2], latitude=lat, longitude=lon, elevation=10.0 * k, depth=0))
        N.stations.append(st)
    inv.networks.append(N)
    xy = [obspy.signal.util.util_geo_km(0.0, 0.0, *p) for p in pos]
    Q = (lambda v: Fr(float(v))) if io.symbolic else float
    ids = sorted('.'.join(c) for c in codes)
    at = {'.'.join(codes[k]): xy[k] for k in range(n)}
    waves = [(io.real('sx%d' % w, -5, 5), io.real('sy%d' % w, -5, 5)) for w in range(2)]
    d = io.tmpdir(); fin = os.path.join(d, 'lags.csv'); fout = os.path.join(d, 'out.csv')
    pairs = [(ids[q], ids[(q + 1) % n]) for q in range(n)]
    cols = ['t_mid', 'mean_coef'] + [c for a, b in pairs for c in ('rms_' + a, 'lag_%s_%s' % (a, b), 'r_%s_%s' % (a, b))] + ['consistency']
    with open(fin, 'w') as f:
        f.write(','.join(cols) + '\n')
        for w, (a, b) in enumerate(waves):
            row = ['2020-01-01T00:00:0%dZ' % w, '0.5']
            for p, q in pairs: row += ['1.5', text(a * Q(at[p][0] - at[q][0]) + b * Q(at[p][1] - at[q][1])), '0.75']
            f.write(','.join(row + ['True']) + '\n')
    io.patch(obspy, 'read_inventory', lambda fn, *a, **k: inv if str(fn) == 'sensors.xml' else 1 / 0)
    X.calculate_direction_terminal([o('-l', '--location_file'), 'sensors.xml', o('-i', '--input_file'), fin, o('-o', '--output_file'), fout])
    out = pd.read_csv(fout)
    if not io.check(len(out) == len(waves) and all(c in out.columns for c in cols), 'every window is kept with its own columns'): return
    io.reach('direction')
    c = X.get_coordinates(inv)
    for k in range(len(c)):
        i = '.'.join([c.network.iloc[k], c.station.iloc[k], c.location.iloc[k]])
        if io.check(i in at, 'coordinates are listed under the codes of the sensor'):
            j = [q for q in range(n) if '.'.join(codes[q]) == i][0]
            mx, my = sum(p[0] for p in xy) / n, sum(p[1] for p in xy) / n
            io.check(abs(c.x.iloc[k] - xy[j][0] + mx) < 1e-5 and abs(c.y.iloc[k] - xy[j][1] + my) < 1e-5 and abs(c.z.iloc[k] - 10.0 * j) < 1e-9, 'coordinates of a sensor')
    for w, (a, b) in enumerate(waves):
        s = num(out['slowness'].iloc[w])
        io.check(And(s >= 0, AbsLe(s * s - (a * a + b * b), 1e-3)), 'slowness of the wave')
        y, x = c22.direction(num(out['backazimuth'].iloc[w]))
        io.check(Or(a * a + b * b <= 1e-6, And(AbsLe(y * (-b) - x * (-a), 1e-3), y * (-a) + x * (-b) > 0)), 'direction of the wave')


def inventory(io, cs, o):
    G = io.mod('gem_network')
    import gemlog
    if io.symbolic:
        from checks import c18
        for cls, mod in ((CHM.Channel, CHM), (STM.Station, STM)):
            for name, typ in (('latitude', 'Latitude'), ('longitude', 'Longitude'), ('elevation', 'Distance')): c18.raw_property(io, cls, mod, name, typ)
    n = cs['n']; d = io.tmpdir(); gps = os.path.join(d, 'gps'); os.makedirs(gps)
    sns = ['077', '1088', '009'][:n]; pos = []
    for k, s in enumerate(sns):
        lat, lon = io.grid('lat%d' % k, -8999000, 8999000, 100000), io.grid('lon%d' % k, -17999000, 17999000, 100000)
        pos.append((lat, lon))
        with open(os.path.join(gps, s + 'gps_000.txt'), 'w') as f:
            f.write('year,date,lat,lon,t\n')
            for j in range(3): f.write('2020,30,%s,%s,2020-01-0%dT00:00:00.000000Z\n' % (text(lat), text(lon), 2 + j))
    elev = {}
    code = {s: ('', s, '') for s in sns}
    argv = [gps if io.bool('folder') else os.path.join(gps, sns[0] + 'gps_000.txt')]
    if argv[0] != gps: argv += [os.path.join(gps, s + 'gps_000.txt') for s in sns[1:]]
    if cs['table'] != 'no':
        p = os.path.join(d, 'info.csv')
        with open(p, 'w') as f:
            f.write({'nonet': 'sn,station\n', 'yes': 'SN,Network,Station,Location\n', 'elevation': 'SN,Network,Station,Location,Elevation\n'}[cs['table']])
            for k, s in enumerate(sns[::-1]):
                c = ('NM', 'ST%d' % k, '0%d' % k) if cs['table'] != 'nonet' else ('', 'ST%d' % k, '')
                code[s] = c
                if cs['table'] == 'elevation': elev[s] = io.int('el%d' % k, -100, 5000)
                f.write(','.join({'nonet': [s, c[1]], 'yes': [s] + list(c), 'elevation': [s] + list(c) + [text(elev.get(s, 0))]}[cs['table']]) + '\n')
        argv += [o('-s', '--station_info_file'), p]; io.reach('listed')
    else: io.reach('no table')
    outs = os.path.join(d, 'net')
    if io.bool('output given'): argv += [o('-o', '--output_file'), outs]
    else: outs = 'gem_network'
    want = list(sns)
    if n > 1:
        q = io.choice('selection', ['all', 'include', 'exclude', 'both'])
        if q in ('include', 'both'):
            inc = sns[1:] if q == 'include' else sns
            argv += [o('-i', '--include_SNs'), ','.join(inc + ['555'])]; want = [s for s in want if s in inc]
        if q in ('exclude', 'both'): argv += [o('-x', '--exclude_SNs'), sns[0] + ',555']; want = [s for s in want if s != sns[0]]; io.reach('not listed')
    period = io.choice('period', ['none', 'both'])
    first, last = 0, 2
    if period == 'both': argv += [o('-1', '--t1'), '2020-01-02T12:00:00', o('-2', '--t2'), '2020-01-03T12:00:00']; first = last = 1
    written = []; tables = []
    io.patch(INV.Inventory, 'write', lambda self, fn, format=None, **k: written.append((str(fn), format, self)))
    io.patch(pd.DataFrame, 'to_csv', lambda self, fn=None, *a, **k: tables.append((str(fn), self.copy())))
    io.patch(G.gemlog, 'get_gem_response', lambda *a, **k: 'response')
    G.summarize_gps_terminal(argv)
    io.reach('inventory')
    if not io.check(sorted((w[0], w[1].upper()) for w in written) == sorted([(outs + '.xml', 'STATIONXML'), (outs + '.kml', 'KML')]) and [t[0] for t in tables] == [outs + '.csv'], 'inventory and table are written under the requested name'): return
    chans = {}
    for N in written[0][2].networks:
        for s in N.stations:
            for c in s.channels:
                key = (N.code, s.code, c.location_code)
                io.check(key not in chans, 'one channel for each logger'); chans[key] = c
    io.check(sorted(chans) == sorted(code[s] for s in want), 'the inventory holds exactly the requested loggers under their codes')
    t = tables[0][1]
    io.check(sorted(t['SN']) == sorted(want), 'the table holds exactly the requested loggers')
    for k, s in enumerate(sns):
        c = chans.get(code[s])
        if s not in want or c is None: continue
        io.check(And(near(num(c.latitude), pos[k][0], 1e-6), near(num(c.longitude), pos[k][1], 1e-6), near(num(c.elevation), elev.get(s, -9999), 1e-6)), 'coordinates of a logger')
        d0 = obspy.UTCDateTime(2020, 1, 2)
        io.check(c.start_date == d0 + 86400 * first - 3600 and c.end_date == d0 + 86400 * last + 3600, 'operating period of a logger')
