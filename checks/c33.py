"""C33: reading a logger's raw files as a whole."""
from checks.common import *
import obspy, os, inspect
import pandas as pd

FUNCS = ['core.read_gem', 'core._assign_times', 'core._find_breaks', 'core._reformat_GPS', 'core._apply_segments', 'core._read_format_version', 'core._read_config', 'core.get_bitweight_info', 'core.get_gem_specs']
BOUNDS = ('one to four files, the first up to three of which may have a missing, unknown or cut format version; every raw format version; two symbolic digits in the serial number and symbolic digits in every configuration entry; '
          'network, station and location given or left out; three to six samples (thorough: eight) with any steps from 0 (thorough: -5) up to 1000 ms; none or two to four GPS fixes with whole-second times, regular or with one break of any size')
OUTSIDE = 'decoding of the files (C01 to C06, replaced by a recorder), resampling (C08), the units and bitweight parameters of read_gem, which have no effect (the data are counts)'
REACH = ['good', 'skipped', 'none good', 'no files', 'no data', 'own station', 'serial number as station', 'old format', 'new format', 'low gain', 'high gain', 'no fixes', 'data gap', 'no data gap', 'GPS break', 'no GPS break']
MODS = ['core']
MAX_REPLAYS = 40
BUDGET = {'quick': 240, 'thorough': 1500}
CASE_BUDGET = {'quick': 100, 'thorough': 500}
KEYS = ['gps_mode', 'gps_cycle', 'gps_quota', 'adc_range', 'led_shutoff', 'serial_output']
BAD = {'x': '#GemCSV1.2\n', 'j': 'garbage\nD1,2\n,,,\n', 'n': '\n\n\n\n\n\n\n\n\n\n\n', 'l': '#GemCSV0.9z\nS,077\n', 's': '#GemCSV\nS,077\nC,1,15,20,0,0,0\n'}


def cases(tier):
    r = []

    def c(kind, **k):
        r.append(dict({'name': '_'.join([kind] + ['%s%s' % (a, v) for a, v in k.items()]), 'kind': kind}, **k))
    for v in VERSIONS_NEW + VERSIONS_OLD: c('labels', files='gg', version=v, sn='any')
    for f in ('xg', 'jg', 'ng', 'lg', 'sg', 'xjg', 'njsg', 'gx', 'x', 'xj', 'xgx', ''):
        c('labels', files=f, version='1.10' if len(f) % 2 else '0.8')
    c('labels', files='g', version='0.91', data='empty'); c('labels', files='gg', version='1.10', gps='none')
    c('breaks', n=5, gps=2); c('breaks', n=4, gps=3); c('breaks', n=3, gps=4); c('breaks', n=6, gps=0)
    if tier == 'thorough':
        c('breaks', n=6, gps=2); c('breaks', n=5, gps=3); c('breaks', n=4, gps=3, back=5); c('breaks', n=4, gps=4); c('breaks', n=8, gps=0)
        for v in VERSIONS_NEW + VERSIONS_OLD: c('labels', files='xjgg', version=v)
    return r


def harness(io):
    core = io.mod('core')
    globals()[io.case['kind']](io, io.case, core)


def result(io, core, files, ms, P, fixes, problems=()):
    """what reading several files gives: samples, one metadata record, GPS fixes, one header row per file"""
    h = core._make_empty_header(files)
    n = len(files)
    for k in h.keys():
        if k != 'file': h[k] = h[k].astype(object)
    for i in range(n):
        vals = {'SN': '077', 'lat': 1.0, 'lon': 2.0, 'start_ms': ms[0] - 10 ** 5 if i == 0 else ms[-1] + 10 ** 6 * i + 1, 'end_ms': ms[-1] + 10 ** 6 * (i + 1), 'drift_deg0': 1577840461.0 + i, 'drift_deg1': 0.001024, 'drift_deg2': 0.0, 'drift_deg3': 0.0}
        for k, v in vals.items(): h.loc[i, k] = v
    sym = io.symbolic and any(S.has_sym(x) for x in ms + P)
    D = obj([[a, b] for a, b in zip(ms, P)], 2) if sym else np.array([[a, b] for a, b in zip(ms, P)], float).reshape(len(ms), 2)
    cols = ['msPPS', 'msLag', 'year', 'month', 'day', 'hour', 'minute', 'second', 'lat', 'lon', 't']
    G = pd.DataFrame([[m, 1.0, 2020.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 2.0, t] for m, t in fixes], columns=cols)
    M = pd.DataFrame({'millis': pd.Series([ms[0]] if ms else [], dtype=object if sym else float)})
    return {'data': D, 'metadata': M, 'gps': G, 'header': h, 'problems': list(problems)}


def labels(io, cs, core):
    d = io.tmpdir(); sn = '0' + digits(io, 's', 2) if cs.get('sn') else '077'
    if bool(strs.eq(sn, '000')) or any(bool(strs.eq(sn, '00%d' % k)) for k in (1, 2)): return
    first = cs['files'].find('g')
    names = []; conf = {}
    low = io.bool('low gain')
    for k, f in enumerate(cs['files']):
        p = os.path.join(d, 'FILE%04d.%s' % (k, sn)); names.append(p)
        if f == 'g':
            c = [digits(io, 'c%d_%d' % (k, j), 2) if j != 3 else '01'[low] for j in range(6)] if k == first else ['9'] * 3 + ['01'[not low]] + ['9'] * 2
            conf[k] = c
            txt = '#GemCSV%s\n#DmsSamp,ADC\n#G,a\n#M,b\nS,%s\nC,%s\nD1,2\n' % (cs['version'] if k == first else '0.9', sn, ','.join(c))
        else: txt = BAD[f]
        with open(p, 'w') as fh: fh.write(txt)
    orig = core._read_several; sig = inspect.signature(orig)
    calls = []

    def several(*a, **k):
        b = sig.bind(*a, **k); b.apply_defaults(); calls.append(b.arguments)
        fl = [str(x) for x in b.arguments['fnList']]
        none = cs.get('data') == 'empty'
        ms = [] if none else [100 + 10 * j for j in range(5)]
        return result(io, core, fl, ms or [100], [1.0 * j for j in range(5)] if not none else [1.0], [] if cs.get('gps') or none else [(100.0, 1577840461.0), (977.0 + 100, 1577840462.0)], ['a problem']) if not none else \
            dict(result(io, core, fl, [100], [1.0], [], ['a problem']), data=np.zeros((0, 2)))
    io.patch(core, '_read_several', several)
    made = []

    def interp(D, *a, **k):
        tr = [obspy.Trace(np.arange(3.0)) for _ in range(2)]
        made.append(len(D))
        return obspy.Stream(tr)
    io.patch(core, '_interp_time', interp)
    need = io.bool('require gps')
    kw = {}
    net, sta, loc = io.choice('codes', [(None, None, None), ('XP', 'STA1', '01'), ('XP', None, None), (None, 'STA1', None), (None, None, '01')][1 if cs.get('sn') else 0:])
    if net is not None: kw['network'] = net
    if sta is not None: kw['station'] = sta
    if loc is not None: kw['location'] = loc
    try:
        L = core.read_gem(d, np.arange(10), sn, require_gps=need, **kw)
    except core.MissingRawFiles:
        io.check(not cs['files'], 'missing files are reported exactly if there are none'); io.reach('no files'); return
    except core.CorruptRawFileInadequateGPS:
        io.check(cs.get('data') == 'empty', 'inadequate GPS is reported exactly if no data are left'); io.reach('no data'); return
    except core.CorruptRawFile:
        io.check(first < 0 and cs['files'] != '', 'the whole set is rejected only if no file can be used'); io.reach('none good'); return
    if not io.check(cs['files'] and first >= 0 and cs.get('data') != 'empty', 'nothing is returned when nothing can be read'): return
    io.reach('good'); io.reach('skipped' if first else 'good')
    if not io.check(len(calls) == 1, 'the files are read once'): return
    c = calls[0]
    fl = [str(x) for x in c['fnList']]
    io.check(len(fl) == len(names) - first and all(a == b for a, b in zip(fl, names[first:])), 'every file from the first usable one on is read, in order')
    old = cs['version'] in VERSIONS_OLD
    io.reach('old format' if old else 'new format')
    io.check(str(c['version']) == cs['version'] if old else str(c['version']) in VERSIONS_NEW, 'the files are read in the format of the first usable one')
    io.check(c['require_gps'] == need, 'the GPS requirement is passed on')
    io.check(made == [5], 'all samples are resampled')
    if io.check(len(L['data']) == 2, 'every trace is returned'):
        for tr in L['data']:
            io.check(And(strs.eq(tr.stats.network, net or ''), strs.eq(tr.stats.station, sta or sn), strs.eq(tr.stats.location, loc or '')), 'every trace has the requested codes')
    io.reach('own station' if sta else 'serial number as station')
    H = L['header']
    if not io.check(len(H) == len(fl), 'one header row per file'): return
    cfg = {k: conf[first][j] for j, k in enumerate(KEYS)}
    V, Pa = factors(io, sn, low)
    io.reach('low gain' if low else 'high gain')
    for i in range(len(H)):
        io.check(strs.eq(str(H['file_format_version'].iloc[i]), cs['version']), 'the header states the format version of the first usable file')
        for k in KEYS: io.check(near(num(H[k].iloc[i]), value(cfg[k])), 'the header states the configuration of the first usable file')
        for k, f in (('bitweight_V', V), ('bitweight_Pa', Pa), ('bitweight', Pa)):
            io.check(AbsLe(num(H[k].iloc[i]) - f, 1e-9 * float(Pa if k != 'bitweight_V' else V)), 'the header states the factors of the serial number and gain')
    pr = [str(x) for x in L['problems']]
    io.check('a problem' in pr and len(pr) == 1 + first, 'problems are passed on, and one is added for each skipped file')
    for p in names[:first]: io.check(sum(os.path.basename(p) in x for x in pr) == 1, 'each skipped file is named in the problems')


def factors(io, sn, low):
    from checks import c16
    from fractions import Fraction as Fr
    n = value(sn)
    for lo, hi, ver in c16.GEN:
        if bool(And(n >= lo, n <= hi)): break
    V = Fr('0.256') / 2 ** 15 / (1 + (Fr('49.4') if ver < .98 else Fr(50)) / Fr('0.47')) * (2 if low else 1)
    return V, V / ((Fr('3.373') if ver < .9 else Fr('3.1')) / 7 * Fr('45.13') / 10 ** 6)


def breaks(io, cs, core):
    n = cs['n']
    ms = [io.int('m0', 1000, 3000)]
    for k in range(1, n): ms.append(ms[-1] + io.int('d%d' % k, -cs.get('back', 0), 1000))
    P = [io.int('p%d' % k, -100, 100) for k in range(n)]
    gaps = [bool(ms[k + 1] - ms[k] > 25) for k in range(n - 1)]
    io.reach('data gap' if any(gaps) else 'no data gap')
    fixes = []
    if cs['gps']:
        # the time steps are whole seconds, the counts follow at 1.024 ms per count except for a break of any size at one of the steps
        at = io.choice('break', list(range(cs['gps']))) ; m = io.int('g0', 500, 6000); t = 1577840461.0
        fixes.append((m, t))
        for k in range(1, cs['gps']):
            s = io.choice('s%d' % k, [1, 60])
            j = io.int('j', -900, 5000) if k == at else 0
            m = m + round(s * 1000 / 1.024) + j; t += s
            fixes.append((m, t))
        if at: io.reach('no GPS break' if bool(sym_eq(num(j), 0) if k == at else False) else 'GPS break')
        else: io.reach('no GPS break')
    else: io.reach('no fixes')
    names = ['FILE0001.077']
    d = io.tmpdir()
    p = write_raw(os.path.join(d, names[0]), '1.10', [])
    io.patch(core, '_read_several', lambda fn, *a, **k: result(io, core, [str(x) for x in fn], ms, P, fixes))
    got = []

    def interp(D, *a, **k):
        got.append(D)
        return obspy.Stream([obspy.Trace(np.arange(3.0))])
    io.patch(core, '_interp_time', interp)
    L = core.read_gem(d, [1], '077', require_gps=False)
    if not io.check(len(got) == 1 and len(got[0]) == n, 'every sample of the accepted files is passed on'): return
    for k in range(n):
        io.check(And(near(num(got[0][k, 0]), ms[k]), near(num(got[0][k, 1]), P[k]), near(num(got[0][k, 2]), 1577840461 + ms[k] * 0.001024, 1e-5)), 'every sample keeps its value and is timed')
    if cs['gps']:
        G = L['gps']
        io.check(len(G) == len(fixes), 'every accepted fix is reported')
