"""C29: cross-correlation results, from the command line to the output table."""
from checks.common import *
from checks import c10
from checks.c10 import BASE
import obspy, os, io as _io
from fractions import Fraction as Fr

FUNCS = ['xcorr.xcorr_all_terminal', 'xcorr.xcorr_all', 'xcorr._validate_inputs', 'xcorr.xcorr_one_day', 'xcorr.upsample_stream', 'xcorr.xcorr_function', 'xcorr.apply_function_windows', 'xcorr.loop_through_days']
BOUNDS = ('two to four sensors recorded at 1 or 2 samples per second, one to three windows, on one or two days; symbolic shift (any within the limit) and correlation coefficient of every pair and window, for the best positive and the best absolute correlation separately; '
          'symbolic corner frequencies (grid of 1/8 Hz) and invalid ones, upsampling by 1, 2, 3 and 2.5, each option given in its short or long form or left out, in the direct call also given as None; records of four to six symbolic values for the upsampling')
OUTSIDE = 'the correlation, detrending, tapering and band-pass filtering done by obspy (called as shown; the best shift they find is arbitrary); sensors that share network, station and location codes; the choice of defaults; upsampling by more than 3'
REACH = ['consistent', 'inconsistent', 'negative lag', 'upsampled', 'refused', 'short options', 'long options', 'direct', 'two days', 'excluded']
MODS = ['xcorr', 'gem_network']
ASSUMPTIONS = ['obspy finds the best shift within the limit it is given']
MAX_REPLAYS = 40
BUDGET = {'quick': 220, 'thorough': 1500}
CASE_BUDGET = {'quick': 60, 'thorough': 500}


def cases(tier):
    r = []

    def c(**k):
        r.append(dict({'name': '_'.join('%s%s' % (a, v) for a, v in k.items()) or 'base', 'kind': 'cli', 'n': 3, 'win': 4, 'ov': 0, 'up': None, 'npts': 8, 'dt': 1, 'long': False, 'ids': None, 'days': 1}, **k))
    c(npts=4); c(); c(n=2, npts=12); c(n=4, npts=4); c(long=True); c(up=2); c(up=3, n=2); c(up=2.5, n=2, long=True); c(ov=0.5); c(dt=0.5, npts=16); c(days=2, n=2)
    c(ids='i'); c(ids='x', long=True); c(kind='refused'); c(kind='win', n=2, npts=4)
    c(kind='direct'); c(kind='direct', up=2, n=2); c(kind='direct', up=2, n=2, ov=0.25)
    for n in (4, 6):
        for up in (1, 2, 3, 1.5, 2.5): c(kind='up', npts=n, up=up, n=1)
    c(kind='up', npts=4, up=2, n=2, dt=0.01)
    if tier == 'thorough':
        for n in (2, 3, 4):
            for up in (None, 2, 3):
                for lg in (False, True):
                    for d in (1, 2): c(n=n, up=up, long=lg, days=d, npts=12)
        c(kind='direct', n=4, npts=12); c(kind='up', npts=10, up=4, n=2); c(n=5)
    return r


def harness(io):
    X = io.mod('xcorr'); cs = io.case
    import pandas as pd
    Fc = (lambda v: SymNum.const(Fr(str(v)))) if io.symbolic else float
    n, dt = cs['n'], cs['dt']
    if cs['kind'] == 'up': return upsampled(io, X, cs)
    ids = ['N.S%d.0%d.HDF' % (q, q) for q in range(n)]
    start = BASE + (86400 - cs['npts'] * dt if cs['days'] == 2 else 3600)
    total = cs['npts'] * cs['days']
    rng = [[((7 * k * k + 3 * k + 5 * q) % 11) * (q + 1) + 0.25 * q for k in range(total)] for q in range(n)]

    def read(fn, *a, **k):
        q = int(str(fn)[4:])
        tr = obspy.Trace(np.array(rng[q]), header={'network': 'N', 'station': 'S%d' % q, 'location': '0%d' % q, 'channel': 'HDF', 'delta': dt})
        tr.stats.starttime = obspy.UTCDateTime(start)
        return obspy.Stream([tr])
    io.patch(obspy, 'read', read)
    filters = []

    def filt(self, type, *a, **k):
        filters.append((self.id, type, k.get('freqmin'), k.get('freqmax')))
        return self
    io.patch(obspy.Trace, 'filter', filt)
    io.patch(obspy.Trace, 'detrend', lambda self, *a, **k: self)
    io.patch(obspy.Trace, 'taper', lambda self, *a, **k: self)
    pairs = []

    def correlate(a, b, shift, demean=True, normalize='naive', method='auto', **k):
        pairs.append({'a': np.array(a), 'b': np.array(b), 'max': shift})
        return len(pairs) - 1

    def xcorr_max(fct, abs_max=True):
        p = pairs[fct]
        m = p['max']
        s = io.int('s%d' % fct, -m, m); v = io.real('v%d' % fct, 0, 1)
        s2 = io.int('sa%d' % fct, -m, m); v2 = io.real('va%d' % fct, -1, 1)
        p['shift'], p['coef'] = s, v
        return (s2, v2) if abs_max else (s, v)
    import obspy.signal.cross_correlation as occ
    for m in (X, occ):
        for name, f in (('correlate', correlate), ('xcorr_max', xcorr_max)):
            if hasattr(m, name): io.patch(m, name, f)
    if cs['kind'] == 'refused':
        fl = io.grid('fl', -8, 80, 8); fh = io.grid('fh', -8, 80, 8)
    else:
        fl = io.grid('fl', 0, 40, 8); fh = io.grid('fh', 41, 80, 8)
    win = io.grid('win', 8, 14, 4) if cs['kind'] == 'win' else cs['win']
    want = ids
    files = ['file%d' % q for q in range(n)]
    up = cs['up']
    err = out = None
    before = lambda: len(pairs)
    if cs['kind'] == 'direct':
        st = obspy.Stream()
        for f in files: st += read(f)
        args = {'win_length_sec': win, 'fl': fl, 'fh': fh}
        if cs['ov'] or io.bool('overlap given'): args['overlap'] = cs['ov']
        elif io.bool('overlap None'): args['overlap'] = None
        if up is not None or io.bool('ratio None'): args['upsample_ratio'] = up
        if io.bool('quiet'): args['quiet'] = True
        io.reach('direct')
        out = X.xcorr_one_day(st, args)
    else:
        arg_numbers(io)
        d = io.tmpdir(); fn = os.path.join(d, 'out.csv')
        o = lambda s, l: [l if cs['long'] else s]
        av = o('-o', '--output_file') + [fn] + o('-L', '--freq_low') + [text(fl)] + o('-H', '--freq_high') + [text(fh)] + o('-w', '--win_length_sec') + [text(win)]
        if cs['ov']: av += o('-p', '--overlap') + [str(cs['ov'])]
        if up is not None: av += o('-u', '--upsample_ratio') + [str(up)]
        if cs['ids'] == 'i': want = ids[:2]; av += o('-i', '--include_IDs') + ['S0,N.S1.01.HDF']
        if cs['ids'] == 'x': want = ids[1:]; av += o('-x', '--exclude_IDs') + ['S0,ZZ']; io.reach('excluded')
        io.reach('long options' if cs['long'] else 'short options')
        if io.bool('quiet'): av += o('-q', '--quiet')
        if io.bool('period'):
            av += o('-1', '--t1') + [obspy.UTCDateTime(start).isoformat()] + o('-2', '--t2') + [obspy.UTCDateTime(start + (total - 1) * dt).isoformat()]
        av = files + av if io.bool('files first') else av[:0] + ['-q'] + files + av
        try:
            X.xcorr_all_terminal(av)
        except (Exception, SystemExit) as e:
            err = e
        if cs['kind'] == 'refused':
            good = And(fl >= 0, fl < fh)
            if err is None: io.check(good, 'an impossible frequency band is refused')
            else: io.check(Not(good), 'a possible frequency band is accepted'); io.reach('refused')
            if err is not None: return
        elif not io.check(err is None, 'valid options are accepted'): return
        out = pd.read_csv(fn)
    r = 1 if up is None else up
    if r != 1: io.reach('upsampled')
    if cs['days'] == 2: io.reach('two days')
    dt2 = Fc(dt) / Fc(r)
    m = len(want)
    io.check(sorted(f[0] for f in filters) == sorted(want * cs['days']), 'each channel is filtered once for each day')
    for i, t, a, b in filters: io.check(And(t == 'bandpass', near(a, fl, 1e-9), near(b, fh, 1e-9)), 'the requested frequency band is used')
    rows = len(out)
    io.observe('rows', rows)
    if not io.check(rows * m == len(pairs) and rows >= cs['days'], 'one correlation per window and pair'): return
    if cs['kind'] != 'win' and up is None:
        k = cs['npts'] - cs['win'] / dt
        io.check(rows == cs['days'] * (1 + round(float(-(-k // (cs['win'] / dt * (1 - cs['ov'])))))), 'number of windows')
    short = ['.'.join(i.split('.')[:3]) for i in want]
    io.check(sorted(c for c in out.columns) == sorted(['t_mid', 'mean_coef', 'consistency'] + ['rms_' + s for s in short] + [a + short[q] + '_' + short[(q + 1) % m] for q in range(m) for a in ('lag_', 'r_')]), 'the columns are those of the sensors and their pairs')
    for w in range(rows):
        ps = pairs[w * m:(w + 1) * m]
        tot = cf = 0
        for q in range(m):
            p = ps[q]
            io.check(p['max'] == round(float(r) / dt), 'shifts of up to one second are searched')
            io.check(np.array_equal(p['b'], ps[(q + 1) % m]['a']), 'each sensor is correlated with the next one around the loop')
            io.check(all(not np.array_equal(p['a'], ps[j]['a']) for j in range(m) if j != q), 'every sensor has its own data')
            io.check(near(num(out['lag_%s_%s' % (short[q], short[(q + 1) % m])].iloc[w]), p['shift'] * dt2, 1e-6), 'lag in seconds of this window and pair')
            io.check(near(num(out['r_%s_%s' % (short[q], short[(q + 1) % m])].iloc[w]), p['coef'], 1e-6), 'coefficient of this window and pair')
            io.check(near(num(out['rms_' + short[q]].iloc[w]), float(np.std(p['a'])), 1e-6), 'rms of this window and sensor')
            tot = tot + p['shift']; cf = cf + p['coef']
            if q == 0 and w == 0 and cs['name'] == 'base' and bool(p['shift'] < 0): io.reach('negative lag')
        io.check(near(num(out['mean_coef'].iloc[w]), cf / m, 1e-6), 'mean coefficient')
        c = out['consistency'].iloc[w]
        if isinstance(c, str): c = c == 'True'
        io.check(Iff(AbsLe(tot, m), c), 'a window is consistent exactly if its shifts around the loop nearly cancel')
        io.reach('consistent' if bool(c) else 'inconsistent')


def upsampled(io, X, cs):
    n, up, dt = cs['npts'], cs['up'], cs['dt']
    Fc = (lambda v: SymNum.const(Fr(str(v)))) if io.symbolic else float
    st = obspy.Stream(); vals = []
    t0 = c10.grid_time(io, 't0', 0, 5)
    for q in range(cs['n']):
        v = [io.int('x%d_%d' % (q, k), -1000, 1000) for k in range(n)]
        tr = c10.make_trace(io, t0, [0] * n, dt)
        tr.data = arr1(v) if io.symbolic else np.array(v, float)
        vals.append(v); st.append(tr)
    out = X.upsample_stream(st, up)
    io.reach('upsampled' if up != 1 else 'direct')
    io.check(len(out) == cs['n'], 'every trace is kept')
    for tr, v in zip(out, vals):
        io.check(near(num(tr.stats.starttime.timestamp) - BASE, t0, 1e-6), 'the start time is kept')
        io.check(near(num(tr.stats.delta), Fc(dt) / Fc(up), 1e-9), 'the sampling interval is divided by the ratio')
        m = len(tr.data)
        io.check(tr.stats.npts == m and m - 1 <= up * (n - 1) + 1e-9 and m >= up * (n - 1) - 1e-9, 'the time span is kept')
        for k in range(n):
            j = k * up
            if j == int(j) and int(j) < m: io.check(near(num(tr.data[int(j)]), v[k], 1e-5), 'original samples keep their value and time')
        lin = And(*[sym_eq(v[k] - v[k - 1], v[1] - v[0]) for k in range(2, n)])
        for j in range(m): io.check(Implies(lin, near(num(tr.data[j]), v[0] + (v[1] - v[0]) * j / Fc(up), 1e-4)), 'values in between are interpolated')
