"""C08: resampling to 100 samples per second."""
from checks.common import *

FUNCS = ['core._interp_time', 'obspy.Trace, Stats, UTCDateTime, Stream (own sources, instrumented)']
BOUNDS = ('records of four to six samples (thorough: up to seven); every time step between samples in -60..0 and 1..120 ms on a 0.1 ms grid (offset by 0.0137 ms, so that no '
          'sum of steps is a whole number of output samples), every start time within a second, samples without a time at every position; pressures on a '
          'straight line in time within each run, so that any interpolation of the run alone has exactly that value')
OUTSIDE = 'longer records; the shape of the interpolating curve between samples that are not on a line; steps within 0.09 ms of 25 ms or 10 ms'
REACH = ['gap', 'back', 'two runs', 'nan', 'single']
MODS = ['core', 'gemlog_aux']
ASSUMPTIONS = ['a cubic spline through points on a straight line is that line']
BASE = 1600000000
CASE_BUDGET = {'quick': 250, 'thorough': 700}
MAX_PATHS = 20000
MAX_REPLAYS = 150


def cases(tier):
    r = []
    ks = 'nfb'          # normal, forward gap, backward/zero
    import itertools
    n = 4 if tier == 'quick' else 5
    for p in itertools.product(ks, repeat=2):
        r.append({'name': 'first_' + ''.join(p), 'n': n, 'pre': ''.join(p)})
    for k in range(4 if tier == 'quick' else 5):
        r.append({'name': 'nan%d' % k, 'n': 5, 'pre': 'n', 'nan': [k]})
    r.append({'name': 'long', 'n': 6, 'pre': 'nnnnn', 'lo': 60})
    r.append({'name': 'gap_mid', 'n': 6, 'pre': 'nnfnn', 'lo': 60})
    r.append({'name': 'back_mid', 'n': 6, 'pre': 'nnbnn', 'lo': 60})
    for k in ('nzn', 'znn', 'nnz'):
        r.append({'name': 'repeat_' + k, 'n': 5, 'pre': k, 'lo': 60})
    r.append({'name': 'nan_pair', 'n': 6, 'pre': 'nn', 'nan': [2, 3], 'lo': 60})
    if tier == 'thorough':
        for k in ('nnbnbn', 'nnfnfn', 'nbnfnn', 'fnnnnf', 'bnnnnb'):
            r.append({'name': 'seven_' + k, 'n': 7, 'pre': k, 'lo': 60})
    return r


RNG = {'z': (0, 0), 'n': (10, 249), 'f': (250, 1200), 'b': (-600, -1)}


def harness(io):
    core = io.mod('core')
    cs = io.case; n = cs['n']; nan = cs.get('nan', [])
    t = io.grid('t0', 0, 10 ** 4, 10 ** 4) + 0.0000231
    ts = [t]
    kinds = []
    for i in range(n - 1):
        k = cs['pre'][i] if i < len(cs['pre']) else io.choice('kind%d' % i, ['n', 'f', 'b'])
        lo, hi = RNG[k]
        if k == 'n': lo = max(lo, cs.get('lo', 0))
        s = io.grid('s%d' % i, lo, hi, 10 ** 4) + 0.0000137 if k != 'z' else 0
        t = t + s; ts.append(t); kinds.append(k)
        if k == 'f': io.reach('gap')
        if k == 'b': io.reach('back')
    # runs of the samples that have a time
    idx = [i for i in range(n) if i not in nan]
    runs = [[idx[0]]]
    for a, b in zip(idx, idx[1:]):
        d = ts[b] - ts[a]
        if bool(And(d > 0, d <= 0.025)):
            runs[-1].append(b)
        else:
            runs.append([b])
    if nan: io.reach('nan')
    S0 = {}
    rows = []
    for r, run in enumerate(runs):
        for i in run: S0[i] = 7000 + 100000 * r
    for i in range(n):
        if i in nan:
            rows.append([100.0 + 10 * i, -5000.0, float('nan')])
        else:
            rows.append([100.0 + 10 * i, S0[i] + 1000 * ts[i], BASE + ts[i]])
    D = np.empty((n, 3), object) if io.symbolic else np.zeros((n, 3))
    for i in range(n):
        for j in range(3): D[i, j] = rows[i][j]
    long = [r for r in runs if len(r) > 1]
    if any(len(r) == 1 for r in runs): io.reach('single')
    if len(long) > 1: io.reach('two runs')
    must = [r for r in long if bool(ts[r[-1]] - ts[r[0]] >= 0.01)]
    if not must and len(long) != 1 and not long:
        return
    st = core._interp_time(D)
    m = len(st)
    io.observe('n', m)
    if not io.check(len(must) <= m <= len(long), 'one trace per continuous run: %d traces for %d to %d runs' % (m, len(must), len(long))):
        return
    use = must if m == len(must) else long if m == len(long) else None
    if use is None: return
    for tr, run in zip(st, use):
        a, b = ts[run[0]], ts[run[-1]]
        s = num(tr.stats.starttime.timestamp) - BASE
        dt = num(tr.stats.delta)
        io.check(near(dt, 0.01, 1e-9), 'spacing of 10 ms')
        io.check(AbsLe(s - a, 0.005 + 1e-5), 'trace starts at the first sample of the run, rounded')
        k = len(tr.data)
        io.check(dist_mod(s * 100, 1, 1e-3), 'trace starts on a multiple of 10 ms')
        dur = (b - a) * 100
        io.check(And(k <= dur + 1.01, k >= dur - 1.01), 'trace covers its run to within one sample')
        io.check(s + (k - 1) * 0.01 <= b + 1e-4, 'no sample from beyond the run')
        vals = [num(x) for x in tr.data]
        for q, x in enumerate(vals):
            want = S0[run[0]] + 1000 * (s + q * 0.01)
            io.check(AbsLe(x - want, 0.501), 'samples interpolate those of the run only')
        io.observe('tr', [s, k] + vals)
