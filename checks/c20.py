"""C20: windowed processing of a stream."""
from checks.common import *
from checks import c10
import obspy
from fractions import Fraction as Fr

FUNCS = ['xcorr.apply_function_windows', 'obspy.Stream/Trace slice and trim, UTCDateTime (own sources, instrumented)']
BOUNDS = ('streams of one to three traces with 1 to 12 samples (thorough: 20) at 1 or 100 samples per second and a symbolic start on the 10 ms grid (short streams); symbolic window length of any multiple of a '
          'sixteenth of the sample interval up to twice the record, at overlaps of 0, 1/4, 1/2, 3/4, or fixed window lengths at every overlap from 0 to 0.9 in steps of 0.001; symbolic values, each returned '
          'quantity present or missing in each of up to four windows')
OUTSIDE = 'traces of one stream that start or end at different times; windows shorter than one sample interval; overlaps above 0.9; ties closer than 2 microseconds'
REACH = ['many', 'one', 'short', 'exact', 'missing field', 'late field']
MODS = ['xcorr']
ASSUMPTIONS = ['the processing function returns any dictionary of quantities']
CASE_BUDGET = {'quick': 130, 'thorough': 400}
MAX_REPLAYS = 60


def cases(tier):
    r = []
    big = tier == 'thorough'
    for dt in (1, 0.01):
        for n in (1, 2, 3, 5, 8) + ((12, 20) if big else ()):
            for ov in (0, 0.5) + ((0.25, 0.75) if big or n == 5 else ()):
                if dt == 1 and n in (2, 3) and not big: continue
                r.append({'name': 'L_%g_%d_%g' % (dt, n, ov), 'dt': dt, 'n': n, 'ov': ov, 'nt': 2 if n < 5 else 1, 'keys': False})
        for n, L in ((4, 1), (6, 3), (9, 4), (9, 2), (5, 5), (5, 4)) + (((20, 7), (16, 3)) if big else ()):
            r.append({'name': 'ov_%g_%d_%d' % (dt, n, L), 'dt': dt, 'n': n, 'L': L, 'nt': 1, 'keys': False})
    for n, L, ov in ((5, 4, 0), (4, 2, 0.5), (5, 2, 0), (9, 3, 0.25)):
        r.append({'name': 'keys_%d_%d_%g' % (n, L, ov), 'dt': 1, 'n': n, 'L': L, 'ov': ov, 'nt': 3, 'keys': True})
    return r


def harness(io):
    X = io.mod('xcorr'); cs = io.case
    c = (lambda v: SymNum.const(Fr(v))) if io.symbolic else float
    dt = c(str(cs['dt'])); n = cs['n']
    t0 = c10.grid_time(io, 't0', -1, 5) if cs['n'] < 5 and not cs['keys'] else 0
    st = obspy.Stream([c10.make_trace(io, t0, [100 * q + k for k in range(n)], cs['dt']) for q in range(cs['nt'])])
    for q, tr in enumerate(st): tr.stats.station = 'S%d' % q
    D = dt * (n - 1)
    if 'L' in cs: Lx = dt * cs['L']; L = cs['L'] * cs['dt']
    else:
        L = io.grid('L', 16, 32 * n, round(16 / cs['dt'])); Lx = L
    if 'ov' in cs: ov = cs['ov']; ovx = c(str(ov))
    else:
        ov = io.grid('ov', 0, 900, 1000); ovx = ov
    seen = []; vals = []

    def f(s, args):
        k = len(seen)
        seen.append([[int(x) for x in tr.data] for tr in s])
        io.check(args == {'a': 1}, 'arguments are passed on')
        d = {}
        if cs['keys'] and k < 4:
            for key in ('p', 'q'):
                if io.choice('%s%d' % (key, k), [True, False]): d[key] = io.real('v%s%d' % (key, k), -9, 9)
                else: io.reach('missing field')
                if key in d and vals and not any(key in w for w in vals): io.reach('late field')
        else:
            d['p'] = k
        vals.append(d)
        return d
    out = X.apply_function_windows(st, f, L, ov, {'a': 1})
    m = len(seen)
    io.observe('n', m)
    mids = list(out['t_mid'])
    tol = 3e-6
    if not io.check(len(mids) == m, 'one row per window'): return
    t1 = st[0].stats.starttime
    if m == 0:
        io.check(D + dt < Lx + tol, 'a record of at least one window is processed')
        io.reach('short')
        return
    io.check(D + dt >= Lx - tol, 'every window has the requested length')
    starts = [b - t1 - L / 2 for b in mids]
    io.check(near(starts[0], 0, tol), 'the first window starts at the first sample')
    if m == 1:
        io.reach('one')
        io.check(D <= Lx + tol * Lx, 'a longer record needs more than one window')
        if bool(AbsLe(D + dt - Lx, tol)): io.reach('exact')
    else:
        io.reach('many')
        step = (D - Lx) / (m - 1)
        for k, s in enumerate(starts):
            io.check(near(s, step * k, tol), 'windows are evenly spaced and the last one ends at the last sample')
        io.check(D - Lx <= (Lx * (1 - ovx)) * (m - 1) * (1 + tol), 'windows have the requested overlap')
        if m > 1: io.check(D - Lx >= (Lx * (1 - ovx)) * (m - 2) * (1 - tol), 'there are no more windows than needed')
    for k in range(m):
        s = starts[k]
        io.check(len(seen[k]) == len(st), 'every trace takes part')
        for q, got in enumerate(seen[k]):
            idx = [x - 100 * q for x in got]
            io.check(all(0 <= x < n for x in idx) and idx == list(range(idx[0], idx[-1] + 1)) if idx else True, 'samples of a window')
            for j in range(n):
                tj = dt * j
                # a sample exactly at the start belongs to the window, one exactly at its end does not; in between (below 3
                # microseconds) either is right
                if j in idx: io.check(And(tj >= s - tol, tj < s + Lx + tol, Not(AbsLe(tj - s - Lx, 1e-7))), 'window %d must not hold sample %d' % (k, j))
                else: io.check(And(Or(tj < s + tol, tj >= s + Lx - tol), Not(AbsLe(tj - s, 1e-7))), 'window %d lacks sample %d' % (k, j))
    keys = []
    for d in vals:
        for key in d:
            if key not in keys: keys.append(key)
    io.check(sorted(out.keys()) == sorted(keys + ['t_mid']), 'every quantity has a column')
    for key in keys:
        col = list(out[key])
        if not io.check(len(col) == m, 'a column has one entry per window'): continue
        for k in range(m):
            if key in vals[k]: io.check(near(num(col[k]), vals[k][key], 1e-9), 'entry %d of a column' % k)
            else: io.check(S.isnanv(num(col[k])), 'blank where a window lacks a quantity')
