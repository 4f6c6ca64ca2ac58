"""C05: the GPS timing model (robust cubic fit) and the decision to accept a file."""
from checks.common import *
from fractions import Fraction as Fr
from symx.engine import is_sym

FUNCS = ['core._calculate_drift', 'core._robust_regress', 'core._detect_step']
BOUNDS = ('one file with 0 to 24 fixes (thorough: up to 40) at concrete, regularly or irregularly spaced counter values on a drifting clock; symbolic misfits: any one or two '
          'fixes off by any -0.5..0.5 s each, any clock step of -1..1 s at several places, a slope error, a parabola; symbolic file end (any count), symbolic start; '
          'GPS required or not')
OUTSIDE = 'symbolic counter values of the fixes (the fit would be non-linear in them); more than two independent misfits; rounding of the float fit'
REACH = ['accepted', 'no gps', 'short gps', 'step', 'too few', 'outlier removed', 'fallback', 'fallback none', 'cluster']
MODS = ['core', 'gemlog_aux']
ASSUMPTIONS = ['numpy polyfit returns the least-squares polynomial', 'file without enough points for the fit counts as having no fit']
CASE_BUDGET = {'quick': 100, 'thorough': 800}
TIMEOUT_MS = 20000
MAX_REPLAYS = 60
T0 = 1600000000


def cases(tier):
    r = []
    def add(name, n, mis=(), **k):
        for rg in ((True, False) if k.pop('both', True) else (True,)):
            r.append(dict({'name': '%s_%d_%s' % (name, n, 'req' if rg else 'opt'), 'n': n, 'mis': list(mis), 'req': rg}, **k))
    for n in (0, 1, 2, 3, 4):
        add('few', n)
    for n in (9, 10, 11):
        add('count', n, [('one', n // 2, 0.5)])
    ns = (20,) if tier == 'quick' else (20, 24, 40)
    for n in ns:
        add('clean', n, end=True)
        for i in (0, 7, n - 1):
            add('one%d' % i, n, [('one', i, 0.5)])
        for k in (1, n // 2, n - 2):
            add('step%d' % k, n, [('step', k, 1.0)])
        add('slope', n, [('slope', 0, 1.0)])
        add('parab', n, [('parab', 0, 1.0)])
        add('two', n, [('one', 5, 0.5), ('one', 12, 0.5)], both=False)
    add('cluster', 21, [('one', 19, 0.2)], layout='cluster', opp=True)
    add('cluster', 13, [('one', 11, 0.2)], layout='cluster', opp=True)
    add('irregular', 15, [('one', 9, 0.5)], layout='irr')
    add('irregular', 15, [('step', 9, 0.5)], layout='irr')
    add('stepone', 20, [('step', 9, 0.5), ('one', 3, 0.3)], both=False)
    add('back', 12, [('one', 11, 0.5)], layout='back', both=True)
    return r


def positions(cs):
    n = cs['n']; lay = cs.get('layout')
    if lay == 'cluster':     # all but the last two in the first twentieth of the file
        return [1000 + 10000 * i for i in range(n - 2)] + [3400000, 3500000]
    if lay == 'irr':
        return [500 + 1000 * (i * i) + 37 * i for i in range(n)]
    return [2000 + 60000 * i for i in range(n)]


def lsq(xs, ys, deg):
    """exact least squares on x scaled to about 1"""
    s = Fr(max(abs(x) for x in xs) or 1)
    u = [Fr(x) / s for x in xs]
    m = deg + 1
    A = [[sum(v ** (i + j) for v in u) for j in range(m)] for i in range(m)]
    inv = [[Fr(int(i == j)) for j in range(m)] for i in range(m)]
    for c in range(m):
        p = next((r for r in range(c, m) if A[r][c] != 0), None)
        if p is None: return None
        A[c], A[p] = A[p], A[c]; inv[c], inv[p] = inv[p], inv[c]
        q = A[c][c]
        A[c] = [v / q for v in A[c]]; inv[c] = [v / q for v in inv[c]]
        for r in range(m):
            if r != c and A[r][c] != 0:
                f = A[r][c]
                A[r] = [a - f * b for a, b in zip(A[r], A[c])]
                inv[r] = [a - f * b for a, b in zip(inv[r], inv[c])]
    co = []
    for i in range(m):
        w = [sum(inv[i][j] * v ** j for j in range(m)) for v in u]
        co.append(tot([y * k if is_sym(y) else k * y for y, k in zip(ys, w)]))
    return lambda x: tot([c * (Fr(x) / s) ** i for i, c in enumerate(co)])


def tot(v):
    r = 0
    for x in v: r = r + x
    return r


def gt(io, a, b, m):
    """a > b; values within m of each other are left out later on"""
    c = bool(a > b)
    io.margins.append(a > b + m if c else a < b - m)
    return c


def sdev(v):
    m = tot(v) / len(v)
    r = tot([(x - m) * (x - m) for x in v]) / len(v)
    return r.sqrt() if is_sym(r) else float(r) ** 0.5


def robust(io, xs, ys, deg, mad):
    """the documented procedure: repeatedly drop fixes beyond 4 standard deviations or, when there are none, beyond mad"""
    idx = list(range(len(xs)))
    dropped = False
    while True:
        if len(idx) <= deg: return None
        f = lsq([xs[i] for i in idx], [ys[i] for i in idx], deg)
        if f is None: return None
        res = [ys[i] - f(xs[i]) for i in idx]
        lim = 4 * sdev(res)
        out = [gt(io, abs(x), lim, Fr(1, 10 ** 4)) for x in res]
        if not any(out) and mad is not None:
            out = [gt(io, abs(x), mad, Fr(1, 10 ** 5)) for x in res]
        if not any(out):
            return f, idx, res, dropped
        dropped = True
        idx = [i for i, o in zip(idx, out) if not o]


def harness(io):
    core = io.mod('core')
    io.margins = []
    pd = __import__('pandas')
    cs = io.case; n = cs['n']
    xs = positions(cs)
    rate = Fr(1024, 10 ** 6) * (1 + Fr(3, 10 ** 6))
    ys = [Fr(x) * rate + Fr((i * i * 31 + i * 5 + 13) % 17 - 8, 8000) for i, x in enumerate(xs)]   # 1 ms of jitter
    if cs.get('layout') == 'back':      # the last fix lies far in the past
        ys[-1] = ys[0] - 4000
    for q, (kind, k, amp) in enumerate(cs['mis']):
        e = io.real('e%d' % q, -amp, amp)
        for i in range(n):
            if kind == 'one': w = Fr(int(i == k))
            elif kind == 'step': w = Fr(int(i >= k))
            elif kind == 'slope': w = Fr(i, n)
            elif kind == 'parab': w = Fr((2 * i - n) ** 2, n * n)
            ys[i] = ys[i] + (e * w if w else 0)
            if cs.get('opp') and kind == 'one' and i == k + 1:
                ys[i] = ys[i] - e
    if io.symbolic and any(is_sym(y) for y in ys):
        ys = [y if is_sym(y) else SymNum.const(Fr(y)) for y in ys]      # exact
    last = xs[-1] if xs else 600000
    if cs.get('end') or n < 3:
        d0 = io.int('d0', 0, 2000)
        d1 = d0 + io.int('dur', 1000, 3 * last + 5000)
    else:
        d0, d1 = 0, last + 1500
    mid = [d0 + 10, d0 + 20]
    D = np.empty((4, 2), object) if io.symbolic else np.zeros((4, 2))
    for i, v in enumerate([d0] + mid + [d1]):
        D[i, 0] = v; D[i, 1] = 5.0 * i
    yy = [y + T0 if is_sym(y) else float(y + T0) for y in ys]
    if n:
        obj = io.symbolic and any(is_sym(v) for v in yy)
        G = pd.DataFrame({'msPPS': [float(x) for x in xs], 'msLag': [50.0] * n, 'lat': [35.0 + i * 1e-5 for i in range(n)],
                          'lon': [-106.0] * n, 't': pd.Series(yy, dtype=object if obj else float)})
    else:
        G = pd.DataFrame({k: pd.Series([], dtype=float) for k in ('msPPS', 'msLag', 'lat', 'lon', 't')})
    L = {'data': D, 'gps': G, 'metadata': None}
    # what should happen
    dur = (d1 - d0) * Fr(1024, 10 ** 6)
    enough = n > 0
    span = (ys[-1] - ys[0]) if n else 0
    if enough:
        # the fixes must span half of the file; the last must come after the first
        enough = bool(span * 2 - dur >= 0) and bool(span > 0)
    ok = enough
    why = '' if ok else ('no' if n == 0 else 'short')
    stepped = False
    if ok:
        lin = robust(io, xs, ys, 1, None)
        if lin is None:
            stepped = None
        else:
            stepped = any(gt(io, abs(b - a), Fr(1, 4), Fr(1, 10 ** 5)) for a, b in zip(lin[2], lin[2][1:]))
        if cs['req'] and stepped:
            ok = False; why = 'step'
    fit = None
    if enough and not (cs['req'] and not ok):
        fit = robust(io, xs, ys, 3, Fr(1, 100))
        if fit is None:
            ok = False; why = 'few'
        else:
            f, idx, res, dropped = fit
            if dropped: io.reach('outlier removed')
            if len(idx) < 10:
                ok = False; why = 'few'
            elif not bool((d1 - d0) <= 2 * (xs[idx[-1]] - xs[idx[0]])):
                ok = False; why = 'few'; io.reach('cluster')
    io.reach({'': 'accepted', 'no': 'no gps', 'short': 'short gps', 'step': 'step', 'few': 'too few'}[why])
    for c in io.margins:
        io.assume(c)
    err = None
    try:
        H = core._calculate_drift(L, 'FILE0000.077', cs['req'])
    except Exception as e:
        if type(e).__name__ == 'Unsupported': raise
        err = e
    io.observe('err', err is not None)
    if cs['req'] and not ok:
        io.check(err is not None, 'file with inadequate GPS (%s) is rejected' % why)
        return
    if not io.check(err is None, 'file is accepted (%s): %s' % (why, type(err).__name__)):
        return
    def model(x):
        return num(H['drift_deg0']) + num(H['drift_deg1']) * x + num(H['drift_deg2']) * (x * x) + num(H['drift_deg3']) * (x * x * x)
    pts = ([xs[0], xs[-1], xs[n // 2]] if n else []) + [0]
    if ok:
        f, idx, res, dropped = fit
        for x in pts:
            io.check(AbsLe(model(x) - T0 - f(x), 1e-4), 'clock model is the fit to the fixes left after outlier removal')
        for i in idx:
            io.check(AbsLe(model(xs[i]) - T0 - ys[i], 0.0101), 'clock model reproduces every remaining fix')
    else:
        if n:
            io.reach('fallback')
            st = tot([y + Fr(-x * 1024, 10 ** 6) for x, y in zip(xs, ys)]) * Fr(1, n) + T0
        else:
            io.reach('fallback none')
            st = 0
        for x in pts:
            io.check(AbsLe(model(x) - st - x * 0.001024, 1e-4), 'without a fit the clock runs at 1.024 ms per count from the mean implied start')
    io.check(near(num(H['start_ms']), d0, 1e-6), 'start of file')
    io.check(near(num(H['end_ms']), d1, 1e-6), 'end of file')
    io.observe('m', [model(x) for x in pts[:2]])
