"""C23: noise spectra in the three units."""
from checks.common import *
import math
from fractions import Fraction as Fr
from symx.engine import is_sym
import pandas as pd
import scipy.interpolate

FUNCS = ['gemlog_aux.gem_noise', 'gemlog_aux.ims_noise', 'gemlog_aux._noise_spectrum_helper']
BOUNDS = ('noise models of four or five frequencies (the tables that the two model files hold are replaced by symbolic ones), symbolic spectrum values, one to three requested frequencies, '
          'each symbolic (inside or outside the range of the model, or exactly on one of its frequencies) or between two of its frequencies, symbolic or fixed integration bands, '
          'every unit, every documented model')
OUTSIDE = 'how the interpolation curves between the model\'s frequencies'
REACH = ['inside', 'outside', 'on', 'band', 'band outside', 'no band', 'default', 'units']
MODS = ['gemlog_aux']
ASSUMPTIONS = ['integration of the interpolated model is exact', 'a cubic spline is linear in its ordinates']
CASE_BUDGET = {'quick': 100, 'thorough': 400}
MAX_REPLAYS = 60
F1 = [0.25, 0.5, 1.0, 2.5, 4.0]
F0 = [0.0, 0.5, 1.0, 2.5, 4.0]      # the background noise models begin at 0 Hz
MODELS = ['gem', 'low', 'medium', 'high']


def cases(tier):
    r = []
    for m in MODELS:
        r.append({'name': m + '_knots', 'm': m, 'freq': ['k', 'k'], 'band': None})
        r.append({'name': m + '_sym', 'm': m, 'freq': ['s', 'k'] if tier == 'quick' else ['s', 's', 'k'], 'band': None})
        r.append({'name': m + '_default', 'm': m, 'freq': None, 'band': (0.5, 2.5), **({'sv': (0, 2)} if m == 'gem' else {})})
        r.append({'name': m + '_mid', 'm': m, 'freq': [0.75, 3.0], 'band': (0.3, 3.9), **({'sv': (1, 3)} if m == 'gem' else {})})
        r.append({'name': m + '_flat', 'm': m, 'freq': ['s'], 'band': 's', 'flat': True})
        r.append({'name': m + '_out', 'm': m, 'freq': [0.2 if m == 'gem' else -0.2, 4.0, 4.01], 'band': 'o'})
        r.append({'name': m + '_list', 'm': m, 'freq': [3.0, 0.25, 1.0], 'band': (0.25, 4.0), 'list': True, **({'sv': (1, 2)} if m == 'gem' else {})})
    for m in MODELS[1:]: r.append({'name': m + '_zero', 'm': m, 'freq': [0.0, 3.0], 'band': (0.0, 3.9)})
    r.append({'name': 'bad', 'm': 'gem', 'freq': None, 'band': None, 'bad': True})
    return r


UN = {'power': ('Pa^2/Hz', 'Pa^2'), 'amp': ('Pa/sqrt(Hz)', 'Pa'), 'dB': ('dB Pa/sqrt(Hz)', 'dB Pa')}


def isnan(v):
    return not is_sym(v) and v != v


def harness(io):
    aux = io.mod('gemlog_aux')
    cs = io.case; m = cs['m']; sym = io.symbolic
    F = F1 if m == 'gem' else F0
    n = len(F)
    if cs.get('bad'):
        for k in ({'spectype': 'volts'}, ):
            for f in (aux.gem_noise, aux.ims_noise):
                try: f(**k); ok = False
                except Exception: ok = True
                io.check(ok, 'unknown unit is refused')
        try: aux.ims_noise('loud'); ok = False
        except Exception: ok = True
        io.check(ok, 'unknown model is refused')
        return
    if cs.get('flat'):
        v = io.grid('v', 100, 4000, 1000)
        vals = [v] * n
    else:
        vals = [io.grid('v%d' % i, 100, 4000, 1000) if i in cs.get('sv', range(n)) else 1.0 + 0.25 * i for i in range(n)]
    other = [[io.grid('o%d_%d' % (j, i), 1, 4000, 1000) for i in range(n)] for j in range(2)]

    def obj(x):
        a = np.empty(len(x), object) if sym else np.zeros(len(x))
        for i, q in enumerate(x): a[i] = q
        return a

    def table(*a, **k):
        if m == 'gem':
            return pd.DataFrame({'f': np.array(F), 'amp': obj(vals)})
        cols = {'low': ['v', 0, 1], 'medium': [0, 'v', 1], 'high': [0, 1, 'v']}[m]
        return pd.DataFrame(dict(zip(['f', 'min', 'med', 'max'], [np.array(F)] + [obj(vals if c == 'v' else other[c]) for c in cols])))
    io.patch(pd, 'read_csv', table)
    if m == 'gem': P = [v * v for v in vals]
    else:
        if cs.get('flat'): P = [10 ** vals[0]] * n
        else: P = [10 ** v for v in vals]

    # requested frequencies
    fr = None
    if cs['freq'] is not None:
        fr = []
        for i, f in enumerate(cs['freq']):
            if f == 'k': fr.append(io.choice('k%d' % i, F))
            elif f == 's': fr.append(io.grid('f%d' % i, 1, 6000, 1000))
            else: fr.append(f)
        arg = fr if cs.get('list') else obj(fr)
    else: arg = None
    b = cs['band']
    kw = {}
    if b == 's':
        b = (io.grid('lo', 0, 5000, 1000), io.grid('hi', 1, 5000, 1000))
        io.assume(b[0] < b[1])
    elif b == 'o':
        b = io.choice('band', [(0.1, 2.0), (1.0, 5.0), (None, 3.0), (0.5, None)])
    if b is not None:
        kw['freq_min'], kw['freq_max'] = b
    res = {}
    for u in UN if m == 'gem' or cs.get('flat') or (cs['band'] in (None, 'o')) else ['power']:
        try:
            if m == 'gem': res[u] = aux.gem_noise(freq=arg, spectype=u, **kw)
            else: res[u] = aux.ims_noise(m, freq=arg, spectype=u, **kw)
        except Exception as e:
            if type(e).__name__ in ('Unsupported', 'Abandon', 'PathEnd'): raise
            io.check(False, 'documented model and unit are accepted: %s %s: %s' % (m, u, e)); return
    want_f = fr if fr is not None else F
    sq = lambda v: v.sqrt() if is_sym(v) else math.sqrt(v)
    lg = lambda v: v.log10() if is_sym(v) else math.log10(v)

    # linear weights of the interpolation and its integral
    basis = scipy.interpolate.CubicSpline(np.array(F), np.eye(n))

    def lin(w):
        r = 0
        for c, p in zip(w, P):
            c = Fr(float(c)).limit_denominator(10 ** 12) if sym else float(c)
            if c: r = r + p * c
        return r
    rel = lambda x, y: near(x, y, 1e-6) if sym else bool(abs(x - y) <= 1e-3 * (1 + abs(y)))
    for u, d in res.items():
        io.check((d['spectrum_units'], d['noise_units']) == UN[u], 'units are named')
        gf = [num(x) for x in list(d['freqs'])]; gs = [num(x) for x in list(d['spectrum'])]
        if not io.check(len(gf) == len(want_f) == len(gs), 'one value per requested frequency'): return
        for f, g, s, k in zip(want_f, gf, gs, range(len(gf))):
            io.check(near(f, g, 1e-9), 'the requested frequencies')
            inside = And(f >= F[0], f <= F[-1])
            if not bool(inside):
                io.reach('outside')
                io.check(isnan(s), 'no number outside the range of the model'); continue
            io.reach('inside')
            p = None
            if cs.get('flat'): p = P[0]
            elif cs['freq'] is not None and cs['freq'][k] == 's': continue
            elif f in F: p = P[F.index(f)]; io.reach('on')
            else:
                p = lin(basis(f))
                if u != 'power' and not bool(p > 1e-6): continue
            io.check(rel(s, p if u == 'power' else sq(p) if u == 'amp' else 10 * lg(p)), 'spectrum in %s' % u)
            if u == 'power': io.reach('units')
        q = num(d['noise'])
        if b is None or b[0] is None or b[1] is None:
            io.reach('no band'); io.check(isnan(q), 'no band, no integrated noise'); continue
        if not bool(And(b[0] >= F[0], b[0] <= F[-1], b[1] >= F[0], b[1] <= F[-1])):
            io.reach('band outside'); io.check(isnan(q), 'no integrated noise for a band outside the model'); continue
        I = P[0] * (b[1] - b[0]) if cs.get('flat') else lin(basis.integrate(b[0], b[1]))
        io.reach('band')
        if not cs.get('flat') and u != 'power' and not bool(I > 1e-6): continue
        io.check(rel(q, I if u == 'power' else sq(I) if u == 'amp' else 10 * lg(I)), 'noise over the band in %s' % u)
        io.check(d['freq_min'] is b[0] and d['freq_max'] is b[1], 'band limits are reported')
    if fr is None: io.reach('default')
    io.observe('n', len(res))
