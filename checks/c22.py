"""C22: plane-wave inversion."""
from checks.common import *
import math, itertools
import pandas as pd
from fractions import Fraction as Fr

FUNCS = ['xcorr.invert_for_slowness']
BOUNDS = ('arrays of three to five sensors (thorough: six): eight fixed shapes, right-angled to nearly collinear and from 50 m to 10 km across; one to three '
          'windows, each crossed by a plane wave of any symbolic slowness vector up to 5 s/km per component; every listing order of a three-sensor coordinates table and selected orders of '
          'larger ones, unrelated entries and sorted or filtered tables (permuted row labels) in both inputs, and sensors that share station or location codes')
OUTSIDE = 'other array shapes (the lags depend linearly on the slowness, so each shape is decided for all waves); lags that are not those of a plane wave; collinear arrays'
REACH = ['three', 'more', 'extra', 'permuted', 'labels', 'direction']
MODS = ['xcorr']
CASE_BUDGET = {'quick': 150, 'thorough': 500}
TIMEOUT_MS = 20000
SHAPES = {
    'tri': [(0, 0), (1, 0), (0, 1)], 'tri2': [(0, 0), (-0.5, 1), (1, 0.25)],
    'quad': [(0, 0), (1, 0), (1, 1), (0, 1)], 'quad2': [(0.5, 0), (1, 2), (-1, 0.5), (0, 0)],
    'five': [(0, 0), (1, 0), (1, 1), (0, 1), (0.5, 0.5)], 'thin': [(0, 0), (1, 0.02), (2, 0)], 'small': [(0, 0), (0.05, 0.01), (0.02, -0.04)], 'wide': [(-5, -3), (4, 5), (-2, 4), (0, 0)],
    'six': [(0, 0), (1, 0), (2, 0), (2, 1), (1, 1), (0, 1)]}
CODES = {'plain': [('', 'S%d' % k, '') for k in range(6)], 'nets': [('AA', 'ST', ''), ('BB', 'ST', ''), ('AA', 'ST', '01'), ('BB', 'XT', '01'), ('AA', 'S', ''), ('AA', 'STA', '')]}


def cases(tier):
    r = []
    def add(name, shape, **k):
        r.append(dict({'name': name, 'shape': shape, 'codes': 'plain', 'win': 2, 'perm': 'id', 'extra': False, 'labels': 'range'}, **k))
    for sh in ('tri', 'tri2', 'quad', 'quad2', 'five', 'thin', 'small', 'wide') + (('six',) if tier == 'thorough' else ()):
        add('fixed_' + sh, sh, win=3)
    add('perm_tri', 'tri', perm='all'); add('perm_tri2', 'tri2', perm='all', codes='nets')
    add('perm_quad', 'quad', perm='some', extra=True); add('perm_five', 'five', perm='some', codes='nets', extra=True)
    add('perm_quad2', 'quad2', perm='all' if tier == 'thorough' else 'some', codes='nets')
    if tier == 'thorough':
        add('perm_six', 'six', perm='some', extra=True); add('perm_wide', 'wide', perm='all', extra=True)
    add('labels_perm', 'tri2', labels='perm', perm='all'); add('labels_win', 'quad2', labels='windows', win=3); add('labels_both', 'tri', labels='both', extra=True)
    return r


def direction(B):
    """(sine, cosine) of an angle in degrees, up to a common positive factor"""
    if not isinstance(B, SymNum) or B.constant() is not None:
        b = math.radians(float(B if not isinstance(B, SymNum) else B.constant()))
        return math.sin(b), math.cos(b)
    C = E.ctx()
    k = None; y = x = None
    for i, q in B.t.items():
        if i in C.ufinfo and C.ufinfo[i][0] == 'arctan2':
            if k is not None: raise E.Unsupported('angle')
            k = float(q) * math.pi / 180; y, x = C.ufinfo[i][1]
        elif not (C.atoms[i].isint and (q / 360).denominator == 1):
            raise E.Unsupported('angle')
    if k is None or abs(abs(k) - 1) > 1e-9: raise E.Unsupported('angle')
    if k < 0: y = -y
    c = float(B.c) % 360
    r = round(c / 90)
    if abs(c - 90 * r) > 1e-9: raise E.Unsupported('angle')
    for _ in range(r % 4): y, x = x, -y      # plus 90 degrees
    return y, x


def harness(io):
    X = io.mod('xcorr'); cs = io.case
    pos = [tuple(map(float, p)) for p in SHAPES[cs['shape']]]
    n = len(pos); codes = CODES[cs['codes']][:n]
    io.reach('three' if n == 3 else 'more')
    waves = [(io.real('sx%d' % w, -5, 5), io.real('sy%d' % w, -5, 5)) for w in range(cs['win'])]
    ids = ['.'.join(c) for c in codes]
    cols = {'t_mid': list(range(cs['win'])), 'mean_coef': [0.5] * cs['win']}
    for i in range(n):
        j = (i + 1) % n
        cols['rms_' + ids[i]] = [1.0] * cs['win']
        cols['lag_%s_%s' % (ids[i], ids[j])] = [(pos[i][0] - pos[j][0]) * a + (pos[i][1] - pos[j][1]) * b for a, b in waves]
        cols['r_%s_%s' % (ids[i], ids[j])] = [0.9] * cs['win']
    df = pd.DataFrame(cols)
    if cs['perm'] == 'all':
        perm = list(io.choice('perm', list(itertools.permutations(range(n))))); io.reach('permuted')
    elif cs['perm'] == 'some':
        perm = list(io.choice('perm', [tuple(range(n))[::-1], tuple(range(n))[2:] + (0, 1), (1, 0) + tuple(range(2, n))])); io.reach('permuted')
    else: perm = list(range(n))
    rows = [(codes[k], pos[k]) for k in perm]
    if cs['extra']:
        io.reach('extra')
        rows = [(('ZZ', 'S0', '09'), (9.0, 9.0))] + rows[:2] + [(('', 'XYZ', ''), (-7.0, 3.0))] + rows[2:]
    loc = pd.DataFrame({'x': [p[0] for c, p in rows], 'y': [p[1] for c, p in rows], 'z': [0.0] * len(rows),
                        'network': [c[0] for c, p in rows], 'station': [c[1] for c, p in rows], 'location': [c[2] for c, p in rows]})
    if cs['labels'] in ('perm', 'both'):
        io.reach('labels')
        m = len(rows)
        loc.index = [(2 * k + 1) % m if m % 2 else m - 1 - k for k in range(m)]      # as after sorting a table
    if cs['labels'] in ('windows', 'both'):
        io.reach('labels')
        df.index = [3 * k + 2 for k in range(cs['win'])]                          # as after leaving out windows
    res = X.invert_for_slowness(df, loc)
    if not io.check(len(res) == cs['win'], 'one row per window'): return
    for w, (a, b) in enumerate(waves):
        sl = num(list(res['slowness'])[w]); ba = num(list(res['backazimuth'])[w])
        d = sl * sl - (a * a + b * b)
        io.check(And(sl >= 0, AbsLe(d, 1e-6)), 'slowness of window %d' % w)
        y, x = direction(ba)
        # the wave comes from the direction opposite to its slowness vector; azimuths run clockwise from north
        cross = y * (-b) - x * (-a); dot = y * (-a) + x * (-b)
        io.check(Or(a * a + b * b <= 1e-8, And(AbsLe(cross, 1e-6), dot > 0)), 'backazimuth of window %d' % w)
        io.reach('direction')
    io.observe('n', len(res['slowness']))
