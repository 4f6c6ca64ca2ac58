"""C21: day-by-day processing."""
from checks.common import *
from checks import c10
import obspy, os
import pandas as pd
from fractions import Fraction as Fr

FUNCS = ['xcorr.loop_through_days', 'xcorr._check_input_IDs', 'obspy.Stream/Trace merge, trim, slice and UTCDateTime (own sources, instrumented)']
BOUNDS = ('one to three channels, each with one to three recordings of up to six samples at 1 sample per second, next to or across UTC midnights of three days; symbolic start of the recordings '
          '(10 ms grid, within 7 s of a midnight), symbolic gaps between files chosen from none, 20 s, 12 h, one day; symbolic start and stop of the period on a 10 ms grid offset by 3 ms '
          '(or exactly on a sample) or none; channels in separate or common files, listed in any order; requested and excluded channels; a day on which the function fails')
OUTSIDE = 'channels sampled at different rates or whose samples are not taken at the same times; overlapping recordings of one channel; sampling intervals above 1 s'
REACH = ['one interval', 'several intervals', 't1', 't2', 'midnight sample', 'excluded', 'failed day', 'empty day', 'nothing']
MODS = ['xcorr']
CASE_BUDGET = {'quick': 220, 'thorough': 600}
MAX_REPLAYS = 60


def cases(tier):
    r = []
    def add(name, segs, nch=1, lim='', **k):
        r.append(dict({'name': name + ('_' + lim if lim else ''), 'segs': segs, 'nch': nch, 'lim': lim}, **k))
    for lim in ('', 't1', 't2', 't1t2'):
        add('one', [(0, 6)], lim=lim)
        add('two', [(0, 4), (86400, 5)], lim=lim)
    for lim in ('', 't1', 't2'):
        add('three', [(0, 3), (86400, 3), (86400, 3)], lim=lim)
    add('adjacent', [(0, 3), (3, 3)], lim='')
    add('adjacent', [(0, 3), (3, 3)], lim='t1')
    add('gap', [(0, 3), (20, 2), (86400, 3)], lim='')
    add('half', [(0, 3), (43200, 2), (43200, 2)], lim='t1')
    add('skip', [(0, 3), (172800, 3)], lim='')
    for com in (False, True):
        add('ch2_%d' % com, [(0, 4), (86400, 4)], 2, common=com)
        add('ch3x_%d' % com, [(0, 3), (86400, 3)], 3, 't1', common=com, sel=['.S1.', '.S2.'], ex=['S2'])
    add('rev', [(0, 4), (86400, 4)], 2, '', rev=True)
    add('shift', [(0, 4), (86400, 4)], 2, '', shift=True)
    add('fail', [(0, 4), (86400, 4)], 1, '', fail=True)
    add('bad', [(0, 4), (86400, 4)], 1, '', bad=True)
    if tier == 'thorough':
        for lim in ('', 't1', 't2', 't1t2'):
            add('two_ch2', [(0, 6), (86400, 6)], 2, lim=lim, shift=True)
            add('four', [(0, 4), (86400, 4), (43200, 4), (43200, 3)], lim=lim)
            add('one9', [(0, 9)], 2, lim=lim, fail=True)
            add('half3', [(0, 5), (43200, 4), (43200, 5)], lim=lim)
    return r


def harness(io):
    X = io.mod('xcorr'); cs = io.case
    c = (lambda v: SymNum.const(Fr(v))) if io.symbolic else (lambda v: float(Fr(v)))
    t0 = c10.grid_time(io, 't0', -7, 1)
    chans = ['S%d' % q for q in range(cs['nch'])]
    files = {}; samples = []          # samples: (channel, tag, time)
    ends = []
    for q, ch in enumerate(chans):
        t = t0; off = 0
        sh = io.int('sh', -2, 2) if cs.get('shift') and q else 0
        for i, (d, n) in enumerate(cs['segs']):
            t = t + d
            st = t + sh
            tr = c10.make_trace(io, st, [1000 * q + 100 * i + k for k in range(n)], 1)
            tr.stats.station = ch; tr.stats.network = ''
            fn = 'f%d' % i if cs.get('common') else 'f%s_%d' % (ch, i)
            files.setdefault(fn, obspy.Stream()).append(tr)
            samples += [(ch, 1000 * q + 100 * i + k, st + k) for k in range(n)]
            ends.append((st, st + n - 1))
    names = list(files)
    if cs.get('rev'): names = names[::-1]
    if cs.get('bad'): names = names[:1] + ['broken'] + names[1:]

    def read(fn, **k):
        if fn == 'broken': raise TypeError('Unknown format')
        return files[fn].copy()
    io.patch(obspy, 'read', read)
    kw = {}
    lo = S.sx_minmax(0)(*[a for a, b in ends]) if False else ends[0][0]
    hi = ends[0][1]
    for a, b in ends[1:]:
        if bool(a < lo): lo = a
        if bool(b > hi): hi = b
    span = sum(d for d, n in cs['segs']) + 8
    T1, T2 = lo, hi
    near_ = lambda name: c10.BASE * 0 + io.choice(name + 'd', sorted({0, cs['segs'][-1][0] if len(cs['segs']) > 1 else 0, sum(d for d, n in cs['segs'])}))
    # time of a limit: close to the start of a recording, with an offset of 3 ms from the grid (no ties) or on a sample
    def limit(name):
        base = near_(name)
        if io.choice(name + 'tie', [False, True]): x = t0 + base + io.int(name + 'k', -1, 6)
        else: x = c10.grid_time(io, name, -9, 8) + base + c('3/1000')
        return x
    if 't1' in cs['lim']:
        x = limit('a'); io.reach('t1')
        kw['t1'] = c10.utc(io, x)
        if bool(x > T1): T1 = x
    if 't2' in cs['lim']:
        xa = x if 't1' in cs['lim'] else None
        x = limit('b'); io.reach('t2')
        if xa is not None: io.assume(x >= xa)
        kw['t2'] = c10.utc(io, x)
        if bool(x < T2): T2 = x
    sel = list(chans)
    if 'sel' in cs:
        kw['IDs'] = [s.replace('.', r'\.') for s in cs['sel']]; kw['exclude_IDs'] = cs['ex']
        sel = [ch for ch in chans if any('.%s.' % ch == s for s in cs['sel']) and ch not in cs['ex']]
        io.reach('excluded')
    calls = []

    def f(st, args):
        io.check(args == {'a': 1}, 'arguments are passed on')
        k = len(calls)
        got = []
        for tr in st:
            d = tr.data; m = np.ma.getmaskarray(d)
            got += [(tr.stats.station, int(d[j])) for j in range(len(d)) if not m[j]]
        calls.append(got)
        if not got: io.reach('empty day')
        if cs.get('fail') and io.choice('fail%d' % k, [False, True]):
            io.reach('failed day')
            ok.append(False)
            raise IndexError('no data')
        ok.append(True)
        return pd.DataFrame({'k': [k, k]})
    ok = []
    anysel = Or(*[And(b >= T1, a <= T2) for (a, b), ch in zip(ends, [ch for ch in chans for _ in cs['segs']]) if ch in sel])
    try:
        out = X.loop_through_days(f, names, quiet=True, args={'a': 1}, **kw)
    except Exception as e:
        if type(e) is not Exception: raise
        io.reach('nothing')
        io.check(Not(anysel), 'data of the period are processed: %s' % e)
        return
    if not io.check(anysel, 'no data, no processing'): return
    io.observe('n', [len(x) for x in calls])
    # expected: intervals meet at the midnights strictly inside the period
    inside = [86400 * j for j in range(-2, 6)]
    mids = [m for m in inside if bool(And(T1 < m, m < T2))]
    if not io.check(len(calls) == len(mids) + 1, 'one call per interval: %d calls, %d midnights inside the period' % (len(calls), len(mids))): return
    io.reach('several intervals' if mids else 'one interval')
    flat = [x for g in calls for x in g]
    io.check(len(set(flat)) == len(flat), 'no sample is processed twice')
    for ch, tag, t in samples:
        w = [k for k, g in enumerate(calls) if (ch, tag) in g]
        if ch not in sel:
            io.check(not w, 'unselected channel')
            continue
        if not w:
            io.check(Or(t < T1, t > T2), 'sample %d of channel %s is skipped' % (tag, ch))
            continue
        io.check(And(t >= T1, t <= T2), 'sample outside the period')
        k = w[0]
        io.check(And(t >= mids[k - 1] if k else True, t < mids[k] if k < len(mids) else True), 'sample is processed in the interval it belongs to')
        if k and bool(t == mids[k - 1]): io.reach('midnight sample')
    io.check(set(flat) <= {(ch, tag) for ch, tag, t in samples}, 'nothing is invented')
    want = [k for k in range(len(calls)) if ok[k] for _ in (0, 1)]
    io.check((out is None) == (not want), 'results of all intervals are returned')
    if out is not None: io.check(list(out['k']) == want, 'results of all intervals are returned in order')
