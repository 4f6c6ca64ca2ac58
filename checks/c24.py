"""C24: huddle-test verdicts."""
from checks.common import *
from symx.engine import is_sym
import obspy, os

FUNCS = ['huddle_test.verify_huddle_test', 'huddle_test._metadata_status']
BOUNDS = ('one or two loggers (three for the selection) with four rows of metadata (up to 103 for the proportions; thorough: up to 205), of which up to six values of the column in question (three for the '
          'proportions) have any symbolic value; the other columns hold good values; GPS run times from five values around the limits at any three places among 22 rows; loggers listed or found in the folder, with exclusions')
OUTSIDE = 'comparisons between loggers; plots and the PDF report; waveforms; metadata rows without a time'
REACH = ['ERROR', 'WARNING', 'NOTE', 'OKAY', 'two loggers', 'found', 'flat', 'to the end']
MODS = ['huddle_test', 'gemlog_aux']
CASE_BUDGET = {'quick': 120, 'thorough': 600}
MAX_REPLAYS = 60
MAX_PATHS = 20000

COLS = ['millis', 'batt', 'temp', 'A2', 'A3', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag', 'unusedStack1', 'unusedStackIdle', 'index', 't']
GOOD = {'millis': 1000, 'batt': 6.0, 'temp': 20.0, 'A2': 1.5, 'A3': 1.5, 'maxWriteTime': 14, 'minFifoFree': 70, 'maxFifoUsed': 1, 'maxOverruns': 0, 'gpsOnFlag': 0,
        'unusedStack1': 56, 'unusedStackIdle': 51, 'index': 50}
RNG = {'batt': (0, 2000, 100), 'temp': (-3000, 7000, 100), 'A2': (-500, 4000, 1000), 'A3': (-500, 4000, 1000), 'maxFifoUsed': (0, 75, 1), 'maxOverruns': (0, 10, 1),
       'unusedStack1': (0, 60, 1), 'unusedStackIdle': (0, 60, 1), 'gpsOnFlag': (0, 1, 1)}
T0 = 1600000000


def cases(tier):
    r = []
    def add(name, **k):
        r.append(dict({'name': name, 'n': 4, 'sns': ['058'], 'sym': {}, 'list': True, 'exc': [], 'stop': True}, **k))
    add('end', sym={'058': [('batt', 1)]}, stop=False); add('end_two', sns=['058', '061'], sym={'058': [('batt', 1)]}, stop=False)
    for c in ('batt', 'temp', 'A2', 'A3'):
        add(c, sym={'058': [(c, 0), (c, 2), (c, 3)]})
        add(c + '_two', sns=['058', '061'], sym={'058': [(c, 1)], '061': [(c, 2)]})
    for c in ('maxFifoUsed', 'maxOverruns'):
        add(c, sym={'058': [(c, 0), (c, 3)]})
        add(c + '_two', sns=['058', '061'], sym={'058': [(c, 3)], '061': [(c, 0)]})
    add('stack', sym={'058': [('unusedStack1', 1), ('unusedStackIdle', 2)]})
    add('stack_two', sns=['058', '061'], sym={'058': [('unusedStack1', 3)], '061': [('unusedStackIdle', 0)]})
    for c in ('A2', 'A3'):
        for n in (21, 22, 23, 61, 101, 102) + ((205,) if tier == 'thorough' else ()):
            add('flat_%s_%d' % (c, n), n=n, sym={'058': [(c, 5), (c, 6)]})
        add('flat_%s_ends' % c, n=103, sym={'058': [(c, 0), (c, 102)]})
    for n in (100, 101) + ((200, 202) if tier == 'thorough' else ()):
        add('fifo_%d' % n, n=n, sym={'058': [('maxFifoUsed', 0), ('maxFifoUsed', 50), ('maxFifoUsed', 99)]})
    add('gps', n=22, gps=[9, 10, 20]); add('gps_off', n=22, gps=[15], sym={'058': [('gpsOnFlag', 4), ('gpsOnFlag', 14), ('gpsOnFlag', 15)]})
    add('found', list=False, sns=['058', '061', '077'], sym={'061': [('batt', 1)]}, exc=['077'])
    add('listed', sns=['061', '058'], files=['058', '061', '077'], sym={'061': [('temp', 3)], '058': [('temp', 0)]})
    if tier == 'thorough':
        for c in ('batt', 'temp'):
            add(c + '_six', n=6, sym={'058': [(c, k) for k in range(6)]})
        add('three', sns=['058', '061', '065'], sym={'058': [('batt', 1), ('temp', 2)], '061': [('batt', 2)], '065': [('temp', 3)]})
    return r


class Stop(Exception): pass


def frames(printed):
    return [a[0] for a in printed if len(a) == 1 and hasattr(a[0], 'columns') and hasattr(a[0], 'loc')]


class Dummy:
    """stands for figures and axes"""
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Dummy()
    def __call__(self, *a, **k): return Dummy()
    def __getitem__(self, k): return Dummy()
    def __setitem__(self, k, v): pass
    def __iter__(self): return iter([1.0, 2.0])
    def __len__(self): return 2


def harness(io):
    H = io.mod('huddle_test'); cs = io.case
    import matplotlib.pyplot as plt
    for f in ('figure', 'close', 'legend', 'plot', 'title', 'ylabel', 'xlabel'):
        io.patch(plt, f, lambda *a, **k: Dummy())
    io.patch(plt, 'subplots', lambda *a, **k: (Dummy(), Dummy()))
    d = io.tmpdir()
    for s in ('gps', 'metadata', 'mseed', 'figures'): os.mkdir(d + '/' + s)
    vals = {}
    n = cs['n']
    for sn in cs.get('files', cs['sns']):
        step = 603.0 / (n - 1) if n > 4 else 201.0
        V = {c: [GOOD[c]] * n for c in GOOD}
        if n <= 4 or 'flat' not in cs['name']:
            for c in ('A2', 'A3'): V[c] = [1.5 + 0.1 * (k % 2) for k in range(n)]
        steps = [step] * (n - 1)
        for k in cs.get('gps', []): steps[k] = io.choice('run%d' % k, [5.0, 11.0, 60.0, 180.0, 181.0] if k != 9 else [60.0, 700.0])
        t = [T0]
        for s in steps: t.append(round(t[-1] + s, 2))
        V['t'] = t
        for c, k in cs['sym'].get(sn, []):
            v = io.grid('%s_%s_%d' % (c, sn, k), *RNG[c]) if RNG[c][2] > 1 else io.int('%s_%s_%d' % (c, sn, k), *RNG[c][:2])
            V[c] = V[c][:k] + [v] + V[c][k + 1:]
        vals[sn] = V
        with open('%s/metadata/%smetadata_000.txt' % (d, sn), 'w') as f:
            f.write(','.join(COLS) + '\n')
            for k in range(n): f.write(','.join(text(V[c][k]) if is_sym(V[c][k]) else '%s' % V[c][k] for c in COLS) + '\n')
        with open('%s/gps/%sgps_000.txt' % (d, sn), 'w') as f:
            f.write('year,date,lat,lon,t\n2020,200,43.5,-116.2,2020-09-13T12:26:40.000000Z\n2020,200,43.5,-116.2,2020-09-13T12:36:40.000000Z\n')

    def read(p, *a, **k):
        tr = obspy.Trace(np.arange(2400, dtype='float64') % 7)
        tr.stats.starttime = obspy.UTCDateTime(T0)
        return obspy.Stream([tr])
    io.patch(obspy, 'read', read)
    kw = {'SN_to_exclude': list(cs['exc'])}
    if cs['list']: kw['SN_list'] = list(cs['sns'])
    else: io.reach('found')
    sns = [s for s in cs['sns'] if s not in cs['exc']]
    printed = []

    def rec(*a, **k):
        printed.append(a)
        if len(frames(printed)) == 2 and cs['stop']: raise Stop()
    io.patch(H, 'print', rec)
    out = None; end = 'returned'
    try: out = H.verify_huddle_test(d, individual_only=True, generate_report=False, **kw)
    except Stop: end = 'stop'
    except Exception as e:
        if len(frames(printed)) < 2: raise
        end = repr(e)[:80]
    if not cs['stop']:
        io.reach('to the end')
        io.check(isinstance(out, dict) and all(k in out for k in ('errors', 'warnings', 'stats', 'results')), 'the documented results are returned: %s' % end)
        return
    fr = frames(printed)
    if not io.check(len(fr) == 2, 'verdicts and statistics are shown'): return
    res, stats = fr
    if not io.check(list(res.index) == sns, 'one row of verdicts per requested logger'): return
    said = [a[0] for a in printed if len(a) == 1 and isinstance(a[0], str)]
    if len(sns) > 1: io.reach('two loggers')
    for sn in sns:
        V = vals[sn]
        want = {}
        touched = {c for c, k in cs['sym'].get(sn, [])}

        def anyv(c, f): return any(bool(f(v)) for v in V[c])
        def lvl(err, warn): return 'ERROR' if err else 'WARNING' if warn else 'OKAY'
        want['Battery min'] = lvl(anyv('batt', lambda v: v < 1.7), anyv('batt', lambda v: v < 2.2))
        want['Battery max'] = lvl(anyv('batt', lambda v: v > 15), anyv('batt', lambda v: v > 14.5))
        want['Temperature min'] = lvl(anyv('temp', lambda v: v < -20), anyv('temp', lambda v: v < -15))
        want['Temperature max'] = lvl(anyv('temp', lambda v: v > 60), anyv('temp', lambda v: v > 55))
        for c in ('A2', 'A3'):
            same = sum(1 for a, b in zip(V[c], V[c][1:]) if bool(sym_eq(a, b)))
            io.reach('flat')
            want[c + ' flat'] = lvl(100 * same > 99 * (n - 1), 100 * same > 95 * (n - 1))
            want[c + ' range'] = lvl(anyv(c, lambda v: Or(v < 0, v > 3.1)), False)
        over = sum(1 for v in V['maxFifoUsed'] if bool(v > 5))
        want['Unusual FIFO use'] = 'NOTE' if 100 * over > n else 'OKAY'
        want['Excessive FIFO use'] = 'NOTE' if anyv('maxFifoUsed', lambda v: v > 50) else 'OKAY'
        want['Max overruns'] = lvl(False, anyv('maxOverruns', lambda v: v > 0))
        want['Unused stack'] = lvl(False, anyv('unusedStack1', lambda v: v <= 30) or anyv('unusedStackIdle', lambda v: v <= 30))
        off = [t for t, g in zip(V['t'], V['gpsOnFlag']) if bool(sym_eq(g, 0))]
        runs = [b - a for a, b in zip(off, off[1:])][10:]
        want['GPS run time'] = lvl(False, any(r > 180 for r in runs))
        got = {}
        for c, w in want.items():
            g = res.loc[sn, c] if c in res.columns else None
            got[c] = g
            io.check(g == w, '%s: %s instead of %s' % (c, g, w))
            io.reach(w)
        for kind in ('ERROR', 'WARNING'):
            msgs = [m for m in said if m.startswith(sn + ' ') and ' %s: ' % kind in m]
            bare = [m for m in said if m.startswith('UNUSED STACK %s: ' % kind)]
            io.check(len(sns) > 1 or not bare, 'the unused-stack warning names its logger')
            n_want = sum(1 for c, w in want.items() if w == kind and not (bare and c == 'Unused stack'))
            io.check(len(msgs) == n_want, 'one message per %s, naming the logger' % kind.lower())
        st = stats
        for c, k, f in (('batt', 'Battery', 0), ('temp', 'Temperature', 0)):
            if c in touched or not cs['sym']:
                lo, hi = num(st.loc[sn, k + ' min']), num(st.loc[sn, k + ' max'])
                io.check(And(*[And(lo <= v + 1e-9, hi >= v - 1e-9) for v in V[c]]), 'lowest and highest value')
                io.check(And(Or(*[near(lo, v, 1e-9) for v in V[c]]), Or(*[near(hi, v, 1e-9) for v in V[c]])), 'lowest and highest value occur')
        io.observe(sn, sorted(got.items()))
