"""C09: joining traces across tiny gaps."""
from checks.common import *
import obspy

FUNCS = ['core._merge_gaps', 'obspy.Stream.merge/split/_cleanup, Trace.__add__/split (own sources, instrumented)']
BOUNDS = ('two to four traces (thorough: five) of one to three samples each (thorough: up to four) on the 10 ms grid, symbolic start time of the record, every spacing between '
          'neighbours of 10 to 70 ms symbolic on the grid, symbolic integer values')
OUTSIDE = 'longer records; traces that overlap in time or lie off the common 10 ms grid'
REACH = ['adjacent', 'filled', 'filled two', 'open']
MODS = ['core']
MAX_REPLAYS = 60
CASE_BUDGET = {'quick': 100, 'thorough': 700}


def cases(tier):
    import itertools
    r = []
    lens = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    for ls in itertools.product(lens, repeat=2):
        r.append({'name': 'len_%s' % '-'.join(map(str, ls)), 'lens': ls, 'perm': None})
    for ls in ((1, 1, 1), (2, 1, 2), (1, 3, 2), (2, 2, 1)):
        r.append({'name': 'len_%s' % '-'.join(map(str, ls)), 'lens': ls, 'perm': None})
    r.append({'name': 'len_2-1-1-2', 'lens': (2, 1, 1, 2), 'perm': None, 'hi': 5})
    r.append({'name': 'single', 'lens': (3,), 'perm': None})
    if tier == 'thorough':
        for ls in itertools.product((1, 2, 3), repeat=3):
            r.append({'name': 't_len_%s' % '-'.join(map(str, ls)), 'lens': ls, 'perm': None})
        r.append({'name': 'len_1-2-1-1-2', 'lens': (1, 2, 1, 1, 2), 'perm': None, 'hi': 5})
    return r


def harness(io):
    core = io.mod('core')
    cs = io.case; lens = cs['lens']
    t = io.grid('t0', 0, 10 ** 5, 100)            # start of the record, seconds after the base, on the 10 ms grid
    BASE = 1600000000
    st = obspy.Stream()
    runs = []                                       # (index of the first sample, values), index = grid position relative to t0
    pos = 0
    for i, n in enumerate(lens):
        if i:
            g = io.int('g%d' % i, 1, cs.get('hi', 7))
            g = int(E._ctx.concretize(g, 'gap')) if io.symbolic and type(g) is SymNum else int(g)
            pos = pos + g - 1
        vals = [io.int('v%d_%d' % (i, k), -10 ** 6, 10 ** 6) for k in range(n)]
        if io.symbolic:
            a = np.empty(n, object)
            for k, v in enumerate(vals): a[k] = v
        else:
            a = np.array(vals, dtype='int32')
        tr = obspy.Trace(a)
        tr.stats.starttime = obspy.UTCDateTime(BASE) + (t + pos * 0.01 if not io.symbolic else t + SymNum.const(pos) / 100)
        tr.stats.delta = 0.01
        tr.stats.channel = 'HDF'
        st += tr
        runs.append((pos, vals))
        pos += n
    out = core._merge_gaps(st)
    # what must come out: samples, fills and openings
    want = {}
    fills = {}
    groups = []
    for i, (p, vals) in enumerate(runs):
        if i and p - (runs[i - 1][0] + len(runs[i - 1][1]) - 1) <= 3:
            groups[-1][1] = p + len(vals)
            e = runs[i - 1][0] + len(runs[i - 1][1])
            for q in range(e, p):
                fills[q] = (runs[i - 1][1][-1], vals[0], (q - e + 1), p - e + 1)
            io.reach('adjacent' if e == p else 'filled' if p == e + 1 else 'filled two')
        else:
            if i: io.reach('open')
            groups.append([p, p + len(vals)])
        for q, v in enumerate(vals): want[p + q] = v
    if not io.check(len(out) == len(groups), 'one trace per group of joined traces: %d for %d' % (len(out), len(groups))):
        return
    for tr, (a, b) in zip(out, groups):
        s = (num(tr.stats.starttime.timestamp) - BASE - t) * 100
        io.check(near(s, a, 1e-3), 'start of the joined trace')
        vals = [num(x) for x in tr.data]
        if not io.check(len(vals) == b - a, 'number of samples of the joined trace'):
            return
        io.check(near(num(tr.stats.delta), 0.01, 1e-9), 'spacing')
        for q in range(a, b):
            v = vals[q - a]
            if q in want:
                io.check(near(v, want[q], 1e-6), 'original sample keeps its value at its time')
            else:
                l, r, k, m = fills[q]
                w = l + (r - l) * k / m
                io.check(AbsLe(v - w, 1.0), 'filled sample interpolates its neighbours')
        io.check(not isinstance(tr.data, np.ma.MaskedArray), 'no masked samples')
        io.observe('tr', [len(vals)] + [vals[q - a] for q in range(a, b) if q in want])
