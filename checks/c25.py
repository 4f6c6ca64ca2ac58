"""C25: filling short gaps before the huddle test looks at a waveform."""
from checks.common import *
import obspy

FUNCS = ['gemlog_aux._interpolate_stream', 'obspy.Stream.merge/split/slice/_cleanup, Trace.__add__/split/slice (own sources, instrumented)']
BOUNDS = ('two to four traces of one station, each of one to four samples (some longer than the limit), 10 ms apart, symbolic start time of the record, every spacing between '
          'neighbouring traces of 10 to 140 ms symbolic on the grid (limit 100 ms); either arbitrary symbolic integer or float values, or values on a line with symbolic slope and offset')
OUTSIDE = 'overlapping traces; longer records; a gap of exactly the limit; how the filled samples curve when the surroundings are not on a line'
REACH = ['adjacent', 'filled', 'two filled', 'open', 'filled next to open', 'whole']
MODS = ['gemlog_aux']
ASSUMPTIONS = ['a cubic spline through points on a straight line is that line']
MAX_REPLAYS = 80
CASE_BUDGET = {'quick': 120, 'thorough': 800}
BASE = 1600000000


def cases(tier):
    import itertools
    r = []
    for kind in ('line', 'any', 'float'):
        ls2 = [(1, 1), (1, 3), (2, 2), (4, 1)] if tier == 'quick' else list(itertools.product((1, 2, 3, 4), repeat=2))
        for ls in ls2: r.append({'name': '%s_%s' % (kind, '-'.join(map(str, ls))), 'lens': ls, 'kind': kind})
        for ls in ((1, 1, 1), (2, 3, 1), (2, 12, 2)) if kind == 'line' or tier == 'thorough' else ((2, 2, 2),):
            r.append({'name': '%s_%s' % (kind, '-'.join(map(str, ls))), 'lens': ls, 'kind': kind, 'gaps': [1, 4, 9, 10, 11, 13]})
    r.append({'name': 'single', 'lens': (3,), 'kind': 'any'})
    r.append({'name': 'line_1-2-1-2', 'lens': (1, 2, 1, 2), 'kind': 'line', 'gaps': [2, 5, 12]})
    r.append({'name': 'line_12-2-12-12', 'lens': (12, 2, 12, 12), 'kind': 'line', 'gaps': [3, 9, 12]})
    r.append({'name': 'limit_2-3', 'lens': (2, 3), 'kind': 'line', 'limit': 0.05})
    return r


def harness(io):
    aux = io.mod('gemlog_aux')
    cs = io.case; lens = cs['lens']; kind = cs['kind']
    t = io.grid('t0', 0, 10 ** 5, 100)
    lim = cs.get('limit', 0.1)
    a = b = None
    if kind == 'line':
        a = io.int('a', -10 ** 5, 10 ** 5); b = io.int('b', -2000, 2000)
    st = obspy.Stream()
    runs = []
    pos = 0
    for i, n in enumerate(lens):
        if i:
            if cs.get('gaps'):
                g = io.choice('g%d' % i, cs['gaps'])
            else:
                g = io.int('g%d' % i, 1, 14)
                g = int(E._ctx.concretize(g, 'gap')) if io.symbolic and type(g) is SymNum else int(g)
            pos = pos + g - 1
        if kind == 'line': vals = [a + b * (pos + k) for k in range(n)]
        elif kind == 'any': vals = [io.int('v%d_%d' % (i, k), -10 ** 6, 10 ** 6) for k in range(n)]
        else: vals = [io.grid('v%d_%d' % (i, k), -10 ** 6, 10 ** 6, 1000) for k in range(n)]
        if io.symbolic:
            d = np.empty(n, object)
            for k, v in enumerate(vals): d[k] = v
        else:
            d = np.array(vals, dtype='float64' if kind == 'float' else 'int32')
        tr = obspy.Trace(d)
        tr.stats.starttime = obspy.UTCDateTime(BASE) + (t + pos * 0.01 if not io.symbolic else t + SymNum.const(pos) / 100)
        tr.stats.delta = 0.01
        tr.stats.channel = 'HDF'
        st += tr
        runs.append((pos, vals))
        pos += n
    kw = {'gap_limit_sec': lim} if 'limit' in cs else {}
    out = aux._interpolate_stream(st, **kw)
    L = int(round(lim * 100))
    groups = []; want = {}; exact = set(); free = []
    nf = no = 0
    for i, (p, vals) in enumerate(runs):
        if i:
            e = runs[i - 1][0] + len(runs[i - 1][1]) - 1
            g = p - e
        if i and g == L:
            return                                      # a gap of exactly the limit is outside the property
        if i and g < L:
            groups[-1][1] = p + len(vals)
            if g == 1: io.reach('adjacent')
            else: nf += 1; io.reach('filled')
        else:
            if i: no += 1; io.reach('open')
            groups.append([p, p + len(vals)])
        for q, v in enumerate(vals): want[p + q] = v
    if nf > 1: io.reach('two filled')
    if nf and no: io.reach('filled next to open')
    if len(runs) == 1: io.reach('whole')
    if not io.check(len(out) == len(groups), 'exactly the gaps shorter than the limit are filled: %d traces for %d' % (len(out), len(groups))):
        return
    for tr, (p, q) in zip(out, groups):
        s = (num(tr.stats.starttime.timestamp) - BASE - t) * 100
        io.check(near(s, p, 1e-3), 'start of the trace')
        io.check(near(num(tr.stats.delta), 0.01, 1e-9), 'spacing')
        if not io.check(not isinstance(tr.data, np.ma.MaskedArray) and len(tr.data) == q - p, 'number of samples'):
            return
        vals = [num(x) for x in tr.data]
        for k in range(p, q):
            v = vals[k - p]
            if k in want: io.check(near(v, want[k], 1e-6), 'existing sample is unchanged')
            elif kind == 'line': io.check(AbsLe(v - (a + b * k), 1.001), 'filled sample lies on the line of its surroundings')
            elif not io.symbolic: io.check(bool(np.isfinite(v)), 'filled sample is a number')
        io.observe('tr', [len(vals)] + [vals[k - p] for k in range(p, q) if k in want])
