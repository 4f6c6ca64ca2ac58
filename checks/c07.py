"""C07: each record is timed by the clock model of its own file."""
from checks.common import *

FUNCS = ['core._assign_times', 'core._apply_segments', 'core._apply_fit', 'core._make_empty_header', 'core._find_breaks', 'core._reformat_GPS']
BOUNDS = ('one to four files (thorough: five) with symbolic, ordered, touching or separated millisecond spans and wholly symbolic cubic clock polynomials; any of them may have failed; '
          'two samples and a metadata record at symbolic millisecond counts anywhere (before, in, between, after the spans)')
OUTSIDE = 'more than five files; spans that overlap'
REACH = ['inside', 'outside', 'at start', 'at end', 'failed file', 'count zero']
MODS = ['core', 'gemlog_aux']
ASSUMPTIONS = ['the resampler is replaced by a recorder (it is decided under C08)', 'the break search only affects debugging output; its result is not used']
CASE_BUDGET = {'quick': 200, 'thorough': 700}
MAX_REPLAYS = 120


def cases(tier):
    r = []
    for p in ['o', 'oo', 'ooo', 'fo', 'of', 'ofo', 'foo', 'off'] + (['oooo', 'oofo', 'fofo', 'ooooo'] if tier == 'thorough' else ['oooo']):
        r.append({'name': p, 'files': p})
    return r


def harness(io):
    core = io.mod('core')
    pd = __import__('pandas')
    files = io.case['files']; n = len(files)
    names = ['FILE%04d.077' % i for i in range(n)]
    header = core._make_empty_header(names)
    spans = {}; coef = {}
    ms = 0
    for i, f in enumerate(files):
        if f == 'f':
            io.reach('failed file'); continue
        a = ms + io.int('gap%d' % i, 0 if spans else -200, 5000)
        b = a + io.int('len%d' % i, 1, 10 ** 7)
        spans[i] = (a, b); ms = b
        coef[i] = [io.real('c%d_0' % i, 10 ** 9, 2 * 10 ** 9), io.real('c%d_1' % i, 0.001, 0.0011), io.real('c%d_2' % i, -1e-12, 1e-12), io.real('c%d_3' % i, -1e-18, 1e-18)]
        vals = {'lat': 1.0, 'lon': 2.0, 'start_ms': a, 'end_ms': b, 'drift_deg0': coef[i][0], 'drift_deg1': coef[i][1], 'drift_deg2': coef[i][2],
                'drift_deg3': coef[i][3], 'drift_resid_std': 0.0, 'drift_resid_MAD': 0.0, 'num_gps_pts': 12, 'num_data_pts': 2, 'SN': '077'}
        for k, v in vals.items():
            if io.symbolic and S.has_sym(v) and header[k].dtype != object:
                header[k] = header[k].astype(object)
            if k == 'SN' and header[k].dtype != object:
                header[k] = header[k].astype(object)
            header.loc[i, k] = v
    xs = [io.int('x%d' % k, -300, 5 * 10 ** 7) for k in range(1 if n > 3 or io.case.get('one') else 2)]
    xs = (xs * 3)[:3] if len(xs) == 1 else xs + xs[1:]
    # reference: the file(s) whose span contains x
    def own(x):
        r = [i for i in spans if bool(And(x >= spans[i][0], x <= spans[i][1]))]
        return r
    owners = [own(x) for x in xs]
    for x, o in zip(xs, owners):
        io.reach('inside' if o else 'outside')
        for i in o:
            if bool(sym_eq(x, spans[i][0])): io.reach('at start')
            if bool(sym_eq(x, spans[i][1])): io.reach('at end')
    if bool(sym_eq(xs[2], 0)): io.reach('count zero')
    def poly(i, x):
        c = coef[i]
        return c[0] + c[1] * x + c[2] * (x * x) + c[3] * (x * x * x)
    D = np.empty((2, 2), object) if io.symbolic else np.zeros((2, 2))
    for k in range(2):
        D[k, 0] = xs[k]; D[k, 1] = 100.0 * k
    dt = object if io.symbolic else float
    M = pd.DataFrame({'millis': pd.Series([xs[2]], dtype=dt), 'batt': [3.2]})
    G = pd.DataFrame({'msPPS': [100.0, 2000.0], 'msLag': [1.0, 1.0], 'year': [2020.0] * 2, 'month': [1.0] * 2, 'day': [1.0] * 2, 'hour': [1.0] * 2,
                      'minute': [1.0] * 2, 'second': [1.0, 3.0], 'lat': [1.0] * 2, 'lon': [2.0] * 2, 't': [1577840461.0, 1577840463.0]})
    got = {}
    def rec(data, *a, **k):
        got['D'] = data
        return []
    io.patch(core, '_interp_time', rec)
    io.patch(core, '_find_breaks', lambda L: {'starts': [], 'ends': []})
    L, _ = core._assign_times({'data': D, 'metadata': M, 'gps': G, 'header': header, 'problems': []})
    if not io.check('D' in got and got['D'].shape == (2, 3), 'resampler gets every sample with its time'):
        return
    def ok(t, x, o, what):
        t = num(t)
        if not o:
            io.check(S.isnanv(t), '%s outside every file has no time' % what)
            return
        if S.isnanv(t):
            io.check(False, '%s inside a file has a time' % what); return
        io.check(Or(*[AbsLe(t - poly(i, x), 1e-5) for i in o]), '%s is timed by its own file' % what)
    for k in range(2):
        io.check(near(num(got['D'][k, 0]), xs[k]) , 'sample millisecond count kept')
        io.check(near(num(got['D'][k, 1]), 100.0 * k), 'sample value kept')
        ok(got['D'][k, 2], xs[k], owners[k], 'sample')
    tm = items(L['metadata']['t'])
    if not io.check(len(tm) == 1, 'one time per metadata record'):
        return
    ok(tm[0], xs[2], owners[2], 'metadata record')
    H = L['header']
    if not io.check(len(H) == n, 'one header row per file'): return
    for i in range(n):
        t1, t2 = num(H['t1'][i]), num(H['t2'][i])
        if i not in spans:
            io.check(S.isnanv(t1) and S.isnanv(t2), 'failed file has no start and end time')
            continue
        for t, e in ((t1, 0), (t2, 1)):
            x = spans[i][e]
            ok(t, x, own(x), 'start/end of file')
    io.observe('t', [num(tm[0]), num(got['D'][0, 2]), num(got['D'][1, 2])])
