"""C04: GPS fix validation."""
import itertools
from checks.common import *

FUNCS = ['core._read_single', 'core._process_gemlog_data', 'core._gps_in_bounds', 'core._make_gps_time', 'core._read_with_cython', 'core._read_0_8_pd',
         'obspy.UTCDateTime (own source, instrumented)']
BOUNDS = ('three GPS records among data and metadata; in the first, second or third one up to three fields at a time take every value '
          '(latitude/longitude: multiples of 0.00001 in -400..400, lag and second: multiples of 0.1, integer date/time fields from below to above '
          'their limits, a latitude/longitude/lag that is missing), the other fields and records are ordinary')
OUTSIDE = 'more than three fields of a record out of the ordinary at once; non-integer date fields'
REACH = ['kept', 'rejected', 'missing']
MODS = ['core', 'gemlog_aux']
F = ['lag', 'year', 'month', 'day', 'hour', 'minute', 'second', 'lat', 'lon']
RNG = {'lag': (-20000, 20000, 10), 'year': (1990, 2060), 'month': (-2, 15), 'day': (-2, 34), 'hour': (-2, 27), 'minute': (-2, 63),
       'second': (-20, 630, 10), 'lat': (-40000000, 40000000, 10 ** 5), 'lon': (-40000000, 40000000, 10 ** 5)}


def cases(tier):
    r = []
    tr = list(itertools.combinations(F, 3))
    for n, t in enumerate(tr):
        for pos in ((0, 1, 2) if tier == 'thorough' else (n % 3,)):
            r.append({'name': '%s_at%d' % ('-'.join(t), pos), 'fields': list(t), 'pos': pos, 'version': '0.9'})
    for v in (['1.10', '0.85', '0.8', '0.91'] if tier == 'thorough' else ['0.85', '0.91']):
        for t in [('lat', 'day'), ('second', 'year')]:
            r.append({'name': '%s_%s' % (v, '-'.join(t)), 'fields': list(t), 'pos': 1, 'version': v})
    for f in ('lat', 'lon', 'lag'):
        r.append({'name': 'missing_' + f, 'fields': [], 'pos': 1, 'missing': f, 'version': '0.9'})
    return r


def days_in_month(y, m):
    """28..31 for an in-range month (formula)"""
    leap = And(y % 4 == 0, Or(Not(y % 100 == 0), y % 400 == 0))
    d = 31
    d = E.Ite(Or(m == 4, m == 6, m == 9, m == 11), 30, d)
    return E.Ite(m == 2, 28 + E.Ite(leap, 1, 0), d)


def epoch(y, mo, d, h, mi, s):
    """seconds since 1970 by the civil-from-days formula (March-based years), independent of the calendar model in use"""
    yy = y - E.Ite(mo <= 2, 1, 0)
    era = yy // 400
    yoe = yy - era * 400
    mp = mo + E.Ite(mo > 2, -3, 9)
    doy = (mp * 153 + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return (((era * 146097 + doe - 719468) * 24 + h) * 60 + mi) * 60 + s


def harness(io):
    core = io.mod('core')
    v = io.case['version']; pos = io.case['pos']
    ordinary = [dict(lag=70, year=2020, month=6, day=19 + k, hour=5, minute=21 + k, second=22.0, lat=43.62226 + k, lon=-116.20594 - k) for k in range(3)]
    R = ordinary[pos]
    for f in io.case['fields']:
        g = RNG[f]
        R[f] = io.grid(f, *g) if len(g) == 3 else io.int(f, *g)
    miss = io.case.get('missing')
    if miss:
        R[miss] = float('nan'); io.reach('missing')
    rows = [('D', 10, [5]), ('M', 12, [3.0] * (9 if v == '0.8' else 11))]
    for k in range(3):
        o = ordinary[k]
        rows.append(('G', 20 + 30 * k, [o[f] for f in F]))
        rows.append(('D', 30 + 30 * k, [1]))
    if v in VERSIONS_NEW:
        fn = 'FILE0000.077'; feed(io, core, {fn: rows})
    else:
        fn = write_raw(io.tmpdir() + '/FILE0000.077', v, rows)
    L = core._read_single(fn, 0, version=v)
    G = L['gps']
    if miss:
        ok = False
    else:
        y, mo, d = R['year'], R['month'], R['day']
        ok = And(R['lat'] >= -90, R['lat'] <= 90, Not(R['lat'] == 0), R['lon'] >= -180, R['lon'] <= 180, Not(R['lon'] == 0),
                 R['lag'] >= 0, R['lag'] <= 1000, y >= 2014, y <= 2040, R['second'] % 1 == 0, mo >= 1, mo <= 12, d >= 1,
                 d <= days_in_month(y, mo), R['hour'] >= 0, R['hour'] <= 23, R['minute'] >= 0, R['minute'] <= 59,
                 R['second'] >= 0, R['second'] <= 59)
    n = G.shape[0]
    io.observe('n', n)
    if not io.check(n in (2, 3), 'fixes other than the implausible one are kept: %d left' % n):
        return
    io.check(Iff(ok, n == 3), 'a fix is kept exactly when it is plausible: kept=%s' % (n == 3))
    io.reach('kept' if n == 3 else 'rejected')
    kept = [k for k in range(3) if n == 3 or k != pos]
    for i, k in enumerate(kept):
        o = ordinary[k]
        ms, la, lo, t = [num(items(G[c])[i]) for c in ('msPPS', 'lat', 'lon', 't')]
        io.check(near(ms, 20 + 30 * k), 'millisecond count of the fix itself: %d' % k)
        io.check(near(la, o['lat'], 1e-7), 'latitude of the fix itself: %d' % k)
        io.check(near(lo, o['lon'], 1e-7), 'longitude of the fix itself: %d' % k)
        io.check(near(t, epoch(o['year'], o['month'], o['day'], o['hour'], o['minute'], o['second']), 1e-3), 'UTC time of the fix itself: %d' % k)
        io.observe('fix', [ms, la, lo, t])
