"""C26: channels are selected exactly as requested."""
from checks.common import *
import obspy, re

FUNCS = ['xcorr.loop_through_days', 'xcorr._check_input_IDs', 'gem_network._unique']
BOUNDS = ('two or three available channels, one or two requested identifiers and none to two excluded ones; in every identifier one character of each of the station, location and channel codes is symbolic (three or two values each), '
          'in every form a request can take: written in full, part of an identifier, regular expressions with anchors, sets, alternatives and wildcards, identifiers one character too long or too short')
OUTSIDE = 'codes of other lengths; identifiers that coincide (several files of one channel are covered by C21); regular expressions beyond those forms'
REACH = ['selected', 'not requested', 'excluded', 'nothing left', 'all', 'full', 'twice']
MODS = ['xcorr', 'gem_network']
ASSUMPTIONS = ['an excluded identifier that is written in full excludes that channel and may also be understood as a pattern']
MAX_REPLAYS = 40
BUDGET = {'quick': 200, 'thorough': 1500}
CASE_BUDGET = {'quick': 50, 'thorough': 400}
T0 = obspy.UTCDateTime(2020, 1, 2, 3)

REQ = ['full', 'sta', 'chan', 'locchan', 'end', 'start', 'set', 'alt', 'altfull', 'anchored', 'longer', 'shorter', 'any', 'absent', 'dot']
EXC = ['sta', 'full', 'end', 'alt', 'absent']


def cases(tier):
    r = []

    def c(n, req, exc, pre='S', net='N'):
        r.append({'name': 'n%d_%s_x_%s%s' % (n, '+'.join(req) or 'all', '+'.join(exc) or 'none', '' if pre == 'S' else '_' + net + pre), 'n': n, 'req': req, 'exc': exc, 'pre': pre, 'net': net})
    for q in [[]] + [[x] for x in REQ]:
        c(2, q, [])
        if q and q[0] in ('full', 'sta', 'altfull'): c(3, q, [])
    for x in EXC:
        c(2, [], [x]); c(2, ['sta'], [x])
    c(2, ['full', 'full'], []); c(2, ['full', 'sta'], []); c(2, ['sta', 'chan'], []); c(2, ['full', 'chan'], ['sta']); c(2, ['any'], ['full', 'sta']); c(3, [], ['sta'])
    c(4, ['chan'], []); c(4, [], []); c(2, ['nonet'], [])
    for pre, net in (('SABC', 'NN'), ('', '')):
        for q in ('full', 'nonet', 'sta', 'altfull', 'end'): c(2, [q], [], pre, net)
        c(2, [], ['full'], pre, net); c(2, [], ['sta'], pre, net)
    if tier == 'thorough':
        for a in REQ:
            for b in REQ: c(3, [a, b], [])
            for x in EXC: c(3, [a], [x]); c(2, [a], [x, 'chan'])
        c(4, ['full', 'sta'], ['chan'])
    return r


def harness(io):
    xc = io.mod('xcorr')
    cs = io.case
    import pandas as pd
    sta = lambda n: sym_char(io, n + 's', '1AB')
    loc = lambda n: sym_char(io, n + 'l', '01')
    cha = lambda n: sym_char(io, n + 'c', 'FG')
    avail = []
    for i in range(cs['n']):
        p = (cs['net'] if i != 1 else '', cs['pre'] + sta('a%d' % i), '0' + loc('a%d' % i), 'HD' + cha('a%d' % i))
        for q in avail: io.assume(Not(strs.eq('.'.join(p), '.'.join(q))))
        avail.append(p)
    ids = ['.'.join(p) for p in avail]

    P, N = cs['pre'], cs['net']

    def make(kind, n):
        """text of an identifier, and whether it is written in full"""
        if kind == 'full': return (N + '.' + P + '%s.0%s.HD%s') % (sta(n), loc(n), cha(n)), True
        if kind == 'nonet': return ('.' + P + '%s.0%s.HD%s') % (sta(n), loc(n), cha(n)), True
        if kind == 'sta': return P + sta(n), False
        if kind == 'chan': return 'HD' + cha(n), False
        if kind == 'locchan': return '0%s.HD%s' % (loc(n), cha(n)), False
        if kind == 'end': return 'HD%s$' % cha(n), False
        if kind == 'start': return ('^' + N + '.' + P + '%s') % sta(n), False
        if kind == 'set': return (P + '[A%s]') % sta(n), False
        if kind == 'alt': return (P + '%s|HD%s') % (sta(n), cha(n)), False
        if kind == 'altfull': return (N + '.' + P + '%s.00.HDF|' + N + '.' + P + '%s.01.HDG') % (sta(n), sta(n + 'b')), False
        if kind == 'anchored': return (N + '.' + P + '%s.0%s.HDF$') % (sta(n), loc(n)), False
        if kind == 'longer': return (N + '.' + P + '%s.00.HDF%s') % (sta(n), cha(n)), False
        if kind == 'shorter': return (N + '.' + P + '%s.00.H') % sta(n), False
        if kind == 'any': return (N + '.*HD%s') % cha(n), False
        if kind == 'dot': return ('.' + P + '%s.00.HD.') % sta(n), False
        return 'XX', False
    req = [make(k, 'r%d' % j) for j, k in enumerate(cs['req'])]
    exc = [make(k, 'x%d' % j) for j, k in enumerate(cs['exc'])]

    def read(fn, *a, **k):
        net, st, lo, ch = avail[int(fn[4:])]
        tr = obspy.Trace(np.arange(10.0), header={'network': net, 'station': st, 'location': lo, 'channel': ch, 'starttime': T0, 'delta': 0.5})
        return obspy.Stream([tr])
    io.patch(obspy, 'read', read)
    seen = []

    def fn(st, args):
        for tr in st: seen.append(tr.id)
        return pd.DataFrame({'n': [len(st)]})
    err = None
    try:
        xc.loop_through_days(fn, ['file%d' % i for i in range(cs['n'])], IDs=[q for q, f in req] if req or io.bool('empty list') else None, exclude_IDs=[q for q, f in exc] if exc else None, quiet=True)
    except Exception as e:
        err = type(e).__name__
    if hasattr(xc, '_check_input_IDs'):
        df = pd.DataFrame({'ID': [ids[0]] + ids})
        out = list(xc._check_input_IDs(df, [q for q, f in req], [q for q, f in exc] if exc else None))
        for i, a in enumerate(out):
            for b in out[:i]: io.check(Not(strs.eq(a, b)), 'no channel is listed twice')
        if len(req) > 1 and len(out) == 1: io.reach('twice')

    def match(q, full, i):
        if full: return strs.eq(q, i)
        return strs.rx_cond(q, i, 'search') if io.symbolic else re.search(q, i) is not None
    for i in ids:
        want = Or(*[match(q, f, i) for q, f in req]) if req else True
        sure = Or(*[match(q, f, i) for q, f in exc]) if exc else False
        may = Or(*[match(q, False, i) for q, f in exc]) if exc else False
        n = sum(1 for s in seen if s == i)
        io.check(n <= 1, 'a channel is processed only once')
        if n: io.check(And(want, Not(sure)), 'a processed channel is requested and not excluded')
        else: io.check(Or(Not(want), may), 'a requested channel that is not excluded is processed')
        if n:
            io.reach('selected')
            if any(f for q, f in req): io.reach('full')
            if not req: io.reach('all')
        elif bool(Not(want)): io.reach('not requested')
        elif bool(sure): io.reach('excluded')
    io.check(all(s in ids for s in seen), 'only available channels are processed')
    if not seen: io.reach('nothing left')
    io.observe('n', len(seen)); io.observe('err', err)
