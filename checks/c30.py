"""C30: database of converted files and channel statistics."""
from checks.common import *
from checks import c10
from checks.c10 import BASE
import obspy, os
from fractions import Fraction as Fr

FUNCS = ['gemlog_aux.make_db', 'gemlog_aux.calc_channel_stats', 'obspy.UTCDateTime (own source, instrumented)']
BOUNDS = ('one to four converted files (thorough: five) of one or two stations, any of them unreadable; symbolic amplitude of each file (multiples of 1/4, up to 30000), symbolic minimum and maximum, symbolic start (10 ms grid) and length (one hour give or take 2.5 s, or a few seconds to '
          'half an hour); symbolic end of the requested period; the database as built or reordered, times as time objects or text')
OUTSIDE = 'detrending and filtering by obspy (the amplitude they leave is arbitrary); files with several traces (only the first counts); a period without any file'
REACH = ['good', 'clipped', 'quiet', 'incomplete', 'too long', 'dead', 'outside', 'unreadable', 'two stations', 'at the end', 'at the start', 'quartiles']
MODS = ['gemlog_aux']
MAX_REPLAYS = 40
BUDGET = {'quick': 200, 'thorough': 1500}
CASE_BUDGET = {'quick': 60, 'thorough': 500}


def cases(tier):
    r = []

    def c(files, **k):
        r.append(dict({'name': '_'.join([''.join(files)] + ['%s%s' % (a, v) for a, v in k.items()]), 'files': files, 'order': 'kept', 'times': 'obj', 'free': 'all', 'save': False}, **k))
    c(['A']); c(['A'], free='len'); c(['A'], free='win'); c(['A'], times='text', free='win'); c(['A', 'A'], free='amp'); c(['A', 'B'], free='amp'); c(['A', 'B'], free='win', order='reversed')
    c(['A', 'x', 'B'], free='amp'); c(['A', 'A', 'A'], free='win'); c(['B', 'A', 'B'], free='quart', save=True); c(['A', 'A', 'B', 'A'], free='quart'); c(['A', 'A'], free='len')
    if tier == 'thorough':
        for f in (['A', 'B'], ['A', 'A'], ['A', 'x', 'A'], ['A', 'B', 'A']):
            for fr in ('win', 'len', 'amp'):
                for o in ('kept', 'reversed'): c(f, free=fr, order=o, times='text')
        c(['A', 'A'], free='all'); c(['A', 'A', 'A', 'A', 'A'], free='quart'); c(['A', 'B', 'A', 'B', 'A'], free='win')
    return r


def harness(io):
    M = io.mod('gemlog_aux'); cs = io.case
    import pandas as pd
    d = io.tmpdir(); free = cs['free']
    files = {}
    for i, s in enumerate(cs['files']):
        fn = os.path.join(d, 'f%d.mseed' % i)
        open(fn, 'w').close()
        if s == 'x': files[fn] = None; continue
        on = lambda k: free == k or free == 'all'
        t = 3600 * i + (io.grid('t%d' % i, -300, 300, 100) if on('win') else 0)
        if on('len'): L = io.grid('L%d' % i, 359600, 360350, 100) if not io.choice('partial%d' % i, [False, True]) else io.grid('p%d' % i, 100, 180000, 100)
        else: L = 3599.99 if not io.symbolic else SymNum.const(Fr(359999, 100))
        a = io.grid('a%d' % i, 0, 120000, 4) if on('amp') else io.grid('a%d' % i, 400, 2000, 4) if free == 'quart' else 100 + 10 * i
        files[fn] = {'sta': s, 't': t, 'L': L, 'amp': a, 'max': io.int('M%d' % i, 0, 5) if on('amp') else 7 + i, 'min': io.int('m%d' % i, -5, 0) if on('amp') else -3 - i}

    def read(fn, *a, **k):
        f = files[str(fn)]
        if f is None: raise IOError('unreadable')
        tr = c10.make_trace(io, f['t'], [0, 0, 0], f['L'] / 2)
        tr.data = arr1([f['max'], 0, f['min']]) if io.symbolic else np.array([f['max'], 0, f['min']])
        tr.stats.station = f['sta']; tr.stats.location = '0' + f['sta']
        tr._amp = f['amp']
        return obspy.Stream([tr])
    io.patch(obspy, 'read', read)

    def alter(self, *a, **k):          # processing changes the data: the extremes are those of the file
        self.data = self.data - 1000
        return self
    io.patch(obspy.Trace, 'detrend', alter)
    io.patch(obspy.Trace, 'filter', alter)
    io.patch(obspy.Trace, 'std', lambda self: self._amp)
    save = os.path.join(d, 'db.csv') if cs['save'] else None
    DB = M.make_db(d, '*.mseed', savefile=save, verbose=io.bool('verbose'))
    good = [(fn, f) for fn, f in sorted(files.items()) if f is not None]
    if len(good) < len(files): io.reach('unreadable')
    if not io.check(len(DB) == len(good), 'one row per readable file'): return
    if save: io.check(os.path.exists(save), 'the database is saved')
    for k, (fn, f) in enumerate(good):
        row = DB.iloc[k]
        io.check(row['filename'] == fn and row['station'] == f['sta'] and row['location'] == '0' + f['sta'], 'a row names its file, station and location')
        io.check(And(near(num(row['amp_HP']), f['amp'], 1e-6), near(num(row['max']), f['max'], 1e-6), near(num(row['min']), f['min'], 1e-6)), 'a row holds its own amplitude and extremes')
        io.check(And(near(num(row['t1'].timestamp) - BASE, f['t'], 1e-5), near(num(row['t2'].timestamp) - BASE, f['t'] + f['L'], 1e-5)), 'a row holds its own times')
    if cs['order'] == 'reversed': DB = DB.iloc[::-1]
    n = len(cs['files'])
    end = (io.grid('end', 360000 * n - 500, 360000 * n + 500, 100) if free == 'win' else 3600 * n + 10)
    t1 = c10.utc(io, 0) if free in ('win', 'all') else c10.utc(io, -5)
    a = 0 if free in ('win', 'all') else -5
    t2 = c10.utc(io, end)
    if cs['times'] == 'text': t1 = t1.isoformat()
    try:
        st = M.calc_channel_stats(DB, t1, t2)
    except ValueError:
        st = pd.DataFrame({'station': []})       # nothing in the period: no statistics
    hours = (end - a) / 3600
    rows = {}
    for k in range(len(st)):
        r = st.iloc[k]
        io.check(r['station'] not in rows, 'one row per station'); rows[r['station']] = r
    for sta in sorted(set(f['sta'] for _, f in good)):
        mine = []
        tie = False
        for _, f in good:
            if f['sta'] != sta: continue
            e = f['t'] + f['L']
            inside = bool(And(f['t'] >= a, e <= end))
            if inside:
                mine.append(f)
                if bool(near(f['t'], a, 1e-7)): io.reach('at the start')
                if free == 'win' and bool(near(e, end, 1e-7)): io.reach('at the end')
            else: io.reach('outside')
        if not io.check((sta in rows) == bool(mine), 'stations with files in the period are listed'): continue
        if not mine: continue
        r = rows[sta]
        good_n = any_n = 0
        for f in mine:
            ok = And(f['amp'] > 0.5, f['amp'] < 20000, f['L'] > 3598, f['L'] < 3602)
            if bool(ok): good_n += 1; io.reach('good')
            elif bool(f['amp'] >= 20000): io.reach('clipped')
            elif bool(f['amp'] <= 0.5): io.reach('quiet')
            elif bool(f['L'] <= 3598): io.reach('incomplete')
            else: io.reach('too long')
            if bool(f['amp'] > 0): any_n += 1
            else: io.reach('dead')
        io.check(And(near(num(r['goodData']) * hours, good_n, 1e-6)), 'share of good data')
        io.check(And(near(num(r['anyData']) * hours, any_n, 1e-6)), 'share of time with data')
        amps = sorted([f['amp'] for f in mine]) if not io.symbolic else S.sx_sorted([f['amp'] for f in mine])
        for key, q in (('q1', Fr(1, 4)), ('q3', Fr(3, 4))):
            p = q * (len(amps) - 1); i = int(p); w = p - i
            want = amps[i] if not w else amps[i] + (amps[i + 1] - amps[i]) * (w if io.symbolic else float(w))
            io.check(near(num(r[key]), want, 1e-6), 'quartile of the amplitudes')
            if len(amps) > 1: io.reach('quartiles')
    if len(rows) > 1: io.reach('two stations')
    io.observe('rows', len(st))
