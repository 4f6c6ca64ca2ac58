"""C35: exporting a waveform as audio."""
from checks.common import *
from checks import c10, c11
import obspy, os
from fractions import Fraction as Fr

FUNCS = ['core.write_wav', 'core._write_hourlong_mseed', 'core.convert (its audio branch)']
BOUNDS = 'one to three samples (thorough: six), each any integer from -2000000 to 2000000 or any multiple of 1/8; sampling rates 1, 20, 93, 100, 200 and 12.5, 99.5 per second; symbolic start time (grid of 10 ms); name given or not; alone or through the converter\'s file writer'
OUTSIDE = 'writing of the audio file by scipy (what is handed to it is compared); masked samples and samples that are not numbers'
REACH = ['scaled', 'constant', 'positive peak', 'negative peak', 'refused', 'default name', 'given name', 'converter']
MODS = ['core']
MAX_REPLAYS = 60


def cases(tier):
    r = []

    def c(**k): r.append(dict({'name': '_'.join('%s%s' % (a, v) for a, v in k.items()), 'n': 3, 'rate': 100, 'kind': 'int', 'via': 'alone', 'named': True}, **k))
    for n in (1, 2, 3): c(n=n); c(n=n, kind='eighth')
    for rate in (1, 20, 93, 200): c(n=2, rate=rate, named=False)
    for rate in (12.5, 99.5): c(n=2, rate=rate); c(n=2, rate=rate, named=False)
    c(named=False); c(via='convert', n=2, rate=1)
    if tier == 'thorough': c(n=4); c(n=4, kind='eighth'); c(n=5); c(n=6); c(n=5, named=False, rate=20); c(n=5, via='convert', rate=1)
    return r


def harness(io):
    core = io.mod('core'); cs = io.case; n = cs['n']
    X = [io.int('x%d' % k, -2 * 10 ** 6, 2 * 10 ** 6) if cs['kind'] == 'int' else io.grid('x%d' % k, -1000, 1000, 8) for k in range(n)]
    if io.symbolic: data = arr1(X)
    else: data = np.array(X, dtype='int32' if cs['kind'] == 'int' else float)
    tr = obspy.Trace(data)
    t = c10.grid_time(io, 't', 3, 86400 * 3) if cs['via'] == 'alone' else io.grid('t', 3, 3500, 100)
    tr.stats.starttime = c10.utc(io, t)
    tr.stats.sampling_rate = cs['rate']; tr.stats.network = 'XP'; tr.stats.station = 'STA'; tr.stats.channel = 'HDF'
    d = io.tmpdir(); calls = []
    io.patch(core.wavfile, 'write', lambda fn, rate, y: calls.append((str(fn), rate, y)))
    raised = False
    if cs['via'] == 'convert':
        io.reach('converter')
        tr.stats.delta = 1
        c10.run_convert(io, core, [obspy.Stream([tr])], names=True, output_format='wav', t1=c10.utc(io, 0))
    else:
        try: core.write_wav(tr, **dict({'path': d}, **({'filename': 'a.wav'} if cs['named'] else {})))
        except TypeError: raised = True
    bad = cs['rate'] % 1 != 0
    io.check(raised == bad, 'a sampling rate is refused exactly if it is not a whole number')
    io.check(len(calls) == (0 if bad else 1), 'one file is written, unless refused')
    if cs['via'] == 'alone':
        back = items(tr.data)
        io.check(len(back) == n and And(*[near(num(a), b) for a, b in zip(back, X)]), 'the waveform itself is unchanged')
    if bad: io.reach('refused'); return
    fn, rate, y = calls[0]
    io.check(rate == (cs['rate'] if cs['via'] == 'alone' else 1) and int(rate) == rate, 'the sampling rate is that of the waveform')
    if cs['via'] == 'alone' and cs['named']:
        io.check(os.path.normpath(fn) == os.path.join(d, 'a.wav'), 'the given name is used'); io.reach('given name')
    else:
        io.check((cs['via'] == 'convert' or os.path.dirname(fn) == d) and fn.endswith('.XP.STA..HDF.wav'), 'the name states the codes')
        if cs['via'] == 'alone':
            io.reach('default name')
            p = c11.tokens(os.path.basename(fn))
            from checks import c27
            got = c27.parse(os.path.basename(fn), '{year}-{mon}-{day}T{hour}_{min}_{sec}.XP.STA..HDF.wav', {})
            if io.check(got is not None, 'the name states the start time'):
                sec = t // 1; dd = sec // 86400
                io.check(sym_eq((got['hour'] * 60 + got['min']) * 60 + got['sec'], sec - dd * 86400), 'the name states the second of the start')
                io.check(And(got['year'] == 2020, got['mon'] == 9, sym_eq(got['day'], 13 + dd)), 'the name states the day of the start')
    y = [num(v) for v in items(y)]
    if not io.check(len(y) == n, 'every sample is written'): return
    mean = sum(X[1:], X[0]) * (Fr(1, n) if io.symbolic else 1.0 / n)
    D = [x - mean for x in X]
    pk = D[0]
    for v in D[1:]:
        if bool(Abs(v) > Abs(pk)): pk = v
    big = Abs(pk) if io.symbolic else abs(pk)
    if bool(big <= 1e-6):
        io.check(And(*[AbsLe(v, 1e-6) for v in y]), 'a constant waveform is written as zeros'); io.reach('constant'); return
    io.reach('scaled'); pos = bool(pk > 0); io.reach('positive peak' if pos else 'negative peak')
    peak = pk if pos else -pk
    for v, e in zip(y, D): io.check(AbsLe(v * peak - e, 1e-6 if io.symbolic else 1e-3), 'each sample is shifted by the mean and scaled by the greatest deviation')
