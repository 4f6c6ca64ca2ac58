"""C10: the waveform files written by a conversion hold exactly the samples of the requested period, each in one file."""
from checks.common import *
import obspy, os
from fractions import Fraction as Fr

FUNCS = ['core.convert', 'core._write_hourlong_mseed', 'core._merge_gaps', 'core._trunc_UTCDateTime', 'core._make_filename_converted',
         'obspy.Stream/Trace slice, trim, split, merge and UTCDateTime (own sources, instrumented)']
BOUNDS = ('one to three blocks of twelve raw files holding one or two traces of two to five samples each (thorough: up to nine) at 1 or 100 samples per second, symbolic start of the recording '
          '(10 ms grid, within 11 s or 90 ms of a midnight), gaps of none, 9 s, 50 ms, 0.2 s, 14 h or a day within and between blocks, symbolic start and stop of the requested period '
          '(grid of 10 ms offset by 3 ms, from before the recording to after it) or none; file lengths of 4 s, 6 s, 1 h and 24 h')
OUTSIDE = ('encoding of the samples into miniSEED, SAC or WAV by obspy and scipy (the written traces are compared); recordings whose blocks overlap in time; file lengths that are not a whole number of seconds')
REACH = ['no limits', 't1', 't2', 'gap', 'empty period', 'three blocks', 'nothing lost']
MODS = ['core']
ASSUMPTIONS = ['what read_gem returns for a block is an arbitrary stream of the stated shape']
MAX_REPLAYS = 60
CASE_BUDGET = {'quick': 150, 'thorough': 700}
BASE = 1600000000 - 1600000000 % 86400


def cases(tier):
    r = []
    def add(dt, L, blocks, gaps, lims=('', 't1', 't2', 't1t2')):
        for lim in lims:
            r.append({'name': '%s_L%d_%s_%s' % ('1Hz' if dt == 1 else '100Hz', L, '_'.join('-'.join(map(str, b)) for b in blocks), lim or 'none'),
                      'dt': dt, 'L': L, 'blocks': blocks, 'lim': lim, 'gaps': gaps})
    G1 = [0, 9, 50000]
    for L in (4, 6):
        add(1, L, ((5,),), [0])
        q = ('', 't1', 't2') if tier == 'quick' else ('', 't1', 't2', 't1t2')
        add(1, L, ((5, 4),), G1, q)
        add(1, L, ((5,), (4,)), G1, q)
        add(1, L, ((3, 2),), [0, 50000], ('t1t2',))
        add(1, L, ((3,), (2,)), [0, 50000], ('t1t2',))
    add(1, 6, ((3,), (2,), (3,)), [0, 86400], ('', 't1', 't2'))
    add(1, 6, ((2,), (2, 2)), [0, 86400], ('', 't1', 't2'))
    G2 = [0, 0.05, 0.2]
    for L in (3600, 86400):
        add(0.01, L, ((5,),), [0])
        add(0.01, L, ((3, 3),), G2)
        add(0.01, L, ((3,), (3,)), G2)
    if tier == 'thorough':
        add(1, 5, ((9,), (6,)), G1)
        add(1, 6, ((4, 3), (3, 2), (3,)), G1)
        add(0.01, 3600, ((4, 3), (4,)), G2)
        add(1, 3, ((8, 5),), G1)
    return r


def grid_time(io, name, lo, hi):
    """symbolic time in [lo, hi] seconds after BASE on a grid of 10 ms"""
    return io.grid(name, lo * 100, hi * 100, 100)


def utc(io, x):
    return obspy.UTCDateTime(BASE) + x


def stub_files(io, n):
    d = io.tmpdir()
    for k in range(n):
        with open('%s/FILE%04d.077' % (d, k), 'w') as f: f.write('#GemCSV0.9\n')
    return d


def make_trace(io, start, tags, dt):
    a = np.array(tags, dtype='int32')
    tr = obspy.Trace(a)
    tr.stats.starttime = utc(io, start)
    tr.stats.delta = dt
    tr.stats.channel = 'HDF'; tr.stats.station = '077'
    return tr


def run_convert(io, core, streams, nums=None, **kw):
    """run convert on blocks of streams; returns the list of written (filename, start ns, tags, calib, delta)"""
    import pandas as pd
    raw = stub_files(io, 12 * len(streams))
    out = io.tmpdir()
    io.patch(core, '_read_SN', lambda fn: '077')
    hdr = pd.DataFrame({'SN': ['077'], 'file': ['x'], 'bitweight_Pa': [0.0035], 'bitweight_V': [7e-8]})
    reads = []

    def read_gem(path='', nums=(), SN='', **k):
        nums = [int(x) for x in nums]
        reads.append(nums)
        b = [x // 12 for x in nums]
        if not b: raise core.MissingRawFiles('none')
        st = streams[b[0]]
        if isinstance(st, BaseException): raise st
        return {'data': obspy.Stream(list(st)), 'header': hdr, 'metadata': pd.DataFrame({'millis': []}), 'gps': pd.DataFrame({'year': [], 'date': [], 'lat': [], 'lon': [], 't': []}),
                'problems': []}
    io.patch(core, 'read_gem', read_gem)
    written = []

    def write(self, filename, format=None, **k):
        written.append((os.path.basename(filename), self.stats.starttime, [int(x) for x in self.data], self.stats.calib, self.stats.delta))
    io.patch(obspy.Trace, 'write', write)
    if not kw.pop('names', False) and hasattr(core, '_make_filename_converted'):      # names are C11's business
        io.patch(core, '_make_filename_converted', lambda tr, fmt, **k: 'file%d' % len(written))
    core.convert(rawpath=raw, convertedpath=out + '/c', metadatapath=out + '/m', gpspath=out + '/g', SN='077', **kw)
    return written, reads


def harness(io):
    core = io.mod('core')
    cs = io.case; DT = cs['dt']; L = cs['L']
    if DT == 1:
        t = grid_time(io, 't0', 86400 - 11, 86400 + 2)
    else:
        t = grid_time(io, 't0', 86400, 86400) + io.int('k0', -9, 3) * 0.01
    t0 = t
    samples = []                      # (tag, seconds after BASE)
    streams = []
    tag = 1
    first = True
    total = 0
    for bi, b in enumerate(cs['blocks']):
        st = []
        for k, n in enumerate(b):
            if not first:
                g = io.choice('gap%d_%d' % (bi, k), cs['gaps'])
                if g: io.reach('gap')
                t = t + SymNum.const(Fr(str(DT)) + Fr(str(g))) if io.symbolic else t + DT + g
                total += g
            first = False
            tags = list(range(tag, tag + n)); tag += n
            st.append(make_trace(io, t, tags, DT))
            for q, x in enumerate(tags): samples.append((x, t + q * DT))
            t = t + (n - 1) * DT
            total += n * DT
        streams.append(st)
    if len(streams) == 3: io.reach('three blocks')
    kw = {'file_length_hour': L / 3600}
    lo = hi = None
    span = total
    m = 8 if DT == 1 else 0.1
    if 't1' in cs['lim']:
        lo = io.grid('t1', int(-m * 100), int((span + m) * 100), 100) + t0 + 0.003; kw['t1'] = utc(io, lo); io.reach('t1')
    if 't2' in cs['lim']:
        hi = io.grid('t2', int(-m * 100), int((span + m) * 100), 100) + t0 + 0.003; kw['t2'] = utc(io, hi); io.reach('t2')
        if lo is not None: io.assume(hi > lo)
    if not cs['lim']: io.reach('no limits')
    written, reads = run_convert(io, core, streams, **kw)
    got = {}
    for fn, s, tags, calib, delta in written:
        s = num(s.timestamp) - BASE
        e = s + (len(tags) - 1) * DT
        if not io.check(near(num(delta), DT, 1e-6), 'spacing of the written samples'): return
        io.check(near(calib, 0.0035, 1e-12), 'conversion factor attached')
        io.check(sym_floor(s, L) == sym_floor(e, L), 'file does not cross a multiple of the file length')
        for q, x in enumerate(tags):
            got.setdefault(x, []).append(s + q * DT)
    any_in = False
    for x, tm in samples:
        inside = True
        if lo is not None: inside = And(inside, tm >= lo)
        else: inside = And(inside, tm >= -sym_floor(-t0 + 2e-5, 1))
        if hi is not None: inside = And(inside, tm <= hi)
        inside = bool(inside)
        any_in = any_in or inside
        g = got.pop(x, [])
        io.check(len(g) == (1 if inside else 0), 'sample %s the requested period is written %s' % ('inside' if inside else 'outside', 'once' if inside else 'never'))
        for y in g: io.check(near(y, tm, 1e-5), 'sample keeps its time')
    io.check(not got, 'no other sample is written')
    io.reach('nothing lost' if any_in else 'empty period')
    io.observe('n', [len(x[2]) for x in written])


def sym_floor(x, L):
    return (x + 1e-5) // L
