"""C12: a conversion reads every selected raw file exactly once, in order, and passes on what it read."""
from checks.common import *
from checks import c10
import obspy, os, csv

FUNCS = ['core.convert', 'core._merge_gaps', 'core._write_hourlong_mseed']
BOUNDS = ('two to four raw files with symbolic, distinct numbers within a span of 40 (thorough: five files, span of 60) in any listing order, block lengths of 2, 6, 12 and 24 files, every outcome of each '
          'block (readable, corrupt, missing), spacings of none, 6 h and 3 days between the recordings of consecutive blocks, an optional subset of requested numbers')
OUTSIDE = 'more files or wider spacing of the numbers; a conversion that is stopped early by the requested stop time need not read the files after it'
REACH = ['all readable', 'bad block', 'empty block', 'subset', 'several blocks', 'nothing readable']
MODS = ['core']
ASSUMPTIONS = ['what read_gem returns for a block, or which of its exceptions it raises, is arbitrary']
MAX_REPLAYS = 40
CASE_BUDGET = {'quick': 100, 'thorough': 600}
BASE = c10.BASE


def cases(tier):
    r = []
    for n in (2, 3) + ((4,) if tier == 'thorough' else ()):
        for bd in (1, 0.5, 2, 1 / 6):
            if bd == 1 / 6 and n > 2 and tier == 'quick': continue
            r.append({'name': 'n%d_bd%g' % (n, bd), 'n': n, 'bd': bd, 'span': 40 if bd != 1 / 6 else 9, 'sub': False, 'outs': ['ok', 'corrupt', 'missing']})
    r.append({'name': 'n4_bd1_allok', 'n': 4, 'bd': 1, 'span': 40, 'sub': False, 'outs': ['ok']})
    r.append({'name': 'n3_bd1_subset', 'n': 3, 'bd': 1, 'span': 30, 'sub': True, 'outs': ['ok', 'corrupt']})
    r.append({'name': 'n3_bd1_order', 'n': 3, 'bd': 1, 'span': 30, 'sub': False, 'outs': ['ok'], 'shuffle': True})
    if tier == 'thorough':
        r.append({'name': 'n5_bd1_allok', 'n': 5, 'bd': 1, 'span': 60, 'sub': False, 'outs': ['ok']})
        r.append({'name': 'n4_bd0.5_subset', 'n': 4, 'bd': 0.5, 'span': 40, 'sub': True, 'outs': ['ok', 'missing']})
    return r


class Name(str):
    """name of a raw file whose number may be symbolic"""
    def __new__(cls, num, real):
        s = super().__new__(cls, real)
        s.num = num
        return s

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start == -8 and k.stop == -4 and k.step is None:
            return '%04d' % self.num if not isinstance(self.num, SymNum) else format(self.num, '04')
        return str.__getitem__(self, k)


def harness(io):
    core = io.mod('core')
    cs = io.case; n = cs['n']
    import pandas as pd, types
    nums = [io.int('n0', 0, 30)]
    for k in range(1, n):
        nums.append(nums[-1] + io.int('d%d' % k, 1, cs['span']))
    io.assume(nums[-1] - nums[0] <= cs['span'])
    order = list(range(n))
    if cs.get('shuffle'):
        import itertools
        order = list(io.choice('order', list(itertools.permutations(range(n)))))
    raw = io.tmpdir()
    names = []
    for k in order:
        fn = '%s/FILE%04d.077' % (raw, k if io.symbolic else int(nums[k]))
        open(fn, 'w').close()
        names.append(Name(nums[k], fn))

    def glob(pat):
        return [] if pat.endswith('TXT') else list(names)
    io.patch(core, 'glob', types.SimpleNamespace(glob=glob))
    io.patch(core, '_read_SN', lambda fn: '077')
    want = list(nums)
    kw = {}
    if cs['sub']:
        keep = [io.choice('keep%d' % k, [True, False]) for k in range(n)]
        if not any(keep): return
        want = [x for x, y in zip(nums, keep) if y]
        if not io.symbolic: kw['nums'] = [int(x) for x in want] + [77]
        else: kw['nums'] = list(want) + [77]
        if len(want) < n: io.reach('subset')
    hdr = pd.DataFrame({'SN': ['077'], 'file': ['x'], 'bitweight_Pa': [0.0035], 'bitweight_V': [7e-8]})
    reads = []
    state = {'t': 86400 * 3 + 20.0, 'n': 0}
    good = []

    def read_gem(path='', nums=(), SN='', **k):
        nums = list(nums)
        if not nums:
            io.reach('empty block')
            raise core.MissingRawFiles('none')
        reads.append(nums)
        if len(reads) > 1: io.reach('several blocks')
        o = io.choice('out%d' % len(reads), cs['outs'])
        if o == 'corrupt': io.reach('bad block'); raise core.CorruptRawFile('bad')
        if o == 'missing': io.reach('bad block'); raise core.MissingRawFiles('small')
        i = len(good) + 1
        good.append(i)
        t = state['t'] + (io.choice('gap%d' % i, [1, 6 * 3600, 3 * 86400]) if i > 1 else 0)
        state['t'] = t + 1
        st = obspy.Stream([c10.make_trace(io, t, [10 * i, 10 * i + 1], 1)])
        return {'data': st, 'header': hdr, 'metadata': pd.DataFrame({'millis': [100 + i, 200 + i]}),
                'gps': pd.DataFrame({'year': [2020, 2020], 'date': [1.0, 1.5], 'lat': [float(i), i + 0.5], 'lon': [1.0, 1.0], 't': [c10.utc(io, t), c10.utc(io, t + 1)]}),
                'problems': ['problem %d' % i]}
    io.patch(core, 'read_gem', read_gem)
    written = []

    def write(self, filename, format=None, **k):
        written.extend(int(x) for x in self.data)
    io.patch(obspy.Trace, 'write', write)
    out = io.tmpdir()
    try:
        problems = core.convert(rawpath=raw, convertedpath=out + '/c', metadatapath=out + '/m', gpspath=out + '/g', SN='077', blockdays=cs['bd'], **kw)
        raised = None
    except Exception as e:
        if type(e).__name__ not in ('MissingRawFiles', 'CorruptRawFile'): raise
        raised = e
    flat = [x for b in reads for x in b]
    io.check(len(flat) == len(want), 'every selected file is read once: %d of %d' % (len(flat), len(want)))
    if len(flat) == len(want):
        io.check(And(*[sym_eq(a, b) for a, b in zip(flat, want)]), 'files are read in increasing order of their numbers')
    io.check((raised is not None) == (not good), 'an error is raised exactly if no block is readable')
    if raised is not None:
        io.reach('nothing readable')
        return
    if len(good) == len(reads): io.reach('all readable')
    io.check(sorted(problems) == sorted('problem %d' % i for i in good), 'problem list of every block is returned once')
    io.check(sorted(written) == sorted(10 * i + q for i in good for q in (0, 1)), 'data of every block are written once')
    m = rows(out + '/m'); g = rows(out + '/g')
    io.check([int(r['millis']) for r in m] == [x for i in good for x in (100 + i, 200 + i)], 'metadata of every block are written once')
    io.check([float(r['lat']) for r in g] == [x for i in good for x in (i, i + 0.5)], 'GPS fixes of every block are written once')
    io.observe('r', [len(b) for b in reads])


def rows(d):
    f = os.listdir(d)
    if len(f) != 1: return []
    with open(os.path.join(d, f[0]), newline='') as fh:
        return list(csv.DictReader(fh))
