"""C34: merging converted files into day files."""
from checks.common import *
from checks import c10
import obspy, os, glob

FUNCS = ['gem_network.merge_files_day', 'gem_network._unique', 'obspy Stream.merge and Trace.__add__ (own source, instrumented)']
BOUNDS = ('two to four files (thorough: five) of one or two waveforms of two to three samples; symbolic day and serial-number digits in every file name, networks given or blank and one ending like another, two locations; '
          'a symbolic start time (grid of 10 ms) and gaps or touching files; a pattern that selects all, one day, one logger or one network')
OUTSIDE = 'writing of the waveforms by obspy (what is handed to it is compared); files whose samples overlap in time; a sampling interval other than one second'
REACH = ['merged', 'gap', 'touching', 'same day', 'other day', 'other logger', 'other network', 'not selected', 'two waveforms', 'unordered']
MODS = ['gem_network']
MAX_REPLAYS = 40
BUDGET = {'quick': 200, 'thorough': 1500}
CASE_BUDGET = {'quick': 60, 'thorough': 500}
PAT = {'all': None, 'day': '2020-09-12*', 'logger': '*.077.*', 'net': '*.XP.*', 'blank': '*[0-9]..07?..*'}


def cases(tier):
    r = []

    def c(files, pat='all'):
        r.append({'name': '%s_%s' % ('-'.join('%s%s%d' % tuple(f[:3]) for f in files), pat), 'files': [list(f) for f in files], 'pat': pat})
    for p in PAT:
        c([('', 0, 1), ('', 0, 1)], p); c([('', 0, 1), ('XP', 0, 1)], p)
    c([('', 0, 1)] * 3); c([('XP', 0, 2), ('XP', 0, 1)]); c([('', 0, 2), ('XP', 0, 1), ('', 1, 1)]); c([('P', 0, 1), ('XP', 0, 1)]); c([('P', 1, 1), ('XP', 1, 1), ('P', 1, 1)])
    if tier == 'thorough':
        c([('', 0, 1)] * 4); c([('P', 0, 1), ('XP', 0, 1), ('', 0, 1), ('XP', 0, 1)]); c([('XP', 1, 2), ('XP', 1, 2), ('XP', 1, 1)])
        for p in PAT: c([('', 0, 1), ('XP', 0, 1), ('XP', 1, 1)], p)
    return r


def name_of(day, sec, net, sta, loc): return '2020-09-1%sT00_00_%02d.%s.07%s.%s.HDF.mseed' % (day, sec, net, sta, ('', '01')[loc])


def harness(io):
    gn = io.mod('gem_network'); cs = io.case
    d = io.tmpdir(); out = os.path.join(d, 'x', 'days'); ind = os.path.join(d, 'in'); os.makedirs(ind)
    f0 = c10.grid_time(io, 'f0', 0, 1)
    files = []; tag = 1; sec = 3 * len(cs['files']) * 3 if io.bool('later file first') else 0
    if sec: io.reach('unordered')
    for k, (net, loc, ntr) in enumerate(cs['files']):
        day = sym_char(io, 'day%d' % k, '23'); sta = sym_char(io, 'sta%d' % k, '78')
        day = '3' if bool(strs.eq(day, '3')) else '2'
        g = io.choice('gap%d' % k, [0, 2]); step = 1 if not sec else -1
        s = sec
        traces = []
        t = s
        for j in range(ntr):
            n = 2 + (k + j) % 2
            tags = [tag + q for q in range(n)]; tag += n
            traces.append((int(day) * 86400 + f0 + t, t, tags)); t += n + (1 if j + 1 < ntr else 0)
        nm = name_of(day, s, net, sta, loc)
        files.append({'name': nm, 'day': day, 'net': net, 'sta': sta, 'loc': loc, 'traces': traces})
        sec = t + g if step > 0 else s - 7
        with open(os.path.join(ind, nm), 'w'): pass

    def load(f):
        st = obspy.Stream()
        for t, _, tags in f['traces']:
            tr = c10.make_trace(io, t, tags, 1)
            tr.stats.network = f['net']; tr.stats.station = '07' + ('7' if bool(strs.eq(f['sta'], '7')) else '8'); tr.stats.location = ('', '01')[f['loc']]
            st += tr
        return st

    def read(fn, *a, **k):
        m = (strs.sglob if io.symbolic else glob.glob)(str(fn))
        st = obspy.Stream()
        for p in sorted(m, key=lambda p: [f['name'] for f in files].index(os.path.basename(p))):
            st += load(next(f for f in files if f['name'] == os.path.basename(p)))
        if not m: raise Exception('No matching file found')
        return st
    io.patch(obspy, 'read', read)
    if hasattr(gn, 'read'): io.patch(gn, 'read', read)
    written = []

    def write(self, filename, *a, **k):
        written.append((str(filename), [(num(tr.stats.starttime.timestamp) - c10.BASE, [int(x) for x in tr.data], tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.delta) for tr in self]))
    io.patch(obspy.Stream, 'write', write)
    pat = PAT[cs['pat']]
    gn.merge_files_day(ind, outfile_dir=out, **({'infile_pattern': pat} if pat else {}))
    io.check(os.path.isdir(out), 'the output folder is created')
    sel = []
    for f in files:
        ok = {'all': True, 'day': f['day'] == '2', 'logger': bool(strs.eq(f['sta'], '7')), 'net': f['net'] == 'XP', 'blank': f['net'] == '' and f['loc'] == 0}[cs['pat']]
        sel.append(ok)
        if not ok: io.reach('not selected')
    groups = []
    for f, ok in zip(files, sel):
        if not ok: continue
        for g in groups:
            h = g[0]
            if bool(And(f['day'] == h['day'], f['net'] == h['net'], f['loc'] == h['loc'], strs.eq(f['sta'], h['sta']))):
                g.append(f); io.reach('same day'); break
            io.reach('other day' if f['day'] != h['day'] else 'other network' if f['net'] != h['net'] or f['loc'] != h['loc'] else 'other logger')
        else: groups.append([f])
    io.check(len(written) == len(groups), 'one file per day and set of codes')
    left = list(written)
    for g in groups:
        f = g[0]; io.reach('merged')
        want = os.path.join(out, '2020-09-1%sT00_00_00.%s.07%s.%s.HDF.mseed' % (f['day'], f['net'], f['sta'], ('', '01')[f['loc']]))
        mine = [w for w in left if bool(strs.eq(os.path.normpath(w[0]), want))]
        if not io.check(len(mine) == 1, 'the file name states the day and the codes'): continue
        left.remove(mine[0])
        trs = mine[0][1]
        parts = sorted([t for x in g for t in x['traces']], key=lambda t: t[1])
        if len(parts) > len(g): io.reach('two waveforms')
        vals = []
        for t in parts:
            miss = t[1] - parts[0][1] - len(vals)
            if vals: io.reach('gap' if miss else 'touching')
            vals += [vals[-1]] * miss + t[2] if vals else t[2]
        if not io.check(len(trs) == 1, 'a day file holds one continuous waveform'): continue
        t, data, net, sta, loc, dt = trs[0]
        io.check(near(t, parts[0][0], 1e-6), 'it starts with the earliest sample')
        io.check(data == vals and near(num(dt), 1), 'it holds every sample of its own files at its time, gaps filled with the value before them')
        io.check(And(net == f['net'], strs.eq(sta, '07' + f['sta']), loc == ('', '01')[f['loc']]), 'it has the codes of its files')
    io.check(not left, 'nothing else is written')
