"""C27: renaming converted files attaches the right codes and keeps the data."""
from checks.common import *
from checks import c10, c11
import obspy, os, re, datetime

FUNCS = ['gem_network.rename_files', 'gem_network._get_station_info', 'gem_network._fix_station_info_keys', 'gem_network._fix_file_name_digits', 'obspy UTCDateTime (own source, instrumented)']
BOUNDS = ('one to three files of one or two traces; code tables of none to three lines given as a file or as a table (index as read, reversed or shifted); two symbolic digits in the serial number of every file and every line; '
          'symbolic start times (grid of 10 ms) within three days around a month end, year end or leap day; three file name patterns')
OUTSIDE = 'writing of the waveforms by obspy (what is handed to it is compared); a serial number listed twice; serial numbers that differ in length between file and table; patterns without the time of day'
REACH = ['renamed', 'unlisted', 'two traces', 'later trace first', 'same logger', 'same second', 'next day']
MODS = ['gem_network']
MAX_REPLAYS = 40
BUDGET = {'quick': 220, 'thorough': 1500}
CASE_BUDGET = {'quick': 60, 'thorough': 500}
BASE = c10.BASE

PATTERNS = {'default': '{year}-{mon}-{day}T{hour}_{min}_{sec}.{net}.{sta}.{loc}.{chan}.{fmt}',
            'jd': '{sta}.{net}.{year}{jd}.{hour}-{min}-{sec}.{loc}.{fmt}',
            'fixed': '{net}_{sta}_{loc}_{chan}_{year:04d}.{jd:03d}_{hour:02d}{min:02d}{sec:02d}.{fmt}'}
DAYS = {'plain': 2, 'year': (datetime.date(2020, 12, 31) - datetime.date(1970, 1, 1)).days - BASE // 86400, 'leap': (datetime.date(2024, 2, 28) - datetime.date(1970, 1, 1)).days - BASE // 86400}


def cases(tier):
    r = []

    def c(**k):
        r.append(dict({'name': '_'.join('%s%s' % (a, v) for a, v in k.items()), 'files': [[2]], 'lines': 1, 'table': 'df', 'pattern': 'default', 'day': 'plain', 'fmt': 'mseed'}, **k))
    c(); c(lines=0); c(lines=2); c(lines=3)
    for t in ('file', 'header', 'reversed', 'shifted'): c(lines=2, table=t)
    for p in ('jd', 'fixed'): c(pattern=p); c(pattern=p, day='year'); c(pattern=p, day='leap', fmt='sac')
    c(day='year'); c(day='leap')
    c(files=[[2, 3]]); c(files=[[2, 1]], day='year', pattern='jd')
    c(files=[[2], [3]], lines=2); c(files=[[2], [3]], lines=2, table='reversed'); c(files=[[2], [1]], pattern='jd')
    if tier == 'thorough':
        c(files=[[2], [1], [3]], lines=2); c(files=[[2], [1], [3]], lines=3, table='shifted', pattern='jd'); c(files=[[2, 1], [1, 3]], lines=2, day='year'); c(files=[[1, 1, 1]], day='leap', pattern='fixed')
        for d in DAYS:
            for p in PATTERNS: c(files=[[1], [1, 1]], lines=2, day=d, pattern=p, table='file')
    return r


WIDTH = {'year': 4, 'mon': 2, 'day': 2, 'jd': 3, 'hour': 2, 'min': 2, 'sec': 2}


def parse(name, pattern, texts):
    """values of the date and time fields of a file name, or None if it does not follow the pattern"""
    parts = c11.tokens(name)
    out = {}

    def lit(s):
        if not s: return True
        if not parts or not isinstance(parts[0], str) or not parts[0].startswith(s): return False
        parts[0] = parts[0][len(s):]
        if not parts[0]: parts.pop(0)
        return True
    for p in re.split(r'(\{[^}]*\})', pattern):
        if not p.startswith('{'):
            if not lit(p): return None
            continue
        k = p[1:-1].split(':')[0]
        if k in texts:
            if not lit(texts[k]): return None
        elif parts and not isinstance(parts[0], str): out[k] = parts.pop(0)
        elif parts and parts[0][:WIDTH[k]].isdigit() and len(parts[0]) >= WIDTH[k]:
            out[k] = int(parts[0][:WIDTH[k]]); lit(parts[0][:WIDTH[k]])
        else: return None
        if k == 'sec' and parts and isinstance(parts[0], str) and parts[0][0] == '_':        # a fraction tells apart files of the same second
            lit('_'); out['fraction'] = True
            if parts and not isinstance(parts[0], str): parts.pop(0)
            elif parts and parts[0][:3].isdigit(): lit(parts[0][:3])
            else: return None
    return out if not parts else None


def harness(io):
    gn = io.mod('gem_network')
    cs = io.case
    import pandas as pd
    d = io.tmpdir(); out = os.path.join(d, 'out')
    indir = os.path.join(d, 'in'); os.makedirs(indir)
    d0 = DAYS[cs['day']]
    files = []
    for i, shape in enumerate(cs['files']):
        sn = '0' + digits(io, 'f%d_' % i, 2)
        name = '2020-01-%02dT00_00_00..%s..HDF.mseed' % (i + 1, sn)
        open(os.path.join(indir, name), 'w').close()
        traces = []
        for j, n in enumerate(shape):
            if i == 0 and j == 0: t = c10.grid_time(io, 't0', d0 * 86400, (d0 + 2) * 86400 - 1)
            elif j == 0: t = files[0]['traces'][0][0] + io.grid('dt%d' % i, -150, 300, 100)
            else: t = traces[0][0] + io.grid('g%d_%d' % (i, j), -9000, 9000, 100)
            tags = [10 * i + 3 * j + q for q in range(n)]
            traces.append((t, tags))
        files.append({'sn': sn, 'name': name, 'traces': traces})
    for i, f in enumerate(files):                      # two files of one logger do not hold the same time
        for g in files[:i]:
            io.assume(Or(Not(strs.eq(f['sn'], g['sn'])), Not(sym_eq(f['traces'][0][0], g['traces'][0][0]))))
    lines = []
    for j in range(cs['lines']):
        sn = '0' + digits(io, 'c%d_' % j, 2)
        for l in lines: io.assume(Not(strs.eq(sn, l['sn'])))
        lines.append({'sn': sn, 'network': 'N%d' % j, 'station': 'ST%d' % j, 'location': '' if j == 1 else '0%d' % j})
    table = pd.DataFrame({'SN': [l['sn'] for l in lines], 'network': [l['network'] for l in lines], 'station': [l['station'] for l in lines], 'location': [l['location'] for l in lines]}, dtype=object)
    if cs['table'] in ('file', 'header'):
        p = os.path.join(d, 'info.txt')
        with open(p, 'w') as f:
            if cs['table'] == 'header': f.write('SN,Network,station,Location\n')
            for l in lines: f.write('%s,%s,%s,%s\n' % (l['sn'], l['network'], l['station'], l['location']))
        table = p
    elif cs['table'] == 'reversed': table.index = list(range(len(lines)))[::-1]
    elif cs['table'] == 'shifted': table.index = [k + 1 for k in range(len(lines))]

    def read(fn, *a, **k):
        f = next(f for f in files if f['name'] == os.path.basename(str(fn)))
        return obspy.Stream([c10.make_trace(io, t, tags, 0.01) for t, tags in f['traces']])
    io.patch(obspy, 'read', read)
    if hasattr(gn, 'read'): io.patch(gn, 'read', read)
    written = []

    def write(self, filename, format=None, **k):
        written.append({'file': str(filename), 'format': format, 'traces': [(num(tr.stats.starttime.timestamp) - BASE, [int(x) for x in tr.data], tr.stats.network, tr.stats.station, tr.stats.location) for tr in self]})
    io.patch(obspy.Stream, 'write', write)
    ret = gn.rename_files(os.path.join(indir, '*'), table, out, output_format=cs['fmt'], **({} if cs['pattern'] == 'default' else {'outfile_pattern': PATTERNS[cs['pattern']]}))
    io.check(len(ret) == len(lines), 'the table is returned')
    if hasattr(os, 'path'): io.check(os.path.isdir(out), 'the output folder is created')
    left = list(written)
    names = []
    for f in files:
        line = None
        for l in lines:
            if bool(strs.eq(f['sn'], l['sn'])): line = l
        mine = [w for w in left if any(set(t[1]) & set(f['traces'][0][1]) for t in w['traces'])]
        if line is None:
            io.check(not mine, 'files of unlisted loggers are skipped'); io.reach('unlisted'); continue
        if not io.check(len(mine) == 1, 'each file of a listed logger is written once'): continue
        w = mine[0]; left.remove(w); io.reach('renamed')
        io.check(len(w['traces']) == len(f['traces']) and all(any(t[1] == tags for t in w['traces']) for _, tags in f['traces']), 'samples are kept')
        t1 = f['traces'][0][0]
        for t, tags in f['traces']:
            for x in w['traces']:
                if x[1] == tags: io.check(near(x[0], t, 1e-6), 'start times are kept')
            if bool(t < t1): t1 = t; io.reach('later trace first')
        if len(f['traces']) > 1: io.reach('two traces')
        for x in w['traces']: io.check(tuple(x[2:]) == (line['network'], line['station'], line['location']), 'codes are those listed for the serial number')
        io.check(str(w['format']).lower() == cs['fmt'], 'format is the requested one')
        io.check(w['file'].startswith(out + '/'), 'written into the output folder')
        base = w['file'][len(out) + 1:]
        got = parse(base, PATTERNS[cs['pattern']], {'net': line['network'], 'sta': line['station'], 'loc': line['location'], 'chan': 'HDF', 'fmt': cs['fmt']})
        if not io.check(got is not None, 'name follows the pattern and the codes'): continue
        sec = t1 // 1
        k = 0
        while k < 4 and bool(sec >= (d0 + k) * 86400): k += 1
        day = d0 + k - 1
        if day > d0: io.reach('next day')
        dd = datetime.date(1970, 1, 1) + datetime.timedelta(days=day + BASE // 86400)
        want = {'year': dd.year, 'mon': dd.month, 'day': dd.day, 'jd': dd.timetuple().tm_yday}
        for q in want:
            if q in got: io.check(sym_eq(got[q], want[q]), 'name states the date of the earliest sample')
        sod = sec - day * 86400
        io.check(And(sym_eq((got['hour'] * 60 + got['min']) * 60 + got['sec'], sod), got['min'] < 60, got['sec'] < 60), 'name states the second of the earliest sample')
        for l2, s2, fr, n2 in names:
            if l2 is line:
                io.reach('same logger')
                if bool(sym_eq(s2, sec)):
                    io.reach('same second')
                    io.check(fr or got.get('fraction', False) or n2 != base, 'recordings of the same second do not overwrite each other')
        names.append((line, sec, got.get('fraction', False), base))
    io.check(not left, 'nothing else is written')
    io.observe('written', len(written))
