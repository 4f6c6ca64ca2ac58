"""C11: names of the files that a conversion writes."""
from checks.common import *
from checks import c10
import obspy, os, re

FUNCS = ['core.convert', 'core._write_hourlong_mseed', 'core._make_filename_converted', 'core._make_filename', 'core.write_wav']
BOUNDS = ('conversions of one or two blocks with two or three segments of one or two samples each, symbolic start of the recording (10 ms grid within 0.2 s of a midnight or of a second), '
          'spacings of 50, 420 and 970 ms, hourly and daily files, three station code settings, miniSEED, SAC and audio files; GPS and metadata log names for symbolic sets of existing files among indices 0..6')
OUTSIDE = 'file lengths that are not a whole number of seconds; files left in the output folder by an earlier conversion; segments that start within the same millisecond'
REACH = ['same second', 'next second', 'fresh log name', 'file boundary']
MODS = ['core']
MAX_REPLAYS = 40
CASE_BUDGET = {'quick': 100, 'thorough': 600}
BASE = c10.BASE


def cases(tier):
    r = []
    for L in (3600, 86400):
        for blocks in (((2, 1),), ((1, 1, 2),), ((1,), (2,)), ((1, 1), (1,))):
            for fmt in ('mseed', 'SAC', 'wav'):
                if fmt != 'mseed' and (L != 3600 or len(blocks) > 1): continue
                r.append({'name': 'L%d_%s_%s' % (L, '_'.join('-'.join(map(str, b)) for b in blocks), fmt), 'kind': 'wave', 'L': L, 'blocks': blocks, 'fmt': fmt})
    if tier == 'thorough':
        for blocks in (((1, 1), (1, 1)), ((2, 2, 1),), ((1, 1, 1, 1),)):
            r.append({'name': 't_%s' % '_'.join('-'.join(map(str, b)) for b in blocks), 'kind': 'wave', 'L': 3600, 'blocks': blocks, 'fmt': 'mseed'})
    for d in (0, 1200, -258):                        # 2020-09-13, 2023-12-27, 2019-12-30
        r.append({'name': 'any_time_day%d' % d, 'kind': 'wave', 'L': 3600, 'blocks': ((1,),), 'fmt': 'mseed', 'day': d})
    r.append({'name': 'logs', 'kind': 'logs'})
    return r


def logs(io):
    core = io.mod('core')
    d = io.tmpdir()
    have = []
    for k in range(7):
        if io.choice('have%d' % k, [False, True]):
            open('%s/077gps_%03d.txt' % (d, k), 'w').close(); have.append(k)
    if io.choice('other', [False, True]):
        open(d + '/077metadata_000.txt', 'w').close()
    fn = core._make_filename(d, '077', 'gps')
    want = next(k for k in range(9) if k not in have)
    io.reach('fresh log name')
    io.check(fn == '%s/077gps_%03d.txt' % (d, want), 'log name is the lowest free index')
    io.check(not os.path.exists(fn), 'log name does not exist yet')
    io.observe('fn', os.path.basename(fn))


def harness(io):
    cs = io.case
    if cs['kind'] == 'logs':
        return logs(io)
    core = io.mod('core')
    DT = 0.01
    first = True
    if 'day' in cs: t = c10.grid_time(io, 't0', cs['day'] * 86400 + 100, (cs['day'] + 3) * 86400 - 1)
    else: t = c10.grid_time(io, 't0', 86400, 86400) + io.int('k0', -20, 5) * 0.01
    streams = []
    starts = []
    for bi, b in enumerate(cs['blocks']):
        st = []
        for k, n in enumerate(b):
            if not first:
                t = t + io.choice('g%d_%d' % (bi, k), [5, 42, 97] if io.case.get('tier') != 't' else [5, 20, 42, 77, 97, 160]) * 0.01
            first = False
            st.append(c10.make_trace(io, t, [1 + k] * n, DT))
            starts.append(t)
            t = t + (n - 1) * DT
        streams.append(st)
    audio = []
    if cs['fmt'] == 'wav' and hasattr(core, 'write_wav'):
        orig = core.write_wav

        def write_wav(tr, *a, **k):
            audio.append([None, tr.stats.starttime, [1] * len(tr), tr.stats.calib, tr.stats.delta])
            return orig(tr, *a, **k)

        def wav(fn, rate, data): audio[-1][0] = os.path.basename(str(fn))
        io.patch(core, 'write_wav', write_wav); io.patch(core.wavfile, 'write', wav)
    written, reads = c10.run_convert(io, core, streams, t1=c10.utc(io, 86000 if 'day' not in cs else cs['day'] * 86400), file_length_hour=cs['L'] / 3600, output_format=cs['fmt'], names=True)
    written = audio or written
    io.check(len(written) >= len(starts), 'every segment is written')
    secs = []
    for fn, s, tags, calib, delta in written:
        ns = num(s.timestamp) - BASE
        sec = (ns + 1e-7) // 1
        for o in secs:
            if bool(sym_eq(o, sec)): io.reach('same second')
            else: io.reach('next second')
        secs.append(sec)
        # the name states that second and the codes
        parts = fn.split('.')
        io.check(parts[1:5] == ['', '077', '', 'HDF'], 'name states the codes')
        io.check(parts[-1] == cs['fmt'].lower(), 'name ends with the format')
        d0 = cs.get('day', 0)
        day = BASE // 86400 + d0 + (2 if bool(sec >= (d0 + 2) * 86400) else 1 if bool(sec >= (d0 + 1) * 86400) else 0)
        import datetime
        dd = datetime.date(1970, 1, 1) + datetime.timedelta(days=day)
        f = fields(parts[0])
        if not io.check(f is not None and len(f) >= 6, 'name states date and time'): return
        sod = sec - (day - BASE // 86400) * 86400
        got = ((f[3] * 60) + f[4]) * 60 + f[5]
        io.check(And(f[0] == dd.year, f[1] == dd.month, f[2] == dd.day, sym_eq(got, sod)), 'name states the second of the first sample')
    for i in range(len(written)):
        for j in range(i):
            io.check(Not(same(written[i][0], written[j][0])), 'file names are distinct')
    if any(bool(s < 86400) for s in secs) and any(bool(s >= 86400) for s in secs): io.reach('file boundary')
    io.observe('n', len(written))


def tokens(s):
    """list of literal pieces and numbers"""
    out = []; lit = ''
    i = 0
    while i < len(s):
        if s[i] == E.TOK_L:
            j = s.index(E.TOK_R, i)
            v = S.from_token(s[i:j + 1])
            if lit: out.append(lit); lit = ''
            out.append(v); i = j + 1
        else:
            lit += s[i]; i += 1
    if lit: out.append(lit)
    return out


def fields(s):
    """numbers of a date-time text yyyy-mm-ddThh_mm_ss[_...]"""
    out = []
    cur = None
    for p in tokens(s):
        if isinstance(p, str):
            for q in re.split(r'([-T_])', p):
                if q in ('-', 'T', '_'):
                    out.append(cur); cur = None
                elif q:
                    cur = int(q)
        else:
            cur = p
    out.append(cur)
    return out


def same(a, b):
    """whether two texts are equal"""
    if not hasattr(a, '__len__'): return a == b
    fa, fb = a.split('.'), b.split('.')
    if fa[1:] != fb[1:]: return False
    x, y = fields(fa[0]), fields(fb[0])
    if len(x) != len(y): return False
    return And(*[sym_eq(p, q) for p, q in zip(x, y)])
