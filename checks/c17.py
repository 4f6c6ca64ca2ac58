"""C17: the command-line converter processes the right loggers under the right codes."""
from checks.common import *
import os, logging, inspect, itertools

FUNCS = ['gemconvert.main', 'gemconvert.convert_single_SN', 'gemconvert.unique', 'gem_network._get_station_info', 'gem_network._fix_station_info_keys', 'core._read_SN']
BOUNDS = ('up to three (thorough: four) raw files in the folder (named by serial number, or .TXT holding it) plus entries that are not raw files, or one to three requested serial numbers, up to two excluded ones, codes files of none to three (thorough: four) lines '
          'with and without header, reordered columns, missing optional columns and shortened serial numbers; two symbolic digits in every serial number, so that any of them may coincide; short and long options, test mode')
OUTSIDE = 'a serial number listed twice in the codes file; concurrency of the worker processes (each run is independent); more loggers'
REACH = ['run', 'duplicate', 'excluded', 'unlisted', 'no run', 'leading zero dropped']
MODS = ['gemconvert', 'gem_network']
ASSUMPTIONS = ['worker processes run the function they are given once for each argument (here in the same process)']
MAX_REPLAYS = 40
BUDGET = {'quick': 220, 'thorough': 1500}
CASE_BUDGET = {'quick': 60, 'thorough': 400}


def cases(tier):
    r = []

    def c(**k):
        r.append(dict({'name': '_'.join('%s%s' % (a, v) for a, v in k.items()), 'folder': '', 'req': 0, 'exc': 0, 'lines': -1, 'layout': 'plain', 'long': False, 'test': False}, **k))
    for f in ('', 'e', 'ee', 'et', 'tt', 'ej', 'tx', 'eee'): c(folder=f)
    c(folder='ee', exc=1); c(folder='et', exc=2)
    c(folder='j'); c(folder='xj')
    for n in (1, 2, 3): c(req=n)
    c(req=2, exc=1); c(req=2, exc=1, long=True); c(folder='e', req=2)
    for n in (0, 1, 2):
        c(req=1, lines=n)
    c(req=2, lines=2); c(folder='ej', lines=1); c(folder='et', lines=1); c(req=1, exc=1, lines=1, long=True)
    for lay in ('header', 'reorder', 'short', 'elevation', 'nonet', 'noloc'):
        c(req=1, lines=2, layout=lay)
    c(req=1, lines=3, layout='header'); c(req=2, lines=1, layout='short')
    c(req=2, test=True); c(folder='ej', test=True, long=True)
    c(folder='ett'); c(folder='eej', exc=2); c(req=3, exc=2); c(req=3, lines=2); c(req=2, lines=3); c(req=2, lines=3, layout='reorder'); c(folder='eee', lines=2)
    if tier == 'thorough':
        c(req=3, lines=3); c(req=4); c(req=3, exc=1, lines=3, layout='short'); c(folder='eett', exc=1); c(folder='eetj', lines=3, layout='header'); c(req=2, lines=4, layout='reorder')
    return r


def harness(io):
    gc = io.mod('gemconvert')
    cs = io.case
    d = io.tmpdir()
    raw = os.path.join(d, 'raw'); os.makedirs(raw)
    src = []
    for i, k in enumerate(cs['folder']):
        if k in 'et':
            sn = '0' + digits(io, 'f%d_' % i, 2); src.append(sn)
            write_raw(os.path.join(raw, 'FILE%04d.%s' % (i, sn if k == 'e' else 'TXT')), '0.9', [], SN=sn)
        elif k == 'x':
            with open(os.path.join(raw, 'FILE%04d.TXT' % i), 'w') as f: f.write('lost\n' * 5)
        else:
            for n in ('notes on the site.txt', 'FILE0001.077.bak', 'a', '.hidden_file_x', 'FILE0003'):
                with open(os.path.join(raw, n), 'w') as f: f.write('something else entirely\n')
            os.makedirs(os.path.join(raw, 'more_raw_033'))
    sel = src
    if cs['req']:
        sel = ['0' + digits(io, 'r%d_' % i, 2) for i in range(cs['req'])]
    exc = ['0' + digits(io, 'x%d_' % i, 2) for i in range(cs['exc'])]
    L = cs['long']
    out = os.path.join(d, 'out')
    argv = ['--inputdir', raw, '--outputdir', out, '--format', 'sac', '--length', '1.5'] if L else ['-i', raw, '-o', out, '-f', 'sac', '-l', '1.5']
    if cs['req']: argv += ['--serialnumbers' if L else '-s', ','.join(sel)]
    if exc: argv += ['--exclude_serialnumbers' if L else '-x', ','.join(exc)]
    lines = []
    lay = cs['layout']
    if cs['lines'] >= 0:
        for j in range(cs['lines']):
            n = 3
            if lay == 'short': n = io.choice('len%d' % j, [3, 2])
            dg = digits(io, 'c%d_' % j, 2)
            for l in lines: io.assume(Not(strs.eq(dg, l['digits'])))
            lines.append({'digits': dg, 'sn': ('0' if n == 3 else '') + dg, 'network': 'N%d' % j, 'station': 'ST%d' % j, 'location': '%02d' % j, 'short': n == 2})
        cols = {'reorder': ['station', 'SN', 'location', 'network'], 'nonet': ['SN', 'station', 'location'], 'noloc': ['SN', 'network', 'station'],
                'elevation': ['SN', 'network', 'station', 'location', 'elevation']}.get(lay, ['SN', 'network', 'station', 'location'])
        if lay == 'nonet':
            for l in lines: l['network'] = ''
        if lay == 'noloc':
            for l in lines: l['location'] = ''
        p = os.path.join(d, 'codes.csv')
        with open(p, 'w') as f:
            if lay not in ('plain', 'short', 'elevation') or not lines: f.write(','.join(cols) + '\n')
            for l in lines:
                f.write(','.join(l['sn'] if x == 'SN' else '12.5' if x == 'elevation' else l[x] for x in cols) + '\n')
        argv += ['--codesfile' if L else '-c', p]
    if cs['test']: argv += ['--test' if L else '-t']
    runs = []
    sig = inspect.signature(gc.gemlog.convert)

    def convert(*a, **k):
        b = sig.bind(*a, **k); b.apply_defaults()
        runs.append(dict(b.arguments))
        return []

    class Pool:
        def __init__(self, *a, **k): pass
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def map(self, f, *its, **k): return [f(*x) for x in zip(*its)]
        def submit(self, f, *a, **k):
            r = f(*a, **k)
            class R:
                def result(self, timeout=None): return r
            return R()
        def shutdown(self, *a, **k): pass
    io.patch(gc.gemlog, 'convert', convert)
    if hasattr(gc, 'ProcessPoolExecutor'): io.patch(gc, 'ProcessPoolExecutor', Pool)
    io.patch(logging, 'basicConfig', lambda *a, **k: None)
    lvl = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    err = None
    try:
        gc.main(argv)
    except SystemExit as e:
        err = e.code
    finally:
        logging.disable(lvl)

    io.check(err in (None, 0), 'a valid command line is not refused')
    got = [str(r['SN']) for r in runs]
    listed = lambda s: Or(*[value(s) == value(l['digits']) for l in lines]) if cs['lines'] >= 0 else True
    excl = lambda s: Or(*[strs.eq(s, x) for x in exc]) if exc else False
    for i, s in enumerate(sel):
        want = False if cs['test'] else And(Not(excl(s)), listed(s))
        have = Or(*[strs.eq(g, s) for g in got]) if got else False
        io.check(Iff(have, want), 'a logger is converted exactly when it is selected, not excluded and listed')
        if bool(excl(s)): io.reach('excluded')
        elif bool(Not(listed(s))): io.reach('unlisted')
        if i and bool(Or(*[strs.eq(s, t) for t in sel[:i]])): io.reach('duplicate')
    for i, g in enumerate(got):
        io.check(Or(*[strs.eq(g, s) for s in sel]) if sel else False, 'every run is for a selected logger')
        for h in got[:i]: io.check(Not(strs.eq(g, h)), 'a logger is converted only once')
        r = runs[i]
        io.check(str(r['rawpath']) == raw and str(r['convertedpath']) == out and str(r['output_format']) == 'sac' and float(r['file_length_hour']) == 1.5, 'folders, format and length are passed on')
        if cs['lines'] < 0:
            io.check((r['network'], r['station'], r['location']) == ('', '', ''), 'no codes without a codes file')
        for l in lines:
            own = value(g) == value(l['digits'])
            io.check(Implies(own, (r['network'], r['station'], r['location']) == (l['network'], l['station'], l['location'])), 'codes are those on the line of this serial number')
            if l['short'] and bool(own): io.reach('leading zero dropped')
    io.reach('run' if got else 'no run')
    io.observe('runs', len(got)); io.observe('err', err)
