"""C13: exactly the requested raw files of one logger are read."""
from checks.common import *
import os, glob, fnmatch

FUNCS = ['core.read_gem', 'core._find_nonmissing_files', 'core._read_SN', 'core._read_format_version', 'core._read_several']
BOUNDS = ('folders of one to three files (thorough: four) among: raw files named by serial number, .TXT files holding a serial number of three or four digits, .TXT files that cannot be identified, names that are not raw files; '
          'symbolic last two digits of file numbers and serial numbers, symbolic sizes 0..40, symbolic serial number requested (two digits free), one or two requested numbers, both listing orders')
OUTSIDE = 'numbers and serial numbers that differ in their other digits; files with the requested extension whose header cannot be read; file systems that ignore case'
REACH = ['file used', 'other logger', 'other number', 'small file', 'nothing selected', 'two used', 'TXT used', 'junk present']
MODS = ['core']
ASSUMPTIONS = ['the size of a file is whatever the operating system reports (not tied to its content here)', 'parsing of a selected file is cut off at the compiled parser, whose calls are recorded']
MAX_REPLAYS = 40
BUDGET = {'quick': 200, 'thorough': 1500}
CASE_BUDGET = {'quick': 60, 'thorough': 500}

KINDS = {'e': 'raw file with its serial number as extension', 't': '.TXT file', 'l': '.TXT file, four-digit serial number', 'x': '.TXT file without serial number', 'b': 'other extension', 'j': 'not a raw file'}


def cases(tier):
    r = []
    combos = ['e', 't', 'l', 'x', 'ee', 'et', 'el', 'ex', 'eb', 'ej', 'tt', 'tl', 'tx', 'll', 'eee', 'eet', 'etl', 'etx']
    if tier == 'thorough': combos += ['ett', 'ttt', 'ell', 'eel', 'ebj', 'txl', 'eeee', 'eett', 'eetx', 'etlx']
    for k in combos:
        for nr in (1, 2):
            if nr == 2 and len(k) > 2 and tier == 'quick': continue
            r.append({'name': '%s_req%d' % (k, nr), 'kinds': k, 'nreq': nr})
    r.append({'name': 'ee_int', 'kinds': 'ee', 'nreq': 0})
    return r


def harness(io):
    core = io.mod('core')
    cs = io.case
    d = io.tmpdir()
    want = '0' + digits(io, 'sn', 2)
    ent = []
    for i, k in enumerate(cs['kinds']):
        num = '00' + digits(io, 'n%d_' % i, 2) if k != 'j' else None
        size = io.int('size%d' % i, 0, 40)
        sn = None
        if k == 'e': sn = '0' + digits(io, 's%d_' % i, 2); name = 'FILE%s.%s' % (num, sn)
        elif k == 't': sn = '0' + digits(io, 's%d_' % i, 2); name = 'FILE%s.TXT' % num
        elif k == 'l':
            sn = digits(io, 'h%d_' % i, 2, '01') + digits(io, 's%d_' % i, 2); name = 'FILE%s.TXT' % num
        elif k == 'x': name = 'FILE%s.TXT' % num
        elif k == 'b': name = 'FILE%s.BAK' % num
        else: name = 'FILE00A1.077'
        for e in ent:
            io.assume(Not(strs.eq(e['name'], name)))
        p = os.path.join(d, name)
        if k == 'x':
            with open(p, 'w') as f: f.write('lost\nlost\nlost\nlost\nlost\n')
        elif k in 'bj':
            with open(p, 'w') as f: f.write('something else entirely\n')
        else:
            write_raw(p, '0.9', [], SN=sn)
        ent.append({'kind': k, 'num': num, 'sn': sn, 'size': size, 'name': name, 'path': p})
    rev = io.bool('reversed') if len(ent) > 1 else False

    def listing(pattern, **k):
        names = [e for e in (reversed(ent) if rev else ent)]
        base = os.path.basename(pattern)
        out = []
        for e in names:
            m = strs.fn_match(e['name'], base) if io.symbolic else fnmatch.fnmatchcase(e['name'], base)
            if bool(m): out.append(os.path.join(os.path.dirname(pattern), e['name']))
        return out
    io.patch(glob, 'glob', listing)
    real = os.path.getsize

    def getsize(p):
        for e in ent:
            if os.path.basename(str(p)) == e['name']: return e['size']
        return real(p)
    io.patch(os.path, 'getsize', getsize)
    read = []

    def parse_gemfile(filename, n_row=1560000):
        fn = os.path.basename(filename.decode() if isinstance(filename, bytes) else str(filename))
        if fn not in read: read.append(fn)
        raise ValueError('cut off')
    io.patch(parsers_mod(io), 'parse_gemfile', parse_gemfile)
    if hasattr(core, 'parse_gemfile'): io.patch(core, 'parse_gemfile', parse_gemfile)

    if cs['nreq'] == 0:
        req = [io.int('req0', 0, 99)]; nums = req[0] if not io.symbolic else arr1(req)
    else:
        req = [io.int('req%d' % j, 0, 99) for j in range(cs['nreq'])]
        if len(req) == 2: io.assume(Not(req[0] == req[1]))
        nums = arr1(req) if io.symbolic else np.array(req)
    err = None
    try:
        core.read_gem(path=d, nums=nums, SN=want)
    except Exception as e:
        err = type(e).__name__
    sel = []
    for e in ent:
        if e['sn'] is None:
            sel.append(False); io.reach('junk present'); continue
        own = strs.eq(e['sn'], want)
        v = value(e['num'])
        asked = Or(*[v == q for q in req])
        sel.append(And(own, asked, e['size'] > 10))
        if bool(Not(own)): io.reach('other logger')
        elif bool(Not(asked)): io.reach('other number')
        elif bool(e['size'] <= 10): io.reach('small file')
    for e, s in zip(ent, sel):
        io.check(Iff(e['name'] in read, s), '%s (%s): read exactly when it belongs to the logger, is requested and is not empty' % (KINDS[e['kind']], 'used' if e['name'] in read else 'not used'))
    pos = {e['name']: e for e in ent}
    for a, b in zip(read, read[1:]):
        io.check(value(pos[a]['num']) <= value(pos[b]['num']), 'files are read in increasing order of number')
    if not read:
        io.check(err is not None, 'an error when there is nothing to read'); io.reach('nothing selected')
    else:
        io.reach('file used')
        if len(read) > 1: io.reach('two used')
        if any(pos[n]['kind'] == 't' for n in read): io.reach('TXT used')
    io.observe('read', len(read)); io.observe('err', err)
