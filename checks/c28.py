"""C28: what is read from the header of a raw file is what its header lines say."""
from checks.common import *
import os
import pandas as pd, obspy

FUNCS = ['core._read_SN', 'core._read_format_version', 'core._read_config', 'core.read_gem']
BOUNDS = ('files whose first lines are any of 30 (thorough: 150) arrangements of version, comment, serial number, firmware, configuration, data, GPS, junk and blank lines, incomplete and malformed configuration lines and second headers; '
          'every character of the serial number, of the version number and of every configuration value, the letter of junk lines and the text of comments is symbolic (digits or letters; no separators)')
OUTSIDE = 'lines broken by stray separators, quotes or line ends (the arrangement of fields is the one listed); the splitting of lines into fields by pandas.read_csv, which really runs'
REACH = ['regular', 'irregular', 'config', 'default', 'no serial number', 'second header', 'used']
MODS = ['core']
MAX_REPLAYS = 30
ASSUMPTIONS = ['the tokenizer of pandas treats all letters and digits alike, and no text made of them is taken as missing (symbolic fields are digits, or a letter that cannot form NA)']
BUDGET = {'quick': 150, 'thorough': 800}
DEFAULT = {'gps_mode': 1, 'gps_cycle': 15, 'gps_quota': 20, 'adc_range': 0, 'led_shutoff': 0, 'serial_output': 0}
KEYS = list(DEFAULT)

# v version, # comment, S serial number, f firmware, C configuration, D data, G GPS, J junk without commas, K junk with commas, B blank, E incomplete configuration, X malformed configuration, s second serial number, c second configuration
REGULAR = ['v###SC', 'v###SfC', 'v####SfC', 'v###S', 'v###Sf', 'v####SC']
QUICK = ['v###SDC', 'v###SJC', 'v###SKC', 'v###SEC', 'v###SXC', 'v###SX', 'v###SE', 'v###SCDsc', 'v###SCsc', 'v##SfC', 'v#SC', 'v###CS', 'v###DSC', 'v###JSC', 'v###BSfC', 'v#####SC', 'v###fSC',
         'v###SBC', 'v###SGGC', 'v###KSC', 'v###C', 'v###', 'v###SDDDDDDDD', 'v###sSC']


def cases(tier):
    r = [{'name': l, 'layout': l, 'regular': l in REGULAR, 'ver': v} for l in REGULAR for v in (['new', 'old', 'junk'] if l in ('v###SC', 'v####SfC') else ['new'])]
    for x in r: x['name'] += '_' + x['ver']
    lay = list(QUICK)
    if tier == 'thorough':
        import itertools
        for mid in itertools.product('#SCDJ', repeat=3):
            s = 'v##' + ''.join(mid) + 'Df'
            if s.count('S') <= 1 and s.count('C') <= 1 and s not in lay: lay.append(s)
        lay += ['v###S' + ''.join(m) + 'C' for m in itertools.product('JKBE', repeat=2)]
    r += [{'name': l, 'layout': l, 'regular': False, 'ver': 'new'} for l in lay]
    r += [{'name': 'gem_' + l, 'layout': l, 'regular': l in REGULAR, 'ver': 'new', 'gem': True} for l in ('v###SC', 'v####SfC', 'v###S', 'v###SJC')]
    return r


def harness(io):
    core = io.mod('core')
    cs = io.case; lay = cs['layout']
    d = io.tmpdir()
    sns = []; confs = []; lines = []
    if cs['ver'] == 'junk': version = digits(io, 'v', 1) + '.' + digits(io, 'w', 2)
    else: version = io.choice('version', VERSIONS_NEW if cs['ver'] == 'new' else VERSIONS_OLD)
    for i, c in enumerate(lay):
        if c == 'v': t = '#GemCSV' + version
        elif c == '#': t = '#' + sym_char(io, 'com%d' % i, 'ADGMS') + ',ms' + digits(io, 'cn%d' % i, 1)
        elif c == 'f': t = '#Firmware0.9' + digits(io, 'fw%d' % i, 2)
        elif c in 'Ss':
            sn = digits(io, 'sn%d_' % i, 3); sns.append(sn); t = 'S,' + sn
        elif c in 'Cc':
            v = [digits(io, 'c%d_%d_' % (i, k), 2 if k in (1, 2) else 1) for k in range(6)]
            confs.append((i, v)); t = 'C,' + ','.join(v)
        elif c == 'E': t = 'C,' + digits(io, 'e%d_' % i, 1) + ',' + digits(io, 'e%dx_' % i, 2)
        elif c == 'X': t = 'C,1,15,2x,0,' + digits(io, 'x%d_' % i, 1) + ',0'
        elif c == 'D': t = 'D20%02d,%s' % (i, digits(io, 'd%d_' % i, 1))
        elif c == 'G': t = 'G,%d,70,2020,6,20,5,21,%s,43.6,-116.2' % (2000 + i, digits(io, 'g%d_' % i, 2))
        elif c == 'J': t = sym_char(io, 'j%d' % i, 'CDSX') + digits(io, 'jd%d_' % i, 2)
        elif c == 'K': t = ','.join(digits(io, 'k%d_%d_' % (i, q), 2) for q in range(8))
        else: t = ''
        lines.append(t)
    p = os.path.join(d, 'FILE0001.TXT')
    with open(p, 'w') as f: f.write('\n'.join(lines + ['D2%03d,%d' % (100 + k, k) for k in range(8)]) + '\n')
    io.reach('regular' if cs['regular'] else 'irregular')
    if 's' in lay: io.reach('second header')
    conf = None
    for i, v in confs:
        if conf is None and 1 <= i <= 10: conf = v
    want = {k: value(x) for k, x in zip(KEYS, conf)} if conf is not None else DEFAULT
    io.reach('config' if conf is not None else 'default')

    def check_config(got, what):
        for k in KEYS: io.check(sym_eq(num(got[k]), want[k]), '%s: %s is %s' % (what, k, 'that of the configuration line' if conf is not None else 'the default'))

    if cs.get('gem'):
        seen = []

        def several(fnList, version=0.9, require_gps=True):
            seen.append([os.path.basename(str(f)) for f in fnList])
            return {'data': np.zeros((3, 2)), 'gps': pd.DataFrame({'year': [2020], 'lat': [1.0]}), 'metadata': pd.DataFrame({'millis': [0.0]}), 'problems': [],
                    'header': pd.DataFrame({'file': [str(f) for f in fnList]})}
        if not all(hasattr(core, n) for n in ('_read_several', '_assign_times', 'get_bitweight_info')): return
        io.patch(core, '_read_several', several)
        io.patch(core, '_assign_times', lambda L, *a, **k: (dict(L, data=obspy.Stream([obspy.Trace(np.zeros(3))])), None))
        bw = []
        io.patch(core, 'get_bitweight_info', lambda SN, config, *a, **k: bw.append(config) or {'bitweight_Pa': 1.0})
        other = digits(io, 'ask', 3)
        own = strs.eq(sns[0], other)
        try:
            L = core.read_gem(path=d, nums=np.array([1]), SN=other)
        except core.MissingRawFiles:
            io.check(Not(own), 'the file of this logger is used'); return
        io.check(own, 'a file of another logger is not used'); io.reach('used')
        io.check(L['header']['file_format_version'].iloc[0] == version, 'format version')
        check_config({k: L['header'][k].iloc[0] for k in KEYS}, 'header of the recording')
        check_config(bw[0], 'configuration used for the conversion factor')
        return
    if hasattr(core, '_read_SN'):
        try:
            sn = core._read_SN(p)
        except core.CorruptRawFile:
            sn = None
        if isinstance(sn, str):
            io.check(strs.eq(sn, sns[0]) if sns else False, 'serial number is that of the first S line')
        else:
            io.check(not cs['regular'], 'serial number of a regular file is read'); io.reach('no serial number')
    if hasattr(core, '_read_format_version'):
        v = core._read_format_version(p)
        io.check(strs.eq(v, version), 'format version is that of the first line')
    if hasattr(core, '_read_config'):
        check_config(core._read_config(p), 'configuration')
