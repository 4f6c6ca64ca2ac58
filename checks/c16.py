"""C16: bit weights."""
from symx.engine import And, Or, Not, Implies, AbsLe, Iff
from fractions import Fraction as Fr

FUNCS = ['core.get_gem_specs', 'core.get_bitweight_info', 'core.__gain__', 'core.__AVCC__']
BOUNDS = 'serial number: every integer 3..9999 (int, and the zero-padded text form); adc_range: every integer -10..10; units Pa/pa/V/v/counts/Counts/COUNTS and invalid ones'
OUTSIDE = 'non-integer serial numbers; serial numbers below 3 (no hardware generation)'
REACH = ['gen_old', 'gen_mid', 'gen_new', 'low', 'high', 'refused_gain', 'refused_unit']
MODS = ['core']
GOOD = ['Pa', 'PA', 'pa', 'V', 'v', 'counts', 'Counts']
BAD = ['psi', '', 'mV', 'count']


def cases(tier):
    r = [{'name': 'units_%s_%s' % (u, k), 'units': u, 'kind': k} for u in GOOD for k in ('int', 'str')]
    r += [{'name': 'badunit_%s' % u, 'units': u, 'kind': 'int'} for u in BAD]
    r += [{'name': 'default_unit', 'units': None, 'kind': 'int'}]
    return r


# documented hardware generations (table in core.py's comments and the user documentation)
GEN = [(3, 7, .5), (8, 14, .7), (15, 19, .8), (20, 37, .82), (38, 40, .9), (41, 43, .91), (44, 46, .92), (47, 49, .98),
       (50, 51, .99), (52, 54, .991), (55, 57, .992), (58, 107, 1.0), (108, 10 ** 9, 1.01)]


def harness(io):
    core = io.mod('core')
    SN = io.int('SN', 3, 9999)
    rng = io.int('adc_range', -10, 10)
    arg = SN
    if io.case['kind'] == 'str':
        arg = '%03d' % SN if not io.symbolic else f'{SN}'
    u = io.case['units']
    ok_unit = u in GOOD or u is None
    try:
        info = core.get_bitweight_info(arg, {'adc_range': rng}) if u is None else core.get_bitweight_info(arg, {'adc_range': rng}, u)
    except (Exception, BaseException) as e:
        if type(e).__module__.startswith('symx'):
            raise
        refused = True
    else:
        refused = False
    io.observe('refused', refused)
    bad_gain = Not(Or(rng == 0, rng == 1))
    io.check(Iff(refused, Or(bad_gain, not ok_unit)), 'refusal: raised exactly for unknown gain or unit (got refused=%s)' % refused)
    if refused:
        io.reach('refused_unit' if not ok_unit else 'refused_gain')
        return
    low = bool(rng == 1)
    io.reach('low' if low else 'high')
    for lo, hi, ver in GEN:
        if bool(And(SN >= lo, SN <= hi)):
            break
    io.reach('gen_old' if ver < .9 else 'gen_mid' if ver < .98 else 'gen_new')
    avcc = Fr('3.373') if ver < .9 else Fr('3.1')
    gain = 1 + (Fr('49.4') if ver < .98 else Fr(50)) / Fr('0.47')
    V = Fr('0.256') / 2 ** 15 / gain * (2 if low else 1)
    sens = avcc / 7 * Fr('45.13') / 10 ** 6
    Pa = V / sens
    io.observe('V', info['bitweight_V']); io.observe('Pa', info['bitweight_Pa']); io.observe('bw', info['bitweight'])

    def near(a, b):
        b = float(b)
        return AbsLe(a - b, abs(b) * 1e-9)
    io.check(near(info['bitweight_V'], V), 'voltage factor of the generation: %s' % ver)
    io.check(near(info['bitweight_Pa'], Pa), 'pressure factor of the generation: %s' % ver)
    io.check(near(info['version'], ver), 'hardware version: %s' % ver)
    uu = (u or 'Pa').lower()
    io.check(near(info['bitweight'], Pa if uu == 'pa' else V if uu == 'v' else 1), 'factor for the unit: %s' % u)
