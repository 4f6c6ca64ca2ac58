"""C31: instrument response of each gain setting."""
from checks.common import *
from checks import c10
import obspy, os, warnings
from fractions import Fraction as Fr

FUNCS = ['gem_network.get_gem_response', 'gem_network._read_response', 'gem_network.deconvolve_gem_response', 'core.get_bitweight_info']
BOUNDS = ('both gain settings in any capitalisation, unknown settings, every sensor and logger response file of the package; symbolic frequency 0.3..20 Hz (multiples of 1/100 Hz) for the match with the conversion factor and 0.001..50 Hz for the comparison of the gains; '
          'single traces and streams of one to three traces with symbolic samples')
OUTSIDE = 'phase of the response; the removal itself (done by obspy, here replaced by a division by the sensitivity); reading of response files by obspy'
REACH = ['high', 'low', 'refused', 'trace', 'stream', 'own files', 'not waveforms']
MODS = ['gem_network', 'core']
MAX_REPLAYS = 40
BUDGET = {'quick': 150, 'thorough': 800}
CASE_BUDGET = {'quick': 60, 'thorough': 300}
SENSOR = ['RESP.XX.IS000..BDF.GEMV0.26.0_0005', 'RESP.XX.IS000..BDF.GEMV0.26.0_0016', 'RESP.XX.IS000..BDF.GEMV0.26.0_0023', 'RESP.XX.IS025..BDF.GEMV1.26.0_0022']
LOGGER = ['RESP.XX.GM000..HHZ.GEMINFRAV0.0.100', 'RESP.XX.GM001..HHZ.GEMINFRAV1.1.100', 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100']


def cases(tier):
    r = []

    def c(kind, **k):
        r.append(dict({'name': '_'.join([kind] + ['%s%s' % (a, str(v)[:3] if a in ('sensor', 'logger') else v) for a, v in k.items()]), 'kind': kind}, **k))
        if any(x['name'] == r[-1]['name'] for x in r[:-1]): r[-1]['name'] += '_%d' % len(r)
    for g in ('high', 'low', 'High', 'LOW'): c('band', gain=g)
    c('gains'); c('default')
    for g in ('', 'medium', 'lo', '1'): c('refused', gain=g or 'empty')
    for s in SENSOR: c('files', sensor=s, logger='')
    for l in LOGGER: c('files', sensor='', logger=l)
    c('files', sensor=SENSOR[0], logger=LOGGER[1])
    for g in ('high', 'low'):
        c('remove', gain=g, nt=0)
        for n in (1, 2, 3): c('remove', gain=g, nt=n)
        c('remove', gain=g, nt=2, sensor=SENSOR[1], logger=LOGGER[0])
    c('wrong')
    return r


def mag2(io, resp, f):
    """(numerator, denominator) of the squared magnitude of a response at frequency f"""
    n = d = 1
    Q = (lambda v: Fr(v).limit_denominator(10 ** 15)) if io.symbolic else float
    w = f * Q(2 * np.pi)
    for s in resp.response_stages:
        g = s.stage_gain
        if g is not None: n = n * Q(g * g)
        if getattr(s, 'poles', None) is not None:
            n = n * Q(s.normalization_factor ** 2)
            for z in s.zeros:
                n = n * (w * w + Q(z.real ** 2)) if z.imag == 0 else n * ((w - Q(z.imag)) * (w - Q(z.imag)) + Q(z.real ** 2))
            for z in s.poles:                        # scaled to keep the numbers small
                m = Q(abs(z) ** 2) if abs(z) else 1
                t = (w * w + Q(z.real ** 2)) if z.imag == 0 else ((w - Q(z.imag)) * (w - Q(z.imag)) + Q(z.real ** 2))
                d = d * t * (1 / m); n = n * (1 / m)
    return n, d


def value(resp, f):
    class C: symbolic = False
    n, d = mag2(C, resp, f)
    return float(n / d) ** 0.5


def harness(io):
    G = io.mod('gem_network'); core = io.mod('core'); cs = io.case
    import gemlog
    warnings.simplefilter('ignore')
    k = cs['kind']
    path = os.path.join(os.path.dirname(G.__file__), 'data', 'response')

    def stages(kind, f):
        return obspy.read_inventory(os.path.join(path, kind, f))[0][0][0].response.response_stages

    def same(a, b):
        return a.stage_gain == b.stage_gain and getattr(a, 'poles', None) == getattr(b, 'poles', None) and getattr(a, 'zeros', None) == getattr(b, 'zeros', None) and getattr(a, 'normalization_factor', None) == getattr(b, 'normalization_factor', None)
    if k == 'refused':
        try:
            G.get_gem_response('' if cs['gain'] == 'empty' else cs['gain'])
        except Exception:
            io.reach('refused')
        else: io.check(False, 'an unknown gain setting is refused')
        return
    if k == 'wrong':
        for d in (np.zeros(3), 'high', None):
            try: G.deconvolve_gem_response(d)
            except Exception: io.reach('not waveforms')
            else: io.check(False, 'only waveforms are accepted')
        return
    if k in ('band', 'default'):
        gain = cs.get('gain', 'high').lower()
        r = G.get_gem_response(cs['gain']) if k == 'band' else G.get_gem_response()
        io.reach(gain)
        f = io.grid('f', 30, 2000, 100)
        n, d = mag2(io, r, f)
        bw = float(core.get_bitweight_info('077', {'adc_range': 0 if gain == 'high' else 1}, 'Pa')['bitweight_Pa'])
        b2 = Fr(bw * bw).limit_denominator(10 ** 15) if io.symbolic else bw * bw
        io.check(And(n * b2 <= d * (Fr(113, 100) if io.symbolic else 1.13), n * b2 >= d * (Fr(88, 100) if io.symbolic else .88)), 'the response in the passband is the inverse of the conversion factor')
        s = r.instrument_sensitivity
        io.check(s.value is not None and abs(value(r, s.frequency) / s.value - 1) < 0.01, 'the sensitivity is the response at its frequency')
        io.check(s.input_units.upper() == 'PA' and s.output_units.upper().startswith('COUNT') and r.response_stages[0].input_units.upper() == 'PA', 'the response is from pascals to counts')
    elif k == 'gains':
        f = io.grid('f', 1, 50000, 1000)
        n1, d1 = mag2(io, G.get_gem_response('high'), f); n2, d2 = mag2(io, G.get_gem_response('low'), f)
        x, y = n1 * d2, n2 * d1 * 4
        io.check(And(x <= y * (1 + (Fr(1, 10 ** 6) if io.symbolic else 1e-6)), x * (1 + (Fr(1, 10 ** 6) if io.symbolic else 1e-6)) >= y), 'low gain is half of high gain')
    elif k == 'files':
        r = G.get_gem_response(sensor_file=cs['sensor'], logger_file=cs['logger']) if io.choice('gain given', [False, True]) is False else G.get_gem_response('low', cs['sensor'], cs['logger'])
        std = G.get_gem_response('high'); low = G.get_gem_response('low')
        io.reach('own files')
        if cs['sensor']: io.check(same(r.response_stages[0], stages('sensor', cs['sensor'])[0]), 'the sensor file given is used')
        else: io.check(same(r.response_stages[0], std.response_stages[0]), 'the standard sensor is used otherwise')
        if cs['logger']:
            l = stages('datalogger', cs['logger'])[1:]
            io.check(len(l) == len(r.response_stages) - 1 and all(same(a, b) for a, b in zip(r.response_stages[1:], l)), 'the logger file given is used')
        s = r.instrument_sensitivity
        io.check(abs(value(r, s.frequency) / s.value - 1) < 0.03, 'the sensitivity is the response at its frequency')
    elif k == 'remove':
        data = [[io.int('x%d_%d' % (q, j), -1000, 1000) for j in range(2)] for q in range(max(cs['nt'], 1))]
        trs = []
        for v in data:
            tr = c10.make_trace(io, 0, [0, 0], 0.01); tr.data = arr1(v) if io.symbolic else np.array(v, float); trs.append(tr)

        def remove(self, *a, **kk):
            self.data = self.data / float(self.stats.response.response_stages[0].stage_gain * self.stats.response.response_stages[2].stage_gain)
            return self
        io.patch(obspy.Trace, 'remove_response', remove)
        x = obspy.Stream(trs) if cs['nt'] else trs[0]
        io.reach('stream' if cs['nt'] else 'trace')
        extra = [cs['sensor'], cs['logger']] if 'sensor' in cs else []
        out = G.deconvolve_gem_response(x, cs['gain'], *extra)
        r = G.get_gem_response(cs['gain'], *extra)
        g = float(r.response_stages[0].stage_gain * r.response_stages[2].stage_gain)
        got = list(out) if cs['nt'] else [out]
        if not io.check(len(got) == len(data), 'every trace is returned'): return
        for tr, v in zip(got, data):
            for j in range(2): io.check(near(num(tr.data[j]) * g, v[j], 1e-5), 'the response of that gain is removed once from every trace')
