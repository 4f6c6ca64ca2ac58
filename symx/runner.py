"""symx runner: decides one property.

  python -m symx.runner check C02 [--tier quick|thorough] [--only substring] [-v]
  python -m symx.runner replay evidence/replays/C02_0.json
"""
import sys, os, json, time, random, importlib, traceback, argparse, multiprocessing, warnings, contextlib, tempfile, shutil
import inspect, functools, types, builtins
warnings.filterwarnings('ignore')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)
os.environ.setdefault('MPLBACKEND', 'Agg')
from fractions import Fraction as Fr
import logging
logging.disable(logging.CRITICAL)
from . import engine as E
from . import shims as S
from . import obs as O

EVID = os.path.join(ROOT, 'evidence')
QUICK_BUDGET = float(os.environ.get('SYMX_QUICK_BUDGET', 300))
DIVERSE = int(os.environ.get('SYMX_DIVERSE', 10))     # paths per case replayed a second time, with random values of the path
THOROUGH_BUDGET = float(os.environ.get('SYMX_THOROUGH_BUDGET', 780))


# ------------------------------------------------------------------------ harness services
def _mod(self, name):
    return S.load(name) if self.symbolic else S.pristine(name)


def _fits(stub, real):
    """the stub, called as the code calls the real function: arguments which the stub does not take are dropped"""
    try:
        ss, rs = inspect.signature(stub), inspect.signature(real)
    except (TypeError, ValueError):
        return stub
    kinds = [p.kind for p in ss.parameters.values()]
    P = inspect.Parameter
    anyk = P.VAR_KEYWORD in kinds

    @functools.wraps(stub)
    def call(*a, **k):
        try:
            ss.bind(*a, **k)
        except TypeError:
            b = rs.bind(*a, **k)          # as the real function would refuse it
            pos, kw = [], {}
            n = sum(kd in (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD) for kd in kinds)
            for name, v in b.arguments.items():
                kd = rs.parameters[name].kind
                if kd == P.VAR_POSITIONAL: continue
                if kd == P.VAR_KEYWORD: kw.update(v)
                elif name in ss.parameters or len(pos) >= n: kw[name] = v
                else: pos.append(v)
            kw = {x: v for x, v in kw.items() if anyk or x in ss.parameters}
            if pos and any(x in list(ss.parameters)[:len(pos)] for x in kw):
                a2 = list(b.args)[:n]
                return stub(*a2, **{x: v for x, v in kw.items() if x not in list(ss.parameters)[:len(a2)]})
            return stub(*pos, **kw)
        return stub(*a, **k)
    return call


def _patch(self, obj, attr, val):
    had = attr in vars(obj) if not isinstance(obj, dict) else attr in obj
    if not isinstance(obj, dict) and not hasattr(obj, attr) and not hasattr(builtins, attr):
        raise E.Misfit('%s has no %s' % (getattr(obj, '__name__', obj), attr))
    old = getattr(obj, attr, None)
    self._undo.append((obj, attr, old, had))
    if isinstance(val, types.FunctionType) and callable(old) and not isinstance(old, type):
        val = _fits(val, old)
    setattr(obj, attr, val)


def _tmp(self):
    d = tempfile.mkdtemp(prefix='symx_', dir=os.environ.get('SYMX_TMP'))
    self._tmps.append(d)
    return d


def _close(self):
    for obj, attr, old, had in reversed(self._undo):
        if had:
            setattr(obj, attr, old)
        else:
            try:
                delattr(obj, attr)
            except AttributeError:
                pass
    self._undo = []
    for d in self._tmps:
        shutil.rmtree(d, ignore_errors=True)
    self._tmps = []


for _c in (E.IO, E.CIO):
    _c.mod = _mod; _c.patch = _patch; _c.tmpdir = _tmp; _c.close = _close
    _oi = _c.__init__

    def _init(self, *a, _oi=_oi):
        _oi(self, *a)
        self._undo = []; self._tmps = []
    _c.__init__ = _init


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    with open(os.devnull, 'w') as dn:
        sys.stdout = dn; sys.stderr = dn
        try:
            yield
        finally:
            sys.stdout = so; sys.stderr = se


def wrap(h):
    def g(io):
        cwd = os.getcwd()
        try:
            with quiet():
                h(io)
        finally:
            io.close()
            if os.getcwd() != cwd:
                os.chdir(cwd)
    return g


# ------------------------------------------------------------------------ comparing a path with reality
def close(a, b):
    if type(a).__module__ == 'numpy' and hasattr(a, 'item') and getattr(a, 'size', 2) == 1: a = a.item()
    if type(b).__module__ == 'numpy' and hasattr(b, 'item') and getattr(b, 'size', 2) == 1: b = b.item()
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        try:
            a = list(a); b = list(b)
        except TypeError:
            return False
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if fa != fa and fb != fb:
        return True
    return abs(fa - fb) <= 1e-6 + 1e-9 * max(abs(fa), abs(fb))


def ser(v):
    if isinstance(v, Fr):
        return str(v)
    if isinstance(v, dict):
        return {k: ser(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [ser(x) for x in v]
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return str(v)


# ------------------------------------------------------------------------ one case
def run_case(args):
    prop, idx, case, tier, budget, verbose = args
    t0 = time.time()
    C = importlib.import_module('checks.' + prop.lower())
    st = E.Stats()
    out = {'idx': idx, 'name': case.get('name', str(idx)), 'violations': [], 'reached': {}, 'samples': [], 'notes': {},
           'replays': 0, 'validated': 0, 'diverged': 0, 'spurious': 0, 'weak': 0, 'errors': [], 'divergences': []}
    harness = wrap(C.harness)
    limit = case.get('max_paths', getattr(C, 'MAX_PATHS', 4000))
    max_replays = case.get('max_replays', getattr(C, 'MAX_REPLAYS', 300))
    deadline = t0 + budget
    rnd = random.Random(idx)
    out['diverse'] = 0; out['diverse_time'] = 0.0

    def rep(inputs):
        out['replays'] += 1
        r = E.replay(harness, inputs, case)
        if r.harness_error and not r.failures:
            r.vacuous = True
            msg = 'harness does not fit the code: ' + r.harness_error[:200]
            if msg not in out['errors']:
                out['errors'].append(msg)
        return r

    def violation(inputs, msg, kind):
        sig = C.signature(msg, inputs, case) if hasattr(C, 'signature') else msg.split(':')[0]
        out['violations'].append({'case': case, 'inputs': ser(inputs), 'msg': msg, 'kind': kind, 'signature': sig})

    def seen(sig_msgs):
        return False

    def on_path(c):
        for l in c.reached:
            out['reached'][l] = out['reached'].get(l, 0) + 1
        for n in c.notes:
            out['notes'][n] = out['notes'].get(n, 0) + 1
        err = c.error
        cands = []
        if err is not None:
            st.unsupported += isinstance(err, E.Unsupported)
            cands.append(('exception %s' % type(err).__name__, None))
            if verbose:
                print(getattr(c, 'err_trace', err))
        c.dead = False
        for f in c.failures:
            cands.append((f.msg, f.inputs))
        if c.error is None and not c.failures and c.trail == [] and not c.inputs and not c.reached:
            pass
        # models of this path
        models = []
        try:
            m = c.get_model()
            models.append(c.model_inputs(m))
        except E.PathAbort:
            m = None
        bad = False
        if cands:
            tries = [i for _, i in cands if i is not None][:4]
            tries += models
            if m is not None and len(tries) < 6:
                with contextlib.suppress(Exception):
                    tries += c.more_models(None, 4)
            for inp in tries:
                r = rep(inp)
                if r.vacuous:
                    continue
                if r.failures:
                    violation(inp, r.failures[0], 'assertion')
                    bad = True; break
                if r.error:
                    violation(inp, 'raised ' + r.error, 'exception')
                    bad = True; break
            if not bad:
                out['spurious'] += 1
                out['errors'].append('%s (not reproduced)%s' % (cands[0][0], ': ' + str(err)[:200] if err is not None else ''))
                if len(out['errors']) > 8:
                    del out['errors'][8:]
        elif m is not None and not getattr(c, 'abort', None) == 'assumption infeasible' and \
                (out['replays'] < max_replays) and time.time() < deadline:
            todo = [(m, models[0])]
            if out['diverse'] < DIVERSE and out['diverse_time'] < 0.15 * budget:
                t1 = time.time()
                out['diverse'] += 1
                m2 = c.diverse_model(rnd)
                if m2 is not None:
                    todo.append((m2, c.model_inputs(m2)))
                out['diverse_time'] += time.time() - t1
            for m, inp in todo:
                r = rep(inp)
                if r.vacuous:
                    break
                if r.failures:
                    violation(inp, r.failures[0], 'assertion'); bad = True
                    break
                if r.error:
                    violation(inp, 'raised ' + r.error, 'exception'); bad = True
                    break
                try:
                    a = [(l, E.evaluate(c, v, m)) for l, v in c.observed]
                except Exception:
                    a = None
                same = a is not None and len(a) == len(r.observed) and \
                    all(x[0] == y[0] and close(x[1], y[1]) for x, y in zip(a, r.observed)) and \
                    [l for l in c.reached] == r.reached
                if same:
                    out['validated'] += 1
                else:
                    out['diverged'] += 1
                    if len(out['divergences']) < 3:
                        d = [(x, y) for x, y in zip(a or [], r.observed) if not (x[0] == y[0] and close(x[1], y[1]))][:2]
                        out['divergences'].append(str({'inputs': ser(inp), 'diff': ser(d), 'reached': [c.reached, r.reached]})[:1500])
                if len(out['samples']) < 2:
                    out['samples'].append({'case': out['name'], 'path_inputs': ser(inp), 'reached': c.reached[:6],
                                           'decisions': len(c.trail)})
        if getattr(c, 'abort', None) and not isinstance(c.error, Exception):
            pass
        return bad and len(out['violations']) >= case.get('max_violations', 3)

    try:
        E.explore(harness, case, S.env, st, max_paths=limit, deadline=deadline, on_path=on_path,
                  timeout_ms=case.get('timeout_ms', getattr(C, 'TIMEOUT_MS', 8000)))
    except BaseException as e:          # machinery error
        out['errors'].append('machinery: ' + traceback.format_exc()[-1500:])
    out['stats'] = st.__dict__
    out['wall'] = time.time() - t0
    return out


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def check(prop, tier, only=None, verbose=False, procs=None):
    t0 = time.time()
    C = importlib.import_module('checks.' + prop.lower())
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cases = list(C.cases(tier))
    if only:
        cases = [c for c in cases if only in c.get('name', '')]
    if hasattr(C, 'setup'):
        C.setup(tier)
    total = getattr(C, 'BUDGET', {}).get(tier, QUICK_BUDGET if tier == 'quick' else THOROUGH_BUDGET)
    procs = procs or min(8, max(1, os.cpu_count() or 1))
    per = getattr(C, 'CASE_BUDGET', {}).get(tier, max(20.0, total * procs / max(len(cases), 1) * 0.9))
    per = min(per, total)
    jobs = [(prop, i, c, tier, per, verbose) for i, c in enumerate(cases)]
    results = []
    if procs == 1 or len(jobs) == 1:
        for j in jobs:
            results.append(run_case(j))
    else:
        # import everything once, before forking
        for n in getattr(C, 'MODS', ['core']):
            try:
                S.load(n); S.pristine(n)
            except Exception:
                pass
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(procs, len(jobs)), maxtasksperchild=20) as pool:
            pend = [pool.apply_async(run_case, (j,)) for j in jobs]
            hard = t0 + total + 240
            for j, a in zip(jobs, pend):
                try:
                    results.append(a.get(timeout=max(1.0, hard - time.time())))
                except multiprocessing.TimeoutError:
                    results.append({'idx': j[1], 'name': j[2].get('name'), 'violations': [], 'reached': {}, 'samples': [], 'notes': {'case did not finish': 1},
                                    'replays': 0, 'validated': 0, 'diverged': 0, 'spurious': 0, 'weak': 0, 'divergences': [],
                                    'errors': ['case did not finish'], 'stats': E.Stats().__dict__, 'wall': total})
                except Exception as e:
                    results.append({'idx': j[1], 'name': j[2].get('name'), 'violations': [], 'reached': {}, 'samples': [], 'notes': {'worker error': 1},
                                    'replays': 0, 'validated': 0, 'diverged': 0, 'spurious': 0, 'weak': 0, 'divergences': [],
                                    'errors': ['worker error %r' % e], 'stats': E.Stats().__dict__, 'wall': 0})
            pool.terminate()
    if hasattr(C, 'teardown'):
        C.teardown()
    return report(C, prop, tier, seed, cases, results, t0, verbose)


def report(C, prop, tier, seed, cases, results, t0, verbose):
    st = E.Stats()
    agg = {k: 0 for k in ('replays', 'validated', 'diverged', 'spurious')}
    reached, notes, samples, errors, viol, divs = {}, {}, [], [], [], []
    for r in results:
        s = E.Stats(); s.__dict__.update(r['stats']); st.merge(s)
        for k in agg:
            agg[k] += r[k]
        for k, v in r['reached'].items(): reached[k] = reached.get(k, 0) + v
        for k, v in r['notes'].items(): notes[k] = notes.get(k, 0) + v
        if len(samples) < 6: samples += r['samples'][:1]
        for e in r['errors']:
            if len(errors) < 12: errors.append('%s: %s' % (r['name'], e))
        for d in r['divergences']:
            if len(divs) < 5: divs.append('%s: %s' % (r['name'], d))
        viol += r['violations']
    known = [k for k in load_known() if k['property'] == prop and k.get('status', 'known') == 'known']
    new, hit = [], {}
    for v in viol:
        k = next((k for k in known if k['signature'] == v['signature']), None)
        if k is None:
            new.append(v)
        else:
            hit.setdefault(k['signature'], k)
    for k in known:
        print('KNOWN-FINDING: property=%s %s%s' % (prop, k['what'], '' if k['signature'] in hit else ' (listed; not reached by this run)'))
    missing = [l for l in getattr(C, 'REACH', []) if l not in reached]
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    lines = []
    sigs = set()
    for v in new:
        if v['signature'] in sigs or len(lines) >= 5:
            continue
        sigs.add(v['signature'])
        p = os.path.join(EVID, 'replays', '%s_%d.json' % (prop, len(lines)))
        json.dump({'property': prop, **v, 'replay': 'cd /verif && ./symx.sh replay ' + p}, open(p, 'w'), indent=1)
        lines.append((p, v))
    exhaustive = not st.incomplete and not st.concretised and not st.unknown and not agg['spurious'] and not st.unsupported
    cov = {
        'states': st.paths, 'transitions': st.decisions, 'traces_validated_against_impl': agg['validated'],
        'samples': samples or [{'note': 'no complete path'}],
        'functions_encoded': C.FUNCS, 'bounds': C.BOUNDS, 'outside_bounds': getattr(C, 'OUTSIDE', ''),
        'cases': len(cases), 'paths': st.paths, 'forks': st.forks, 'solver_queries': st.queries,
        'solver_time_s': round(st.solver_time, 2), 'assertions_checked': st.checks,
        'assertions_discharged': st.assertions_discharged, 'solver_unknown': st.unknown,
        'assertions_without_answer': st.checks_unknown, 'infeasible_paths': st.infeasible,
        'concrete_replays_of_paths': agg['replays'], 'replays_that_diverged_from_the_encoding': agg['diverged'],
        'counterexamples_not_reproduced': agg['spurious'], 'values_concretised': st.concretised,
        'paths_unsupported': st.unsupported, 'exhaustive_within_bounds': bool(exhaustive), 'exploration_cut_by_budget': bool(st.incomplete),
        'vacuity_witnesses_reached': reached, 'vacuity_witnesses_missing': missing, 'incompleteness_notes': notes,
        'inconclusive': errors, 'divergences': divs,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(C, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2),
          'violations': len(new)}
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d paths, %d decisions, %d queries (%.1fs solver), %d/%d assertions discharged, %d traces validated, '
          '%d diverged, %d inconclusive, exhaustive=%s, %.1fs' % (prop, tier, len(cases), st.paths, st.decisions, st.queries, st.solver_time,
          st.assertions_discharged, st.checks, agg['validated'], agg['diverged'], agg['spurious'], exhaustive, time.time() - t0))
    if verbose or os.environ.get('SYMX_V'):
        print('reached', reached, 'missing', missing)
        print('notes', notes)
        for e in errors: print('  !', e)
        for d in divs: print('  ~', d)
        for r in sorted(results, key=lambda r: -r['wall'])[:8]:
            print('  case %-40s %6.1fs paths %d replays %d' % (r['name'], r['wall'], r['stats']['paths'], r['replays']))
    if missing:
        print('note: vacuity witnesses not reached: %s' % missing)
    for p, v in lines:
        print('  %s | case %s | inputs %s' % (v['msg'][:300], v['case'].get('name'), json.dumps(v['inputs'])[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    return 1 if lines else 0


COMMON_ASSUMPTIONS = [
    'floating-point arithmetic is modelled as exact rational arithmetic (every path is also replayed with real floats)',
    'numpy/pandas/scipy/obspy primitives that cannot take proxy values are replaced by models of their documented behaviour (symx/shims.py, symx/obs.py); agreement is checked by replaying every explored path (up to a cap) on the unmodified libraries',
]


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd')
    a = sub.add_parser('check'); a.add_argument('prop'); a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--only'); a.add_argument('-v', action='store_true'); a.add_argument('--procs', type=int)
    b = sub.add_parser('replay'); b.add_argument('file')
    sub.add_parser('selftest')
    o = ap.parse_args()
    if o.cmd == 'selftest':
        O.build(); S.load('core'); S.pristine('core'); os.makedirs(EVID, exist_ok=True); print('symx ready'); sys.exit(0)
    if o.cmd == 'check':
        try:
            rc = check(o.prop, o.tier, o.only, o.v, o.procs)
        except Exception:
            traceback.print_exc()
            print('%s: no verdict (the machinery failed, see above)' % o.prop)
            rc = 2
        sys.exit(rc)
    d = json.load(open(o.file))
    C = importlib.import_module('checks.' + d['property'].lower())
    if hasattr(C, 'setup'):
        C.setup('quick')
    r = E.replay(wrap(C.harness), d['inputs'], d['case'])
    if hasattr(C, 'teardown'):
        C.teardown()
    print('inputs:', json.dumps(d['inputs']))
    print('failures:', r.failures, 'error:', r.error)
    if r.error: print(r.trace)
    print('observed:', r.observed)
    sys.exit(1 if (r.failures or r.error) else 0)


if __name__ == '__main__':
    main()
