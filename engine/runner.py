"""Runs one check: python3-vt -m engine.runner C01 [--tier quick|thorough]"""
import argparse
import importlib
import itertools
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.isfile(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k.get('status') == 'open']


class Build:
    """The concrete build, made in the background from the current tree."""
    def __init__(self, checked=False, jobs=4, asan=False):
        self.root = self.err = None
        self.checked, self.jobs, self.asan = checked, jobs, asan
        self.t = threading.Thread(target=self._go, daemon=True)
        self.t.start()

    def _go(self):
        from . import build
        t = time.time()
        try:
            self.root = build.build(self.jobs, self.checked, '-O0', ('-fsanitize=address',) if self.asan else ())
        except BaseException as e:
            self.err = str(e)
        self.secs = time.time() - t

    def get(self):
        self.t.join()
        if self.err:
            raise RuntimeError(self.err)
        return self.root

    def close(self):
        self.t.join()
        if self.root:
            shutil.rmtree(self.root, ignore_errors=True)


def concrete_jobs(root, jobs, timeout=600, threads=None):
    """Run jobs in the project's interpreter; a crash of the process is reported per job."""
    if not jobs:
        return []
    path = os.path.join(root, "job-%d-%d-%d.json" % (os.getpid(), id(jobs), threading.get_ident()))
    json.dump(jobs, open(path, 'w'))
    env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='2',
               OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR=root, HOME=root)
    env.pop('VIRTUAL_ENV', None)
    if os.path.exists(os.path.join(root, 'asan')):
        # a read or write outside an array ends the process
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        env.update(LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1')
    try:
        r = subprocess.run([PY, '-m', 'engine.concrete', root, path], cwd=root, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout)
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        rc, out, err = -99, '', 'timeout'
    if rc == 0:
        return json.loads(out)
    if len(jobs) > 1:
        return [concrete_jobs(root, [j], timeout)[0] for j in jobs]
    if rc == -99:
        return [{'status': 'error', 'error': 'timeout', 'violated': {}}]
    if rc < 0:
        return [{'status': 'crash', 'violated': {jobs[0]['harness']: 'the process died with signal %d' % -rc}}]
    return [{'status': 'error', 'error': err[-3000:], 'violated': {}}]


def _replays(prop, tier, h, o, is_known):
    """Lists of (outcome, violation, job): each list is tried in order until one reproduces."""
    base = {'check': prop, 'tier': tier, 'harness': h['name'], 'devs': o.get('devs', [])}
    out = []
    for v in o['violations'][:4]:
        js = [(o, v, dict(base, inputs=pt, seed=n)) for n, pt in enumerate(v['points'] or [{}])]
        out.append((js, {g for l in v['labels'] for g in [_group(l)] if is_known(h['name'], g)}))
    if o.get('first') and not o['violations']:
        # the recorded defect itself is replayed too
        v = dict(o['first'][0], recorded=True)
        out.append(([(o, v, dict(base, inputs=pt, seed=n, devs=[])) for n, pt in enumerate(v['points'] or [{}])], set()))
    return out


def _replay(build, item):
    jobs, knowns = item
    root = build.get()
    got = []
    for o, v, j in jobs:
        r, = concrete_jobs(root, [j])
        r['job'] = j
        got.append((o, v, r))
        if set(r['violated']) - knowns:
            break
    return got


def _group(label):
    return label.split('[')[0].split(':')[0].strip()


_G = {}


def _work(k):
    from . import core, poly
    mod, hs, loader = _G['mod'], _G['hs'], _G['loader']
    h = hs[k]
    core.STATS.__init__()
    runner = h.get('runner')
    if runner:
        t0 = time.time()
        try:
            out = runner(h, loader)
        except Exception as e:
            out = {'name': h['name'], 'violations': [], 'reached': [], 'paths': 0, 'obs': 0, 'time': time.time() - t0,
                   'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc(), 'vacuity': None}
    else:
        core.LIMIT = 2 if _G['devs'] or _G['alts'] else 8
        out = _run(h, loader, _G['alts'])
        out['devs'] = list(_G['alts'])
        if _G['alts'] and out['violations'] and not out['error']:
            # variants the property does not tell apart
            core.LIMIT = 8
            alt = _run(h, loader, ())
            alt['devs'] = []
            if not alt['violations'] or alt['error']:
                out = alt
        asked = [d for d in _G['devs'] if d in core.SymBackend.asked]
        if out['violations'] and not out['error'] and asked:
            # recorded defects: does the code do exactly what the finding describes, and nothing else wrong?
            first = out
            core.LIMIT = 8
            for n in range(1, len(asked) + 1):
                for ds in itertools.combinations(asked, n):
                    out = _run(h, loader, ds)
                    out['devs'] = list(ds)
                    if not out['violations'] or out['error']:
                        break
                if not out['violations'] or out['error']:
                    break
            out['first'] = first['violations']
        if not out['error'] and not out['violations']:
            core.SymBackend.devs = frozenset(out.get('devs', ()))
            out['vacuity'] = _vacuity(h, loader)
    out['stats'] = dict(core.STATS.__dict__)
    out['k'] = k
    out['reached'] = sorted(out.get('reached', ()))
    return out


def _run(h, loader, devs):
    from . import core
    core.SymBackend.devs, core.SymBackend.asked = frozenset(devs), set()
    out = core.run_harness(h['name'], h['fn'], dict(h['params']), loader, h.get('max_paths', 64), h.get('timeout', 200))
    return out


def _vacuity(h, loader):
    """The same harness, first path, one obligation perturbed: the solver must now find a violation."""
    from . import core
    from .poly import Poly
    done = {}

    def one(path):
        be = core.SymBackend(loader, path, h['params'])
        try:
            h['fn'](be, **dict(h['params']))
        except core.Stop:
            pass
        return be
    for path, be in core.explore(one, 100000):
        obs = [o for o in be.obs if o.kind == 'eq']
        if not obs:
            ts = [o for o in be.obs if o.kind == 'true']
            if ts:
                o = core.Ob('vacuity', 'true', False)
                return bool(core.decide_path(path, [o]))
            continue
        o = max(obs, key=lambda o: len(o.spec.t))
        s = core.scale(o.spec)
        p = core.Ob('vacuity', 'eq', o.code, o.spec + Poly.const(core.poly._norm(core.Fraction(s) / 1000 + core.Fraction(1, 1000))))
        return bool(core.decide_path(path, [p]))
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--no-concrete', action='store_true')
    ap.add_argument('--jobs', type=int, default=max(2, min(8, os.cpu_count() or 4)))
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('checks.' + a.prop)
    hs = mod.harnesses(a.tier)
    names = [h['name'] for h in hs]
    assert len(set(names)) == len(names), 'duplicate harness names'
    if a.only:
        hs = [h for h in hs if a.only in h['name']]
    needs_concrete = not a.no_concrete and getattr(mod, 'CONCRETE', True)
    build = Build(getattr(mod, 'CHECKED', False), max(2, a.jobs // 2), getattr(mod, 'ASAN', False)) if needs_concrete else None
    try:
        rc = _main(a, mod, hs, build, seed, t0)
    finally:
        if build:
            build.close()
    sys.stdout.flush()
    sys.exit(rc)


def _main(a, mod, hs, build, seed, t0):
    from . import load, core
    prop = a.prop
    errors = []
    undecided = {}
    loader = load.fresh()
    try:
        if hasattr(mod, 'PREPARE'):
            mod.PREPARE(loader)
        for m in getattr(mod, 'MODULES', []):
            loader.load(m)
    except Exception as e:
        print('ERROR %s: the package cannot be encoded: %s' % (prop, e))
        traceback.print_exc()
        return 3
    known = known_findings(prop)
    devs = {k['deviation']: k for k in known if k.get('deviation')}
    known = [k for k in known if not k.get('deviation')]
    _G.update(mod=mod, hs=hs, loader=loader, devs=sorted(devs), alts=tuple(getattr(mod, 'ALTERNATIVES', ())))
    order = sorted(range(len(hs)), key=lambda k: -hs[k].get('cost', 1))
    outs = []
    # harnesses fork from this process, so they start from the same loaded package and share nothing afterwards
    ctx = mp.get_context('fork')

    def is_known(h, group):
        for k in known:
            if k['harness'] in (h, '*') and group in k['groups']:
                return k
        return None
    # counterexamples are replayed as they come: one that reproduces settles the check
    replay_jobs, res, waiting, stopped = [], [], [], False
    replayer = ThreadPoolExecutor(2)

    def confirmed(entry):
        return any(g for _, v, r in entry.result() if not v.get('recorded') for g in r['violated'] if not is_known(entry.harness, g))
    with ctx.Pool(min(a.jobs, max(1, len(hs))), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_work, order, chunksize=1)
        while True:
            try:
                out = it.next(1.)
            except StopIteration:
                break
            except mp.TimeoutError:
                out = None
            if out is not None:
                outs.append(out)
                if os.environ.get('VERIF_VERBOSE'):
                    print('  %-50s %6.1fs paths %d obs %d viol %d %s' % (
                        out['name'], out['time'], out['paths'], out['obs'], len(out['violations']), out['error'] or ''), flush=True)
                if build is not None and not hs[out['k']].get('symbolic_only'):
                    for f in _replays(prop, a.tier, hs[out['k']], out, is_known):
                        f2 = replayer.submit(_replay, build, f)
                        f2.harness = out['name']
                        waiting.append(f2)
            if any(f.done() and not f.exception() and confirmed(f) for f in waiting):
                stopped = True
                pool.terminate()
                break
    if stopped:
        for f in waiting:
            f.cancel()
        waiting = [f for f in waiting if f.done() and not f.cancelled()]
    for f in waiting:
        try:
            for o, v, r in f.result():
                replay_jobs.append((o, v, r['job']))
                res.append(r)
        except RuntimeError as e:
            print('ERROR %s: %s' % (prop, e))
            return 3
    replayer.shutdown()
    outs.sort(key=lambda o: o['k'])
    stats = core.Stats()
    for o in outs:
        s = core.Stats()
        s.__dict__.update(o['stats'])
        stats.add(s)
        if o['error']:
            if o['error'].startswith('Unencodable'):
                undecided[o['name']] = o['error']
            else:
                errors.append('%s: %s' % (o['name'], o['error']))
            if os.environ.get('VERIF_VERBOSE'):
                print(o.get('trace'))
        elif not o['violations']:
            if o['obs'] == 0:
                errors.append('%s: no obligation reached' % o['name'])
            if o.get('vacuity') is False:
                errors.append('%s: vacuous: a perturbed obligation was not refuted' % o['name'])
        want = hs[o['k']].get('reach', ())
        miss = [t for t in want if t not in o['reached']]
        if miss and not o['violations'] and not o['error']:
            errors.append('%s: not reached: %s' % (o['name'], miss))

    valid_jobs = []
    for o in outs:
        h = hs[o['k']]
        if not h.get('symbolic_only') and h.get('validate', True) and not stopped:
            valid_jobs.append((o, {'check': prop, 'tier': a.tier, 'harness': h['name'], 'devs': o.get('devs', []), 'inputs': {}, 'seed': 'v%d' % seed}))
    viol, found, validated, nval = [], [], 0, 0
    samples = []
    own = [o for o in outs if hs[o['k']].get('symbolic_only')]
    for o in own:
        # these harnesses replay by themselves (o['replayed'])
        for v in o['violations']:
            if v.get('replayed'):
                viol.append({'harness': o['name'], 'labels': v['labels'], 'detail': v['detail'], 'replay': v['replayed']})
            else:
                errors.append('%s: counterexample did not reproduce: %s' % (o['name'], v['labels'][:3]))
    if build is not None:
        try:
            root = build.get()
        except RuntimeError as e:
            print('ERROR %s: %s' % (prop, e))
            return 3
        jobs = [j for _, j in valid_jobs]
        n = min(6, max(1, len(jobs)))
        chunks = [jobs[i::n] for i in range(n)]
        vres = [None] * len(jobs)
        with ThreadPoolExecutor(n) as ex:
            for i, rs in enumerate(ex.map(lambda c: concrete_jobs(root, c), chunks)):
                for j, r in enumerate(rs):
                    vres[i + j * n] = r
        state = {}
        for (o, v, job), r in zip(replay_jobs, res):
            key = (o['name'], id(v))
            st = state.setdefault(key, {'o': o, 'v': v, 'hit': {}, 'err': None, 'inputs': None})
            if r['status'] == 'error':
                st['err'] = r['error']
            for g, txt in r['violated'].items():
                if g not in st['hit']:
                    st['hit'][g] = (txt, r.get('inputs') or job['inputs'])
        for key, st in state.items():
            o, v = st['o'], st['v']
            groups = sorted(set(_group(l) for l in v['labels']))
            if v.get('recorded'):
                if st['hit']:
                    found += [devs[d] for d in o['devs']]
                else:
                    errors.append('%s: the recorded defect %s did not reproduce on the real build' % (o['name'], o['devs']))
                continue
            unk = [g for g in st['hit'] if not is_known(o['name'], g)]
            for g in groups:
                k = is_known(o['name'], g)
                if k and (g in st['hit'] or k.get('symbolic')):
                    found.append(k)
            if unk:
                g = unk[0]
                viol.append({'harness': o['name'], 'labels': v['labels'][:20], 'detail': v['detail'], 'replay': {
                    'group': g, 'observed': st['hit'][g][0], 'inputs': st['hit'][g][1], 'all': {x: st['hit'][x][0] for x in unk}}})
            else:
                left = [g for g in groups if not is_known(o['name'], g)]
                if left and not (set(left) & set(st['hit'])) and v.get('soft'):
                    undecided[o['name']] = 'the encoding does not settle %s (no input found that shows it on the real build)' % v['labels'][0]
                elif left and not (set(left) & set(st['hit'])):
                    errors.append('%s: counterexample on %s did not reproduce on the real build (%s)' % (
                        o['name'], left[:4], (st['err'] or 'holds there')[-400:]))
        done = set((x['harness']) for x in viol)
        for (o, job), r in zip(valid_jobs, vres):
            nval += 1
            if r['status'] == 'error':
                errors.append('%s: validation run failed: %s' % (o['name'], r['error'][-1500:]))
                continue
            unk = [g for g in r['violated'] if not is_known(o['name'], g)]
            for g in r['violated']:
                k = is_known(o['name'], g)
                if k:
                    found.append(k)
            if unk and o['name'] not in done:
                viol.append({'harness': o['name'], 'labels': unk, 'detail': ['the real build breaks the property at the validation point'],
                             'replay': {'group': unk[0], 'observed': r['violated'][unk[0]], 'inputs': r.get('inputs')}})
            elif not unk:
                validated += 1
            if len(samples) < 3 and r.get('inputs'):
                samples.append({'harness': o['name'], 'inputs': {k: round(x, 6) if isinstance(x, float) else x
                                                                 for k, x in list(r['inputs'].items())[:12]},
                                'obligations compared': r.get('obligations')})
    for k in {json.dumps(k, sort_keys=True): k for k in found}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    nobs = stats.obligations
    cov = {
        'explanation': mod.EXPLANATION,
        'functions_encoded': sorted(set(getattr(mod, 'FUNCTIONS', []))),
        'modules_encoded': sorted(os.path.relpath(p, REPO) for p in loader.sources),
        'bounds': getattr(mod, 'BOUNDS', ''),
        'outside_the_bounds': getattr(mod, 'OUTSIDE', ''),
        'harnesses': [{'name': o['name'], 'paths': o['paths'], 'obligations': o['obs'], 'seconds': round(o['time'], 2),
                       'vacuity_witness': o.get('vacuity'), 'result': 'error' if o['error'] else 'violated' if o['violations'] else 'unsat (holds)'}
                      for o in outs],
        'paths': stats.paths,
        'obligations': nobs,
        'discharged': nobs - sum(len(v['labels']) for o in outs for v in o['violations']),
        'smt_queries': stats.queries,
        'smt_unsat': stats.unsat, 'smt_sat': stats.sat, 'smt_unknown': stats.unknown,
        'smt_seconds': round(stats.time, 2),
        'monomials_in_queries': stats.monomials,
        'validation_runs_on_real_build': nval,
        'validation_runs_agreeing': validated,
        'undecided': undecided,
        'samples': samples,
        'solver': _solver_version(),
    }
    ev = {'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': mod.LEVEL,
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2),
          'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for e in errors:
        print('ERROR %s: %s' % (prop, e))
    if viol:
        rp = os.path.join(VERIF, 'evidence', prop + '.replay.json')
        with open(rp, 'w') as fh:
            json.dump(viol, fh, indent=1, default=str)
        for v in viol[:8]:
            print('  violated in %s: %s' % (v['harness'], ', '.join(v['labels'][:4])))
            for d in v['detail'][:1]:
                print('    ' + d[:600])
            if isinstance(v['replay'], dict):
                print('    replayed: ' + str(v['replay'].get('observed'))[:300])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    # A harness whose code the encoding has no meaning for is named and left undecided; the verdict then covers the others.
    for n, e in undecided.items():
        print('UNDECIDED %s: %s: %s' % (prop, n, e))
    if stopped:
        errors.append('stopped without a violation')
    if errors or len(undecided) * 2 > len(outs):
        return 3
    print('%s: held; %d harnesses, %d paths, %d obligations, %d SMT queries (%.1fs), %d/%d validation runs on the real build, %.1fs' % (
        prop, len(outs), stats.paths, nobs, stats.queries, stats.time, validated, nval, time.time() - t0))
    return 0


def _solver_version():
    import z3
    return 'z3 ' + z3.get_version_string()


if __name__ == '__main__':
    main()
