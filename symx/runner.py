"""Explores the harnesses of one property, replays counterexamples, writes evidence."""
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPLAYS = os.path.join(ROOT, 'evidence', 'replays')
DEADLINE = {'quick': 560, 'thorough': 5400}      # seconds
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


from .runner_types import Job


_W = {}
def _init():
    import gc
    from . import sym, realpkg, harness
    sys.setrecursionlimit(3000)
    try:
        _W['sym'] = sym.load()
        _W['real'] = realpkg.load()
        _W['stubreal'] = None
        _W['err'] = None
    except BaseException:
        _W['err'] = traceback.format_exc()


_FUNCS = set()
def _watch(pkgname):
    """Record which of the library's functions are executed symbolically."""
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, 'symx')
    except ValueError:
        return
    from .sym import REPO
    base = os.path.join(REPO, 'pcollections') + os.sep
    def start(code, off):
        if code.co_flags & 1 and code.co_filename.startswith(base) and not code.co_name.startswith('<'):
            _FUNCS.add(code.co_filename[len(REPO) + 1:] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


def run_job(arg):
    (prop, idx, tier) = arg
    t0 = time.time()
    mod = importlib.import_module('props.' + prop.lower())
    job = mod.jobs(tier)[idx]
    out = {'job': job.name(), 'idx': idx, 'cands': [], 'unrepro': [], 'stats': {}, 'notes': {},
           'reached': {}, 'samples': [], 'validated': 0, 'unvalidated': 0, 'complete': False,
           'error': None, 'done': 0}
    if _W.get('err'):
        out['error'] = _W['err']; return out
    try:
        _run_job(job, mod, out)
    except BaseException:
        out['error'] = traceback.format_exc()
    out['wall'] = time.time() - t0
    out['funcs'] = sorted(_FUNCS)
    return out


def _run_job(job, mod, out):
    from . import core, symctx, harness, realpkg, sym
    fn = harness.HARNESSES[job.fn]
    real = _W['real']
    if job.stub:
        if _W['stubreal'] is None: _W['stubreal'] = realpkg.load(stub=True)
        real = _W['stubreal']
    _watch(None)
    if hasattr(mod, 'custom') and job.fn in mod.custom:
        mod.custom[job.fn](job, _W, out)
        return
    ex = core.Explorer(max_steps=job.steps)
    box = {}
    def body():
        ctx = symctx.Sym(_W['sym'], ex)
        box['ctx'] = ctx
        fn(ctx, **job.params)
    def model(ctx):
        soft = ctx.soft
        if soft:
            return ex.solve_inputs(soft)
        if ex.model is not None: return ex.model
        return ex.solve_inputs([])
    labels = set()
    def on_path(kind, label):
        ctx = box['ctx']
        for (k, v) in ctx.counts.items():
            out['reached'][k] = out['reached'].get(k, 0) + v
        if kind == 'infeasible': return False
        m = model(ctx)
        if m is None:
            if kind == 'unsupported': return False
            out['notes']['no model for a path'] = out['notes'].get('no model for a path', 0) + 1
            return False
        inputs = ctx.extract(m)
        (st, lab, detail, cctx) = harness.run_concrete(real, fn, job.params, inputs, job.hang)
        if kind == 'done':
            out['done'] += 1
            if st == 'ok': out['validated'] += 1
            elif st == 'skip': out['unvalidated'] += 1
            if len(out['samples']) < 1 and st == 'ok': out['samples'].append(inputs)
        elif kind == 'budget':
            if st in ('ok', 'skip'):
                out['notes']['step budget exceeded'] = \
                    out['notes'].get('step budget exceeded', 0) + 1
                ex.stats.inc('abandoned')
        elif kind == 'unsupported':
            # The path leaves what can be encoded: nothing is claimed about it, but its
            # model may fail.
            out['notes']['unsupported paths run on a model'] = \
                out['notes'].get('unsupported paths run on a model', 0) + 1
        elif st in ('ok', 'skip'):
            if len(out['unrepro']) < 5:
                info = ''
                if kind == 'crash' and ex.last_exc is not None:
                    info = ''.join(traceback.format_exception(ex.last_exc))[-1500:]
                out['unrepro'].append({'kind': kind, 'label': label, 'inputs': inputs,
                                       'info': info})
            ex.stats.inc('unreproduced')
        if st in ('fail', 'crash', 'hang'):
            key = (st, lab)
            ex.stats.inc('violating_paths')
            if key not in labels:
                labels.add(key)
                out['cands'].append({'status': st, 'label': lab, 'detail': detail,
                                     'inputs': inputs, 'symbolic': [kind, label],
                                     'log': cctx.log})
            if ex.stats['violating_paths'] >= 12 or st == 'hang': return True
        return False
    def guarded():
        with harness.alarm(25): body()
    out['complete'] = ex.run(guarded, on_path, time.time() + job.seconds, job.maxpaths)
    out['stats'] = dict(ex.stats)
    for (k, v) in ex.notes.items(): out['notes'][k] = out['notes'].get(k, 0) + v


def load_known():
    """Entries of known-findings.txt: (property, text to match)."""
    out = []
    f = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property='):
                rest = line[len('KNOWN-FINDING: property='):]
                (prop, _, text) = rest.partition(' ')
                (match, _, what) = text.partition(' :: ')
                out.append((prop, match, what))
    return out


def main(prop, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('props.' + prop.lower())
    jobs = mod.jobs(tier)
    idxs = [i for i in range(len(jobs)) if only is None or only in jobs[i].name()]
    idxs.sort(key=lambda i: -jobs[i].cost)      # longest first
    ctxm = multiprocessing.get_context('fork')
    results = []
    with ctxm.Pool(NPROC, initializer=_init) as pool:
        it = pool.imap_unordered(run_job, [(prop, i, tier) for i in idxs], chunksize=1)
        bad = 0
        while True:
            # a violation found early ends the run; so does the deadline
            left = (DEADLINE[tier] if bad < 3 else DEADLINE[tier] / 8) - (time.time() - t0)
            try: r = it.next(max(left, 0.01))
            except StopIteration: break
            except multiprocessing.TimeoutError:
                pool.terminate()
                break
            results.append(r)
            if r['cands']: bad += 1
            if os.environ.get('VERIF_VERBOSE'):
                print('  %-70s %6.1fs paths=%d val=%d %s%s%s' % (
                    r['job'][:70], r.get('wall', 0), r['stats'].get('paths', 0), r['validated'],
                    '' if r['complete'] else 'INCOMPLETE ',
                    ('CANDS=%r ' % [c['label'] for c in r['cands']]) if r['cands'] else '',
                    ('UNREPRO=%r ' % [(c['kind'], c['label']) for c in r['unrepro']])
                    if r['unrepro'] else ''), flush=True)
                if r['error']: print(r['error'], flush=True)
    results.sort(key=lambda r: r['idx'])
    os.makedirs(REPLAYS, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + '-'): os.unlink(os.path.join(REPLAYS, f))
    known = [k for k in load_known() if k[0] == prop]
    seen_known = {}
    nviol = 0
    confirmed = []
    unconfirmed = []
    for r in results:
        job = jobs[r['idx']]
        for c in r['cands']:
            tag = r['job'] + ': ' + str(c['label'])
            hit = [k for k in known if k[1] in tag]
            if hit:
                for k in hit: seen_known[k] = True
                continue
            if len(confirmed) >= 8: continue
            path = os.path.join(REPLAYS, '%s-%d.json' % (prop, len(confirmed) + len(unconfirmed)))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'module': 'props.' + prop.lower(), 'harness': job.fn,
                           'params': job.params, 'stub': job.stub, 'inputs': c['inputs'],
                           'label': c['label'], 'status': c['status'], 'detail': c['detail'],
                           'log': c['log'], 'custom': c.get('custom'),
                           'how': PY + ' ' + os.path.join(ROOT, 'replay.py') + ' ' + path},
                          f, indent=1, default=str)
            ok = confirm(path)
            if ok:
                confirmed.append((tag, path, c))
                print('VIOLATION property=%s replay=%s' % (prop, path))
                print('  %s\n  %s' % (tag, c['detail'].strip().replace('\n', '\n  ')[-1200:]))
            else:
                unconfirmed.append((tag, path))
    for k in known:
        if k in seen_known: print('KNOWN-FINDING: property=%s %s' % (prop, k[2] or k[1]))
    nviol = len(confirmed)
    tot = {}
    notes = {}
    reached = {}
    funcs = set()
    errors = []
    for r in results:
        for (k, v) in r['stats'].items(): tot[k] = tot.get(k, 0) + v
        for (k, v) in r['notes'].items(): notes[k] = notes.get(k, 0) + v
        for (k, v) in r['reached'].items(): reached[k] = reached.get(k, 0) + v
        funcs.update(r.get('funcs', ()))
        if r['error']: errors.append({'job': r['job'], 'error': r['error'][-2000:]})
    vacuous = [r['job'] for r in results if not r['error'] and r['done'] == 0 and not r['cands']
               and not r.get('notencoded')]
    samples = [{'job': r['job'], 'inputs': s} for r in results for s in r['samples']][:12]
    unrepro = [dict(u, job=r['job']) for r in results for u in r['unrepro']]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('branches', 0),
            'traces_validated_against_impl': sum(r['validated'] for r in results),
            'samples': samples,
            'exhaustive': len(results) == len(idxs) and all(r['complete'] for r in results),
            'meaning': getattr(mod, 'MEANING', 'states: symbolic paths explored; transitions: symbolic branches decided '
                       'by the solver; traces: paths whose solver model was run on the real '
                       'package and phamt with the same verdict'),
            'harness_configurations': len(results),
            'configurations_not_run': len(idxs) - len(results),
            'configurations_exhausted': sum(1 for r in results if r['complete']),
            'functions_encoded': sorted(funcs),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'solver_queries': tot.get('queries', 0),
            'solver_seconds': round(tot.get('solver_s', 0), 2),
            'solver_unknown': tot.get('unknown', 0),
            'assertions_decided': tot.get('checks', 0),
            'assertions_discharged': tot.get('discharged', 0),
            'reached': reached,
            'paths_abandoned': tot.get('abandoned', 0),
            'paths_pending_at_deadline': tot.get('pending', 0),
            'unreproduced_counterexamples': tot.get('unreproduced', 0),
            'notes': notes,
            'vacuous_configurations': vacuous,
            'configurations': [{'job': r['job'], 'paths': r['stats'].get('paths', 0),
                                'complete': r['complete'], 'wall_s': round(r.get('wall', 0), 1)}
                               for r in results],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', COMMON_ASSUMPTIONS),
        'wall_s': round(time.time() - t0, 1),
        'violations': nviol,
    }
    if unrepro: ev['coverage']['unreproduced'] = unrepro[:20]
    if errors: ev['coverage']['errors'] = errors
    if unconfirmed: ev['coverage']['unconfirmed'] = unconfirmed
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if len(results) < len(idxs):
        print('STOPPED with %d of %d configurations done' % (len(results), len(idxs)))
    print('%s %s: %d configurations (%d exhausted), %d paths, %d queries, %.1f s solver, '
          '%d validated concretely, %d violations, %d unreproduced, %d abandoned, %.1f s' % (
              prop, tier, len(results), sum(1 for r in results if r['complete']),
              tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_s', 0),
              sum(r['validated'] for r in results), nviol, tot.get('unreproduced', 0),
              tot.get('abandoned', 0), time.time() - t0))
    if nviol: return 1
    for u in unrepro[:5]:
        print('INCONCLUSIVE (did not reproduce): %s %s' % (u['job'], u['label']))
    for u in unconfirmed[:5]: print('INCONCLUSIVE (not confirmed): %s' % u[0])
    for e in errors[:3]: print('ERROR in %s\n%s' % (e['job'], e['error']))
    for v in vacuous[:5]: print('INCONCLUSIVE (no complete path): %s' % v)
    if len(errors) + len(vacuous) > len(results) // 2 or not results:
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    'phamt is replaced by an association list with its documented behaviour during symbolic '
    'execution; every explored path is run again with the real phamt on a solver model',
    "an element's __eq__ is an equivalence relation (so NaN is outside), its __hash__ agrees with "
    'it, and both are otherwise arbitrary',
]


def confirm(path):
    """Does the recorded counterexample fail in a fresh interpreter?"""
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([PY, os.path.join(ROOT, 'replay.py'), path], capture_output=True,
                           text=True, timeout=120, env=env, cwd=ROOT)
    except subprocess.TimeoutExpired:
        return True
    return p.returncode == 1
