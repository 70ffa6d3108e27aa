"""C14 A lazy value is computed once and every caller gets that value."""
import time

from .common import *

TECHNIQUE = ('extraction of the shared actions of the library source by forking execution, then SMT '
             '(bit-vector) bounded model checking over all schedules and function outcomes')
BOUNDS = ('2-3 threads of 1-2 operations each (call, is_ready) on one lazy value, then one more thread '
          'that looks at it and calls it (3-4 threads and up to 3 operations thorough); every '
          'interleaving of attribute reads, writes, lock operations and start and end of the function; '
          'each run of the function returning, raising an Exception or raising another BaseException')
NOTE = ('interleavings are of whole attribute accesses and lock operations, which is what the '
        'interpreter guarantees; functions that call their own lazy value are outside')

MEANING = ('states: properties decided per configuration by one SMT query each over all schedules; '
           'traces: schedules from solver models run on real threads with the same verdict')
ASSUMPTIONS = [
    'one attribute access and one lock operation of the interpreter are atomic and sequentially '
    'consistent (CPython with its global lock)',
    "the user's function does not call its own lazy value, and may take any time",
]

W = 'c14'

@harness
def schedules(ctx, progs, result, outcomes): pass

@harness
def construct(ctx, kind):
    """The function is called with the arguments given, and gives the result."""
    a = ctx.elem('a', special=True); b = ctx.elem('b', special=True); r = ctx.elem('r', special=True)
    got = []
    def f(*args, **kw):
        got.append((args, kw))
        return r
    L = ctx.lib
    names = {'call': ('k',), 'unlazy': ('fn', 'cls')}[kind]
    kw = dict(zip(names, (b, a)))
    l = L.lazy(f, a, **kw)
    ctx.check(l.is_ready() is False and not got, 'not computed by construction')
    v = l() if kind == 'call' else L.unlazy(l)
    ctx.check(ctx.same(v, r), 'result')
    ctx.check(len(got) == 1 and len(got[0][0]) == 1 and list(got[0][1]) == list(kw), 'arguments')
    ctx.check(ctx.all_([ctx.same(got[0][0][0], a)] + [ctx.same(got[0][1][n], kw[n]) for n in names]),
              'argument values')
    ctx.check(l.is_ready() is True, 'ready')
    for w in (l(), L.unlazy(l)): ctx.check(ctx.same(w, r), 'result again')
    ctx.check(len(got) == 1, 'computed once')
    ctx.check(ctx.same(L.unlazy(a), a), 'unlazy of something else')
    x = ctx.attempt(lambda: L.lazy(7))
    ctx.check(x == ('err', 'TypeError'), 'lazy of something that is not callable')
    ctx.reached('constructed')


CALLS = ('call', 'unlazy')
TESTS = ('ready',)

def _ops(pkg):
    return {'call': lambda l: l(), 'unlazy': lambda l: pkg.unlazy(l), 'ready': lambda l: l.is_ready()}

_P = {}
def _pkg():
    from symx import threads
    if 'p' not in _P:
        p = threads.load()
        threads.instrument(p, p.lazy, lambda: p.lazy(lambda: 0))
        # attributes that appear once it has been computed
        l = p.lazy(lambda: 0); l()
        threads.instrument(p, p.lazy, lambda: l)
        _P['p'] = p
    return _P['p']


def explore(job, _W, out):
    from symx import threads
    pr = job.params
    t0 = time.time()
    pkg = _pkg()
    make = lambda fn: pkg.lazy(fn)
    progs = [p.split('+') for p in pr['progs'].split('|')] + [['ready', 'call', 'ready']]
    try:
        m = threads.Model(pkg, make, _ops(pkg), progs, pr['outcomes'].split('+'), pr['result'])
        m.build()
    except threads.Unsupported as e:
        out['notes']['not encoded: %s' % e] = 1
        out['notencoded'] = True
        return
    b = threads.BMC(m, CALLS, TESTS)
    b.build()
    out['stats'] = {'paths': 0, 'queries': 0, 'solver_s': 0, 'tree_runs': m.nruns, 'branches': sum(len(n) for n in b.nodes), 'steps': b.K,
                    'nodes': sum(len(n) for n in b.nodes)}
    complete = True
    def real(tr):
        bt = threads.Baton(progs, _ops(pkg), CALLS, tr, pr['result'])
        bad = bt.run(make)
        return (bad, bt)
    def data(tr): return {'progs': progs, 'result': pr['result'], 'schedule': tr}
    import z3
    (s, o, pc, succ, done) = b.vars
    for (label, es) in b.bad.items():
        tr = b.ask(z3.Or(es), job.seconds - (time.time() - t0))
        if tr == 'unknown': complete = False; out['notes']['solver gave up'] = 1; continue
        out['stats']['paths'] += 1
        if tr is None: continue
        (bad, bt) = real(tr)
        if bad:
            out['cands'].append({'status': 'fail', 'label': bad[0],
                                 'detail': _show(bt), 'inputs': {}, 'symbolic': ['bmc', label],
                                 'log': ['%d %s' % x for x in bt.trace], 'custom': data(tr)})
        else: out['unrepro'].append({'kind': 'bmc', 'label': label, 'inputs': tr, 'info': _show(bt)})
    # some runs that end well, on real threads
    wit = {'computed': z3.And(done, succ[b.K], z3.Not(succ[0])),
           'never computed': z3.And(done, z3.Not(succ[b.K])),
           'alternating': z3.And([done] + [s[k] != s[k + 1] for k in range(6)])}
    for (label, e) in wit.items():
        tr = b.ask(e, max(5, job.seconds - (time.time() - t0)))
        if tr is None or tr == 'unknown': continue
        out['reached'][label] = 1
        (bad, bt) = real(tr)
        if bad and not out['cands']:
            out['cands'].append({'status': 'fail', 'label': bad[0], 'detail': _show(bt), 'inputs': {},
                                 'symbolic': ['witness', label], 'custom': data(tr),
                                 'log': ['%d %s' % x for x in bt.trace]})
        out['validated'] += 1
        out['done'] += 1
        if not out['samples']: out['samples'].append({'schedule': [[x[0], x[1][0]] for x in tr]})
    out['stats']['queries'] = b.stats['queries']
    out['stats']['solver_s'] = b.stats['solver_s']
    out['complete'] = complete

def _show(bt):
    return ('; '.join(sorted(set(bt.bad))) + '\n'
            + '\n'.join('thread %d: %s -> %r' % x for x in bt.log) + '\nschedule: '
            + ', '.join('%d %s' % x for x in bt.trace))

def replay_custom(_pkgreal, d):
    from symx import threads
    c = d['custom']
    pkg = _pkg()
    bt = threads.Baton(c['progs'], _ops(pkg), CALLS, c['schedule'], c['result'])
    bad = bt.run(lambda fn: pkg.lazy(fn))
    if bad:
        print('FAILS: ' + _show(bt))
        return 1
    print('passes\n' + _show(bt))
    return 0

custom = {W + '.schedules': explore}


def jobs(tier):
    th = tier == 'thorough'
    J = []
    P = ['call|call', 'call|ready', 'call+call|call', 'call+call|call+call', 'call+ready|call',
         'ready+call|call+ready', 'ready+ready|call+call', 'call|call|call', 'unlazy|call+ready',
         'call|call|ready+ready']
    if th: P += ['call|call|call+call', 'call+call+call|call+call', 'call|call|call|ready',
                 'call+ready|call+ready|call', 'call|call|call|call', 'call+ready+call|ready+call+ready']
    O = ('ok+exc', 'ok+exc+base')
    for p in P:
        for r in ('obj', 'none') + (('false',) if th else ()):
            for o in O:
                J.append(Job(W + '.schedules', seconds=2400 if th else 300, cost=len(p), progs=p,
                             result=r, outcomes=o))
    for k in ('call', 'unlazy'): J.append(Job(W + '.construct', kind=k))
    return J
