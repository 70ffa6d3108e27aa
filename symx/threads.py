"""Interleavings of threads that share one object, as a satisfiability problem.

1. The package is imported from the current source with the attributes of the class
   under test and the locks it makes replaced by instrumented ones.
2. Each operation is executed to extract its tree of shared actions: reads, writes,
   acquires, releases, start and end of the user's function.  A read forks over every
   value any thread can have stored there (a fixpoint); so do try-locks and the
   function's outcomes.
3. N threads, each running a sequence of operations, are composed into a transition
   system whose schedule, memory, lock owners and outcomes are bit-vector variables,
   and unrolled to the length of the longest run.  Z3 decides each property for all
   schedules and outcomes at once.
4. A counterexample's schedule is run on real threads (passing a baton) against the
   same package.
"""
import functools
import sys
import threading
import time
import types

import z3


class Unsupported(Exception):
    pass


CTL = None      # the active controller


class Failure(Exception):
    """What the user's function raises."""
class BaseFailure(BaseException):
    pass


# ---------------------------------------------------------------------------
# Instrumentation

class Cell:
    """Stands in for an attribute of the class under test."""
    def __init__(self, cls, name, desc):
        self.cls = cls; self.name = name; self.desc = desc
    def raw(self, obj):
        if self.desc is not None: return self.desc.__get__(obj, type(obj))
        try: return obj.__dict__[self.name]
        except KeyError: raise AttributeError(self.name)
    def rawset(self, obj, v):
        if self.desc is not None: self.desc.__set__(obj, v)
        else: obj.__dict__[self.name] = v
    def __get__(self, obj, typ=None):
        if obj is None: return self
        if CTL is None or not CTL.active(obj): return self.raw(obj)
        return CTL.read(obj, self)
    def __set__(self, obj, v):
        if CTL is None or not CTL.active(obj): return self.rawset(obj, v)
        return CTL.write(obj, self, v)
    def __delete__(self, obj):
        if CTL is None or not CTL.active(obj):
            if self.desc is not None: return self.desc.__delete__(obj)
            del obj.__dict__[self.name]; return
        raise Unsupported('deletes an attribute')


class Lock:
    """A lock whose operations are shared actions."""
    kind = 'L'
    def __new__(cls):
        if isinstance(CTL, Extract): return CTL.newlock(cls)
        return object.__new__(cls)
    def __init__(self):
        self.owner = None; self.count = 0
    def acquire(self, blocking=True, timeout=-1):
        if timeout != -1: raise Unsupported('lock with a timeout')
        if CTL is None or not CTL.active(self):
            self.count += 1
            return True
        return CTL.acquire(self, blocking)
    def release(self):
        if CTL is None or not CTL.active(self):
            self.count -= 1
            return
        CTL.release(self)
    def locked(self): raise Unsupported('Lock.locked')
    __enter__ = acquire
    def __exit__(self, *a): self.release()

class RLock(Lock):
    kind = 'R'
    locked = None


def _fake_threading():
    m = types.ModuleType('threading')
    for k in dir(threading):
        if not k.startswith('__'): setattr(m, k, getattr(threading, k))
    m.RLock = RLock
    m.Lock = Lock
    m._RLock = RLock
    def no(*a, **kw): raise Unsupported('threading primitive')
    for k in ('Condition', 'Semaphore', 'BoundedSemaphore', 'Event', 'Barrier', 'local', 'Thread'):
        setattr(m, k, no)
    def ident():
        if CTL is not None and CTL.active(None): return CTL.ident()
        return threading.get_ident()
    m.get_ident = ident
    m.current_thread = no
    return m


def load():
    """The real package with instrumented locks and lazy attributes."""
    from . import realpkg
    old = sys.modules['threading']
    sys.modules['threading'] = _fake_threading()
    try: pkg = realpkg.load()
    finally: sys.modules['threading'] = old
    return pkg


def instrument(pkg, cls, make):
    """Replaces the attributes of cls, and of the package's helper classes its
    instances refer to, by Cells."""
    seen = set()
    def classes(c): return [k for k in c.__mro__ if k.__module__.startswith('pcollections')]
    todo = [make()]
    objs = set()
    while todo:
        o = todo.pop()
        if id(o) in objs: continue
        objs.add(id(o))
        if isinstance(o, (tuple, list)):
            todo.extend(o); continue
        if isinstance(o, (Lock, BaseException, type, types.FunctionType)): continue
        if not type(o).__module__.startswith('pcollections'): continue
        for c in classes(type(o)):
            sl = c.__dict__.get('__slots__', ())
            for s in ((sl,) if isinstance(sl, str) else sl):
                if s in ('__weakref__', '__dict__'): continue
                s = '_' + c.__name__.lstrip('_') + s if s.startswith('__') else s
                d = c.__dict__[s]
                if not isinstance(d, Cell):
                    d = Cell(c, s, d)
                    setattr(c, s, d)
                try: todo.append(d.raw(o))
                except AttributeError: pass
        for (k, v) in list(getattr(o, '__dict__', {}).items()):
            if not isinstance(getattr(type(o), k, None), Cell):
                setattr(type(o), k, Cell(type(o), k, None))
            todo.append(v)


def cells_of(obj):
    """(object, cell) for every instrumented attribute reachable from obj."""
    out = []; seen = {}
    todo = [obj]
    while todo:
        o = todo.pop(0)
        if id(o) in seen: continue
        seen[id(o)] = o
        if isinstance(o, (tuple,)): todo.extend(o); continue
        if isinstance(o, (list, dict, set, bytearray)): raise Unsupported('a shared %s' % type(o).__name__)
        if isinstance(o, (Lock, BaseException, type)): continue
        names = []
        for c in type(o).__mro__:
            for (k, d) in c.__dict__.items():
                if isinstance(d, Cell) and k not in names:
                    names.append(k)
                    try: v = d.raw(o)
                    except AttributeError: v = UNSET
                    out.append((o, d, v))
                    todo.append(v)
    return out


class _Unset:
    def __repr__(self): return '<unset>'
UNSET = _Unset()


class Restart(BaseException):
    """The extraction starts again, telling apart the positions of operations."""


class Res:
    """A result of the user's function."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name


# ---------------------------------------------------------------------------
# Extraction

class Extract:
    """Runs one operation on one thread with a script of choices."""
    MAXLEN = 60
    def __init__(self, model, t, nfn, script, j):
        self.m = model; self.t = t; self.nfn = nfn; self.script = script
        self.j = j; self.nnew = 0
        self.path = []          # (event, number of options, chosen)
        self.pos = 0
        self.left = set()
    def active(self, obj): return True
    def ident(self): return 1000 + self.t
    def choose(self, ev, options):
        i = self.script[self.pos] if self.pos < len(self.script) else 0
        self.pos += 1
        self.path.append((ev, options, i))
        if len(self.path) > self.MAXLEN: raise Unsupported('too many shared actions')
        return i
    def read(self, obj, cell):
        loc = self.m.loc(obj, cell)
        dom = self.m.domain[loc]
        if loc in self.left and self.m.init[loc] not in self.m.written[loc]:
            # it no longer has its first value, which is never stored again
            dom = [k for k in dom if k != self.m.init[loc]]
        i = self.choose(('read', loc), list(dom))
        if dom[i] != self.m.init[loc]: self.left.add(loc)
        v = self.m.objs[dom[i]]
        if v is UNSET: raise AttributeError(cell.name)
        return v
    def write(self, obj, cell, v):
        loc = self.m.loc(obj, cell)
        k = self.m.key(v)
        self.choose(('write', loc, k), [None])
        if k != self.m.init[loc]: self.left.add(loc)
        self.m.wrote(loc, k)
    def acquire(self, lock, blocking):
        l = self.m.lockid(lock)
        if blocking:
            self.choose(('acq', l), [None])
            return True
        return self.choose(('try', l), [False, True]) == 1
    def release(self, lock):
        self.choose(('rel', self.m.lockid(lock)), [None])
    def newlock(self, cls):
        """A lock made during the operation: one for each position where that happens."""
        if not self.m.dynamic:
            self.m.dynamic = True
            raise Restart()
        k = (cls, self.t, self.j, self.nnew)
        self.nnew += 1
        l = self.m.newlocks.get(k)
        if l is None: l = self.m.newlocks[k] = object.__new__(cls)
        return l
    def fn(self):
        self.choose(('start',), [None])
        n = self.nfn
        self.nfn += 1
        outs = self.m.outcomes
        i = self.choose(('end', n), list(outs))
        if outs[i] == 'exc': raise Failure()
        if outs[i] == 'base': raise BaseFailure()
        return self.m.result(self.t, n)


class Model:
    """The trees of shared actions of every operation of every thread."""
    def __init__(self, pkg, make, ops, programs, outcomes, result):
        """make(fn) makes the shared object; ops maps a name to a function of it;
        programs lists, for each thread, the names of its operations."""
        self.ops = ops; self.programs = programs; self.outcomes = outcomes
        self.result_kind = result
        self.obj = make(lambda: CTL.fn())
        self.objs = []; self.keys = {}
        self.locs = []; self.domain = []; self.init = []
        self.locks = []
        self.results = {}
        self.written = []
        self.changed = False
        self.dynamic = False; self.newlocks = {}
        self.excs = set()
        self.key(None)
        for (o, c, v) in cells_of(self.obj):
            self.locs.append((o, c))
            k = self.key(v, True)
            self.domain.append([k]); self.init.append(k)
            self.written.append(set())
        self.trees = {}
        self.nruns = 0
    def lockid(self, lock):
        for (i, l) in enumerate(self.locks):
            if l is lock: return i
        self.locks.append(lock)
        return len(self.locks) - 1
    def loc(self, obj, cell):
        for (i, (o, c)) in enumerate(self.locs):
            if o is obj and c.name == cell.name: return i
        raise Unsupported('an attribute of an object made during the operation')
    def key(self, v, known=False):
        """A number for the value."""
        for (i, o) in enumerate(self.objs):
            if o is v: return i
        if isinstance(v, (bool, int, str, float)):
            for (i, o) in enumerate(self.objs):
                if type(o) is type(v) and o == v: return i
        elif type(v) is tuple:
            ks = tuple(self.key(x, known) for x in v)
            for (i, o) in enumerate(self.objs):
                if type(o) is tuple and tuple(self.key(x) for x in o) == ks: return i
        elif type(v) is functools.partial:
            ks = self.parts(v, known)
            for (i, o) in enumerate(self.objs):
                if type(o) is functools.partial and self.parts(o, known) == ks: return i
        elif isinstance(v, Lock) or known: pass
        elif isinstance(v, BaseException):
            # one made during the operation; which one does not matter
            for (i, o) in enumerate(self.objs):
                if type(o) is type(v) and i in self.excs: return i
            self.excs.add(len(self.objs))
        elif isinstance(v, (type(None), Res, type(UNSET), types.FunctionType, type)): pass
        elif not known:
            raise Unsupported('stores a new %s' % type(v).__name__)
        self.objs.append(v)
        return len(self.objs) - 1
    def parts(self, v, known):
        return (self.key(v.func, known), tuple(self.key(x, known) for x in v.args),
                tuple((k, self.key(x, known)) for (k, x) in v.keywords.items()))
    def wrote(self, loc, k):
        if k not in self.written[loc]:
            self.written[loc].add(k); self.changed = True
        if k not in self.domain[loc]:
            self.domain[loc].append(k); self.changed = True
    def result(self, t, n):
        if self.result_kind == 'none': return None
        if self.result_kind == 'false': return False
        r = self.results.get((t, n))
        if r is None: r = self.results[(t, n)] = Res('result of thread %d, run %d' % (t, n))
        return r
    # -- trees
    def build(self):
        while True:
            self.changed = False
            self.trees = {}
            try:
                for (t, prog) in enumerate(self.programs):
                    front = {0}
                    for (j, op) in enumerate(prog):
                        nxt = set()
                        for n in front:
                            tree = self.tree(t, op, n, j)
                            nxt |= self.leaf_counts(tree)
                        front = nxt
            except Restart: continue
            if not self.changed: return
    def leaf_counts(self, tree):
        if tree[0] == 'leaf': return {tree[2]}
        out = set()
        for c in tree[2].values(): out |= self.leaf_counts(c)
        return out
    def tree(self, t, op, nfn, j):
        """('leaf', outcome, nfn, own) or ('node', event, {choice: tree})"""
        if not self.dynamic: j = None
        if (t, op, nfn, j) in self.trees: return self.trees[(t, op, nfn, j)]
        root = {}
        script = []
        while True:
            (path, leaf) = self.run(t, op, nfn, script, j)
            node = root
            for (ev, options, i) in path:
                node.setdefault('ev', ev)
                if node['ev'] != ev: raise Unsupported('an operation is not deterministic')
                node = node.setdefault('kids', {}).setdefault(options[i], {})
            node['leaf'] = leaf
            # the next script
            script = [p[2] for p in path]
            sizes = [len(p[1]) for p in path]
            while script and script[-1] + 1 >= sizes[len(script) - 1]: script.pop()
            if not script: break
            script[-1] += 1
        def fix(d):
            if 'ev' not in d: return ('leaf',) + d['leaf']
            return ('node', d['ev'], {k: fix(v) for (k, v) in d['kids'].items()})
        r = self.trees[(t, op, nfn, j)] = fix(root)
        return r
    def run(self, t, op, nfn, script, j):
        global CTL
        self.nruns += 1
        if self.nruns > 30000: raise Unsupported('too many paths')
        CTL = x = Extract(self, t, nfn, script, j)
        try:
            try: r = ('ret', self.ops[op](self.obj))
            except Unsupported: raise
            except (Exception, BaseFailure) as e: r = ('exc', type(e).__name__)
        finally:
            CTL = None
        own = [p[1][p[2]] for p in x.path if p[0][0] == 'end']
        if r[0] == 'ret':
            v = r[1]
            r = ('ret', self.key(v))
        return (x.path, (r, x.nfn, tuple(own)))


# ---------------------------------------------------------------------------
# Composition

class BMC:
    """Threads 0..N-1 interleave; the last one (the observer) starts when they are done."""
    def __init__(self, model, calls, tests):
        self.m = m = model
        self.calls = calls; self.tests = tests      # names of the two sorts of operation
        self.N = len(m.programs)
        self.nodes = []         # per thread: list of node dicts; pc 0 is done
        for t in range(self.N): self.nodes.append(self.flatten(t))
        self.K = sum(self.depth(t) for t in range(self.N))
        self.stats = {'queries': 0, 'solver_s': 0.0}
    def flatten(self, t):
        nodes = [None]
        memo = {}
        prog = self.m.programs[t]
        def root(j, n):
            """pc at which the j-th operation starts"""
            if j == len(prog): return 0
            if (j, n) not in memo:
                tree = self.m.tree(t, prog[j], n, j)
                if tree[0] == 'leaf': tree = ('node', ('nop',), {None: tree})
                memo[(j, n)] = add(tree, j, True)
            return memo[(j, n)]
        def add(tree, j, first):
            d = {'ev': tree[1], 'op': prog[j], 'j': j, 'first': first, 'kids': {}}
            nodes.append(d)
            pc = len(nodes) - 1
            for (c, sub) in tree[2].items():
                if sub[0] == 'leaf':
                    d['kids'][c] = (root(j + 1, sub[2]), (sub[1], sub[3]))
                else: d['kids'][c] = (add(sub, j, False), None)
            return pc
        start = root(0, 0)
        assert start == 1
        return nodes
    def depth(self, t):
        memo = {}
        def go(pc):
            if pc == 0: return 0
            if pc not in memo:
                memo[pc] = 1 + max(go(k) for (k, _) in self.nodes[t][pc]['kids'].values())
            return memo[pc]
        return go(1)
    def build(self):
        m = self.m; K = self.K; N = self.N
        W = max(4, max(len(n) for n in self.nodes).bit_length() + 1, len(m.objs).bit_length() + 1)
        BV = lambda name: z3.BitVec(name, W)
        V = lambda x: z3.BitVecVal(x, W)
        cons = []
        bad = {}
        def isbad(label, e): bad.setdefault(label, []).append(e)
        s = [BV('s%d' % k) for k in range(K)]
        out = [BV('o%d' % k) for k in range(K)]      # outcome of a function at step k
        pc = [[BV('pc%d_%d' % (t, k)) for k in range(K + 1)] for t in range(N)]
        mem = [[BV('m%d_%d' % (l, k)) for k in range(K + 1)] for l in range(len(m.locs))]
        own = [[BV('w%d_%d' % (l, k)) for k in range(K + 1)] for l in range(len(m.locks))]  # 0 free, t+1
        cnt = [[BV('c%d_%d' % (l, k)) for k in range(K + 1)] for l in range(len(m.locks))]
        succ = [z3.Bool('succ_%d' % k) for k in range(K + 1)]
        res = [BV('res_%d' % k) for k in range(K + 1)]
        known = [z3.Bool('known_%d' % k) for k in range(K + 1)]   # some operation showed it cached
        snap = [[z3.Bool('snap%d_%d' % (t, k)) for k in range(K + 1)] for t in range(N)]
        for t in range(N): cons.append(pc[t][0] == 1)
        for l in range(len(m.locs)): cons.append(mem[l][0] == V(m.init[l]))
        for l in range(len(m.locks)): cons += [own[l][0] == 0, cnt[l][0] == 0]
        cons += [z3.Not(succ[0]), res[0] == 0, z3.Not(known[0])]
        for t in range(N): cons.append(z3.Not(snap[t][0]))
        for k in range(K):
            enabled = []
            for t in range(N):
                blocked = []
                for (p, d) in enumerate(self.nodes[t]):
                    if d is not None and d['ev'][0] == 'acq':
                        l = d['ev'][1]
                        held = own[l][k] != 0
                        if m.locks[l].kind == 'R': held = z3.And(held, own[l][k] != t + 1)
                        blocked.append(z3.And(pc[t][k] == p, held))
                e = [pc[t][k] != 0] + [z3.Not(b) for b in blocked]
                if t == N - 1: e += [pc[u][k] == 0 for u in range(N - 1)]
                enabled.append(z3.And(e))
            some = z3.Or(enabled)
            alldone = z3.And([pc[t][k] == 0 for t in range(N)])
            isbad('no thread can go on (a lock is never released)', z3.And(z3.Not(some), z3.Not(alldone)))
            cons.append(z3.Or([z3.And(s[k] == t, enabled[t]) for t in range(N)] +
                              [z3.And(s[k] == N, z3.Not(some))]))
            memw = {l: [] for l in range(len(m.locs))}
            ownw = {l: [] for l in range(len(m.locks))}
            sw = []; kw = []; snw = {t: [] for t in range(N)}
            for t in range(N):
                cons.append(z3.Implies(s[k] != t, pc[t][k + 1] == pc[t][k]))
                cons.append(z3.Implies(s[k] != t, snap[t][k + 1] == snap[t][k]))
                for (p, d) in enumerate(self.nodes[t]):
                    if d is None: continue
                    fire = z3.And(s[k] == t, pc[t][k] == p)
                    ev = d['ev']
                    if d['first']: cons.append(z3.Implies(fire, snap[t][k + 1] == known[k]))
                    else: cons.append(z3.Implies(fire, snap[t][k + 1] == snap[t][k]))
                    legal = []
                    for (c, (nxt, leaf)) in d['kids'].items():
                        f = fire
                        if ev[0] == 'read': f = z3.And(fire, mem[ev[1]][k] == V(c))
                        elif ev[0] == 'try':
                            free = own[ev[1]][k] == 0
                            if m.locks[ev[1]].kind == 'R': free = z3.Or(free, own[ev[1]][k] == t + 1)
                            f = z3.And(fire, free if c else z3.Not(free))
                            if c:
                                ownw[ev[1]].append(f)
                                cons.append(z3.Implies(f, z3.And(own[ev[1]][k + 1] == t + 1,
                                                                 cnt[ev[1]][k + 1] == cnt[ev[1]][k] + 1)))
                        elif ev[0] == 'end':
                            i = m.outcomes.index(c)
                            f = z3.And(fire, out[k] == i)
                            if c == 'ok':
                                isbad('the function completed twice', z3.And(f, succ[k]))
                                r = m.key(m.result(t, ev[1]))
                                sw.append(f)
                                cons.append(z3.Implies(f, z3.And(
                                    succ[k + 1], res[k + 1] == z3.If(succ[k], res[k], V(r)))))
                        legal.append(f)
                        cons.append(z3.Implies(f, pc[t][k + 1] == nxt))
                        if leaf is not None:
                            (o, owns) = leaf
                            after = k + 1
                            if d['op'] in self.calls:
                                if o[0] == 'ret':
                                    if owns and owns[-1] != 'ok':
                                        isbad('a call returned though its function raised', f)
                                    isbad('a call returned something else than the result',
                                          z3.And(f, z3.Or(z3.Not(succ[after]), res[after] != V(o[1]))))
                                    kw.append(f)
                                    cons.append(z3.Implies(f, known[after]))
                                elif o[1] == 'LazyError':
                                    if not (owns and owns[-1] in ('exc', 'base')):
                                        isbad('LazyError though the call\'s own function did not raise', f)
                                elif not (o[1] == 'BaseFailure' and owns and owns[-1] == 'base'):
                                    isbad('a call raised %s' % o[1], f)
                            else:
                                v = m.objs[o[1]] if o[0] == 'ret' else None
                                if v is True:
                                    isbad('is_ready() is True but there is no result',
                                          z3.And(f, z3.Not(succ[after])))
                                    kw.append(f)
                                    cons.append(z3.Implies(f, known[after]))
                                elif v is False:
                                    isbad('is_ready() is False after the value was returned',
                                          z3.And(f, snap[t][after]))
                                else: isbad('is_ready() is neither True nor False', f)
                    cons.append(z3.Implies(fire, z3.Or(legal)))
                    if ev[0] == 'write':
                        memw[ev[1]].append(fire)
                        cons.append(z3.Implies(fire, mem[ev[1]][k + 1] == V(ev[2])))
                    elif ev[0] == 'acq':
                        l = ev[1]
                        ownw[l].append(fire)
                        cons.append(z3.Implies(fire, z3.And(own[l][k + 1] == t + 1,
                                                            cnt[l][k + 1] == cnt[l][k] + 1)))
                    elif ev[0] == 'rel':
                        l = ev[1]
                        ownw[l].append(fire)
                        held = own[l][k] == t + 1 if m.locks[l].kind == 'R' else own[l][k] != 0
                        isbad('a lock is released that is not held', z3.And(fire, z3.Not(held)))
                        cons.append(z3.Implies(fire, z3.And(
                            cnt[l][k + 1] == cnt[l][k] - 1,
                            own[l][k + 1] == z3.If(cnt[l][k] == 1, V(0), own[l][k]))))
                    elif ev[0] == 'start':
                        isbad('the function is called again after it completed', z3.And(fire, succ[k]))
            for l in memw:
                cons.append(z3.Implies(z3.Not(z3.Or(memw[l])), mem[l][k + 1] == mem[l][k]))
            for l in ownw:
                cons.append(z3.Implies(z3.Not(z3.Or(ownw[l])), z3.And(
                    own[l][k + 1] == own[l][k], cnt[l][k + 1] == cnt[l][k])))
            cons.append(z3.Implies(z3.Not(z3.Or(sw)), z3.And(succ[k + 1] == succ[k], res[k + 1] == res[k])))
            cons.append(z3.Implies(z3.Not(z3.Or(kw)), known[k + 1] == known[k]))
            cons.append(z3.ULT(out[k], len(m.outcomes)))
        done = z3.And([pc[t][K] == 0 for t in range(N)])
        for l in range(len(m.locks)):
            isbad('a lock is still held at the end', z3.And(done, own[l][K] != 0))
        isbad('an operation does not end', z3.And(
            z3.Not(done), z3.Not(z3.Or(bad['no thread can go on (a lock is never released)']))))
        self.vars = (s, out, pc, succ, done)
        self.cons = cons; self.bad = bad
        self.solver = z3.SolverFor('QF_BV')
        self.solver.add(cons)
    def ask(self, e, seconds):
        """A schedule for which e holds: list of (thread, event, outcome); None; or 'unknown'."""
        self.solver.push()
        self.solver.add(e)
        self.solver.set('timeout', max(1000, int(seconds * 1000)))
        t0 = time.time()
        r = self.solver.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        if r == z3.sat:
            mo = self.solver.model()
            (s, out, pc, _, _) = self.vars
            tr = []
            ev = lambda x: mo.eval(x, model_completion=True).as_long()
            for k in range(self.K):
                t = ev(s[k])
                if t >= self.N: break
                p = ev(pc[t][k])
                e = self.nodes[t][p]['ev']
                tr.append([t, list(e), self.m.outcomes[ev(out[k])] if e[0] == 'end' else None])
            self.solver.pop()
            return tr
        self.solver.pop()
        return None if r == z3.unsat else 'unknown'


# ---------------------------------------------------------------------------
# Replay on real threads

class Baton:
    """Runs real threads so that shared actions happen in a given order."""
    LIMIT = 20
    def __init__(self, programs, ops, calls, schedule, result):
        self.programs = programs; self.ops = ops; self.calls = calls
        self.result_kind = result
        self.N = len(programs)
        self.tids = {}
        self.cv = threading.Condition()
        self.sched = list(schedule)
        self.pos = 0
        self.waiting = {}       # thread -> event it is about to do
        self.doneset = set()
        self.grant = None
        self.abort = False
        self.succ = 0; self.res = UNSET; self.known = False
        self.bad = []
        self.trace = []
        self.nfn = [0] * self.N
        self.locks = []
    class Abort(BaseException): pass
    def active(self, obj): return threading.get_ident() in self.tids
    def me(self): return self.tids[threading.get_ident()]
    def ident(self): return 1000 + self.me()
    def step(self, ev, lock=None):
        """Wait for the baton, then return; the caller performs the action."""
        t = self.me()
        with self.cv:
            self.waiting[t] = (ev, lock)
            self.cv.notify_all()
            while self.grant != t:
                if self.abort: raise Baton.Abort()
                self.cv.wait(self.LIMIT)
            self.grant = None
            del self.waiting[t]
            self.trace.append((t, ev))
    def read(self, obj, cell):
        self.step('read ' + cell.name)
        return cell.raw(obj)
    def write(self, obj, cell, v):
        self.step('write ' + cell.name)
        cell.rawset(obj, v)
    def can(self, lock, t):
        return lock.owner is None or (lock.kind == 'R' and lock.owner == t)
    def acquire(self, lock, blocking):
        if lock not in self.locks: self.locks.append(lock)
        self.step('acquire' if blocking else 'try', lock if blocking else None)
        t = self.me()
        if not self.can(lock, t): return False
        lock.owner = t; lock.count += 1
        return True
    def release(self, lock):
        self.step('release')
        t = self.me()
        if lock.owner is None or (lock.kind == 'R' and lock.owner != t):
            self.bad.append('a lock is released that is not held')
            raise RuntimeError('cannot release un-acquired lock')
        lock.count -= 1
        if lock.count == 0: lock.owner = None
    def fn(self):
        t = self.me()
        self.step('start')
        if self.succ: self.bad.append('the function is called again after it completed')
        n = self.nfn[t]
        self.nfn[t] += 1
        self.step('end')
        o = self.outcome or 'ok'
        self.ownout[t].append(o)
        if o == 'exc': raise Failure()
        if o == 'base': raise BaseFailure()
        v = None if self.result_kind == 'none' else False if self.result_kind == 'false' else \
            Res('result of thread %d, run %d' % (t, n))
        if self.succ: self.bad.append('the function completed twice')
        else: self.res = v
        self.succ += 1
        return v
    def thread(self, t):
        self.tids[threading.get_ident()] = t
        with self.cv: self.cv.notify_all()
        try:
            for op in self.programs[t]:
                self.ownout[t] = []
                self.snap = dict(self.snap)
                self.snap[t] = None
                first = self.known_now(t)
                r = None
                try: r = ('ret', self.ops[op](self.obj))
                except Baton.Abort: raise
                except (Exception, BaseFailure) as e: r = ('exc', type(e).__name__)
                self.judge(t, op, r)
        except Baton.Abort: pass
        finally:
            with self.cv:
                self.doneset.add(t)
                self.cv.notify_all()
    def known_now(self, t): return None
    def judge(self, t, op, r):
        owns = self.ownout[t]
        self.log.append((t, op, r))
        if op in self.calls:
            if r[0] == 'ret':
                if owns and owns[-1] != 'ok': self.bad.append('a call returned though its function raised')
                if not self.succ or r[1] is not self.res:
                    self.bad.append('a call returned something else than the result')
                self.known = True
            elif r[1] == 'LazyError':
                if not (owns and owns[-1] in ('exc', 'base')):
                    self.bad.append('LazyError though the call\'s own function did not raise')
            elif not (r[1] == 'BaseFailure' and owns and owns[-1] == 'base'):
                self.bad.append('a call raised %s' % r[1])
        elif r == ('ret', True):
            if not self.succ: self.bad.append('is_ready() is True but there is no result')
            self.known = True
        elif r == ('ret', False):
            if self.snap.get(t): self.bad.append('is_ready() is False after the value was returned')
        else: self.bad.append('is_ready() is neither True nor False')
    def run(self, make):
        """The labels of what was violated."""
        global CTL
        self.snap = {}; self.ownout = {}; self.log = []; self.outcome = None
        self.obj = make(lambda: self.fn())
        CTL = self
        ths = [threading.Thread(target=self.thread, args=(t,), daemon=True) for t in range(self.N)]
        started = set()
        end = time.time() + self.LIMIT
        try:
            with self.cv:
                for th in ths[:-1]: th.start()
                def settled():
                    live = [t for t in range(self.N) if t not in self.doneset
                            and (t < self.N - 1 or self.N - 1 in started)]
                    return self.grant is None and all(t in self.waiting for t in live)
                while True:
                    while not settled():
                        if time.time() > end:
                            self.bad.append('a thread does not come back'); return self.bad
                        self.cv.wait(0.05)
                    if self.N - 1 not in started and len(self.doneset) == self.N - 1:
                        started.add(self.N - 1)
                        ths[-1].start()
                        continue
                    if len(self.doneset) == self.N: break
                    ready = [t for t in self.waiting if self.waiting[t][1] is None
                             or self.can(self.waiting[t][1], t)]
                    if not ready:
                        self.bad.append('no thread can go on (a lock is never released)')
                        break
                    t = None
                    while self.pos < len(self.sched) and t is None:
                        (u, _, o) = self.sched[self.pos]
                        self.pos += 1
                        if u in ready: (t, self.outcome) = (u, o)
                    if t is None: (t, self.outcome) = (ready[0], 'ok')
                    if self.snap.get(t, 0) is None: self.snap[t] = self.known
                    self.grant = t
                    self.cv.notify_all()
            if any(l.owner is not None for l in self.locks) and len(self.doneset) == self.N:
                self.bad.append('a lock is still held at the end')
            return self.bad
        finally:
            with self.cv:
                self.abort = True
                self.cv.notify_all()
            for th in ths:
                if th.ident is not None: th.join(2)
            CTL = None
