"""C11 Transient and persistent conversions keep contents and independence."""
from .common import *
from .models import *

BOUNDS = ('collections of 0-2 symbolic elements of all five pairs of kinds, any list window, any '
          'pattern of equal elements and hashes, any mixture of lazy items; transients made and '
          'frozen in every public way, with up to two edits (three thorough) before, between and '
          'after the freezes; every ordered pair of kinds for constructor conversions'
          '; collections of 0-3 for one freeze, and of 12 and 36 distinct items')

W = 'c11'
KINDS = ('plist', 'llist', 'pset', 'pdict', 'ldict')
ALL = {'list': ('plist', 'tlist', 'llist', 'tllist'), 'set': ('pset', 'tset'),
       'dict': ('pdict', 'tdict', 'ldict', 'tldict')}


def thaw(ctx, m, p, how):
    return p.transient() if how == 'method' else m.T(p)

def freeze(ctx, m, t, how):
    return t.persistent() if how == 'method' else m.P(t)

def settle(ctx, m, held, label):
    for (i, (p, r, kind)) in enumerate(held): m.raw(p, r, f'{label}: collection {i}', kind)
    m.untouched(label)


@harness
def freezes(ctx, kind, n, make, op, how, depth=1):
    """Edits between freezes: every frozen copy has the contents of its moment."""
    m = model(ctx, kind)
    (p, r) = m.mk(n)
    held = [(p, r, m.pk)]
    t = thaw(ctx, m, p, make)
    tr = cref(r)
    held.append((freeze(ctx, m, t, how), cref(tr), m.pk))
    m.raw(t, tr, 'the transient', m.tk)
    x = m.fresh('x')
    m.tedit(op, t, tr, '', x)
    m.raw(t, tr, 'the transient after ' + op, m.tk)
    held.append((freeze(ctx, m, t, how), cref(tr), m.pk))
    held.append((freeze(ctx, m, t, 'method'), cref(tr), m.pk))
    settle(ctx, m, held, f'frozen after {op}')
    for j in range(depth):
        o2 = ctx.pick(f'op{j}', m.CORE)
        m.tedit(o2, t, tr, f'{j}', x)
        held.append((freeze(ctx, m, t, how), cref(tr), m.pk))
    m.tedit('clear', t, tr, 'z', x)
    settle(ctx, m, held, f'edited after {op} and freezing')
    held.append((freeze(ctx, m, t, how), cref(tr), m.pk))
    for (p, r, k) in held: m.observe(p, r, 'at the end', k)
    ctx.reached('freezes')


@harness
def once(ctx, kind, n, op, make, how):
    """One edit of any kind between thawing and freezing."""
    m = model(ctx, kind)
    (p, r) = m.mk(n)
    t = thaw(ctx, m, p, make)
    tr = cref(r)
    m.tedit(op, t, tr, '', m.fresh('x'))
    q = freeze(ctx, m, t, how)
    m.observe(q, tr, f'frozen after {op}', m.pk)
    m.observe(t, tr, f'the transient after {op}', m.tk)
    m.observe(p, r, f'the origin after {op}', m.pk)
    ctx.reached('once')


@harness
def forks(ctx, kind, n, split, edited, op):
    """Two transients with a common origin are independent."""
    m = model(ctx, kind)
    (p, r) = m.mk(n)
    t1 = p.transient()
    r1 = cref(r)
    x = m.fresh('x')
    if edited: m.tedit(m.CORE[0], t1, r1, 'e', x)
    if split == 'copy': t2 = t1.copy()
    elif split == 'ctor': t2 = m.T(t1)
    elif split == 'frozen': t2 = t1.persistent().transient()
    elif split == 'copy.copy':
        import copy
        t2 = copy.copy(t1)
        ctx.assume(not m.lazies)
    else:
        t2 = p.transient()
    r2 = cref(r1) if split != 'origin' else cref(r)
    m.raw(t2, r2, split, m.tk)
    ctx.check(t2 is not t1, split + ' gives another collection')
    if not m.lazies or split != 'copy.copy': m.untouched(split)
    m.tedit(op, t2, r2, '2', x)
    m.raw(t1, r1, f'{split}, {op} on the second: the first', m.tk)
    m.raw(t2, r2, f'{split}, {op} on the second: the second', m.tk)
    q2 = t2.persistent()
    f2 = cref(r2)
    o1 = ctx.pick('op1', m.CORE)
    m.tedit(o1, t1, r1, '1', x)
    q1 = t1.persistent()
    f1 = cref(r1)
    m.tedit('clear', t2, r2, 'c', x)
    for (a, b, w, k) in ((t1, r1, 'the first', m.tk), (t2, r2, 'the second', m.tk),
                         (q1, f1, 'frozen first', m.pk), (q2, f2, 'frozen second', m.pk),
                         (p, r, 'the origin', m.pk)):
        m.observe(a, b, f'{split}, {op}, {o1}: {w}', k)
    ctx.reached('forks')


def family(kind):
    return [f for f in ALL if kind in ALL[f]][0]

def lazy_kind(kind): return kind in ('llist', 'tllist', 'ldict', 'tldict')


@harness
def convert(ctx, src, dst, n):
    """The constructor of every kind from every other: contents, laziness, independence."""
    fam = family(src)
    sm = model(ctx, {'tlist': 'plist', 'tllist': 'llist', 'tset': 'pset', 'tdict': 'pdict',
                     'tldict': 'ldict'}.get(src, src))
    dm = model(ctx, {'tlist': 'plist', 'tllist': 'llist', 'tset': 'pset', 'tdict': 'pdict',
                     'tldict': 'ldict'}.get(dst, dst))
    (s, r) = sm.mk(n, window='sym') if fam == 'list' else sm.mk(n, how=ctx.pick('how', ['ctor', 'less']))
    if src[0] == 't':
        t = s.transient()
        if n <= 8 and ctx.bool('edited'):
            sm.tedit(sm.CORE[0], t, r, 'e', sm.fresh('x0'))
        s = t
    d = getattr(ctx.lib, dst)(s)
    both = lazy_kind(src) and lazy_kind(dst)
    if both:
        sm.untouched(f'{dst}({src})')
        dm.lazies = sm.lazies; dm.computed = sm.computed
        dr = cref(r)
        dm.raw(d, dr, f'{dst}({src})', dst)
        sm.untouched(f'{dst}({src})')
    else:
        dr = cref(r)
        if fam == 'list': dr = [sm.plain(x) for x in dr]
        elif fam == 'dict': dr.kv = [(k, sm.plain(v)) for (k, v) in dr.kv]
        dm.observe(d, dr, f'{dst}({src})', dst)
    if src[0] == 't':
        sm.tedit(sm.CORE[1] if n > 8 else ctx.pick('sop', sm.CORE[:4]), s, r, 's', sm.fresh('x'))
        dm.raw(d, dr, f'{dst}({src}) after the source changed', dst)
        sm.raw(s, r, 'the source after it changed', src)
    if dst[0] == 't':
        dm.tedit(dm.CORE[0] if n > 8 else ctx.pick('dop', dm.CORE[:4]), d, dr, 'd', dm.fresh('y'))
        sm.raw(s, r, f'the source after {dst}({src}) changed', src)
        dm.raw(d, dr, f'{dst}({src}) after it changed', dst)
        f = d.persistent()
        dm.raw(f, dr, f'{dst}({src}) frozen', dm.pk)
    ctx.reached('convert')


@harness
def iterating(ctx, kind, n):
    """An iteration over a frozen copy is not disturbed by edits of the transient."""
    m = model(ctx, kind)
    (p, r) = m.mk(n)
    t = p.transient()
    tr = cref(r)
    x = m.fresh('x')
    m.tedit(m.CORE[0], t, tr, '0', x)
    q = t.persistent()
    qr = cref(tr)
    it = iter(q)
    got = []
    if len(qr): got.append(next(it))
    m.tedit(ctx.pick('op', m.CORE), t, tr, '1', x)
    got += list(it)
    if m.family == 'list': ctx.same_seq(got, [m.plain(e) for e in qr], 'iteration')
    elif m.family == 'dict': ctx.eq_seq(got, qr.keys(), 'iteration')
    else: observe_set(ctx, q, RSet(ctx, got), 'iteration')


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for kind in KINDS:
        M = MODELS[kind]
        big = (lambda n: n == 2 and (M is not ListModel or kind == 'llist') and not th)
        for n in (2, 3):
            if n == 3 and (M is DictModel or kind == 'llist') and not th: continue
            for op in M.TEDITS:
                for (make, how) in (('method', 'method'), ('ctor', 'ctor')):
                    if make == 'ctor' and n == 3: continue
                    out.append(Job(W + '.once', kind=kind, n=n, op=op, make=make, how=how,
                                   cost=n, seconds=600 if th else 60))
        for n in (0, 1, 2):
            for op in M.TEDITS:
                for make in ('method', 'ctor'):
                    for how in ('method', 'ctor'):
                        if n == 2 and kind == 'ldict' and not th: continue
                        if big(n) and ((make, how) != ('method', 'ctor') or op not in M.CORE): continue
                        out.append(Job(W + '.freezes', kind=kind, n=n, make=make, op=op, how=how,
                                       depth=2 if th and n < 2 else 1, cost=n,
                                       seconds=600 if th else 60))
            for split in ('copy', 'ctor', 'frozen', 'origin', 'copy.copy'):
                for edited in (False, True):
                    for op in M.TEDITS if th else M.CORE:
                        if big(n) and (split != 'copy' or not edited or kind == 'ldict'): continue
                        out.append(Job(W + '.forks', kind=kind, n=n, split=split, edited=edited,
                                       op=op, cost=n, seconds=600 if th else 60))
            if kind == 'ldict' and n == 2 and not th: continue
            out.append(Job(W + '.iterating', kind=kind, n=n, cost=n))
        for n in (12, 36) if not th else (12, 36, 70):
            for op in M.TEDITS:
                out.append(Job(W + '.freezes', kind=kind, n=n, make='method', op=op, how='method',
                               cost=n / 9))
            for split in ('copy', 'ctor', 'frozen', 'origin'):
                out.append(Job(W + '.forks', kind=kind, n=n, split=split, edited=False,
                               op=M.CORE[0], cost=n / 9))
    for f in ALL:
        for a in ALL[f]:
            for b in ALL[f]:
                out.append(Job(W + '.convert', src=a, dst=b, n=24, cost=4))
    for f in ALL:
        for a in ALL[f]:
            for b in ALL[f]:
                for n in (0, 1) + ((2,) if th or f == 'list' and not lazy_kind(a) else ()):
                    out.append(Job(W + '.convert', src=a, dst=b, n=n, cost=n,
                                   seconds=600 if th else 60))
    return out
