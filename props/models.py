"""Collections with their reference models, for properties about histories.

A Model knows, for one family (list, set, dict) and one pair of kinds (persistent,
transient), how to build a collection with its reference, how to observe it, and a
small set of edits whose choice and operands belong to the solver.
"""
from .common import *


def cref(r):
    return list(r) if isinstance(r, list) else r.copy()


WIDES = (('spread', 'none'), ('shared', 'third'))

class Model:
    def __init__(self, ctx, pk):
        self.ctx = ctx; self.pk = pk
        self.tk = self.TK[pk]
        self.P = getattr(ctx.lib, pk); self.T = getattr(ctx.lib, self.tk)
        self.lazy = pk in ('llist', 'ldict')
        self.lazies = []           # (lazy object, value)
        self.computed = []
        self.orders = {}
        self.wide = False          # a larger collection, of distinct concrete items
        self.fresh_n = 0
    def fresh(self, name):
        """An item that may equal any other; in larger collections a new one."""
        if not self.wide: return self.ctx.elem(name)
        self.fresh_n += 1
        return self.ctx.distinct(7000 + self.fresh_n, h=7 * self.fresh_n)
    def pos(self, name, n):
        """A position below n; in larger collections one of the ends or the middle."""
        if n <= 9: return self.ctx.choice(name, n)
        return self.ctx.pick(name, [0, n // 2, n - 2, n - 1])
    def maybe_lazy(self, name, v):
        """v, or for the lazy kinds perhaps a lazy object that computes v."""
        if not self.lazy or not (self.wide if self.wide else self.ctx.bool(name + '.lazy')): return v
        i = len(self.lazies)
        def fn():
            self.computed.append(i)
            return v
        l = self.ctx.lib.lazy(fn)
        self.lazies.append((l, v))
        return l
    def plain(self, v):
        for (l, x) in self.lazies:
            if l is v: return x
        return v
    def untouched(self, label):
        """No lazy item has been computed."""
        self.ctx.check(not self.computed, label + ': computed lazy items',
                       lambda: repr(self.computed))


class ListModel(Model):
    TK = {'plist': 'tlist', 'llist': 'tllist'}
    family = 'list'
    def mk(self, n, name='p', window='sym'):
        if n > 8:
            self.wide = True
            els = [self.ctx.distinct(100 * (name != 'p') + i) for i in range(n)]
            els = [self.maybe_lazy('', e) if i % 3 == 1 else e for (i, e) in enumerate(els)]
            return (mk_plist(self.ctx, self.pk, els, name, (0, -1) if window == 'sym' else window), els)
        els = [self.maybe_lazy(f'{name}{i}', self.ctx.elem(f'{name}{i}')) for i in range(n)]
        return (mk_plist(self.ctx, self.pk, els, name, window), els)
    def observe(self, obj, ref, label, kind=None):
        """Contents, without computing lazies when kind is lazy and raw is given."""
        observe_list(self.ctx, obj, [self.plain(x) for x in ref], label, kind)
    def raw(self, obj, ref, label, kind=None):
        """Contents of a lazy collection without computing anything."""
        if not self.lazy: return self.observe(obj, ref, label, kind)
        ctx = self.ctx
        if kind is not None:
            ctx.check(type(obj).__name__ == kind, label + ': kind',
                      lambda: f'got a {type(obj).__name__}, expected a {kind}')
        ctx.check(len(obj) == len(ref), label + ': len')
        for (i, x) in enumerate(ref):
            ctx.check(ctx.same(obj.getlazy(i), x), label + ': raw item')
    PEDITS = ('append', 'prepend', 'set', 'delete', 'insert', 'extend', 'reverse', 'clear', 'drop',
              'pop', 'sort', 'mul')
    TEDITS = ('append', 'prepend', 'set', 'del', 'insert', 'extend', 'reverse', 'clear', 'pop',
              'imul', 'iadd', 'remove', 'sort')
    CORE = ('append', 'prepend', 'set', 'del', 'insert')
    def pedit(self, op, p, r, tag, x=None):
        """(outcome, reference) of one edit of a persistent collection."""
        ctx = self.ctx; n = len(r)
        x = self.fresh(tag + 'x') if x is None else x
        q = list(r)
        def at(extra=1): return self.pos(tag + 'i', n + extra)
        if op == 'append': q.append(x); return (ctx.attempt(lambda: p.append(x)), q)
        if op == 'prepend': q.insert(0, x); return (ctx.attempt(lambda: p.prepend(x)), q)
        if op == 'extend': q.extend([x, x]); return (ctx.attempt(lambda: p.extend([x, x])), q)
        if op == 'reverse': q.reverse(); return (ctx.attempt(lambda: p.reverse()), q)
        if op == 'clear': return (ctx.attempt(lambda: p.clear()), [])
        if op == 'mul': return (ctx.attempt(lambda: p * 2), q * 2)
        if op == 'sort':
            ctx.assume(not self.lazy)
            return (ctx.attempt(lambda: p.sort(key=lambda e: 0)), q)
        i = at()
        if op == 'insert': q.insert(i, x); return (ctx.attempt(lambda: p.insert(i, x)), q)
        if op == 'drop':
            if i < n: del q[i]
            return (ctx.attempt(lambda: p.drop(i)), q)
        if op == 'set':
            obs = ctx.attempt(lambda: p.set(i, x))
            if i < n: q[i] = x
            else: return (obs, 'IndexError')
            return (obs, q)
        if op == 'delete':
            obs = ctx.attempt(lambda: p.delete(i))
            if i < n: del q[i]
            else: return (obs, 'IndexError')
            return (obs, q)
        if op == 'pop':
            obs = ctx.attempt(lambda: p.pop(i)[1])
            if i < n: del q[i]
            else: return (obs, 'IndexError')
            return (obs, q)
        raise AssertionError(op)
    def tedit(self, op, t, r, tag, x=None):
        """One in-place edit of t and of its reference r."""
        ctx = self.ctx; n = len(r)
        x = self.fresh(tag + 'x') if x is None else x
        if op == 'append': t.append(x); r.append(x)
        elif op == 'prepend': t.prepend(x); r.insert(0, x)
        elif op == 'extend': t.extend([x, x]); r.extend([x, x])
        elif op == 'reverse':
            if self.lazies and self.wide: t.append(x); r.append(x)
            else: t.reverse(); r.reverse()
        elif op == 'clear': t.clear(); r.clear()
        elif op == 'imul':
            # repeating or popping an item reads it
            if self.lazies: t.append(x); r.append(x)
            else: t *= 2; r *= 2
        elif op == 'iadd': t += [x]; r += [x]
        elif op == 'remove':
            if self.lazy and n and r[0] is not self.plain(r[0]): del t[0]
            elif n: t.remove(r[0])
            if n: del r[0]
        elif op == 'sort':
            if self.lazies: t.append(x); r.append(x); return
            for q in (t, r):
                ks = iter(range(0, -n, -1))
                q.sort(key=lambda e: next(ks))
        else:
            i = self.pos(tag + 'i', n + 1)
            if op == 'insert': t.insert(i, x); r.insert(i, x)
            elif i >= n:
                f = {'set': lambda: t.__setitem__(i, x), 'del': lambda: t.__delitem__(i),
                     'pop': lambda: t.pop(i)}[op]
                ctx.check(ctx.attempt(f) == ('err', 'IndexError'), op + ' out of range')
            elif op == 'set': t[i] = x; r[i] = x
            elif op == 'del': del t[i]; del r[i]
            elif op == 'pop':
                if r[i] is not self.plain(r[i]): del t[i]
                else: t.pop(i)
                r.pop(i)
            else: raise AssertionError(op)


class SetModel(Model):
    TK = {'pset': 'tset'}
    family = 'set'
    def mk(self, n, name='s', how=None, window=None):
        if n > 8:
            self.wide = True
            (s, r, gone) = wide_set(self.ctx, self.pk, n, *self.ctx.pick(name + '.wide', WIDES))
            return (s, r)
        return mk_pset(self.ctx, n, name, how)
    def observe(self, obj, ref, label, kind=None): observe_set(self.ctx, obj, ref, label, kind)
    raw = observe
    PEDITS = ('add', 'discard', 'remove', 'clear', 'addall', 'discardall', 'or', 'sub', 'pop')
    TEDITS = ('add', 'discard', 'remove', 'clear', 'addall', 'discardall', 'ior', 'isub', 'ixor',
              'iand', 'pop', 'update', 'removeall')
    CORE = ('add', 'discard')
    def member(self, r, tag, x):
        """A member of r, or x."""
        i = self.pos(tag + 'm', len(r) + 1)
        return x if i == len(r) else r.els[i]
    def pedit(self, op, p, r, tag, x=None):
        ctx = self.ctx
        x = self.fresh(tag + 'x') if x is None else x
        q = r.copy()
        if op == 'clear': return (ctx.attempt(lambda: p.clear()), RSet(ctx))
        if op == 'pop':
            obs = ctx.attempt(lambda: p.pop())
            if not len(r): return (obs, 'KeyError')
            q.discard(obs[1][0])
            return (('ok', obs[1][1]), q)
        x = self.member(r, tag, x)
        if op == 'add': q.add(x); return (ctx.attempt(lambda: p.add(x)), q)
        if op == 'addall': q.add(x); return (ctx.attempt(lambda: p.addall([x])), q)
        if op == 'or': q.add(x); return (ctx.attempt(lambda: p | {x}), q)
        if op == 'remove' and not r.has(x): return (ctx.attempt(lambda: p.remove(x)), 'KeyError')
        q.discard(x)
        if op == 'sub': return (ctx.attempt(lambda: p - {x}), q)
        if op == 'discardall': return (ctx.attempt(lambda: p.discardall([x])), q)
        return (ctx.attempt(lambda: getattr(p, op)(x)), q)
    def tedit(self, op, t, r, tag, x=None):
        ctx = self.ctx
        x = self.fresh(tag + 'x') if x is None else x
        if op == 'clear': t.clear(); r.els = []; return
        if op == 'pop':
            if len(r): r.discard(t.pop())
            else: ctx.check(ctx.attempt(lambda: t.pop()) == ('err', 'KeyError'), 'pop of empty')
            return
        x = self.member(r, tag, x)
        if op in ('add', 'addall', 'ior', 'update'):
            if op == 'update': t.update([x])
            elif op == 'add': t.add(x)
            elif op == 'addall': t.addall([x])
            else: t |= {x}
            r.add(x)
        elif op == 'ixor':
            t ^= {x}
            if r.has(x): r.discard(x)
            else: r.add(x)
        elif op == 'iand':
            t &= {x}
            r.els = [e for e in r.els if bool(ctx.equal(e, x))]
        elif op in ('remove', 'removeall') and not r.has(x):
            f = (lambda: t.remove(x)) if op == 'remove' else (lambda: t.removeall([x]))
            ctx.check(ctx.attempt(f) == ('err', 'KeyError'), 'remove of missing')
        else:
            if op == 'removeall': t.removeall([x])
            elif op == 'discardall': t.discardall([x])
            elif op == 'isub': t -= {x}
            else: getattr(t, op)(x)
            r.discard(x)


class DictModel(Model):
    TK = {'pdict': 'tdict', 'ldict': 'tldict'}
    family = 'dict'
    def mk(self, n, name='d', how=None, window=None):
        if n > 8:
            self.wide = True
            (hashes, holes) = self.ctx.pick(name + '.wide', WIDES)
            els = wide_els(self.ctx, n, hashes)
            gone = wide_gone(n, holes)
            kv = [(e, self.maybe_lazy('', i) if i % 3 == 1 else i or None) for (i, e) in enumerate(els)]
            d = self.P(kv)
            for i in gone: d = d.drop(els[i])
            r = RDict(self.ctx)
            r.kv = [p for (i, p) in enumerate(kv) if i not in gone]
            return (d, r)
        ps = [(self.ctx.elem(f'{name}k{i}'),
               self.maybe_lazy(f'{name}v{i}', self.ctx.elem(f'{name}v{i}', special=True)))
              for i in range(n)]
        return mk_pdict(self.ctx, self.pk, n, name, how, ps)
    def observe(self, obj, ref, label, kind=None):
        r = RDict(self.ctx)
        r.kv = [(k, self.plain(v)) for (k, v) in ref.kv]
        observe_dict(self.ctx, obj, r, label, kind)
    def raw(self, obj, ref, label, kind=None):
        if not self.lazy: return self.observe(obj, ref, label, kind)
        ctx = self.ctx
        if kind is not None:
            ctx.check(type(obj).__name__ == kind, label + ': kind',
                      lambda: f'got a {type(obj).__name__}, expected a {kind}')
        ctx.check(len(obj) == len(ref), label + ': len')
        ctx.eq_seq(list(obj), ref.keys(), label + ': keys')
        for (k, v) in ref.kv:
            ctx.check(ctx.same(obj.getlazy(k, label), v), label + ': raw item')
    PEDITS = ('set', 'drop', 'delete', 'pop', 'popitem', 'setdefault', 'update', 'clear', 'dropall')
    TEDITS = ('set', 'del', 'pop', 'popitem', 'setdefault', 'update', 'clear')
    CORE = ('set', 'del')
    def key(self, r, tag, x):
        i = self.pos(tag + 'm', len(r) + 1)
        return x if i == len(r) else r.kv[i][0]
    def pedit(self, op, p, r, tag, x=None):
        ctx = self.ctx
        x = self.fresh(tag + 'x') if x is None else x
        q = r.copy()
        v = tag + 'new'
        if op == 'clear': return (ctx.attempt(lambda: p.clear()), RDict(ctx))
        if op == 'popitem':
            obs = ctx.attempt(lambda: p.popitem())
            if not len(r): return (obs, 'KeyError')
            q.drop(obs[1][0][0])
            return (('ok', obs[1][1]), q)
        k = self.key(r, tag, x)
        if op == 'set': q.set(k, v); return (ctx.attempt(lambda: p.set(k, v)), q)
        if op == 'update': q.set(k, v); return (ctx.attempt(lambda: p.update([(k, v)])), q)
        if op == 'setdefault':
            if not q.has(k): q.set(k, v)
            return (ctx.attempt(lambda: p.setdefault(k, v)), q)
        if op == 'drop': q.drop(k); return (ctx.attempt(lambda: p.drop(k)), q)
        if op == 'dropall': q.drop(k); return (ctx.attempt(lambda: p.dropall([k])), q)
        if op == 'delete':
            obs = ctx.attempt(lambda: p.delete(k))
            if not r.has(k): return (obs, 'KeyError')
            q.drop(k)
            return (obs, q)
        if op == 'pop':
            q.drop(k)
            return (ctx.attempt(lambda: p.pop(k, 0)[1]), q)
        raise AssertionError(op)
    def tedit(self, op, t, r, tag, x=None):
        ctx = self.ctx
        x = self.fresh(tag + 'x') if x is None else x
        v = tag + 'new'
        if op == 'clear': t.clear(); r.kv = []; return
        if op == 'popitem':
            if len(r) and self.lazies: del t[r.kv[0][0]]; r.kv.pop(0)
            elif len(r): r.drop(t.popitem()[0])
            else: ctx.check(ctx.attempt(lambda: t.popitem()) == ('err', 'KeyError'), 'popitem')
            return
        k = self.key(r, tag, x)
        if op == 'set': t[k] = v; r.set(k, v)
        elif op == 'update': t.update([(k, v)]); r.set(k, v)
        elif op == 'setdefault':
            if not (self.lazies and r.has(k)): t.setdefault(k, v)
            if not r.has(k): r.set(k, v)
        elif op == 'pop':
            if self.lazies and r.has(k): del t[k]
            else: t.pop(k, None)
            r.drop(k)
        elif op == 'del':
            if r.has(k): del t[k]; r.drop(k)
            else: ctx.check(ctx.attempt(lambda: t.__delitem__(k)) == ('err', 'KeyError'), 'del')
        else: raise AssertionError(op)


MODELS = {'plist': ListModel, 'llist': ListModel, 'pset': SetModel,
          'pdict': DictModel, 'ldict': DictModel}

def model(ctx, kind): return MODELS[kind](ctx, kind)
