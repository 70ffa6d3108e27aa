"""Setup: compares the phamt stand-in with the real phamt on histories of operations,
and checks that the engine loads the library.  Not a check of any property."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from symx import realpkg, stubs

real = realpkg._phamt()
KEYS = (0, 1, -1, 2**62, -2**62, 31)


def outcome(f):
    try: return ('ok', f())
    except Exception as e: return ('err', type(e).__name__)


def look(x):
    return (len(x), list(x), [k in x for k in KEYS], [x.get(k, 'd') for k in KEYS],
            [outcome(lambda: x[k]) for k in KEYS], 'a' in x, outcome(lambda: x['a']),
            outcome(lambda: x.get('a')))


def persistent(mod, seq):
    p = mod.PHAMT.empty
    out = []
    for (op, k) in seq:
        q = p.assoc(k, ('v', k)) if op == 'a' else p.dissoc(k)
        out.append((q is p, look(q)))
        p = q
    out.append(outcome(lambda: p.assoc('a', 1))); out.append(outcome(lambda: p.dissoc('a')))
    return out


def transient(mod, seq):
    p = mod.PHAMT.from_iter('xyz', -1)
    t = mod.THAMT(p)
    out = []
    it = iter(t)
    next(it)
    for (op, k) in seq:
        if op == 'a': r = outcome(lambda: t.__setitem__(k, ('v', k)))
        elif op == 'd': r = outcome(lambda: t.__delitem__(k))
        elif op == 'p':
            q = t.persistent()
            r = (type(q).__name__, look(q), t.persistent() is q)
        else:
            it = iter(t)
            r = None
        out.append((r, look(t), outcome(lambda: next(it))))
    out.append(look(p))
    out.append(outcome(lambda: t.__setitem__('a', 1)))
    out.append(outcome(lambda: t.__delitem__('a')))
    return out


def main():
    n = 0
    ops = [(o, k) for o in 'ad' for k in KEYS[:4]]
    for seq in itertools.product(ops, repeat=3):
        assert persistent(real, seq) == persistent(stubs, seq), seq
        n += 1
    ops = [(o, k) for o in 'ad' for k in (0, -1, 2**62)] + [('p', 0), ('i', 0)]
    for seq in itertools.product(ops, repeat=3):
        (a, b) = (transient(real, seq), transient(stubs, seq))
        assert a == b, (seq, a, b)
        n += 1
    print('phamt stand-in: %d histories agree with phamt %s' % (n, getattr(real, '__version__', '')))
    import z3
    print('z3', z3.get_version_string())


if __name__ == '__main__':
    main()
