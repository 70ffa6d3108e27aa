"""Replays a recorded counterexample on the real package (exit 1: it fails)."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main(path):
    d = json.load(open(path))
    from symx import harness, realpkg
    try:
        pkg = realpkg.load(stub=bool(d.get('stub')))
    except Exception as e:
        print('FAILS: the package does not import: %r' % (e,))
        return 1
    mod = importlib.import_module(d['module'])
    if d.get('custom'):
        return mod.replay_custom(pkg, d)
    fn = harness.HARNESSES[d['harness']]
    (st, label, detail, ctx) = harness.run_concrete(pkg, fn, d['params'], d['inputs'], 15)
    for line in ctx.log: print('  ' + line)
    if st in ('fail', 'hang', 'crash'):
        print('FAILS: %s\n%s' % (label, detail))
        return 1
    print('passes (%s)' % st)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
