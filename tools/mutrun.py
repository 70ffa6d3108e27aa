"""mutrun.py map OUT.json            which library functions each configuration executes
   mutrun.py run MAP.json FILE FN [SKIP]   the configurations that execute FN, cheapest first,
                                    until one reports a violation (against $VERIF_REPO)"""
import importlib
import json
import multiprocessing
import os
import sys
import time

if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import runner
PROPS = ['C%02d' % i for i in range(1, 22)]


def mapped(arg):
    runner._FUNCS.clear()
    try: sys.monitoring.restart_events()
    except ValueError: pass
    return arg, runner.run_job(arg)


def pool():
    return multiprocessing.get_context('fork').Pool(int(os.environ.get('VERIF_NPROC', runner.NPROC)),
                                                    initializer=runner._init)


def main():
    if sys.argv[1] == 'map':
        args = []
        for p in PROPS:
            mod = importlib.import_module('props.' + p.lower())
            js = mod.jobs('quick')
            args += sorted([(-js[i].cost, p, i) for i in range(len(js))])
        out = []
        with pool() as pl:
            for ((p, i, _t), r) in pl.imap_unordered(mapped, [(p, i, 'quick') for (_c, p, i) in args], chunksize=1):
                out.append({'p': p, 'i': i, 'name': r['job'], 'wall': r.get('wall', 0), 'funcs':
                            [f.replace('.<locals>', '') for f in r.get('funcs', ())]})
        json.dump(out, open(sys.argv[2], 'w'))
        print(len(out), 'configurations')
        return
    (mp, f, fn) = sys.argv[2:5]
    key = 'pcollections/%s:%s' % (f, fn)
    rows = [r for r in json.load(open(mp)) if any(x == key or key.startswith(x + '.') or x.startswith(key + '.')
                                                  for x in r['funcs'])]
    rows.sort(key=lambda r: r['wall'])
    at = {}
    for p in PROPS:
        for (i, j) in enumerate(importlib.import_module('props.' + p.lower()).jobs('quick')): at[p, j.name()] = i
    rows = [dict(r, i=at[r['p'], r['name']]) for r in rows if (r['p'], r['name']) in at]
    t0 = time.time()
    n = 0
    limit = float(os.environ.get('VERIF_LIMIT', '600'))
    res = 'SURVIVED'
    errs = 0
    if rows:
        with pool() as pl:
            it = pl.imap_unordered(runner.run_job, [(r['p'], r['i'], 'quick') for r in rows], chunksize=1)
            while True:
                try: r = it.next(max(0.01, limit - (time.time() - t0)))
                except StopIteration: break
                except multiprocessing.TimeoutError:
                    res = 'TIMEOUT'; break
                n += 1
                if r['error']: errs += 1
                if r['cands']:
                    res = 'KILLED %s %s' % (r['job'], r['cands'][0]['label']); break
            pl.terminate()
    else: res = 'UNCOVERED'
    print('%s [%d of %d configurations, %d errors, %.0f s]' % (res, n, len(rows), errs, time.time() - t0))


if __name__ == '__main__': main()
