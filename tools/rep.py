"""rep.py FILE: reads blocks from stdin: OLD\n====\nNEW\n####\n... each OLD must occur exactly once
(or N times with a first line '@N')."""
import sys
f = sys.argv[1]
s = open(f).read()
for blk in sys.stdin.read().rstrip("\n").split('\n####\n'):
    if not blk.strip(): continue
    old, new = blk.split('\n====\n')
    n = 1
    if old.startswith('@'):
        l, old = old.split('\n', 1); n = int(l[1:])
    assert s.count(old) == n, (s.count(old), old)
    s = s.replace(old, new)
open(f, 'w').write(s)
