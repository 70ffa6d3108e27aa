"""Writes the fixed: entries of known-findings.txt from /repo's fix commits."""
import subprocess
MAP = dict(l.split() for l in """dc5bebb C02
514112d C04
92cd3ad C07
1e6b28a C15
109f039 C16
56f17ab C15
7da45be C02
d0687b1 C02
268b2e9 C03
848b244 C03
4559bd6 C03
4d00722 C03
256402d C03
ea6f06b C01
a91ce6f C15
8312636 C15
5568524 C16
5e15e58 C15
509bf09 C13
e8098c4 C06
5701309 C06
6ad4666 C06
4661512 C06
cb30887 C06
d151227 C12
1122f91 C05
116d65c C09
add49f9 C07
5de9553 C15
d40dc2c C15
2ae69f1 C12
c857af5 C19
f7c694e C08
deebaba C07
a27dd1a C18
a5c6313 C10
501bb23 C18
1fec324 C04
4d969f8 C07
9ce7a8b C02
cd7eeb4 C09
cfb8454 C14""".splitlines())
log = subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','0c0649b..HEAD'],
                     capture_output=True, text=True).stdout
keep = []
try:
    keep = [l for l in open('/verif/known-findings.txt') if not l.startswith('fixed:')]
except FileNotFoundError: pass
out = []
for l in log.splitlines():
    (h, m) = l.split(' ', 1)
    if m.startswith('fix: '):
        out.append(f'fixed: property={MAP[h]} {h} {m[5:]}\n')
open('/verif/known-findings.txt','w').writelines(out + keep)
