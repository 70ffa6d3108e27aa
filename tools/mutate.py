"""mutate.py list OUT.json | guard OUT.json EXPR | filter IN.json OUT.json [WORKERS] | check IN.json OUT.json
Small changes of the library's syntax trees, to see which of them pass the repository's tests
and which of those the checks notice.  Works on scratch copies under /tmp/mut."""
import ast
import copy
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

SRC = os.environ.get('MUT_SRC', '/repo') + '/pcollections'
FILES = ['_list.py', '_set.py', '_dict.py', '_lazy.py', 'abc/_core.py', 'abc/_seq.py', 'abc/_set.py',
         'abc/_map.py', 'util/_core.py']
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is, ast.NotEq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add,
       ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.BitXor: ast.BitOr}


def variants(node):
    """(description, replacement) of one node."""
    N = ast
    c = copy.deepcopy
    if isinstance(node, N.Compare):
        for (i, op) in enumerate(node.ops):
            for o in CMP.get(type(op), ()):
                x = c(node); x.ops[i] = o()
                yield ('%s -> %s' % (type(op).__name__, o.__name__), x)
    elif isinstance(node, N.BinOp) and type(node.op) in BIN:
        x = c(node); x.op = BIN[type(node.op)]()
        yield ('%s -> %s' % (type(node.op).__name__, type(x.op).__name__), x)
    elif isinstance(node, N.AugAssign) and type(node.op) in BIN:
        x = c(node); x.op = BIN[type(node.op)]()
        yield ('aug', x)
    elif isinstance(node, N.BoolOp):
        x = c(node); x.op = N.Or() if isinstance(node.op, N.And) else N.And()
        yield ('and/or', x)
        for i in range(len(node.values)):
            if len(node.values) == 2: yield ('drop operand %d' % i, c(node.values[1 - i]))
    elif isinstance(node, N.Constant):
        v = node.value
        if type(v) is int:
            for w in {v + 1, v - 1, 0} - {v}: yield ('%r -> %r' % (v, w), N.Constant(w))
        elif type(v) is bool: yield ('bool', N.Constant(not v))
        elif v is None: yield ('None -> 0', N.Constant(0))
    elif isinstance(node, N.UnaryOp):
        if isinstance(node.op, (N.Not, N.USub)): yield ('drop ' + type(node.op).__name__, c(node.operand))
    elif isinstance(node, N.IfExp):
        yield ('ifexp body', c(node.body)); yield ('ifexp else', c(node.orelse))
    elif isinstance(node, N.Call):
        for i in range(len(node.args)):
            if len(node.args) > 1 or node.keywords:
                x = c(node); del x.args[i]
                yield ('drop argument %d' % i, x)
        for i in range(len(node.keywords)):
            x = c(node); del x.keywords[i]
            yield ('drop keyword', x)
        f = node.func.attr if isinstance(node.func, N.Attribute) else getattr(node.func, 'id', '')
        if f in ('persistent', 'transient', 'reversed', 'list', 'sorted', 'THAMT', 'iter', 'unlazy', 'set') :
            if node.args and isinstance(node.func, N.Name): yield ('drop call ' + f, c(node.args[0]))
            elif isinstance(node.func, N.Attribute) and not node.args: yield ('drop call ' + f, c(node.func.value))
        for i in range(len(node.args) - 1):
            x = c(node)
            (x.args[i], x.args[i + 1]) = (x.args[i + 1], x.args[i])
            yield ('swap arguments', x)
    elif isinstance(node, N.If):
        for v in (True, False):
            x = c(node); x.test = N.Constant(v)
            yield ('if %s' % v, x)
    elif isinstance(node, N.Tuple) and isinstance(node.ctx, N.Load) and len(node.elts) == 2:
        x = c(node); x.elts.reverse()
        yield ('swap tuple', x)
    elif isinstance(node, N.Return) and node.value is not None and not (
            isinstance(node.value, N.Name) and node.value.id == 'self'):
        yield ('return self', N.Return(N.Name('self', N.Load())))


class Replace(ast.NodeTransformer):
    def __init__(self, at, new): self.at = at; self.new = new; self.k = -1
    def visit(self, node):
        self.k += 1
        if self.k == self.at: return self.new
        return self.generic_visit(node)


def walk(tree):
    """Nodes in the order Replace counts them."""
    out = []
    class W(ast.NodeVisitor):
        def visit(self, node):
            out.append(node)
            self.generic_visit(node)
    W().visit(tree)
    return out


def bodies(node):
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(node, f, None)
        if isinstance(b, list): yield (f, b)


def mutants(f):
    src = open(os.path.join(SRC, f)).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    infn = {}
    def mark(n, name):
        for ch in ast.iter_child_nodes(n):
            nm = name
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)): nm = (name + '.' if name else '') + ch.name
            infn[id(ch)] = nm
            mark(ch, nm)
    mark(tree, '')
    for n in walk(tree): 
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): infn[id(n.value)] = None
        if isinstance(n, ast.Raise):
            for x in ast.walk(n): infn[id(x)] = None
        if isinstance(n, (ast.JoinedStr,)):
            for x in ast.walk(n): infn[id(x)] = None
    for (i, n) in enumerate(walk(tree)):
        fn = infn.get(id(n))
        if not fn: continue
        for (d, new) in variants(n):
            t = Replace(i, new).visit(copy.deepcopy(tree))
            ast.fix_missing_locations(t)
            try: s = ast.unparse(t)
            except Exception: continue
            if s != base: yield {'file': f, 'fn': fn, 'line': getattr(n, 'lineno', 0), 'what': d, 'src': s}
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.Try, ast.With)):
            for (fld, b) in bodies(n):
                for (j, st) in enumerate(b):
                    if infn.get(id(st)) is None and not isinstance(st, (ast.Expr, ast.Raise)): continue
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant): continue
                    if isinstance(st, (ast.FunctionDef, ast.ImportFrom)): continue
                    m = copy.deepcopy(n)
                    bb = getattr(m, fld)
                    if len(bb) == 1: bb[0] = ast.Pass()
                    else: del bb[j]
                    t = Replace(i, m).visit(copy.deepcopy(tree))
                    ast.fix_missing_locations(t)
                    s = ast.unparse(t)
                    yield {'file': f, 'fn': fn, 'line': st.lineno, 'what': 'delete ' + type(st).__name__, 'src': s}


def guarded(f, guard):
    """The same changes, in effect only when the guard holds at the start of the method."""
    src = open(os.path.join(SRC, f)).read()
    tree = ast.parse(src)
    def functions(t):
        out = {}
        for c in t.body:
            if isinstance(c, ast.ClassDef):
                for d in c.body:
                    if isinstance(d, ast.FunctionDef): out[c.name + '.' + d.name] = d
        return out
    orig = functions(tree)
    for m in mutants(f):
        name = '.'.join(m['fn'].split('.')[:2])
        d = orig.get(name)
        if d is None or d.name in ('__len__', '__new__', '__init__', '_new'): continue
        if not d.args.args or d.args.args[0].arg != 'self': continue
        t = copy.deepcopy(tree)
        new = functions(ast.parse(m['src'])).get(name)
        if new is None or ast.dump(new.args) != ast.dump(d.args): continue
        strip = lambda b: b[1:] if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) \
            and len(b) > 1 else b
        functions(t)[name].body = [ast.If(ast.parse(guard, mode='eval').body, strip(new.body), strip(d.body))]
        ast.fix_missing_locations(t)
        yield dict(m, src=ast.unparse(t), what=m['what'] + ' when ' + guard)


def copy_repo(d):
    if os.path.isdir(d): shutil.rmtree(d)
    shutil.copytree(os.path.dirname(SRC), d, ignore=shutil.ignore_patterns('.git', '__pycache__'))

def place(d, m):
    """The copy in d has just this change."""
    for f in FILES: shutil.copy(os.path.join(SRC, f), os.path.join(d, 'pcollections', f))
    open(os.path.join(d, 'pcollections', m['file']), 'w').write(m['src'])


STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']

def passes(m):
    d = '/tmp/mut/f%d' % os.getpid()
    if not os.path.isdir(d): copy_repo(d)
    place(d, m)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=d + ':/opt/vp',
               PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p',
                            'seed_random', '-p', 'pytest_timeout', '--timeout=20', '-o',
                            'python_files=_[a-z]*.py test_*.py', 'pcollections/test'],
                           cwd=d, env=env, capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired: return False
    return r.returncode == 0


def check(alive, mp, log):
    """Run the checks that execute the changed function, one change after another."""
    d = '/tmp/mut/c%d' % os.getpid()
    copy_repo(d)
    done = set()
    if os.path.exists(log): done = {json.loads(l)['id'] for l in open(log)}
    here = os.path.dirname(os.path.abspath(__file__))
    for (i, m) in enumerate(json.load(open(alive))):
        if i in done: continue
        place(d, m)
        r = subprocess.run(['python3-vt', os.path.join(here, 'mutrun.py'), 'run', mp, m['file'], m['fn']],
                           env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        res = (r.stdout.strip() or r.stderr.strip()[-300:] or '?').splitlines()[-1]
        with open(log, 'a') as f:
            f.write(json.dumps({'id': i, 'file': m['file'], 'fn': m['fn'], 'line': m['line'],
                                'what': m['what'], 'result': res}) + '\n')
    shutil.rmtree(d)


def main():
    cmd = sys.argv[1]
    if cmd in ('list', 'guard'):
        if cmd == 'list': out = [m for f in FILES for m in mutants(f)]
        else: out = [m for f in FILES for m in guarded(f, sys.argv[3])]
        seen = set(); uniq = []
        for m in out:
            if m['src'] in seen: continue
            seen.add(m['src']); uniq.append(m)
        random.Random(1).shuffle(uniq)
        json.dump(uniq, open(sys.argv[2], 'w'))
        print(len(uniq))
    elif cmd == "check":
        check(*sys.argv[2:])
    elif cmd == 'filter':
        ms = json.load(open(sys.argv[2]))
        with multiprocessing.Pool(int(sys.argv[4]) if len(sys.argv) > 4 else 8) as p:
            ok = p.map(passes, ms, chunksize=4)
        ms = [m for (m, o) in zip(ms, ok) if o]
        json.dump(ms, open(sys.argv[3], 'w'))
        print(len(ms))

if __name__ == '__main__': main()
