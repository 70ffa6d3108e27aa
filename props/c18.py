"""C18 Printed forms are complete when short and bounded when long."""
from .common import *
from .lazies import *

BOUNDS = ('collections of all ten kinds with 0-4 items (0-6 thorough) whose texts have any lengths '
          '0-80, and of 14 (30 thorough) items with any lengths 0-30, and of 20-70 items of length 1; any mixture of lazy items; '
          'seqstr of sequences, generators and mappings with any limit of 3-200 and four separators; '
          'lazy values in three states, their errors with 0-3 arguments and 0-2 options; views of '
          'dicts of 0-3 (0-4 thorough) items')

W = 'c18'
ENDS = {'[|': '|]', '[<': '>]', '{|': '|}', '{<': '>}'}


def starts(ctx, s, head): return s[:len(head)] == head


def body(ctx, s, label):
    (a, b) = (s[:2], s[-2:])
    ctx.check(len(s) >= 4 and ENDS.get(a) == b, label + ': delimiters', lambda: repr(s))
    return s[2:-2]


def rule(ctx, s, texts, limit, sep, label):
    """s shows all the texts, or some of the first and an ellipsis."""
    full = sep.join(texts)
    if limit is None or bool(ctx.text_len(full) <= limit):
        ctx.check(s == full, label + ': short form is complete', lambda: f'{s!r} expected {full!r}')
        ctx.reached('complete')
        return
    ctx.reached('cut')
    ctx.check(ctx.text_len(s) <= limit, label + ': long form is bounded',
              lambda: f'{s!r} ({len(s)} characters, limit {limit})')
    ok = False
    for k in range(len(texts)):
        head = sep.join(texts[:k])
        for dots in ('...', '\u2026'):
            for j in ((sep, ' ') if k else ('',)):
                if s == head + j + dots: ok = True
    ctx.check(ok, label + ': long form is a leading run of items and an ellipsis',
              lambda: f'{s!r}, items {texts!r}')


def build(ctx, kind, n, lo, hi, lazies):
    """(collection, texts for str, texts for repr or None)"""
    L = ctx.lib
    ctx.ran = []
    def is_lazy(i):
        if not lazies: return False
        if lazies is True: return bool(ctx.bool(f'l{i}'))
        return {'all': True, 'odd': i % 2 == 1, 'last': i == n - 1, 'first': i < 3}[lazies]
    def later(e):
        def fn():
            ctx.ran.append(e)
            return e
        return L.lazy(fn)
    if kind in LISTS + ('plist', 'tlist'):
        els = [ctx.text_elem(f't{i}', lo, hi) for i in range(n)]
        (raws, texts, reprs) = ([], [], [])
        for (i, e) in enumerate(els):
            if is_lazy(i):
                l = later(e)
                raws.append(l); texts.append('<lazy>'); reprs.append(repr(l))
            else: raws.append(e); texts.append(repr(e)); reprs.append(repr(e))
        return (mk_list(ctx, kind, raws, window=(0, -1, 2)), texts, reprs)
    if kind in ('pset', 'tset'):
        els = [ctx.text_elem(f't{i}', lo, hi) for i in range(n)]
        s = getattr(L, kind)(els)
        texts = [repr(e) for e in s]
        ctx.check(len(texts) == n, 'members')
        return (s, texts, texts)
    ks = [ctx.text_elem(f'k{i}', lo, hi) for i in range(n)]
    vs = [ctx.text_elem(f'v{i}', lo, hi) for i in range(n)]
    (raws, texts, reprs) = ([], [], [])
    for (i, (k, e)) in enumerate(zip(ks, vs)):
        if is_lazy(i):
            l = later(e)
            raws.append(l); texts.append(repr(k) + ': <lazy>'); reprs.append(repr(k) + ': ' + repr(l))
        else:
            raws.append(e); texts.append(repr(k) + ': ' + repr(e)); reprs.append(texts[-1])
    return (getattr(L, kind)(list(zip(ks, raws))), texts, reprs)


@harness
def printed(ctx, kind, n, lo=0, hi=80, lazies=False):
    if lazies == 'pattern': lazies = ctx.pick('pattern', ['all', 'odd', 'last', 'first'])
    (c, texts, reprs) = build(ctx, kind, n, lo, hi, lazies)
    s = str(c)
    rule(ctx, body(ctx, s, 'str'), texts, 60, ', ', 'str')
    r = repr(c)
    b = body(ctx, r, 'repr')
    if not lazies or '<lazy>' not in texts:
        ctx.check(b == ', '.join(reprs), 'repr shows every item', lambda: f'{b!r} expected {reprs!r}')
    else:
        pos = 0
        for t in [t for t in texts if '<lazy>' not in t]:
            j = b.find(t, pos)
            ctx.check(j >= 0, 'repr shows every item')
            pos = j + len(t) if not ctx.symbolic else j + str.__len__(t)
    s2 = format(c)
    ctx.check(s2 == s, 'format() is str()')
    ctx.check(not ctx.ran, 'printing computes lazy items', lambda: repr(ctx.ran))


@harness
def utility(ctx, n, form, sep, hi=80):
    """seqstr with any limit."""
    els = [ctx.text_elem(f't{i}', 0, hi) for i in range(n)]
    limit = None if form == 'none' else ctx.int('limit', 3, 200)
    seqstr = ctx.lib.util.seqstr
    tostr = repr
    if form == 'gen': src = (e for e in els)
    elif form == 'plist': src = ctx.lib.plist(els)
    elif form == 'dict':
        src = ctx.lib.pdict([(i, e) for (i, e) in enumerate(els)])
    else: src = els
    if form == 'tostr': tostr = lambda e: '<' + repr(e) + '>'
    kw = {}
    if sep != ', ': kw['sep'] = sep
    if form == 'tostr': kw['tostr'] = tostr
    if form == 'none': s = seqstr(src, **kw)
    else: s = seqstr(src, limit, **kw)
    texts = [tostr(e) for e in els]
    if form == 'dict': texts = ['%d: %s' % (i, t) for (i, t) in enumerate(texts)]
    rule(ctx, s, texts, limit, sep, 'seqstr')


@harness
def utility_bad(ctx):
    """Limits that are too small are refused."""
    limit = ctx.int('limit', -BIG, 2)
    obs = ctx.attempt(lambda: ctx.lib.util.seqstr(['a'], limit))
    ctx.check(obs[0] == 'err', 'limit below 3', lambda: repr(obs))


@harness
def nested(ctx, kind):
    """Collections inside collections are printed like any other item."""
    L = ctx.lib
    els = [ctx.text_elem('a', 0, 80), ctx.text_elem('b', 0, 80)]
    ins = [L.plist(els), L.pset(els[:1]), L.pdict([(els[0], els[1])])]
    p = getattr(L, kind)(ins)
    texts = [repr(x) for x in ins]
    rule(ctx, body(ctx, str(p), 'str'), texts, 60, ', ', 'str')
    b = body(ctx, repr(p), 'repr')
    ctx.check(b == ', '.join(texts), 'repr shows every item')


@harness
def edited(ctx, kind, n):
    """What is printed follows the collection's contents after edits."""
    L = ctx.lib
    els = [ctx.text_elem(f't{i}', 0, 80) for i in range(n)]
    y = ctx.text_elem('y', 0, 80)
    if kind == 'plist':
        p = L.plist(els)
        (s0, p2) = (str(p), p.prepend(y))
        texts = [repr(e) for e in [y] + els]
        ctx.check(str(p) == s0, 'original')
    elif kind == 'tlist':
        p2 = L.tlist(els)
        str(p2); repr(p2)
        p2.prepend(y)
        texts = [repr(e) for e in [y] + els]
    elif kind == 'pdict':
        p = L.pdict([(e, i) for (i, e) in enumerate(els)])
        str(p); repr(p)
        p2 = p.set(y, 9)
        texts = ['%r: %d' % (e, i) for (i, e) in enumerate(els)] + [repr(y) + ': 9']
    elif kind == 'tdict':
        p2 = L.tdict([(e, i) for (i, e) in enumerate(els)])
        str(p2); repr(p2)
        p2[y] = 9
        if els: del p2[els[0]]
        texts = ['%r: %d' % (e, i) for (i, e) in list(enumerate(els))[1:]] + [repr(y) + ': 9']
    else:
        p2 = getattr(L, kind)(els)
        str(p2); repr(p2)
        if kind == 'pset': p2 = p2.add(y)
        else: p2.add(y)
        texts = [repr(e) for e in p2]
        ctx.check(len(texts) == n + 1, 'members')
    rule(ctx, body(ctx, str(p2), 'str'), texts, 60, ', ', 'str')
    ctx.check(body(ctx, repr(p2), 'repr') == ', '.join(texts), 'repr shows every item')


@harness
def lazy_text(ctx, state):
    """lazy values can be printed in any state, which computes nothing."""
    L = ctx.lib
    runs = []
    fail = state == 'failed'
    def fn(x):
        runs.append(x)
        if fail: raise ValueError('no')
        return x
    e = ctx.elem('e', special=True)
    l = L.lazy(fn, e)
    if state == 'done': l()
    if fail: ctx.check(ctx.attempt(l) == ('err', 'LazyError'), 'LazyError')
    n = len(runs)
    (r, s) = (repr(l), str(l))
    ctx.check(type(r) is str and type(s) is str, 'texts')
    ctx.check(('ready' in r) == (state == 'done') and ('waiting' in r) == (state != 'done'),
              'repr tells whether the value is ready', lambda: r)
    ctx.check(len(runs) == n, 'printing computes')
    ctx.check(l.is_ready() == (state == 'done'), 'printing leaves it ready or not')


@harness
def lazy_error(ctx, n, kws, form):
    """The error of a lazy value names the function and all its arguments."""
    L = ctx.lib
    def some_function(*args, **kw): raise ValueError('no')
    args = [ctx.pick(f'a{i}', [0, 7]) for i in range(n)]
    opts = {f'opt{i}': ctx.pick(f'o{i}', [1, 8]) for i in range(kws)}
    e = None
    try: L.lazy(some_function, *args, **opts)()
    except RuntimeError as err: e = err
    ctx.check(type(e).__name__ == 'LazyError', 'LazyError', lambda: repr(type(e)))
    if form == 'partial':
        from functools import partial
        e = type(e)(partial(some_function, *args, **opts))
    elif form == 'tuple': e = type(e)((some_function, tuple(args), opts))
    for (s, what) in ((str(e), 'str'), (repr(e), 'repr')):
        ctx.check('some_function' in s, what + ' names the function', lambda: s)
        tail = s[s.index('some_function') + len('some_function'):]
        digits = [c for c in tail.replace('opt0', '').replace('opt1', '') if c in '0123456789']
        want = [str(a) for a in args + list(opts.values())]
        ctx.check(digits == want, what + ' shows every argument', lambda: s)
        for k in opts: ctx.check(k + '=' in s, what + ' names every option', lambda: s)


VIEWS = ('keys', 'items', 'values')

@harness
def views(ctx, kind, n, view, lazies=False):
    """Views of dicts can be printed; nothing is computed; those of keys of
    persistent dicts show every key."""
    L = ctx.lib
    z = Lz(ctx)
    ks = [ctx.text_elem(f'k{i}', 0, 80) for i in range(n)]
    vs = [z.item(f'v{i}', special=False) if lazies else ctx.text_elem(f'v{i}', 0, 80)
          for i in range(n)]
    d = getattr(L, kind)(list(zip(ks, vs)))
    v = getattr(d, view)()
    (s, r) = (str(v), repr(v))
    ctx.check(type(s) is str and type(r) is str, 'texts')
    z.none_ran('printing a view')
    if view == 'keys' and kind in ('pdict', 'ldict'):
        for t in (s, r):
            ctx.check(t.find(', '.join([repr(k) for k in ks])) >= 0,
                      'keys view shows every key', lambda: t)
    ctx.check(len(v) == n, 'length')


KINDS = ('plist', 'tlist', 'pset', 'tset', 'pdict', 'tdict', 'llist', 'tllist', 'ldict', 'tldict')

def jobs(tier):
    th = tier == 'thorough'
    out = []
    for kind in KINDS:
        for n in range(7 if th else 5):
            out.append(Job(W + '.printed', kind=kind, n=n))
            if kind in LISTS + DICTS and n: out.append(Job(W + '.printed', kind=kind, n=n, lazies=True))
        out.append(Job(W + '.printed', kind=kind, n=30 if th else 14, hi=30, cost=5))
        for n in (20, 40, 70):
            out.append(Job(W + '.printed', kind=kind, n=n, lo=1, hi=1, cost=5,
                           lazies='pattern' if kind in LISTS + DICTS else False))
        if kind not in LISTS + DICTS:
            for n in range(4): out.append(Job(W + '.edited', kind=kind, n=n))
    for n in range(7 if th else 5):
        for form in ('list', 'gen', 'plist', 'dict', 'tostr', 'none'):
            for sep in (', ', '', ' - ', '; and then '):
                out.append(Job(W + '.utility', n=n, form=form, sep=sep))
    out.append(Job(W + '.utility', n=30 if th else 14, hi=30, form='gen', sep=', ', cost=5))
    out.append(Job(W + '.utility_bad'))
    for kind in ('plist', 'tlist', 'llist'): out.append(Job(W + '.nested', kind=kind))
    for state in ('waiting', 'done', 'failed'): out.append(Job(W + '.lazy_text', state=state))
    for n in range(4):
        for kws in range(3):
            for form in ('raised', 'partial', 'tuple'):
                out.append(Job(W + '.lazy_error', n=n, kws=kws, form=form))
    for kind in ('pdict', 'tdict') + DICTS:
        for view in VIEWS:
            for n in range(5 if th else 4):
                out.append(Job(W + '.views', kind=kind, n=n, view=view))
                if n and kind in DICTS:
                    out.append(Job(W + '.views', kind=kind, n=n, view=view, lazies=True))
    return out
