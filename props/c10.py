"""Copies and separate queries are independent."""
from vlib.pbt import Test, Invalid
from vlib.lib import s, rel, exc, DIALECTS, use, render, need
from vlib.history import Handle, some_op, first_ops
from vlib.model import build, b_cond, b_expr, expect
from vlib.common import parsed, norm
from vlib.qgen import G
from vlib import gen, positions as P
from props.c02 import gen_value
from props.c05 import gen_pool, check_pool

RULE = ('Histories of 2-16 steps over up to 6 queries of all kinds, their copies and copies of copies, with every query compared with its own model '
        'after every step or at the end; a case is non-trivial if a copy is made and a builder call follows it, or if several queries are changed.')

KINDS = ('select', 'insert', 'update', 'delete')


def gen_history(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=95, texts=5, exprs=12, depth=1)
    hist = []      # [kind, ops] of handles, to generate valid calls
    steps = []

    def step():
        k = src.n(100)
        if not hist or (k < 12 and len(hist) < 6):
            kind = src.pick(KINDS)
            ops = first_ops(g, kind)
            hist.append([kind, list(ops)])
            return ('new', kind, tuple(ops))
        i = src.n(len(hist))
        if k < 32 and len(hist) < 6:
            hist.append([hist[i][0], list(hist[i][1])])
            return ('copy', i)
        op = some_op(g, *hist[i])
        hist[i][1].append(op)
        return ('op', i, op)
    steps = src.many(step, 2, 16, 88)
    return (d, tuple(steps), src.n(3))


def check_history(spec):
    d, steps, mode = spec
    use(d)
    hs = []
    labels = set()
    copies = set()
    for n, st in enumerate(steps):
        if st[0] == 'new':
            hs.append(Handle(st[1], st[2], d))
        elif st[0] == 'copy':
            o = hs[st[1]]
            c = o.copy()
            if mode:
                need(c.obj == o.obj and o.obj == c.obj, 'copy of %s is not equal to the original', o.kind)
                need(c.text() == o.text(), 'copy renders %r, original %r', c.text(), o.text())
            need(c.obj is not o.obj, 'copy is the same object')
            hs.append(c)
            copies.update((st[1], len(hs) - 1))
            labels.add('copy')
        else:
            hs[st[1]].apply(st[2])
            if st[1] in copies:
                labels.add('changed after copy')
            if len(hs) > 1:
                labels.add('several')
        if mode == 2:
            for j, h in enumerate(hs):
                h.verify(0, '%s %d after step %d' % (h.kind, j, n))
    for j, h in enumerate(hs):
        h.verify(0, '%s %d at the end' % (h.kind, j))
    return sorted(labels) + [d]


# ---------------------------------------------------------------- objects used in several queries

def gen_shared(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=95, texts=5, exprs=12, depth=2)
    kind = src.pick(['cond', 'expr', 'sub', 'func'])
    x = {'cond': lambda: g.qtree(src.n(4)), 'expr': g.expr, 'sub': lambda: ('S', g.sub()), 'func': g.func}[kind]()
    extra = tuple(src.many(lambda: some_op(g, 'select', [('from_',)]), 1, 3))
    return (d, kind, x, extra, src.n(4))


def check_shared(spec):
    d, kind, x, extra, who = spec
    use(d)
    make = lambda: b_cond(x, d) if kind == 'cond' else b_expr(x, d)

    def base(o):
        q = s.select('p').from_('t')
        return q.where(o) if kind == 'cond' else q.columns(o)
    o = make()
    alone = render(o)
    qs = [base(o), base(o), base(o)]
    qs.append(qs[0].copy())
    # the same without any sharing
    want = [base(make()) for _ in range(3)]
    want.append(base(make()))
    from vlib.model import apply_op
    for op in extra:
        apply_op(qs[who], op, d)
        apply_op(want[who], op, d)
    for i in range(4):
        need(render(qs[i]) == render(want[i]), 'query %d of shared object renders %r, of its own one %r', i, render(qs[i]), render(want[i]))
    need(render(o) == alone, 'shared object is changed from %r to %r', alone, render(o))
    return [d, kind, 'several']


# ---------------------------------------------------------------- functions and conditions

def gen_functions(src):
    hist = []

    def step():
        k = src.n(10)
        if not hist or (k < 3 and len(hist) < 5):
            name = src.pick(['count', 'avg_distinct', 'group_concat', 'convert', 'sum', 'max', 'concat', 'min', 'count_distinct'])
            hist.append(name)
            return ('new', name)
        i = src.n(len(hist))
        if k < 5 and len(hist) < 5:
            hist.append(hist[i])
            return ('copy', i)
        name = hist[i]
        if name == 'group_concat':
            return ('mod', i, src.pick([('separator', '-'), ('separator', ''), ('order_by', 'z'), ('order_by', 'x')]))
        if name == 'convert':
            return ('mod', i, ('to', src.pick(['char', 'unsigned'])))
        if name == 'concat':
            return ('mod', i, ('none',))
        return ('mod', i, ('distinct', src.pick([True, False])))
    return (src.pick(DIALECTS), tuple(src.many(step, 2, 14, 88)), src.n(2))


def model_func(name, mods, d):
    distinct, sep, orders, typ = name.endswith('_distinct'), None, [], 'INT'
    for m, *v in mods:
        if m == 'distinct':
            distinct = v[0]
        elif m == 'separator':
            sep = v[0]
        elif m == 'order_by' and v[0] not in orders:
            orders.append(v[0])
        elif m == 'to':
            typ = v[0].upper()
    q = '`' if d == 'mysql' else '"'
    quote = lambda x: q + x + q
    base = name.replace('_distinct', '').upper()
    if base == 'GROUP_CONCAT':
        return 'GROUP_CONCAT(%s%s%s)' % (quote('x'), ' ORDER BY ' + ', '.join(map(quote, orders)) if orders else '', " SEPARATOR '%s'" % sep if sep is not None else '')
    if base == 'CONVERT':
        return 'CONVERT(%s, %s)' % (quote('x'), typ)
    if base == 'CONCAT':
        return 'CONCAT(%s, %s)' % (quote('x'), quote('y'))
    return '%s(%s%s)' % (base, 'DISTINCT ' if distinct else '', quote('x'))


def check_functions(spec):
    d, steps, every = spec
    use(d)
    hs = []

    def verify():
        for f, name, mods in hs:
            want = model_func(name, mods, d)
            from vlib.lexer import lex
            need(lex(render(f), d) == lex(want, d), 'function is %r, expected %r', render(f), want)
    for st in steps:
        if st[0] == 'new':
            f = {'convert': lambda: s.convert('x', 'int'), 'concat': lambda: s.concat('x', 'y')}.get(st[1], lambda: getattr(s, st[1])('x'))()
            hs.append((f, st[1], []))
        elif st[0] == 'copy':
            f, name, mods = hs[st[1]]
            hs.append((f.copy(), name, list(mods)))
        else:
            f, name, mods = hs[st[1]]
            if st[2][0] != 'none':
                getattr(f, st[2][0])(*st[2][1:])
            mods.append(st[2])
        if every:
            verify()
    verify()
    return [d, 'several'] if len(hs) > 1 else [d]


# ---------------------------------------------------------------- copies of what holds other queries

INNER = ['SUB.' + k for k in sorted(P.SUB)] + ['EXISTS.' + k for k in sorted(P.EXISTS)]


def gen_deep(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=95, texts=5, exprs=0, depth=1)
    shape = src.n(7) if src.chance(30) else src.pick(INNER)
    return (d, shape, tuple(src.many(lambda: some_op(g, 'select', [('from_',)]), 1, 3)), tuple(src.many(lambda: some_op(g, 'select', [('from_',)]), 1, 3)))


def shaped(sub, shape):
    return [
        lambda: sub & s.select('y'),
        lambda: s.select('y') | sub,
        lambda: (s.select('z') & sub) | s.select('y'),
        lambda: s.select_from((sub, 'al')),
        lambda: s.select_from('t').where(a=rel.IN(sub)),
        lambda: s.select((sub, 'al')).order_by('q'),
        lambda: s.select_from('t').join((sub, 'al')).on('a', 'b'),
    ][shape]()


def check_deep(spec):
    d, shape, inner, later = spec
    use(d)
    from vlib.model import apply_op
    sub = s.select('x').from_('u')
    for op in inner:
        apply_op(sub, op, d)
    if isinstance(shape, str):
        u = HOLD[shape](sub)
    else:
        u = shaped(sub, shape)
    text = render(u)
    c = u.copy()
    cc = c.copy()
    need(render(c) == text and render(u) == text, 'copy renders %r, original %r', render(c), text)
    need(c == u and u == c, 'copy does not equal the original')
    for op in later:
        apply_op(sub, op, d)
    need(render(c) == text and render(cc) == text, 'a change made to an inner query after copying is seen in the copy: %r, before %r', render(c), text)
    return [d, 'several']


# ---------------------------------------------------------------- everything a query can hold

HOLD = {}
for _group in ('COND', 'ORDERED', 'TEXT', 'MEMBER', 'ASSIGN', 'NAME', 'ALIAS', 'RAW', 'SUB', 'EXISTS'):
    HOLD.update(('%s.%s' % (_group, k), f) for k, f in getattr(P, _group).items())
HOLDS = sorted(HOLD)


def gen_held(src):
    d = src.pick(DIALECTS)
    place = src.pick(HOLDS)
    group = place.split('.')[0]
    g = G(src, d, plain=60, texts=40, exprs=40, depth=1)
    if group == 'RAW':
        x = ('C', gen.text(src) or 'a')
    elif group in ('NAME', 'ALIAS'):
        x = gen.name(src)
    elif group in ('SUB', 'EXISTS'):
        x = ('S', g.select(lo=0, hi=4))
    elif group == 'TEXT':
        x = gen.text(src)
    elif src.chance(30):
        x = g.expr()
    else:
        x = gen_value(src, bytes_=group == 'ASSIGN', bool_=group not in ('ORDERED',), none=group == 'ASSIGN')
    return (d, place, x, src.n(3))


def check_held(spec):
    """Copy of a query, and copy of the copy, is rendered as the query is."""
    d, place, x, after = spec
    use(d)
    try:
        arg = b_expr(x, d) if isinstance(x, tuple) and x and x[0] != 'N' else x
        q = HOLD[place](arg)
        early = q.copy()
        text = render(q)
    except exc.SqlPuzzleException:
        raise Invalid
    late = q.copy()
    texts = [render(c) for c in (early, late, early.copy(), late.copy().copy())]
    need(texts == [text] * 4, '%s with %r: copies of %r are %r', place, x, text, texts)
    need(early == q and q == late, '%s with %r: copy is not equal', place, x)
    if after and hasattr(late, 'where'):
        (early if after == 1 else late).where(zzz=4)
        need(render(q) == text and render(late if after == 1 else early) == text, '%s: change of a copy is seen elsewhere', place)
    return [d, 'held']


TESTS = [
    Test('held', gen_held, check_held, quick=5000, nontrivial={'held'}),
    Test('history', gen_history, check_history, quick=13000, nontrivial={'changed after copy', 'several'}),
    Test('shared', gen_shared, check_shared, quick=6000, nontrivial={'several'}),
    Test('functions', gen_functions, check_functions, quick=5000, nontrivial={'several'}),
    Test('pool', gen_pool, check_pool, quick=4000, nontrivial={'shared'}),
    Test('deep', gen_deep, check_deep, quick=4000, nontrivial={'several'}),
]
