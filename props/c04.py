"""Guard of UPDATE and DELETE without conditions."""
from vlib.pbt import Test
from vlib.lib import s, rel, exc, DIALECTS, use, need
from vlib.history import Handle, look
from vlib.qgen import G
from vlib import gen

RULE = ('Histories of 1-14 calls over up to 4 UPDATE or DELETE queries and their copies, each query judged after every step, also while assignments or tables are still missing; a case is non-trivial if it '
        'contains a where call without any condition, a copy, a forbid call or a refused call.')

BAD = [
    lambda q: q.where('a'),
    lambda q: q.where(5),
    lambda q: q.where(a=object()),
    lambda q: q.where(('a',)),
    lambda q: q.where([('a', 1, 2)]),
    lambda q: q.where({'a': object}),
    lambda q: q.where(True, 1),
    lambda q: q.where(a=rel.GT(True)),
    lambda q: q.where(a=rel.IN('abc')),
    lambda q: q.where(s.Not()),
    lambda q: q.where(s.Not([])),
    lambda q: q.where(a=rel.LIKE(5)),
    lambda q: q.where('a', 1, 2),
    lambda q: q.join(5),
    lambda q: q.join(('t', True)),
]


def gen_history(src):
    d = src.pick(DIALECTS)
    kind = src.pick(['update', 'delete'])
    g = G(src, d, depth=1, texts=5, plain=97, exprs=6)
    first = (g.update(where=0, joins=10) if kind == 'update' else g.delete(where=0, joins=10))[1]
    handles = 1
    steps = []

    def step():
        nonlocal handles
        i = src.n(handles)
        k = src.n(100)
        if k < 24:
            return (i, 'op', ('where', src.weighted(
                (10, lambda: ('empty', src.pick(['none', 'list', 'tuple', 'dict', 'odict', 'q', 'qq', 'qand', 'qor', 'kwds', 'qlist', 'qdict']))),
                (4, lambda: ('objs', tuple(('q', ('empty', src.pick(['none', 'list', 'dict', 'q']))) for _ in range(src.between(1, 3))), ())),
                (4, lambda: ('obj', empty_tree(src, 2))),
            )))
        if k < 40:
            return (i, 'op', ('where', g.form(simple=src.chance(50))))
        if k < 52:
            return (i, 'op', ('raw', 'allow_%s_all' % kind))
        if k < 64:
            return (i, 'op', ('raw', 'forbid_%s_all' % kind))
        if k < 74 and handles < 4:
            handles += 1
            return (i, 'copy')
        if k < 80:
            return (i, 'bad', src.n(len(BAD)))
        if k < 84:
            return (i, 'op', ('opt', 'ignore', src.pick([(), (True,), (False,)])))
        if k < 88:
            if kind == 'update':
                pairs = g.assignments(1, 2)
                return (i, 'op', ('set', g.two_style(pairs), pairs))
            return (i, 'op', g.from_())
        if k < 92:
            return (i, 'op', g.join(('join', 'left_join', 'right_join')))
        if k < 94 and handles < 4:
            handles += 1
            return (-1, 'new')
        return (i, 'look', src.n(10))
    steps = src.many(step, 1, 14, 85)
    return (d, kind, first, tuple(steps), src.n(10))


def gen_incomplete(src):
    """As above, but assignments, tables or both are missing at the beginning or for ever."""
    mode = src.n(4)
    d, kind, first, steps, how = gen_history(src)
    joins = ('join', 'on')
    gone = {0: ('set', 'targets'), 1: ('table', 'from_', 'from_tables', 'from_table', 'set', 'targets') + joins, 2: ('table', 'from_', 'from_tables', 'from_table') + joins,
            3: ('set',) + joins}[mode]
    first = tuple(op for op in first if op[0] not in gone)
    ok = lambda st: not (st[1] == 'op' and st[2][0] in joins + (gone if src.n(2) else ())) and not (st[1] == 'bad' and st[2] >= len(BAD) - 2)
    return (d, kind, first, tuple(st if ok(st) else (st[0], 'look', 0) for st in steps), how)


def check_incomplete(spec):
    return check_history(spec, Handle.verify_guard)


def empty_tree(src, size):
    if size <= 0:
        return ('q', ('empty', src.pick(['none', 'list', 'dict', 'q'])))
    left = src.n(size)
    return (src.pick('&|'), empty_tree(src, left), empty_tree(src, size - 1 - left))


def check_history(spec, verify=Handle.verify):
    d, kind, first, steps, how = spec
    use(d)
    hs = [Handle(kind, first, d)]
    verify(hs[0], how, 'new %s' % kind)
    labels = {kind}
    for n, st in enumerate(steps):
        i, what = st[0], st[1]
        if what == 'op':
            hs[i].apply(st[2])
            if st[2][0] == 'where' and (st[2][1][0] == 'empty'):
                labels.add('empty where')
            elif st[2][0] == 'raw':
                labels.add(st[2][1].split('_')[0])
        elif what == 'copy':
            hs.append(hs[i].copy())
            labels.add('copy')
        elif what == 'new':
            hs.append(Handle(kind, first, d))
        elif what == 'bad':
            try:
                BAD[st[2]](hs[i].obj)
            except exc.InvalidArgumentException:
                pass
            else:
                need(False, 'call %d of wrong arguments is not refused', st[2])
            labels.add('refused')
        elif what == 'look':
            hs[i].text(st[2])
        for j, h in enumerate(hs):
            got = verify(h, how + n, '%s %d after step %d' % (kind, j, n))
            labels.add('rendered' if isinstance(got, str) else 'guarded')
    return sorted(labels)


TESTS = [
    Test('history', gen_history, check_history, quick=24000, nontrivial={'empty where', 'copy', 'forbid', 'refused'}),
    Test('incomplete', gen_incomplete, check_incomplete, quick=8000, nontrivial={'empty where', 'copy', 'forbid', 'refused'}),
]
