"""Joins."""
from vlib import gen, near
from vlib.pbt import Test
from vlib.lib import s, rel, exc, DIALECTS, use, render, need
from vlib.model import build, apply_op, start
from vlib.common import compare_with_model, parsed, database, run
from vlib.history import Handle
from vlib.qgen import G, CMP

RULE = ('SELECT, UPDATE and DELETE with 1-3 tables and up to 8 joins from small pools of tables, aliases and conditions, so that repeated, mirrored and '
        'almost repeated joins are frequent; a case is non-trivial if it has at least two joins, or one with at least two conditions, or a refused call.')
ASSUMPTIONS = ['a join repeated as LEFT and RIGHT with other joins in between is not judged: no database accepts the same alias twice']

TABLES = ['t', 'u', 'v', 'db.t']
ALIASES = [None, None, None, 'x', 'y', 't']
COLS = ['t.id', 'u.id', 'u.t_id', 'v.u_id', 'id', 't.a']
ODD = ['5', '007', 't.5', '2020-01-01', 'NULL', 'true', 'x y', "it's", 'a=b', '%', '%s', 'select', 'é', 'ID', '-1', 'f(x)', 'a\nb', 't.a b', "'x'", 'None', '0', '1e5']
RELS = ('EQ', 'NE', 'GT', 'LT', 'GE', 'LE')


def on_pair(src, g):
    a, b = src.pick(COLS), src.pick(COLS)
    return src.weighted(
        (40, lambda: (a, b)),
        (30, lambda: (a, ('rel', src.pick(RELS), 'v', b))),
        (6, lambda: (a, src.n(3))),
        (3, lambda: (a, ('rel', src.pick(RELS), 'v', src.n(3)))),
        (3, lambda: (a, bool(src.n(2)))),
        (3, lambda: (a, None)),
        (3, lambda: (a, ('V', src.pick(['t.id', 'u.id', 'x'])))),
        (3, lambda: (a, ('R', b))),
        (3, lambda: (a, ('C', src.pick(['t.id', 'raw', 'u.id'])))),
        (3, lambda: (('C', src.pick(['raw', 't.id'])), b)),
        (3, lambda: (('R', a), b)),
        (3, lambda: (a, list(g.members()))),
        (2, lambda: (a, g.inrel())),
        (3, lambda: (g.name(), b)),
        (4, lambda: (a, src.pick(ODD))),
        (2, lambda: (a, ('rel', src.pick(RELS), 'v', src.pick(ODD)))),
        (6, lambda: (a, ('rel', src.pick(['LIKE', 'NOT_LIKE', 'REGEXP']), 'v', b))),
        (2, lambda: (a, ('rel', src.pick(['IS', 'IS_NOT']), 'v', src.pick([None, True])))),
    )


def on_form(src, g):
    k = src.n(20)
    if k == 19:
        return ('obj', ('C', src.pick(['raw = 1', 't.id = u.id', 'f(x)'])))
    if k == 18:
        return ('obj', g.qtree(src.n(3)))
    if k == 17:
        return ('empty', src.pick(['none', 'list', 'dict', 'q']))
    pairs = tuple(src.many(lambda: on_pair(src, g), 1, 3, 25))
    return ('pairs', g.two_style(pairs), pairs)


def gen_ops(src, d, kind):
    g = G(src, d, plain=80, texts=10, exprs=0, depth=1)
    kinds = ['join', 'inner_join', 'left_join', 'right_join'] + (['full_join'] if d == 'postgresql' and kind == 'select' else [])
    if src.chance(30):
        kinds = kinds[:3]
    ops, past = [], []

    def table(first):
        t, a = src.pick(TABLES), src.pick(ALIASES)
        if kind == 'update':
            return ('table', t, a)
        if src.chance(10):
            return ('from_table', t, a, True)
        return ('from_', src.pick(['args', 'tuples']), ((t, a),))

    def joins():
        def one():
            if past and src.chance(45):
                # repeat an earlier join, maybe changed in one thing
                j, ons = src.pick(past)
                j = ('join', src.pick(kinds)) + j[2:]
                ons = [mirror(o, src) if src.chance(50) else o for o in ons]
                k = src.n(8)
                if k == 0:
                    j = j[:3] + (src.pick(ALIASES), 'tuple')
                elif k == 1:
                    j = j[:2] + (src.pick(TABLES),) + j[3:]
                elif k == 2:
                    ons = ons[:-1]
                elif k == 3:
                    ons = ons + [('on', on_form(src, g))]
                elif k == 4:
                    ons = ons[::-1]
            else:
                a = src.pick(ALIASES)
                t = src.pick(TABLES)
                if src.chance(5):
                    t, a = ('S', g.sub()), a or 'x'
                j = ('join', src.pick(kinds), t, a, src.pick(['tuple', 'list', 'dict']) if a or src.chance(20) or not isinstance(t, str) else 'str')
                ons = src.many(lambda: ('on', on_form(src, g)), 0 if src.chance(10) else 1, 3, 25)
            past.append((j, tuple(ons)))
            ops.append(j)
            ops.extend(ons)
        src.many(one, 1, 8, 65)
    if kind == 'delete' and src.chance(30):
        ops.append(('targets', tuple(src.many(lambda: src.pick(TABLES), 1, 2))))
    ops.append(table(True))
    joins()
    while src.chance(20) and len(ops) < 40:
        ops.append(table(False))
        if src.chance(60):
            joins()
    if kind == 'update':
        ops.append(('set', 'pair', (('a', 1),)))
    if kind != 'select':
        ops.append(('where', ('pairs', 'pair', (('w', 1),))))
    # adding of the same table again can leave the last table without joins
    return fix(ops, d)


def mirror(op, src):
    """The same comparisons of columns written from the other side."""
    if op[1][0] != 'pairs' or '+' in op[1][1] or op[1][1] in ('dict', 'odict', 'kwds'):
        return op
    swap = {'EQ': 'EQ', 'NE': 'NE', 'GT': 'LT', 'LT': 'GT', 'GE': 'LE', 'LE': 'GE'}
    wrong = src.chance(15)
    out = []
    for k, v in op[1][2]:
        if isinstance(k, str) and isinstance(v, str):
            k, v = v, k
        elif isinstance(k, str) and isinstance(v, tuple) and v[0] == 'rel' and v[1] in swap and isinstance(v[3], str):
            k, v = v[3], ('rel', v[1] if wrong else swap[v[1]], 'v', k)
        elif isinstance(k, str) and isinstance(v, tuple) and v[0] == 'rel' and v[1] in ('LIKE', 'NOT_LIKE', 'REGEXP') and isinstance(v[3], str) and src.chance(60):
            # not the same comparison
            k, v = v[3], ('rel', v[1], 'v', k)
        out.append((k, v))
    return ('on', ('pairs', op[1][1], tuple(out)))


def fix(ops, d):
    """Drop joins and conditions which have nothing to attach to."""
    from vlib.model import Tables
    out, ts = [], Tables()
    for op in ops:
        if op[0] == 'join':
            if not ts.items:
                continue
            ts.join(op, d)
        elif op[0] == 'on':
            if not ts.items or not ts.items[-1][3]:
                continue
        elif op[0] == 'table':
            ts.add([(op[1], op[2])], d)
        elif op[0] == 'from_table':
            ts.add([(op[1], op[2])], d)
        elif op[0] == 'from_':
            ts.add(op[2], d)
        out.append(op)
    return tuple(out)


def gen_joins(src):
    d = src.pick(DIALECTS)
    kind = src.pick(['select', 'select', 'select', 'update', 'delete'])
    return (d, (kind, gen_ops(src, d, kind)))


def check_joins(spec):
    d, q = spec
    use(d)
    compare_with_model(q, d)
    n = sum(op[0] == 'join' for op in q[1])
    ons = sum(op[0] == 'on' for op in q[1])
    return [d, q[0], '%d joins' % min(n, 5)] + (['rich'] if n >= 2 or ons >= 2 else [])


# ---------------------------------------------------------------- refusals

def gen_refused(src):
    d = src.pick(DIALECTS)
    kind = src.pick(['select', 'update', 'delete'])
    where = src.pick(['empty', 'table', 'joined', 'second', 'copied'])
    joins = ['join', 'inner_join', 'left_join', 'right_join'] + (['full_join'] if kind == 'select' else [])
    call = src.pick(joins + ['on', 'on_kwds', 'on_raw'])
    return (d, kind, where, call, src.pick(['u', ('u', 'x'), ['u', 'x']]), src.n(2))


def names_of(tree):
    return [t for k, v in tree[1] if k == 'tables' for t in v]


def check_refused(spec):
    d, kind, where, call, arg, after = spec
    use(d)
    q = {'select': lambda: s.select('a'), 'update': lambda: s.update(None).set(a=1).where(id=1), 'delete': lambda: s.delete('x').where(id=1)}[kind]()
    add = {'select': lambda q: q.from_('t'), 'update': lambda q: q.table('t'), 'delete': lambda q: q.from_('t')}[kind]
    add2 = {'select': lambda q: q.from_('z'), 'update': lambda q: q.table('z'), 'delete': lambda q: q.from_('z')}[kind]
    tables, joins = 0, 0
    if where != 'empty':
        add(q)
        tables = 1
    if where in ('joined', 'second', 'copied'):
        q.join('v').on('t.id', 'v.id')
        joins = 1
    if where in ('second', 'copied'):
        add2(q)
        joins = 0
    if where == 'copied':
        q = q.copy()
    before = render(q) if tables else None
    if call.startswith('on'):
        bad = not joins
        fn = {'on': lambda: q.on('p', 'r'), 'on_kwds': lambda: q.on(p='r'), 'on_raw': lambda: q.on(s.C('raw'))}[call]
    else:
        bad = not tables or (call == 'full_join' and d != 'postgresql')
        fn = lambda: getattr(q, call)(arg)
    try:
        fn()
        refused = False
    except exc.InvalidQueryException:
        refused = True
    need(refused == bad, '%s is %s (%s)', call, 'refused' if refused else 'accepted', where)
    if refused and before is not None:
        need(render(q) == before, 'refused call changes %r to %r', before, render(q))
    if refused and after:
        if not tables:
            add(q)
        q.left_join('w').on('p', 'r')
        tree = parsed(render(q), d)
        need(len(names_of(tree)[-1][2]) == joins + 1, 'join after a refused call: %r', render(q))
        names = names_of(tree)
        need(names[-1][2][-1:] == (('LEFT', ('id', ('w',)), None, ('cmp', '=', ('id', ('p',)), ('id', ('r',)))),), 'join after a refused call: %r', render(q))
    return [d, kind, where] + (['rich'] if refused else [])


# ---------------------------------------------------------------- execution

DATA = {
    't': [(1, 1), (2, 1), (3, 2), (4, None)],
    'u': [(1, 1), (2, 3), (3, None)],
    'v': [(1, 2), (2, 2), (5, 1), (None, 4)],
}


def gen_run(src):
    kinds = ['join', 'inner_join', 'left_join', 'right_join']
    joins = []

    def one():
        n = len(joins)
        avail = ['b'] + ['j%d' % i for i in range(n)]
        me = 'j%d' % n

        def cond():
            left, right = (src.pick(avail), src.pick(['id', 'x'])), (me, src.pick(['id', 'x']))
            if src.chance(50):
                left, right = right, left
            k = src.n(10)
            if k < 8:
                return (left, src.pick(['EQ', 'EQ', 'EQ', 'NE', 'GT', 'LT', 'GE', 'LE']), right, src.n(3))
            return ((me, src.pick(['id', 'x'])), src.pick(['EQ', 'GT', 'NE']), src.n(4), src.n(3))
        joins.append((src.pick(kinds), src.pick(sorted(DATA)), tuple(src.many(cond, 1, 3, 30))))
    src.many(one, 1, 4, 60)
    return (src.pick(sorted(DATA)), tuple(joins))


CMP3 = {'EQ': lambda a, b: a == b, 'NE': lambda a, b: a != b, 'GT': lambda a, b: a > b, 'LT': lambda a, b: a < b, 'GE': lambda a, b: a >= b, 'LE': lambda a, b: a <= b}
_db = []


def check_run(spec):
    base, joins = spec
    use('sqlite')
    if not _db:
        _db.append(database(['CREATE TABLE %s (id INTEGER, x INTEGER)' % t for t in DATA]
                            + ['INSERT INTO %s VALUES (%s)' % (t, ', '.join('NULL' if x is None else str(x) for x in row)) for t in DATA for row in DATA[t]]))
    cols = [('b', 'id'), ('b', 'x')]
    q = s.select_from((base, 'b'))
    rows = [dict(b=r) for r in DATA[base]]
    null = (None, None)
    for n, (kind, table, conds) in enumerate(joins):
        me = 'j%d' % n
        cols += [(me, 'id'), (me, 'x')]
        getattr(q, kind)((table, me))
        for left, op, right, style in conds:
            lname = '%s.%s' % left
            value = '%s.%s' % right if isinstance(right, tuple) else right
            if op != 'EQ' or style == 1:
                value = getattr(rel, op)(value)
            if style == 2:
                q.on({lname: value})
            else:
                q.on(lname, value)

        def match(row):
            for left, op, right, _ in conds:
                a = row[left[0]][('id', 'x').index(left[1])]
                b = row[right[0]][('id', 'x').index(right[1])] if isinstance(right, tuple) else right
                if a is None or b is None or not CMP3[op](a, b):
                    return False
            return True
        out, used = [], set()
        for row in rows:
            hit = False
            for i, r in enumerate(DATA[table]):
                new = dict(row, **{me: r})
                if match(new):
                    hit = True
                    used.add(i)
                    out.append(new)
            if not hit and kind == 'left_join':
                out.append(dict(row, **{me: null}))
        if kind == 'right_join':
            for i, r in enumerate(DATA[table]):
                if i not in used:
                    new = {k: null for k in ['b'] + ['j%d' % m for m in range(n)]}
                    new[me] = r
                    out.append(new)
        rows = out
    q.columns(*['%s.%s' % c for c in cols])
    key = lambda r: tuple((x is None, x or 0) for x in r)
    want = sorted((tuple(row[a][('id', 'x').index(c)] for a, c in cols) for row in rows), key=key)
    text = render(q)
    got = sorted(run(_db[0], text), key=key)
    need(got == want, '%r gives %r, expected %r', text, got[:10], want[:10])
    return ['%d joins' % len(joins)] + (['rich'] if len(joins) > 1 or len(joins[0][2]) > 1 else [])


# ---------------------------------------------------------------- many joins, many conditions

def gen_bulk(src):
    return (src.pick(DIALECTS), src.pick(['select', 'update', 'delete']), src.pick(['joins', 'conditions', 'repeated', 'tables']),
            src.weighted((3, lambda: src.between(4, 40)), (1, lambda: src.pick([x for x in gen.SHORT_LENGTHS if 2 < x < 260]))), src.between(1, 5))


def check_bulk(spec):
    d, kind, what, n, k = spec
    use(d)
    first = ('table', 't', None) if kind == 'update' else ('from_', 'args', (('t', None),))
    ops = [first]
    if what == 'joins':
        for i in range(min(n, 80)):
            ops += [('join', ['join', 'left_join', 'right_join'][i % 3], 'u%d' % i, 'a%d' % i if i % 2 else None, 'tuple'), ('on', ('pairs', 'pair', (('t.id', 'u%d.id' % (i // k)),)))]
    elif what == 'conditions':
        ops += [('join', 'left_join', 'u', None, 'str')] + [('on', ('pairs', 'pair', (('t.c%d' % (i // k), ('rel', RELS[i % 6], 'v', 'u.c%d' % i)),))) for i in range(n)]
    elif what == 'repeated':
        for i in range(min(n, 60)):
            ops += [('join', 'join' if i % 7 == 3 else 'left_join', 'u%d' % (i % k), None, 'str'), ('on', ('pairs', 'pair', (('t.id', 'u%d.id' % (i % k)),)))]
    else:
        for i in range(n):
            ops += [('table', 't%d' % i, None) if kind == 'update' else ('from_', 'args', (('t%d' % i, None),)), ('join', 'join', 'u', None, 'str'), ('on', ('pairs', 'pair', (('a', 'b'),)))]
    ops += {'select': [], 'update': [('set', 'pair', (('a', 1),)), ('where', ('pairs', 'pair', (('w', 1),)))], 'delete': [('where', ('pairs', 'pair', (('w', 1),)))]}[kind]
    compare_with_model((kind, tuple(ops)), d)
    return [d, kind, what, 'rich']


TESTS = [
    Test('joins', gen_joins, check_joins, quick=30000, nontrivial={'rich'}),
    Test('refused', gen_refused, check_refused, quick=1500, nontrivial={'rich'}),
    Test('run', gen_run, check_run, quick=4000, nontrivial={'rich'}),
    Test('bulk', gen_bulk, check_bulk, quick=500, nontrivial={'rich'}),
    Test('near', near.gen_query('joins', 'joins', 'on'), near.check_query, quick=5000),
]
