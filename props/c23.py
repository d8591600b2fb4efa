"""Sorting, grouping and paging."""
from vlib import bulk, gen, near
from vlib.pbt import Test, Invalid
from vlib.lib import s, rel, DIALECTS, use, render, need
from vlib.model import build, b_func
from vlib.common import compare_with_model, parsed, database, run
from vlib.history import Handle
from vlib.qgen import G, SORTS

RULE = ('Histories of 1-14 order_by, group_by, limit and offset calls (also mixed with other calls, with copies and renderings in between) over few or many (up to 40) '
        'names and expressions, in all styles of arguments and spellings of the direction, compared with the model on all databases; executed on SQLite tables of '
        'up to 25 rows with ties and compared with sorting and slicing in Python; a case is non-trivial if something is requested again or there are at least two calls.')


class Few(G):
    """Sort columns from a small pool, so that they are requested repeatedly."""
    pool = 3

    def pos(self):
        src = self.src
        k = src.n(100)
        if k < self.exprs:
            return self.src.pick([('C', 'raw'), ('C', 'a'), ('R', 'b'), ('F', 'count', (), ()), ('F', 'avg', (), ('a',)), ('F', 'avg_distinct', (), ('a',)),
                                  ('F', 'concat', (), ('a', 'b')), ('V', 'a'), ('V', 1), 1, 2, 10])
        if k > 95:
            return super().pos()
        return src.pick(['a', 'b', 't.a', 'A', 'asc', 'desc', 'a.b', 'DESC', 'ab'] if self.pool == 3 else ['c%d' % src.n(40)])

    def orders(self, method, nokwds=False):
        src = self.src
        hi = 4 if self.pool == 3 else 30
        pairs = tuple(src.many(lambda: (self.pos(), src.pick(SORTS)), 1, hi, 50 if self.pool == 3 else 92))
        return (method, self.one_style(pairs, nokwds), pairs)


def gen_history(src):
    d = src.pick(DIALECTS)
    g = Few(src, d, plain=90, exprs=20, depth=1)
    if src.chance(15):
        g.pool = 40
    w = dict(order_by=30, group_by=20, limit=20, columns=4, where=4, from_=4, option=3, having=3, join=0, on=0, outfile=2)
    if src.chance(20):
        w = dict(w, order_by=0, group_by=0, limit=40)
    q = g.select(lo=1, hi=14, cont=85, weights=w)
    looks = tuple(src.many(lambda: (src.n(14), src.n(6)), 0, 3))
    return (d, q, looks)


def check_history(spec):
    d, q, looks = spec
    use(d)
    h = Handle('select', q[1][:1], d)
    at = {}
    for i, how in looks:
        at.setdefault(i, []).append(how)
    seen = []
    for i, op in enumerate(q[1][1:]):
        for how in at.get(i, ()):
            if how == 5:
                h = h.copy()
            else:
                h.verify(how)
        h.apply(op)
    h.verify()
    h.copy().verify()
    for op in q[1]:
        if op[0] in ('order_by', 'group_by'):
            seen += [(op[0], repr(c)) for c, _ in op[2]]
    labels = [d]
    if len(set(seen)) < len(seen):
        labels.append('repeated')
    if sum(op[0] in ('order_by', 'group_by', 'limit', 'offset') for op in q[1]) > 1:
        labels.append('more calls')
    return labels


# ---------------------------------------------------------------- order inside of group concatenation

def gen_concat(src):
    d = src.pick(DIALECTS)
    g = Few(src, d, plain=90, exprs=20, depth=1)
    mods = tuple(src.many(lambda: g.orders('order_by', nokwds=True), 1, 4, 60))
    if src.chance(30):
        mods += (('separator', g.string()),)
    q = ('select', (('columns', 'args', ((('F', 'group_concat', mods, ('z',)), None),)),))
    return (d, q)


def check_concat(spec):
    d, q = spec
    use(d)
    compare_with_model(q, d)
    mods = q[1][0][2][0][0][2]
    return [d, 'repeated' if len(mods) > 1 else 'single']


# ---------------------------------------------------------------- execution

COLS = ('a', 'b', 'c', 'd', 'id')


def gen_run(src):
    rows = tuple(src.many(lambda: tuple(src.n(4) for _ in COLS[:-1]), 1, 25, 92))
    g = G(src, 'sqlite', plain=100)

    def orders():
        pairs = tuple(src.many(lambda: (src.pick(COLS[:-1]), src.pick(SORTS)), 1, 3, 50))
        return ('order_by', g.one_style(pairs), pairs)

    def page():
        return src.weighted(
            (10, lambda: ('limit', (src.n(30),))),
            (6, lambda: ('limit', (src.n(30), src.n(30)))),
            (2, lambda: ('limit', (src.n(30), None))),
            (2, lambda: ('limit', (None,))),
            (1, lambda: ('limit', (None, src.n(30)))),
            (6, lambda: ('offset', src.n(30))),
            (2, lambda: ('offset', None)),
            (2, lambda: ('offset', 0)),
        )
    ops = src.many(lambda: orders() if src.chance(55) else page(), 1, 9, 75)
    group = tuple(src.many(lambda: src.pick(COLS[:-1]), 1, 3)) if src.chance(25) else None
    return (rows, tuple(ops), group)


def wanted(ops):
    order, limit, offset = [], None, None
    for op in ops:
        if op[0] == 'order_by':
            pairs = list(op[2])
            if op[1] in ('dict', 'kwds', 'odict', 'dict+kwds', 'odict+kwds'):
                head = pairs[:-1] if '+' in op[1] else pairs
                tail = pairs[len(head):]
                head = list(dict(head).items())
                if 'odict' not in op[1]:
                    head.sort(key=lambda p: p[0])
                pairs = head + tail
            for c, dirn in pairs:
                down = (dirn or 'asc').lower() == 'desc'
                for o in order:
                    if o[0] == c:
                        o[1] = down
                        break
                else:
                    order.append([c, down])
        elif op[0] == 'limit':
            if op[1][0] is None:
                limit = offset = None
            else:
                limit = op[1][0]
                if len(op[1]) > 1 and op[1][1] is not None:
                    offset = op[1][1]
        else:
            offset = op[1]
    return order, limit, offset or 0


def check_run(spec):
    rows, ops, group = spec
    use('sqlite')
    order, limit, offset = wanted(ops)
    if limit is None and offset:
        ops += (('limit', (1000,)),)       # SQLite has no OFFSET without LIMIT
    table = [r + (i,) for i, r in enumerate(rows)]
    db = database(['create table t (a int, b int, c int, d int, id int)'])
    db.executemany('insert into t values (?, ?, ?, ?, ?)', table)
    if group is None:
        q = build(('select', (('from_', 'args', (('t', None),)),) + tuple(ops) + (('order_by', 'args', (('id', None),)),)), 'sqlite')
        expected = sorted(table, key=lambda r: r[4])
    else:
        cols = list(dict.fromkeys(group))
        order = [o for o in order if o[0] in cols]
        ops = tuple((op[0], op[1], tuple(p for p in op[2] if p[0] in cols)) if op[0] == 'order_by' else op for op in ops)
        ops = tuple(('order_by', 'tuples', op[2]) if op[0] == 'order_by' else op for op in ops if op[0] != 'order_by' or op[2])
        order, _, _ = wanted(ops)
        q = build(('select', (('columns', 'args', tuple((c, None) for c in cols) + ((('F', 'count', (), ()), None),)), ('from_', 'args', (('t', None),)),
                              ('group_by', 'args', tuple((c, None) for c in group))) + ops + (('order_by', 'args', tuple((c, None) for c in cols if c not in [o[0] for o in order])),)), 'sqlite') \
            if any(c not in [o[0] for o in order] for c in cols) else \
            build(('select', (('columns', 'args', tuple((c, None) for c in cols) + ((('F', 'count', (), ()), None),)), ('from_', 'args', (('t', None),)),
                              ('group_by', 'args', tuple((c, None) for c in group))) + ops), 'sqlite')
        counts = {}
        for r in table:
            key = tuple(r[COLS.index(c)] for c in cols)
            counts[key] = counts.get(key, 0) + 1
        expected = sorted(k + (n,) for k, n in counts.items())
    index = COLS if group is None else cols
    for c, down in reversed(order):
        at = list(index).index(c)
        expected = sorted(expected, key=lambda r: r[at], reverse=False) if not down else sorted(expected, key=lambda r: -r[at])
    expected = expected[offset:]
    if limit is not None:
        expected = expected[:limit]
    text = render(q)
    got = run(db, text)
    need(got == expected, '%r returns %r, expected %r', text, got, expected)
    labels = []
    if order and (limit is not None or offset):
        labels.append('ordered page')
    if len(ops) > 1:
        labels.append('more calls')
    return labels or ['simple']


TESTS = [
    Test('history', gen_history, check_history, quick=20000, nontrivial={'repeated', 'more calls'}),
    Test('concat', gen_concat, check_concat, quick=4000, nontrivial={'repeated'}),
    Test('run', gen_run, check_run, quick=8000, nontrivial={'ordered page', 'more calls'}),
    Test('near', near.gen_query('order_by', 'group_by'), near.check_query, quick=3000),
    Test('bulk', bulk.generator('order_by', 'group_by'), bulk.check, quick=300),
]
