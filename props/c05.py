"""Boolean structure of conditions."""
import itertools

from vlib.pbt import Test, Invalid
from vlib.lib import s, DIALECTS, use, render, need
from vlib.common import compare_with_model, database, run
from vlib.qgen import G, CMP
from vlib.model import b_cond, b_conds, CUSTOM
from vlib.threevl import Eval, dedupe_dict_forms, cmp3
from vlib import bulk, gen, near

RULE = ('Trees of conditions of up to 40 connectives from Q, &, |, Not, EXISTS, custom SQL and plain conditions in all argument styles, spread over 1-5 '
        'calls in WHERE, HAVING or ON, and chains of up to 257 Q objects or calls; a case is non-trivial if there are at least two conditions and one of |, NOT, EXISTS or custom SQL, or conditions '
        'from more than one call.')
ASSUMPTIONS = ['AND is commutative and associative; a repeated identical term of AND or OR may be left out',
               'custom SQL conditions do not contain an operator of lower priority than comparison']


def structure(forms):
    """Labels of the forms."""
    text = repr(forms)
    out = []
    if "('|'" in text:
        out.append('or')
    if "('&'" in text:
        out.append('and')
    if "('not'" in text:
        out.append('not')
    if "('exists'" in text or "('custom'" in text:
        out.append('exists')
    if len(forms) > 1:
        out.append('calls')
    if "'empty'" in text:
        out.append('empty')
    return out


class NG(G):
    """Without texts: those are columns in some join conditions."""

    def scalar(self, bytes_=False, bool_=True, none=True):
        v = super().scalar(bytes_, bool_, none)
        return 7 if isinstance(v, str) else v

    def members(self, none=20, lo=1):
        return [7 if isinstance(v, str) else v for v in super().members(none, lo)]

    def relation(self):
        src = self.src
        return src.weighted(
            (40, lambda: ('rel', src.pick(CMP), 'v', self.scalar(none=False, bool_=False))),
            (20, self.inrel),
            (10, lambda: ('rel', src.pick(('IS', 'IS_NOT')), 'v', src.pick([None, True, False]))),
        )


def gen_form(src, g, on=False):
    if on and src.chance(40):
        return g.form(on=True)
    return src.weighted(
        (0 if on else 30, lambda: g.form()),
        (10, g.objs),
        (40, lambda: ('obj', g.cond(src.weighted((5, lambda: src.n(4)), (4, lambda: src.between(3, 8)), (1, lambda: src.between(8, 40)))))),
        (10, lambda: ('obj', chain(src, g, src.between(2, 9)))),
    )


def chain(src, g, n):
    """Left or right deep chain of alternating operators."""
    c = g.qtree(0)
    right = src.n(2)
    for _ in range(n):
        op = src.pick('&|')
        x = g.qtree(0)
        c = (op, x, c) if right else (op, c, x)
    return c


def gen_tree(src):
    d = src.pick(DIALECTS)
    where = src.pick(['where', 'where', 'having', 'on', 'update', 'delete'])
    g = (NG if where == 'on' else G)(src, d, depth=2, texts=3, plain=97, exprs=5)
    forms = src.many(lambda: gen_form(src, g, where == 'on'), 1, 5, 35)
    return (d, where, tuple(forms))


def check_tree(spec):
    d, where, forms = spec
    use(d)
    if where == 'on':
        ops = (('from_', 'args', (('t', None),)), ('join', 'left_join', 'u', None, 'str')) + tuple(('on', f) for f in forms)
        q = ('select', ops)
    elif where in ('where', 'having'):
        q = ('select', (('from_', 'args', (('t', None),)),) + tuple((where, f) for f in forms))
    elif where == 'update':
        q = ('update', (('table', 't', None), ('set', 'kwds', (('z', 1),)), ('raw', 'allow_update_all')) + tuple(('where', f) for f in forms))
    else:
        q = ('delete', (('from_', 'args', (('t', None),)), ('raw', 'allow_delete_all')) + tuple(('where', f) for f in forms))
    compare_with_model(q, d)
    return [d, where] + structure(forms)


# ---------------------------------------------------------------- execution

COLS = ('a', 'b', 'c', 'name')
ROWS = [dict(zip(COLS, vals), id=i) for i, vals in enumerate(itertools.product([None, 0, 1, 2], repeat=4))]
U = (0, 2, None)     # table u(x)
RAWS = {
    'a = 1': lambda r: cmp3('=', r['a'], 1),
    'b > c': lambda r: cmp3('>', r['b'], r['c']),
    'c IS NULL': lambda r: r['c'] is None,
    'name = 1 + 1': lambda r: cmp3('=', r['name'], 2),
    'a': lambda r: None if r['a'] is None else bool(r['a']),
    't.b <= 1': lambda r: cmp3('<=', r['b'], 1),
}
EXISTS = {
    'u.x = t.a': (lambda: s.exists(s.select('x').from_('u').where('u.x', s.R('t.a'))), lambda r: r['a'] in (0, 2)),
    'none': (lambda: s.exists(s.select('x').from_('u').where(x=7)), lambda r: False),
    'some': (lambda: s.exists(s.select('x').from_('u').where(s.Q(x=0) | s.Q(x=7))), lambda r: True),
    'null and': (lambda: s.exists(s.select('x').from_('u').where(s.Q('u.x', s.R('t.b')) | s.Q(x=None), s.Q('t.c', 1))), lambda r: r['c'] == 1),
}

CUSTOM.update((k, v[0]) for k, v in EXISTS.items())


class CG(G):
    """Conditions on the columns of the table with small numbers."""

    def condcol(self):
        src = self.src
        return src.weighted((20, lambda: src.pick(COLS)), (2, lambda: ('R', src.pick(COLS))), (2, lambda: 't.' + src.pick(COLS)))

    def name(self, dots=True):
        return self.src.pick(COLS)

    def num(self):
        return self.src.n(3)

    def members(self, none=25, lo=1):
        src = self.src
        return src.many(lambda: None if src.chance(none) else src.n(3), lo, 4, 55)

    def condval(self):
        src = self.src
        return src.weighted(
            (30, self.num),
            (8, None),
            (10, self.members),
            (2, lambda: ('tup', tuple(self.members()))),
            (2, lambda: ('gen', tuple(self.members()))),
            (2, lambda: range(src.n(2), src.between(2, 3))),
            (20, lambda: ('rel', src.pick(CMP), 'v', self.num())),
            (6, lambda: ('rel', src.pick(CMP), 'v', ('R', src.pick(COLS)))),
            (10, self.inrel),
            (6, lambda: ('rel', src.pick(('IS', 'IS_NOT')), 'v', None)),
            (4, lambda: ('R', src.pick(COLS))),
            (2, lambda: ('V', self.num())),
        )

    def inrel(self):
        src = self.src
        name = src.pick(('IN', 'NOT_IN'))
        style = src.pick(['v', 'list', 'tuple', 'gen', 'args'])
        m = tuple(self.members(lo=2 if style == 'args' else 1))
        return ('rel', name, style, list(m) if style == 'v' else m)

    def onval(self):
        return self.condval()

    def form(self, simple=False, on=False):
        return super().form(simple=on or simple, on=on)

    def cond(self, size):
        src = self.src
        return src.weighted(
            (50, lambda: self.qtree(size)),
            (20 if self.depth > 0 else 0, self.not_),
            (10, lambda: ('C', src.pick(sorted(RAWS)))),
            (8, lambda: ('custom', src.pick(sorted(EXISTS)))),
        )


def extra(ev, row, c):
    if c[0] == 'C':
        return RAWS[c[1]](row)
    if c[0] == 'custom':
        return EXISTS[c[1]][1](row)
    raise TypeError(c)


EV = Eval(extra)


_db = []


def gen_exec(src):
    where = src.pick(['where', 'where', 'having', 'on', 'update', 'delete'])
    g = CG(src, 'sqlite', depth=2, texts=0, plain=100, exprs=0)
    return (where, tuple(src.many(lambda: gen_form(src, g, where == 'on'), 1, 4, 35)))


def check_exec(spec):
    where, forms = spec
    if not _db:
        _db.append(database(
            ['CREATE TABLE t (id, a, b, c, name, mark)', 'CREATE TABLE u (x)', 'CREATE TABLE o (y)', 'INSERT INTO o VALUES (1)']
            + ['INSERT INTO u VALUES (%s)' % ('NULL' if x is None else x) for x in U]))
        _db[0].executemany('INSERT INTO t VALUES (?, ?, ?, ?, ?, 0)', [(r['id'], r['a'], r['b'], r['c'], r['name']) for r in ROWS])
    db = _db[0]
    use('sqlite')
    if where == 'on':
        # inner join with one row: rows on which the condition is true
        q = s.select('t.id').from_('t').join('o')
        call = q.on
    elif where == 'having':
        q = s.select('id').from_('t').group_by('id')
        call = q.having
    elif where == 'update':
        q = s.update('t').set(mark=1).allow_update_all()
        call = q.where
    elif where == 'delete':
        q = s.delete_from('t').allow_delete_all()
        call = q.where
    else:
        q = s.select('id').from_('t')
        call = q.where
    for f in forms:
        b_conds(f, 'sqlite', call)
    sql = render(q)
    real = [dedupe_dict_forms(f) for f in forms]
    want = [r['id'] for r in ROWS if EV.all(r, real, 'sqlite') is True]
    if where in ('update', 'delete'):
        db.execute('BEGIN')
        try:
            run(db, sql)
            got = [r[0] for r in db.execute('SELECT id FROM t WHERE mark = 1' if where == 'update' else 'SELECT id FROM t')]
        finally:
            db.execute('ROLLBACK')
        if where == 'delete':
            left = set(got)
            got = [r['id'] for r in ROWS if r['id'] not in left]
    else:
        got = [r[0] for r in run(db, sql)]
    need(sorted(got) == want, '%r selects %d rows instead of %d', sql, len(got), len(want))
    return [where] + structure(forms) + (['all rows'] if len(want) == len(ROWS) else ['no row'] if not want else ['some rows'])


# ---------------------------------------------------------------- hundreds of conditions

def gen_long(src):
    d = src.pick(DIALECTS)
    where = src.pick(['where', 'having', 'update', 'delete'])
    n = src.pick([20, 41, 64, 100, 130, 200, 257])
    n = max(2, n - src.n(3))
    how = src.n(4)
    leaf = lambda i: ('q', ('pairs', 'kwds', (('c%d' % (i if src.chance(90) else 1), i),)))
    if how == 3:
        forms = tuple(('pairs', 'kwds', (('c%d' % i, i),)) if src.chance(90) else ('obj', ('|', leaf(i), leaf(i + 1))) for i in range(n))
        return (d, where, forms)
    op = src.pick('&|')
    mix = src.pick([0, 0, 5, 50])
    c = leaf(0)
    for i in range(1, n):
        o = src.pick('&|') if src.chance(mix) else op
        c = (o, leaf(i), c) if how == 1 or (how == 2 and src.n(2)) else (o, c, leaf(i))
    return (d, where, (('obj', c),) + tuple(src.many(lambda: ('pairs', 'kwds', (('z', src.n(3)),)), 0, 2, 40)))


# ---------------------------------------------------------------- conditions used several times

def gen_pool(src):
    d = src.pick(DIALECTS)
    g = G(src, d, depth=1, texts=3, plain=97, exprs=3)
    sizes = []

    def step():
        k = src.n(100)
        if len(sizes) < 2 or k < 15:
            sizes.append(1)
            return ('new', g.qtree(src.n(2)))
        recent = lambda: len(sizes) - 1 - src.n(min(3, len(sizes))) if src.chance(60) else src.n(len(sizes))
        if k < 82:
            i, j = recent(), recent()
            if sizes[i] + sizes[j] <= 40:
                sizes.append(sizes[i] + sizes[j])
                return ('join', src.pick('&|') if src.chance(35) else '&|'[src.n(100) < bias], i, j)
        i = recent()
        if k < 88:
            sizes.append(sizes[i])
            return ('copy', i)
        if k < 94:
            sizes.append(sizes[i])
            return ('q', i)
        return ('where', src.n(2)) + tuple(src.many(recent, 1, 3, 40)) + (src.pick([None, None, 'k']),)
    bias = src.pick([0, 100, 50])
    return (d, tuple(src.many(step, 3, 14, 92)), src.pick(['where', 'having', 'on', 'delete']))


def put(where):
    q = s.delete_from('t').allow_delete_all() if where == 'delete' else s.select('x').from_('t')
    if where == 'on':
        q.join('u')
    return q, getattr(q, 'where' if where == 'delete' else where)


def check_pool(spec):
    """Conditions made of other conditions, which are used again and again, mean what those made of their own ones do."""
    d, steps, where = spec
    use(d)
    pool = []
    queries, added = [put(where), put(where)], [[], []]
    for st in steps:
        if st[0] == 'new':
            pool.append((b_cond(st[1], d), st[1]))
        elif st[0] == 'join':
            (a, x), (b, y) = pool[st[2]], pool[st[3]]
            pool.append((a & b if st[1] == '&' else a | b, (st[1], x, y)))
        elif st[0] == 'copy':
            o, x = pool[st[1]]
            pool.append((o.copy(), x))
        elif st[0] == 'q':
            o, x = pool[st[1]]
            pool.append((s.Q(o), ('q', ('obj', x))))
        else:
            which, *ids, key = st[1:]
            kwds = {key: len(added[which])} if key else {}
            queries[which][1](*[pool[i][0] for i in ids], **kwds)
            added[which].append(([pool[i][1] for i in ids], kwds))
    for (query, _), calls in zip(queries, added):
        own, add_own = put(where)
        for xs, kwds in calls:
            add_own(*[b_cond(x, d) for x in xs], **kwds)
        need(render(query) == render(own), 'query with shared conditions is %r, with its own ones %r', render(query), render(own))
    for i, (o, x) in enumerate(pool):
        q, call = put(where)
        call(o)
        w, call = put(where)
        call(b_cond(x, d))
        need(render(q) == render(w), 'condition %d of %r gives %r, made anew %r', i, steps, render(q), render(w))
    if where in ('where', 'having'):
        compare_with_model(('select', (('columns', 'args', (('x', None),)), ('from_', 'args', (('t', None),)), (where, ('obj', pool[-1][1])))), d)
    return [d, where] + (['shared'] if sum(st[0] == 'join' for st in steps) > 1 else [])


NONTRIVIAL = {'or', 'not', 'exists', 'calls'}
TESTS = [
    Test('tree', gen_tree, check_tree, quick=28000, nontrivial=NONTRIVIAL),
    Test('long', gen_long, check_tree, quick=160, thorough=3000, nontrivial=NONTRIVIAL | {'and'}),
    Test('pool', gen_pool, check_pool, quick=4000, nontrivial={'shared'}),
    Test('sqlite', gen_exec, check_exec, quick=12000, nontrivial=NONTRIVIAL),
    Test('near', near.gen_query('where', 'where', 'having', 'on'), near.check_query, quick=6000),
    Test('bulk', bulk.generator('where', 'having', 'on', 'delete'), bulk.check, quick=300),
]
