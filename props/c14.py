"""UPDATE and DELETE."""
from vlib import bulk, gen, near
from vlib.pbt import Test
from vlib.lib import s, DIALECTS, use, render, need
from vlib.model import build, apply_op, start, call_args, b_pos_key, b_none
from vlib.common import compare_with_model, database, run
from vlib.threevl import dedupe_dict_forms
from vlib.qgen import G
from .c05 import CG, EV, ROWS, COLS, U, gen_form
from .c13 import stored

RULE = ('UPDATEs and DELETEs with 1-5 calls of set and where in all styles, in any order, with repeated columns, joins and targets, parsed on all databases and '
        'executed on SQLite over a table of all 256 combinations of values; a case is non-trivial if there are at least two calls, or a repeated column.')

SETCOLS = ('a', 'b', 'c', 'name', 'mark', 'note')
# The same column for SQLite.
SPELLED = {c: (c,) * 6 + (c.upper(), '"%s"' % c, c.title()) for c in SETCOLS}
_db = []


def db():
    if not _db:
        _db.append(database(
            ['CREATE TABLE t (id, a, b, c, name, mark, note)', 'CREATE TABLE u (x)', 'CREATE TABLE other (id, a)', 'INSERT INTO other VALUES (1, 1), (2, 2)']
            + ['INSERT INTO u VALUES (%s)' % ('NULL' if x is None else x) for x in U]))
        _db[0].executemany("INSERT INTO t VALUES (?, ?, ?, ?, ?, 0, 'n')", [(r['id'], r['a'], r['b'], r['c'], r['name']) for r in ROWS])
    return _db[0]


def gen_update(src):
    g = CG(src, 'sqlite', depth=1, texts=0, plain=100, exprs=0)

    def val():
        return src.weighted(
            (30, lambda: src.between(-3, 9)),
            (10, lambda: src.pick(['x', '', "it's", 'a\\b', 'NULL'])),
            (8, None),
            (4, lambda: bool(src.n(2))),
            (10, lambda: ('R', src.pick(COLS))),
            (6, lambda: ('C', src.pick(['"a" + 1', '2 + 3', "'raw'"]))),
            (4, lambda: ('V', src.pick([5, 'v', None]))),
            (3, lambda: gen.bytes_(src)),
            (8, lambda: gen.twin(src)),
        )

    def set_():
        if src.chance(6):
            return ('set', 'C', '"%s" = %d' % (src.pick(SETCOLS), src.n(4)))
        pairs = tuple(src.many(lambda: (src.pick(SPELLED[src.pick(cols)]), val()), 1, 4, 45))
        return ('set', g.two_style(pairs), pairs)
    cols = SETCOLS if src.n(2) else src.shuffled(SETCOLS)[:2]
    if src.chance(12):
        # the same few assignments again and again
        c, v = src.pick(cols), src.n(3)
        few = [('set', 'pair', ((c, v),)), ('set', 'pair', ((c, v),)), ('set', 'pair', ((c, v + 1),)), ('set', 'C', '"%s" = %d' % (c, v + 1)), ('set', 'pair', ((c.upper(), v),)),
               ('set', 'pair', ((c, str(v)),)), ('set', 'pair', ((src.pick(cols), v),))]
        return ('update', tuple(src.many(lambda: src.pick(few), 2, 6, 75)), src.n(3))
    ops = src.many(set_, 1, 4, 50) + src.many(lambda: ('where', gen_form(src, g)), 0, 3, 55)
    return ('update', tuple(src.shuffled(ops)), src.n(3))


def gen_delete(src):
    g = CG(src, 'sqlite', depth=1, texts=0, plain=100, exprs=0)
    return ('delete', tuple(src.many(lambda: ('where', gen_form(src, g)), 1, 4, 45)), src.n(3))


RAW = {'"a" + 1': lambda r: None if r['a'] is None else r['a'] + 1, '2 + 3': lambda r: 5, "'raw'": lambda r: 'raw'}


def new_value(v, row):
    if isinstance(v, tuple):
        if v[0] == 'R':
            return row[v[1]]
        if v[0] == 'C':
            return RAW[v[1]](row)
    return stored(v)


def check_run(spec):
    kind, ops, mode = spec
    use('sqlite')
    q = s.update('t').allow_update_all() if kind == 'update' else s.delete_from('t').allow_delete_all()
    for i, op in enumerate(ops):
        apply_op(q, op, 'sqlite')
        if mode == 1 and (kind == 'delete' or i):
            repr(q)
        if mode == 2 and i == len(ops) // 2:
            q = q.copy()
    text = render(q)
    forms = [dedupe_dict_forms(op[1]) for op in ops if op[0] == 'where']
    hit = {r['id'] for r in ROWS if EV.all(r, forms, 'sqlite') is True}
    assigned = {}
    for op in ops:
        if op[0] == 'set' and op[1] == 'C':
            c, v = op[2].split(' = ')
            assigned[c.strip('"')] = int(v)
        elif op[0] == 'set':
            for c, v in call_args(op[1], op[2], 'sqlite', b_pos_key, b_none)[2]:
                assigned[c.strip('"').lower()] = v
    want = []
    for r in ROWS:
        row = dict(r, mark=0, note='n')
        if r['id'] in hit:
            if kind == 'delete':
                continue
            row.update({c: new_value(v, dict(row)) for c, v in assigned.items()})
        want.append((r['id'],) + tuple(row[c] for c in SETCOLS))
    d = db()
    d.execute('BEGIN')
    try:
        run(d, text)
        got = d.execute('SELECT id, a, b, c, name, mark, note FROM t ORDER BY id').fetchall()
        rest = d.execute('SELECT * FROM other').fetchall() + d.execute('SELECT * FROM u').fetchall()
    finally:
        d.execute('ROLLBACK')
    need(len(got) == len(want), '%r leaves %d rows instead of %d', text, len(got), len(want))
    for g_, w in zip(got, want):
        need(g_ == w, '%r makes row %r, expected %r', text, g_, w)
    need(rest == [(1, 1), (2, 2)] + [(x,) for x in U], 'another table is changed by %r', text)
    cols = [c for op in ops if op[0] == 'set' and op[1] != 'C' for c, _ in op[2]]
    return [kind, 'all rows' if len(hit) == len(ROWS) else 'no row' if not hit else 'some rows'] + (['rich'] if len(ops) > 1 or len(set(cols)) < len(cols) else [])


# ---------------------------------------------------------------- all databases

def gen_tree(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=85, texts=15, exprs=15)
    kind = src.pick(['update', 'delete'])
    q = getattr(g, kind)(where=100, joins=30)
    ops = list(q[1])
    if kind == 'update' and src.chance(15):
        ops.insert(src.n(2), ('table', g.table(), None))
    if kind == 'delete' and src.chance(20):
        ops.append(('targets', tuple(src.many(g.table, 1, 2))))
    if src.chance(20):
        ops.append(('raw', src.pick(['allow', 'forbid']) + '_%s_all' % kind))
    return (d, (kind, tuple(ops)))


def check_tree(spec):
    d, q = spec
    use(d)
    # a condition which is really there
    q = (q[0], q[1] + (('where', ('pairs', 'pair', (('w', 1),))),))
    compare_with_model(q, d)
    n = sum(op[0] in ('set', 'where', 'targets', 'join') for op in q[1])
    return [d, q[0]] + (['rich'] if n > 2 else [])


# ---------------------------------------------------------------- order of independent calls

def gen_order(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=95, texts=10, exprs=15)
    kind = src.pick(['update', 'delete'])
    q = getattr(g, kind)(where=100)
    groups = {}
    for op in q[1]:
        groups.setdefault(group(op), []).append(op)
    order = []
    left = {k: len(v) for k, v in groups.items()}
    while left:
        k = src.pick(sorted(left))
        order.append(k)
        left[k] -= 1
        if not left[k]:
            del left[k]
    return (d, q, tuple(order))


def group(op):
    return {'from_': 'tables', 'from_table': 'tables', 'from_tables': 'tables', 'table': 'tables', 'join': 'tables', 'on': 'tables', 'opt': 'options'}.get(op[0], op[0])


def check_order(spec):
    d, q, order = spec
    use(d)
    allow = ('raw', 'allow_%s_all' % q[0])
    a = build((q[0], q[1] + (allow,)), d)
    groups = {}
    for op in q[1]:
        groups.setdefault(group(op), []).append(op)
    b = s.update(None) if q[0] == 'update' else s.delete()
    apply_op(b, allow, d)
    for k in order:
        apply_op(b, groups[k].pop(0), d)
    need(render(a) == render(b), 'order of independent calls matters: %r and %r', render(a), render(b))
    return [d, q[0]] + (['rich'] if len(set(order)) > 2 else [])


# ---------------------------------------------------------------- many items

def gen_bulk(src):
    n = src.weighted((3, lambda: src.between(5, 60)), (2, lambda: src.pick([x for x in gen.SHORT_LENGTHS if 5 < x < 400])))
    return (src.pick(DIALECTS), src.pick(['set', 'set_calls', 'where', 'where_calls', 'delete', 'delete_calls', 'targets', 'reset']), n, src.n(4), src.between(1, 9))


def check_bulk(spec):
    d, what, n, style, k = spec
    use(d)
    st = ['list', 'tuplelist', 'dict', 'kwds'][style]
    names = ['c%d' % ((i * k) % n if n % k else i) for i in range(n)]
    head = [('table', 't', None)]
    many = tuple((x, i) for i, x in enumerate(names))
    one = ('where', ('pairs', 'pair', (('w', 1),)))
    if what == 'set':
        q = ('update', head + [('set', st, many), one])
    elif what == 'set_calls':
        q = ('update', head + [('set', 'pair', (p,)) for p in many] + [one])
    elif what == 'reset':
        q = ('update', head + [('set', 'pair', (('c%d' % (i % k), i % 3),)) for i in range(n)] + [one])
    elif what == 'where':
        q = ('update', head + [('set', 'pair', (('a', 1),)), ('where', ('pairs', st, many))])
    elif what == 'where_calls':
        q = ('update', head + [('set', 'pair', (('a', 1),))] + [('where', ('pairs', 'pair', (p,))) for p in many])
    elif what == 'delete':
        q = ('delete', [('from_', 'args', (('t', None),)), ('where', ('pairs', st, many))])
    elif what == 'delete_calls':
        q = ('delete', [('from_', 'args', (('t', None),))] + [('where', ('pairs', 'pair', (p,))) for p in many])
    else:
        q = ('delete', [('targets', tuple(names)), ('from_', 'args', (('t', None),)), one])
    compare_with_model((q[0], tuple(q[1])), d)
    return [d, what, 'rich']


TESTS = [
    Test('update', gen_update, check_run, quick=8000, nontrivial={'rich'}),
    Test('delete', gen_delete, check_run, quick=5000, nontrivial={'rich'}),
    Test('tree', gen_tree, check_tree, quick=14000, nontrivial={'rich'}),
    Test('order', gen_order, check_order, quick=4000, nontrivial={'rich'}),
    Test('bulk', gen_bulk, check_bulk, quick=400, nontrivial={'rich'}),
    Test('near', near.gen_query('set', 'set', 'where', 'joins'), near.check_query, quick=6000),
    Test('many', bulk.generator('set', 'delete'), bulk.check, quick=200),
]
