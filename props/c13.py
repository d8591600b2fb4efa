"""INSERT stores exactly the given rows."""
import datetime
import decimal

from vlib import bulk, gen, near
from vlib.pbt import Test, Invalid
from vlib.lib import s, DIALECTS, use, render, need
from vlib.model import build, expect, enc_name, call_args, b_pos_key, b_none, b_val, as_reference
from vlib.common import compare_with_model, database, run, executable
from vlib.qgen import G

RULE = ('INSERTs of 1-6 rows (some with hundreds of rows or columns) in all styles of arguments with repeated and missing columns, parsed on all databases '
        'and executed on SQLite; a case is non-trivial if it has at least two rows or a column given more than once.')

POOL = ['a', 'b', 'c', 'id', 'name', 'Zed', 'a b', 'select', 'ab', 'aa', '_x', '10', '9', 'é', "it's", 'b-c', 'x;y', 'values', 'options', 'args', '%s', '{0}',
        'query', 'é中', 'tab\tx', 'group', ' lead', 'trail ', '  ', 'new\nline', 'b,c', '(x)', 'x' * 70]


def value(src, g):
    return src.weighted(
        (30, lambda: src.between(-5, 1000)),
        (35, lambda: gen.text(src, long=src.chance(30)) if src.chance(60) else src.pick(['x', '', 'abc', 'NULL', '1'])),
        (10, None),
        (6, lambda: bool(src.n(2))),
        (6, lambda: gen.simple_float(src)),
        (4, lambda: decimal.Decimal(src.between(-99999, 99999)).scaleb(-src.n(5))),
        (4, lambda: gen.date(src)),
        (4, lambda: gen.datetime_(src)),
        (5, lambda: gen.twin(src)),
        (5, lambda: gen.bytes_(src)),
        (3, lambda: src.pick([2 ** 63 - 1, -2 ** 63, 2 ** 53 + 1, 10 ** 18])),
        (6, lambda: ('V', src.pick([1, 'x', None, 2.5, "it's"]))),
        (4, lambda: ('C', src.pick(['1 + 1', "'raw'", 'NULL', 'abs(-3)']))),
        (3, lambda: ('S', ('select', (('columns', 'args', ((('V', src.pick([7, 'sub', None])), None),)),)))),
    )


def row(src, g, names):
    def pair():
        n = src.pick(names)
        return (n, value(src, g))
    if src.chance(5):
        return empty_row(src)
    pairs = tuple(src.many(pair, 1, 6, 65))
    return ('values', g.two_style(pairs), pairs)


def empty_row(src):
    """A row which names no column: all of them are NULL."""
    return ('values', src.pick(['kwds', 'dict', 'list', 'tuplelist', 'odict']), ())


def named(ops):
    """At least one column has to be named."""
    ops = tuple(ops)
    return ops if any(op[2] for op in ops if op[0] == 'values') else ops + (('values', 'kwds', (('a', 1),)),)


def gen_run(src):
    g = G(src, 'sqlite', plain=100, exprs=0)
    names = src.shuffled(POOL)[:src.between(1, 7)]
    ops = named(src.many(lambda: row(src, g, names), 1, 6, 60))
    return (tuple(sorted(set(names) | {k for op in ops for k, _ in op[2]})), ops)


C_VALUES = {'1 + 1': 2, "'raw'": 'raw', 'NULL': None, 'abs(-3)': 3}


def stored(v):
    """What SQLite should give back."""
    if isinstance(v, tuple):
        if v[0] == 'V':
            return stored(v[1])
        if v[0] == 'C':
            return C_VALUES[v[1]]
        return stored(v[1][1][0][2][0][0][1])
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (float, decimal.Decimal)):
        return float('%.5f' % v)
    if isinstance(v, (datetime.date, datetime.datetime)):
        return v.isoformat()
    if isinstance(v, str) and as_reference(v, 'sqlite'):
        raise Invalid
    return v


def same(a, b):
    return type(a) is type(b) and (a == b or (isinstance(a, float) and abs(a - b) < 1e-9 * max(1, abs(a))))


def rows_of(ops):
    return [dict(call_args(op[1], op[2], 'sqlite', b_pos_key, b_none)[2]) for op in ops]


def check_rows(q, rows, names):
    text = render(q)
    if not executable(text):
        raise Invalid
    # columns which are in no row must not be mentioned: they have a default
    cols = ', '.join('"%s" DEFAULT 4242' % n.replace('"', '""') for n in names)
    db = database(['CREATE TABLE t (%s)' % cols])
    run(db, text)
    got = run(db, 'SELECT * FROM t ORDER BY rowid')
    mentioned = {n for r in rows for n in r}
    want = [tuple((stored(r[n]) if n in r else None) if n in mentioned else 4242 for n in names) for r in rows]
    db.close()
    need(len(got) == len(want), '%d rows are stored instead of %d by %r', len(got), len(want), text[:300])
    for g_, w in zip(got, want):
        need(all(same(x, y) for x, y in zip(g_, w)), '%r stores %r, expected %r in columns %r', text[:500], g_, w, names)
    return text


def check_run(spec):
    names, ops = spec
    use('sqlite')
    rows = rows_of(ops)
    for r in rows:
        for v in r.values():
            stored(v)
    q = build(('insert', (('into', 't'),) + ops), 'sqlite')
    text = check_rows(q, rows, names)
    labels = ['%d rows' % len(rows)]
    if len(rows) > 1 or any(len(op[2]) != len(r) for op, r in zip(ops, rows)):
        labels.append('rich')
    return labels


# ---------------------------------------------------------------- all databases

def gen_tree(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=75, texts=30, exprs=15)
    ops = [('into', g.table())]

    def one():
        if src.chance(5):
            return empty_row(src)
        pairs = g.assignments(1, 5)
        return ('values', g.two_style(pairs), pairs)
    ops += named(src.many(one, 1, 6, 60))
    if src.chance(15):
        ops.append(('opt', 'ignore', src.pick([(), (True,), (False,)])))
    return (d, ('insert', tuple(ops)))


def spellings(q, d):
    """Is one column written in two ways (in quotes and without)?"""
    from vlib.model import a_name
    seen = {}
    for op in q[1]:
        if op[0] == 'values':
            for k, _ in op[2]:
                if seen.setdefault(a_name(k), enc_name(k, d)) != enc_name(k, d):
                    return True
    return False


def check_tree(spec):
    d, q = spec
    if spellings(q, d):
        raise Invalid
    use(d)
    compare_with_model(q, d)
    n = sum(op[0] == 'values' for op in q[1])
    names = [[enc_name(k, d) for k, _ in op[2]] for op in q[1] if op[0] == 'values']
    return [d] + (['rich'] if n > 1 or any(len(set(x)) < len(x) for x in names) else [])


# ---------------------------------------------------------------- order of rows, calls and columns

def gen_order(src):
    """The same rows given in another style and with columns in another order."""
    d = src.pick(DIALECTS)
    g = G(src, d, plain=100, texts=20, exprs=0)
    names = src.shuffled(POOL)[:src.between(1, 6)]
    rows, other = [], []
    for _ in range(src.between(1, 4)):
        pairs = tuple((n, value(src, g)) for n in src.shuffled(names)[:src.between(1, len(names))])
        rows.append(('values', g.two_style(pairs), pairs))
        pairs = tuple(src.shuffled(pairs))
        other.append(('values', g.two_style(pairs), pairs))
    return (d, tuple(rows), tuple(other), src.n(3))


def check_order(spec):
    d, rows, other, mode = spec
    use(d)
    a = build(('insert', (('into', 't'),) + rows), d)
    if mode == 1:
        render(a)
    if mode == 2:
        b = build(('insert', other + (('into', 't'),)), d)
    else:
        b = build(('insert', (('into', 't'),) + other), d)
    need(render(a) == render(b), 'the same rows give %r and %r', render(a), render(b))
    return [d] + (['rich'] if len(rows) > 1 else [])


# ---------------------------------------------------------------- columns given by custom SQL and references

def gen_objs(src):
    g = G(src, 'sqlite', plain=100, exprs=0)
    names = [n for n in src.shuffled(POOL) if '"' not in n][:src.between(2, 6)]
    kinds = tuple(src.pick(['str', 'str', 'C', 'R']) for _ in names)
    rows = tuple(tuple((i, value(src, g)) for i in src.shuffled(range(len(names)))[:src.between(1, len(names))]) for _ in range(src.between(1, 4)))
    return (tuple(names), kinds, rows, src.n(3), tuple(src.shuffled(range(6))))


def check_objs(spec):
    names, kinds, rows, style, order = spec
    use('sqlite')
    for r in rows:
        for _, v in r:
            stored(v)
    make = {'str': str, 'C': lambda n: s.C('"%s"' % n), 'R': lambda n: s.R('"%s"' % n)}
    cols = [make[k](n) for n, k in zip(names, kinds)]
    texts = []
    for row_order in (range(6), order):
        q = s.insert_into('t')
        for r in rows:
            r = sorted(r, key=lambda p: row_order.index(p[0])) if row_order is order else r
            pairs = [(cols[i], b_val(v, 'sqlite')) for i, v in r]
            if style == 0:
                q.values(pairs)
            elif style == 1:
                q.values(dict(pairs))
            elif len(pairs) == 1:
                q.values(*pairs[0])
            else:
                q.values(*pairs)
        texts.append(check_rows(q, [{names[i]: v for i, v in r} for r in rows], names))
    need(texts[0] == texts[1], 'the same rows give %r and %r', *texts)
    return ['rich'] if len(set(kinds[i] for r in rows for i, _ in r)) > 1 else []


# ---------------------------------------------------------------- nearly equal columns and values

def gen_near(src):
    d = src.pick(DIALECTS)
    pairs = near.assignments(src)
    if src.chance(50):
        ops = (('values', src.pick(['list', 'tuples', 'dict', 'kwds']), pairs),)
    else:
        ops = tuple(('values', src.pick(['pair', 'dict']), (p,)) for p in pairs)
    return (d, ('insert', (('into', 't'),) + ops))


def check_near(spec):
    d, q = spec
    use(d)
    compare_with_model(q, d)
    return [d, 'rich']


# ---------------------------------------------------------------- many rows and columns

def gen_bulk(src):
    n = src.weighted((3, lambda: src.between(5, 60)), (2, lambda: src.pick([x for x in gen.SHORT_LENGTHS if x > 5])))
    return (src.pick(['rows', 'columns', 'sparse', 'same']), n, src.n(4), src.between(1, 9))


def check_bulk(spec):
    what, n, style, k = spec
    use('sqlite')
    st = ['list', 'tuplelist', 'dict', 'kwds'][style]
    if what == 'rows':
        names = ['a', 'b']
        ops = [('values', st, (('a', i), ('b', 'x%d' % i)) if i % k else (('b', i),)) for i in range(n)]
    elif what == 'columns':
        n = min(n, 900)
        names = ['c%d' % i for i in range(n)]
        ops = [('values', st, tuple((x, i) for i, x in enumerate(names))), ('values', st, ((names[k % n], 'x'),))]
    elif what == 'sparse':
        n = min(n, 150)
        names = ['c%d' % i for i in range(n)]
        ops = [('values', st, ((names[(i * k) % n], i),)) for i in range(n)]
    else:
        names = ['a']
        ops = [('values', st, (('a', 'same'),))] * n
    q = build(('insert', (('into', 't'),) + tuple(ops)), 'sqlite')
    check_rows(q, rows_of(ops), names)
    return [what, 'rich']


TESTS = [
    Test('run', gen_run, check_run, quick=12000, nontrivial={'rich'}),
    Test('tree', gen_tree, check_tree, quick=12000, nontrivial={'rich'}),
    Test('order', gen_order, check_order, quick=6000, nontrivial={'rich'}),
    Test('objs', gen_objs, check_objs, quick=4000, nontrivial={'rich'}),
    Test('near', gen_near, check_near, quick=3000, nontrivial={'rich'}),
    Test('bulk', gen_bulk, check_bulk, quick=250, nontrivial={'rich'}),
    Test('many', bulk.generator('values'), bulk.check, quick=100),
]
