"""Unions."""
from vlib import gen
from vlib.pbt import Test, Invalid
from vlib.lib import s, rel, exc, DIALECTS, use, render, need
from vlib.model import build, apply_op, expect
from vlib.common import compare_with_model, parsed, norm, database, run
from vlib.history import some_op
from vlib.positions import SUB, EXISTS
from vlib.qgen import G

RULE = ('Trees of 1-7 unions of both kinds nested on both sides, with shared operands and operands changed later, parsed on all databases and executed on '
        'SQLite; a case is non-trivial if the tree has at least two unions, or an operand is changed after the union was made.')
ASSUMPTIONS = ['operands have no ORDER BY, LIMIT or INTO OUTFILE of their own (databases do not accept them there without brackets)']

PLAIN = dict(order_by=0, limit=0, outfile=0)


def tree(src, n, leaf):
    if n == 0:
        return leaf()
    left = src.n(n)
    return ('union', src.pick('&|'), tree(src, left, leaf), tree(src, n - 1 - left, leaf))


def unions(q):
    return 0 if q[0] == 'select' else 1 + unions(q[2]) + unions(q[3])


def ops_of(q):
    return set() if q[0] == 'select' else {q[1]} | ops_of(q[2]) | ops_of(q[3])


def labels_of(q):
    n = unions(q)
    return ['%d unions' % min(n, 5)] + (['mixed'] if len(ops_of(q)) > 1 else []) + (['rich'] if n >= 2 else [])


def clean(q):
    """Without FOR UPDATE, which is at the end of the statement."""
    return ('select', tuple(op for op in q[1] if not (op[0] == 'opt' and op[1] == 'for_update')))


def gen_tree(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=90, texts=10, exprs=8, depth=1)
    leaf = lambda: clean(g.select(lo=1, hi=4, cont=50, weights=PLAIN))
    if src.chance(40):
        leaf = lambda: ('select', (('columns', 'args', ((src.pick('abcd'), None),)),))
    return (d, tree(src, src.weighted((8, lambda: src.between(1, 4)), (2, lambda: src.between(5, 7))), leaf))


def check_tree(spec):
    d, q = spec
    use(d)
    text = compare_with_model(q, d)
    # both operands are in it completely
    if q[0] == 'union':
        left = render(build(q[2], d))
        need(text.startswith(left + ' UNION '), 'union %r does not start by the left operand %r', text, left)
        right = render(build(q[3], d))
        need(right in text[len(left):], 'right operand %r is not in the union %r', right, text)
    return [d] + labels_of(q)


# ---------------------------------------------------------------- execution

TABLES = {'t': [1, 1, 2, None], 'u': [2, 3, 3], 'v': [None, None, 1, 4], 'e': []}
_db = []


def db():
    if not _db:
        _db.append(database(['CREATE TABLE %s (x)' % t for t in TABLES] +
                            ['INSERT INTO %s VALUES (%s)' % (t, 'NULL' if x is None else x) for t in TABLES for x in TABLES[t]]))
    return _db[0]


def gen_run(src):
    def leaf():
        return ('leaf', src.pick(sorted(TABLES)), src.pick([None, None, 1, 2, 3]), src.n(3))

    def t(n):
        if n == 0:
            return leaf()
        left = src.n(n)
        return ('union', src.pick('&|'), t(left), t(n - 1 - left))
    return (t(src.between(1, 7)), src.n(5))


def make(q):
    if q[0] == 'leaf':
        sel = s.select('x').from_(q[1])
        if q[2] is not None:
            sel.where(x=q[2]) if q[3] else sel.where(s.Q(x=q[2]) | s.Q(x=q[2]))
        if q[3] == 2:
            sel.group_by('x')
        return sel
    a, b = make(q[2]), make(q[3])
    return a & b if q[1] == '&' else a | b


def rows(q):
    if q[0] == 'leaf':
        r = [x for x in TABLES[q[1]] if q[2] is None or x == q[2]]
        return distinct(r) if q[3] == 2 else r
    r = rows(q[2]) + rows(q[3])
    return r if q[1] == '&' else distinct(r)


def distinct(r):
    return [x for i, x in enumerate(r) if x not in r[:i]]


def check_run(spec):
    q, place = spec
    use('sqlite')
    u = make(q)
    want = rows(q)
    key = lambda x: (x is None, x or 0)
    if place == 1:
        u = s.select('x').from_((u, 'al'))
    elif place == 2:
        u = s.select(s.count()).from_((u, 'al'))
        want = [len(want)]
    elif place == 3:
        u = s.select('x').from_('t').where(x=rel.IN(u))
        want = [x for x in TABLES['t'] if x is not None and x in want]
    elif place == 4:
        u = s.select('x').from_('t').where(s.exists(u))
        want = TABLES['t'] if want else []
    text = render(u)
    got = [r[0] for r in run(db(), text)]
    need(sorted(got, key=key) == sorted(want, key=key), '%r gives %r, expected %r', text, sorted(got, key=key), sorted(want, key=key))

    def count(x):
        return 0 if x[0] == 'leaf' else 1 + count(x[2]) + count(x[3])
    return ['rich'] if count(q) > 1 else []


# ---------------------------------------------------------------- operands changed later, shared operands

def gen_later(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=95, texts=5, exprs=8, depth=1)
    n = src.between(1, 4)
    leaves = [list(('columns', 'args', (('l%d' % i, None),)) for _ in range(1)) for i in range(n)]
    shape = tree(src, src.between(1, 5), lambda: ('leaf', src.n(n)))
    if shape[0] == 'leaf':
        shape = ('union', '&', shape, shape)
    state = [[ops[0]] for ops in leaves]
    changes = []

    def change():
        i = src.n(n)
        for _ in range(20):
            op = some_op(g, 'select', state[i])
            if op[0] not in ('order_by', 'limit', 'offset', 'into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by') \
                    and not (op[0] == 'opt' and op[1] == 'for_update'):
                break
        else:
            op = ('where', ('pairs', 'pair', (('a', 1),)))
        state[i].append(op)
        changes.append((i, op))
    src.many(change, 1, 5, 60)
    return (d, n, shape, tuple(changes), src.n(4))


def check_later(spec):
    d, n, shape, changes, mode = spec
    use(d)
    ops = [[('columns', 'args', (('l%d' % i, None),))] for i in range(n)]
    leaves = [s.select('l%d' % i) for i in range(n)]

    def combine(x):
        if x[0] == 'leaf':
            return leaves[x[1]]
        a, b = combine(x[2]), combine(x[3])
        ta, tb = render(a), render(b)
        u = a & b if x[1] == '&' else a | b
        need(render(a) == ta and render(b) == tb, 'combining changes an operand')
        need(u is not a and u is not b, 'the union is its operand')
        return u

    def model(x):
        if x[0] == 'leaf':
            return ('select', tuple(ops[x[1]]))
        return ('union', x[1], model(x[2]), model(x[3]))
    u = combine(shape)
    if mode & 1:
        compare_with_model(model(shape), d, u)
    frozen = u.copy()
    first = render(frozen)
    for i, op in changes:
        apply_op(leaves[i], op, d)
        ops[i].append(op)
        if mode & 2:
            compare_with_model(model(shape), d, u)
    compare_with_model(model(shape), d, u)
    need(render(frozen) == first, 'copy of the union is changed with operands of the original')
    for i in range(n):
        compare_with_model(('select', tuple(ops[i])), d, leaves[i])
    return [d, 'rich']


# ---------------------------------------------------------------- wherever a select can be used

def gen_place(src):
    d = src.pick(DIALECTS)
    leaf = lambda: ('select', (('columns', 'args', ((src.pick('abcd'), None),)), ('from_', 'args', ((src.pick(['t', 'u']), None),))))
    return (d, src.pick(sorted(SUB) + sorted(EXISTS)), tree(src, src.between(1, 4), leaf))


def check_place(spec):
    d, place, q = spec
    use(d)
    f = SUB.get(place) or EXISTS[place]
    u = build(q, d)
    alone = render(u)
    text = render(f(u))
    # the same with a plain select in its place
    mark = s.select('qzmark')
    want = render(f(mark)).replace('(%s)' % render(mark), '(%s)' % alone)
    need(text == want, '%s: union gives %r, expected %r', place, text, want)
    need(render(u) == alone, 'union is changed from %r to %r', alone, render(u))
    return [d, place] + labels_of(q)


# ---------------------------------------------------------------- long chains

def gen_long(src):
    return (src.pick(DIALECTS), src.weighted((3, lambda: src.between(5, 30)), (1, lambda: src.pick([x for x in gen.SHORT_LENGTHS if 5 < x < 140]))), src.pick(['left', 'right']), src.n(4), src.n(4))


def check_long(spec):
    d, n, side, period, phase = spec
    use(d)
    leaf = lambda i: ('select', (('columns', 'args', (('c%d' % i, None),)),))
    op = lambda i: '&' if period == 0 else '|' if period == 1 else '&|'[(i + phase) % period == 0]
    if side == 'right':
        n = min(n, 40)
    q = leaf(0)
    for i in range(1, n):
        q = ('union', op(i), q, leaf(i)) if side == 'left' else ('union', op(i), leaf(i), q)
    compare_with_model(q, d)
    return [d, side, 'rich']


TESTS = [
    Test('tree', gen_tree, check_tree, quick=12000, nontrivial={'rich'}),
    Test('run', gen_run, check_run, quick=8000, nontrivial={'rich'}),
    Test('later', gen_later, check_later, quick=5000, nontrivial={'rich'}),
    Test('place', gen_place, check_place, quick=4000, nontrivial={'rich'}),
    Test('long', gen_long, check_long, quick=300, nontrivial={'rich'}),
]
