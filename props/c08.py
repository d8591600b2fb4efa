"""SELECT for any history."""
from vlib import bulk, gen, near
from vlib.pbt import Test
from vlib.lib import s, DIALECTS, use, render, need
from vlib.lexer import lex
from vlib.parser import parse
from vlib.model import build, apply_op, start
from vlib.common import compare_with_model
from vlib.findings import finding
from vlib.qgen import G, SORTS

RULE = ('Histories of 1-14 builder calls of SELECT in all styles and with all kinds of arguments (some with hundreds of items); a case is non-trivial if '
        'it has at least three calls of at least two clauses.')
ASSUMPTIONS = ['grammar of the subset which sqlpuzzle can render (vlib/parser.py), written from manuals of the databases']

CLAUSE = {'from_': 'tables', 'from_table': 'tables', 'from_tables': 'tables', 'join': 'tables', 'on': 'tables', 'limit': 'limit', 'offset': 'limit',
          'into_outfile': 'outfile', 'fields_terminated_by': 'outfile', 'lines_terminated_by': 'outfile', 'optionally_enclosed_by': 'outfile'}


def clause(op):
    if op[0] == 'opt':
        return 'for_update' if op[1] == 'for_update' else 'options'
    return CLAUSE.get(op[0], op[0])


def labels_of(q):
    kinds = {clause(op) for op in q[1]}
    return sorted(kinds) + (['rich'] if len(kinds) >= 2 and len(q[1]) >= 3 else [])


def misplaced(tree):
    """Does any part of the tree have OPTIONALLY ENCLOSED BY outside of FIELDS?"""
    if isinstance(tree, tuple):
        if tree == ('enclosed_misplaced', True):
            return True
        return any(misplaced(i) for i in tree)
    return False


def gen_select(src):
    d = src.pick(DIALECTS)
    k = src.n(10)
    g = G(src, d, plain=95 if k < 7 else 60, texts=15, exprs=5 if k < 5 else 20)
    return (d, g.select(lo=1, hi=14, cont=85, weights=dict(outfile=src.pick([1, 8]))))


def check_select(spec):
    d, q = spec
    use(d)
    text = compare_with_model(q, d)
    if misplaced(parse(text, d)):
        finding('K2', 'OPTIONALLY ENCLOSED BY is not a part of FIELDS: %r' % text)
    return [d] + labels_of(q)


# ---------------------------------------------------------------- calls of different clauses commute

def gen_commute(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=95, texts=5, exprs=10)
    q = g.select(lo=3, hi=14, cont=88)
    groups = {}
    for op in q[1]:
        groups.setdefault(clause(op), []).append(op)
    order = []
    counts = {k: len(v) for k, v in groups.items()}
    while counts:
        k = src.pick(sorted(counts))
        order.append(k)
        counts[k] -= 1
        if not counts[k]:
            del counts[k]
    return (d, q, tuple(order))


def check_commute(spec):
    d, q, order = spec
    use(d)
    a = build(q, d)
    text = render(a)
    groups = {}
    for op in q[1]:
        groups.setdefault(clause(op), []).append(op)
    b = s.select()
    for k in order:
        r = apply_op(b, groups[k].pop(0), d)
        b = r
    other = render(b)
    need(text == other, 'order of independent calls matters: %r and %r', text, other)
    # Every clause depends only on the calls concerning it.
    for k in sorted({clause(op) for op in q[1]}):
        ops = tuple(op for op in q[1] if clause(op) == k)
        if k in ('having', 'where', 'group_by', 'order_by', 'limit'):
            part = render(build(('select', ops), d))
            need(part.startswith('SELECT *'), 'unexpected %r', part)
            need(part[len('SELECT *'):] in text, 'clause of %s alone is %r, but the query is %r', k, part, text)
    return [d] + labels_of(q)


# ---------------------------------------------------------------- many items

def gen_bulk(src):
    d = src.pick(DIALECTS)
    n = src.weighted((3, lambda: src.between(5, 40)), (2, lambda: src.pick([x for x in gen.SHORT_LENGTHS if x < 300])))
    return (d, src.pick(['columns', 'tables', 'where', 'joins', 'order', 'group', 'having', 'calls', 'repeat']), n, src.n(4), src.n(7))


def check_bulk(spec):
    d, what, n, style, k = spec
    use(d)
    names = ['c%d' % ((i * (2 * k + 1)) % n if n % (2 * k + 1) else i) for i in range(n)]
    st = ['args', 'tuples', 'dict', 'kwds'][style]
    wst = ['list', 'tuplelist', 'dict', 'kwds'][style]
    head = ('from_', 'args', (('t', None),))
    ops = {
        'columns': lambda: [('columns', st, tuple((x, 'a' + x if i % 3 == k % 3 else None) for i, x in enumerate(names)))],
        'tables': lambda: [('from_', st, tuple((x, 'a' + x if i % 3 == k % 3 else None) for i, x in enumerate(names)))],
        'where': lambda: [head, ('where', ('pairs', wst, tuple((x, i) for i, x in enumerate(names))))],
        'having': lambda: [head, ('having', ('pairs', wst, tuple((x, i) for i, x in enumerate(names))))],
        'joins': lambda: [head] + [op for i, x in enumerate(names[:60]) for op in (('join', 'left_join' if i % 2 else 'join', x, None, 'str'), ('on', ('pairs', 'pair', ((x + '.id', 't.id'),))))],
        'order': lambda: [head, ('order_by', st, tuple((x, SORTS[i % 5]) for i, x in enumerate(names)))],
        'group': lambda: [head, ('group_by', st, tuple((x, SORTS[i % 5]) for i, x in enumerate(names)))],
        'calls': lambda: [head] + [op for i, x in enumerate(names) for op in (
            ('columns', 'args', ((x, None),)), ('where', ('pairs', 'pair', ((x, i),))), ('order_by', 'args', ((x, None),)))],
        'repeat': lambda: [head] + [op for i in range(n) for op in (
            ('columns', 'args', (('c%d' % (i % 7), None),)), ('from_', 'args', (('t%d' % (i % 3), None),)), ('order_by', 'args', (('c%d' % (i % 5), SORTS[i % 5]),)))],
    }[what]()
    compare_with_model(('select', tuple(ops)), d)
    return [d, what, 'rich']


TESTS = [
    Test('select', gen_select, check_select, quick=32000, nontrivial={'rich'}),
    Test('commute', gen_commute, check_commute, quick=12000, nontrivial={'rich'}),
    Test('bulk', gen_bulk, check_bulk, quick=1000, nontrivial={'rich'}),
    Test('near', near.gen_query('columns', 'columns', 'from_', 'where', 'order_by'), near.check_query, quick=6000),
    Test('many', bulk.generator('columns', 'columns', 'from_', 'where'), bulk.check, quick=250),
]
