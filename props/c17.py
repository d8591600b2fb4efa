"""Queries inside of other queries."""
from vlib.pbt import Test, Invalid
from vlib.lib import s, rel, DIALECTS, use, render, need
from vlib.model import build, apply_op, b_alias, a_name
from vlib.common import parsed, compare_with_model
from vlib.history import some_op
from vlib.positions import SUB, EXISTS
from vlib.parser import parse
from vlib.qgen import G

RULE = ('Random selects and unions (all clauses) put into each of 51 places which take a query, up to 5 levels deep, with random aliases, several at once, '
        'and changed after embedding; a case is non-trivial if the embedded query is a union, has at least two calls, or is itself in another one.')

TEMPLATES = {
    'column': 'SELECT (~)',
    'column_alias': 'SELECT "a", (~) AS "al", "b"',
    'column_dict': 'SELECT (~) AS "al"',
    'from_alias': 'SELECT * FROM (~) AS "al"',
    'from_dict': 'SELECT * FROM (~) AS "al"',
    'from_noalias': 'SELECT * FROM (~)',
    'from_second': 'SELECT * FROM "t", (~) AS "al", "u" WHERE "a" = 1',
    'from_table': 'SELECT "x" FROM (~) AS "al"',
    'join_tuple': 'SELECT * FROM "t" JOIN (~) AS "al" ON "a" = "b"',
    'join_list': 'SELECT * FROM "t" LEFT JOIN (~) AS "al" ON "a" = "b"',
    'join_dict': 'SELECT * FROM "t" RIGHT JOIN (~) AS "al" ON "a" = "b"',
    'where': 'SELECT * FROM "t" WHERE "a" = (~)',
    'where_ne': 'SELECT * FROM "t" WHERE "a" != (~)',
    'where_gt': 'SELECT * FROM "t" WHERE "a" > (~)',
    'where_le': 'SELECT * FROM "t" WHERE "a" <= (~)',
    'where_in': 'SELECT * FROM "t" WHERE "a" IN (~)',
    'where_not_in': 'SELECT * FROM "t" WHERE "a" NOT IN (~)',
    'where_in_member': 'SELECT * FROM "t" WHERE "a" IN ((~), 1)',
    'where_like': 'SELECT * FROM "t" WHERE "a" LIKE (~)',
    'where_v': 'SELECT * FROM "t" WHERE "a" = (~)',
    'where_column': 'SELECT * FROM "t" WHERE (~) = 5',
    'where_q': 'SELECT * FROM "t" WHERE ("a" = 1 OR ("b" = (~) AND "c" = 2))',
    'where_not': 'SELECT * FROM "t" WHERE NOT("a" IN (~))',
    'having': 'SELECT * FROM "t" HAVING "a" = (~)',
    'having_in': 'SELECT * FROM "t" HAVING COUNT(*) IN (~)',
    'on_value': 'SELECT * FROM "t" JOIN "u" ON "a" = (~)',
    'on_in': 'SELECT * FROM "t" JOIN "u" ON "a" IN (~)',
    'order_by': 'SELECT * FROM "t" ORDER BY (~) DESC',
    'group_by': 'SELECT * FROM "t" GROUP BY (~)',
    'set': 'UPDATE "t" SET "a" = (~) WHERE "id" = 1',
    'set_where': 'UPDATE "t" SET "a" = 1 WHERE "b" IN (~)',
    'insert': 'INSERT INTO "t" ("a", "b") VALUES ((~), 1)',
    'insert_rows': 'INSERT INTO "t" ("a") VALUES (1), ((~))',
    'delete_where': 'DELETE FROM "t" WHERE "a" NOT IN (~)',
    'avg': 'SELECT AVG((~))',
    'count': 'SELECT COUNT((~))',
    'count_list': 'SELECT COUNT("a", (~))',
    'concat': 'SELECT CONCAT("a", (~), "b")',
    'group_concat': "SELECT GROUP_CONCAT((~) SEPARATOR '-')",
    'convert': 'SELECT CONVERT((~), CHAR)',
    'v': 'SELECT (~)',
    'r': 'SELECT (~)',
    'v_list': 'SELECT (1, (~))',
    'exists': 'SELECT * FROM "t" WHERE EXISTS(~)',
    'exists_and': 'SELECT * FROM "t" WHERE "a" = 1 AND EXISTS(~) AND "b" = 2',
    'exists_not': 'SELECT * FROM "t" WHERE NOT(EXISTS(~))',
    'exists_q': 'SELECT * FROM "t" WHERE (EXISTS(~) OR "a" = 1)',
    'exists_having': 'SELECT * FROM "t" HAVING EXISTS(~)',
    'exists_delete': 'DELETE FROM "t" WHERE EXISTS(~)',
    'exists_update': 'UPDATE "t" SET "a" = 1 WHERE EXISTS(~)',
    'exists_column': 'SELECT EXISTS(~) AS "al"',
}
PLACES = dict(SUB, **EXISTS)
assert set(PLACES) == set(TEMPLATES)
SELECTS = sorted(k for k, v in TEMPLATES.items() if v.startswith('SELECT'))


def template(place, d):
    t = TEMPLATES[place]
    return t.replace('"', '`') if d == 'mysql' else t


def query(src, d):
    g = G(src, d, plain=85, texts=20, exprs=15, depth=1)
    k = src.n(10)
    if k < 6:
        return g.select(lo=1, hi=6)
    if k < 8:
        leaf = lambda: ('select', (('columns', 'args', ((g.name(), None),)), ('where', g.form())))
        q = leaf()
        for _ in range(src.between(1, 3)):
            q = ('union', src.pick('&|'), q, leaf()) if src.chance(50) else ('union', src.pick('&|'), leaf(), q)
        return q
    return ('S',) and g.sub()


def gen_place(src):
    d = src.pick(DIALECTS)
    inner = src.many(lambda: src.pick(SELECTS), 0, 4, 35)
    q = query(src, d)
    later = ()
    if q[0] == 'select' and src.chance(40):
        g = G(src, d, plain=95, texts=5, exprs=8, depth=1)
        later = tuple(src.many(lambda: some_op(g, 'select', []), 1, 3, 40))
    return (d, q, tuple(inner) + (src.pick(sorted(PLACES)),), later)


def check_place(spec):
    d, q, places, later = spec
    use(d)
    obj = build(q, d)
    text = render(obj)
    chain = [(obj, text)]
    for p in places:
        outer = PLACES[p](obj)
        got = render(outer)
        need('(%s)' % text in got, '%s: %r is not in brackets in %r', p, text, got)
        want = template(p, d).replace('~', text)
        need(parsed(got, d) == parsed(want, d), '%s: %r is rendered, expected %r', p, got, want)
        obj, text = outer, got
        chain.append((obj, text))
    for o, t in chain:
        need(render(o) == t, 'embedding changes %r to %r', t, render(o))
    for op in later:
        apply_op(chain[0][0], op, d)
    text = render(chain[0][0])
    for p, (o, _) in zip(places, chain[1:]):
        got = render(o)
        want = template(p, d).replace('~', text)
        need('(%s)' % text in got and parsed(got, d) == parsed(want, d), '%s: %r is rendered after the embedded query is changed, expected %r', p, got, want)
        text = got
    labels = [d, places[-1], 'depth %d' % len(places)]
    if len(places) > 1 or q[0] == 'union' or len(q[1]) > 1:
        labels.append('rich')
    return labels


# ---------------------------------------------------------------- aliases

ALIASED = {
    'column': ('SELECT %s, "b"', lambda q, a: s.select((q, a), 'b')),
    'column_dict': ('SELECT %s', lambda q, a: s.select({q: a})),
    'from': ('SELECT * FROM %s', lambda q, a: s.select_from((q, a))),
    'from_dict': ('SELECT * FROM %s', lambda q, a: s.select_from({q: a})),
    'from_table': ('SELECT * FROM %s', lambda q, a: s.select().from_table(q, a)),
    'from_tables': ('SELECT * FROM "t", %s', lambda q, a: s.select().from_tables('t', (q, a))),
    'join': ('SELECT * FROM "t" JOIN %s ON "a" = "b"', lambda q, a: s.select_from('t').join((q, a)).on('a', 'b')),
    'inner_join_dict': ('SELECT * FROM "t" JOIN %s ON "a" = "b"', lambda q, a: s.select_from('t').inner_join({q: a}).on('a', 'b')),
    'left_join_list': ('SELECT * FROM "t" LEFT JOIN %s ON "a" = "b"', lambda q, a: s.select_from('t').left_join([q, a]).on('a', 'b')),
    'right_join': ('SELECT * FROM "t" RIGHT JOIN %s ON "a" = "b"', lambda q, a: s.select_from('t').right_join((q, a)).on('a', 'b')),
    'update_join': ('UPDATE "t" JOIN %s ON "a" = "b" SET "c" = 1 WHERE "d" = 2', lambda q, a: s.update('t').join((q, a)).on('a', 'b').set(c=1).where(d=2)),
    'delete_join': ('DELETE "t" FROM "t" LEFT JOIN %s ON "a" = "b" WHERE "d" = 2', lambda q, a: s.delete('t').from_('t').left_join((q, a)).on('a', 'b').where(d=2)),
}


def gen_alias(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=40)
    return (d, src.pick(sorted(ALIASED)), query(src, d), g.alias() if src.chance(85) else None)


def check_alias(spec):
    d, place, q, alias = spec
    use(d)
    obj = build(q, d)
    text = render(obj)
    got = render(ALIASED[place][1](obj, b_alias(alias, d)))
    part = '(%s)' % text
    need(part in got, '%s: %r is not in brackets in %r', place, text, got)
    if alias is not None:
        quote = '`' if d == 'mysql' else '"'
        part += ' AS ' + quote + a_name(alias)[1][0].replace(quote, quote * 2) + quote
    want = ALIASED[place][0]
    if d == 'mysql':
        want = want.replace('"', '`')
    want = want.replace('%s', part)
    need(parsed(got, d) == parsed(want, d), '%s: %r is rendered, expected %r', place, got, want)
    return [d, place, 'rich' if q[0] == 'union' or len(q[1]) > 1 else 'simple']


# ---------------------------------------------------------------- several subqueries, changed later

def gen_several(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=95, texts=5, exprs=8, depth=1)
    qs = [query(src, d) for _ in range(src.between(1, 3))]
    uses = src.many(lambda: (src.n(8), src.n(len(qs))), 1, 6, 75)
    later = src.many(lambda: (src.n(len(qs)), some_op(g, 'select', [])), 0, 3, 60)
    return (d, tuple(qs), tuple(uses), tuple(later))


def check_several(spec):
    d, qs, uses, later = spec
    use(d)
    objs = [build(q, d) for q in qs]
    before = [render(o) for o in objs]

    def outer(of):
        q = s.select('p').from_('t')
        for n, (k, i) in enumerate(uses):
            x = of(i)
            if k == 0:
                q.columns((x, 'c%d' % n))
            elif k == 1:
                q.from_((x, 'f%d' % n))
            elif k == 2:
                q.join((x, 'j%d' % n)).on('a%d' % n, 'b')
            elif k == 3:
                q.where('w%d' % n, rel.IN(x))
            elif k == 4:
                q.where('e%d' % n, rel.GE(x))
            elif k == 5:
                q.where(s.Not('x%d' % n, rel.IN([1, x])))
            elif k == 6:
                q.having('h%d' % n, x)
            elif k == 7:
                q.columns((s.concat('z%d' % n, x), 'z%d' % n))
        return q
    big = outer(lambda i: objs[i])
    text = render(big)
    marks = render(outer(lambda i: s.select('qzmark%d' % i)))
    quote = '`' if d == 'mysql' else '"'

    def filled(texts):
        import re
        return re.sub(r'\(SELECT .qzmark(\d).\)', lambda m: '(%s)' % texts[int(m.group(1))], marks)
    need(parsed(text, d) == parsed(filled(before), d), '%r is rendered, expected %r', text, filled(before))
    for i in {i for _, i in uses}:
        n = sum(j == i for _, j in uses)
        need(text.count('(%s)' % before[i]) >= n, '%r is %d times in %r instead of %d', before[i], text.count('(%s)' % before[i]), text, n)
    need([render(o) for o in objs] == before, 'embedded queries are changed')
    frozen = big.copy()
    for i, op in later:
        if qs[i][0] != 'union':
            apply_op(objs[i], op, d)
    need(render(frozen) == text, 'copy is changed with an embedded query: %r to %r', text, render(frozen))
    return [d, 'rich']


TESTS = [
    Test('place', gen_place, check_place, quick=16000, nontrivial={'rich'}),
    Test('alias', gen_alias, check_alias, quick=6000, nontrivial={'rich'}),
    Test('several', gen_several, check_several, quick=5000, nontrivial={'rich'}),
]
