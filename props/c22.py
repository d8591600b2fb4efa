"""Custom SQL."""
import re

from vlib import gen
from vlib.pbt import Test, Invalid
from vlib.lib import s, rel, DIALECTS, use, render, need
from vlib.model import build
from vlib.common import compare_with_model
from vlib.history import look
from vlib.positions import RAW, RAW_UPSERT
from vlib.qgen import G, RAW_ASSIGN

RULE = ('Random texts (quotes, comments, backslashes, formatting directives, brackets, control characters, any Unicode, long ones) as custom SQL in each of %d '
        'places on each database, whole random queries in which all custom SQL is replaced by other texts at once, and pairs of custom SQL with another object '
        'of the same text; a case is non-trivial if the text has a character which is not a letter, or it is used together with something of the same text.'
        % (len(RAW) + 4))

MARK = 'qzmarkqz'


def raw_text(src):
    """Any text which is not empty nor only white space."""
    k = src.n(10)
    if k < 7:
        t = gen.text(src)
    elif k < 9:
        t = ' '.join(src.many(lambda: gen.fragment(src), 2, 6))
    else:
        t = src.pick(['a = 1 OR b = 2', 'a AS b', "'x'", '"a"', '`a`', 'NOW()', 'a, b', '(SELECT 1)', 'x -- y', '/* c */ a', 'NULL', '*', 't.*', '1', '%s', '{}', '\\',
                      "date_format(x, '%Y-%m')", "x = 'it''s'", 'a DESC', 'count(*)', 't1 JOIN t2', ' a ', 'a  b', 'a\nb', '\ta'])
    return t if t.strip() else t + 'a'


def places(d):
    return sorted(RAW) + sorted(RAW_UPSERT[d])


def place(name, d):
    return RAW.get(name) or RAW_UPSERT[d][name]


def ends(text):
    """White space at the end of a statement may be missing; also of one in brackets."""
    return text.rstrip()


# ---------------------------------------------------------------- one place

def gen_verbatim(src):
    d = src.pick(DIALECTS)
    return (d, src.pick(places(d)), raw_text(src), src.n(10))


def check_verbatim(spec):
    d, name, raw, how = spec
    use(d)
    make = place(name, d)
    base = render(make(s.C(MARK)))
    need(base.count(MARK) == 1, '%s: custom SQL is there %d times: %r', name, base.count(MARK), base)
    at = base.index(MARK)
    around = base[at - 1:at] + base[at + len(MARK):at + len(MARK) + 1]
    need(not set(around) & set('\'"`\\.'), '%s: custom SQL is not verbatim: %r', name, base)
    # white space of the text itself at the end of the statement
    allowed = {ends(base.replace(MARK, raw))}
    if raw != raw.rstrip():
        allowed.add(ends(base.replace(MARK, raw.rstrip())) if name.startswith(('sub_', 'union_', 'where_exists_sub')) else ends(base.replace(MARK, raw)))
    obj = make(s.C(raw))
    got = look(obj, how)
    need(ends(got) in allowed, '%s: %r is rendered for custom SQL %r, expected %r', name, got, raw, base.replace(MARK, raw))
    need(look(obj, how) == got, '%s: second rendering of custom SQL %r differs', name, raw)
    labels = [d, name]
    if not raw.isalpha():
        labels.append('odd')
    return labels


# ---------------------------------------------------------------- whole queries

class Custom(G):
    """Many custom SQLs; never as a key of a dictionary, which is sorted by text."""

    def one_style(self, pairs, nokwds=False):
        if any(isinstance(k, tuple) and k[0] != 'N' for k, _ in pairs):
            return self.src.pick(['args', 'tuples'])
        return super().one_style(pairs, nokwds)

    def two_style(self, pairs):
        if any(isinstance(k, tuple) and k[0] != 'N' for k, _ in pairs):
            return self.src.pick(['list', 'tuplelist'])
        return super().two_style(pairs)

    def expr(self):
        src = self.src
        if src.chance(70):
            return ('C', src.pick(['cq%dq' % i for i in range(6)]))
        return super().expr()


def gen_whole(src):
    d = src.pick(DIALECTS)
    g = Custom(src, d, plain=95, texts=0, exprs=50, depth=2)
    kind = src.n(10)
    if kind < 6:
        q = g.select(lo=2, hi=8)
    elif kind < 7:
        q = g.insert()
    elif kind < 9:
        q = g.update(where=100)
    else:
        q = g.delete(where=100)
    if kind >= 7:
        q = (q[0], q[1] + (('where', ('pairs', 'pair', (('id', 1),))),))
    texts = []
    for _ in range(30):
        t = raw_text(src) if src.chance(70) else src.pick(['z', 'z ', 'Z', "'z'", '"z"', 'z.z'])
        t += 'k%d' % len(texts)      # each one different, without white space at the end
        texts.append(t)
    return (d, q, tuple(texts))


def customs(q, out):
    """All custom SQL in the spec."""
    if isinstance(q, tuple) or isinstance(q, list):
        if len(q) == 2 and q[0] == 'C' and isinstance(q[1], str):
            if q[1] not in out:
                out.append(q[1])
            return
        if len(q) == 3 and q[:2] == ('set', 'C'):
            if q[2] not in out:
                out.append(q[2])
            return
        for x in q:
            customs(x, out)


def replaced(q, by):
    if isinstance(q, list):
        return [replaced(x, by) for x in q]
    if isinstance(q, tuple):
        if len(q) == 2 and q[0] == 'C' and isinstance(q[1], str):
            return ('C', by[q[1]])
        if len(q) == 3 and q[:2] == ('set', 'C'):
            return ('set', 'C', by[q[2]])
        return tuple(replaced(x, by) for x in q)
    return q


FORM = dict({t: 'qzm%dx = 987654' for t in RAW_ASSIGN}, **{'(1, 2)': '(qzm%dx, 987654)'})


def check_whole(spec):
    d, q, texts = spec
    use(d)
    olds = []
    customs(q, olds)
    if not olds or len(olds) > len(texts):
        raise Invalid
    marks = {o: FORM.get(o, 'qzm%dx') % i for i, o in enumerate(olds)}
    news = {o: texts[i] for i, o in enumerate(olds)}
    base = compare_with_model(replaced(q, marks), d)
    for m in re.finditer(r'(.?)qzm\d+x(.?)', base):
        need(not set(''.join(m.groups())) & set('\'"`\\.'), 'custom SQL %r is not verbatim in %r', m.group(0), base)
    by_mark = {marks[o]: news[o] for o in olds}
    want = re.sub(r'\(qzm\d+x, 987654\)|qzm\d+x = 987654|qzm\d+x', lambda m: by_mark[m.group(0)], base)
    got = render(build(replaced(q, news), d))
    need(ends(got) == ends(want), '%r is rendered, expected %r', got, want)
    return [d, q[0], 'odd']


# ---------------------------------------------------------------- not another object with the same text

def q(d):
    return '`' if d == 'mysql' else '"'


# Objects and their texts; `\u00a4` stands for the quote of names.
OBJECTS = {
    'name': (lambda: 'a', '\u00a4a\u00a4'),
    'text': (lambda: 'a', 'a'),
    'dotted': (lambda: 't.a', '\u00a4t\u00a4.\u00a4a\u00a4'),
    'dotted_text': (lambda: 't.a', 't.a'),
    'number': (lambda: 5, '5'),
    'reference': (lambda: s.R('a'), '\u00a4a\u00a4'),
    'reference_text': (lambda: s.R('a'), 'a'),
    'value': (lambda: s.V('x'), "'x'"),
    'value_text': (lambda: s.V('x'), 'x'),
    'value_number': (lambda: s.V(7), '7'),
    'avg': (lambda: s.avg('a'), 'AVG(\u00a4a\u00a4)'),
    'count': (lambda: s.count(), 'COUNT(*)'),
    'concat': (lambda: s.concat('a', 'b'), 'CONCAT(\u00a4a\u00a4, \u00a4b\u00a4)'),
    'select': (lambda: s.select('a').from_('u'), '(SELECT \u00a4a\u00a4 FROM \u00a4u\u00a4)'),
}
LISTS = {
    'columns': (lambda x, y: s.select(x, y), 'SELECT {x}, {y}'),
    'columns_twice': (lambda x, y: s.select(x).columns(y), 'SELECT {x}, {y}'),
    'columns_alias': (lambda x, y: s.select((x, 'al'), (y, 'al')), 'SELECT {x} AS "al", {y} AS "al"'),
    'group_by': (lambda x, y: s.select_from('t').group_by(x, y), 'SELECT * FROM "t" GROUP BY {x}, {y}'),
    'group_by_twice': (lambda x, y: s.select_from('t').group_by((x, 'desc')).group_by(y), 'SELECT * FROM "t" GROUP BY {x} DESC, {y}'),
    'order_by': (lambda x, y: s.select_from('t').order_by(x, y), 'SELECT * FROM "t" ORDER BY {x}, {y}'),
    'order_by_twice': (lambda x, y: s.select_from('t').order_by((x, 'desc')).order_by((y, 'asc')), 'SELECT * FROM "t" ORDER BY {x} DESC, {y}'),
    'concat': (lambda x, y: s.select(s.concat(x, y)), 'SELECT CONCAT({x}, {y})'),
    'count': (lambda x, y: s.select(s.count([x, y])), 'SELECT COUNT({x}, {y})'),
    'group_concat_order': (lambda x, y: s.select(s.group_concat('z').order_by(x, (y, 'desc'))), 'SELECT GROUP_CONCAT("z" ORDER BY {x}, {y} DESC)'),
}
CONDS = {
    'where': (lambda x, y: s.select_from('t').where(a=x).where(a=y), 'SELECT * FROM "t" WHERE "a" = {x} AND "a" = {y}'),
    'where_pairs': (lambda x, y: s.select_from('t').where([('a', x), ('a', y)]), 'SELECT * FROM "t" WHERE "a" = {x} AND "a" = {y}'),
    'having_rel': (lambda x, y: s.select_from('t').having(a=rel.GT(x)).having(a=rel.GT(y)), 'SELECT * FROM "t" HAVING "a" > {x} AND "a" > {y}'),
    'q_or': (lambda x, y: s.select_from('t').where(s.Q(a=x) | s.Q(a=y)), 'SELECT * FROM "t" WHERE ("a" = {x} OR "a" = {y})'),
    'in': (lambda x, y: s.select_from('t').where(a=rel.IN([x, y])), 'SELECT * FROM "t" WHERE "a" IN ({x}, {y})'),
    'in_twice': (lambda x, y: s.delete_from('t').where(a=rel.IN([1, x])).where(a=rel.IN([1, y])), 'DELETE FROM "t" WHERE "a" IN (1, {x}) AND "a" IN (1, {y})'),
    'rows': (lambda x, y: s.insert_into('t').values(a=x).values(a=y), 'INSERT INTO "t" ("a") VALUES ({x}), ({y})'),
    'set': (lambda x, y: s.update('t').set(a=x).set(b=y).where(id=1), 'UPDATE "t" SET "a" = {x}, "b" = {y} WHERE "id" = 1'),
    'set_last': (lambda x, y: s.update('t').set(a=x).set(a=y).where(id=1), 'UPDATE "t" SET "a" = {x}, "a" = {y} WHERE "id" = 1'),
}
VALUES = {
    'text': (lambda: 'x', 'x', "'x'"),
    'literal': (lambda: 'x', "'x'", "'x'"),
    'number': (lambda: 5, '5', '5'),
    'value': (lambda: s.V('x'), "'x'", "'x'"),
    'value_number': (lambda: s.V(5), '5', '5'),
    'reference': (lambda: s.R('b'), '\u00a4b\u00a4', '\u00a4b\u00a4'),
    'reference_text': (lambda: s.R('b'), 'b', '\u00a4b\u00a4'),
    'avg': (lambda: s.avg('b'), 'AVG(\u00a4b\u00a4)', 'AVG(\u00a4b\u00a4)'),
    'float': (lambda: 5.5, '5.50000', '5.50000'),
    'date': (lambda: __import__('datetime').date(2012, 5, 25), "'2012-05-25'", "'2012-05-25'"),
}
PARTS = {
    'where': (lambda x: s.select_from('t').where(a=1).where(x), '\u00a4a\u00a4 = 1', 'SELECT * FROM "t" WHERE "a" = 1 AND {x}'),
    'where_before': (lambda x: s.select_from('t').where(x).where(a=1), '\u00a4a\u00a4 = 1', 'SELECT * FROM "t" WHERE {x} AND "a" = 1'),
    'having': (lambda x: s.select_from('t').having(b='x').having(x), "\u00a4b\u00a4 = 'x'", 'SELECT * FROM "t" HAVING "b" = \'x\' AND {x}'),
    'where_q': (lambda x: s.select_from('t').where(s.Q(a=1)).where(x), '\u00a4a\u00a4 = 1', 'SELECT * FROM "t" WHERE "a" = 1 AND {x}'),
    'where_not': (lambda x: s.select_from('t').where(s.Not(a=1)).where(x), 'NOT(\u00a4a\u00a4 = 1)', 'SELECT * FROM "t" WHERE NOT("a" = 1) AND {x}'),
    'set': (lambda x: s.update('t').set(a=1).set(x).where(id=1), '\u00a4a\u00a4 = 1', 'UPDATE "t" SET "a" = 1, {x} WHERE "id" = 1'),
    'from': (lambda x: s.select_from('t', x), '\u00a4t\u00a4', 'SELECT * FROM "t", {x}'),
    'from_text': (lambda x: s.select_from('t', x), 't', 'SELECT * FROM "t", {x}'),
    'from_alias': (lambda x: s.select_from(('t', 'b'), x), '\u00a4t\u00a4 AS \u00a4b\u00a4', 'SELECT * FROM "t" AS "b", {x}'),
    'from_before': (lambda x: s.select_from(x).from_('t'), '\u00a4t\u00a4', 'SELECT * FROM {x}, "t"'),
    'column_alias': (lambda x: s.select(('a', 'b'), x), '\u00a4a\u00a4 AS \u00a4b\u00a4', 'SELECT "a" AS "b", {x}'),
    'alias': (lambda x: s.select(('a', 'b'), ('a', x)), 'b', 'SELECT "a" AS "b", "a" AS {x}'),
    'alias_before': (lambda x: s.select(('a', x)).columns(('a', 'b')), 'b', 'SELECT "a" AS {x}, "a" AS "b"'),
    'alias_from': (lambda x: s.select_from(('t', 'b'), ('t', x)), 'b', 'SELECT * FROM "t" AS "b", "t" AS {x}'),
    'alias_from_before': (lambda x: s.select_from(('t', x)).from_(('t', 'b')), 'b', 'SELECT * FROM "t" AS {x}, "t" AS "b"'),
    'alias_joins': (lambda x: s.select_from('t').join(('u', 'b')).on('a', 'c').join(('u', x)).on('a', 'c'), 'b',
                    'SELECT * FROM "t" JOIN "u" AS "b" ON "a" = "c" JOIN "u" AS {x} ON "a" = "c"'),
    'from_other': (lambda x: s.select_from(('t', 'b'), (x, 'b')), 't', 'SELECT * FROM "t" AS "b", {x} AS "b"'),
    'column_other': (lambda x: s.select(('t', 'b'), (x, 'b')), 't', 'SELECT "t" AS "b", {x} AS "b"'),
    'where_column': (lambda x: s.select_from('t').where('a', 1).where(x, 1), 'a', 'SELECT * FROM "t" WHERE "a" = 1 AND {x} = 1'),
    'on_column': (lambda x: s.select_from('t').join('u').on('a', 'b').on(x, 'b'), 'a', 'SELECT * FROM "t" JOIN "u" ON "a" = "b" AND {x} = "b"'),
    'on_mirror': (lambda x: s.select_from('t').join('u').on('a', 'b').on('b', x), 'a', 'SELECT * FROM "t" JOIN "u" ON "a" = "b" AND "b" = {x}'),
    'on_mirror_before': (lambda x: s.select_from('t').join('u').on('b', x).on('a', 'b'), 'a', 'SELECT * FROM "t" JOIN "u" ON "b" = {x} AND "a" = "b"'),
    'order': (lambda x: s.select_from('t').order_by(('a', 'desc'), x), '\u00a4a\u00a4 DESC', 'SELECT * FROM "t" ORDER BY "a" DESC, {x}'),
    'on_value': (lambda x: s.select_from('t').join('u').on('a', 'b').on('a', x), 'b', 'SELECT * FROM "t" JOIN "u" ON "a" = "b" AND "a" = {x}'),
    'joins': (lambda x: s.select_from('t').left_join('u').on('a', 5).left_join('u').on('a', x), '5', 'SELECT * FROM "t" LEFT JOIN "u" ON "a" = 5 LEFT JOIN "u" ON "a" = {x}'),
}


def gen_same(src):
    d = src.pick(DIALECTS)
    k = src.n(3)
    if k == 0:
        return (d, 'list', src.pick(sorted(LISTS)), src.pick(sorted(OBJECTS)), bool(src.n(2)))
    if k == 1:
        return (d, 'cond', src.pick(sorted(CONDS)), src.pick(sorted(VALUES)), bool(src.n(2)))
    return (d, 'part', src.pick(sorted(PARTS)), '', False)


def flat(text):
    """Text without differences which do not matter (ASC is default)."""
    return re.sub(r' ASC\b', '', ' '.join(text.split()))


def check_same(spec):
    d, kind, name, what, swap = spec
    use(d)
    quote = lambda t: t.replace('\u00a4', q(d))
    if kind == 'part':
        make, raw, want = PARTS[name]
        raw = quote(raw)
        got = render(make(s.C(raw)))
        want = want.replace('"', q(d)).replace('{x}', raw)
    else:
        if kind == 'list':
            make, want = LISTS[name]
            obj, raw = OBJECTS[what]
            text = {'text': '\u00a4a\u00a4', 'dotted_text': '\u00a4t\u00a4.\u00a4a\u00a4', 'reference_text': '\u00a4a\u00a4', 'value_text': "'x'"}.get(what, raw)
        else:
            make, want = CONDS[name]
            obj, raw, text = VALUES[what]
        raw, text = quote(raw), quote(text)
        x, y = (s.C(raw), obj()) if swap else (obj(), s.C(raw))
        got = render(make(x, y))
        a, b = (raw, text) if swap else (text, raw)
        want = want.replace('"', q(d)).replace('{x}', a).replace('{y}', b)
        if kind == 'cond' and name == 'set_last':
            # only the last one counts
            short = ('UPDATE "t" SET "a" = {y} WHERE "id" = 1').replace('"', q(d)).replace('{y}', b)
            need(flat(got) in (flat(want), flat(short)), '%s: %r is rendered, expected %r', name, got, want)
            return [d, name, 'odd']
        # Queries which differ only in this are not equal.
        if raw != text:
            one, two = make(s.C(raw), s.C('z')), make(obj(), s.C('z'))
            need(not one == two and not two == one and one != two, '%s: %r equals %r', name, render(one), render(two))
    need(flat(got) == flat(want), '%s: %r is rendered, expected %r', name, got, want)
    return [d, name, 'odd']


# ---------------------------------------------------------------- the same custom SQL used repeatedly

def _each(q, method, cs):
    for c in cs:
        q = getattr(q, method)(c)
    return q


REPEAT = {
    'set': lambda cs: _each(s.update('t'), 'set', cs).where(id=1),
    'set_mixed': lambda cs: _each(_each(s.update('t'), 'set', cs[:1]).set(b=2), 'set', cs[1:]).where(id=1),
    'where': lambda cs: _each(s.select_from('t'), 'where', cs),
    'where_mixed': lambda cs: _each(_each(s.delete_from('t'), 'where', cs[:1]).where(b=2), 'where', cs[1:]),
    'having': lambda cs: _each(s.select_from('t'), 'having', cs),
    'on': lambda cs: _each(s.select_from('t').join('u'), 'on', cs),
    'rows': lambda cs: _rows(cs),
    'concat': lambda cs: s.select(s.concat(*cs)),
    'concat_names': lambda cs: s.select(s.concat(cs[0], 'a', *cs[1:])),
    'group_concat': lambda cs: s.select(s.group_concat(*cs)),
    'count': lambda cs: s.select(s.count(list(cs) + ['a'])),
    'in': lambda cs: s.select_from('t').where(a=rel.IN(list(cs) + [1])),
    'value_list': lambda cs: s.select(s.V(list(cs) + [1])),
    'columns_aliases': lambda cs: s.select(*[(c, 'al%d' % i) for i, c in enumerate(cs)]),
    'set_values': lambda cs: s.update('t').set([('a%d' % i, c) for i, c in enumerate(cs)]).where(id=1),
    'insert_values': lambda cs: s.insert_into('t').values([('a%d' % i, c) for i, c in enumerate(cs)]),
    'where_values': lambda cs: s.select_from('t').where([('a%d' % i, c) for i, c in enumerate(cs)]),
    'clauses': lambda cs: _clauses(cs),
}
REPEAT_UPSERT = {
    'mysql': {'odku': lambda cs: _each(s.insert_into('t').values(a=1), 'on_duplicate_key_update', cs)},
    'postgresql': {'conflict': lambda cs: _conflict(cs)},
    'sqlite': {}, 'sql': {},
}
# A repetition of the whole item is left out there.
ONCE = {
    'columns': lambda cs: _each(s.select('a'), 'columns', cs),
    'order_by': lambda cs: _each(s.select_from('t').order_by('a'), 'order_by', cs),
    'group_by': lambda cs: _each(s.select_from('t').group_by('a'), 'group_by', cs),
}


def _rows(cs):
    q = s.insert_into('t')
    for c in cs:
        q.values(a=c)
    return q


def _conflict(cs):
    q = s.insert_into('t').values(a=1)
    for c in cs:
        q.on_duplicate_key_update('id', c)
    return q


def _clauses(cs):
    q = s.select(cs[0]).from_('t').where(cs[1 % len(cs)])
    for i, c in enumerate(cs[2:]):
        (q.having, q.order_by, q.group_by)[i % 3](c) if i < 3 else q.where('w%d' % i, c)
    return q


def gen_repeat(src):
    d = src.pick(DIALECTS)
    name = src.pick(sorted(REPEAT) + sorted(REPEAT_UPSERT[d]) + sorted(ONCE))
    return (d, name, src.between(2, 6), src.pick(['z{}z', 'z{}z = z + 1', "'z{}z'", '`z{}z`', 'f(z{}z)', 'z{}z IS NULL', '1, z{}z']).format(src.n(3)), bool(src.n(2)))


def check_repeat(spec):
    d, name, n, raw, shared = spec
    use(d)
    make = REPEAT.get(name) or REPEAT_UPSERT[d].get(name) or ONCE[name]
    one = s.C(raw)
    text = render(make([one if shared else s.C(raw) for _ in range(n)]))
    want = 1 if name in ONCE else max(n, 2)
    need(text.count(raw) == want, '%s: custom SQL %r used %d times is there %d times instead of %d: %r', name, raw, n, text.count(raw), want, text)
    return [d, name, 'odd']


TESTS = [
    Test('verbatim', gen_verbatim, check_verbatim, quick=30000, nontrivial={'odd'}),
    Test('whole', gen_whole, check_whole, quick=8000, nontrivial={'odd'}),
    Test('same', gen_same, check_same, quick=6000, nontrivial={'odd'}),
    Test('repeat', gen_repeat, check_repeat, quick=4000, nontrivial={'odd'}),
]
