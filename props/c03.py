"""Names."""
import functools

from vlib import gen, positions as P
from vlib.pbt import Test, Invalid
from vlib.lib import s, DIALECTS, use, render, render_also_copy, need
from vlib.lexer import lex
from vlib.model import split_name, QUOTE
from vlib.common import fill, database, run, executable, compare_with_model
from vlib.qgen import G

RULE = ('Names are any texts (quotes, dots, stars, control and Unicode characters, harvested constants, long ones) and dotted combinations of bare and '
        'quoted parts; a case is non-trivial if the name has a character which is not a letter or digit.')

GROUPS = {}
for d in DIALECTS:
    GROUPS[d] = {'name': dict(P.NAME, **P.NAME_UPSERT[d]), 'kwds': P.NAME_KWDS, 'alias': P.ALIAS}
MARK = 'qzmarker'
# Names used in the positions; the same name again would be a repetition.
TAKEN = {'x', 'y', 'z', 'a', 'b', 'c', 't', 'u', 'id', 'al', 'zz'}


@functools.lru_cache(None)
def baseline(d, group, pos):
    use(d)
    toks = lex(render(GROUPS[d][group][pos](MARK)), d)
    need(('id', MARK) in toks, 'a plain name is not one identifier at %s: %r', pos, toks)
    return toks


def expected(name, d):
    """Tokens of the name, or None if quotes in it are not paired in the usual way."""
    q = QUOTE[d]
    if q in name:
        parts = split_name(name, q)
        if parts is None:
            return None
    else:
        parts = [(p, False) for p in name.split('.') if p]
    out = []
    for p, quoted in parts:
        out += [('p', '*') if p == '*' and not quoted else ('id', p), ('p', '.')]
    return out[:-1]


def check_path(toks, name, d):
    """Identifiers (or stars) joined by dots, and nothing is lost of the name."""
    need(toks and len(toks) % 2 == 1, 'name %r is rendered as %r', name, toks)
    text = ''
    for i, t in enumerate(toks):
        if i % 2:
            need(t == ('p', '.'), 'name %r is rendered as %r', name, toks)
        else:
            need(t[0] == 'id' or t == ('p', '*'), 'name %r is rendered as %r', name, toks)
            text += t[1]
    q = QUOTE[d]
    strip = lambda x: x.replace(q, '').replace('.', '')
    need(strip(text) == strip(name), 'name %r is rendered as %r', name, toks)


def raw_name(src, d):
    q = QUOTE[d]

    def piece():
        return src.weighted(
            (20, lambda: src.pick(gen.PLAIN)),
            (10, lambda: src.pick(gen.ODD_BARE)),
            (10, lambda: src.pick(gen.SPECIAL)),
            (10, '.'), (10, q), (5, q + q), (5, '*'),
            (8, lambda: q + src.pick(gen.QUOTED_ONLY).replace(q, q + q) + q),
            (8, lambda: q + ''.join(src.many(lambda: gen.char(src), 1, 6)).replace(q, q + q) + q),
            (6, lambda: gen.fragment(src)),
            (3, lambda: gen.char(src, True)),
        )
    kind = src.n(10)
    if kind < 4:
        n = ''.join(src.many(piece, 1, 8, 70))
    elif kind < 7:
        def part():
            return src.weighted(
                (10, lambda: src.pick(gen.PLAIN)),
                (8, lambda: src.pick(gen.ODD_BARE).replace(q, '').replace('.', '') or 'p'),
                (4, '*'),
                (6, lambda: q + (''.join(src.many(piece, 1, 4)) or 'p').replace(q, q + q) + q))
        n = '.'.join(src.many(part, 1, 6, 60))
    elif kind < 9:
        n = gen.text(src, surrogates=True)
    else:
        n = ('.' if src.n(3) else '').join([src.pick(gen.PLAIN)] * src.pick(gen.SHORT_LENGTHS))[:2000]
    if not n.replace('.', '').replace(q, ''):
        n += 'w'
    if n in TAKEN:
        n = 'q' + n
    return n


def gen_pos(src):
    d = src.pick(DIALECTS)
    group = src.pick(['name', 'name', 'name', 'kwds', 'alias'])
    return (d, group, src.pick(sorted(GROUPS[d][group])), raw_name(src, d), src.weighted((94, 0), (2, 1), (2, 2), (2, 3)))


def check_pos(spec):
    d, group, pos, name, sub = spec
    base = baseline(d, group, pos)
    use(d)
    if group == 'kwds' and name == 'self':
        raise Invalid
    sql = render_also_copy(GROUPS[d][group][pos](gen.derived(name, sub) if sub and group != 'kwds' else name))
    got = lex(sql, d)
    want = expected(name, d)
    if want is None:
        # The same path as for the simplest position.
        want = lex(render(s.select(name)), d)[1:]
    check_path(want, name, d)
    need(got == fill(base, ('id', MARK), want), '%s on %s: name %r is rendered as %r', pos, d, name, sql)
    return [d, group, pos, 'odd quotes' if expected(name, d) is None else 'regular'] + (['special'] if not name.isalnum() else [])


def gen_two(src):
    d = src.pick(DIALECTS)
    return (d, src.n(len(TWO)), raw_name(src, d), raw_name(src, d))


TWO = [
    lambda a, b: s.select((a, b)),
    lambda a, b: s.select_from((a, b)),
    lambda a, b: s.select_from(a).join(b).on('x', 'y'),
    lambda a, b: s.select_from('t').join('u').on(a, b),
    lambda a, b: s.select_from(a).where(b, 1),
    lambda a, b: s.select(a).from_(b),
    lambda a, b: s.select(a).group_by(b),
    lambda a, b: s.select_from('t').left_join((a, b)).on('x', 'y'),
    lambda a, b: s.update(a).set(b, 1).where('x', 2),
    lambda a, b: s.select(s.concat(a, b)),
    lambda a, b: s.delete(a).from_(b).where('x', 1),
    lambda a, b: s.select_from('t').where(a, s.R(b)),
]


def check_two(spec):
    d, k, a, b = spec
    use(d)
    base = lex(render(TWO[k]('qzone', 'qztwo')), d)
    pa, pb = (expected(n, d) or lex(render(s.select(n)), d)[1:] for n in (a, b))
    want = fill(fill(base, ('id', 'qzone'), [('mark', 1)]), ('id', 'qztwo'), pb)
    want = fill(want, ('mark', 1), pa)
    sql = render_also_copy(TWO[k](a, b))
    need(lex(sql, d) == want, 'names %r and %r are rendered as %r', a, b, sql)
    return [d, 'special']


def gen_query(src):
    d = src.pick(DIALECTS)
    g = G(src, d, texts=0, plain=15, exprs=15)
    kind = src.n(5)
    q = [lambda: g.select(lo=2, hi=5, weights=dict(limit=0, option=0, outfile=0, from_=20)), g.insert, g.update, g.delete,
         lambda: g.select(lo=1, hi=3)][kind]()
    if kind in (2, 3):
        q = (q[0], q[1] + (('raw', 'allow_%s_all' % q[0]),))
    return (d, q)


def check_query(spec):
    d, q = spec
    use(d)
    compare_with_model(q, d)
    return [d, q[0], 'special']


def sqlite_name(src):
    return src.weighted(
        (10, lambda: gen.text(src, long=False)),
        (10, lambda: src.pick(gen.QUOTED_ONLY)),
        (10, lambda: src.pick(gen.ODD_BARE)),
    )


def gen_exec(src):
    return (sqlite_name(src), sqlite_name(src), sqlite_name(src), sqlite_name(src))


def check_exec(spec):
    t, a, b, alias = spec
    if not all(executable(n) and n for n in spec) or t.lower().startswith('sqlite') or a.lower() == b.lower():
        raise Invalid
    quoted = lambda n: '"%s"' % n.replace('"', '""')
    qt, qa, qb, qal = map(quoted, spec)
    use('sqlite')
    db = database(['CREATE TABLE %s (%s, %s)' % (qt, qa, qb)])
    try:
        run(db, render(s.insert_into(qt).values({qa: 1, qb: 2}).values([(qa, 3)])))
        need(db.execute('SELECT * FROM %s' % qt).fetchall() == [(1, 2), (3, None)], 'rows are not stored')
        run(db, render(s.update(qt).set(qb, 5).where(qa, 3)))
        cur = db.execute(render(s.select((qb, qal), qa).from_(qt).where(qa, 3).order_by((qb, 'desc')).group_by(qa)))
        need(cur.fetchall() == [(5, 3)], 'wrong row selected')
        need([c[0] for c in cur.description] == [alias, a], 'columns are named %r', cur.description)
        rows = run(db, render(s.select(s.count(qal + '.' + qa)).from_((qt, qal)).join((qt, quoted('j' + t))).on(qal + '.' + qa, quoted('j' + t) + '.' + qa)))
        need(rows == [(2,)], 'wrong result of the join: %r', rows)
        run(db, render(s.delete_from(qt).where(qb, 2)))
        need(db.execute('SELECT * FROM %s' % qt).fetchall() == [(3, 5)], 'wrong row is deleted')
    finally:
        db.close()
    return ['special']


TESTS = [
    Test('positions', gen_pos, check_pos, quick=60000, nontrivial={'special'}),
    Test('two_names', gen_two, check_two, quick=20000),
    Test('query', gen_query, check_query, quick=16000),
    Test('sqlite', gen_exec, check_exec, quick=6000),
]
