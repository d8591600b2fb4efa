"""String values."""
import functools

from vlib import gen, positions as P
from vlib.pbt import Test, Invalid
from vlib.lib import s, DIALECTS, use, render, render_also_copy, Violation, need
from vlib.lexer import lex
from vlib.model import as_reference
from vlib.common import fill, path_tokens, database, run, executable, compare_with_model
from vlib.qgen import G

RULE = ('Texts are words, quotes, backslashes, control and Unicode characters, SQL injection fragments, quoted names, constants harvested from the '
        'code, and repetitions up to lengths around limits; a case is non-trivial if its text has a character which is not a letter, digit or blank '
        '(positions, literal) or if the query has at least one such text (query).')
ASSUMPTIONS = ['MySQL without NO_BACKSLASH_ESCAPES and ANSI_QUOTES, PostgreSQL with standard_conforming_strings = on',
               'plain SQL: borders of literals have to be the same with and without backslash escapes; content is read with them']

GROUPS = {}
for d in DIALECTS:
    GROUPS[d] = {}
    for g in (P.COND, P.ORDERED, P.TEXT, P.MEMBER, P.ASSIGN, P.UPSERT[d]):
        GROUPS[d].update(g)
NAMES = {d: sorted(GROUPS[d]) for d in DIALECTS}
MARK = 'qzmarker'


@functools.lru_cache(None)
def baseline(d, pos):
    use(d)
    toks = lex(render(GROUPS[d][pos](MARK)), d)
    return toks, toks.count(('str', MARK))


def expected_tokens(text, d):
    ref = as_reference(text, d)
    if ref is None:
        return [('str', text)]
    if ref[0] == 'oddstar':
        raise Invalid
    return path_tokens(ref)


def nasty(text):
    return any(not (c.isalnum() or c == ' ') for c in text)


def gen_pos(src):
    d = src.pick(DIALECTS)
    return (d, src.pick(NAMES[d]), gen.text(src, surrogates=True), src.weighted((92, 0), (3, 1), (3, 2), (2, 3)))


def check_pos(spec):
    d, pos, text, sub = spec
    base, count = baseline(d, pos)
    use(d)
    need(count == 1, 'a plain text is not one literal at %s: %r', pos, base)
    obj = GROUPS[d][pos](gen.derived(text, sub) if sub else text)
    sql = render_also_copy(obj)
    got = lex(sql, d)
    want = fill(base, ('str', MARK), expected_tokens(text, d))
    need(got == want, '%s on %s: %r is rendered as %r', pos, d, text, sql)
    return [d, pos, 'reference' if as_reference(text, d) else 'literal'] + (['nasty'] if nasty(text) else [])


def gen_two(src):
    """Two texts next to each other: one must not change where the other one ends."""
    d = src.pick(DIALECTS)
    return (d, src.n(len(TWO)), gen.text(src, long=False), gen.text(src, long=False))


TWO = [
    lambda a, b: s.select_from('t').where(x=a, y=b),
    lambda a, b: s.select_from('t').where(x=[a, b]),
    lambda a, b: s.insert_into('t').values(x=a, y=b),
    lambda a, b: s.insert_into('t').values(x=a).values(x=b),
    lambda a, b: s.update('t').set(x=a).where(y=b),
    lambda a, b: s.update('t').set(x=a, y=b).allow_update_all(),
    lambda a, b: s.select(s.concat(s.V(a), 'c', s.V(b))),
    lambda a, b: s.select_from('t').where(s.Q(x=a) | s.Q(x=b)),
    lambda a, b: s.select_from('t').into_outfile(a).lines_terminated_by(b),
    lambda a, b: s.select_from('t').where(x=a) & s.select_from('u').where(x=b),
    lambda a, b: s.select(s.V(a), s.V(b)),
]


def check_two(spec):
    d, k, a, b = spec
    use(d)
    base = lex(render(TWO[k]('qzone', 'qztwo')), d)
    sql = render_also_copy(TWO[k](a, b))
    got = lex(sql, d)
    if k in (1, 7, 10) and a == b:
        raise Invalid      # the same item twice
    want = []
    for t in base:
        want += expected_tokens(a, d) if t == ('str', 'qzone') else expected_tokens(b, d) if t == ('str', 'qztwo') else [t]
    need(got == want, '%r and %r are rendered as %r', a, b, sql)
    return [d] + (['nasty'] if nasty(a) and nasty(b) else [])


def gen_query(src):
    d = src.pick(DIALECTS)
    g = G(src, d, texts=100, plain=95, exprs=10)
    kind = src.n(4)
    q = (g.select(lo=2, hi=5), g.insert(), g.update(), g.delete())[kind] if False else \
        [lambda: g.select(lo=2, hi=5, weights=dict(limit=1, option=1, outfile=8, from_=5, join=3)), g.insert, g.update, g.delete][kind]()
    if kind >= 2:
        q = (q[0], q[1] + (('raw', 'allow_%s_all' % q[0]),))
    return (d, q)


def check_query(spec):
    d, q = spec
    use(d)
    sql = compare_with_model(q, d)
    return [d, q[0]] + (['nasty'] if "'" in sql else [])


_db = []


def gen_exec(src):
    return (gen.text(src),)


def check_exec(spec):
    text, = spec
    if not executable(text):
        raise Invalid
    if as_reference(text, 'sqlite'):
        raise Invalid
    if not _db:
        _db.append(database(['CREATE TABLE t (a, b)']))
    db = _db[0]
    use('sqlite')
    db.execute('DELETE FROM t')
    run(db, render(s.insert_into('t').values(a=text).values(b=text)))
    rows = db.execute('SELECT a, b FROM t').fetchall()
    need(rows == [(text, None), (None, text)], 'text %r is stored as %r', text, rows)
    rows = run(db, render(s.select(s.V(text), s.count()).from_('t').where(a=text)))
    need(rows == [(text, 1)], 'row with text %r is not found: %r', text, rows)
    run(db, render(s.update('t').set(b=text).where(a=text)))
    rows = db.execute('SELECT a, b FROM t').fetchall()
    need(rows == [(text, text), (None, text)], 'text %r is stored as %r', text, rows)
    run(db, render(s.delete_from('t').where(a=[text])))
    rows = db.execute('SELECT a, b FROM t').fetchall()
    need(rows == [(None, text)], 'row with text %r is not deleted: %r', text, rows)
    return ['nasty'] if nasty(text) else []


TESTS = [
    Test('positions', gen_pos, check_pos, quick=60000, nontrivial={'nasty'}),
    Test('two_texts', gen_two, check_two, quick=16000, nontrivial={'nasty'}),
    Test('query', gen_query, check_query, quick=12000, nontrivial={'nasty'}),
    Test('sqlite', gen_exec, check_exec, quick=12000, nontrivial={'nasty'}),
]
