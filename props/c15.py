"""Upsert."""
from vlib import bulk, gen
from vlib.pbt import Test, Invalid
from vlib.lib import s, exc, DIALECTS, use, render, need
from vlib.lexer import lex
from vlib.parser import parse
from vlib.model import build, apply_op, enc_name
from vlib.common import compare_with_model, database, run, executable
from vlib.findings import finding
from vlib.history import Handle
from vlib.qgen import G, RAW_ASSIGN
from .c13 import spellings

RULE = ('INSERTs with 0-3 on-duplicate-key-update calls at any place of the history, in all styles, together with other inserts made before and after; a case '
        'is non-trivial if it has an upsert call (or a refused one).')

REAL = ('mysql', 'postgresql', 'sqlite')


def odku(src, g, d):
    return g.odku()


def gen_tree(src):
    d = src.pick(REAL) if src.chance(95) else 'sql'
    g = G(src, d, plain=80, texts=20, exprs=15)
    base = list(g.insert(odku=0)[1])
    other = list(g.insert(odku=0)[1])
    calls = src.many(lambda: odku(src, g, d), 0, 3, 60)
    ops = list(base)
    for c in calls:
        ops.insert(1 + src.n(len(ops)), c)
    return (d, ('insert', tuple(ops)), ('insert', tuple(other)), src.n(4))


def plain(q):
    return ('insert', tuple(op for op in q[1] if op[0] != 'odku'))


def check_tree(spec):
    d, q, other, mode = spec
    if spellings(q, d) or spellings(other, d):
        raise Invalid
    use(d)
    before = build(other, d) if mode & 1 else None
    obj = build(q, d)
    after = build(other, d)
    if mode & 2:
        obj = obj.copy()
    text = compare_with_model(q, d, obj)
    n = sum(op[0] == 'odku' for op in q[1])
    for o in (before, after):
        if o is not None:
            compare_with_model(other, d, o)
    alone = render(build(plain(q), d))
    if not n or d == 'sql':
        need(text == alone, 'insert without upsert is %r, expected %r', text, alone)
    elif d == 'sqlite':
        need(alone.startswith('INSERT') and text == 'REPLACE' + alone[len('INSERT'):], 'upsert is %r, insert %r', text, alone)
    else:
        need(text.startswith(alone + ' ON '), 'upsert %r does not continue the insert %r', text, alone)
        tokens = [v for _, v in lex(text[len(alone):], d)]
        head = ['ON', 'DUPLICATE', 'KEY', 'UPDATE'] if d == 'mysql' else ['ON', 'CONFLICT', '(']
        need([str(t).upper() for t in tokens[:len(head)]] == head, 'unexpected %r', text)
        if d == 'postgresql' and dict(parse(text, d)[1]).get('conflict_set_keyword') is False:
            finding('K1', 'ON CONFLICT ... DO UPDATE is not followed by SET: %r' % text)
    return [d, '%d calls' % n] + (['upsert'] if n else [])


# ---------------------------------------------------------------- refusals

PG_BAD = {
    'nothing': lambda q: q.on_duplicate_key_update(),
    'kwds': lambda q: q.on_duplicate_key_update(a=1),
    'dict': lambda q: q.on_duplicate_key_update({'a': 1}),
    'dict+kwds': lambda q: q.on_duplicate_key_update({'a': 1}, b=2),
    'tuple': lambda q: q.on_duplicate_key_update(('a', 1), ('b', 2)),
    'list': lambda q: q.on_duplicate_key_update([('a', 1)]),
    'int': lambda q: q.on_duplicate_key_update(1, a=1),
    'none': lambda q: q.on_duplicate_key_update(None, a=1),
    'bytes': lambda q: q.on_duplicate_key_update(b'id', {'a': 1}),
    'bool': lambda q: q.on_duplicate_key_update(True, {'a': 1}),
    'wrong assignment': lambda q: q.on_duplicate_key_update('other', 5),
    'wrong value': lambda q: q.on_duplicate_key_update('other', a=['x']),
    'wrong value in dict': lambda q: q.on_duplicate_key_update('other', {'a': object()}),
    'wrong column': lambda q: q.on_duplicate_key_update('other', {5: 1}),
    'column only': lambda q: q.on_duplicate_key_update('other', 'a'),
    'three': lambda q: q.on_duplicate_key_update('other', [('a', 1, 2)]),
}
SQLITE_BAD = dict(PG_BAD, **{
    'pair': lambda q: q.on_duplicate_key_update('a', 1),
    'pg': lambda q: q.on_duplicate_key_update('id', {'a': 1}),
    'pgkwds': lambda q: q.on_duplicate_key_update('id', a=1),
    'raw': lambda q: q.on_duplicate_key_update(s.C('a = 1')),
})
del SQLITE_BAD['nothing']


def gen_refused(src):
    d = src.pick(['postgresql', 'sqlite'])
    g = G(src, d, plain=95, texts=10, exprs=10)
    base = g.insert(odku=0)
    ops = list(base[1])
    if src.chance(50):
        ops.insert(1 + src.n(len(ops)), odku(src, g, d))
    return (d, ('insert', tuple(ops)), src.pick(sorted(PG_BAD if d == 'postgresql' else SQLITE_BAD)), src.n(2))


def check_refused(spec):
    d, q, how, good = spec
    if spellings(q, d):
        raise Invalid
    use(d)
    obj = build(q, d)
    other = build(q, d)
    text = render(other)
    try:
        (PG_BAD if d == 'postgresql' else SQLITE_BAD)[how](obj)
        raised = False
    except Exception:  # pylint: disable=broad-except
        raised = True
    need(raised, 'upsert with %s is accepted on %s: %r', how, d, render(obj))
    need(render(obj) == text and render(other) == text, 'refused upsert (%s) changes %r to %r', how, text, render(obj))
    fresh = build(plain(q), d)
    need(render(fresh).startswith('INSERT'), 'another insert becomes %r', render(fresh))
    if good:
        op = ('odku', None) if d == 'sqlite' else ('odku', 'list', (('zz', 1),), 'zc')
        apply_op(obj, op, d)
        compare_with_model(('insert', q[1] + (op,)), d, obj)
    return [d, how, 'upsert']


# ---------------------------------------------------------------- several inserts

def gen_history(src):
    d = src.pick(REAL)
    g = G(src, d, plain=95, texts=5, exprs=10, depth=1)
    hist = []

    def step():
        k = src.n(10)
        if not hist or (k < 2 and len(hist) < 5):
            ops = g.insert(odku=0)[1]
            hist.append(1)
            return ('new', tuple(ops))
        i = src.n(len(hist))
        if k < 4 and len(hist) < 5:
            hist.append(1)
            return ('copy', i)
        if k < 7:
            return ('op', i, odku(src, g, d))
        pairs = g.assignments(1, 3)
        return ('op', i, ('values', g.two_style(pairs), pairs))
    return (d, tuple(src.many(step, 2, 14, 88)), src.n(2))


def check_history(spec):
    d, steps, every = spec
    use(d)
    hs = []
    for n, st in enumerate(steps):
        if st[0] == 'new':
            hs.append(Handle('insert', st[1], d))
        elif st[0] == 'copy':
            hs.append(hs[st[1]].copy())
        else:
            hs[st[1]].apply(st[2])
        if spellings(('insert', tuple(op for h in hs for op in h.ops)), d):
            raise Invalid
        if every:
            for j, h in enumerate(hs):
                h.verify(0, 'insert %d after step %d' % (j, n))
    for j, h in enumerate(hs):
        h.verify(0, 'insert %d at the end' % j)
    kinds = {any(op[0] == 'odku' for op in h.ops) for h in hs}
    return [d] + (['upsert'] if True in kinds else []) + (['mixed'] if len(kinds) == 2 else [])


# ---------------------------------------------------------------- execution

def gen_run(src):
    def rows(hi):
        return tuple(src.many(lambda: (src.n(6), src.pick([None, 1, 'x', "it's"]), src.pick([None, 2, 'y'])), 1, hi, 70))
    return (tuple(src.many(lambda: (rows(4), src.chance(60), src.n(3)), 1, 4, 60)))


def check_run(spec):
    use('sqlite')
    db = database(['CREATE TABLE t (id INTEGER PRIMARY KEY, a, b DEFAULT 7)'])
    table = {}
    for rows, upsert, style in spec:
        q = s.insert_into('t')
        if style == 1 and upsert:
            q.on_duplicate_key_update()
        for i, a, b in rows:
            q.values(id=i, a=a, b=b)
        if style != 1 and upsert:
            q.on_duplicate_key_update()
        text = render(q)
        ids = [r[0] for r in rows]
        if not upsert and (len(set(ids)) < len(ids) or set(ids) & set(table)):
            # a plain insert has to fail
            try:
                db.execute(text)
            except Exception:  # pylint: disable=broad-except
                continue
            need(False, 'plain insert %r replaces rows', text)
        run(db, text)
        for i, a, b in rows:
            table[i] = (i, a, b)
        got = run(db, 'SELECT * FROM t ORDER BY id')
        need(got == [table[i] for i in sorted(table)], '%r makes %r, expected %r', text, got, sorted(table.items()))
    db.close()
    return ['upsert'] if any(x[1] for x in spec) else []


TESTS = [
    Test('tree', gen_tree, check_tree, quick=14000, nontrivial={'upsert'}),
    Test('refused', gen_refused, check_refused, quick=5000, nontrivial={'upsert'}),
    Test('history', gen_history, check_history, quick=4000, nontrivial={'upsert'}),
    Test('run', gen_run, check_run, quick=2500, nontrivial={'upsert'}),
    Test('bulk', bulk.generator('odku'), bulk.check, quick=200),
]
