"""Relations."""
import datetime
import decimal
import re
import types

from vlib import gen
from vlib.pbt import Test, Invalid
from vlib.lib import s, rel, exc, DIALECTS, use, render, need
from vlib.common import compare_with_model, database, run
from vlib.qgen import G, CMP
from vlib.model import b_rel, a_pair, as_reference
from vlib.threevl import OPS, cmp3, member, not3

RULE = ('One to three conditions of every relation (or without one) with values of every type, collections of any size, with None in any place; '
        'a case is non-trivial if a relation object or a collection or None is used.')


# ---------------------------------------------------------------- rendering

class RG(G):
    def condval(self):
        src = self.src
        return src.weighted(
            (30, self.scalar),
            (25, lambda: self.big_members()),
            (6, lambda: ('tup', tuple(self.members()))),
            (6, lambda: ('gen', tuple(self.members()))),
            (4, lambda: src.pick([range(src.n(5), 5 + src.between(1, 30)), range(src.n(9), -src.between(1, 9), -1 - src.n(3)), range(-src.n(9), 1), range(src.between(1, 3)), range(-1, 0)])),
            (70, self.relation),
            (10, self.expr),
        )

    def big_members(self):
        src = self.src
        if src.chance(6):
            n = src.pick(gen.SHORT_LENGTHS)
            out = [gen.integer(src) + i for i in range(n)]
            for _ in range(src.n(3)):
                out[src.n(n)] = None
            return out
        return list(self.members(none=src.pick([0, 20, 60, 95])))

    def relation(self):
        src = self.src
        return src.weighted(
            (60, lambda: super(RG, self).relation()),
            (20, lambda: ('rel', src.pick(('LIKE', 'NOT_LIKE', 'REGEXP')), 'v', self.string())),
            (20, lambda: ('rel', src.pick(('IN', 'NOT_IN')), 'v', self.big_members())),
            (20, lambda: self.inrel()),
            (6, lambda: ('rel', src.pick(('LIKE', 'NOT_LIKE', 'REGEXP')), 'v', ('C', 'raw'))),
        )


def gen_rel(src):
    d = src.pick(DIALECTS)
    clause = src.pick(['where', 'where', 'having', 'on', 'q', 'not', 'update', 'delete'])
    g = RG(src, d, depth=1, texts=25, plain=85, exprs=10)
    if clause == 'on':
        pairs = tuple(src.many(lambda: (g.name(), g.onval()), 1, 2, 30))
    else:
        pairs = tuple(src.many(lambda: (g.condcol(), g.condval()), 1, 3, 25))
    return (d, clause, ('pairs', g.two_style(pairs), pairs))


def check_rel(spec):
    d, clause, form = spec
    use(d)
    head = ('from_', 'args', (('t', None),))
    if clause == 'on':
        q = ('select', (head, ('join', 'join', 'u', None, 'str'), ('on', form)))
    elif clause in ('where', 'having'):
        q = ('select', (head, (clause, form)))
    elif clause in ('q', 'not'):
        q = ('select', (head, ('where', ('obj', (clause, form)))))
    elif clause == 'update':
        q = ('update', (('table', 't', None), ('set', 'kwds', (('z', 1),)), ('where', form)))
    else:
        q = ('delete', (head, ('where', form)))
    compare_with_model(q, d)
    labels = [d, clause]
    for _, v in form[2]:
        if isinstance(v, tuple) and v[0] == 'rel':
            labels.append(v[1])
            if v[1] in ('IN', 'NOT_IN') and not (isinstance(v[3], tuple) and v[3] and v[3][0] in ('S', 'C', 'V')) and None in list(v[3]):
                labels.append('None in collection')
        elif isinstance(v, (list, range)) or (isinstance(v, tuple) and v[0] in ('gen', 'tup')):
            labels.append('collection')
        elif v is None:
            labels.append('None')
        else:
            labels.append('default')
    return labels


# ---------------------------------------------------------------- styles of collections

def gen_coll(src):
    d = src.pick(DIALECTS)
    g = RG(src, d, texts=25)
    return (d, src.pick(['IN', 'NOT_IN']), src.n(4), tuple(g.big_members()))


def check_coll(spec):
    d, name, clause, items = spec
    use(d)
    cls = getattr(rel, name)

    def q(v):
        base = s.select_from('t')
        if clause == 0:
            return base.where(a=v)
        if clause == 1:
            return base.having('a', v)
        if clause == 2:
            return base.where(s.Q(a=v) | s.Q(b=1))
        return base.join('u').on([('a', v)])
    want = render(q(cls(list(items))))
    forms = {'tuple': cls(tuple(items)), 'generator': cls(i for i in items)}
    if len(items) > 1:
        forms['arguments'] = cls(*items)
    if name == 'IN':
        forms.update({'plain list': list(items), 'plain tuple': tuple(items), 'plain generator': (i for i in items)})
    ints = [i for i in items if type(i) is int]
    for key, v in forms.items():
        got = render(q(v))
        need(got == want, 'collection as %s gives %r, as list %r', key, got, want)
    if ints:
        r = range(ints[0], ints[0] + len(items))
        for r in (r, r[::-1], range(ints[0], ints[0] - 3 * len(items), -2)):
            need(render(q(cls(r))) == render(q(cls(list(r)))), 'range differs from list')
            if name == 'IN':
                need(render(q(r)) == render(q(list(r))), 'plain range differs from list')
    # The same object rendered twice gives the same.
    x = q(cls(i for i in items))
    need(render(x) == want == render(x), 'second rendering differs')
    return [d, name] + (['None in collection'] if None in items else ['collection'])


# ---------------------------------------------------------------- refusals

VALUES = {
    'str': lambda: 'x', 'int': lambda: 5, 'float': lambda: 1.5, 'Decimal': lambda: decimal.Decimal('2.5'), 'bool': lambda: True,
    'date': lambda: datetime.date(2020, 1, 2), 'datetime': lambda: datetime.datetime(2020, 1, 2, 3), 'None': lambda: None,
    'list': lambda: [1, 2], 'tuple': lambda: (1, None), 'range': lambda: range(3), 'gen': lambda: (i for i in [1, 2]),
    'bytes': lambda: b'x', 'bytearray': lambda: bytearray(b'x'), 'object': lambda: object(), 'class': lambda: int, 'function': lambda: len,
    'complex': lambda: 1j, 'timedelta': lambda: datetime.timedelta(1), 'time': lambda: datetime.time(1), 'ellipsis': lambda: ...,
    'dict': lambda: {'a': 1}, 'set': lambda: {1, 2},
    'empty list': lambda: [], 'empty tuple': lambda: (), 'empty range': lambda: range(0), 'empty gen': lambda: (i for i in ()),
    'C': lambda: s.C('raw'), 'V': lambda: s.V(5), 'R': lambda: s.R('x'), 'S': lambda: s.select('x'), 'F': lambda: s.count('x'),
}
SCALAR = {'str', 'int', 'float', 'Decimal', 'date', 'datetime'}
COLLECTION = {'list', 'tuple', 'range', 'gen'}
OBJECTS = {'C', 'V', 'R', 'S', 'F'}
ACCEPTS = {}
for n in ('EQ', 'NE', 'EQUAL_TO', 'NOT_EQUAL_TO'):
    ACCEPTS[n] = SCALAR | {'bool'}
for n in CMP:
    ACCEPTS.setdefault(n, SCALAR)
for n in ('LIKE', 'NOT_LIKE', 'REGEXP'):
    ACCEPTS[n] = {'str'}
for n in ('IN', 'NOT_IN'):
    ACCEPTS[n] = COLLECTION
for n in ('IS', 'IS_NOT'):
    ACCEPTS[n] = {'bool', 'None'}
DEFAULT = SCALAR | {'bool', 'None'} | COLLECTION
UNSAID = {'IN': {'dict', 'set', 'bytearray'}, 'NOT_IN': {'dict', 'set', 'bytearray'}}


def gen_refuse(src):
    return (src.pick(DIALECTS), src.pick(sorted(ACCEPTS) + ['default']), src.pick(sorted(VALUES)), src.n(5))


def check_refuse(spec):
    d, name, kind, clause = spec
    use(d)
    accepts = (DEFAULT if name == 'default' else ACCEPTS[name]) | OBJECTS
    if kind in UNSAID.get(name, ()):
        raise Invalid

    def make():
        v = VALUES[kind]()
        v = v if name == 'default' else getattr(rel, name)(v)
        q = s.select_from('t')
        if clause == 0:
            q.where(a=v)
        elif clause == 1:
            q.having([('a', v)])
        elif clause == 2:
            q.join('u').on('a', v)
        elif clause == 3:
            q.where(s.Q(a=v))
        else:
            q = s.delete_from('t').where({'a': v})
        return render(q)
    try:
        text = make()
    except exc.InvalidArgumentException:
        need(kind not in accepts, '%s refuses %s', name, kind)
        return ['refused']
    need(kind in accepts, '%s accepts %s and renders %r', name, kind, text)
    return ['accepted']


# ---------------------------------------------------------------- execution

NUMS = [None, 0, 1, 2, -1, 10]
WORDS = [None, '', 'a', 'A', 'ab', 'abc', 'b', '10', '%', 'a%c', "o'x", 'a_c', 'ba']
PATTERNS = ['a%', '%', '_', 'a_', '%b%', '', 'A', '%c', 'a', '__', 'a%c', "%'%", '1%']
REGEXPS = ['a', '^a', 'c$', '.', '^$', 'b+', '[ab]c', "'", '^.b']
_db = []


def like(text, pattern):
    rx = ''.join('.*' if c == '%' else '.' if c == '_' else re.escape(c) for c in pattern)
    return re.match('(?s)^' + rx + r'\Z', text, re.IGNORECASE | re.ASCII) is not None


def gen_exec(src):
    if src.chance(45):
        col, pool = 'n', NUMS[1:]
    else:
        col, pool = 'w', WORDS[1:]

    def members():
        return tuple(src.many(lambda: None if src.chance(30) else src.pick(pool), 1, 5, 65))
    v = src.weighted(
        (20, lambda: ('rel', src.pick(CMP), 'v', src.pick(pool))),
        (10, lambda: src.pick(pool)),
        (3, None),
        (10, lambda: list(members())),
        (3, lambda: ('tup', members())),
        (3, lambda: ('gen', members())),
        (10, lambda: ('rel', src.pick(('IN', 'NOT_IN')), src.pick(['list', 'tuple', 'gen']), members())),
        (4, lambda: ('rel', src.pick(('IN', 'NOT_IN')), 'args', members() + (src.pick(pool),))),
        (4, lambda: ('rel', src.pick(('IS', 'IS_NOT')), 'v', None)),
        (15 if col == 'w' else 0, lambda: ('rel', src.pick(('LIKE', 'NOT_LIKE')), 'v', src.pick(PATTERNS))),
        (8 if col == 'w' else 0, lambda: ('rel', 'REGEXP', 'v', src.pick(REGEXPS))),
    )
    return (col, v, src.n(3))


def truth(x, v):
    if isinstance(v, tuple) and v[0] == 'rel':
        _, name, _, val = v
        if name in ('IN', 'NOT_IN'):
            return member(name == 'NOT_IN', x, list(val))
        if name in ('IS', 'IS_NOT'):
            return (x is None) == (name == 'IS')
        if x is None:
            return None
        if name in ('LIKE', 'NOT_LIKE'):
            return like(x, val) == (name == 'LIKE')
        if name == 'REGEXP':
            return re.search(val, x) is not None
        return cmp3(OPS[name], x, val)
    if isinstance(v, (list, tuple)):
        return member(False, x, list(v[1]) if isinstance(v, tuple) else v)
    if v is None:
        return x is None
    return cmp3('=', x, v)


def check_exec(spec):
    col, v, shape = spec
    if not _db:
        db = database(['CREATE TABLE t (id, n, w)'])
        db.create_function('regexp', 2, lambda p, x: None if x is None else re.search(p, x) is not None)
        rows = [(i, n, w) for i, (n, w) in enumerate((n, w) for n in NUMS for w in WORDS)]
        db.executemany('INSERT INTO t VALUES (?, ?, ?)', rows)
        _db.extend([db, rows])
    db, rows = _db
    use('sqlite')
    arg = b_rel(v, 'sqlite')
    q = s.select('id').from_('t')
    at = {'n': 1, 'w': 2}[col]
    if shape == 0:
        q.where(col, arg)
        want = [r[0] for r in rows if truth(r[at], v) is True]
    elif shape == 1:
        q.where(s.Not({col: arg}))
        want = [r[0] for r in rows if truth(r[at], v) is False]
    else:
        # next to another condition: the relation is one unit
        q.where(s.Q(**{col: arg}) | s.Q(id=0), n=rel.NE(1))
        want = [r[0] for r in rows if (truth(r[at], v) is True or r[0] == 0) and r[1] is not None and r[1] != 1]
    sql = render(q)
    got = sorted(r[0] for r in run(db, sql))
    need(got == want, '%r selects rows %r instead of %r', sql, got, want)
    return [v[1] if isinstance(v, tuple) and v[0] == 'rel' else 'default' if isinstance(v, (str, int)) else 'collection' if v is not None else 'None']


NONTRIVIAL = set(ACCEPTS) | {'None in collection', 'collection', 'None'}
TESTS = [
    Test('render', gen_rel, check_rel, quick=36000, nontrivial=NONTRIVIAL),
    Test('collections', gen_coll, check_coll, quick=10000, nontrivial=NONTRIVIAL),
    Test('refusals', gen_refuse, check_refuse, quick=8000),
    Test('sqlite', gen_exec, check_exec, quick=14000, nontrivial=NONTRIVIAL),
]
