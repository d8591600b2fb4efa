"""Failed rendering and failures of the caller's objects."""
import datetime
import decimal

from vlib.pbt import Test, Invalid
from vlib.lib import s, rel, exc, DIALECTS, use, need
from vlib import positions as P
from vlib.history import Handle, some_op, first_ops
from vlib.model import apply_op
from vlib.qgen import G

RULE = ('Histories of 4-20 steps over 1-4 queries of all kinds (each with its model), mixed with rendering of queries which contain, in one of about 70 places and '
        'possibly together with one of the good queries, a value which can not be rendered, and with calls whose argument (a generator of the '
        'caller) raises an exception after some items; a case is non-trivial if at least one such failure happened and a good query was verified after it.')


class Broken(Exception):
    """Raised by the caller's objects."""


BAD = {
    'nan': lambda: float('nan'), 'inf': lambda: float('inf'), '-inf': lambda: float('-inf'), 'decimal nan': lambda: decimal.Decimal('NaN'),
    'decimal inf': lambda: decimal.Decimal('-Infinity'), 'empty list': lambda: [], 'empty tuple': lambda: (), 'empty set': lambda: frozenset(),
    'object': lambda: object(), 'time': lambda: datetime.time(1), 'complex': lambda: 1j, 'class': lambda: int, 'dict': lambda: {1: 2},
    'nested': lambda: [1, [2, float('nan')]], 'second': lambda: ['x', object()], 'bytearray': lambda: bytearray(b'x'),
}
PLACES = {}
for group in ('COND', 'ORDERED', 'MEMBER'):
    PLACES.update(('%s.%s' % (group, k), f) for k, f in getattr(P, group).items())
PLACES.update({
    'set': lambda v: s.update('t').set(a=1, b=v).where(c=1),
    'set_all': lambda v: s.update('t').set(b=v).allow_update_all(),
    'values': lambda v: s.insert_into('t').values(a=1, b=v).values(c=2),
    'values_last': lambda v: s.insert_into('t').values(a=1).values(b=v),
    'column': lambda v: s.select('a', v, 'b'),
    'column_alias': lambda v: s.select(('a', 'x'), (v, 'y')),
    'group_by': lambda v: s.select_from('t').group_by('a', v).order_by('b'),
    'order_by': lambda v: s.select_from('t').order_by((v, 'desc'), 'a'),
    'function': lambda v: s.select(s.max(v)),
    'functions': lambda v: s.select(s.concat('a', v, s.V(1)), s.count('x')),
    'group_concat': lambda v: s.select(s.group_concat('a', v).order_by('b').separator('-')),
    'group_concat_order': lambda v: s.select(s.group_concat('a').order_by('b', v)),
    'convert': lambda v: s.select(s.convert(v, 'char')),
    'deep': lambda v: s.select_from((s.select_from((s.select_from('t').where(a=rel.IN(s.select('b').where(c=v))), 'x')), 'y')),
    'not_q': lambda v: s.select_from('t').where(s.Not(s.Q(a=1) | s.Q(b=v))),
    'confirm_update': lambda v: s.update('t').set(a=1),
    'confirm_delete': lambda v: s.delete_from('t').join('u').on('a', 'b'),
    'confirm_set': lambda v: s.update('t').set(a=v),
})
NAMES = sorted(PLACES)
WITH = ['alone', 'from', 'in', 'exists', 'union', 'union2', 'union3', 'union4', 'column', 'join', 'insert']


def together(poison, good, how):
    """A query which contains both of them."""
    good = good if good is not None else s.select('x')
    if how == 'alone' or not hasattr(poison, '__or__'):
        return poison
    return {
        'from': lambda: s.select_from((good, 'al'), (poison, 'al2')),
        'in': lambda: s.select_from((good, 'al')).where(a=rel.IN(good)).where(b=rel.IN(poison)),
        'exists': lambda: s.select(good, s.exists(good)).where(s.exists(poison)),
        'union': lambda: good & poison,
        'union2': lambda: (good | good) & (poison & good),
        'union3': lambda: good & (good | poison),
        'union4': lambda: (good & good) | (poison & (good | good)),
        'column': lambda: s.select((good, 'al'), (poison, 'al2'), 'c'),
        'join': lambda: s.select_from('t').join((good, 'al')).on('a', 'b').left_join((poison, 'al2')).on('c', 'd'),
        'insert': lambda: s.insert_into('t').values(a=good, b=poison),
    }[how]()


def attempt(q, how):
    """Rendering, or another look, at a query which can not be rendered."""
    try:
        if how == 0:
            return str(q)
        if how == 1:
            return repr(q)
        if how == 2:
            return q.tosql()
        if how == 3:
            return '{}'.format(q)
        return '%s' % (q,)
    except exc.SqlPuzzleException as e:
        return ('exception', type(e).__name__)


# -- arguments which break in the caller's code

def broken_gen(n):
    for i in range(n):
        yield i
    raise Broken


CALLS = {
    'where_gen': lambda q, n: q.where(zz=broken_gen(n)),
    'where_pair': lambda q, n: q.where('zz', broken_gen(n)),
    'where_in': lambda q, n: q.where(zz=rel.IN(broken_gen(n))),
    'where_not_in': lambda q, n: q.where([('zz', rel.NOT_IN(broken_gen(n)))]),
    'where_v': lambda q, n: q.where(zz=s.V(broken_gen(n))),
    'where_q': lambda q, n: q.where(s.Q(zz=broken_gen(n)) | s.Q(a=1)),
    'where_not': lambda q, n: q.where(s.Not(zz=broken_gen(n))),
    'having_gen': lambda q, n: q.having(zz=broken_gen(n)),
    'columns_v': lambda q, n: q.columns(s.V(broken_gen(n))),
    'order_by_v': lambda q, n: q.order_by(s.V(broken_gen(n))),
    'set_v': lambda q, n: q.set(zz=s.V(broken_gen(n))),
    'values_v': lambda q, n: q.values(zz=s.V(broken_gen(n))),
    'values_v2': lambda q, n: q.values(yy=1, zz=s.V(broken_gen(n))),
}
POSSIBLE = {
    'select': [k for k in CALLS if not k.startswith(('set', 'values'))],
    'update': [k for k in CALLS if k.startswith(('where', 'set'))],
    'delete': [k for k in CALLS if k.startswith('where')],
    'insert': [k for k in CALLS if k.startswith('values')],
}


# -- queries which have nothing in common with those which fail

def witnesses():
    a, b, c = s.select('a').from_('t').where(x=1), s.select(('b', 'c')).from_('u'), s.select('c').where(z=None)
    return [
        a & (b | c), (a | b) & (c & (a | b)), a | (b & (c | a)),
        s.select_from((a & b, 'al')).join({c: 'd'}).on('x', 'y').left_join('e').on({'f.a': rel.GE('g.b'), 'h': 3}),
        s.select('a.b', '*', (s.count(), 'n'), s.V("it's \n\\"), s.R('x.y'), s.C('raw')).distinct().group_by('p').having(q=[1, None]).order_by(('r', 'desc')).limit(3, 4),
        s.select_from('t').where((s.Q(a=1, b='x') | s.Q(c=rel.NOT_IN([1, None]))) & s.Q(s.Not(s.Q(d=1.5) | s.Q(e=True)))).where(s.exists(a)).for_update(),
        s.select(s.group_concat('a', s.concat('b', s.V('-'))).order_by('c', ('d', 'desc')).separator(','), s.convert(s.max('x'), 'signed'), s.sum_distinct('y')),
        s.select('a').from_('t').into_outfile('f').fields_terminated_by(';').lines_terminated_by('\n'),
        s.update('t').join('u').on('t.a', 'u.b').set(a=b'x', b=s.C('b + 1'), c=a).where(id=rel.IN(b)).ignore(),
        s.insert_into('t').values(a=1, b=None).values(c=datetime.date(2020, 1, 2)).ignore(),
        s.delete('t').from_('t', ('u', 'v')).right_join('w').on('a', 'b').where(a=decimal.Decimal('1.5'), b=range(3)),
        s.delete_from('t').allow_delete_all(), s.update('t').set(a=1).allow_update_all(),
    ]


def texts_of(qs):
    return [str(q) for q in qs]


FIRST = {}


def gen_history(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=90, texts=15, exprs=15, depth=2)
    hist = []

    def step():
        k = src.n(100)
        if not hist or (k < 12 and len(hist) < 4):
            kind = src.pick(['select', 'select', 'select', 'insert', 'update', 'delete'])
            ops = first_ops(g, kind)
            hist.append([kind, list(ops)])
            return ('new', kind, tuple(ops))
        i = src.n(len(hist))
        if k < 50:
            return ('poison', src.pick(NAMES), src.pick(sorted(BAD)), i, src.pick(WITH), src.n(5))
        if k < 70:
            return ('broken', i, src.pick(POSSIBLE[hist[i][0]]), src.n(4))
        if k < 85:
            op = some_op(g, *hist[i])
            hist[i][1].append(op)
            return ('op', i, op)
        return ('verify', i, src.n(10))
    return (d, tuple(src.many(step, 4, 20, 88)))


def check_history(spec):
    d, steps = spec
    use(d)
    if not FIRST:
        for each in DIALECTS:
            use(each)
            FIRST[each] = texts_of(witnesses())
    use(d)
    old = witnesses()
    hs, labels, failed = [], set(), 0
    for n, st in enumerate(steps):
        if st[0] == 'new':
            hs.append(Handle(st[1], st[2], d))
        elif st[0] == 'op':
            hs[st[1]].apply(st[2])
        elif st[0] == 'verify':
            hs[st[1]].verify(st[2], 'step %d' % n)
        elif st[0] == 'poison':
            _, place, bad, i, how, look = st
            good = hs[i].obj if hs[i].kind == 'select' else None
            before = [h.text() for h in hs]
            try:
                q = together(PLACES[place](s.V(BAD[bad]())), good, how)
            except exc.SqlPuzzleException:
                continue
            first = attempt(q, look)
            need(isinstance(first, tuple), '%s in %s is rendered: %r', bad, place, first)
            need([h.text() for h in hs] == before, 'failed rendering of %s in %s changes other queries from %r to %r', bad, place, before, [h.text() for h in hs])
            again = attempt(q, 0)
            need(again == first, '%s in %s: rendering fails by %s, then %r', bad, place, first, again)
            failed += 1
            labels.add('poison')
        else:
            _, i, call, k = st
            before = hs[i].text()
            try:
                CALLS[call](hs[i].obj, k)
            except Broken:
                pass
            else:
                # taken, to be used later: it must not be rendered as if nothing happened
                try:
                    text = hs[i].text()
                except Broken:
                    raise Invalid
                need(isinstance(text, tuple), 'exception of the caller is lost in %s: %r', call, text)
                raise Invalid
            need(hs[i].text() == before, '%s which failed changes the query from %r to %r', call, before, hs[i].text())
            failed += 1
            labels.add('broken')
    for h in hs:
        h.verify(0, 'at the end')
    for what, got in (('made before', texts_of(old)), ('made after', texts_of(witnesses()))):
        for x, y in zip(got, FIRST[d]):
            need(x == y, 'query %s the failures is %r, it was %r', what, x, y)
    if failed and hs:
        labels.add('failed')
    return [d] + sorted(labels)


# ---------------------------------------------------------------- what failed is repaired later

REPAIR = {
    'empty': ([], lambda v: v.append(3)),
    'nan': ([1, float('nan')], lambda v: v.__setitem__(1, 5)),
    'object': (['x', object()], lambda v: v.pop()),
    'first': ([object(), 'y'], lambda v: v.pop(0)),
    'nested': ([1, [2, []]], lambda v: v[1][1].append(7)),
    'all': ([float('inf')], lambda v: v.__setitem__(0, None)),
    'dict': ([{1: 2}, 4], lambda v: v.__setitem__(0, datetime.date(2020, 1, 2))),
}
KIND = {name: ('insert' if name in ('values', 'values_last') else
               'update' if name in ('set', 'set_all', 'confirm_update', 'confirm_set', 'COND.update_where', 'MEMBER.update_in') else
               'delete' if name in ('confirm_delete', 'COND.delete_where') else
               'union' if 'union' in name else 'select') for name in NAMES}


def gen_repair(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=90, texts=15, exprs=15, depth=1)
    place = src.pick(NAMES)
    kind, ops = KIND[place], []

    def op():
        ops.append(some_op(g, kind, []))
        return ops[-1]
    a = tuple(src.many(op, 0, 2, 50)) if kind != 'union' and 'confirm' not in place else ()
    b = tuple(src.many(op, 0, 3, 70)) if kind != 'union' else ()
    return (d, place, src.pick(sorted(REPAIR)), a, tuple(src.many(lambda: src.n(5), 1, 3, 40)), b, src.chance(30))


def deep(v):
    return [deep(x) for x in v] if isinstance(v, list) else v


def both(op, d, objs):
    """The same call, which can be refused (because of what is wrong there already)."""
    got = []
    for q in objs:
        try:
            apply_op(q, op, d)
            got.append(None)
        except exc.SqlPuzzleException as e:
            got.append(type(e).__name__)
    need(got[0] == got[1], '%s after the failed rendering: %s, without it: %s', op[0], got[0] or 'taken', got[1] or 'taken')


def check_repair(spec):
    """Two equal queries, only one of them is rendered when it is wrong."""
    d, place, what, first, looks, then, copied = spec
    use(d)
    objs, args = [], []
    for _ in range(2):
        arg = deep(REPAIR[what][0])
        try:
            q = PLACES[place](s.V(arg))
        except exc.SqlPuzzleException:
            raise Invalid
        objs.append(q)
        args.append(arg)
    for op in first:
        both(op, d, objs)
    for how in looks:
        need(isinstance(attempt(objs[0], how), tuple), '%s in %s is rendered', what, place)
    if copied:
        objs = [q.copy() if hasattr(q, 'copy') else q for q in objs]
    for op in then:
        both(op, d, objs)
    for arg in args:
        REPAIR[what][1](arg)
    if place.startswith('confirm'):
        for q in objs:
            q.where(zz=3)
    got, want = attempt(objs[0], 0), attempt(objs[1], 0)
    need(got == want, 'after the failed rendering of %s in %s: %r, without it: %r', what, place, got, want)
    need(attempt(objs[0], 0) == want, 'second rendering differs')
    return [d, 'rendered' if isinstance(got, str) else 'fails'] + (['continued'] if then else [])


TESTS = [
    Test('repair', gen_repair, check_repair, quick=4000, nontrivial={'rendered', 'continued'}),
    Test('history', gen_history, check_history, quick=12000, nontrivial={'failed'}),
]
