"""Queries with many items of one kind: no limit on their number may change what the query means."""
import random

from . import gen
from .lib import DIALECTS, use
from .common import compare_with_model

FROM = ('from_', 'args', (('t', None),))
SORTS = (None, 'asc', 'desc', 'DESC', 'ASC')
ONE = ['args', 'tuples', 'dict', 'kwds', 'odict']
TWO = ['list', 'tuplelist', 'dict', 'kwds', 'odict']


def names(n, k):
    out = ['c%d' % i for i in range(n)]
    random.Random(k).shuffle(out)
    return out


def again(items, k, share=4):
    """Some of the items once more."""
    return random.Random(k + 1).sample(list(items), max(1, len(items) // share))


def pairs(method, n, k, value=lambda i: i):
    return tuple((x, value(i)) for i, x in enumerate(names(n, k)))


def conds(method, n, style, k):
    items = pairs(method, n, k)
    if style < 5:
        return [(method, ('pairs', TWO[style], items))]
    if style < 7:
        return [(method, ('pairs', 'pair', (p,))) for p in items]
    if style < 8:
        return [(method, ('pairs', 'pair', (p,))) for p in items + tuple(again(items, k))]
    if style < 9:
        return [(method, ('obj', ('q', ('pairs', TWO[k % 5], items))))]
    return [(method, ('obj', ('q', ('pairs', 'pair', (p,))))) for p in items + tuple(again(items, k))]


def orders(method, n, style, k):
    items = pairs(method, n, k, lambda i: SORTS[(i * 7 + k) % 5])
    if style < 5:
        return [(method, ONE[style], items)]
    out = [(method, 'tuples', (p,)) for p in items] if style < 8 else [(method, 'tuples', items)]
    return out + [(method, 'tuples', ((x, SORTS[k % 5]),)) for x, _ in again(items, k)]


def aliased(method, n, style, k):
    items = tuple((x, 'a' + x if (i + k) % 3 == 0 else None) for i, x in enumerate(names(n, k)))
    if style < 5:
        return [(method, ONE[style], items)]
    out = [(method, 'tuples', (p,)) for p in items] if style < 8 else [(method, 'tuples', items)]
    return out + [(method, 'tuples', (p if j % 2 else (p[0], 'b%d' % j),)) for j, p in enumerate(again(items, k))]


def assigns(method, n, style, k, tail=()):
    items = pairs(method, n, k)
    if style < 5:
        return [(method, TWO[style], items) + tail]
    out = [(method, 'list', (p,)) + tail for p in items] if style < 8 else [(method, 'list', items) + tail]
    return out + [(method, 'list', ((x, v + j % 2),)) + tail for j, (x, v) in enumerate(again(items, k))]


ASPECTS = {
    'where': lambda n, st, k: ('select', [FROM] + conds('where', n, st, k)),
    'having': lambda n, st, k: ('select', [FROM] + conds('having', n, st, k)),
    'on': lambda n, st, k: ('select', [FROM, ('join', 'left_join', 'u', None, 'str')] + conds('on', n, st, k)),
    'delete': lambda n, st, k: ('delete', [FROM] + conds('where', n, st, k)),
    'columns': lambda n, st, k: ('select', aliased('columns', n, st, k)),
    'from_': lambda n, st, k: ('select', aliased('from_', n, st, k)),
    'order_by': lambda n, st, k: ('select', [FROM] + orders('order_by', n, st, k)),
    'group_by': lambda n, st, k: ('select', [FROM] + orders('group_by', n, st, k)),
    'set': lambda n, st, k: ('update', [('table', 't', None)] + assigns('set', n, st, k) + [('where', ('pairs', 'pair', (('w', 1),)))]),
    'values': lambda n, st, k: ('insert', [('into', 't')] + assigns('values', n, st % 5, k) + assigns('values', max(1, n // 3), (st + 1) % 5, k + 1)),
    'odku': lambda n, st, k: ('insert', [('into', 't'), ('values', 'pair', (('a', 1),))] + assigns('odku', n, st, k, ('id',))),
}


def expand(spec):
    d, aspect, n, style, k = spec
    kind, ops = ASPECTS[aspect](n, style, k)
    return (kind, tuple(ops))


def generator(*aspects, hi=600):
    def generate(src):
        aspect = src.pick(aspects)
        d = src.pick(['mysql', 'postgresql']) if aspect == 'odku' else src.pick(DIALECTS)
        n = src.weighted((4, lambda: src.between(5, 60)), (4, lambda: src.pick([x for x in gen.SHORT_LENGTHS if 5 < x < 300])), (1, lambda: src.pick([x for x in gen.SHORT_LENGTHS if 300 < x <= hi] or [200])))
        return (d, aspect, n, src.n(10), src.n(1000))
    return generate


def check(spec):
    d, aspect, n, style, k = spec
    use(d)
    compare_with_model(expand(spec), d)
    return [d, aspect, 'more than 300' if n > 300 else 'more than 60' if n > 60 else 'up to 60', 'rich', 'several']
