"""The same call twice with one nearly equal name or value: no such two may be taken for one."""
import datetime
import decimal

NOON = datetime.datetime(2012, 5, 25, 12, 0, 0)
UTC = datetime.timezone.utc
E1, E2 = '\xe9', 'e\u0301'
NAMES = [
    ('a', 'A'), ('a', 'a '), ('a', ' a'), (E1, E2), ('n' + E1 + 'm', 'n' + E2 + 'm'), ('id', 'ID'), ('a b', 'a  b'), ('a b', 'ab'), ('a', 'a\t'), ('a', 'a\n'),
    ('x' * 30 + 'a', 'x' * 30 + 'b'), ('x' * 64 + 'a', 'x' * 64 + 'b'), ('x' * 255 + 'a', 'x' * 255 + 'b'), ('a' + 'x' * 64, 'b' + 'x' * 64), ('\xdf', 'ss'), ('\u212a', 'K'),
    ('\ufb01', 'fi'), ('a', '\u0430'), ('a_b', 'a-b'), ('a1', 'a01'), ('1', '01'), ('a', 'a\u200b'), ("it's", 'its'), ('t.a', 'a'), ('t.a', 'u.a'), ('t.a', 't.b'),
    ('t.id', 'T.id'), ('db.t.a', 't.a'), ('a', 'aa'), ('ab', 'ba'), ('a%', 'a%%'), ('a\\', 'a\\\\'), ('\u0130', 'i\u0307'), ('a', 'a;'), ('\xb2', '2'), ('None', 'none'),
]
TEXTS = [p for p in NAMES] + [
    ('1', '1.0'), ('', ' '), ('x', 'x\n'), ("'", "''"), ('\\n', '\n'), ('%', '%%'), ('NULL', 'null'), ('x', 'x\0'), ('x\0a', 'x\0b'), ('\r\n', '\n'), ('a,b', 'a, b'),
    ('x' * 1000 + 'a', 'x' * 1000 + 'b'), ('x' * 1000, 'x' * 1001), ('0', '00'), ('2012-05-25', '2012-05-26'), ('{}', '{{}}'), ('a\\', 'a'), ('"', '""'),
]
INTS = [(2 ** 53, 2 ** 53 + 1), (10 ** 20, 10 ** 20 + 1), (2 ** 63, 2 ** 63 + 1), (2 ** 31, 2 ** 31 + 2 ** 32), (5, 5 + 2 ** 32), (1, -1), (255, 256), (1000, 1001), (10 ** 40, 10 ** 40 + 1),
        (0, 2 ** 64), (-1, -2), (2 ** 61, 1), (-1, 2 ** 61 - 2)]
OTHERS = [
    (1, True), (0, False), (1, '1'), (0, ''), (5, 5.0), (1.5, 1.50001), (1e15, 1e15 + 0.25), (0.1, 0.10001), (decimal.Decimal('12345678901234567890.1'), decimal.Decimal('12345678901234567890.2')),
    (decimal.Decimal('1.5'), 1.5), (decimal.Decimal('0.1'), decimal.Decimal('0.10001')), (NOON, NOON.replace(microsecond=1)), (NOON, NOON.replace(second=1)), (NOON, NOON.replace(hour=13)),
    (NOON, NOON.replace(year=2013)), (NOON, NOON.replace(tzinfo=UTC)), (NOON.date(), datetime.datetime(2012, 5, 25)), (datetime.date(2012, 5, 25), datetime.date(2012, 5, 26)),
    (datetime.date(2012, 5, 25), datetime.date(2012, 6, 25)), (datetime.date(2012, 5, 25), '2012-05-25'), (True, False), (('V', 'a'), 'b'), (('R', 'a'), 'a'), (('R', 'a'), ('R', 'A')), (('V', 1), 2),
    (('C', 'raw'), 'raw'), (('C', 'raw'), ('C', 'RAW')), (('C', 'x + 1'), ('C', 'x+1')), (('C', "f('a')"), ('C', "f('A')")), (('C', "f('a b')"), ('C', "f('a  b')")),
]
LONG = list(range(40))
LISTS = [
    ([1, 2], [2, 1]), ([1, 2], [1, 2, 2]), ([1, 2], [1, 2, 3]), ([1, 2], [1]), (LONG, LONG[:-1] + [99]), (LONG, LONG[:-1]), (LONG * 3, LONG * 3 + [99]), (['a', 'b'], ['a', 'B']), ([1, 2], ['1', '2']),
    (['a', 'b'], ['a, b']), ([1, None], [1]), ([None], [1]), ([1, 2], [True, 2]), ([1, 2], [1.0, 2]), (['x' * 80 + 'a'], ['x' * 80 + 'b']), ([1, 2, 3], [1, 3]), ([1, 1], [1]), ([12, 3], [1, 23]),
    ([1, 2], ('rel', 'NOT_IN', 'list', (1, 2))), ([E1], [E2]),
]
RELS = [('EQ', 'NE'), ('GT', 'GE'), ('LT', 'LE'), ('GT', 'LT'), ('EQ', 'LIKE'), ('LIKE', 'NOT_LIKE'), ('EQ', 'GE'), ('LIKE', 'REGEXP')]


def flip(src, pair):
    return pair[::-1] if src.n(2) else pair


def names(src):
    return flip(src, src.pick(NAMES))


def values(src, assigned=False):
    """Two nearly equal values."""
    return flip(src, src.weighted(
        (6, lambda: src.pick(TEXTS)),
        (3, lambda: src.pick(INTS)),
        (5, lambda: src.pick(OTHERS)),
        (0 if assigned else 3, lambda: src.pick(LISTS)),
        (1 if assigned else 0, lambda: (b'a', b'b')),
    ))


def cond_values(src):
    def rels():
        a, b = src.pick(RELS)
        v = src.pick(['x', 'a b', '1'])
        return (('rel', a, 'v', v), ('rel', b, 'v', v))

    def rel_values():
        a, b = src.pick(TEXTS)
        r = src.pick(['EQ', 'NE', 'GT', 'LIKE', 'NOT_LIKE', 'LE'])
        return (('rel', r, 'v', a), ('rel', r, 'v', b))

    def ins():
        a, b = src.pick([p for p in LISTS if all(isinstance(x, list) for x in p)])
        r = src.pick(['IN', 'NOT_IN'])
        return (('rel', r, 'list', tuple(a)), ('rel', r, 'list', tuple(b)))
    return src.weighted((6, lambda: values(src)), (2, lambda: flip(src, rels())), (2, lambda: flip(src, rel_values())), (2, lambda: flip(src, ins())))


def two(src, first, second, k=None):
    """Pairs (first, second) which differ in one of the two."""
    if k is None:
        k = src.n(2)
    if k == 0:
        a, b = first()
        v = second()[0]
        return ((a, v), (b, v))
    n = first()[0]
    a, b = second()
    return ((n, a), (n, b))


def conditions(src):
    return two(src, lambda: names(src), lambda: cond_values(src), 0 if src.chance(35) else 1)


def on_conditions(src):
    def right():
        if src.chance(60):
            a, b = names(src)
            r = src.pick([None, None, 'EQ', 'GT', 'NE'])
            return (a, b) if r is None else (('rel', r, 'v', a), ('rel', r, 'v', b))
        a, b = src.pick(INTS) if src.chance(50) else src.pick([p for p in LISTS if all(isinstance(x, list) for x in p)])
        return flip(src, (a, b))
    if src.chance(25):
        # written from the other side, which is the same only for some relations
        a, b = names(src)
        r, q = src.pick(SIDES)
        return ((a, ('rel', r, 'v', b)), (b, ('rel', q, 'v', a)))
    return two(src, lambda: names(src), right)


ALL = ['EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP']
SIDES = [(r, r) for r in ALL] + [('GT', 'LT'), ('GE', 'LE'), ('LT', 'GT'), ('LE', 'GE'), ('GT', 'LE'), ('GE', 'LT'), ('EQ', 'NE'), ('LIKE', 'NOT_LIKE'), ('EQ', 'LIKE'), ('EQ', 'GE')]


def assignments(src):
    return two(src, lambda: names(src), lambda: values(src, True))


def aliases(src):
    a, b = names(src)
    return (a, b) if src.chance(70) else flip(src, (a, None))


def aliased(src):
    return two(src, lambda: names(src), lambda: aliases(src))


def ops(src, key):
    """Two calls of the method with nearly the same arguments."""
    if key in ('where', 'having', 'on'):
        return tuple((key, form(src, p)) for p in (on_conditions(src) if key == 'on' else conditions(src)))
    if key in ('order_by', 'group_by'):
        a, b = names(src)
        return ((key, 'args', ((a, None),)), (key, 'args', ((b, src.pick([None, 'desc', 'asc'])),)))
    if key == 'columns':
        return tuple(('columns', 'tuples' if p[1] is not None else 'args', (p,)) for p in aliased(src))
    if key == 'from_':
        return tuple(('from_', 'tuples' if p[1] is not None else 'args', (p,)) for p in aliased(src))
    if key == 'set':
        a, b = assignments(src)
        items = (a, b, a) if src.chance(30) else (a, b)
        return tuple(('set', src.pick(['pair', 'kwds', 'list']), (p,)) for p in items)
    raise TypeError(key)


def form(src, p):
    if src.chance(25):
        return ('obj', ('q', ('pairs', src.pick(['pair', 'list']), (p,))))
    if src.chance(10):
        return ('obj', ('not', ('pairs', src.pick(['pair', 'list']), (p,))))
    return ('pairs', src.pick(['pair', 'kwds', 'list']), (p,))


def joins(src):
    """Two joins, nearly the same, with nearly the same conditions."""
    kind = src.pick(['join', 'left_join', 'right_join'])
    kind2 = src.pick(['join', 'left_join', 'right_join'])
    k = src.n(3)
    if k < 2:
        (t1, a1), (t2, a2) = two(src, lambda: names(src), lambda: aliases(src), k)
        c = on_conditions(src)[0]
        c1 = c2 = c
    else:
        t1 = t2 = 'u'
        a1 = a2 = src.pick([None, 'x'])
        c1, c2 = on_conditions(src)
    out = []
    for kd, t, a, c in ((kind, t1, a1, c1), (kind2, t2, a2, c2)):
        out.append(('join', kd, t, a, 'tuple' if a is not None else 'str'))
        out.append(('on', ('pairs', 'pair', (c,))))
    return tuple(out)


FROM = ('from_', 'args', (('t', None),))


def wrap(src, key, both):
    """Query with the two calls, in which something else may come between them."""
    if key == 'joins':
        head, tail = both[:2], both[2:]
    else:
        head, tail = both[:1], both[1:]
    kind = 'select'
    if key in ('where', 'on', 'joins') and src.chance(30):
        kind = src.pick(['update', 'delete'])
    if key == 'set':
        kind = 'update'
    if key == 'on':
        head = (('join', src.pick(['join', 'left_join']), 'u', None, 'str'),) + head
    mid = ()
    if src.chance(35):
        mid = {'select': (('order_by', 'args', (('z', None),)),), 'update': (('set', 'pair', (('z', 1),)),), 'delete': ()}[kind]
        if src.chance(40) and key not in ('on',):
            mid += (('where', ('pairs', 'pair', (('z', 5),))),)
    if kind == 'select':
        first = () if key == 'from_' else (FROM,)
    elif kind == 'update':
        first = (('table', 't', None),) + ((('set', 'pair', (('y', 1),)),) if key != 'set' else ()) + (('raw', 'allow_update_all'),)
    else:
        first = (FROM, ('raw', 'allow_delete_all'))
    return (kind, first + head + mid + tail)


def gen_query(*keys):
    """Generator of (database, query, key)."""
    from .lib import DIALECTS

    def generate(src):
        d = src.pick(DIALECTS)
        key = src.pick(keys)
        both = joins(src) if key == 'joins' else ops(src, key)
        return (d, wrap(src, key, both), key)
    return generate


def check_query(spec):
    from .lib import use
    from .common import compare_with_model
    d, q, key = spec
    use(d)
    compare_with_model(q, d)
    return [d, q[0], key]
