"""Arguments of wrong types."""
import collections
import datetime
import decimal
import enum
import fractions
import pathlib
import uuid

from vlib import gen
from vlib.pbt import Test, Invalid
from vlib.lib import s, rel, exc, DIALECTS, use, render, need
from vlib.model import apply_op
from vlib.history import Handle, some_op, first_ops
from vlib.qgen import G

RULE = ('More than 120 places of the API x 40 kinds of plain Python values, those which the place does not accept, alone in a call at a random point of a random '
        'history of the query, with the history continued after the refusal and compared with the model; a case is non-trivial if the value was refused (that is '
        'every judged case), it is counted as refused in a history if the query had at least one call before.')
ASSUMPTIONS = ['empty and zero tables are ignored by design, not refused', 'Q objects combined with something else raise TypeError as Python operators do']


class Evil:
    def __str__(self):
        return '1; DROP TABLE t'
    __repr__ = __str__


class Color(enum.Enum):
    RED = 'red'


KINDS = {
    'none': lambda: None, 'true': lambda: True, 'false': lambda: False, 'int': lambda: 7, 'zero': lambda: 0, 'negative': lambda: -3, 'float': lambda: 1.5,
    'whole float': lambda: 2.0, 'decimal': lambda: decimal.Decimal('2.5'), 'str': lambda: 'x', 'bytes': lambda: b'x', 'empty bytes': lambda: b'',
    'bytearray': lambda: bytearray(b'x'), 'memoryview': lambda: memoryview(b'x'), 'list': lambda: ['x'], 'list2': lambda: ['x', 'y'], 'tuple2': lambda: ('x', 'y'),
    'empty list': lambda: [], 'empty tuple': lambda: (), 'list3': lambda: ['x', 'y', 'z'], 'tuple3': lambda: ('x', 'y', 'z'), 'dict': lambda: {'x': 'y'},
    'empty dict': lambda: {}, 'dict2': lambda: {'x': 'y', 'z': 'w'}, 'odict': lambda: collections.OrderedDict(x='y'),
    'set': lambda: {'x'}, 'frozenset': lambda: frozenset(['x']), 'range': lambda: range(3), 'gen': lambda: (i for i in ['x', 'y']), 'date': lambda: datetime.date(2020, 1, 2),
    'datetime': lambda: datetime.datetime(2020, 1, 2, 3), 'time': lambda: datetime.time(1), 'timedelta': lambda: datetime.timedelta(1), 'object': lambda: object(),
    'class': lambda: int, 'function': lambda: len, 'lambda': lambda: (lambda: 'x'), 'complex': lambda: 1j, 'ellipsis': lambda: ..., 'uuid': lambda: uuid.UUID(int=5),
    'fraction': lambda: fractions.Fraction(1, 2), 'enum': lambda: Color.RED, 'path': lambda: pathlib.PurePosixPath('x'), 'exception': lambda: ValueError('x'),
    'evil': lambda: Evil(), 'iterator': lambda: iter(['x']), 'notimplemented': lambda: NotImplemented,
}
STR = {'str'}
INT = {'int', 'zero', 'negative'}
BOOL = {'true', 'false'}
NONE = {'none'}
FALSY = {'none', 'false', 'zero', 'empty bytes', 'empty list', 'empty tuple', 'empty dict'}
LISTS = {'list', 'list2', 'list3', 'empty list', 'tuple2', 'tuple3', 'empty tuple'}
PAIR = {'list', 'list2', 'tuple2'}            # an item of one or two parts
TWO = {'list2', 'tuple2'}
DICTS = {'dict', 'dict2', 'empty dict', 'odict'}
UNHASHABLE = {'list', 'list2', 'list3', 'empty list', 'dict', 'dict2', 'empty dict', 'odict', 'set', 'bytearray'}
NUMBERS = INT | {'float', 'whole float', 'decimal'}
DATES = {'date', 'datetime'}
COLLECTIONS = LISTS | {'range', 'gen'}
CONDVAL = STR | NUMBERS | BOOL | NONE | DATES | COLLECTIONS
ASSIGNED = STR | NUMBERS | BOOL | NONE | DATES | {'bytes', 'empty bytes'}
VALUE = ASSIGNED | COLLECTIONS | {'set', 'frozenset'}
NAME = STR | INT                              # column or its number
SORTS = NONE                                  # a text is judged separately

# place: (call, accepted kinds or those which mean something else there)
COLS = lambda m: {
    m: (lambda q, x: getattr(q, m)(x), NAME | PAIR | DICTS),
    m + '_name': (lambda q, x: getattr(q, m)((x, None)), NAME),
    m + '_list': (lambda q, x: getattr(q, m)([x]), NAME),
    m + '_key': (lambda q, x: getattr(q, m)({x: None}), NAME | UNHASHABLE),
}
CONDS = lambda m, dict_=True: {
    m + '_single': (lambda q, x: getattr(q, m)(x), DICTS | {'empty list', 'empty tuple'}),
    m + '_column': (lambda q, x: getattr(q, m)(x, 1), STR),
    m + '_column_list': (lambda q, x: getattr(q, m)([(x, 1)]), STR),
    m + '_column_key': (lambda q, x: getattr(q, m)({x: 1}), STR | UNHASHABLE),
    m + '_value': (lambda q, x: getattr(q, m)('a', x), CONDVAL),
    m + '_value_list': (lambda q, x: getattr(q, m)([('a', x)]), CONDVAL),
    m + '_value_dict': (lambda q, x: getattr(q, m)({'a': x}), CONDVAL),
    m + '_value_kwds': (lambda q, x: getattr(q, m)(a=x), CONDVAL),
    m + '_short': (lambda q, x: getattr(q, m)([(x,)]), set()),
    m + '_long': (lambda q, x: getattr(q, m)([('a', 1, x)]), set()),
    m + '_item': (lambda q, x: getattr(q, m)([x]), TWO),
    m + '_args3': (lambda q, x: getattr(q, m)('a', 1, x), set()),
    m + '_mixed': (lambda q, x: getattr(q, m)(('a', 1), x) if not isinstance(x, (list, tuple)) else getattr(q, m)(x), {'empty list', 'empty tuple'} | PAIR),
    m + '_rel': (lambda q, x: getattr(q, m)('a', rel.EQ(x)), STR | NUMBERS | BOOL | DATES),
    m + '_rel_gt': (lambda q, x: getattr(q, m)('a', rel.GT(x)), STR | NUMBERS | DATES),
    m + '_rel_like': (lambda q, x: getattr(q, m)('a', rel.LIKE(x)), STR),
    m + '_rel_regexp': (lambda q, x: getattr(q, m)('a', rel.REGEXP(x)), STR),
    m + '_rel_in': (lambda q, x: getattr(q, m)('a', rel.IN(x)), COLLECTIONS | DICTS | {'set', 'frozenset', 'bytearray', 'memoryview', 'iterator', 'enum'}),
    m + '_rel_not_in': (lambda q, x: getattr(q, m)('a', rel.NOT_IN(x)), COLLECTIONS | DICTS | {'set', 'frozenset', 'bytearray', 'memoryview', 'iterator', 'enum'}),
    m + '_rel_is': (lambda q, x: getattr(q, m)('a', rel.IS(x)), BOOL | NONE),
    m + '_member': (lambda q, x: getattr(q, m)('a', [1, x]), VALUE),
    m + '_in_member': (lambda q, x: getattr(q, m)('a', rel.IN(1, x)), VALUE),
    m + '_q_value': (lambda q, x: getattr(q, m)(s.Q(a=x)), CONDVAL),
    m + '_q': (lambda q, x: getattr(q, m)(s.Q(x)), DICTS | {'empty list', 'empty tuple'}),
    m + '_not': (lambda q, x: getattr(q, m)(s.Not(a=x)), CONDVAL),
    m + '_not_single': (lambda q, x: getattr(q, m)(s.Not(x)), {'dict', 'dict2', 'odict'}),
    m + '_exists': (lambda q, x: getattr(q, m)(s.exists(x)), set()),
    m + '_v': (lambda q, x: getattr(q, m)('a', s.V(x)), VALUE),
    m + '_r': (lambda q, x: getattr(q, m)('a', s.R(x)), NAME),
    m + '_v_list': (lambda q, x: getattr(q, m)('a', s.V([x])), VALUE),
}
ORDERS = lambda m: dict(COLS(m), **{
    m + '_sort': (lambda q, x: getattr(q, m)(('a', x)), NONE),
    m + '_sort_new': (lambda q, x: getattr(q, m)(('zz', x)), NONE),
    m + '_sort_kwds': (lambda q, x: getattr(q, m)(a=x), NONE),
    m + '_sort_dict': (lambda q, x: getattr(q, m)({'a': x}), NONE),
    m + '_long': (lambda q, x: getattr(q, m)(('a', 'asc', x)), set()),
})
TABLES = lambda m: {
    m: (lambda q, x: getattr(q, m)(x), STR | PAIR | DICTS | FALSY),
    m + '_name': (lambda q, x: getattr(q, m)((x, None)), STR),
    m + '_long': (lambda q, x: getattr(q, m)(('t', 'u', x)), set()),
}
ALIASES = lambda m: {
    m + '_alias': (lambda q, x: getattr(q, m)(('t', x)), STR | NONE),
    m + '_alias_kwds': (lambda q, x: getattr(q, m)(t=x), STR | NONE),
    m + '_alias_dict': (lambda q, x: getattr(q, m)({'t': x}), STR | NONE),
    m + '_key': (lambda q, x: getattr(q, m)({x: 'al'}), STR | UNHASHABLE),
}
JOINS = lambda m: {
    m: (lambda q, x: getattr(q, m)(x), STR | TWO | {'dict', 'odict'}),
    m + '_name': (lambda q, x: getattr(q, m)((x, 'al')), STR),
    m + '_alias': (lambda q, x: getattr(q, m)(('t', x)), STR | NONE),
    m + '_dict': (lambda q, x: getattr(q, m)({'t': x}), STR | NONE),
    m + '_key': (lambda q, x: getattr(q, m)({x: 'al'}), STR | UNHASHABLE),
    m + '_list': (lambda q, x: getattr(q, m)([x]), set()),
    m + '_long': (lambda q, x: getattr(q, m)(['t', 'al', x]), set()),
}
ASSIGNS = lambda m: {
    m + '_single': (lambda q, x: getattr(q, m)(x), DICTS | {'empty list', 'empty tuple'}),
    m + '_column': (lambda q, x: getattr(q, m)(x, 1), STR),
    m + '_column_list': (lambda q, x: getattr(q, m)([(x, 1)]), STR),
    m + '_column_key': (lambda q, x: getattr(q, m)({x: 1}), STR | UNHASHABLE),
    m + '_value': (lambda q, x: getattr(q, m)('a', x), ASSIGNED),
    m + '_value_list': (lambda q, x: getattr(q, m)([('a', x)]), ASSIGNED),
    m + '_value_dict': (lambda q, x: getattr(q, m)({'a': x}), ASSIGNED),
    m + '_value_kwds': (lambda q, x: getattr(q, m)(a=x), ASSIGNED),
    m + '_short': (lambda q, x: getattr(q, m)([(x,)]), set()),
    m + '_long': (lambda q, x: getattr(q, m)([('a', 1, x)]), set()),
    m + '_item': (lambda q, x: getattr(q, m)([x]), TWO),
    m + '_args3': (lambda q, x: getattr(q, m)('a', 1, x), set()),
    m + '_v': (lambda q, x: getattr(q, m)('a', s.V(x)), VALUE),
    m + '_r': (lambda q, x: getattr(q, m)('a', s.R(x)), NAME),
}
TEXTS = lambda m: {m: (lambda q, x: getattr(q, m)(x), STR)}
FUNCS = {
    'avg': (lambda q, x: q.columns(s.avg(x)), NAME | LISTS),
    'max_distinct': (lambda q, x: q.columns(s.max_distinct(x)), NAME | LISTS),
    'min': (lambda q, x: q.columns((s.min(x), 'al')), NAME | LISTS),
    'sum': (lambda q, x: q.having([(s.sum(x), 5)]), NAME | LISTS),
    'count': (lambda q, x: q.columns(s.count(x)), NAME | LISTS | FALSY),
    'count_member': (lambda q, x: q.columns(s.count(['a', x])), NAME),
    'avg_member': (lambda q, x: q.columns(s.avg([x])), NAME),
    'concat': (lambda q, x: q.columns(s.concat(x)), NAME | PAIR | DICTS),
    'concat_second': (lambda q, x: q.order_by(s.concat('a', x)), NAME | PAIR | DICTS),
    'concat_long': (lambda q, x: q.columns(s.concat(('a', 'b', x))), set()),
    'group_concat': (lambda q, x: q.columns(s.group_concat(x).separator('-')), NAME | PAIR | DICTS),
    'group_concat_order': (lambda q, x: q.columns(s.group_concat('a').order_by(x)), NAME | PAIR | DICTS),
    'group_concat_sort': (lambda q, x: q.columns(s.group_concat('a').order_by(('a', x))), NONE),
    'separator': (lambda q, x: q.columns(s.group_concat('a').separator(x)), VALUE),
    'convert': (lambda q, x: q.columns(s.convert(x, 'char')), NAME | LISTS),
    'nested': (lambda q, x: q.columns(s.max(s.concat('a', s.min(x)))), NAME | LISTS),
    'v': (lambda q, x: q.columns(s.V(x)), VALUE),
    'v_list': (lambda q, x: q.columns(s.V([1, x])), VALUE),
    'v_tuple': (lambda q, x: q.columns(s.V((x, 1))), VALUE),
    'v_gen': (lambda q, x: q.columns(s.V(i for i in [x])), VALUE),
    'v_nested': (lambda q, x: q.columns(s.V([[1, [x]]])), VALUE),
    'v_group': (lambda q, x: q.group_by(s.V(x)), VALUE),
    'r': (lambda q, x: q.columns(s.R(x)), NAME),
    'r_order': (lambda q, x: q.order_by((s.R(x), 'desc')), NAME),
    'exists_column': (lambda q, x: q.columns((s.exists(x), 'al')), set()),
}
FUNCS = {'func_' + k: v for k, v in FUNCS.items()}


def merge(*ds):
    out = {}
    for x in ds:
        assert not set(out) & set(x), set(out) & set(x)
        out.update(x)
    return out


CALLS = {
    'select': merge(
        COLS('columns'), {'columns_alias': (lambda q, x: q.columns(('a', x)), STR | NONE), 'columns_alias_kwds': (lambda q, x: q.columns(a=x), STR | NONE),
                          'columns_alias_dict': (lambda q, x: q.columns({'a': x}), STR | NONE), 'columns_long': (lambda q, x: q.columns(('a', 'b', x)), set())},
        TABLES('from_'), ALIASES('from_'), TABLES('from_tables'),
        {'from_table': (lambda q, x: q.from_table(x), STR), 'from_table_alias': (lambda q, x: q.from_table('t', x), STR | NONE)},
        CONDS('where'), CONDS('having'), ORDERS('order_by'), ORDERS('group_by'),
        {'limit': (lambda q, x: q.limit(x), INT | NONE), 'limit_offset': (lambda q, x: q.limit(5, x), INT | NONE), 'offset': (lambda q, x: q.offset(x), INT | NONE),
         'union_and': (lambda q, x: q & x, set()), 'union_or': (lambda q, x: q | x, set()), 'union_union': (lambda q, x: (q & s.select('b')) | x, set())},
        TEXTS('into_outfile'), TEXTS('fields_terminated_by'), TEXTS('lines_terminated_by'), TEXTS('optionally_enclosed_by'), FUNCS),
    'insert': merge(ASSIGNS('values'), {'into_name': (lambda q, x: q.into((x, None)), STR), 'into': (lambda q, x: q.into(x), STR | PAIR | DICTS | FALSY)}),
    'update': merge(ASSIGNS('set'), CONDS('where'), TABLES('table'), {'table_alias': (lambda q, x: q.table(('t', x)), STR | NONE)}),
    'delete': merge(TABLES('from_'), ALIASES('from_'), TABLES('delete'), CONDS('where')),
}
WITH_TABLE = {
    'select': merge(JOINS('join'), JOINS('inner_join'), JOINS('left_join'), JOINS('right_join')),
    'update': merge(JOINS('join'), JOINS('left_join'), JOINS('right_join')),
    'delete': merge(JOINS('join'), JOINS('inner_join'), JOINS('left_join')),
}
WITH_JOIN = CONDS('on')
UPSERTS = {'mysql': ASSIGNS('on_duplicate_key_update'),
           'postgresql': {k: (lambda q, x, f=f: f(Conflict(q), x), acc) for k, (f, acc) in ASSIGNS('on_duplicate_key_update').items()}}
FULL = JOINS('full_join')


class Conflict:
    """Upsert of PostgreSQL, the conflict column is always given."""

    def __init__(self, q):
        self.q = q

    def on_duplicate_key_update(self, *args, **kwds):
        return self.q.on_duplicate_key_update('id', *args, **kwds)


def places(kind, ops, d):
    out = dict(CALLS[kind])
    tables = joins = False
    for op in ops:
        if op[0] in ('from_', 'from_table', 'from_tables', 'table'):
            tables, joins = True, False
        elif op[0] == 'join':
            joins = True
    if tables and kind in WITH_TABLE:
        out.update(WITH_TABLE[kind])
        if kind == 'select' and d == 'postgresql':
            out.update(FULL)
    if joins:
        out.update(WITH_JOIN)
    if kind == 'insert':
        out.update(UPSERTS.get(d, {}))
    return out


def gen_call(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=95, texts=5, exprs=8, depth=1)
    kind = src.pick(['select', 'select', 'select', 'insert', 'update', 'delete'])
    ops = list(first_ops(g, kind)) if kind != 'select' or src.chance(80) else []
    start = tuple(ops)
    steps = []

    def bad():
        ps = places(kind, ops, d)
        names = sorted(ps)
        if 'on_value' in ps and src.chance(50):
            names = sorted(WITH_JOIN) + [n for n in names if 'join' in n]
        place = src.pick(names)
        kinds = sorted(set(KINDS) - ps[place][1])
        steps.append(('bad', place, src.pick(kinds)))

    def step():
        if src.chance(30):
            op = some_op(g, kind, ops)
            ops.append(op)
            steps.append(('op', op))
        else:
            bad()
    src.many(step, 0, 5, 70)
    bad()
    return (d, kind, start, tuple(steps), src.n(2))


def check_call(spec):
    d, kind, first, steps, look = spec
    use(d)
    h = Handle(kind, list(first), d)
    labels = {d, kind}
    for st in steps:
        if st[0] == 'op':
            h.apply(st[1])
            continue
        _, place, what = st
        call = places(kind, h.ops, d)[place][0]
        x = KINDS[what]()
        before = h.text() if look else None
        try:
            r = call(h.obj, x)
        except exc.InvalidArgumentException:
            labels |= {'refused', what, place}
            if h.ops:
                labels.add('refused in a history')
            if look:
                need(h.text() == before, 'refused %s(%s) changes %r to %r', place, what, before, h.text())
            continue
        # taken, so rendering has to refuse it
        for target in (h.obj, r):
            if kind in ('update', 'delete'):
                getattr(h.obj, 'allow_%s_all' % kind)()
            try:
                text = render(target)
            except exc.InvalidArgumentException:
                break
        else:
            need(False, '%s takes %s and renders %r', place, what, text)
        labels |= {'refused late', what, place}
        return labels
    h.verify()
    return labels


# ---------------------------------------------------------------- texts which are not a direction

DIRECTIONS = {
    'order_by': lambda q, x: q.order_by(('a', x)), 'order_by_kwds': lambda q, x: q.order_by(a=x), 'order_by_dict': lambda q, x: q.order_by({'a': x}),
    'group_by': lambda q, x: q.group_by(('a', x)), 'group_by_kwds': lambda q, x: q.group_by(a=x), 'order_by_number': lambda q, x: q.order_by((1, x)),
    'order_by_func': lambda q, x: q.order_by((s.count('a'), x)), 'order_by_custom': lambda q, x: q.order_by((s.C('raw'), x)),
    'group_concat': lambda q, x: q.columns(s.group_concat('a').order_by(('a', x))),
}


def gen_direction(src):
    text = src.weighted((5, lambda: gen.text(src)), (3, lambda: src.pick(['asc', 'desc', 'ASC', 'DESC']) + gen.fragment(src)),
                        (3, lambda: gen.fragment(src) + src.pick(['asc', 'desc', 'ASC'])),
                        (3, lambda: src.pick(['', ' ', 'as', 'de', 'ascending', 'descending', 'up', 'random', '1', '0', 'ASC DESC', 'asc ', ' desc', 'asc;', 'desc--', 'None', 'NULL'])))
    return (src.pick(DIALECTS), src.pick(sorted(DIRECTIONS)), text, src.n(3))


def check_direction(spec):
    d, place, text, state = spec
    use(d)
    if text.upper() in ('ASC', 'DESC'):
        raise Invalid
    q = s.select('b').from_('t')
    if state:
        q.order_by(('a', 'desc'), 1).group_by('a')
    before = render(q)
    try:
        DIRECTIONS[place](q, text)
        got = render(q)
    except exc.InvalidArgumentException:
        need(render(q) == before, 'refused direction %r changes %r to %r', text, before, render(q))
        return [d, place, 'refused']
    need(False, 'direction %r is rendered as %r', text, got)


# ---------------------------------------------------------------- what is accepted stays accepted

def gen_accept(src):
    d = src.pick(DIALECTS)
    kind = src.pick(['select', 'select', 'insert', 'update', 'delete'])
    ops = BASE[kind]
    ps = places(kind, ops, d)
    place = src.pick(sorted(p for p in ps if ps[p][1]))
    good = sorted(ps[place][1] & GOOD)
    return (d, kind, place, src.pick(good) if good else None)


GOOD = STR | INT | BOOL | NONE | {'float', 'decimal', 'date', 'datetime', 'bytes'}
BASE = {
    'select': (('from_', 'args', (('t', None),)), ('join', 'join', 'u', None, 'str'), ('on', ('pairs', 'pair', (('a', 'b'),)))),
    'insert': (('into', 't'), ('values', 'pair', (('a', 1),))),
    'update': (('table', 't', None), ('join', 'join', 'u', None, 'str'), ('on', ('pairs', 'pair', (('a', 'b'),))), ('set', 'pair', (('a', 1),)), ('where', ('pairs', 'pair', (('a', 1),)))),
    'delete': (('from_', 'args', (('t', None),)), ('join', 'join', 'u', None, 'str'), ('on', ('pairs', 'pair', (('a', 'b'),))), ('where', ('pairs', 'pair', (('a', 1),)))),
}


def check_accept(spec):
    d, kind, place, what = spec
    if what is None or 'sort' in place:
        raise Invalid
    use(d)
    h = Handle(kind, list(BASE[kind]), d)
    r = places(kind, h.ops, d)[place][0](h.obj, KINDS[what]())
    render(h.obj)
    need(r is not None, '%s returns nothing', place)
    render(r)
    return [d, place, what, 'refused']


TESTS = [
    Test('call', gen_call, check_call, quick=24000, nontrivial={'refused', 'refused late'}),
    Test('direction', gen_direction, check_direction, quick=4000, nontrivial={'refused'}),
    Test('accept', gen_accept, check_accept, quick=4000, nontrivial={'refused'}),
]
