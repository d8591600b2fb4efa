"""Equality of queries agrees with what they render."""
import datetime
import decimal
import functools
import operator

from vlib import bulk, gen, near, positions as P
from vlib.pbt import Test, Invalid
from vlib.lib import s, exc, DIALECTS, use, render, need
from vlib.model import build, a_name
from vlib.common import parsed
from vlib.history import some_op, first_ops
from vlib.qgen import G

RULE = ('Pairs of queries of all kinds built by the same calls, or by calls which differ in one place (dropped, added, repeated, exchanged or replaced call; '
        'another name, alias, value, type of value, relation, direction, option, operand); a case of the second kind is non-trivial if the two queries '
        'render different SQL.')

KINDS = ('select', 'select', 'insert', 'update', 'delete')


def text_of(q):
    try:
        return render(q)
    except exc.ConfirmException as e:
        return ('exception', type(e).__name__)


def relation(a, b):
    """Equality in all its forms -> bool"""
    eq = a == b
    need(type(eq) is bool and type(a != b) is bool, 'comparison gives %r and %r', eq, a != b)
    need((b == a) == eq, 'equality is not symmetric: %s == %s is %s', text_of(a), text_of(b), eq)
    need((a != b) == (not eq) and (b != a) == (not eq), 'inequality is not negation of equality: %s, %s', text_of(a), text_of(b))
    need((b in [a]) == eq, 'membership does not agree with equality')
    return eq


def usable(a, b):
    """Dictionary keys and members of sets."""
    h = hash(a)
    need({a: 1}[a] == 1 and a in {a} and hash(a) == h, 'query is not found as a key')
    if a != b:
        d = {a: 1, b: 2}
        need(len(d) == 2 and d[a] == 1 and d[b] == 2, 'different queries are one key')
        need(len({a, b}) == 2, 'different queries are one member of a set')


# ---------------------------------------------------------------- the same calls

def gen_same(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=85, texts=20, exprs=20)
    kind = src.pick(KINDS)
    ops = list(first_ops(g, kind))
    for _ in range(src.n(5)):
        ops.append(some_op(g, kind, ops))
    return (d, (kind, tuple(ops)), src.n(4))


def check_same(spec):
    d, q, mode = spec
    use(d)
    a, b = build(q, d), build(q, d)
    if mode & 1:
        text_of(a)
    c = a.copy()
    for x, y, what in ((a, b, 'built by the same calls'), (a, c, 'copied'), (b, c, 'copied'), (a, a, 'itself')):
        need(relation(x, y), 'query %s does not equal: %s, %s', what, text_of(x), text_of(y))
    need(text_of(a) == text_of(b) == text_of(c), 'equal queries render %r, %r, %r', text_of(a), text_of(b), text_of(c))
    usable(a, b)
    if mode & 2 and q[0] == 'select':
        need(relation(a & b, b & a) and relation(a | c, b | a), 'unions of equal queries are not equal')
        need(not relation(a & b, a | b), 'UNION equals UNION ALL')
    return [d, q[0]]


# ---------------------------------------------------------------- one difference

def variants(v):
    """Values which are not the same but close."""
    out = []
    if v is None:
        return ['NULL', 'None', 0, '', False, ('V', 'NULL'), [None]]
    if isinstance(v, bool):
        return [not v, int(v), str(v), None, ('V', v), float(v)]
    if isinstance(v, int):
        out = [v + 1, -v - 1, str(v), float(v) if abs(v) < 10 ** 15 else 0.5, ('V', v), ('C', '%d' % v), [v], None]
        if abs(v) < 10 ** 30:
            out.append(decimal.Decimal(v))
        if v in (0, 1):
            out += [bool(v), bool(v)]
        return out
    if isinstance(v, datetime.datetime):
        out = [v.date(), v.isoformat(), v + datetime.timedelta(microseconds=1 if v.year < 9999 else -1), ('V', v), v.replace(tzinfo=None if v.tzinfo else gen.ZONES[0])]
        if v.tzinfo and 1 < v.year < 9999:
            out += [v.astimezone(z) for z in gen.ZONES if z != v.tzinfo][:3] * 2
        return out
    if isinstance(v, datetime.date):
        return [v.isoformat(), v + datetime.timedelta(days=1 if v.year < 9999 else -1), ('V', v), datetime.datetime(v.year, v.month, v.day)]
    if isinstance(v, float):
        return [-v, -v, v + 1.0, ('V', v), '%r' % v, v + 0.00001, decimal.Decimal('%.5f' % v)]
    if isinstance(v, decimal.Decimal):
        return [-v, v + 1, '%s' % v, ('V', v), decimal.Decimal(1)]
    if isinstance(v, bytes):
        return [v + b'a', v.decode('latin-1'), v[:-1], ('V', v)]
    if isinstance(v, str):
        return [v + 'x', v.swapcase(), v + ' ', ' ' + v, ('V', v), [v], None, 1, v.encode('utf-8', 'replace'), v[:-1], ('R', 'a')]
    if isinstance(v, list):
        out = [v[::-1], v + [None], v + [1], v[:-1] or ['zz'], ('tup', tuple(v)), ('gen', tuple(v)), ('rel', 'IN', 'list', tuple(v)), ('rel', 'NOT_IN', 'list', tuple(v)),
               [v[0]] + v, [str(i) for i in v]]
        return out
    if isinstance(v, range):
        return [list(v), range(v.start, v.stop + 1), ('rel', 'NOT_IN', 'list', tuple(v))]
    if isinstance(v, tuple) and v:
        if v[0] == 'rel':
            if v[1] in ('IN', 'NOT_IN'):
                other = 'IN' if v[1] == 'NOT_IN' else 'NOT_IN'
                out = [('rel', other) + v[2:]]
                if v[2] != 'v':
                    out += [('rel', v[1], 'list', tuple(v[3])[::-1]), ('rel', v[1], 'list', tuple(v[3]) + (1,))]
                return out
            if v[1] in ('IS', 'IS_NOT'):
                return [('rel', 'IS' if v[1] == 'IS_NOT' else 'IS_NOT', 'v', v[3]), None, ('rel', v[1], 'v', not v[3])]
            out = [('rel', n, 'v', v[3]) for n in ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP') if n != v[1]]
            out.append(v[3])
            out += [('rel', v[1], 'v', x) for x in variants(v[3]) if not isinstance(x, (list, bytes)) and x is not None and not (isinstance(x, tuple) and x[0] in ('rel', 'tup', 'gen'))]
            return out
        if v[0] in ('tup', 'gen'):
            return [list(v[1]), (v[0], v[1][::-1])]
        if v[0] == 'C':
            return [('C', v[1] + ' + x'), ('V', v[1]), v[1], ('C', v[1] + ' ')]
        if v[0] == 'V':
            return [v[1]] + [('V', x) for x in variants(v[1]) if not (isinstance(x, tuple) and x[0] in ('rel', 'tup', 'gen', 'V'))]
        if v[0] == 'R':
            return [('R', 'zz'), 'zz']
        if v[0] == 'F':
            return [('F', n, v[2], v[3]) for n in ('avg', 'max', 'max_distinct', 'sum') if n != v[1] and v[1] in ('avg', 'max', 'min', 'sum')] + [('C', 'zz')]
        if v[0] == 'S':
            return [('S', ('select', (('columns', 'args', (('zz', None),)),))), ('C', 'zz'), 5]
    return [1]


def other_name(n, src):
    if isinstance(n, str):
        return src.pick([n + 'x', n.swapcase(), ('C', n), ('R', n), 'zz', ('C', '"%s"' % n), ('C', '`%s`' % n), ('V', n)])
    if isinstance(n, tuple) and n and n[0] == 'N':
        return src.pick(['zz', ('N', n[1] + (('zz', False),), n[2])])
    if isinstance(n, int):
        return src.pick([n + 1, ('C', str(n)), ('V', n), str(n)])
    return src.pick(variants(n))


def mutate_pairs(pairs, kind, src):
    """One item changed; kind: alias, sort, value, cond."""
    pairs = list(pairs)
    if not pairs:
        return tuple(pairs)
    how = src.n(12)
    if how == 0 and len(pairs) > 1:
        del pairs[src.n(len(pairs))]
    elif how == 1 and len(pairs) > 1:
        i = src.n(len(pairs) - 1)
        pairs[i], pairs[i + 1] = pairs[i + 1], pairs[i]
    else:
        i = src.n(len(pairs))
        k, v = pairs[i]
        if how < 5:
            k = other_name(k, src)
        elif kind == 'alias':
            v = src.pick([None, 'zz', v + 'x' if isinstance(v, str) else 'a', k if isinstance(k, str) else 'a'])
        elif kind == 'sort':
            v = src.pick([None, 'asc', 'desc', 'DESC', 'ASC'])
        else:
            v = src.pick(variants(v))
        pairs[i] = (k, v)
    return tuple(pairs)


def mutate_cond(c, src):
    tag = c[0]
    if tag == 'q':
        return ('q', mutate_form(c[1], src))
    if tag in ('&', '|'):
        k = src.n(6)
        if k == 0:
            return ('|' if tag == '&' else '&', c[1], c[2])
        if k == 1:
            return (tag, c[2], c[1])
        if k == 2:
            return c[1 + src.n(2)]
        if k < 5:
            return (tag, mutate_cond(c[1], src), c[2])
        return (tag, c[1], mutate_cond(c[2], src))
    if tag == 'not':
        return src.pick([('not', mutate_form(c[1], src)), ('q', c[1])])
    if tag == 'exists':
        return ('exists', ('S', ('select', (('columns', 'args', (('zz', None),)),))))
    return ('C', c[1] + ' + x')


def mutate_form(form, src):
    if form[0] == 'pairs':
        return ('pairs', form[1], mutate_pairs(form[2], 'cond', src))
    if form[0] == 'obj':
        return ('obj', mutate_cond(form[1], src))
    if form[0] == 'objs':
        if form[2] and src.chance(40):
            return ('objs', form[1], tuple((k, src.pick(variants(v))) for k, v in form[2]))
        i = src.n(len(form[1]))
        return ('objs', form[1][:i] + (mutate_cond(form[1][i], src),) + form[1][i + 1:], form[2])
    return ('pairs', 'pair', (('a', 1),))


def mutate_op(op, src):
    m = op[0]
    if m in ('columns', 'from_', 'from_tables'):
        return (m, op[1], mutate_pairs(op[2], 'alias', src))
    if m in ('order_by', 'group_by'):
        return (m, op[1], mutate_pairs(op[2], 'sort', src))
    if m in ('set', 'values') and op[1] != 'C':
        return (m, op[1], mutate_pairs(op[2], 'value', src))
    if m == 'set':
        return (m, 'C', op[2] + ' + x')
    if m in ('where', 'having', 'on'):
        return (m, mutate_form(op[1], src))
    if m == 'from_table':
        return (m, op[1], src.pick([None, 'zz', 'a']), op[3])
    if m == 'table':
        return (m, src.pick(['zz', 't', 'u', ('C', 't'), op[1]]), src.pick([None, 'zz', op[2]]))
    if m == 'into':
        return (m, src.pick(['zz', ('C', 't'), 'u']))
    if m == 'join':
        k = src.n(4)
        if k == 0:
            return (m, src.pick(['join', 'left_join', 'right_join', 'inner_join']),) + op[2:]
        if k == 1:
            return (m, op[1], src.pick(['zz', 't', 'u']), op[3], op[4])
        if k == 2:
            return (m, op[1], op[2], src.pick([None, 'zz', 'a']), 'tuple')
        return (m, op[1], op[2], op[3], src.pick(['tuple', 'list', 'dict']))
    if m == 'limit':
        return src.pick([('limit', (op[1][0] + 1 if op[1][0] is not None else 3,) + op[1][1:]), ('limit', (None,)), ('limit', op[1][:1] + (4,)) if op[1][0] is not None else ('limit', (4,)),
                         ('offset', 2), ('limit', (0,))])
    if m == 'offset':
        return src.pick([('offset', (op[1] or 0) + 1), ('offset', None), ('limit', (op[1],)), ('offset', 0)])
    if m == 'opt':
        if op[1] == 'ignore':
            return (m, 'ignore', src.pick([(), (False,), (True,)]))
        return (m, src.pick(['distinct', 'all', 'distinctrow', 'sql_cache', 'sql_no_cache', 'for_update', 'high_priority', 'straight_join', op[1]]), src.pick([(), (False,)]))
    if m in ('into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by'):
        return src.pick([(m, op[1] + 'x'), ('into_outfile', op[1]), ('fields_terminated_by', op[1]), ('lines_terminated_by', op[1]), ('optionally_enclosed_by', op[1]), (m, '')])
    if m == 'targets':
        return (m, src.pick([op[1][::-1], op[1] + ('zz',), op[1][:-1] or ('zz',)]))
    if m == 'odku' and op[1] is not None:
        return src.pick([(m, op[1], mutate_pairs(op[2], 'value', src), op[3]), (m, op[1], op[2], 'zz')])
    if m == 'raw':
        return (m, op[1].replace('allow', 'x').replace('forbid', 'allow').replace('x', 'forbid'))
    return op


SIBLING = {'where': 'having', 'having': 'where', 'order_by': 'group_by', 'group_by': 'order_by'}


def mutate(ops, kind, g):
    src = g.src
    ops = list(ops)
    k = src.n(20)
    i = src.n(len(ops))
    if k == 0:
        if ops[i][0] not in ('from_', 'from_table', 'from_tables', 'join', 'into', 'table'):
            del ops[i]
    elif k == 1:
        ops.insert(i, ops[i])
    elif k == 2 and i + 1 < len(ops):
        if ops[i][0] == ops[i + 1][0]:
            ops[i], ops[i + 1] = ops[i + 1], ops[i]
    elif k < 5:
        ops.append(some_op(g, kind, ops))
    elif k == 5:
        ops.append(mutate_op(ops[i], src))
    elif k == 6 and kind == 'select':
        # the same in another clause
        for j in range(len(ops)):
            if ops[j][0] in SIBLING and (j == i or src.n(2)):
                ops[j] = (SIBLING[ops[j][0]],) + ops[j][1:]
    else:
        ops[i] = mutate_op(ops[i], src)
    return ops


def gen_pair(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=90, texts=10, exprs=12)
    kind = src.pick(KINDS)
    if kind == 'insert':
        ops = list(g.insert(odku=40)[1])
    else:
        ops = list(first_ops(g, kind))
    for _ in range(src.n(5)):
        ops.append(some_op(g, kind, ops))
    if not ops:
        ops.append(('columns', 'args', (('a', None),)))
    if kind in ('update', 'delete') and src.chance(80):
        ops.append(('raw', 'allow_%s_all' % kind))
    return (d, (kind, tuple(ops)), (kind, tuple(mutate(ops, kind, g))), src.n(8), src.pick(DIALECTS))


def make(q, d):
    try:
        return build(q, d)
    except (exc.SqlPuzzleException, TypeError, AttributeError, ValueError):
        # the change made the calls invalid
        raise Invalid


def text_or_refused(q):
    try:
        return render(q)
    except exc.SqlPuzzleException:
        return None


def joined(q):
    return any(op[0] == 'join' for op in q[1])


def contains_join(x):
    if isinstance(x, tuple):
        return x[:1] == ('join',) or any(contains_join(i) for i in x)
    return False


def check_pair(spec):
    d, qa, qb, mode, other = spec
    use(d)
    a, b = make(qa, d), make(qb, d)
    ta = tb = 0
    if mode & 1:
        ta, tb = text_or_refused(a), text_or_refused(b)
    eq = relation(a, b)
    if not mode & 1:
        ta, tb = text_or_refused(a), text_or_refused(b)
    if repr(qa) == repr(qb):
        need(eq, 'queries built by the same calls are not equal: %r, %r', ta, tb)
    if mode & 2:
        usable(a, b)
    if ta is None or tb is None:
        raise Invalid
    same = ta == tb
    if eq and not same and contains_join((qa, qb)):
        same = parsed(ta, d) == parsed(tb, d)
    need(not eq or same, 'equal queries render %r and %r', ta, tb)
    if mode & 4 and not contains_join((qa, qb)):
        use(other)
        if a == b:
            ua, ub = text_or_refused(a), text_or_refused(b)
            need(None in (ua, ub) or ua == ub, 'equal queries render %r and %r on %s', ua, ub, other)
        use(d)
    return [d, qa[0], 'equal' if eq else 'unequal'] + ([] if same else ['different'])


# ---------------------------------------------------------------- one nearly equal name or value

def nest(src, q):
    """Select as a part of a bigger one."""
    sub = ('S', q)
    k = src.n(5)
    if k == 0:
        return ('select', (('columns', 'args', ((sub, None),)),))
    if k == 1:
        return ('select', (near.FROM, ('where', ('pairs', 'pair', (('a', sub),)))))
    if k == 2:
        return ('select', (near.FROM, ('where', ('obj', ('exists', sub)))))
    if k == 3:
        return ('select', (near.FROM, ('order_by', 'args', ((('F', 'count', (), (sub,)), None),))))
    return ('select', (near.FROM, ('join', 'left_join', sub, 'x', 'tuple')))


def gen_near(src):
    d = src.pick(DIALECTS)
    key = src.pick(['columns', 'from_', 'where', 'where', 'having', 'on', 'joins', 'order_by', 'group_by', 'set', 'insert', 'func'])
    if key == 'insert':
        a, b = ((('values', 'pair', (p,)),) for p in near.assignments(src))
        return (d, ('insert', (('into', 't'),) + a), ('insert', (('into', 't'),) + b), src.n(8), src.pick(DIALECTS))
    if key == 'func':
        a, b = near.names(src)
        f = src.pick(['max', 'concat', 'group_concat', 'count_distinct'])
        a, b = ((('columns', 'args', ((('F', f, (), (x,)), None),)),) for x in (a, b))
        qs = (('select', a), ('select', b))
    elif key == 'joins':
        both = near.joins(src)
        qs = tuple(('select', (near.FROM,) + x) for x in (both[:2], both[2:]))
    elif key == 'set':
        qs = tuple(('update', (('table', 't', None), x, ('raw', 'allow_update_all'))) for x in near.ops(src, 'set'))
    else:
        head = () if key == 'from_' else (near.FROM,)
        if key == 'on':
            head += (('join', 'join', 'u', None, 'str'),)
        qs = tuple(('select', head + (x,)) for x in near.ops(src, key))
    if qs[0][0] == 'select':
        for _ in range(src.weighted((6, 0), (3, 1), (1, 2))):
            k = src.n(1000)
            qs = tuple(nest(_Fixed(k), q) for q in qs)
    return (d, qs[0], qs[1], src.n(8), src.pick(DIALECTS))


class _Fixed:
    """Source of one number: both queries are nested in the same way."""

    def __init__(self, k):
        self.k = k

    def n(self, m):
        return self.k % m


# ---------------------------------------------------------------- unions

def gen_union(src):
    d = src.pick(DIALECTS)
    names = ['a', 'b', 'c', 'd']

    def tree(n):
        if n == 0:
            return ('select', (('columns', 'args', ((src.pick(names), None),)),))
        left = src.n(n)
        return ('union', src.pick('&|'), tree(left), tree(n - 1 - left))
    q = tree(src.n(5))

    def change(x):
        if x[0] == 'select':
            return ('select', (('columns', 'args', ((src.pick(names), None),)),))
        k = src.n(6)
        if k == 0:
            return ('union', src.pick('&|'), x[2], x[3])
        if k == 1:
            return ('union', x[1], x[3], x[2])
        if k == 2:
            return x[2 + src.n(2)]
        if k == 3:
            return ('union', src.pick('&|'), x, tree(0))
        return ('union', x[1], change(x[2]), x[3]) if k == 4 else ('union', x[1], x[2], change(x[3]))
    q2 = change(q)
    if src.chance(20):
        q2 = tree(src.n(5))
    return (d, q, q2)


def check_union(spec):
    d, qa, qb = spec
    use(d)
    a, b = build(qa, d), build(qb, d)
    eq = relation(a, b)
    usable(a, b)
    ta, tb = render(a), render(b)
    need(eq or qa != qb, 'unions built by the same calls are not equal: %r', ta)
    need(not eq or ta == tb, 'equal unions render %r and %r', ta, tb)
    need(not eq or qa[0] == qb[0], 'union equals select')
    need(relation(a, a.copy()), 'copy of union is not equal: %r', ta)
    return [d] + ([] if ta == tb else ['different'])


# ---------------------------------------------------------------- kinds

def gen_kinds(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=95, texts=5, exprs=10, depth=1)
    qs = [(k, tuple(first_ops(g, k)) if src.chance(70) else ()) for k in ('select', 'insert', 'update', 'delete')]
    return (d, tuple(qs), src.n(2))


def check_kinds(spec):
    d, qs, allow = spec
    use(d)
    objs = [build(q, d) for q in qs]
    if allow:
        objs[2].allow_update_all()
        objs[3].allow_delete_all()
    objs += [objs[0] & objs[0], objs[0] | objs[0].copy(), s.select() & s.select()]
    for i, a in enumerate(objs):
        for j, b in enumerate(objs):
            if i < j and not (i >= 4 and j >= 4):
                need(not relation(a, b), 'queries of different kinds are equal: %r, %r', type(a).__name__, type(b).__name__)
        for x in (None, 0, 1, '', 'text', (), [], {}, object(), float('nan')):
            need(not a == x and a != x, '%s equals %r', type(a).__name__, x)
    need(len(set(objs)) >= 6, 'queries are lost in a set')
    return [d]


# ---------------------------------------------------------------- custom SQL of the same text

SPOTS = {
    'where': ('SELECT * FROM %st%s WHERE ', lambda: s.select_from('t').where),
    'having': ('SELECT * FROM %st%s HAVING ', lambda: s.select_from('t').having),
    'q': ('SELECT * FROM %st%s WHERE ', lambda: lambda *a, **k: s.select_from('t').where(s.Q(*a, **k))),
    'on': ('SELECT * FROM %st%s JOIN %su%s ON ', lambda: s.select_from('t').join('u').on),
    'set': ('UPDATE %st%s SET ', lambda: s.update('t').allow_update_all().set),
    'delete': ('DELETE FROM %st%s WHERE ', lambda: s.delete_from('t').where),
    'column': ('SELECT ', lambda: s.select),
    'order': ('SELECT * FROM %st%s ORDER BY ', lambda: s.select_from('t').order_by),
    'group': ('SELECT * FROM %st%s GROUP BY ', lambda: s.select_from('t').group_by),
    'from': ('SELECT * FROM ', lambda: s.select_from),
    'union': ('SELECT %sz%s UNION ', lambda: lambda x: s.select('z') | x),
}


def gen_raw(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=95, texts=10, exprs=10, depth=1)
    spot = src.pick(sorted(SPOTS))
    if spot in ('where', 'having', 'q', 'delete'):
        arg = src.pick(['pair', 'not', 'or', 'exists'])
    else:
        arg = 'pair'
    return (d, spot, arg, g.name(), g.scalar(none=False), src.n(3))


def check_raw(spec):
    d, spot, arg, name, value, again = spec
    use(d)
    from vlib.model import b_pos, b_val
    head, call = SPOTS[spot]
    n, v = b_pos(name, d), b_val(value, d)
    if spot in ('column', 'order', 'group', 'from'):
        args = (n,)
    elif spot == 'union':
        args = (s.select(n),)
    else:
        args = {'pair': lambda: (n, v), 'not': lambda: (s.Not(n, v),), 'or': lambda: (s.Q(n, v) | s.Q(b=1),), 'exists': lambda: (s.exists(s.select(n)),)}[arg]()
    a = call()(*args)
    text = render(a)
    q = '`' if d == 'mysql' else '"'
    head = head.replace('%s', q)
    need(text.startswith(head), 'unexpected %r', text)
    b = call()(s.C(text[len(head):]))
    need(render(b) == text or text != text.strip(), 'custom SQL renders %r instead of %r', render(b), text)
    eq = relation(a, b)
    if spot not in ('union', 'from', 'column', 'q', 'delete', 'set', 'on'):
        # and both of them in one query
        m = spot + '_by' if spot in ('order', 'group') else spot
        x = getattr(call()(*args), m)(s.C(text[len(head):]))
        y = getattr(call()(s.C(text[len(head):])), m)(*args)
        relation(x, y)
        relation(x, a)
        relation(y, b)
    return [d, spot, 'equal' if eq else 'unequal']


# ---------------------------------------------------------------- many objects in one call

MANY = {
    'where': lambda xs: s.select_from('t').where(*xs),
    'having': lambda xs: s.select_from('t').having(*xs),
    'on': lambda xs: s.select_from('t').join('u').on(*xs),
    'update': lambda xs: s.update('t').set(a=1).where(*xs),
    'q': lambda xs: s.select_from('t').where(s.Q(*xs)),
    'not': lambda xs: s.select_from('t').where(s.Not(*xs)),
    'columns': lambda xs: s.select(*xs).from_('t'),
    'order_by': lambda xs: s.select_from('t').order_by(*xs),
    'group_by': lambda xs: s.select_from('t').group_by(*xs),
    'concat': lambda xs: s.select(s.concat(*xs)),
    'from': lambda xs: s.select_from(*[(x, 'x%d' % i) for i, x in enumerate(xs)]),
    'in': lambda xs: s.select_from('t').where(a=list(xs)),
    'or': lambda xs: s.select_from('t').where(functools.reduce(operator.or_, xs)),
    'union': lambda xs: functools.reduce(operator.and_, xs),
}
ITEMS = {
    'where': ('q', 'or'), 'having': ('q', 'or'), 'on': ('q', 'or'), 'update': ('q', 'or'), 'q': ('q', 'or'), 'not': ('q', 'or'), 'columns': ('f', 'v', 'c', 's'),
    'order_by': ('f', 'v', 'c', 's'), 'group_by': ('f', 'v', 'c'), 'concat': ('f', 'v', 'c', 's'), 'from': ('s',), 'in': ('v', 'c', 's'), 'or': ('q', 'or'), 'union': ('s',),
}


def item(kind, i):
    return {'q': lambda: s.Q('c%d' % i, i), 'or': lambda: s.Q('c%d' % i, i) | s.Q('d', i), 'f': lambda: s.count('c%d' % i), 'v': lambda: s.V('c%d' % i), 'c': lambda: s.C('raw%d' % i),
            's': lambda: s.select('c%d' % i)}[kind]()


def gen_many(src):
    call = src.pick(sorted(MANY))
    n = src.weighted((3, lambda: src.between(3, 12)), (2, lambda: src.between(5, 60)))
    return (src.pick(DIALECTS), call, src.pick(ITEMS[call]), tuple(src.shuffled(range(n))), src.n(1000), src.n(1000))


def check_many(spec):
    d, call, kind, order, i, j = spec
    use(d)
    a, b = (MANY[call]([item(kind, k) for k in order]) for _ in range(2))
    need(relation(a, b), 'two queries built by the same call are not equal: %r and %r', render(a), render(b))
    need(render(a) == render(b), 'the same call gives %r and %r', render(a), render(b))
    need(relation(a, a.copy()) and render(a) == render(a.copy()), 'copy of %r differs', render(a))
    # two of the items swapped
    order = list(order)
    i, j = i % len(order), j % len(order)
    order[i], order[j] = order[j], order[i]
    relation(a, MANY[call]([item(kind, k) for k in order]))
    return [d, call, kind] + (['different'] if i != j else [])


def gen_bulk(src):
    return (bulk.generator(*sorted(bulk.ASPECTS), hi=300)(src), src.pick(['name', 'value', 'drop', 'swap']), src.n(2000) if src.n(2) else -1 - src.n(3))


def change(x, how, at, n, aspect):
    """The item number `at` of the spec is changed."""
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] == 'c%d' % (at % n):
        if how == 'name':
            return (x[0] + 'x', x[1])
        if aspect in ('order_by', 'group_by'):
            return (x[0], 'desc' if (x[1] or 'asc').lower() == 'asc' else 'asc')
        return (x[0], 'zz' if aspect in ('columns', 'from_') else -7)
    if isinstance(x, tuple):
        return tuple(change(i, how, at, n, aspect) for i in x)
    return x


def check_bulk(spec):
    big, how, at = spec
    d, aspect, n = big[:3]
    use(d)
    q = bulk.expand(big)
    a, b = build(q, d), build(q, d)
    need(relation(a, b), 'two queries built by the same calls are not equal')
    need(relation(a, a.copy()), 'copy is not equal')
    if how in ('name', 'value'):
        other = change(q, how, at, n, aspect)
    else:
        ops = list(q[1])
        if len(ops) < 3:
            raise Invalid
        if how == 'drop':
            del ops[-1]
        else:
            ops[-1], ops[-2] = ops[-2], ops[-1]
        other = (q[0], tuple(ops))
    if any(op[0] == 'join' for op in other[1]) and how == 'swap':
        raise Invalid
    c = build(other, d)
    texts = [text_or_refused(x) for x in (a, c)]
    eq = relation(a, c)
    need(not eq or texts[0] == texts[1], 'queries which render different texts are equal (%s changed): %r and %r', how, *texts)
    return [d, aspect, how, 'equal' if eq else 'different']


# ---------------------------------------------------------------- another object with nearly the same text, everywhere

WHERE_IS = {}
for _group in ('COND', 'ORDERED', 'TEXT', 'MEMBER', 'ASSIGN', 'NAME', 'ALIAS', 'RAW', 'SUB', 'EXISTS'):
    WHERE_IS.update(('%s.%s' % (_group, k), f) for k, f in getattr(P, _group).items())
for _group in ('UPSERT', 'NAME_UPSERT', 'RAW_UPSERT'):
    for _d in DIALECTS:
        WHERE_IS.update(('%s.%s:%s' % (_group, k, _d), f) for k, f in getattr(P, _group)[_d].items())
PLACES = sorted(WHERE_IS)
LIKE_NAME = {
    'text': lambda n: n,
    'upper': lambda n: n.upper(),
    'custom': s.C,
    'value': s.V,
    'reference': s.R,
    'custom literal': lambda n: s.C("'%s'" % n),
    'custom name': lambda n: s.C('"%s"' % n),
    'custom name 2': lambda n: s.C('`%s`' % n),
    'value of custom': lambda n: s.V(s.C(n)),
    'reference of custom': lambda n: s.R(s.C(n)),
    'quoted': lambda n: '"%s"' % n,
    'quoted 2': lambda n: '`%s`' % n,
    'literal': lambda n: "'%s'" % n,
    'number': lambda n: 5,
    'text of number': lambda n: '5',
    'custom number': lambda n: s.C('5'),
    'value of number': lambda n: s.V(5),
    'value of text of number': lambda n: s.V('5'),
    'list': lambda n: [n],
    'list of custom': lambda n: [s.C(n)],
    'list of value': lambda n: [s.V(n)],
    'custom list': lambda n: s.C("('%s')" % n),
    'value of list': lambda n: s.V([n]),
    'value of tuple': lambda n: s.V((n,)),
    'select': lambda n: s.select(n),
    'select custom': lambda n: s.select(s.C(n)),
    'select value': lambda n: s.select(s.V(n)),
    'custom select': lambda n: s.C('(SELECT "%s")' % n),
    'custom select 2': lambda n: s.C('SELECT "%s"' % n),
    'union': lambda n: s.select(n) | s.select(n),
    'union all': lambda n: s.select(n) & s.select(n),
    'function': lambda n: s.max(n),
    'function distinct': lambda n: s.max_distinct(n),
    'custom function': lambda n: s.C('MAX("%s")' % n),
    'q': lambda n: s.Q(n, 1),
    'q value': lambda n: s.Q(n, '1'),
    'custom condition': lambda n: s.C('"%s" = 1' % n),
    'not': lambda n: s.Not(n, 1),
    'exists': lambda n: s.exists(s.select(n)),
    'concat': lambda n: s.concat(n),
    'concat 2': lambda n: s.concat(n, n),
    'convert': lambda n: s.convert(n, 'char'),
    'true': lambda n: True,
    'one': lambda n: 1,
    'one float': lambda n: 1.0,
    'value true': lambda n: s.V(True),
    'value one': lambda n: s.V(1),
    'none': lambda n: None,
    'value none': lambda n: s.V(None),
    'custom null': lambda n: s.C('NULL'),
    'bytes': lambda n: n.encode('utf-8', 'replace'),
    'custom of custom': lambda n: s.C(s.C(n)),
}
LIKE = sorted(LIKE_NAME)


def gen_places(src):
    place = src.pick(PLACES)
    d = place.split(':')[1] if ':' in place else src.pick(DIALECTS)
    if src.chance(30):
        wrap = src.pick(['text', 'text', 'text', 'custom', 'value', 'reference', 'list', 'select', 'function', 'concat'])
        one, two = near.flip(src, src.pick(near.TEXTS))
        return (d, place, (wrap, one), (wrap, two), '', src.pick([0, 0, 1, 2]))
    a = src.pick(LIKE)
    return (d, place, a, a if src.chance(8) else src.pick(LIKE), src.pick(['x', 'a', 'x', 'b', 'id', 'a.b', '*']), src.pick([0, 0, 1, 2]))


def check_places(spec):
    d, place, like1, like2, n, how = spec
    use(d)
    both = []
    for like in (like1, like2):
        try:
            q = WHERE_IS[place](LIKE_NAME[like](n) if isinstance(like, str) else LIKE_NAME[like[0]](like[1]))
            if how == 1:
                q = s.select_from((q, 'zz'))
            elif how == 2:
                q = s.select_from('t').where(s.exists(q))
            both.append((q, render(q)))
        except (exc.SqlPuzzleException, TypeError, AttributeError, ValueError):
            # not taken there
            raise Invalid
    (a, ta), (b, tb) = both
    eq = relation(a, b)
    if like1 == like2:
        need(eq, 'queries built by the same calls are not equal: %r', ta)
    same = ta == tb
    if eq and not same and ' ON ' in ta:
        same = parsed(ta, d) == parsed(tb, d)
    need(not eq or same, '%s with %s and %s: equal queries render %r and %r', place, like1, like2, ta, tb)
    usable(a, b)
    return [d, place.split('.')[0], 'equal' if eq else 'unequal'] + ([] if same else ['different'])


TESTS = [
    Test('places', gen_places, check_places, quick=26000, nontrivial={'different'}),
    Test('bulk', gen_bulk, check_bulk, quick=160, nontrivial={'different'}),
    Test('many', gen_many, check_many, quick=900),
    Test('raw', gen_raw, check_raw, quick=3000),
    Test('same', gen_same, check_same, quick=10000),
    Test('pair', gen_pair, check_pair, quick=32000, nontrivial={'different'}),
    Test('near', gen_near, check_pair, quick=10000, nontrivial={'different'}),
    Test('union', gen_union, check_union, quick=4000, nontrivial={'different'}),
    Test('kinds', gen_kinds, check_kinds, quick=2000),
]
