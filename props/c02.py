"""Values of other types than text."""
import datetime
import decimal
import functools

from vlib import gen, positions as P
from vlib.pbt import Test, Invalid
from vlib.lib import s, rel, exc, DIALECTS, use, render, render_also_copy, Violation, need
from vlib.lexer import lex
from vlib.model import as_reference
from vlib.common import path_tokens, database, run, compare_with_model, executable
from vlib.qgen import G

RULE = ('Values of every supported type (small, huge, negative, extreme, subclasses, constants harvested from the code), collections of any kind, '
        'size and nesting; a case is non-trivial if the value is not a single integer between 0 and 9.')
ASSUMPTIONS = ['PostgreSQL with bytea_output/input in hex form', 'a literal is read as the nearest number of five decimal places']

MARK = 987654321098
GROUPS = {}
for d in DIALECTS:
    GROUPS[d] = {
        'cond': dict(P.COND),
        'ordered': dict(P.ORDERED),
        'member': dict(P.MEMBER),
        'assign': dict(P.ASSIGN, **P.UPSERT[d]),
    }


class Int(int):
    pass


class Float(float):
    pass


class Dec(decimal.Decimal):
    pass


class Date(datetime.date):
    pass


class DateTime(datetime.datetime):
    pass


class Bytes(bytes):
    pass


SUBCLASS = {int: Int, float: Float, decimal.Decimal: Dec, bytes: Bytes}


def subclassed(v):
    if type(v) in SUBCLASS:
        return SUBCLASS[type(v)](v)
    if type(v) is datetime.datetime:
        return DateTime(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, v.tzinfo)
    if type(v) is datetime.date:
        return Date(v.year, v.month, v.day)
    return v


@functools.lru_cache(None)
def baseline(d, group, pos):
    use(d)
    toks = lex(render(GROUPS[d][group][pos](MARK)), d)
    i = toks.index(('num', str(MARK)))
    need(toks.count(('num', str(MARK))) == 1, 'an integer is not one literal at %s: %r', pos, toks)
    return toks[:i], toks[i + 1:]


def read(toks, d):
    """Value of literal tokens as the database reads them (bool as number where it is one)."""
    if len(toks) == 2 and toks[0] == ('p', '-') and toks[1][0] == 'num':
        return ('num', decimal.Decimal('-' + toks[1][1]), '.' in toks[1][1])
    if len(toks) != 1:
        return ('?', toks)
    kind, v = toks[0]
    if kind == 'num':
        return ('num', decimal.Decimal(v), '.' in v)
    if kind == 'word':
        return ('word', v.upper())
    return (kind, v)


WIDE = decimal.Context(prec=1200, Emax=10 ** 6, Emin=-10 ** 6)
TOLERANCE = decimal.Decimal('0.000005')


def same(got, v, d):
    if v is None:
        return got == ('word', 'NULL')
    if isinstance(v, bool):
        return got == ('word', 'TRUE' if v else 'FALSE') if d == 'postgresql' else got[:2] == ('num', int(v))
    if isinstance(v, int):
        return got == ('num', decimal.Decimal(int(v)), False)
    if isinstance(v, (float, decimal.Decimal)):
        if got[0] != 'num':
            return False
        return abs(WIDE.subtract(got[1], decimal.Decimal(v))) <= TOLERANCE
    if isinstance(v, bytes):
        return got == (('str', '\\x' + v.hex()) if d == 'postgresql' else ('blob', bytes(v)))
    if isinstance(v, datetime.date):
        return got == ('str', v.isoformat())
    if isinstance(v, str):
        return got == ('str', v)
    raise TypeError(v)


def gen_value(src, bytes_=True, bool_=True, none=True):
    return src.weighted(
        (30, lambda: gen.integer(src)),
        (20, lambda: gen.any_float(src)),
        (20, lambda: gen.any_decimal(src)),
        (8 if bool_ else 0, lambda: bool(src.n(2))),
        (4 if none else 0, None),
        (12 if bytes_ else 0, lambda: gen.bytes_(src)),
        (8, lambda: gen.date(src)),
        (12, lambda: gen.datetime_(src)),
    )


def gen_pos(src):
    d = src.pick(DIALECTS)
    group = src.pick(['cond', 'ordered', 'member', 'assign', 'assign'])
    pos = src.pick(sorted(GROUPS[d][group]))
    v = gen_value(src, bytes_=group == 'assign', bool_=group != 'ordered', none=group == 'assign')
    return (d, group, pos, v, src.weighted((88, 0), (8, 1), (4, 3)))


def interesting(v):
    return not (type(v) is int and 0 <= v <= 9)


def check_pos(spec):
    d, group, pos, v, sub = spec
    before, after = baseline(d, group, pos)
    use(d)
    arg = gen.derived(subclassed(v) if sub == 1 else v, sub) if sub else v
    if pos == 'v_frozenset' and v is None:
        raise Invalid
    sql = render_also_copy(GROUPS[d][group][pos](arg))
    got = lex(sql, d)
    n = len(got) - len(after)
    need(got[:len(before)] == before and got[n:] == after, '%s on %s: statement around value %r is changed: %r', pos, d, v, sql)
    lit = read(got[len(before):n], d)
    need(same(lit, v, d), '%s on %s: %r is rendered as %r', pos, d, v, sql)
    return [d, group, type(v).__name__] + (['interesting'] if interesting(v) else []) + (['subclass'] if sub else [])


def gen_big(src):
    """Bytes and numbers of unusual length."""
    d = src.pick(DIALECTS)
    n = src.pick(gen.LENGTHS)
    kind = src.n(4)
    if kind == 0:
        n, v = min(n, 4000), 0
        v = (10 ** n + src.n(1000)) * src.pick([1, -1])
    else:
        unit = src.pick([b'\0', b"'", b'\\', b'\xff', b'ab', bytes([src.n(256)])])
        v = (unit * n)[:n - 1] + bytes([src.n(256)])
    return (d, 'assign', src.pick(sorted(GROUPS[d]['assign'])), v, src.chance(10))


# ---------------------------------------------------------------- collections

def gen_items(src, depth):
    def item():
        if depth and src.chance(20):
            return gen_items(src, depth - 1)
        return src.weighted((60, lambda: gen_value(src)), (10, lambda: gen.word(src)))
    n = src.weighted((30, lambda: src.between(1, 4)), (10, lambda: src.between(1, 12)), (2, lambda: src.pick(gen.SHORT_LENGTHS)))
    if n > 12:
        base = [gen.integer(src) for _ in range(4)]
        return ('list', tuple(base[i % 4] + i for i in range(n)))
    return (src.pick(['list', 'list', 'tuple', 'gen', 'set', 'frozenset', 'range']) if depth < 2 or src.n(2) else 'list',
            tuple(item() for _ in range(n)))


def gen_coll(src):
    return (src.pick(DIALECTS), src.n(len(COLL)), gen_items(src, 2))


def materialize(x):
    """-> object for the library, nested list of the members in the order of iteration"""
    if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple)):
        return x, x
    kind, items = x
    if kind == 'range':
        n = len(items)
        r = [range(n, 3 * n, 2), range(n, 0, -1), range(n, -n, -2), range(-n, 1), range(5, 5 + n), range(n), range(1), range(n - 1, n)][sum(isinstance(i, str) for i in items) * 3 % 8 if n > 1 else len(repr(items)) % 8]
        return r, list(r)
    pairs = [materialize(i) for i in items]
    objs, vals = [p[0] for p in pairs], [p[1] for p in pairs]
    if kind == 'gen':
        return (i for i in objs), vals
    if kind in ('set', 'frozenset'):
        flat = [v for v in vals if not isinstance(v, list)]
        if not flat:
            flat = [1]
        st = (set if kind == 'set' else frozenset)(flat)
        return st, list(st)
    return (list if kind == 'list' else tuple)(objs), vals


COLL = [
    lambda v: s.select(s.V(v)),
    lambda v: s.select((s.V(v), 'al'), 'b'),
    lambda v: s.select_from('t').where(a=rel.IN(s.V(v))),
    lambda v: s.select_from('t').where(a=rel.NOT_IN(s.V(v))),
    lambda v: s.update('t').set(a=s.V(v)).where(id=1),
    lambda v: s.select(s.concat('x', s.V(v))),
    lambda v: s.select_from('t').order_by(s.V(v)),
    lambda v: s.select(s.V(s.V(v))),
    lambda v: s.insert_into('t').values(a=s.V(v), b=1),
    lambda v: s.delete_from('t').where(s.V(v), rel.NE(7)),
    lambda v: s.select_from('t').group_by('a').having(s.Q(b=1) | s.Q(a=rel.EQ(s.V(v)))),
]


@functools.lru_cache(None)
def coll_base(d, k):
    use(d)
    toks = lex(render(COLL[k]([MARK, MARK])), d)
    i = toks.index(('num', str(MARK)))
    return toks[:i - 1], toks[i + 4:]


def check_coll(spec):
    d, k, x = spec
    before, after = coll_base(d, k)
    use(d)
    obj, vals = materialize(x)
    # copy of a set can have another order
    sql = (render if 'set' in repr(x) else render_also_copy)(COLL[k](obj))
    got = lex(sql, d)
    n = len(got) - len(after)
    need(got[:len(before)] == before and got[n:] == after, 'statement around the collection is changed: %r', sql)
    rest, tail = match(got[len(before):n], vals, d)
    need(rest and not tail, 'on %s: %r is rendered as %r', d, vals, sql)
    return [d, x[0]] + (['nested'] if any(isinstance(v, list) for v in vals) else []) + (['long'] if len(vals) > 12 else []) \
        + (['interesting'] if len(vals) > 1 else [])


def match(toks, v, d):
    """-> (does the beginning of tokens match, tokens left)"""
    if isinstance(v, list):
        if not toks or toks[0] != ('p', '('):
            return False, toks
        toks = toks[1:]
        for i, item in enumerate(v):
            if i:
                if not toks or toks[0] != ('p', ','):
                    return False, toks
                toks = toks[1:]
            ok, toks = match(toks, item, d)
            if not ok:
                return False, toks
        return (True, toks[1:]) if toks and toks[0] == ('p', ')') else (False, toks)
    n = 2 if toks and toks[0] == ('p', '-') else 1
    return same(read(toks[:n], d), v, d), toks[n:]


# ---------------------------------------------------------------- refused values

BAD = {
    'nan': lambda: float('nan'), 'inf': lambda: float('inf'), '-inf': lambda: float('-inf'), 'dnan': lambda: decimal.Decimal('NaN'),
    'dinf': lambda: decimal.Decimal('Infinity'), 'd-inf': lambda: decimal.Decimal('-Infinity'), 'fnan': lambda: Float('nan'),
}
EMPTY = {'list': lambda: [], 'tuple': lambda: (), 'set': set, 'frozenset': frozenset, 'range': lambda: range(3, 3), 'gen': lambda: (i for i in ())}


def gen_bad(src):
    d = src.pick(DIALECTS)
    if src.chance(60):
        group = src.pick(['cond', 'ordered', 'member', 'assign'])
        return (d, group, src.pick(sorted(GROUPS[d][group])), src.pick(sorted(BAD)))
    return (d, 'empty', src.n(len(COLL)), src.pick(sorted(EMPTY)), src.n(3))


def check_bad(spec):
    use(spec[0])
    if spec[1] == 'empty':
        v = EMPTY[spec[3]]()
        v = v if spec[4] < 2 else [1, v]
        make = lambda: COLL[spec[2]](v)
    else:
        make = lambda: GROUPS[spec[0]][spec[1]][spec[2]](BAD[spec[3]]())
    sql = None
    try:
        sql = render(make())
    except Exception:  # pylint: disable=broad-except
        pass
    need(sql is None, 'value %s is not refused but rendered as %r', spec[3], sql)
    return [spec[1], spec[3]]


# ---------------------------------------------------------------- whole queries and execution

def gen_query(src):
    d = src.pick(DIALECTS)
    g = G(src, d, texts=0, plain=100, exprs=12)
    kind = src.n(4)
    q = [lambda: g.select(lo=2, hi=5, weights=dict(limit=0, option=0, outfile=0, from_=4, join=2)), g.insert, g.update, g.delete][kind]()
    if kind >= 2:
        q = (q[0], q[1] + (('raw', 'allow_%s_all' % q[0]),))
    return (d, q)


def check_query(spec):
    d, q = spec
    use(d)
    compare_with_model(q, d)
    return [d, q[0], 'interesting']


_db = []


def gen_exec(src):
    return tuple(src.many(lambda: gen_value(src), 1, 4, 60))


def check_exec(vals):
    vals = [v for v in vals if not (isinstance(v, int) and not isinstance(v, bool) and abs(v) >= 2 ** 63)
            and not (isinstance(v, (float, decimal.Decimal)) and abs(v) > 10 ** 9)]
    if not vals:
        raise Invalid
    if not _db:
        _db.append(database(['CREATE TABLE t (a, b)']))
    db = _db[0]
    use('sqlite')
    db.execute('DELETE FROM t')
    q = s.insert_into('t')
    for i, v in enumerate(vals):
        q.values(a=v, b=i)
    run(db, render(q))
    rows = [r[0] for r in db.execute('SELECT a FROM t ORDER BY b')]
    got = run(db, render(s.select(*[(s.V(v), 'c%d' % i) for i, v in enumerate(vals)])))[0]
    for v, stored, selected in zip(vals, rows, got):
        for x in (stored, selected):
            if v is None:
                ok = x is None
            elif isinstance(v, (bool, int)):
                ok = type(x) is int and x == int(v)
            elif isinstance(v, (float, decimal.Decimal)):
                ok = isinstance(x, (int, float)) and abs(decimal.Decimal(x) - decimal.Decimal(v)) <= decimal.Decimal('0.0000051')
            elif isinstance(v, bytes):
                ok = isinstance(x, bytes) and x == v
            else:
                ok = x == v.isoformat()
            need(ok, 'value %r is read back as %r', v, x)
    for i, v in enumerate(vals):
        if v is None or isinstance(v, (bytes, float, decimal.Decimal)):
            continue
        found = run(db, render(s.select('b').from_('t').where(a=v)))
        want = [(j,) for j, w in enumerate(vals) if w is not None and type(rows[j]) is type(rows[i]) and rows[j] == rows[i]
                or (isinstance(rows[j], (int, float)) and isinstance(rows[i], (int, float)) and rows[j] == rows[i])]
        need(sorted(found) == sorted(want), 'condition on %r finds rows %r, expected %r', v, found, want)
    return ['interesting'] if any(interesting(v) for v in vals) else []


TESTS = [
    Test('positions', gen_pos, check_pos, quick=60000, nontrivial={'interesting'}),
    Test('big', gen_big, check_pos, quick=1200, nontrivial={'interesting'}),
    Test('collections', gen_coll, check_coll, quick=24000, nontrivial={'interesting'}),
    Test('refused', gen_bad, check_bad, quick=6000),
    Test('query', gen_query, check_query, quick=12000, nontrivial={'interesting'}),
    Test('sqlite', gen_exec, check_exec, quick=10000, nontrivial={'interesting'}),
]
