"""SQL functions."""
from vlib import gen
from vlib.pbt import Test, Invalid
from vlib.lib import s, rel, exc, DIALECTS, use, render, need
from vlib.model import b_func, b_pos, b_sort, a_func, a_expr, call_args, add_orders, a_orders, a_text, FUNCS
from vlib.common import parsed, compare_with_model, database, run, norm
from vlib.qgen import G, SORTS

RULE = ('Functions with 0-5 (sometimes hundreds of) arguments of all kinds, nested up to 4 levels, in 17 places of queries, changed by random sequences of '
        'distinct/order_by/separator/to calls with rendering in between, and executed on SQLite; a case is non-trivial if the function has an argument which '
        'is not a plain column, at least two arguments, or at least one modifier.')
ASSUMPTIONS = ['the type of convert is a plain SQL type name and always given']


def rich(f):
    return bool(f[2]) or len(f[3]) > 1 or any(not isinstance(a, str) for a in f[3])


def depth_of(f):
    return 1 + max([depth_of(a) for a in f[3] if isinstance(a, tuple) and a[0] == 'F'] or [0])


# ---------------------------------------------------------------- arguments and places

# Query spec with the function in it.
PLACES = {
    'column': lambda f: ('select', (('columns', 'args', ((f, None),)),)),
    'column_alias': lambda f: ('select', (('columns', 'args', (('a', None), (f, 'al'), ('b', None))),)),
    'column_twice': lambda f: ('select', (('columns', 'args', ((f, 'x'), (f, 'y'))),)),
    'order_by': lambda f: ('select', (('from_', 'args', (('t', None),)), ('order_by', 'args', ((f, 'desc'), ('a', None))))),
    'group_by': lambda f: ('select', (('from_', 'args', (('t', None),)), ('group_by', 'args', ((f, None), ('a', 'desc'))))),
    'having': lambda f: ('select', (('from_', 'args', (('t', None),)), ('having', ('pairs', 'pair', ((f, 5),))))),
    'having_rel': lambda f: ('select', (('from_', 'args', (('t', None),)), ('having', ('pairs', 'list', ((f, ('rel', 'GT', 'v', 5)), ('a', 'x')))))),
    'where': lambda f: ('select', (('from_', 'args', (('t', None),)), ('where', ('pairs', 'tuples', (('a', 1), (f, [1, 2])))))),
    'where_value': lambda f: ('select', (('from_', 'args', (('t', None),)), ('where', ('pairs', 'pair', (('a', f),))))),
    'where_rel': lambda f: ('select', (('from_', 'args', (('t', None),)), ('where', ('pairs', 'kwds', (('a', ('rel', 'LE', 'v', f)), ('b', 1)))))),
    'where_q': lambda f: ('select', (('from_', 'args', (('t', None),)),
                                     ('where', ('obj', ('|', ('q', ('pairs', 'pair', ((f, 'x'),))), ('q', ('pairs', 'kwds', (('b', f), ('c', 2))))))))),
    'on': lambda f: ('select', (('from_', 'args', (('t', None),)), ('join', 'join', 'u', None, 'str'), ('on', ('pairs', 'pair', ((f, 'b'),))))),
    'set': lambda f: ('update', (('table', 't', None), ('set', 'kwds', (('a', f), ('b', 1))), ('where', ('pairs', 'pair', (('id', 1),))))),
    'insert': lambda f: ('insert', (('into', 't'), ('values', 'kwds', (('a', f), ('b', 1))), ('values', 'pair', (('b', f),)))),
    'delete': lambda f: ('delete', (('from_', 'args', (('t', None),)), ('where', ('pairs', 'pair', ((f, None),))))),
    'value': lambda f: ('select', (('columns', 'args', ((('V', f), None),)),)),
    'reference': lambda f: ('select', (('columns', 'args', ((('R', f), None),)),)),
}


def gen_place(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=60, texts=50, exprs=src.pick([10, 35, 55]), depth=src.pick([1, 2, 3, 4]))
    return (d, src.pick(sorted(PLACES)), g.func())


def check_place(spec):
    d, place, f = spec
    use(d)
    text = compare_with_model(PLACES[place](f), d)
    obj = b_func(f, d)
    alone = render(obj)
    need(alone in text, '%s: %r is not in %r', place, alone, text)
    need(render(obj) == alone, 'second rendering differs')
    labels = [d, place, f[1], 'depth %d' % depth_of(f)]
    return labels + (['rich'] if rich(f) else [])


# ---------------------------------------------------------------- many arguments

def gen_many(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=80, texts=20, exprs=10, depth=1)
    name = src.pick(['concat', 'group_concat', 'count', 'count_distinct', 'max'])
    n = src.weighted((10, lambda: src.between(1, 12)), (2, lambda: src.pick([x for x in gen.SHORT_LENGTHS if x < 300])))
    pool = [g.pos() for _ in range(src.between(1, 4))]
    pool = [p for p in pool if p != 0] or ['a']
    if src.chance(50):
        args = tuple(src.pick(pool) for _ in range(n))
    else:
        args = tuple('c%d' % i for i in range(n))
    mods = (('aslist',),) if name not in ('concat', 'group_concat') else ()
    return (d, ('F', name, mods, args))


def check_many(spec):
    d, f = spec
    use(d)
    text = render(s.select(b_func(f, d)))
    want = ('select', (('columns', ((a_func(f, d), None),)), ('options', ())))
    need(parsed(text, d) == norm(want, d), '%r does not have the arguments %r', text, f[3])
    n = len(f[3])
    return [d, f[1], '%d+ arguments' % min(n // 5 * 5, 100)] + (['rich'] if n > 1 else [])


# ---------------------------------------------------------------- histories of modifiers

def gen_history(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=80, texts=50, exprs=15, depth=1)
    kind = src.n(3)
    if kind == 0:
        name = src.pick(FUNCS) + src.pick(['', '_distinct'])
        f = ('F', name, (), (g.name(),))
        step = lambda: ('distinct', src.pick([(), (True,), (False,), (1,), (0,), (None,), ('x',), ('',)]))
    elif kind == 1:
        f = ('F', 'group_concat', (), tuple(src.many(g.pos, 1, 3)))
        step = lambda: g.orders('order_by', nokwds=True) if src.chance(50) else ('separator', g.string())
    else:
        f = ('F', 'convert', ((src.pick(['arg', 'to']), src.pick(TYPES)),), (g.pos(),))
        step = lambda: ('to', src.pick(TYPES))
    steps = src.many(lambda: (step(), src.n(4)), 1, 8, 75)
    return (d, f, tuple(steps))


TYPES = ['unsigned', 'CHAR', 'Signed', 'decimal(10, 2)', 'binary', 'date', 'char(5)', 'SIGNED INTEGER', 'datetime(6)', 'decimal(65,30)', 'double precision',
         'char(10) character set utf8', 'nchar', 'time', 'timestamp with time zone', 'numeric(5)', 'x', 'varchar(255)', 'int8', 'my_type', 'DECIMAL(10,2) UNSIGNED',
         'long_type_name_with_many_characters_in_it']


def check_history(spec):
    d, f, steps = spec
    use(d)
    obj = b_func(f, d)
    twin = b_func(f, d)
    first = render(twin)
    q = s.select(obj, 'z')
    done = list(f[2])

    def verify(what):
        want = a_func(f[:2] + (tuple(done),) + f[3:], d)
        for x, cols in ((s.select(obj), (want,)), (q, (want, ('id', ('z',)))), (s.select(s.max(obj)), (('func', 'MAX', False, (want,), (), None),))):
            text = render(x)
            need(parsed(text, d)[1][0] == ('columns', tuple((c, None) for c in cols)), '%s: %r after %r', what, text, done)
    for mod, look in steps:
        if look & 1:
            verify('before')
        copy = obj.copy() if hasattr(obj, 'copy') else None
        before = None if copy is None else render(copy)
        if mod[0] == 'order_by':
            a, k, _ = call_args(mod[1], mod[2], d, b_pos, b_sort)
            r = obj.order_by(*a, **k)
        elif mod[0] == 'distinct':
            r = obj.distinct(*mod[1])
        else:
            r = getattr(obj, mod[0])(mod[1])
        need(r is not None, '%s returns nothing, calls cannot be chained', mod[0])
        done.append(mod)
        if look & 2:
            verify('after')
        if copy is not None:
            need(render(copy) == before, 'copy of a function is changed with the original')
    verify('at the end')
    need(render(twin) == first, 'another function is changed from %r to %r', first, render(twin))
    fresh = render(b_func(f, d))
    need(fresh == first, 'the same call gives %r and later %r', first, fresh)
    return [d, f[1], 'rich']


# ---------------------------------------------------------------- execution

def gen_run(src):
    rows = src.many(lambda: (src.pick([None, 0, 1, 2, 3, 5, -1]), src.pick([None, 'x', 'y', '']), src.n(3)), 0, 8, 85)
    fs = src.many(lambda: (src.pick(FUNCS), bool(src.n(2)), src.pick(['a', 'b', '*', 'expr', 'sub'])), 1, 4, 60)
    conc = src.many(lambda: src.pick(['a', 'b', ('V', 'q'), ('V', "it's"), ('C', '1 + 1'), 'c']), 1, 4)
    return (tuple(rows), tuple(fs), tuple(conc), bool(src.n(2)))


def check_run(spec):
    rows, fs, conc, grouped = spec
    use('sqlite')
    db = database(['CREATE TABLE t (a, b, c)'])
    db.executemany('INSERT INTO t VALUES (?, ?, ?)', rows)
    fs = [(n, dis, c) for n, dis, c in fs if not (c == '*' and (n != 'count' or dis)) and not (c == 'b' and n in ('avg', 'sum'))]

    def fn(name, dis, c):
        if c == '*':
            return s.count()
        arg = {'a': 'a', 'b': 'b', 'expr': s.C('a * 2'), 'sub': s.select(s.max('a')).from_('t')}[c]
        return getattr(s, name + ('_distinct' if dis else ''))(arg)

    def value(name, dis, c, rs):
        if c == '*':
            return len(rs)
        if c == 'sub':
            known = [r[0] for r in rows if r[0] is not None]
            vals = [max(known) if known else None] * len(rs)
        else:
            vals = [{'a': r[0], 'b': r[1], 'expr': None if r[0] is None else r[0] * 2}[c] for r in rs]
        vals = [v for v in vals if v is not None]
        if dis:
            vals = sorted(set(vals))
        if name == 'count':
            return len(vals)
        if not vals:
            return None
        if name == 'avg':
            return sum(vals) / len(vals)
        return {'max': max, 'min': min, 'sum': sum}[name](vals)
    if fs:
        q = s.select('c').from_('t')
        for i, f in enumerate(fs):
            q.columns((fn(*f), 'f%d' % i))
        groups = {}
        for r in rows:
            groups.setdefault(r[2], []).append(r)
        if grouped:
            q.group_by('c').order_by('c')
            want = [(c,) + tuple(value(*f, rs=groups[c]) for f in fs) for c in sorted(groups)]
        else:
            q = s.select().from_('t')
            for i, f in enumerate(fs):
                q.columns((fn(*f), 'f%d' % i))
            want = [tuple(value(*f, rs=list(rows)) for f in fs)]
        text = render(q)
        got = run(db, text)
        need(got == want, '%r gives %r, expected %r', text, got, want)
    # texts are columns, values are values
    q = s.select(s.concat(*[b_pos(x, 'sqlite') for x in conc])).from_('t').order_by(s.C('rowid'))

    def txt(x, r):
        if isinstance(x, str):
            v = r['abc'.index(x)]
            return '' if v is None else str(v)
        return x[1] if x[0] == 'V' else '2'
    want = [(''.join(txt(x, r) for x in conc),) for r in rows]
    if SQLITE_CONCAT:
        got = run(db, render(q))
        need(got == want, '%r gives %r, expected %r', render(q), got, want)
    return ['rich'] + (['grouped'] if grouped else [])


def _has_concat():
    try:
        database().execute("SELECT CONCAT('a', 'b')")
        return True
    except Exception:  # pylint: disable=broad-except
        return False


SQLITE_CONCAT = _has_concat()


# ---------------------------------------------------------------- refusals

def gen_refuse(src):
    return (src.pick(DIALECTS), src.pick(['concat', 'group_concat']), src.n(3))


def check_refuse(spec):
    d, name, how = spec
    use(d)
    try:
        f = getattr(s, name)()
        if how == 0:
            text = render(f)
        elif how == 1:
            text = render(s.select(f))
        else:
            text = render(s.select_from('t').where('a', f))
    except exc.InvalidArgumentException:
        return [d, 'rich']
    need(False, '%s without arguments is rendered as %r', name, text)


# ---------------------------------------------------------------- any name

def gen_names(src):
    name = src.pick(FUNCS) + src.pick(['', '', '_distinct'])
    if src.chance(30):
        name = src.pick(['concat', 'group_concat', 'convert'])
    return (src.pick(DIALECTS), name, src.pick(src.pick([gen.ODD_BARE, gen.HBARE, gen.PARAMS])), src.n(3))


def check_names(spec):
    """A text is a column whatever it is (only count of a star is special)."""
    d, name, arg, how = spec
    use(d)
    args = (arg, 'char') if name == 'convert' else (arg,)
    f = getattr(s, name)([arg] if how == 1 and name not in ('concat', 'group_concat', 'convert') else arg, *args[1:])
    if how == 2:
        f = f.copy()
    q = '`' if d == 'mysql' else '"'
    want = '%s(%s%s%s%s%s)' % (name.replace('_distinct', '').upper(), 'DISTINCT ' if name.endswith('_distinct') else '', q, arg, q, ', CHAR' if name == 'convert' else '')
    need(parsed('SELECT ' + render(f), d) == parsed('SELECT ' + want, d), '%s of %r is %r', name, arg, render(f))
    return [d, 'rich']


TESTS = [
    Test('names', gen_names, check_names, quick=6000, nontrivial={'rich'}),
    Test('place', gen_place, check_place, quick=24000, nontrivial={'rich'}),
    Test('many', gen_many, check_many, quick=4000, nontrivial={'rich'}),
    Test('history', gen_history, check_history, quick=6000, nontrivial={'rich'}),
    Test('run', gen_run, check_run, quick=3000, nontrivial={'rich'}),
    Test('refuse', gen_refuse, check_refuse, quick=100, nontrivial={'rich'}),
]
