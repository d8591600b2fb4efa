"""Looking at a query does not change it."""
from vlib import gen
from vlib.pbt import Test, Invalid
from vlib.lib import s, rel, exc, DIALECTS, use, render, need
from vlib.model import apply_op, start, build, b_expr, b_cond, b_rel, expect, call_args
from vlib.common import parsed, norm
from vlib.qgen import G
from props.c02 import COLL, gen_items, materialize

RULE = ('Each history is built twice, once with 1-8 observations (rendering, repr, comparison, hash, has, copy, sorting, embedding, union) at random '
        'places and once without; a case is non-trivial if an observation is followed by another builder call.')

PARTS = ('where', 'columns', 'tables', 'order_by', 'group_by', 'having', 'limit', 'select_options', 'values', 'on_duplicate_key_update', 'into_outfile', 'nothing')


def observe(o, k, arg, d, kind):
    """One observation of the object; refusals of the library are fine."""
    select = kind in ('select', 'union')
    try:
        if k == 0:
            str(o)
        elif k == 1:
            repr(o)
        elif k == 2:
            o.tosql()
        elif k == 3:
            c = o.copy()
            need(c == o and o == c, 'copy is not equal to the original')
        elif k == 4:
            hash(o)
            {o: 1}[o]
        elif k == 5 and hasattr(o, 'has'):
            o.has(PARTS[arg % len(PARTS)])
            o.has(PARTS[arg % len(PARTS)], ['a', 'b', 'id', 't', 'x'][arg % 5])
        elif k == 6:
            c = o.copy()
            change(c, kind, arg)
            str(c)
        elif k == 7:
            sorted([o, s.select('zz'), o.copy()])
            sorted([s.C('x'), o])
        elif k == 8 and select:
            str(s.select_from((o, 'al')).where(x=1))
            str(s.select((o, 'al')))
        elif k == 9 and select:
            str(o & s.select('zz'))
            str(s.select('zz') | o)
            str((o & o) | o)
        elif k == 10:
            o == s.select('zz')
            o != 'text'
            o == None  # noqa
            s.update('t') == o
            o in [s.select('zz'), s.insert()]
        elif k == 11 and select:
            str(s.select_from({o: 'al'}))
            str(s.select_from('t').join({o: 'al'}).on('a', 'b'))
            str(s.select_from('t').left_join((o, 'al')).on('a', 'b').join('u').on('x', 'y'))
        elif k == 12 and select:
            str(s.select_from('t').where(a=rel.IN(o)).where(s.exists(o)).where(b=o))
            str(s.select(s.concat(o, 'x'), s.count(o)).order_by(o))
        elif k == 13 and select:
            str(s.update('t').set(a=o).where(b=o))
            str(s.insert_into('t').values(a=o))
        elif k == 14:
            '%s' % o, '{}'.format(o), bool(o)
        elif k == 15 and select:
            # embedded into a query which is then used and changed further
            outer = s.select_from('t').where(a=rel.IN(o))
            c = outer.copy()
            c.where(z=9).limit(3)
            str(c), str(outer)
    except exc.SqlPuzzleException:
        pass


def change(c, kind, arg):
    if kind == 'select':
        c.where(zz=arg).columns('zz').limit(7).order_by('zz').distinct().from_('zz').join('yy').on('p', 'q')
    elif kind == 'insert':
        c.values(zz=arg).ignore()
    elif kind == 'update':
        c.where(zz=arg).set(zz=1).allow_update_all().ignore()
    elif kind == 'delete':
        c.where(zz=arg).from_('zz').allow_delete_all().ignore()


def text_of(o):
    try:
        return render(o)
    except exc.ConfirmException as e:
        return ('exception', type(e).__name__)


def answers(o):
    """What else the object says about itself."""
    out = []
    for ask in [lambda: repr(o), lambda: o.tosql()] + [lambda p=p, v=v: o.has(p, v) for p in PARTS for v in (None, 'a') if hasattr(o, 'has')]:
        try:
            out.append(ask())
        except exc.SqlPuzzleException as e:
            out.append(type(e).__name__)
    return out


def gen_query(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=90, texts=10, exprs=20, depth=2)
    k = src.n(10)
    if k < 5:
        q = g.select(lo=1, hi=10)
    elif k < 7:
        # joins: repeated and mirrored ones
        q = g.select(lo=4, hi=12, cont=90, weights=dict(from_=10, join=40, on=60, columns=3, where=5, having=0, group_by=0, order_by=0, option=0))
    else:
        q = (g.insert, g.update, g.delete)[k - 7]()
    n = len(q[1])
    obs = src.many(lambda: (src.n(n + 1), src.n(16), src.n(40)), 1, 8, 75)
    return (d, q, tuple(obs))


def check_query(spec):
    d, q, obs = spec
    use(d)
    plain = build(q, d)
    want = text_of(plain)
    watched, done = start(q, d)
    for k, a in [(o[1], o[2]) for o in obs if o[0] == 0 or o[0] <= done]:
        observe(watched, k, a, d, q[0])
    for i, op in enumerate(q[1]):
        if i < done:
            continue
        apply_op(watched, op, d)
        for at, k, a in obs:
            if at == i + 1:
                before = text_of(watched)
                observe(watched, k, a, d, q[0])
                need(text_of(watched) == before, 'observation %d changes %r to %r', k, before, text_of(watched))
    got = text_of(watched)
    need(got == want, 'observed query is %r, unobserved %r', got, want)
    need(text_of(watched) == want and text_of(plain) == want, 'rendering again gives another text than %r', want)
    need(watched == plain and plain == watched and not watched != plain, 'observed query does not equal the unobserved one: %r', want)
    need(answers(watched) == answers(plain), 'observed query says %r, unobserved %r', answers(watched), answers(plain))
    return [d, q[0]] + (['watched'] if any(o[0] < len(q[1]) for o in obs) else [])


# ---------------------------------------------------------------- expressions, conditions, values

def gen_object(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=90, texts=10, exprs=25, depth=3)
    kind = src.pick(['expr', 'func', 'cond', 'rel', 'vgen', 'sub'])
    x = {
        'expr': g.expr, 'func': g.func, 'cond': lambda: g.qtree(src.n(4)), 'rel': g.inrel,
        'vgen': lambda: ('V', ('gen', tuple(g.members()))),
        'sub': lambda: ('S', g.sub()),
    }[kind]()
    return (d, kind, x, tuple(src.many(lambda: (src.n(8), src.n(30)), 1, 6, 75)), src.n(3))


def place(o, kind, k):
    if kind == 'cond':
        return s.select_from('t').where(o) if k else s.select_from('t').where(o & s.Q(z=1))
    if kind == 'rel':
        return s.select_from('t').where(a=o) if k else s.select_from('t').having(a=o, b=1)
    return [lambda: s.select((o, 'al')), lambda: s.select_from('t').order_by(o), lambda: s.select_from('t').where([(o, 5)])][k]()


def glance(o, k, arg, kind):
    try:
        if k == 0:
            str(o)
        elif k == 1:
            repr(o)
        elif k == 2:
            o.tosql()
        elif k == 3:
            o == o.copy()
            o == 'x'
        elif k == 4:
            if kind not in ('rel', 'cond'):
                hash(o)
        elif k == 5:
            str(place(o, kind, arg % 3))
            str(place(o, kind, (arg + 1) % 3))
        elif k == 6:
            if kind == 'cond':
                str(s.select_from('t').where(o & s.Q(zz=1)).where(o | s.Q(yy=1)).where(s.Not(o)))
                str(s.select_from('t').where(o, s.Q(zz=1), z=2))
                str(s.select_from('t').having(s.Q(o) | o))
            elif kind != 'rel':
                str(s.select(s.concat(o, 'zz'), s.max(o), s.V([1, o])))
        elif k == 7:
            str(o.copy())
            if kind == 'func':
                c = o.copy()
                for m in ('distinct', 'separator', 'order_by', 'to'):
                    if hasattr(c, m):
                        getattr(c, m)(*{'distinct': (), 'separator': ('zz',), 'order_by': ('zz',), 'to': ('zz',)}[m])
    except exc.SqlPuzzleException:
        pass


def check_object(spec):
    d, kind, x, obs, k = spec
    use(d)

    def make():
        if kind == 'cond':
            return b_cond(x, d)
        if kind == 'rel':
            return b_rel(x, d)
        return b_expr(x, d)
    if kind != 'cond' and kind != 'rel' and isinstance(x, tuple) and x[0] == 'C' and k == 2:
        pass
    try:
        want = render(place(make(), kind, k))
    except exc.SqlPuzzleException:
        raise Invalid
    o = make()
    alone = text_of(o)
    for n, a in obs:
        glance(o, n, a, kind)
        need(text_of(o) == alone, 'observation %d changes %r to %r', n, alone, text_of(o))
    q = place(o, kind, k)
    got = render(q)
    need(got == want, 'observed object gives %r, unobserved %r', got, want)
    glance(o, 5, 0, kind)
    need(render(q) == want, 'rendering again gives %r instead of %r', render(q), want)
    return [d, kind, 'watched']


# ---------------------------------------------------------------- unions

def gen_union(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=95, texts=5, exprs=8, depth=1)

    def tree(n):
        if n == 0:
            return ('select', (('columns', 'args', ((g.name(), None),)),) + tuple(src.many(lambda: ('where', g.form(simple=True)), 0, 2, 40)))
        left = src.n(n)
        return ('union', src.pick('&|'), tree(left), tree(n - 1 - left))
    return (d, tree(src.between(1, 5)), tuple(src.many(lambda: (src.n(16), src.n(40)), 1, 6, 75)))


def check_union(spec):
    d, q, obs = spec
    use(d)
    want = render(build(q, d))

    def make(x):
        if x[0] == 'union':
            a, b = make(x[2]), make(x[3])
            u = a & b if x[1] == '&' else a | b
        else:
            u = build(x, d)
        for k, a in obs:
            observe(u, k, a, d, x[0] if x[0] == 'union' else 'select')
        return u
    u = make(q)
    need(render(u) == want, 'observed union is %r, unobserved %r', render(u), want)
    need(u == build(q, d) and render(u) == want, 'observed union does not equal the unobserved one')
    return [d, 'watched']


# ---------------------------------------------------------------- collections

COLLS = COLL + [
    lambda v: s.select_from('t').where(a=v if isinstance(v, (list, tuple)) else list(v)),
    lambda v: s.select_from('t').where(a=rel.IN(v)),
    lambda v: s.select_from('t').where(a=rel.NOT_IN(v, None)),
    lambda v: s.select_from('t').where(s.Q(a=1) | s.Q(b=rel.IN([1, v]))),
    lambda v: s.select_from('t').having(s.Not(a=[v, 2])),
    lambda v: s.select_from('t').join('u').on('a', [v, None]),
    lambda v: s.update('t').set(a=1).where([('b', [v])]),
    lambda v: s.select_from((s.select('x').where(a=[v]), 'al')),
    lambda v: s.select('x') & s.select('y').where(a=rel.IN((v, 1))),
]


def ordered(x):
    """Copy of a set can have another order, lists instead of them."""
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
        return (x[0] if 'set' not in x[0] else 'list', tuple(ordered(i) for i in x[1]))
    return x


def gen_colls(src):
    return (src.pick(DIALECTS), src.n(len(COLLS)), ordered(gen_items(src, 2)), tuple(src.many(lambda: (src.n(7), src.n(50)), 1, 4, 50)))


def check_colls(spec):
    """A generator, also one inside of another collection, gives its items only once, the query has to keep them."""
    d, k, x, looks = spec
    use(d)
    try:
        seen, unseen = COLLS[k](materialize(x)[0]), COLLS[k](materialize(x)[0])
        want = render(unseen)
    except exc.SqlPuzzleException:
        raise Invalid
    kind = 'union' if k == len(COLLS) - 1 else type(seen).__name__.lower()
    for how, arg in looks:
        observe(seen, how, arg, d, kind)
    need(render(seen) == want, 'observed query is %r, unobserved %r', render(seen), want)
    need(render(seen.copy()) == want and render(seen) == want, 'copy of the query is %r, the query %r', render(seen.copy()), want)
    return [d] + (['watched'] if 'gen' in repr(x) else [])


TESTS = [
    Test('collection', gen_colls, check_colls, quick=3000, nontrivial={'watched'}),
    Test('query', gen_query, check_query, quick=16000, nontrivial={'watched'}),
    Test('object', gen_object, check_object, quick=12000, nontrivial={'watched'}),
    Test('union', gen_union, check_union, quick=2500, nontrivial={'watched'}),
]
