"""Styles of arguments."""
from collections import OrderedDict

from vlib import bulk, gen
from vlib.pbt import Test, Invalid
from vlib.lib import s, exc, DIALECTS, use, render, need
from vlib.common import compare_with_model, parsed
from vlib.model import call_args, b_pos, b_alias, b_sort, b_rel, b_val, b_cond, enc_name
from vlib.qgen import G, SORTS

RULE = ('Lists of 1-6 (sometimes 30) items with any names (also names of parameters in the code) in every style of call of every method which takes '
        'several of them; a case is non-trivial if it has more than one item or its style is not the simplest one.')


class SG(G):
    def name(self, dots=True):
        src = self.src
        if src.chance(30):
            return src.pick(gen.PARAMS)
        if src.chance(5):
            return src.pick(['a', 'ab', 'b', 'z', 'Z']) * src.pick([x for x in gen.SHORT_LENGTHS if x < 260])
        return super().name(dots)

    def alias(self):
        return self.name(False) if self.src.chance(50) else super().alias()


def two(second):
    return lambda g: (g.condcol(), second(g))


METHODS = {
    # method: (builder of pairs, has the second part optional, function of names, of values, query, canonical call of one item)
    'columns': (True, lambda g: (g.pos(), g.alias() if g.src.chance(50) else None), b_alias),
    'select': (True, lambda g: (g.pos(), g.alias() if g.src.chance(50) else None), b_alias),
    'from_': (True, lambda g: g.table_item(), b_alias),
    'select_from': (True, lambda g: g.table_item(), b_alias),
    'from_tables': (True, lambda g: g.table_item(), b_alias),
    'delete_from': (True, lambda g: g.table_item(), b_alias),
    'order_by': (True, lambda g: (g.pos(), g.src.pick(SORTS)), b_sort),
    'group_by': (True, lambda g: (g.pos(), g.src.pick(SORTS)), b_sort),
    'where': (False, lambda g: (g.condcol(), g.condval()), b_rel),
    'update_where': (False, lambda g: (g.condcol(), g.condval()), b_rel),
    'delete_where': (False, lambda g: (g.condcol(), g.condval()), b_rel),
    'having': (False, lambda g: (g.condcol(), g.condval()), b_rel),
    'q': (False, lambda g: (g.condcol(), g.condval()), b_rel),
    'not': (False, lambda g: (g.condcol(), g.condval()), b_rel),
    'on': (False, lambda g: (g.name(), g.onval()), b_rel),
    'set': (False, lambda g: (g.name(), g.assigned()), b_val),
    'values': (False, lambda g: (g.name(), g.assigned()), b_val),
    'odku': (False, lambda g: (g.name(), g.assigned()), b_val),
}


def fresh(method, d):
    """-> (callable taking the arguments, function returning the query)"""
    if method == 'select':
        box = []
        return (lambda *a, **k: box.append(s.select(*a, **k))), (lambda: box[-1].from_('z'))
    if method == 'select_from':
        box = []
        return (lambda *a, **k: box.append(s.select_from(*a, **k))), (lambda: box[-1])
    if method == 'delete_from':
        box = []
        return (lambda *a, **k: box.append(s.delete_from(*a, **k))), (lambda: box[-1].allow_delete_all())
    if method in ('q', 'not'):
        box = []
        fn = s.Q if method == 'q' else s.Not
        return (lambda *a, **k: box.append(fn(*a, **k))), (lambda: s.select_from('t').where(box[-1]))
    if method in ('set', 'update_where'):
        q = s.update('t').allow_update_all()
        if method == 'update_where':
            q.set(z=1)
            return q.where, lambda: q
        return q.set, lambda: q
    if method == 'delete_where':
        q = s.delete_from('t').allow_delete_all()
        return q.where, lambda: q
    if method == 'values':
        q = s.insert_into('t')
        return q.values, lambda: q
    if method == 'odku':
        q = s.insert_into('t').values(z=1)
        if d == 'postgresql':
            return (lambda *a, **k: q.on_duplicate_key_update('pk', *a, **k)), lambda: q
        return q.on_duplicate_key_update, lambda: q
    q = s.select()
    if method not in ('from_', 'from_tables'):
        q.from_('t')
    if method == 'on':
        q.join('u')
    return getattr(q, method), lambda: q


def canonical(method, pairs, d, bv):
    """The same items in the most explicit style, one by one."""
    items = [(b_pos(k, d), bv(v, d)) for k, v in pairs]
    if method in ('select', 'columns'):
        q = s.select() if method == 'columns' else s.select(items[0])
        if method == 'columns':
            q.from_('t')
        for it in items if method == 'columns' else items[1:]:
            q.columns(it)
        return q.from_('z') if method == 'select' else q
    if method in ('from_', 'from_tables', 'select_from', 'delete_from'):
        q = s.delete().allow_delete_all() if method == 'delete_from' else s.select()
        for it in items:
            q.from_(it)
        return q
    if method in ('q', 'not'):
        return s.select_from('t').where((s.Q if method == 'q' else s.Not)(items))
    call, get = fresh(method, d)
    if method in ('order_by', 'group_by'):
        for it in items:
            call(it)
    elif method == 'values':
        call(items)
    elif method == 'odku':
        if d == 'postgresql':
            call(items)
        else:
            for it in items:
                call([it])
    else:
        for k, v in items:
            call(k, v)
    return get()


def gen_case(src):
    d = src.pick(DIALECTS)
    methods = sorted(METHODS)
    if d not in ('mysql', 'postgresql'):
        methods.remove('odku')
    method = src.pick(methods)
    g = SG(src, d, depth=1, texts=8, plain=60, exprs=10)
    optional, make, _ = METHODS[method]
    if src.chance(4):
        pairs = tuple(make(g) for _ in range(src.between(7, 30)))
    else:
        pairs = tuple(src.many(lambda: make(g), 1, 6, 60))
    if method in ('set', 'values', 'odku'):
        pairs = tuple((k, v) for k, v in pairs)
    style = g.one_style(pairs) if optional else g.two_style(pairs)
    if method == 'odku' and d == 'postgresql':
        style = {'pair': 'list', 'pair+kwds': 'list+kwds'}.get(style, style)
    perm = tuple(src.shuffled(range(len(pairs)))) if 'dict' in style or style == 'kwds' else ()
    return (d, method, style, pairs, perm)


def freeze(x, seen=0):
    if isinstance(x, OrderedDict):
        return ('odict', tuple((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, dict):
        return ('dict', tuple((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(i) for i in x))
    if x is None or isinstance(x, (str, int, float, bytes)):
        return (type(x).__name__, repr(x))
    if hasattr(x, 'tosql'):
        try:
            return ('object', id(x), str(x))
        except exc.SqlPuzzleException as e:
            return ('object', id(x), type(e).__name__)
    return ('other', id(x))


def same_key(pairs, d):
    """Keys of a dictionary which is permuted have to be different texts."""
    keys = [b_pos(k, d) if isinstance(k, (str, int)) or k[0] == 'N' else k[1] for k, _ in pairs]
    keys = [str(k) for k in keys]
    return len(set(keys)) == len(keys)


def check_case(spec):
    d, method, style, pairs, perm = spec
    use(d)
    bv = METHODS[method][2]
    a, k, order = call_args(style, pairs, d, b_pos, bv)
    before = freeze((a, k))
    call, get = fresh(method, d)
    call(*a, **k)
    need(freeze((a, k)) == before, 'arguments of %s are changed by the call: %r', method, (a, k))
    q = get()
    text = render(q)
    need(freeze((a, k)) == before, 'arguments of %s are changed by rendering: %r', method, (a, k))
    want = render(canonical(method, order, d, bv))
    need(text == want, '%s by %s gives %r, item by item %r', method, style, text, want)
    if perm and same_key(pairs, d) and 'odict' not in style:
        if '+' in style:
            perm = [i for i in perm if i != len(pairs) - 1] + [len(pairs) - 1]
        a2, k2, _ = call_args(style, tuple(pairs[i] for i in perm), d, b_pos, bv)
        call, get = fresh(method, d)
        call(*a2, **k2)
        got = render(get())
        need(got == text, 'order of insertion into the dictionary matters: %r and %r', text, got)
    return [d, method, 'style ' + style] + (['several'] if len(pairs) > 1 else []) + (['permuted'] if perm else [])


# ---------------------------------------------------------------- Q objects with named arguments, joins, whole queries

def gen_objs(src):
    d = src.pick(DIALECTS)
    g = SG(src, d, depth=1, texts=8, plain=70, exprs=6)
    conds = tuple(src.many(lambda: g.qtree(src.n(3)), 1, 4, 50))
    kw = tuple(src.many(lambda: (src.pick(gen.PARAMS + gen.PLAIN), g.condval()), 0, 4, 60))
    return (d, src.pick(['where', 'having', 'update', 'delete', 'q']), conds, kw)


def check_objs(spec):
    d, where, conds, kw = spec
    use(d)
    objs = [b_cond(c, d) for c in conds]
    _, k, order = call_args('kwds', kw, d, b_pos, b_rel)
    before = freeze((objs, k))

    def base():
        if where == 'update':
            return s.update('t').set(z=1).allow_update_all()
        if where == 'delete':
            return s.delete_from('t').allow_delete_all()
        return s.select_from('t')
    q = base()
    if where == 'q':
        q.where(s.Q(*objs, **k))
    else:
        (q.having if where == 'having' else q.where)(*objs, **k)
    text = render(q)
    need(freeze((objs, k)) == before, 'arguments are changed')
    c = base()
    call = c.having if where == 'having' else c.where
    for o in objs:
        call(o)
    for col, v in order:
        call(b_pos(col, d), b_rel(v, d))
    want = render(c)
    # A repeated condition changes nothing, so meanings are compared.
    need(parsed(text, d) == parsed(want, d), 'together: %r, one by one: %r', text, want)
    return [d, where, 'several' if len(conds) + len(kw) > 1 else 'one']


def gen_join(src):
    d = src.pick(DIALECTS)
    g = SG(src, d, depth=1, plain=50)
    t = ('S', g.sub()) if src.chance(20) else g.table()
    return (d, src.pick(['join', 'inner_join', 'left_join', 'right_join']), t, g.alias() if src.chance(70) else None, src.pick(['select', 'update', 'delete']))


def check_join(spec):
    d, kind, t, alias, query = spec
    use(d)
    texts = {}
    for style in ('tuple', 'list', 'dict', 'str'):
        arg = b_pos(t, d)
        al = b_alias(alias, d)
        if style == 'str':
            if alias is not None or not isinstance(arg, str):
                continue
            x = arg
        else:
            x = {'tuple': (arg, al), 'list': [arg, al], 'dict': {arg: al}}[style]
        q = {'select': lambda: s.select_from('t0'), 'update': lambda: s.update('t0').set(z=1).where(i=1), 'delete': lambda: s.delete('t0').from_('t0').where(i=1)}[query]()
        before = freeze(x)
        getattr(q, kind)(x)
        q.on('a', 'b')
        texts[style] = render(q)
        need(freeze(x) == before, 'argument of %s is changed: %r', kind, x)
    need(len(set(texts.values())) == 1, 'styles of join differ: %r', texts)
    return [d, kind, 'several']


def gen_query(src):
    d = src.pick(DIALECTS)
    g = SG(src, d, depth=1, texts=3, plain=60, exprs=8)
    kind = src.n(4)
    q = [lambda: g.select(lo=2, hi=6), g.insert, g.update, g.delete][kind]()
    if kind >= 2:
        q = (q[0], q[1] + (('raw', 'allow_%s_all' % q[0]),))
    return (d, q)


def check_query(spec):
    d, q = spec
    use(d)
    compare_with_model(q, d)
    return [d, q[0], 'several']


NONTRIVIAL = {'several'} | {'style ' + x for x in ('list', 'tuplelist', 'dict', 'odict', 'kwds')}
TESTS = [
    Test('styles', gen_case, check_case, quick=40000, nontrivial=NONTRIVIAL),
    Test('objects', gen_objs, check_objs, quick=10000, nontrivial=NONTRIVIAL),
    Test('join', gen_join, check_join, quick=6000, nontrivial=NONTRIVIAL),
    Test('query', gen_query, check_query, quick=10000, nontrivial=NONTRIVIAL),
    Test('bulk', bulk.generator(*sorted(set(bulk.ASPECTS) - {'delete'})), bulk.check, quick=400),
]
