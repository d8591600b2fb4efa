"""Specs of arguments and queries, their translation into calls of the library
(`b_*`, `build`) and, independently, into the expected syntax tree (`a_*`,
`expect`), written from the documentation of the API.

Specs
  name      'a', 't.a' (bare) | ('N', ((part, quoted), ...), star)
  scalar    None, str, int, bool, float, Decimal, bytes, date, datetime, list, tuple, range
  expr      ('C', text) | ('V', value) | ('R', name) | ('S', query)
            | ('F', name, mods, args)      function
  relation  ('rel', NAME, style, value)
  condition see b_cond
  query     ('select'|'insert'|'update'|'delete', ops) | ('union', '&'|'|', left, right)
"""
import datetime
import decimal
import zlib
from collections import OrderedDict, defaultdict, namedtuple

from .lib import s, rel, Violation, need
from .pbt import Invalid
from .gen import derived
from .parser import flat, node, parse_expr

QUOTE = {'sql': '"', 'mysql': '`', 'postgresql': '"', 'sqlite': '"'}
OPS = {'EQ': '=', 'NE': '!=', 'GT': '>', 'GE': '>=', 'LT': '<', 'LE': '<=', 'LIKE': 'LIKE', 'NOT_LIKE': 'NOT LIKE', 'REGEXP': 'REGEXP',
       'EQUAL_TO': '=', 'NOT_EQUAL_TO': '!=', 'GRATHER_THAN': '>', 'GRATHER_THAN_OR_EQUAL_TO': '>=', 'LESS_THAN': '<', 'LESS_THAN_OR_EQUAL_TO': '<='}
PRECISE = decimal.Context(prec=800, rounding=decimal.ROUND_HALF_EVEN, Emax=10 ** 6, Emin=-10 ** 6)
CENT5 = decimal.Decimal('0.00001')


# ---------------------------------------------------------------- names

def enc_name(n, d):
    """Text of the name as a user would pass it."""
    if isinstance(n, str):
        return n
    q = QUOTE[d]
    out = []
    for text, quoted in n[1]:
        if quoted:
            text = q + text.replace(q, q + q) + q
        out.append(text)
    if n[2]:
        out.append('*')
    return '.'.join(out)


def a_name(n):
    if isinstance(n, str):
        parts = tuple(p for p in n.split('.') if p)
        if parts[-1] == '*':
            return ('star', parts[:-1])
        return ('id', parts)
    parts = tuple(p for p, _ in n[1])
    return ('star', parts) if n[2] else ('id', parts)


def split_name(text, q):
    """Parts of a well formed name (bare or quoted parts), or None."""
    parts, i, n = [], 0, len(text)
    while True:
        if i < n and text[i] == q:
            i += 1
            buf = []
            while True:
                j = text.find(q, i)
                if j < 0:
                    return None
                buf.append(text[i:j])
                i = j + 1
                if text[i:i + 1] == q:
                    buf.append(q)
                    i += 1
                    continue
                break
            part = ''.join(buf)
            if not part:
                return None
            parts.append((part, True))
        else:
            j = i
            while j < n and text[j] not in (q, '.'):
                j += 1
            if j == i:
                return None
            parts.append((text[i:j], False))
            i = j
        if i == n:
            return parts
        if text[i] != '.':
            return None
        i += 1


def as_reference(text, d):
    """AST of the name if a *value* of this text is a reference by design."""
    t = text.strip()
    q = QUOTE[d]
    if not t.startswith(q):
        return None
    parts = split_name(t, q)
    if parts is None or len(parts) > 3:
        return None
    if any(' ' in p for p, quoted in parts if not quoted):
        return None
    names = tuple(p for p, _ in parts)
    if ('*', False) in parts[:-1]:
        return ('oddstar', names)
    if parts[-1] == ('*', False):
        return ('star', names[:-1])
    return ('id', names)


# ---------------------------------------------------------------- values

def a_number(v):
    x = decimal.Decimal(v)
    return '{:f}'.format(x.quantize(CENT5, context=PRECISE))


def a_val(v, d):
    """AST of a value at a place which takes values."""
    if v is None:
        return ('null',)
    if isinstance(v, bool):
        return ('bool', v) if d == 'postgresql' else ('num', str(int(v)))
    if isinstance(v, int):
        return ('num', str(v))
    if isinstance(v, (float, decimal.Decimal)):
        return ('num', a_number(v))
    if isinstance(v, str):
        ref = as_reference(v, d)
        if ref is None:
            return ('str', v)
        if ref[0] == 'oddstar':
            raise Invalid('star inside of a name')
        return ref
    if isinstance(v, bytes):
        return ('str', '\\x' + v.hex()) if d == 'postgresql' else ('blob', v)
    if isinstance(v, (datetime.date, datetime.datetime)):
        return ('str', v.isoformat())
    if isinstance(v, (list, range)):
        items = tuple(a_val(i, d) for i in v)
        return items[0] if len(items) == 1 else ('list', items)
    if isinstance(v, tuple):
        return a_expr(v, d)
    raise TypeError(v)


def a_text(v, d):
    got = a_val(v, d)
    return got[1] if got[0] == 'str' else got


def b_val(v, d):
    """Library argument of a value spec."""
    if isinstance(v, tuple):
        return b_expr(v, d)
    return v


# ---------------------------------------------------------------- expressions

FUNCS = ('avg', 'count', 'max', 'min', 'sum')


def b_pos(x, d):
    """Argument at a place which takes names (columns, functions, ...)."""
    if isinstance(x, str):
        return x
    if isinstance(x, tuple):
        return enc_name(x, d) if x[0] == 'N' else b_expr(x, d)
    return x


def a_pos(x, d):
    if isinstance(x, str):
        return a_name(x)
    if isinstance(x, tuple):
        return a_name(x) if x[0] == 'N' else a_expr(x, d)
    return ('num', str(x))


def b_expr(x, d):
    tag = x[0]
    if tag == 'C':
        return s.C(x[1])
    if tag == 'V':
        v = x[1]
        if isinstance(v, tuple) and v and v[0] == 'gen':
            return s.V(i for i in list(v[1]))
        return s.V(b_val(v, d))
    if tag == 'R':
        return s.R(b_pos(x[1], d))
    if tag == 'S':
        return build(x[1], d)
    if tag == 'F':
        return b_func(x, d)
    raise TypeError(x)


def a_expr(x, d):
    tag = x[0]
    if tag == 'C':
        return parse_expr(x[1], d)
    if tag == 'V':
        v = x[1]
        if isinstance(v, tuple) and v and v[0] == 'gen':
            v = list(v[1])
        return a_val(v, d)
    if tag == 'R':
        return a_pos(x[1], d)
    if tag == 'S':
        return ('sub', expect(x[1], d))
    if tag == 'F':
        return a_func(x, d)
    raise TypeError(x)


def b_func(x, d):
    """('F', name, mods, args)
    mods: tuple of ('distinct', flag) calls, or for group_concat
    ('order_by', style, pairs) and ('separator', text); convert ('to', type)."""
    _, name, mods, args = x
    bargs = [b_pos(a, d) for a in args]
    if name == 'concat':
        f = s.concat(*bargs)
    elif name == 'group_concat':
        f = s.group_concat(*bargs)
        for mod in mods:
            if mod[0] == 'order_by':
                a, k, _ = call_args(mod[1], mod[2], d, b_pos, b_sort)
                r = f.order_by(*a, **k)
            else:
                r = f.separator(mod[1])
            need(r is not None, 'group_concat modifier returns nothing')
            f = r
    elif name == 'convert':
        if mods and mods[0][0] == 'arg':
            f = s.convert(bargs[0], derived(mods[0][1], len(mods[0][1]) % 4))
            mods = mods[1:]
        else:
            f = s.convert(bargs[0])
        for mod in mods:
            f = f.to(derived(mod[1], len(mod[1]) % 4))
    else:
        distinct = False
        if name.endswith('_distinct'):
            distinct = True
        fn = getattr(s, name)
        if not args:
            f = fn()
        elif len(args) == 1 and not (mods and mods[0] == ('aslist',)):
            f = fn(bargs[0])
        else:
            f = fn(bargs if len(args) % 2 else tuple(bargs))
        for mod in mods:
            if mod[0] == 'distinct':
                f = f.distinct(*mod[1])
    return f


def a_func(x, d):
    _, name, mods, args = x
    aargs = tuple(a_pos(a, d) for a in args)
    order, sep, distinct = (), None, False
    fname = name.upper()
    if name == 'group_concat':
        orders = []
        for mod in mods:
            if mod[0] == 'order_by':
                add_orders(orders, call_args(mod[1], mod[2], d, b_pos, b_sort)[2], d)
            else:
                sep = mod[1]
        order = a_orders(orders, d)
        if sep is not None:
            sep = a_text(sep, d)
    elif name == 'convert':
        aargs += (('type', ' '.join(typ_tokens(mods[-1][1]))),)
    elif name != 'concat':
        if name.endswith('_distinct'):
            distinct = True
            fname = fname[:-len('_DISTINCT')]
        for mod in mods:
            if mod[0] == 'distinct':
                distinct = bool(mod[1][0]) if mod[1] else True
        if not args and fname == 'COUNT':
            aargs = (('star', ()),)
    return ('func', fname, distinct, aargs, order, sep)


def typ_tokens(text):
    from .lexer import lex
    return [v for _, v in lex(text.upper(), 'sqlite')]


# ---------------------------------------------------------------- styles of arguments

class Opaque:
    """Sort key of a dictionary as documented: numbers first, then by text."""


def sort_key(k):
    return (0, k, '') if isinstance(k, int) else (1, 0, str(k))


# Lists, tuples and dictionaries of derived types are lists, tuples and dictionaries.
DerivedPair = namedtuple('DerivedPair', 'key value')


class DerivedList(list):
    pass


class DerivedTuple(tuple):
    pass


class DerivedOrderedDict(OrderedDict):
    pass


def call_args(style, pairs, d, bk, bv):
    """-> args, kwds, pairs in the order in which they are applied.

    style: args    each pair one tuple (value None -> bare name, where `bk` positions allow it)
           tuples  each pair one tuple/list
           pair    the only pair as two arguments
           list    list of tuples
           dict, odict, kwds
           X+kwds  the last pair goes to named arguments (X as above)
    """
    if '+' in style:
        first, _ = style.split('+')
        head, tail = pairs[:-1], pairs[-1:]
        a1, k1, o1 = call_args(first, head, d, bk, bv)
        a2, k2, o2 = call_args('kwds', tail, d, bk, bv)
        if k1:
            raise TypeError(style)
        return a1, k2, o1 + o2
    pairs = list(pairs)
    # Tuples and lists are both pairs, and either of them can come first.
    flip = len(repr(pairs))
    derived = flip % 5 == 0

    def pair(i, k, v):
        k, v = bk(k, d), bv(v, d)
        if (i + flip) % 2:
            return DerivedList((k, v)) if derived else [k, v]
        return DerivedPair(k, v) if derived else (k, v)
    if style == 'args':
        out = []
        for i, (k, v) in enumerate(pairs):
            if v is None:
                out.append(bk(k, d))
            else:
                out.append(pair(i, k, v))
        return tuple(out), {}, pairs
    if style == 'tuples':
        return tuple(pair(i, k, v) for i, (k, v) in enumerate(pairs)), {}, pairs
    if style == 'pair':
        (k, v), = pairs
        return (bk(k, d), bv(v, d)), {}, pairs
    if style in ('list', 'tuplelist'):
        items = [pair(i, k, v) for i, (k, v) in enumerate(pairs)]
        return (((DerivedTuple if derived else tuple)(items) if style == 'tuplelist' else DerivedList(items) if derived else items),), {}, pairs
    by_key = OrderedDict()
    for k, v in pairs:
        key = bk(k, d)
        ident = key if isinstance(key, (str, int)) else id(key)
        if not isinstance(key, (str, int)):
            # Objects are keys by identity: two equal custom SQLs are two keys.
            ident = ('obj', len(by_key))
        if ident in by_key:
            # As in a dictionary, the later value replaces the earlier one in place.
            by_key[ident] = (by_key[ident][0], k, v)
        else:
            by_key[ident] = (key, k, v)
    items = list(by_key.values())
    if style == 'odict':
        od = DerivedOrderedDict() if derived else OrderedDict()
        for key, _, v in items:
            od[key] = bv(v, d)
        return (od,), {}, [(k, v) for _, k, v in items]
    ordered = [(k, v) for key, k, v in sorted(items, key=lambda t: sort_key(t[0]))]
    if style == 'dict':
        dd = defaultdict(int) if derived else {}
        for key, _, v in items:
            dd[key] = bv(v, d)
        return (dd,), {}, ordered
    if style == 'kwds':
        kk = {}
        for key, _, v in items:
            kk[key] = bv(v, d)
        return (), kk, ordered
    raise TypeError(style)


def b_alias(v, d):
    return None if v is None else enc_name(v, d)


def b_sort(v, d):
    return derived(v, {'Asc': 2, 'dEsC': 3}.get(v, 0))


# ---------------------------------------------------------------- conditions

def b_rel(x, d):
    """Value of a condition: scalar, expr or ('rel', NAME, style, value)."""
    if isinstance(x, tuple) and x and x[0] == 'rel':
        _, name, style, v = x
        cls = getattr(rel, name)
        if style == 'args':
            return cls(*v)
        if style == 'tuple':
            return cls((DerivedTuple if len(repr(v)) % 7 == 0 else tuple)(v))
        if style == 'gen':
            return cls(i for i in list(v))
        if style == 'list':
            return cls((DerivedList if len(repr(v)) % 7 == 0 else list)(v))
        return cls(b_val(v, d))
    if isinstance(x, tuple) and x and x[0] == 'gen':
        return (i for i in list(x[1]))
    if isinstance(x, tuple) and x and x[0] == 'tup':
        return (DerivedTuple if len(repr(x)) % 4 == 0 else tuple)(x[1])
    if isinstance(x, list) and len(repr(x)) % 7 == 0:
        return DerivedList(x)
    return b_val(x, d)


def a_pair(col, x, d, on=False):
    """AST of one condition."""
    c = a_pos(col, d)

    def value(v):
        if on and isinstance(v, str):
            return a_name(v)
        if isinstance(v, tuple) and v[0] == 'N':
            return a_name(v) if on else a_val(enc_name(v, d), d)
        return a_val(v, d)

    def member(neg, v):
        if isinstance(v, tuple):
            if v[0] == 'S':
                return ('in', neg, c, ('sub', expect(v[1], d)))
            if v[0] == 'V':
                v = list(v[1]) if not (isinstance(v[1], tuple) and v[1] and v[1][0] == 'gen') else list(v[1][1])
                return ('in', neg, c, ('list', tuple(a_val(i, d) for i in v)))
            if v[0] == 'C':
                return parse_in(c, neg, v[1], d)
            raise TypeError(v)
        v = list(v)
        rest = [i for i in v if i is not None]
        null = ('is', neg, c, ('null',))
        if not rest:
            return null
        test = ('in', neg, c, ('list', tuple(a_val(i, d) for i in rest)))
        if len(rest) == len(v):
            return test
        return flat('and' if neg else 'or', [test, null])

    if isinstance(x, tuple) and x and x[0] == 'rel':
        _, name, style, v = x
        if name in ('IN', 'NOT_IN'):
            return member(name == 'NOT_IN', v if style == 'v' else list(v))
        if name in ('IS', 'IS_NOT'):
            return ('is', name == 'IS_NOT', c, value(v))
        return ('cmp', OPS[name], c, value(v))
    if isinstance(x, tuple) and x and x[0] in ('gen', 'tup'):
        return member(False, list(x[1]))
    if x is None:
        return ('is', False, c, ('null',))
    if isinstance(x, (list, range)):
        return member(False, x)
    if isinstance(x, tuple) and x[0] == 'V':
        if x[1] is None:
            return ('is', False, c, ('null',))
        if isinstance(x[1], (list, range)) or (isinstance(x[1], tuple) and x[1] and x[1][0] == 'gen'):
            return member(False, x)
    return ('cmp', '=', c, value(x))


def parse_in(c, neg, text, d):
    from .parser import Parser
    from .lexer import lex
    p = Parser(lex(text, d))
    return ('in', neg, c, p.in_operand())


def b_conds(form, d, call):
    """Calls `call(*args, **kwds)` for the form of conditions.

    ('pairs', style, pairs)
    ('obj', cond)                      one object
    ('objs', (cond, ...), kwpairs)     several Q objects, maybe with named arguments
    ('empty', style)                   nothing
    """
    tag = form[0]
    if tag == 'pairs':
        a, k, _ = call_args(form[1], form[2], d, b_pos, b_rel)
        return call(*a, **k)
    if tag == 'obj':
        return call(b_cond(form[1], d))
    if tag == 'objs':
        _, k, _ = call_args('kwds', form[2], d, b_pos, b_rel)
        return call(*[b_cond(c, d) for c in form[1]], **k)
    if tag == 'empty':
        return {
            'none': lambda: call(),
            'list': lambda: call([]),
            'tuple': lambda: call(()),
            'dict': lambda: call({}),
            'odict': lambda: call(OrderedDict()),
            'q': lambda: call(s.Q()),
            'qq': lambda: call(s.Q(), s.Q()),
            'qand': lambda: call(s.Q() & s.Q()),
            'qor': lambda: call(s.Q() | s.Q()),
            'kwds': lambda: call(**{}),
            'qlist': lambda: call(s.Q([])),
            'qdict': lambda: call(s.Q({})),
        }[form[1]]()
    raise TypeError(form)


CUSTOM = {}     # conditions of a check, by name


def b_cond(c, d):
    """('q', form) | ('&', l, r) | ('|', l, r) | ('not', form) | ('exists', query) | ('C', text)"""
    tag = c[0]
    if tag == 'q':
        return b_conds(c[1], d, s.Q)
    if tag == '&':
        return b_cond(c[1], d) & b_cond(c[2], d)
    if tag == '|':
        return b_cond(c[1], d) | b_cond(c[2], d)
    if tag == 'not':
        return b_conds(c[1], d, s.Not)
    if tag == 'exists':
        return s.exists(b_expr(c[1], d))
    if tag == 'custom':
        return CUSTOM[c[1]]()
    if tag == 'C':
        return s.C(c[1])
    raise TypeError(c)


def a_conds(form, d, on=False):
    """List of ASTs of the conjunction."""
    tag = form[0]
    if tag == 'pairs':
        return [a_pair(k, v, d, on) for k, v in call_args(form[1], form[2], d, b_pos_key, b_none)[2]]
    if tag == 'obj':
        c = a_cond(form[1], d)
        return [] if c is None else [c]
    if tag == 'objs':
        out = [a_cond(c, d) for c in form[1]]
        out = [c for c in out if c is not None]
        return out + [a_pair(k, v, d, on) for k, v in call_args('kwds', form[2], d, b_pos_key, b_none)[2]]
    if tag == 'empty':
        return []
    raise TypeError(form)


def b_pos_key(x, d):
    """Key for ordering only: text of names and custom SQL."""
    if isinstance(x, tuple) and x[0] != 'N':
        return KeyText(x[1] if x[0] == 'C' else repr(x))
    return b_pos(x, d)


class KeyText:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


def b_none(v, d):
    return None


def a_cond(c, d):
    tag = c[0]
    if tag == 'q':
        items = a_conds(c[1], d)
        return conj(items)
    if tag in '&|' and len(tag) == 1:
        left, right = a_cond(c[1], d), a_cond(c[2], d)
        if left is None:
            return right
        if right is None:
            return left
        return flat('and' if tag == '&' else 'or', [left, right])
    if tag == 'not':
        return ('not', conj(a_conds(c[1], d)))
    if tag == 'exists':
        e = a_expr(c[1], d)
        return ('exists', e[1] if e[0] == 'sub' else e)
    if tag == 'C':
        return parse_expr(c[1], d)
    raise TypeError(c)


def conj(items):
    return flat('and', items) if items else None


# ---------------------------------------------------------------- orders

def dedupe_key(x, d):
    """What makes two items the same for the user: same kind and same content."""
    if isinstance(x, str) or (isinstance(x, tuple) and x[0] == 'N'):
        return ('name', enc_name(x, d))
    if isinstance(x, tuple):
        if x[0] == 'F':
            return ('F', x[1].replace('_distinct', ''), a_expr(x, d))
        if x[0] == 'C':
            return ('C', x[1])
        return (x[0], a_expr(x, d))
    return (type(x).__name__, x)


def add_orders(orders, pairs, d):
    for col, sort in pairs:
        key = dedupe_key(col, d)
        direction = (sort or 'asc').upper()
        for item in orders:
            if item[0] == key:
                item[2] = direction
                break
        else:
            orders.append([key, col, direction])


def a_orders(orders, d):
    return tuple((a_pos(col, d), direction) for _, col, direction in orders)


# ---------------------------------------------------------------- queries

EXCLUSIVE = {
    'sql_cache': 'cache', 'sql_no_cache': 'cache',
    'all': 'dup', 'distinct': 'dup', 'distinctrow': 'dup',
}
OPTIONS = ('sql_cache', 'sql_no_cache', 'all', 'distinct', 'distinctrow', 'sql_small_result', 'sql_big_result',
           'sql_buffer_result', 'sql_calc_found_rows', 'straight_join', 'high_priority')
JOINS = {'join': 'JOIN', 'inner_join': 'JOIN', 'left_join': 'LEFT', 'right_join': 'RIGHT', 'full_join': 'FULL'}


def b_table_pairs(op, d):
    return call_args(op[1], op[2], d, b_pos, b_alias)


def start(spec, d):
    """-> new query, number of operations already applied by the entry point"""
    kind, ops = spec[0], spec[1]
    if ops and zlib.crc32(repr(ops[0]).encode('utf-8', 'replace')) % 2:
        op = ops[0]
        if kind == 'select' and op[0] == 'columns':
            a, k, _ = b_table_pairs(op, d)
            return s.select(*a, **k), 1
        if kind == 'select' and op[0] == 'from_':
            a, k, _ = b_table_pairs(op, d)
            return s.select_from(*a, **k), 1
        if kind == 'insert' and op[0] == 'into':
            return s.insert_into(b_pos(op[1], d)), 1
        if kind == 'update' and op[0] == 'table':
            return s.update(b_pos(op[1], d) if op[2] is None else (b_pos(op[1], d), b_alias(op[2], d))), 1
        if kind == 'delete' and op[0] == 'targets':
            return s.delete(*[b_pos(t, d) for t in op[1]]), 1
        if kind == 'delete' and op[0] == 'from_':
            a, k, _ = b_table_pairs(op, d)
            return s.delete_from(*a, **k), 1
    return {'select': lambda: s.select(), 'insert': lambda: s.insert(), 'update': lambda: s.update(None),
            'delete': lambda: s.delete()}[kind](), 0


def b_join_arg(op, d):
    """('join', kind, table, alias, style)"""
    _, kind, table, alias, style = op
    t = b_pos(table, d)
    if style == 'str':
        return t
    a = b_alias(alias, d)
    return {'tuple': lambda: (t, a), 'list': lambda: [t, a], 'dict': lambda: {t: a}}[style]()


def apply_op(q, op, d, kind=None):
    """One call on a query; returns the result of the call."""
    m = op[0]
    if m in ('columns', 'from_', 'from_tables'):
        a, k, _ = b_table_pairs(op, d)
        return getattr(q, m)(*a, **k)
    if m == 'from_table':
        if op[2] is None and op[3]:
            return q.from_table(b_pos(op[1], d))
        return q.from_table(b_pos(op[1], d), b_alias(op[2], d))
    if m == 'targets':
        return q.delete(*[b_pos(t, d) for t in op[1]])
    if m == 'table':
        return q.table(b_pos(op[1], d) if op[2] is None else (b_pos(op[1], d), b_alias(op[2], d)))
    if m == 'into':
        return q.into(b_pos(op[1], d))
    if m == 'join':
        return getattr(q, op[1])(b_join_arg(op, d))
    if m in ('where', 'having', 'on'):
        return b_conds(op[1], d, getattr(q, m))
    if m in ('group_by', 'order_by'):
        a, k, _ = call_args(op[1], op[2], d, b_pos, b_sort)
        return getattr(q, m)(*a, **k)
    if m == 'limit':
        return q.limit(*op[1])
    if m == 'offset':
        return q.offset(op[1])
    if m == 'opt':
        return getattr(q, op[1])(*op[2])
    if m in ('into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by'):
        return getattr(q, m)(op[1])
    if m in ('set', 'values'):
        if op[1] == 'C':
            return getattr(q, m)(s.C(op[2]))
        a, k, _ = call_args(op[1], op[2], d, b_pos, b_val)
        return getattr(q, m)(*a, **k)
    if m == 'odku':
        if op[1] is None:
            return q.on_duplicate_key_update()
        a, k, _ = call_args(op[1], op[2], d, b_pos, b_val)
        if d == 'postgresql':
            a = (enc_name(op[3], d),) + a
        return q.on_duplicate_key_update(*a, **k)
    if m == 'raw':  # any call without arguments, e.g. allow_delete_all
        return getattr(q, op[1])()
    raise TypeError(op)


def build(spec, d, hook=None):
    if spec[0] == 'union':
        left, right = build(spec[2], d, hook), build(spec[3], d, hook)
        return left & right if spec[1] == '&' else left | right
    q, done = start(spec, d)
    for i, op in enumerate(spec[1]):
        if i < done:
            continue
        r = apply_op(q, op, d)
        if r is None:
            raise Violation('%s returns nothing, calls cannot be chained' % op[0])
        if i % 2:
            q = r       # both ways of use: chained and on the same object
        if hook:
            q = hook(q, i) or q
    return q


class Tables:
    def __init__(self):
        self.items = []   # [key, name, alias, joins]

    def add(self, pairs, d):
        for t, alias in pairs:
            key = (dedupe_key(t, d), None if alias is None else enc_name(alias, d))
            if not any(i[0] == key and not i[3] for i in self.items):
                self.items.append([key, t, alias, []])

    def join(self, op, d):
        key = (dedupe_key(op[2], d), None if op[3] is None else enc_name(op[3], d))
        self.items[-1][3].append([JOINS[op[1]], key, op[2], op[3], []])

    def on(self, form, d):
        ons = self.items[-1][3][-1][4]
        if form[0] == 'empty':
            return
        pairs = ()
        if form[0] in ('obj', 'objs'):
            for c in (form[1:2] if form[0] == 'obj' else form[1]):
                tree = a_cond(c, d)
                if tree is not None:
                    ons.append((('obj', repr(c)), tree))
            if form[0] == 'objs':
                pairs = call_args('kwds', form[2], d, b_pos_key, b_none)[2]
        else:
            pairs = call_args(form[1], form[2], d, b_pos_key, b_none)[2]
        for col, val in pairs:
            key = on_key(col, val, d)
            if not any(mirrored(key, k) for k, _ in ons):
                ons.append((key, a_pair(col, val, d, on=True)))

    def ast(self, d):
        out = []
        for _, t, alias, joins in self.items:
            groups = []
            for j in joins:
                for g in groups:
                    if g[0][1] == j[1] and len(g[0][4]) == len(j[4]) and all(mirrored(x[0], y[0]) for x, y in zip(g[0][4], j[4])):
                        g.append(j)
                        break
                else:
                    groups.append([j])
            res = []
            for g in groups:
                kinds = {j[0] for j in g}
                if 'JOIN' in kinds:
                    res.append(['JOIN'] + g[0][1:])
                elif len(kinds) == 1:
                    res.append(g[0])
                else:
                    # No database accepts one alias twice, so only the obvious order is expected.
                    at = [i for i, j in enumerate(joins) if any(j is k for k in g)]
                    if len(g) > len(kinds) or at[-1] - at[0] >= len(at):
                        raise Invalid('the same left and right joins mixed with other ones')
                    res.extend(g)
            out.append((a_pos(t, d), None if alias is None else a_name(alias),
                        tuple((k, a_pos(n, d), None if al is None else a_name(al), canon_on([a for _, a in ons])) for k, _, n, al, ons in res)))
        return tuple(out)


MIRROR = {'=': '=', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}


def typed(v, d):
    if isinstance(v, tuple):
        return dedupe_key(v, d)
    if isinstance(v, (list, range)):
        return ('list', tuple(typed(i, d) for i in v))
    return (type(v).__name__, v)


def on_key(col, x, d):
    """(operator, column, value) such that equal keys are the same condition for the user."""
    c = dedupe_key(col, d)
    op, v = '=', x
    if isinstance(x, tuple) and x[0] == 'rel':
        op, v = OPS.get(x[1], x[1]), x[3]
        if x[2] != 'v':
            v = list(v)
        if op in ('IN', 'NOT_IN') and isinstance(v, range):
            v = list(v)
    elif isinstance(x, tuple) and x[0] in ('gen', 'tup'):
        op, v = 'IN', list(x[1])
    elif isinstance(x, (list, range)):
        op, v = 'IN', list(x)
    elif x is None:
        op = 'IS'
    if isinstance(v, str):
        return ('on', op, c, ('name', v))
    return ('on', op, c, typed(v, d))


def mirrored(x, y):
    """Are the join conditions the same, maybe written from the other side?"""
    if x == y:
        return True
    return (x[0] == 'on' == y[0] and x[3][0] == 'name' and x[1] in MIRROR and MIRROR[x[1]] == y[1]
            and x[2] == y[3] and x[3] == y[2])


def canon_on(conds):
    """Conjunction in which comparisons are written from one side and none is repeated."""
    out = []
    for c in conds:
        for x in (c[1] if c[0] == 'and' else (c,)):
            if x[0] == 'cmp' and x[1] in MIRROR and (repr(x[2]), x[1]) > (repr(x[3]), MIRROR[x[1]]):
                x = ('cmp', MIRROR[x[1]], x[3], x[2])
            if x not in out:
                out.append(x)
    return conj(out)


def ambiguous_on(x):
    """Is there a join condition with an expression, which can be the same as another one in more ways?"""
    def exprs(y):
        return isinstance(y, tuple) and (y[:1] in (('C',), ('R',), ('V',), ('F',), ('q',)) or any(exprs(i) for i in y))
    if not isinstance(x, tuple):
        return False
    if x[:1] == ('on',):
        return exprs(x)
    return any(ambiguous_on(i) for i in x)


def loosen(a):
    """Normalised tree in which joins of the same meaning are listed once."""
    if not isinstance(a, tuple) or not a:
        return a
    if a[0] in ('select', 'update', 'delete') and len(a) == 2 and isinstance(a[1], tuple):
        st = {}
        for k, v in a[1]:
            if k == 'tables':
                v = tuple((loosen(n), al, _once(joins)) for n, al, joins in v)
            else:
                v = loosen(v)
            st[k] = v
        return node(a[0], st)
    return tuple(loosen(i) for i in a)


def _once(joins):
    groups = []
    for kind, n, al, on in joins:
        item = (loosen(n), al, tuple(sorted(map(repr, on[1] if on and on[0] == 'and' else (on,)))))
        for g in groups:
            if g[0] == item:
                g[1].append(kind)
                break
        else:
            groups.append((item, [kind]))
    return tuple((('JOIN',) if 'JOIN' in kinds else tuple(sorted(set(kinds))), item) for item, kinds in groups)


def normalize(a):
    """Normal form of a parsed statement (join conditions, order of assignments to one column)."""
    if not isinstance(a, tuple) or not a:
        return a
    if a[0] in ('select', 'insert', 'update', 'delete') and len(a) == 2 and isinstance(a[1], tuple):
        st = {}
        for k, v in a[1]:
            if k in ('conflict_set_keyword', 'enclosed_misplaced'):
                continue        # known findings, judged by C15 and C08
            if k == 'options':
                v = tuple(sorted(v))
            elif k in ('tables', 'targets', 'table'):
                v = tuple((normalize(n), al, tuple((jk, normalize(jn), jal, None if on is None else canon_on([normalize(on)])) for jk, jn, jal, on in joins))
                          for n, al, joins in v)
            elif k in ('set', 'on_duplicate', 'on_conflict'):
                v = effective(tuple((normalize(c), normalize(x)) for c, x in v))
            else:
                v = normalize(v)
            st[k] = v
        return node(a[0], st)
    return tuple(normalize(i) for i in a)


def expect(spec, d):
    """Expected AST of a query."""
    kind = spec[0]
    if kind == 'union':
        return ('union', 'UNION ALL' if spec[1] == '&' else 'UNION', expect(spec[2], d), expect(spec[3], d))
    return {'select': expect_select, 'insert': expect_insert, 'update': expect_update, 'delete': expect_delete}[kind](spec[1], d)


def norm_union(a, d):
    """Uniform chains are associative; nested unions may be written as SELECT * FROM (...)."""
    if a[0] != 'union':
        return a
    op = a[1]

    def leaves(x):
        if x[0] == 'union' and x[1] == op:
            return leaves(x[2]) + leaves(x[3])
        return [norm_union(x, d)]
    # A mixed left operand is evaluated first anyway; a mixed right operand is a leaf.
    return (op, tuple(leaves(a)))


def add_columns(cols, pairs, d):
    for c, alias in pairs:
        key = (dedupe_key(c, d), None if alias is None else enc_name(alias, d))
        if all(k != key for k, _, _ in cols):
            cols.append((key, c, alias))


def expect_select(ops, d):
    cols, tables, where, having = [], Tables(), [], []
    group, order, limit, offset = [], [], None, None
    options, outfile, for_update = {}, {}, False
    for op in ops:
        m = op[0]
        if m == 'columns':
            add_columns(cols, call_args(op[1], op[2], d, b_pos_key, b_none)[2], d)
        elif m in ('from_', 'from_tables'):
            tables.add(call_args(op[1], op[2], d, b_pos_key, b_none)[2], d)
        elif m == 'from_table':
            tables.add([(op[1], op[2])], d)
        elif m == 'join':
            tables.join(op, d)
        elif m == 'on':
            tables.on(op[1], d)
        elif m == 'where':
            where += a_conds(op[1], d)
        elif m == 'having':
            having += a_conds(op[1], d)
        elif m == 'group_by':
            add_orders(group, call_args(op[1], op[2], d, b_pos_key, b_none)[2], d)
        elif m == 'order_by':
            add_orders(order, call_args(op[1], op[2], d, b_pos_key, b_none)[2], d)
        elif m == 'limit':
            a = op[1]
            if a[0] is None:
                limit = offset = None
            else:
                limit = a[0]
                if len(a) > 1 and a[1] is not None:
                    offset = a[1] or None
        elif m == 'offset':
            offset = op[1] or None
        elif m == 'opt':
            flag = bool(op[2][0]) if op[2] else True
            if op[1] == 'for_update':
                for_update = flag
            else:
                options[EXCLUSIVE.get(op[1], op[1])] = op[1] if flag else None
        elif m in ('into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by'):
            outfile[m] = op[1]
        elif m == 'raw':
            pass
        else:
            raise TypeError(op)
    st = {'options': tuple(sorted(o.upper() for o in options.values() if o)),
          'columns': tuple((a_pos(c, d), None if alias is None else a_name(alias)) for _, c, alias in cols) or ((('star', ()), None),)}
    if tables.items:
        st['tables'] = tables.ast(d)
    if where:
        st['where'] = conj(where)
    if having:
        st['having'] = conj(having)
    if group:
        st['group'] = a_orders(group, d)
    if order:
        st['order'] = a_orders(order, d)
    if limit is not None:
        st['limit'] = limit
    if offset is not None:
        st['offset'] = offset
    if 'into_outfile' in outfile:
        st['outfile'] = a_text(outfile['into_outfile'], d)
        for m, key in (('fields_terminated_by', 'fields'), ('lines_terminated_by', 'lines'), ('optionally_enclosed_by', 'enclosed')):
            if m in outfile:
                st[key] = a_text(outfile[m], d)
    if for_update:
        st['for_update'] = True
    return node('select', st)


def add_values(vals, pairs, d):
    """Assignments in order; a repetition of the last value of the column is not listed again."""
    for col, v in pairs:
        vals.append((col, v))


def a_assigns(vals, d):
    return tuple(parse_assign(v, d) if col is None else (a_pos(col, d), a_val(v, d)) for col, v in vals)


def parse_assign(text, d):
    from .parser import Parser
    from .lexer import lex
    p = Parser(lex(text, d))
    return p.assignment()


def effective(assigns):
    """What assignments do: last value of every column, in order of the first mention."""
    out, last, groups = OrderedDict(), OrderedDict(), {}
    for col, v in assigns:
        out[col] = v
        last.pop(col, None)
        last[col] = v
    # Two names can be the same column (with or without a table), then it matters which one is the last.
    for col in last:
        if isinstance(col, tuple) and col[0] == 'id':
            groups.setdefault(col[1][-1].lower(), []).append(col)
    return (tuple(out.items()), tuple(tuple(g) for _, g in sorted(groups.items()) if len(g) > 1))


def expect_insert(ops, d):
    tables, rows, ignore, odku, replace, target = Tables(), [], False, [], False, None
    for op in ops:
        m = op[0]
        if m == 'into':
            tables.add([(op[1], None)], d)
        elif m == 'values':
            rows.append(call_args(op[1], op[2], d, b_pos_key, b_none)[2])
        elif m == 'opt':
            ignore = bool(op[2][0]) if op[2] else True
        elif m == 'odku':
            if d == 'sqlite':
                replace = True
            elif d in ('mysql', 'postgresql'):
                if op[1] is not None:
                    odku += call_args(op[1], op[2], d, b_pos_key, b_none)[2]
                    if d == 'postgresql':
                        target = op[3]
        elif m == 'raw':
            pass
        else:
            raise TypeError(op)
    st = {'keyword': 'REPLACE' if replace else 'INSERT', 'table': tables.ast(d)}
    if ignore:
        st['ignore'] = True
    names = sorted({enc_name(k, d) for row in rows for k, _ in row})
    by_text = {enc_name(k, d): k for row in rows for k, _ in row}
    st['columns'] = tuple(a_name(by_text[n]) for n in names)
    out = []
    for row in rows:
        vals = {enc_name(k, d): v for k, v in row}
        out.append(tuple(a_val(vals.get(n), d) for n in names))
    st['rows'] = tuple(out)
    if odku:
        if d == 'mysql':
            st['on_duplicate'] = effective(a_assigns(odku, d))
        else:
            st['conflict_target'] = (a_name(target),)
            st['on_conflict'] = effective(a_assigns(odku, d))
    return node('insert', st)


def expect_update(ops, d):
    tables, vals, where, ignore = Tables(), [], [], False
    for op in ops:
        m = op[0]
        if m == 'table':
            tables.add([(op[1], op[2])], d)
        elif m == 'join':
            tables.join(op, d)
        elif m == 'on':
            tables.on(op[1], d)
        elif m == 'set':
            if op[1] == 'C':
                vals.append((None, op[2]))
            else:
                add_values(vals, call_args(op[1], op[2], d, b_pos_key, b_none)[2], d)
        elif m == 'where':
            where += a_conds(op[1], d)
        elif m == 'opt':
            ignore = bool(op[2][0]) if op[2] else True
        elif m == 'raw':
            pass
        else:
            raise TypeError(op)
    st = {'tables': tables.ast(d), 'set': effective(a_assigns(vals, d))}
    if ignore:
        st['ignore'] = True
    if where:
        st['where'] = conj(where)
    return node('update', st)


def expect_delete(ops, d):
    targets, tables, where, ignore = Tables(), Tables(), [], False
    for op in ops:
        m = op[0]
        if m == 'targets':
            targets.add([(t, None) for t in op[1]], d)
        elif m in ('from_', 'from_tables'):
            tables.add(call_args(op[1], op[2], d, b_pos_key, b_none)[2], d)
        elif m == 'from_table':
            tables.add([(op[1], op[2])], d)
        elif m == 'join':
            tables.join(op, d)
        elif m == 'on':
            tables.on(op[1], d)
        elif m == 'where':
            where += a_conds(op[1], d)
        elif m == 'opt':
            ignore = bool(op[2][0]) if op[2] else True
        elif m == 'raw':
            pass
        else:
            raise TypeError(op)
    st = {'tables': tables.ast(d)}
    if targets.items:
        st['targets'] = targets.ast(d)
    if ignore:
        st['ignore'] = True
    if where:
        st['where'] = conj(where)
    return node('delete', st)
