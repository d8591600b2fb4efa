"""Generators of query specs (see model.py)."""
from . import gen
from .model import FUNCS, OPTIONS

RAW_EXPR = ['raw', 'raw2', 'now()', 'f(x)', 'a.b', 'ifnull(x, 42)', 'x + 1', 'CURRENT_DATE', 'f(g(1), h)']
RAW_COND = ['raw = 1', 'x > y', 'raw IS NULL', 'f(x)', 'raw', 'x = 1 + 2']
RAW_TABLE = ['raw_t', 'db.raw_t']
RAW_ASSIGN = ['raw = raw + 1', 'x = now()', 'y = 5']
CMP = ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'EQUAL_TO', 'NOT_EQUAL_TO', 'GRATHER_THAN', 'GRATHER_THAN_OR_EQUAL_TO', 'LESS_THAN',
       'LESS_THAN_OR_EQUAL_TO')
SORTS = [None, 'asc', 'desc', 'ASC', 'DESC', 'Asc', 'dEsC']


class G:
    upserts = True

    def __init__(self, src, d, depth=2, plain=80, texts=30, exprs=15):
        self.src = src
        self.d = d
        self.depth = depth
        self.plain = plain      # % of plain names
        self.texts = texts      # % of nasty texts among strings
        self.exprs = exprs      # % of expressions among names and values

    # -- names and values
    def name(self, dots=True):
        return gen.name(self.src, self.plain, dots=dots)

    def alias(self):
        return gen.name(self.src, self.plain, dots=False)

    def table(self):
        src = self.src
        if src.n(100) < self.plain:
            return src.pick(['t', 'u', 'v', 'db.t', 'w'])
        return gen.name(src, 30)

    def string(self):
        src = self.src
        if src.n(100) >= self.texts:
            return src.pick(['x', 'y', 'abc', '', 'a', 'b', '1', 'M%'])
        return gen.text(src)

    def scalar(self, bytes_=False, bool_=True, none=True):
        src = self.src
        return src.weighted(
            (30, lambda: gen.integer(src)),
            (40, self.string),
            (8 if none else 0, None),
            (8 if bool_ else 0, lambda: bool(src.n(2))),
            (5, lambda: gen.simple_float(src)),
            (3, lambda: gen.any_decimal(src)),
            (3, lambda: gen.date(src)),
            (3, lambda: gen.datetime_(src)),
            (1 if bool_ else 0, lambda: gen.twin(src)),
            (5 if bytes_ else 0, lambda: gen.bytes_(src)),
        )

    def members(self, none=20, lo=1):
        src = self.src
        if src.chance(2):
            n = src.pick([x for x in gen.SHORT_LENGTHS if 5 < x < 260])
            step = src.pick([1, -1, 7])
            return [i * step for i in range(n)]
        kind = src.n(3)

        def one():
            if none and src.chance(none):
                return None
            if kind == 0:
                return gen.integer(src)
            if kind == 1:
                return self.string()
            return self.scalar(none=False)
        return src.many(one, lo, 5, 60)

    # -- expressions
    def sub(self):
        """Subquery; the number in it makes it different from any other one."""
        src = self.src
        uid = 10000 + len(src.rec)
        depth, self.depth = self.depth, self.depth - 1
        ops = [('columns', 'args', ((('V', uid), None),))]
        if src.chance(20):
            ops = [('columns', 'args', (('a', None),)), ('where', ('pairs', 'pair', (('uid', uid),)))]
        if src.chance(70):
            ops.insert(1, ('from_', 'args', ((self.table(), None),)))
        if src.chance(40):
            ops.append(('where', self.form(simple=True)))
        if src.chance(20):
            ops.append(('order_by', 'args', ((self.name(), src.pick(SORTS)),)))
        if src.chance(20):
            ops.append(('limit', (src.between(0, 20),)))
        self.depth = depth
        q = ('select', tuple(ops))
        if src.chance(15) and self.depth > 1:
            q2 = ('select', (('columns', 'args', ((('V', uid + 50000), None),)),))
            q1 = ('select', (('columns', 'args', ((('V', uid), None),)),))
            q = ('union', src.pick('&|'), q1, q2)
        return q

    def func(self):
        src = self.src
        depth, self.depth = self.depth, self.depth - 1
        kind = src.n(10)
        if kind < 6:
            name = src.pick(FUNCS)
            if src.chance(25):
                name += '_distinct'
            args = [self.pos()]
            mods = []
            if src.chance(25):
                mods.append(('distinct', src.pick([(), (True,), (False,), (1,), (0,)])))
            if name.startswith('count'):
                if src.chance(30):
                    args = []
                elif src.chance(15):
                    args = src.many(self.pos, 2, 3)
                args = [a for a in args if a != 0]
            f = ('F', name, tuple(mods), tuple(args))
        elif kind < 8:
            f = ('F', 'concat', (), tuple(src.many(self.pos, 1, 4, 60)))
        elif kind < 9:
            mods = []
            if src.chance(50):
                mods.append(self.orders('order_by', nokwds=True))
            if src.chance(60):
                sep = self.string()
                mods.append(('separator', sep))
            f = ('F', 'group_concat', tuple(mods), tuple(src.many(self.pos, 1, 3, 40)))
        else:
            typ = src.pick(['unsigned', 'CHAR', 'decimal(10, 2)', 'signed', 'char(10) character set utf8'])
            f = ('F', 'convert', ((src.pick(['arg', 'to']), typ),), (self.pos(),))
        self.depth = depth
        return f

    def expr(self):
        """Any expression object."""
        src = self.src
        return src.weighted(
            (30, lambda: ('C', src.pick(RAW_EXPR))),
            (25, lambda: ('V', self.scalar(bytes_=True))),
            (15, lambda: ('R', self.name())),
            (25 if self.depth > 0 else 0, self.func),
            (10 if self.depth > 0 else 0, lambda: ('S', self.sub())),
        )

    def pos(self):
        """Anything for a place which takes names."""
        src = self.src
        if src.chance(self.exprs):
            return self.expr()
        if src.chance(6):
            return src.n(20)
        return self.name()

    def condcol(self):
        src = self.src
        if src.chance(self.exprs // 2):
            return src.weighted(
                (30, lambda: ('C', src.pick(RAW_EXPR[:4]))),
                (30, lambda: ('R', self.name())),
                (20 if self.depth > 0 else 0, self.func),
            )
        return self.name()

    # -- conditions
    def condval(self):
        src = self.src
        return src.weighted(
            (40, self.scalar),
            (12, lambda: self.members()),
            (2, lambda: ('tup', tuple(self.members()))),
            (2, lambda: ('gen', tuple(self.members()))),
            (2, lambda: range(src.n(5), 5 + src.between(1, 3))),
            (40, self.relation),
            (self.exprs // 2, self.expr),
        )

    def relation(self):
        src = self.src
        return src.weighted(
            (40, lambda: ('rel', src.pick(CMP[:2]), 'v', self.scalar(none=False))),
            (40, lambda: ('rel', src.pick(CMP), 'v', self.scalar(none=False, bool_=False))),
            (10, lambda: ('rel', src.pick(('LIKE', 'NOT_LIKE', 'REGEXP')), 'v', self.string())),
            (30, lambda: self.inrel()),
            (10, lambda: ('rel', src.pick(('IS', 'IS_NOT')), 'v', src.pick([None, True, False]))),
            (self.exprs // 2, lambda: ('rel', src.pick(CMP), 'v', self.expr())),
        )

    def inrel(self):
        src = self.src
        name = src.pick(('IN', 'NOT_IN'))
        style = src.pick(['v', 'list', 'tuple', 'gen', 'args', 'range', 'sub'])
        if style == 'range':
            return ('rel', name, 'v', range(src.n(5), 5 + src.between(1, 3)))
        if style == 'sub':
            if self.depth > 0:
                return ('rel', name, 'v', ('S', self.sub()))
            return ('rel', name, 'v', ('C', '(1, 2)'))
        if style == 'args':
            return ('rel', name, 'args', tuple(self.members(lo=2)))
        if style == 'v':
            return ('rel', name, 'v', list(self.members()))
        return ('rel', name, style, tuple(self.members()))

    def two_style(self, pairs):
        """Style for calls which need pairs."""
        src = self.src
        n = len(pairs)
        names = [isinstance(k, str) or k[0] == 'N' for k, _ in pairs]
        kwok = [ok and k != 'self' and k != ('N', (('self', False),), False) for ok, (k, _) in zip(names, pairs)]
        dictable = all(ok or k[0] == 'C' for ok, (k, _) in zip(names, pairs))
        styles = ['list', 'tuplelist']
        if n == 1:
            styles += ['pair'] * 3
        if n >= 2:
            styles += ['tuples'] * 2
        if all(kwok):
            styles += ['kwds'] * 3
        if dictable:
            styles += ['dict', 'dict', 'odict']
        if n >= 2 and kwok[-1]:
            styles += ['list+kwds']
            if n == 2:
                styles += ['pair+kwds']
            if n >= 3:
                styles += ['tuples+kwds']
            if dictable:
                styles += ['dict+kwds', 'odict+kwds']
        return src.pick(styles)

    def one_style(self, pairs, nokwds=False):
        """Style for calls whose items are single names with an optional second part."""
        src = self.src
        n = len(pairs)
        names = [isinstance(k, str) or (isinstance(k, tuple) and k[0] == 'N') for k, _ in pairs]
        kwok = [ok and k != 'self' and k != ('N', (('self', False),), False) for ok, (k, _) in zip(names, pairs)]
        dictable = all(ok or isinstance(k, int) or k[0] == 'C' for ok, (k, _) in zip(names, pairs))
        styles = ['args'] * 4 + ['tuples']
        if dictable and not nokwds:
            styles += ['dict', 'odict']
            if n >= 2 and kwok[-1]:
                styles += ['dict+kwds', 'odict+kwds']
        if dictable and nokwds:
            styles += ['dict', 'odict']
        if all(kwok) and not nokwds:
            styles += ['kwds']
        if n >= 2 and kwok[-1] and not nokwds:
            styles += ['args+kwds']
        return src.pick(styles)

    def pairs(self, lo=1, hi=3, on=False):
        src = self.src

        def one():
            if on:
                return (self.condcol() if src.chance(20) else self.name(), self.onval())
            return (self.condcol(), self.condval())
        return tuple(src.many(one, lo, hi, 45))

    def onval(self):
        src = self.src
        return src.weighted(
            (60, self.onname),
            (20, lambda: ('rel', src.pick(CMP), 'v', self.onname())),
            (8, lambda: gen.integer(src)),
            (3, None),
            (3, lambda: ('rel', src.pick(CMP), 'v', gen.integer(src))),
            (3, lambda: list(self.members())),
            (3, self.inrel),
            (3, lambda: ('C', src.pick(RAW_EXPR))),
            (2, lambda: ('V', self.string())),
            (2, lambda: ('R', self.name())),
        )

    def onname(self):
        # a plain text is a column here
        return self.src.pick(['a', 'b', 't.a', 'u.b', 'u.id', 't.id', 'v.c', 'id'])

    def form(self, simple=False, on=False):
        """Argument(s) of one where/having/on call."""
        src = self.src
        if simple or src.chance(65):
            pairs = self.pairs(on=on)
            return ('pairs', self.two_style(pairs), pairs)
        if on:
            return ('obj', ('C', src.pick(RAW_COND)))
        return src.weighted(
            (50, lambda: ('obj', self.cond(src.between(0, 3)))),
            (15, lambda: self.objs()),
            (8, lambda: ('empty', src.pick(['none', 'list', 'tuple', 'dict', 'odict', 'q', 'qq', 'qand', 'qor', 'kwds', 'qlist', 'qdict']))),
        )

    def objs(self):
        src = self.src
        conds = tuple(src.many(lambda: self.cond(0) if src.chance(20) else self.qtree(src.n(3)), 1, 3, 50))
        if not any(c[0] in ('q', '&', '|') for c in conds):
            conds += (self.qtree(0),)
        kw = ()
        if src.chance(50):
            kw = tuple(src.many(lambda: (src.pick(gen.PLAIN), self.condval()), 1, 2))
        return ('objs', conds, kw)

    def qtree(self, size):
        """Q objects combined by & and |."""
        src = self.src
        if size <= 0:
            if src.chance(6):
                return ('q', ('empty', src.pick(['none', 'list', 'dict', 'q'])))
            if src.chance(12) and self.depth > 0:
                return ('q', ('obj', self.cond(0)))
            pairs = self.pairs()
            return ('q', ('pairs', self.two_style(pairs), pairs))
        left = src.n(size)
        return (src.pick('&|'), self.qtree(left), self.qtree(size - 1 - left))

    def cond(self, size):
        src = self.src
        return src.weighted(
            (50, lambda: self.qtree(size)),
            (20 if self.depth > 0 else 0, self.not_),
            (10 if self.depth > 0 else 0, lambda: ('exists', ('S', self.sub()))),
            (10, lambda: ('C', src.pick(RAW_COND))),
        )

    def not_(self):
        src = self.src
        depth, self.depth = self.depth, self.depth - 1
        form = self.form()
        if form[0] == 'empty' or not _nonempty(form):
            form = ('pairs', 'pair', (('a', 1),))
        self.depth = depth
        return ('not', form)

    # -- orders
    def orders(self, method, nokwds=False):
        src = self.src
        pairs = tuple(src.many(lambda: (self.pos(), src.pick(SORTS)), 1, 3, 50))
        return (method, self.one_style(pairs, nokwds), pairs)

    # -- select
    def columns(self):
        src = self.src
        def one():
            if src.chance(7):
                return (src.pick(['*', '*', 't.*', 'db.t.*']), None)
            return (self.pos(), self.alias() if src.chance(30) else None)
        pairs = tuple(src.many(one, 1, 4, 50))
        return ('columns', self.one_style(pairs), pairs)

    def table_item(self, subs=True):
        src = self.src
        if subs and self.depth > 0 and src.chance(10):
            return (('S', self.sub()), self.alias())
        if src.chance(4):
            return (('C', src.pick(RAW_TABLE)), None)
        return (self.table(), self.alias() if src.chance(30) else None)

    def from_(self):
        src = self.src
        if src.chance(20):
            t, a = self.table_item()
            return ('from_table', t, a, bool(src.n(2)))
        pairs = tuple(src.many(self.table_item, 1, 3, 25))
        return (src.pick(['from_', 'from_tables']), self.one_style(pairs), pairs)

    def join(self, kinds=('join', 'inner_join', 'left_join', 'right_join')):
        src = self.src
        kind = src.pick(list(kinds) + (['full_join'] if self.d == 'postgresql' and 'full' not in kinds and len(kinds) == 4 else []))
        if self.depth > 0 and src.chance(8):
            return ('join', kind, ('S', self.sub()), self.alias(), src.pick(['tuple', 'list', 'dict']))
        t = self.table()
        if src.chance(35):
            return ('join', kind, t, self.alias(), src.pick(['tuple', 'list', 'dict']))
        return ('join', kind, t, None, src.pick(['str', 'str', 'tuple', 'dict']))

    def option(self):
        src = self.src
        return ('opt', src.pick(OPTIONS + ('for_update',)), src.pick([(), (), (True,), (False,), (1,), (0,), (None,)]))

    def outfile(self):
        src = self.src
        return (src.pick(['into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by']), self.string())

    def limit(self):
        src = self.src
        num = lambda: src.weighted((5, lambda: src.n(30)), (1, lambda: abs(gen.integer(src))), (0.4, lambda: -gen.integer(src)))
        return src.weighted(
            (20, lambda: ('limit', (num(),))),
            (10, lambda: ('limit', (num(), num()))),
            (4, lambda: ('limit', (num(), None))),
            (3, lambda: ('limit', (None,))),
            (2, lambda: ('limit', (None, num()))),
            (10, lambda: ('offset', num())),
            (3, lambda: ('offset', None)),
        )

    def select(self, lo=1, hi=10, cont=80, weights=None):
        """History of SELECT calls."""
        src = self.src
        ops = []
        state = {'tables': 0, 'joins': 0}
        w = dict(columns=20, from_=15, join=15, on=15, where=20, having=6, group_by=8, order_by=10, limit=8, option=8, outfile=3)
        w.update(weights or {})

        def one():
            pairs = []
            for key in ('columns', 'where', 'order_by', 'group_by', 'limit', 'having', 'option', 'outfile', 'from_', 'join', 'on'):
                if key == 'join' and not state['tables']:
                    continue
                if key == 'on' and not state['joins']:
                    continue
                if w[key]:
                    pairs.append((w[key], lambda key=key: self._op(key)))
            op = src.weighted(*pairs)
            if op[0].startswith('from_'):
                state['tables'] += 1
                state['joins'] = 0
            if op[0] == 'join':
                state['joins'] += 1
            ops.append(op)
            return op
        src.many(one, lo, hi, cont)
        return ('select', tuple(fix_joins(ops)))

    def _op(self, key):
        if key in ('group_by', 'order_by'):
            return self.orders(key)
        if key in ('where', 'having'):
            return (key, self.form())
        if key == 'on':
            return ('on', self.form(on=True))
        return getattr(self, key)()

    # -- other queries
    def assignments(self, lo=1, hi=4):
        src = self.src
        return tuple(src.many(lambda: (self.name(dots=src.chance(20)), self.assigned()), lo, hi, 50))

    def assigned(self):
        src = self.src
        if src.chance(self.exprs):
            return self.expr()
        return self.scalar(bytes_=True)

    def insert(self, odku=20):
        src = self.src
        ops = [('into', self.table())]

        def row():
            pairs = self.assignments()
            return ('values', self.two_style(pairs), pairs)
        ops += src.many(row, 1, 4, 50)
        if src.chance(20):
            ops.append(('opt', 'ignore', src.pick([(), (True,), (False,)])))
        if odku and src.chance(odku):
            ops.append(self.odku())
        return ('insert', tuple(ops))

    def odku(self, hi=4):
        if self.d == 'sqlite':
            return ('odku', None)
        pairs = self.assignments(1, hi)
        style = self.two_style(pairs)
        if self.d == 'postgresql':
            style = {'pair': 'list', 'pair+kwds': 'list+kwds'}.get(style, style)
        return ('odku', style, pairs, self.name())

    def update(self, where=85, joins=20):
        src = self.src
        ops = [('table', self.table(), self.alias() if src.chance(20) else None)]
        if joins and src.chance(joins):
            for _ in range(src.between(1, 2)):
                ops.append(self.join(('join', 'inner_join', 'left_join', 'right_join', 'full')[:4] if False else ('join', 'left_join', 'right_join')))
                ops += src.many(lambda: ('on', self.form(on=True)), 1, 2, 20)
        tail = []

        def set_():
            if src.chance(8):
                return ('set', 'C', src.pick(RAW_ASSIGN))
            pairs = self.assignments()
            return ('set', self.two_style(pairs), pairs)
        tail += src.many(set_, 1, 3, 35)
        if src.chance(where):
            tail += src.many(lambda: ('where', self.form()), 1, 3, 40)
        if src.chance(20):
            tail.append(('opt', 'ignore', src.pick([(), (True,), (False,)])))
        return ('update', tuple(ops + src.shuffled(tail)))

    def delete(self, where=85, joins=20):
        src = self.src
        ops = []
        if src.chance(20):
            ops.append(('targets', tuple(src.many(self.table, 1, 2))))
        ops.append(self.from_())
        if joins and src.chance(joins):
            for _ in range(src.between(1, 2)):
                ops.append(self.join(('join', 'left_join', 'right_join')))
                ops += src.many(lambda: ('on', self.form(on=True)), 1, 2, 20)
        tail = []
        if src.chance(where):
            tail += src.many(lambda: ('where', self.form()), 1, 3, 40)
        if src.chance(20):
            tail.append(('opt', 'ignore', src.pick([(), (True,), (False,)])))
        return ('delete', tuple(ops + src.shuffled(tail)))


def fix_joins(ops):
    """join/on need a table/join of the last table; drop those which have none."""
    out, tables, joins = [], 0, 0
    for op in ops:
        if op[0].startswith('from_'):
            tables, joins = 1, 0
        elif op[0] == 'join':
            if not tables:
                continue
            joins += 1
        elif op[0] == 'on' and not joins:
            continue
        out.append(op)
    return out


def _nonempty(form):
    """Has the form of conditions surely some condition?"""
    if form[0] == 'pairs':
        return True
    if form[0] == 'obj':
        return _nonempty_cond(form[1])
    if form[0] == 'objs':
        return bool(form[2]) or any(_nonempty_cond(c) for c in form[1])
    return False


def _nonempty_cond(c):
    if c[0] == 'q':
        return _nonempty(c[1])
    if c[0] in ('&', '|'):
        return _nonempty_cond(c[1]) or _nonempty_cond(c[2])
    return True
