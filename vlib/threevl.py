"""Evaluation of condition specs (see model.py) on rows, in the three-valued logic of SQL."""
from .model import call_args, b_none


def not3(x):
    return None if x is None else not x


def and3(items):
    out = True
    for x in items:
        if x is False:
            return False
        if x is None:
            out = None
    return out


def or3(items):
    return not3(and3([not3(x) for x in items]))


def cmp3(op, a, b):
    if a is None or b is None:
        return None
    return {'=': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


OPS = {'EQ': '=', 'NE': '!=', 'GT': '>', 'GE': '>=', 'LT': '<', 'LE': '<=', 'EQUAL_TO': '=', 'NOT_EQUAL_TO': '!=', 'GRATHER_THAN': '>',
       'GRATHER_THAN_OR_EQUAL_TO': '>=', 'LESS_THAN': '<', 'LESS_THAN_OR_EQUAL_TO': '<='}


def member(neg, x, items):
    """None among members also matches NULL (IN), also excludes NULL (NOT IN)."""
    rest = [i for i in items if i is not None]
    test = or3([cmp3('=', x, i) for i in rest]) if rest else False
    null = x is None
    if not neg:
        if not rest:
            return null
        return or3([test, null]) if len(rest) < len(items) else test
    if not rest:
        return not null
    return and3([not3(test), not null]) if len(rest) < len(items) else not3(test)


def is3(x, v):
    if v is None:
        return x is None
    # IS TRUE / IS FALSE is rendered as IS 1 / IS 0 (not on PostgreSQL)
    return x is not None and x == v


class Eval:
    """leaf expressions: names (columns of the row), numbers, None, ('R', name), and what `extra` knows"""

    def __init__(self, extra=None):
        self.extra = extra

    def column(self, row, c):
        if isinstance(c, str):
            return row[c.split('.')[-1]]
        if c[0] == 'R':
            return self.column(row, c[1])
        return self.extra(self, row, c)

    def value(self, row, v):
        if isinstance(v, tuple):
            if v[0] == 'V':
                return v[1]
            return self.column(row, v)
        return v

    def pair(self, row, col, x):
        a = self.column(row, col)
        if isinstance(x, tuple) and x and x[0] == 'rel':
            _, name, style, v = x
            if name in ('IN', 'NOT_IN'):
                return member(name == 'NOT_IN', a, list(v))
            if name in ('IS', 'IS_NOT'):
                r = is3(a, v)
                return not r if name == 'IS_NOT' else r
            return cmp3(OPS[name], a, self.value(row, v))
        if isinstance(x, tuple) and x and x[0] in ('tup', 'gen'):
            return member(False, a, list(x[1]))
        if isinstance(x, (list, range)):
            return member(False, a, list(x))
        if x is None:
            return a is None
        return cmp3('=', a, self.value(row, x))

    def form(self, row, form, d):
        """List of truth values of the conjunction."""
        tag = form[0]
        if tag == 'pairs':
            return [self.pair(row, k, v) for k, v in form[2]]
        if tag == 'obj':
            return [self.cond(row, form[1], d)]
        if tag == 'objs':
            return [self.cond(row, c, d) for c in form[1]] + [self.pair(row, k, v) for k, v in form[2]]
        return []

    def cond(self, row, c, d):
        """None as an empty condition is represented by 'empty'."""
        tag = c[0]
        if tag == 'q':
            items = [x for x in self.form(row, c[1], d) if x != 'empty']
            return and3(items) if items else 'empty'
        if tag in ('&', '|'):
            l, r = self.cond(row, c[1], d), self.cond(row, c[2], d)
            if l == 'empty':
                return r
            if r == 'empty':
                return l
            return and3([l, r]) if tag == '&' else or3([l, r])
        if tag == 'not':
            items = [x for x in self.form(row, c[1], d) if x != 'empty']
            return not3(and3(items))
        return self.extra(self, row, c)

    def all(self, row, forms, d):
        items = [x for f in forms for x in self.form(row, f, d) if x != 'empty']
        return and3(items)


def dedupe_dict_forms(form):
    """A dictionary keeps one value of each key: the pairs which are really passed."""
    if form[0] == 'pairs' and ('dict' in form[1] or 'kwds' in form[1]):
        style, pairs = form[1], form[2]
        pairs = call_args(style, pairs, 'sqlite', lambda k, d: k, b_none)[2]
        return ('pairs', style, tuple(pairs))
    if form[0] == 'objs':
        return ('objs', tuple(dd_cond(c) for c in form[1]), tuple(call_args('kwds', form[2], 'sqlite', lambda k, d: k, b_none)[2]))
    if form[0] == 'obj':
        return ('obj', dd_cond(form[1]))
    return form


def dd_cond(c):
    if c[0] in ('q', 'not'):
        return (c[0], dedupe_dict_forms(c[1]))
    if c[0] in ('&', '|'):
        return (c[0], dd_cond(c[1]), dd_cond(c[2]))
    return c
