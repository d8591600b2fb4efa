"""Histories over several queries: handles with their model."""
from .lexer import lex
from .lib import s, exc, render, need, Violation
from .model import apply_op, start, expect, a_conds
from .common import parsed, norm, diff, same_tree

CONFIRM = {'update': 'ConfirmUpdateAllException', 'delete': 'ConfirmDeleteAllException'}


class Handle:
    """A query together with the list of calls which made it."""

    def __init__(self, kind, ops, d, obj=None):
        self.kind = kind
        self.ops = list(ops)
        self.d = d
        if obj is None:
            obj, done = start((kind, tuple(ops)), d)
            for op in ops[done:]:
                self.call(obj, op)
        self.obj = obj

    def call(self, obj, op):
        r = apply_op(obj, op, self.d)
        need(r is not None, '%s returns nothing', op[0])
        return r

    def apply(self, op):
        self.call(self.obj, op)
        self.ops.append(op)

    def copy(self):
        return Handle(self.kind, self.ops, self.d, self.obj.copy())

    @property
    def conditions(self):
        return [c for op in self.ops if op[0] == 'where' for c in a_conds(op[1], self.d)]

    @property
    def allowed(self):
        last = False
        for op in self.ops:
            if op[0] == 'raw' and op[1].startswith(('allow_', 'forbid_')):
                last = op[1].startswith('allow_')
        return last

    @property
    def renderable(self):
        return self.kind not in CONFIRM or self.allowed or bool(self.conditions)

    def text(self, how=0):
        """Text of the query, or the name of the exception."""
        try:
            return look(self.obj, how)
        except exc.ConfirmException as e:
            return ('exception', type(e).__name__)

    def verify(self, how=0, what='query'):
        """Does the query render what the model expects?"""
        got = self.text(how)
        if not self.renderable:
            need(got == ('exception', CONFIRM[self.kind]), '%s without a condition: %r', what, got)
            return got
        need(isinstance(got, str), '%s raises %s although it has conditions or permission (%d conditions)', what, got[1:], len(self.conditions))
        tree = parsed(got, self.d)
        want = norm(expect((self.kind, tuple(self.ops)), self.d), self.d)
        if not same_tree(tree, want, tuple(self.ops)):
            raise Violation('%s: rendered %r means %s, expected %s' % (what, got, diff(tree, want), diff(want, tree)))
        return got

    def verify_guard(self, how=0, what='query'):
        """Only the guard, for queries which are not complete."""
        got = self.text(how)
        if not self.renderable:
            need(got == ('exception', CONFIRM[self.kind]), '%s without a condition: %r', what, got)
            return got
        need(isinstance(got, str), '%s raises %s although it has conditions or permission (%d conditions)', what, got[1:], len(self.conditions))
        depth, where = 0, False
        for tok in lex(got, self.d):
            depth += {('p', '('): 1, ('p', ')'): -1}.get(tok, 0)
            where = where or (depth == 0 and tok[0] == 'word' and tok[1].upper() == 'WHERE')
        need(where == bool(self.conditions), '%s with %d conditions is rendered as %r', what, len(self.conditions), got)
        return got


def look(obj, how):
    """Different ways of rendering, also of a copy."""
    if how >= 5 and hasattr(obj, 'copy'):
        obj = obj.copy()
    how %= 5
    if how == 0:
        return render(obj)
    if how == 1:
        return obj.tosql()
    if how == 2:
        text = repr(obj)
        head, _, tail = text.partition(': ')
        need(text.startswith('<') and text.endswith('>'), 'odd repr %r', text)
        return tail[:-1]
    if how == 3:
        return '{}'.format(obj)
    return '%s' % obj


def some_op(g, kind, ops):
    """A call which is possible after the calls `ops`."""
    src = g.src
    tables, joins = 0, 0
    for op in ops:
        if op[0] in ('from_', 'from_table', 'from_tables', 'table', 'into'):
            tables, joins = tables + 1, 0
        elif op[0] == 'join':
            joins += 1
    if kind == 'insert':
        pairs = g.assignments(1, 3)
        return src.weighted(
            (10, lambda: ('values', g.two_style(pairs), pairs)),
            (3, lambda: ('opt', 'ignore', src.pick([(), (True,), (False,)]))),
            (4 if g.upserts else 0, lambda: g.odku(3)),
        )
    choices = []
    if tables:
        choices.append((3, lambda: g.join(('join', 'left_join', 'right_join'))))
    if joins:
        choices.append((6, lambda: ('on', g.form(on=True))))
    choices.append((8, lambda: ('where', g.form())))
    if kind == 'select':
        for w, key in ((8, 'columns'), (4, 'from_'), (3, 'having'), (4, 'order_by'), (3, 'group_by'), (4, 'limit'), (5, 'option'), (3, 'outfile')):
            choices.append((w, lambda key=key: g._op(key)))
    else:
        choices.append((3, lambda: ('opt', 'ignore', src.pick([(), (True,), (False,)]))))
        choices.append((3, lambda: ('raw', src.pick(['allow_%s_all', 'forbid_%s_all']) % kind)))
        if kind == 'update':
            pairs = g.assignments(1, 2)
            choices.append((6, lambda: ('set', g.two_style(pairs), pairs)))
        else:
            choices.append((2, g.from_))
            choices.append((2, lambda: ('targets', tuple(src.many(g.table, 1, 2)))))
    return src.weighted(*choices)


def first_ops(g, kind):
    if kind == 'select':
        return g.select(lo=0, hi=3)[1]
    if kind == 'insert':
        return g.insert(odku=25 if g.upserts else 0)[1]
    if kind == 'update':
        return g.update(where=40)[1]
    return g.delete(where=40)[1]
