"""Recursive descent parser of the SQL subset sqlpuzzle can render.

Knows nothing about sqlpuzzle; the result is a plain tuple/dict tree which the
models in vlib/model.py predict.
"""
from .lexer import lex, SqlError

CLAUSE_WORDS = {
    'FROM', 'WHERE', 'GROUP', 'HAVING', 'ORDER', 'LIMIT', 'OFFSET', 'INTO', 'FOR',
    'UNION', 'JOIN', 'LEFT', 'RIGHT', 'FULL', 'ON', 'AS', 'AND', 'OR', 'SET', 'VALUES',
    'SELECT', 'ASC', 'DESC', 'SEPARATOR', 'IN', 'IS', 'LIKE', 'REGEXP', 'INSERT',
    'UPDATE', 'DELETE', 'REPLACE', 'DISTINCT', 'FIELDS', 'LINES', 'OPTIONALLY',
}
SELECT_OPTIONS = {
    'SQL_CACHE', 'SQL_NO_CACHE', 'ALL', 'DISTINCT', 'DISTINCTROW', 'SQL_SMALL_RESULT',
    'SQL_BIG_RESULT', 'SQL_BUFFER_RESULT', 'SQL_CALC_FOUND_ROWS', 'STRAIGHT_JOIN',
    'HIGH_PRIORITY',
}


def flat(kind, items):
    """n-ary AND/OR: nested same connectives are flattened, repeated terms dropped."""
    out = []
    for item in items:
        for sub in (item[1] if item[0] == kind else (item,)):
            if sub not in out:
                out.append(sub)
    return out[0] if len(out) == 1 else (kind, tuple(out))


class Parser:
    def __init__(self, tokens):
        self.toks = tokens
        self.i = 0

    # -- token helpers
    def peek(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else ('end', None)

    def next(self):
        tok = self.peek()
        self.i += 1
        return tok

    def is_word(self, *words, k=0):
        tok = self.peek(k)
        return tok[0] == 'word' and tok[1].upper() in words

    def is_p(self, p, k=0):
        return self.peek(k) == ('p', p)

    def take_word(self, *words):
        if self.is_word(*words):
            return self.next()[1].upper()
        return None

    def take_p(self, p):
        if self.is_p(p):
            self.i += 1
            return True
        return False

    def expect_word(self, word):
        if not self.take_word(word):
            raise SqlError('expected %s, got %r' % (word, self.peek()))

    def expect_p(self, p):
        if not self.take_p(p):
            raise SqlError('expected %r, got %r' % (p, self.peek()))

    # -- expressions
    def expr(self):
        items = [self.and_expr()]
        while self.take_word('OR'):
            items.append(self.and_expr())
        return flat('or', items) if len(items) > 1 else items[0]

    def and_expr(self):
        items = [self.not_expr()]
        while self.take_word('AND'):
            items.append(self.not_expr())
        return flat('and', items) if len(items) > 1 else items[0]

    def not_expr(self):
        if self.take_word('NOT'):
            return ('not', self.not_expr())
        return self.predicate()

    def predicate(self):
        left = self.additive()
        while True:
            tok = self.peek()
            if tok[0] == 'p' and tok[1] in ('=', '!=', '<', '<=', '>', '>='):
                self.next()
                left = ('cmp', tok[1], left, self.additive())
            elif self.is_word('IS'):
                self.next()
                neg = bool(self.take_word('NOT'))
                left = ('is', neg, left, self.additive())
            elif self.is_word('LIKE', 'REGEXP'):
                op = self.next()[1].upper()
                left = ('cmp', op, left, self.additive())
            elif self.is_word('NOT') and self.is_word('LIKE', k=1):
                self.next()
                self.next()
                left = ('cmp', 'NOT LIKE', left, self.additive())
            elif self.is_word('IN') or (self.is_word('NOT') and self.is_word('IN', k=1)):
                neg = bool(self.take_word('NOT'))
                self.next()
                left = ('in', neg, left, self.in_operand())
            else:
                return left

    def in_operand(self):
        if not self.is_p('('):
            return self.additive()
        self.next()
        if self.is_word('SELECT') or self.is_p('('):
            save = self.i
            try:
                sub = self.statement()
                self.expect_p(')')
                return ('sub', sub)
            except SqlError:
                self.i = save
        items = [self.expr()]
        while self.take_p(','):
            items.append(self.expr())
        self.expect_p(')')
        return ('list', tuple(items))

    def additive(self):
        left = self.primary()
        while self.is_p('+') or self.is_p('-'):
            op = self.next()[1]
            left = ('arith', op, left, self.primary())
        return left

    def primary(self):
        kind, val = self.peek()
        if kind == 'str':
            self.next()
            return ('str', val)
        if kind == 'num':
            self.next()
            return ('num', val)
        if kind == 'blob':
            self.next()
            return ('blob', val)
        if kind == 'p' and val == '-':
            self.next()
            inner = self.primary()
            if inner[0] != 'num':
                raise SqlError('unary minus')
            return ('num', '-' + inner[1])
        if kind == 'p' and val == '*':
            self.next()
            return ('star', ())
        if kind == 'p' and val == '(':
            self.next()
            if self.is_word('SELECT') or self.is_p('('):
                save = self.i
                try:
                    sub = self.statement()
                    self.expect_p(')')
                    return ('sub', sub)
                except SqlError:
                    self.i = save
            items = [self.expr()]
            while self.take_p(','):
                items.append(self.expr())
            self.expect_p(')')
            return items[0] if len(items) == 1 else ('list', tuple(items))
        if kind == 'id':
            return self.path()
        if kind == 'word':
            upper = val.upper()
            if upper == 'NULL':
                self.next()
                return ('null',)
            if upper in ('TRUE', 'FALSE') and not self.is_p('(', 1):
                self.next()
                return ('bool', upper == 'TRUE')
            if upper == 'EXISTS':
                self.next()
                self.expect_p('(')
                sub = self.statement()
                self.expect_p(')')
                return ('exists', sub)
            if self.is_p('(', 1):
                return self.function()
            if upper in CLAUSE_WORDS:
                raise SqlError('unexpected %s' % val)
            self.next()
            while self.is_p('.') and self.peek(1)[0] == 'word':
                self.next()
                val += '.' + self.next()[1]
            return ('word', val)
        raise SqlError('unexpected %r' % (self.peek(),))

    def path(self):
        parts = [self.next()[1]]
        while self.take_p('.'):
            kind, val = self.next()
            if kind == 'id':
                parts.append(val)
            elif (kind, val) == ('p', '*'):
                return ('star', tuple(parts))
            else:
                raise SqlError('bad name part %r' % (val,))
        return ('id', tuple(parts))

    def function(self):
        name = self.next()[1].upper()
        self.expect_p('(')
        distinct = bool(self.take_word('DISTINCT'))
        args = []
        order = ()
        separator = None
        if name == 'CONVERT':
            args.append(self.expr())
            self.expect_p(',')
            depth, parts = 0, []
            while depth or not self.is_p(')'):
                tok = self.next()
                if tok[0] == 'end' or tok[0] not in ('word', 'num', 'p'):
                    raise SqlError('bad type in CONVERT')
                depth += {'(': 1, ')': -1}.get(tok[1], 0)
                parts.append(tok[1])
            args.append(('type', ' '.join(parts)))
        elif not self.is_p(')'):
            args.append(self.expr())
            while self.take_p(','):
                args.append(self.expr())
            if self.is_word('ORDER'):
                self.next()
                self.expect_word('BY')
                order = self.order_items()
            if self.take_word('SEPARATOR'):
                separator = self.string()
        self.expect_p(')')
        return ('func', name, distinct, tuple(args), order, separator)

    def order_items(self):
        items = [self.order_item()]
        while self.take_p(','):
            items.append(self.order_item())
        return tuple(items)

    def order_item(self):
        e = self.expr()
        return (e, self.take_word('ASC', 'DESC') or 'ASC')

    # -- statements
    def statement(self):
        left = self.operand()
        while self.is_word('UNION'):
            self.next()
            op = 'UNION ALL' if self.take_word('ALL') else 'UNION'
            left = ('union', op, left, self.operand())
        return left

    def operand(self):
        if self.take_p('('):
            stmt = self.statement()
            self.expect_p(')')
            return stmt
        if self.is_word('SELECT'):
            return self.select()
        if self.is_word('INSERT', 'REPLACE'):
            return self.insert()
        if self.is_word('UPDATE'):
            return self.update()
        if self.is_word('DELETE'):
            return self.delete()
        raise SqlError('expected statement, got %r' % (self.peek(),))

    def alias(self):
        if self.take_word('AS'):
            kind, _ = self.peek()
            if kind != 'id':
                raise SqlError('alias is not a quoted name: %r' % (self.peek(),))
            return self.path()
        return None

    def select(self):
        self.expect_word('SELECT')
        options = []
        while self.is_word(*SELECT_OPTIONS):
            options.append(self.next()[1].upper())
        cols = [(self.expr(), self.alias())]
        while self.take_p(','):
            cols.append((self.expr(), self.alias()))
        st = {'options': tuple(options), 'columns': tuple(cols)}
        if self.take_word('FROM'):
            st['tables'] = self.tables()
        if self.take_word('WHERE'):
            st['where'] = self.expr()
        if self.take_word('GROUP'):
            self.expect_word('BY')
            st['group'] = self.order_items()
        if self.take_word('HAVING'):
            st['having'] = self.expr()
        if self.take_word('ORDER'):
            self.expect_word('BY')
            st['order'] = self.order_items()
        if self.take_word('LIMIT'):
            st['limit'] = self.integer()
        if self.take_word('OFFSET'):
            st['offset'] = self.integer()
        if self.take_word('INTO'):
            self.expect_word('OUTFILE')
            st['outfile'] = self.string()
            if self.take_word('FIELDS'):
                if self.take_word('TERMINATED'):
                    self.expect_word('BY')
                    st['fields'] = self.string()
                elif not self.is_word('OPTIONALLY'):
                    raise SqlError('FIELDS without anything')
                self.enclosed(st)
            if self.take_word('LINES'):
                self.expect_word('TERMINATED')
                self.expect_word('BY')
                st['lines'] = self.string()
            if self.is_word('OPTIONALLY') and 'enclosed' not in st:
                # It belongs to FIELDS in MySQL; see known finding K2.
                st['enclosed_misplaced'] = True
                self.enclosed(st)
        if self.take_word('FOR'):
            self.expect_word('UPDATE')
            st['for_update'] = True
        return node('select', st)

    def enclosed(self, st):
        if self.take_word('OPTIONALLY'):
            self.expect_word('ENCLOSED')
            self.expect_word('BY')
            st['enclosed'] = self.string()

    def integer(self):
        sign = -1 if self.take_p('-') else 1
        kind, val = self.next()
        if kind != 'num' or '.' in val:
            raise SqlError('integer expected, got %r' % (val,))
        return sign * int(val)

    def string(self):
        if self.peek()[0] == 'id':
            # A text which is a quoted name is rendered as the name (see C01).
            return self.path()
        kind, val = self.next()
        if kind != 'str':
            raise SqlError('string literal expected, got %r' % (val,))
        return val

    def tables(self):
        items = [self.table()]
        while self.take_p(','):
            items.append(self.table())
        return tuple(items)

    def table_factor(self):
        kind, _ = self.peek()
        if kind == 'id':
            name = self.path()
        elif self.is_p('('):
            self.next()
            name = ('sub', self.statement())
            self.expect_p(')')
        elif kind == 'word':
            name = self.primary()
        else:
            raise SqlError('table expected, got %r' % (self.peek(),))
        return name, self.alias()

    def table(self):
        name, alias = self.table_factor()
        joins = []
        while self.is_word('JOIN', 'LEFT', 'RIGHT', 'FULL'):
            kind = self.next()[1].upper()
            if kind != 'JOIN':
                self.expect_word('JOIN')
            jname, jalias = self.table_factor()
            on = self.expr() if self.take_word('ON') else None
            joins.append((kind, jname, jalias, on))
        return (name, alias, tuple(joins))

    def assignments(self):
        items = [self.assignment()]
        while self.take_p(','):
            items.append(self.assignment())
        return tuple(items)

    def assignment(self):
        kind, _ = self.peek()
        if kind == 'id':
            col = self.path()
        elif kind == 'word':
            col = self.primary()
        else:
            raise SqlError('column expected, got %r' % (self.peek(),))
        self.expect_p('=')
        return (col, self.expr())

    def insert(self):
        st = {'keyword': self.next()[1].upper()}
        if self.take_word('IGNORE'):
            st['ignore'] = True
        self.expect_word('INTO')
        st['table'] = self.tables()
        if self.is_p('('):
            self.next()
            cols = []
            while not self.is_p(')'):
                cols.append(self.expr())
                if not self.is_p(')'):
                    self.expect_p(',')
            self.expect_p(')')
            self.expect_word('VALUES')
            rows = [self.row()]
            while self.take_p(','):
                rows.append(self.row())
            st['columns'] = tuple(cols)
            st['rows'] = tuple(rows)
        if self.is_word('ON') and self.is_word('DUPLICATE', k=1):
            for w in ('ON', 'DUPLICATE', 'KEY', 'UPDATE'):
                self.expect_word(w)
            st['on_duplicate'] = self.assignments()
        elif self.is_word('ON') and self.is_word('CONFLICT', k=1):
            for w in ('ON', 'CONFLICT'):
                self.expect_word(w)
            self.expect_p('(')
            target = [self.expr()]
            while self.take_p(','):
                target.append(self.expr())
            self.expect_p(')')
            for w in ('DO', 'UPDATE'):
                self.expect_word(w)
            st['conflict_target'] = tuple(target)
            # The keyword SET is mandatory in PostgreSQL; see known finding K1.
            st['conflict_set_keyword'] = bool(self.take_word('SET'))
            st['on_conflict'] = self.assignments()
        return node('insert', st)

    def row(self):
        self.expect_p('(')
        items = []
        while not self.is_p(')'):
            items.append(self.expr())
            if not self.is_p(')'):
                self.expect_p(',')
        self.expect_p(')')
        return tuple(items)

    def update(self):
        self.next()
        st = {}
        if self.take_word('IGNORE'):
            st['ignore'] = True
        st['tables'] = self.tables()
        self.expect_word('SET')
        st['set'] = self.assignments()
        if self.take_word('WHERE'):
            st['where'] = self.expr()
        return node('update', st)

    def delete(self):
        self.next()
        st = {}
        if self.take_word('IGNORE'):
            st['ignore'] = True
        if not self.is_word('FROM'):
            st['targets'] = self.tables()
        self.expect_word('FROM')
        st['tables'] = self.tables()
        if self.take_word('WHERE'):
            st['where'] = self.expr()
        return node('delete', st)


def node(kind, st):
    return (kind, tuple(sorted(st.items())))


def parse(sql, dialect):
    p = Parser(lex(sql, dialect))
    stmt = p.statement()
    if p.i != len(p.toks):
        raise SqlError('trailing %r' % (p.peek(),))
    return stmt


def parse_expr(sql, dialect):
    p = Parser(lex(sql, dialect))
    e = p.expr()
    if p.i != len(p.toks):
        raise SqlError('trailing %r' % (p.peek(),))
    return e
