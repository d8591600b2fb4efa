"""Lexers of the SQL dialects sqlpuzzle targets, written from the manuals of the
databases and independent of sqlpuzzle.

Token: (kind, value) with kind
  id    quoted identifier (decoded)
  word  bare word
  str   string literal (decoded)
  num   unsigned number (text)
  blob  bytes literal
  p     punctuation / operator
"""
import re


class SqlError(Exception):
    """The rendered text is not SQL of the dialect (in the generated subset)."""


WORD = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')
NUM = re.compile(r'[0-9]+(?:\.[0-9]+)?')
PUNCT = ('>=', '<=', '!=', '||', '(', ')', ',', '.', '=', '<', '>', '*', '+', '-', '/')

MYSQL_ESC = {'0': '\0', "'": "'", '"': '"', 'b': '\b', 'n': '\n', 'r': '\r',
             't': '\t', 'Z': '\x1a', '\\': '\\', '%': '\\%', '_': '\\_'}
PG_ESC = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}


def _plain_string(sql, i, quote):
    """sql[i] is the opening quote; only a doubled quote is special."""
    out = []
    i += 1
    while True:
        j = sql.find(quote, i)
        if j < 0:
            raise SqlError('unterminated %s literal' % quote)
        out.append(sql[i:j])
        if sql[j + 1:j + 2] == quote:
            out.append(quote)
            i = j + 2
            continue
        return ''.join(out), j + 1


def _backslash_string(sql, i, quote, esc, pg=False):
    out = []
    i += 1
    n = len(sql)
    while True:
        if i >= n:
            raise SqlError('unterminated %s literal' % quote)
        ch = sql[i]
        if ch == '\\':
            if i + 1 >= n:
                raise SqlError('unterminated %s literal' % quote)
            nxt = sql[i + 1]
            if pg and (nxt in 'xuU' or nxt in '01234567'):
                raise SqlError('unexpected numeric escape in E literal')
            out.append(esc.get(nxt, nxt))
            i += 2
        elif ch == quote:
            if sql[i + 1:i + 2] == quote:
                out.append(quote)
                i += 2
            else:
                return ''.join(out), i + 1
        else:
            out.append(ch)
            i += 1


def _lex(sql, dialect, backslashes):
    tokens, spans = [], []
    i, n = 0, len(sql)
    id_quote = '`' if dialect == 'mysql' else '"'
    while i < n:
        ch = sql[i]
        if ch in ' \t\r\n':
            i += 1
            continue
        start = i
        if ch == id_quote:
            name, i = _plain_string(sql, i, id_quote)
            if not name:
                raise SqlError('empty identifier')
            tok = ('id', name)
        elif ch == "'" or (ch == '"' and dialect == 'mysql'):
            if backslashes:
                text, i = _backslash_string(sql, i, ch, MYSQL_ESC)
            else:
                text, i = _plain_string(sql, i, ch)
            tok = ('str', text)
        elif sql.startswith('--', i) or sql.startswith('/*', i) or ch == '#':
            raise SqlError('comment at %d' % i)
        else:
            m = WORD.match(sql, i)
            if m:
                word = m.group()
                i = m.end()
                if i < n and sql[i] == "'":
                    if word in ('E', 'e') and dialect == 'postgresql':
                        text, i = _backslash_string(sql, i, "'", PG_ESC, pg=True)
                        tok = ('str', text)
                    elif word in ('x', 'X') and dialect != 'postgresql':
                        text, i = _plain_string(sql, i, "'")
                        try:
                            tok = ('blob', bytes.fromhex(text))
                        except ValueError:
                            raise SqlError('bad hexadecimal literal')
                        if ' ' in text:
                            raise SqlError('bad hexadecimal literal')
                    else:
                        raise SqlError('literal prefix %r' % word)
                else:
                    tok = ('word', word)
            else:
                m = NUM.match(sql, i)
                if m:
                    tok = ('num', m.group())
                    i = m.end()
                    if WORD.match(sql, i):
                        raise SqlError('number glued to word at %d' % i)
                else:
                    for p in PUNCT:
                        if sql.startswith(p, i):
                            tok = ('p', p)
                            i += len(p)
                            break
                    else:
                        raise SqlError('unexpected character %r at %d' % (ch, i))
        # Two adjacent literals/words without a separator are suspicious.
        if spans and spans[-1][1] == start and tok[0] in ('id', 'str', 'blob', 'num', 'word') \
                and tokens[-1][0] in ('id', 'str', 'blob', 'num', 'word'):
            raise SqlError('tokens glued together at %d' % start)
        tokens.append(tok)
        spans.append((start, i))
    return tokens, spans


def lex(sql, dialect):
    """dialect: sql | mysql | postgresql | sqlite"""
    if dialect in ('mysql', 'sql'):
        tokens, spans = _lex(sql, dialect, True)
        if dialect == 'sql':
            # Plain SQL without backslash escapes: different decoding of literals
            # is unavoidable, but the borders of all tokens have to be the same.
            _, spans2 = _lex(sql, dialect, False)
            if spans != spans2:
                raise SqlError('literal ends elsewhere without backslash escapes')
    else:
        tokens, spans = _lex(sql, dialect, False)
    return tokens
