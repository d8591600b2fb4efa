"""Things shared by the checks."""
import sqlite3

from .lib import s, rel, use, render, Violation, need
from .pbt import Invalid
from .lexer import lex, SqlError
from .parser import parse
from .model import build, expect, normalize, norm_union, ambiguous_on, loosen
from .qgen import G


def compare_with_model(q, d, obj=None):
    """Rendered text of the query has to mean what the model expects. -> text"""
    if obj is None:
        obj = build(q, d)
    text = render(obj)
    got = parsed(text, d)
    want = norm(expect(q, d), d)
    if not same_tree(got, want, q):
        raise Violation('rendered %r means %s, expected %s' % (text, diff(got, want), diff(want, got)))
    return text


def same_tree(got, want, spec):
    return got == want or (ambiguous_on(spec) and loosen(got) == loosen(want))


def parsed(text, d):
    return norm(normalize(parse(text, d)), d)


def norm(a, d):
    """Unions: grouping of uniform chains does not matter, SELECT * FROM (...) around an operand neither."""
    if not isinstance(a, tuple) or not a:
        return a
    if a[0] == 'union' and len(a) == 4:
        op = a[1]

        def leaves(x):
            x = unwrap(x)
            if x[0] == 'union' and x[1] == op and len(x) == 4:
                return leaves(x[2]) + leaves(x[3])
            return [norm(x, d)]
        return ('union', op, tuple(leaves(a)))
    return tuple(norm(i, d) for i in a)


STAR_FROM = (('columns', ((('star', ()), None),)), ('options', ()))


def unwrap(x):
    if x[0] == 'select' and len(x[1]) == 3 and x[1][:2] == STAR_FROM and x[1][2][0] == 'tables':
        tables = x[1][2][1]
        if len(tables) == 1 and tables[0][0][0] == 'sub' and tables[0][1] is None and not tables[0][2] and tables[0][0][1][0] == 'union':
            return tables[0][0][1]
    return x


def diff(got, want):
    """Short description of where two trees differ."""
    if isinstance(got, tuple) and isinstance(want, tuple) and len(got) == len(want):
        bad = [(g, w) for g, w in zip(got, want) if g != w]
        if len(bad) == 1 and isinstance(bad[0][0], tuple):
            return diff(*bad[0])
    return repr(got)[:600]


def tokens(obj, d):
    text = render(obj)
    return lex(text, d), text


def fill(base, marker, replacement):
    """Token list with each `marker` token replaced by the list of tokens."""
    out = []
    for t in base:
        if t == marker:
            out += replacement
        else:
            out.append(t)
    return out


def path_tokens(ast):
    out = []
    for p in ast[1]:
        out += [('id', p), ('p', '.')]
    if ast[0] == 'star':
        return out + [('p', '*')]
    return out[:-1]


# ---------------------------------------------------------------- SQLite

def database(script=()):
    db = sqlite3.connect(':memory:', isolation_level=None)
    for sql in script:
        db.execute(sql)
    return db


def run(db, text):
    try:
        cur = db.execute(text)
        return cur.fetchall()
    except (sqlite3.Error, sqlite3.Warning) as e:
        if 'parser stack overflow' in str(e) or 'too large' in str(e) or 'too many' in str(e).lower():
            raise Invalid       # limits of SQLite itself
        raise Violation('SQLite refuses %r: %s' % (text, e))


def executable(text):
    """Can the text be passed to SQLite at all?"""
    if '\0' in text:
        return False
    try:
        text.encode('utf-8')
    except UnicodeEncodeError:
        return False
    return True
