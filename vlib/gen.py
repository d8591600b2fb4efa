"""Generators of texts, names and scalar values."""
import ast
import datetime
import decimal
import enum
import os

from .lib import REPO

# ---------------------------------------------------------------- harvested constants

def _harvest():
    """Texts and numbers which are written in the code under test.  They only
    steer generation (interesting fragments and sizes), never the verdict."""
    texts, ints = set(), set()
    for root, dirs, files in os.walk(os.path.join(REPO, 'sqlpuzzle')):
        dirs.sort()
        for name in sorted(files):
            if not name.endswith('.py'):
                continue
            try:
                tree = ast.parse(open(os.path.join(root, name), encoding='utf-8').read())
            except (SyntaxError, ValueError):
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                    docs.add(id(node.value))
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    v = node.value
                    if isinstance(v, str) and 0 < len(v) <= 24:
                        texts.add(v)
                    elif isinstance(v, bytes) and 0 < len(v) <= 24:
                        texts.add(v.decode('latin-1'))
                    elif isinstance(v, bool):
                        pass
                    elif isinstance(v, int) and abs(v) <= 2 ** 70:
                        ints.add(v)
                elif isinstance(node, ast.BinOp):
                    try:
                        v = eval(compile(ast.Expression(node), 'x', 'eval'), {'__builtins__': {}})  # constants only
                    except Exception:  # pylint: disable=broad-except
                        continue
                    if isinstance(v, int) and not isinstance(v, bool) and abs(v) <= 2 ** 70:
                        ints.add(v)
    return sorted(texts), sorted(ints)


def _parameters():
    """Names of parameters, attributes and functions in the code: a column can have such a name."""
    names = set()
    for root, dirs, files in os.walk(os.path.join(REPO, 'sqlpuzzle')):
        dirs.sort()
        for fname in sorted(files):
            if fname.endswith('.py'):
                try:
                    tree = ast.parse(open(os.path.join(root, fname), encoding='utf-8').read())
                except (SyntaxError, ValueError):
                    continue
                for node in ast.walk(tree):
                    if isinstance(node, ast.arg):
                        names.add(node.arg)
    names.discard('self')
    names.discard('cls')
    return sorted(names) or ['args']


HTEXTS, HINTS = _harvest()
PARAMS = _parameters()
HBARE = [t for t in HTEXTS if not set(t) & set('."`') and t.strip() not in ('*', '')] or ['args']
# Lengths around the numbers written in the code, and usual limits.
LENGTHS = sorted({n + k for n in [i for i in HINTS if 2 <= i <= 70000] + [10, 16, 31, 32, 50, 63, 64, 100, 127, 128, 200, 255, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536]
                  for k in (-1, 0, 1)})
SHORT_LENGTHS = [n for n in LENGTHS if n <= 1100]

# ---------------------------------------------------------------- texts

WORDS = ['a', 'b', 'x', 'abc', 'Name', 'id', 'select', 'NULL', 'true', '1', '0', '007', '1.5', 'ASC', 'None', '2020-01-01', '2012-05-25 10:00:00', '-1', '1e5', 'NaN', 'inf', 'DEFAULT', 'NOW()', 'CURRENT_TIMESTAMP', 'count(*)',
         't.a', 't.*', 'http://x.cz/?a=1&b=2', 'a@b.cz', 'false', "'a'", '0x1F', '+1', '1,5', '[1, 2]', '{"a": 1}', 'C:\\dir\\', '\u0661', '²',
         '(SELECT 1)', '(SELECT a FROM t)', 'SELECT 1', '(1, 2)', '(NULL)', '()', 'a = 1', 'a AND b', 'a b', 'DISTINCT', '@x', 'x::text', 'NOT NULL', 'IS NULL', 'null ', 'DROP TABLE t',
         'concat(a)', 'a + 1', '<a>', '"a" AS "b"', 'interval', 'b\'1\'', '{x}', '[x]']
SPECIAL = ["'", '"', '`', '\\', '\n', '\r', '\t', '\0', '\x1a', '\x0b', '\x0c', '\x08', '\x1b', '\x7f', ';', '-', '--', '#', '/*', '*/', '/', '*',
           '%', '_', '(', ')', '[', ']', '{', '}', '.', ',', '=', '<', '>', '!', '|', '&', ':', '?', '$', '@', '~', '^', '+', ' ', '  ']
ATTACK = ["''", "\\'", "'\\", '\\\\', "\\\\'", "' OR 1=1 -- ", "'; DROP TABLE t; --", "' UNION SELECT 1 -- ", '"" ', '""', '``',
          '"a"', '`a`', '"a"."b"', '`a`.`b`', '"a".b', '"a"""', '"a" OR "b"', '" OR 1=1 -- ', '"." OR 1=1 -- "', '` OR 1 -- `', "E'", "x'00'", "N'", '$$', '$a$',
          '{}', '{0}', '{a}', '{{', '%s', '%d', '%(a)s', '%%', ':a', '$1', '\\n', '\\0', '\\x41', '\\u0041', "\\", '&#39;', '\r\n', ' AND ', ' OR ', ')(', '"."', "'.'", '. ',
          ' "a" ', '\n"a"\n', '\\"', '\\`', 'AS', ' AS ', '0x41', "''''", '"""', '<undefined value>']
UNI = ['é', 'ň', 'ß', 'İ', '中', '😀', '\u2028', '\u2019', '\u02bc', '\uff07', '\ufeff', '\xa0', '\u3000', '\xad', '\u200b', '\u0301', '\u0660', '\U0010ffff', '\x85', '\u00b4', '\u201c', '\uff02']
SURR = ['\ud800', '\udc41', '\udfff']


def char(src, surrogates=False):
    return src.weighted(
        (40, lambda: chr(97 + src.n(26))),
        (30, lambda: src.pick(SPECIAL)),
        (12, lambda: chr(32 + src.n(95))),
        (8, lambda: src.pick(UNI)),
        (4, lambda: chr(src.n(0x300))),
        (3, lambda: chr(src.n(0xd7ff))),
        (1, lambda: chr(0x10000 + src.n(0x10ffff - 0x10000))),
        (1, lambda: src.pick(SURR) if surrogates else 'z'),
    )


def fragment(src, surrogates=False):
    return src.weighted(
        (30, lambda: src.pick(WORDS)),
        (40, lambda: src.pick(SPECIAL)),
        (25, lambda: src.pick(ATTACK)),
        (10, lambda: src.pick(HTEXTS) if HTEXTS else 'a'),
        (15, lambda: char(src, surrogates)),
    )


def text(src, surrogates=False, long=True):
    """Any text, mostly nasty."""
    return src.weighted(
        (8, lambda: src.pick(WORDS)),
        (4, lambda: ''),
        (10, lambda: src.pick(SPECIAL)),
        (14, lambda: src.pick(ATTACK)),
        (6, lambda: src.pick(HTEXTS) if HTEXTS else 'a'),
        (30, lambda: ''.join(src.many(lambda: fragment(src, surrogates), 2, 8, 65))),
        (14, lambda: ''.join(src.many(lambda: char(src, surrogates), 1, 20, 85))),
        (6, lambda: fragment(src) * src.between(2, 9)),
        (4 if long else 0, lambda: _long(src)),
        (2, lambda: src.pick([' ', '\n', '\t']) + fragment(src) + src.pick([' ', '\n', '\t', ''])),
    )


def _long(src):
    n = src.pick(SHORT_LENGTHS) if src.chance(85) else src.pick(LENGTHS)
    unit = fragment(src)
    body = (unit * (n // len(unit) + 1))[:n]
    if src.chance(50):
        tail = fragment(src)
        body = body[:max(0, n - len(tail))] + tail
    if src.chance(20):
        head = fragment(src)
        body = head + body[len(head):]
    return body


def word(src):
    """Plain identifier-like word."""
    return src.pick(['a', 'b', 'c', 'd', 'id', 'name', 'age', 'x1', 'user', 'total'])


# ---------------------------------------------------------------- names

PLAIN = ['a', 'b', 'c', 'id', 'name']
ODD_BARE = ['Name', 'a b', 'select', 'order', 'a-b', "it's", 'é', '1a', 'a;b', 'x--y', '%s', '{a}', 'a\\b', 'a(b)', 'self', 'args', 'options', 'kwds',
            'query', 'value', 'column_name', 'a*', 'A', 'ID', 'None', '中文', 'a\nb', '*a', 'a/*b', '?', 'x=1', 'alias', 'table', 'aa', 'B', '_', '0', '10', '9', '2020-01-01', 'NULL', 'true', '007', '-1', 'f(x)', "'x'", '²']
QUOTED_ONLY = ['a.b', '.', 'x.', 'a"b', 'a`b', '"', '`', '""', '" OR 1=1 -- "', 'a". "b', '``x', 'a."b"', '.`.', 'a" AS "b', '" ', ' "']


def part(src):
    """Part of a name and whether to write it in quotes."""
    return src.weighted(
        (60, lambda: (src.pick(PLAIN), False)),
        (20, lambda: (src.pick(ODD_BARE), False)),
        (5, lambda: (src.pick(PARAMS), False)),
        (6, lambda: (src.pick(HBARE), False)),
        (5, lambda: (src.pick(PLAIN), True)),
        (8, lambda: (src.pick(QUOTED_ONLY), True)),
        (5, lambda: (''.join(src.many(lambda: char(src), 1, 8, 70)), True)),
    )


def name(src, plain=70, star=0, dots=True):
    """Name spec: plain text (bare, maybe dotted) or ('N', ((part, quoted), ...), star)."""
    if src.n(100) < plain:
        base = src.pick(PLAIN)
        if dots and src.chance(15):
            base = src.pick(['t', 'u', 'db.t']) + '.' + base
        return base
    parts = tuple(src.many(lambda: part(src), 1, 3 if dots else 1, 30))
    is_star = bool(star and src.chance(star))
    parts = tuple((p if p != '*' else 'st', q) for p, q in parts)
    return ('N', parts, is_star)


# ---------------------------------------------------------------- scalars

def integer(src):
    return src.weighted(
        (40, lambda: src.n(10)),
        (20, lambda: src.between(-5, 1000)),
        (6, lambda: src.pick(HINTS) if HINTS else 7),
        (6, lambda: (src.pick(HINTS) if HINTS else 7) + src.pick([0, 1, -1])),
        (6, lambda: src.pick([-1, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 64, 10 ** 15, 10 ** 16, 10 ** 20, 10 ** 40])),
        (4, lambda: (1 if src.chance(50) else -1) * src.n(10 ** 15) * (src.n(10 ** 6) + 1)),
    )


def simple_float(src):
    """Floats with at most 5 decimals (no rounding needed)."""
    v = src.between(-99999, 99999) / src.pick([2.0, 4.0, 10.0, 100.0, 1000.0, 1.0])
    return v if v else 0.5


def any_float(src):
    v = src.weighted(
        (30, lambda: simple_float(src)),
        (10, lambda: src.pick([1e15, 1e16, 1e17, 1e22, 1e-5, 1e-6, 5e-6, 4.9e-6, 1.5e-5, 0.1, 0.2 + 0.1, 1 / 3, 2 / 3, 1e308, -1e308, 5e-324, 123456789.123456789, 99999.999995, 0.999995, 0.000005, 0.000015, 1e100])),
        (10, lambda: (src.n(10 ** 9) - 5 * 10 ** 8) / (1 + src.n(10 ** 7))),
        (5, lambda: float(integer(src))),
    )
    if v == 0:
        v = 0.0
    return v


def any_decimal(src):
    def rnd():
        d = decimal.Decimal(src.n(10 ** 12) - 5 * 10 ** 11)
        return d.scaleb(-src.n(12))
    v = src.weighted(
        (15, lambda: decimal.Decimal(src.pick(['1', '1.5', '0.1', '-2.25', '12345.67', '1E+3', '1E-3', '1E+20', '0.00001', '0.000005', '0.000015', '0.123456789', '100', '99999999999999999999.99999', '12345678901234567890123456789.5', '-0.00001', '7E-7']))),
        (20, rnd),
    )
    if v == 0:
        v = decimal.Decimal(0)
    return v


def date(src):
    return src.weighted(
        (10, lambda: datetime.date(2012, src.between(1, 12), src.between(1, 28))),
        (4, lambda: src.pick([datetime.date(1, 1, 1), datetime.date(9999, 12, 31), datetime.date(2000, 2, 29), datetime.date(999, 10, 9)])),
    )


def datetime_(src):
    d = date(src)
    return datetime.datetime(d.year, d.month, d.day, src.pick([0, 1, 12, 23]), src.pick([0, 59]), src.pick([0, 1, 59]),
                             src.pick([0, 0, 1, 10, 500000, 999999]), src.pick(ZONES) if src.chance(20) else None)


ZONES = [datetime.timezone.utc] + [datetime.timezone(datetime.timedelta(minutes=m)) for m in (120, -330, 60, -1, 765)] \
    + [datetime.timezone(datetime.timedelta(hours=1, seconds=30))]
_NOON = datetime.datetime(2012, 5, 25, 12, 0, 0, tzinfo=datetime.timezone.utc)
# Values which are equal in Python, but not for the database.
TWINS = [
    [_NOON.astimezone(z) for z in ZONES],
    [0, False, 0.0, -0.0, decimal.Decimal(0), decimal.Decimal('-0')],
    [1, True, 1.0, decimal.Decimal(1), decimal.Decimal('1.00')],
]


def twin(src):
    return src.pick(src.pick(TWINS))


def bytes_(src):
    return src.weighted(
        (10, lambda: bytes(src.many(lambda: src.pick([0, 39, 92, 255, 97, 10, 48]), 0, 6))),
        (10, lambda: bytes(src.many(lambda: src.n(256), 0, 12, 80))),
        (1, lambda: bytes([src.n(256)]) * (src.pick(SHORT_LENGTHS) if src.chance(80) else src.pick(LENGTHS))),
    )


# ---------------------------------------------------------------- derived types

class Text(str):
    """Text of a derived type is a text."""


class Converted(str):
    """Text whose conversion to str gives something else, as that of an enum does."""

    def __str__(self):
        return 'converted'

    def __repr__(self):
        return 'Converted'

    def __format__(self, spec):
        return 'formatted'


def derived(v, kind):
    """Value of a type derived from the type of the value: 1 plain one, 2 with own conversion to text, 3 enum."""
    if kind == 3 and isinstance(v, (str, int, float, decimal.Decimal)) and not isinstance(v, bool) and v == v:
        return enum.Enum('E', {'A': v}, type=type(v)).A
    if kind and isinstance(v, str):
        return Converted(v) if kind == 2 else Text(v)
    return v
