"""Configuration of the backend."""
import json
import os
import subprocess
import sys

from vlib import gen, pbt
from vlib.pbt import Test, Invalid
from vlib.lib import s, rel, exc, DIALECTS, use, render, need, REPO
from vlib.model import build, b_expr, b_cond
from vlib.common import compare_with_model, parsed, database, run
from vlib.history import Handle, some_op, first_ops
from vlib.qgen import G
from props import c10

RULE = ('Histories of 2-20 steps mixing configure with valid names in any letter case, configure with invalid names, creating, changing, copying and rendering '
        'several queries of all kinds, each rendering compared with the model of the current database and with a query built and rendered only under it; plus new '
        'processes in which nothing is configured; a case is non-trivial if a query built under one database is rendered under another one, or an invalid name is refused.')

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Portable(G):
    """Specs which mean the same on all databases."""
    upserts = False

    def name(self, dots=True):
        src = self.src
        if src.n(100) < self.plain:
            return gen.name(src, 100, dots=dots)
        return src.pick([x for x in gen.ODD_BARE if '"' not in x and '`' not in x])

    def alias(self):
        return self.name(dots=False)

    def table(self):
        return self.src.pick(['t', 'u', 'v', 'db.t', 'w'])

    def scalar(self, bytes_=False, bool_=True, none=True):
        return super().scalar(bytes_=False, bool_=self.bools and bool_, none=none)

    bools = True

    def expr(self):
        # Equality of V(True) with V(1), and such, depends on what they render.
        keep, self.bools = self.bools, False
        x = super().expr()
        self.bools = keep
        return x

    def join(self, kinds=('join', 'inner_join', 'left_join', 'right_join')):
        d, self.d = self.d, 'sql'
        op = super().join(kinds)
        self.d = d
        return op


BAD = ['oracle', '', ' ', ' mysql', 'mysql ', 'my sql', 'mysq', 'mysqll', 'MySqlBackend', 'sqlite3', 'postgres', 'pg', 'PostgreSQL ', 'sql\n', 'SQL.', 'sql,mysql', 'None',
       'mysql\0', 'mssql', 'mariadb', 'default', '*', 'backend', '__class__', 'sqlpuzzle', 'sqlıte', 'SQLİTE', '\u2170sql', '\u017fql', 'my\u017fql', '\uff53\uff51\uff4c', 'po\u017ftgresql', '\u017fqlite', 'sql\u200b', 'sq\u0142', 'mysql5', 'mysql8', 'ansi', 'sqlite:', 'sql-ite',
       'mysql+pymysql', 'mysql://x', 'postgresql+psycopg2', 'sqlite:///x', 'mysql:x', 'sql/mysql', 'mysql.connector', 'postgresql-12', 'sqlite_3', '_sql', 'sql_', 'MySQL 8.0', 'PostgreSQL 12',
       'sql|', '"sql"', "'mysql'", 'mysql;', '(sql)', 'sql?', 'psql', 'postgre', 'lite', 's', 'sqlsql', 'sqlite\t', '\nmysql']
ODD = [None, 0, 1, True, b'mysql', ['mysql'], 5.5]


def case(src, name):
    how = src.n(4)
    if how == 0:
        return name
    if how == 1:
        return name.upper()
    if how == 2:
        return name.title()
    return ''.join(c.upper() if src.n(2) else c for c in name)


def bad_name(src):
    k = src.n(10)
    if k < 7:
        return src.pick(BAD)
    if k < 8:
        return ('odd', src.n(len(ODD)))
    t = gen.text(src, long=False)
    return t if t.lower() not in DIALECTS else 'x' + t


def gen_history(src):
    g = Portable(src, 'sql', plain=85, texts=40, exprs=15, depth=2)
    hist, steps = [], []

    def step():
        k = src.n(100)
        if not hist or (k < 10 and len(hist) < 5):
            kind = src.pick(['select', 'select', 'insert', 'update', 'delete'])
            ops = first_ops(g, kind)
            hist.append([kind, list(ops)])
            return ('new', kind, tuple(ops))
        i = src.n(len(hist))
        if k < 40:
            name = src.pick(DIALECTS)
            return ('conf', name, case(src, name))
        if k < 52:
            return ('bad', bad_name(src))
        if k < 57 and len(hist) < 5:
            hist.append([hist[i][0], list(hist[i][1])])
            return ('copy', i)
        if k < 75:
            op = some_op(g, *hist[i])
            hist[i][1].append(op)
            return ('op', i, op)
        return ('render', i, src.n(10))
    return (src.pick(DIALECTS), tuple(src.many(step, 3, 20, 90)))


def refuse(name):
    if isinstance(name, tuple):
        name = ODD[name[1]]
    try:
        s.configure(name)
    except Exception:  # pylint: disable=broad-except
        return
    need(False, 'configure(%r) is accepted', name)


def check_history(spec):
    now, steps = spec
    use(now)
    hs, birth = [], []
    labels = set()

    def verify(i, how, what):
        h = hs[i]
        h.d = now
        got = h.verify(how, what)
        if birth[i] - {now}:
            labels.add('built elsewhere')
        # nothing but the current database matters
        twin = Handle(h.kind, h.ops, now)
        need(twin.text() == got, '%s: %r is rendered, the same calls give %r', what, got, twin.text())
    for n, st in enumerate(steps):
        if st[0] == 'conf':
            s.configure(st[2])
            now = st[1]
        elif st[0] == 'bad':
            refuse(st[1])
            labels.add('refused')
        elif st[0] == 'new':
            hs.append(Handle(st[1], st[2], now))
            birth.append({now})
        elif st[0] == 'copy':
            hs.append(hs[st[1]].copy())
            birth.append(birth[st[1]] | {now})
        elif st[0] == 'op':
            hs[st[1]].d = now
            hs[st[1]].apply(st[2])
            birth[st[1]].add(now)
        else:
            verify(st[1], st[2], 'step %d under %s' % (n, now))
    for i in range(len(hs)):
        verify(i, 0, 'end under %s' % now)
    # the same in all other databases and back
    first = [h.text() for h in hs]
    here = now
    for d in DIALECTS:
        s.configure(d)
        now = d
        for i in range(len(hs)):
            verify(i, 0, 'then under %s' % d)
    s.configure(here)
    need([h.text() for h in hs] == first, 'texts under %s differ after other databases were configured', here)
    return sorted(labels)


# ---------------------------------------------------------------- other objects

def gen_objects(src):
    g = Portable(src, 'sql', plain=85, texts=40, exprs=25, depth=2)
    kind = src.pick(['expr', 'cond', 'func', 'union', 'value'])
    x = {'expr': g.expr, 'cond': lambda: g.qtree(src.n(4)), 'func': g.func, 'value': lambda: ('V', g.scalar()),
         'union': lambda: union(src, src.between(1, 4))}[kind]()
    return (kind, x, tuple(src.many(lambda: src.pick(DIALECTS), 2, 5, 70)))


def union(src, n):
    if n == 0:
        return ('select', (('columns', 'args', ((src.pick('abc'), None),)),))
    k = src.n(n)
    return ('union', src.pick('&|'), union(src, k), union(src, n - 1 - k))


def check_objects(spec):
    kind, x, ds = spec
    make = {'expr': b_expr, 'func': b_expr, 'value': b_expr, 'cond': b_cond, 'union': build}[kind]
    use(ds[0])
    obj = make(x, 'sql')
    seen = {}
    for d in ds + ds[:1]:
        use(d)
        text = render(obj)
        need(seen.setdefault(d, text) == text, '%s: %r under %s, later %r', kind, seen[d], d, text)
        fresh = render(make(x, 'sql'))
        need(text == fresh, '%s: %r under %s, built again %r', kind, text, d, fresh)
        if kind == 'union':
            compare_with_model(x, d, obj)
    return [kind] + (['built elsewhere'] if len(set(ds)) > 1 else [])


# ---------------------------------------------------------------- everything a query can hold

def gen_held(src):
    d, place, x, _ = c10.gen_held(src)
    if not isinstance(x, tuple) and place.split('.')[0] in ('COND', 'ORDERED', 'TEXT', 'MEMBER', 'ASSIGN', 'SUB') and src.chance(35):
        x = ('V', x)
    if place.startswith('RAW') and src.chance(50):
        x = ('V', src.pick([True, False, b'', b'\x00\xff', 'it\'s', 'a\\b', 'a\nb', [1, True]]))
    return (place, x, tuple(src.many(lambda: src.pick(DIALECTS), 2, 5, 70)), src.n(3))


def check_held(spec):
    """Objects held by a query built and looked at under other databases."""
    place, x, ds, how = spec

    def make():
        arg = b_expr(x, 'sql') if isinstance(x, tuple) and x and x[0] != 'N' else x
        q = c10.HOLD[place](arg)
        return q, render(q)
    use(ds[0])
    try:
        obj, _ = make()
    except exc.SqlPuzzleException:
        raise Invalid
    seen = {}
    for d in ds + ds[:1]:
        use(d)
        text = render(obj.copy() if how == 1 else obj)
        need(seen.setdefault(d, text) == text, '%s: %r under %s, later %r', place, seen[d], d, text)
        try:
            fresh = make()[1]
        except exc.InvalidQueryException:
            # FULL JOIN can not be requested on other databases.
            raise Invalid
        need(text == fresh, '%s of %r: %r under %s, built again %r', place, x, text, d, fresh)
    return [place.split('.')[0]] + (['built elsewhere'] if len(set(ds)) > 1 else [])


# ---------------------------------------------------------------- what each database is

def gen_names(src):
    d = src.pick(DIALECTS)
    return (d, case(src, d), src.pick(DIALECTS), tuple(src.many(lambda: bad_name(src), 0, 3, 60)))


def check_names(spec):
    d, name, before, bad = spec
    use(before)
    q = s.select('a').from_('t').where(b=True).where(c="x\\'y").where(d=s.V(b'\x01'))
    u = s.select('a') & (s.select('b') | s.select('c'))
    i = s.insert_into('t').values(a='x')
    s.configure(name)
    def full_join():
        try:
            s.select_from('t').full_join('u').on('a', 'b')
            return 'ok'
        except exc.InvalidQueryException:
            return 'refused'
    look = lambda: (render(q), render(u), render(i), render(s.select(('a', 'b'))), full_join())
    got = look()
    for b in bad:
        refuse(b)
        need(look() == got, 'refused name %r changes the configuration', b)
    quote = '`' if d == 'mysql' else '"'
    true = 'true' if d == 'postgresql' else '1'
    need(got[3] == 'SELECT {0}a{0} AS {0}b{0}'.format(quote), 'configure(%r): %r', name, got[3])
    need('= %s ' % true in got[0], 'configure(%r): %r', name, got[0])
    need(repr(('str', "x\\'y")) in repr(parsed(got[0], d)), 'configure(%r): %r is not a text of %s', name, got[0], d)
    if d == 'sqlite':
        run(database(), render(s.select(s.V(1)) & (s.select(s.V(2)) | s.select(s.V(3)))))
    need((got[4] == 'ok') == (d == 'postgresql'), 'configure(%r): FULL JOIN %s', name, got[4])
    use(d)
    need(look() == got, 'configure(%r) is not configure(%r): %r', name, d, got)
    return [d, 'refused' if bad else 'plain'] + (['built elsewhere'] if d != before else [])


# ---------------------------------------------------------------- new processes

CHILD = r'''
import json, sys
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from vlib import pbt
from vlib.lib import s
from vlib.model import build
from vlib.common import compare_with_model
data = json.load(sys.stdin)
for b in data['bad']:
    try:
        s.configure(b)
        print(json.dumps({'accepted': b}))
    except Exception:
        pass
specs = [pbt.dec(x) for x in data['specs']]
objs = [build(x, 'sql') for x in specs]
first = [str(o) for o in objs]
wrong = []
for x, o in zip(specs, objs):
    try:
        compare_with_model(x, 'sql', o)
    except pbt.Invalid:
        pass
    except Exception as e:
        wrong.append(str(e))
s.configure('sql')
second = [str(o) for o in objs]
print(json.dumps({'first': first, 'second': second, 'wrong': wrong}))
'''


def gen_fresh(src):
    g = Portable(src, 'sql', plain=85, texts=40, exprs=15, depth=2)
    g.bools = True
    specs = [('select', (('columns', 'args', (('a', 'b'),)), ('where', ('pairs', 'pair', (('c', True),))))),
             ('insert', (('into', 't'), ('values', 'pair', (('a', "x\\'"),))))]
    specs += [src.pick([g.select, lambda: g.insert(odku=0), lambda: g.update(where=100), lambda: g.delete(where=100), lambda: union(src, src.n(4))])() for _ in range(src.between(3, 12))]
    specs = [q for q in specs if q[0] not in ('update', 'delete') or has_where(q)]
    return (tuple(specs), tuple(b for b in src.many(lambda: bad_name(src), 0, 3, 50) if isinstance(b, str)))


def has_where(q):
    return any(op[0] == 'where' and op[1][0] == 'pairs' for op in q[1])


def check_fresh(spec):
    specs, bad = spec
    env = dict(os.environ, VERIF_REPO=REPO)
    r = subprocess.run([sys.executable, '-c', CHILD, HERE], input=json.dumps({'specs': [pbt.enc(x) for x in specs], 'bad': list(bad)}), capture_output=True, text=True,
                       env=env, timeout=120)
    need(r.returncode == 0, 'new process fails: %s', r.stderr[-600:])
    out = json.loads(r.stdout.splitlines()[-1])
    for line in r.stdout.splitlines()[:-1]:
        need(False, 'configure of an invalid name is accepted in a new process: %s', line)
    need(out['first'] == out['second'], 'not configured: %r, plain SQL: %r', out['first'], out['second'])
    need(not out['wrong'], 'not configured: %s', out['wrong'][:1])
    return ['built elsewhere']


TESTS = [
    Test('history', gen_history, check_history, quick=4000, nontrivial={'built elsewhere', 'refused'}),
    Test('objects', gen_objects, check_objects, quick=10000, nontrivial={'built elsewhere'}),
    Test('held', gen_held, check_held, quick=6000, nontrivial={'built elsewhere'}),
    Test('names', gen_names, check_names, quick=4000, nontrivial={'built elsewhere', 'refused'}),
    Test('fresh', gen_fresh, check_fresh, quick=80, thorough=1200, nontrivial={'built elsewhere'}),
]
