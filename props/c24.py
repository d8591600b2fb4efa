"""Threads."""
import json
import os
import subprocess
import sys

from vlib import pbt
from vlib.pbt import Test
from vlib.lib import s, rel, exc, DIALECTS, use, need, REPO
from vlib.model import build, b_expr, b_cond
from vlib.sched import Threads, alone
from vlib.qgen import G

RULE = ('2-3 threads, each building, copying, comparing and rendering its own queries, or all of them working with shared queries, conditions and functions (without '
        'changing them), under a generated schedule: 1-8 switches at chosen lines or bytecode instructions of the library, or up to 40 switches at every k-th of them; results '
        'have to be those of the same program running alone; a case is non-trivial if at least two switches happened inside of the library.')

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def schedule(src, n):
    """Fractions of the run (of 10000), or a period."""
    if src.chance(20):
        return ('every', src.n(10000), src.between(1, 30))
    return ('at', tuple(tuple(src.n(10000) for _ in range(src.between(1, 4))) for _ in range(n)))


def points(sched, lengths):
    if sched[0] == 'every':
        return [frozenset(range(1 + sched[1] * length // 10000, length + 1, sched[2])[:150]) for length in lengths]
    return [frozenset(1 + p * length // 10000 for p in ps) for ps, length in zip(sched[1], lengths)]


def text(o):
    try:
        return str(o)
    except exc.SqlPuzzleException as e:
        return ('exception', type(e).__name__)


def compare(spec_sched, opcodes, make, n, cold):
    """Results of n programs together and alone. make(i) -> program i over its own fresh objects."""
    if cold:
        # Nothing of this was done before; lengths are guessed.
        t = Threads([make(i) for i in range(n)], points(spec_sched, [400 if not opcodes else 4000] * n), opcodes)
        got = t.run()
        want = [alone(make(i))[0] for i in range(n)]
    else:
        solo = [alone(make(i), opcodes) for i in range(n)]
        want = [r for r, _ in solo]
        t = Threads([make(i) for i in range(n)], points(spec_sched, [k for _, k in solo]), opcodes)
        got = t.run()
    for i in range(n):
        if got[i] != want[i]:
            need(False, 'thread %d of %d gives %r, alone %r', i, n, got[i], want[i])
    return ['switched'] if t.switches >= 2 else ['few switches']


# ---------------------------------------------------------------- own queries

def some_query(g):
    src = g.src
    k = src.n(10)
    if k < 5:
        return g.select(lo=2, hi=8)
    if k < 6:
        a, b = g.select(lo=1, hi=3), g.select(lo=1, hi=3)
        return ('union', src.pick('&|'), a, b)
    return (g.insert, g.update, g.delete, g.insert)[k - 6]()


def gen_own(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=85, texts=20, exprs=20, depth=2)
    n = src.between(2, 3)
    same = src.chance(20)
    first = some_query(g)
    qs = (first,) * n if same else (first,) + tuple(some_query(g) for _ in range(n - 1))
    return (d, qs, schedule(src, n), src.chance(20), src.chance(30))


def own_program(q, d):
    def program():
        o = build(q, d)
        a = text(o)
        c = o.copy()
        return (a, text(c), c == o, text(o), hasattr(o, 'has') and (o.has('where'), o.has('where', 'id')))
    return program


def check_own(spec):
    d, qs, sched, opcodes, cold = spec
    use(d)
    return [d] + compare(sched, opcodes, lambda i: own_program(qs[i], d), len(qs), cold)


# ---------------------------------------------------------------- shared objects

def gen_shared(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=85, texts=20, exprs=25, depth=2)
    n = src.between(2, 3)
    q = joined(g) if src.chance(35) else g.select(lo=2, hi=8)
    cond = g.qtree(src.n(4))
    f = g.func()
    work = tuple(tuple(src.many(lambda: src.n(11), 1, 4, 60)) for _ in range(n))
    return (d, q, cond, f, work, schedule(src, n), src.chance(20), src.chance(30))


def joined(g):
    """SELECT with joins of which some are the same."""
    src = g.src
    ops = [('from_', 'args', (('t', None),))]
    for _ in range(src.between(2, 6)):
        ops.append(('join', src.pick(('join', 'left_join', 'left_join', 'right_join')), src.pick('uv'), None, 'str'))
        if src.chance(80):
            ops.append(('on', ('pairs', 'pair', (('t.a', src.pick(['u.a', 'u.b'])),))))
    return ('select', tuple(ops) + tuple(src.many(lambda: ('where', g.form(simple=True)), 0, 1, 40)))


def shared_program(q, twin, cond, f, work, k):
    def program():
        out = []
        for w in work:
            if w == 0:
                out.append(text(q))
            elif w == 1:
                out.append(text(s.select('x%d' % k).from_((q, 'al')).where(cond)))
            elif w == 2:
                c = q.copy()
                c.where(zz=k).limit(k + 1)
                out.append((text(c), text(q)))
            elif w == 3:
                out.append(text(s.select(f, ('c%d' % k, 'b')).order_by(f)))
            elif w == 4:
                out.append(text(s.update('u%d' % k).set(a=k).where(cond).where(b=rel.IN(q))))
            elif w == 5:
                out.append(text(s.select_from('t').where(cond & s.Q(z=k)).having(cond | s.Q(y=k))))
            elif w == 6:
                out.append((q == q.copy(), q != s.select('x'), repr(q), q.has('where'), q.has('columns', 'a')))
            elif w == 7:
                out.append(text(q & s.select('y%d' % k)))
            elif w == 8:
                out.append((q == twin, twin == q, q != twin))
            elif w == 9:
                c = q.copy()
                out.append((c == q, c == twin))
                c.from_('w').join('u').on('w.a', 'u.b')
                out.append((text(c), c == q))
            else:
                out.append(text(s.insert_into('t%d' % k).values(a=q, b=k).values(c="'%d" % k)))
        return out
    return program


def check_shared(spec):
    d, q, cond, f, work, sched, opcodes, cold = spec
    use(d)
    shared = (build(q, d), build(q, d), b_cond(cond, d), b_expr(f, d))
    labels = compare(sched, opcodes, lambda i: shared_program(*shared, work[i], i), len(work), cold)
    fresh = build(q, d)
    need(text(shared[0]) == text(fresh) and shared[0] == fresh, 'shared query is changed: %r, expected %r', text(shared[0]), text(fresh))
    need(text(shared[2]) == text(b_cond(cond, d)) and text(shared[3]) == text(b_expr(f, d)), 'shared condition or function is changed')
    return [d] + labels


# ---------------------------------------------------------------- one small thing in each thread

def words(k):
    return ['w%d' % k, 'a%d' % k, 't%d' % k]


PARTS = [('columns', 0), ('where', 1), ('tables', 2), ('order_by', 0), ('having', 1), ('group_by', 0)]


def small(k, shape, d):
    """Small queries, which differ in every name."""
    a, w, t = words(k)
    return [
        lambda: s.select(a).from_(t).where(w, 1).having(w, 2).order_by(a).group_by(a),
        lambda: s.select(s.V(w), s.max(a), s.concat(a, w)).from_((t, w)),
        lambda: s.select_from(t).left_join((w, a)).on(a + '.x', t + '.y').left_join((w, a)).on(t + '.y', a + '.x').limit(k, k + 1),
        lambda: s.insert_into(t).values({a: k, w: "'%d" % k}).values({w: None}),
        lambda: s.update(t).set(a, w).where(s.Q(a, k) | s.Q(w, [k, None])),
        lambda: s.delete(t).from_(t).where(s.Not(a, rel.LIKE(w))),
        lambda: s.select(a) | (s.select(w) & s.select(t)),
        lambda: s.select(s.group_concat(a).order_by((w, 'desc')).separator(t), s.count_distinct([a, w])).distinct(bool(k % 2)).sql_cache(),
        lambda: s.select_from((s.select(a).where(w, s.V(b'x%d' % k)), t)).where(s.exists(s.select(w))).into_outfile(w),
    ][shape]()


def narrow_program(k, shape, what, d):
    a, w, t = words(k)
    o, other = small(k, shape, d), small(k + 1, shape, d)
    alike = small(k, shape, d)

    def program():
        if what == 0:
            return text(o)
        if what == 1:
            return [o.has(p, words(j)[i]) for p, i in PARTS for j in (0, 1)] if hasattr(o, 'has') else None
        if what == 2:
            return (text(o.copy()), text(o))
        if what == 3:
            return (o == alike, o == other, alike == o, o != alike)
        if what == 4:
            return text(small(k, shape, d))
        if what == 5:
            return [text(x) for x in sorted([s.C(t), s.V(w), s.R(a), s.Q(a, w)], key=text)] + [s.V(w) == text(s.V(w)), s.C(w) < s.C(t)]
        if what == 6:
            return (repr(o), '%s' % o, o.tosql())
        if what == 7:
            return [text(q) for q in (s.select({a: w, t: 'x'}), s.select_from('t').where({w: 1, a: 2}, b=3), s.select('z').order_by(a, (w, 'desc')))]
        try:
            s.select_from(t).where(w, object())
        except exc.InvalidArgumentException:
            pass
        return text(o)
    return program


def gen_narrow(src):
    n = src.between(2, 3)
    what, shape = src.n(9), src.n(9)
    jobs = tuple((shape, what) if src.chance(60) else (src.n(9), src.n(9)) for _ in range(n))
    sched = ('every', src.n(3000), src.between(1, 5)) if src.chance(50) else schedule(src, n)
    return (src.pick(DIALECTS), jobs, sched, src.chance(35), src.chance(15))


def check_narrow(spec):
    d, jobs, sched, opcodes, cold = spec
    use(d)
    return [d] + compare(sched, opcodes, lambda i: narrow_program(i, jobs[i][0], jobs[i][1], d), len(jobs), cold)


# ---------------------------------------------------------------- new processes

CHILD = r'''
import json, sys
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from vlib import pbt
from props import c24
spec = pbt.dec(json.load(sys.stdin))
test = {t.name: t for t in c24.TESTS}[sys.argv[2]]
labels, msg = pbt.judge(test, spec)
print(json.dumps({'labels': labels, 'message': msg}))
'''


def gen_fresh(src):
    if src.chance(50):
        return ('own', gen_own(src)[:-1] + (True,))
    return ('shared', gen_shared(src)[:-1] + (True,))


def check_fresh(spec):
    r = subprocess.run([sys.executable, '-c', CHILD, HERE, spec[0]], input=json.dumps(pbt.enc(spec[1])), capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=REPO), timeout=300)
    if r.returncode:
        raise RuntimeError('new process fails: %s' % r.stderr[-600:])
    out = json.loads(r.stdout.splitlines()[-1])
    need(out['message'] is None, 'in a new process: %s', out['message'])
    return out['labels']


TESTS = [
    Test('own', gen_own, check_own, quick=2500, nontrivial={'switched'}),
    Test('narrow', gen_narrow, check_narrow, quick=2500, nontrivial={'switched'}),
    Test('shared', gen_shared, check_shared, quick=2500, nontrivial={'switched'}),
    Test('fresh', gen_fresh, check_fresh, quick=100, thorough=1500, nontrivial={'switched'}),
]
