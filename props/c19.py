"""Flags, options and has()."""
import re

from vlib import gen
from vlib.pbt import Test, Invalid
from vlib.lib import s, exc, DIALECTS, use, render, need
from vlib.model import build, expect, apply_op, a_conds, EXCLUSIVE, OPTIONS
from vlib.common import parsed, norm, compare_with_model
from vlib.history import Handle, some_op, first_ops
from vlib.qgen import G

RULE = ('Random histories of option calls with all sorts of truth values, and of all builder calls with has() asked after each of them (clauses, options, '
        'words of the clause, parts of words, words of other clauses, patterns), on all kinds of queries; a case is non-trivial if at least two options were '
        'called, or a question about a word was asked.')
ASSUMPTIONS = ['has() is asked about documented clause names with a non-empty text without white space around']

FLAGS = [(), (), (True,), (False,), (1,), (0,), (None,), ('x',), ('',), (2.5,), ([],), ([0],)]

# ---------------------------------------------------------------- options of select

def gen_options(src):
    few = src.pick([OPTIONS[:5], OPTIONS, OPTIONS[5:], OPTIONS[:2], OPTIONS[2:5]]) + ('for_update',)
    steps = src.many(lambda: (src.pick(few), src.pick(FLAGS)), 1, 12, 85)
    return (src.pick(DIALECTS), bool(src.n(2)), tuple(steps), src.n(3), src.n(13))


def check_options(spec):
    d, full, steps, mode, cut = spec
    use(d)
    q = s.select()
    if full:
        q.columns('a').from_('t').where(b=1).limit(3)
    on, copies = {}, []

    def verify(q, on, what):
        want = {o.upper() for o in on.values() if o and o != 'for_update'}
        fu = bool(on.get('for_update'))
        head = ' '.join(sorted(want))
        text = render(q)
        body = text
        need(body.startswith('SELECT '), '%s: %r', what, text)
        body = body[len('SELECT '):]
        rest = '"a" FROM "t" WHERE "b" = 1 LIMIT 3' if full else '*'
        if d == 'mysql':
            rest = rest.replace('"', '`')
        need(body.endswith(' FOR UPDATE') == fu, '%s: FOR UPDATE in %r, expected %s', what, text, fu)
        if fu:
            body = body[:-len(' FOR UPDATE')]
        need(body.endswith(rest), '%s: %r does not end by %r', what, text, rest)
        got = body[:-len(rest)].split()
        need(sorted(got) == sorted(want), '%s: options %r, expected %s', what, text, head)
        for o in OPTIONS:
            for name in (o, o.upper()):
                need(bool(q.has(name)) == (o.upper() in want), '%s: has(%r) is %r in %r', what, name, q.has(name), text)
                need(bool(q.has('select_options', name)) == (o.upper() in want), '%s: has(select_options, %r) is %r in %r', what, name, q.has('select_options', name), text)
        need(bool(q.has('select_options')) == bool(want), '%s: has(select_options) in %r', what, text)
        need(bool(q.has('select_for_update')) == fu, '%s: has(select_for_update) in %r', what, text)
        for name in ('sql', 'cache', 'SQL_', 'distinct.', 'dist.nct', '.*', 'a', 'row', '(', 'sql_cache|all', 'D', 'result', 'xxx', 'for', 'ignore', 'sql cache', 'SQL CACHE', 'sql-cache', 'sqlcache', 'straight join', 'distinct row', 'cache sql', 'off', 'on', 'no_cache', '_'):
            need(not q.has('select_options', name), '%s: has(select_options, %r) in %r', what, name, text)
    for i, (name, flag) in enumerate(steps):
        r = getattr(q, name)(*flag)
        need(r is not None, '%s returns nothing', name)
        on = dict(on)
        on[EXCLUSIVE.get(name, name)] = name if (bool(flag[0]) if flag else True) else None
        if mode == 1:
            verify(q, on, 'step %d' % i)
        if i == cut:
            copies.append((q.copy(), on))
    verify(q, on, 'end')
    for c, o in copies:
        verify(c, o, 'copy')
    verify(s.select().columns('a').from_('t').where(b=1).limit(3) if full else s.select(), {}, 'new query')
    return [d, '%d set' % sum(bool(v) for v in on.values())] + (['rich'] if len(steps) > 1 else [])


# ---------------------------------------------------------------- ignore

IGN = {
    'insert': (lambda: s.insert_into('t').values(a=1), 'INSERT', ' INTO "t" ("a") VALUES (1)'),
    'update': (lambda: s.update('t').set(a=1).where(b=2), 'UPDATE', ' "t" SET "a" = 1 WHERE "b" = 2'),
    'delete': (lambda: s.delete('t').from_('t').where(b=2), 'DELETE', ' "t" FROM "t" WHERE "b" = 2'),
}


def gen_ignore(src):
    return (src.pick(DIALECTS), src.pick(sorted(IGN)), tuple(src.many(lambda: src.pick(FLAGS), 0, 6, 75)))


def check_ignore(spec):
    d, kind, flags = spec
    use(d)
    make, head, tail = IGN[kind]
    q = make()
    on = False
    for f in flags + ((),) * 0:
        getattr(q, 'ignore')(*f)
        on = bool(f[0]) if f else True
        want = head + (' IGNORE' if on else '') + tail
        if d == 'mysql':
            want = want.replace('"', '`')
        for x in (q, q.copy()):
            need(render(x) == want, '%r is rendered, expected %r', render(x), want)
            need(bool(x.has(kind + '_options')) == on, 'has(%s_options) is %r', kind, x.has(kind + '_options'))
            for w in ('ignore', 'IGNORE', 'Ignore'):
                need(bool(x.has(kind + '_options', w)) == on, 'has(%s_options, %r) is %r', kind, w, x.has(kind + '_options', w))
            for w in ('ign', 'ignored', 'i.nore', '.*', 'i'):
                need(not x.has(kind + '_options', w), 'has(%s_options, %r) is true', kind, w)
    return [d, kind] + (['rich'] if len(flags) > 1 else [])


# ---------------------------------------------------------------- has() in histories

# clause: (methods, what is before and after it if it is alone)
CLAUSES = {
    'select': {
        'columns': (('columns',), 'SELECT ', ''),
        'tables': (('from_', 'from_table', 'from_tables', 'join', 'on'), 'SELECT * ', ''),
        'where': (('where',), 'SELECT * ', ''),
        'having': (('having',), 'SELECT * ', ''),
        'group_by': (('group_by',), 'SELECT * ', ''),
        'order_by': (('order_by',), 'SELECT * ', ''),
        'limit': (('limit', 'offset'), 'SELECT * ', ''),
        'into_outfile': (('into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by'), 'SELECT * ', ''),
    },
    'insert': {'tables': (('into',), 'INSERT INTO ', ''), 'values': (('values',), 'INSERT INTO ', '')},
    'update': {'tables': (('table', 'join', 'on'), 'UPDATE ', ' SET'), 'values': (('set',), 'UPDATE SET ', ''), 'where': (('where',), 'UPDATE SET ', '')},
    'delete': {'references': (('from_', 'from_table', 'from_tables', 'join', 'on'), 'DELETE FROM ', ''), 'tables': (('targets',), 'DELETE ', ' FROM'),
               'where': (('where',), 'DELETE FROM ', '')},
}
KEYWORDS = re.compile('select|from|where|having|group|by|order|limit|offset|into|outfile|values|set|update|delete|insert', re.I)


def part_ops(kind, clause, ops):
    methods = CLAUSES[kind][clause][0]
    out = tuple(op for op in ops if op[0] in methods)
    if kind in ('update', 'delete'):
        out += (('raw', 'allow_%s_all' % kind),)
    return out


def is_set(kind, clause, ops, d):
    ops = [op for op in ops if op[0] in CLAUSES[kind][clause][0]]
    if clause in ('where', 'having'):
        return any(a_conds(op[1], d) for op in ops)
    if clause == 'limit':
        st = dict(expect(('select', tuple(ops)), d)[1])
        return 'limit' in st or 'offset' in st
    if clause == 'into_outfile':
        return any(op[0] == 'into_outfile' for op in ops)
    return bool(ops)


def clause_text(kind, clause, ops, d):
    _, head, tail = CLAUSES[kind][clause]
    text = render(build((kind, part_ops(kind, clause, ops)), d))
    if not text.startswith(head) or not text.endswith(tail):
        raise Invalid
    return text[len(head):len(text) - len(tail)] if tail else text[len(head):]


def word_in(word, text):
    """Literal occurrence which is not a part of a longer word."""
    at = text.find(word)
    while at >= 0:
        before, after = text[at - 1:at], text[at + len(word):at + len(word) + 1]
        if not (before and wordy(before)) and not (after and wordy(after)):
            return True
        at = text.find(word, at + 1)
    return False


def wordy(c):
    return c == '_' or c.isalnum()


def texts_of(x, out):
    if isinstance(x, str):
        out.append(x)
    elif isinstance(x, (tuple, list)):
        for i in x:
            texts_of(i, out)
    elif isinstance(x, int) and not isinstance(x, bool):
        out.append(str(x))
    return out


def question(src, kind, ops):
    """(clause, kind of the question, number): the word itself is derived while checking."""
    return (src.pick(sorted(CLAUSES[kind])), src.pick(['set', 'own', 'own', 'own', 'part', 'pattern', 'other', 'text', 'around']), src.n(1000), src.n(1000), gen.fragment(src))


def gen_has(src):
    d = src.pick(DIALECTS)
    g = G(src, d, plain=75, texts=30, exprs=10, depth=1)
    kind = src.pick(['select', 'select', 'insert', 'update', 'delete'])
    ops = list(first_ops(g, kind))
    steps = []

    def step():
        op = None
        if src.chance(60):
            op = some_op(g, kind, ops)
            ops.append(op)
        steps.append((op, tuple(question(src, kind, ops) for _ in range(src.between(1, 4)))))
    first = tuple(ops)
    src.many(step, 1, 6, 75)
    return (d, kind, first, tuple(steps))


PATTERNS = [lambda w: w[:-1] + '.', lambda w: w + '?', lambda w: w + '|zzz', lambda w: '[' + w + ']', lambda w: '(' + w + ')', lambda w: w + '*', lambda w: '^' + w,
            lambda w: w + '$', lambda w: '.*', lambda w: r'\w+', lambda w: w[:1] + '.*', lambda w: '(', lambda w: '[', lambda w: '*', lambda w: '\\', lambda w: '(?i)' + w,
            lambda w: '.', lambda w: w + '+', lambda w: w + '{1}', lambda w: r'\b', lambda w: '|']


def word_of(q, text, ops):
    """The asked word."""
    clause, how, n, m, frag = q
    words = re.findall(r'\w+', text) or ['a']
    w = words[n % len(words)]
    if how == 'own':
        return w
    if how == 'part':
        return (w[1:] if m % 2 else w[:-1]) or w + 'x'
    if how == 'pattern':
        return PATTERNS[m % len(PATTERNS)](w)
    if how == 'other':
        ts = texts_of(ops, []) or ['b']
        return ts[n % len(ts)]
    if how == 'around':
        i = n % (len(text) or 1)
        return text[i:i + 1 + m % 8]
    return frag


def check_has(spec):
    d, kind, first, steps = spec
    use(d)
    h = Handle(kind, list(first), d)
    labels = [d, kind]
    for op, questions in steps:
        if op is not None:
            h.apply(op)
        for q in questions:
            clause = q[0]
            on = is_set(kind, clause, h.ops, d)
            if clause == 'columns' and not on:
                continue        # the default *
            if q[1] == 'set':
                need(bool(h.obj.has(clause)) == on, 'has(%r) is %r after %r', clause, h.obj.has(clause), h.ops)
                labels.append('set: %s' % on)
                continue
            text = clause_text(kind, clause, h.ops, d) if on else ''
            word = word_of(q, text, tuple(h.ops))
            if not word or word != word.strip() or KEYWORDS.search(word):
                continue
            want = on and word_in(word, text)
            got = h.obj.has(clause, word)
            need(bool(got) == want, 'has(%r, %r) is %r, clause is %r', clause, word, got, text)
            labels += ['rich', '%s: %s' % (q[1], want)]
        for name in ('xxx', 'wher', 'Where', '_where', 'where ', '.*', 'union'):
            need(not h.obj.has(name), 'has(%r) is true', name)
    h.verify()
    return labels


TESTS = [
    Test('options', gen_options, check_options, quick=8000, nontrivial={'rich'}),
    Test('ignore', gen_ignore, check_ignore, quick=2500, nontrivial={'rich'}),
    Test('has', gen_has, check_has, quick=16000, nontrivial={'rich'}),
]
