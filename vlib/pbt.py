"""A small property-based testing engine.

A generator draws from a `Src` and returns a plain, serialisable spec (a tree of
tuples and values).  Every draw is one integer, so a case is the sequence of its
draws: it is replayed and shrunk as a sequence of integers (smaller integer =
simpler draw, 0 = the simplest), and the spec which results is what is stored in
the replay file.  Every case has its own generator seeded by
(VERIF_SEED, property, test, index), so a run is a pure function of the code
and the seed, independent of the number of processes and of timing.
"""
import datetime
import decimal
import hashlib
import json
import random
import signal
import time
import traceback

from .lexer import SqlError


class Violation(Exception):
    """The property does not hold."""


class Invalid(Exception):
    """The generated case is outside of the domain (counted, not judged)."""


class Src:
    __slots__ = ('rng', 'rep', 'pos', 'rec', 'limit')

    def __init__(self, seed=None, replay=None, limit=4000):
        self.rng = random.Random(seed) if replay is None else None
        self.rep = replay
        self.pos = 0
        self.rec = []
        self.limit = limit

    def n(self, k):
        """Integer 0..k-1."""
        if k <= 1:
            return 0
        rep = self.rep
        if rep is not None:
            v = rep[self.pos] if self.pos < len(rep) else 0
            self.pos += 1
            if v >= k:
                v = k - 1
        elif len(self.rec) >= self.limit:
            v = 0
        else:
            v = int(self.rng.random() * k)
        self.rec.append(v)
        return v

    def between(self, lo, hi):
        return lo + self.n(hi - lo + 1)

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def chance(self, num, den=100):
        return self.n(den) >= den - num

    def weighted(self, *pairs):
        """pairs of (weight, thunk); the first one should be the simplest."""
        total = 0
        for w, _ in pairs:
            total += w
        v = self.n(total)
        for w, thunk in pairs:
            v -= w
            if v < 0:
                return thunk() if callable(thunk) else thunk
        raise AssertionError

    def many(self, fn, lo=0, hi=4, cont=60):
        """List of lo..hi items, each next one with probability `cont` %."""
        out = [fn() for _ in range(lo)]
        while len(out) < hi and self.chance(cont):
            out.append(fn())
        return out

    def shuffled(self, items):
        items = list(items)
        out = []
        while items:
            out.append(items.pop(self.n(len(items))))
        return out


class Test:
    """gen(src) -> spec;  check(spec) -> iterable of labels, raises Violation.

    nontrivial: set of labels, one of which makes a case non-trivial (or None =
    each case which is not Invalid counts)."""

    def __init__(self, name, gen, check, quick=8000, thorough=None, nontrivial=None):
        self.name = name
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 30
        self.nontrivial = nontrivial


# -- running of one case

REPO_MARK = ['/repo/sqlpuzzle/']


class Timeout(BaseException):
    pass


CASE_CPU_SECONDS = 60.0     # a case takes milliseconds


def _on_alarm(signum, frame):
    raise Timeout


def judge(test, spec):
    """Returns (labels, message of violation or None).

    Any exception which is not expected by the check counts as a violation: on
    the unchanged tree there is none."""
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
    try:
        return list(test.check(spec)), None
    except Invalid:
        return ['invalid'], None
    except (Violation, SqlError) as exc:
        return [], '%s: %s' % (type(exc).__name__, exc)
    except Timeout:
        return [], 'the case does not finish in %d s of CPU time' % CASE_CPU_SECONDS
    except (MemoryError, OSError):
        raise
    except Exception as exc:  # pylint: disable=broad-except
        last = traceback.extract_tb(exc.__traceback__)[-1]
        return [], 'unexpected %s: %s (%s:%s)' % (type(exc).__name__, exc, last.filename, last.lineno)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


# -- shrinking

def shrink(test, rec, seconds=15.0, attempts=4000):
    """Choice-sequence shrinking: delete, zero and lower draws while it fails."""
    deadline = time.monotonic() + seconds
    state = {'tries': 0}

    def attempt(cand):
        if state['tries'] >= attempts or time.monotonic() > deadline:
            return None
        state['tries'] += 1
        src = Src(replay=cand)
        try:
            spec = test.gen(src)
            _, msg = judge(test, spec)
        except Exception:  # pylint: disable=broad-except
            return None
        if msg is None:
            return None
        got = src.rec
        while got and got[-1] == 0:
            got = got[:-1]
        if (len(got), got) < (len(best[0]), best[0]):
            return list(got), spec, msg
        return None

    src = Src(replay=rec)
    spec = test.gen(src)
    _, msg = judge(test, spec)
    best = [list(src.rec), spec, msg]
    if msg is None:
        return best
    improved = True
    while improved and state['tries'] < attempts and time.monotonic() < deadline:
        improved = False
        for size in (64, 32, 16, 8, 5, 4, 3, 2, 1):
            i = len(best[0]) - size
            while i >= 0:
                got = attempt(best[0][:i] + best[0][i + size:])
                if got:
                    best[:] = got
                    improved = True
                    i = min(i, len(best[0])) - size
                else:
                    i -= 1 if size < 8 else size // 2
        i = 0
        while i < len(best[0]):
            v = best[0][i]
            for w in sorted({0, v // 2, v - 1}):
                if 0 <= w < v:
                    got = attempt(best[0][:i] + [w] + best[0][i + 1:])
                    if got:
                        best[:] = got
                        improved = True
                        break
            i += 1
    return best


# -- serialisation of specs

def enc(v):
    if v is None or isinstance(v, bool):
        return v
    if type(v) is str:
        return v
    if type(v) is int:
        return v if abs(v) < 2 ** 53 else {'i': str(v)}
    if isinstance(v, float):
        return {'f': repr(v)}
    if isinstance(v, decimal.Decimal):
        return {'D': str(v)}
    if isinstance(v, bytes):
        return {'y': v.hex()}
    if isinstance(v, datetime.datetime):
        return {'dt': v.isoformat()}
    if isinstance(v, datetime.date):
        return {'da': v.isoformat()}
    if isinstance(v, range):
        return {'r': [v.start, v.stop, v.step]}
    if isinstance(v, tuple):
        return {'t': [enc(i) for i in v]}
    if isinstance(v, list):
        return [enc(i) for i in v]
    if isinstance(v, dict):
        return {'d': [[enc(k), enc(i)] for k, i in v.items()]}
    raise TypeError('spec contains %r' % (v,))


def dec(v):
    if isinstance(v, list):
        return [dec(i) for i in v]
    if isinstance(v, dict):
        (tag, x), = v.items()
        return {
            'i': lambda: int(x),
            'f': lambda: float(x),
            'D': lambda: decimal.Decimal(x),
            'y': lambda: bytes.fromhex(x),
            'dt': lambda: datetime.datetime.fromisoformat(x),
            'da': lambda: datetime.date.fromisoformat(x),
            'r': lambda: range(*x),
            't': lambda: tuple(dec(i) for i in x),
            'd': lambda: {dec(k): dec(i) for k, i in x},
        }[tag]()
    return v


def dumps(spec):
    return json.dumps(enc(spec), ensure_ascii=True)


def loads(text):
    return dec(json.loads(text))


def case_seed(seed, prop, test, index):
    h = hashlib.blake2b(('%d:%s:%s:%d' % (seed, prop, test, index)).encode(), digest_size=8)
    return int.from_bytes(h.digest(), 'big')


def digest(spec):
    return int.from_bytes(hashlib.blake2b(repr(spec).encode('utf-8', 'backslashreplace'), digest_size=8).digest(), 'big')
