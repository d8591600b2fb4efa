"""Loading of the code under test; only its public API is used."""
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

from . import pbt  # noqa
pbt.REPO_MARK[0] = os.path.join(os.path.realpath(REPO), 'sqlpuzzle') + os.sep

import sqlpuzzle as s  # noqa
from sqlpuzzle import relations as rel, exceptions as exc  # noqa

if not os.path.realpath(s.__file__).startswith(pbt.REPO_MARK[0]):
    raise RuntimeError('sqlpuzzle was loaded from %s' % s.__file__)
pbt.REPO_MARK[0] = os.path.dirname(s.__file__) + os.sep

DIALECTS = ('sql', 'mysql', 'postgresql', 'sqlite')

from .pbt import Violation  # noqa


def use(dialect):
    s.configure(dialect)


def render(obj):
    """str(obj), which has to be a text."""
    try:
        text = str(obj)
    except TypeError as e:
        if '__str__ returned' in str(e):
            raise Violation('rendering does not give text: %s' % e)
        raise
    return text


def render_also_copy(obj):
    """As `render`, and sometimes a copy of the query is compared."""
    text = render(obj)
    if len(text) % 4 == 0 and hasattr(obj, 'copy'):
        other = render(obj.copy())
        need(other == text, 'copy is rendered as %r, the query as %r', other, text)
    return text


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def outcome(fn):
    """('ok', result) or ('exc', exception class); for comparing two runs."""
    try:
        return ('ok', fn())
    except Violation:
        raise
    except Exception as e:  # pylint: disable=broad-except
        return ('exc', type(e).__name__)
