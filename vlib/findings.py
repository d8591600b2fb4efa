"""Known findings: genuine defects which are recorded and not repaired."""
import json

from .pbt import Violation

_known = {}
SEEN = set()


def load(path, prop):
    with open(path) as f:
        data = json.load(f)
    for item in data['known']:
        if item['property'] == prop:
            _known[item['key']] = item


def finding(key, message):
    """A violation which is exactly the recorded one is noted; otherwise it is raised."""
    if key not in _known:
        raise Violation(message)
    SEEN.add(key)


def describe(key):
    return _known[key]['what']
