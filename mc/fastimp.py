"""Function-level import statements are very slow under Jython; successful ones are remembered here."""
import __builtin__
import sys

_orig = __builtin__.__import__
_cache = {}


def _imp(*a, **k):
    key = None
    if not k and a:
        n = len(a)
        try:
            g = a[1] if n > 1 else None
            key = (a[0], g['__name__'] if g else None, a[3] if n > 3 else None, a[4] if n > 4 else -1)
            r = _cache.get(key)
            if r is not None:
                return r
        except (TypeError, KeyError, IndexError):
            key = None
    r = _orig(*a, **k)
    if key is not None and sys.modules.get(a[0]) is not None and '*' not in (key[2] or ()):
        _cache[key] = r
    return r


def install():
    __builtin__.__import__ = _imp
