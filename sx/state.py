"""Process wide state of the code under test: every run starts from the same one."""
import sys

_saved = {}
LIBS = ('whatami',)
SIMPLE = (type(None), bool, int, float, str, tuple, frozenset, bytes)


def _targets():
    for name, m in sorted(sys.modules.items()):
        if m is not None and name.split('.')[0] in LIBS and '.tests' not in name and '.wrappers' not in name:
            yield m


def remember():
    """Records module and class attributes (the contents of plain dicts, lists and sets too)."""
    _saved.clear()
    for m in _targets():
        _note(m)
        for v in list(vars(m).values()):
            if isinstance(v, type) and getattr(v, '__module__', None) == m.__name__:
                _note(v)


def _note(owner):
    d = {}
    for k, v in list(vars(owner).items()):
        if k.startswith('__') or k.startswith('_sx_'):
            continue
        d[k] = (v, v.copy() if type(v) in (dict, list, set) else None)
    _saved[id(owner)] = (owner, d)


def reset(hard=False):
    for owner, d in _saved.values():
        cur = vars(owner)
        for k, (v, content) in d.items():
            if cur.get(k, _saved) is not v:
                setattr(owner, k, v)
            if content is not None and v != content:
                if type(v) is list:
                    v[:] = content
                else:
                    v.clear()
                    v.update(content)
        for k in [k for k in list(cur) if k not in d and not k.startswith('__') and not k.startswith('_sx_')]:
            try:
                delattr(owner, k)
            except (AttributeError, TypeError):
                pass
        for v in list(cur.values()):
            clear = getattr(v, 'cache_clear', None)
            if clear is not None and callable(clear):
                try:
                    clear()
                except Exception:
                    pass
    if hard:
        parsers = sys.modules.get('whatami.parsers')
        build = getattr(parsers, 'build_whatami_parser', None)
        if build is not None and hasattr(parsers, 'DEFAULT_WHATAMI_PARSER'):
            parsers.DEFAULT_WHATAMI_PARSER = build()
            _note(parsers)
