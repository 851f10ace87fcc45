"""Dictionaries: concrete keys are Python's own; symbolic keys are compared by branching."""
from __future__ import annotations

from . import core
from .core import SStr, SInt, Sym, Unsupported
from .lists import PList, stamp

_MISSING = object()


def sym_key(k):
    return isinstance(k, Sym) or isinstance(k, tuple) and any(isinstance(x, Sym) for x in k)


def same_key(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
            return False
        r = True
        for x, y in zip(a, b):
            r = core.and_(r, same_key(x, y))
        return r
    return core.eq(a, b) if isinstance(a, (str, SStr)) == isinstance(b, (str, SStr)) else False


class PDict(dict):
    _pdict = True

    def __init__(self, *a, **k):
        dict.__init__(self)
        self.born = stamp()
        self.owner = None
        self._fill(*a, **k)

    def _fill(self, *a, **k):
        if a:
            src = a[0]
            if isinstance(src, dict):
                for key, v in dict.items(src):
                    dict.__setitem__(self, key, v)
            else:
                for key, v in src:
                    if sym_key(key):
                        self._put(key, v)
                    else:
                        dict.__setitem__(self, key, v)
        for key, v in k.items():
            dict.__setitem__(self, key, v)

    # -- lookup
    def _find(self, key):
        if not sym_key(key) and not any(sym_key(k) for k in dict.keys(self)):
            return key if dict.__contains__(self, key) else _MISSING
        for k in list(dict.keys(self)):
            if k is key:
                return k
            e = same_key(k, key)
            if e is True or (e is not False and bool(e)):
                return k
        return _MISSING

    def _log(self, **info):
        if core.CTX is not None:
            old = list(dict.items(self))

            def undo():
                dict.clear(self)
                for k, v in old:
                    dict.__setitem__(self, k, v)

            core.CTX.record("dict", self, undo, **info)

    def _put(self, key, v):
        k = self._find(key)
        dict.__setitem__(self, key if k is _MISSING else k, v)

    def check(self, key, v):
        return v

    def __setitem__(self, key, v):
        v = self.check(key, v)
        self._log(op="set", key=key, value=v)
        self._put(key, v)

    def __getitem__(self, key):
        k = self._find(key)
        if k is _MISSING:
            raise KeyError(key)
        return dict.__getitem__(self, k)

    def __contains__(self, key):
        return self._find(key) is not _MISSING

    def get(self, key, default=None):
        k = self._find(key)
        return default if k is _MISSING else dict.__getitem__(self, k)

    def setdefault(self, key, default=None):
        k = self._find(key)
        if k is _MISSING:
            self[key] = default
            return default
        return dict.__getitem__(self, k)

    def pop(self, key, *d):
        k = self._find(key)
        if k is _MISSING:
            if d:
                return d[0]
            raise KeyError(key)
        v = dict.__getitem__(self, k)
        self._log(op="pop", key=k, value=v)
        dict.__delitem__(self, k)
        return v

    def __delitem__(self, key):
        self.pop(key)

    def update(self, *a, **k):
        src = PDict(*a, **k)
        for key, v in dict.items(src):
            self[key] = v

    def clear(self):
        self._log(op="clear", key=None, value=None)
        dict.clear(self)

    def copy(self):
        return PDict(self)

    def popitem(self):
        raise Unsupported("popitem")

    def sym_len(self):
        return dict.__len__(self)

    def __or__(self, o):
        r = PDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def items(self):
        return PList(dict.items(self))

    def values(self):
        return PList(dict.values(self))

    def keys(self):
        return KeyList(dict.keys(self))

    def __eq__(self, o):
        if not isinstance(o, dict) or dict.__len__(self) != len(o):
            return False
        for k, v in dict.items(self):
            if k not in o or not bool(v == o[k]):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class KeyList(PList):
    __slots__ = ()

    def __contains__(self, x):
        return any(k is x or (isinstance(k, (str, SStr)) and bool(core.eq(k, x))) for k in list.__iter__(self))

    def __sub__(self, o):
        return set(list.__iter__(self)) - set(o)

    def __and__(self, o):
        return set(list.__iter__(self)) & set(o)

    def isdisjoint(self, o):
        return not (self & o)


def mapped_dict(seq):
    raise Unsupported("dictionary over a symbolic sequence")
