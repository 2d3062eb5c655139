"""Dictionaries and key sets whose keys are present or absent according to symbolic booleans."""
import builtins
from .core import SBool, mkbool
import z3


def _b(x):
    return x.b if isinstance(x, SBool) else z3.BoolVal(bool(x))


def And(xs):
    xs = [x for x in xs if x is not True]
    return mkbool(z3.And([_b(x) for x in xs])) if xs else True


def Or(xs):
    xs = [x for x in xs if x is not False]
    return mkbool(z3.Or([_b(x) for x in xs])) if xs else False


def Not(x):
    return mkbool(z3.Not(x.b)) if isinstance(x, SBool) else not x


def _pres(o):
    """{element: presence} of any collection"""
    if isinstance(o, (SymSet, SymDict)):
        return dict(o.pres)
    if isinstance(o, _View):
        return dict(o.d.pres)
    return {k: True for k in o}


class SymSet:
    """a set whose elements are present under symbolic conditions"""

    def __init__(self, pres):
        self.pres = {k: v for k, v in pres.items() if v is not False}

    def copy(self):
        return SymSet(self.pres)

    def __contains__(self, k):
        return bool(self.pres.get(k, False))

    def __iter__(self):
        return iter([k for k, p in self.pres.items() if p])

    def __len__(self):
        return sum(1 for k in self)

    def __bool__(self):
        return bool(Or(self.pres.values()))

    def issuperset(self, o):
        o = _pres(o)
        return And([Or([Not(p), self.pres.get(k, False)]) if p is not True else self.pres.get(k, False) for k, p in o.items()])

    def issubset(self, o):
        return SymSet(_pres(o)).issuperset(self)

    def isdisjoint(self, o):
        return Not(Or((self & o).pres.values()))

    def __ge__(self, o):
        return self.issuperset(o)

    def __le__(self, o):
        return self.issubset(o)

    def __eq__(self, o):
        return And([self.issuperset(o), self.issubset(o)])

    def __ne__(self, o):
        return Not(self == o)

    def __gt__(self, o):
        return And([self >= o, self != o])

    def __lt__(self, o):
        return And([self <= o, self != o])
    __hash__ = None

    def __and__(self, o):
        o = _pres(o)
        return SymSet({k: And([p, o[k]]) for k, p in self.pres.items() if k in o})
    __rand__ = __and__

    def __or__(self, o):
        o = _pres(o)
        return SymSet({k: Or([self.pres.get(k, False), o.get(k, False)]) for k in {**self.pres, **o}})
    __ror__ = __or__

    def __sub__(self, o):
        o = _pres(o)
        return SymSet({k: And([p, Not(o.get(k, False))]) for k, p in self.pres.items()})

    def __rsub__(self, o):
        return SymSet(_pres(o)) - self

    def __xor__(self, o):
        o = SymSet(_pres(o))
        return (self - o) | (o - self)
    __rxor__ = __xor__

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & o
        return r

    def union(self, *os):
        r = self
        for o in os:
            r = r | o
        return r

    def difference(self, *os):
        r = self
        for o in os:
            r = r - o
        return r

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self.pres))


class _View(SymSet):
    """keys() of a SymDict"""

    def __init__(self, d):
        self.d = d

    @property
    def pres(self):
        return self.d.pres


class SymDict(dict):
    """a dict with symbolic key presence; reading it forks on the keys read"""

    def __init__(self, values, pres):
        dict.__init__(self, values)
        self.pres = {k: pres.get(k, True) for k in values}

    def __contains__(self, k):
        return bool(self.pres.get(k, False))

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return dict.__getitem__(self, k)

    def get(self, k, default=None):
        return dict.__getitem__(self, k) if k in self else default

    def keys(self):
        return _View(self)

    def __iter__(self):
        return iter(SymSet(self.pres))

    def __len__(self):
        return len(SymSet(self.pres))

    def __bool__(self):
        return bool(SymSet(self.pres))

    def items(self):
        return [(k, dict.__getitem__(self, k)) for k in self]

    def values(self):
        return [dict.__getitem__(self, k) for k in self]

    def copy(self):
        return SymDict({k: dict.__getitem__(self, k) for k in self.pres}, self.pres)

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        self.pres[k] = True

    def pop(self, k, *default):
        if k in self:
            self.pres[k] = False
            return dict.__getitem__(self, k)
        if default:
            return default[0]
        raise KeyError(k)

    def __delitem__(self, k):
        self.pop(k)

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return dict.__getitem__(self, k)

    def __eq__(self, o):
        return dict(self.items()) == o

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def __repr__(self):
        return 'SymDict(%s)' % ', '.join(map(repr, self.pres))


class _SetMeta(type):
    def __call__(cls, *a):
        if a and isinstance(a[0], (SymSet, SymDict)):
            return SymSet(_pres(a[0]))
        return cls.base(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, (cls.base, SymSet))

    def __subclasscheck__(cls, x):
        return issubclass(x, (cls.base, SymSet))

    def __getattr__(cls, name):
        f = getattr(cls.base, name)
        if not callable(f) or name.startswith('__'):
            return f

        def method(x, *a):
            if isinstance(x, SymSet):
                return getattr(x, name)(*a)
            if any(isinstance(y, (SymSet, SymDict)) for y in a):
                return getattr(SymSet(_pres(x)), name)(*a)
            return f(x, *a)
        return method


class Set(metaclass=_SetMeta):
    base = set


class FrozenSet(metaclass=_SetMeta):
    base = frozenset


builtins.__pvsym_set__ = Set
builtins.__pvsym_frozenset__ = FrozenSet
