"""State of the real objects of a system, for merging explored states.

`real_state(system)` finds every object of the library under test which can be reached from a system (its attributes,
containers, closures and bound methods) and describes all of their attributes, recursively, whether public or hidden: two
histories are merged only if they leave the real objects, not merely the reference model, in the same state.  Objects are
numbered in order of discovery, so that aliasing is part of the description but addresses aren't.
"""
import datetime
import decimal
import enum
import fractions
import functools
import hashlib
import types

LEAVES = (str, bytes, bool, type(None), complex, datetime.date, datetime.timedelta, datetime.tzinfo)
SKIP = {'creation_order'}           # a serial number of the process; the order of discovery stands for it
_lib, _shared = {}, {}


def _is_lib(cls):
    if cls not in _lib:
        _lib[cls] = any((c.__module__ or '').split('.')[0] == 'forecaster' for c in cls.__mro__)
    return _lib[cls]


def _shared_attrs(cls):
    """Mutable attributes of the library's classes themselves."""
    if cls not in _shared:
        _shared[cls] = [(c, k) for c in cls.__mro__ if (c.__module__ or '').split('.')[0] == 'forecaster'
                        for k, v in vars(c).items()
                        if isinstance(v, (dict, list, set)) and not k.startswith('__') and not k.startswith('_recorded_properties')]
    return _shared[cls]


def _number(x):
    try:
        return '%s %.9g' % (type(x).__name__, float(x)) if abs(x) < 1e15 else '%s %s' % (type(x).__name__, x)
    except (TypeError, ValueError, OverflowError):
        return '%s %s' % (type(x).__name__, x)


def _leaf(x):
    if isinstance(x, enum.Enum) or isinstance(x, LEAVES):
        return repr(x)
    if isinstance(x, int):
        return 'int' if abs(x) > 10 ** 9 else '%d' % x          # large integers: identities used as keys
    if isinstance(x, (float, decimal.Decimal, fractions.Fraction)):
        return _number(x)
    return None


def _order(x):
    return (getattr(x, 'creation_order', -1), _leaf(x) or '') if not isinstance(x, tuple) else (-1, repr([_order(y) for y in x]))


class Walk:
    def __init__(self):
        self.out, self.seen, self.keep, self.inside, self.count = [], {}, [], 0, 0

    def say(self, token):
        if self.inside:
            self.out.append(token)

    def walk(self, x):
        leaf = _leaf(x)
        if leaf is not None:
            self.say(leaf)
            return
        if isinstance(x, (type, types.ModuleType, types.BuiltinFunctionType, types.CodeType)):
            self.say(getattr(x, '__qualname__', None) or getattr(x, '__name__', '?'))
            return
        if id(x) in self.seen:
            self.say('@%s' % self.seen[id(x)])
            # something first met outside of the library's objects has to be described once met inside
            if not (self.inside and self.seen[id(x)] is None):
                return
        lib = _is_lib(type(x))
        if lib or self.inside:
            self.count += 1
            self.seen[id(x)] = self.count
        else:
            self.seen[id(x)] = None
        self.keep.append(x)                     # keeps temporary objects (and so their identities) alive
        self.inside += lib
        self.say('<%s' % type(x).__qualname__)
        self.content(x, lib)
        self.say('>')
        self.inside -= lib

    def content(self, x, lib):
        if isinstance(x, types.FunctionType):
            self.say(x.__qualname__)
            for c in x.__closure__ or ():
                try:
                    self.walk(c.cell_contents)
                except ValueError:
                    pass
            self.walk(x.__defaults__)
            self.walk(x.__kwdefaults__)
            return
        if isinstance(x, types.MethodType):
            self.say(x.__func__.__qualname__)
            self.walk(x.__self__)
            return
        if isinstance(x, functools.partial):
            self.walk((x.func, x.args, x.keywords))
            return
        if isinstance(x, dict):
            items = list(dict.items(x))         # in order of insertion, which iteration over it would show
            for k, v in items:
                self.walk(k)
                self.walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                self.walk(v)
        elif isinstance(x, (set, frozenset)):
            for v in sorted(x, key=_order):
                self.walk(v)
        d = getattr(x, '__dict__', None)
        if isinstance(d, dict):
            for k in sorted(d):
                if k not in SKIP:
                    self.say(k)
                    self.walk(d[k])
        for c in type(x).__mro__:
            for k in getattr(c, '__slots__', ()) if isinstance(getattr(c, '__slots__', ()), (tuple, list)) else ():
                if hasattr(x, k) and k not in ('__dict__', '__weakref__'):
                    self.walk(getattr(x, k))
        if lib:
            for c, k in _shared_attrs(type(x)):
                self.say(k)
                self.walk(vars(c).get(k))


def real_state(system):
    w = Walk()
    w.walk(system)
    return hashlib.blake2b('\x00'.join(w.out).encode(), digest_size=8).hexdigest()
