"""C23: values survive writing to and reading from files; readers and defaults are independent."""
import atexit
import copy
import itertools
import json
import math
import os
import shutil
import tempfile
from decimal import Decimal
from ..engine import Enum, Hist, Fail
from ..lib import *
from forecaster import Settings
from forecaster.canada import SettingsCanada
from forecaster.canada.constants import ConstantsCanada
from forecaster.value_reader import ValueReader, ValueReaderAttribute as Attr

_DIR = {}


def scratch():
    """A scratch folder of this process (removed at exit)."""
    pid = os.getpid()
    if pid not in _DIR:
        _DIR.clear()
        _DIR[pid] = tempfile.mkdtemp(prefix='verif-c23-')
        from multiprocessing.util import Finalize
        Finalize(None, shutil.rmtree, args=(_DIR[pid],), kwargs=dict(ignore_errors=True), exitpriority=1)
        atexit.register(shutil.rmtree, _DIR[pid], ignore_errors=True)
    return _DIR[pid]


# Cases hold values in a tagged text form, as they must themselves be JSON.
def dec(x):
    """Tagged case value -> Python value."""
    if isinstance(x, dict):
        if 'D' in x:
            return Decimal(x['D'])
        if 'inf' in x:
            return INF * x['inf']
        return {dec(k): dec(v) for k, v in x['map']}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def as_text(s, hp):
    """What a text becomes when read: a number if it is one (documented)."""
    try:
        f = float(s)
    except ValueError:
        return s
    if math.isinf(f):
        return Decimal(s) if hp else f
    d = Decimal(s.strip().replace('_', ''))
    if d == d.to_integral_value():
        return int(d) if hp or s.strip().lstrip('+-').isdigit() else int(f)
    return d if hp else f


def after(v, hp, conv):
    """What a written value must be read as."""
    if isinstance(v, dict):
        return {after_key(k, hp, conv): after(x, hp, conv) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [after(x, hp, conv) for x in v]
    if isinstance(v, Decimal):
        return as_text(str(v), hp) if conv else str(v)
    if isinstance(v, str):
        return as_text(v, hp) if conv else v
    if isinstance(v, float) and hp:
        return Decimal(repr(v))
    return v


def after_key(k, hp, conv):
    if isinstance(k, float) and math.isinf(k):
        s = 'Infinity' if k > 0 else '-Infinity'
    else:
        s = k if isinstance(k, str) else str(k) if not isinstance(k, float) else repr(k)
    return as_text(s, hp) if conv else s


def same(a, b):
    """Equal, with numbers exactly equal and text, truth values and lists told apart."""
    if isinstance(b, dict):
        return isinstance(a, dict) and len(a) == len(b) and all(
            k in a and same(a[k], v) and any(same(k, x) for x in a) for k, v in b.items())
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, (str, bool, type(None))) or isinstance(a, (str, bool, type(None))):
        return type(a) is type(b) and a == b
    return a == b and not (type(a) is float and type(b) is Decimal)


def run_trip(c):
    hp = Decimal if c['hp'] else None
    v = dec(c['value'])
    before = copy.deepcopy(v)
    path = os.path.join(scratch(), 'f.json')
    if os.path.exists(path):
        os.remove(path)
    w = ValueReader(high_precision=hp)
    if c['how'] == 'self':
        w.values = v
        w.write(path)
    elif c['how'] == 'vals':
        w.write(path, v)
        check('writer', w.values == {}, 'writing other values changed the writer: %r' % w.values)
    else:
        other = ValueReader(high_precision=hp)
        other.values = v
        w.write(path, other)
        check('writer', w.values == {}, 'writing other values changed the writer: %r' % w.values)
    check('written', v == before and repr(v) == repr(before), 'writing changed the values: %r' % (v,))
    with open(path, 'rb') as f:
        raw = f.read()
    n = 0
    for conv in (True, False):
        want = after(v, hp is not None, conv)
        r1 = ValueReader(path, high_precision=hp, numeric_convert=conv)
        r2 = ValueReader(high_precision=hp)
        r2.values = {'old': 1}
        r2.read(path, numeric_convert=conv)
        for r in (r1, r2):
            check('trip', same(r.values, want), 'written %r, read %r, expected %r' % (v, r.values, want))
            n += 1
    if c.get('again', True):
        # what was read can be written again and reads the same
        r1 = ValueReader(path, high_precision=hp)
        r1.write(path)
        r2 = ValueReader(path, high_precision=hp)
        check('again', same(r2.values, r1.values), 'written again: %r, first %r' % (r2.values, r1.values))
    with open(path, 'rb') as f:
        check('utf8', f.read().decode('utf-8') is not None and raw.decode('utf-8') is not None)
    return dict(ops=n + 2, outcome=repr(after(v, hp is not None, True)))


SCALARS = [0, 1, -7, 2 ** 53 + 1, 123456789012345678901, 0.1, -2.5, 1e-9, 1e22, 3.0, True, False, None, {'inf': 1}, {'inf': -1},
           '', 'abc', 'CAD', '2017-01-31', '1 January 2000', '\u00e9\u20ac', 'a"b\\c\n', 'start', 'True', 'None', '12', '0.1', '-3.50',
           '12345678901234567890', '123456789012345678901.5', '0.30000000000000000001', '1e3', '0012']
HP = [{'D': x} for x in ('0.1', '5', '5.0', '-1.25', '0.10000000000000000000001', '12345678901234567890.5', '0.99999999999999999999',
                         '1E+30', '1E-30', '100000000000000000001', '-0.00', 'Infinity')]
KEYS = ['a', 'Account', 2017, 0, -1, 10, 45961.23, 0.5, '2018', 'b c', '\u00fc', {'inf': 1}]
HPKEYS = [{'D': '45961.23'}, {'D': '0.1000000000000000000001'}, {'D': '7'}]


def jd(*pairs):
    return {'map': [list(p) for p in pairs]}


def trip_cases(tier):
    hows = ('self', 'vals', 'reader')
    for hp in (False, True):
        sc = SCALARS + (HP if hp else [])
        keys = KEYS + (HPKEYS if hp else [])
        # top-level names are text; other keys may be numbers
        for how in hows:
            for s in sc:
                yield dict(hp=hp, how=how, value=jd(('x', s)))
        yield dict(hp=hp, how='self', value=jd())
        for i, s in enumerate(sc):
            how = hows[i % 3]
            for t in sc if tier != 'quick' else sc[::3]:
                yield dict(hp=hp, how=how, value=jd(('x', [s, t]), ('y', s)))
                for k in keys if tier != 'quick' else keys[i % 2::2]:
                    yield dict(hp=hp, how=how, value=jd(('x', jd((k, s), ('z', t)))))
        for k1, k2 in itertools.permutations(keys, 2):
            if after_key(dec(k1), hp, True) == after_key(dec(k2), hp, True):
                continue
            for s in (1, 0.5, 'q'):
                yield dict(hp=hp, how='self', value=jd(('t', jd((k1, s), (k2, [jd((k2, s), (k1, None))])))))
        # depth three
        for k1 in keys:
            for k2 in keys:
                if k1 != k2 and after_key(dec(k1), hp, True) == after_key(dec(k2), hp, True):
                    continue
                for s in sc if tier != 'quick' else sc[::4]:
                    for shape in range(4):
                        v = [jd((k1, jd((k2, s)))), [[s, jd((k1, s))], [k2 if not isinstance(k2, dict) else 0]],
                             jd((k1, [s, [s]]), (k2 if k2 != k1 else 'other', jd())), [jd((k1, [])), jd((k2, [s]))]][shape]
                        yield dict(hp=hp, how=hows[shape % 3], value=jd(('name', v)))


# Files written by others -------------------------------------------------------------------

class Fixed:
    """A numeric type made of floats only."""
    def __init__(self, x):
        if not isinstance(x, (float, int)):
            raise ValueError('not a float: %r' % (x,))
        self.x = float(x)

    def __eq__(self, other):
        return self.x == getattr(other, 'x', other)

    def __hash__(self):
        return hash(self.x)

    def __neg__(self):
        return Fixed(-self.x)

    def __int__(self):
        return int(self.x)

    def __repr__(self):
        return 'Fixed(%r)' % self.x


TEXTS = {   # JSON text: value it is read as, by type of numbers (None where it must be refused)
    '"caf\u00e9 \u20ac \U0001f600"': 'caf\u00e9 \u20ac \U0001f600', '"\\u00e9"': '\u00e9', '5': 5, '5.0': 'float 5.0', '-0.25': 'float -0.25', '1e3': 'float 1000.0',
    '"5"': 'text 5', '"5.0"': 'text 5.0', '"-2.50"': 'text -2.50', '"1e3"': 'text 1e3', '"x"': 'x', 'Infinity': 'float inf', '-Infinity': 'float -inf', 'NaN': None,
    'true': True, 'null': None.__class__, '"true"': 'true', '[]': [], '{}': {}, '" 7 "': 'text 7', '""': '', '"2017-01-01"': '2017-01-01', '"1,5"': '1,5'}
SHAPES = {'top': '{"n": %s}', 'list': '{"n": [1, %s]}', 'dict': '{"n": {"k": %s}}', 'deep': '{"n": [{"k": [[%s]]}]}'}


def read_as(text, nums, conv):
    want = TEXTS[text]
    if want is None.__class__:
        return None
    if isinstance(want, str) and want.startswith('text '):
        if not conv:
            return json.loads(text)
        want = 'float ' + want[5:]
        f = float(want[6:])
        if f == int(f):
            return int(f)
    if isinstance(want, str) and want.startswith('float '):
        t = want[6:]
        return float(t) if nums == 'float' else Decimal(json.loads(text) if text[0] == '"' else text) if nums == 'Decimal' else Fixed(float(t))
    return want


def exactly(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in a and exactly(a[k], v) for k, v in b.items()) and (
            sorted(map(repr, a)) == sorted(map(repr, b)))
    if isinstance(a, list):
        return len(a) == len(b) and all(map(exactly, a, b))
    return a == b


def run_foreign(c):
    nums = {'float': None, 'Decimal': Decimal, 'Fixed': Fixed}[c['nums']]
    kind = {'ValueReader': ValueReader, 'Settings': Settings, 'SettingsCanada': SettingsCanada, 'ConstantsCanada': ConstantsCanada}[c['kind']]
    path = os.path.join(scratch(), 'o.json')
    text = SHAPES[c['shape']] % c['text'] if c['shape'] != 'bare' else c['text']
    with open(path, 'wb') as f:
        f.write(text.encode('utf-8'))
    try:
        r = kind(path, high_precision=nums, numeric_convert=c['conv'])
    except (ValueError, TypeError):
        check('refused', TEXTS.get(c['text'], 0) is None or (c['shape'] == 'bare' and not c['text'].startswith('{')), 'cannot read %s' % text)
        return dict(ops=1, outcome='refused')
    check('accepted', c['shape'] != 'bare' or c['text'] == '{}', 'read %s as %r' % (text, r.values))
    check('accepted', TEXTS[c['text']] is not None, 'read %s as %r' % (text, r.values))
    if c['shape'] == 'bare':
        return dict(ops=1, outcome='empty')
    v = read_as(c['text'], c['nums'], c['conv'])
    want = {'n': {'top': v, 'list': [1, v], 'dict': {'k': v}, 'deep': [{'k': [[v]]}]}[c['shape']]}
    check('foreign', exactly(r.values, want), '%s is read as %r, expected %r' % (text, r.values, want))
    with open(path, 'rb') as f:
        check('unchanged', f.read() == text.encode('utf-8'), 'reading changed the file')
    return dict(ops=1, outcome=repr(want))


def foreign_cases(tier):
    for kind in ('ValueReader', 'Settings', 'SettingsCanada', 'ConstantsCanada'):
        for nums in ('float', 'Decimal', 'Fixed'):
            for conv in (True, False):
                for shape in SHAPES:
                    for text in TEXTS:
                        yield dict(kind=kind, nums=nums, conv=conv, shape=shape, text=text)
                for text in ('[]', '{}', '[["a", 1]]', '[[1, 2]]', '"ab"', '5', 'null', 'true', '["ab", "cd"]', ''):
                    yield dict(kind=kind, nums=nums, conv=conv, shape='bare', text=text)


# Encoders and decoders of the caller ---------------------------------------------------------

class Dates(json.JSONEncoder):
    def default(self, o):
        if isinstance(o, (set, frozenset)):
            return {'set': sorted(o)}
        return super().default(o)


class Sets(json.JSONDecoder):
    def __init__(self, **kw):
        super().__init__(object_hook=lambda d: set(d['set']) if set(d) == {'set'} else d, **kw)


def run_custom(c):
    kind = {'ValueReader': ValueReader, 'Settings': Settings, 'SettingsCanada': SettingsCanada, 'ConstantsCanada': ConstantsCanada}[c['kind']]
    hp = Decimal if c['hp'] else None
    path = os.path.join(scratch(), 'c.json')
    with open(path, 'w') as f:
        json.dump({}, f)
    w = kind(path, encoder_cls=Dates, decoder_cls=Sets, high_precision=hp)
    v = {'group': {1, 2}, 'deep': {'x': [{3}, 'text']}, 'n': 5}
    w.write(path, v)
    r = kind(path, encoder_cls=Dates, decoder_cls=Sets, high_precision=hp)
    check('decoder', r.values == v, 'with the caller\'s decoder: %r, expected %r' % (r.values, v))
    plain = kind(path, high_precision=hp)
    check('encoder', plain.values == {'group': {'set': [1, 2]}, 'deep': {'x': [{'set': [3]}, 'text']}, 'n': 5}, 'without it: %r' % (plain.values,))
    # sequences of other types are read as lists; high-precision numbers written by a function of the caller
    x = Decimal('0.1') if hp else 0.5
    w = ValueReader(high_precision=hp, high_precision_serialize=(lambda d: str(d) + '00') if c['ser'] else None)
    w.write(path, {'t': (1, (x, {x: (x,)}), [x])})
    with open(path) as f:
        raw = json.load(f)
    s = x if not hp else str(x) + ('00' if c['ser'] else '')
    key = s if hp else repr(x)
    check('serialize', raw == {'t': [1, [s, {key: [s]}], [s]]}, 'written as %r' % (raw,))
    r = ValueReader(path, high_precision=hp)
    check('trip', r.values == {'t': [1, [x, {x: [x]}], [x]]}, 'read as %r' % (r.values,))
    return dict(ops=5, outcome=c['kind'])


def custom_cases(tier):
    for kind in ('ValueReader', 'Settings', 'SettingsCanada', 'ConstantsCanada'):
        for hp in (False, True):
            for ser in (False, True) if hp else (False,):
                yield dict(kind=kind, hp=hp, ser=ser)


# Failing writes leave the file alone --------------------------------------------------------

def run_broken(c):
    hp = Decimal if c['hp'] else None
    path = os.path.join(scratch(), 'b.json')
    w = ValueReader(high_precision=hp)
    good = {'a': 1, 'b': {'2017': 0.5}}
    w.write(path, good)
    with open(path, 'rb') as f:
        raw = f.read()
    bad = {'obj': {1, 2}, 'dec': Decimal('0.5') if not c['hp'] else {3}, 'deep': {'x': [1, {'y': object()}]}, 'key': {(1, 2): 3}}
    try:
        w.write(path, {'a': 5, c['bad']: bad[c['bad']]})
    except TypeError:
        pass
    else:
        raise Fail('unserialisable', 'a value that cannot be written was accepted: %r' % (bad[c['bad']],))
    with open(path, 'rb') as f:
        check('destroyed', f.read() == raw, 'a failed write changed the file')
    check('reader', ValueReader(path).values == {'a': 1, 'b': {2017: 0.5}}, 'file after failed write')
    return dict(ops=2, outcome=c['bad'])


def broken_cases(tier):
    for hp in (False, True):
        for b in ('obj', 'dec', 'deep', 'key'):
            yield dict(hp=hp, bad=b)


# Histories over two readers of one file ----------------------------------------------------------

class Demo(ValueReader):
    a = Attr(1)
    b = Attr()
    m = Attr({'x': 1, 'deep': {'y': [1]}})
    z = Attr(0)


class Child(Demo):
    a = Attr(5)
    new = Attr('n')


DEFAULTS = {'Demo': {'a': 1, 'm': {'x': 1, 'deep': {'y': [1]}}, 'z': 0},
            'Child': {'a': 5, 'm': {'x': 1, 'deep': {'y': [1]}}, 'z': 0, 'new': 'n'}}
NAMES = {'Demo': ['a', 'b', 'm', 'z'], 'Child': ['a', 'b', 'm', 'z', 'new']}


class Files:
    def __init__(self, cfg):
        self.cfg = cfg
        self.path = os.path.join(scratch(), 'h.json')
        self.file = copy.deepcopy(cfg['file'])
        with open(self.path, 'w', encoding='utf-8') as f:
            json.dump(self.file, f)
        kinds = dict(Demo=Demo, Child=Child)
        self.kinds = [k for k, _ in cfg['readers']]
        self.usedef = [d for _, d in cfg['readers']]
        self.r = [kinds[k](self.path, use_defaults=d) for k, d in cfg['readers']]
        self.vals = [copy.deepcopy(self.file) for _ in self.r]
        self.defs = [copy.deepcopy(DEFAULTS[k]) for k in self.kinds]
        self.trail = []
        self.check()

    def events(self):
        evs = []
        for i in range(len(self.r)):
            evs += [['read', i], ['write', i], ['set', i, 'a', 9], ['set', i, 'm', {'k': [2]}], ['set', i, 'b', None]]
            evs += [['del', i, k] for k in ('a', 'm')]
            if self.has(i, 'm'):
                evs.append(['inner', i])
                if 'deep' in self.get(i, 'm'):
                    evs.append(['deep', i])
        evs.append(['nothing', 0])
        return evs

    def has(self, i, k):
        return k in self.vals[i] or (self.usedef[i] and k in self.defs[i])

    def get(self, i, k):
        return self.vals[i][k] if k in self.vals[i] else self.defs[i][k]

    def apply(self, ev):
        op, i = ev[0], ev[1]
        r = self.r[i]
        if op == 'read':
            r.read(self.path)
            self.vals[i] = copy.deepcopy(self.file)
        elif op == 'write':
            r.write(self.path)
            self.file = copy.deepcopy(self.vals[i])
        elif op == 'set':
            v = copy.deepcopy(ev[3])
            setattr(r, ev[2], v)
            self.vals[i][ev[2]] = copy.deepcopy(ev[3])
        elif op == 'del':
            if ev[2] in self.vals[i]:
                delattr(r, ev[2])
                del self.vals[i][ev[2]]
            else:
                try:
                    delattr(r, ev[2])
                except (KeyError, AttributeError):
                    pass
                else:
                    raise Fail('delete', 'deleted %s, which had no value' % ev[2])
        elif op == 'inner':
            r.m['k2'] = len(self.trail)
            self.get(i, 'm')['k2'] = len(self.trail)
        elif op == 'deep':
            r.m['deep']['y'].append(len(self.trail))
            self.get(i, 'm')['deep']['y'].append(len(self.trail))
        elif op == 'nothing':                   # other values, of which there are none
            r.write(self.path, {})
            self.file = {}
        self.trail = (self.trail + [op])[-2:]
        self.check()

    def check(self):
        for i, r in enumerate(self.r):
            check('values', r.values == self.vals[i], 'reader %s has %r, expected %r' % (i, r.values, self.vals[i]))
            for k in NAMES[self.kinds[i]]:
                if self.has(i, k):
                    got = getattr(r, k)
                    check('attribute', got == self.get(i, k), 'reader %s: %s is %r, expected %r' % (i, k, got, self.get(i, k)))
                else:
                    try:
                        got = getattr(r, k)
                    except (KeyError, AttributeError):
                        continue
                    check('missing', k == 'z' and self.usedef[i], 'reader %s: %s is %r but has no value or default' % (i, k, got))
        with open(self.path, encoding='utf-8') as f:
            got = json.load(f)
        check('file', got == self.file, 'file holds %r, expected %r' % (got, self.file))
        check('fresh', ValueReader(self.path).values == self.file, 'a new reader of the file')

    def canon(self):
        return (self.file, self.vals, self.defs, self.trail)


def file_configs(tier):
    files = [{}, {'a': 3, 'm': {'x': 2}}, {'b': [1, 2], 'm': {}, 'other': 'text', 'a': 'v'}]
    readers = [[['Demo', True], ['Demo', True]], [['Demo', True], ['Child', True]], [['Demo', False], ['Child', True]],
               [['Child', True], ['Child', False]]]
    return [dict(file=f, readers=r) for f in files for r in readers]


# Settings and constants -----------------------------------------------------------------------------

KINDS = dict(Settings=(Settings, 'settings.json'), SettingsCanada=(SettingsCanada, 'canada.settings.json'),
             ConstantsCanada=(ConstantsCanada, 'canada.constants.json'))


def names(cls):
    return sorted({k for c in cls.__mro__ for k, v in vars(c).items() if isinstance(v, Attr)})


def shipped(kind):
    import forecaster
    with open(os.path.join(os.path.dirname(forecaster.__file__), 'data', KINDS[kind][1]), encoding='utf-8') as f:
        return json.load(f)


def freeze(v):
    return repr(sorted(v.items(), key=repr)) if isinstance(v, dict) else repr(v)


def run_settings(c):
    cls, _ = KINDS[c['kind']]
    path = os.path.join(scratch(), 's.json')
    hp = Decimal if c['hp'] else None
    with open(path, 'w', encoding='utf-8') as f:
        json.dump({}, f)
    empty = cls(path, high_precision=hp)
    defaults = {}
    for k in names(cls):
        try:
            defaults[k] = copy.deepcopy(getattr(empty, k))
        except KeyError:
            raise Fail('default', '%s has no default for %s' % (c['kind'], k))
    own = {k: {'mark': [k, 1]} if i % 2 else 'value of ' + k for i, k in enumerate(c['given'])}
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(own, f)
    s = cls(path, high_precision=hp)
    for k in names(cls):
        got = getattr(s, k)
        check('setting', got == own.get(k, defaults[k]), '%s.%s is %r, expected %r' % (c['kind'], k, got, own.get(k, defaults[k])))
        if k not in own:
            try:
                getattr(cls(path, high_precision=hp, use_defaults=False), k)
            except KeyError:
                pass
            else:
                raise Fail('no-defaults', '%s has a value although it is not in the file and defaults are off' % k)
    # override one: nothing else changes, here or in others
    for k in c['given']:
        t = cls(path, high_precision=hp)
        setattr(t, k, 'changed')
        for j in names(cls):
            want = 'changed' if j == k else own.get(j, defaults[j])
            check('override', getattr(t, j) == want, 'after overriding %s, %s is %r' % (k, j, getattr(t, j)))
            check('other', getattr(s, j) == own.get(j, defaults[j]), 'after overriding %s, another object: %s' % (k, j))
    # changing a nested default in place touches this object only
    for k in names(cls):
        if isinstance(getattr(s, k), dict):
            getattr(s, k)['inserted'] = 1
    t = cls(path, high_precision=hp)
    for k in names(cls):
        check('leak', getattr(t, k) == own.get(k, defaults[k]), '%s of a new object was changed through another: %r' % (k, getattr(t, k)))
    return dict(ops=3 * len(names(cls)), outcome=[c['kind'], sorted(own)])


def settings_cases(tier):
    for kind, (cls, _) in KINDS.items():
        ns = names(cls)
        for hp in (False, True):
            yield dict(kind=kind, hp=hp, given=[])
            for k in ns:
                yield dict(kind=kind, hp=hp, given=[k])
            pairs = list(itertools.combinations(ns, 2))
            for a, b in pairs if tier != 'quick' else pairs[::7]:
                yield dict(kind=kind, hp=hp, given=[a, b])
            yield dict(kind=kind, hp=hp, given=ns)


def run_shipped(c):
    cls, _ = KINDS[c['kind']]
    hp = Decimal if c['hp'] else None
    data = shipped(c['kind'])
    cwd = os.getcwd()
    os.chdir('/' if c['root'] else scratch())
    try:
        s = cls(high_precision=hp)
    finally:
        os.chdir(cwd)

    def want(v):
        if isinstance(v, dict):
            return {as_text(k, c['hp']): want(x) for k, x in v.items()}
        if isinstance(v, list):
            return [want(x) for x in v]
        if isinstance(v, str):
            return as_text(v, c['hp'])
        if isinstance(v, float) and c['hp']:
            return Decimal(repr(v))
        return v
    for k, v in data.items():
        check('value', same(s.values[k], want(v)), '%s: %r is read as %r' % (k, v, s.values[k]))
        if k in names(cls):
            check('value', same(getattr(s, k), want(v)), '%s: %r is read as %r' % (k, v, getattr(s, k)))
    path = os.path.join(scratch(), 'copy.json')
    s.write(path)
    t = cls(path, high_precision=hp)
    check('trip', same(t.values, s.values), '%s written and read differs' % c['kind'])
    check('unchanged', shipped(c['kind']) == data, 'the shipped file was changed')
    return dict(ops=len(data), outcome=[c['kind'], c['hp']])


def shipped_cases(tier):
    for kind in KINDS:
        for hp in (False, True):
            for root in (False, True):
                yield dict(kind=kind, hp=hp, root=root)


FAMILIES = [
    Enum('trip', trip_cases, run_trip, about='values of the grammar written and read in both precisions, all ways of writing'),
    Enum('foreign', foreign_cases, run_foreign, about='files written by others: UTF-8 text, numbers as text, constants, what is refused; four readers'),
    Enum('custom', custom_cases, run_custom, about='encoders, decoders and serialisers of the caller; tuples'),
    Enum('broken', broken_cases, run_broken, about='values that cannot be written leave the file as it was'),
    Hist('files', file_configs, Files, lambda tier, c: 3 if tier == 'quick' else 4,
         about='read, write, override, delete and change in place on two readers of a file'),
    Enum('settings', settings_cases, run_settings, about='each setting and constant, singly and in pairs, over its default'),
    Enum('shipped', shipped_cases, run_shipped, about='the files shipped with the package'),
]
