# every t_* is interpreted by the analyser and by Python; the results must agree
import bisect
import collections
import contextlib
import copy
import dataclasses
import functools
import io
import itertools
import math
import operator
import os
import re
import struct
import types
import typing
from pathlib import Path

import numpy as np


def t_round():
    return [np.round(1.256, 2), np.around([1.5, 2.5]), np.rint(2.5), np.trunc(-1.7), round(2.675, 2), np.array([1.55, 2.44]).round(1)]


def t_ufunc():
    return [np.add([1, 2], 3), np.multiply(2, 4), np.subtract(5, [1, 2]), np.equal([1, 2], [1, 3]), np.less(1, 2), np.power(2, 3),
            np.mod(7, 3), np.negative([1, -2]), np.sign([-2.0, 0.0, 3.0]), np.sqrt([4.0, 9.0])]


def t_sorts():
    a = np.array([3, 1, 2, 1])
    b = a.copy()
    b.sort()
    return [np.sort(a), np.argsort([3, 1, 2]), np.unique(a), b, a.argmax(), np.argmin(a), np.cumsum(a), np.mean(a), np.ptp(a), sorted(a.tolist(), reverse=True)]


def t_edit():
    a = np.array([1, 2, 3, 4])
    return [np.insert(a, 1, 9), np.delete(a, 2), np.roll(a, 1), np.clip(a, 2, 3), np.take(a, [0, 2]), np.expand_dims(a, 0), np.append(a, 5)]


def t_close():
    return [np.allclose([1.0, 2.0], [1.0, 2.0 + 1e-9]), np.isclose(1.0, 1.1), math.isclose(1.0, 1.0 + 1e-12)]


def t_logic():
    return [np.logical_and([True, False], [True, True]), np.logical_not([True, False]), np.logical_or(True, False)]


def t_enum():
    return [[(list(i), int(x)) for i, x in np.ndenumerate(np.array([[1, 2], [3, 4]]))], [list(i) for i in np.ndindex(2, 2)]]


def t_text():
    s = io.StringIO()
    np.savetxt(s, np.array([[1.5, 2.0], [3.0, 4.25]]), fmt='%10.3e', delimiter='', newline='\n')
    s2 = io.StringIO()
    np.savetxt(s2, np.array([[1, 2], [3, 4]]), fmt='%d;%5d')
    return [s.getvalue(), s2.getvalue()]


def t_loadtxt():
    return [np.loadtxt(io.StringIO('1 2\n3 4\n')), np.loadtxt(['1.5', '2']), np.genfromtxt(io.StringIO('1 2 3'))]


def t_stringio():
    s = io.StringIO('a b\nc\n')
    l = s.readline()
    r = list(s)
    b = io.BytesIO(b'12345')
    x = b.read(2)
    b.seek(0)
    return [l, r, x, b.read(), io.StringIO('x\ny').readlines()]


def t_defaultdict():
    d = collections.defaultdict(list)
    d['a'].append(1)
    d['a'].append(2)
    n = collections.defaultdict(int)
    for c in 'abca':
        n[c] += 1
    return [dict(d), dict(n), 'z' in d, dict(collections.Counter('aab'))]


Point = collections.namedtuple('Point', 'x y')
P2 = collections.namedtuple('P2', ['a', 'b'], defaults=[5])


def t_namedtuple():
    p = Point(1, y=2)
    x, y = p
    return [p.x, p[1], x + y, len(p), P2(1).b, list(p._asdict().items()), p._fields]


class NT(typing.NamedTuple):
    a: int
    b: str = 'q'


@dataclasses.dataclass
class DC:
    a: int
    b: list = dataclasses.field(default_factory=list)
    c: int = 3

    def total(self):
        return self.a + self.c


def t_dataclass():
    d = DC(1)
    d.b.append(4)
    e = DC(2, c=9)
    return [d.total(), d.b, e.b, e.total(), NT(1).b, NT(2, 'z')[1]]


CALLS = []


@functools.lru_cache(maxsize=None)
def cached(x, y=1):
    CALLS.append(x)
    return [x, y]


@functools.cache
def cached2(x):
    CALLS.append('c')
    return x


def t_cache():
    a = cached(1)
    a.append(7)
    return [cached(1), cached(2, y=3), cached2(4), cached2(4), CALLS]


def counter(x):
    counter.calls += 1
    return x


counter.calls = 0


def deco(f):
    @functools.wraps(f)
    def inner(*a, **k):
        return ['d', f(*a, **k)]
    return inner


@deco
def decorated(x):
    return x + 1


def t_fnattr():
    counter(1)
    counter(2)
    return [counter.calls, decorated(3), hasattr(counter, 'zz')]


class K:
    n = 0

    def __init__(self):
        self._v = 1

    @property
    def v(self):
        return self._v

    @v.setter
    def v(self, x):
        self._v = x * 2

    @functools.cached_property
    def w(self):
        K.n += 1
        return K.n

    @functools.lru_cache(maxsize=8)
    def m(self, x):
        return [x]


def t_props():
    k = K()
    k.v = 5
    a = k.m(1)
    a.append(2)
    return [k.v, k.w, k.w, k.m(1), k.m(2)]


def t_re():
    m = re.match(r'\s*(\d+)\s+(?P<n>[a-z]+)', '  12 abc')
    return [m.group(1), m.group('n'), m[0], m.groups(), m.span(1), m.groupdict(), re.findall(r'\d+', 'a1b22'), re.split(r'[ ,]+', 'a, b c'),
            re.sub(r'[dD]', 'e', '1.0D+02'), re.sub(r'(\d)D', r'\1E', '1D+2'), re.search('x', 'abc') is None, bool(re.fullmatch('[0-9]+', '12')),
            [m.start() for m in re.finditer('a', 'banana')], re.compile('^ +-1$', re.M).findall(' -1\n    -1\n'), re.sub('b', lambda m: m.group().upper(), 'abc')]


def t_path():
    p = Path('/tmp') / 'a' / 'b.unv'
    return [str(p), p.name, p.suffix, p.stem, str(p.parent), str(p.with_suffix('.uff')), os.fspath(p), str(p.with_name('q'))]


def t_deque():
    d = collections.deque([1, 2])
    d.append(3)
    d.appendleft(0)
    return [d.popleft(), d.pop(), list(d), len(d)]


def t_iter():
    return [list(itertools.accumulate([1, 2, 3])), list(itertools.starmap(pow, [(2, 3)])), list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])),
            [(k, list(g)) for k, g in itertools.groupby('aabc')], list(itertools.pairwise([1, 2, 3])), list(itertools.islice(itertools.count(3), 2)),
            list(itertools.dropwhile(lambda x: x < 2, [1, 2, 1])), list(itertools.chain([1], [2])), list(itertools.compress('abc', [1, 0, 1]))]


def t_op():
    ns = types.SimpleNamespace(a=1, b=2)
    return [operator.add(1, 2), operator.itemgetter(1)([5, 6]), operator.attrgetter('b')(ns), operator.methodcaller('upper')('x'), ns.a,
            functools.reduce(operator.mul, [1, 2, 3, 4])]


def t_with():
    out = []

    @contextlib.contextmanager
    def cm(x):
        out.append('in' + x)
        yield x
        out.append('out' + x)
    with contextlib.nullcontext(5) as v, cm('a') as a:
        out.append(v)
    with contextlib.ExitStack() as st:
        st.callback(out.append, 'cb')
        out.append('body')
    return out


def t_fstr():
    x, s = 3.14159, 'ab'
    return [f'{x:10.3e}', f'{5:>6d}|{s:<5}|{s:^6}|{-3:05d}', f'{x!r}', '{:>5}{:5.1f}'.format(1, 2.0), '%-5s|%5.1f' % ('a', 2.0), '{0}{1}{0}'.format('a', 'b'),
            f'{1000:,}', '{a}'.format(a=1), f'{x:.{2}f}', f"{s.rjust(6)}", '%*d' % (6, 3), f'{True:d}']


def t_struct():
    return [struct.pack('<if', 1, 2.0), struct.unpack('<2i', b'\1\0\0\0\2\0\0\0'), struct.calcsize('>3d'), list(struct.iter_unpack('<h', b'\1\0\2\0'))]


def t_str():
    s = '  ab,cd  '
    return [s.strip().split(','), s.partition(','), 'a-b-c'.rpartition('-'), 'abc'.startswith(('x', 'a')), 'x'.join(['1', '2']), 'aXb'.swapcase(), 'a\nb\n'.splitlines(),
            'a\nb'.splitlines(True), 'abc'[::-1], 'abcabc'.count('bc'), 'abc'.find('c'), '12'.zfill(5), 'a'.center(5), '12'.isdigit(), ' '.isspace(), 'ab'.title(),
            'a b  c'.split(), 'a b  c'.split(' '), 'a b c'.rsplit(None, 1), 'tEst'.lower(), 'x=1'.split('=', 1), 'abc'.translate(str.maketrans('a', 'z')),
            'abc'.removeprefix('a'), 'abc'.removesuffix('c'), 'a\tb'.expandtabs(4), 'abc'.encode('ascii'), b'ab'.decode()]


def t_int():
    return [int(' 12 '), int('0x1F', 16), float('1e3'), int(3.9), divmod(7, -2), -7 // 2, -7 % 3, 2 ** -1, abs(-3), round(2.5), round(-1.5), bin(5), hex(255), max([3, 1]), min(2, 1),
            sum([1, 2], 5), any([0, 1]), all([]), complex(1, 2).real, 7 / 2, math.ceil(1.2), math.floor(-1.2), math.log10(100), (3).bit_length(), float('inf') > 1]


def t_comp():
    return [[i * j for i in range(3) for j in range(2) if i != j], {k: v for k, v in zip('ab', (1, 2))}, sorted({3, 1}), [x for x in (y * 2 for y in [1, 2])],
            list(map(lambda a, b: a + b, [1], [2])), list(filter(None, [0, 1])), list(zip([1, 2], 'ab')), list(enumerate('ab', 1)), [*range(2), *[5]], {**{'a': 1}, 'b': 2}]


def t_flow():
    out = []
    for i in range(5):
        if i == 1:
            continue
        if i == 3:
            break
        out.append(i)
    else:
        out.append('else')
    while True:
        try:
            out.append('t')
            raise KeyError('k')
        except (KeyError, ValueError) as e:
            out.append(e.args[0])
            break
        finally:
            out.append('f')
    a, *b = [1, 2, 3]
    out += [a, b]
    (x, y), z = (1, 2), 3
    x = y = z
    if (n := 4) > 3:
        out.append(n)
    match n:
        case 4:
            out.append('four')
        case _:
            out.append('other')
    match (1, 'a'):
        case (1, s) if s == 'a':
            out.append(s)
    return out


def t_gen():
    def g(n):
        for i in range(n):
            yield i
        yield from [7, 8]
    it = iter([1, 2])
    return [list(g(2)), next(it), next(it, None), next(it, 'end'), sum(g(1))]


def t_arr():
    a = np.arange(6).reshape(2, 3)
    b = a.T.copy()
    c = np.zeros((2, 2))
    c[:, 0] = [1, 2]
    c[1] += 5
    d = np.array([1.0, 2.0, 3.0])
    d[d > 1.5] = 0
    e = np.array([1 + 2j, 3 - 1j])
    return [a.shape, a[1, 2], a[:, 1], a[-1], b, c, d, e.real, e.imag, np.conj(e), np.column_stack(([1, 2], [3, 4])), np.hstack(([1], [2, 3])), np.vstack(([1, 2], [3, 4])),
            np.concatenate([a, a], axis=0).shape, a.ravel()[::2], a.sum(), a.max(), np.prod([2, 3]), np.diff([1, 4, 9]), np.linspace(0, 1, 3), np.where(np.array([1, 0]) > 0, 5, 6),
            np.repeat([1, 2], 2), np.tile([1, 2], 2), np.flip([1, 2, 3]), a.flatten('F'), a.reshape(-1), a.size, a.ndim, np.full(2, 3.0), np.isnan([1.0, float('nan')]),
            np.array([[1, 2], [3, 4]]) * 2, np.arange(0, 1, 0.25), a.astype(float)[0], np.ones(2, dtype=int), np.isscalar(3), len(a), a.tolist(), np.real([1 + 1j]), np.array_split(np.arange(5), 2)[0]]


def t_bytes():
    a = np.array([1.0, 2.0])
    return [a.tobytes(), a.astype('<f4').tobytes(), a.astype('>f8').tobytes(), np.frombuffer(b'\0\0\x80?', dtype='<f4'), list(b'ab'), bytes([1, 2]), b'a' + b'b', bytes(2), (5).to_bytes(2, 'little')]


def t_copy():
    d = {'a': [1], 'b': {'c': 2}}
    e = copy.copy(d)
    f = copy.deepcopy(d)
    e['a'].append(2)
    f['a'].append(3)
    d.setdefault('z', 9)
    d.update(y=1)
    g = dict(d, x=0)
    return [d, e, f, g, d.pop('z'), d.get('q', 5), list(d.items()), d | {'k': 1}, sorted(d.keys())]


def t_err():
    out = []
    for f in (lambda: int('x'), lambda: [][0], lambda: {}['a'], lambda: 1 / 0, lambda: None.x, lambda: 'a' + 1, lambda: np.array([1, 2]).reshape(3), lambda: [1, 2].index(5),
              lambda: float('abc'), lambda: struct.unpack('<i', b'a'), lambda: next(iter([])), lambda: 'a'.index('b'), lambda: int(float('nan')), lambda: '%d' % 'a',
              lambda: open('/nonexistent/file'), lambda: len(5), lambda: np.array([1, 2]) + np.array([1, 2, 3])):
        try:
            f()
            out.append('none')
        except Exception as e:
            out.append(type(e).__name__)
    return out


def t_bisect():
    return [bisect.bisect_left([1, 3, 5], 3), bisect.bisect([1, 3, 5], 3)]


class Base:
    def __init__(self, x):
        self.x = x

    def hi(self):
        return 'base%d' % self.x

    @classmethod
    def make(cls, x):
        return cls(x)

    @staticmethod
    def st(a):
        return a + 1


class Sub(Base):
    z = 3

    def __init__(self, x):
        super().__init__(x + 1)

    def hi(self):
        return 'sub' + super().hi()

    def __len__(self):
        return 7

    def __eq__(self, o):
        return self.x == o.x

    def __add__(self, o):
        return self.x + o

    def __contains__(self, k):
        return k == 1

    def __call__(self, a):
        return a * 2


def t_cls():
    s = Sub.make(1)
    return [s.hi(), Base.st(1), s.st(2), len(s), s == Sub(1), s + 4, 1 in s, s(3), isinstance(s, Base), type(s).__name__, getattr(s, 'z'), hasattr(s, 'q'), s.__class__.__name__, vars(s)]


def t_chunks():
    xs = list(range(7))
    out = [xs[i:i + 3] for i in range(0, len(xs), 3)]
    it = iter(xs)
    out2 = list(zip(*[it] * 3))
    out3 = list(itertools.zip_longest(*[iter(xs)] * 3, fillvalue=None))
    out4 = [list(c) for c in iter(lambda: list(itertools.islice(it, 2)), [])]
    return [out, out2, out3, out4, list(itertools.batched(xs, 3))]


def t_more_str():
    return ['%(a)s-%(b)3d' % {'a': 'x', 'b': 4}, '%c' % 65, '%%', '%x' % 255, '%+d' % 3, '% d' % 3, '%.3s|' % 'abcdef', '%10.4g' % 0.00012345, '%g' % 1e20, '%13.5e' % 1e100,
            '{:e}'.format(12345.678), '{:<10.3f}|'.format(1.5), '{:+.2e}'.format(-0.001), '{!r:>6}'.format('a'), '{0[1]}'.format([1, 2]), '{:%}'.format(0.5), '{:d}'.format(3),
            'abc'[1:], 'abc'[-2:], 'abc'[5:], 'a' * 3, 'b' in 'abc', 'abc' < 'abd', 'a,b'.split(',', maxsplit=1), '\t x'.lstrip(), 'xx1xx'.strip('x'), 'aa'.replace('a', 'b', 1),
            'Abc'.islower(), 'abc'.isalpha(), 'a1'.isalnum(), 'abc'.index('b'), '-'.join(str(i) for i in range(3)), 'x'.ljust(3) + '|', 'x'.rjust(3, '0'), 'abc'.rfind('c'), 'a b'.capitalize()]


def t_more_arr():
    a = np.arange(12.0).reshape(3, 4)
    a[1, :] = 0
    a[:, ::2] *= 2
    b = a[[0, 2]]
    c = np.zeros(6)
    c[::2] = [1, 2, 3]
    c[1::2] = -1
    z = c[::2] + 1j * c[1::2]
    m = np.array([True, False, True])
    e = np.empty((0, 3))
    x = np.array([1, 2, 3], dtype=np.float32)
    x += 1
    return [a, b, c, z, np.array([5, 6, 7])[m], e.shape, e.size, x, np.vstack([e, np.ones((1, 3))]), a[..., 1], a[None, 0].shape, np.squeeze(a[None]).shape, np.array([[1, 2], [3, 4]]).T.ravel(),
            np.array(['a', 'b']).tolist(), np.array([]).tolist(), np.array([1, 2.5]).dtype == float, np.array([1, 2]).dtype.kind, np.abs([-1, 2]), np.abs(3 + 4j), np.max([1, 5]), np.any([0, 1]),
            np.all([[1, 0]]), np.nonzero([0, 1, 1])[0], np.array_equal([1], [1]), np.iscomplexobj(z), np.isrealobj(c), np.nan_to_num([float('nan'), 1.0]), np.minimum([1, 4], [3, 2]), np.in1d([1, 2], [2]) if hasattr(np, 'in1d') else 0]


def t_misc():
    out = []
    x = [1, 2, 3]
    x[1:2] = [7, 8]
    del x[0]
    x.insert(0, 9)
    x.extend((1,))
    x.reverse()
    out.append(list(x))
    x.sort(key=lambda v: -v)
    out.append(x)
    out.append([a for a, in [(1,), (2,)]])
    d = {1: 'a'}
    d |= {2: 'b'}
    out += [d, list(reversed([1, 2])), (1, 2) + (3,), [0] * 2, 3 in [1, 3], not None, 1 if x else 2, 5 and 0, None or 'q', 1 < 2 < 3, 7 & 3, 1 | 4, 5 ^ 1, 1 << 3, ~2]
    s = {1, 2}
    s.add(3)
    s.discard(1)
    out += [sorted(s), s >= {2}, {1} | {2} == {1, 2}, len(s), frozenset([1]) == {1}]
    assert x, 'm'
    try:
        try:
            raise ValueError('a')
        except ValueError as e:
            raise RuntimeError('b') from e
    except RuntimeError as e:
        out.append(str(e))
    try:
        assert False, 'why'
    except AssertionError as e:
        out.append(str(e))

    def f(a, /, b, *args, c=1, **kw):
        return [a, b, args, c, sorted(kw)]
    out += [f(1, 2, 3, c=4, d=5), f(*[1, 2], **{'z': 1}), (lambda a, b=2: a + b)(1)]
    i = 0
    while i < 3:
        i += 1
    else:
        out.append('we')
    g = globals()
    out.append('t_misc' in g)
    nonl = 0

    def inc():
        nonlocal nonl
        nonl += 1
    inc()
    out.append(nonl)
    out.append(isinstance(True, int) and isinstance(1.0, float) and isinstance(np.float64(1), float) and not isinstance(np.int64(1), int))
    out.append([type(1) is int, type('a') == str, isinstance([], (list, tuple)), callable(len), issubclass(KeyError, LookupError)])
    out.append(list(range(5, 0, -2)) + list(range(3))[::-1])
    out.append([1, [2, 3]] == [1, [2, 3]])
    out.append([1, 2] < [1, 3])
    out.append(max(['a', 'bb'], key=len))
    out.append(min([3, 1, 2], default=0))
    out.append(sum([[1], [2]], []))
    out.append(dict(a=1, **{'b': 2}))
    out.append(dict([('a', 1)]))
    out.append(dict.fromkeys('ab', 0))
    out.append({**d}.popitem())
    out.append(next((v for v in [1, 2, 3] if v > 1), None))
    out.append(any(v > 2 for v in [1, 2, 3]))
    out.append(slice(1, 3).indices(10))
    out.append([1, 2, 3, 4][slice(1, 3)])
    return out


def t_matcher():
    out = []
    for v in (1, 'a', [1, 2, 3], {'k': 1, 'z': 2}, None, 2.5, (4, 5)):
        match v:
            case 1 | 2:
                out.append('num')
            case str() as s:
                out.append(s)
            case [a, *r]:
                out.append([a, r])
            case {'k': q, **rest}:
                out.append([q, rest])
            case None:
                out.append('none')
            case float(x):
                out.append(x)
    return out


def t_np00():
    return np.dstack(([1, 2], [3, 4])).flatten()


def t_np01():
    return np.stack(([1, 2], [3, 4]), axis=1)


def t_np02():
    return np.atleast_1d(3)


def t_np03():
    return np.atleast_2d([1, 2])


def t_np04():
    return np.c_[[1, 2], [3, 4]]


def t_np05():
    return np.r_[[1], [2, 3]]


def t_np06():
    return np.pad([1], (1, 2))


def t_np07():
    return np.outer([1, 2], [1, 2])


def t_np08():
    return np.dot([1, 2], [3, 4])


def t_np09():
    return np.meshgrid([1, 2], [3])[0]


def t_np10():
    return np.interp(1.5, [1, 2], [10, 20])


def t_np11():
    return np.median([1, 2, 3])


def t_np12():
    return np.std([1, 1])


def t_np13():
    return np.trim_zeros([0, 1, 0])


def t_np14():
    return np.searchsorted([1, 3], 2)


def t_np15():
    return np.array(3).item()


def t_np16():
    return np.array([1, 2])[-1]


def t_np17():
    return np.full((2,), 7)


def t_np18():
    return np.eye(2)


def t_np19():
    return np.identity(2)


def t_np20():
    return np.triu([[1, 2], [3, 4]])


def t_np21():
    return np.array([[1, 2], [3, 4]]).sum(axis=0)


def t_np22():
    return np.max([[1, 5], [2, 3]], axis=1)


def t_np23():
    return np.swapaxes(np.ones((2, 3)), 0, 1).shape


def t_np24():
    return np.arange(8).reshape(2, 2, 2).transpose(2, 0, 1).ravel()


def t_np25():
    return np.array([3, 1])[np.array([1, 0])]


def t_np26():
    return np.array([1.5, 2.5]).astype(int)


def t_np27():
    return np.float32(0.1) == 0.1


def t_np28():
    return np.array([[1, 2, 3]]).reshape(3, 1)[:, 0]


def t_np29():
    return np.arange(6).reshape((2, 3), order='F')


def t_np30():
    return np.array([1, 2, 3]) @ np.array([1, 1, 1])


def t_np31():
    return np.moveaxis(np.ones((2, 3)), 0, 1).shape


def t_np32():
    return np.char.strip(np.array([' a ', 'b'])).tolist()


def t_np33():
    return np.array([1, 2]).view('f8').shape


def t_np34():
    return np.array([2.0, 3.0]) ** 2


def t_np35():
    return -np.array([1, 2])


def t_np36():
    return np.array([5, 6]) // 2


def t_np37():
    return np.array([1, 2]) == np.array([1, 3])


def t_np38():
    return (np.array([1, 2]) > 1).any()


def t_np39():
    return np.argwhere(np.array([0, 1]))


def t_np40():
    return np.diag([1, 2])


def t_np41():
    return np.setdiff1d([1, 2, 3], [2])


def t_np42():
    return np.intersect1d([1, 2], [2, 3])


def t_np43():
    return np.union1d([1], [2])


def t_np44():
    return np.bincount([0, 1, 1])


def t_np45():
    return np.cross([1, 0, 0], [0, 1, 0])


def t_np46():
    return np.linalg.norm([3.0, 4.0])


def t_np47():
    return np.copyto(np.zeros(2), 1)


def t_np48():
    return np.exp([0.0])


def t_np49():
    return np.log10([100.0])


def t_np50():
    return np.hypot(3.0, 4.0)


def t_np51():
    return np.angle(1j)


def t_np52():
    return np.gcd(4, 6)


def t_np53():
    return np.lib.stride_tricks is None


def t_np54():
    return np.asarray([1]).tolist()


def t_np55():
    return np.block([[np.ones(1), np.zeros(1)]])


def t_np56():
    return np.resize([1, 2], 4)


def t_np57():
    return np.ix_([0, 1], [1])[0].shape


def t_np58():
    return np.isrealobj([1])


def t_np59():
    return np.fromiter((i for i in range(3)), dtype=float)


def t_np60():
    return np.array([1+2j]).view(float)


def t_np61():
    return np.empty(3).shape


def t_np62():
    return np.zeros((2, 0)).tolist()


def t_np63():
    return np.shape([[1], [2]])


def t_np64():
    return np.split(np.arange(4), 2)[1]


def t_np65():
    return np.array_str(np.array([1]))


def t_np66():
    return np.iinfo(np.int32).max


def t_np67():
    return np.finfo(float).eps


def t_np68():
    return np.set_printoptions()


def t_np69():
    return np.array2string(np.array([1, 2]))


def t_half1():
    a = np.zeros(3, complex)
    a.real = [1., 2., 3.]
    a.imag = 4.
    a.real[1] = 9.
    a[1:].imag[:] = np.array([5., 6.])
    a.imag *= 2
    return [a.real, a.imag]


def t_half2():
    a = np.arange(6.)
    b = a.view(complex)
    b[1] = 7 + 8j
    b.imag[0] = -1.
    return [a, b.real, b.imag]


def t_half3():
    a = np.array([1 + 2j, 3 + 4j])
    v = a.view(float)
    v[::2] = 0.
    w = a.real.copy()
    w[:] = 5.
    return [a.real, a.imag, v, w]


def t_half4():
    a = np.zeros(2)
    try:
        a.imag = 3
    except TypeError:
        return 1
    return a


def t_half5():
    a = np.zeros((2, 2), complex)
    a[1].real = [1., 2.]
    a.T.imag[0] = [5., 6.]
    return [a.real, a.imag]


def t_half6():
    a = np.zeros(3)
    a.real = [1., 2., 3.]
    a.real[0] = 5.
    return a


def t_bytes1():
    import struct
    b = struct.pack('<2d', 1.5, -2.25)
    return [list(b), struct.unpack('>2d', b), struct.unpack('<4f', b), np.frombuffer(b, '<f8'), b.find(b'\xf8')]


def t_wrap1():
    import io
    raw = io.BytesIO()
    with io.TextIOWrapper(raw, encoding='utf-8', newline='\n') as t:
        t.write('abc\n%5i\n' % 3)
        a = raw.getvalue()
        t.flush()
        t.buffer.write(b'\x01\x02')
        t.write('z\n')
        t.flush()
        b = raw.getvalue()
        p = t.tell()
    return [a, b, p, raw.closed]


def t_wrap2():
    import io
    raw = io.BytesIO(b'a\r\nb\n')
    t = io.TextIOWrapper(raw, encoding='utf-8')
    x = [t.readline(), t.read()]
    d = t.detach()
    y = d is raw
    try:
        t.write('x')
    except ValueError:
        y = [y, 1]
    return [x, y]


def t_wrap3():
    import io
    import shutil
    import codecs
    a, b = io.BytesIO(b'12345'), io.BytesIO()
    a.seek(2)
    shutil.copyfileobj(a, b)
    w = codecs.getwriter('utf-8')(b)
    w.write('abc')
    return [b.getvalue(), a.tell(), a.readable(), io.BufferedReader(io.BytesIO(b'qq')).read()]


def t_cls1():
    class P:
        def __init__(self, f):
            self.f = f

        def __getattr__(self, n):
            return getattr(self.f, n)
    return [P('abc').upper(), P([1, 2]).count(1), hasattr(P('a'), 'zzz')]


def t_cls2():
    class V:
        def __init__(self, x):
            self.x = x

        def __add__(self, o):
            return V(self.x + (o.x if isinstance(o, V) else o))

        __radd__ = __add__

        def __mod__(self, o):
            return self.x % o

        def __neg__(self):
            return V(-self.x)

        def __getitem__(self, i):
            return self.x * i

        def __float__(self):
            return float(self.x)

        def __int__(self):
            return int(self.x)

        def __index__(self):
            return self.x

        def __abs__(self):
            return abs(self.x)

        def __iadd__(self, o):
            self.x += 100
            return self

        def __lt__(self, o):
            return self.x < o.x
    v = V(3)
    v += 1
    return [(V(1) + V(2)).x, (V(1) + 5).x, (5 + V(1)).x, V(7) % 4, (-V(2)).x, V(3)[4], float(V(2)), int(V(2)), [1, 2, 3][V(1)],
            abs(V(-4)), v.x, '%d' % V(5), sum([V(1), V(2)], V(0)).x, min(V(3), V(1)).x, [q.x for q in sorted([V(3), V(1)])]]


def t_cls3():
    class D(dict):
        def __missing__(self, k):
            return k + '!'

        def put(self, k):
            self[k] = 1
            return self
    d = D(a=1)
    d.put('z')
    return [d['a'], d['q'], len(d), sorted(d), 'z' in d, dict(d)]


def t_cls4():
    class L(list):
        def last(self):
            return self[-1]
    x = L([1, 2])
    x.append(5)
    return [x.last(), len(x), list(x)]


def t_cls5():
    class S(str):
        def shout(self):
            return self.upper() + '!'
    return [S('ab').shout(), S('ab') + 'c']


def t_cls6():
    class It:
        def __init__(self, n):
            self.n = n

        def __iter__(self):
            return self

        def __next__(self):
            if self.n == 0:
                raise StopIteration
            self.n -= 1
            return self.n
    it = It(5)
    return [next(it), list(it), list(zip(It(2), It(3)))]


def t_cls7():
    class Sq:
        def __len__(self):
            return 3

        def __getitem__(self, i):
            if i >= 3:
                raise IndexError
            return i * 2
    return [list(Sq()), len(Sq()), bool(Sq()), [x for x in Sq()], 4 in Sq()]


def t_cls8():
    import enum

    class K(enum.Enum):
        A = 1
        B = 2

    class J(enum.IntEnum):
        X = 55
        Y = 58
    return [K.A.value, K(2).name, K['A'] is K.A, [k.value for k in K], J.X == 55, J.Y + 1, '%6i' % J.X, J(58) is J.Y, 55 in [J.X], {55: 'q'}[J.X], '%d' % J.Y,
            isinstance(J.X, int), str(J.X)]


def t_cls9():
    from typing import NamedTuple
    import collections

    class R(NamedTuple):
        a: int
        b: str = 'x'

        def both(self):
            return (self.a, self.b)
    Q = collections.namedtuple('Q', 'u v', defaults=[9])
    r = R(1)
    u, v = Q(3)
    return [r.both(), r._replace(a=5).a, r._asdict(), r[1], tuple(r), Q(1, 2)._fields, u, v, R._fields, len(r), r == (1, 'x')]


def t_cls10():
    import dataclasses

    @dataclasses.dataclass(frozen=True)
    class F:
        name: str
        w: int = 10
        l: list = dataclasses.field(default_factory=list)

        def __post_init__(self):
            object.__setattr__(self, 'k', self.w * 2)
    f = F('a')
    try:
        f.w = 3
        e = 0
    except dataclasses.FrozenInstanceError:
        e = 1
    return [f.name, f.w, f.k, e, [x.name for x in dataclasses.fields(F)], dataclasses.replace(f, w=4).k, f == F('a'), dataclasses.asdict(f)]


def t_cls11():
    class M(type):
        def __new__(mcs, n, b, ns):
            ns['tag'] = n.lower()
            return super().__new__(mcs, n, b, ns)

    class A(metaclass=M):
        pass
    return A.tag


def t_cls12():
    class Reg:
        table = {}

        def __init_subclass__(cls, code=0, **kw):
            super().__init_subclass__(**kw)
            Reg.table[code] = cls

        def run(self):
            return 'reg'

    class A(Reg, code=5):
        def run(self):
            return 'a' + super().run()

    class B(Reg, code=6):
        pass
    return [sorted(Reg.table), Reg.table[5]().run(), Reg.table[6]().run()]


def t_cls13():
    class Desc:
        def __set_name__(self, owner, name):
            self.n = name

        def __get__(self, o, t=None):
            return o.__dict__.get(self.n, 0) + 1

        def __set__(self, o, v):
            o.__dict__[self.n] = v * 10

    class A:
        x = Desc()
        __slots__ = ('__dict__',)
    a = A()
    p = a.x
    a.x = 4
    return [p, a.x]


def t_cls14():
    import abc

    class A(abc.ABC):
        @property
        @abc.abstractmethod
        def code(self):
            ...

        def go(self):
            return self.code + 1

        @classmethod
        def make(cls):
            return cls()

        @staticmethod
        def st(a):
            return a * 2

    class B(A):
        @property
        def code(self):
            return 7

        @code.setter
        def code(self, v):
            self.v = v
    b = B.make()
    b.code = 3
    try:
        A()
        e = 0
    except TypeError:
        e = 1
    return [b.go(), b.v, B.st(4), e]


def t_cls15():
    class Cached:
        def __init__(self):
            self.n = 0

        def __call__(self, *a, **k):
            self.n += 1
            return self.n

        def __str__(self):
            return 'C%d' % self.n

        def __repr__(self):
            return '<C>'

        def __format__(self, spec):
            return 'F' + spec

        def __hash__(self):
            return 5

        def __eq__(self, o):
            return True
    import functools

    class W:
        @functools.cached_property
        def v(self):
            self.k = getattr(self, 'k', 0) + 1
            return self.k

        @functools.singledispatchmethod
        def d(self, x):
            return 'o'

        @d.register
        def _(self, x: int):
            return 'i'
    c = Cached()
    w = W()
    c()
    return [c(), '%s|%r' % (c, c), f'{c:>5}', '{}'.format(c), len({c, Cached()}), w.v, w.v, w.d(1), w.d('a')]


def t_cls16():
    def g():
        x = yield 1
        y = yield (x or 0) + 1
        return y
    it = g()
    out = [next(it), it.send(5)]
    try:
        it.send(7)
    except StopIteration as e:
        out.append(e.value)

    def h():
        r = yield from g()
        yield ('end', r)
    out.append(list(h()))
    return out


def t_cls17():
    class A:
        def __enter__(self):
            return self

        def __exit__(self, t, v, tb):
            self.t = t is not None and t.__name__
            return t is ValueError
    a = A()
    with a as b:
        raise ValueError('x')
    return [a.t, b is a]


def t_cls18():
    class A:
        def __setattr__(self, n, v):
            object.__setattr__(self, n, v * 2)

        def __getattribute__(self, n):
            return object.__getattribute__(self, n)

        def __delattr__(self, n):
            super().__delattr__(n)
    a = A()
    a.x = 4
    b = a.x
    del a.x
    return [b, hasattr(a, 'x')]


def t_cls19():
    class B(bytes):
        pass

    class I(int):
        def dbl(self):
            return self * 2

    class Fl(float):
        pass
    return [len(B(b'abc')), I(4).dbl(), I(4) + 1, Fl(2.5) * 2]


def t_cls20():
    import collections

    class U(collections.UserDict):
        def __setitem__(self, k, v):
            super().__setitem__(k.lower(), v)

    class O(collections.OrderedDict):
        pass
    u = U()
    u['A'] = 1
    u.update({'B': 2})
    o = O(b=1, a=2)
    o.move_to_end('b')
    m = collections.ChainMap({'a': 1}, {'a': 2, 'c': 3})
    return [sorted(u.keys()), list(o), m['a'], m['c'], len(m)]


def t_cls21():
    match [1, 'a', {'k': 2}]:
        case [int(x), str(y), {'k': z}]:
            r = [x, y, z]
        case _:
            r = None
    match 58:
        case 55 | 56:
            s = 1
        case n if n > 57:
            s = n
    return [r, s]
