"""Models of further library functions: numpy, re, collections, dataclasses, and modules written in the analysed language
itself (pyan/prelude.src is interpreted like the package, never executed)."""
import ast
import math
import os
import re
import re._parser as sre

from .dom import *
from .ai import PyExc, Fn, Bound, Cls, Obj, Ext, Meth, Partial, AIter, AFile, ABuf, concrete

UFUNC = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/', 'floor_divide': '//', 'mod': '%',
         'remainder': '%', 'power': '**', 'float_power': '**'}
UCMP = {'equal': '==', 'not_equal': '!=', 'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>='}
PRELUDE = {'io.TextIOWrapper': 'TextIOWrapper', 'io.BufferedWriter': 'Buffered', 'io.BufferedReader': 'Buffered',
           'io.BufferedRandom': 'Buffered', 'shutil.copyfileobj': 'copyfileobj', 'codecs.getwriter': 'codec_writer',
           'io.StringIO': 'StringIO', 'io.BytesIO': 'BytesIO', 'pathlib.Path': 'Path', 'pathlib.PurePath': 'Path',
           'pathlib.PosixPath': 'Path', 'pathlib.PurePosixPath': 'Path', 'collections.Counter': 'Counter',
           'contextlib.ExitStack': 'ExitStack', 'contextlib.nullcontext': 'nullcontext', 'collections.deque': 'deque',
           'itertools.accumulate': 'accumulate', 'itertools.starmap': 'starmap',
           'itertools.takewhile': 'takewhile', 'itertools.dropwhile': 'dropwhile', 'itertools.groupby': 'groupby',
           'itertools.pairwise': 'pairwise', 'itertools.batched': 'batched', 'itertools.count': 'count',
           'itertools.cycle': 'cycle', 'itertools.compress': 'compress', 'itertools.tee': 'tee',
           'operator.attrgetter': 'attrgetter', 'operator.methodcaller': 'methodcaller',
           'types.SimpleNamespace': 'SimpleNamespace'}
OPERATOR = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/', 'floordiv': '//', 'mod': '%', 'pow': '**'}


class DefaultDict(dict):
    factory = None


class Pat:
    """a compiled regular expression"""

    def __init__(self, p, flags):
        self.p, self.flags = p, flags


class Mat:
    """a match: spans per group in the text it was found in"""

    def __init__(self, text, m, pat):
        self.text, self.m, self.pat = text, m, pat


class More:
    # -------------------------------------------------------------- numpy
    def np_round(self, args, kw):
        nd = args[1] if len(args) > 1 else kw.get('decimals', 0)
        return self.rounded(args[0], nd)

    np_around = np_round_ = np_round

    def rounded(self, v, nd):
        def f(x):
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                return round(x, nd) if math.isfinite(x) else x
            if isinstance(x, complex):
                return complex(round(x.real, nd), round(x.imag, nd))
            if isinstance(x, Sym) and x.integral and nd >= 0:
                return x
            if isinstance(x, Sym) and x.kind == 'complex':
                return mk_cplx(('round', re_(x).term, nd), ('round', im_(x).term, nd))
            return Sym('float', ('round', tv(x), nd), integral=nd <= 0)
        if isinstance(v, (list, tuple)):
            v = self.array(v)
        r = self.emap(f, v)
        return r

    def np_rint(self, args, kw):
        return self.rounded(args[0], 0)

    def np_trunc(self, args, kw):
        return self.rnd('trunc', args[0])

    np_fix = np_trunc

    def ufunc(self, n, args):
        if n in UFUNC:
            a, b = [self.array(x) if isinstance(x, (list, tuple)) else x for x in args[:2]]
            return self.ip.binop(UFUNC[n], a, b)
        a, b = [self.array(x) if isinstance(x, (list, tuple)) else x for x in args[:2]]
        return self.ip.cmp(UCMP[n], a, b) if not isinstance(a, Arr) and not isinstance(b, Arr) else self.arr_cmp(UCMP[n], a, b)

    def np_negative(self, args, kw):
        return self.emap(lambda x: self.ip.binop('*', x, -1), args[0])

    def np_square(self, args, kw):
        return self.emap(lambda x: self.ip.binop('*', x, x), args[0])

    def np_sqrt(self, args, kw):
        return self.emap(lambda x: math.sqrt(x) if isinstance(x, (int, float)) and x >= 0 else Sym('float', ('sqrt', tv(x))), args[0])

    def np_sign(self, args, kw):
        def f(x):
            t = self.ip.truth
            return 1 if t(self.ip.cmp('>', x, 0)) else -1 if t(self.ip.cmp('<', x, 0)) else 0
        return self.emap(f, args[0])

    def np_signbit(self, args, kw):
        return self.emap(lambda x: self.ip.cmp('<', x, 0), args[0], 'b1')

    def np_logical_not(self, args, kw):
        return self.emap(lambda x: not self.ip.truth(x), args[0], 'b1')

    def logical(self, args, op):
        A, B = self.array(args[0], copy=False), self.array(args[1], copy=False)
        sh = self.bshape(A.shape, B.shape)
        el = [op(self.ip.truth(x), self.ip.truth(y)) for x, y in zip(self.broadcast(A, sh), self.broadcast(B, sh))]
        return Arr(el, sh, 'b1') if sh else el[0]

    def np_logical_and(self, args, kw):
        return self.logical(args, lambda x, y: x and y)

    def np_logical_or(self, args, kw):
        return self.logical(args, lambda x, y: x or y)

    def np_logical_xor(self, args, kw):
        return self.logical(args, lambda x, y: x != y)

    def np_cumsum(self, args, kw):
        a = self.array(args[0], copy=False)
        if kw.get('axis') not in (None, 0) or len(a.shape) > 1:
            raise self.ip.und('cumsum over an axis')
        out, acc = [], 0
        for x in a.elems():
            acc = self.ip.binop('+', acc, x)
            out.append(acc)
        return Arr(out, None, a.dt if a.dt != 'b1' else 'i8')

    def np_mean(self, args, kw):
        a = self.array(args[0], copy=False)
        if kw.get('axis') is not None or not a.size():
            raise self.ip.und('mean over an axis')
        return self.ip.binop('/', self.np_sum([a], {}), a.size())

    def order(self, a, kw):
        el = a.elems()
        if len(a.shape) != 1:
            raise self.ip.und('sorting along an axis')
        if not all(concrete(x) for x in el):
            raise self.ip.und('sorting of unknown values')
        return sorted(range(len(el)), key=lambda i: el[i])

    def np_sort(self, args, kw):
        a = self.array(args[0], copy=False)
        return Arr([a.elems()[i] for i in self.order(a, kw)], None, a.dt)

    def np_argsort(self, args, kw):
        return Arr(self.order(self.array(args[0], copy=False), kw), None, 'i8')

    def np_unique(self, args, kw):
        if kw or len(args) > 1:
            raise self.ip.und('unique with indices')
        a = self.array(args[0], copy=False)
        a = Arr(a.elems(), None, a.dt)
        out = []
        for i in self.order(a, {}):
            if not out or out[-1] != a.elems()[i]:
                out.append(a.elems()[i])
        return Arr(out, None, a.dt)

    def argm(self, args, op):
        a = self.array(args[0], copy=False)
        el = a.elems()
        if not el:
            raise self.ip.err(ValueError, 'attempt to get argmax of an empty sequence')
        k = 0
        for i in range(1, len(el)):
            if self.ip.truth(self.ip.cmp(op, el[i], el[k])):
                k = i
        return k

    def np_argmax(self, args, kw):
        return self.argm(args, '>')

    def np_argmin(self, args, kw):
        return self.argm(args, '<')

    def np_ptp(self, args, kw):
        return self.ip.binop('-', self.np_max(args, kw), self.np_min(args, kw))

    def np_clip(self, args, kw):
        lo = args[1] if len(args) > 1 else kw.get('a_min')
        hi = args[2] if len(args) > 2 else kw.get('a_max')

        def f(x):
            if lo is not None and self.ip.truth(self.ip.cmp('<', x, lo)):
                return lo
            if hi is not None and self.ip.truth(self.ip.cmp('>', x, hi)):
                return hi
            return x
        return self.emap(f, args[0])

    def np_insert(self, args, kw):
        a = self.array(args[0])
        if len(a.shape) != 1 or not isinstance(args[1], int):
            raise self.ip.und('insert')
        v = args[2]
        v = list(self.ip.iterate(v)) if isinstance(v, (list, tuple, Arr)) and not (isinstance(v, Arr) and not v.shape) else [v]
        el = a.elems()
        i = args[1] if args[1] >= 0 else len(el) + args[1]
        return Arr([self.cast(x, a.dt) for x in el[:i] + v + el[i:]], None, a.dt)

    def np_delete(self, args, kw):
        a = self.array(args[0])
        ax = args[2] if len(args) > 2 else kw.get('axis')
        idx = args[1]
        idx = [self.hostidx(x) for x in self.ip.iterate(idx)] if isinstance(idx, (list, tuple, Arr)) else \
            list(range(*idx.indices(a.shape[0]))) if isinstance(idx, slice) else [self.hostidx(idx)]
        if len(a.shape) != 1 and ax is None:
            a = Arr(a.elems(), None, a.dt)
        n = a.shape[0]
        keep = [i for i in range(n) if i not in {j % n for j in idx}]
        if len(a.shape) != 1 and ax != 0:
            raise self.ip.und('delete along an axis')
        return self.arr_getitem(a, keep).copy()

    def np_roll(self, args, kw):
        a = self.array(args[0])
        if len(a.shape) != 1:
            raise self.ip.und('roll')
        el, k = a.elems(), args[1] if len(args) > 1 else kw['shift']
        k = k % len(el) if el else 0
        return Arr(el[-k:] + el[:-k] if k else el, None, a.dt)

    def np_take(self, args, kw):
        a = self.array(args[0], copy=False)
        if kw.get('axis') not in (None, 0) or len(a.shape) > 1:
            raise self.ip.und('take along an axis')
        return self.arr_getitem(a, args[1])

    def np_expand_dims(self, args, kw):
        a = self.array(args[0], copy=False)
        ax = args[1] if len(args) > 1 else kw['axis']
        ax = ax if ax >= 0 else ax + len(a.shape) + 1
        return a.view(list(a.idx), a.shape[:ax] + (1,) + a.shape[ax:])

    def np_allclose(self, args, kw):
        A, B = self.array(args[0], copy=False), self.array(args[1], copy=False)
        sh = self.bshape(A.shape, B.shape)
        return all(self.close(x, y, args, kw) for x, y in zip(self.broadcast(A, sh), self.broadcast(B, sh)))

    def close(self, x, y, args, kw):
        if isinstance(x, Sym) or isinstance(y, Sym):
            d = self.ip.binop('-', x, y)
            if not isinstance(d, Sym) and d == 0:
                return True
            return self.ip.truth(Sym('bool', ('close', tv(x), tv(y))))
        rt = args[2] if len(args) > 2 else kw.get('rtol', 1e-5)
        at = args[3] if len(args) > 3 else kw.get('atol', 1e-8)
        return x == y or abs(x - y) <= at + rt * abs(y)

    def np_isclose(self, args, kw):
        A, B = self.array(args[0], copy=False), self.array(args[1], copy=False)
        sh = self.bshape(A.shape, B.shape)
        el = [self.close(x, y, args, kw) for x, y in zip(self.broadcast(A, sh), self.broadcast(B, sh))]
        return Arr(el, sh, 'b1') if sh else el[0]

    def x_math_isclose(self, args, kw):
        return self.close(args[0], args[1], [], {'rtol': kw.get('rel_tol', 1e-9), 'atol': kw.get('abs_tol', 0.0)})

    def np_fromiter(self, args, kw):
        dt = self.dtname(args[1] if len(args) > 1 else kw.get('dtype'))
        return Arr([self.cast(x, dt) for x in self.ip.iterate(args[0])], None, dt)

    def arr_view(self, a, d):
        """the same memory under another type: only pairs of floats as complex numbers, and back"""
        pairs = {('c16', 'f8'), ('c8', 'f4')}
        if (a.dt, d) in pairs:
            return Arr(None, a.shape[:-1] + (a.shape[-1] * 2,), d, [2 * i + k for i in a.idx for k in (0, 1)], Halves(a.buf))
        if (d, a.dt) in pairs and a.shape and a.shape[-1] % 2 == 0:
            if any(x % 2 or y != x + 1 for x, y in zip(a.idx[::2], a.idx[1::2])):
                raise self.ip.und('view of scattered numbers as complex numbers')
            return Arr(None, a.shape[:-1] + (a.shape[-1] // 2,), d, [i // 2 for i in a.idx[::2]], Pairs(a.buf))
        if d == a.dt:
            return a.view(list(a.idx), a.shape)
        raise self.ip.und('view of an array as another type')

    def np_iinfo(self, args, kw):
        d = self.dtname(args[0]).lstrip('<>')
        return self.ip.call(self.named('types.SimpleNamespace'), [], {'max': 2 ** (8 * int(d[1:]) - 1) - 1, 'min': -2 ** (8 * int(d[1:]) - 1)})

    def np_finfo(self, args, kw):
        d = self.dtname(args[0]).lstrip('<>')
        if d not in ('f8', 'f4'):
            raise self.ip.und('finfo')
        v = (2.0 ** -52, 1.7976931348623157e308, 2.2250738585072014e-308) if d == 'f8' else (2.0 ** -23, 3.4028234663852886e38, 1.1754943508222875e-38)
        return self.ip.call(self.named('types.SimpleNamespace'), [], {'eps': v[0], 'max': v[1], 'min': -v[1], 'tiny': v[2]})

    def np_swapaxes(self, args, kw):
        a = self.array(args[0], copy=False)
        o = list(range(len(a.shape)))
        i, j = args[1] % len(o), args[2] % len(o)
        o[i], o[j] = o[j], o[i]
        return self.axesorder(a, tuple(o))

    def np_moveaxis(self, args, kw):
        a = self.array(args[0], copy=False)
        if not isinstance(args[1], int):
            raise self.ip.und('moveaxis')
        o = list(range(len(a.shape)))
        x = o.pop(args[1])
        o.insert(args[2] % len(a.shape), x)
        return self.axesorder(a, tuple(o))

    def np_dot(self, args, kw):
        A, B = self.array(args[0], copy=False), self.array(args[1], copy=False)
        dot = lambda xs, ys: self.np_sum([[self.ip.binop('*', x, y) for x, y in zip(xs, ys)]], {})
        if len(A.shape) not in (1, 2) or len(B.shape) not in (1, 2) or A.shape[-1] != B.shape[0]:
            raise self.ip.und('dot')
        a = [A.elems()[i * A.shape[-1]:(i + 1) * A.shape[-1]] for i in range(A.size() // max(1, A.shape[-1]))]
        n = B.shape[1] if len(B.shape) == 2 else 1
        b = [B.elems()[j::n] for j in range(n)]
        r = [dot(x, y) for x in a for y in b]
        sh = A.shape[:-1] + B.shape[1:]
        return Arr(r, sh, self.join_dt([A.dt, B.dt])) if sh else r[0]

    np_matmul = np_inner = np_dot

    def np_outer(self, args, kw):
        A, B = self.array(args[0], copy=False), self.array(args[1], copy=False)
        return Arr([self.ip.binop('*', x, y) for x in A.elems() for y in B.elems()], (A.size(), B.size()), self.join_dt([A.dt, B.dt]))

    def np_eye(self, args, kw):
        n = self.hostidx(args[0])
        dt = self.dtname(kw['dtype']) if 'dtype' in kw else 'f8'
        return Arr([self.cast(int(i == j), dt) for i in range(n) for j in range(n)], (n, n), dt)

    np_identity = np_eye

    def np_pad(self, args, kw):
        a = self.array(args[0])
        w = args[1] if len(args) > 1 else kw['pad_width']
        mode = args[2] if len(args) > 2 else kw.get('mode', 'constant')
        fill = kw.get('constant_values', 0)
        if mode != 'constant' or isinstance(fill, (tuple, list)):
            raise self.ip.und('pad')
        if isinstance(w, int):
            w = [(w, w)] * len(a.shape)
        elif isinstance(w[0], int):
            w = [tuple(w) if len(w) == 2 else (w[0], w[0])] * len(a.shape)
        for ax, (p, q) in enumerate(w):
            sh = lambda k: a.shape[:ax] + (k,) + a.shape[ax + 1:]
            a = self.cat([self.full(sh(p), fill, a.dt), a, self.full(sh(q), fill, a.dt)], ax)
        return a

    def np_resize(self, args, kw):
        a = self.array(args[0])
        sh = args[1] if isinstance(args[1], (tuple, list)) else (args[1],)
        n = 1
        for x in sh:
            n *= x
        el = a.elems()
        return Arr([el[i % len(el)] for i in range(n)], tuple(sh), a.dt)

    def np_setdiff1d(self, args, kw):
        a, b = self.np_unique([args[0]], {}), self.array(args[1])
        return Arr([x for x in a.elems() if x not in b.elems()], None, a.dt)

    def np_intersect1d(self, args, kw):
        a, b = self.np_unique([args[0]], {}), self.np_unique([args[1]], {})
        return Arr([x for x in a.elems() if x in b.elems()], None, a.dt)

    def np_union1d(self, args, kw):
        return self.np_unique([self.np_concatenate([[args[0], args[1]]], {})], {})

    def np_searchsorted(self, args, kw):
        if not isnum(args[1]):
            raise self.ip.und('searchsorted')
        return self.bisect(args[:2], '<' if kw.get('side', 'left') == 'left' else '<=')

    def np_diag(self, args, kw):
        a = self.array(args[0], copy=False)
        n = a.shape[0]
        if len(a.shape) == 1:
            return Arr([a.elems()[i] if i == j else 0 for i in range(n) for j in range(n)], (n, n), a.dt)
        return Arr([a.elems()[i * a.shape[1] + i] for i in range(min(a.shape))], None, a.dt)

    def np_argwhere(self, args, kw):
        r = self.np_nonzero(args, kw)
        return self.transpose(self.array([x for x in r])).copy()

    def np_copyto(self, args, kw):
        self.arr_setitem(args[0], Ellipsis, args[1])

    def np_median(self, args, kw):
        a = self.array(args[0])
        o = [a.elems()[i] for i in self.order(Arr(a.elems(), None, a.dt), {})]
        n = len(o)
        return self.ip.binop('/', self.ip.binop('+', o[(n - 1) // 2], o[n // 2]), 2)

    def np_exp(self, args, kw):
        return self.emap(lambda x: math.exp(x) if isinstance(x, (int, float)) else Sym('float', ('exp', tv(x))), args[0])

    def np_log(self, args, kw):
        self.emap(lambda x: self.zero_div(x, '<='), args[0], 'O')
        return self.emap(lambda x: math.log(x) if isinstance(x, (int, float)) and x > 0 else Sym('float', ('log', tv(x))), args[0])

    def np_log10(self, args, kw):
        return self.emap(lambda x: math.log10(x) if isinstance(x, (int, float)) and x > 0 else Sym('float', ('log10', tv(x))), args[0])

    def np_hypot(self, args, kw):
        return self.np_abs([mk_cplx(tv(args[0]), tv(args[1]))], {}) if isnum(args[0]) else self.ip.top('hypot')

    def splits(self, args, kw, even):
        a = self.array(args[0], copy=False)
        n = args[1] if len(args) > 1 else kw['indices_or_sections']
        ax = args[2] if len(args) > 2 else kw.get('axis', 0)
        L = a.shape[ax]
        if isinstance(n, int):
            if even and L % n:
                raise self.ip.err(ValueError, 'array split does not result in an equal division')
            q, r = divmod(L, n)
            cuts = [0]
            for i in range(n):
                cuts.append(cuts[-1] + q + (i < r))
        else:
            cuts = [0] + [self.hostidx(x) for x in self.ip.iterate(n)] + [L]
        pre = (slice(None),) * ax
        return [self.arr_getitem(a, pre + (slice(i, j),)) for i, j in zip(cuts, cuts[1:])]

    def b_bin(self, args, kw):
        return self.radix(bin, args)

    def b_hex(self, args, kw):
        return self.radix(hex, args)

    def b_oct(self, args, kw):
        return self.radix(oct, args)

    def radix(self, f, args):
        return f(args[0]) if isinstance(args[0], int) else self.ip.top(f.__name__)

    def b_ascii(self, args, kw):
        return self.to_str(args[0], 'r')

    def x_bisect_bisect_left(self, args, kw):
        return self.bisect(args, '<')

    def x_bisect_bisect_right(self, args, kw):
        return self.bisect(args, '<=')

    x_bisect_bisect = x_bisect_bisect_right

    def bisect(self, args, op):
        n = 0
        for x in self.ip.iterate(args[0]):
            if not self.ip.truth(self.ip.cmp(op, x, args[1])):
                break
            n += 1
        return n

    def np_hsplit(self, args, kw):
        return self.np_split([args[0], args[1], 1], {})

    def np_vsplit(self, args, kw):
        return self.np_split([args[0], args[1], 0], {})

    def np_fliplr(self, args, kw):
        return self.arr_getitem(self.array(args[0], copy=False), (slice(None), slice(None, None, -1)))

    def np_flipud(self, args, kw):
        return self.arr_getitem(self.array(args[0], copy=False), slice(None, None, -1))

    def np_array_equiv(self, args, kw):
        return self.np_array_equal(args, kw)

    def np_require(self, args, kw):
        return self.np_asarray(args[:2], {k: v for k, v in kw.items() if k == 'dtype'})

    def np_asfortranarray(self, args, kw):
        return self.np_asarray(args, kw)

    def np_asarray_chkfinite(self, args, kw):
        a = self.np_asarray(args, kw)
        if not all(self.isfin('isfinite', x) for x in a.elems()):
            raise self.ip.err(ValueError, 'array must not contain infs or NaNs')
        return a

    def np_lexsort(self, args, kw):
        raise self.ip.und('lexsort')

    def np_result_type(self, args, kw):
        return Ext('dtype:' + self.join_dt([self.array(a).dt for a in args]))

    def np_unravel_index(self, args, kw):
        raise self.ip.und('unravel_index')

    def np_ndenumerate(self, args, kw):
        a = self.array(args[0], copy=False)
        out = []
        for k, x in enumerate(a.elems()):
            idx = []
            for n in reversed(a.shape):
                idx.append(k % n)
                k //= n
            out.append((tuple(reversed(idx)), x))
        return AIter(out)

    def np_ndindex(self, args, kw):
        import itertools
        sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
        return AIter(list(itertools.product(*[range(self.hostidx(n)) for n in sh])))

    def np_nditer(self, args, kw):
        return AIter(list(self.array(args[0], copy=False).elems()))

    def np_savetxt(self, args, kw):
        """rows of an array as text"""
        ip = self.ip
        f, a = args[0], self.array(args[1], copy=False)
        fmt = args[2] if len(args) > 2 else kw.get('fmt', '%.18e')
        delim, nl = kw.get('delimiter', ' '), kw.get('newline', '\n')
        head, foot = kw.get('header', ''), kw.get('footer', '')
        if len(a.shape) == 0 or len(a.shape) > 2:
            raise ip.err(ValueError, 'Expected 1D or 2D array')
        rows = [[x] for x in a.elems()] if len(a.shape) == 1 else \
            [a.elems()[i * a.shape[1]:(i + 1) * a.shape[1]] for i in range(a.shape[0])]
        own = isinstance(f, str)
        if own:
            f = self.openf([f, 'w'], {'encoding': kw.get('encoding') or 'latin-1'})
        put = lambda s: ip.call(ip.getattr(f, 'write'), [s if not (isinstance(f, AFile) and not f.text) else
                                                        self.str_method(s, 'encode', ['latin-1'], {})], {})
        if head:
            put(kw.get('comments', '# ') + head + nl)
        for r in rows:
            if a.dt.lstrip('<>')[0] == 'c':
                raise ip.und('savetxt of complex values')
            if isinstance(fmt, (list, tuple)):
                t = delim.join(fmt)
            elif fmt.count('%') == 1:
                t = delim.join([fmt] * len(r))
            else:
                t = fmt
            put(ip.binop('+', self.percent(t, tuple(r)), nl))
        if foot:
            put(kw.get('comments', '# ') + foot + nl)
        if own:
            self.file_method(f, 'close', [], {})
        return None

    def np_loadtxt(self, args, kw):
        ip = self.ip
        if set(kw) - {'dtype', 'ndmin', 'comments'}:
            raise ip.und('loadtxt')
        src = args[0]
        if isinstance(src, str):
            src = self.openf([src], {})
        lines = list(ip.iterate(src))
        dt = self.dtname(args[1] if len(args) > 1 else kw.get('dtype', Ext('builtins.float')))
        rows = []
        for l in lines:
            t = self.str_method(l, 'split', [], {})
            if t:
                rows.append([self.cast(ip.call(Ext('builtins.float' if dt.lstrip('<>')[0] != 'i' else 'builtins.int'), [x], {}), dt) for x in t])
        if len({len(r) for r in rows}) > 1:
            raise ip.err(ValueError, 'the number of columns changed')
        n, m = len(rows), len(rows[0]) if rows else 0
        el = [x for r in rows for x in r]
        nd = kw.get('ndmin', 0)
        if nd == 2:
            return Arr(el, (n, m), dt)
        if n * m == 1 and nd < 1:
            return Arr(el, (), dt)
        if n == 1 or m == 1:
            return Arr(el, None, dt)
        return Arr(el, (n, m), dt)

    np_genfromtxt = np_loadtxt

    def np_fromfile(self, args, kw):
        ip = self.ip
        f = args[0]
        if kw.get('sep') or len(args) > 3 or not isinstance(f, AFile):
            raise ip.und('fromfile')
        dt = args[1] if len(args) > 1 else kw.get('dtype', Ext('builtins.float'))
        n = args[2] if len(args) > 2 else kw.get('count', -1)
        size = self.np_dtype([dt], {})
        k = self.value_attr(size, 'itemsize')
        data = self.file_method(f, 'read', [] if n == -1 else [n * k], {})
        return self.np_frombuffer([data], {'dtype': dt})

    def np_format_float_scientific(self, args, kw):
        raise self.ip.und('format_float_scientific')

    def np_vectorize(self, args, kw):
        return Partial(Ext('numpy.vectorized'), [args[0]], {})

    def np_vectorized(self, args, kw):
        f, xs = args[0], args[1:]
        if len(xs) != 1:
            raise self.ip.und('vectorize of several arguments')
        return self.emap(lambda x: self.ip.call(f, [x], {}), xs[0])

    def np_apply_along_axis(self, args, kw):
        raise self.ip.und('apply_along_axis')

    def np_char_strip(self, args, kw):
        return self.emap(lambda x: self.str_method(x, 'strip', list(args[1:]), {}), args[0])

    # --------------------------------------------------------- collections
    def x_collections_defaultdict(self, args, kw):
        d = DefaultDict()
        d.factory = args[0] if args else None
        if len(args) > 1:
            d.update(self.ip.lib.b_dict([args[1]], {}))
        d.update(kw)
        return d

    def x_collections_namedtuple(self, args, kw):
        name, fields = args[0], args[1]
        fields = fields.replace(',', ' ').split() if isinstance(fields, str) else list(self.ip.iterate(fields))
        return self.record(name, fields, list(self.ip.iterate(kw.get('defaults') or [])), True)

    def record(self, name, fields, defaults, tup, post=False):
        """a class with these fields; defaults: of the last of them"""
        k = len(fields) - len(defaults)
        sig = ''.join(', %s%s' % (f, '=None' if i >= k else '') for i, f in enumerate(fields))
        src = 'class %s:\n    def __init__(self%s):\n' % (name, sig)
        src += ''.join('        self.%s = %s\n' % (f, f) for f in fields) + ('        self.__post_init__()\n' if post else '        pass\n')
        if tup:
            src += '    _fields = %r\n' % (tuple(fields),)
        else:
            lst = '(%s)' % ''.join('%%s.%s, ' % f for f in fields)
            src += '    def __eq__(self, o):\n        return type(self) is type(o) and %s == %s\n' % (
                lst.replace('%s', 'self'), lst.replace('%s', 'o'))
        from .ai import Frame
        mv = self.prelude()
        tree = ast.parse(src)
        for n in ast.walk(tree):
            if hasattr(n, 'lineno') and self.ip.cur:
                n.lineno = self.ip.cur[1]
        fr = Frame(None, mv, {}, None)
        save = self.ip.cur
        self.ip.block(tree.body, fr)
        self.ip.cur = save
        c = fr.env[name]
        c.fields = tuple(fields) if tup else None
        init = c.attrs['__init__']
        init.defaults = list(defaults)
        return c

    def dataclass(self, c, tup=False, eq=True):
        """the class with the __init__ its annotations describe"""
        ip = self.ip
        names, defs = [], []
        for st in c.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                names.append(st.target.id)
                if st.value is not None:
                    defs.append(c.attrs[st.target.id])
                elif defs:
                    raise ip.err(TypeError, 'non-default argument follows default argument')
        if not tup and any(getattr(b, 'dc', None) for b in c.mro()):
            raise ip.und('dataclass that extends another')
        c.dc = not tup
        factories = {}
        for i, d in enumerate(defs):
            if isinstance(d, Partial) and isinstance(d.f, Ext) and d.f.name == 'dataclasses.field':
                if 'default_factory' in d.kw:
                    factories[names[len(names) - len(defs) + i]] = d.kw['default_factory']
                    defs[i] = None
                else:
                    defs[i] = d.kw.get('default')
        r = self.record(c.node.name, names, defs, tup, '__post_init__' in c.attrs)
        init = r.attrs['__init__']
        init.factories = factories
        for k, v in r.attrs.items():
            if k not in c.attrs or k in names:
                if isinstance(v, Fn):
                    v.cls = c
                c.attrs[k] = v
        if tup:
            c.fields = r.fields
            c.attrs['_fields'] = r.fields
            for n in names:
                c.attrs.pop(n, None)
        elif eq:
            c.attrs.setdefault('__eq__', r.attrs['__eq__'])
        return c

    def x_dataclasses_dataclass(self, args, kw):
        if set(kw) - {'frozen', 'eq', 'repr', 'slots', 'order', 'unsafe_hash', 'kw_only'} or kw.get('order') or kw.get('kw_only'):
            raise self.ip.und('dataclass with %s' % ', '.join(kw))
        if args:
            return self.dataclass(args[0], False, kw.get('eq', True))
        return Partial(Ext('dataclasses.dataclass'), [], kw)

    def x_dataclasses_field(self, args, kw):
        return Partial(Ext('dataclasses.field'), [], kw)

    def prelude(self):
        ip = self.ip
        if '<prelude>' not in ip.mods:
            from .src import Module
            from .ai import ModV, Frame
            p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.src')
            key = '_prelude'
            m = getattr(More, key, None)
            if m is None:
                with open(p, encoding='utf-8') as fh:
                    text = fh.read()
                m = Module('<prelude>', '<prelude>', ast.parse(text, p), text)
                m.rel = '<prelude>'
                More._prelude = m
            mv = ip.mods['<prelude>'] = ModV(m)
            mv.env['__name__'] = '<prelude>'
            save = ip.cur
            ip.depth += 1
            ip.block(m.tree.body, Frame(None, mv, mv.env, None))
            ip.depth -= 1
            ip.cur = save
        return ip.mods['<prelude>']

    def named(self, full):
        """a library name defined in the prelude; None: not there"""
        n = PRELUDE.get(full)
        return None if n is None else self.prelude().env[n]

    def memo(self, f):
        """a function that keeps its results"""
        return Partial(Ext('functools.memo'), [f, {}], {})

    def x_functools_memo(self, args, kw):
        f, store, args = args[0], args[1], args[2:]
        ip = self.ip
        k = (tuple(self.memokey(a) for a in args), tuple(sorted((n, self.memokey(a)) for n, a in kw.items())))
        if k not in store:
            store[k] = ip.call(f, list(args), kw)
        return store[k]

    def memokey(self, a):
        if isinstance(a, Obj):
            return ('obj', id(a))
        if isinstance(a, tuple):
            return tuple(self.memokey(x) for x in a)
        if isinstance(a, (AStr, Sym)):
            return ('term', repr(tv(a)) if isinstance(a, Sym) else repr(a))
        return (type(a).__name__, self.ip.hashkey(a))

    def x_functools_lru_cache(self, args, kw):
        if args and isinstance(args[0], (Fn, Bound, Partial)):
            return self.memo(args[0])
        return Partial(Ext('functools.cache'), [], {})

    def x_functools_cache(self, args, kw):
        return self.memo(args[0])

    def x_functools_wraps(self, args, kw):
        return Partial(Ext('functools.same'), [], {})

    def x_functools_same(self, args, kw):
        return args[-1]

    def fspath(self, p):
        if isinstance(p, Obj):
            f = p.cls.find('__fspath__')
            if f:
                return self.ip.call(Bound(p, f), [], {})
        return p

    # ------------------------------------------------------ regular expressions
    def exemplars(self, v):
        """two texts of the same shape in place of the unknown parts"""
        out = []
        for k in range(2):
            t = []
            for s in segs_of(v):
                if isinstance(s, str):
                    t.append(s)
                elif isinstance(s, Fld):
                    n = s.len()
                    c = self.example(s, k)
                    c = c[:n]
                    t.append(c.ljust(n) if s.left else c.rjust(n, '0' if s.zero else ' '))
                elif isinstance(s, TopSeg):
                    raise self.ip.und('pattern in unknown text')
                else:
                    t.append('\x81Z'[k] * s.len())
            out.append(''.join(t))
        return out

    def example(self, s, k):
        if s.conv in 'id' or s.conv == 's' and s.sym.kind == 'int':
            return ('472', '-36')[k][:max(1, s.nom())]
        if s.conv in 'eEfFgG' or s.conv == 's' and s.sym.kind == 'float':
            x = (4.7246813579, -3.6912581472e-3)[k]
            p = 6 if s.prec is None else s.prec
            t = '%.*e' % (p, x) if s.conv in 'eE' else '%.*f' % (p, x)
            return t.replace('e+', s.epos + '+').replace('e-', s.eneg + '-') if s.conv in 'eE' else t
        n = s.nom()
        return ('q' * n, ('Ab 7.' * n)[:max(n - 1, 1)] + 'x')[k][:n]

    def pat(self, p, flags=0):
        if isinstance(p, Pat):
            return p
        if not isinstance(p, (str, bytes)):
            raise self.ip.und('pattern not known')
        f = 0
        for x in (flags if isinstance(flags, (list, tuple)) else [flags]):
            f |= int(x)
        try:
            return Pat(re.compile(p.decode('latin-1') if isinstance(p, bytes) else p, f), f)
        except re.error as e:
            raise self.ip.err(ValueError, str(e))

    def matches(self, p, v, how):
        """the matches in a text; unknown parts: two examples must agree"""
        res = []
        ex = self.exemplars(v) if not isinstance(v, (str, bytes)) else [v if isinstance(v, str) else v.decode('latin-1')]
        for t in ex:
            if how == 'finditer':
                ms = list(p.p.finditer(t))
            else:
                m = getattr(p.p, how)(t)
                ms = [m] if m else []
            res.append(ms)
        if len(res) == 2 and [[m.regs for m in r] for r in res][0] != [m.regs for m in res[1]]:
            raise self.ip.und('pattern %r decides on unknown text' % p.p.pattern)
        return res[0]

    def piece(self, v, a, b):
        if a < 0:
            return None
        if isinstance(v, (str, bytes)):
            return v[a:b]
        return self.str_getitem(v, slice(a, b)) if a < b else (b'' if is_b(v) else '')

    def re_call(self, n, args, kw):
        ip = self.ip
        if n == 'compile':
            return self.pat(args[0], args[1] if len(args) > 1 else kw.get('flags', 0))
        if n == 'escape':
            return re.escape(args[0])
        if n in ('match', 'search', 'fullmatch', 'finditer', 'findall', 'split', 'sub', 'subn'):
            p = self.pat(args[0], kw.pop('flags', 0) if 'flags' in kw else (
                args[2] if n in ('match', 'search', 'fullmatch', 'finditer', 'findall') and len(args) > 2 else 0))
            return self.pat_method(p, n, list(args[1:]) if n in ('split', 'sub', 'subn') else list(args[1:2]), kw)
        raise ip.und('re.' + n)

    def pat_method(self, p, n, args, kw):
        ip = self.ip
        v = args[1] if n in ('sub', 'subn') else args[0]
        if isinstance(v, Top):
            return ip.top('pattern in unknown text')
        if not is_s(v):
            raise ip.err(TypeError, 'expected string or bytes-like object')
        if n in ('match', 'search', 'fullmatch'):
            if len(args) > 1:
                raise ip.und('position of a match')
            ms = self.matches(p, v, n)
            return Mat(v, ms[0], p) if ms else None
        ms = self.matches(p, v, 'finditer')
        if n == 'finditer':
            return AIter([Mat(v, m, p) for m in ms])
        if n == 'findall':
            out = []
            for m in ms:
                g = [self.piece(v, *m.span(i)) for i in range(1, p.p.groups + 1)] or [self.piece(v, *m.span())]
                g = [x if x is not None else '' for x in g]
                out.append(g[0] if len(g) == 1 else tuple(g))
            return out
        if n == 'split':
            mx = args[1] if len(args) > 1 else kw.get('maxsplit', 0)
            out, q = [], 0
            for m in ms[:mx or None]:
                out.append(self.piece(v, q, m.start()))
                out += [self.piece(v, *m.span(i)) for i in range(1, p.p.groups + 1)]
                q = m.end()
            return out + [self.piece(v, q, slen(v))]
        if n in ('sub', 'subn'):
            rep, mx = args[0], args[2] if len(args) > 2 else kw.get('count', 0)
            out, q = b'' if is_b(v) else '', 0
            for m in ms[:mx or None]:
                out = ip.binop('+', out, self.piece(v, q, m.start()))
                if isinstance(rep, (str, bytes)):
                    r = rep.decode('latin-1') if isinstance(rep, bytes) else rep
                    for t in re.split(r'(\\g<\w+>|\\\d+)', r):
                        g = re.fullmatch(r'\\g<(\w+)>|\\(\d+)', t)
                        if g:
                            k = g.group(1) or g.group(2)
                            w = self.piece(v, *m.span(int(k) if k.isdigit() else k))
                        else:
                            w = re.sub(r'\\(.)', lambda x: {'n': '\n', 't': '\t', 'r': '\r'}.get(x.group(1), x.group(1)), t)
                            w = w.encode('latin-1') if is_b(v) else w
                        if w:
                            out = ip.binop('+', out, w)
                else:
                    out = ip.binop('+', out, ip.call(rep, [Mat(v, m, p)], {}))
                q = m.end()
            out = ip.binop('+', out, self.piece(v, q, slen(v)))
            return (out, len(ms)) if n == 'subn' else out
        raise ip.und('pattern.' + n)

    def mat_method(self, m, n, args, kw):
        if n == 'group':
            if not args:
                args = [0]
            r = [self.piece(m.text, *m.m.span(a)) for a in args]
            return r[0] if len(r) == 1 else tuple(r)
        if n in ('span', 'start', 'end'):
            return getattr(m.m, n)(*args)
        d = args[0] if args else kw.get('default')
        if n == 'groups':
            r = [self.piece(m.text, *m.m.span(i)) for i in range(1, m.pat.p.groups + 1)]
            return tuple(d if x is None else x for x in r)
        if n == 'groupdict':
            r = {k: self.piece(m.text, *m.m.span(k)) for k in m.pat.p.groupindex}
            return {k: d if x is None else x for k, x in r.items()}
        raise self.ip.und('match.' + n)
