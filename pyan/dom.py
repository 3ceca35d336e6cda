"""Abstract domain: unknown scalars, strings with fields, arrays, binary words.

A value is either a constant of the analysed language (held as the host's
constant), a container (host list / dict / tuple holding abstract values) or
one of the classes below.  `Sym` stands for *every* value of its kind; equality
of terms means equality whatever these values are.
"""


import bisect
import struct


class Undecided(Exception):
    """The analysis cannot tell; never a verdict."""


class Diverges(Exception):
    """Step budget spent."""


class Top:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why


# ---------------------------------------------------------------- scalars
class NpInt(int):
    """a known numpy.int64"""
    def __repr__(self):
        return 'np.int64(%d)' % int(self)

    def __str__(self):
        return int.__repr__(int(self))


class Sym:
    """Any value of a kind. kind: int float complex str bytes bool any"""
    __slots__ = ('kind', 'term', 'np', 'ml', 'integral', 'nz')

    def __init__(self, kind, term, np=None, ml=None, integral=False, nz=False):
        self.kind, self.term, self.np, self.ml = kind, term, np, ml
        self.integral = integral or kind in ('int', 'bool')
        self.nz = nz

    def __eq__(self, o):
        return isinstance(o, Sym) and o.term == self.term

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.term)

    def __repr__(self):
        return showterm(self.term)

    def with_(self, **kw):
        d = dict(np=self.np, ml=self.ml, integral=self.integral, nz=self.nz)
        kind = kw.pop('kind', self.kind)
        term = kw.pop('term', self.term)
        d.update(kw)
        if kind in ('float', 'complex') and 'integral' not in kw:
            d['integral'] = self.integral
        return Sym(kind, term, **d)


def showterm(t):
    if isinstance(t, tuple):
        if t and t[0] == 'a':
            r = str(t[1])
            for i in t[2:]:
                r += '[%s]' % (i,)
            return r
        if t and t[0] == 'lin':
            p = [('%s*' % k if k != 1 else '') + showterm(x) for x, k in t[2]]
            if t[1]:
                p.append(str(t[1]))
            return '(' + ' + '.join(p) + ')'
        if t:
            return '%s(%s)' % (t[0], ', '.join(showterm(x) for x in t[1:]))
    return repr(t)


def atom(kind, *name, **kw):
    return Sym(kind, ('a',) + name, **kw)


NUM = (int, float, complex)


def isnum(v):
    return isinstance(v, NUM) or (isinstance(v, Sym) and v.kind in ('int', 'float', 'complex', 'bool'))


def isreal(v):
    return (isinstance(v, (int, float)) or (isinstance(v, Sym) and v.kind in ('int', 'float', 'bool')))


def iscomplex(v):
    return isinstance(v, complex) or (isinstance(v, Sym) and v.kind == 'complex')


def to_lin(v):
    """(const, {term: coef}) of a real number"""
    if isinstance(v, (int, float)):
        return (v, {})
    t = v.term if isinstance(v, Sym) else v
    if isinstance(t, (int, float)):
        return (t, {})
    if isinstance(t, tuple) and t and t[0] == 'lin':
        return (t[1], dict(t[2]))
    return (0, {t: 1})


def from_lin(c, d):
    """term or number"""
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ('lin', c, tuple(sorted(d.items(), key=repr)))


def real_sym(t, kind='float', **kw):
    if isinstance(t, (int, float)):
        return float(t) if kind == 'float' else t
    return Sym(kind, t, **kw)


def pair(v):
    """(re, im) terms of a number"""
    if isinstance(v, complex):
        return v.real, v.imag
    if isinstance(v, (int, float)):
        return v, 0
    if v.kind == 'complex':
        if isinstance(v.term, tuple) and v.term and v.term[0] == 'cplx':
            return v.term[1], v.term[2]
        return ('re', v.term), ('im', v.term)
    return v.term, 0


def mk_cplx(re, im):
    if isinstance(re, (int, float)) and isinstance(im, (int, float)):
        return complex(re, im)
    if isinstance(re, tuple) and isinstance(im, tuple) and re[:1] == ('re',) and im[:1] == ('im',) and re[1] == im[1]:
        return Sym('complex', re[1])
    return Sym('complex', ('cplx', re, im))


def lin_add(a, b, s=1):
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + s * k
    return from_lin(ca + s * cb, d)


def lin_scale(a, k):
    c, d = to_lin(a)
    if k == 0:
        return 0
    return from_lin(c * k, {t: x * k for t, x in d.items()})


def t_mul(a, b):
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    if not da:
        return lin_scale(b, ca)
    if not db:
        return lin_scale(a, cb)
    x, y = from_lin(ca, da), from_lin(cb, db)
    return ('*',) + tuple(sorted((x, y), key=repr))


def rkind(a, b, op):
    def k(v):
        if isinstance(v, bool) or isinstance(v, int) or (isinstance(v, Sym) and v.kind in ('int', 'bool')):
            return 'int'
        return 'float'
    if op == '/':
        return 'float'
    return 'int' if k(a) == k(b) == 'int' else 'float'


def arith(op, a, b):
    """Arithmetic on numbers of which at least one is unknown. None: not modelled."""
    if iscomplex(a) or iscomplex(b):
        (ar, ai), (br, bi) = pair(a), pair(b)
        if op == '+':
            return mk_cplx(lin_add(ar, br), lin_add(ai, bi))
        if op == '-':
            return mk_cplx(lin_add(ar, br, -1), lin_add(ai, bi, -1))
        if op == '*':
            return mk_cplx(lin_add(t_mul(ar, br), t_mul(ai, bi), -1), lin_add(t_mul(ar, bi), t_mul(ai, br)))
        return Sym('complex', (op, tv(a), tv(b)))
    k = rkind(a, b, op)
    integ = _integ(a) and _integ(b) and op in '+-*'
    if op == '+':
        t = lin_add(a, b)
    elif op == '-':
        t = lin_add(a, b, -1)
    elif op == '*':
        t = t_mul(a, b)
    elif op == '/':
        if isinstance(b, (int, float)) and b != 0:
            t = lin_scale(a, 1.0 / b) if b != 1 else (a.term if isinstance(a, Sym) else a)
        else:
            t = ('/', tv(a), tv(b))
    elif op == '**' and b == 1:
        t = tv(a)
    elif op in ('//', '%') and b == 1 and k == 'int':
        t = tv(a) if op == '//' else 0
    else:
        t = (op, tv(a), tv(b))
    nz = False
    return real_sym(t, k, integral=integ, np=getattr(a, 'np', None) or getattr(b, 'np', None), nz=nz)


def _integ(v):
    return isinstance(v, int) or (isinstance(v, float) and v == int(v)) or (isinstance(v, Sym) and v.integral)


def tv(v):
    return v.term if isinstance(v, Sym) else v


def re_(v):
    if isinstance(v, complex):
        return v.real
    if isinstance(v, Sym) and v.kind == 'complex':
        return real_sym(pair(v)[0], 'float', np=v.np)
    return v


def im_(v):
    if isinstance(v, complex):
        return v.imag
    if isinstance(v, Sym) and v.kind == 'complex':
        return real_sym(pair(v)[1], 'float', np=v.np)
    return 0 if isinstance(v, int) else 0.0


def strip_f4(t):
    """Drops single-precision rounding from a term."""
    while isinstance(t, tuple) and t and t[0] == 'f4':
        t = t[1]
    return t


# ---------------------------------------------------------------- strings
class Fld:
    """A formatted field. width 0: as long as its content."""
    __slots__ = ('sym', 'conv', 'width', 'prec', 'left', 'zero', 'epos', 'eneg', 'loc', 'plus', 'ext')

    def __init__(self, sym, conv, width=0, prec=None, left=False, zero=False, epos='e', eneg='e', loc=None, plus=False, ext=0):
        self.ext = ext      # bytes beyond one per character, in encoded text
        self.sym, self.conv, self.width, self.prec, self.left, self.zero = sym, conv, width, prec, left, zero
        self.epos, self.eneg, self.loc, self.plus = epos, eneg, loc, plus

    def copy(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return Fld(d.pop('sym'), d.pop('conv'), **d)

    def numeric(self):
        return self.conv != 's' or self.sym.kind in ('int', 'float', 'complex', 'bool')

    def minlen(self):
        """shortest usual content"""
        if self.conv == 'i':
            return 1
        if self.conv in 'eE':
            return (self.prec if self.prec is not None else 6) + (6 if self.prec != 0 else 5)
        if self.conv == 'f':
            p = 6 if self.prec is None else self.prec
            return 1 + (1 + p if p else 0)
        if self.conv == 's':
            return 0
        return 1

    def maxlen(self):
        """longest possible content, None when not bounded"""
        if self.conv in 'eE':
            return self.minlen() + 2       # sign, third digit of the exponent
        if self.conv == 's':
            c = [x for x in (self.prec, self.sym.ml) if x is not None]
            return min(c) if c else None
        return None

    def nom(self):
        """nominal length of the content"""
        m = self.minlen()
        if self.conv in 'i':
            m = 3
        if self.conv == 's':
            m = 5
            mx = self.maxlen()
            if mx is not None:
                m = min(m, mx)
        return m

    def len(self):
        return max(self.width, self.minlen() if self.width else self.nom()) + self.ext

    def key(self):
        return (tkey(self.sym, self), self.conv.lower(), self.width, self.prec, self.left, self.zero, self.epos.upper(),
                self.eneg.upper(), self.plus)

    def __eq__(self, o):
        return isinstance(o, Fld) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def fmt(self):
        return '%%%s%s%s%s%s' % ('-' if self.left else '', '0' if self.zero else '', self.width or '',
                                 '.%d' % self.prec if self.prec is not None else '', self.conv)

    def __repr__(self):
        return '{%s:%s}' % (self.fmt(), self.sym)


def tkey(sym, fld):
    t = sym.term
    if fld.conv in 'eE' and (fld.prec or 6) <= 6:
        t = strip_f4(t)
    return t


class Part:
    """A piece of a field's text: garbled content."""
    __slots__ = ('fld', 'a', 'b')

    def __init__(self, fld, a, b):
        self.fld, self.a, self.b = fld, a, b

    @property
    def loc(self):
        return self.fld.loc

    def len(self):
        return self.b - self.a

    def key(self):
        return (self.fld.key(), self.a, self.b)

    def __eq__(self, o):
        return isinstance(o, Part) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '%r[%d:%d]' % (self.fld, self.a, self.b)


class Bin:
    """A binary word: fmt d f i..., bo < or >."""
    __slots__ = ('sym', 'fmt', 'bo', 'loc')
    SIZE = {'d': 8, 'f': 4, 'i': 4, 'q': 8, 'I': 4, 'Q': 8, 'h': 2, 'H': 2, 'l': 4, 'B': 1, 'b': 1, 'e': 2}

    def __init__(self, sym, fmt, bo, loc=None):
        self.sym, self.fmt, self.bo, self.loc = sym, fmt, bo, loc

    def len(self):
        return Bin.SIZE[self.fmt]

    def key(self):
        t = tv(self.sym)
        return (strip_f4(t) if self.fmt == 'f' else t, self.fmt, self.bo)

    def __eq__(self, o):
        return isinstance(o, Bin) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '{%s%s:%s}' % (self.bo, self.fmt, self.sym)


def binw(v, fmt, bo, loc=None):
    """the segment of a word: bytes for a concrete number"""
    if isinstance(v, (int, float)):
        try:
            return struct.pack(bo + fmt, v).decode('latin-1')
        except (struct.error, OverflowError):
            pass
    return Bin(v, fmt, bo, loc)


class BPart:
    __slots__ = ('bin', 'a', 'b')

    def __init__(self, bin, a, b):
        self.bin, self.a, self.b = bin, a, b

    @property
    def loc(self):
        return self.bin.loc

    def len(self):
        return self.b - self.a

    def __repr__(self):
        return '%r[%d:%d]' % (self.bin, self.a, self.b)


class TopSeg:
    __slots__ = ('why', 'loc')

    def __init__(self, why, loc=None):
        self.why, self.loc = why, loc

    def len(self):
        raise Undecided('length of unknown text: %s' % self.why)

    def __repr__(self):
        return '{?%s}' % self.why


class AStr:
    """Text (b False) or bytes (b True): literals (host str) and fields."""
    __slots__ = ('segs', 'b', 'off')

    def __init__(self, segs, b=False):
        self.segs, self.b, self.off = segs, b, None

    def offsets(self):
        if self.off is None:
            o = [0]
            p = 0
            for s in self.segs:
                p += seglen(s)
                o.append(p)
            self.off = o
        return self.off

    def __repr__(self):
        return ('b' if self.b else '') + 'S[' + ' '.join(repr(s) for s in self.segs) + ']'

    def __eq__(self, o):
        return isinstance(o, AStr) and self.b == o.b and self.segs == o.segs

    def __hash__(self):
        return hash((tuple(self.segs), self.b))


def seglen(s):
    return len(s) if isinstance(s, str) else s.len()


def widen(segs, n):
    """encoded (n = 1: every unknown text has a character of two bytes) or decoded (n = 0) text"""
    return [s.copy(ext=n) if isinstance(s, Fld) and s.conv == 's' and s.sym.kind == 'str' and s.ext != n else s for s in segs]


def encoded(segs, n, codec='utf-8', errors='strict'):
    return [s.encode(codec, errors).decode('latin-1') if isinstance(s, str) and s and max(s) > '\x7f' else s for s in widen(segs, n)]


def decoded(segs, codec='utf-8', errors='strict'):
    return [s.encode('latin-1').decode(codec, errors) if isinstance(s, str) and s and max(s) > '\x7f' else s for s in widen(segs, 0)]


def mks(segs, b=False):
    out = []
    for s in segs:
        if isinstance(s, str):
            if not s:
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + s
                continue
        elif out and isinstance(s, (Part, BPart)) and type(out[-1]) is type(s) and out[-1].b == s.a:
            # pieces of one field put together again
            f, o = (s.fld, out[-1].fld) if isinstance(s, Part) else (s.bin, out[-1].bin)
            if f == o:
                out[-1] = f if out[-1].a == 0 and s.b == f.len() else type(s)(f, out[-1].a, s.b)
                continue
        out.append(s)
    if not out:
        return b'' if b else ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0].encode('latin-1') if b else out[0]
    if len(out) == 1 and not b and isinstance(out[0], Fld):
        f = out[0]
        if f.conv == 's' and f.width == 0 and f.prec is None and f.sym.kind == 'str':
            return f.sym
    return AStr(out, b)


def segs_of(v):
    """Segments of a string value, None when it is not one."""
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, bytes):
        return [v.decode('latin-1')] if v else []
    if isinstance(v, AStr):
        return list(v.segs)
    if isinstance(v, Sym) and v.kind in ('str', 'bytes'):
        return [Fld(v, 's')]
    return None


def is_b(v):
    return isinstance(v, bytes) or (isinstance(v, AStr) and v.b) or (isinstance(v, Sym) and v.kind == 'bytes')


def is_s(v):
    return isinstance(v, (str, bytes, AStr)) or (isinstance(v, Sym) and v.kind in ('str', 'bytes'))


def slen(v):
    if isinstance(v, AStr):
        return v.offsets()[-1]
    return sum(seglen(s) for s in segs_of(v))


def cut_fld(f, a, b):
    """text columns a..b of a field (0 <= a < b <= len)"""
    n = f.len()
    if a == 0 and b == n:
        return [f]
    mx = f.maxlen()
    if f.width and not f.zero and mx is not None and mx < n:
        if f.left:
            if b >= mx and a == 0:
                return [f.copy(width=b)]
            if a >= mx:
                return [' ' * (b - a)]
        else:
            if a <= n - mx and b == n:
                return [f.copy(width=n - a)]
            if b <= n - mx:
                return [' ' * (b - a)]
    if isinstance(f, Fld) and f.conv == 's' and f.left and a == 0 and mx is not None and mx <= b:
        return [f.copy(width=min(f.width, b))]
    if f.conv == 's' and a == 0 and f.width == 0 and f.sym.kind == 'str' and (mx is None or b < mx):
        # nominal length; a longer text would be cut
        return [Part(f, a, b)]
    return [Part(f, a, b)]


def sslice(v, a, b, on_cut=None):
    """v[a:b] with 0 <= a <= b <= len"""
    out = []
    p = 0
    if isinstance(v, AStr) and len(v.segs) > 8:
        try:
            o = v.offsets()
        except Undecided:
            segs = v.segs
        else:
            i = max(bisect.bisect_right(o, a) - 1, 0)
            p = o[i]
            segs = v.segs[i:bisect.bisect_left(o, b)]
    else:
        segs = segs_of(v)
    for s in segs:
        n = seglen(s)
        lo, hi = max(a - p, 0), min(b - p, n)
        if lo < hi:
            if isinstance(s, str):
                out.append(s[lo:hi])
            elif lo == 0 and hi == n:
                out.append(s)
            elif isinstance(s, Fld):
                out += cut_fld(s, lo, hi)
            elif isinstance(s, Bin):
                out.append(BPart(s, lo, hi))
            elif isinstance(s, Part):
                out.append(Part(s.fld, s.a + lo, s.a + hi))
            elif isinstance(s, BPart):
                out.append(BPart(s.bin, s.a + lo, s.a + hi))
            else:
                raise Undecided('slice of unknown text')
        p += n
        if p >= b:
            break
    return mks(out, is_b(v))


def ssplitlines(v, keep=False):
    b = is_b(v)
    lines, cur = [], []
    for s in segs_of(v):
        if isinstance(s, TopSeg):
            raise Undecided('lines of unknown text')
        if not isinstance(s, str):
            cur.append(s)
            continue
        ls = s.encode('latin-1').splitlines(True) if b else s.splitlines(True)
        for l in ls:
            t = l.decode('latin-1') if b else l
            body = t.rstrip('\r\n')
            if body != t or (not b and t != ''.join(t.splitlines())):
                if not b:
                    body = ''.join(t.splitlines())
                cur.append(t if keep else body)
                lines.append(mks(cur, b))
                cur = []
            else:
                cur.append(t)
    if cur:
        lines.append(mks(cur, b))
    return lines


def gap_before(f):
    """does a right-adjusted number leave a blank in front of it?"""
    if f.left or f.zero or not f.width:
        return False
    if f.conv in 'eE':
        return f.width >= f.minlen() + 2
    return f.width > f.nom()


def ssplit(v):
    """whitespace tokens"""
    b = is_b(v)
    toks, cur = [], []

    def end():
        if cur:
            toks.append(mks(list(cur), b))
            cur.clear()
    for s in segs_of(v):
        if isinstance(s, str):
            i = 0
            while i < len(s):
                if s[i].isspace():
                    end()
                    i += 1
                else:
                    j = i
                    while j < len(s) and not s[j].isspace():
                        j += 1
                    cur.append(s[i:j])
                    i = j
        elif isinstance(s, Fld) and s.numeric():
            if gap_before(s):
                end()
            cur.append(s.copy(width=0, left=False))
            if s.left and s.width > s.nom():
                end()
        elif isinstance(s, Fld):
            raise Undecided('words of a text field')
        elif isinstance(s, Part) and s.fld.numeric():
            cur.append(s)
        else:
            raise Undecided('words of %r' % s)
    end()
    return toks


def sstrip(v, left=True, right=True, chars=None):
    b = is_b(v)
    segs = segs_of(v)
    ws = chars if chars is not None else ' \t\n\r\x0b\x0c'
    blanks = chars is None or ' ' in chars

    def trim(f):
        if isinstance(f, Fld) and f.numeric() and not f.zero and f.width:
            return f.copy(width=0)
        if isinstance(f, Fld) and f.conv == 's' and f.width:
            mx = f.prec
            if mx is None or (f.sym.ml is not None and f.sym.ml <= mx):
                return f.copy(width=0, prec=None, left=False)
            return f.copy(width=0, left=False)
        return f
    if left:
        while segs and isinstance(segs[0], str):
            t = segs[0].lstrip(ws)
            if t:
                segs[0] = t
                break
            segs.pop(0)
        if segs and isinstance(segs[0], Fld) and not segs[0].left and blanks:
            segs[0] = trim(segs[0])
    if right:
        while segs and isinstance(segs[-1], str):
            t = segs[-1].rstrip(ws)
            if t:
                segs[-1] = t
                break
            segs.pop()
        if segs and isinstance(segs[-1], Fld) and segs[-1].left and blanks:
            segs[-1] = trim(segs[-1])
    return mks(segs, b)


def whole(v):
    """the single field of a text (blanks around it dropped), or None"""
    v = sstrip(v)
    s = segs_of(v)
    if len(s) == 1 and isinstance(s[0], Fld):
        return s[0]
    return None


# ----------------------------------------------------------------- arrays
class Halves:
    """the real numbers 2*i, 2*i+1 of a buffer of complex numbers"""
    __slots__ = ('of',)

    def __init__(self, of):
        self.of = of

    def __len__(self):
        return 2 * len(self.of)

    def __getitem__(self, i):
        v = self.of[i // 2]
        return v if isinstance(v, Top) else (im_ if i % 2 else re_)(v)

    def __setitem__(self, i, v):
        o = self.of[i // 2]
        if isinstance(v, Top) or isinstance(o, Top):
            self.of[i // 2] = v if isinstance(v, Top) else o
        else:
            self.of[i // 2] = mk_cplx(tv(re_(o)), tv(v)) if i % 2 else mk_cplx(tv(v), tv(im_(o)))


class Pairs:
    """the complex numbers of a buffer of pairs of real numbers"""
    __slots__ = ('of',)

    def __init__(self, of):
        self.of = of

    def __len__(self):
        return len(self.of) // 2

    def __getitem__(self, i):
        p = self.of[2 * i], self.of[2 * i + 1]
        for x in p:
            if isinstance(x, Top):
                return x
        return mk_cplx(tv(p[0]), tv(p[1]))

    def __setitem__(self, i, v):
        self.of[2 * i], self.of[2 * i + 1] = (v, v) if isinstance(v, Top) else (re_(v), im_(v))


class Arr:
    """numpy array: a view (idx) on a buffer"""
    __slots__ = ('buf', 'idx', 'shape', 'dt', 'base')

    def __init__(self, elems, shape=None, dt='f8', idx=None, buf=None):
        self.buf = buf if buf is not None else list(elems)
        self.idx = idx if idx is not None else list(range(len(self.buf)))
        self.shape = tuple(shape) if shape is not None else (len(self.idx),)
        self.dt = dt
        self.base = None

    def elems(self):
        return [self.buf[i] for i in self.idx]

    def view(self, idx, shape):
        return Arr(None, shape, self.dt, idx, self.buf)

    def copy(self):
        return Arr(self.elems(), self.shape, self.dt)

    def half(self, k, dt):
        """the real (0) or imaginary (1) parts, in place"""
        return Arr(None, self.shape, dt, [2 * i + k for i in self.idx], Halves(self.buf))

    def size(self):
        return len(self.idx)

    def nested(self):
        def build(off, sh):
            if not sh:
                return self.buf[self.idx[off]]
            st = 1
            for x in sh[1:]:
                st *= x
            return [build(off + i * st, sh[1:]) for i in range(sh[0])]
        return build(0, self.shape)

    def __repr__(self):
        return 'Arr(%s,%s,%s)' % (self.dt, self.shape, self.elems()[:8])
