"""Models of the builtins, numpy, struct, os and file objects over the abstract domain."""
import builtins
import math
import os
import re
import string
import struct

from .dom import *
from .ai import (PyExc, Fn, Bound, Cls, Obj, HostObj, ATuple, ModV, Ext, Meth, Partial, AIter, AFile, ABuf, BUILTIN_EXC, HOST, MISSING, TYPES,
                 concrete, StructError, Prop, Static)
from .lib2 import More, Pat, Mat, UFUNC, UCMP, OPERATOR, PRELUDE, DefaultDict

STR_METHODS = {n for n in dir(str) if not n.startswith('_')}
NPFLOAT = {'float', 'float64', 'double', 'd', 'f8', '<f8', '>f8', '=f8', 'float_', 'longdouble', 'f'}
INTT = ('numpy.int64', 'numpy.int32', 'numpy.int16', 'numpy.int8', 'numpy.uint8', 'numpy.uint16', 'numpy.uint32',
        'numpy.uint64', 'numpy.intp', 'numpy.intc', 'numpy.longlong')
FLT = ('numpy.float64', 'numpy.float32', 'numpy.float16', 'numpy.longdouble')
CPX = ('numpy.complex128', 'numpy.complex64')
NPCONST = {'numpy.pi': math.pi, 'numpy.e': math.e, 'numpy.inf': math.inf, 'numpy.nan': math.nan, 'numpy.newaxis': None,
           'math.pi': math.pi, 'math.e': math.e, 'math.inf': math.inf, 'math.nan': math.nan, 'os.sep': '/',
           'os.linesep': '\n', 'os.path.sep': '/', 'os.SEEK_SET': 0, 'os.SEEK_CUR': 1, 'os.SEEK_END': 2,
           'io.SEEK_END': 2, 'io.SEEK_SET': 0, 'io.SEEK_CUR': 1, 'string.ascii_letters': string.ascii_letters,
           'string.digits': string.digits, 'os.name': 'posix', 'sys.maxsize': 2 ** 63 - 1, 'os.extsep': '.', **{'re.' + n: int(getattr(re, n)) for n in (
               'I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII', 'U', 'UNICODE')}}
NPALIAS = {'numpy.double': 'numpy.float64', 'numpy.float_': 'numpy.float64', 'numpy.single': 'numpy.float32',
           'numpy.int_': 'numpy.int64', 'numpy.intp': 'numpy.int64', 'numpy.cdouble': 'numpy.complex128',
           'numpy.complex_': 'numpy.complex128', 'numpy.bool': 'numpy.bool_', 'numpy.str': 'numpy.str_'}
SIMPLE = (Ext,)


CWD = '/cwd'


def no_top(a):
    return not any(isinstance(x, Top) for x in a.elems())


def vkey(p):
    """the name under which the modelled file system holds a path"""
    if not isinstance(p, str):
        return p
    n = os.path.normpath(os.path.join(CWD, p))
    return n[len(CWD) + 1:] if n.startswith(CWD + '/') else n


INPLACE = ('put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'random.shuffle')


class Lib(More):
    def __init__(self, ip):
        self.ip = ip
        self.warn_ctx = []
        self.err_ctx = [False]
        self.flens = {}     # path -> (content, its number of segments, its length)
        self.normed = {}    # path -> content that mks made

    # ------------------------------------------------------------ type names
    def typeof(self, v):
        """the type of a value as an Ext / Cls, or Top"""
        if isinstance(v, HostObj):
            return v.cls
        if isinstance(v, bool):
            return Ext('builtins.bool')
        if v is None:
            return Ext('builtins.NoneType')
        if isinstance(v, NpInt):
            return Ext('numpy.int64')
        if isinstance(v, HOST) or isinstance(v, (list, dict, tuple, set, frozenset)):
            return Ext('builtins.' + type(v).__name__)
        if isinstance(v, AStr):
            return Ext('builtins.bytes' if v.b else 'builtins.str')
        if isinstance(v, Sym):
            if v.kind == 'any':
                return Top('type of an unknown value')
            if v.np:
                return Ext({'i8': 'numpy.int64', 'i4': 'numpy.int32', 'f8': 'numpy.float64', 'f4': 'numpy.float32',
                            'c16': 'numpy.complex128', 'c8': 'numpy.complex64', 'b1': 'numpy.bool_'}.get(v.np, 'numpy.str_'))
            return Ext('builtins.' + v.kind)
        if isinstance(v, Arr):
            return Ext('numpy.ndarray')
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, PyExc):
            return v.etype if isinstance(v.etype, Cls) else Ext('builtins.' + v.name())
        if isinstance(v, (Fn, Bound, Partial, Meth)):
            return Ext('builtins.function')
        if isinstance(v, (Cls, Ext)):
            return Ext('builtins.type')
        if isinstance(v, AFile):
            return Ext('_io.TextIOWrapper' if v.text else '_io.BufferedReader')
        if isinstance(v, AIter):
            return Ext('builtins.generator')
        if isinstance(v, (Pat, Mat)):
            return Ext('re.Pattern' if isinstance(v, Pat) else 're.Match')
        return Top('type')

    def typename(self, v):
        t = self.typeof(v)
        if isinstance(t, Ext):
            return t.name.split('.')[-1]
        if isinstance(t, Cls):
            return t.node.name
        return '?'

    def hosttype(self, v):
        return None

    SUP = {'builtins.bool': ('builtins.int',), 'numpy.float64': ('builtins.float', 'numpy.floating', 'numpy.number'),
           'numpy.float32': ('numpy.floating', 'numpy.number'), 'numpy.int64': ('numpy.integer', 'numpy.number', 'numpy.signedinteger'),
           'numpy.int32': ('numpy.integer', 'numpy.number', 'numpy.signedinteger'),
           'numpy.complex128': ('builtins.complex', 'numpy.complexfloating', 'numpy.number'), 'numpy.str_': ('builtins.str',),
           'numpy.complex64': ('numpy.complexfloating', 'numpy.number'), 'numpy.bool_': ()}
    ABCS = {'numbers.Number': ('int', 'float', 'complex', 'bool'), 'numbers.Real': ('int', 'float', 'bool'),
            'numbers.Integral': ('int', 'bool'), 'numbers.Complex': ('int', 'float', 'complex', 'bool'),
            'collections.abc.Sequence': ('list', 'tuple', 'str', 'bytes', 'range'),
            'collections.abc.Iterable': ('list', 'tuple', 'str', 'bytes', 'dict', 'range', 'ndarray', 'set'),
            'collections.abc.Mapping': ('dict',), 'collections.abc.MutableSequence': ('list',),
            'typing.Sequence': ('list', 'tuple', 'str', 'bytes', 'range')}

    def isinstance(self, v, t):
        if isinstance(t, tuple):
            for x in t:
                if self.isinstance(v, x):
                    return True
            return False
        ty = self.typeof(v)
        if isinstance(ty, Top) or isinstance(t, Top):
            raise self.ip.und('isinstance of an unknown value')
        if isinstance(ty, Cls):
            if isinstance(t, Cls):
                return t in ty.mro()
            if isinstance(v, PyExc) and isinstance(t, Ext):
                h = ty.host_exc()
                b = BUILTIN_EXC.get(t.name.split('.')[-1])
                return bool(h and b and issubclass(h, b))
            ext = ty.ext_base() | ({'builtins.tuple'} if isinstance(v, tuple) else {'builtins.int'} if isinstance(v, int) else
                                   {'builtins.str'} if isinstance(v, str) else {'builtins.dict'} if isinstance(v, dict) else set())
            if isinstance(t, Ext) and (t.name in ext or any(x.split('.')[-1] in self.ABCS.get(t.name, ()) for x in ext)):
                return True
            for k, m in (('Iterable', '__iter__'), ('Iterator', '__next__'), ('Sized', '__len__'), ('Callable', '__call__'), ('Hashable', '__hash__'),
                         ('Container', '__contains__')):
                if isinstance(t, Ext) and t.name == 'collections.abc.' + k:
                    return ty.find(m) is not None
            return isinstance(t, Ext) and t.name == 'builtins.object'
        if isinstance(t, Cls):
            return False
        if isinstance(t, type(None)):
            raise self.ip.err(TypeError, 'isinstance() arg 2')
        if isinstance(t, Ext):
            n = NPALIAS.get(t.name, t.name)
            if n == 'builtins.object' or ty.name == n:
                return True
            if n in self.SUP.get(ty.name, ()):
                return True
            if n in self.ABCS:
                return ty.name.split('.')[-1].rstrip('0123456789_') in self.ABCS[n] or \
                    ty.name.split('.')[-1] in self.ABCS[n]
            if isinstance(v, PyExc) and n.startswith('builtins.') and n[9:] in BUILTIN_EXC:
                return issubclass(v.etype, BUILTIN_EXC[n[9:]])
            if n == 'types.NoneType':
                return v is None
            return False
        raise self.ip.und('isinstance')

    def hostidx(self, i):
        if isinstance(i, slice):
            return slice(*[self.hostidx(x) if x is not None else None for x in (i.start, i.stop, i.step)])
        if isinstance(i, bool):
            return int(i)
        if isinstance(i, int):
            return i
        if isinstance(i, Sym):
            if i.kind == 'int':
                raise self.ip.und('unknown index %r' % i)
            raise self.ip.err(TypeError, 'indices must be integers')
        if isinstance(i, Arr) and i.size() == 1:
            return self.hostidx(i.elems()[0])
        if isinstance(i, Top):
            raise self.ip.und('unknown index')
        if isinstance(i, Obj) and i.cls.find('__index__'):
            return self.hostidx(self.ip.call(Bound(i, i.cls.find('__index__')), [], {}))
        raise self.ip.err(TypeError, 'indices must be integers or slices, not %s' % self.typename(i))

    # ------------------------------------------------------------- strings
    def to_str(self, v, conv='s'):
        ip = self.ip
        if isinstance(v, Top):
            return v
        if conv == 'r' and is_s(v) and not isinstance(v, (str, bytes)):
            return mks(["'"] + segs_of(v) + ["'"])
        if isinstance(v, str):
            return v if conv == 's' else repr(v)
        if isinstance(v, HOST):
            return repr(v) if conv == 'r' else str(v)
        if is_s(v):
            return mks(segs_of(v)) if not is_b(v) else ip.top('str of bytes')
        if isinstance(v, Sym):
            if v.kind == 'any':
                return ip.top('str of an unknown value')
            return AStr([Fld(v, 's', loc=ip.cur)])
        if isinstance(v, PyExc):
            a = v.eargs
            return '' if not a else self.to_str(a[0]) if len(a) == 1 else ip.top('str of an exception')
        if concrete(v):
            return str(v)
        if isinstance(v, (list, tuple)):
            out = ['[' if isinstance(v, list) else '(']
            for i, x in enumerate(v):
                s = self.to_str(x, 'r')
                if isinstance(s, Top):
                    return s
                out += ([', '] if i else []) + segs_of(s)
            return mks(out + [']' if isinstance(v, list) else ')'])
        if isinstance(v, Obj):
            for m in ('__str__', '__repr__') if conv == 's' else ('__repr__',):
                f = v.cls.find(m)
                if f:
                    return ip.call(Bound(v, f), [], {})
        if isinstance(v, (Ext, Cls)):
            return "<class '%s'>" % (v.name.replace('builtins.', '') if isinstance(v, Ext) else v.node.name)
        return ip.top('str of %s' % self.typename(v))

    def field(self, v, conv, width=0, prec=None, left=False, zero=False, plus=False, space=False, alt=False):
        """text of a value under a printf-like conversion; raises the exceptions of the language"""
        ip = self.ip
        if isinstance(v, Top):
            return v
        if isinstance(v, Arr) and v.size() == 1:
            v = v.elems()[0]
        if isinstance(v, Obj) and conv not in 'sra':
            v = self.dunder(v, *(('__int__', '__index__') if conv in 'diu' else ('__index__',) if conv in 'xXo' else ('__float__', '__index__')))
        if conv in ('d', 'u'):
            conv = 'i'
        up = conv in 'EGF'
        lc = conv.lower()
        if lc in 'iefgxo':
            if not isnum(v):
                if isinstance(v, Sym) and v.kind == 'any':
                    return ip.top('format of an unknown value')
                if lc == 'i':
                    raise ip.err(TypeError, '%%d format: a real number is required, not %s' % self.typename(v))
                raise ip.err(TypeError, 'must be real number, not %s' % self.typename(v))
            if iscomplex(v):
                raise ip.err(TypeError, '%%%s format: a real number is required, not complex' % conv)
            if not isinstance(v, Sym):
                f = '%' + ('-' if left else '') + ('0' if zero else '') + ('+' if plus else '') + (' ' if space else '') + \
                    ('#' if alt else '') + (str(width) if width else '') + ('.%d' % prec if prec is not None else '') + conv
                try:
                    return f % v
                except Exception as e:
                    raise ip.err(type(e), *e.args)
            if lc == 'i':
                if v.kind in ('int', 'bool') or v.integral:
                    return AStr([Fld(v, 'i', width, None, left, zero, plus=plus, loc=ip.cur)])
                return AStr([Fld(v.with_(kind='int', term=('trunc', v.term)), 'i', width, None, left, zero, plus=plus,
                                 loc=ip.cur)])
            if lc == 'f' and prec == 0:
                if v.integral:
                    return AStr([Fld(v, 'i', width, None, left, zero, plus=plus, loc=ip.cur)])
                return AStr([Fld(v.with_(term=('round', v.term), integral=True), 'i', width, None, left, zero, plus=plus,
                                 loc=ip.cur)])
            e = 'E' if up else 'e'
            return AStr([Fld(v, lc, width, 6 if prec is None else prec, left, zero, e, e, plus=plus, loc=ip.cur)])
        if lc in 'sra':
            if isinstance(v, (str,)) and lc == 's':
                pass
            elif not (is_s(v) and not is_b(v) and lc == 's'):
                v0 = v
                if isinstance(v, Sym) and v.kind not in ('str', 'any'):
                    return AStr([Fld(v, 's', width, prec, left, loc=ip.cur)])
                v = self.to_str(v, lc)
                if isinstance(v, Top):
                    return v
            return self.pad(v, width, prec, left)
        if lc == 'c':
            if isinstance(v, int) and not isinstance(v, bool):
                return chr(v)
            if isinstance(v, str) and len(v) == 1:
                return v
            return ip.top('%c')
        return ip.top('conversion ' + conv)

    def pad(self, v, width, prec, left, fill=' ', center=False):
        ip = self.ip
        if isinstance(v, str):
            if prec is not None:
                v = v[:prec]
            if center:
                return v.center(width, fill)
            return v.ljust(width, fill) if left else v.rjust(width, fill)
        s = segs_of(v)
        if len(s) == 1 and isinstance(s[0], Fld) and s[0].width == 0 and fill == ' ' and not center:
            f = s[0]
            if f.conv == 's':
                p = f.prec if prec is None else prec if f.prec is None else min(prec, f.prec)
                return mks([f.copy(width=width, prec=p, left=left and width > 0, loc=ip.cur)])
            if prec is None:
                return mks([f.copy(width=width, left=left, loc=ip.cur)])
            return ip.top('truncated number')
        n = slen(v)
        if prec is not None and prec < n:
            v = sslice(v, 0, prec)
            n = slen(v)
        if width <= n:
            return v
        p = fill * (width - n)
        if center:
            return ip.top('centered text')
        return mks(segs_of(v) + [p]) if left else mks([p] + segs_of(v))

    PCT = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])')

    def percent(self, f, arg):
        ip = self.ip
        if isinstance(f, bytes):
            return ip.top('% on bytes')
        if not isinstance(f, str):
            # fields inside the format itself
            return ip.top('computed format')
        out = []
        pos = 0
        args = list(arg) if isinstance(arg, tuple) else [arg]
        isdict = isinstance(arg, dict)
        k = 0

        def take():
            nonlocal k
            if k >= len(args):
                raise ip.err(TypeError, 'not enough arguments for format string')
            k += 1
            return args[k - 1]
        for m in self.PCT.finditer(f):
            out.append(f[pos:m.start()].replace('%%', '%'))
            pos = m.end()
            key, flags, w, p, c = m.groups()
            if c == '%':
                out.append('%')
                continue
            if w == '*':
                w = take()
            if p == '*':
                p = take()
            if isinstance(w, Sym) or isinstance(p, Sym):
                return ip.top('computed width')
            if key is not None:
                if not isdict:
                    raise ip.err(TypeError, 'format requires a mapping')
                v = ip.getitem(arg, key)
                k = len(args)
            else:
                v = take()
            w = int(w) if w else 0
            p = int(p) if p is not None else None
            left = '-' in flags
            if w < 0:
                left, w = True, -w
            r = self.field(v, c, w, p, left, '0' in flags and not left, '+' in flags, ' ' in flags, '#' in flags)
            if isinstance(r, Top):
                out.append(TopSeg(r.why, ip.cur))
            else:
                out += segs_of(r)
        tail = f[pos:]
        if '%' in tail.replace('%%', ''):
            raise ip.err(ValueError, 'incomplete format')
        out.append(tail.replace('%%', '%'))
        if k < len(args) and not isdict:
            raise ip.err(TypeError, 'not all arguments converted during string formatting')
        return mks(out)

    SPEC = re.compile(r'^(?:(.)?([<>=^]))?([-+ ]?)(#?)(0?)(\d+)?([,_]?)(?:\.(\d+))?([a-zA-Z%]?)$', re.S)

    def format(self, v, spec):
        ip = self.ip
        if isinstance(v, Top):
            return v
        if not isinstance(spec, str):
            return ip.top('computed format')
        if spec == '':
            return self.to_str(v)
        if isinstance(v, Arr) and v.shape:
            raise ip.err(TypeError, 'unsupported format string passed to numpy.ndarray.__format__')
        if isinstance(v, Arr):
            v = v.elems()[0]
        if isinstance(v, HOST):
            try:
                return format(v, spec)
            except Exception as e:
                raise ip.err(type(e), *e.args)
        m = self.SPEC.match(spec)
        if not m:
            raise ip.err(ValueError, 'Invalid format specifier')
        fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
        width = int(width) if width else 0
        prec = int(prec) if prec is not None else None
        if comma or (fill and fill not in ' 0'):
            return ip.top('format ' + spec)
        if align == '^':
            return ip.top('centered text')
        if is_s(v):
            if typ not in ('', 's'):
                raise ip.err(ValueError, "Unknown format code '%s' for object of type 'str'" % typ)
            if align == '=' or zero:
                raise ip.err(ValueError, "'=' alignment not allowed in string format specifier")
            return self.pad(v, width, prec, align != '>')
        if isinstance(v, Sym) and isnum(v):
            if typ == 's':
                raise ip.err(ValueError, "Unknown format code 's' for object of type '%s'" % self.typename(v))
            if v.kind in ('int', 'bool'):
                if typ in ('', 'd', 'n'):
                    if prec is not None:
                        raise ip.err(ValueError, 'Precision not allowed in integer format specifier')
                    return self.field(v, 'i', width, None, align == '<', bool(zero) and not align, sign == '+')
                if typ in 'eEfFgG':
                    return self.field(v, typ, width, prec, align == '<', bool(zero) and not align, sign == '+')
                return ip.top('format ' + spec)
            if v.kind == 'float':
                if typ in ('d', 'x', 'b', 'o', 'c', 'X'):
                    raise ip.err(ValueError, "Unknown format code '%s' for object of type 'float'" % typ)
                if typ in ('', 'n', '%'):
                    if typ == '':
                        r = AStr([Fld(v, 's', width, None, align == '<', loc=ip.cur)])
                        return r if prec is None else ip.top('format ' + spec)
                    return ip.top('format ' + spec)
                return self.field(v, typ, width, prec, align == '<', bool(zero) and not align, sign == '+')
            return ip.top('format of a complex number')
        if isinstance(v, Sym):
            return ip.top('format of an unknown value')
        raise ip.err(TypeError, 'unsupported format string passed to %s.__format__' % self.typename(v))

    def str_format(self, f, args, kw):
        ip = self.ip
        if not isinstance(f, str):
            return ip.top('computed format')
        out = []
        auto = 0
        try:
            items = list(string.Formatter().parse(f))
        except ValueError as e:
            raise ip.err(ValueError, *e.args)
        for lit, name, spec, conv in items:
            if lit:
                out.append(lit)
            if name is None:
                continue
            m = re.match(r'^(\w*)(.*)$', name)
            head, rest = m.groups()
            if head == '':
                i, auto = auto, auto + 1
                if i >= len(args):
                    raise ip.err(IndexError, 'Replacement index out of range')
                v = args[i]
            elif head.isdigit():
                if int(head) >= len(args):
                    raise ip.err(IndexError, 'Replacement index out of range')
                v = args[int(head)]
            else:
                if head not in kw:
                    raise ip.err(KeyError, head)
                v = kw[head]
            for a, b in re.findall(r'\.(\w+)|\[([^\]]+)\]', rest):
                v = ip.getattr(v, a) if a else ip.getitem(v, int(b) if b.isdigit() else b)
            if conv:
                v = self.to_str(v, conv)
            if '{' in (spec or ''):
                sp = self.str_format(spec, args[auto:] if '{}' in spec else args, kw)
                auto += spec.count('{}')
            else:
                sp = spec or ''
            r = self.format(v, sp)
            if isinstance(r, Top):
                out.append(TopSeg(r.why, ip.cur))
            else:
                out += segs_of(r)
        return mks(out)

    def text_cut(self, v, p):
        """bytes cut at a column behind a text field: columns are not bytes"""
        if not is_b(v):
            return
        n = 0
        for s in segs_of(v):
            if n >= p:
                return
            if isinstance(s, Fld) and s.conv == 's' and s.sym.kind == 'str':
                self.ip.event('bytecolumn', p, s)
                return
            n += seglen(s)

    def str_getitem(self, v, idx):
        ip = self.ip
        if isinstance(idx, slice):
            for x in (idx.start, idx.stop, idx.step):
                if x is not None and not isinstance(x, int):
                    if isinstance(x, Sym):
                        raise ip.und('slice bound')
                    raise ip.err(TypeError, 'slice indices must be integers')
            n = slen(v)
            a, b, st = idx.indices(n)
            if st != 1:
                raise ip.und('stepped text slice')
            if idx.start is None and idx.stop is None:
                return v
            if a >= b:
                return b'' if is_b(v) else ''
            # s[:-k] and s[k:] of elastic text are exact as long as the cut is in a literal at that end
            self.text_cut(v, a)
            if b < n:
                self.text_cut(v, b)
            if idx.stop is None or (idx.stop >= n):
                r = sslice(v, a, n)
            else:
                r = sslice(v, a, b)
            # a text of open length cut to a bound that covers its documented length stays whole
            if isinstance(v, Sym) and a == 0 and idx.stop is not None and idx.stop >= 0:
                if v.ml is not None and v.ml <= idx.stop:
                    return v
                return mks([Fld(v, 's', 0, idx.stop, loc=ip.cur)])
            return r
        if isinstance(idx, Top):
            return ip.top('index')
        i = self.hostidx(idx)
        n = slen(v)
        if i < -n or i >= n:
            if isinstance(v, Sym) or any(isinstance(s, Fld) and not s.width for s in segs_of(v)):
                raise ip.und('index into text of unknown length')
            raise ip.err(IndexError, 'string index out of range')
        if i < 0:
            i += n
        self.text_cut(v, i)
        r = sslice(v, i, i + 1)
        if is_b(v):
            if isinstance(r, bytes):
                return r[0]
            return Sym('int', ('byte', repr(r)))
        return r

    def num_char(self, f, ch):
        """can the text of a numeric field contain this character?"""
        if ch.isspace():
            return f.width > 0
        if ch.isdigit():
            return True
        if ch in '+-':
            return True
        if ch == '.':
            return f.conv != 'i'
        return f.conv in 'eE' and ch in (f.epos, f.eneg)

    def str_eq(self, a, b):
        sa, sb = segs_of(a), segs_of(b)
        if sa == sb:
            return True
        if isinstance(b, (str, bytes)):
            sa, sb, a, b = sb, sa, b, a
        # a may be a literal now
        if isinstance(a, (str, bytes)):
            lit = a if isinstance(a, str) else a.decode('latin-1')
            if len(sb) == 1 and isinstance(sb[0], Fld) and sb[0].conv == 's' and (sb[0].left or not sb[0].width) and \
                    (lit != lit.lstrip() or not sb[0].width and lit != lit.rstrip()):
                return False        # texts have no surrounding blanks
            for s in sb:
                if isinstance(s, str):
                    if s not in lit:
                        return False
                elif isinstance(s, (Fld, Part)):
                    f = s if isinstance(s, Fld) else s.fld
                    if f.numeric() and isinstance(s, Fld):
                        if not any(c.isdigit() for c in lit):
                            return False
                        if f.conv in 'eE' and not (any(c in lit for c in (f.epos, f.eneg))):
                            return False
                    elif f.numeric():
                        if len(sb) == 1 and any(not self.num_char(f, c) for c in lit):
                            return False
            ml = 0
            for s in sb:
                if isinstance(s, str):
                    ml += len(s)
                elif isinstance(s, Fld):
                    ml += s.width
            if ml > len(lit):
                return False
            if all(not isinstance(s, Fld) or s.width for s in sb) and slen(b) != len(lit) and \
                    all(isinstance(s, (str, Part, Bin, BPart)) or (s.maxlen() or 0) <= s.width for s in sb):
                return False
            # literal prefix / suffix
            if sb and isinstance(sb[0], str) and not lit.startswith(sb[0]):
                return False
            if sb and isinstance(sb[-1], str) and not lit.endswith(sb[-1]):
                return False
        if isinstance(a, Sym) and isinstance(b, Sym) and not isinstance(a, str):
            return Sym('bool', ('seq',) + tuple(sorted((repr(a), repr(b)))))
        return Sym('bool', ('seq', repr(a), repr(b)))

    def find(self, v, pat, start=0, end=None, rev=False):
        """position of a literal in a text; fields are taken not to contain it"""
        ip = self.ip
        p = pat if isinstance(pat, str) else pat.decode('latin-1')
        hits = []
        pos = 0
        segs = segs_of(v)
        for s in segs:
            if isinstance(s, str):
                i = s.find(p)
                while i >= 0:
                    hits.append(pos + i)
                    i = s.find(p, i + 1)
            elif isinstance(s, (Fld, Part)):
                f = s if isinstance(s, Fld) else s.fld
                if len(p) == 1 and not p.isspace() and f.numeric() and self.num_char(f, p):
                    if p in (f.epos, f.eneg) and f.conv in 'eE' and f.epos == f.eneg:
                        hits.append(pos + seglen(s) - 4)
                    else:
                        raise ip.und('position of %r in a number' % p)
            pos += seglen(s)
        n = pos
        if start < 0:
            start += n
        e = n if end is None else end if end >= 0 else end + n
        hits = [h for h in hits if h >= start and h + len(p) <= e]
        if not hits:
            return -1
        return max(hits) if rev else min(hits)

    def str_in(self, pat, v):
        if not isinstance(pat, (str, bytes)):
            if pat == v:
                return True
            return Sym('bool', ('sin', repr(pat), repr(v)))
        p = pat if isinstance(pat, str) else pat.decode('latin-1')
        und = False
        for s in segs_of(v):
            if isinstance(s, str):
                if p in s:
                    return True
            elif isinstance(s, (Fld, Part)):
                f = s if isinstance(s, Fld) else s.fld
                if f.numeric():
                    if f.conv in 'eE' and p in (f.epos, f.eneg) and f.epos == f.eneg and isinstance(s, Fld):
                        return True
                    if p == '.' and f.conv in 'eE' and isinstance(s, Fld):
                        return True
                    if all(self.num_char(f, c) for c in p):
                        und = True
                else:
                    und = True
            elif len(p) < 4:
                und = True
        if und:
            return Sym('bool', ('sin', p, repr(v)))
        return False

    def replace(self, v, a, b):
        ip = self.ip
        a, b = [x if isinstance(x, str) else x.decode('latin-1') for x in (a, b)]
        out = []
        for s in segs_of(v):
            if isinstance(s, str):
                out.append(s.replace(a, b))
            elif isinstance(s, Fld) and s.numeric():
                if s.conv in 'eE':
                    ep, en = s.epos, s.eneg
                    if len(a) == 1 and len(b) == 1:
                        f = s.copy(epos=b if ep == a else ep, eneg=b if en == a else en)
                        if a in '.-+' or a.isdigit():
                            out.append(TopSeg('characters of a number replaced', ip.cur))
                            continue
                        if a == ' ' and s.width:
                            if b == '':
                                out.append(s.copy(width=0))
                            else:
                                out.append(TopSeg('blanks replaced', ip.cur))
                            continue
                        out.append(f)
                        continue
                    if len(a) == 2 and a[1] == '+' and b[1:] == '+' and len(b) == 2:
                        out.append(s.copy(epos=b[0] if ep == a[0] else ep))
                        continue
                    if len(a) == 2 and a[1] == '-' and b[1:] == '-' and len(b) == 2:
                        out.append(s.copy(eneg=b[0] if en == a[0] else en))
                        continue
                    if len(a) > 2 and a[1] in '+-' and a[2:].isdigit() and b[1:] == a[1:]:
                        # some exponents match, others do not
                        k = 'epos' if a[1] == '+' else 'eneg'
                        hit = getattr(s, k) == a[0] and ip.decide(Sym('bool', ('exponent', s.sym.term, a[1:])))
                        out.append(s.copy(**{k: b[0]}) if hit else s)
                        continue
                    if a == ' ' and b == '':
                        out.append(s.copy(width=0))
                        continue
                    if not all(self.num_char(s, c) for c in a):
                        out.append(s)
                        continue
                    out.append(TopSeg('characters of a number replaced', ip.cur))
                else:
                    if a == ' ' and b == '':
                        out.append(s.copy(width=0))
                    elif all(self.num_char(s, c) for c in a):
                        out.append(TopSeg('characters of a number replaced', ip.cur))
                    else:
                        out.append(s)
            elif isinstance(s, Fld):
                out.append(s.copy(sym=s.sym.with_(term=('replace', s.sym.term, a, b))))
            else:
                out.append(s)
        return mks(out, is_b(v))

    def casemap(self, v, up):
        out = []
        for s in segs_of(v):
            if isinstance(s, str):
                out.append(s.upper() if up else s.lower())
            elif isinstance(s, Fld) and s.numeric():
                out.append(s.copy(epos=s.epos.upper() if up else s.epos.lower(),
                                  eneg=s.eneg.upper() if up else s.eneg.lower()))
            elif isinstance(s, Fld):
                out.append(s.copy(sym=s.sym.with_(term=('upper' if up else 'lower', s.sym.term))))
            else:
                out.append(s)
        return mks(out, is_b(v))

    def str_method(self, v, name, args, kw):
        ip = self.ip
        b = is_b(v)
        if name == 'format' and not b:
            return self.str_format(v, args, kw)
        if name == 'join':
            out = []
            sep = segs_of(v)
            for i, x in enumerate(ip.iterate(args[0])):
                if isinstance(x, Top):
                    xs = [TopSeg(x.why, ip.cur)]
                elif not is_s(x) or is_b(x) != b:
                    raise ip.err(TypeError, 'sequence item %d: expected %s instance, %s found' %
                                 (i, 'bytes' if b else 'str', self.typename(x)))
                else:
                    xs = segs_of(x)
                out += (sep if i else []) + xs
            return mks(out, b)
        if isinstance(v, (str, bytes)) and all(concrete(a) for a in args) and all(concrete(a) for a in kw.values()):
            if name in STR_METHODS or name in ('decode', 'hex'):
                try:
                    return getattr(v, name)(*args, **kw)
                except AttributeError:
                    raise ip.err(AttributeError, name)
                except Exception as e:
                    raise ip.err(type(e), *e.args)
        if any(isinstance(a, Top) for a in args):
            return ip.top('text method with an unknown argument')
        if name == 'splitlines':
            return ssplitlines(v, bool(args[0] if args else kw.get('keepends', False)))
        if name == 'split':
            sep = args[0] if args else kw.get('sep')
            mx = args[1] if len(args) > 1 else kw.get('maxsplit', -1)
            if sep is None:
                t = ssplit(v)
                if mx is not None and mx >= 0 and len(t) > mx + 1:
                    return ip.top('split with a limit')
                return t
            if isinstance(sep, (str, bytes)) and (sep in ('\n', b'\n') or mx == -1):
                p = sep if isinstance(sep, str) else sep.decode('latin-1')
                out, cur = [], []
                for s in segs_of(v):
                    if isinstance(s, str):
                        parts = s.split(p)
                        cur.append(parts[0])
                        for q in parts[1:]:
                            out.append(mks(cur, b))
                            cur = [q]
                    elif isinstance(s, Fld) and p == ' ' and s.width:
                        raise ip.und('split of a field at blanks')
                    else:
                        cur.append(s)
                out.append(mks(cur, b))
                if mx >= 0 and len(out) > mx + 1:
                    k = out[:mx]
                    rest = []
                    for i, x in enumerate(out[mx:]):
                        rest += ([p] if i else []) + segs_of(x)
                    return k + [mks(rest, b)]
                return out
            raise ip.und('split')
        if name in ('strip', 'lstrip', 'rstrip'):
            ch = args[0] if args else None
            if isinstance(ch, bytes):
                ch = ch.decode('latin-1')
            return sstrip(v, name != 'rstrip', name != 'lstrip', ch)
        if name in ('lower', 'upper', 'casefold'):
            return self.casemap(v, name == 'upper')
        if name == 'replace':
            return self.replace(v, args[0], args[1])
        if name == 'translate' and isinstance(args[0], dict):
            r = v
            for k, x in args[0].items():
                r = self.replace(r, chr(k) if isinstance(k, int) else k, chr(x) if isinstance(x, int) else (x or ''))
            return r
        if name in ('encode', 'decode'):
            if (name == 'decode') != b:
                raise ip.err(AttributeError, name)
            enc = args[0] if args else kw.get('encoding', 'utf-8')
            err = args[1] if len(args) > 1 else kw.get('errors', 'strict')
            ip.event('codec', name, enc, err)
            if not segs_of(v):
                return '' if name == 'decode' else b''
            try:
                if name == 'encode':
                    return AStr(encoded(segs_of(v), ip.wide, enc, err), True)
                return AStr(decoded(segs_of(v), enc, err), False)
            except UnicodeError as e:
                raise ip.err(UnicodeDecodeError if name == 'decode' else UnicodeEncodeError, *e.args)
        if name in ('startswith', 'endswith'):
            pats = args[0] if isinstance(args[0], tuple) else (args[0],)
            rest = v
            if len(args) > 1:
                rest = self.str_getitem(v, slice(args[1], args[2] if len(args) > 2 else None))
            for p in pats:
                p = p if isinstance(p, str) else p.decode('latin-1')
                sg = segs_of(rest)
                if not p:
                    return True
                e = sg and (sg[0] if name == 'startswith' else sg[-1])
                if not sg:
                    continue
                if isinstance(e, str):
                    if e.startswith(p) if name == 'startswith' else e.endswith(p):
                        return True
                    if len(e) < len(p) and (p.startswith(e) if name == 'startswith' else p.endswith(e)):
                        if self.ip.truth(Sym('bool', ('starts', p, repr(rest), name))):
                            return True
                elif isinstance(e, Fld) and e.numeric() and not all(self.num_char(e, c) for c in p):
                    pass
                elif isinstance(e, (Bin, BPart)) and len(p) > 3:
                    pass        # binary data holds no tag by chance
                elif self.ip.truth(Sym('bool', ('starts', p, repr(rest), name))):
                    return True
            return False
        if name in ('find', 'index', 'rfind', 'rindex'):
            r = self.find(v, args[0], *(args[1:]), rev=name[0] == 'r')
            if r < 0 and name in ('index', 'rindex'):
                raise ip.err(ValueError, 'substring not found')
            return r
        if name == 'count':
            p = args[0] if isinstance(args[0], str) else args[0].decode('latin-1')
            return sum(s.count(p) for s in segs_of(v) if isinstance(s, str))
        if name in ('ljust', 'rjust'):
            w = args[0]
            return self.pad(v, w, None, name == 'ljust', *(args[1:2])) if not b else ip.top('padding of bytes')
        if name == 'zfill':
            f = segs_of(v)
            if len(f) == 1 and isinstance(f[0], Fld):
                return mks([f[0].copy(width=args[0], zero=True)], b)
            return ip.top('zfill')
        if name in ('isdigit', 'isnumeric', 'isspace', 'isalpha', 'isdecimal', 'isalnum', 'isupper', 'islower', 'isascii'):
            f = segs_of(v)
            if len(f) == 1 and isinstance(f[0], Fld) and f[0].numeric() and name in ('isspace', 'isalpha'):
                return False
            return Sym('bool', (name, repr(v)))
        if name in ('partition', 'rpartition'):
            r = self.find(v, args[0], rev=name[0] == 'r')
            n = slen(v)
            if r < 0:
                return (v, '', '') if name[0] == 'p' else ('', '', v)
            return (sslice(v, 0, r), args[0], sslice(v, r + len(args[0]), n))
        if name in ('removeprefix', 'removesuffix'):
            if self.ip.truth(self.str_method(v, 'startswith' if name == 'removeprefix' else 'endswith', args, {})):
                n, k = slen(v), len(args[0])
                return sslice(v, k, n) if name == 'removeprefix' else sslice(v, 0, n - k)
            return v
        if name == 'expandtabs':
            return v
        if name in ('title', 'capitalize', 'swapcase', 'center'):
            return ip.top(name)
        raise ip.err(AttributeError, "'str' object has no attribute '%s'" % name)

    # ------------------------------------------------------------- numbers
    def to_float(self, v):
        ip = self.ip
        if isinstance(v, Top):
            return v
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, Arr):
            if v.size() == 1:
                return self.to_float(v.elems()[0])
            raise ip.err(TypeError, 'only length-1 arrays can be converted to Python scalars')
        if isinstance(v, Sym) and v.kind in ('int', 'float', 'bool'):
            return v.with_(kind='float', np=None)
        if isinstance(v, (str, bytes)):
            try:
                return float(v)
            except ValueError as e:
                raise ip.err(ValueError, *e.args)
        if isinstance(v, complex) or (isinstance(v, Sym) and v.kind == 'complex'):
            raise ip.err(TypeError, "float() argument must be a string or a real number, not 'complex'")
        if is_s(v):
            return self.parse(v, 'float')
        if isinstance(v, Sym):
            return ip.top('float of an unknown value')
        raise ip.err(TypeError, "float() argument must be a string or a real number, not '%s'" % self.typename(v))

    def parse(self, v, kind):
        """float(text) / int(text)"""
        ip = self.ip
        w = whole(v)
        if w is not None and w.numeric():
            s = w.sym
            if w.conv in 'eE':
                if kind == 'int':
                    raise ip.err(ValueError, 'invalid literal for int() (a real number)')
                if w.epos not in 'eE' or w.eneg not in 'eE':
                    raise ip.err(ValueError, "could not convert string to float (exponent '%s')" % (
                        w.epos if w.epos not in 'eE' else w.eneg))
                return s.with_(kind='float', np=None)
            if w.conv in 'fg':
                if kind == 'int' and not (w.conv == 'f' and w.prec == 0):
                    raise ip.err(ValueError, 'invalid literal for int() (a real number)')
                t = s.term if w.conv == 'f' and w.prec and w.prec > 8 else ('fixed', w.prec, s.term)
                return s.with_(kind='float', np=None, term=t)
            if w.conv == 's':
                if w.prec is not None and (s.kind not in ('int', 'bool') or w.prec < 8):
                    return Sym(kind, ('cut', w.prec, s.term))
                if kind == 'int' and s.kind == 'float':
                    raise ip.err(ValueError, 'invalid literal for int()')
            return s.with_(kind=kind, np=None)
        sg = segs_of(sstrip(v))
        if not sg:
            raise ip.err(ValueError, 'could not convert string to %s' % kind)
        if any(isinstance(s, TopSeg) for s in sg):
            return ip.top('number in unknown text')
        if any(isinstance(s, str) and re.search(r'[^0-9+\-.eEinfaINFA_]', s.strip() and s) for s in sg):
            raise ip.err(ValueError, 'could not convert string to %s: %r' % (kind, v))
        for i, s in enumerate(sg):
            # two numbers with blanks between them or a real number followed by anything
            if isinstance(s, Fld) and s.numeric():
                if i and isinstance(s, Fld) and s.width and gap_before(s):
                    raise ip.err(ValueError, 'could not convert string to %s: %r' % (kind, v))
                if i + 1 < len(sg) and isinstance(sg[i + 1], str) and sg[i + 1][:1].isspace():
                    raise ip.err(ValueError, 'could not convert string to %s: %r' % (kind, v))
                if kind == 'int' and s.conv in 'eE':
                    raise ip.err(ValueError, 'invalid literal for int(): %r' % (v,))
        if len(sg) == 1 and isinstance(sg[0], Fld) and not sg[0].numeric():
            # any text: a number or not
            t = ('notnum', kind, sg[0].sym.term)
            if ip.truth(Sym('bool', t)):
                raise ip.err(ValueError, 'could not convert string to %s' % kind)
            return Sym(kind, (kind, sg[0].sym.term))
        if any(isinstance(s, Fld) and not s.numeric() for s in sg):
            if ip.truth(Sym('bool', ('notnum', kind, repr(v)))):
                raise ip.err(ValueError, 'could not convert string to %s' % kind)
        return Sym(kind, ('garbled', tuple(repr(s) for s in sg)))

    def to_int(self, v, *base):
        ip = self.ip
        if isinstance(v, Top):
            return v
        if isinstance(v, (int, float, str, bytes)):
            try:
                return int(v, *base)
            except Exception as e:
                raise ip.err(type(e), *e.args)
        if isinstance(v, Arr):
            if v.size() == 1:
                return self.to_int(v.elems()[0])
            raise ip.err(TypeError, 'only length-1 arrays can be converted to Python scalars')
        if isinstance(v, Sym) and v.kind in ('int', 'bool'):
            return v.with_(kind='int', np=None)
        if isinstance(v, Sym) and v.kind == 'float':
            return v.with_(kind='int', np=None, term=v.term if v.integral else ('trunc', v.term))
        if is_s(v):
            return self.parse(v, 'int')
        if isinstance(v, Sym) and v.kind == 'any':
            return ip.top('int of an unknown value')
        raise ip.err(TypeError, "int() argument must be a string, a bytes-like object or a real number, not '%s'" %
                     self.typename(v))

    def to_complex(self, *a):
        ip = self.ip
        if any(isinstance(x, Top) for x in a):
            return ip.top('complex')
        if len(a) == 1:
            if isinstance(a[0], complex) or (isinstance(a[0], Sym) and a[0].kind == 'complex'):
                return a[0]
            if isnum(a[0]):
                return mk_cplx(tv(a[0]), 0)
            return ip.top('complex of text')
        return ip.binop('+', a[0], ip.binop('*', 1j, a[1])) if not all(isinstance(x, HOST) for x in a) else complex(*a)

    # -------------------------------------------------------------- arrays
    def dtname(self, d):
        ip = self.ip
        if d is None:
            return None
        if isinstance(d, Ext):
            if d.name.startswith('dtype:'):
                return d.name[6:]
            n = NPALIAS.get(d.name, d.name).split('.')[-1]
            return {'float': 'f8', 'float64': 'f8', 'float32': 'f4', 'int': 'i8', 'int64': 'i8', 'int32': 'i4',
                    'int16': 'i2', 'complex': 'c16', 'complex128': 'c16', 'complex64': 'c8', 'bool': 'b1',
                    'bool_': 'b1', 'str': 'U', 'str_': 'U', 'object': 'O', 'object_': 'O', 'uint8': 'u1', 'intc': 'i4',
                    'uint64': 'u8', 'uint32': 'u4', 'uint16': 'u2', 'int8': 'i1', 'short': 'i2', 'intp': 'i8', 'longlong': 'i8',
                    'float16': 'f2'}.get(n) or self._und('dtype ' + n)
        if isinstance(d, str):
            bo = d[0] if d[:1] in '<>=|!' else ''
            n = d[len(bo):]
            r = {'d': 'f8', 'f': 'f4', 'i': 'i4', 'l': 'i8', 'q': 'i8', 'D': 'c16', 'F': 'c8', 'f8': 'f8', 'f4': 'f4',
                 'i8': 'i8', 'i4': 'i4', 'i2': 'i2', 'c16': 'c16', 'c8': 'c8', 'float': 'f8', 'float64': 'f8',
                 'float32': 'f4', 'int': 'i8', 'int64': 'i8', 'int32': 'i4', 'complex': 'c16', 'complex128': 'c16',
                 'U': 'U', 'str': 'U', 'object': 'O', 'O': 'O', 'bool': 'b1', '?': 'b1', 'b1': 'b1', 'u1': 'u1',
                 'complex64': 'c8', 'double': 'f8', 'single': 'f4', 'uint8': 'u1', 'int16': 'i2', 'int8': 'i1', 'i1': 'i1', 'b': 'i1',
                 'h': 'i2', 'H': 'u2', 'uint16': 'u2', 'u2': 'u2', 'I': 'u4', 'uint32': 'u4', 'u4': 'u4', 'uint64': 'u8', 'u8': 'u8',
                 'B': 'u1', 'intp': 'i8', 'short': 'i2', 'float16': 'f2', 'f2': 'f2', 'int_': 'i8', 'float_': 'f8', 'intc': 'i4'}.get(n)
            if r is None:
                return 'U' if n.startswith('U') else self._und('dtype ' + d)
            if bo in '<>' and bo:
                native = '<' if ip.byteorder == 'little' else '>'
                return (bo if bo != native else '') + r
            return r
        if isinstance(d, Top):
            raise ip.und('dtype')
        self._und('dtype')

    def _und(self, w):
        raise self.ip.und(w)

    def kind_dt(self, v):
        if isinstance(v, bool):
            return 'b1'
        if isinstance(v, int):
            return 'i8'
        if isinstance(v, float):
            return 'f8'
        if isinstance(v, complex):
            return 'c16'
        if isinstance(v, Sym):
            if v.np:
                return v.np
            return {'bool': 'b1', 'int': 'i8', 'float': 'f8', 'complex': 'c16', 'str': 'U'}.get(v.kind, 'O')
        if is_s(v):
            return 'U' if not is_b(v) else 'S'
        if isinstance(v, Arr):
            return v.dt
        return 'O'

    RANK = {'b1': 0, 'u1': 1, 'i1': 1, 'u2': 1, 'i2': 1, 'u4': 2, 'u8': 3, 'i4': 2, 'i8': 3, 'f2': 4, 'f4': 4, 'f8': 5, 'c8': 6, 'c16': 7, 'U': 8, 'S': 8, 'O': 9}

    def join_dt(self, dts):
        dts = [d.lstrip('<>') for d in dts]
        if not dts:
            return 'f8'
        if 'O' in dts:
            return 'O'
        r = max(dts, key=lambda d: self.RANK.get(d, 9))
        if r == 'f4' and any(d in ('i4', 'i8') for d in dts):
            r = 'f8'
        if r == 'c8' and any(d in ('i4', 'i8', 'f8') for d in dts):
            r = 'c16'
        return r

    def cast(self, v, dt):
        ip = self.ip
        if isinstance(v, Top):
            return v
        k = dt.lstrip('<>')
        if k == 'O':
            return v
        if isinstance(v, Arr) and v.size() == 1:
            v = v.elems()[0]
        if k in ('i8', 'i4', 'i2', 'i1', 'u1', 'u2', 'u4', 'u8'):
            if isinstance(v, complex) or (isinstance(v, Sym) and v.kind == 'complex'):
                self.warn('ComplexWarning')
                return self.to_int(re_(v))
            r = self.to_int(v)
            if isinstance(r, Sym):
                if k not in ('i8', 'u8') and getattr(v, 'np', None) != k and not (k == 'u1' and getattr(v, 'np', None) == 'i8'):
                    # only the values that fit survive
                    t = r.term
                    if not (isinstance(t, tuple) and t[:1] == (k,)):
                        r = r.with_(term=(k, t))
                return r.with_(np=k if k != 'u1' else 'i8')
            if isinstance(r, int) and not isinstance(r, bool):
                b = 8 * int(k[1])
                if not (-(1 << b - 1) <= r < 1 << b - 1 if k[0] == 'i' else 0 <= r < 1 << b):
                    raise ip.err(OverflowError, 'Python integer %d out of bounds for %s' % (r, k))
            return r
        if k in ('f8', 'f4', 'f2'):
            if isinstance(v, complex) or (isinstance(v, Sym) and v.kind == 'complex'):
                self.warn('ComplexWarning')
                v = re_(v)
            if v is None:
                return math.nan
            r = self.to_float(v)
            if isinstance(r, Sym):
                if k in ('f4', 'f2'):
                    t = r.term
                    if not (isinstance(t, tuple) and t[:1] == (k,)):
                        t = (k, t)
                    return r.with_(np='f4', term=t)
                return r.with_(np='f8')
            if k == 'f4' and isinstance(r, (int, float)) and math.isfinite(r):
                try:
                    struct.pack('<f', r)
                except OverflowError:
                    self.warn('RuntimeWarning: overflow encountered in cast')
                    r = math.copysign(math.inf, r)
            return r
        if k in ('c16', 'c8'):
            if is_s(v):
                return ip.top('complex of text')
            r = self.to_complex(v)
            if isinstance(r, Sym):
                if k == 'c8' and r.kind == 'complex':
                    t = [p if isinstance(p, tuple) and p[:1] == ('f4',) or isinstance(p, (int, float)) else ('f4', p) for p in pair(r)]
                    r = mk_cplx(*t)
                    return r.with_(np='c16') if isinstance(r, Sym) else r
                return r.with_(np='c16')
            return r
        if k == 'U':
            if is_s(v):
                return v
            return self.to_str(v)
        if k == 'b1':
            if isinstance(v, (bool, int, float)):
                return bool(v)
            return v if isinstance(v, Sym) and v.kind == 'bool' else ip.top('bool array')
        return v

    def flatten(self, v):
        """(flat elements, shape) of nested data"""
        ip = self.ip
        if isinstance(v, Arr):
            return v.elems(), v.shape
        if isinstance(v, AIter):
            return [v], ()
        if isinstance(v, (list, tuple, range)):
            parts = [self.flatten(x) for x in v]
            if not parts:
                return [], (0,)
            shs = set(p[1] for p in parts)
            if len(shs) == 1:
                sh = shs.pop()
                return [e for p in parts for e in p[0]], (len(parts),) + sh
            return None, None
        if isinstance(v, Top):
            raise ip.und('array of an unknown value')
        return [v], ()

    def array(self, v, dt=None, copy=True):
        ip = self.ip
        if isinstance(v, Arr) and not copy and (dt is None or dt == v.dt):
            return v
        el, sh = self.flatten(v)
        if el is None:
            if dt == 'O':
                return Arr(list(v), (len(v),), 'O')
            raise ip.err(ValueError, 'setting an array element with a sequence (inhomogeneous shape)')
        if any(isinstance(e, Top) for e in el):
            d = dt or 'O'
        else:
            d = dt or (v.dt if isinstance(v, Arr) else self.join_dt([self.kind_dt(e) for e in el]))
        return Arr([self.cast(e, d) for e in el], sh, d)

    def axes(self, a, idx):
        """resolve an index to (flat positions, shape); None positions for fancy result"""
        ip = self.ip
        if not isinstance(idx, tuple):
            idx = (idx,)
        if any(i is Ellipsis for i in idx):
            k = [i for i, x in enumerate(idx) if x is Ellipsis][0]
            n = len(a.shape) - (len([x for x in idx if x is not None]) - 1)
            idx = idx[:k] + (slice(None),) * n + idx[k + 1:]
        nn = [x for x in idx if x is not None]
        if len(nn) == 1 and isinstance(nn[0], Arr) and nn[0].dt == 'b1' and nn[0].shape == a.shape and len(idx) == 1:
            pos = []
            for p, m in zip(range(a.size()), nn[0].elems()):
                if ip.truth(m):
                    pos.append(p)
            return pos, (len(pos),), True
        if len(nn) > len(a.shape):
            raise ip.err(IndexError, 'too many indices for array')
        idx = idx + (slice(None),) * (len(a.shape) - len(nn))
        dims, shape, fancy = [], [], False
        ax = 0
        nf = 0
        for x in idx:
            if x is None:
                shape.append(1)
                continue
            n = a.shape[ax]
            if isinstance(x, Arr) and not x.shape:
                x = x.elems()[0]
            if isinstance(x, slice):
                r = list(range(*self.hostidx(x).indices(n)))
                dims.append(r)
                shape.append(len(r))
            elif isinstance(x, (list, Arr, range)) or (isinstance(x, tuple)):
                xs = x.elems() if isinstance(x, Arr) else list(x)
                if xs and all(isinstance(m, bool) for m in xs):
                    xs = [i for i, m in enumerate(xs) if m]
                xs = [self.hostidx(i) for i in xs]
                for i in xs:
                    if i < -n or i >= n:
                        raise ip.err(IndexError, 'index out of bounds')
                dims.append([i % n for i in xs])
                shape.append(len(xs))
                fancy = True
                nf += 1
            else:
                i = self.hostidx(x)
                if i < -n or i >= n:
                    raise ip.err(IndexError, 'index %d is out of bounds for axis %d with size %d' % (i, ax, n))
                dims.append([i % n])
            ax += 1
        if nf > 1:
            raise ip.und('fancy indexing in several dimensions')
        pos = [0]
        for d, n in zip(dims, a.shape):
            pos = [p * n + i for p in pos for i in d]
        return pos, tuple(shape), fancy

    def arr_getitem(self, a, idx):
        ip = self.ip
        if isinstance(idx, Top):
            return ip.top('array index')
        if isinstance(idx, str):
            raise ip.err(IndexError, 'only integers, slices are valid indices')
        pos, shape, fancy = self.axes(a, idx)
        if not shape and not fancy:
            return self.npscalar(a.buf[a.idx[pos[0]]], a.dt)
        if fancy:
            return Arr([a.buf[a.idx[p]] for p in pos], shape, a.dt)
        return a.view([a.idx[p] for p in pos], shape)

    def npscalar(self, v, dt):
        if isinstance(v, Sym) and v.np is None and dt.lstrip('<>') in ('i8', 'i4', 'f8', 'f4', 'c16', 'c8'):
            return v.with_(np=dt.lstrip('<>'))
        return v

    def arr_setitem(self, a, idx, v):
        ip = self.ip
        pos, shape, fancy = self.axes(a, idx)
        if isinstance(v, Top):
            vals = [v] * len(pos)
        elif not isinstance(v, (Arr, list, tuple, range)):
            c = self.cast_store(v, a.dt)
            vals = [c] * len(pos)
        else:
            src = self.array(v, None, copy=False)
            el = self.broadcast(src, shape)
            if el is None:
                raise ip.err(ValueError, 'could not broadcast input array from shape %s into shape %s' % (src.shape, shape))
            vals = [self.cast(e, a.dt) for e in el]
        for p, e in zip(pos, vals):
            a.buf[a.idx[p]] = e
        ip.event('arrstore', id(a.buf))

    def warn(self, what):
        if not any(self.warn_ctx):
            self.ip.event('warn', what)

    def zero_div(self, y, op='=='):
        """numpy warns of a division by zero"""
        ip = self.ip
        if not ip.zero or any(self.err_ctx) or any(self.warn_ctx) or any(e[0] == 'warn' for e in ip.trace):
            return
        if isinstance(y, Sym) and y.kind == 'complex':
            y = re_(y)
        if isinstance(y, (int, float)) and (y == 0 if op == '==' else y <= 0) or isinstance(y, Sym) and ip.truth(ip.cmp(op, y, 0)):
            self.warn('RuntimeWarning: divide by zero')

    def cast_store(self, v, dt):
        if (isinstance(v, complex) or (isinstance(v, Sym) and v.kind == 'complex')) and dt.lstrip('<>')[0] in 'fi':
            raise self.ip.err(TypeError, 'float() argument must be a string or a real number, not complex')
        return self.cast(v, dt)

    def arr_assign(self, a, r):
        for i, e in zip(a.idx, r.elems()):
            a.buf[i] = self.cast(e, a.dt)
        self.ip.event('arrstore', id(a.buf))

    def broadcast(self, a, shape):
        sh = a.shape
        while len(sh) > len(shape) and sh[0] == 1:
            sh = sh[1:]
        if len(sh) > len(shape):
            return None
        sh = (1,) * (len(shape) - len(sh)) + tuple(sh)
        for x, y in zip(sh, shape):
            if x != y and x != 1:
                return None
        el = a.elems()
        st, acc = [], 1
        for x in reversed(sh):
            st.insert(0, 0 if x == 1 else acc)
            acc *= x
        pos = [0]
        for n, s in zip(shape, st):
            pos = [p + i * s for p in pos for i in range(n)]
        return [el[p] for p in pos]

    def bshape(self, a, b):
        n = max(len(a), len(b))
        a = (1,) * (n - len(a)) + tuple(a)
        b = (1,) * (n - len(b)) + tuple(b)
        out = []
        for x, y in zip(a, b):
            if x != y and 1 not in (x, y):
                raise self.ip.err(ValueError, 'operands could not be broadcast together with shapes %s %s' % (a, b))
            out.append(y if x == 1 else x)
        return tuple(out)

    def arr_binop(self, op, a, b):
        ip = self.ip
        A = a if isinstance(a, Arr) else self.array(a)
        B = b if isinstance(b, Arr) else self.array(b)
        if A.dt in ('U', 'S') or B.dt in ('U', 'S'):
            raise ip.err(TypeError, 'ufunc does not support text')
        sh = self.bshape(A.shape, B.shape)
        ea, eb = self.broadcast(A, sh), self.broadcast(B, sh)
        if op in ('/', '//', '%'):
            for y in eb:
                self.zero_div(y)
        el = [ip.binop(op, x, y) if not (op in ('/', '//', '%') and isinstance(y, (int, float)) and y == 0 and
                                         isinstance(x, (int, float))) else
              (0 if isinstance(x, int) and isinstance(y, int) and op != '/' else
               math.nan if not x or x != x or op == '%' else math.copysign(math.inf, x) * math.copysign(1, y)) for x, y in zip(ea, eb)]
        # a python scalar does not widen the array
        da = A.dt if isinstance(a, Arr) else None
        db = B.dt if isinstance(b, Arr) else None
        if el:
            dt = self.join_dt([self.kind_dt(e) for e in el if not isinstance(e, Top)] or ['O'])
        else:
            dt = self.join_dt([A.dt, B.dt])
            if op == '/' and dt[0] in 'ib':
                dt = 'f8'
        if 'f4' in (da, db) and dt == 'f8' and (da in (None, 'f4')) and (db in (None, 'f4')) and \
                all(not isinstance(x, complex) for x in ([b] if db is None else [a])):
            dt = 'f4'
            el = [self.cast(e, 'f4') for e in el]
        if not sh and not (isinstance(a, Arr) and isinstance(b, Arr)):
            return el[0]
        return Arr(el, sh, dt)

    def arr_cmp(self, op, a, b):
        ip = self.ip
        A = a if isinstance(a, Arr) else self.array(a)
        B = b if isinstance(b, Arr) else self.array(b)
        sh = self.bshape(A.shape, B.shape)
        return Arr([ip.cmp(op, x, y) for x, y in zip(self.broadcast(A, sh), self.broadcast(B, sh))], sh, 'b1')

    def emap(self, f, v, dt=None):
        """apply to a scalar or to every element"""
        if isinstance(v, (list, tuple)):
            v = self.array(v)
        if isinstance(v, Arr):
            el = [f(x) for x in v.elems()]
            return Arr(el, v.shape, dt or (self.join_dt([self.kind_dt(e) for e in el]) if el else v.dt))
        return f(v)

    # ----------------------------------------------------------- attributes
    def ext_attr(self, base, attr):
        ip = self.ip
        full = base.name + '.' + attr
        if full in NPCONST:
            return NPCONST[full]
        if full == 'sys.byteorder':
            return ip.byteorder
        if full in PRELUDE:
            return self.named(full)
        if base.name.startswith('dtype:'):
            d = base.name[6:].lstrip('<>')
            t = {'kind': d[0], 'itemsize': int(d[1:] or 1) if d[1:].isdigit() or not d[1:] else None, 'str': ('' if base.name[6] in '<>' else '<') + base.name[6:],
                 'name': {'f8': 'float64', 'f4': 'float32', 'i8': 'int64', 'i4': 'int32', 'c16': 'complex128', 'c8': 'complex64', 'b1': 'bool',
                          'O': 'object'}.get(d), 'fields': None, 'names': None, 'hasobject': d == 'O',
                 'byteorder': '>' if base.name[6] == '>' else '='}
            if t.get(attr, Ellipsis) is not Ellipsis and (t[attr] is not None or attr in ('fields', 'names')):
                return t[attr]
            if attr == 'type':
                return Ext('numpy.' + t['name']) if t['name'] else Top('dtype')
            if attr == 'newbyteorder':
                return Meth(base, attr)
            if attr == 'isnative':
                return base.name[6] not in '<>'
        if attr == '__name__':
            return base.name.split('.')[-1]
        if attr == '__class__':
            return Ext('builtins.type')
        if attr == '__doc__':
            return Top('doc')
        if full == 'os.path':
            return Ext('os.path')
        if full in ('sys.stdout', 'sys.stderr'):
            return Ext(full)
        if full in ('numpy.iinfo.max', 'numpy.finfo.eps'):
            return Top(full)
        return Ext(NPALIAS.get(full, full))

    def ext_getitem(self, base, idx):
        if base.name in ('numpy.c_', 'numpy.r_'):
            xs = list(idx) if isinstance(idx, tuple) else [idx]
            if base.name == 'numpy.c_':
                return self.np_column_stack([xs], {})
            return self.np_concatenate([[x if isinstance(x, (Arr, list, tuple)) else [x] for x in xs]], {})
        if base.name.startswith('typing.') or base.name.startswith('builtins.'):
            return base
        if base.name == 'os.environ':
            return self.ip.top('environment')
        return self.ip.top('item of ' + base.name)

    def value_attr(self, v, attr):
        ip = self.ip
        if isinstance(v, Top):
            return ip.top('attribute %s' % attr)
        if isinstance(v, Pat):
            return v.p.pattern if attr == 'pattern' else Meth(v, attr)
        if isinstance(v, Mat):
            return v.text if attr == 'string' else v.pat if attr == 're' else Meth(v, attr)
        if isinstance(v, Prop):
            return Meth(v, attr)
        if isinstance(v, Arr):
            if attr == 'real':
                if v.dt.lstrip('<>')[0] != 'c':
                    return v
                return v.half(0, 'f8' if v.dt != 'c8' else 'f4') if no_top(v) else self.emap(re_, v, 'f8' if v.dt != 'c8' else 'f4')
            if attr == 'imag':
                if v.dt.lstrip('<>')[0] == 'c' and no_top(v):
                    return v.half(1, 'f8' if v.dt != 'c8' else 'f4')
                return self.emap(im_, v, 'f8')
            if attr == 'shape':
                return v.shape
            if attr == 'size':
                return v.size()
            if attr == 'ndim':
                return len(v.shape)
            if attr == 'T':
                return self.transpose(v)
            if attr == 'dtype':
                return Ext('dtype:' + v.dt)
            if attr == 'flat':
                return AIter(v.elems())
            if attr == 'nbytes':
                return v.size() * int(v.dt.lstrip('<>')[1:] or 1)
            if attr == 'itemsize':
                return int(v.dt.lstrip('<>')[1:] or 1)
            return Meth(v, attr)
        if isinstance(v, NpInt):
            if attr in ('shape', 'size', 'ndim'):
                return {'shape': (), 'size': 1, 'ndim': 0}[attr]
            if attr == 'dtype':
                return Ext('dtype:i8')
            if attr == '__class__':
                return self.typeof(v)
            if attr in ('real', 'imag'):
                return getattr(v, attr)
            if attr in ('item', 'tolist', 'is_integer', 'conjugate', '__index__', '__int__', '__float__'):
                return Meth(int(v), {'item': '__int__', 'tolist': '__int__'}.get(attr, attr))
            if attr in ('__iter__', '__len__', 'append', 'keys', 'bit_length', 'to_bytes', 'strip', 'split'):
                if attr == '__len__' or attr == '__iter__' or not hasattr(v, attr) or attr == 'to_bytes':
                    raise ip.err(AttributeError, "'numpy.int64' object has no attribute '%s'" % attr)
            raise ip.und('attribute %s of a numpy integer' % attr)
        if isnum(v):
            if attr == 'real':
                return re_(v)
            if attr == 'imag':
                return im_(v)
            if isinstance(v, HOST) and not hasattr(v, attr) and attr not in ('dtype', 'shape', 'astype', 'item', 'size',
                                                                            'ndim', 'copy', 'tolist', 'flatten'):
                raise ip.err(AttributeError, "'%s' object has no attribute '%s'" % (type(v).__name__, attr))
            if attr in ('shape', 'size', 'ndim', 'dtype', 'copy', 'astype', 'item', 'tolist', 'flatten'):
                if isinstance(v, Sym) and v.np:
                    if attr in ('shape', 'size', 'ndim'):
                        return {'shape': (), 'size': 1, 'ndim': 0}[attr]
                    return Ext('dtype:' + v.np) if attr == 'dtype' else Meth(v, attr)
                if isinstance(v, Sym):
                    raise ip.err(AttributeError, "'%s' object has no attribute '%s'" % (v.kind, attr))
                raise ip.und('attribute %s of a number' % attr)
            if attr in ('append', 'keys', 'strip', 'split', 'lower', 'upper', 'items', 'replace', 'shape'):
                raise ip.err(AttributeError, "number has no attribute '%s'" % attr)
            if attr == '__class__':
                return self.typeof(v)
            return Meth(v, attr)
        if attr == '__class__':
            return self.typeof(v)
        if is_s(v):
            if attr not in STR_METHODS and attr not in ('decode', 'hex', '__len__', '__contains__'):
                raise ip.err(AttributeError, "'str' object has no attribute '%s'" % attr)
            if attr == 'decode' and not is_b(v):
                raise ip.err(AttributeError, "'str' object has no attribute 'decode'")
            if attr == 'encode' and is_b(v):
                raise ip.err(AttributeError, "'bytes' object has no attribute 'encode'")
            return Meth(v, attr)
        if isinstance(v, (list, dict, tuple, set, frozenset, range, slice)):
            if not hasattr(v, attr):
                raise ip.err(AttributeError, "'%s' object has no attribute '%s'" % (type(v).__name__, attr))
            return Meth(v, attr)
        if isinstance(v, AFile):
            if attr == 'buffer':
                if not v.text:
                    raise ip.err(AttributeError, 'buffer')
                return ABuf(v)
            if attr == 'closed':
                return v.closed
            if attr == 'name':
                return v.path
            if attr == 'mode':
                return v.mode
            if attr == 'encoding':
                return v.enc
            return Meth(v, attr)
        if isinstance(v, ABuf):
            if attr == 'raw':
                return v
            return Meth(v, attr)
        if v is None:
            raise ip.err(AttributeError, "'NoneType' object has no attribute '%s'" % attr)
        if isinstance(v, (AIter, Meth, Bound, Partial)):
            if isinstance(v, Partial) and isinstance(v.f, Ext) and v.f.name == 'super':
                obj, cls = v.args
                cl = obj if isinstance(obj, Cls) else obj.cls
                mro = cl.mro()
                for c in mro[mro.index(cls) + 1:]:
                    if attr in c.attrs:
                        return ip.bind(c.attrs[attr], obj, cl)
                if attr in ('__init__', '__init_subclass__', '__enter__', '__exit__'):
                    return Ext('builtins.id') if attr == '__init__' else Partial(Ext('nothing'), [], {})
                if cl.ext_base() - {'builtins.object', 'abc.ABC'}:
                    raise ip.und('super().%s' % attr)
                raise ip.err(AttributeError, attr)
            if attr == '__name__':
                return v.name if isinstance(v, Meth) else Top('name')
            return Meth(v, attr)
        if isinstance(v, Sym):
            return ip.top('attribute of an unknown value')
        raise ip.err(AttributeError, "no attribute '%s'" % attr)

    def transpose(self, a):
        if len(a.shape) < 2:
            return a
        return self.axesorder(a, tuple(reversed(range(len(a.shape)))))

    # -------------------------------------------------------------- methods
    def method(self, v, name, args, kw):
        ip = self.ip
        if isinstance(v, Top):
            return self.unknown('a method of an unknown value', args, kw)
        if isinstance(v, (AFile, ABuf)):
            return self.file_method(v, name, args, kw)
        if isinstance(v, Ext) and name == 'newbyteorder' and v.name.startswith('dtype:'):
            native = '<' if ip.byteorder == 'little' else '>'
            d = v.name[6:]
            cur = d[0] if d[0] in '<>' else native
            d = d.lstrip('<>')
            o = (list(args) + list(kw.values()) + ['S'])[0]
            o = {'S': '<' if cur == '>' else '>', 's': '<' if cur == '>' else '>', '=': native, 'native': native, 'little': '<', 'L': '<', 'big': '>',
                 'B': '>', '|': cur, 'I': cur, 'ignore': cur, 'N': native, 'swap': '<' if cur == '>' else '>'}.get(o, o) if is_s(o) else self._und('byte order')
            if o not in ('<', '>') or d in ('O', 'b1', 'u1', 'i1'):
                return Ext('dtype:' + d)
            return Ext('dtype:' + ('' if o == native else o) + d)
        if isinstance(v, Arr):
            return self.arr_method(v, name, args, kw)
        if is_s(v):
            return self.str_method(v, name, args, kw)
        if isinstance(v, Pat):
            return self.pat_method(v, name, list(args), kw)
        if isinstance(v, Mat):
            return self.mat_method(v, name, list(args), kw)
        if isinstance(v, dict):
            return self.dict_method(v, name, args, kw)
        if isinstance(v, list):
            return self.list_method(v, name, args, kw)
        if isinstance(v, tuple):
            if name == 'count':
                return sum(1 for x in v if ip.truth(ip.cmp('==', x, args[0])))
            if name == 'index':
                for i, x in enumerate(v):
                    if ip.truth(ip.cmp('==', x, args[0])):
                        return i
                raise ip.err(ValueError, 'not in tuple')
            if isinstance(v, ATuple) and name in ('_replace', '_asdict'):
                d = dict(zip(v.cls.find('_fields'), v))
                if name == '_asdict':
                    return d
                if set(kw) - set(d):
                    raise ip.err(ValueError, 'Got unexpected field names')
                return ip.call(v.cls, [], {**d, **kw})
        if isinstance(v, (set, frozenset)):
            if name == 'add':
                v.add(ip.hashkey(args[0]))
                return None
            try:
                return getattr(v, name)(*[set(ip.iterate(a)) if not isinstance(a, (set, frozenset)) and name in (
                    'union', 'update', 'difference', 'intersection', 'issubset', 'issuperset') else a for a in args])
            except Exception as e:
                raise ip.err(type(e), *e.args)
        if isinstance(v, AIter):
            if name == '__next__':
                return self.call_ext('builtins.next', [v], {})
            if name == '__iter__':
                return v
            if name == 'close':
                v.i = len(v.items)
                return None
            raise ip.und('method %s of an iterator' % name)
        if isinstance(v, HOST):
            if all(isinstance(a, HOST) for a in args):
                try:
                    return getattr(v, name)(*args, **kw)
                except Exception as e:
                    raise ip.err(type(e), *e.args)
        if isinstance(v, Sym):
            if name == 'conjugate':
                re0, im0 = pair(v)
                return mk_cplx(re0, lin_scale(im0, -1)) if v.kind == 'complex' else v
            if name in ('item', 'copy', 'tolist'):
                return v.with_(np=None) if name != 'copy' else v
            if name == 'astype':
                return self.cast(v, self.dtname(args[0]))
            if name == 'is_integer':
                return True if v.integral else Sym('bool', ('isint', v.term))
            if name == 'flatten':
                return Arr([v], (1,), v.np or 'O')
            return ip.top('method %s of a number' % name)
        if isinstance(v, PyExc):
            return v
        if isinstance(v, Partial) and isinstance(v.f, Ext) and v.f.name == 'struct.Struct':
            if name in ('pack', 'unpack', 'unpack_from', 'iter_unpack'):
                return self.call_ext('struct.' + name, [v.args[0]] + list(args), kw)
        if isinstance(v, (Ext, Cls, Fn, Bound, Meth)):
            raise ip.und('method %s of %s' % (name, self.typename(v)))
        return self.unknown('method ' + name, args, kw)

    def list_method(self, v, name, args, kw):
        ip = self.ip
        if name == 'append':
            v.append(args[0])
            return None
        if name == 'extend':
            v.extend(ip.iterate(args[0]))
            return None
        if name in ('copy', 'clear', 'reverse'):
            return getattr(v, name)()
        if name in ('insert', 'pop'):
            try:
                return getattr(v, name)(*[self.hostidx(args[0])] + list(args[1:]) if args else [])
            except Exception as e:
                raise ip.err(type(e), *e.args)
        if name in ('index', 'count', 'remove'):
            hits = [i for i, x in enumerate(v) if ip.truth(ip.cmp('==', x, args[0]))]
            if name == 'count':
                return len(hits)
            if not hits:
                raise ip.err(ValueError, 'not in list')
            if name == 'remove':
                del v[hits[0]]
                return None
            return hits[0]
        if name == 'sort':
            r = self.sorted(v, kw)
            v[:] = r
            return None
        raise ip.und('list.' + name)

    def sorted(self, items, kw):
        ip = self.ip
        key = kw.get('key')
        ks = [ip.call(key, [x], {}) if key is not None else x for x in items]
        if not all(concrete(k) for k in ks):
            if len(items) <= 1:
                return list(items)
            raise ip.und('sorting of unknown values')
        try:
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(kw.get('reverse', False)))
        except Exception as e:
            raise ip.err(type(e), *e.args)
        return [items[i] for i in order]

    def dict_method(self, d, name, args, kw):
        ip = self.ip
        if name == 'get':
            k = ip.hashkey(args[0])
            ip.reads.append((id(d), k))
            if ip.contains(k, d):
                return ip.getitem(d, k)
            return args[1] if len(args) > 1 else kw.get('default')
        if name == 'update':
            for s in args:
                if isinstance(s, dict):
                    for k, x in s.items():
                        ip.dictstore(d, k, x)
                        if (id(s), k) in ip.prov:
                            ip.prov[(id(d), k)] = ip.prov[(id(s), k)]
                elif isinstance(s, Top):
                    raise ip.und('update with an unknown value')
                elif isinstance(s, Partial) or s is None:
                    raise ip.err(TypeError, 'object is not iterable')
                else:
                    for p in ip.iterate(s):
                        k, x = list(ip.iterate(p))
                        ip.dictstore(d, k, x)
            for k, x in kw.items():
                ip.dictstore(d, k, x)
            return None
        if name == 'keys':
            return list(d.keys())
        if name == 'values':
            return list(d.values())
        if name == 'items':
            return [(k, x) for k, x in d.items()]
        if name == 'copy':
            r = dict(d)
            ip.keep.append(r)
            for k in r:
                if (id(d), k) in ip.prov:
                    ip.prov[(id(r), k)] = ip.prov[(id(d), k)]
            return r
        if name == 'setdefault':
            k = ip.hashkey(args[0])
            if not ip.truth(ip.contains(k, d)):
                ip.dictstore(d, k, args[1] if len(args) > 1 else None)
            return ip.getitem(d, k)
        if name == 'pop':
            k = ip.hashkey(args[0])
            if k in d:
                return d.pop(k)
            if len(args) > 1:
                return args[1]
            raise ip.err(KeyError, k)
        if name == 'clear':
            d.clear()
            return None
        if name == 'popitem':
            if not d:
                raise ip.err(KeyError, 'empty')
            return d.popitem()
        if name == 'fromkeys':
            return {k: (args[1] if len(args) > 1 else None) for k in ip.iterate(args[0])}
        if name == '__contains__':
            return ip.contains(args[0], d)
        if name == '__getitem__':
            return ip.getitem(d, args[0])
        if name == '__setitem__':
            return ip.dictstore(d, args[0], args[1])
        raise ip.und('dict.' + name)

    def arr_method(self, a, name, args, kw):
        ip = self.ip
        if name == 'copy':
            return a.copy()
        if name == 'tolist':
            def strip(x):
                if isinstance(x, list):
                    return [strip(y) for y in x]
                return x.with_(np=None) if isinstance(x, Sym) else x
            return strip(a.nested())
        if name == 'astype':
            d = self.dtname(args[0] if args else kw.get('dtype'))
            return Arr([self.cast(e, d) for e in a.elems()], a.shape, d)
        if name in ('flatten', 'ravel'):
            if (args and args[0] == 'F') or kw.get('order') == 'F':
                t = self.transpose(a)
                return Arr(t.elems(), (a.size(),), a.dt)
            if name == 'ravel':
                return a.view(list(a.idx), (a.size(),))
            return Arr(a.elems(), (a.size(),), a.dt)
        if name == 'reshape':
            sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else tuple(args)
            return self.reshape(a, sh, kw.get('order', 'C'))
        if name == 'transpose':
            o = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
            return self.axesorder(a, tuple(x % len(a.shape) for x in o)) if o and o[0] is not None else self.transpose(a)
        if name == 'swapaxes':
            return self.np_swapaxes([a] + list(args), kw)
        if name == 'dot':
            return self.np_dot([a] + list(args), kw)
        if name == 'sort' and not args and not kw:
            el = a.elems()
            for i, k in zip(a.idx, self.order(a, {})):
                a.buf[i] = el[k]
            ip.event('arrstore', id(a.buf))
            return None
        if name in ('sum', 'max', 'min', 'mean', 'any', 'all', 'prod', 'cumsum', 'argmax', 'argmin', 'std', 'round', 'clip', 'take',
                    'argsort', 'ptp'):
            return self.call_ext('numpy.' + name, [a] + list(args), kw)
        if name == 'squeeze':
            return a.view(list(a.idx), tuple(n for n in a.shape if n != 1))
        if name == 'item':
            if args:
                return a.elems()[self.hostidx(args[0])]
            if a.size() != 1:
                raise ip.err(ValueError, 'can only convert an array of size 1 to a Python scalar')
            return a.elems()[0]
        if name in ('conj', 'conjugate'):
            return self.emap(lambda x: self.method(x, 'conjugate', [], {}) if isinstance(x, Sym) else x.conjugate(), a)
        if name == 'fill':
            for i in a.idx:
                a.buf[i] = self.cast(args[0], a.dt)
            ip.event('arrstore', id(a.buf))
            return None
        if name in ('tobytes', 'tostring'):
            return self.pack_elems(a)
        if name == 'tofile':
            f = args[0]
            if len(args) > 1 or kw:
                raise ip.und('tofile as text')
            if isinstance(f, AFile) or isinstance(f, ABuf):
                return self.rawwrite(f if isinstance(f, AFile) else f.f, self.pack_elems(a), direct=True)
            raise ip.und('tofile')
        if name == 'byteswap':
            native = '<' if ip.byteorder == 'little' else '>'
            return Arr([e for e in a.elems()], a.shape, ('>' if native == '<' else '<') + a.dt)
        if name == 'view' and (args or kw):
            return self.arr_view(a, self.dtname(args[0] if args else kw['dtype']))
        if name in ('view', 'newbyteorder', 'sort', 'resize', 'put', 'partition'):
            raise ip.und('ndarray.' + name)
        if name == 'nonzero':
            return self.call_ext('numpy.nonzero', [a], {})
        if name == 'dot':
            return ip.top('dot')
        if name == 'repeat':
            return Arr([e for e in a.elems() for _ in range(args[0])], None, a.dt)
        if name in ('append', 'extend', 'keys', 'items', 'strip', 'index', 'insert', 'pop', 'get', 'split', 'decode'):
            raise ip.err(AttributeError, "'numpy.ndarray' object has no attribute '%s'" % name)
        return ip.top('ndarray.' + name)

    def reshape(self, a, sh, order='C'):
        ip = self.ip
        sh = [self.hostidx(x) for x in (sh if isinstance(sh, (tuple, list)) else (sh,))]
        n = 1
        for x in sh:
            if x != -1:
                n *= x
        if -1 in sh:
            if n == 0 or a.size() % n:
                raise ip.err(ValueError, 'cannot reshape array of size %d' % a.size())
            sh[sh.index(-1)] = a.size() // n
        elif n != a.size():
            raise ip.err(ValueError, 'cannot reshape array of size %d into shape %s' % (a.size(), tuple(sh)))
        if order == 'F':
            if len(sh) == 2 and len(a.shape) == 1:
                r, c = sh
                return Arr([a.elems()[j * r + i] for i in range(r) for j in range(c)], sh, a.dt)
            raise ip.und('Fortran order')
        return a.view(list(a.idx), tuple(sh))

    def pack_elems(self, a):
        ip = self.ip
        native = '<' if ip.byteorder == 'little' else '>'
        dt = a.dt
        bo = native
        if dt[:1] in '<>':
            bo, dt = dt[0], dt[1:]
        f = {'f8': 'd', 'f4': 'f', 'i4': 'i', 'i8': 'q', 'i2': 'h'}.get(dt)
        if f is None:
            if dt == 'c16':
                return mks([binw(g(e), 'd', bo, ip.cur) for e in a.elems() for g in (re_, im_)], True)
            raise ip.und('bytes of an array of %s' % dt)
        return mks([binw(e, f, bo, ip.cur) for e in a.elems()], True)

    # ---------------------------------------------------------------- files
    def openf(self, args, kw):
        ip = self.ip
        path = args[0] if args else kw.get('file')
        mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
        enc = args[3] if len(args) > 3 else kw.get('encoding')
        nl = args[5] if len(args) > 5 else kw.get('newline')
        path = self.fspath(path)
        if not isinstance(path, str) or not isinstance(mode, str):
            raise ip.und('open of an unknown path')
        path = vkey(path)
        ip.event('opening', path, mode)
        ip.io_point('open')
        text = 'b' not in mode
        m = mode.replace('t', '').replace('b', '')
        if any(c not in 'rwax+' for c in m) or sum(c in 'rwax' for c in m) != 1:
            raise ip.err(ValueError, 'invalid mode: %r' % mode)
        if m.startswith('r') and path not in ip.fs:
            raise ip.err(FileNotFoundError, 2, 'No such file or directory')
        if m.startswith('x') and path in ip.fs:
            raise ip.err(FileExistsError, 17, 'File exists')
        f = AFile(path, m, len(ip.files), text)
        f.enc = enc
        f.nl = nl
        ip.files.append(f)
        ip.event('open', path, mode, f.id, enc)
        if m.startswith('w'):
            ip.fs[path] = []
        else:
            ip.fs.setdefault(path, [])
        f.pos = self.flen(path) if m.startswith('a') else 0
        return f

    def flen(self, path):
        cur = self.ip.fs[path]
        c = self.flens.get(path)
        if c is None or c[0] is not cur or c[1] != len(cur):
            c = self.flens[path] = (cur, len(cur), sum(seglen(s) for s in cur))
        return c[2]

    def flush(self, f):
        if f.pending:
            p, f.pending = f.pending, []
            self.put(f, encoded(p, self.ip.wide, f.enc if isinstance(f.enc, str) else 'utf-8') if f.text else widen(p, self.ip.wide))

    def put(self, f, segs):
        ip = self.ip
        cur = ip.fs.setdefault(f.path, [])
        n = sum(seglen(s) for s in segs)
        if f.mode.startswith('a') or f.pos == self.flen(f.path):
            tot = self.flen(f.path) + n
            k = len(cur) if self.normed.get(f.path) is not cur else 1 if cur and isinstance(cur[-1], str) else 0
            cur = cur[:len(cur) - k] + segs_of(mks(cur[len(cur) - k:] + list(segs), True))
            self.normed[f.path] = cur
            f.pos = tot
            ip.fs[f.path] = cur
            self.flens[f.path] = (cur, len(cur), tot)
            return
        else:
            tot = self.flen(f.path)
            if f.pos > tot:
                raise ip.und('hole in a file')
            v = mks(cur, True)
            a = segs_of(sslice(v, 0, f.pos)) if f.pos else []
            b = segs_of(sslice(v, f.pos + n, tot)) if f.pos + n < tot else []
            cur = a + list(segs) + b
            f.pos += n
        ip.fs[f.path] = segs_of(mks(cur, True))

    def rawwrite(self, f, data, direct=False):
        ip = self.ip
        if f.closed:
            raise ip.err(ValueError, 'I/O operation on closed file')
        if f.mode == 'r':
            raise ip.err(OSError, 'not writable')
        ip.io_point('write')
        sg = segs_of(data)
        if direct or not f.text:
            self.put(f, sg)
        else:
            f.pending += sg
        ip.event('write', f.id, f.path, direct)
        return sum(1 for _ in sg)

    def file_method(self, v, name, args, kw):
        ip = self.ip
        f = v if isinstance(v, AFile) else v.f
        text = f.text and isinstance(v, AFile)
        if name == 'close':
            if not f.closed:
                self.flush(f)
                f.closed = True
                ip.event('close', f.id, f.path)
                ip.io_point('close')
            return None
        if name in ('__enter__',):
            return v
        if name == '__exit__':
            return self.file_method(v, 'close', [], {})
        if name in ('isatty', 'fileno', 'readable', 'writable', 'seekable'):
            return {'isatty': False, 'readable': 'r' in f.mode or '+' in f.mode, 'writable': f.mode != 'r',
                    'seekable': True}.get(name, 3)
        if f.closed:
            raise ip.err(ValueError, 'I/O operation on closed file')
        if name == 'write':
            d = args[0]
            if isinstance(d, Top):
                d = AStr([TopSeg(d.why, ip.cur)], not text)
            if isinstance(d, Arr):
                d = self.pack_elems(d)
            if not is_s(d):
                raise ip.err(TypeError, 'write() argument must be str, not %s' % self.typename(d))
            if is_b(d) == text:
                raise ip.err(TypeError, 'write() argument of the wrong kind')
            return self.rawwrite(f, d, direct=not text)
        if name == 'writelines':
            for x in ip.iterate(args[0]):
                self.file_method(v, 'write', [x], {})
            return None
        if name == 'flush':
            if f.pending:
                ip.io_point('flush')
            self.flush(f)
            return None
        if name == 'tell':
            if text:
                self.flush(f)
            return f.pos
        if name == 'seek':
            ip.io_point('seek')
            self.flush(f)
            o = self.hostidx(args[0])
            wh = args[1] if len(args) > 1 else kw.get('whence', 0)
            f.pos = o + (0 if wh == 0 else f.pos if wh == 1 else self.flen(f.path))
            return f.pos
        if name == 'truncate':
            self.flush(f)
            self.truncate(f.path, self.hostidx(args[0]) if args and args[0] is not None else f.pos)
            return f.pos
        if name in ('read', 'readline', 'readlines', 'read1', 'readall', '__next__', 'readinto'):
            ip.io_point('read')
            if f.mode in ('w', 'a', 'x'):
                raise ip.err(OSError, 'not readable')
            ip.event('read', f.id, f.path)
            self.flush(f)
            data = mks(ip.fs.get(f.path, []), True)
            tot = slen(data)
            rest = sslice(data, min(f.pos, tot), tot) if f.pos < tot else b''
            conv = (lambda x: (AStr(decoded(segs_of(x))) if isinstance(x, AStr) else x.decode('utf-8'))) if text else (lambda x: x)
            if name in ('read', 'read1', 'readall'):
                n = args[0] if args else kw.get('size', -1)
                if n is None or (isinstance(n, int) and n < 0):
                    f.pos = max(tot, f.pos)
                    return conv(rest)
                n = self.hostidx(n)
                r = sslice(data, f.pos, min(f.pos + n, tot)) if f.pos < tot else b''
                f.pos = min(f.pos + n, max(tot, f.pos))
                return conv(r)
            lines = ssplitlines(rest, True)
            # only \n ends a line of a binary file
            if name == 'readlines':
                f.pos = max(tot, f.pos)
                return [conv(x) for x in lines]
            if not lines:
                if name == '__next__':
                    raise ip.err(StopIteration)
                return '' if text else b''
            f.pos += slen(lines[0])
            return conv(lines[0])
        raise ip.und('method %s of a file' % name)

    def truncate(self, path, n):
        ip = self.ip
        ip.io_point('truncate')
        if path not in ip.fs:
            raise ip.err(FileNotFoundError, 2, 'No such file')
        v = mks(ip.fs[path], True)
        tot = slen(v)
        ip.fs[path] = segs_of(sslice(v, 0, min(n, tot)))
        if n > tot:
            ip.fs[path] = segs_of(mks(ip.fs[path] + ['\0' * (n - tot)], True))
        ip.event('truncate', path, n)

    # ------------------------------------------------------------ functions
    def unknown(self, name, args, kw, values=False):
        """the result of a call that is not modelled; one that may change what it is given is not passed over"""
        if not name.startswith(('fcntl.', 'msvcrt.', 'os.fsync', 'gc.', 'sys.getsizeof', 'logging.', 'traceback.')):
            for a in list(args) + list(kw.values()):
                for x in (a if isinstance(a, (list, tuple)) else [a]):
                    if isinstance(x, (AFile, ABuf, Obj, Fn, Bound)) or isinstance(x, Partial) and isinstance(x.f, (Fn, Bound)):
                        raise self.ip.und('effect of %s' % name)
                if values and isinstance(a, (list, dict, Arr)):
                    raise self.ip.und('effect of %s' % name)
        return self.ip.top(name)

    def call_ext(self, name, args, kw):
        ip = self.ip
        name = NPALIAS.get(name, name)
        if name.startswith('builtins.'):
            b = name[9:]
            if b in BUILTIN_EXC:
                return PyExc(BUILTIN_EXC[b], args, None)
            f = getattr(self, 'b_' + b, None)
            if f is not None:
                return f(args, kw)
            if '.' in b:
                cls, m = b.split('.', 1)
                if m in ('__setattr__', '__setitem__', '__getitem__', '__getattribute__', '__contains__', '__len__'):
                    if m == '__setattr__':
                        return ip.setattr(*args)
                    if m == '__setitem__':
                        return ip.setitem(*args)
                    if m == '__getitem__':
                        return ip.getitem(*args)
                    if m == '__len__':
                        return self.b_len(args, kw)
                    if m == '__getattribute__':
                        return ip.getattr(*args)
                    return ip.contains(args[1], args[0])
                if m in ('__init__', '__new__', '__delitem__', '__delattr__', '__iadd__', '__ior__'):
                    raise ip.und(name)
                if cls in ('str', 'bytes', 'dict', 'list', 'int', 'float') and args:
                    if m == 'maketrans':
                        return str.maketrans(*args)
                    if m == 'fromkeys':
                        return {ip.hashkey(k): (args[1] if len(args) > 1 else None) for k in ip.iterate(args[0])}
                    if m.startswith('__'):
                        return ip.top(name)
                    if m == 'fromhex' or m == 'from_bytes':
                        return ip.top(name)
                    if cls in ('str', 'bytes') and not is_s(args[0]):
                        if isinstance(args[0], Top):
                            return ip.top(name)
                        raise ip.err(TypeError, 'descriptor requires a str object')
                    return self.method(args[0], m, list(args[1:]), kw)
            if b in ('exec', 'eval', 'compile', '__import__', 'delattr', 'input', 'breakpoint', 'memoryview', 'bytearray'):
                raise ip.und(name)
            return self.unknown(name, args, kw)
        if name.startswith('numpy.'):
            n = name[6:]
            if n in UFUNC or n in UCMP:
                return self.ufunc(n, args)
            f = getattr(self, 'np_' + n.replace('.', '_'), None)
            if f is not None:
                if any(isinstance(a, Top) for a in args):
                    return ip.top('%s of an unknown value' % name)
                return f(args, kw)
            if n in ('float64', 'int64', 'int32', 'float32', 'complex128', 'complex64', 'str_', 'int16', 'int8', 'uint8', 'bool_'):
                if not args:
                    return 0
                v = args[0]
                if isinstance(v, (list, tuple, Arr)):
                    return self.array(v, self.dtname(Ext(name)))
                return self.cast(v, self.dtname(Ext(name)))
            if n in ('errstate', 'printoptions'):
                return Partial(Ext('numpy.errstate'), args, kw)
            if n == 'seterr':
                self.err_ctx[0] = any(x in ('ignore', 'print', 'log', 'call') for x in list(args) + list(kw.values()))
            if n in ('set_printoptions', 'seterr', 'random.seed'):
                ip.event('ext', name)
                return None
            return self.unknown(name, args, kw, n in INPLACE)
        if name.startswith(('os.', 'shutil.')):
            args = [self.fspath(a) for a in args]
        if name.startswith('re.'):
            return self.re_call(name[3:], args, kw)
        if name.startswith('operator.') and name[9:] in OPERATOR:
            return ip.binop(OPERATOR[name[9:]], args[0], args[1])
        f = getattr(self, 'x_' + name.replace('.', '_'), None)
        if f is not None:
            return f(args, kw)
        if name.startswith('math.'):
            return self.mathf(name[5:], args)
        if name.startswith('warnings.'):
            if name.endswith('catch_warnings'):
                return Partial(Ext('warnings.catch_warnings'), args, kw)
            if name in ('warnings.simplefilter', 'warnings.filterwarnings') and self.warn_ctx and \
                    (args[0] if args else kw.get('action')) == 'ignore':
                self.warn_ctx[-1] = True
            elif name in ('warnings.warn', 'warnings.warn_explicit', 'warnings.showwarning'):
                self.warn(name)
            return None
        if name.startswith('logging.') or name.startswith('traceback.'):
            return ip.top(name)
        if name.startswith('sys.stdout.') or name.startswith('sys.stderr.'):
            ip.event('print', name, args)
            return None
        if name.startswith('os.path.'):
            return self.ospath(name[8:], args)
        if name.startswith('os.') or name.startswith('shutil.') or name.startswith('subprocess.'):
            ip.event('ext', name, args)
            if name in ('os.ftruncate', 'os.write', 'os.fdopen', 'os.open', 'os.close', 'os.link', 'os.symlink', 'os.sendfile', 'os.pwrite',
                        'os.renames', 'shutil.rmtree', 'shutil.copytree', 'os.lseek', 'os.read', 'os.dup', 'os.dup2'):
                raise ip.und(name)
            return self.unknown(name, args, kw, True)
        if name.startswith('time.') or name.startswith('datetime.'):
            return self.timef(name, args)
        if name in ('contextlib.suppress', 'contextlib.closing'):
            return Partial(Ext(name), args, kw)
        if name.startswith('dtype:'):
            return ip.top(name)
        if name.startswith(('tempfile.', 'mmap.', 'io.', 'codecs.')):
            raise ip.und(name)
        return self.unknown(name, args, kw, True)

    def ospath(self, n, args):
        ip = self.ip
        p = raw = args[0] if args else None
        if isinstance(p, Top):
            return ip.top('path')
        if isinstance(p, str):
            p = vkey(p)
        if n in ('exists', 'isfile', 'lexists'):
            if not isinstance(p, str):
                return ip.top('path')
            ip.event('exists', p)
            return p in ip.fs
        if n == 'isdir':
            return False
        if n == 'getsize':
            ip.io_point('getsize')
            if p not in ip.fs:
                raise ip.err(FileNotFoundError, 2, 'No such file')
            return self.flen(p)
        if n in ('getmtime', 'getctime', 'getatime'):
            # times have a granularity: two states of a file may have the same one
            ip.io_point(n)
            if p not in ip.fs:
                raise ip.err(FileNotFoundError, 2, 'No such file')
            return 1.5e9
        if n == 'samefile':
            return p == vkey(args[1]) if isinstance(args[1], str) else ip.top('samefile')
        if n in ('splitext', 'basename', 'dirname', 'join', 'split', 'abspath', 'normpath', 'isabs', 'commonpath', 'relpath', 'realpath', 'expanduser'):
            if all(isinstance(a, str) for a in args):
                if n in ('abspath', 'realpath'):
                    return os.path.normpath(os.path.join(CWD, raw))
                if n == 'expanduser':
                    return raw
                return getattr(os.path, n)(*args)
        return ip.top('os.path.' + n)

    def x_os_truncate(self, args, kw):
        self.truncate(vkey(args[0]), self.hostidx(args[1]))

    def x_os_stat(self, args, kw):
        o = Obj(Cls(type('N', (), {'name': 'stat', 'body': []})(), None, []))
        if vkey(args[0]) not in self.ip.fs:
            raise self.ip.err(FileNotFoundError, 2, 'No such file')
        o.attrs['st_size'] = self.flen(vkey(args[0]))
        for k in ('st_mtime', 'st_ctime', 'st_atime'):
            o.attrs[k], o.attrs[k + '_ns'] = 1.5e9, 1500000000000000000
        o.attrs.update(st_ino=1, st_dev=1, st_mode=0o100644, st_nlink=1)
        return o

    def x_os_remove(self, args, kw):
        ip = self.ip
        ip.io_point('remove')
        if vkey(args[0]) not in ip.fs:
            raise ip.err(FileNotFoundError, 2, 'No such file')
        del ip.fs[vkey(args[0])]
        ip.event('remove', args[0])

    x_os_unlink = x_os_remove

    def x_os_replace(self, args, kw):
        ip = self.ip
        if vkey(args[0]) not in ip.fs:
            raise ip.err(FileNotFoundError, 2, 'No such file')
        ip.fs[vkey(args[1])] = ip.fs.pop(vkey(args[0]))
        ip.event('rename', args[0], args[1])

    x_os_rename = x_os_replace

    def x_os_fspath(self, args, kw):
        return args[0]

    def x_os_access(self, args, kw):
        return vkey(args[0]) in self.ip.fs

    def x_shutil_copyfile(self, args, kw):
        ip = self.ip
        if vkey(args[0]) not in ip.fs:
            raise ip.err(FileNotFoundError, 2, 'No such file')
        ip.fs[vkey(args[1])] = list(ip.fs[vkey(args[0])])
        ip.event('ext', 'shutil.copy', args)
        return args[1]

    x_shutil_copy = x_shutil_copy2 = x_shutil_copyfile

    def x_io_open(self, args, kw):
        return self.openf(args, kw)

    def x_codecs_open(self, args, kw):
        a = list(args)
        enc = a[2] if len(a) > 2 else kw.get('encoding')
        return self.openf(a[:2], {'encoding': enc})

    def x_copy_copy(self, args, kw):
        v = args[0]
        if isinstance(v, Arr):
            return v.copy()
        if isinstance(v, dict):
            return self.dict_method(v, 'copy', [], {})
        if isinstance(v, list):
            return list(v)
        return v

    def x_copy_deepcopy(self, args, kw):
        def dc(v):
            if isinstance(v, dict):
                r = {k: dc(x) for k, x in v.items()}
                self.ip.keep.append(r)
                return r
            if isinstance(v, list):
                return [dc(x) for x in v]
            if isinstance(v, tuple):
                return tuple(dc(x) for x in v)
            if isinstance(v, Arr):
                return Arr([dc(x) for x in v.elems()], v.shape, v.dt)
            return v
        return dc(args[0])

    def x_functools_partial(self, args, kw):
        return Partial(args[0], list(args[1:]), kw)

    def x_functools_reduce(self, args, kw):
        it = list(self.ip.iterate(args[1]))
        if len(args) > 2:
            acc = args[2]
        elif it:
            acc = it.pop(0)
        else:
            raise self.ip.err(TypeError, 'reduce() of empty iterable')
        for x in it:
            acc = self.ip.call(args[0], [acc, x], {})
        return acc

    def x_itertools_chain(self, args, kw):
        return AIter([x for a in args for x in self.ip.iterate(a)])

    def x_itertools_chain_from_iterable(self, args, kw):
        return AIter([x for a in self.ip.iterate(args[0]) for x in self.ip.iterate(a)])

    def x_itertools_islice(self, args, kw):
        a = [None if x is None else self.hostidx(x) for x in args[1:]]
        sl = slice(*a)
        it = args[0]
        if isinstance(it, AFile) and sl.stop is not None:
            out = []
            while len(out) < sl.stop:
                l = self.file_method(it, 'readline', [], {})
                if not self.ip.truth(l):
                    break
                out.append(l)
            return AIter(out[sl])
        if isinstance(it, AIter):
            n = len(it.items) if sl.stop is None else min(len(it.items), it.i + sl.stop)
            rest = it.items[it.i:n]
            it.i = n
            return AIter(rest[sl])
        return AIter(list(self.ip.iterate(it))[sl])

    def x_itertools_zip_longest(self, args, kw):
        fv = kw.get('fillvalue')
        its = [a if isinstance(a, AIter) else AIter(list(self.ip.iterate(a))) for a in args]
        out = []
        while any(it.i < len(it.items) for it in its):
            row = []
            for it in its:
                row.append(it.items[it.i] if it.i < len(it.items) else fv)
                it.i += it.i < len(it.items)
            out.append(tuple(row))
        return AIter(out)

    def x_itertools_repeat(self, args, kw):
        if len(args) > 1:
            return AIter([args[0]] * args[1])
        raise self.ip.und('endless iterator')

    def x_itertools_product(self, args, kw):
        import itertools
        return AIter(list(itertools.product(*[list(self.ip.iterate(a)) for a in args], **kw)))

    def x_operator_itemgetter(self, args, kw):
        return self.prelude().env['itemgetter'] if not args else self.ip.call(self.prelude().env['itemgetter'], args, {})


    def x_collections_OrderedDict(self, args, kw):
        return self.b_dict(args, kw)

    def x_struct_calcsize(self, args, kw):
        import struct as S
        if isinstance(args[0], str):
            try:
                return S.calcsize(args[0])
            except Exception:
                raise PyExc(StructError, ('bad format',), self.ip.cur)
        return self.ip.top('calcsize')

    def parse_struct(self, f):
        ip = self.ip
        if isinstance(f, bytes):
            f = f.decode('latin-1')
        if not isinstance(f, str):
            raise ip.und('computed struct format')
        native = '<' if ip.byteorder == 'little' else '>'
        bo = native
        if f[:1] in '<>=@!':
            bo = {'<': '<', '>': '>', '!': '>', '=': native, '@': native}[f[0]]
            f = f[1:]
        codes = []
        for n, c in re.findall(r'(\d*)\s*([a-zA-Z?])', f):
            if c in ('x', 's', 'p', 'c'):
                raise ip.und('struct format ' + c)
            if c not in Bin.SIZE:
                raise PyExc(StructError, ('bad char in struct format',), ip.cur)
            codes += [c] * (int(n) if n else 1)
        return bo, codes

    def x_struct_pack(self, args, kw):
        ip = self.ip
        bo, codes = self.parse_struct(args[0])
        vals = list(args[1:])
        if len(vals) != len(codes):
            raise PyExc(StructError, ('pack expected %d items' % len(codes),), ip.cur)
        segs = []
        for c, v in zip(codes, vals):
            if isinstance(v, Top):
                segs.append(TopSeg(v.why, ip.cur))
                continue
            if not isreal(v):
                raise PyExc(StructError, ('required argument is not a float',), ip.cur)
            if c == 'f' and isinstance(v, (int, float)) and math.isfinite(v):
                try:
                    struct.pack('<f', v)
                except OverflowError as ex:
                    if str(args[0])[:1] in '<>=!':
                        raise ip.err(OverflowError, *ex.args)
                    v = math.copysign(math.inf, v)
            segs.append(binw(v, c, bo, ip.cur))
        return mks(segs, True)

    def x_struct_unpack(self, args, kw):
        ip = self.ip
        bo, codes = self.parse_struct(args[0])
        data = args[1]
        if isinstance(data, Top):
            return ip.top('unpack')
        n = sum(Bin.SIZE[c] for c in codes)
        if slen(data) != n:
            raise PyExc(StructError, ('unpack requires a buffer of %d bytes, not %d' % (n, slen(data)),), ip.cur)
        return tuple(self.unwords(data, bo, codes))

    def unwords(self, data, bo, codes):
        out = []
        p = 0
        for c in codes:
            s = Bin.SIZE[c]
            w = sslice(data, p, p + s)
            sg = segs_of(w)
            if len(sg) == 1 and isinstance(sg[0], Bin) and sg[0].fmt == c and (sg[0].bo == bo or s == 1):
                v = sg[0].sym
                if isinstance(v, Sym) and c == 'f':
                    v = v.with_(kind='float', term=strip_f4(v.term), np=None)
                elif isinstance(v, Sym):
                    v = v.with_(kind='float' if c in 'df' else 'int', np=None)
                elif c in 'df' and isinstance(v, (int, float)):
                    v = float(v)
                out.append(v)
            elif len(sg) == 1 and isinstance(sg[0], str):
                out.append(struct.unpack(bo + c, sg[0].encode('latin-1'))[0])
            else:
                if any(isinstance(x, TopSeg) for x in sg):
                    out.append(self.ip.top('unknown bytes'))
                else:
                    out.append(Sym('float' if c in 'dfe' else 'int', ('misread', bo + c, repr(w))))
            p += s
        return out

    def x_struct_unpack_from(self, args, kw):
        off = args[2] if len(args) > 2 else kw.get('offset', 0)
        bo, codes = self.parse_struct(args[0])
        n = sum(Bin.SIZE[c] for c in codes)
        if slen(args[1]) < off + n:
            raise PyExc(StructError, ('buffer too small',), self.ip.cur)
        return tuple(self.unwords(sslice(args[1], off, off + n), bo, codes))

    def x_struct_iter_unpack(self, args, kw):
        bo, codes = self.parse_struct(args[0])
        n = sum(Bin.SIZE[c] for c in codes)
        if slen(args[1]) % n:
            raise PyExc(StructError, ('iterative unpacking',), self.ip.cur)
        return AIter([tuple(self.unwords(sslice(args[1], i, i + n), bo, codes)) for i in range(0, slen(args[1]), n)])

    def x_struct_Struct(self, args, kw):
        return Partial(Ext('struct.Struct'), [args[0]], {})

    def mathf(self, n, args):
        ip = self.ip
        v = args[0] if args else None
        if isinstance(v, Top):
            return ip.top('math.' + n)
        if isinstance(v, Arr) and v.size() == 1:
            v = v.elems()[0]
        if isinstance(v, (int, float)) and all(isinstance(a, (int, float)) for a in args[1:]):
            try:
                return getattr(math, n)(v, *args[1:])
            except Exception as e:
                raise ip.err(type(e), *e.args)
        if isinstance(v, Sym) and isreal(v):
            if n in ('ceil', 'floor', 'trunc'):
                if v.integral:
                    return v.with_(kind='int', np=None)
                return Sym('int', (n, v.term))
            if n in ('isnan', 'isinf', 'isfinite'):
                return self.isfin(n, v)
            return Sym('float', ('math.' + n,) + tuple(tv(a) for a in args))
        if isinstance(v, (list, tuple)):
            return ip.top('math.' + n)
        raise ip.err(TypeError, 'must be real number, not %s' % self.typename(v))

    def timef(self, name, args):
        if name in ('time.strftime',) or name.endswith('.strftime'):
            return Sym('str', ('now', repr(args[0]) if args else ''), ml=10)
        if name in ('time.time', 'time.perf_counter', 'time.monotonic'):
            return Sym('float', ('clock',))
        return self.ip.top(name)

    # ------------------------------------------------------------- builtins
    def b_open(self, args, kw):
        return self.openf(args, kw)

    def b_print(self, args, kw):
        f = kw.get('file')
        if isinstance(f, (AFile, ABuf)):
            sep, end = kw.get('sep', ' '), kw.get('end', '\n')
            out = []
            for i, a in enumerate(args):
                s = self.to_str(a)
                out += ([sep] if i else []) + ([TopSeg(s.why)] if isinstance(s, Top) else segs_of(s))
            return self.file_method(f, 'write', [mks(out + [end])], {}) and None
        self.ip.event('print', 'print', args)
        return None

    def b_len(self, args, kw):
        ip = self.ip
        v = args[0]
        if isinstance(v, (list, tuple, dict, set, frozenset, range, str, bytes)):
            return len(v)
        if isinstance(v, Arr):
            if not v.shape:
                raise ip.err(TypeError, 'len() of unsized object')
            return v.shape[0]
        if isinstance(v, AStr):
            if all(isinstance(s, (str, Bin, BPart, Part)) or (isinstance(s, Fld) and s.width) for s in v.segs):
                return slen(v)
            return slen(v)
        if isinstance(v, Sym) and v.kind == 'str':
            return Sym('int', ('len', v.term))
        if isinstance(v, Top):
            return ip.top('length')
        if isinstance(v, Obj):
            f = v.cls.find('__len__')
            if f:
                return ip.call(Bound(v, f), [], {})
        if isinstance(v, Sym) and v.kind == 'any':
            return ip.top('length of an unknown value')
        raise ip.err(TypeError, "object of type '%s' has no len()" % self.typename(v))

    def dunder(self, v, *names):
        """the result of the first of these methods an object has, else the object"""
        if isinstance(v, Obj):
            for n in names:
                f = v.cls.find(n)
                if f:
                    return self.ip.call(Bound(v, f), [], {})
        return v

    def b_int(self, args, kw):
        args = [self.dunder(a, '__int__', '__index__', '__trunc__') for a in args]
        return self.to_int(*args) if args else 0

    def b_float(self, args, kw):
        args = [self.dunder(a, '__float__', '__index__') for a in args]
        return self.to_float(*args) if args else 0.0

    def b_complex(self, args, kw):
        args = [self.dunder(a, '__complex__', '__float__') for a in args]
        return self.to_complex(*args) if args else 0j

    def b_str(self, args, kw):
        if not args:
            return ''
        if len(args) > 1 or kw:
            if is_b(args[0]):
                return self.str_method(args[0], 'decode', list(args[1:]), {k: v for k, v in kw.items()})
        return self.to_str(args[0])

    def b_repr(self, args, kw):
        return self.to_str(args[0], 'r')

    def b_format(self, args, kw):
        return self.format(args[0], args[1] if len(args) > 1 else '')

    def b_bool(self, args, kw):
        return self.ip.truth(args[0]) if args else False

    def b_bytes(self, args, kw):
        if not args:
            return b''
        if all(concrete(a) for a in args):
            try:
                return bytes(*args)
            except Exception as e:
                raise self.ip.err(type(e), *e.args)
        if is_b(args[0]):
            return args[0]
        if is_s(args[0]):
            return self.str_method(args[0], 'encode', list(args[1:]), kw)
        return self.ip.top('bytes')

    b_bytearray = b_memoryview = b_bytes

    def b_list(self, args, kw):
        return list(self.ip.iterate(args[0])) if args else []

    def b_tuple(self, args, kw):
        return tuple(self.ip.iterate(args[0])) if args else ()

    def b_set(self, args, kw):
        return set(self.ip.hashkey(x) for x in self.ip.iterate(args[0])) if args else set()

    def b_frozenset(self, args, kw):
        return frozenset(self.b_set(args, kw))

    def b_dict(self, args, kw):
        d = {}
        self.ip.keep.append(d)
        self.dict_method(d, 'update', args, kw)
        return d

    def b_range(self, args, kw):
        ip = self.ip
        for a in args:
            if isinstance(a, Sym) or isinstance(a, Top):
                raise ip.und('range over an unknown number')
        try:
            return range(*[self.hostidx(a) for a in args])
        except PyExc:
            raise
        except Exception as e:
            raise ip.err(type(e), *e.args)

    def b_slice(self, args, kw):
        return slice(*args)

    def b_enumerate(self, args, kw):
        s = args[1] if len(args) > 1 else kw.get('start', 0)
        return AIter([(i + s, x) for i, x in enumerate(self.ip.iterate(args[0]))])

    def b_zip(self, args, kw):
        if any(isinstance(a, AFile) for a in args) and len(args) > 1 and len(set(map(id, args))) == 1:
            raise self.ip.und('lines of a file side by side')
        its = [a if isinstance(a, AIter) else AIter(self.ip.iterate(a)) for a in args]
        strict = self.ip.truth(kw.get('strict', False))
        out = []
        while its:
            row = []
            for it in its:
                if it.i >= len(it.items):
                    if strict and (row or any(o.i < len(o.items) for o in its)):
                        raise self.ip.err(ValueError, 'zip() arguments of different lengths')
                    return AIter(out)
                row.append(it.items[it.i])
                it.i += 1
            out.append(tuple(row))
        return AIter(out)

    def b_map(self, args, kw):
        ls = [self.ip.iterate(a) for a in args[1:]]
        return AIter([self.ip.call(args[0], list(t), {}) for t in zip(*ls)])

    def b_filter(self, args, kw):
        ip = self.ip
        return AIter([x for x in ip.iterate(args[1]) if ip.truth(ip.call(args[0], [x], {}) if args[0] is not None else x)])

    def b_reversed(self, args, kw):
        return AIter(list(reversed(list(self.ip.iterate(args[0])))))

    def b_iter(self, args, kw):
        ip = self.ip
        if len(args) == 2:
            out = []
            for _ in range(10000):
                v = ip.call(args[0], [], {})
                if ip.truth(ip.cmp('==', v, args[1])):
                    return AIter(out)
                out.append(v)
            raise ip.und('iter')
        if isinstance(args[0], AIter):
            return args[0]
        return AIter(list(ip.iterate(args[0])))

    def b_next(self, args, kw):
        ip = self.ip
        it = args[0]
        if isinstance(it, AFile):
            return self.file_method(it, '__next__', [], {})
        if isinstance(it, Top):
            return ip.top('next')
        if not isinstance(it, AIter):
            if isinstance(it, Obj) and it.cls.find('__next__'):
                return ip.call(Bound(it, it.cls.find('__next__')), [], {})
            raise ip.err(TypeError, 'not an iterator')
        if it.i < len(it.items):
            it.i += 1
            return it.items[it.i - 1]
        if len(args) > 1:
            return args[1]
        raise ip.err(StopIteration)

    def b_sorted(self, args, kw):
        return self.sorted(list(self.ip.iterate(args[0])), kw)

    def b_type(self, args, kw):
        if len(args) != 1:
            raise self.ip.und('type()')
        t = self.typeof(args[0])
        return t

    def b_isinstance(self, args, kw):
        return self.isinstance(args[0], args[1])

    def b_issubclass(self, args, kw):
        a, b = args
        if isinstance(a, Cls) and isinstance(b, Cls):
            return b in a.mro()
        if isinstance(a, type) and isinstance(b, Ext) and b.name[9:] in BUILTIN_EXC:
            return issubclass(a, BUILTIN_EXC[b.name[9:]])
        if isinstance(b, tuple):
            return any(self.ip.truth(self.b_issubclass([a, x], {})) for x in b)
        h = [BUILTIN_EXC.get(x.name[9:]) or TYPES.get(x.name[9:]) if isinstance(x, Ext) and x.name.startswith('builtins.') else
             x.host_exc() if isinstance(x, Cls) else x for x in (a, b)]
        if all(isinstance(x, type) for x in h):
            return issubclass(*h)
        return self.ip.top('issubclass')

    def x_abc_abstractmethod(self, args, kw):
        return args[0]

    def x_nothing(self, args, kw):
        return None

    def x_namedtuple_make(self, args, kw):
        return self.ip.call(args[0], list(self.ip.iterate(args[1])), {})

    x_typing_overload = x_typing_final = x_enum_unique = x_typing_runtime_checkable = x_typing_no_type_check = x_abc_abstractmethod

    def x_enum_auto(self, args, kw):
        return Ext('enum.auto()')

    def b_callable(self, args, kw):
        if isinstance(args[0], Obj):
            return args[0].cls.find('__call__') is not None
        return isinstance(args[0], (Fn, Bound, Meth, Partial, Cls, Ext))

    def b_hasattr(self, args, kw):
        ip = self.ip
        v, n = args
        if isinstance(v, Arr):
            return n in ('shape', 'dtype', 'size', 'ndim', 'tolist', 'astype', '__len__', '__iter__', '__array__', 'copy',
                         'real', 'imag', 'T', 'flatten', '__getitem__')
        if n in ('__len__', '__iter__', '__getitem__'):
            return isinstance(v, (list, tuple, dict, str, bytes, AStr)) or is_s(v)
        if isinstance(v, Top):
            return ip.top('hasattr')
        try:
            ip.getattr(v, n)
            return True
        except PyExc as e:
            if e.etype is AttributeError:
                return False
            raise

    def b_getattr(self, args, kw):
        ip = self.ip
        if not isinstance(args[1], str):
            raise ip.und('getattr')
        try:
            return ip.getattr(args[0], args[1])
        except PyExc as e:
            if e.etype is AttributeError and len(args) > 2:
                return args[2]
            raise

    def b_setattr(self, args, kw):
        self.ip.setattr(args[0], args[1], args[2])

    def b_vars(self, args, kw):
        return args[0].attrs

    def b_id(self, args, kw):
        return id(args[0]) if args else 0

    def b_hash(self, args, kw):
        return self.ip.top('hash')

    def b_input(self, args, kw):
        self.ip.event('input')
        return self.ip.top('input')

    def b_object(self, args, kw):
        return Obj(Cls(type('N', (), {'name': 'object', 'body': []})(), None, []))

    def b_abs(self, args, kw):
        v = self.dunder(args[0], '__abs__')
        if isinstance(v, (int, float, complex)):
            return abs(v)
        if isinstance(v, Arr):
            return self.np_abs(args, kw)
        if isinstance(v, Sym) and isnum(v):
            return Sym('float' if v.kind == 'complex' else v.kind, ('abs', v.term), integral=v.integral)
        return self.ip.top('abs')

    def b_round(self, args, kw):
        v = args[0]
        if isinstance(v, (int, float)):
            return round(*args)
        if isinstance(v, Sym) and v.integral:
            return v
        if isinstance(v, Sym) and isreal(v):
            return Sym('int' if len(args) == 1 else 'float', ('round',) + tuple(tv(a) for a in args))
        return self.ip.top('round')

    def b_divmod(self, args, kw):
        return (self.ip.binop('//', *args), self.ip.binop('%', *args))

    def b_pow(self, args, kw):
        return self.ip.binop('**', args[0], args[1])

    def b_ord(self, args, kw):
        return ord(args[0]) if isinstance(args[0], (str, bytes)) else self.ip.top('ord')

    def b_chr(self, args, kw):
        return chr(args[0]) if isinstance(args[0], int) else self.ip.top('chr')

    def b_any(self, args, kw):
        for x in self.ip.iterate(args[0]):
            if self.ip.truth(x):
                return True
        return False

    def b_all(self, args, kw):
        for x in self.ip.iterate(args[0]):
            if not self.ip.truth(x):
                return False
        return True

    def b_sum(self, args, kw):
        acc = args[1] if len(args) > 1 else kw.get('start', 0)
        for x in self.ip.iterate(args[0]):
            acc = self.ip.binop('+', acc, x)
        return acc

    def minmax(self, args, kw, op):
        ip = self.ip
        items = list(args) if len(args) > 1 else list(ip.iterate(args[0]))
        key = kw.get('key')
        if not items:
            if 'default' in kw:
                return kw['default']
            raise ip.err(ValueError, 'empty sequence')
        best = items[0]
        kb = ip.call(key, [best], {}) if key is not None else best
        for x in items[1:]:
            kx = ip.call(key, [x], {}) if key is not None else x
            if ip.truth(ip.cmp(op, kx, kb)):
                best, kb = x, kx
        return best

    def b_min(self, args, kw):
        return self.minmax(args, kw, '<')

    def b_max(self, args, kw):
        return self.minmax(args, kw, '>')

    # ---------------------------------------------------------------- numpy
    def np_array(self, args, kw):
        dt = self.dtname(args[1] if len(args) > 1 else kw.get('dtype'))
        return self.array(args[0], dt, copy=self.ip.truth(kw.get('copy', True)))

    def np_asarray(self, args, kw):
        dt = self.dtname(args[1] if len(args) > 1 else kw.get('dtype'))
        return self.array(args[0], dt, copy=False)

    np_asanyarray = np_ascontiguousarray = np_asarray

    def np_atleast_1d(self, args, kw):
        a = self.array(args[0], copy=False)
        return a if a.shape else Arr(a.elems(), (1,), a.dt)

    def np_atleast_2d(self, args, kw):
        a = self.array(args[0], copy=False)
        return a if len(a.shape) > 1 else a.view(list(a.idx), (1, a.size()))

    def np_copy(self, args, kw):
        return self.array(args[0])

    ABSTRACT = {'number': 'fciu', 'inexact': 'fc', 'floating': 'f', 'complexfloating': 'c', 'integer': 'iu', 'signedinteger': 'i',
                'unsignedinteger': 'u', 'generic': 'fciubUSO', 'character': 'US', 'flexible': 'US'}

    def np_issubdtype(self, args, kw):
        a, b = args[:2]
        if isinstance(b, Ext) and b.name.split('.')[-1] in self.ABSTRACT:
            return self.dtname(a).lstrip('<>')[0] in self.ABSTRACT[b.name.split('.')[-1]]
        return self.dtname(a).lstrip('<>') == self.dtname(b).lstrip('<>')

    def np_dtype(self, args, kw):
        return Ext('dtype:' + self.dtname(args[0]))

    def full(self, sh, v, dt):
        sh = tuple(self.hostidx(x) for x in ip_list(sh))
        n = 1
        for x in sh:
            if x < 0:
                raise self.ip.err(ValueError, 'negative dimensions are not allowed')
            n *= x
        return Arr([self.cast(v, dt)] * n, sh, dt)

    def shape_arg(self, args, kw):
        s = args[0] if args else kw['shape']
        if isinstance(s, Sym):
            raise self.ip.und('array of unknown size')
        return s

    def np_zeros(self, args, kw):
        dt = self.dtname(args[1] if len(args) > 1 else kw.get('dtype')) or 'f8'
        return self.full(self.shape_arg(args, kw), 0, dt)

    def np_empty(self, args, kw):
        dt = self.dtname(args[1] if len(args) > 1 else kw.get('dtype')) or 'f8'
        a = self.full(self.shape_arg(args, kw), 0, dt)
        self.ip._empty = getattr(self.ip, '_empty', 0) + 1
        a.buf[:] = [Sym('float' if dt[0] == 'f' else 'complex' if dt[0] == 'c' else 'int', ('uninit', self.ip._empty, i))
                    for i in range(len(a.buf))]
        return a

    def np_ones(self, args, kw):
        dt = self.dtname(args[1] if len(args) > 1 else kw.get('dtype')) or 'f8'
        return self.full(self.shape_arg(args, kw), 1, dt)

    def np_full(self, args, kw):
        v = args[1] if len(args) > 1 else kw['fill_value']
        dt = self.dtname(args[2] if len(args) > 2 else kw.get('dtype')) or self.kind_dt(v)
        return self.full(self.shape_arg(args, kw), v, dt)

    def like(self, args, kw, v):
        a = self.array(args[0], copy=False)
        return self.full(a.shape, v, self.dtname(kw.get('dtype')) or a.dt)

    def np_zeros_like(self, args, kw):
        return self.like(args, kw, 0)

    np_empty_like = np_zeros_like

    def np_ones_like(self, args, kw):
        return self.like(args, kw, 1)

    def np_full_like(self, args, kw):
        return self.like(args, kw, args[1])

    def np_arange(self, args, kw):
        ip = self.ip
        args = [self.hostidx(x) if isinstance(x, Arr) else x for x in args]
        if any(isinstance(a, (Sym, Top)) for a in args):
            if any(isinstance(a, Top) for a in args):
                raise ip.und('arange with unknown bounds')
            s, e, st = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], 1) if len(args) == 2 else args[:3]
            dt = self.dtname(kw.get('dtype'))
            span = ip.binop('-', e, s)
            for n in range(200):
                d = ip.binop('-', span, ip.binop('*', st, n))
                if not isinstance(d, Sym) and d == 0:
                    break
            else:
                raise ip.und('arange with unknown bounds')
            real = any(isinstance(a, float) or isinstance(a, Sym) and a.kind == 'float' for a in (s, e, st))
            if real and n and self.ip.decide(Sym('bool', ('arange rounds up', n, repr(span), repr(st)))):
                n += 1          # the end is met by rounding
            dt = dt or ('f8' if real else 'i8')
            return Arr([self.cast(ip.binop('+', s, ip.binop('*', st, i)), dt) for i in range(n)], (n,), dt)
        dt = self.dtname(kw.get('dtype'))
        a = [self.hostidx(x) if isinstance(x, Arr) else x for x in args]
        s, e, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a[:3]
        n = max(0, math.ceil((e - s) / st))
        isf = any(isinstance(x, float) for x in a)
        el = [s + i * st for i in range(n)]
        el = [float(x) if isf else x for x in el]
        return Arr([self.cast(x, dt or ('f8' if isf else 'i8')) for x in el], (n,), dt or ('f8' if isf else 'i8'))

    def np_linspace(self, args, kw):
        ip = self.ip
        n = args[2] if len(args) > 2 else kw.get('num', 50)
        if isinstance(n, Sym):
            raise ip.und('linspace of unknown size')
        a, b = args[:2]
        end = kw.get('endpoint', True)
        d = (n - 1 if end else n) or 1
        el = [ip.binop('+', a, ip.binop('*', ip.binop('-', b, a), i / d)) for i in range(n)]
        return Arr([self.cast(x, 'f8') for x in el], (n,), 'f8')

    def np_real(self, args, kw):
        v = args[0]
        if isinstance(v, Arr):
            return self.value_attr(v, 'real')
        return self.emap(re_, v)

    def np_imag(self, args, kw):
        return self.emap(im_, args[0]) if not isinstance(args[0], Arr) else self.value_attr(args[0], 'imag')

    def np_conj(self, args, kw):
        return self.ip.call(Meth(self.array(args[0]), 'conj'), [], {})

    def np_iscomplexobj(self, args, kw):
        v = args[0]
        if isinstance(v, (list, tuple)):
            v = self.array(v)
        if isinstance(v, Arr):
            return v.dt.lstrip('<>')[0] == 'c'
        return iscomplex(v)

    def np_isrealobj(self, args, kw):
        return not self.np_iscomplexobj(args, kw)

    def np_iscomplex(self, args, kw):
        def f(x):
            if isinstance(x, complex):
                return x.imag != 0
            if isinstance(x, Sym) and x.kind == 'complex':
                return self.ip.cmp('!=', im_(x), 0)
            return False
        return self.emap(f, args[0], 'b1')

    def np_isreal(self, args, kw):
        r = self.np_iscomplex(args, kw)
        if isinstance(r, Arr):
            return Arr([self.ip.neg(x) if not isinstance(x, bool) else not x for x in r.elems()], r.shape, 'b1')
        return not r if isinstance(r, bool) else self.ip.neg(r)

    def np_isscalar(self, args, kw):
        return isinstance(args[0], (int, float, complex, str, bytes)) or isinstance(args[0], Sym)

    def np_nan_to_num(self, args, kw):
        self.ip.event('nan_to_num')
        v = args[0]
        opt = [args[k] if len(args) > k else kw.get(n) for k, n in ((2, 'nan'), (3, 'posinf'), (4, 'neginf'))]

        def num(x, dt):
            if isinstance(x, complex):
                return complex(num(x.real, dt), num(x.imag, dt))
            if not isinstance(x, float) or math.isfinite(x):
                return x
            big = 3.4028234663852886e38 if dt in ('f4', 'c8') else 1.7976931348623157e308
            y = opt[0] if x != x else opt[1] if x > 0 else opt[2]
            return (0.0 if x != x else math.copysign(big, x)) if y is None else self.cast(y, dt if dt in ('f4', 'f8') else 'f8')
        if isinstance(v, (float, complex)) and not self.ip.nan_tag:
            return num(v, 'f8')
        copy = args[1] if len(args) > 1 else kw.get('copy', True)
        if isinstance(v, (list, tuple)):
            v, copy = self.array(v), False
        if isinstance(v, Arr):
            if self.ip.truth(copy):
                v = v.copy()
            if self.ip.nan_tag:
                for i, x in enumerate(self.ip.nan_tag(v).elems()):
                    v.buf[v.idx[i]] = x
            for i in v.idx:
                v.buf[i] = num(v.buf[i], v.dt)
            return v
        return self.ip.nan_tag(v) if self.ip.nan_tag else v

    def isfin(self, n, x):
        if isinstance(x, Top):
            return self.ip.top(n)
        c = self.ip.finclass(x)
        return {'isnan': c == 'nan', 'isinf': c in ('inf', '-inf'), 'isfinite': c is None,
                'isposinf': c == 'inf', 'isneginf': c == '-inf'}[n]

    def np_isnan(self, args, kw):
        return self.emap(lambda x: self.isfin('isnan', x), args[0], 'b1')

    def np_isinf(self, args, kw):
        return self.emap(lambda x: self.isfin('isinf', x), args[0], 'b1')

    def np_isposinf(self, args, kw):
        return self.emap(lambda x: self.isfin('isposinf', x), args[0], 'b1')

    def np_isneginf(self, args, kw):
        return self.emap(lambda x: self.isfin('isneginf', x), args[0], 'b1')

    def np_isfinite(self, args, kw):
        return self.emap(lambda x: self.isfin('isfinite', x), args[0], 'b1')

    def np_trim_zeros(self, args, kw):
        ip = self.ip
        trim = args[1] if len(args) > 1 else kw.get('trim', 'fb')
        v = args[0]
        n = len(v) if not isinstance(v, Arr) else v.shape[0]
        el = list(v) if not isinstance(v, Arr) else v.elems()
        a, b = 0, n
        if 'f' in trim.lower():
            while a < b and not ip.truth(el[a]):
                a += 1
        if 'b' in trim.lower():
            while b > a and not ip.truth(el[b - 1]):
                b -= 1
        return ip.getitem(v, slice(a, b))

    def np_count_nonzero(self, args, kw):
        return sum(1 for x in self.array(args[0]).elems() if self.ip.truth(x))

    def np_nonzero(self, args, kw):
        a = self.array(args[0], copy=False)
        return (Arr([i for i, x in enumerate(a.elems()) if self.ip.truth(x)], None, 'i8'),)

    def np_flatnonzero(self, args, kw):
        return self.np_nonzero(args, kw)[0]

    def np_where(self, args, kw):
        ip = self.ip
        if len(args) == 1:
            return self.np_nonzero(args, kw)
        c = self.array(args[0], copy=False)
        x, y = self.array(args[1], copy=False), self.array(args[2], copy=False)
        sh = self.bshape(self.bshape(c.shape, x.shape), y.shape)
        el = [a if ip.truth(m) else b for m, a, b in zip(self.broadcast(c, sh), self.broadcast(x, sh), self.broadcast(y, sh))]
        return Arr(el, sh, self.join_dt([x.dt, y.dt]))

    def rnd(self, n, v):
        def f(x):
            if isinstance(x, (int, float)):
                return float(getattr(math, n)(x)) if math.isfinite(x) else x
            if isinstance(x, Sym) and x.integral:
                return x.with_(kind='float')
            return Sym('float', (n, tv(x)), integral=True)
        return self.emap(f, v, None)

    def np_floor(self, args, kw):
        return self.rnd('floor', args[0])

    def np_ceil(self, args, kw):
        return self.rnd('ceil', args[0])

    def np_abs(self, args, kw):
        return self.emap(lambda x: self.b_abs([x], {}), args[0])

    np_absolute = np_abs

    def np_concatenate(self, args, kw):
        ip = self.ip
        xs = [self.array(x, copy=False) for x in ip.iterate(args[0])]
        ax = args[1] if len(args) > 1 else kw.get('axis', 0)
        if not xs:
            raise ip.err(ValueError, 'need at least one array to concatenate')
        return self.cat(xs, ax)

    def cat(self, xs, ax):
        ip = self.ip
        dt = self.join_dt([x.dt for x in xs if x.size()] or [x.dt for x in xs])
        if ax is None:
            return Arr([self.cast(e, dt) for x in xs for e in x.elems()], None, dt)
        nd = len(xs[0].shape)
        if nd == 0:
            raise ip.err(ValueError, 'zero-dimensional arrays cannot be concatenated')
        if ax < 0:
            ax += nd
        for x in xs:
            if len(x.shape) != nd or any(i != ax and p != q for i, (p, q) in enumerate(zip(x.shape, xs[0].shape))):
                raise ip.err(ValueError, 'all the input array dimensions must match exactly')
        sh = xs[0].shape[:ax] + (sum(x.shape[ax] for x in xs),) + xs[0].shape[ax + 1:]
        outer = 1
        for k in sh[:ax]:
            outer *= k
        el = []
        for i in range(outer):
            for x in xs:
                c = x.size() // outer
                el += x.elems()[i * c:(i + 1) * c]
        return Arr([self.cast(e, dt) for e in el], sh, dt)

    def np_append(self, args, kw):
        a, b = self.array(args[0]), self.array(args[1])
        ax = args[2] if len(args) > 2 else kw.get('axis')
        if ax is None:
            return self.cat([a, b], None)
        return self.cat([a, b], ax)

    def np_vstack(self, args, kw):
        xs = [self.array(x, copy=False) for x in self.ip.iterate(args[0])]
        xs = [x if len(x.shape) > 1 else x.view(list(x.idx), (1, x.size())) for x in xs]
        return self.cat(xs, 0)

    np_row_stack = np_vstack

    def np_hstack(self, args, kw):
        xs = [self.array(x, copy=False) for x in self.ip.iterate(args[0])]
        xs = [x if x.shape else Arr(x.elems(), (1,), x.dt) for x in xs]
        return self.cat(xs, 0 if len(xs[0].shape) == 1 else 1)

    def np_column_stack(self, args, kw):
        xs = [self.array(x, copy=False) for x in self.ip.iterate(args[0])]
        xs = [x if len(x.shape) > 1 else x.view(list(x.idx), (x.size(), 1)) for x in xs]
        return self.cat(xs, 1)

    def np_stack(self, args, kw):
        xs = [self.array(x, copy=False) for x in self.ip.iterate(args[0])]
        ax = args[1] if len(args) > 1 else kw.get('axis', 0)
        if len(set(x.shape for x in xs)) != 1:
            raise self.ip.err(ValueError, 'all input arrays must have the same shape')
        r = self.cat([x.view(list(x.idx), (1,) + x.shape) for x in xs], 0)
        if ax == 0:
            return r
        if ax in (1, -1) and len(r.shape) == 2:
            t = self.transpose(r)
            return t.copy()
        raise self.ip.und('stack')

    def np_dstack(self, args, kw):
        xs = []
        for x in self.ip.iterate(args[0]):
            x = self.array(x, copy=False)
            xs.append(x.view(list(x.idx), {0: (1, 1, 1), 1: (1,) + x.shape + (1,), 2: x.shape + (1,)}.get(len(x.shape), x.shape)))
        return self.cat(xs, 2)

    def np_split(self, args, kw):
        return self.splits(args, kw, True)

    def np_array_split(self, args, kw):
        return self.splits(args, kw, False)

    def np_transpose(self, args, kw):
        a = self.array(args[0], copy=False)
        o = args[1] if len(args) > 1 else kw.get('axes')
        return self.axesorder(a, tuple(x % len(a.shape) for x in o)) if o is not None else self.transpose(a)

    def np_reshape(self, args, kw):
        return self.reshape(self.array(args[0], copy=False), args[1] if len(args) > 1 else kw.get('newshape', kw.get('shape')),
                            kw.get('order', 'C'))

    def np_ravel(self, args, kw):
        return self.arr_method(self.array(args[0], copy=False), 'ravel', [], kw)

    def np_squeeze(self, args, kw):
        return self.arr_method(self.array(args[0], copy=False), 'squeeze', [], kw)

    def np_size(self, args, kw):
        return self.array(args[0], copy=False).size()

    def np_shape(self, args, kw):
        return self.array(args[0], copy=False).shape

    def np_ndim(self, args, kw):
        return len(self.array(args[0], copy=False).shape)

    def reduce(self, args, kw, f):
        """a reduction of all elements, or along one axis"""
        a = self.array(args[0], copy=False)
        ax = args[1] if len(args) > 1 else kw.get('axis')
        if ax is None:
            return f(a.elems())
        if not isinstance(ax, int) or not -len(a.shape) <= ax < len(a.shape):
            raise self.ip.und('axis of a reduction')
        ax %= len(a.shape)
        m = self.axesorder(a, (ax,) + tuple(i for i in range(len(a.shape)) if i != ax))
        n = m.shape[0]
        rest = m.shape[1:]
        el = m.elems()
        k = len(el) // n if n else 0
        r = [f([el[i * k + j] for i in range(n)]) for j in range(k)]
        if kw.get('keepdims'):
            rest = tuple(1 if i == ax else x for i, x in enumerate(a.shape))
        return Arr(r, rest, a.dt) if rest else r[0]

    def axesorder(self, a, order):
        """the view with its axes in this order"""
        st = [1] * len(a.shape)
        for i in range(len(a.shape) - 2, -1, -1):
            st[i] = st[i + 1] * a.shape[i + 1]
        import itertools
        sh = tuple(a.shape[i] for i in order)
        return a.view([a.idx[sum(x * st[o] for x, o in zip(t, order))] for t in itertools.product(*map(range, sh))], sh)

    def np_sum(self, args, kw):
        def f(xs):
            acc = 0
            for x in xs:
                acc = self.ip.binop('+', acc, x)
            return acc
        return self.reduce(args, kw, f)

    def np_prod(self, args, kw):
        def f(xs):
            acc = 1
            for x in xs:
                acc = self.ip.binop('*', acc, x)
            return acc
        return self.reduce(args, kw, f)

    def np_max(self, args, kw):
        return self.reduce(args, kw, lambda xs: self.minmax([xs], {}, '>'))

    def np_min(self, args, kw):
        return self.reduce(args, kw, lambda xs: self.minmax([xs], {}, '<'))

    np_amax, np_amin = np_max, np_min

    def np_any(self, args, kw):
        return self.reduce(args, kw, lambda xs: self.b_any([xs], {}))

    def np_all(self, args, kw):
        return self.reduce(args, kw, lambda xs: self.b_all([xs], {}))

    def np_diff(self, args, kw):
        a = self.array(args[0], copy=False)
        if len(a.shape) != 1:
            raise self.ip.und('diff')
        el = a.elems()
        r = [self.ip.binop('-', y, x) for x, y in zip(el, el[1:])]
        return Arr(r, (len(r),), a.dt)

    def np_repeat(self, args, kw):
        return self.arr_method(self.array(args[0], copy=False), 'repeat', [args[1]], {})

    def np_tile(self, args, kw):
        a = self.array(args[0], copy=False)
        if isinstance(args[1], int) and len(a.shape) == 1:
            return Arr(a.elems() * args[1], None, a.dt)
        raise self.ip.und('tile')

    def np_flip(self, args, kw):
        return self.ip.getitem(self.array(args[0], copy=False), slice(None, None, -1))

    def np_array_equal(self, args, kw):
        a, b = self.array(args[0], copy=False), self.array(args[1], copy=False)
        if a.shape != b.shape:
            return False
        return all(self.ip.truth(self.ip.cmp('==', x, y)) for x, y in zip(a.elems(), b.elems()))

    def np_frombuffer(self, args, kw):
        ip = self.ip
        data = args[0]
        dt = self.dtname(args[1] if len(args) > 1 else kw.get('dtype')) or 'f8'
        cnt = args[2] if len(args) > 2 else kw.get('count', -1)
        off = args[3] if len(args) > 3 else kw.get('offset', 0)
        native = '<' if ip.byteorder == 'little' else '>'
        bo = dt[0] if dt[0] in '<>' else native
        c = {'f8': 'd', 'f4': 'f', 'i4': 'i', 'i8': 'q'}.get(dt.lstrip('<>'))
        if c is None:
            raise ip.und('frombuffer')
        n = slen(data) - off
        s = Bin.SIZE[c]
        if cnt < 0:
            if n % s:
                raise ip.err(ValueError, 'buffer size must be a multiple of element size')
            cnt = n // s
        if cnt * s > n:
            raise ip.err(ValueError, 'buffer is smaller than requested size')
        return Arr(self.unwords(sslice(data, off, off + cnt * s), bo, [c] * cnt), None, dt.lstrip('<>'))

    def np_fromstring(self, args, kw):
        if kw.get('sep'):
            return Arr([self.to_float(x) for x in self.str_method(args[0], 'split', [], {})], None, 'f8')
        raise self.ip.und('fromstring')

    def pick(self, args, f):
        a, b = args[:2]
        if isnum(a) and isnum(b):
            return f([a, b], {})
        A, B = self.array(a, copy=False), self.array(b, copy=False)
        sh = self.bshape(A.shape, B.shape)
        return Arr([f([x, y], {}) for x, y in zip(self.broadcast(A, sh), self.broadcast(B, sh))], sh, self.join_dt([A.dt, B.dt]))

    def np_maximum(self, args, kw):
        return self.pick(args, self.b_max)

    def np_minimum(self, args, kw):
        return self.pick(args, self.b_min)

    np_fmax, np_fmin = np_maximum, np_minimum

    def np_isin(self, args, kw):
        return self.emap(lambda x: self.ip.truth(self.ip.contains(x, args[1])), args[0], 'b1')


def ip_list(sh):
    return list(sh) if isinstance(sh, (tuple, list)) else [sh]
