"""Abstract interpreter: walks the syntax tree of the analysed package over the
abstract domain of `dom`.  The package is never imported or run.

Conditions that the domain does not determine split the analysis into
partitions (trace partitioning), see `partitions`.
"""
import ast
import builtins
import operator

from .dom import *
from . import dom
from .src import _resolve_rel


class PyExc(Exception):
    """An exception of the analysed program."""

    def __init__(self, etype, args=(), loc=None):
        Exception.__init__(self, etype, args)
        self.etype, self.eargs, self.loc = etype, tuple(args), loc
        self.attrs = {}
        self.origin = loc

    def name(self):
        return self.etype.__name__ if isinstance(self.etype, type) else self.etype.node.name

    def __str__(self):
        return '%s(%s) at %s' % (self.name(), ', '.join(repr(a) for a in self.eargs), fmtloc(self.loc))


def fmtloc(l):
    return '%s:%s' % l if isinstance(l, tuple) else str(l)


class Fn:
    factories = {}

    def __init__(self, node, mod, closure=None, qual=None):
        self.node, self.mod, self.closure = node, mod, closure
        self.qual = qual or getattr(node, 'name', '<lambda>')
        self.defaults, self.kwdefaults = [], {}
        self.locals = None
        self.cls = None
        self.isgen = False
        self.attrs = {}

    def __repr__(self):
        return 'Fn(%s)' % self.qual


class Bound:
    def __init__(self, selfv, fn):
        self.selfv, self.fn = selfv, fn


class Cls:
    def __init__(self, node, mod, bases):
        self.node, self.mod, self.bases = node, mod, bases
        self.attrs = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def host_exc(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, type) and issubclass(b, BaseException):
                    return b
        return None

    fields = members = None     # of a named tuple; of an enumeration

    def ext_base(self):
        """the classes outside the package this one extends"""
        return {b.name for c in self.mro() for b in c.bases if isinstance(b, Ext)}

    def __repr__(self):
        return 'Cls(%s)' % self.node.name


class Obj:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}

    def __repr__(self):
        return 'Obj(%s)' % self.cls.node.name


class HostObj:
    """an instance of a class of the package that extends a container or number of the language"""
    cls = None


class ADict(dict, HostObj):
    __hash__ = None


class AList(list, HostObj):
    __hash__ = None


class ATuple(tuple, HostObj):
    pass


class EInt(int, HostObj):
    name = None


class EStr(str, HostObj):
    name = None


# methods of a class that change what the interpreter does with its instances and are not modelled
ODD = {'__new__', '__getattribute__', '__setattr__', '__delattr__', '__del__', '__set_name__', '__get__', '__set__', '__delete__',
       '__class_getitem__', '__instancecheck__', '__subclasscheck__', '__await__', '__aiter__', '__array__', '__array_ufunc__',
       '__array_function__', '__buffer__', '__dir__', '__reduce__', '__getstate__', '__mro_entries__', '__prepare__', '__array_interface__'}
# ... of an instance that is a container of the language
ODD_HOST = {'__getitem__', '__setitem__', '__delitem__', '__iter__', '__len__', '__contains__', '__eq__', '__ne__', '__bool__', '__hash__',
            '__add__', '__mod__', '__mul__', '__str__', '__repr__', '__or__', '__ior__', '__iadd__', '__reversed__', '__lt__', '__format__',
            'get', 'items', 'keys', 'values', 'pop', 'update', 'setdefault', 'copy', 'append', 'extend', 'insert', 'sort', 'index',
            'count', 'remove', 'clear', 'popitem', 'reverse'}
PLAIN = {'builtins.object', 'abc.ABC', 'typing.Generic', 'typing.Protocol', 'typing.NamedTuple', 'builtins.dict', 'builtins.list',
         'enum.Enum', 'enum.IntEnum', 'enum.StrEnum', 'collections.OrderedDict', 'typing.TypedDict', 'builtins.str', 'builtins.int',
         'contextlib.AbstractContextManager', 'contextlib.ContextDecorator'}


class ModV:
    def __init__(self, m):
        self.m, self.env, self.state = m, {}, 0
        self.name = m.name


class Ext:
    """a name outside the package"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Meth:
    """a method of a value, not yet called"""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class AIter:
    def __init__(self, items):
        self.items, self.i = items, 0


class Prop:
    kept = None

    def __init__(self, fn, fset=None):
        self.fn, self.fset = fn, fset


class Static:
    def __init__(self, fn, cm=False):
        self.fn, self.cm = fn, cm


class AFile:
    def __init__(self, path, mode, fid, text):
        self.path, self.mode, self.id, self.text = path, mode, fid, text
        self.closed = False
        self.pending = []
        self.pos = 0
        self.enc = None


class ABuf:
    def __init__(self, f):
        self.f = f


BUILTIN_EXC = {n: v for n, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException)}
TYPES = {'int': int, 'float': float, 'str': str, 'bytes': bytes, 'bool': bool, 'complex': complex, 'list': list,
         'dict': dict, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'range': range, 'slice': slice,
         'object': object, 'type': type, 'bytearray': bytearray}
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
HOSTOP = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
          '%': operator.mod, '**': operator.pow, '&': operator.and_, '|': operator.or_, '^': operator.xor,
          '<<': operator.lshift, '>>': operator.rshift}
CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
        ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
HOSTCMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt,
           '>=': operator.ge}
FLIP = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
HOST = (int, float, complex, str, bytes, bool, type(None), range, slice, type(Ellipsis))
MISSING = object()


def concrete(v, d=0):
    """is the value fully known?"""
    if isinstance(v, HOST):
        return True
    if isinstance(v, (list, tuple, set, frozenset)) and d < 6:
        return all(concrete(x, d + 1) for x in v)
    if isinstance(v, dict) and d < 6:
        return all(concrete(x, d + 1) for x in v.values())
    return isinstance(v, type)


class Decider:
    """outcomes of the conditions the domain leaves open, for one partition"""

    def __init__(self, prefix=()):
        self.prefix, self.taken, self.memo = list(prefix), [], {}
        self.labels = []
        self.plain = False      # unknown bytes are taken for bytes without a meaning

    def ask(self, key, first=True, loc=None):
        if key in self.memo:
            return self.memo[key]
        if self.plain and "'byte'" in repr(key):
            self.memo[key] = False
            return False
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else first
        self.taken.append(v)
        self.labels.append((key, v, loc))
        if i >= len(self.prefix):
            self.prefix.append(v)
        self.memo[key] = v
        return v


def partitions(run, limit=48):
    """run(decider) for every combination of undetermined conditions.
    Yields (decider, result); the last item is (None, None) when the limit cut the enumeration."""
    stack = [()]
    n = 0
    while stack:
        pre = stack.pop()
        if n >= limit:
            yield None, None
            return
        d = Decider(pre)
        r = run(d)
        n += 1
        for i in range(len(d.taken) - 1, len(pre) - 1, -1):
            stack.append(tuple(d.taken[:i]) + (not d.taken[i],))
        yield d, r


class Interp:
    def __init__(self, pkg, decider=None, byteorder='little', budget=1500000, fault=None, expand=None, wide=0, zero=False):
        self.pkg = pkg
        self.dec = decider or Decider()
        self.bounds = {}
        self.intcmp = set()
        self.byteorder = byteorder
        self.budget = budget
        self.steps = 0
        self.mods = {}
        self.fs = {}            # path -> list of segments (bytes)
        self.trace = []         # observable events
        self.files = []
        self.fault = fault
        self.wide = wide
        self.zero = zero          # is division by zero looked for?
        self.nan_tag = None
        self.nonfin = None      # atom -> 'nan', 'inf' or None: which unknowns are not finite
        self.nio = 0
        self.cur = None
        self.stack = []
        self.visited = {}
        self.lines = set()
        self.prov = {}          # (id(dict), key) -> loc of the last store
        self.keep = []          # keeps provenance ids alive
        self.reads = []         # (id(dict), key)
        self.notes = []
        self.exc_handling = []
        self.depth = 0
        from . import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------- helpers
    def loc(self):
        return self.cur

    def err(self, etype, *args):
        return PyExc(etype, args, self.cur)

    def und(self, why):
        return Undecided('%s: %s' % (fmtloc(self.cur), why))

    def event(self, kind, *a):
        self.trace.append((kind, self.cur) + a)

    def top(self, why):
        w = '%s: %s' % (fmtloc(self.cur), why)
        if len(self.notes) < 200 and w not in self.notes:
            self.notes.append(w)
        return Top(w)

    def io_point(self, what):
        """every point at which the operating system may report an error"""
        i = self.nio
        self.nio += 1
        if self.fault is not None and self.fault(i, what, self):
            self.event('fault', what)
            raise self.err(OSError, 'injected')

    # ------------------------------------------------------------- modules
    def module(self, name):
        if name not in self.mods:
            m = self.pkg.modules.get(name)
            if m is None:
                return None
            if '.' in name:
                self.module(name.rsplit('.', 1)[0])
                if name in self.mods:
                    return self.mods[name]
            mv = self.mods[name] = ModV(m)
            mv.env['__name__'] = name
            mv.env['__file__'] = m.path
            save = self.cur
            self.depth += 1
            self.block(m.tree.body, Frame(None, mv, mv.env, None))
            self.depth -= 1
            mv.state = 1
            self.cur = save
            if '.' in name:
                par, last = name.rsplit('.', 1)
                if par in self.mods:
                    self.mods[par].env.setdefault(last, mv)
        return self.mods[name]

    def import_from(self, target, attr):
        mv = self.module(target)
        if mv is None:
            return self.lib.ext_attr(Ext(target), attr)
        if attr in mv.env:
            return mv.env[attr]
        sub = self.module(target + '.' + attr)
        if sub is not None:
            return sub
        raise self.err(ImportError, 'cannot import name ' + attr)

    # ---------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            r = self.stmt(s, fr)
            if r is not None:
                return r
        return None

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Diverges(fmtloc(self.cur))
        self.cur = (fr.mod.m.rel, s.lineno)
        self.lines.add(self.cur)
        m = STM.get(type(s))
        if m is None:
            raise self.und('statement ' + type(s).__name__)
        return m(self, s, fr)

    def s_Expr(self, s, fr):
        self.expr(s.value, fr)

    def s_Pass(self, s, fr):
        return None

    def s_Import(self, s, fr):
        for a in s.names:
            top = a.name.split('.')[0]
            if top == self.pkg.pkg:
                full = self.module(a.name)
                v = full if a.asname else self.module(top)
            else:
                v = Ext(a.name if a.asname else top)
            fr.set(a.asname or top, v)

    def s_ImportFrom(self, s, fr):
        target = _resolve_rel(fr.mod.m, s.level, s.module)
        for a in s.names:
            if a.name == '*':
                mv = self.module(target)
                if mv is None:
                    raise self.und('star import of ' + target)
                if '__all__' in mv.env:
                    names = list(mv.env['__all__'])
                else:
                    names = [n for n in mv.env if not n.startswith('_')]
                for n in names:
                    fr.set(n, mv.env[n])
            elif target == '__future__':
                continue
            else:
                fr.set(a.asname or a.name, self.import_from(target, a.name))

    def s_Global(self, s, fr):
        fr.globals.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def mkfn(self, node, fr, qual=None):
        f = Fn(node, fr.mod, fr if fr.fn is not None or fr.isclass else None, qual)
        a = node.args
        f.defaults = [self.expr(d, fr) for d in a.defaults]
        f.kwdefaults = {x.arg: self.expr(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.locals, f.isgen, f.globs, f.nonl = fnlocals(node)
        return f

    def s_FunctionDef(self, s, fr):
        f = self.mkfn(s, fr, (fr.qual + '.' if fr.qual else '') + s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.expr(d, fr)
            if isinstance(dv, Ext) and dv.name == 'builtins.staticmethod':
                v = Static(v)
            elif isinstance(dv, Ext) and dv.name == 'builtins.classmethod':
                v = Static(v, True)
            elif isinstance(dv, Ext) and dv.name == 'builtins.property':
                v = Prop(v)
            elif isinstance(dv, Ext) and dv.name == 'contextlib.contextmanager':
                v = Partial(dv, [v], {})
            elif isinstance(dv, Ext) and dv.name == 'functools.cached_property':
                v = Prop(v)
                v.kept = s.name
            elif isinstance(dv, Meth) and isinstance(dv.recv, Prop) and dv.name in ('setter', 'getter', 'deleter'):
                p = Prop(dv.recv.fn)
                p.fset = dv.recv.fset
                if dv.name == 'setter':
                    p.fset = v
                elif dv.name == 'getter':
                    p.fn = v
                v = p
            elif isinstance(dv, Top):
                pass
            else:
                v = self.call(dv, [v], {})
        fr.set(s.name, v)

    def s_ClassDef(self, s, fr):
        bases = [self.expr(b, fr) for b in s.bases]
        bases = [BUILTIN_EXC[b.name[9:]] if isinstance(b, Ext) and b.name.startswith('builtins.') and
                 b.name[9:] in BUILTIN_EXC else b for b in bases]
        kw = {k.arg: self.expr(k.value, fr) for k in s.keywords}
        if kw.pop('metaclass', None) not in (None, Ext('abc.ABCMeta'), Ext('enum.EnumMeta'), Ext('enum.EnumType'), Ext('builtins.type')):
            raise self.und('metaclass')
        for b in bases:
            if not (isinstance(b, Cls) or isinstance(b, type) or isinstance(b, Ext) and b.name in PLAIN):
                raise self.und('class that extends %r' % (b,))
        c = Cls(s, fr.mod, bases)
        cf = Frame(None, fr.mod, c.attrs, fr if fr.fn is not None else None)
        cf.isclass = True
        cf.qual = s.name
        self.block(s.body, cf)
        for v in c.attrs.values():
            if isinstance(v, Fn):
                v.cls = c
            elif isinstance(v, (Prop, Static)) and isinstance(v.fn, Fn):
                v.fn.cls = c
                if isinstance(v, Prop) and isinstance(v.fset, Fn):
                    v.fset.cls = c
            elif isinstance(v, Partial):
                for x in v.args:
                    if isinstance(x, Fn) and x.cls is None:
                        x.cls = c
        if any(isinstance(b, Ext) and b.name == 'typing.NamedTuple' for b in bases):
            c = self.lib.dataclass(c, True)
        ext = c.ext_base()
        odd = set(c.attrs) & (ODD | (ODD_HOST if ext & {'builtins.dict', 'builtins.list', 'collections.OrderedDict', 'builtins.str', 'builtins.int'} or
                                     c.fields is None and any(b.fields for b in c.mro() if b is not c) else set()))
        if odd:
            raise self.und('class with %s' % ', '.join(sorted(odd)))
        if ext & {'enum.Enum', 'enum.IntEnum', 'enum.StrEnum'}:
            self.enumeration(c, s, ext)
        for b in bases:
            f = b.find('__init_subclass__') if isinstance(b, Cls) else None
            if f is not None:
                self.call(f.fn if isinstance(f, Static) else f, [c], kw)
                kw = {}
                break
        if kw and not ext & {'typing.TypedDict', 'enum.Enum'}:
            raise self.err(TypeError, '__init_subclass__() takes no keyword arguments')
        for d in reversed(s.decorator_list):
            c = self.call(self.expr(d, fr), [c], {})
        fr.set(s.name, c)

    def enumeration(self, c, s, ext):
        """the members of an enumeration in place of the values in its body"""
        c.members = {}
        names = [t.id for st in s.body if isinstance(st, ast.Assign) for t in st.targets if isinstance(t, ast.Name)]
        host = EInt if 'enum.IntEnum' in ext or 'builtins.int' in ext else EStr if ext & {'enum.StrEnum', 'builtins.str'} else None
        init = c.find('__init__')
        last = 0
        for n in names:
            v = c.attrs[n]
            if n.startswith('_') or isinstance(v, (Fn, Prop, Static)):
                continue
            if isinstance(v, Ext) and v.name == 'enum.auto()':
                v = n.lower() if host is EStr else last + 1
            if isinstance(v, int):
                last = v
            same = [m for m in c.members.values() if self.enum_value(m) == v and type(self.enum_value(m)) is type(v)] if concrete(v) else []
            if same:
                m = same[0]
            elif host is not None:
                if init is not None or not isinstance(v, (int, str)):
                    raise self.und('enumeration with __init__')
                m = host(v)
                m.name, m.cls = n, c
            else:
                m = Obj(c)
                m.attrs.update(name=n, _name_=n, value=v, _value_=v)
                if init is not None:
                    self.call_fn(init, [m] + (list(v) if isinstance(v, tuple) else [v]), {})
            c.members[n] = c.attrs[n] = m

    def enum_value(self, m):
        return m.attrs['value'] if isinstance(m, Obj) else int(m) if isinstance(m, int) else str.__str__(m)

    def enum_of(self, c, v):
        for m in c.members.values():
            if m is v or self.truth(self.cmp('==', self.enum_value(m), v)):
                return m
        raise self.err(ValueError, 'not a valid %s' % c.node.name)

    def s_Return(self, s, fr):
        return ('ret', self.expr(s.value, fr) if s.value is not None else None)

    def s_Assign(self, s, fr):
        v = self.expr(s.value, fr)
        for t in s.targets:
            self.store(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.store(s.target, self.expr(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            put = lambda v: fr.set(t.id, v)
        elif isinstance(t, ast.Subscript):
            base, idx = self.expr(t.value, fr), self.index(t.slice, fr)
            cur = self.getitem(base, idx)
            put = lambda v: self.setitem(base, idx, v)
        else:
            base = self.expr(t.value, fr)
            cur = self.getattr(base, t.attr)
            put = lambda v: self.setattr(base, t.attr, v)
        v = self.expr(s.value, fr)
        if isinstance(cur, Obj):
            f = cur.cls.find('__i%s__' % {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '|': 'or', '&': 'and',
                                          '<<': 'lshift', '>>': 'rshift', '@': 'matmul', '^': 'xor'}[op])
            if f is not None:
                put(self.call(Bound(cur, f), [v], {}))
                return
        if isinstance(cur, list) and op == '+':
            cur.extend(self.iterate(v))
            put(cur)
            return
        if isinstance(cur, list) and op == '*' and isinstance(v, int):
            cur *= v
            put(cur)
            return
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v)
            if isinstance(r, Arr) and r.shape == cur.shape:
                self.lib.arr_assign(cur, r)
                put(cur)
                return
        put(self.binop(op, cur, v))

    def s_Delete(self, s, fr):
        def dele(t):
            if isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    dele(x)
            elif isinstance(t, ast.Name):
                self.name(t.id, fr)
                fr.delete(t.id)
            elif isinstance(t, ast.Subscript):
                base, idx = self.expr(t.value, fr), self.index(t.slice, fr)
                self.delitem(base, idx)
            else:
                base = self.expr(t.value, fr)
                if isinstance(base, Obj):
                    base.attrs.pop(t.attr, None)
        for t in s.targets:
            dele(t)

    def s_If(self, s, fr):
        if self.truth(self.expr(s.test, fr)):
            return self.block(s.body, fr)
        return self.block(s.orelse, fr)

    def s_For(self, s, fr):
        brk = False
        for v in self.iterate(self.expr(s.iter, fr), lazy=True):
            self.store(s.target, v, fr)
            r = self.block(s.body, fr)
            if r is not None:
                if r[0] == 'brk':
                    brk = True
                    break
                if r[0] == 'ret':
                    return r
        if not brk:
            return self.block(s.orelse, fr)

    def s_While(self, s, fr):
        brk = False
        while self.truth(self.expr(s.test, fr)):
            self.steps += 1
            if self.steps > self.budget:
                raise Diverges(fmtloc(self.cur))
            r = self.block(s.body, fr)
            if r is not None:
                if r[0] == 'brk':
                    brk = True
                    break
                if r[0] == 'ret':
                    return r
            self.cur = (fr.mod.m.rel, s.lineno)
        if not brk:
            return self.block(s.orelse, fr)

    def s_Match(self, s, fr):
        v = self.expr(s.subject, fr)
        for c in s.cases:
            if self.pattern(c.pattern, v, fr) and (c.guard is None or self.truth(self.expr(c.guard, fr))):
                return self.block(c.body, fr)
        return None

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.cmp('==', v, self.expr(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.cmp('is', v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, fr):
                return False
            if p.name:
                fr.set(p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, fr) for q in p.patterns)
        if isinstance(v, Top):
            raise self.und('match of an unknown value')
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            k = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if not k:
                return len(v) == n and all(self.pattern(q, x, fr) for q, x in zip(p.patterns, v))
            k, r = k[0], n - 1 - k[0]
            if len(v) < n - 1:
                return False
            if p.patterns[k].name:
                fr.set(p.patterns[k].name, list(v[k:len(v) - r]))
            return all(self.pattern(q, x, fr) for q, x in zip(p.patterns[:k], v[:k])) and \
                all(self.pattern(q, x, fr) for q, x in zip(p.patterns[k + 1:], v[len(v) - r:]))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                return False
            used = []
            for k, q in zip(p.keys, p.patterns):
                k = self.expr(k, fr)
                used.append(k)
                if not self.truth(self.contains(k, v)) or not self.pattern(q, self.getitem(v, k), fr):
                    return False
            if p.rest:
                fr.set(p.rest, {k: x for k, x in v.items() if k not in used})
            return True
        if isinstance(p, ast.MatchClass):
            c = self.expr(p.cls, fr)
            if not self.lib.isinstance(v, c):
                return False
            if p.patterns:
                if len(p.patterns) != 1 or not (isinstance(c, Ext) and c.name.startswith('builtins.')):
                    raise self.und('class pattern')
                if not self.pattern(p.patterns[0], v, fr):
                    return False
            return all(self.pattern(q, self.getattr(v, a), fr) for a, q in zip(p.kwd_attrs, p.kwd_patterns))
        raise self.und('pattern')

    def s_Break(self, s, fr):
        return ('brk',)

    def s_Continue(self, s, fr):
        return ('cont',)

    def s_Assert(self, s, fr):
        if not self.truth(self.expr(s.test, fr)):
            raise self.err(AssertionError, *([self.expr(s.msg, fr)] if s.msg else []))

    def s_Raise(self, s, fr):
        if s.exc is None:
            if self.exc_handling:
                e = self.exc_handling[-1]
                raise e
            raise self.err(RuntimeError, 'No active exception to reraise')
        v = self.expr(s.exc, fr)
        if s.cause is not None:
            self.expr(s.cause, fr)
        if isinstance(v, Ext) or isinstance(v, Cls):
            v = self.call(v, [], {})
        if isinstance(v, PyExc):
            v.loc = self.cur
            if v.origin is None:
                v.origin = self.cur
            raise v
        if isinstance(v, Obj) and v.cls.host_exc():
            e = self.err(v.cls, *v.attrs.get('args', ()))
            e.attrs = v.attrs
            raise e
        if isinstance(v, Top):
            raise self.und('raise of an unknown value')
        raise self.err(TypeError, 'exceptions must derive from BaseException')

    def exc_match(self, e, h, fr):
        if h.type is None:
            return True
        t = self.expr(h.type, fr)
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, Ext):
                n = x.name[9:] if x.name.startswith('builtins.') else None
                if x.name in ('os.error', 'io.UnsupportedOperation'):
                    n = 'OSError'
                if n in BUILTIN_EXC:
                    et = e.etype if isinstance(e.etype, type) else e.etype.host_exc()
                    if et is not None and issubclass(et, BUILTIN_EXC[n]):
                        return True
                elif x.name == 'struct.error' and e.etype is StructError:
                    return True
                continue
            if isinstance(x, Cls):
                if isinstance(e.etype, Cls) and x in e.etype.mro():
                    return True
                continue
            if isinstance(x, Top):
                raise self.und('unknown exception class')
        return False

    def s_Try(self, s, fr):
        res = None
        pend = None
        try:
            try:
                res = self.block(s.body, fr)
                ok = True
            except PyExc as e:
                ok = False
                save = self.cur
                for h in s.handlers:
                    self.cur = (fr.mod.m.rel, h.lineno)
                    if self.exc_match(e, h, fr):
                        if h.name:
                            fr.set(h.name, e)
                        self.event('caught', e.name(), e)
                        self.exc_handling.append(e)
                        try:
                            res = self.block(h.body, fr)
                        finally:
                            self.exc_handling.pop()
                        if h.name:
                            fr.delete(h.name, quiet=True)
                        break
                else:
                    self.cur = save
                    raise
            if ok and res is None and s.orelse:
                res = self.block(s.orelse, fr)
        except PyExc as e:
            pend = e
        if s.finalbody:
            if pend is not None:
                self.exc_handling.append(pend)
            try:
                r2 = self.block(s.finalbody, fr)
            finally:
                if pend is not None:
                    self.exc_handling.pop()
            if r2 is not None:
                return r2
        if pend is not None:
            raise pend
        return res

    def s_With(self, s, fr):
        return self.with_(s.items, s.body, fr)

    def with_(self, items, body, fr):
        if not items:
            return self.block(body, fr)
        it = items[0]
        cm = self.expr(it.context_expr, fr)
        if isinstance(cm, Partial) and isinstance(cm.f, Ext) and cm.f.name == 'contextmanager-run':
            return self.with_gen(cm, it, items, body, fr)
        if isinstance(cm, (AFile, ABuf)):
            v = cm
        elif isinstance(cm, Obj):
            v = self.call(self.getattr(cm, '__enter__'), [], {})
        elif isinstance(cm, Partial) and isinstance(cm.f, Ext) and cm.f.name in ('contextlib.suppress', 'contextlib.closing'):
            v = cm.args[0] if cm.f.name.endswith('closing') else None
        elif isinstance(cm, Partial) and isinstance(cm.f, Ext) and cm.f.name in ('warnings.catch_warnings', 'numpy.errstate'):
            v = None
        else:
            raise self.und('context manager')
        if it.optional_vars is not None:
            self.store(it.optional_vars, v, fr)
        held = isinstance(cm, Partial) and isinstance(cm.f, Ext) and cm.f.name == 'warnings.catch_warnings'
        quiet = isinstance(cm, Partial) and isinstance(cm.f, Ext) and cm.f.name == 'numpy.errstate'
        try:
            if quiet:
                self.lib.err_ctx.append(any(x in ('ignore', 'print', 'log', 'call') for x in cm.kw.values()))
            if held:
                self.lib.warn_ctx.append(bool(cm.kw.get('record')) or 'ignore' in [cm.kw.get('action')])
            try:
                r = self.with_(items[1:], body, fr)
            finally:
                if held:
                    self.lib.warn_ctx.pop()
                if quiet:
                    self.lib.err_ctx.pop()
        except PyExc as e:
            if isinstance(cm, Obj):
                self.exc_handling.append(e)
                try:
                    sup = self.call(self.getattr(cm, '__exit__'), [e.etype, e, None], {})
                finally:
                    self.exc_handling.pop()
                if self.truth(sup):
                    return None
            elif isinstance(cm, Partial) and cm.f.name == 'contextlib.suppress':
                for t in cm.args:
                    if isinstance(t, Ext) and issubclass(e.etype if isinstance(e.etype, type) else e.etype.host_exc(),
                                                         BUILTIN_EXC.get(t.name[9:], ())):
                        self.event('caught', e.name(), e)
                        return None
            else:
                self.with_close(cm, v)
            raise
        if isinstance(cm, Obj):
            self.call(self.getattr(cm, '__exit__'), [None, None, None], {})
        else:
            self.with_close(cm, v)
        return r

    def with_close(self, cm, v):
        if isinstance(cm, AFile):
            self.lib.file_method(cm, 'close', [], {})
        elif isinstance(cm, Partial) and cm.f.name == 'contextlib.closing':
            self.call(self.getattr(v, 'close'), [], {})

    def with_gen(self, cm, it, items, body, fr):
        """with g(): body, where g is a generator based context manager: the body runs at the yield"""
        fn, args, kw = cm.args[0], cm.args[1], cm.kw
        out = {}

        def at_yield(v):
            if 'done' in out:
                raise self.err(RuntimeError, "generator didn't stop")
            out['done'] = True
            if it.optional_vars is not None:
                self.store(it.optional_vars, v, fr)
            out['res'] = self.with_(items[1:], body, fr)
            return None
        self.call_fn(fn, args, kw, on_yield=at_yield)
        if 'done' not in out:
            raise self.err(RuntimeError, "generator didn't yield")
        return out['res']

    # -------------------------------------------------------------- stores
    def store(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                n = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise self.err(ValueError, 'not enough values to unpack')
                parts = vals[:i] + [vals[i:len(vals) - n]] + (vals[len(vals) - n:] if n else [])
                for e, x in zip(t.elts, parts):
                    self.store(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(vals) != len(t.elts):
                raise self.err(ValueError, 'unpack: %d values for %d targets' % (len(vals), len(t.elts)))
            for e, x in zip(t.elts, vals):
                self.store(e, x, fr)
        elif isinstance(t, ast.Subscript):
            base = self.expr(t.value, fr)
            idx = self.index(t.slice, fr)
            self.setitem(base, idx, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Starred):
            self.store(t.value, list(self.iterate(v)), fr)
        else:
            raise self.und('store')

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            p = o.cls.find(name)
            if isinstance(p, Prop) and not p.kept:
                if p.fset is None:
                    raise self.err(AttributeError, "property '%s' has no setter" % name)
                self.call(p.fset, [o, v], {})
                return
            o.attrs[name] = v
            self.event('setattr', name, v)
        elif isinstance(o, Cls):
            o.attrs[name] = v
            self.event('clsattr', name)
        elif isinstance(o, ModV):
            o.env[name] = v
            self.event('modattr', name)
        elif isinstance(o, PyExc):
            o.attrs[name] = v
        elif isinstance(o, Arr) and name == 'shape':
            o.shape = tuple(v) if isinstance(v, (list, tuple)) else (v,)
        elif isinstance(o, Arr) and name in ('real', 'imag'):
            cplx = o.dt.lstrip('<>')[0] == 'c'
            if name == 'imag' and not cplx:
                raise self.err(TypeError, 'array does not have imaginary part to set')
            self.lib.arr_setitem(self.lib.value_attr(o, name) if cplx else o, Ellipsis, v)
        elif isinstance(o, Fn):
            self.event('fnattr', name)
            o.attrs[name] = v
        else:
            raise self.und('attribute store on %s' % type(o).__name__)

    def hashkey(self, k):
        if isinstance(k, Sym):
            if k.kind == 'int' or k.kind == 'str':
                return k
        if isinstance(k, Arr):
            raise self.err(TypeError, "unhashable type: 'numpy.ndarray'")
        if isinstance(k, (list, dict, set)):
            raise self.err(TypeError, 'unhashable type')
        if isinstance(k, Top):
            raise self.und('unknown key')
        return k

    def dictstore(self, d, k, v):
        k = self.hashkey(k)
        if isinstance(k, Sym) and k not in d:
            for o in d:
                if o != k and type(o) is not str or (k.kind == 'str' and type(o) is str):
                    if k.kind == 'int' and isinstance(o, str):
                        continue
                    if self.truth(self.cmp('==', k, o)):
                        k = o
                        break
        d[k] = v
        self.prov[(id(d), k)] = self.cur

    def setitem(self, base, idx, v):
        if isinstance(base, dict):
            self.dictstore(base, idx, v)
        elif isinstance(base, list):
            i = self.lib.hostidx(idx)
            if isinstance(i, slice):
                v = list(self.iterate(v))
            try:
                base[i] = v
            except Exception as e:
                raise self.err(type(e), *e.args)
        elif isinstance(base, Arr):
            self.lib.arr_setitem(base, idx, v)
        elif isinstance(base, Obj):
            self.call(self.getattr(base, '__setitem__'), [idx, v], {})
        elif isinstance(base, Top):
            raise self.und('store into an unknown value')
        elif isinstance(base, bytearray):
            raise self.und('bytearray')
        else:
            raise self.err(TypeError, 'object does not support item assignment')

    def delitem(self, base, idx):
        if isinstance(base, dict):
            k = self.hashkey(idx)
            if k not in base:
                raise self.err(KeyError, k)
            del base[k]
        elif isinstance(base, list):
            try:
                del base[self.lib.hostidx(idx)]
            except Exception as e:
                raise self.err(type(e), *e.args)
        else:
            raise self.und('del of an item')

    # --------------------------------------------------------- expressions
    def expr(self, e, fr):
        self.steps += 1
        m = EXP.get(type(e))
        if m is None:
            raise self.und('expression ' + type(e).__name__)
        return m(self, e, fr)

    def at(self, e, fr):
        ln = getattr(e, 'lineno', None)
        if ln is not None:
            self.cur = (fr.mod.m.rel, ln)

    def e_Constant(self, e, fr):
        return e.value

    def name(self, n, fr):
        v = fr.get(n)
        if v is not MISSING:
            return v
        if n in BUILTIN_EXC or hasattr(builtins, n):
            return Ext('builtins.' + n)
        raise self.err(NameError, "name '%s' is not defined" % n)

    def e_Name(self, e, fr):
        if fr.fn is not None and e.id in fr.locals_ and e.id not in fr.env and e.id not in fr.globals and \
                e.id not in fr.nonlocals:
            raise self.err(UnboundLocalError, "cannot access local variable '%s'" % e.id)
        return self.name(e.id, fr)

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.expr(x.value, fr)))
            else:
                out.append(self.expr(x, fr))
        return out

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.elts(e.elts, fr)

    def e_Set(self, e, fr):
        return set(self.hashkey(x) for x in self.elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = {}
        self.keep.append(d)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.expr(v, fr)
                if not isinstance(src, dict):
                    raise self.und('** of an unknown mapping')
                for kk, vv in src.items():
                    self.dictstore(d, kk, vv)
                continue
            kv = self.expr(k, fr)
            self.at(k, fr)
            vv = self.expr(v, fr)
            self.dictstore(d, kv, vv)
        return d

    def e_BinOp(self, e, fr):
        a = self.expr(e.left, fr)
        b = self.expr(e.right, fr)
        self.at(e, fr)
        return self.binop(OPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return self.top('operand of %s' % op)
        if isinstance(a, HOST) and isinstance(b, HOST):
            try:
                r = HOSTOP[op](a, b)
            except Exception as ex:
                raise self.err(type(ex), *ex.args)
            return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op == '%' and isinstance(a, str):
                return self.lib.percent(a, b)
            if op == '@':
                return self.lib.np_dot([a, b], {})
            return self.lib.arr_binop(op, a, b)
        if op == '%' and is_s(a):
            return self.lib.percent(a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            m = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '|': 'or', '&': 'and',
                 '<<': 'lshift', '>>': 'rshift', '@': 'matmul', '^': 'xor'}[op]
            f = a.cls.find('__%s__' % m) if isinstance(a, Obj) else None
            if f:
                return self.call(Bound(a, f), [b], {})
            f = b.cls.find('__r%s__' % m) if isinstance(b, Obj) else None
            if f:
                return self.call(Bound(b, f), [a], {})
        if op == '+':
            if is_s(a) and is_s(b):
                if is_b(a) != is_b(b):
                    raise self.err(TypeError, "can't concat str to bytes")
                return mks(segs_of(a) + segs_of(b), is_b(a))
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if op == '*':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, (int,)) and (isinstance(x, (list, tuple)) or isinstance(x, AStr)):
                    if isinstance(x, AStr):
                        return mks(segs_of(x) * y, is_b(x))
                    return x * y
                if isinstance(x, (str, bytes, list, tuple, AStr)) and isinstance(y, Sym) and y.kind == 'int':
                    return self.top('repetition by an unknown number')
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and op in '|&-^':
            return HOSTOP[op](a, b)
        if isinstance(a, dict) and isinstance(b, dict) and op == '|':
            d = dict(a)
            d.update(b)
            return d
        if isnum(a) and isnum(b):
            if self.zero and op in ('/', '//', '%'):
                self.lib.zero_div(b)
            return arith(op, a, b)
        if any(isinstance(x, Sym) and x.kind == 'any' for x in (a, b)):
            return self.top('operand of unknown kind')
        raise self.err(TypeError, 'unsupported operand type(s) for %s: %s and %s' % (op, self.lib.typename(a),
                                                                                     self.lib.typename(b)))

    def e_UnaryOp(self, e, fr):
        v = self.expr(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, HOST):
            try:
                return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
            except Exception as ex:
                raise self.err(type(ex), *ex.args)
        if isinstance(v, Top):
            return v
        if isinstance(v, Obj):
            f = v.cls.find({ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(e.op)])
            if f is None:
                raise self.err(TypeError, 'bad operand type for unary operator')
            return self.call(Bound(v, f), [], {})
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.USub):
            return self.binop('*', v, -1)
        if isinstance(v, Arr):
            return Arr([(not x) if isinstance(x, bool) else self.top('~') for x in v.elems()], v.shape, v.dt)
        return self.top('~')

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.expr(x, fr)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_Compare(self, e, fr):
        left = self.expr(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.expr(r, fr)
            res = self.cmp(CMPS[type(op)], left, right)
            if i < len(e.ops) - 1 and not self.truth(res):
                return False
            left = right
        return res

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            if isinstance(a, Sym) and a.kind in ('any', 'bool') or isinstance(b, Sym) and b.kind in ('any', 'bool'):
                s, c = (a, b) if isinstance(a, Sym) else (b, a)
                if s.kind == 'bool' and not isinstance(c, bool):
                    return False
                return Sym('bool', ('is', s.term, c))
            if isinstance(a, Top) or isinstance(b, Top):
                raise self.und('identity of an unknown value')
            return False
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, type) and isinstance(y, Ext):
                return y.name == 'builtins.' + x.__name__
        ta, tb = self.lib.hosttype(a), self.lib.hosttype(b)
        if ta is not None and ta is tb:
            return True
        if isinstance(a, (int, str, float)) and isinstance(b, (int, str, float)):
            return type(a) is type(b) and a == b
        if isinstance(a, Sym) and isinstance(b, Sym):
            return a is b or a == b
        return False

    def finclass(self, v):
        """None for a finite number, else 'nan', 'inf' or '-inf'"""
        if isinstance(v, bool) or isinstance(v, int):
            return None
        if isinstance(v, float):
            return 'nan' if v != v else None if v - v == 0 else 'inf' if v > 0 else '-inf'
        if isinstance(v, complex):
            cs = [self.finclass(v.real), self.finclass(v.imag)]
            return 'nan' if 'nan' in cs else cs[0] or cs[1]
        if self.nonfin is None or not isinstance(v, Sym) or v.kind in ('bool', 'str', 'bytes'):
            return None
        if v.kind == 'complex':
            cs = [self.termclass(t) for t in pair(v)]
            return 'nan' if 'nan' in cs else cs[0] or cs[1]
        return self.termclass(v.term)

    def termclass(self, t):
        if isinstance(t, (int, float)):
            return self.finclass(t)
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] == 'a':
            return self.nonfin(t)
        if t[0] in ('re', 'im', 'f4'):
            return self.termclass(t[1])
        if t[0] == 'lin':
            cs = [(self.termclass(x), k) for x, k in t[2]]
            cs = [('nan' if c == 'nan' else '-inf' if (c == 'inf') == (k < 0) else 'inf') for c, k in cs if c]
            if not cs:
                return None
            if 'nan' in cs or 'inf' in cs and '-inf' in cs:
                return 'nan'
            return cs[0]
        if t[0] == 'abs':
            c = self.termclass(t[1])
            return 'inf' if c == '-inf' else c
        cs = [self.termclass(x) for x in t[1:] if isinstance(x, (tuple, int, float))]
        if not any(cs):
            return None
        if 'nan' in cs:
            return 'nan'
        raise self.und('result of a number that is not finite')

    def cmp(self, op, a, b):
        if op == 'is':
            return self.is_(a, b)
        if op == 'is not':
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else self.neg(r)
        if op in ('in', 'not in'):
            r = self.contains(a, b)
            if op == 'in':
                return r
            return (not r) if isinstance(r, bool) else self.neg(r)
        if isinstance(a, Top) or isinstance(b, Top):
            return self.top('comparison')
        if isinstance(a, HOST) and isinstance(b, HOST):
            try:
                return HOSTCMP[op](a, b)
            except Exception as ex:
                raise self.err(type(ex), *ex.args)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if (a is None or b is None):
                other = b if a is None else a
                return Arr([op == '!='] * other.size(), other.shape, 'b1')
            return self.lib.arr_cmp(op, a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            m = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
            r = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
            for x, y, o in ((a, b, op), (b, a, r)):
                f = x.cls.find(m[o]) if isinstance(x, Obj) else None
                if f:
                    return self.call(Bound(x, f), [y], {})
                f = x.cls.find('__eq__') if isinstance(x, Obj) and o == '!=' else None
                if f:
                    return self.neg(self.call(Bound(x, f), [y], {}))
        if op not in ('==', '!=') and concrete(a) and concrete(b):
            try:
                return HOSTCMP[op](a, b)
            except Exception as ex:
                raise self.err(type(ex), *ex.args)
        if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
            if op in ('==', '!='):
                if len(a) != len(b):
                    return op == '!='
                for x, y in zip(a, b):
                    if not self.truth(self.cmp('==', x, y)):
                        return op == '!='
                return op == '=='
        if isinstance(a, dict) and isinstance(b, dict) and op in ('==', '!='):
            if set(a) != set(b):
                return op == '!='
            for k in a:
                if not self.truth(self.cmp('==', a[k], b[k])):
                    return op == '!='
            return op == '=='
        if isnum(a) and isnum(b) and not (iscomplex(a) or iscomplex(b)):
            # a number that is not finite compares like itself, whatever finite number it is compared with
            ca, cb = self.finclass(a), self.finclass(b)
            if ca or cb:
                v = {None: 0.0, 'nan': float('nan'), 'inf': float('inf'), '-inf': float('-inf')}
                return HOSTCMP[op](v[ca], v[cb])
            diff = from_lin(*(lambda l: (l[0], l[1]))(to_lin(lin_add(tv(a), tv(b), -1))))
            if isinstance(diff, (int, float)):
                return HOSTCMP[op](diff, 0)
            nzs = [x for x in (a, b) if isinstance(x, Sym) and x.nz]
            if nzs and 0 in [x for x in (a, b) if not isinstance(x, Sym)]:
                if op in ('==', '!='):
                    return op == '!='
            # canonical: diff OP 0 with positive leading coefficient
            l = to_lin(diff)
            first = sorted(l[1].items(), key=repr)[0]
            if first[1] < 0:
                diff = lin_scale(diff, -1)
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if all(isinstance(x, int) or isinstance(x, Sym) and x.integral for x in (a, b)):
                self.intcmp.update(('cmp', o, diff) for o in ('==', '<', '<='))
            if op in ('!=', '>=', '>'):
                s = self.neg(Sym('bool', ('cmp', {'!=': '==', '>=': '<', '>': '<='}[op], diff)))
                return s
            return Sym('bool', ('cmp', op, diff))
        if isnum(a) and isnum(b):
            if op in ('==', '!='):
                if self.finclass(a) == 'nan' or self.finclass(b) == 'nan':
                    return op == '!='
                if pair(a) == pair(b):
                    return op == '=='
                r = Sym('bool', ('ceq', repr(pair(a)), repr(pair(b))))
                return r if op == '==' else self.neg(r)
            raise self.err(TypeError, 'complex numbers are not ordered')
        if is_s(a) and is_s(b):
            if is_b(a) != is_b(b):
                if op in ('==', '!='):
                    return op == '!='
                raise self.err(TypeError, 'str and bytes are not ordered')
            if op in ('==', '!='):
                r = self.lib.str_eq(a, b)
                if isinstance(r, bool):
                    return r == (op == '==')
                return r if op == '==' else self.neg(r)
            return Sym('bool', ('scmp', op, repr(a), repr(b)))
        if op in ('==', '!='):
            ha, hb = self.lib.hosttype(a), self.lib.hosttype(b)
            if ha is not None and hb is not None:
                return (ha is hb) == (op == '==')
            if isinstance(a, Sym) and a.kind == 'any' or isinstance(b, Sym) and b.kind == 'any':
                r = Sym('bool', ('eq', repr(a), repr(b)))
                return r if op == '==' else self.neg(r)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ext) and x.name.startswith('dtype:'):
                    if y is None or not isinstance(y, (Ext, str)):
                        return op == '!='
                    return (x.name[6:] == self.lib.dtname(y)) == (op == '==')
            if isinstance(a, Ext) and isinstance(b, Ext):
                return (a == b) == (op == '==')
            if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
                return (a == b) == (op == '==')
            return (a is b) == (op == '==')
        raise self.err(TypeError, "'%s' not supported between %s and %s" % (op, self.lib.typename(a),
                                                                           self.lib.typename(b)))

    def neg(self, s):
        if isinstance(s, bool):
            return not s
        if isinstance(s, Sym) and s.kind == 'bool':
            if s.term[0] == 'not':
                return s.with_(term=s.term[1])
            return s.with_(term=('not', s.term))
        return not self.truth(s)

    def contains(self, a, b):
        if isinstance(b, dict):
            k = self.hashkey(a)
            self.reads.append((id(b), k))
            if k in b:
                return True
            if isinstance(k, Sym):
                for o in b:
                    if type(o) is not str and self.truth(self.cmp('==', k, o)):
                        return True
            return False
        if isinstance(b, (list, tuple, set, frozenset)) or isinstance(b, type({}.keys())):
            for x in b:
                if x is a or self.truth(self.cmp('==', a, x)):
                    return True
            return False
        if is_s(b) and is_s(a):
            return self.lib.str_in(a, b)
        if is_b(b) and isinstance(a, int) and isinstance(b, bytes):
            return a in b
        if isinstance(b, range):
            if isinstance(a, (int, float)):
                return a in b
            for x in b:
                if self.truth(self.cmp('==', a, x)):
                    return True
            return False
        if isinstance(b, Arr):
            if isinstance(a, (list, tuple, Arr)):
                for x in self.lib.arr_cmp('==', b, a).elems():
                    if self.truth(x):
                        return True
                return False
            for x in b.elems():
                if self.truth(self.cmp('==', a, x)):
                    return True
            return False
        if isinstance(b, Obj):
            f = b.cls.find('__contains__')
            if f:
                return self.truth(self.call(Bound(b, f), [a], {}))
            if b.cls.find('__iter__') or b.cls.find('__getitem__'):
                return self.contains(a, self.iterate(b))
        if isinstance(b, Cls) and b.members is not None:
            return self.contains(a, list(b.members.values()) + ([] if isinstance(a, Obj) else [self.enum_value(m) for m in b.members.values()]))
        if isinstance(b, Top):
            return self.top('membership')
        raise self.err(TypeError, 'argument of type %s is not iterable' % self.lib.typename(b))

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, HOST) or isinstance(v, (list, tuple, dict, set, frozenset)):
            return bool(v)
        if isinstance(v, Sym):
            if v.kind == 'bool':
                t, inv = v.term, False
                while t[0] == 'not':
                    t, inv = t[1], not inv
                r = self.decide(t)
                return (not r) if inv else r
            if v.nz:
                return True
            if v.kind in ('int', 'float'):
                c = self.cmp('==', v, 0)
                return not self.truth(c)
            return self.decide(('true', v.term))
        if isinstance(v, AStr):
            if any(isinstance(s, str) or (isinstance(s, Fld) and s.width) or isinstance(s, Bin) for s in v.segs):
                return True
            return self.decide(('true', repr(v)))
        if isinstance(v, Arr):
            if v.size() == 1:
                return self.truth(v.elems()[0])
            if v.size() == 0:
                # since numpy 2.2
                raise self.err(ValueError, 'The truth value of an empty array is ambiguous')
            raise self.err(ValueError, 'The truth value of an array with more than one element is ambiguous')
        if isinstance(v, Top):
            raise self.und('condition: %s' % v.why)
        if isinstance(v, Obj):
            for nm in ('__bool__', '__len__'):
                f = v.cls.find(nm)
                if f:
                    return self.truth(self.call(Bound(v, f), [], {}))
        return True

    def decide(self, t):
        """an open condition: known from the bounds this partition already has, or a new partition"""
        c = self.bound_of(t)
        if c is None:
            return self.dec.ask(t, loc=self.cur)
        base, op, k, integ = c
        b = self.bounds.setdefault(base, [None, None, set()])   # lo, hi: (value, strict); excluded values
        known = self.entailed(b, op, k, integ)
        if known is not None:
            return known
        r = self.dec.ask(t, loc=self.cur)
        if not r:
            op = FLIP[op]
        if op == '==':
            b[0] = b[1] = (k, False)
        elif op == '!=':
            b[2].add(k)
        elif op in ('<', '<='):
            n = (k, op == '<')
            if b[1] is None or (n[0], not n[1]) < (b[1][0], not b[1][1]):
                b[1] = n
        else:
            n = (k, op == '>')
            if b[0] is None or (n[0], n[1]) > (b[0][0], b[0][1]):
                b[0] = n
        if integ:
            self.tighten(b)
        return r

    def bound_of(self, t):
        if not (isinstance(t, tuple) and len(t) == 3 and t[0] == 'cmp'):
            return None
        c, d = to_lin(t[2])
        if not d:
            return None
        items = sorted(d.items(), key=repr)
        k0 = items[0][1]
        if isinstance(k0, complex) or isinstance(c, complex) or k0 <= 0:
            return None
        base = tuple((x, k / k0) for x, k in items)
        integ = len(items) == 1 and t in self.intcmp
        return base, t[1], -c / k0, integ

    @staticmethod
    def tighten(b):
        import math
        if b[0] is not None and b[0][0] not in (float('inf'), float('-inf')):
            v = math.floor(b[0][0]) + 1 if b[0][1] else math.ceil(b[0][0])
            while v in b[2]:
                v += 1
            b[0] = (v, False)
        if b[1] is not None and b[1][0] not in (float('inf'), float('-inf')):
            v = math.ceil(b[1][0]) - 1 if b[1][1] else math.floor(b[1][0])
            while v in b[2]:
                v -= 1
            b[1] = (v, False)

    @staticmethod
    def entailed(b, op, k, integ):
        lo, hi, ne = b
        if op in ('==', '!='):
            if k in ne or (lo and (k < lo[0] or (k == lo[0] and lo[1]))) or (hi and (k > hi[0] or (k == hi[0] and hi[1]))) \
                    or (integ and k != int(k)):
                return op == '!='
            if lo and hi and lo[0] == hi[0] == k:
                return op == '=='
            return None
        if op in ('<', '>='):
            if hi and (hi[0] < k or (hi[0] == k and hi[1])):
                return op == '<'
            if lo and lo[0] >= k:
                return op == '>='
            return None
        if hi and hi[0] <= k:
            return op == '<='
        if lo and (lo[0] > k or (lo[0] == k and lo[1])):
            return op == '>'
        return None

    def e_IfExp(self, e, fr):
        return self.expr(e.body if self.truth(self.expr(e.test, fr)) else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.expr(e.value, fr)
        fr.set(e.target.id, v)
        return v

    def e_Lambda(self, e, fr):
        f = self.mkfn(e, fr, '<lambda>')
        f.closure = fr
        return f

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
                continue
            x = self.expr(v.value, fr)
            if v.conversion and v.conversion > 0:
                x = self.lib.to_str(x, chr(v.conversion))
            spec = self.expr(v.format_spec, fr) if v.format_spec is not None else ''
            self.at(e, fr)
            r = self.lib.format(x, spec)
            if isinstance(r, Top):
                out.append(TopSeg(r.why, self.cur))
            else:
                out += segs_of(r)
        return mks(out)

    def index(self, e, fr):
        if isinstance(e, ast.Slice):
            return slice(*[self.expr(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Tuple):
            return tuple(self.index(x, fr) for x in e.elts)
        return self.expr(e, fr)

    def e_Slice(self, e, fr):
        return self.index(e, fr)

    def e_Subscript(self, e, fr):
        base = self.expr(e.value, fr)
        idx = self.index(e.slice, fr)
        self.at(e, fr)
        return self.getitem(base, idx)

    def getitem(self, base, idx):
        if isinstance(base, dict):
            k = self.hashkey(idx)
            self.reads.append((id(base), k))
            if k in base:
                return base[k]
            if isinstance(k, Sym):
                for o in base:
                    if type(o) is not str and self.truth(self.cmp('==', k, o)):
                        return base[o]
            if getattr(base, 'factory', None) is not None:
                v = self.call(base.factory, [], {})
                self.dictstore(base, idx, v)
                return v
            if isinstance(base, ADict) and base.cls.find('__missing__'):
                return self.call(Bound(base, base.cls.find('__missing__')), [idx], {})
            raise self.err(KeyError, k)
        if isinstance(base, (list, tuple, range)):
            i = self.lib.hostidx(idx)
            try:
                return base[i]
            except Exception as ex:
                raise self.err(type(ex), *ex.args)
        if isinstance(base, (str, bytes)) and concrete(idx) and not isinstance(idx, (list, dict)):
            try:
                return base[self.lib.hostidx(idx)]
            except Exception as ex:
                raise self.err(type(ex), *ex.args)
        if is_s(base):
            return self.lib.str_getitem(base, idx)
        if isinstance(base, Arr):
            return self.lib.arr_getitem(base, idx)
        if isinstance(base, Top):
            return self.top('item of an unknown value')
        if isinstance(base, Obj):
            f = base.cls.find('__getitem__')
            if f:
                return self.call(Bound(base, f), [idx], {})
        if isinstance(base, Cls) and base.members is not None:
            if idx not in base.members:
                raise self.err(KeyError, idx)
            return base.members[idx]
        if isinstance(base, Cls):
            return base
        if isinstance(base, Sym) and base.kind == 'any':
            return self.top('item of a value of unknown kind')
        if isinstance(base, Ext):
            return self.lib.ext_getitem(base, idx)
        if isinstance(base, PyExc) and isinstance(idx, int):
            return base.eargs[idx]
        if type(base).__name__ == 'Mat':
            return self.lib.mat_method(base, 'group', [idx], {})
        raise self.err(TypeError, "'%s' object is not subscriptable" % self.lib.typename(base))

    def e_Attribute(self, e, fr):
        base = self.expr(e.value, fr)
        self.at(e, fr)
        return self.getattr(base, e.attr)

    def getattr(self, base, attr):
        if isinstance(base, type) and attr in ('__name__', '__qualname__'):
            return base.__name__
        if isinstance(base, HostObj):
            if isinstance(base, ATuple) and attr in base.cls.find('_fields'):
                return base[base.cls.find('_fields').index(attr)]
            if isinstance(base, (EInt, EStr)) and attr in ('name', 'value', '_name_', '_value_'):
                return base.name if 'name' in attr else self.enum_value(base)
            v = base.cls.find(attr)
            if v is not None:
                return self.bind(v, base, base.cls)
            if attr == '__class__':
                return base.cls
            if isinstance(base, ATuple) and attr in ('_replace', '_asdict'):
                return Meth(base, attr)
            if attr.startswith('__'):
                raise self.und('attribute %s' % attr)
        if isinstance(base, Ext):
            return self.lib.ext_attr(base, attr)
        if isinstance(base, ModV):
            if attr in base.env:
                return base.env[attr]
            sub = self.module(base.name + '.' + attr)
            if sub is not None:
                return sub
            raise self.err(AttributeError, "module has no attribute '%s'" % attr)
        if isinstance(base, Obj):
            if attr in base.attrs:
                return base.attrs[attr]
            v = base.cls.find(attr)
            if v is not None:
                return self.bind(v, base, base.cls)
            if attr == '__class__':
                return base.cls
            if attr == '__dict__':
                return base.attrs
            f = base.cls.find('__getattr__')
            if f is not None:
                return self.call(Bound(base, f), [attr], {})
            raise self.err(AttributeError, "object has no attribute '%s'" % attr)
        if isinstance(base, Cls):
            if attr in ('__name__', '__qualname__'):
                return base.node.name
            if attr == '__members__' and base.members is not None:
                return dict(base.members)
            if attr == '_make' and base.fields is not None:
                return Partial(Ext('namedtuple-make'), [base], {})
            v = base.find(attr)
            if v is not None:
                if isinstance(v, Static):
                    return Bound(base, v.fn) if v.cm else v.fn
                return v
            raise self.err(AttributeError, attr)
        if isinstance(base, Fn):
            if attr in ('__name__', '__qualname__'):
                return base.qual.split('.')[-1]
            if attr == '__doc__':
                return ast.get_docstring(base.node) if not isinstance(base.node, ast.Lambda) else None
            if attr in base.attrs:
                return base.attrs[attr]
            raise self.err(AttributeError, "'function' object has no attribute '%s'" % attr)
        if isinstance(base, PyExc):
            if attr == 'args':
                return base.eargs
            if attr in base.attrs:
                return base.attrs[attr]
            if isinstance(base.etype, Cls):
                v = base.etype.find(attr)
                if v is not None:
                    return v
            if attr == '__class__':
                return Ext('builtins.' + base.name())
            if attr in ('errno', 'strerror', 'filename') and isinstance(base.etype, type) and \
                    issubclass(base.etype, OSError):
                return Sym('any', ('excattr', attr))
            if attr in ('with_traceback', 'add_note'):
                return Meth(base, attr)
            raise self.err(AttributeError, attr)
        return self.lib.value_attr(base, attr)

    def bind(self, v, obj, cls):
        if isinstance(v, Prop):
            r = self.call(v.fn, [obj], {})
            if v.kept:
                obj.attrs[v.kept] = r
            return r
        if isinstance(v, Static):
            return Bound(cls, v.fn) if v.cm else v.fn
        if isinstance(v, Fn):
            return Bound(obj, v)
        if isinstance(v, Partial) and isinstance(v.f, Ext) and v.f.name in ('contextlib.contextmanager', 'functools.memo'):
            return Bound(obj, v)
        return v

    # ------------------------------------------------------ comprehensions
    def comp(self, e, fr, put):
        sub = Frame(fr.fn, fr.mod, {}, fr)
        sub.locals_ = set()
        sub.iscomp = True

        def go(i):
            if i == len(e.generators):
                put(sub)
                return
            g = e.generators[i]
            for v in self.iterate(self.expr(g.iter, sub if i else fr), lazy=True):
                self.store(g.target, v, sub)
                if all(self.truth(self.expr(c, sub)) for c in g.ifs):
                    go(i + 1)
        go(0)

    def e_ListComp(self, e, fr):
        out = []
        self.comp(e, fr, lambda f: out.append(self.expr(e.elt, f)))
        return out

    def e_GeneratorExp(self, e, fr):
        return AIter(self.e_ListComp(e, fr))

    def e_SetComp(self, e, fr):
        out = set()
        self.comp(e, fr, lambda f: out.add(self.hashkey(self.expr(e.elt, f))))
        return out

    def e_DictComp(self, e, fr):
        out = {}
        self.keep.append(out)

        def put(f):
            k = self.expr(e.key, f)
            self.dictstore(out, k, self.expr(e.value, f))
        self.comp(e, fr, put)
        return out

    def e_Starred(self, e, fr):
        raise self.und('starred')

    def e_Yield(self, e, fr):
        v = self.expr(e.value, fr) if e.value is not None else None
        f = fr
        while f.on_yield is None and f.parent is not None:
            f = f.parent
        if f.on_yield is None:
            raise self.und('yield')
        return f.on_yield(v)

    def e_YieldFrom(self, e, fr):
        for v in self.iterate(self.expr(e.value, fr)):
            f = fr
            while f.on_yield is None and f.parent is not None:
                f = f.parent
            f.on_yield(v)
        return None

    # ----------------------------------------------------------- iteration
    def iterate(self, v, lazy=False):
        if isinstance(v, list):
            return self._listiter(v) if lazy else list(v)
        if isinstance(v, (tuple, range, set, frozenset)):
            return list(v)
        if isinstance(v, (str, bytes)):
            return list(v)
        if isinstance(v, dict):
            return self._dictiter(v) if lazy else list(v)
        if isinstance(v, Arr):
            if not v.shape:
                raise self.err(TypeError, 'iteration over a 0-d array')
            return [self.lib.arr_getitem(v, i) for i in range(v.shape[0])]
        if isinstance(v, AIter):
            out = v.items[v.i:]
            if lazy:
                return self._ait(v)
            v.i = len(v.items)
            return out
        if isinstance(v, AFile):
            return self.lib.file_method(v, 'readlines', [], {})
        if isinstance(v, Obj):
            f = v.cls.find('__iter__')
            if f:
                it = self.call(Bound(v, f), [], {})
                if isinstance(it, Obj) and it.cls.find('__next__'):
                    it = self._protocol(Bound(it, it.cls.find('__next__')), StopIteration)
                    return it if lazy else list(it)
                return self.iterate(it, lazy)
            f = v.cls.find('__getitem__')
            if f:
                it = self._protocol(Bound(v, f), IndexError)
                return it if lazy else list(it)
        if isinstance(v, Cls) and v.members is not None:
            out = []
            for m in v.members.values():
                if not any(m is x for x in out):
                    out.append(m)
            return out
        if isinstance(v, AStr) and not v.b and all(
                isinstance(x, (str, Part)) or isinstance(x, Fld) and x.width and x.len() == x.width and (x.numeric() or (x.maxlen() or x.width + 1) <= x.width) for x in v.segs):
            n = slen(v)
            if n <= 400:
                return [sslice(v, i, i + 1) for i in range(n)]
        if isinstance(v, AStr) or (isinstance(v, Sym) and v.kind in ('str', 'any')):
            raise self.und('iteration over the characters of %r' % (v,))
        if isinstance(v, Top):
            raise self.und('iteration: %s' % v.why)
        raise self.err(TypeError, "'%s' object is not iterable" % self.lib.typename(v))

    def _protocol(self, f, end):
        """the items of an object that defines how it is iterated over"""
        i = 0
        while True:
            self.steps += 1
            if self.steps > self.budget:
                raise Diverges(fmtloc(self.cur))
            try:
                x = self.call(f, [i] if end is IndexError else [], {})
            except PyExc as e:
                h = e.etype if isinstance(e.etype, type) else e.etype.host_exc()
                if issubclass(h, end):
                    return
                raise
            yield x
            i += 1

    def _listiter(self, v):
        i = 0
        while i < len(v):
            yield v[i]
            i += 1
            self.steps += 1
            if self.steps > self.budget:
                raise Diverges(fmtloc(self.cur))

    def _dictiter(self, v):
        n = len(v)
        for k in list(v):
            if len(v) != n:
                raise self.err(RuntimeError, 'dictionary changed size during iteration')
            yield k

    def _ait(self, v):
        while v.i < len(v.items):
            v.i += 1
            yield v.items[v.i - 1]

    # --------------------------------------------------------------- calls
    def e_Call(self, e, fr):
        f = self.expr(e.func, fr)
        if isinstance(f, Ext) and f.name in ('builtins.locals', 'builtins.vars') and not e.args:
            return dict(fr.env)
        if isinstance(f, Ext) and f.name == 'builtins.globals':
            return fr.mod.env
        if isinstance(f, Ext) and f.name == 'builtins.super':
            obj = fr.fnframe().env.get('self')
            fn = fr.fnframe().fn
            if obj is None and fn is not None and fn.cls is not None and fn.node.args.args:
                obj = fr.fnframe().env.get(fn.node.args.args[0].arg)
            if (isinstance(obj, Obj) or isinstance(obj, Cls)) and fn is not None and fn.cls is not None:
                return Partial(Ext('super'), [obj, fn.cls], {})
            raise self.und('super')
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.expr(a.value, fr)))
            else:
                args.append(self.expr(a, fr))
        for k in e.keywords:
            v = self.expr(k.value, fr)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise self.und('** of an unknown mapping')
                kw.update(v)
            else:
                kw[k.arg] = v
        self.at(e, fr)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.selfv] + list(args), kw)
        if isinstance(f, Partial):
            if isinstance(f.f, Ext) and f.f.name == 'contextlib.contextmanager':
                return Partial(Ext('contextmanager-run'), [f.args[0], args], kw)
            if isinstance(f.f, Ext) and f.f.name == 'super':
                raise self.und('super object called')
            return self.call(f.f, list(f.args) + list(args), {**f.kw, **kw})
        if isinstance(f, Cls):
            if f.host_exc() is not None:
                e = PyExc(f, args, self.cur)
                init = f.find('__init__')
                if init is not None:
                    o = Obj(f)
                    self.call_fn(init, [o] + list(args), kw)
                    e.attrs = o.attrs
                return e
            if f.members is not None:
                return self.enum_of(f, *args)
            ext = f.ext_base()
            init = f.find('__init__')
            if f.fields is not None or any(b.fields for b in f.mro()):
                o = Obj(f)
                self.call_fn(init, [o] + list(args), kw)
                t = ATuple(o.attrs[n] for n in f.find('_fields'))
                t.cls = f
                return t
            if ext & {'builtins.str', 'builtins.int'}:
                raise self.und('instance of a class that extends a value type')
            if ext & {'builtins.dict', 'builtins.list', 'collections.OrderedDict', 'typing.TypedDict'}:
                o = AList() if 'builtins.list' in ext else ADict()
                o.cls = f
                if init is not None:
                    raise self.und('__init__ of a class that extends a container')
                if isinstance(o, AList):
                    o.extend(self.iterate(args[0]) if args else [])
                else:
                    o.update(self.lib.b_dict(args, kw))
                return o
            o = Obj(f)
            if init is not None:
                self.call_fn(init, [o] + list(args), kw)
            elif args or kw:
                raise self.err(TypeError, 'takes no arguments')
            return o
        if isinstance(f, Ext):
            return self.lib.call_ext(f.name, args, kw)
        if isinstance(f, Meth):
            return self.lib.method(f.recv, f.name, args, kw)
        if isinstance(f, Top):
            return self.lib.unknown('a call of an unknown value', args, kw)
        if isinstance(f, Obj):
            m = f.cls.find('__call__')
            if m:
                return self.call(Bound(f, m), args, kw)
        if isinstance(f, type):
            return self.lib.call_ext('builtins.' + f.__name__, args, kw)
        raise self.err(TypeError, "'%s' object is not callable" % self.lib.typename(f))

    def call_fn(self, fn, args, kw, on_yield=None):
        if self.depth > 60:
            raise self.und('call depth')
        if not isinstance(fn, Fn):
            return self.call(fn, args, kw)
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise self.err(TypeError, '%s() takes %d positional arguments but %d were given' %
                               (fn.qual, len(names), len(args)))
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        extra = {}
        kwn = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwn:
                if k in env:
                    raise self.err(TypeError, '%s() got multiple values for argument %r' % (fn.qual, k))
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise self.err(TypeError, '%s() got an unexpected keyword argument %r' % (fn.qual, k))
        if a.kwarg is not None:
            env[a.kwarg.arg] = extra
        for n, d in zip(names[len(names) - len(fn.defaults):], fn.defaults):
            if n not in env:
                env[n] = self.call(fn.factories[n], [], {}) if n in fn.factories else d
        for n, d in fn.kwdefaults.items():
            env.setdefault(n, d)
        for n in names + kwn:
            if n not in env:
                raise self.err(TypeError, '%s() missing required argument %r' % (fn.qual, n))
        fr = Frame(fn, fn.mod, env, fn.closure)
        fr.locals_ = fn.locals
        fr.globals = set(fn.globs)
        fr.nonlocals = set(fn.nonl)
        fr.qual = fn.qual
        save = self.cur
        self.visited[(fn.mod.m.rel, fn.qual)] = self.visited.get((fn.mod.m.rel, fn.qual), 0) + 1
        self.depth += 1
        self.stack.append((fn, save))
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.expr(fn.node.body, fr)
            if fn.isgen and on_yield is None:
                items = []
                fr.on_yield = items.append
                self.block(fn.node.body, fr)
                return AIter(items)
            fr.on_yield = on_yield
            r = self.block(fn.node.body, fr)
            return r[1] if r is not None and r[0] == 'ret' else None
        finally:
            self.depth -= 1
            self.stack.pop()
            self.cur = save


class Frame:
    __slots__ = ('fn', 'mod', 'env', 'parent', 'locals_', 'globals', 'nonlocals', 'qual', 'isclass', 'iscomp', 'on_yield')

    def __init__(self, fn, mod, env, parent):
        self.fn, self.mod, self.env, self.parent = fn, mod, env, parent
        self.locals_ = set()
        self.globals, self.nonlocals = set(), set()
        self.qual = ''
        self.isclass = self.iscomp = False
        self.on_yield = None

    def fnframe(self):
        f = self
        while f.iscomp and f.parent is not None:
            f = f.parent
        return f

    def get(self, n):
        if n in self.globals:
            return self.mod.env.get(n, MISSING)
        f = self
        first = True
        while f is not None:
            if n in f.env and (first or not f.isclass):
                return f.env[n]
            if n in f.globals:
                break
            f = f.parent
            first = False
        return self.mod.env.get(n, MISSING)

    def set(self, n, v):
        if n in self.globals:
            self.mod.env[n] = v
            return
        if n in self.nonlocals:
            f = self.parent
            while f is not None:
                if n in f.env:
                    f.env[n] = v
                    return
                f = f.parent
        self.env[n] = v

    def delete(self, n, quiet=False):
        self.env.pop(n, None)


_FL = {}


def fnlocals(node):
    r = _FL.get(node)
    if r is not None:
        return r
    loc, globs, nonl, gen = set(), set(), set(), False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        loc.add(x.arg)

    def walk(n):
        nonlocal gen
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    loc.add(m.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split('.')[0])
        if isinstance(n, ast.Global):
            globs.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in (node.body if isinstance(node.body, list) else [node.body]):
        walk(s)
    r = _FL[node] = (loc - globs - nonl, gen, globs, nonl)
    return r


class StructError(Exception):
    pass


STM = {getattr(ast, n[2:]): getattr(Interp, n) for n in dir(Interp) if n.startswith('s_')}
EXP = {getattr(ast, n[2:]): getattr(Interp, n) for n in dir(Interp) if n.startswith('e_')}
