"""Runs obligations over the abstract interpreter and collects verdicts."""
import ast
import json
import os
import time

from .src import Package, AnchorError
from .ai import *
from .dom import *
from .lib import vkey
from . import spec

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = 'work/f.uff'


class Missing(Exception):
    """A public name is gone."""


class World:
    """One abstract state of the analysed library and of its files."""

    def __init__(self, pkg, dec=None, **kw):
        self.ip = Interp(pkg, dec, **kw)
        self.m = self.ip.module(pkg.pkg)
        self.ip.trace.clear()

    def pub(self, name):
        if name not in self.m.env:
            raise Missing(name)
        return self.m.env[name]

    def call(self, f, *a, **kw):
        if isinstance(f, str):
            f = self.pub(f)
        return self.ip.call(f, list(a), kw)

    def uff(self, path=PATH):
        return self.call('UFF', path)

    def meth(self, u, name, *a, **kw):
        return self.ip.call(self.ip.getattr(u, name), list(a), kw)

    def write(self, u, d, **kw):
        return self.meth(u, 'write_sets', d, **kw)

    def read(self, u, *a, **kw):
        return self.meth(u, 'read_sets', *a, **kw)

    def file(self, path=PATH):
        return mks(self.ip.fs[vkey(path)], True) if vkey(path) in self.ip.fs else None

    def put(self, segs, path=PATH):
        segs = [s.encode('utf-8').decode('latin-1') if isinstance(s, str) and s and max(s) > '\xff' else s for s in segs]
        self.ip.fs[vkey(path)] = segs_of(mks(widen(segs, self.ip.wide), True))

    def raises(self, fn, *a, **kw):
        """the exception of a call, or None"""
        try:
            fn(*a, **kw)
        except PyExc as e:
            return e
        return None


class Bad(Exception):
    """The obligation is violated."""

    def __init__(self, key, msg, loc=None):
        Exception.__init__(self, msg)
        self.key, self.msg, self.loc = key, msg, loc


class Ctx:
    def __init__(self, prop, tier='quick', seed=1, root='/repo'):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == 'thorough'
        self.pkg = Package(root)
        self.pkg.uff_class()
        self.t0 = time.time()
        self.obligations = []
        self.violations = {}
        self.undecided = []
        self.visited, self.lines = {}, set()
        self.nparts = self.steps = self.nworlds = 0
        self.samples = []
        self.thresholds_ = None
        self.infos = {}

    # -- runs fn(world) -> list of (key, msg, loc) for every partition
    def ob(self, name, fn, limit=64, budget=1500000, **kw):
        bad, und, n = [], [], 0
        st = 'discharged'

        def run(dec):
            w = World.__new__(World)
            try:
                World.__init__(w, self.pkg, dec, budget=budget, **kw)
                r = ('ok', fn(w) or [])
            except Bad as b:
                r = ('ok', [(b.key, b.msg, b.loc)])
            except Undecided as e:
                r = ('und', str(e))
            except Diverges as e:
                r = ('ok', [('diverges', 'does not end (more than %d steps)' % budget, None)])
            except Missing as e:
                r = ('ok', [('missing ' + str(e), 'the package does not export %s' % e, None)])
            except PyExc as e:
                r = ('ok', [('raises', 'raises %s' % e, e.origin or e.loc)])
            except RecursionError:
                r = ('und', 'recursion too deep')
            except (AnchorError, MemoryError):
                raise
            except Exception as e:
                # a slip of the analysis is never an alarm; a result of an unexpected form, met by the rule itself, is one
                tb = e.__traceback__
                while tb.tb_next is not None:
                    tb = tb.tb_next
                where = os.path.basename(tb.tb_frame.f_code.co_filename)
                what = '%s: %s (%s:%d)' % (type(e).__name__, e, where, tb.tb_lineno)
                if where in ('checks.py', 'checks2.py') and not getattr(getattr(w, 'ip', None), 'notes', True):
                    r = ('ok', [('unexpected result', 'the result has an unexpected form: ' + what, None)])
                else:
                    r = ('und', 'internal: ' + what)
            ip = getattr(w, 'ip', None)
            if ip is not None:
                for k, v in ip.visited.items():
                    self.visited[k] = self.visited.get(k, 0) + (v if isinstance(v, int) else 1)
                self.lines |= ip.lines
                self.steps += ip.steps
                for x in ip.notes[:2]:
                    self.infos[x] = self.infos.get(x, 0) + 1
            self.nworlds += 1
            return r
        try:
            for dec, r in partitions(run, limit):
                if dec is None:
                    und.append('more than %d partitions' % limit)
                    break
                n += 1
                if r[0] == 'und':
                    und.append(r[1])
                else:
                    bad += [(k, m, l, [x for x in dec.labels]) for k, m, l in r[1]]
        except AnchorError:
            raise
        self.nparts += n
        if bad:
            st = 'violated'
            for k, m, l, labels in bad:
                self.viol(name, k, m, l, labels)
        elif und:
            st = 'undecided'
            self.undecided.append({'obligation': name, 'why': sorted(set(und))[:3]})
        self.obligations.append({'name': name, 'partitions': n, 'status': st})
        return st

    def viol(self, ob, key, msg, loc=None, labels=()):
        k = key
        if k not in self.violations:
            self.violations[k] = {'key': k, 'obligation': ob, 'message': msg, 'at': fmtloc(loc) if loc else '',
                                  'function': self.func_at(loc),
                                  'conditions': ['%s is %s' % (showterm(a), b) for a, b, _ in labels][:8], 'count': 1}
        else:
            self.violations[k]['count'] += 1

    def static(self, name, bad):
        """an obligation decided on the tree alone; bad: list of (key, msg, loc)"""
        for k, m, l in bad:
            self.viol(name, k, m, l)
        self.obligations.append({'name': name, 'partitions': 1, 'status': 'violated' if bad else 'discharged'})

    def func_at(self, loc):
        if not isinstance(loc, tuple):
            return ''
        for m in self.pkg.modules.values():
            if m.rel == loc[0]:
                best = ''
                for st in ast.walk(m.tree):
                    if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.lineno <= loc[1] <= (st.end_lineno or st.lineno):
                        best = (best + '.' if best else '') + st.name
                return best
        return ''

    def thresholds(self, hi=70):
        """sizes around the integer constants that the package compares, divides, slices or multiplies with"""
        if self.thresholds_ is None:
            s = set()

            def consts(n):
                for x in ast.walk(n):
                    if isinstance(x, ast.Constant) and type(x.value) is int:
                        yield x.value
            for m in self.pkg.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.FunctionDef) and (n.name.startswith('get_structure') or n.name.startswith('prepare_')):
                        continue
                    if isinstance(n, (ast.Compare, ast.BinOp, ast.Slice)) or \
                            isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('range', 'min', 'max'):
                        s.update(consts(n))
            self.thresholds_ = s
        return self.thresholds_

    def extra_sizes(self, typ):
        """sizes near the thresholds of the functions the type's own code contains"""
        s = set()
        mods = [m for m in self.pkg.modules.values() if m.name.endswith('dataset_%d' % typ)] or []
        known = set()
        for m in mods:
            for fn in ast.walk(m.tree):
                if not isinstance(fn, ast.FunctionDef) or fn.name.startswith(('prepare', 'get_structure')):
                    continue
                for n in ast.walk(fn):
                    cs = []
                    if isinstance(n, ast.Compare):
                        cs = [n.left] + n.comparators
                    elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv, ast.Div)):
                        cs = [n.right]
                    elif isinstance(n, ast.Slice):
                        cs = [x for x in (n.lower, n.upper) if x is not None]
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('range', 'min', 'max'):
                        cs = n.args
                    for c in cs:
                        for x in ast.walk(c):
                            if isinstance(x, ast.Constant) and type(x.value) is int:
                                known.add(x.value)
        hi = 130 if self.deep else 40
        for v in known:
            if 4 <= v <= hi:
                s |= {v - 1, v, v + 1}
        if self.deep:
            s |= set(range(1, 20))
        return sorted(s)

    def buffers(self, mods=None, lo=256, hi=1 << 22):
        """sizes of buffers: the larger integer constants, folded, of the code that reads and writes files"""
        found = set()

        def fold(n):
            if isinstance(n, ast.Constant) and type(n.value) is int:
                return n.value
            if isinstance(n, ast.BinOp):
                a, b = fold(n.left), fold(n.right)
                if a is None or b is None:
                    return None
                if isinstance(n.op, ast.Mult):
                    return a * b
                if isinstance(n.op, ast.LShift) and 0 <= b < 40:
                    return a << b
                if isinstance(n.op, ast.Pow) and 0 <= b < 40:
                    return a ** b
                if isinstance(n.op, ast.Add):
                    return a + b
                if isinstance(n.op, ast.Sub):
                    return a - b
            return None

        def walk(n):
            v = fold(n)
            if v is not None:
                found.add(v)
                return
            for c in ast.iter_child_nodes(n):
                walk(c)
        for m in self.pkg.modules.values():
            if mods is not None and m.name.split('.')[-1] not in mods:
                continue
            for n in m.tree.body:
                if isinstance(n, ast.FunctionDef) and n.name.startswith(('get_structure', 'prepare_')):
                    continue
                walk(n)
        types = {15, 18, 55, 58, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467}
        return sorted(v for v in found if lo <= v <= hi and v not in types)

    def limits(self, typ):
        """sizes just above the larger constants in the code that handles a type: a limit on how many there may be"""
        own = self.buffers(('dataset_%d' % typ,), 41, 9000 if self.deep else 6000)
        shared = self.buffers(('pyuff', 'tools'), 41, 2500 if self.deep else 1200)
        out = {v for v in own[:2] if v < 300}
        room = 20000 if self.deep else 9000
        for v in shared[-1:] + own[::-1]:
            if v < room and v + 1 not in out:
                out.add(v + 1)
                room -= v
        return sorted(out)

    def cases(self, typ):
        return spec.cases(typ, self.extra_sizes(typ), self.deep)

    def cases_binary(self):
        return spec.cases_binary(self.deep, self.extra_sizes(58) if self.deep else (7, 13))


def run_check(prop, fn, tier, seed, root='/repo', out=print, meta=None):
    ctx = Ctx(prop, tier, seed, root)
    fn(ctx)
    known = load_known(prop)
    left = []
    for k, v in sorted(ctx.violations.items()):
        if k in known:
            out('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
        else:
            left.append(v)
    n = len(ctx.obligations)
    ok = sum(1 for o in ctx.obligations if o['status'] == 'discharged')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': (meta or {}).get('explanation', ''),
            'rule': (meta or {}).get('rule', ''),
            'obligations': n, 'discharged': ok,
            'undecided': len(ctx.undecided), 'undecided_list': ctx.undecided[:40],
            'partitions': ctx.nparts, 'abstract_steps': ctx.steps,
            'functions_analysed': len({k for k in ctx.visited}),
            'functions': sorted(str(k) for k in ctx.visited)[:200],
            'statements_analysed': len(ctx.lines),
            'samples': sorted(o['name'] for o in ctx.obligations)[:: max(1, n // 12)][:14],
            'known_findings': sorted(k for k in ctx.violations if k in known),
            'not_modelled': sorted(ctx.infos)[:20],
        },
        'assumptions': (meta or {}).get('assumptions', []),
        'violations': len(left), 'wall_s': round(time.time() - ctx.t0, 2),
        'violation_list': left[:40],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rel = 'evidence/%s.json' % prop
    with open(os.path.join(VERIF, rel), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write('\n')
    out('%s %s: %d obligations, %d discharged, %d undecided, %d violated; %d partitions, %d functions, %.1f s' % (
        prop, tier, n, ok, len(ctx.undecided), sum(o['status'] == 'violated' for o in ctx.obligations), ctx.nparts,
        len(ctx.visited), time.time() - ctx.t0))
    if n == 0:
        raise AnchorError('no obligation was found for %s' % prop)
    for v in left[:12]:
        out('  %s%s: [%s] %s' % (v['at'], ' in ' + v['function'] if v['function'] else '', v['obligation'], v['message'][:600]))
        if v['conditions']:
            out('      when ' + '; '.join(v['conditions']))
    if left:
        out('VIOLATION property=%s replay=%s' % (prop, rel))
        return 1
    return 0


def load_known(prop):
    """lines: `finding: property=<id> key=<key> :: <what fails>` (fixed: lines suppress nothing)"""
    r = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as fh:
            for l in fh:
                if l.startswith('finding: property=%s key=' % prop):
                    k, _, what = l[len('finding: property=%s key=' % prop):].rstrip('\n').partition(' :: ')
                    r[k] = what
    return r
