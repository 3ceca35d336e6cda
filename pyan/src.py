"""Source model: parses the package and resolves names across its modules."""
import ast
import os


class AnchorError(Exception):
    """The thing to be analysed is not there any more."""


class Module:
    def __init__(self, name, path, tree, text):
        self.name, self.path, self.tree, self.text = name, path, tree, text
        self.rel = path
        self.names = {}     # name -> list of binding statements at module level
        self.imports = {}   # name -> ('mod', dotted) | ('from', dotted module, attr)
        self.stars = []
        self.is_pkg = os.path.basename(path) == '__init__.py'


def _resolve_rel(mod, level, target):
    if level == 0:
        return target or ''
    parts = mod.name.split('.')
    if not mod.is_pkg:
        parts = parts[:-1]
    if level > 1:
        parts = parts[:len(parts) - (level - 1)]
    if target:
        parts = parts + target.split('.')
    return '.'.join(parts)


class Package:
    def __init__(self, root='/repo', pkg='pyuff'):
        self.root, self.pkg = root, pkg
        self.modules = {}
        top = os.path.join(root, pkg)
        if not os.path.isdir(top):
            raise AnchorError('package %s not found in %s' % (pkg, root))
        for dp, dn, fn in os.walk(top):
            dn[:] = sorted(d for d in dn if d not in ('__pycache__',))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(path, encoding='utf-8') as fh:
                    text = fh.read()
                tree = ast.parse(text, path)
                m = Module(name, path, tree, text)
                m.rel = rel
                self.modules[name] = m
        for m in self.modules.values():
            self._index(m, m.tree.body)

    def _index(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                m.names[st.name] = [st]
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = ('mod', a.name)
                    else:
                        m.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                target = _resolve_rel(m, st.level, st.module)
                for a in st.names:
                    if a.name == '*':
                        m.stars.append(target)
                    else:
                        m.imports[a.asname or a.name] = ('from', target, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.names.setdefault(n.id, []).append(st)
            elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
                if isinstance(st.target, ast.Name):
                    m.names.setdefault(st.target.id, []).append(st)
            elif isinstance(st, (ast.If, ast.Try)):
                for blk in ('body', 'orelse', 'finalbody'):
                    self._index(m, getattr(st, blk, []) or [])
                for h in getattr(st, 'handlers', []):
                    self._index(m, h.body)

    def lookup(self, modname, name, seen=None):
        """Resolve a global name. Returns ('def', module, stmt) | ('ext', dotted) | ('mod', Module) | None."""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        if name in m.names:
            return ('def', m, m.names[name])
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'mod':
                if imp[1] in self.modules:
                    return ('mod', self.modules[imp[1]])
                return ('ext', imp[1])
            _, target, attr = imp
            if target in self.modules:
                sub = target + '.' + attr
                r = self.lookup(target, attr, seen)
                if r:
                    return r
                if sub in self.modules:
                    return ('mod', self.modules[sub])
                return None
            return ('ext', target + '.' + attr)
        for s in m.stars:
            if s in self.modules and not name.startswith('_'):
                r = self.lookup(s, name, seen)
                if r:
                    return r
        sub = modname + '.' + name
        if sub in self.modules:
            return ('mod', self.modules[sub])
        return None

    def exported(self, name):
        """Resolve pyuff.<name> as a user sees it."""
        r = self.lookup(self.pkg, name)
        if r is None or r[0] != 'def':
            return None
        st = r[2][-1]
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return r[1], st
        return None

    def uff_class(self):
        r = self.exported('UFF')
        if not r or not isinstance(r[1], ast.ClassDef):
            raise AnchorError('class UFF is not exported by the package')
        return r

    def functions(self):
        for m in self.modules.values():
            for st in ast.walk(m.tree):
                if isinstance(st, ast.FunctionDef):
                    yield m, st
