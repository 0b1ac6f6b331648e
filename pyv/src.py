"""Load the source under verification: modules, classes, functions."""
import ast
import os

REPO = os.environ.get('PYV_REPO', '/repo')
POC = os.path.join(REPO, 'poc')


class FuncInfo:
    def __init__(self, node, module, cls=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = node.name
        self.decos = [ast.unparse(d) for d in node.decorator_list]
        self.is_classmethod = 'classmethod' in self.decos
        self.is_staticmethod = 'staticmethod' in self.decos
        self.is_property = 'property' in self.decos
        self.is_abstract = any('abstractmethod' in d for d in self.decos)

    @property
    def qual(self):
        if self.cls is not None:
            return '%s:%s.%s' % (self.module.short, self.cls.name, self.name)
        return '%s:%s' % (self.module.short, self.name)

    def __repr__(self):
        return '<func %s>' % self.qual


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module = node, module
        self.name = node.name
        self.funcs, self.attrs = {}, {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                self.funcs[st.name] = FuncInfo(st, module, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self.attrs[st.target.id] = st.value
        self._mro = None

    def bases(self):
        r = []
        for b in self.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            v = self.module.resolve_static(b)
            if isinstance(v, ClassInfo):
                r.append(v)
        return r

    def mro(self):
        if self._mro is None:
            seqs = [b.mro()[:] for b in self.bases()] + [self.bases()]
            out = [self]
            while any(seqs):
                for s in seqs:
                    if not s:
                        continue
                    h = s[0]
                    if not any(h in q[1:] for q in seqs):
                        break
                else:
                    raise ValueError('mro')
                out.append(h)
                seqs = [[x for x in q if x is not h] for q in seqs]
            self._mro = out
        return self._mro

    def find(self, name):
        for c in self.mro():
            if name in c.funcs:
                return c.funcs[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def subclass_of(self, name):
        return any(c.name == name for c in self.mro())

    def __repr__(self):
        return '<class %s>' % self.name


class Module:
    def __init__(self, loader, name, path):
        self.loader, self.name, self.path = loader, name, path
        self.short = name.split('.')[-1]
        with open(path) as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.defs = {}      # name -> FuncInfo | ClassInfo | ('expr', node) | ('import', mod, name)
        for st in self.tree.body:
            self._add(st)

    def _add(self, st):
        if isinstance(st, ast.FunctionDef):
            if any('overload' in ast.unparse(d) for d in st.decorator_list):
                return
            self.defs[st.name] = FuncInfo(st, self)
        elif isinstance(st, ast.ClassDef):
            self.defs[st.name] = ClassInfo(st, self)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.defs[t.id] = ('expr', st.value)
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            self.defs[st.target.id] = ('expr', st.value)
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.defs[a.asname or a.name.split('.')[0]] = ('import', a.name, None)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.defs[a.asname or a.name] = ('import', st.module, a.name)

    def lookup(self, name):
        """Resolve a global name to a FuncInfo/ClassInfo/Module/('expr',..)/
        ('ext', dotted) or None."""
        d = self.defs.get(name)
        if isinstance(d, tuple) and d[0] == 'import':
            _, mod, item = d
            m = self.loader.module(mod)
            if item is None:
                return m if m is not None else ('ext', mod)
            if m is not None:
                r = m.lookup(item)
                if r is not None:
                    return r
            sub = self.loader.module(mod + '.' + item)
            if sub is not None:
                return sub
            return ('ext', '%s.%s' % (mod, item))
        if isinstance(d, tuple) and d[0] == 'expr':
            return ('expr', d[1], self)
        return d

    def resolve_static(self, node):
        if isinstance(node, ast.Name):
            return self.lookup(node.id)
        if isinstance(node, ast.Attribute):
            v = self.resolve_static(node.value)
            if isinstance(v, Module):
                return v.lookup(node.attr)
        return None


class Loader:
    def __init__(self, roots):
        self.roots = roots      # list of directories
        self.mods = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        m = None
        for r in self.roots:
            p = os.path.join(r, *name.split('.')) + '.py'
            if os.path.isfile(p):
                m = Module(self, name, p)
                break
        self.mods[name] = m
        return m

    def func(self, qual):
        """'common:vec_add' or 'field:Field.encode_vec' in vdaf_poc."""
        mod, q = qual.split(':')
        m = self.module('vdaf_poc.' + mod) or self.module(mod)
        if m is None:
            return None
        parts = q.split('.')
        d = m.defs.get(parts[0])
        if len(parts) == 1:
            return d if isinstance(d, FuncInfo) else None
        if isinstance(d, ClassInfo):
            return d.find(parts[1])
        return None

    def cls(self, qual):
        mod, q = qual.split(':')
        m = self.module('vdaf_poc.' + mod) or self.module(mod)
        return m.defs.get(q) if m else None
