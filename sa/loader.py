"""Source model of /repo: modules, imports, classes, method resolution, purity."""
import ast
from .normal import normalise
import os
import builtins

REPO = os.environ.get('SA_REPO', '/repo')


class AnalysisBroken(Exception):
    """a public anchor the analysis depends on has vanished"""


class ClassInfo(object):
    def __init__(self, prog, mod, node, qual):
        self.prog = prog
        self.mod = mod
        self.node = node
        self.name = node.name
        self.qual = qual
        self.methods = {}
        self.props = {}      # name -> (getter FuncInfo or None, setter or None)
        self.attrs = {}      # class-level assignments name -> expr node
        for st in node.body:
            self._stmt(st)
        for name, (g, s) in list(self.props.items()):
            if isinstance(g, ast.AST) or isinstance(s, ast.AST):
                self.props[name] = (self._fn(g), self._fn(s))

    def _fn(self, e):
        if isinstance(e, ast.Name):
            n = mangle(e.id, self.name)
            if n in self.methods:
                return self.methods[n]
        if isinstance(e, ast.Lambda):
            return FuncInfo(self.mod, e, self, '<lambda>')
        return e if isinstance(e, FuncInfo) else None

    def _stmt(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = FuncInfo(self.mod, st, self, st.name)
            decs = [ast.unparse(d) for d in st.decorator_list]
            if 'property' in decs or 'abc.abstractproperty' in decs:
                self.props[st.name] = (f, self.props.get(st.name, (None, None))[1])
                return
            for d in decs:
                if d.endswith('.setter'):
                    self.props[st.name] = (self.props.get(st.name, (None, None))[0], f)
                    return
            f.static = 'staticmethod' in decs
            f.classm = 'classmethod' in decs
            f.decorated = [d for d in decs if d not in ('staticmethod', 'classmethod')]
            self.methods[mangle(st.name, self.name)] = f
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    v = st.value
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                        a = list(v.args) + [None, None]
                        kw = {k.arg: k.value for k in v.keywords}
                        self.props[t.id] = (kw.get('fget', a[0]), kw.get('fset', a[1]))
                    else:
                        self.attrs[mangle(t.id, self.name)] = v
                        if isinstance(v, ast.Name) and v.id in self.methods:
                            self.methods[t.id] = self.methods[v.id]
                        if isinstance(v, ast.Lambda):
                            self.methods[t.id] = FuncInfo(self.mod, v, self, t.id)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in ast.iter_child_nodes(st):
                if isinstance(s, ast.stmt):
                    self._stmt(s)

    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.prog.resolve_expr(self.mod, b)
            if isinstance(r, ClassInfo):
                out.append(r)
        return out

    def mro(self):
        m = getattr(self, '_mro', None)
        if m is None:
            m = c3(self)
            self._mro = m
        return m

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
            if name in c.props or name in c.attrs:
                return None
        return None

    def find_prop(self, name):
        for c in self.mro():
            if name in c.props:
                return c.props[name]
            if name in c.methods or name in c.attrs:
                return None
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
            if name in c.props or name in c.methods:
                return None
        return None

    def after(self, cls, name):
        """method lookup for super(cls, self).name"""
        m = self.mro()
        if cls in m:
            m = m[m.index(cls) + 1:]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def subclasses(self):
        return [c for c in self.prog.classes.values() if self in c.mro()]

    def __repr__(self):
        return '<class %s>' % self.qual


def c3(cls):
    def merge(seqs):
        res = []
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                # inconsistent: fall back to depth first
                for s in seqs:
                    for c in s:
                        if c not in res:
                            res.append(c)
                return res
            res.append(cand)
            for s in seqs:
                if s[0] is cand:
                    del s[0]
    bs = cls.bases()
    return [cls] + merge([list(b.mro()) for b in bs] + [list(bs)])


def mangle(name, clsname):
    if name.startswith('__') and not name.endswith('__') and clsname:
        return '_%s%s' % (clsname.lstrip('_'), name)
    return name


class FuncInfo(object):
    static = False
    classm = False
    decorated = ()

    def __init__(self, mod, node, cls, name):
        self.mod = mod
        self.node = node
        self.cls = cls
        self.name = name

    @property
    def qual(self):
        if self.cls is not None:
            return '%s.%s.%s' % (self.mod.name, self.cls.name, self.name)
        return '%s.%s' % (self.mod.name, self.name)

    @property
    def file(self):
        return self.mod.path

    @property
    def line(self):
        return self.node.lineno

    def __repr__(self):
        return '<func %s>' % self.qual


class Module(object):
    def __init__(self, prog, name, path, src):
        self.prog = prog
        self.name = name
        self.path = path
        self.src = src
        self.tree = normalise(ast.parse(src))
        self.is_pkg = path.endswith('__init__.py')
        self.globals = {}     # name -> ('func', FuncInfo)|('class', ClassInfo)|('import', modname, attr|None)|('assign', expr)
        self.stars = []
        self.assign_counts = {}
        for st in self.tree.body:
            self._stmt(st)

    def _pkg(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]

    def _stmt(self, st):
        if isinstance(st, ast.FunctionDef):
            self.globals[st.name] = ('func', FuncInfo(self, st, None, st.name))
        elif isinstance(st, ast.ClassDef):
            self.globals[st.name] = ('class', ClassInfo(self.prog, self, st, self.name + '.' + st.name))
            self.prog.classes[self.name + '.' + st.name] = self.globals[st.name][1]
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self.globals[a.asname] = ('import', a.name, None)
                else:
                    self.globals[a.name.split('.')[0]] = ('import', a.name.split('.')[0], None)
        elif isinstance(st, ast.ImportFrom):
            base = st.module or ''
            if st.level:
                pk = self._pkg().split('.')
                pk = pk[:len(pk) - (st.level - 1)]
                base = '.'.join(pk + ([st.module] if st.module else []))
            for a in st.names:
                if a.name == '*':
                    self.stars.append(base)
                else:
                    self.globals[a.asname or a.name] = ('import', base, a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        self.assign_counts[n.id] = self.assign_counts.get(n.id, 0) + 1
                        if isinstance(t, ast.Name):
                            self.globals[n.id] = ('assign', st.value)
                        else:
                            self.globals.setdefault(n.id, ('assign', None))
        elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for s in ast.walk(st):
                if s is st:
                    continue
                if isinstance(s, (ast.Import, ast.ImportFrom, ast.Assign, ast.FunctionDef, ast.ClassDef)):
                    if isinstance(s, ast.stmt) and _toplevel_in(st, s):
                        self._stmt(s)


def _toplevel_in(root, target):
    stack = [root]
    while stack:
        x = stack.pop()
        for c in ast.iter_child_nodes(x):
            if c is target:
                return True
            if not isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                stack.append(c)
    return False


class Program(object):
    def __init__(self, root=None, pkg='pybrain'):
        self.root = root or REPO
        self.modules = {}
        self.classes = {}
        self.errors = []
        base = os.path.join(self.root, pkg)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ('tests', '__pycache__'))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                with open(p, encoding='utf-8', errors='replace') as fh:
                    src = fh.read()
                try:
                    self.modules[rel] = Module(self, rel, os.path.relpath(p, self.root), src)
                except SyntaxError as e:
                    self.errors.append((p, str(e)))
        self._res = {}
        self._defs = None
        self._dicts = None
        self._consts = None

    def dict_attrs(self):
        """names of attributes that only ever hold dictionaries"""
        if self._dicts is None:
            yes, no = set(), set()

            def isdict(v):
                if isinstance(v, (ast.Dict, ast.DictComp)):
                    return True
                if isinstance(v, ast.Call):
                    f = v.func
                    n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
                    return n in ('dict', 'defaultdict', 'OrderedDict')
                return False
            for m in self.modules.values():
                for node in ast.walk(m.tree):
                    if isinstance(node, ast.Assign):
                        for t in node.targets:
                            for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                                if isinstance(e, ast.Attribute):
                                    (yes if e is t and isdict(node.value) else no).add(e.attr)
                    elif isinstance(node, (ast.AugAssign, ast.AnnAssign, ast.For)) and isinstance(node.target, ast.Attribute):
                        no.add(node.target.attr)
                    elif isinstance(node, ast.ClassDef):
                        for b in node.body:
                            if isinstance(b, ast.Assign) and not isdict(b.value):
                                no.update(t.id for t in b.targets if isinstance(t, ast.Name))
            self._dicts = yes - no
        return self._dicts

    def const_attrs(self):
        """names defined as one and the same number in class bodies, and never assigned otherwise"""
        if self._consts is None:
            val, no = {}, set()
            for m in self.modules.values():
                for node in ast.walk(m.tree):
                    if isinstance(node, ast.ClassDef):
                        for b in node.body:
                            if isinstance(b, ast.Assign):
                                try:
                                    v = ast.literal_eval(b.value)
                                except ValueError:
                                    v = None
                                for t in b.targets:
                                    for n in ast.walk(t):
                                        if isinstance(n, ast.Name):
                                            if type(v) not in (int, float) or val.setdefault(n.id, v) != v or not n.id.isupper():
                                                no.add(n.id)
                            elif isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                                no.add(b.name)
                    elif isinstance(node, ast.Attribute) and not isinstance(node.ctx, ast.Load):
                        no.add(node.attr)
            self._consts = dict((n, v) for n, v in val.items() if n not in no)
        return self._consts

    # -- resolution
    def resolve_global(self, mod, name, _seen=None):
        """-> FuncInfo | ClassInfo | ('mod', name) | ('ext', qual) | ('assign', mod, expr) | None"""
        key = (mod.name, name)
        if key in self._res:
            return self._res[key]
        _seen = _seen or set()
        if key in _seen:
            return None
        _seen.add(key)
        r = None
        g = mod.globals.get(name)
        if g is not None:
            if g[0] in ('func', 'class'):
                r = g[1]
            elif g[0] == 'assign':
                r = ('assign', mod, g[1], name)
                if isinstance(g[1], ast.Name):
                    r2 = self.resolve_global(mod, g[1].id, _seen)
                    if isinstance(r2, (FuncInfo, ClassInfo)):
                        r = r2
            else:
                r = self.resolve_import(g[1], g[2], _seen)
        else:
            for s in mod.stars:
                if s in self.modules:
                    r = self.resolve_global(self.modules[s], name, _seen)
                    if r is not None:
                        break
                    if s + '.' + name in self.modules:
                        r = ('mod', s + '.' + name)
                        break
            else:
                if hasattr(builtins, name):
                    r = ('ext', 'builtins.' + name)
                elif mod.stars:
                    ext = [s for s in mod.stars if s not in self.modules]
                    if ext:
                        r = ('ext', ext[0] + '.' + name)
        if (r is None or r[0:1] == ('ext',) and name not in mod.globals if isinstance(r, tuple) or r is None else False):
            fb = getattr(mod, 'fallback', None)
            if fb is not None:
                r = self.resolve_global(fb, name) or r
        self._res[key] = r
        return r

    def resolve_import(self, modname, attr, _seen=None):
        if attr is None:
            return ('mod', modname)
        if modname in self.modules:
            r = self.resolve_global(self.modules[modname], attr, _seen)
            if r is not None:
                return r
        if modname + '.' + attr in self.modules:
            return ('mod', modname + '.' + attr)
        return ('ext', modname + '.' + attr)

    def resolve_expr(self, mod, e):
        if isinstance(e, ast.Name):
            return self.resolve_global(mod, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if isinstance(b, tuple) and b[0] == 'mod':
                return self.resolve_import(b[1], e.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if isinstance(b, ClassInfo):
                return b.find(mangle(e.attr, None))
        return None

    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken('module %s not found' % name)
        return self.modules[name]

    def cls(self, path):
        """pkg.mod.Class -> ClassInfo (following re-exports)"""
        if path in self.classes:
            return self.classes[path]
        m, _, n = path.rpartition('.')
        if m in self.modules:
            r = self.resolve_global(self.modules[m], n)
            if isinstance(r, ClassInfo):
                return r
        # moved within the package: unique class of that name
        c = [x for x in self.classes.values() if x.name == n]
        if len(c) == 1:
            return c[0]
        raise AnalysisBroken('class %s not found' % path)

    def func(self, path):
        m, _, n = path.rpartition('.')
        if m in self.modules:
            r = self.resolve_global(self.modules[m], n)
            if isinstance(r, FuncInfo):
                return r
        raise AnalysisBroken('function %s not found' % path)

    # -- definitions by method name, purity
    def method_defs(self, name):
        if self._defs is None:
            d = {}
            for c in self.classes.values():
                for n, f in c.methods.items():
                    d.setdefault(n, []).append(f)
            self._defs = d
        return self._defs.get(name, [])

    def all_functions(self):
        for m in self.modules.values():
            for g in m.globals.values():
                if g[0] == 'func':
                    yield g[1]
        for c in self.classes.values():
            for f in c.methods.values():
                yield f
            for g, s in c.props.values():
                for f in (g, s):
                    if isinstance(f, FuncInfo):
                        yield f
