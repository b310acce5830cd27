"""Value-numbering evaluator: one pass over a function's syntax tree computes a
summary (guarded event trace, final heap, return value) as canonical terms.

Branches are merged into gated terms (if-conversion), loops are summarised as
binders by recognising inductions, accumulations, searches and general folds.
No path is enumerated and nothing is executed; helpers are inlined so that
moving code into a function does not change the summary.
"""
import ast
from .terms import *
from . import terms as TM
from .loader import FuncInfo, ClassInfo, mangle

UNDEF = mk('sym', '?undef')
INF = mk('const', 'inf_iter')

ARRAY_ATTRS = {'params', 'derivs', '_params', '_derivs', 'inputbuffer', 'outputbuffer', 'inputerror', 'outputerror',
               'indata', 'hidden', 'maskableParams', 'mask', 'values'}
MATRIX_ATTRS = {'inputbuffer', 'outputbuffer', 'inputerror', 'outputerror'}
ARRAY_PARAMS = {'inbuf', 'outbuf', 'inerr', 'outerr', 'buf', 'inputBuffer', 'outputBuffer', 'errorBuffer'}

# methods of library objects (files, sockets, XML nodes) with an effect
EXT_WRITERS = {'setAttribute', 'appendChild', 'removeChild', 'insertBefore', 'write', 'writelines', 'dump', 'close', 'flush', 'seek',
               'send', 'sendto', 'bind', 'connect', 'createVariable', 'createDimension', 'start', 'kill'}
PURE_METHODS = {'copy', 'sum', 'mean', 'max', 'min', 'argmax', 'argmin', 'flatten', 'ravel', 'reshape', 'dot', 'transpose',
                'astype', 'tolist', 'any', 'all', 'std', 'var', 'prod', 'keys', 'values', 'items', 'get', 'index', 'count',
                'split', 'strip', 'join', 'format', 'startswith', 'endswith', 'lower', 'upper', 'replace', 'nonzero',
                'has_key', 'iteritems', 'iterkeys', 'itervalues', 'round', 'cumsum', 'trace', 'conj', 'union',
                'intersection', 'difference', 'issubset', 'issuperset', 'rstrip', 'lstrip', 'isdigit', 'find', 'argsort', 'squeeze',
                'clip', 'diagonal', 'repeat', 'take', 'item', '__getitem__', 'searchsorted', 'is_integer'}
IGNORED_CALLS = {'print', 'logging.warning', 'logging.info', 'logging.debug', 'logging.error', 'warn', 'warnings.warn'}
IDENT_FUNCS = {'asarray', 'asanyarray', 'iter', 'float', 'atleast_1d', 'ascontiguousarray', 'xrange_'}
FRESH_FUNCS = {'array', 'list', 'tuple', 'copy.copy', 'ravel_', 'deepcopy'}


def canon_ext(q):
    parts = q.split('.')
    root = parts[0]
    if 'random' in parts[:-1]:
        return 'random.' + parts[-1]
    if root in ('numpy', 'scipy', 'math', 'pylab', 'builtins', 'operator', 'functools', 'itertools', 'matplotlib', 'string'):
        n = parts[-1]
        return {'asanyarray': 'asarray', 'absolute': 'abs', 'fabs': 'abs', 'amax': 'max', 'amin': 'min', 'fsum': 'sum',
                'concatenate': 'concatenate', 'true_divide': 'divide', 'power': 'pow', 'around': 'round',
                'alltrue': 'all', 'sometrue': 'any', 'product': 'prod', 'xrange': 'range', 'inner': 'dot', 'imap': 'map', 'izip': 'zip',
                'infty': 'inf', 'Inf': 'inf', 'ravel': 'flatten'}.get(n, n)
    if root == 'copy':
        return {'copy': 'copy.copy', 'deepcopy': 'deepcopy'}.get(parts[-1], q)
    return q


class Frame(object):
    __slots__ = ('func', 'cls', 'mod', 'selfname')

    def __init__(self, func, cls, mod, selfname=None):
        self.func = func
        self.cls = cls      # defining class
        self.mod = mod
        self.selfname = selfname


class Thunk(ast.Pass):
    """a statement whose effect is given by a function"""
    def __init__(self, run):
        ast.Pass.__init__(self)
        self.run = run


class State(object):
    __slots__ = ('env', 'heap', 'contents', 'epoch', 'raised', 'returned', 'ret', 'brk', 'cont', 'trace', 'assume', 'dup', 'approx')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.contents = {}
        self.epoch = {}
        self.raised = FALSE
        self.returned = FALSE
        self.ret = NONE
        self.brk = FALSE
        self.cont = FALSE
        self.trace = []
        self.assume = ()
        self.dup = {}
        self.approx = False

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.contents = dict(self.contents)
        s.epoch = dict(self.epoch)
        s.raised = self.raised
        s.returned = self.returned
        s.ret = self.ret
        s.brk = self.brk
        s.cont = self.cont
        s.trace = []
        s.assume = self.assume
        s.dup = dict(self.dup)
        s.approx = self.approx
        return s

    def live(self):
        if self.raised is FALSE and self.returned is FALSE and self.brk is FALSE and self.cont is FALSE:
            return TRUE
        return not_(or_(self.raised, self.returned, self.brk, self.cont))


def restrict(c, g):
    """simplify diagram c given that boolean diagram g holds (don't care elsewhere)"""
    if g is TRUE or not support(c) or g.op != 'ite':
        return c
    memo = {}

    def go(c, g):
        if g is FALSE:
            return None
        if g is TRUE or c.op != 'ite':
            return c
        k = (c, g)
        if k in memo:
            return memo[k]
        TM._tick()
        a = topatom((c, g))
        hi = go(constrain(c, a, True), constrain(g, a, True))
        lo = go(constrain(c, a, False), constrain(g, a, False))
        if hi is None:
            r = lo
        elif lo is None:
            r = hi
        elif hi is lo:
            r = hi
        else:
            r = mk_ite(a, hi, lo)
        memo[k] = r
        return r
    r = go(c, g)
    return c if r is None else r


class Unsupported(Exception):
    pass


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'add', 'discard', 'update', 'clear', 'setdefault',
            'fill', 'popitem', 'resize', 'itemset', 'put'}


def ddwalk(t):
    """the nodes of a decision diagram and its leaves, once each"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'ite':
            todo += x.args[1:]


def stored_names(nodes):
    return [n.id for b in nodes for n in ast.walk(b) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)]


def exposed(body, bound):
    """names the statements both assign and may read before that"""
    stored = set(stored_names(body)) - bound
    if not stored:
        return ()
    out = set()

    def reads(n, have):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and (isinstance(x.ctx, ast.Load) or isinstance(n, ast.AugAssign) and x is n.target) \
                    and x.id in stored and x.id not in have:
                out.add(x.id)

    def go(sts, have):
        for s in sts:
            if isinstance(s, ast.If):
                reads(s.test, have)
                h1, h2 = set(have), set(have)
                e1, e2 = go(s.body, h1), go(s.orelse, h2)
                if e1 and e2:
                    return True
                have |= h1 & h2 if not e1 and not e2 else h2 if e1 else h1
            elif isinstance(s, (ast.For, ast.While)):
                reads(s.iter if isinstance(s, ast.For) else s.test, have)
                h = set(have)
                if isinstance(s, ast.For):
                    h |= set(stored_names([s.target]))
                go(s.body, h)
                go(s.orelse, set(have))
            elif isinstance(s, ast.With):
                for it in s.items:
                    reads(it.context_expr, have)
                    if it.optional_vars is not None:
                        have |= set(stored_names([it.optional_vars]))
                if go(s.body, have):
                    return True
            elif isinstance(s, ast.Try):
                h = set(have)
                go(s.body, h)
                for x in s.handlers:
                    go(x.body, set(have))
                go(s.finalbody, set(have))
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                have.add(s.name)
            else:
                reads(s, have)
                have |= set(stored_names([s]))
                if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                    return True
        return False
    go(body, set(bound))
    comp = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.comprehension):
                comp |= set(stored_names([n.target]))
            elif isinstance(n, (ast.Lambda, ast.FunctionDef)):
                comp |= set(a.arg for a in n.args.args)
    return tuple(sorted(out - comp))


class Purity(object):
    """syntactic may-mutate analysis of methods, by name, over the whole program"""

    def __init__(self, prog):
        self.prog = prog
        self.local = {}
        self.names_impure = set()
        self.defined = set(f.node.name for f in prog.all_functions() if hasattr(f.node, 'name'))
        calls = {}
        defs = {}
        for f in prog.all_functions():
            imp, cs = self.scan(f)
            n = f.node.name if hasattr(f.node, 'name') else f.name
            defs.setdefault(n, []).append(f)
            if imp:
                self.names_impure.add(n)
            calls.setdefault(n, set()).update(cs)
        changed = True
        while changed:
            changed = False
            for n, cs in calls.items():
                if n not in self.names_impure and cs & self.names_impure:
                    self.names_impure.add(n)
                    changed = True
        self.names_impure |= {'next', 'shuffle', 'seed'}
        # attribute names a method of this name may write / read, transitively
        self.mods = {}
        self.reads = {}
        for f in prog.all_functions():
            n = f.node.name if hasattr(f.node, 'name') else f.name
            w, r = self.effects(f)
            self.mods.setdefault(n, set()).update(w)
            self.reads.setdefault(n, set()).update(r)
        # property accesses run the accessors
        for c in prog.classes.values():
            for pn, (g, st) in c.props.items():
                for f in (g, st):
                    if isinstance(f, FuncInfo):
                        w, r = self.effects(f)
                        self.mods.setdefault('prop:' + pn, set()).update(w)
                        self.reads.setdefault('prop:' + pn, set()).update(r)
                        calls.setdefault('prop:' + pn, set()).update(self.scan(f)[1])
        changed = True
        while changed:
            changed = False
            for n in list(self.mods):
                w, r = self.mods[n], self.reads[n]
                lw, lr = len(w), len(r)
                for c in list(calls.get(n, ())) + ['prop:' + x for x in list(r | w)]:
                    if c in self.mods:
                        w |= self.mods[c]
                        r |= self.reads[c]
                if len(w) != lw or len(r) != lr:
                    changed = True

    def effects(self, f):
        w, r = set(), set()
        node = f.node
        alias = {}
        local = set()
        args = [a.arg for a in node.args.args]
        selfn = args[0] if f.cls is not None and not f.static and args else None
        params = set(args)
        params.discard(selfn)

        def last_attr(e):
            while isinstance(e, (ast.Subscript, ast.Starred)):
                e = e.value
            if isinstance(e, ast.Attribute):
                return {e.attr}
            if isinstance(e, ast.Name):
                if e.id in local and e.id not in alias:
                    return set()
                if e.id in alias:
                    return alias[e.id]
                if e.id in params:
                    return {'*arr'}
                if e.id == selfn:
                    return {'*self'}
            if isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.BinOp)):
                return set()
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Name) and e.func.id in ('enumerate', 'zip', 'reversed', 'iter', 'list', 'sorted'):
                    o = set()
                    for a in e.args:
                        o |= last_attr(a)
                    return o
                if isinstance(e.func, ast.Attribute):
                    return {e.func.attr} if self.prog.method_defs(e.func.attr) else last_attr(e.func.value)
                return set()
            return {'*'}
        for rounds in range(2):
            for n in ast.walk(node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            v = n.value
                            if isinstance(v, (ast.Attribute, ast.Subscript, ast.Name)):
                                alias[t.id] = alias.get(t.id, set()) | last_attr(v)
                            elif isinstance(v, ast.IfExp):
                                alias[t.id] = alias.get(t.id, set()) | last_attr(v.body) | last_attr(v.orelse)
                            else:
                                local.add(t.id)
                        elif isinstance(t, ast.Tuple):
                            for x in t.elts:
                                if isinstance(x, ast.Name):
                                    local.add(x.id)
                                    if isinstance(n.value, (ast.Attribute, ast.Subscript)):
                                        alias[x.id] = alias.get(x.id, set()) | last_attr(n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    src = last_attr(n.iter)
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            local.add(x.id)
                            if src:
                                alias[x.id] = alias.get(x.id, set()) | src
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute):
                if isinstance(n.ctx, ast.Load):
                    r.add(n.attr)
                else:
                    w.add(n.attr)
            elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                w |= last_attr(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                if n.target.id in alias or n.target.id in params:
                    w |= last_attr(n.target)
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute) and fn.attr in MUTATORS:
                    w |= last_attr(fn.value)
                elif isinstance(fn, ast.Name) and fn.id in ('setattr', 'delattr', 'exec', 'eval'):
                    w.add('*')
        w.discard('*self')
        return w, r

    def may_write(self, name):
        return self.mods.get(name)

    def may_read(self, name):
        return self.reads.get(name)

    def scan(self, f):
        """(has direct heap effect other than on locals it created, names of program methods called)"""
        imp = False
        calls = set()
        node = f.node
        local = set()
        params = set(a.arg for a in node.args.args)
        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            if isinstance(n.value, (ast.List, ast.ListComp, ast.Dict, ast.Call, ast.BinOp, ast.DictComp, ast.Set, ast.SetComp)) \
                                    and isinstance(t, ast.Name):
                                local.add(x.id)
        dyn = set(n.targets[0].id for n in ast.walk(node) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)
                  and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'getattr')
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in dyn:
                imp = True
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in local:
                    continue
                imp = True
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                pass
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in params:
                imp = True
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute):
                    if fn.attr in MUTATORS:
                        b = fn.value
                        if isinstance(b, ast.Name) and b.id in local:
                            continue
                        imp = True
                    elif fn.attr in PURE_METHODS:
                        continue
                    elif fn.attr in EXT_WRITERS and not self.prog.method_defs(fn.attr):
                        imp = True
                    else:
                        r = self.prog.resolve_expr(f.mod, fn)
                        if isinstance(r, tuple) and r[0] in ('ext',):
                            if 'random' in r[1]:
                                imp = True
                            continue
                        calls.add(fn.attr)
                elif isinstance(fn, ast.Name):
                    if fn.id in ('setattr', 'exec', 'eval', 'delattr', 'next'):
                        imp = True
                    r = self.prog.resolve_global(f.mod, fn.id)
                    if isinstance(r, FuncInfo):
                        calls.add(r.node.name)
                    elif isinstance(r, tuple) and r[0] == 'ext' and 'random' in r[1]:
                        imp = True
        return imp, calls

    def pure(self, name):
        if name in self.names_impure:
            return False
        return name in self.defined or bool(self.prog.method_defs(name)) or name in PURE_METHODS


def purity(prog):
    p = getattr(prog, '_purity', None)
    if p is None:
        p = prog._purity = Purity(prog)
    return p


class Evaluator(object):
    unroll_max = 6
    def __init__(self, prog, events=(), inline=(), types=None, pure=(), impure=(), arrays=(), maxdepth=10, opaque_self=False,
                 nomutate=(), frame=None):
        self.prog = prog
        self.frame = frame or {}
        self.events = set(events)
        self.viewof = {}
        self.given = {}
        self.inline = set(inline)
        self.types = dict(types or {})
        self.pureset = set(pure)
        self.impure = set(impure)
        self.arrays = ARRAY_ATTRS | set(arrays)
        self.purity = purity(prog)
        self.maxdepth = maxdepth
        self.stack = []
        self.clos = {}
        self.nloop = 0
        self.nobj = 0
        self.tries = {}
        self.listcv = set()
        self.ords = []
        self.funcs = {}
        self.selfcls = None
        self.selfsym = None
        self.called = set()
        self.notes = []
        self.inlined = set()
        self.boxes = None

    # ------------------------------------------------------------------ objects
    def newobj(self, st, content):
        self.nobj += 1
        o = mk('obj', self.nobj)
        st.contents[o] = content
        return o

    def val(self, st, t):
        """current value of a possibly-reference term"""
        if t.op == 'ite':
            return apply(lambda x: self.val(st, x), t)
        op = t.op
        if op == 'obj':
            return st.contents.get(t, t)
        if op in ('attr', 'sym', 'after', 'call'):
            return st.contents.get(t, t)
        if op == 'idx':
            c = st.contents.get(t)
            if c is not None:
                return c
            b, i = t.args
            if i.op == 'slice' or self.is_matrix(b) or b.op == 'obj':
                vb = self.val(st, b)
                if vb is not b:
                    return idx(vb, i)
            return t
        return t

    def is_matrix(self, b):
        while b.op in ('after',):
            b = b.args[1]
        return b.op == 'attr' and b.args[1] in MATRIX_ATTRS

    def is_array(self, t):
        if t.op == 'obj':
            return True
        while t.op in ('after', 'idx'):
            if t.op == 'idx':
                if t.args[1].op == 'slice' or self.is_matrix(t.args[0]) or t.args[1].op == 'tuple' and any(
                        x.op == 'slice' for x in t.args[1].args):
                    t = t.args[0]
                    continue
                return False
            t = t.args[1]
        if t.op == 'attr':
            return t.args[1] in self.arrays
        if t.op == 'sym':
            return t.args[0] in self.array_syms
        return False

    def mat(self, st, t, _seen=()):
        """materialise: replace references to local objects by their contents"""
        if t.op == 'ite':
            return apply(lambda x: self.mat(st, x, _seen), t)
        if t.op == 'clo':
            return self.lam_term(st, t)
        if t in _seen:
            return mk('sym', '?cyc')
        v = self.val(st, t)
        return self.deep(st, v, _seen + ((t,) if t.op == 'obj' else ()))

    def deep(self, st, v, _seen):
        objs = [x for x in walk(v) if x.op in ('obj', 'clo')]
        if not objs:
            return v
        m = {}
        for o in objs:
            if o in _seen:
                m[o] = mk('sym', '?cyc')
            elif o.op == 'clo':
                m[o] = self.lam_term(st, o)
            else:
                c = st.contents.get(o)
                if c is None:
                    m[o] = mk('sym', '?obj')
                elif c is v:
                    m[o] = mk('sym', '?cyc')
                else:
                    m[o] = self.mat(st, c, _seen + (o,))
        return subst(v, m)

    def lam_term(self, st, clo):
        node, env, frame = self.clos[clo.args[0]]
        if clo in self.stack or len(self.stack) > self.maxdepth:
            return mk('sym', '?lam')
        args = node.args
        if args.vararg or args.kwarg:
            return mk('sym', '?lam')
        ovs = [mk('ord', '$l%d' % self.fresh_id()) for _ in args.args]
        s = st.copy()
        try:
            r = self.call_closure(s, clo, list(ovs), {})
        except (Unsupported, TooBig):
            return mk('sym', '?lam')
        r = self.mat(s, r)
        if s.trace:
            r = lift('lamtr', r, self.trace_term(s, s.trace))
        for o in reversed(ovs):
            r = mkbinder('lam', o, (), (r,))
        return r

    def trace_term(self, st, tr):
        """the events of a nested function or local generator as one term"""
        items = []
        for x in tr:
            if x[0] == 'ev':
                recv = x[2] if isinstance(x[2], T) else NONE
                args = tuple(a if isinstance(a, T) else string(str(a)) for a in x[3])
                kws = []
                for k, v in x[4]:
                    kws.append(string(str(k)))
                    kws.append(v if isinstance(v, T) else string(str(v)))
                items.append(lift('tev', string(str(x[1])), self.mat(st, recv),
                                  *[self.mat(st, a) for a in args + tuple(kws)]))
            elif x[0] == 'raise':
                items.append(mk('tev', string('raise ' + str(x[1])), NONE))
            elif x[0] == 'if':
                items.append(ite(x[1], self.trace_term(st, x[2]), self.trace_term(st, x[3])))
            elif x[0] == 'loop':
                items.append(mkbinder('tloop', x[2], (x[1],), (self.trace_term(st, x[4]),)))
        items = [x for x in items if x is not TSEQ0]
        return lift('tseq', *items) if items else TSEQ0

    def gen_term(self, st, clo, args, kw):
        """a local generator: the sequence of its events, yields included"""
        node, env, frame = self.clos[clo.args[0]]
        s = st.copy()
        s.trace = []
        fi = FuncInfo(frame.mod, node, frame.cls, node.name)
        try:
            self.inline_func(s, fi, args, kw, env=dict(env), key=clo, frame=Frame(frame.func, frame.cls, frame.mod))
        except (Unsupported, TooBig):
            return mk('sym', '?gen')
        return lift('genobj', self.trace_term(s, s.trace))

    def fresh_id(self):
        self.nloop += 1
        return self.nloop

    # ------------------------------------------------------------------ heap
    def read_attr(self, st, b, name):
        if b.op == 'ite':
            r = apply(lambda x: self.read_attr(st, x, name), b)
            return r
        loc = mk('attr', b, name)
        v = st.heap.get(loc)
        if v is not None:
            return self.simp(st, v)
        return self.default_read(st, loc)

    def default_read(self, st, loc):
        if not st.epoch:
            return loc
        best = None
        x = loc
        names = []
        if x.op == 'attr':
            names.append(x.args[1])
        x = x.args[0]
        while True:
            for e in st.epoch.get(x, {}).values():
                if (best is None or e[0] > best[0]) and self.hits(e[2], names):
                    best = e
            if x.op == 'attr':
                names.append(x.args[1])
            if x.op in ('attr', 'idx'):
                x = x.args[0]
            elif x.op == 'after':
                break
            else:
                break
        if best is None:
            return loc
        return mk('after', best[1], loc)

    def hits(self, mods, names):
        if mods is None or '*' in mods:
            return True
        for n in names:
            if n in mods or ('*arr' in mods and n in self.arrays):
                return True
        return False

    def simp(self, st, v):
        if v.op == 'ite' and st.assume:
            for g in st.assume:
                if support(v) & support(g):
                    v = restrict(v, g)
        return v

    def write_attr(self, st, b, name, v):
        if b.op == 'ite':
            for lits, leaf in leaves(b):
                c = TRUE
                for a, val_ in lits:
                    c = and_(c, atomvar(a) if val_ else not_(atomvar(a)))
                old = self.read_attr(st, leaf, name)
                self.write_attr(st, leaf, name, ite(c, v, old))
            return
        loc = mk('attr', b, name)
        st.heap[loc] = v
        # writes below the old object are no longer visible through this name
        for k in [k for k in st.heap if k is not loc and under(k, loc)]:
            del st.heap[k]

    def mutate(self, st, ref, newval):
        """in-place update of the object denoted by ref"""
        if ref.op == 'ite':
            ls = leafset(ref)
            if all(l.op == 'idx' for l in ls) and len(set(l.args[1] for l in ls)) == 1:
                base = apply(lambda l: l.args[0], ref)
                own = [k for k, v in st.contents.items() if v is base and k.op in ('obj', 'attr', 'sym')]
                if len(own) == 1 and base.op == 'ite':
                    self.mutate(st, own[0], store(base, next(iter(ls)).args[1], newval))
                    return
            for lits, leaf in leaves(ref):
                c = TRUE
                for a, val_ in lits:
                    c = and_(c, atomvar(a) if val_ else not_(atomvar(a)))
                nv = newval
                for a, val_ in lits:
                    nv = constrain(nv, a, val_)
                self.mutate(st, leaf, ite(c, nv, self.val(st, leaf)))
            return
        if ref.op == 'fresh':
            return
        if ref.op == 'idx':
            b, i = ref.args
            if i.op == 'slice' or self.is_matrix(b) or b.op == 'obj' or i.op == 'tuple':
                self.mutate(st, b, store(self.val(st, b), i, newval))
                return
            o = self.owner(st, b)
            if o is not None:
                self.mutate(st, o, store(b, i, newval))
                return
            st.contents[ref] = newval
            return
        if ref.op in ('obj', 'attr', 'sym', 'after', 'call'):
            st.contents[ref] = newval
            return
        # not a reference: cannot be mutated in place (callers rebind)

    def owner(self, st, b):
        """the one local container whose current content is the value b (an element of it is being changed in place)"""
        if b.op == 'idx':
            return b if self.owner(st, b.args[0]) is not None else None
        if b.op not in ('fold', 'mapstore', 'store', 'cv', 'cvat', 'cvk', 'dict'):
            return None
        own = [k for k, v in st.contents.items() if v is b and k.op in ('obj', 'attr', 'sym')]
        return own[0] if len(own) == 1 else None

    def havoc(self, st, base, evid):
        if base.op == 'ite':
            for l in leafset(base):
                self.havoc(st, l, evid)
            return
        if base.op not in ('sym', 'attr', 'idx', 'after', 'obj', 'call', 'ord', 'inst'):
            return
        self.nepoch = getattr(self, 'nepoch', 0) + 1
        nm = evid.rpartition('.')[0].lstrip('.')
        short = nm.rsplit('.', 1)[-1]
        mods = self.frame[short] if short in self.frame else self.purity.may_write(short)
        ep = dict(st.epoch.get(base, {}))
        ep[nm] = (self.nepoch, evid, frozenset(mods) if mods is not None else None)
        st.epoch[base] = ep
        for k in [k for k in st.heap if under(k, base)]:
            if self.hits(mods, self.chain(k, base)):
                del st.heap[k]
        for k in [k for k in st.contents if under(k, base)]:
            if self.hits(mods, self.chain(k, base)):
                del st.contents[k]

    def chain(self, k, base):
        out = []
        while k is not base and k.args and isinstance(k.args[0], T):
            if k.op == 'attr':
                out.append(k.args[1])
            if k.op == 'after':
                k = k.args[1]
                continue
            k = k.args[0]
        return out

    # ------------------------------------------------------------------ entry
    def summarise(self, func, selfcls=None, pnames=None, argterms=None, extra_env=None, init=None):
        """summary of func with symbolic parameters"""
        reset_limit()
        st = State()
        args = func.node.args
        allp = [a.arg for a in args.args]
        self.array_syms = set(ARRAY_PARAMS)
        env = st.env
        names = []
        if func.cls is not None and not func.static and allp:
            self.selfsym = sym('self')
            self.selfcls = selfcls or func.cls
            env[allp[0]] = self.selfsym
            self.types[self.selfsym] = self.selfcls
            rest = allp[1:]
        else:
            rest = allp
        ndef = len(args.defaults)
        defaults = dict(zip(allp[len(allp) - ndef:], args.defaults)) if ndef else {}
        self.defaults = {}
        frame = Frame(func, func.cls, func.mod)
        for n, p in enumerate(rest):
            if pnames is not None:
                if n < len(pnames):
                    cname = pnames[n]
                    # keyword-compatible reordering is API: map by name when present
                    env[p] = self.given.get(cname, sym(cname))
                else:
                    if p in defaults:
                        env[p] = self.eval_in(st, defaults[p], frame)
                    else:
                        env[p] = sym(p)
                        self.notes.append('extra parameter %s' % p)
            else:
                env[p] = sym(p)
            if p in ARRAY_PARAMS and env[p].op == 'sym':
                self.array_syms.add(env[p].args[0])
            names.append(p)
            if p in defaults:
                try:
                    self.defaults[n] = self.eval_in(st.copy(), defaults[p], frame)
                except (Unsupported, TooBig):
                    self.defaults[n] = sym('?')
        if argterms:
            env.update(argterms)
        for a in args.kwonlyargs:
            env[a.arg] = sym(a.arg)
        if args.vararg:
            env[args.vararg.arg] = sym('*args')
        if args.kwarg:
            env[args.kwarg.arg] = sym('**kw')
        if init:
            init(self, st)
        self.frames = [frame]
        self.stack = [func] + list(getattr(self, 'extra_stack', ()))
        if isinstance(func.node, ast.Lambda):
            st.ret = self.ev(st, func.node.body)
            st.returned = TRUE
        else:
            self.block(st, func.node.body)
        return self.finish(st, func, names)

    def eval_in(self, st, node, frame):
        old = getattr(self, 'frames', [])
        self.frames = old + [frame]
        try:
            return self.ev(st, node)
        finally:
            self.frames = old

    def finish(self, st, func, names):
        s = Summary()
        s.func = func
        s.params = names
        s.defaults = self.defaults
        s.raised = st.raised
        normal = not_(st.raised)
        s.ret = restrict(self.mat(st, ite(st.returned, st.ret, NONE)), normal)
        s.ret_ref = st.ret
        s.trace = self.mat_trace(st, st.trace)
        s.heap = {}
        locs = set(k for k in st.heap if not any(x.op == 'ord' for x in walk(k)))
        for r in st.contents:
            if any(x.op == 'ord' for x in walk(r)):
                continue
            if r.op in ('attr', 'sym', 'idx', 'after', 'call'):
                locs.add(r)
        for loc in sorted(locs, key=lambda x: x.key):
            if loc in st.heap:
                b = st.heap[loc]
                v = self.mat(st, b)
            else:
                if self.shadowed(st, loc):
                    continue
                b = loc
                v = self.mat(st, loc)
            v = restrict(v, normal)
            s.heap[self.deep(st, loc, ())] = v
        s.final = st
        s.called = self.called
        s.approx = st.approx
        s.notes = list(self.notes)
        s.inlined = set(self.inlined)
        return s

    def shadowed(self, st, loc):
        return False

    def mat_trace(self, st, tr):
        return tr

    # ------------------------------------------------------------------ statements
    def block(self, st, stmts):
        for k, s in enumerate(stmts):
            self.stmt(st, s)
            l = st.live()
            if l is TRUE:
                continue
            if l is FALSE:
                return
            if k + 1 == len(stmts):
                return
            rest = stmts[k + 1:]
            s1 = st.copy()
            s1.assume = st.assume + (l,)
            s1.raised = s1.returned = s1.brk = s1.cont = FALSE
            self.block(s1, rest)
            self.merge_into(st, l, s1, st.copy_flags_view())
            return

    def merge_into(self, st, c, s1, s2):
        """st := c ? s1 : s2"""
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k, UNDEF), s2.env.get(k, UNDEF)
            env[k] = a if a is b else (a if b is UNDEF else b if a is UNDEF else ite(c, a, b))
        heap = {}
        for k in set(s1.heap) | set(s2.heap):
            a = s1.heap.get(k)
            b = s2.heap.get(k)
            if a is None:
                a = self.default_read(s1, k) if k.op == 'attr' else k
            if b is None:
                b = self.default_read(s2, k) if k.op == 'attr' else k
            heap[k] = a if a is b else ite(c, a, b)
        cont = {}
        for k in set(s1.contents) | set(s2.contents):
            a = s1.contents.get(k)
            b = s2.contents.get(k)
            if k.op == 'obj':
                if a is None or b is None:
                    cont[k] = a if a is not None else b
                    continue
            else:
                a = k if a is None else a
                b = k if b is None else b
            cont[k] = a if a is b else ite(c, a, b)
        # what happened on a path that has ended is not in the past of what follows
        e1, e2 = (x.raised is TRUE or x.returned is TRUE for x in (s1, s2))
        p1, p2 = (s2 if e1 and not e2 else s1), (s1 if e2 and not e1 else s2)
        epoch = dict(p1.epoch)
        for k, d in p2.epoch.items():
            e = dict(epoch.get(k, {}))
            for nm, v in d.items():
                if nm not in e or e[nm][0] < v[0]:
                    e[nm] = v
            epoch[k] = e
        # a location read under an epoch that only one side has
        tr1, tr2 = s1.trace, s2.trace
        st.raised = ite(c, s1.raised, s2.raised)
        st.returned = ite(c, s1.returned, s2.returned)
        st.ret = s1.ret if s1.ret is s2.ret else ite(c, s1.ret, s2.ret)
        st.brk = ite(c, s1.brk, s2.brk)
        st.cont = ite(c, s1.cont, s2.cont)
        st.env, st.heap, st.contents, st.epoch = env, heap, cont, epoch
        for k in set(p1.dup) | set(p2.dup):
            st.dup[k] = max(p1.dup.get(k, 0), p2.dup.get(k, 0))
        st.approx = s1.approx or s2.approx
        if tr1 or tr2:
            st.trace.append(('if', c, tr1, tr2))

    def split(self, st, c):
        s1, s2 = st.copy(), st.copy()
        s1.assume = st.assume + (c,)
        s2.assume = st.assume + (not_(c),)
        return s1, s2

    def cond(self, st, node):
        c = truth(self.val(st, self.ev(st, node)))
        for g in st.assume:
            c = restrict(c, g)
        return c

    def stmt(self, st, s):
        m = getattr(self, 's_' + s.__class__.__name__, None)
        if m is None:
            raise Unsupported('statement %s' % s.__class__.__name__)
        self.cur = s
        if self.boxes is None:
            m(st, s)
            return
        old = dict(st.env)
        m(st, s)
        for k, v in list(st.env.items()):
            if v.op == 'ite' and old.get(k) is not v:
                st.env[k] = self.box(v)

    def box(self, v):
        """names a numeric case distinction: the value of a local becomes an atom that stands for it (used when the cases of one
        local multiply with those of the next); a case that is itself such an atom is expanded first, so that a bound written in two
        steps is the same case distinction"""
        for _ in range(4):
            ls = set(x for x in ddwalk(v) if x.op != 'ite')
            inner = [x for x in ls if x.op == 'box']
            if not inner:
                break
            v = subst(v, {x: x.args[0] for x in inner})
        if v.op != 'ite' or not all(x.op in ('num', 'poly', 'call', 'res', 'sym', 'attr', 'idx') for x in ls) or \
                not any(x.op in ('num', 'poly') for x in ls):
            return v
        b = mk('box', v)
        if b not in self.boxes:
            self.boxes.append(b)
        return b

    def s_Pass(self, st, s):
        pass

    def s_Global(self, st, s):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, st, s):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = mk('glob', 'mod:' + (a.name if a.asname else a.name.split('.')[0]))

    def s_ImportFrom(self, st, s):
        for a in s.names:
            r = self.prog.resolve_import(s.module or '', a.name)
            st.env[a.asname or a.name] = self.globterm(r)

    def s_Expr(self, st, s):
        if isinstance(s.value, ast.Constant):
            return
        v = s.value
        if isinstance(v, ast.GeneratorExp):
            return
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('map', 'filter') and v.func.id not in st.env and v.args:
            for a in v.args:            # lazy: nothing is applied
                self.ev(st, a)
            return
        self.ev(st, v)

    def s_Return(self, st, s):
        v = self.ev(st, s.value) if s.value is not None else NONE
        st.ret = v
        st.returned = TRUE

    def s_Break(self, st, s):
        st.brk = TRUE

    def s_Continue(self, st, s):
        st.cont = TRUE

    def s_Raise(self, st, s):
        if s.exc is None:
            name = 'reraise'
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            name = ast.unparse(e).rsplit('.', 1)[-1]
        st.trace.append(('raise', name, s.lineno))
        st.raised = TRUE

    def s_Assert(self, st, s):
        c = self.cond(st, s.test)
        if c is TRUE:
            return
        s1 = st.copy()
        s2 = st.copy()
        s2.trace.append(('raise', 'AssertionError', s.lineno))
        s2.raised = TRUE
        self.merge_into(st, c, s1, s2)

    def s_FunctionDef(self, st, s):
        st.env[s.name] = self.closure(st, s)

    def s_ClassDef(self, st, s):
        st.env[s.name] = mk('sym', 'localclass:' + s.name)

    def s_Delete(self, st, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(st, t.value)
                i = self.ev_index(st, t.slice)
                self.mutate_node(st, t.value, b, del_at(self.val(st, b), i))
            elif isinstance(t, ast.Attribute):
                b = self.ev(st, t.value)
                self.write_attr(st, b, t.attr, mk('sym', '?deleted'))

    def s_If(self, st, s):
        c = self.cond(st, s.test)
        if c is TRUE:
            return self.block(st, s.body)
        if c is FALSE:
            return self.block(st, s.orelse)
        s1, s2 = self.split(st, c)
        self.block(s1, s.body)
        self.block(s2, s.orelse)
        self.merge_into(st, c, s1, s2)

    def s_With(self, st, s):
        for it in s.items:
            v = self.ev(st, it.context_expr)
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, v)
        self.block(st, s.body)
        for it in reversed(s.items):
            c = it.context_expr
            if isinstance(it.optional_vars, ast.Name) and isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
                    c.func.id == 'open':
                # leaving the block closes the file
                call = ast.Expr(ast.Call(ast.Attribute(ast.Name(it.optional_vars.id, ast.Load()), 'close', ast.Load()), [], []))
                self.block(st, [ast.fix_missing_locations(ast.copy_location(call, s))])

    def s_Try(self, st, s):
        if not s.handlers:
            self.block(st, s.body)
            # finally runs on all exits
            if s.finalbody:
                l = st.live()
                if l is TRUE:
                    self.block(st, s.finalbody)
                else:
                    saved = (st.raised, st.returned, st.brk, st.cont, st.ret)
                    st.raised = st.returned = st.brk = st.cont = FALSE
                    self.block(st, s.finalbody)
                    if st.live() is TRUE:
                        st.raised, st.returned, st.brk, st.cont, st.ret = saved
            return
        exc = []
        was = st.approx
        sb = st.copy()
        self.block(sb, s.body)
        if s.orelse:
            l = sb.live()
            if l is TRUE:
                self.block(sb, s.orelse)
        out = sb
        first = True
        for n, h in enumerate(s.handlers):
            tn = ast.unparse(h.type) if h.type is not None else '*'
            k = ('exc', tn)
            d = st.dup.get(k, 0)
            sig = self.try_sig(st, sb, tn)
            if sig is not None and sig in self.tries:
                d = self.tries[sig]     # the same computation on the same values: it fails in the same cases
            else:
                st.dup[k] = d + 1
                if sig is not None:
                    self.tries[sig] = d
            a = mk('exc', tn, d)
            sh = st.copy()
            if h.name:
                sh.env[h.name] = mk('sym', '?exc')
            self.block(sh, h.body)
            exc.append((a, sh))
        cur = sb
        for a, sh in exc:
            m = st.copy()
            self.merge_into(m, atomvar(a), sh, cur)
            cur = m
        tr = st.trace + cur.trace
        self.assign_state(st, cur)
        st.trace = tr
        # a handler that always raises leaves the normal exit exact
        st.approx = was or cur.approx or any(sh.raised is not TRUE for a, sh in exc)
        if s.finalbody:
            self.block(st, s.finalbody)

    def try_sig(self, st, sb, tn):
        if len(sb.trace) != len(st.trace) or sb.epoch != st.epoch:
            return None

        def ch(x, y):
            return tuple(sorted(((str(k), v) for k, v in y.items() if x.get(k) is not v and isinstance(v, T)), key=lambda kv: kv[0]))
        if ch(st.heap, sb.heap) or ch(st.contents, sb.contents):
            return None
        e = ch(st.env, sb.env)
        if not e and sb.ret is st.ret:
            return None
        return tn, tuple(v for k, v in e), sb.ret, sb.returned, sb.raised

    def assign_state(self, st, o):
        for k in State.__slots__:
            if k not in ('trace', 'assume'):
                setattr(st, k, getattr(o, k))

    # assignment
    def s_Assign(self, st, s):
        v = self.ev(st, s.value)
        for t in s.targets:
            self.assign(st, t, v)

    def s_AnnAssign(self, st, s):
        if s.value is not None:
            self.assign(st, s.target, self.ev(st, s.value))

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = self.val(st, v)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                for n, e in enumerate(t.elts[:k]):
                    self.assign(st, e, self.pick(vv, num(n)))
                self.assign(st, t.elts[k].value, idx(vv, slc(num(k), num(-after) if after else None)))
                for n, e in enumerate(t.elts[k + 1:]):
                    self.assign(st, e, idx(vv, num(n - after)))
            else:
                for n, e in enumerate(t.elts):
                    self.assign(st, e, self.pick(vv, num(n)))
        elif isinstance(t, ast.Attribute):
            b = self.ev(st, t.value)
            self.set_attr(st, b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(st, t.value)
            i = self.ev_index(st, t.slice)
            self.set_item(st, t.value, b, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v)
        else:
            raise Unsupported('assign target')

    def pick(self, v, i):
        return idx(v, i)

    def set_attr(self, st, b, name, v):
        b0 = b
        cls = self.class_of(b)
        fr = self.frames[-1]
        name = mangle(name, fr.cls.name if fr.cls else None)
        if cls is not None:
            p = cls.find_prop(name)
            if p is not None and isinstance(p[1], FuncInfo):
                if ('set:' + name) in self.events:
                    self.emit(st, 'set:' + name, b, (self.mat(st, v),), ())
                    return
                self.inline_func(st, p[1], [b, v], {})
                return
        if b.op == 'glob':
            pass
        self.write_attr(st, b, name, v)

    def set_item(self, st, node, b, i, v):
        vv = self.val(st, v) if v.op != 'obj' else v
        if i is FULL or vv is not v and False:
            pass
        cls = self.class_of(b)
        if cls is not None and cls.find('__setitem__') is not None and self.can_inline(cls.find('__setitem__')):
            self.inline_func(st, cls.find('__setitem__'), [b, i, v], {})
            return
        self.mutate_node(st, node, b, store(self.val(st, b), i, vv))

    def mutate_node(self, st, node, b, newval):
        """mutate object b (found by evaluating node) so that its content becomes newval"""
        if b.op in ('obj', 'attr', 'sym', 'after', 'call', 'idx', 'ite'):
            if b.op == 'ite' and not all(l.op in ('obj', 'attr', 'sym', 'after', 'call', 'idx') for l in leafset(b)):
                self.rebind(st, node, newval)
                return
            self.mutate(st, b, newval)
        else:
            self.rebind(st, node, newval)

    def rebind(self, st, node, v):
        if isinstance(node, ast.Name):
            st.env[node.id] = v
        elif isinstance(node, ast.Attribute):
            b = self.ev(st, node.value)
            self.set_attr(st, b, node.attr, v)
        elif isinstance(node, ast.Subscript):
            b = self.ev(st, node.value)
            i = self.ev_index(st, node.slice)
            self.set_item(st, node.value, b, i, v)

    def s_AugAssign(self, st, s):
        t = s.target
        v = self.val(st, self.ev(st, s.value))
        if isinstance(t, ast.Name):
            cur = self.lookup(st, t.id)
            new = self.binop(st, s.op, self.val(st, cur), v)
            root = self.viewroot(st, cur)
            if root is not None:
                self.mutate(st, root, mk('call', 'viewput', (new, cur), ()))
                st.env[t.id] = new
            elif self.inplace(st, cur):
                new = self.as_inplace(st, cur, new)
                self.mutate(st, cur, new)
            else:
                st.env[t.id] = new
        elif isinstance(t, ast.Attribute):
            b = self.ev(st, t.value)
            cur = self.get_attr(st, b, t.attr)
            new = self.binop(st, s.op, self.val(st, cur), v)
            if self.inplace(st, cur):
                self.mutate(st, cur, new)
            else:
                self.set_attr(st, b, t.attr, new)
        elif isinstance(t, ast.Subscript):
            b = self.ev(st, t.value)
            i = self.ev_index(st, t.slice)
            cur = self.get_item(st, b, i)
            new = self.binop(st, s.op, self.val(st, cur), v)
            if cur.op == 'obj':
                self.mutate(st, cur, new)
            else:
                self.set_item(st, t.value, b, i, new)

    def view(self, b, t):
        """t is a reshaped or transposed view of the array b denotes"""
        r = b if b.op in ('attr', 'idx', 'after') and self.is_array(b) else self.viewof.get(b)
        if r is not None and t.op == 'call':
            self.viewof[t] = r if self.viewof.get(t, r) is r else None
        return t

    def viewroot(self, st, cur):
        return self.viewof.get(cur)

    def as_inplace(self, st, cur, new):
        return new

    def inplace(self, st, cur):
        if cur.op == 'ite':
            return all(self.inplace(st, l) for l in leafset(cur))
        if cur.op == 'obj':
            return True
        return self.is_array(cur)

    # loops ---------------------------------------------------------------
    def s_For(self, st, s):
        it = self.val(st, self.iterable(st, self.ev(st, s.iter)))
        self.loop(st, s, it, s.target, s.body, s.orelse)

    def iterable(self, st, t):
        """normalise something that is iterated over"""
        cls = self.class_of(t)
        if cls is not None:
            f = cls.find('__iter__')
            if f is not None and self.can_inline(f) and not is_generator(f.node):
                return self.inline_func(st, f, [t], {})
        r = t
        while r.op in ('store', 'after', 'fresh') and r.args:
            r = r.args[1] if r.op == 'after' else r.args[0]
        if r.op == 'dict' and t.op != 'dict' or r.op == 'sym' and str(r.args[0]).startswith('**') or \
                r.op == 'attr' and r.args[1] in self.prog.dict_attrs():
            return mk('call', 'keys', (self.mat(st, t),), ())
        return t

    def s_While(self, st, s):
        self.loop(st, s, None, None, s.body, s.orelse, test=s.test)

    def loop(self, st, node, it, target, body, orelse, test=None):
        if node is None:
            names = ()
        elif hasattr(node, 'exposed'):
            names = node.exposed
        else:
            names = node.exposed = exposed(body, set(stored_names([target])) if target is not None else set())
        for k in names:
            if k not in st.env and self.prog.resolve_global(self.frames[-1].mod, k) is None:
                st.env[k] = mk('sym', '?' + k)      # set by an earlier iteration
        if it is not None:
            it = self.simp(st, it)
            if it.op == 'ite':
                # loop over a conditional sequence: split
                a = it.args[0]
                c = atomvar(a)
                s1, s2 = self.split(st, c)
                self.loop(s1, node, constrain(it, a, True), target, body, orelse)
                self.loop(s2, node, constrain(it, a, False), target, body, orelse)
                self.merge_into(st, c, s1, s2)
                return
            n = seqlen(it)
            most = self.unroll_max
            if most < 6 and it.op in ('list', 'tuple', 'zip', 'enum') and contains(it, lambda x: x.op == 'obj' or x.op == 'call' and x.args[0].startswith('!')):
                most = 6        # over objects: what happens to each of them is told apart
            if n.op == 'num' and 0 <= n.args[0] <= most and it.op in ('list', 'tuple', 'arange', 'enum', 'zip', 'concat', 'rev'):
                return self.unroll(st, int(n.args[0]), it, target, body, orelse)
        else:
            n = INF
        lid = self.fresh_id()
        o = mk('ord', 'L%d' % lid)
        if test is not None:
            def run(s):
                c = self.cond(s, test)
                if c is TRUE:
                    self.block(s, body)
                elif c is FALSE:
                    s.brk = TRUE
                else:
                    s1, s2 = self.split(s, c)
                    self.block(s1, body)
                    s2.brk = TRUE
                    self.merge_into(s, c, s1, s2)
        else:
            elem = idx(it, o)

            def run(s):
                self.assign(s, target, elem)
                self.block(s, body)
        self.ords.append(o)
        try:
            res = self.run_loop(st, lid, o, n, run)
        finally:
            self.ords.pop()
        self.close_loop(st, lid, o, n, res, orelse, node)

    def unroll(self, st, n, it, target, body, orelse):
        def step(st, k):
            if k == n:
                if orelse:
                    self.block(st, orelse)
                return
            self.assign(st, target, idx(it, num(k)))
            self.block(st, body)
            st.cont = FALSE
            l = st.live()
            if l is TRUE:
                return step(st, k + 1)
            if l is FALSE:
                return
            s1 = st.copy()
            s1.assume = st.assume + (l,)
            s1.raised = s1.returned = s1.brk = FALSE
            step(s1, k + 1)
            self.merge_into(st, l, s1, st.copy_flags_view())
        step(st, 0)
        st.brk = FALSE

    def run_loop(self, st, lid, o, n, run):
        """execute the body once with carry symbols for everything it modifies"""
        mark = self.nobj
        # pass 1: find what changes
        changed_env, changed_heap, changed_cont, changed_ep = set(), set(), set(), {}
        ind = {}
        for attempt in range(8):
            s = st.copy()
            self.bind_carries(s, st, lid, changed_env, changed_heap, changed_cont, changed_ep)
            for k, c in ind.items():
                s.env[k] = add(st.env[k], mul(c, o))
            start = s.copy()
            s.raised = s.returned = s.brk = s.cont = FALSE
            s.ret = NONE
            run(s)
            new = False
            for k, v in s.env.items():
                if start.env.get(k) is not v and k not in changed_env:
                    changed_env.add(k)
                    new = True
            for k, v in s.heap.items():
                if start.heap.get(k) is not v and k not in changed_heap and not self.newer(k, mark) and not mentions(k, o):
                    changed_heap.add(k)
                    new = True
            for k, v in s.contents.items():
                if k.op == 'obj' and k.args[0] > mark or self.newer(k, mark) or mentions(k, o):
                    continue
                if start.contents.get(k) is not v and k not in changed_cont:
                    changed_cont.add(k)
                    new = True
            for k, v in s.epoch.items():
                if start.epoch.get(k) != v and k not in changed_ep:
                    changed_ep[k] = v
                    new = True
            if not new:
                if attempt < 4 and not ind:
                    live = not_(or_(s.brk, s.returned, s.raised))
                    if live is not FALSE:
                        for k in changed_env:
                            i = st.env.get(k)
                            if i is None or i.op in ('ite', 'obj', 'list', 'tuple', 'str', 'const', 'dict'):
                                continue
                            cv = mk('cv', lid, 'v:' + k)
                            d = sub(restrict(s.env.get(k, UNDEF), live), cv) if s.env.get(k) is not None and s.env[k].op not in ('obj', 'list') else None
                            if d is not None and d.op == 'num' and d.args[0] != 0:
                                ind[k] = d
                    if ind:
                        changed_heap, changed_cont, changed_ep = set(), set(), {}
                        changed_env = set(ind)
                        continue
                break
        return dict(s=s, start=start, env=changed_env, heap=changed_heap, cont=changed_cont, ep=changed_ep, mark=mark, ind=ind)

    def newer(self, k, mark):
        return any(x.op == 'obj' and x.args[0] > mark for x in walk(k))

    def bind_carries(self, s, st, lid, env, heap, cont, ep):
        for k in env:
            if k in st.env:
                s.env[k] = mk('cv', lid, 'v:' + k)
                i = st.env[k]
                if i.op == 'obj' and st.contents.get(i, i).op in ('list', 'concat', 'map', 'fmap', 'flat') or \
                        i.op == 'obj' and st.contents.get(i, i).op == 'call' and st.contents[i].args[0] in ('sorted', 'list'):
                    self.listcv.add(s.env[k])
            else:
                s.env.pop(k, None)
        for k, v in ep.items():
            self.loop_epoch(s, k, v, heap)
        for k in heap:
            s.heap[k] = mk('cv', lid, 'h:' + k.key)
        for k in cont:
            s.contents[k] = mk('cv', lid, 'c:' + k.key)

    def loop_epoch(self, s, base, ep, keep):
        d = dict(s.epoch.get(base, {}))
        for nm, v in ep.items():
            if d.get(nm) == v:
                continue
            d[nm] = (v[0], 'loop:' + v[1].replace('loop:', ''), v[2])
            for h in [h for h in s.heap if under(h, base)]:
                if h not in keep and self.hits(v[2], self.chain(h, base)):
                    del s.heap[h]
        s.epoch[base] = d

    def before_loop(self, st, res):
        """locations written before the loop whose value the calls in its body may change: record what those calls see"""
        seen = set()
        for base, ep in res['ep'].items():
            old = st.epoch.get(base, {})
            for nm, v in ep.items():
                if old.get(nm) == v:
                    continue
                for h in sorted((h for h in st.heap if under(h, base)), key=lambda t: t.key):
                    if h not in res['heap'] and h not in seen and self.hits(v[2], self.chain(h, base)):
                        seen.add(h)
                        x = self.mat(st, st.heap[h])
                        if x is not h:
                            st.trace.append(('wr', h, x, 0))

    def close_loop(self, st, lid, o, n, res, orelse, node):
        s = res['s']
        mark = res['mark']
        carries = {}   # cv -> (init, next, setter)
        S = or_(s.brk, s.returned, s.raised)
        live_norm = not_(S)

        def nxt(v):
            return self.mat_new(s, v, mark)

        for k in sorted(res['env']):
            if k in st.env:
                cv = mk('cv', lid, 'v:' + k)
                carries[cv] = [st.env[k], nxt(s.env.get(k, UNDEF)), ('env', k)]
            else:
                carries[mk('cv', lid, 'v:' + k)] = [UNDEF, nxt(s.env.get(k, UNDEF)), ('env', k)]
        for k in sorted(res['heap'], key=lambda x: x.key):
            cv = mk('cv', lid, 'h:' + k.key)
            init = st.heap.get(k)
            if init is None:
                init = self.default_read(st, k)
            nx = s.heap.get(k)
            if nx is None:
                nx = self.default_read(s, k)
            carries[cv] = [init, nxt(nx), ('heap', k)]
        for k in sorted(res['cont'], key=lambda x: x.key):
            cv = mk('cv', lid, 'c:' + k.key)
            init = st.contents.get(k, k)
            nx = s.contents.get(k, k)
            carries[cv] = [init, nxt(nx), ('cont', k)]
        # inits may contain references to objects: use values for scalar env carries
        B = S
        norm = {cv: (restrict(c[1], live_norm) if live_norm is not FALSE else cv) for cv, c in carries.items()}
        for k, c in res['ind'].items():
            norm[mk('cv', lid, 'v:' + k)] = add(mk('cv', lid, 'v:' + k), c)
        # lengths of sequences the loop only overwrites in place
        lens = {}
        for cv, c in carries.items():
            if c[0].op in ('obj', 'dict') or c[0] is UNDEF:
                continue
            L = seqlen(cv)
            if not support(L) and contains(L, lambda x: x is cv) and norm[cv].op in ('store', 'mapstore', 'ite') and seqlen(norm[cv]) is L:
                lens[L] = seqlen(c[0])
        if lens:
            B = subst_fix(B, lens)
            for cv in carries:
                carries[cv][1] = subst_fix(carries[cv][1], lens)
                norm[cv] = subst_fix(norm[cv], lens)
            live_norm = subst_fix(live_norm, lens)
        closed = self.solve(lid, o, n, carries, norm, st)

        def at_iter(t):
            return subst_fix(t, {cv: closed[cv][0] for cv in closed})

        B2 = at_iter(B)
        # counting while loop
        inside = None
        if n is INF:
            r = self.counting(o, B2)
            if r is not None:
                n, B2, inside = r
                B = restrict_drop(B, B2)
                closed = self.solve(lid, o, n, carries, norm, st)
                B2 = FALSE if B2 is FALSE else at_iter(B2)
        tr = list(s.trace)
        # writes to locations that differ in every iteration
        for k in sorted(set(s.heap) | set(s.contents), key=lambda x: x.key):
            if k.op == 'obj' or not mentions(k, o) or self.newer(k, mark):
                continue
            v = s.heap[k] if k in s.heap else s.contents[k]
            base = res['start'].heap.get(k) if k in s.heap else res['start'].contents.get(k)
            if base is v:
                continue
            tr.append(('wr', k, nxt(v if k in s.contents and k not in s.heap else self.val(s, v) if v.op != 'obj' else v), 0))
        trace = subst_trace(self.mat_trace_new(s, tr, mark), {cv: closed[cv][0] for cv in closed})
        if inside is not None:
            trace = map_trace(trace, lambda t: restrict(t, inside))
        if n.op == 'const' or B2 is not FALSE:
            if B2 is FALSE:
                anyb = FALSE
                k = None
            else:
                if n is INF:
                    anyb = TRUE
                else:
                    anyb = self.anyterm(o, n, B2)
                k = mkbinder('first', o, (n,), (B2,))
        else:
            anyb = FALSE
            k = None
        if trace:
            self.before_loop(st, res)
            st.trace.append(('loop', n, o, B2, trace))

        def final(cv):
            init, nx, where = carries[cv]
            fin = closed[cv][1]
            if anyb is FALSE:
                return fin
            vb = at_iter(restrict(nx, B)) if B is not FALSE else fin
            if k is not None:
                vb = self.subst_k(vb, o, k, n, B2)
            return ite(anyb, vb, fin)
        newvals = {cv: final(cv) for cv in carries}
        for cv, (init, nx, where) in carries.items():
            v = newvals[cv]
            kind, kk = where
            if kind == 'env':
                st.env[kk] = v
            elif kind == 'heap':
                st.heap[kk] = v
            else:
                st.contents[kk] = v
        for kk, v in res['ep'].items():
            self.loop_epoch(st, kk, v, res['heap'])
        st.approx = st.approx or s.approx
        for d, c in s.dup.items():
            st.dup[d] = max(st.dup.get(d, 0), c)

        # flags
        def flag(f):
            f2 = at_iter(f)
            if f2 is FALSE or anyb is FALSE:
                return FALSE
            r = restrict(f2, B2)
            if r is TRUE:
                return anyb
            return and_(anyb, self.subst_k(f2, o, k, n, B2))
        returned = flag(s.returned)
        raised = flag(s.raised)
        if returned is not FALSE:
            rv = at_iter(self.mat_new(s, s.ret, mark))
            rv = restrict(rv, at_iter(s.returned))
            st.ret = self.subst_k(rv, o, k, n, B2)
        st.returned = returned
        st.raised = raised
        if orelse:
            nb = not_(anyb)
            if nb is TRUE:
                self.block(st, orelse)
            elif nb is not FALSE:
                s1, s2 = self.split(st, nb)
                s1.returned = s1.raised = FALSE
                self.block(s1, orelse)
                self.merge_into(st, nb, s1, s2)

    def subst_k(self, t, o, k, n, B):
        if not mentions(t, o):
            return t
        return subst(t, {o: k})

    def anyterm(self, o, n, B):
        return bany(o, n, B)

    def counting(self, o, B):
        """B is the stop condition; find not(a + s*ord < m) at loop start"""
        lits = None
        # stop immediately when atom L says so: B = (not A) or rest
        for a in sorted(support(B), key=akey):
            if a.op != 'lt0':
                continue
            p = a.args[0]
            d = pd(p)
            co = d.get(((o, Fraction(1)),))
            if co is None or abs(co) != 1:
                continue
            rest = sub(p, mul(mk('num', co), o))
            if mentions(rest, o) or contains(rest, lambda x: x.op == 'cv'):
                continue
            hi = cofactor(B, a, True)
            lo = cofactor(B, a, False)
            if co == 1 and lo is TRUE:
                # continue while ord + rest < 0 : n = -rest
                return neg(rest), hi, mk_ite(a, TRUE, FALSE)
            if co == -1 and hi is TRUE:
                for e in support(lo):
                    if e.op == 'eq0' and (e.args[0] is p or neg(e.args[0]) is p) and cofactor(lo, e, True) is TRUE:
                        return rest, cofactor(lo, e, False), mk_ite(a, FALSE, mk_ite(e, FALSE, TRUE)) if akey(a) < akey(e) else mk_ite(e, FALSE, mk_ite(a, FALSE, TRUE))
                # continue while -ord + rest >= 0 : n = rest + 1
                return add(rest, ONE), lo, mk_ite(a, FALSE, TRUE)
        return None

    def mat_new(self, s, v, mark):
        """materialise objects created inside the loop body"""
        if v.op == 'ite':
            return apply(lambda x: self.mat_new(s, x, mark), v)
        if v.op == 'obj':
            if v.args[0] > mark:
                c = s.contents.get(v)
                return self.mat_new(s, c, mark) if c is not None else mk('sym', '?obj')
            return v
        objs = [x for x in walk(v) if x.op == 'obj' and x.args[0] > mark]
        if not objs:
            return v
        return subst(v, {x: self.mat_new(s, x, mark) for x in objs})

    def mat_trace_new(self, s, tr, mark):
        return tr

    def solve(self, lid, o, n, carries, norm, st):
        """closed forms: cv -> (value at start of iteration o, value after the loop)"""
        closed = {}
        todo = dict(norm)
        isn = n.op != 'const'
        iscv = lambda x: x.op == 'cv' and x.args[0] == lid
        progress = True
        while todo and progress:
            progress = False
            for cv in sorted(todo, key=lambda x: x.key):
                nx = subst_fix(todo[cv], {c: closed[c][0] for c in closed})
                init = carries[cv][0]
                deps = set(x for x in walk(nx) if iscv(x))
                if deps - {cv}:
                    todo[cv] = nx
                    continue
                r = self.solve1(cv, init, nx, o, n, lid, st)
                if r is None:
                    continue
                closed[cv] = r
                del todo[cv]
                progress = True
                break
        # temporaries nothing depends on
        again = True
        while again:
            again = False
            for cv in sorted(todo, key=lambda x: x.key):
                if carries[cv][0] is UNDEF and not any(mentions(todo[c], cv) for c in todo if c is not cv):
                    closed[cv] = (UNDEF, mk('sym', '?tmp'))
                    del todo[cv]
                    again = True
        if todo:
            # joint fold of what remains: for each value, with the values it depends on
            nx1 = dict((c, subst_fix(todo[c], {k: closed[k][0] for k in closed})) for c in todo)
            needs = dict((c, set(x for x in walk(nx1[c]) if x in todo)) for c in todo)
            order = sorted(todo, key=lambda c: (subst_names(todo[c]).key, subst_names(carries[c][0]).key, c.key))
            for c in order:
                dep, q = {c}, [c]
                while q:
                    for x in needs[q.pop()] - dep:
                        dep.add(x)
                        q.append(x)
                names = [x for x in order if x in dep]
                i = names.index(c)
                nxs = [nx1[x] for x in names]
                inits = tuple(self.val(st, carries[x][0]) if carries[x][0].op != 'ite' else carries[x][0] for x in names)
                fin = mkbinder('fold', o, (n, i) + inits, tuple(nxs), names)
                o2 = mk('ord', 'p%d' % self.fresh_id())
                start = mkbinder('fold', o2, (o, i) + inits, tuple(subst(x, {o: o2}) for x in nxs), names)
                if not isn:
                    start = mk('cvat', o, fin)
                closed[c] = (start, fin)
        return closed

    def solve1(self, cv, init, nx, o, n, lid, st):
        isn = n.op != 'const'
        if nx is cv:
            return (init, init)
        has = mentions(nx, cv)
        if not has:
            if init is UNDEF:
                # temporary
                o1 = sub(o, ONE)
                if mentions(nx, o):
                    fin = subst(nx, {o: sub(n, ONE)}) if isn else nx
                else:
                    fin = nx
                return (UNDEF, fin)
            if not mentions(nx, o):
                start = ite(truth(o), nx, init) if False else self.prev(o, init, nx)
                fin = ite(truth(n), nx, init) if isn else nx
                return (start, fin)
            start = self.prev(o, init, subst(nx, {o: sub(o, ONE)}))
            fin = ite(truth(n), subst(nx, {o: sub(n, ONE)}), init) if isn else mk('cvat', n, nx)
            return (start, fin)
        vi = self.val(st, init) if init.op != 'ite' else init
        # additive
        try:
            lv = leafset(nx)
        except TooBig:
            return None
        if all(l is cv or l.op == 'poly' for l in lv):
            d = sub(nx, cv)
            if not mentions(d, cv) and vi.op not in SEQ_OPS:
                o2 = mk('ord', 'p%d' % self.fresh_id())
                start = add(vi, bsum(o2, o, subst(d, {o: o2})))
                fin = add(vi, bsum(o, n, d)) if isn else mk('cvat', n, add(cv, d))
                return (start, fin)
        # conditional constant overwrite (flags)
        others = [l for l in lv if l is not cv]
        if others and all(not mentions(l, cv) for l in others):
            cond = apply(lambda x: FALSE if x is cv else TRUE, nx)
            if not mentions(cond, cv) and len(others) == 1 and not mentions(others[0], o) and isn:
                a = self.anyterm(o, n, cond)
                o2 = mk('ord', 'p%d' % self.fresh_id())
                a2 = self.anyterm(o2, o, subst(cond, {o: o2}))
                return (ite(a2, others[0], init), ite(a, others[0], init))
        # append
        def suffix(l):
            if l is cv:
                return ()
            if l.op == 'concat' and l.args[0] is cv:
                return l.args[1:]
            return None
        sfx = [suffix(l) for l in lv]
        if all(x is not None for x in sfx) and isn and not any(mentions(y, cv) for x in sfx for y in x):
            cond = apply(lambda x: FALSE if x is cv else TRUE, nx)
            if not mentions(cond, cv):
                item = apply(lambda x: mk('list') if x is cv else _cat(suffix(x)), nx)
                item = restrict(item, cond)
                o2 = mk('ord', 'p%d' % self.fresh_id())
                seq = self.append_seq(o, n, cond, item)
                pre = self.append_seq(o2, o, subst(cond, {o: o2}), subst(item, {o: o2}))
                return (cat2(vi, pre), cat2(vi, seq))
        # element stores
        r = self.solve_store(cv, vi, nx, o, n)
        if r is not None:
            return r
        return None

    def solve_store(self, cv, vi, nx, o, n):
        if n.op == 'const':
            return None
        lv = leafset(nx)
        shapes = set()
        for l in lv:
            if l is cv:
                continue
            if l.op != 'store' or l.args[0] is not cv:
                return None
            shapes.add(l.args[1])
        if len(shapes) != 1:
            return None
        i = shapes.pop()
        if mentions(i, cv):
            return None
        cond = apply(lambda x: FALSE if x is cv else TRUE, nx)
        v = apply(lambda x: ZERO if x is cv else x.args[2], nx)
        v = restrict(v, cond)
        inj = i is o or (i.op == 'poly' and sub(i, o).op == 'num')
        own = idx(cv, i)
        if inj:
            m = {own: idx(vi, i)}
            v2 = subst(v, m)
            c2 = subst(cond, m)
        else:
            v2, c2 = v, cond
        if mentions(v2, cv) or mentions(c2, cv):
            return None

        o2 = mk('ord', 'p%d' % self.fresh_id())
        m2 = {o: o2}
        start = bmapstore(o2, o, vi, subst(c2, m2), subst(i, m2), subst(v2, m2))
        return (start, bmapstore(o, n, vi, c2, i, v2))

    def append_seq(self, o, n, cond, item):
        if item.op == 'list' and len(item.args) == 1 and not item.args[0].op == 'star':
            if cond is TRUE:
                return bmap(o, n, item.args[0])
            return bfmap(o, n, cond, item.args[0])
        if item.op == 'ite' and all(l.op == 'list' and len(l.args) == 1 for l in leafset(item)):
            it1 = apply(lambda l: l.args[0], item)
            if cond is TRUE:
                return bmap(o, n, it1)
            return bfmap(o, n, cond, it1)
        if cond is not TRUE:
            item = ite(cond, item, mk('list'))
        return lift('flat', bmap(o, n, item))

    def prev(self, o, init, v):
        if v is init:
            return init
        return ite(cmp_('==', o, ZERO), init, v)

    # ------------------------------------------------------------------ expressions
    def ev(self, st, e):
        m = getattr(self, 'e_' + e.__class__.__name__, None)
        if m is None:
            raise Unsupported('expression %s' % e.__class__.__name__)
        return m(st, e)

    def e_Constant(self, st, e):
        return const(e.value)

    def e_Name(self, st, e):
        return self.simp(st, self.lookup(st, e.id))

    def lookup(self, st, name):
        v = st.env.get(name)
        if v is not None:
            return v
        fr = self.frames[-1]
        r = self.prog.resolve_global(fr.mod, name)
        if r is None:
            if name in ('True', 'False', 'None'):
                return const({'True': True, 'False': False, 'None': None}[name])
            return mk('sym', '?' + name)
        return self.globterm(r)

    def globterm(self, r):
        if isinstance(r, FuncInfo):
            self.funcs[r.qual] = r
            return mk('glob', r.qual)
        if isinstance(r, ClassInfo):
            return mk('glob', r.qual)
        if r is None:
            return mk('sym', '?global')
        if r[0] == 'mod':
            return mk('glob', 'mod:' + r[1])
        if r[0] == 'ext':
            n = canon_ext(r[1])
            if n == 'inf':
                return mk('const', 'inf')
            if n == 'Infinity':
                return mk('const', 'inf')
            if r[1] in ('builtins.True', 'builtins.False', 'builtins.None'):
                return const({'True': True, 'False': False, 'None': None}[n])
            return mk('glob', 'ext:' + n)
        if r[0] == 'assign':
            mod, expr, name = r[1], r[2], r[3]
            if expr is not None and mod.assign_counts.get(name, 0) == 1:
                if isinstance(expr, ast.Constant):
                    return const(expr.value)
                if isinstance(expr, (ast.UnaryOp, ast.BinOp)) and all(
                        isinstance(x, (ast.Constant, ast.UnaryOp, ast.BinOp, ast.operator, ast.unaryop)) for x in ast.walk(expr)):
                    s = State()
                    return self.eval_in(s, expr, Frame(None, None, mod))
                if isinstance(expr, ast.Lambda):
                    s = State()
                    return self.eval_in(s, expr, Frame(None, None, mod))
            return mk('sym', 'G:%s' % name)
        return mk('sym', '?')

    def e_Tuple(self, st, e):
        return self.seq_display(st, 'tuple', e.elts)

    def seq_display(self, st, op, elts):
        xs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.val(st, self.ev(st, x.value))
                if v.op in ('list', 'tuple'):
                    xs.extend(v.args)
                else:
                    xs.append(mk('star', v))
            else:
                xs.append(self.ev(st, x))
        return lift(op, *[self.shallow(st, x) for x in xs])

    def shallow(self, st, x):
        return x if x.op == 'obj' else x

    def e_List(self, st, e):
        return self.newobj(st, self.seq_display(st, 'list', e.elts))

    def e_Set(self, st, e):
        return self.newobj(st, self.seq_display(st, 'set', e.elts))

    def e_Dict(self, st, e):
        items = []
        ok = True
        for k, v in zip(e.keys, e.values):
            if k is None:
                ok = False
                vv = self.val(st, self.ev(st, v))
                if vv.op == 'dict':
                    items.extend(vv.args)
                    ok = True
                else:
                    items.append((mk('star', vv), NONE))
            else:
                kk = self.val(st, self.ev(st, k))
                items.append((kk, self.ev(st, v)))
        if any(k.op == 'ite' for k, v in items):
            return self.newobj(st, mk('dict', *items))
        out = {}
        for k, v in items:
            out[k] = v
        its = sorted(out.items(), key=lambda kv: kv[0].key)
        return self.newobj(st, lift('dict', *its) if its else mk('dict'))

    def e_JoinedStr(self, st, e):
        xs = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                xs.append(self.mat(st, self.ev(st, v.value)))
            else:
                xs.append(self.ev(st, v))
        return lift('fmt', string('f'), *xs)

    def e_Starred(self, st, e):
        return mk('star', self.val(st, self.ev(st, e.value)))

    def e_Lambda(self, st, e):
        return self.closure(st, e)

    def closure(self, st, node):
        i = self.fresh_id()
        self.clos[i] = (node, st, self.frames[-1])
        # capture environment by snapshot
        self.clos[i] = (node, dict(st.env), self.frames[-1])
        return mk('clo', i)

    def e_IfExp(self, st, e):
        c = self.cond(st, e.test)
        if c is TRUE:
            return self.ev(st, e.body)
        if c is FALSE:
            return self.ev(st, e.orelse)
        s1, s2 = self.split(st, c)
        a = self.ev(s1, e.body)
        b = self.ev(s2, e.orelse)
        self.merge_into(st, c, s1, s2)
        return ite(c, a, b)

    def e_BoolOp(self, st, e):
        isand = isinstance(e.op, ast.And)
        v = self.ev(st, e.values[0])
        for nx in e.values[1:]:
            c = truth(self.val(st, v))
            for g in st.assume:
                c = restrict(c, g)
            go = c if isand else not_(c)
            if go is FALSE:
                return v
            if go is TRUE:
                v = self.ev(st, nx)
                continue
            s1 = st.copy()
            s1.assume = st.assume + (go,)
            w = self.ev(s1, nx)
            self.merge_into(st, go, s1, st.copy_flags_view())
            vv = self.val(st, v)
            if is_boolish(vv) and isand:
                v = ite(go, w, FALSE)
            elif is_boolish(vv):
                v = ite(go, w, TRUE)
            else:
                v = ite(go, w, v)
        return v

    def e_UnaryOp(self, st, e):
        v = self.val(st, self.ev(st, e.operand))
        if isinstance(e.op, ast.Not):
            c = truth(v)
            return not_(c)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return lift('call', 'invert', (v,), ())

    def e_BinOp(self, st, e):
        a = self.val(st, self.ev(st, e.left))
        b = self.val(st, self.ev(st, e.right))
        return self.wrap(st, self.binop(st, e.op, a, b))

    def wrap(self, st, v):
        if v.op in ('concat', 'rep', 'list'):
            return self.newobj(st, v)
        return v

    def binop(self, st, op, a, b):
        if isinstance(op, ast.Add):
            if a.op in ('set',) or b.op == 'set':
                return lift('call', 'setor', (a, b), ())
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.FloorDiv):
            return floordiv(a, b)
        if isinstance(op, ast.Mod):
            return mod(a, b) if a.op != 'str' else lift('fmt', a, b)
        if isinstance(op, ast.Pow):
            return pow_(a, b)
        if isinstance(op, ast.MatMult):
            return self.dot(a, b)
        return lift('call', op.__class__.__name__, (a, b), ())

    def e_Compare(self, st, e):
        left = self.val(st, self.ev(st, e.left))
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.val(st, self.ev(st, c))
            l2 = self.deepval(st, left)
            r2 = self.deepval(st, right)
            cc = cmp_(OPS[op.__class__.__name__], l2, r2)
            r = cc if r is TRUE else and_(r, cc)
            left = right
        return r

    def deepval(self, st, t):
        if t.op in ('tuple', 'list', 'set', 'dict', 'store', 'call', 'mapstore', 'concat'):
            return self.deep(st, t, ())
        return t

    def e_Attribute(self, st, e):
        b = self.ev(st, e.value)
        return self.get_attr(st, b, e.attr)

    def get_attr(self, st, b, name):
        if b.op == 'ite':
            return apply(lambda x: self.get_attr(st, x, name), b)
        fr = self.frames[-1]
        name = mangle(name, fr.cls.name if fr.cls else None)
        if b.op == 'glob':
            q = b.args[0]
            if q.startswith('mod:'):
                return self.globterm(self.prog.resolve_import(q[4:], name))
            if q.startswith('ext:'):
                return mk('glob', 'ext:' + canon_ext(q[4:] + '.' + name))
            c = self.prog.classes.get(q)
            if c is not None:
                f = c.find(name)
                if f is not None:
                    self.funcs[f.qual] = f
                    return mk('unbound', b, name)
                loc = mk('attr', b, name)
                return st.heap.get(loc, loc)
            return mk('attr', b, name)
        if b.op == 'super':
            return mk('superm', b, name)
        if name == 'T':
            return self.view(b, self.transpose(self.val(st, b)))
        if name == 'shape':
            v = self.val(st, b)
            if v.op == 'call' and v.args[0] in ('zeros', 'ones') and v.args[1]:
                sh = v.args[1][0]
                return sh if sh.op == 'tuple' else mk('tuple', sh)
            return mk('attr', self.val(st, b), 'shape')
        if name == '__class__':
            if b is self.selfsym:
                return mk('attr', b, name)
        cls = self.class_of(b)
        if cls is not None:
            loc = mk('attr', b, name)
            if loc in st.heap:
                return self.read_attr(st, b, name)
            p = cls.find_prop(name)
            if p is not None and isinstance(p[0], FuncInfo) and name not in self.events:
                if self.can_inline(p[0]):
                    return self.inline_func(st, p[0], [b], {})
            f = cls.find(name)
            if f is not None:
                return mk('bound', b, name)
        return self.read_attr(st, b, name)

    def transpose(self, x):
        def f(x):
            if x.op == 'call' and x.args[0] == 'transpose' and len(x.args[1]) == 1:
                return x.args[1][0]
            if x.op == 'call' and x.args[0] == 'outer' and len(x.args[1]) == 2:
                return mk('call', 'outer', (x.args[1][1], x.args[1][0]), ())
            if x.op == 'num':
                return x
            if x.op == 'poly':
                # linear in matrices: only safe for single coefficient
                if len(x.args) == 1 and len(x.args[0][0]) == 1:
                    (m, c), = x.args
                    return mul(mk('num', c), pow_(f(m[0][0]), mk('num', m[0][1])))
            return mk('call', 'transpose', (x,), ())
        return apply(f, x)

    def e_Subscript(self, st, e):
        b = self.ev(st, e.value)
        i = self.ev_index(st, e.slice)
        cls = self.class_of(b)
        if cls is not None:
            f = cls.find('__getitem__')
            if f is not None and '__getitem__' not in self.events and self.can_inline(f):
                return self.inline_func(st, f, [b, i], {})
        return self.get_item(st, b, mask(i))

    def get_item(self, st, b, i):
        if b.op == 'ite' or i.op == 'ite':
            return apply(lambda x, j: self.get_item(st, x, j), b, i)
        if b.op == 'obj':
            c = self.val(st, b)
            if i.op == 'slice':
                if c.op in ('list', 'concat', 'map', 'fmap'):
                    return self.newobj(st, idx(c, i))
                return mk('idx', b, i) if i is not FULL else b
            return idx(c, i)
        v = self.val(st, b)
        if i.op == 'slice' and b in self.listcv:
            return self.newobj(st, idx(v, i))
        if v is b:
            if i is FULL:
                return mk('fresh', b) if not self.is_array(b) else b
            return idx(b, i)
        if (i.op == 'slice' or self.is_matrix(b)) and b.op in ('attr', 'sym', 'after', 'idx', 'call'):
            return mk('idx', b, i) if i is not FULL else b
        return idx(v, i)

    def ev_index(self, st, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.val(st, self.ev(st, x)) if x is not None else NONE
            return slc(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return lift('tuple', *[self.ev_index(st, x) for x in s.elts])
        if isinstance(s, ast.Index):
            return self.ev_index(st, s.value)
        return self.mat(st, self.ev(st, s))

    e_Slice = ev_index

    def e_Yield(self, st, e):
        v = self.mat(st, self.ev(st, e.value)) if e.value is not None else NONE
        self.emit(st, 'yield', None, (v,), ())
        return mk('sym', '?sent')

    def e_YieldFrom(self, st, e):
        v = self.mat(st, self.ev(st, e.value))
        self.emit(st, 'yieldfrom', None, (v,), ())
        return NONE

    def e_NamedExpr(self, st, e):
        v = self.ev(st, e.value)
        self.assign(st, e.target, v)
        return v

    # comprehensions
    def e_ListComp(self, st, e):
        return self.newobj(st, self.comp(st, e.generators, lambda s: self.ev(s, e.elt)))

    def e_GeneratorExp(self, st, e):
        return self.comp(st, e.generators, lambda s: self.ev(s, e.elt))

    def e_SetComp(self, st, e):
        return self.newobj(st, lift('call', 'set', (self.comp(st, e.generators, lambda s: self.ev(s, e.elt)),), ()))

    def e_DictComp(self, st, e):
        c = self.comp(st, e.generators, lambda s: mk2tuple(self.mat(s, self.ev(s, e.key)), self.mat(s, self.ev(s, e.value))))
        return self.newobj(st, self.mkdict(c))

    def mkdict(self, c):
        def f(c):
            if c.op in ('list', 'tuple') and all(x.op == 'tuple' and len(x.args) == 2 for x in c.args):
                d = {}
                for x in c.args:
                    d[x.args[0]] = x.args[1]
                its = sorted(d.items(), key=lambda kv: kv[0].key)
                return mk('dict', *its) if its else mk('dict')
            if c.op == 'map':
                o = mk('ord', 'C%d' % self.fresh_id())
                x = inst_body(c, o)
                if x.op == 'tuple' and len(x.args) == 2:
                    return bmapstore(o, c.args[0], mk('dict'), TRUE, x.args[0], x.args[1])
            return mk('call', 'dict', (c,), ())
        return apply(f, c)

    def each_case(self, st, t, f):
        """what may have effects, for a value that depends on a condition: each case in its own state"""
        a = t.args[0]
        c = atomvar(a)
        s1, s2 = self.split(st, c)
        x1 = f(s1, constrain(t, a, True))
        x2 = f(s2, constrain(t, a, False))
        self.merge_into(st, c, s1, s2)
        return ite(c, x1, x2)

    def comp(self, st, gens, elt):
        saved = dict(st.env)
        try:
            return self.comp1(st, gens, elt)
        finally:
            st.env = saved

    def comp1(self, st, gens, elt):
        g = gens[0]
        it = self.val(st, self.iterable(st, self.ev(st, g.iter)))
        return self.comp_over(st, it, g, gens[1:], elt)

    def comp_over(self, st, it, g, rest, elt):
        if it.op == 'ite':
            return self.each_case(st, it, lambda s, x: self.comp_over(s, x, g, rest, elt))
        n = seqlen(it)
        if n.op == 'num' and 0 <= n.args[0] <= self.unroll_max and it.op in ('list', 'tuple', 'arange', 'enum', 'zip'):
            out = mk('list')
            for k in range(int(n.args[0])):
                self.assign(st, g.target, idx(it, num(k)))
                c = TRUE
                for t in g.ifs:
                    c = and_(c, self.cond(st, t))
                x = self.comp1(st, rest, elt) if rest else mk('list', self.mat(st, elt(st)))
                x = cat2(out, x)
                out = ite(c, x, out)
            return out
        o = mk('ord', 'C%d' % self.fresh_id())
        self.ords.append(o)
        mark = len(st.trace)
        s0 = st.copy()
        nob = self.nobj
        try:
            self.assign(st, g.target, idx(it, o))
            c = TRUE
            a0 = st.assume
            for t in g.ifs:
                c = and_(c, self.cond(st, t))
                st.assume = st.assume + (c,)
            if rest:
                body = self.comp1(st, rest, elt)
                body = restrict(body, c)
            else:
                body = self.mat(st, elt(st))
                body = restrict(body, c)
            st.assume = a0
        finally:
            self.ords.pop()
        if self.effectful(st, s0, nob):
            self.restore(st, s0, mark)
            return self.comp_loop(st, it, g, rest, elt)
        tr = st.trace[mark:]
        if tr:
            del st.trace[mark:]
            st.trace.append(('loop', n, o, FALSE, tr if c is TRUE else [('if', c, tr, [])]))
        if rest:
            if c is not TRUE:
                body = ite(c, body, mk('list'))
            return lift('flat', bmap(o, n, body))
        if c is TRUE:
            return bmap(o, n, body)
        if c is FALSE:
            return mk('list')
        return bfmap(o, n, c, body)

    def effectful(self, st, s0, nob):
        """did the body just evaluated change anything that existed before it"""
        for d, d0 in ((st.heap, s0.heap), (st.contents, s0.contents)):
            for k, v in d.items():
                if d0.get(k) is not v and not self.newer(k, nob):
                    return True
        for k, v in st.epoch.items():
            if s0.epoch.get(k) != v:
                return True
        return st.raised is not s0.raised or st.returned is not s0.returned

    def restore(self, st, s0, mark):
        for k in ('heap', 'contents', 'epoch', 'env', 'dup'):
            setattr(st, k, dict(getattr(s0, k)))
        for k in ('raised', 'returned', 'ret', 'brk', 'cont', 'assume', 'approx'):
            setattr(st, k, getattr(s0, k))
        del st.trace[mark:]

    def s_Thunk(self, st, s):
        s.run(st)

    def acc_loop(self, st, it, target, step):
        """a comprehension or map with side effects, executed as the loop it is"""
        acc = self.newobj(st, mk('list'))

        def run(s):
            x = step(s)
            if x is not None:
                s.contents[acc] = cat2(s.contents[acc], x)
        self.loop(st, None, it, target, [Thunk(run)], [])
        return st.contents[acc]

    def comp_loop(self, st, it, g, rest, elt):
        def body(s):
            if rest:
                return self.comp1(s, rest, elt)
            return mk('list', self.mat(s, elt(s)))

        def step(s):
            def guarded(s, ts):
                if not ts:
                    return body(s)
                c = self.cond(s, ts[0])
                if c is TRUE:
                    return guarded(s, ts[1:])
                if c is FALSE:
                    return None
                s1, s2 = self.split(s, c)
                x = guarded(s1, ts[1:])
                self.merge_into(s, c, s1, s2)
                return None if x is None else ite(c, x, mk('list'))
            return guarded(s, list(g.ifs))
        return self.acc_loop(st, it, g.target, step)

    # ------------------------------------------------------------------ calls
    def class_of(self, t):
        if t in self.types:
            c = self.types[t]
            return c
        if t.op == 'inst':
            return self.prog.classes.get(t.args[0])
        if t.op in ('attr', 'idx', 'sym', 'after', 'call') and self.types:
            x = t
            while x.op == 'after':
                x = x.args[1]
            if x in self.types:
                return self.types[x]
            c = self.types.get(show(x))
            if c is not None:
                return c
        return None

    def can_inline(self, f):
        if f is None or f in self.stack or len(self.stack) > self.maxdepth:
            return False
        if is_generator(f.node):
            return False
        if f.decorated:
            return False
        return True

    def e_Call(self, st, e):
        fn = e.func
        # super()
        if isinstance(fn, ast.Name) and fn.id == 'super' and 'super' not in st.env:
            fr = self.frames[-1]
            if e.args:
                c = self.prog.resolve_expr(fr.mod, e.args[0])
                s = self.ev(st, e.args[1]) if len(e.args) > 1 else self.selfsym
            else:
                c = fr.cls
                s = st.env.get(fr.func.node.args.args[0].arg) if fr.func is not None and fr.func.node.args.args else self.selfsym
            return mk('super', c.qual if isinstance(c, ClassInfo) else '?', s)
        if isinstance(fn, ast.Name) and fn.id in ('locals', 'globals', 'vars', 'exec', 'eval'):
            self.notes.append('dynamic %s' % fn.id)
        f = self.ev_callee(st, fn)
        args, kw = self.ev_args(st, e)
        return self.call(st, f, args, kw, e)

    def ev_callee(self, st, fn):
        if isinstance(fn, ast.Attribute):
            b = self.ev(st, fn.value)
            if b.op == 'glob' or b.op == 'super':
                return self.get_attr(st, b, fn.attr)
            fr = self.frames[-1]
            name = mangle(fn.attr, fr.cls.name if fr.cls else None)
            cls = self.class_of(b)
            if cls is not None:
                loc = mk('attr', b, name)
                if loc in st.heap:
                    v = st.heap[loc]
                    if v.op in ('clo', 'glob', 'bound', 'unbound'):
                        return v
                p = cls.find_prop(name)
                if p is not None:
                    return self.get_attr(st, b, name)
            self.callee_node = fn.value
            return mk('bound', b, name)
        return self.ev(st, fn)

    def ev_args(self, st, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.val(st, self.ev(st, a.value))
                if v.op in ('list', 'tuple') and not any(x.op == 'star' for x in v.args):
                    args.extend(v.args)
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.ev(st, a))
        kw = {}
        for k in e.keywords:
            v = self.ev(st, k.value)
            if k.arg is None:
                vv = self.val(st, v)
                if vv.op == 'dict' and all(kk.op == 'str' for kk, _ in vv.args):
                    for kk, x in vv.args:
                        kw[kk.args[0]] = x
                elif vv.op == 'kwdict':
                    for kk, x in vv.args:
                        kw[kk] = x
                else:
                    kw['**'] = vv
            else:
                kw[k.arg] = v
        return args, kw

    def call(self, st, f, args, kw, node=None):
        if f.op == 'ite':
            # conditional callee
            a = f.args[0]
            c = atomvar(a)
            s1, s2 = self.split(st, c)
            r1 = self.call(s1, constrain(f, a, True), args, kw, node)
            r2 = self.call(s2, constrain(f, a, False), args, kw, node)
            self.merge_into(st, c, s1, s2)
            return ite(c, r1, r2)
        op = f.op
        if op == 'clo':
            return self.call_closure(st, f, args, kw)
        if op == 'glob':
            q = f.args[0]
            if q.startswith('ext:'):
                return self.ext_call(st, q[4:], args, kw, node)
            if q in self.funcs:
                return self.prog_call(st, self.funcs[q], args, kw, node)
            c = self.prog.classes.get(q)
            if c is not None:
                return self.construct(st, c, args, kw)
            return self.opaque(st, q, None, args, kw)
        if op == 'unbound':
            c = self.prog.classes[f.args[0].args[0]]
            m = c.find(f.args[1])
            if m.static:
                return self.prog_call(st, m, args, kw, node)
            if m.classm:
                return self.opaque(st, m.qual, None, args, kw)
            return self.base_call(st, m, args, kw)
        if op == 'superm':
            cq, s = f.args[0].args
            c = self.prog.classes.get(cq)
            sc = self.class_of(s) or c
            m = sc.after(c, f.args[1]) if sc is not None and c is not None else None
            if m is None:
                if f.args[1] == '__init__':
                    return NONE
                return self.opaque(st, 'super.' + f.args[1], s, args, kw)
            return self.base_call(st, m, [s] + args, kw)
        if op == 'bound':
            return self.method_call(st, f.args[0], f.args[1], args, kw, node)
        if op == 'lam':
            pass
        if op == 'partial':
            return self.call(st, f.args[0], list(f.args[1]) + args, kw, node)
        return self.opaque(st, 'apply', f, args, kw)

    def base_call(self, st, m, args, kw):
        """Class.method(self, ...) / super().method(...)"""
        short = '%s.%s' % (m.cls.name, m.name)
        if short in self.events or m.name in self.events and m.name not in self.inline and short not in self.inline or not self.can_inline(m):
            return self.opaque(st, short, args[0] if args else None, args[1:], kw, func=m)
        return self.inline_func(st, m, args, kw)

    def prog_call(self, st, f, args, kw, node):
        n = f.name
        if n == 'abstractMethod':
            st.trace.append(('raise', 'NotImplementedError', 0))
            st.raised = TRUE
            return NONE
        if f.decorated or is_generator(f.node) or n in self.events or not self.can_inline(f):
            return self.opaque(st, n, None, args, kw, func=f)
        return self.inline_func(st, f, args, kw)

    def construct(self, st, c, args, kw):
        a = tuple(self.mat(st, x) for x in args)
        k = tuple(sorted((n, self.mat(st, v)) for n, v in kw.items()))
        # normalise to parameter names of __init__
        init = c.find('__init__')
        if init is not None:
            r = self.normal_args(init, a, k, skip=1)
            if r is not None:
                a, k = r
        t = lift('inst', c.qual, a, k)
        if 'new:' + c.name in self.events or c.name in self.events:
            return self.emit(st, 'new:' + c.name, None, a, k)
        if self.is_exception(c):
            return t
        return t

    def is_exception(self, c):
        return c.name.endswith('Error') or c.name.endswith('Exception')

    def normal_args(self, f, a, k, skip):
        """turn keyword arguments into positional ones where the signature allows"""
        args = f.node.args
        names = [x.arg for x in args.args][skip:]
        if any(x.op == 'star' for x in a) or any(n == '**' for n, _ in k):
            return None
        a = list(a)
        kd = dict(k)
        while len(a) < len(names) and names[len(a)] in kd:
            a.append(kd.pop(names[len(a)]))
        # drop trailing arguments equal to constant defaults
        nd = len(args.defaults)
        allnames = [x.arg for x in args.args]
        dflt = dict(zip(allnames[len(allnames) - nd:], args.defaults)) if nd else {}
        for n in list(kd):
            d = dflt.get(n)
            if isinstance(d, ast.Constant) and const(d.value) is kd[n]:
                del kd[n]
        while a and len(a) <= len(names):
            d = dflt.get(names[len(a) - 1])
            if isinstance(d, ast.Constant) and const(d.value) is a[-1]:
                a.pop()
            else:
                break
        return tuple(a), tuple(sorted(kd.items()))

    def call_closure(self, st, f, args, kw):
        node, env, frame = self.clos[f.args[0]]
        if f in self.stack or len(self.stack) > self.maxdepth:
            return self.opaque(st, 'rec', None, args, kw)
        fi = FuncInfo(frame.mod, node, frame.cls, getattr(node, 'name', '<lambda>'))
        if is_generator(node):
            return self.gen_term(st, f, args, kw)
        # late binding: names of the enclosing function that still live in st.env
        base = dict(env)
        if self.frames and self.frames[-1] is frame:
            for k in base:
                if k in st.env:
                    base[k] = st.env[k]
        return self.inline_func(st, fi, args, kw, env=base, key=f, frame=Frame(frame.func, frame.cls, frame.mod))

    def inline_func(self, st, f, args, kw, env=None, key=None, frame=None):
        node = f.node
        try:
            new = self.bind(st, f, args, kw, frame or Frame(f, f.cls, f.mod))
        except Unsupported:
            return self.opaque(st, f.name, None, args, kw, func=f)
        if env is not None:
            e = dict(env)
            e.update(new)
            new = e
        saved = (st.env, st.returned, st.ret, st.brk, st.cont, self.callee_ctx())
        new0 = dict(new)
        st.env = new
        st.returned = FALSE
        st.ret = NONE
        st.brk = st.cont = FALSE
        self.frames.append(frame or Frame(f, f.cls, f.mod))
        self.stack.append(key if key is not None else f)
        self.inlined.add(f.qual)
        try:
            if isinstance(node, ast.Lambda):
                r = self.ev(st, node.body)
            else:
                self.block(st, node.body)
                r = ite(st.returned, st.ret, NONE)
                if st.raised is not FALSE:
                    r = restrict(r, not_(st.raised))
        finally:
            self.frames.pop()
            self.stack.pop()
            final, st.env = st.env, saved[0]
            st.returned, st.ret, st.brk, st.cont = saved[1:5]
        if not isinstance(node, ast.Lambda):
            self.write_back(st, f, node, new0, final)
        return r

    def write_back(self, st, f, node, new, final):
        """lists held by value in a caller's variable and changed in place by the callee"""
        todo = [(p, v) for p, v in new.items() if final.get(p) is not None and final[p] is not v and v.op in VALUE_SEQ]
        if not todo:
            return
        stored = set(x.id for x in ast.walk(node) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load))
        for p, v in todo:
            if p in stored:
                continue
            names = [n for n, x in st.env.items() if x is v]
            if len(names) > 1:
                raise Unsupported('a list changed in place by %s' % f.name)
            for n in names:
                st.env = dict(st.env)
                st.env[n] = final[p]

    def callee_ctx(self):
        return None

    def bind(self, st, f, args, kw, frame):
        a = f.node.args
        names = [x.arg for x in a.args]
        env = {}
        kw = dict(kw)
        if any(x.op == 'star' for x in args):
            # f(*rest): positions unknown
            stars = [x for x in args if x.op == 'star']
            plain = [x for x in args if x.op != 'star']
            if len(stars) == 1 and args[-1] is stars[0]:
                if a.vararg and len(plain) == len(names):
                    for n, v in zip(names, plain):
                        env[n] = v
                    env[a.vararg.arg] = stars[0].args[0]
                    args = None
                elif a.vararg is None or len(plain) <= len(names):
                    s = stars[0].args[0]
                    for k, n in enumerate(names):
                        if k < len(plain):
                            env[n] = plain[k]
                        elif n in kw:
                            env[n] = kw.pop(n)
                        else:
                            env[n] = idx(s, num(k - len(plain)))
                    if a.vararg:
                        env[a.vararg.arg] = idx(s, slc(num(len(names) - len(plain))))
                    args = None
                else:
                    raise Unsupported('star args')
            else:
                raise Unsupported('star args')
        if args is not None:
            for n, v in zip(names, args):
                env[n] = v
            if len(args) > len(names):
                if a.vararg:
                    env[a.vararg.arg] = mk('tuple', *args[len(names):])
                else:
                    raise Unsupported('too many args for %s' % f.name)
            elif a.vararg:
                env[a.vararg.arg] = mk('tuple')
        nd = len(a.defaults)
        dn = names[len(names) - nd:] if nd else []
        dmap = dict(zip(dn, a.defaults))
        star = kw.pop('**', None)
        for n in names:
            if n in env:
                continue
            if n in kw:
                env[n] = kw.pop(n)
            elif n in dmap:
                env[n] = self.eval_in(st, dmap[n], frame)
            else:
                env[n] = mk('sym', '?missing_' + n) if star is None else idx(star, string(n))
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if n.arg in kw:
                env[n.arg] = kw.pop(n.arg)
            elif d is not None:
                env[n.arg] = self.eval_in(st, d, frame)
        if a.kwarg:
            if kw:
                items = [(string(k), v) for k, v in sorted(kw.items())]
                t = mk('dict', *sorted(items, key=lambda kv: kv[0].key))
                if star is not None:
                    t = mk('call', 'merge', (star, t), ())
            else:
                t = star if star is not None else mk('dict')
            env[a.kwarg.arg] = t
        elif kw:
            raise Unsupported('unexpected keyword for %s' % f.name)
        return env

    # opaque events -------------------------------------------------------
    def is_pure(self, name):
        short = name.rsplit('.', 1)[-1]
        if name in self.impure or short in self.impure:
            return False
        if name in self.pureset or short in self.pureset:
            return True
        return self.purity.pure(short)

    def opaque(self, st, name, recv, args, kw, func=None, pure=None):
        a = tuple(self.mat(st, x) for x in args)
        k = tuple(sorted((n, self.mat(st, v)) for n, v in kw.items()))
        if func is not None:
            r = self.normal_args(func, a, k, skip=1 if (func.cls is not None and not func.static) else 0)
            if r is not None:
                a, k = r
        else:
            defs = self.prog.method_defs(name.rsplit('.', 1)[-1]) if recv is not None else []
            if defs and k:
                sigs = set(tuple(x.arg for x in d.node.args.args[1:]) for d in defs)
                for d in defs:
                    nm = [x.arg for x in d.node.args.args[1:]]
                    if all(n in nm for n, _ in k):
                        r = self.normal_args(d, a, k, skip=1)
                        if r is not None:
                            a, k = r
                        break
        if pure is None:
            pure = self.is_pure(name)
        self.called.add(name.rsplit('.', 1)[-1])
        if pure:
            rr = (self.mat(st, recv),) if recv is not None else ()
            return lift('call', name, rr + a, k)
        return self.emit(st, name, recv, a, k)

    def emit(self, st, name, recv, a, k):
        r = self.mat(st, recv) if recv is not None and recv.op == 'obj' else recv
        snap = ()
        if recv is not None:
            snap = self.snapshot(st, recv)
        key = (name, r, a, k)
        n = st.dup.get(key, 0)
        st.dup[key] = n + 1
        st.trace.append(('ev', name, r, a, k, snap, getattr(getattr(self, 'cur', None), 'lineno', 0)))
        res = lift('call', '!' + name, ((r,) if r is not None else ()) + a, k + ((('#', num(n)),) if n else ()))
        if self.ords:
            res = lift('res', res, *self.ords)
        if recv is not None:
            c2 = st.dup.get((name, r), 0)
            st.dup[(name, r)] = c2 + 1
            self.havoc(st, recv, '%s.%d' % (name, c2))
        for x in a:
            if x.op in ('attr', 'sym', 'idx', 'after') and self.is_array(x) and name.rsplit('.', 1)[-1] in ARG_MUTATORS:
                c2 = st.dup.get((name, 'arg'), 0)
                self.mutate(st, x, mk('after', '%s.%d' % (name, c2), x))
        return res

    def snapshot(self, st, recv):
        if recv.op == 'ite':
            return ()
        out = []
        for k, v in st.heap.items():
            if under(k, recv):
                out.append((k, self.mat(st, v)))
        for k, v in st.contents.items():
            if k.op != 'obj' and under(k, recv) and k not in st.heap:
                out.append((k, self.mat(st, k)))
        out.sort(key=lambda kv: kv[0].key)
        return tuple(out)

    def method_call(self, st, b, name, args, kw, node=None):
        if b.op == 'ite':
            if all(self.class_of(l) is None for l in leafset(b)) and name not in CONTAINER_METHODS:
                return self.opaque(st, '.' + name, b, args, kw)
            a = b.args[0]
            c = atomvar(a)
            s1, s2 = self.split(st, c)
            r1 = self.method_call(s1, constrain(b, a, True), name, args, kw, node)
            r2 = self.method_call(s2, constrain(b, a, False), name, args, kw, node)
            self.merge_into(st, c, s1, s2)
            return ite(c, r1, r2)
        cls = self.class_of(b)
        if cls is not None:
            if name == 'setArgs' and 'setArgs' not in self.events:
                for k in kw:
                    if k != '**':
                        self.set_attr(st, b, k, kw[k])
                        ad = mk('argd', b, k)
                        st.heap[ad] = kw[k]
                if '**' in kw:
                    st.heap[mk('argd', b, '**')] = kw['**']
                return NONE
            f = cls.find(name)
            if f is not None:
                if f.static:
                    return self.prog_call(st, f, args, kw, node)
                if name in self.events and name not in self.inline or not self.can_inline(f):
                    return self.opaque(st, '.' + name, b, args, kw, func=f)
                return self.inline_func(st, f, [b] + args, kw)
            if name not in CONTAINER_METHODS:
                return self.opaque(st, '.' + name, b, args, kw)
        r = self.container_method(st, b, name, args, kw, node)
        if r is not NotImplemented:
            return r
        return self.opaque(st, '.' + name, b, args, kw)

    # ------------------------------------------------------------------ known containers / arrays
    def container_method(self, st, b, name, args, kw, node):
        v = self.val(st, b)
        cnode = node.func.value if node is not None and isinstance(node.func, ast.Attribute) else None
        A = [self.val(st, x) for x in args]
        kwv = tuple(sorted((k, self.mat(st, x)) for k, x in kw.items()))
        n = len(args)

        def upd(newv):
            if cnode is not None:
                if b.op == 'idx' and b.args[1].op == 'slice' and name in ('append', 'extend', 'insert', 'pop', 'remove'):
                    self.rebind(st, cnode, newv)       # a list: its slice was a copy
                    return NONE
                self.mutate_node(st, cnode, b, newv)
            else:
                self.mutate(st, b, newv)
            return NONE
        if kw and name not in ('sum', 'mean', 'max', 'min', 'sort', 'std', 'var', 'argmax', 'argmin', 'any', 'all', 'split', 'reshape',
                               'astype', 'prod', 'flatten', 'copy'):
            return NotImplemented
        if v.op in ('str', 'fmt') or name in ('split', 'strip', 'join', 'format', 'startswith', 'endswith', 'lower', 'upper', 'replace', 'rstrip',
                                              'lstrip', 'isdigit', 'find'):
            return lift('call', '.' + name, (v,) + tuple(self.mat(st, x) for x in args), kwv)
        if name == 'append' and n == 1:
            return upd(add_seq(v, mk('list', args[0])))
        if name == 'extend' and n == 1:
            return upd(add_seq(v, self.mat(st, args[0])))
        if name == 'insert' and n == 2:
            if A[0] is ZERO:
                return upd(add_seq(mk('list', args[1]), v))
            return upd(lift('call', 'insert', (v, A[0], self.mat(st, args[1])), ()))
        if name == 'pop' and n == 0:
            r = idx(v, num(-1))
            upd(idx(v, slc(None, num(-1))))
            return r
        if name == 'pop' and n in (1, 2):
            r = idx(v, A[0]) if n == 1 else ite(cmp_('in', A[0], v), idx(v, A[0]), args[1])
            if A[0] is ZERO:
                upd(idx(v, slc(ONE)))
            else:
                upd(del_at(v, A[0]))
            return r
        if name == 'remove' and n == 1:
            return upd(lift('call', 'remove', (v, A[0]), ()))
        if name == 'sort' and n == 0:
            return upd(lift('call', 'sorted', (v,), kwv))
        if name == 'reverse' and n == 0:
            return upd(idx(v, slc(None, None, num(-1))))
        if name == 'clear' and n == 0:
            return upd(mk('list') if v.op in ('list', 'concat') else mk('dict'))
        if name == 'add' and n == 1:
            return upd(setadd(v, A[0]))
        if name == 'discard' and n == 1:
            return upd(lift('call', 'discard', (v, A[0]), ()))
        if name == 'fill' and n == 1:
            return upd(filled(v, A[0]))
        if name == 'update' and n == 1:
            return upd(lift('call', 'merge', (v, self.mat(st, args[0])), ()))
        if name == 'setdefault' and n == 2:
            c = cmp_('in', A[0], v)
            old = idx(v, A[0])
            r = ite(c, old, args[1])
            upd(ite(c, v, store(v, A[0], args[1])))
            return r
        if name == 'get' and n in (1, 2):
            d = args[1] if n == 2 else NONE
            return ite(cmp_('in', A[0], v), idx(v, A[0]), d)
        if name == 'has_key' and n == 1:
            return cmp_('in', A[0], v)
        if name in ('keys', 'iterkeys') and n == 0:
            return lift('call', 'keys', (self.mat(st, v),), ())
        if name in ('values', 'itervalues') and n == 0:
            return lift('call', 'values', (self.mat(st, v),), ())
        if name in ('items', 'iteritems') and n == 0:
            return lift('call', 'items', (self.mat(st, v),), ())
        if name == 'copy' and n == 0:
            return self.copyof(st, v)
        if name == 'tolist' and n == 0:
            return self.copyof(st, v)
        if name == 'dot' and n == 1:
            return self.dot(v, A[0])
        if name == 'transpose' and n == 0:
            return self.view(b, self.transpose(v))
        if name in ('flatten', 'ravel') and n == 0:
            return self.ext_call(st, 'flatten', [v], {}, None)
        if name == 'reshape':
            sh = A[0] if n == 1 else lift('tuple', *A)
            return self.view(b, lift('call', 'reshape', (v, sh), kwv))
        if name in ('sum', 'mean', 'max', 'min', 'std', 'var', 'argmax', 'argmin', 'any', 'all', 'prod', 'argsort', 'cumsum', 'round',
                    'nonzero', 'trace', 'squeeze', 'conj', 'clip'):
            return self.ext_call(st, name, [v] + args, kw, None)
        if name == 'astype':
            return lift('call', 'astype', (v,) + tuple(A), kwv)
        if name in ('index', 'count', 'union', 'intersection', 'difference', 'issubset', 'item', 'repeat', 'take') and b.op != 'sym_':
            return lift('call', '.' + name, (self.mat(st, v),) + tuple(self.mat(st, x) for x in args), kwv)
        return NotImplemented

    def copyof(self, st, v):
        v = self.mat(st, v)
        if v.op in ('list', 'dict', 'set', 'concat', 'map', 'fmap'):
            return self.newobj(st, v)
        f = fresh(v)
        if f.op in ('fresh', 'ite', 'poly', 'num'):
            return self.newobj(st, f)
        return f

    def dot(self, a, b):
        def f(a, b):
            a = strip_fresh(a)
            b = strip_fresh(b)
            if a is ZERO or b is ZERO:
                return ZERO
            r = ZERO
            for m1, c1 in pd(a).items():
                for m2, c2 in pd(b).items():
                    x = pt({m1: Fraction(1)}) if m1 != () else ONE
                    y = pt({m2: Fraction(1)}) if m2 != () else ONE
                    r = add(r, mul(mk('num', c1 * c2), mk('call', 'dot', (x, y), ())))
            return r
        return apply(f, a, b)

    # ------------------------------------------------------------------ external functions
    def ext_call(self, st, name, args, kw, node):
        V = [self.val(st, x) for x in args]
        n = len(args)
        short = name.rsplit('.', 1)[-1]
        if name in IGNORED_CALLS or name.startswith('logging.') or name.startswith('warnings.'):
            return NONE
        if name in self.events:
            return self.opaque(st, name, None, args, kw, pure=False)
        if kw and '**' not in kw:
            kwv = {k: self.val(st, v) for k, v in kw.items()}
        else:
            kwv = kw
        if name.startswith('random.') or short in ('randn', 'rand', 'normal', 'shuffle', 'permutation', 'randint', 'gauss', 'choice', 'uniform', 'sample', 'multivariate_normal') and 'random' in name:
            if short in ('shuffle',) and n == 1:
                r = self.opaque(st, name, None, [self.mat(st, args[0])], {}, pure=False)
                self.mutate_any(st, node, args[0], lift('call', 'shuffled', (strip_fresh(V[0]),), ()))
                return NONE
            return self.opaque(st, name, None, args, kw, pure=False)
        h = getattr(self, 'x_' + name.replace('.', '_'), None)
        if h is not None:
            r = h(st, args, V, kwv, node)
            if r is not NotImplemented:
                return r
        if name in ('open', 'input', 'exec', 'eval', 'system', '__import__') or name.startswith(('os.', 'sys.', 'pickle.', 'cPickle.', 'time.', 'subprocess.')):
            return self.opaque(st, name, None, args, kw, pure=False)
        a = tuple(self.mat(st, x) for x in args)
        k = tuple(sorted((x, self.mat(st, v)) for x, v in kw.items()))
        if name in MASKED and len(a) == 1:
            a = (mask(a[0]),)
        return lift('call', name, a, k)

    def mutate_any(self, st, node, ref, newv):
        nd = node.args[0] if node is not None and node.args else None
        self.mutate_node(st, nd, ref, newv) if nd is not None else self.mutate(st, ref, newv)

    def x_len(self, st, a, V, kw, node):
        if len(a) != 1:
            return NotImplemented
        cls = self.class_of(a[0])
        if cls is not None:
            f = cls.find('__len__')
            if f is not None and '__len__' not in self.events and self.can_inline(f):
                return self.inline_func(st, f, [a[0]], {})
        return seqlen(self.deepval(st, V[0]))

    def x_range(self, st, a, V, kw, node):
        if len(V) == 1:
            return lift('arange', ZERO, V[0], ONE)
        if len(V) == 2:
            return lift('arange', V[0], V[1], ONE)
        if len(V) == 3:
            return lift('arange', V[0], V[1], V[2])
        return NotImplemented

    def x_arange(self, st, a, V, kw, node):
        if kw:
            return NotImplemented
        return self.x_range(st, a, V, kw, node)

    def x_enumerate(self, st, a, V, kw, node):
        s = V[1] if len(V) > 1 else kw.get('start', ZERO)
        it = self.val(st, self.iterable(st, a[0]))
        return lift('enum', self.deepval(st, it), s)

    def x_zip(self, st, a, V, kw, node):
        return lift('zip', *[self.deepval(st, self.val(st, self.iterable(st, x))) for x in a])

    def x_reversed(self, st, a, V, kw, node):
        return lift('rev', self.deepval(st, V[0]))

    def x_list(self, st, a, V, kw, node):
        if not a:
            return self.newobj(st, mk('list'))
        v = self.val(st, self.iterable(st, a[0]))
        return self.newobj(st, self.as_list(st, v))

    def as_list(self, st, v):
        v = self.deepval(st, v)

        def f(v):
            if v.op == 'tuple':
                return mk('list', *v.args)
            if v.op in ('list', 'map', 'fmap', 'concat', 'flat', 'arange'):
                if v.op == 'arange' and seqlen(v).op == 'num' and 0 <= seqlen(v).args[0] <= 8:
                    return mk('list', *[idx(v, num(k)) for k in range(int(seqlen(v).args[0]))])
                return v
            if v.op in ('zip', 'enum'):
                n = seqlen(v)
                o = mk('ord', 'C%d' % self.fresh_id())
                return bmap(o, n, idx(v, o))
            return fresh(v)
        return apply(f, v)

    def x_tuple(self, st, a, V, kw, node):
        if not a:
            return mk('tuple')
        v = self.deepval(st, V[0])

        def f(v):
            if v.op == 'list' and not any(x.op == 'star' for x in v.args):
                return mk('tuple', *v.args)
            return fresh(v)
        return apply(f, v)

    def x_set(self, st, a, V, kw, node):
        if not a:
            return self.newobj(st, mk('set'))
        return self.newobj(st, lift('call', 'set', (self.deepval(st, V[0]),), ()))

    def x_dict(self, st, a, V, kw, node):
        if not a and '**' not in kw:
            its = sorted(((string(k), v) for k, v in kw.items()), key=lambda kv: kv[0].key)
            return self.newobj(st, mk('dict', *its) if its else mk('dict'))
        if len(a) == 1 and not kw:
            v = self.deepval(st, V[0])
            return self.newobj(st, apply(lambda v: v if v.op == 'dict' else self.mkdict(v) if v.op in ('map', 'list', 'tuple') else fresh(v), v))
        return NotImplemented

    def x_sum(self, st, a, V, kw, node):
        if kw or len(a) != 1:
            if len(a) == 2 and not kw and V[1].op == 'list' and not V[1].args:
                return self.newobj(st, lift('flat', self.deepval(st, V[0])))
            return NotImplemented
        return sum_of(mask(self.deepval(st, V[0])))

    def x_map(self, st, a, V, kw, node):
        if len(a) != 2:
            return NotImplemented
        it = self.deepval(st, V[1])
        return self.map_over(st, a[0], it)

    def map_over(self, st, f, it):
        if it.op == 'ite':
            return self.each_case(st, it, lambda s, x: self.map_over(s, f, x))
        n = seqlen(it)
        if n.op == 'num' and 0 <= n.args[0] <= self.unroll_max and it.op in ('list', 'tuple', 'arange'):
            return mk('list', *[self.mat(st, self.call(st, f, [idx(it, num(k))], {})) for k in range(int(n.args[0]))])
        o = mk('ord', 'C%d' % self.fresh_id())
        self.ords.append(o)
        mark = len(st.trace)
        s0 = st.copy()
        nob = self.nobj
        try:
            body = self.mat(st, self.call(st, f, [idx(it, o)], {}))
        finally:
            self.ords.pop()
        if self.effectful(st, s0, nob):
            self.restore(st, s0, mark)
            nm = '$m%d' % self.fresh_id()
            r = self.acc_loop(st, it, ast.Name(id=nm, ctx=ast.Store()),
                              lambda s: mk('list', self.mat(s, self.call(s, f, [s.env[nm]], {}))))
            st.env.pop(nm, None)
            return r
        tr = st.trace[mark:]
        if tr:
            del st.trace[mark:]
            st.trace.append(('loop', n, o, FALSE, tr))
        return bmap(o, n, body)

    def x_filter(self, st, a, V, kw, node):
        it = self.deepval(st, V[1])
        if it.op == 'ite' or len(a) != 2:
            return NotImplemented
        n = seqlen(it)
        o = mk('ord', 'C%d' % self.fresh_id())
        self.ords.append(o)
        try:
            x = idx(it, o)
            c = truth(x) if a[0] is NONE else truth(self.val(st, self.call(st, a[0], [x], {})))
        finally:
            self.ords.pop()
        return bfmap(o, n, c, x)

    def x_any(self, st, a, V, kw, node):
        return self.anyall(st, V, True) if len(a) == 1 and not kw else NotImplemented

    def x_all(self, st, a, V, kw, node):
        return self.anyall(st, V, False) if len(a) == 1 and not kw else NotImplemented

    def anyall(self, st, V, isany):
        v = self.deepval(st, V[0])

        def f(v):
            if v.op in ('list', 'tuple') and not any(x.op == 'star' for x in v.args):
                return or_(*v.args) if isany else and_(*v.args) if v.args else (FALSE if isany else TRUE)
            if v.op == 'map':
                o = mk('ord', 'C%d' % self.fresh_id())
                b = truth(inst_body(v, o))
                return self.anyterm(o, v.args[0], b) if isany else not_(self.anyterm(o, v.args[0], not_(b)))
            if v.op == 'fmap':
                o = mk('ord', 'C%d' % self.fresh_id())
                q = bvof(v)
                c = subst(v.args[1], {q: o})
                b = truth(subst(v.args[2], {q: o}))
                return self.anyterm(o, v.args[0], and_(c, b)) if isany else not_(self.anyterm(o, v.args[0], and_(c, not_(b))))
            return mk('call', 'any' if isany else 'all', (v,), ())
        return apply(f, v)

    def x_min(self, st, a, V, kw, node):
        return self.minmax(st, a, V, kw, False)

    def x_max(self, st, a, V, kw, node):
        return self.minmax(st, a, V, kw, True)

    def minmax(self, st, a, V, kw, ismax):
        nm = 'max' if ismax else 'min'
        if kw:
            return NotImplemented
        if len(V) == 1:
            v = self.deepval(st, V[0])
            if v.op in ('list', 'tuple') and len(v.args) in (1, 2) and not any(x.op == 'star' for x in v.args):
                V = list(v.args)
            else:
                return lift('call', nm, (v,), ())
        r = V[0]
        for x in V[1:]:
            r = maxmin(r, x, ismax)
        return r

    def x_maximum(self, st, a, V, kw, node):
        return maxmin(V[0], V[1], True) if len(V) == 2 and not kw else NotImplemented

    def x_minimum(self, st, a, V, kw, node):
        return maxmin(V[0], V[1], False) if len(V) == 2 and not kw else NotImplemented

    def x_clip(self, st, a, V, kw, node):
        if len(V) == 3 and not kw:
            return maxmin(maxmin(V[0], V[1], True), V[2], False)
        return NotImplemented

    def x_abs(self, st, a, V, kw, node):
        if len(V) != 1:
            return NotImplemented

        return TM.abs_of(V[0])

    def x_where(self, st, a, V, kw, node):
        if len(V) != 3:
            return NotImplemented
        return ite(truth(V[0]), V[1], V[2])

    def x_exp(self, st, a, V, kw, node):
        return exp_(V[0]) if len(V) == 1 and not kw else NotImplemented

    def x_sqrt(self, st, a, V, kw, node):
        return pow_(V[0], num(Fraction(1, 2))) if len(V) == 1 else NotImplemented

    def x_square(self, st, a, V, kw, node):
        return mul(V[0], V[0])

    def x_pow(self, st, a, V, kw, node):
        return pow_(V[0], V[1]) if len(V) == 2 else NotImplemented

    def x_dot(self, st, a, V, kw, node):
        return self.dot(V[0], V[1]) if len(V) == 2 and not kw else NotImplemented

    x_matmul = x_dot

    def x_add(self, st, a, V, kw, node):
        return add(V[0], V[1]) if len(V) == 2 else NotImplemented

    def x_multiply(self, st, a, V, kw, node):
        return mul(V[0], V[1]) if len(V) == 2 else NotImplemented

    def x_subtract(self, st, a, V, kw, node):
        return sub(V[0], V[1]) if len(V) == 2 else NotImplemented

    def x_divide(self, st, a, V, kw, node):
        return div(V[0], V[1]) if len(V) == 2 else NotImplemented

    def x_negative(self, st, a, V, kw, node):
        return neg(V[0])

    def x_transpose(self, st, a, V, kw, node):
        return self.transpose(V[0]) if len(V) == 1 else NotImplemented

    def x_reshape(self, st, a, V, kw, node):
        return lift('call', 'reshape', (self.mat(st, V[0]), self.mat(st, V[1])), ()) if len(V) == 2 and not kw else NotImplemented

    def x_flatten(self, st, a, V, kw, node):
        if len(V) != 1 or kw:
            return NotImplemented

        def f(x):
            # linear
            if x.op == 'poly':
                r = ZERO
                for m, c in x.args:
                    if len(m) == 1 and m[0][1] == 1:
                        r = add(r, mul(mk('num', c), mk('call', 'flatten', (m[0][0],), ())))
                    else:
                        return mk('call', 'flatten', (x,), ())
                return r
            return mk('call', 'flatten', (x,), ())
        return apply(f, self.deepval(st, V[0]))

    def x_asarray(self, st, a, V, kw, node):
        if kw or len(a) != 1:
            return NotImplemented
        return a[0]

    def x_array(self, st, a, V, kw, node):
        if len(a) != 1 or kw:
            if len(a) >= 1:
                return NotImplemented
        return self.copyof(st, self.deepval(st, V[0]))

    def x_float(self, st, a, V, kw, node):
        if len(V) != 1:
            return NotImplemented
        return V[0] if V[0].op != 'str' else NotImplemented

    def x_int(self, st, a, V, kw, node):
        if len(V) != 1:
            return NotImplemented

        def f(x):
            if is_int(x):
                return x
            return mk('call', 'int', (x,), ())
        return apply(f, V[0])

    def x_bool(self, st, a, V, kw, node):
        return truth(V[0]) if len(V) == 1 else NotImplemented

    def x_iter(self, st, a, V, kw, node):
        return V[0] if len(a) == 1 else NotImplemented

    def x_getattr(self, st, a, V, kw, node):
        if V[1].op == 'str':
            r = self.get_attr(st, a[0], V[1].args[0])
            return r
        nm = V[1]
        if nm.op == 'ite':
            return NotImplemented
        loc = mk('attr', a[0], nm)
        v = st.heap.get(loc)
        return v if v is not None else self.default_read(st, loc)

    def x_setattr(self, st, a, V, kw, node):
        if V[1].op == 'str':
            self.set_attr(st, a[0], V[1].args[0], a[2])
            return NONE
        st.heap[mk('attr', a[0], V[1])] = a[2]
        return NONE

    def x_hasattr(self, st, a, V, kw, node):
        return atomvar(mk('hasattr', V[0], V[1]))

    def x_isinstance(self, st, a, V, kw, node):
        cl = self.deepval(st, V[1])

        def f(x, c):
            if c.op in ('tuple', 'list'):
                return or_(*[f(x, y) for y in c.args])
            k = self.class_of(x)
            if k is not None and c.op == 'glob' and c.args[0] in self.prog.classes:
                cc = self.prog.classes[c.args[0]]
                if x.op == 'inst':
                    return TRUE if cc in k.mro() else FALSE
                if cc in k.mro():
                    return TRUE
                # concrete class of self is fixed for this analysis
                if x is self.selfsym:
                    return FALSE
            return atomvar(mk('isinst', x, c))
        return apply(f, self.mat(st, a[0]), cl)

    def x_deepcopy(self, st, a, V, kw, node):
        return self.newobj(st, lift('call', 'deepcopy', (self.mat(st, a[0]),), ()))

    def x_copy_copy(self, st, a, V, kw, node):
        return self.copyof(st, V[0])

    def x_zeros(self, st, a, V, kw, node):
        if 'dtype' in kw or len(a) > 1:
            pass
        sh = self.mat(st, a[0]) if a else NONE
        if sh.op == 'list':
            sh = mk('tuple', *sh.args)
        if sh.op == 'tuple' and len(sh.args) == 1:
            sh = sh.args[0]
        return self.newobj(st, lift('call', 'zeros', (sh,), tuple(sorted((k, self.mat(st, v)) for k, v in kw.items()))))

    def x_ones(self, st, a, V, kw, node):
        sh = self.mat(st, a[0]) if a else NONE
        if sh.op == 'list':
            sh = mk('tuple', *sh.args)
        if sh.op == 'tuple' and len(sh.args) == 1:
            sh = sh.args[0]
        return self.newobj(st, lift('call', 'ones', (sh,), tuple(sorted((k, self.mat(st, v)) for k, v in kw.items()))))

    def x_sorted(self, st, a, V, kw, node):
        k = tuple(sorted((x, self.mat(st, v)) for x, v in kw.items()))
        return self.newobj(st, lift('call', 'sorted', (strip_fresh(self.as_list(st, V[0])),), k))

    def x_size(self, st, a, V, kw, node):
        return lift('call', 'size', (self.deepval(st, V[0]),), ()) if len(a) == 1 and not kw else NotImplemented

    def x_shape(self, st, a, V, kw, node):
        return self.get_attr(st, a[0], 'shape')

    def x_partial(self, st, a, V, kw, node):
        if kw:
            return NotImplemented
        return mk('partial', a[0], tuple(a[1:]))

    def x_reduce(self, st, a, V, kw, node):
        return NotImplemented

    def x_id(self, st, a, V, kw, node):
        return lift('call', 'id', (a[0],), ())

    def x_type(self, st, a, V, kw, node):
        if len(a) == 1:
            return mk('attr', V[0], '__class__') if V[0].op != 'ite' else NotImplemented
        return NotImplemented

    def x_next(self, st, a, V, kw, node):
        return self.opaque(st, 'next', None, a, kw, pure=False)


OPS = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Is': 'is', 'IsNot': 'is not',
       'In': 'in', 'NotIn': 'not in'}
VALUE_SEQ = {'fresh', 'res', 'concat', 'map', 'fmap', 'flat', 'list', 'store', 'mapstore', 'rep', 'cv', 'fold'}
ARG_MUTATORS = {'_forwardImplementation', '_backwardImplementation'}
CONTAINER_METHODS = MUTATORS | PURE_METHODS


def copy_flags_view(self):
    s = State()
    for k in State.__slots__:
        setattr(s, k, getattr(self, k))
    s.env = self.env
    s.trace = []
    return s


State.copy_flags_view = copy_flags_view


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    g = getattr(node, '_isgen', None)
    if g is None:
        g = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                g = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        node._isgen = g
    return g


def is_boolish(v):
    return all(l is TRUE or l is FALSE for l in leafset(v))


def under(k, base):
    """is location k inside object base"""
    x = k
    while x.op in ('attr', 'idx', 'argd'):
        x = x.args[0]
        if x is base:
            return True
    if x.op == 'after':
        y = x.args[1]
        return y is base or under(y, base)
    return False


def mk2tuple(a, b):
    return lift('tuple', a, b)


def add_seq(a, b):
    def f(a, b):
        a = strip_fresh(a)
        return concat(a, b)
    return apply(f, a, b)


def cat2(a, b):
    return apply(lambda x, y: concat(x, y), a, b)


def _cat(parts):
    r = mk('list')
    for p in parts:
        r = concat(r, p)
    return r


def setadd(s, x):
    def f(s, x):
        if s.op == 'set':
            if x in s.args:
                return s
            if not s.args:
                return mk('set', x)
        return mk('setadd', s, x)
    return apply(f, s, x)


def maxmin(a, b, ismax):
    def f(a, b):
        a = strip_fresh(a)
        b = strip_fresh(b)
        if a is b:
            return a
        if a.op == 'num' and b.op == 'num':
            return a if (a.args[0] >= b.args[0]) == ismax else b
        for x, y in ((a, b), (b, a)):
            if x.op == 'const' and x.args[0] == 'inf':
                return x if ismax else y
        # canonical orientation: a plain "less than" (where they are equal it does not matter)
        if a.key > b.key:
            a, b = b, a
        c = cmp_('<', a, b)
        if not (c.op == 'ite' and c.args[1].op != 'ite' and c.args[2].op != 'ite'):
            d = cmp_('<', b, a)
            if d.op == 'ite' and d.args[1].op != 'ite' and d.args[2].op != 'ite':
                a, b, c = b, a, d
        return ite(c, b, a) if ismax else ite(c, a, b)
    return apply(f, a, b)


def subst_fix(t, m):
    """substitute until no key occurs (closed forms may mention other closed carries)"""
    if not m:
        return t
    for _ in range(8):
        t2 = subst(t, m)
        if t2 is t:
            return t
        t = t2
    return t


def subst_names(t, iscv=None):
    """the term without the names of carried values and of local objects"""
    anon = mk('cv', 0, '?')
    o = mk('ord', '?')
    return subst(t, {x: (o if x.op == 'ord' else anon) for x in walk(t) if x.op in ('cv', 'obj', 'ord')})


def restrict_drop(B, B2):
    return FALSE if B2 is FALSE else B


def subst_trace(tr, m):
    if not m:
        return tr
    return map_trace(tr, lambda t: subst_fix(t, m))


def map_trace(tr, f):
    out = []
    for x in tr:
        if x[0] == 'ev':
            _, name, r, a, k, snap, ln = x
            out.append(('ev', name, f(r) if r is not None else None, tuple(f(y) for y in a), tuple((n, f(v)) for n, v in k),
                        tuple((f(p), f(q)) for p, q in snap), ln))
        elif x[0] == 'if':
            c = f(x[1])
            if c is TRUE:
                out.extend(map_trace(x[2], f))
            elif c is FALSE:
                out.extend(map_trace(x[3], f))
            else:
                out.append(('if', c, map_trace(x[2], f), map_trace(x[3], f)))
        elif x[0] == 'loop':
            out.append(('loop', f(x[1]), x[2], f(x[3]), map_trace(x[4], f)))
        elif x[0] == 'wr':
            out.append(('wr', f(x[1]), f(x[2]), x[3]))
        else:
            out.append(x)
    return out


class Summary(object):
    def show(self):
        out = []
        out.append('ret = %s' % show(self.ret))
        for k, v in self.heap.items():
            out.append('%s := %s' % (show(k), show(v)))
        out += show_trace(self.trace, '  ')
        if self.raised is not FALSE:
            out.append('raised if %s' % show(self.raised))
        return '\n'.join(out)


def show_trace(tr, ind):
    out = []
    for x in tr:
        if x[0] == 'ev':
            _, name, r, a, k, snap, ln = x
            out.append('%s%s%s(%s)%s' % (ind, show(r) + '' if r is not None else '', name if r is None or name.startswith('.') else '->' + name,
                                         ', '.join([show(y) for y in a] + ['%s=%s' % (n, show(v)) for n, v in k]),
                                         '   {%s}' % ', '.join('%s=%s' % (show(p), show(q)) for p, q in snap) if snap else ''))
        elif x[0] == 'if':
            out.append('%sif %s:' % (ind, show(x[1])))
            out += show_trace(x[2], ind + '  ')
            if x[3]:
                out.append('%selse:' % ind)
                out += show_trace(x[3], ind + '  ')
        elif x[0] == 'loop':
            out.append('%sloop %s < %s%s:' % (ind, show(x[2]), show(x[1]), '' if x[3] is FALSE else ' until ' + show(x[3])))
            out += show_trace(x[4], ind + '  ')
        elif x[0] == 'wr':
            out.append('%s%s := %s' % (ind, show(x[1]), show(x[2])))
        else:
            out.append('%sraise %s' % (ind, x[1]))
    return out
