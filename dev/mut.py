"""sensitivity / quietness measurement: in-memory mutants and behaviour-preserving rewrites of the functions a property covers.
usage: mut.py <prop> [mut|ref] [key] [-v]"""
import ast, copy, sys, os, random, time, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa.loader import Program, FuncInfo, mangle
from sa.spec import Checker, load_specs, load_vocab, HERE, clip
from sa import terms as TM

SWAPATTR = [('indim', 'outdim'), ('inSliceFrom', 'outSliceFrom'), ('inSliceTo', 'outSliceTo'), ('params', 'derivs'), ('inputbuffer', 'outputbuffer'),
            ('inputerror', 'outputerror'), ('inmod', 'outmod'), ('inmodules', 'outmodules'), ('min', 'max'), ('argmin', 'argmax'), ('inOffset', 'outOffset'),
            ('sin', 'cos'), ('floor', 'ceil'), ('keys', 'values'), ('zeros', 'ones'), ('append', 'remove'), ('bestEvaluation', 'bestEvaluable'), ('any', 'all')]
SW = {}
for a, b in SWAPATTR:
    SW[a] = b; SW[b] = a


def mutants(fn):
    """yield (description, mutated copy)"""
    nodes = list(ast.walk(fn))
    docs = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(id(n.value)); docs.add(id(n))
        if isinstance(n, ast.Assert):
            for x in ast.walk(n):
                docs.add(id(x))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print':
            for x in ast.walk(n): docs.add(id(x))
        if isinstance(n, ast.Raise):
            for x in ast.walk(n): docs.add(id(x))

    def mk(path_index, edit):
        c = copy.deepcopy(fn)
        m = list(ast.walk(c))[path_index]
        r = edit(m, c)
        if r is False:
            return None
        ast.fix_missing_locations(c)
        return c

    def repl(c, old, new):
        for p in ast.walk(c):
            for f, v in ast.iter_fields(p):
                if v is old:
                    setattr(p, f, new); return True
                if isinstance(v, list):
                    for i, x in enumerate(v):
                        if x is old:
                            if new is None: del v[i]
                            else: v[i] = new
                            if not v and f == 'body': v.append(ast.Pass())
                            return True
        return False
    for i, n in enumerate(nodes):
        if id(n) in docs: continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield 'L%d const %r' % (ln, n.value), mk(i, lambda m, c: setattr(m, 'value', not m.value))
            elif isinstance(n.value, (int, float)):
                yield 'L%d const %r+1' % (ln, n.value), mk(i, lambda m, c: setattr(m, 'value', m.value + 1))
                if n.value not in (0, 1):
                    yield 'L%d const %r-1' % (ln, n.value), mk(i, lambda m, c: setattr(m, 'value', m.value - 1))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for o, r in ((ast.Add, ast.Sub), (ast.Sub, ast.Add), (ast.Mult, ast.Div), (ast.Div, ast.Mult), (ast.FloorDiv, ast.Mult), (ast.Mod, ast.FloorDiv), (ast.Pow, ast.Mult)):
                if isinstance(n.op, o) and not (o is ast.Mod and isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant)):
                    yield 'L%d %s->%s' % (ln, o.__name__, r.__name__), mk(i, lambda m, c, r=r: setattr(m, 'op', r()))
            if isinstance(n, ast.AugAssign):
                def e(m, c):
                    return repl(c, m, ast.Assign([m.target], m.value, lineno=m.lineno))
                yield 'L%d aug->assign' % ln, mk(i, e)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o, r in ((ast.Lt, ast.LtE), (ast.LtE, ast.Lt), (ast.Gt, ast.GtE), (ast.GtE, ast.Gt), (ast.Eq, ast.NotEq), (ast.NotEq, ast.Eq), (ast.Is, ast.IsNot), (ast.IsNot, ast.Is), (ast.In, ast.NotIn), (ast.NotIn, ast.In)):
                if isinstance(n.ops[0], o):
                    yield 'L%d %s->%s' % (ln, o.__name__, r.__name__), mk(i, lambda m, c, r=r: setattr(m, 'ops', [r()]))
        elif isinstance(n, ast.BoolOp):
            yield 'L%d and<->or' % ln, mk(i, lambda m, c: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            yield 'L%d drop operand' % ln, mk(i, lambda m, c: repl(c, m, m.values[0]))
        elif isinstance(n, ast.If):
            yield 'L%d negate if' % ln, mk(i, lambda m, c: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield 'L%d drop unary' % ln, mk(i, lambda m, c: repl(c, m, m.operand))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
            yield 'L%d delete %s' % (ln, ast.unparse(n)[:50]), mk(i, lambda m, c: repl(c, m, None))
        if isinstance(n, (ast.AugAssign,)):
            yield 'L%d delete %s' % (ln, ast.unparse(n)[:50]), mk(i, lambda m, c: repl(c, m, None))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            def e(m, c):
                m.args[0], m.args[1] = m.args[1], m.args[0]
            yield 'L%d swap args %s' % (ln, ast.unparse(n)[:50]), mk(i, e)
        if isinstance(n, ast.Slice):
            if n.lower is not None: yield 'L%d slice lower' % ln, mk(i, lambda m, c: setattr(m, 'lower', None))
            if n.upper is not None: yield 'L%d slice upper' % ln, mk(i, lambda m, c: setattr(m, 'upper', None))
        if isinstance(n, ast.Attribute) and n.attr in SW:
            yield 'L%d .%s swap' % (ln, n.attr), mk(i, lambda m, c: setattr(m, 'attr', SW[m.attr]))
        if isinstance(n, ast.Name) and n.id in SW and isinstance(n.ctx, ast.Load):
            yield 'L%d %s swap' % (ln, n.id), mk(i, lambda m, c: setattr(m, 'id', SW[m.id]))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Store) and n.slice.lower is None and n.slice.upper is None:
            def e(m, c):
                v = m.value; v.ctx = ast.Store(); return repl(c, m, v)
            yield 'L%d in-place->rebind' % ln, mk(i, e)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            yield 'L%d drop copy' % ln, mk(i, lambda m, c: repl(c, m, m.func.value))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'array', 'deepcopy', 'reversed', 'sorted') and len(n.args) == 1:
            yield 'L%d drop %s()' % (ln, n.func.id), mk(i, lambda m, c: repl(c, m, m.args[0]))
        if isinstance(n, (ast.Break, ast.Continue)):
            yield 'L%d break/continue' % ln, mk(i, lambda m, c: repl(c, m, ast.Pass()))


def refactors(fn, fi, rnd):
    c0 = lambda: copy.deepcopy(fn)
    params = set(a.arg for a in fn.args.args) | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
    nested = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            nested |= set(a.arg for a in n.args.args)
            if isinstance(n, ast.FunctionDef): nested.add(n.name)
        if isinstance(n, (ast.Global, ast.Nonlocal)): nested |= set(n.names)
        if isinstance(n, ast.alias): nested.add((n.asname or n.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name: nested.add(n.name)
    stored = set(n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)) - params - nested
    # rename locals
    if stored:
        c = c0()
        for n in ast.walk(c):
            if isinstance(n, ast.Name) and n.id in stored: n.id = 'zz_' + n.id
        yield 'rename locals', c
    # invert if
    c = c0()
    k = 0
    for n in ast.walk(c):
        if isinstance(n, ast.If) and n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body; k += 1
    if k: yield 'invert if/else', c
    c = c0()
    k = 0
    for n in ast.walk(c):
        if isinstance(n, ast.IfExp):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body; k += 1
    if k: yield 'invert ifexp', c
    # trailing if -> guard return
    def trailing(c):
        if c.body and isinstance(c.body[-1], ast.If) and not c.body[-1].orelse and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(c)):
            i = c.body.pop()
            c.body.append(ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Return(None)], []))
            c.body += i.body
            return True
    c = c0()
    if trailing(c): yield 'guard return', c
    # comparison flip
    c = c0(); k = 0
    for n in ast.walk(c):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            f = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(n.ops[0]))
            if f:
                n.left, n.comparators = n.comparators[0], [n.left]; n.ops = [f()]; k += 1
    if k: yield 'flip comparisons', c
    c = c0(); k = 0
    class NegEq(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1:
                f = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}.get(type(n.ops[0]))
                if f:
                    nonlocal k
                    k += 1
                    n.ops = [f()]
                    return ast.UnaryOp(ast.Not(), n)
            return n
    c = NegEq().visit(c)
    # negating comparisons is only meaning-preserving on scalars
    if k and not any(isinstance(x, ast.Attribute) and x.attr.endswith('buf') for x in ast.walk(c)): yield 'negate comparisons', c
    # temporaries
    class Temp(ast.NodeTransformer):
        def __init__(s): s.k = 0
        def visit_Assign(s, n):
            if isinstance(n.value, (ast.BinOp, ast.Call, ast.Attribute, ast.Subscript, ast.ListComp)) and len(n.targets) == 1:
                s.k += 1
                t = 'tmp_%d' % s.k
                return [ast.Assign([ast.Name(t, ast.Store())], n.value, lineno=n.lineno), ast.Assign(n.targets, ast.Name(t, ast.Load()), lineno=n.lineno)]
            return n
        def visit_Return(s, n):
            if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)):
                s.k += 1
                t = 'tmp_%d' % s.k
                return [ast.Assign([ast.Name(t, ast.Store())], n.value, lineno=n.lineno), ast.Return(ast.Name(t, ast.Load()))]
            return n
        def visit_If(s, n):
            s.generic_visit(n)
            if isinstance(n.test, (ast.Compare, ast.BoolOp, ast.Call)):
                s.k += 1
                t = 'tmp_%d' % s.k
                tst = n.test
                n.test = ast.Name(t, ast.Load())
                return [ast.Assign([ast.Name(t, ast.Store())], tst, lineno=n.lineno), n]
            return n
        def visit_Lambda(s, n): return n
    c = c0(); T = Temp(); c2 = copy.copy(c); 
    c.body = [y for x in c.body for y in (lambda r: r if isinstance(r, list) else [r])(T.visit(x))]
    # elif chains: evaluating a later test early is fine only inside orelse (kept there)
    if T.k: yield 'temporaries', c
    # loops over indices
    class Idx(ast.NodeTransformer):
        def __init__(s): s.k = 0
        def visit_For(s, n):
            s.generic_visit(n)
            if isinstance(n.iter, (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Name) and not n.orelse:
                s.k += 1
                i = 'ix_%d' % s.k
                return ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [n.iter], [])], []),
                               [ast.Assign([n.target], ast.Subscript(n.iter, ast.Name(i, ast.Load()), ast.Load()), lineno=n.lineno)] + n.body, [], lineno=n.lineno)
            return n
    c = c0(); I = Idx(); c = I.visit(c)
    if I.k: yield 'index loops', c
    class Enum(ast.NodeTransformer):
        def __init__(s): s.k = 0
        def visit_For(s, n):
            s.generic_visit(n)
            if not n.orelse:
                s.k += 1
                n.target = ast.Tuple([ast.Name('ez_%d' % s.k, ast.Store()), n.target], ast.Store())
                n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], [])
            return n
    c = c0(); I = Enum(); c = I.visit(c)
    if I.k: yield 'enumerate loops', c
    class Whl(ast.NodeTransformer):
        def __init__(s): s.k = 0
        def visit_For(s, n):
            s.generic_visit(n)
            if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) \
                    and not n.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
                s.k += 1
                t = n.target.id
                return [ast.Assign([ast.Name(t, ast.Store())], ast.Constant(0), lineno=n.lineno),
                        ast.While(ast.Compare(ast.Name(t, ast.Load()), [ast.Lt()], [n.iter.args[0]]), n.body + [ast.AugAssign(ast.Name(t, ast.Store()), ast.Add(), ast.Constant(1))], [])]
            return n
    c = c0(); I = Whl(); c = I.visit(c)
    if I.k: yield 'while loops', c
    # list comprehension -> append loop (in simple assignments)
    class Unc(ast.NodeTransformer):
        def __init__(s): s.k = 0
        def visit_Assign(s, n):
            v = n.value
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(n.targets) == 1:
                s.k += 1
                t = 'acc_%d' % s.k
                g = v.generators[0]
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [v.elt], []))]
                for cnd in reversed(g.ifs): body = [ast.If(cnd, body, [])]
                return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load()), lineno=n.lineno),
                        ast.For(g.target, g.iter, body, [], lineno=n.lineno), ast.Assign(n.targets, ast.Name(t, ast.Load()), lineno=n.lineno)]
            return n
        def visit_Return(s, n):
            if isinstance(n.value, ast.ListComp):
                r = s.visit_Assign(ast.Assign([ast.Name('accr', ast.Store())], n.value, lineno=n.lineno))
                if isinstance(r, list): return r + [ast.Return(ast.Name('accr', ast.Load()))]
            return n
    c = c0(); I = Unc(); c = I.visit(c)
    if I.k: yield 'comprehension->loop', c
    # append loop -> comprehension
    def tocomp(c):
        k = 0
        for p in ast.walk(c):
            b = getattr(p, 'body', None)
            if not isinstance(b, list): continue
            for i in range(len(b) - 1):
                a, f = b[i], b[i + 1]
                if isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.List) and not a.value.elts and isinstance(f, ast.For) and not f.orelse and len(f.body) == 1:
                    e = f.body[0]
                    if isinstance(e, ast.Expr) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) and e.value.func.attr == 'append' and isinstance(e.value.func.value, ast.Name) and e.value.func.value.id == a.targets[0].id:
                        a.value = ast.ListComp(e.value.args[0], [ast.comprehension(f.target, f.iter, [], 0)])
                        b[i + 1] = ast.Pass(); k += 1
        return k
    c = c0()
    if tocomp(c): yield 'loop->comprehension', c
    # extract expression into a helper method
    if fi.cls is not None and not fi.static and fn.args.args:
        sn = fn.args.args[0].arg
        cands = []
        for n in ast.walk(fn):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr)) and n.value is not None and isinstance(n.value, (ast.BinOp, ast.Call)):
                names = [x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)]
                if any(isinstance(x, (ast.Lambda, ast.comprehension, ast.Yield, ast.Starred)) for x in ast.walk(n.value)) or 'super' in names: continue
                cands.append(n.lineno)
        cands = sorted(set(cands))
        rnd.shuffle(cands)
        for ln in cands[:3]:
            c = c0()
            for n in ast.walk(c):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr)) and n.lineno == ln and n.value is not None and isinstance(n.value, (ast.BinOp, ast.Call)):
                    locs = sorted(set(x.id for x in ast.walk(n.value) if isinstance(x, ast.Name) and (x.id in stored or x.id in params or x.id in nested)) - {sn})
                    hn = '_helper_zz'
                    h = ast.FunctionDef(hn, ast.arguments([], [ast.arg(sn)] + [ast.arg(l) for l in locs], None, [], [], None, []), [ast.Return(n.value)], [], lineno=1)
                    n.value = ast.Call(ast.Attribute(ast.Name(sn, ast.Load()), hn, ast.Load()), [ast.Name(l, ast.Load()) for l in locs], [])
                    ast.fix_missing_locations(h)
                    c._helper = h
                    yield 'extract helper L%d' % ln, c
                    break
        # move the tail of the body into a helper
        if len(fn.body) >= 3 and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global)) for x in ast.walk(fn)):
            for cut in {len(fn.body) // 2, len(fn.body) - 1}:
                c = c0()
                tail = c.body[cut:]
                pre = c.body[:cut]
                if any(isinstance(x, (ast.Return,)) for s in pre for x in ast.walk(s)): pass
                locs = sorted((set(x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name)) & (set(x.id for s in pre for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)) | params | nested)) - {sn})
                if any(isinstance(x, ast.Name) and x.id == 'super' for s in tail for x in ast.walk(s)): continue
                h = ast.FunctionDef('_tail_zz', ast.arguments([], [ast.arg(sn)] + [ast.arg(l) for l in locs], None, [], [], None, []), tail, [], lineno=1)
                c.body = pre + [ast.Return(ast.Call(ast.Attribute(ast.Name(sn, ast.Load()), '_tail_zz', ast.Load()), [ast.Name(l, ast.Load()) for l in locs], []))]
                ast.fix_missing_locations(h)
                c._helper = h
                yield 'extract tail %d' % cut, c
    # alias self attribute read once
    # adjacent independent assignment swap
    c = c0(); k = 0
    for p in ast.walk(c):
        b = getattr(p, 'body', None)
        if not isinstance(b, list): continue
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and not any(isinstance(z, ast.Call) for s in (x, y) for z in ast.walk(s)):
                wx = ast.unparse(x.targets[0]); wy = ast.unparse(y.targets[0])
                base = lambda s: s.split('[')[0]
                if base(wx) != base(wy) and base(wx) not in ast.unparse(y) and base(wy) not in ast.unparse(x) and len(x.targets) == len(y.targets) == 1 and not isinstance(x.targets[0], ast.Tuple) and not isinstance(y.targets[0], ast.Tuple):
                    b[i], b[i + 1] = y, x; k += 1; i += 1
            i += 1
    if k: yield 'swap assignments', c
    # a if c else b  <- if c: x = a else: x = b
    c = c0(); k = 0
    class Tern(ast.NodeTransformer):
        def visit_If(s, n):
            s.generic_visit(n)
            nonlocal k
            if len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.orelse[0], ast.Assign) and ast.dump(n.body[0].targets[0]) == ast.dump(n.orelse[0].targets[0]):
                k += 1
                return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value), lineno=n.lineno)
            if len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Return) and isinstance(n.orelse[0], ast.Return) and n.body[0].value and n.orelse[0].value:
                k += 1
                return ast.Return(ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
            return n
    c = Tern().visit(c)
    if k: yield 'ternary', c
    # no-op statement
    c = c0()
    c.body.insert(1 if len(c.body) > 1 else 0, ast.Assign([ast.Name('_unused_zz', ast.Store())], ast.Constant(0), lineno=1))
    yield 'no-op', c


class Alarm(Exception): pass
def _al(*a): raise Alarm()


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    key = [a for a in sys.argv[3:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    prog = Program()
    ch = Checker(prog, load_vocab())
    mod, items = load_specs(prog, os.path.join(HERE, 'specs', prop + '.py'), prop)
    rnd = random.Random(1)
    tot = {}
    for it in items:
        for tg in it.targets:
            if key and not any(k in tg + '.' + it.name for k in key): continue
            cls = prog.cls(tg) if it.is_method else None
            if cls is not None:
                f = cls.find(mangle(it.name, cls.name)) or (cls.find_prop(it.name) or (None,))[0]
            else:
                f = prog.func(tg)
            if f is None or isinstance(f.node, ast.Lambda): continue
            orig = f.node
            gen = mutants(orig) if mode == 'mut' else refactors(orig, f, rnd)
            loc = {}
            for desc, m in gen:
                if m is None: continue
                ast.fix_missing_locations(m)
                f.node = m
                h = getattr(m, '_helper', None)
                if h is not None:
                    f.cls.methods[h.name] = FuncInfo(f.mod, h, f.cls, h.name)
                try:
                    r = ch.check_one(it, tg, f, cls)
                    st = r.status
                except Exception as e:
                    st = 'error'
                    print('ERROR', tg, it.name, desc, type(e).__name__, str(e)[:100])
                    r = None
                finally:
                    f.node = orig
                    if h is not None: del f.cls.methods[h.name]
                tot[st] = tot.get(st, 0) + 1
                loc[st] = loc.get(st, 0) + 1
                show = (mode == 'mut' and st in ('proven', 'undecided')) or (mode == 'ref' and st != 'proven')
                if show and (verbose or mode == 'ref' and st == 'refuted'):
                    print('   %s %s.%s: %s %s' % (st, tg.rsplit('.', 1)[-1], it.name, desc, '' if r is None or not r.diffs else '| ' + '; '.join('%s %s' % (w[:80], clip(d.text(), 260)) for w, d in r.diffs[:2])))
                    if r is not None and r.status == 'undecided' and not r.diffs: print('        ', r.notes)
                    if '-s' in sys.argv and r is not None and r.spec is not None: print(ast.unparse(m)); print('--- reference'); print(r.spec.show()); print('--- code'); print(r.code.show())
            if verbose: print(tg.rsplit('.', 1)[-1], it.name, loc)
    print(prop, mode, tot)
main()
