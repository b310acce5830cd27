"""Source-level equivalences applied to every parsed module before it is summarised.

  * `d.setdefault(k, <new container>)` used as a value: the entry is created first, and the value is the entry `d[k]` itself (so what
    is done to it is done to the entry);
  * `try: x = d[k]` / `except KeyError: H` is `if k in d: x = d[k]` / `else: H`."""
import ast
import copy

STRM = {'replace', 'lower', 'upper', 'strip', 'lstrip', 'rstrip'}


def newcontainer(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
        e.func.id in ('list', 'dict', 'set') and not e.args and not e.keywords


def is_default(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'setdefault' and len(e.args) == 2 \
        and not e.keywords and newcontainer(e.args[1]) and plain(e.func.value) and plain(e.args[0])


def plain(e):
    return all(isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.Tuple, ast.Load, ast.Subscript, ast.Index))
               for n in ast.walk(e))


def entry(c):
    e = ast.Subscript(copy.deepcopy(c.func.value), copy.deepcopy(c.args[0]), ast.Load())
    return ast.fix_missing_locations(ast.copy_location(e, c))


def stored(node):
    return [n.id for n in ast.walk(node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)]


class Replace(ast.NodeTransformer):
    def __init__(self, name, e):
        self.name, self.e = name, e

    def visit_Name(self, n):
        if n.id == self.name and isinstance(n.ctx, ast.Load):
            return ast.copy_location(copy.deepcopy(self.e), n)
        return n


class Defaults(ast.NodeTransformer):
    """setdefault in the middle of a statement"""

    def __init__(self):
        self.pre = []

    def visit_Call(self, c):
        self.generic_visit(c)
        if is_default(c):
            self.pre.append(ast.copy_location(ast.Expr(c), c))
            return entry(c)
        return c

    def visit_Lambda(self, n):
        return n

    visit_ListComp = visit_GeneratorExp = visit_DictComp = visit_SetComp = visit_IfExp = visit_BoolOp = visit_Lambda


def keylookup(st):
    if not isinstance(st, ast.Try) or st.orelse or st.finalbody or len(st.handlers) != 1 or len(st.body) != 1:
        return None
    h = st.handlers[0]
    if h.name or not (isinstance(h.type, ast.Name) and h.type.id == 'KeyError'):
        return None
    b = st.body[0]
    if not isinstance(b, (ast.Assign, ast.Return)) or not isinstance(b.value, ast.Subscript):
        return None
    if isinstance(b, ast.Assign) and not (len(b.targets) == 1 and isinstance(b.targets[0], ast.Name)):
        return None
    d, k = b.value.value, b.value.slice
    if isinstance(k, (ast.Slice, ast.Subscript)) or not all(isinstance(n, (ast.Name, ast.Attribute, ast.Load)) for n in ast.walk(d)):
        return None
    for n in ast.walk(k):
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Attribute) and n.func.attr in STRM):
                return None
        elif not isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.Tuple, ast.Load)):
            return None
    test = ast.Compare(copy.deepcopy(k), [ast.In()], [copy.deepcopy(d)])
    return ast.fix_missing_locations(ast.copy_location(ast.If(test, st.body, h.body), st))


def block(sts, fn_stores):
    out = []
    i = 0
    sts = list(sts)
    while i < len(sts):
        s = sts[i]
        k = keylookup(s)
        if k is not None:
            s = k
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and is_default(s.value):
            x = s.targets[0].id
            rest = sts[i + 1:]
            used = set(n.id for n in ast.walk(s.value) if isinstance(n, ast.Name))
            if fn_stores.count(x) == 1 and x not in used and not any(used & set(stored(r)) for r in rest) and \
                    not any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for r in rest for n in ast.walk(r)):
                e = entry(s.value)
                out.append(ast.copy_location(ast.Expr(s.value), s))
                sts[i + 1:] = [Replace(x, e).visit(r) for r in rest]
                i += 1
                continue
        if isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign)) and not (isinstance(s, ast.Expr) and is_default(s.value)):
            t = Defaults()
            s = t.visit(s)
            out.extend(t.pre)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(s, f, None)
            if isinstance(b, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                setattr(s, f, block(b, fn_stores))
        for h in getattr(s, 'handlers', ()):
            h.body = block(h.body, fn_stores)
        out.append(s)
        i += 1
    return out


def normalise(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            n.body = block(n.body, stored(n))
    return ast.fix_missing_locations(tree)
