"""drafts reference functions from the pinned tree: tools_mkspec.py <list>  (lines: 'pkg.mod.Class m1 m2' or 'pkg.mod:f1 f2'); the draft is then reviewed and corrected by hand"""
import ast, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.loader import Program
p = Program()
def strip(node):
    n = ast.parse(ast.unparse(node)).body[0]
    for x in ast.walk(n):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.body and isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant) and isinstance(x.body[0].value.value, str):
            x.body = x.body[1:] or [ast.Pass()]
    n.decorator_list = [d for d in n.decorator_list if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod')]
    return ast.unparse(n)
seen = {}
for line in open(sys.argv[1]):
    line = line.split('#')[0].strip()
    if not line: continue
    head, *ms = line.split()
    if head.endswith(':'):
        for m in ms:
            f = p.func('pybrain.' + head[:-1] + '.' + m)
            print("\n\n@target('%s')\n%s" % ('pybrain.' + head[:-1] + '.' + m, strip(f.node)))
        continue
    c = p.cls('pybrain.' + head)
    print("\n\n@target('%s')\nclass %s:" % (c.qual, c.name))
    if ms == ['*']:
        ms = [n for n in c.methods] + [n for n in c.props]
    for k, m in enumerate(ms):
        from sa.loader import mangle
        mm = mangle(m, c.name)
        f = c.methods.get(mm) or (c.props.get(mm) or (None,))[0] or c.find(mm) or (c.find_prop(mm) or (None,))[0]
        if f is None: print('    # no', m); continue
        if isinstance(f.node, ast.Lambda): print('    # lambda', m); continue
        if k: print()
        src = strip(f.node)
        print('\n'.join('    ' + l for l in src.split('\n')))
