"""regenerates specs/vocab.json and specs/defs.json from the pinned tree (run once, result committed)"""
import ast, json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.loader import Program
p = Program()
v, d = set(), set()
for m in p.modules.values():
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute): v.add(n.attr)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)): v.add(n.name); d.add(n.name)
        elif isinstance(n, ast.arg): v.add(n.arg)
json.dump(sorted(v), open('specs/vocab.json', 'w'), indent=0)
json.dump(sorted(d), open('specs/defs.json', 'w'), indent=0)
