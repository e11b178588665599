"""Statements of the functions under contract that no unit reaches (development aid)."""
import ast
import os
import sys
sys.path.insert(0, '/verif')
os.chdir('/verif')
import check
from contracts import registry
from contracts.base import REPO
us = registry.all_units()
if len(sys.argv) > 1:
    us = [u for u in us if any(a in u[1] or a in u[0] for a in sys.argv[1:])]
reps = check.run_units(us, 400)
cov = {}
for r in reps:
    for k, v in r['covered'].items():
        cov.setdefault(k, set()).update(v)
for mod in ('dataloader', 'datadumper', 'typechecks', 'exceptions', 'helpers', '__init__'):
    src = open('%s/typedload/%s.py' % (REPO, mod)).read()
    tree = ast.parse(src)
    lines = src.split('\n')

    def visit(node, qual):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef):
                visit(n, qual + [n.name])
            elif isinstance(n, ast.FunctionDef):
                name = 'typedload.%s.%s' % (mod, '.'.join(qual + [n.name]))
                stm = set()

                def st(b):
                    for s in b:
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                            continue
                        if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                            stm.add(s.lineno)
                            for f in ('body', 'orelse', 'finalbody'):
                                st(getattr(s, f, []))
                            for h in getattr(s, 'handlers', []):
                                st(h.body)
                st(n.body)
                c = cov.get(name)
                if c is None:
                    print('not under contract:', name, '(%d statements)' % len(stm))
                else:
                    for l in sorted(stm - c):
                        print('not reached:', name, l, lines[l - 1].strip())
            elif isinstance(n, (ast.If, ast.Try)):
                visit(n, qual)
    visit(tree, [])
