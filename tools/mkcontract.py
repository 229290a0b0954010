"""One-off helper that laid down the first version of /verif/contract (comments and docstrings stripped)."""
import ast, os, sys
src = '/repo/paramz'
dst = '/verif/contract/paramz'
for dp, dn, fn in os.walk(src):
    dn[:] = [d for d in dn if d not in ('tests', '__pycache__', 'examples')]
    for f in fn:
        if not f.endswith('.py'):
            continue
        p = os.path.join(dp, f)
        t = ast.parse(open(p).read())
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
                b = n.body
                if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                    n.body = b[1:] or ([ast.Pass()] if not isinstance(n, ast.Module) else [])
        o = os.path.join(dst, os.path.relpath(p, src))
        os.makedirs(os.path.dirname(o), exist_ok=True)
        open(o, 'w').write(ast.unparse(ast.fix_missing_locations(t)) + '\n')
