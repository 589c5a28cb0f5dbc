#!/opt/venv/bin/python
"""Product functions with lines no simulated run executed (after linecov.py)."""
import ast, glob, json, os
R = os.environ.get("VERIF_REPO", "/repo") + "/src/ucis/"
hit = set()
for v in json.load(open("/tmp/linecov.json")).values():
    hit |= {tuple(x) for x in v}
tot = miss = 0
for f in sorted(glob.glob(R + "**/*.py", recursive=True)):
    rel = f[len(R):]
    t = ast.parse(open(f).read())
    for fn in ast.walk(t):
        if isinstance(fn, ast.FunctionDef):
            ls = {s.lineno for s in ast.walk(fn) if isinstance(s, ast.stmt) and s is not fn and not (
                isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))
                and not isinstance(s, (ast.Global, ast.FunctionDef, ast.Try, ast.Pass))}
            m = {l for l in ls if (rel, l) not in hit}
            tot += len(ls); miss += len(m)
            if m:
                print(rel, fn.name, "ALL" if m == ls else sorted(m))
print("statements in functions", tot, "never executed", miss)
