"""Writes MANIFEST.json from the property modules present in mc/props."""
import json, os, re, ast
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = dict(
    N01="No GPU and no torch/cupy in the sandbox: the device code path cannot be executed, and model checking a model of it without being "
        "able to bind that model to the code would decide nothing.",
    N02="Speed is judged by a clock on particular hardware; it is not a property of a finite space of behaviours.")
PENDING = "Check not built yet."
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = os.path.join(R, 'mc', 'props', p['id'] + '.py')
    if os.path.exists(f):
        ns = {}
        for node in ast.parse(open(f).read()).body:
            if isinstance(node, ast.Assign) and node.targets[0].id in ('TECH', 'BOUNDS', 'ASSUMES', 'NOTE', 'RULE') if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) else False:
                ns[node.targets[0].id] = eval(compile(ast.Expression(node.value), f, 'eval'))
        b = ns['BOUNDS']
        note = ns.get('NOTE', '') or f"Every case of the stated finite space is executed on the real code and compared with an independent reference. " \
            f"Quick bounds: {b.get('quick')}. Thorough: {b.get('thorough')}. Trusts: {'; '.join(ns.get('ASSUMES', ['numpy']))}."
        checks.append(dict(property=p['id'], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
                           technique=ns['TECH'], level='model_checking', level_note=note))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], PENDING)))
m = dict(version=1, setup_cmd="chmod +x run.sh && ./run.sh selftest", checks=checks, not_applicable=na,
         notes="Checks import the library from /repo's working tree with a private numba cache; no hooks are added to /repo. "
               "./run.sh replay <artefact> re-executes one recorded violation.")
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
