"""Writes /verif/MANIFEST.json for the checks that exist."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    f = f"{V}/vk/checks/{p['id'].lower()}.py"
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    ns = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('TECHNIQUE', 'NOTE', 'LEVEL'):
            ns[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       evidence_file=f"evidence/{p['id']}.json", technique=ns['TECHNIQUE'], level=ns.get('LEVEL', 'exploration'), level_note=ns['NOTE']))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="The code under test is imported from /repo (or $VERIF_REPO) in fresh worker processes, each with its own hash seed; no hooks in /repo. VERIF_SEED and VERIF_TIER are honoured, VERIF_BUDGET (seconds) overrides the time budget.")
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
