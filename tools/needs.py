"""Shows how far the observed counts of the last runs are above the minimum each check needs to speak at all."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(os.listdir(V + '/vk/checks')):
    p = f[:3].upper()
    e = f"{V}/evidence/{p}.json"
    if not os.path.exists(e) or not f.startswith('c'):
        continue
    c = json.load(open(e)); wall = c['wall_s']; c = c['coverage']
    for n in ast.parse(open(f"{V}/vk/checks/{f}").read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'NEED':
            need = ast.literal_eval(n.value)
            r = {k: (c['distinct_observed'].get(k[9:], 0) if k.startswith('distinct ') else c['events'].get(k, 0), m) for k, m in need.items()}
            low = {k: v for k, v in r.items() if v[0] < 2.5 * v[1]}
            print(p, wall, 's', c['evaluations'], 'cases;', 'low:' if low else 'ok', low)
