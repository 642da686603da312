"""Writes the table of planted bugs into DESIGN.md."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'b04_axisperm': 'nested products of several types', 'b09_restart': 'constraints with steep spectra', 'b11_sameargs': 'pairs of confusable groups',
          'b17_sharedmem': 'monitor of shared memory', 'b21_signedperm': 'monitor of flags', 'b26_cachename': 'datasets which differ slightly',
          'b39_posnoise': 'signs along each generator', 'b41_clip': 'inputs of many sizes'}
MISSED.update(json.load(open(os.path.join(ROOT, 'tools', 'missed.json'))) if os.path.exists(os.path.join(ROOT, 'tools', 'missed.json')) else {})
rows = ['| bug | property | what it breaks | needs | missed at first; added |', '|---|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json')) + glob.glob(os.path.join(ROOT, 'planted', '*', 'meta.json')), key=lambda f: os.path.basename(os.path.dirname(f))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {MISSED.get(i, '')} |")
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- seeded table -->.*?(?=\n## |\Z)', lambda _: '<!-- seeded table -->\n\n' + '\n'.join(rows) + '\n', s, flags=re.S)
open(p, 'w').write(s)
