"""Fills the table of planted bugs into DESIGN.md (between the markers)."""
import json, pathlib, re
p = pathlib.Path(__file__).parent / 'DESIGN.md'
rows = ['| bug | property | what it breaks | caught by |', '|---|---|---|---|']
for m in sorted(p.parent.glob('seeded/*/meta.json')):
    d = json.loads(m.read_text())
    rows.append('| %s | %s | %s | %s |' % (m.parent.name, d['property'], d['what_it_breaks'], d.get('caught_by', d['property'])))
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = p.read_text()
if '@@SEEDS@@' in s: s = s.replace('@@SEEDS@@', t)
else: s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
p.write_text(s)
