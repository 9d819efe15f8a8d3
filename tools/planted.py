"""Rewrites the table of planted bugs in DESIGN.md from the meta.json files."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((ROOT / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    files = sorted(set(re.findall(r'^\+\+\+ b/pydantic_xml/(\S+)', (d / 'patch.diff').read_text(), re.M)))
    rows.append('| %s | %s | %s | %s |' % (d.name, m['property'], ', '.join(files), ' '.join(m['needs'].split())))
text = (ROOT / 'DESIGN.md').read_text()
head = '| change | caught by | file | needs |\n|---|---|---|---|\n'
text = re.sub(r'(?s)<!-- planted -->.*<!-- /planted -->', lambda _: '<!-- planted -->\n%s%s\n<!-- /planted -->' % (head, '\n'.join(rows)), text)
(ROOT / 'DESIGN.md').write_text(text)
