"""Fills the tables of DESIGN.md from known_findings.jsonl and seeded/."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def block(text, name, body):
    a, b = f'<!-- {name} -->', f'<!-- end {name} -->'
    return re.sub(re.escape(a) + '.*?' + re.escape(b), lambda m: f'{a}\n{body}\n{b}', text, flags=re.S)


path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
rows = ['| property | commit | what failed |', '|---|---|---|']
for line in open(os.path.join(HERE, 'known_findings.jsonl')):
    k = json.loads(line)
    what = k['what'].split(' ', 3)[-1] if k['status'] == 'fixed' else k['what']
    rows.append(f"| {k['property']} | {k.get('commit', '-')} | {what} |")
text = block(text, 'fixed', '\n'.join(rows))
rows = ['| bug | property | needs | also |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {', '.join(m.get('also', []))} |")
text = block(text, 'planted', '\n'.join(rows))
open(path, 'w').write(text)
