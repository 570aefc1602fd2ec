"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
MISSED = set((root / 'tools/missed_at_first.txt').read_text().split())
rows = ['| id | property | needs | caught by |', '|---|---|---|---|']
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    needs = m['needs'].replace('|', '/').replace('\n', ' ')
    by = m['property'] + (' (missed at first)' if d.name in MISSED else '')
    rows.append(f"| {d.name} | {m['property']} | {needs} | {by} |")
p = root / 'DESIGN.md'
s = p.read_text()
mark = '<!-- SEEDED_TABLE -->'
s = s.split(mark)[0] if mark in s else s.split('SEEDED_TABLE')[0]
p.write_text(s + mark + '\n\n' + '\n'.join(rows) + '\n')
