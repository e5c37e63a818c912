"""Rewrites the generated tables in DESIGN.md (seeded bugs, findings, costs)."""
import json
import re
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


def seeded():
    # seeded bugs that the checks missed at first, and what was changed
    missed = json.loads((ROOT / 'tools' / 'missed.json').read_text())
    yield '| bug | property | needs | at first |'
    yield '|---|---|---|---|'
    for meta in sorted((ROOT / 'seeded').glob('*/meta.json')):
        bug = meta.parent.name
        m = json.loads(meta.read_text())
        yield f'| {bug} | {m["property"]} | {m["needs"]} | {missed.get(bug, "caught")} |'


def findings():
    lines = (ROOT / 'known_findings.txt').read_text().splitlines()
    for line in sorted(lines):
        m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', line)
        if m:
            yield f'* {m[1]}, fixed in {m[2]}: {m[3]}'
        m = re.match(r'known: property=(C\d+) case=\w+ (.*)', line)
        if m:
            yield f'* {m[1]}, open: {m[2]}'


def costs():
    times = json.loads((ROOT / 'tools' / 'costs.json').read_text())
    yield '| property | quick: inputs | s | thorough: inputs | s |'
    yield '|---|---|---|---|---|'
    for prop in sorted(times['quick']):
        q, t = times['quick'][prop], times['thorough'].get(prop, ['', ''])
        yield f'| {prop} | {q[0]} | {q[1]} | {t[0]} | {t[1]} |'


text = (ROOT / 'DESIGN.md').read_text()
for table in (seeded, findings, costs):
    name = table.__name__
    text, n = re.subn(rf'(<!-- {name} -->\n).*?(<!-- end -->)', lambda m: m[1] + '\n'.join(table()) + '\n' + m[2], text, flags=re.S)
    assert n == 1, name
(ROOT / 'DESIGN.md').write_text(text)
