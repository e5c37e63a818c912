#!/bin/bash
# Runs all checks of a tier and writes inputs and seconds to tools/costs.json. Usage: measure.sh quick|thorough
cd "$(dirname "$0")/.."
for file in pbt/props/c[0-9]*.py
do
    id=$(basename "$file" .py); id=${id^^}
    VERIF_SEED=${VERIF_SEED:-1} /opt/venv/bin/python -W ignore pbt/run.py "$id" --tier "$1" | tail -1
    python3 - "$id" "$1" <<'P'
import json, pathlib, sys
prop, tier = sys.argv[1:]
e = json.loads(pathlib.Path(f'evidence/{prop}.json').read_text())
p = pathlib.Path('tools/costs.json')
c = json.loads(p.read_text()) if p.exists() else {'quick': {}, 'thorough': {}}
c[tier][prop] = [e['coverage']['evaluations'], round(e['wall_s'])]
p.write_text(json.dumps(c, indent=1, sort_keys=True) + '\n')
P
done
