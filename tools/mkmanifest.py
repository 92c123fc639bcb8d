#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED says what each check does; everything else is listed as
not applicable (yet)."""
import json, sys
sys.path.insert(0, '/verif/tools')
HOOK = '7e518e74a2a1e9a0f2a8a3ca2f3c37ae9e9c0d9d'
import subprocess
HOOK = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep', '^Hook:'], capture_output=True, text=True).stdout.split()
C = {}
def c(id, technique, note):
    C[id] = (technique, note)
NOTE = ' Absence of violations is shown only for the generated cases; the generator, its limits and the oracle are described in DESIGN.md.'
exec(open('/verif/tools/claims.py').read())
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in C:
        t, n = C[i]
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique=t, level='exploration', level_note=n + NOTE))
    else:
        na.append(dict(property=i, reason='No check has been built for it yet.'))
m = dict(version=1, setup_cmd='./check.sh --setup',
         hooks=dict(guard='cfg(ginko_verif)', enable='RUSTFLAGS="--cfg ginko_verif" when the harness crate in /verif/harness (path dependency on /repo/ginko) is built; its target directory is /verif/build/harness', source_commits=HOOK),
         checks=checks, not_applicable=na,
         notes='Every check is ./check.sh ID TIER: it builds the harness from /repo\'s working tree and runs generated cases in 8 worker processes. VERIF_SEED selects the cases. A replay file is run again with build/harness/debug/gv replay FILE.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
