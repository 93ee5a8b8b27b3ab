"""Regenerates MANIFEST.json from the table below."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
checks = []
for pid, (level, tech, note, thms) in CLAIMS.items():
    c = dict(property=pid, quick_cmd='python3 check.py %s' % pid, thorough_cmd='python3 check.py %s' % pid,
             technique=tech, level=level, level_note=note)
    if thms:
        c['theorems'] = thms
    checks.append(c)
m = dict(version=1, setup_cmd='python3 check.py --setup',
         hooks=dict(guard='--cfg pyo3_bindgen_verif', enable='RUSTFLAGS="--cfg pyo3_bindgen_verif" when building /verif/harness (path dependency on /repo/pyo3_bindgen_engine)', source_commits=HOOK_COMMITS),
         checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in NOT_APPLICABLE.items()], notes=NOTES)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
