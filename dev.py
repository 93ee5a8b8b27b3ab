import sys
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from vcgen.driver import Driver
import importlib
m = importlib.import_module('contracts.engine')
d = Driver(__import__('os').environ.get('MIR','/tmp/w/mir.json'), m.CONTRACTS, open('/verif/contracts/prelude.rs').read(), open('/verif/contracts/specs.rs').read(), open('/verif/contracts/theorems.rs').read())
print('lost', d.lost)
pat = sys.argv[1:]
res = []
for fn, k in d.contracts.items():
    if k.inline or k.assumed: continue
    if pat and not any(p in fn for p in pat): continue
    r = d.obligations(fn)
    print(r.status, fn, len(r.obls), r.why)
    if r.status == 'ok': res.append(r)
o = d.run(res, '/tmp/w/v/all.rs')
print('time', o['time'], 'vr', o['json'].get('verification-results'))
for x in o['other'][:20]: print('OTHER', x)
for pn, (fn, name, ob) in o['names'].items():
    if fn == '':
        if pn in o['failed']: print('THM FAIL', name, o['failed'][pn][:3])
        continue
    if name == 'vacuity':
        if pn not in o['failed']: print('VACUOUS', fn)
        continue
    if pn in o['failed']: print('FAIL', pn, fn, name, ob.note if ob else '', 'line', ob.line, o['failed'][pn][0][:100])
if not o['json']: print(o['stderr'][:3000])
