#!/usr/bin/env python3
"""contracts/shape.json: for every function under contract, how many loops or folds the verifier sees as recursive functions (no
closed form, no invariant), and which library functions without a definition occur in its obligations. A proof can fail for want of
an invariant or of a definition when either grows: such a failure is no answer."""
import sys, os, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 << 20)


def main():
    import check
    from vcgen.driver import Driver
    import contracts.engine as m
    mir = os.environ.get('MIR') or check.dump_mir()
    d = Driver(mir, m.CONTRACTS, *[open(os.path.join(HERE, 'contracts', f)).read() for f in ('prelude.rs', 'specs.rs', 'theorems.rs')])
    out = {}
    for fn, k in sorted(d.contracts.items()):
        if k.assumed:
            continue
        r = d.obligations(fn)
        e = {}
        if r.hard:
            e['loops'] = r.hard
        if r.opaque:
            e['opaque'] = sorted(r.opaque)
        if e:
            out[fn] = e
    json.dump(out, open(os.path.join(HERE, 'contracts/shape.json'), 'w'), indent=1, sort_keys=True)
    print(len(out))


t = threading.Thread(target=main)
t.start()
t.join()
