#!/usr/bin/env python3
"""Decide one property of pyo3_bindgen on /repo's current source.

usage: check.py PROPERTY            (tier from VERIF_TIER, seed from VERIF_SEED)
       check.py --setup             build everything once
       check.py PROPERTY --replay F re-run the case of a replay file

Two parts, both on every run:
 1. deductive: the MIR of the engine is dumped from the current source (mirdump), the verification conditions of every
    function under contract that the property rests on are generated (vcgen) and discharged by Verus, together with the
    theorems that state the property over those contracts;
 2. replay: the executable form of the contracts runs on the real code (harness), to give failed obligations a concrete
    input, and as the bounded stand-in for what is not under contract.
"""
from collections import Counter
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
PYTHON = '/usr/bin/python3.12' if os.path.exists('/usr/bin/python3.12') else sys.executable


def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'LD_LIBRARY_PATH'):
        e.pop(k, None)
    e.update(PYO3_PYTHON=PYTHON, CARGO_NET_OFFLINE='true', **kw)
    return e


def sh(cmd, timeout, cwd=None, e=None, out=subprocess.PIPE):
    """Run a command in its own process group; (returncode or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=out, stderr=subprocess.PIPE,
                         universal_newlines=True, errors='replace', start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o or '', r
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, r = p.communicate()
        return None, o or '', r


# ---- deductive part --------------------------------------------------------------------------------

def build_mirdump():
    tgt = os.path.join(BUILD, 'mirdump')
    rc, o, r = sh(['cargo', '+nightly', 'build', '--offline', '--locked', '-q', '--target-dir', tgt], 600,
                  cwd=os.path.join(HERE, 'mirdump'))
    if rc != 0:
        raise RuntimeError('mirdump does not build: ' + r[-2000:])
    return os.path.join(tgt, 'debug', 'mirdump')


class Lock:
    def __init__(self, name):
        self.path = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        import fcntl
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def dump_mir(crate='pyo3_bindgen_engine'):
    with Lock('mir'):
        return dump_mir_(crate)


def dump_mir_(crate='pyo3_bindgen_engine'):
    """MIR of the crate's current source as JSON"""
    exe = build_mirdump()
    out = os.path.join(BUILD, 'mir-%s-%d.json' % (crate, os.getpid()))
    tgt = os.path.join(BUILD, 'mirtgt')
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], 60)[1].strip()
    for sub in ('.fingerprint', 'build', 'incremental'):
        fp = os.path.join(tgt, 'debug', sub)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('pyo3_bindgen'):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    if os.path.exists(out):
        os.remove(out)
    rc, o, r = sh(['cargo', '+nightly', 'check', '--offline', '--locked', '-q', '-p', crate, '--lib'], 600, cwd=REPO,
                  e=env(CARGO_TARGET_DIR=tgt, MIRDUMP_CRATE=crate, MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe,
                        LD_LIBRARY_PATH=os.path.join(sysroot, 'lib')))
    if rc != 0 or not os.path.exists(out):
        raise RuntimeError('MIR of %s not available: %s' % (crate, r[-2000:]))
    return out


def scan_trust(text, roots):
    """Every construct of the verified text that is assumed rather than proved and that the obligations `roots` rest on
    (transitively: definitions, lemmas, broadcast groups)"""
    starts = [(m.start(), m.group(1)) for m in re.finditer(
        r'^[ \t]*(?:pub )?(?:(?:open|closed|uninterp|broadcast|axiom) )*(?:(?:spec|proof) )?(?:fn|group|axiom fn) (\w+)', text, re.M)]
    items = {}
    for i, (at, name) in enumerate(starts):
        items.setdefault(name, []).append(text[at:starts[i + 1][0] if i + 1 < len(starts) else len(text)])
    seen, todo = set(), [r for r in roots if r in items]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for body in items[n]:
            todo += [w for w in set(re.findall(r'\w+', body)) if w in items and w not in seen]
    found = []
    for n in seen:
        for body in items[n]:
            for m in re.finditer(r'\b(assume|admit|external_body|assume_specification|axiom|uninterp)\b', body):
                ln = body[body.rfind('\n', 0, m.start()) + 1:body.find('\n', m.end())]
                if not ln.strip().startswith('//'):
                    found.append(ln.strip()[:140])
    return found


def prove(pid, tier):
    """-> dict(status, obligations, discharged, failed[], undecided[], functions[], ...)"""
    import importlib
    from vcgen.driver import Driver
    m = importlib.import_module('contracts.engine')
    out = dict(obligations=0, discharged=0, failed=[], undecided=[], functions=[], theorems=[], trusted=[], inlined=[],
               solver_s=0.0, cmd='', assumptions=[])
    seeds = [k for k in m.CONTRACTS if pid in k.props]
    out['theorems'] = []
    if not seeds:
        return out
    t0 = time.time()
    mirpath = dump_mir()
    prelude = open(os.path.join(HERE, 'contracts/prelude.rs')).read()
    specs = open(os.path.join(HERE, 'contracts/specs.rs')).read()
    d = Driver(mirpath, m.CONTRACTS, prelude, specs, open(os.path.join(HERE, 'contracts/theorems.rs')).read())
    d.wanted = [t for t in d.thms if t.prop == pid]
    for t in d.wanted:
        if t.lost:
            out['undecided'].append('theorem %s: %s not found' % (t.name, ', '.join(t.lost)))
    os.remove(mirpath)
    todo = [k.fn for k in seeds]
    done = {}
    assumed = set()
    while todo:
        fn = todo.pop()
        if fn in done:
            continue
        k = d.contracts[fn]
        if k.assumed:
            assumed.add('%s: %s' % (fn, k.assumed))
            continue
        if k.inline:
            continue
        r = d.obligations(fn)
        done[fn] = r
        out['inlined'] += [x for x in r.inlined if x not in out['inlined']]
        for c in sorted(r.called):
            if c in d.contracts:
                todo.append(c)
    res = []
    for fn, r in sorted(done.items()):
        if r.status == 'ok':
            res.append(r)
        else:
            out['undecided'].append('%s: %s: %s' % (fn, r.status, r.why))
    out['vcgen_s'] = round(time.time() - t0, 2)
    path = os.path.join(BUILD, 'obl-%s.rs' % pid)
    o = d.run(res, path)
    # emission may have dropped functions
    for r in res:
        if r.status != 'ok':
            out['undecided'].append('%s: %s: %s' % (r.k.fn, r.status, r.why))
    out['solver_s'] = round(o['time'], 2)
    out['cmd'] = o['cmd']
    out['trusted'] = sorted(set(scan_trust(o['text'], list(o['names']))))
    out['assumed_contracts'] = sorted(assumed)
    vr = o['json'].get('verification-results', {})
    bad_run = bool(o['other']) or not vr or vr.get('encountered-vir-error') or vr.get('encountered-error')
    per = {}
    shape = json.load(open(os.path.join(HERE, 'contracts/shape.json')))
    if bad_run and not o['failed'] and not (o['json'] and vr.get('verified', 0) > 0):
        out['undecided'].append('verifier gave no answer: ' + '; '.join(o['other'])[:600] + o['stderr'][-600:])
        return out
    for x in o['other']:
        out['undecided'].append('outside the obligations: ' + x)
    # an invariant is part of the argument, not of the property: when it fails, the proof says nothing
    unfit = {fn for pn, (fn, name, ob) in o['names'].items() if fn and name.startswith('inv') and o['failed'].get(pn)}
    for pn, (fn, name, ob) in o['names'].items():
        if fn == '':
            msgs = o['failed'].get(pn)
            if ob.prop != pid:
                if msgs:
                    out['undecided'].append('lemma %s: %s' % (name, msgs[0][:200]))
                continue
            out['obligations'] += 1
            if not msgs:
                out['discharged'] += 1
                out['theorems'].append('%s: %s' % (name, ob.note))
            elif all(re.search('rlimit|resource limit|timed? ?out', x, re.I) for x in msgs):
                out['undecided'].append('theorem %s: %s' % (name, msgs[0][:120]))
            else:
                out['failed'].append(dict(function='(theorem over the contracts)', obligation=name, line=0, statement=ob.note, verifier=msgs[0][:300]))
            continue
        if done[fn].status != 'ok':
            continue
        if name == 'vacuity':
            if pn not in o['failed']:
                out['undecided'].append('%s: precondition is contradictory or the run did not check it' % fn)
            continue
        out['obligations'] += 1
        p = per.setdefault(fn, [0, 0])
        p[0] += 1
        msgs = o['failed'].get(pn)
        if not msgs:
            out['discharged'] += 1
            p[1] += 1
        elif all(re.search('rlimit|resource limit|timed? ?out', x, re.I) for x in msgs):
            out['undecided'].append('%s: %s: %s' % (fn, name, msgs[0][:120]))
        elif fn in unfit:
            out['undecided'].append('%s: %s: the invariant in the contract does not fit the loop as it is now' % (fn, name))
        elif done[fn].opaque - set(shape.get(fn, {}).get('opaque', [])):
            out['undecided'].append('%s: %s: the code now uses %s, of which the vocabulary says nothing' % (
                fn, name, ', '.join(sorted(done[fn].opaque - set(shape.get(fn, {}).get('opaque', []))))))
        elif Counter(done[fn].hard) - Counter(shape.get(fn, {}).get('loops', [])):
            out['undecided'].append('%s: %s: the code now has a loop or fold for which there is neither a closed form nor an invariant' % (fn, name))
        else:
            out['failed'].append(dict(function=fn, obligation=name, line=ob.line, statement=str(ob.note)[:600],
                                      verifier=msgs[0][:300]))
    out['functions'] = [dict(function=fn, obligations=a, discharged=b) for fn, (a, b) in sorted(per.items())]
    return out


# ---- replay part -----------------------------------------------------------------------------------

def build_harness():
    with Lock('harness'):
        return build_harness_()


def build_harness_():
    """-> (executable, hooks?)"""
    src = os.path.join(HERE, 'harness')
    errs = []
    for hooks in (True, False):
        tgt = os.path.join(BUILD, 'harness' if hooks else 'harness-nohooks')
        cmd = ['cargo', 'build', '--offline', '--locked', '-q']
        e = env(CARGO_TARGET_DIR=tgt)
        if hooks:
            e['RUSTFLAGS'] = '--cfg pyo3_bindgen_verif'
        else:
            cmd.append('--no-default-features')
        rc, o, r = sh(cmd, 600, cwd=src, e=e)
        if rc == 0:
            return os.path.join(tgt, 'debug', 'harness'), hooks
        errs.append(r[-1500:])
    raise RuntimeError('harness does not build: ' + '\n---\n'.join(errs))


def run_harness(pid, tier, seed, exe, only=None):
    budget = 240 if tier == 'quick' else 2400
    scratch = tempfile.mkdtemp(prefix='scratch-%s-' % pid, dir=BUILD)
    rep = os.path.join(scratch, 'report.json')
    base = [exe, pid, '--seed', str(seed), '--tier', tier, '--out', rep, '--scratch', scratch, '--budget', str(budget)]
    if only:
        base += ['--only', only]
    e = env(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        rc, o, r = sh(base, budget + 120, cwd=scratch, e=e)
        stuck = os.path.join(scratch, 'report.stuck.json')
        if os.path.exists(stuck):
            v = json.load(open(stuck))
            return dict(complete=False, evaluations=0, distinct_nontrivial=0, rule='', samples=[], violations=[v])
        if os.path.exists(rep) and rc == 0:
            d = json.load(open(rep))
            d['stderr'] = r[-2000:]
            return d
        # the process died: find the case
        trace = os.path.join(scratch, 'trace.json')
        rc, o, r = sh(base + ['--trace', trace], budget + 120, cwd=scratch, e=e)
        if rc is not None and rc != 0 and os.path.exists(trace):
            v = json.load(open(trace))
            v['message'] = 'the process ended with status %s: %s' % (rc, r[-800:])
            return dict(complete=False, evaluations=0, distinct_nontrivial=0, rule='', samples=[], violations=[v])
        if os.path.exists(rep):
            return json.load(open(rep))
        raise RuntimeError('harness: status %s: %s' % (rc, r[-1500:]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ---- main --------------------------------------------------------------------------------------------

def main():
    args = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if args[0] == '--setup':
        os.remove(dump_mir())
        build_harness()
        print('setup done')
        return 0
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    if '--replay' in args:
        f = json.load(open(args[args.index('--replay') + 1]))
        exe, hooks = build_harness()
        rep = run_harness(pid, f.get('tier', 'quick'), f.get('seed', 1), exe, only=f['key'])
        print(json.dumps(rep, indent=1, ensure_ascii=False))
        return 1 if rep['violations'] else 0
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = [c['level'] for c in man['checks'] if c['property'] == pid][0]
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    t0 = time.time()
    box = {}

    def side():
        try:
            box['proof'] = prove(pid, tier)
        except Exception as e:                        # tool failure: undecided, never an alarm
            import traceback
            box['proof'] = dict(obligations=0, discharged=0, failed=[], functions=[], theorems=[], trusted=[], inlined=[],
                                solver_s=0, cmd='', assumed_contracts=[],
                                undecided=['%s: %s' % (type(e).__name__, e), traceback.format_exc()[-800:]])
    threading.stack_size(512 << 20)
    th = threading.Thread(target=side)
    th.start()
    exe, hooks = build_harness()
    rep = run_harness(pid, tier, seed, exe)
    th.join()
    pf = box['proof']
    status = 0
    nviol = 0
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for v in rep['violations']:
        k = [f for f in known['findings'] if f['property'] == pid and f['key'] == v['key']]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0]['what']))
            continue
        nviol += 1
        path = os.path.join(rdir, '%s-%d.json' % (pid, nviol))
        json.dump(dict(property=pid, tier=tier, seed=seed, key=v['key'], input=v['input'], message=v['message'],
                       failed_obligations=pf['failed'], rerun='python3 /verif/check.py %s --replay %s' % (pid, path)),
                  open(path, 'w'), indent=1, ensure_ascii=False)
        print('  %s: %s' % (v['key'][:300], v['message'][:800]))
        if nviol <= 3:
            print('VIOLATION property=%s replay=%s' % (pid, path))
        status = 1
    if pf['failed'] and not status:
        path = os.path.join(rdir, '%s-obligation.json' % pid)
        json.dump(dict(property=pid, failed_obligations=pf['failed'], undecided=pf['undecided'],
                       verifier=pf['cmd'], note='no failing input found by the replay of %d cases' % rep['evaluations']),
                  open(path, 'w'), indent=1, ensure_ascii=False)
        for f in pf['failed'][:6]:
            print('  obligation %s of %s (line %s) is not discharged: %s' % (f['obligation'], f['function'], f['line'], f['statement'][:200]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        status = 1
        nviol += 1
    if not rep.get('complete', True) and not rep['violations']:
        print('  note: the replay did not finish within its time; %d cases were run' % rep['evaluations'])
    for u in pf['undecided'][:20]:
        print('  undecided: %s' % u[:400])
    samples = list(rep.get('samples', []))
    cov = dict(obligations=pf['obligations'], discharged=pf['discharged'], checker_cmd=pf['cmd'] or 'none',
               trusted_base=pf['trusted'] + TRUSTED,
               functions_under_contract=pf['functions'], inlined_functions=pf['inlined'], theorems=pf['theorems'],
               back_end='Verus 0.2026.09.13 (Z3)', solver_s=pf['solver_s'], vcgen_s=pf.get('vcgen_s', 0),
               failed_obligations=pf['failed'], undecided=pf['undecided'],
               assumed_contracts=pf.get('assumed_contracts', []),
               evaluations=rep['evaluations'], distinct_nontrivial=rep['distinct_nontrivial'], rule=rep.get('rule', ''),
               samples=samples, replay_complete=rep.get('complete', False), replay_with_hooks=hooks,
               bounded_note='evaluations/distinct_nontrivial/samples are the bounded replay of the executable contracts on the real code; they are not counted as proved')
    if level == 'proof' and pf['undecided']:
        cov['proof_status'] = 'undecided on this source: only the bounded replay answered for the functions listed'
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=nviol, assumptions=TRUSTED)
    tmp = os.path.join(HERE, 'evidence', pid + '.json')
    json.dump(ev, open(tmp, 'w'), indent=1, ensure_ascii=False)
    print('%s: %d/%d obligations discharged over %d functions, %d undecided; replay: %d cases (%d distinct non-trivial), %d violations; %.1f s'
          % (pid, pf['discharged'], pf['obligations'], len(pf['functions']), len(pf['undecided']), rep['evaluations'],
             rep['distinct_nontrivial'], nviol, time.time() - t0))
    return status


TRUSTED = [
    'rustc (nightly) lowers the source to the MIR that is verified as the stable compiler does',
    'vcgen: symbolic execution of MIR (/verif/vcgen/exec.py) and the library models of std, itertools, syn, quote and pyo3 (/verif/vcgen/lib.py)',
    'Verus and Z3',
]

if __name__ == '__main__':
    sys.exit(main())
