"""Generation and discharge of the proof obligations of the functions under contract."""
import json
import os
import re
import subprocess
import sys
import time
import hashlib
import concurrent.futures as cf

from . import terms as tm
from .terms import *
from .mir import Mir, Unsupported, OPAQUE
from .exec import Engine, State, ptr, INTRANGE, WORLD, W0
from .lib import LIB
from . import lib2, pylib
from .emit import Emit, free_vars, nm, has_trigger
from .contract import Contract

HERE = os.path.dirname(os.path.abspath(__file__))
VERUS = 'verus'


class Theorem:
    """a block of theorems.rs: `//@ PROP name` (or `//@ - name` for shared lemmas) followed by Verus text"""

    def __init__(self, prop, name, text):
        self.prop, self.name, self.text = prop, name, text
        self.after = ' '.join(re.findall(r'//@uses (.*)', text)).split()
        self.lost = []
        m = re.search(r'//= (.*)', text)
        self.note = m.group(1) if m else name


def parse_theorems(text):
    out = []
    for m in re.finditer(r'^//@ (\S+) (\w+)\n(.*?)(?=^//@ |\Z)', text, re.S | re.M):
        out.append(Theorem('' if m.group(1) == '-' else m.group(1), m.group(2), m.group(3)))
    return out


class FnResult:
    def __init__(self, k):
        self.k = k
        self.status = None      # 'ok' | 'unsupported' | 'lost'
        self.why = ''
        self.obls = []          # (name, kind, line, note, facts, pc, goal)
        self.called, self.used, self.inlined = set(), set(), set()
        self.hard = []
        self.opaque = set()


def called_in(xs):
    """names of the functions applied in the terms"""
    out, seen, todo = set(), set(), list(xs)
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list, set, frozenset)):
            todo.extend(x)
        elif isinstance(x, T):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.op == 'call':
                out.add(x.a[0])
            todo.extend(x.a)
    return out


def hidden(h, gone):
    """a hypothesis that only says that a hidden postcondition holds"""
    if not gone:
        return False
    while True:
        if h.op == 'forall':
            h = h.a[1]
        elif h.op == 'imp':
            h = h.a[1]
        elif h.op == 'or':
            return any(hidden(x, gone) for x in h.a)
        else:
            return h.op == 'call' and h.a[0] in gone


class Driver:
    def __init__(self, mirpath, contracts, prelude, specs, theorems=''):
        self.mir = Mir(mirpath)
        self.contracts = {k.fn: k for k in contracts}
        self.prelude, self.specs = prelude, specs
        # library functions about which the vocabulary says nothing
        self.uninterp = set(re.findall(r'^pub uninterp spec fn (\w+)', prelude, re.M)) - {'seq_sort', 'set_seq', 'map_seq', 'has_sub'}
        self.thms = parse_theorems(theorems)
        self.wanted = [t for t in self.thms if t.prop]
        self.prepare()
        while True:
            # what mentions a lost contract is lost as well
            gone = {}
            for k in self.contracts.values():
                if not k.inline and k.sorts is None:
                    gone[k.fn] = r'\b(?:(?:[crd]|e\d+|p)_%s%s)\b' % (k.id, ''.join(
                        '|' + n for n in re.findall(r'\bspec fn (\w+)', k.defs)))
            more = [k for k in self.contracts.values() if not k.inline and k.sorts is not None
                    and any(re.search(g, k.alltext()) for g in gone.values())]
            if not more:
                break
            for k in more:
                k.sorts = None
                self.lost.append(k.fn)
        for t in self.thms:
            t.lost = sorted({fn for fn, g in gone.items() if re.search(g, t.text)})
            for n in t.after:
                t.lost += [x for u in self.thms if u.name == n for x in u.lost]

    def prepare(self):
        lost = []
        for k in self.contracts.values():
            f = self.mir.fns.get(k.fn)
            if f is None or k.fn in self.mir.dups:
                lost.append(k.fn)
                k.sorts = None
                continue
            if k.inline:
                continue
            k.sorts = []
            k.mutp = []
            for i in range(f['argc']):
                ti = f['locals'][i + 1]
                t = self.mir.types[ti]
                if t['k'] == 'ref' and t['mut']:
                    k.mutp.append(i)
                    ti = t['ty']
                k.sorts.append(self.mir.sort(ti))
                if i < len(k.params) and k.params[i] in k.fnargs:
                    a, r = k.fnargs[k.params[i]]
                    k.sorts[-1] = ('Fn', tuple(a), r)
            k.rsort = self.mir.sort(f['locals'][0])
            if len(k.params) != f['argc']:
                # the signature changed: the contract no longer fits
                lost.append(k.fn)
                k.sorts = None
        self.lost = lost
        for fn in lost:
            pass
        # every type of the MIR that is a local datatype is declared
        for i in range(len(self.mir.types)):
            try:
                self.mir.sort(i)
            except Unsupported:
                pass

    # ---- one function ----------------------------------------------------------------------
    def obligations(self, fn):
        k = self.contracts[fn]
        r = FnResult(k)
        body = self.mir.fns.get(fn)
        if body is None or k.sorts is None:
            r.status, r.why = 'lost', 'function or signature not found'
            return r
        tm._fresh[0] = 0
        usable = {n: c for n, c in self.contracts.items() if c.inline or c.sorts is not None}
        eng = Engine(self.mir, usable, LIB)
        eng.top = k
        eng.stack = []
        try:
            args = []
            vars_ = []
            env = {WORLD: W0}
            for i, (p, s) in enumerate(zip(k.params, k.sorts)):
                if s == META:
                    if hasattr(k, 'metaarg') and p in k.metaarg:
                        args.append(k.metaarg[p](eng))
                        vars_.append(None)
                        continue
                    raise Unsupported('parameter %s of %s' % (p, fn))
                v = var(nm(p), s) if s != UNIT else EMPTY_TUP
                vars_.append(v)
                if i in k.mutp:
                    eng.nframe += 1
                    root = (eng.nframe, p)
                    env[root] = v
                    args.append(ptr(root, ()))
                else:
                    args.append(v)
                t = self.mir.types[body['locals'][i + 1]]
                if t['k'] in ('int', 'uint'):
                    lo, hi = INTRANGE[t['name']]
                    eng.ctx.facts.append(And(Le(I(lo), v), Le(v, I(hi))))
                if v.s[0] == 'Seq':
                    eng.ctx.facts.append(Le(Len(v), I(2**63 - 1)))      # no allocation is larger
            if k.requires:
                eng.ctx.facts.append(k.req_term(vars_))
            eng.topargs = vars_
            st = eng.run(body, args, env, ())
            eng.stack.append((fn, 0))
            if st is not None:
                ret = st.env['ret']
                if st.env[WORLD] is not W0 and not k.world:
                    raise Unsupported('change of the interpreter state')
                if ret.op == 'iter':
                    ret = ret.a[0]
                line = body.get('line', 0)
                if k.ret is not None:
                    eng.oblige('post', line, st.pc, mk('deq', (ret, k.ret_term(vars_, k.rsort)), BOOL), 'result')
                for conds, leaf in (cases(ret) if k.split and k.rsort != UNIT else [((), ret)]):
                    rr = EMPTY_TUP if k.rsort == UNIT else leaf
                    pc = st.pc + tuple(c for c in conds if c not in st.pc)
                    if any(Not(c) in st.pc for c in conds):
                        continue
                    if k.det:
                        rr = k.ret_term(vars_, k.rsort)
                        pc = pc + (mk('eq', (rr, leaf), BOOL),)
                    posts = [st.env[args[k.params.index(p)].a[0]] for p in k.posted()] + ([st.env[WORLD]] if k.world else [])
                    for i, e in enumerate(k.ens_terms(vars_, rr, posts)):
                        n = len(eng.ctx.obls)
                        eng.oblige('ensures%d' % i, line, pc, e, k.ensures[i])
                        for o in eng.ctx.obls[n:]:
                            for c in conds:
                                if c.op == 'not' and any(d.op == 'is' and c.a[0].op == 'is' and d.a[1] is c.a[0].a[1] for d in conds):
                                    o.pc = tuple(p for p in o.pc if p is not c)
                                pos = c.op != 'not'
                                cc = c if pos else c.a[0]
                                o.facts = [restrict(f, cc, pos) for f in o.facts]
                                o.pc = tuple(restrict(p, cc, pos) if p not in conds else p for p in o.pc)
                for i in k.mutp:
                    p = k.params[i]
                    root = args[i].a[0]
                    fin = st.env[root]
                    if p in k.post:
                        if k.post[p]:
                            eng.oblige('post_' + p, line, st.pc, mk('deq', (fin, k.post_term(p, vars_, k.sorts[i])), BOOL), p)
                    elif p in k.frame:
                        eng.oblige('frame_' + p, line, st.pc, mk('deq', (fin, vars_[i]), BOOL), p)
            r.status = 'ok'
            cnt = {}
            for o in eng.ctx.obls:
                base = '%s@%s' % (o.kind, o.fn if o.fn != fn else '')
                cnt[base] = cnt.get(base, 0) + 1
                r.obls.append(('%s#%d' % (base, cnt[base]), o))
        except Unsupported as e:
            r.status, r.why = 'unsupported', str(e)
        except RecursionError:
            r.status, r.why = 'unsupported', 'recursion limit'
        r.hard = sorted(k for _, k in eng.hard)
        r.opaque = called_in([x for _, o in r.obls for x in (o.facts, o.pc, o.goal)]) & self.uninterp
        r.called, r.used, r.inlined = eng.called, eng.used, eng.inlined
        r.calls = sorted(eng.called)
        return r

    # ---- emission ----------------------------------------------------------------------------
    def contract_text(self, em, k):
        o = []
        ps = ', '.join('%s: %s' % (nm(p), em.sort(s) if s != META else 'Unit_') for p, s in zip(k.params, k.sorts))
        if any(s == META for s in k.sorts):
            em.opaque.add('Unit_')
        if k.requires:
            o.append('pub open spec fn r_%s(%s) -> bool { %s }' % (k.id, ps, em.text(k.requires)))
        if k.ret is not None:
            o.append('pub open spec fn c_%s(%s) -> %s { %s }' % (k.id, ps, em.sort(k.rsort), em.text(k.ret)))
        elif k.det:
            o.append('pub uninterp spec fn c_%s(%s) -> %s;' % (k.id, ps, em.sort(k.rsort)))
        for i, e in enumerate(k.ensures):
            rp = ps + (', ' if ps else '') + 'result: %s' % em.sort(k.rsort)
            rp += ''.join(', new_%s: %s' % (p, em.sort(k.sorts[k.params.index(p)])) for p in k.posted())
            rp += ', new_world: PyWorld' if k.world else ''
            o.append('pub open spec fn e%d_%s(%s) -> bool { %s }' % (i, k.id, rp, em.text(e)))
        for p, t in k.post.items():
            if t == '':
                o.append('pub uninterp spec fn p_%s_%s(%s) -> %s;' % (k.id, p, ps, em.sort(k.sorts[k.params.index(p)])))
            elif t is not None:
                o.append('pub open spec fn p_%s_%s(%s) -> %s { %s }' % (
                    k.id, p, ps, em.sort(k.sorts[k.params.index(p)]), em.text(t)))
        if k.defs:
            o.append(em.text(k.defs))
        for i, v in enumerate(k.invs):
            if v and i in getattr(k, 'invsorts', {}):
                ip = ps + ''.join(', %s: %s' % ('cur_' + n if n in k.params else nm(n), em.sort(x)) for n, x in zip(v['vars'].split(), k.invsorts[i]))
                o.append('pub open spec fn i%d_%s(%s) -> bool { %s }' % (i, k.id, ip, em.text(v['inv'])))
                o.append('pub open spec fn m%d_%s(%s) -> int { %s }' % (i, k.id, ip, em.text(v['dec'])))
        if k.decreases:
            o.append('pub open spec fn d_%s(%s) -> int { %s }' % (k.id, ps, em.text(k.decreases)))
        return '\n'.join(o)

    def emit(self, res, vac=True):
        """Verus source of all obligations of the FnResults; returns text, {line range: (fn, obligation)}"""
        em = Emit(self.mir)
        groups = []
        index = {}
        mods = []
        ctext = []
        for k in self.contracts.values():
            if k.inline or k.sorts is None:
                continue
            ctext.append(self.contract_text(em, k))
        specs = em.text(self.specs)
        prelude = em.text(self.prelude)
        need = {t.name for t in self.wanted}
        for t in reversed(self.thms):
            if t.name in need:
                need.update(t.after)
        self.tmods = [(t, em.text(t.text)) for t in self.thms if t.name in need and not t.lost]
        names = {}
        for t, _ in self.tmods:
            names['thm_' + t.name] = ('', t.name, t)
        hlemmas = {}
        for n, r in enumerate(res):
            k = r.k
            body = []
            for j, (name, o) in enumerate(r.obls):
                pn = 'o%d_%d' % (n, j)
                names[pn] = (k.fn, name, o)
                try:
                    body.append(self.emit_obl(em, k, pn, o))
                except Unsupported as e:
                    r.status, r.why = 'unsupported', 'emission: %s' % e
                    break
            if vac and r.status == 'ok':
                pn = 'vac%d' % n
                names[pn] = (k.fn, 'vacuity', None)
                vs = [(nm(p), s) for p, s in zip(k.params, k.sorts) if s not in (UNIT, META)]
                req = 'requires r_%s(%s),' % (k.id, ', '.join(nm(p) if s not in (UNIT,) else '()' for p, s in zip(k.params, k.sorts))) if k.requires else ''
                body.append((pn, 'proof fn %s(%s) %s {' % (pn, ', '.join('%s: %s' % (a, em.sort(s)) for a, s in vs), req), 'assert(false); }'))
            if r.status == 'ok':
                mods.append((n, r, body))
        dts = em.datatypes()
        return em, names, ctext, specs, prelude, mods, dts

    def emit_obl(self, em, k, pn, o):
        goal = o.goal
        gone = set()
        for fn, shown in (k.hide or {}).items():
            c = self.contracts.get(fn)
            if not (shown and re.search(shown, o.kind + o.note)):
                gone |= {'e%d_%s' % (i, c.id) for i in range(len(c.ensures))} if c else {fn}
        hyp = [h for h in o.facts if not hidden(h, gone)] + list(o.pc)
        hyp = [h for h in hyp if h is not TRUE and not (h.op == 'forall' and not has_trigger(h))]
        if goal.op == 'deq':
            ts = hyp + list(goal.a)
        else:
            ts = hyp + [goal]
        fv = free_vars(ts)
        for p, s in zip(k.params, k.sorts):
            if s not in (UNIT, META):
                fv.setdefault(nm(p), s)
        used_lits0 = set()
        lets, env = em.lets(ts)
        out = ['proof fn %s(%s)' % (pn, ', '.join('%s: %s' % (nm(v), em.sort(s)) for v, s in sorted(fv.items()))), '{']
        b = []
        for fn, shown in (k.hide or {}).items():
            if shown and re.search(shown, o.kind + o.note):
                continue
            c = self.contracts.get(fn)
            out += ['  hide(%s);' % x for x in (['e%d_%s' % (i, c.id) for i in range(len(c.ensures))] if c else [fn])]
        b += ['  ' + x for x in lets]
        if hyp:
            b.append('  if %s {' % ' && '.join(em.term(h, env) for h in hyp))
        else:
            b.append('  {')
        if k.hints:
            b.append('  ' + em.text(k.hints))
        if goal.op == 'deq':
            l, r = em.term(goal.a[0], env), em.term(goal.a[1], env)
            b.append('    assert(%s =~~= %s);' % (l, r))
        else:
            b.append('    assert(%s);' % em.term(goal, env))
        b.append('  }')
        b.append('}')
        txt = '\n'.join(b)
        return pn, '\n'.join(out), txt

    # ---- assembling and running ----------------------------------------------------------------
    def assemble(self, res):
        em, names, ctext, specs, prelude, mods, dts = self.emit(res)
        # spec function -> identifiers in its body (for the closure of literals an obligation needs)
        defs = {}
        alltext = '\n'.join([prelude, specs] + ctext)
        pos = [(m.start(), m.group(1)) for m in re.finditer(r'\bspec fn (\w+)', alltext)]
        # functions of the library models about which nothing is assumed
        have = {n for _, n in pos}
        for n, (ss, s) in sorted(em.calls.items()):
            if n not in have:
                ctext.append('pub uninterp spec fn %s(%s) -> %s;' % (n, ', '.join('a%d: %s' % (i, em.sort(x)) for i, x in enumerate(ss)), em.sort(s)))
        dts = em.datatypes()
        for (a, n), (b, _) in zip(pos, pos[1:] + [(len(alltext), '')]):
            defs.setdefault(n, set()).update(re.findall(r'\b\w+\b', alltext[a:b]))
        litn = set(em.lits.values())
        memo = {}

        def litsof(words):
            out, todo, seen = set(), list(words), set()
            while todo:
                w = todo.pop()
                if w in seen:
                    continue
                seen.add(w)
                if w in litn:
                    out.add(w)
                if w in defs:
                    todo.extend(defs[w])
            return out
        o = ['#![allow(unused_imports, unused_variables, dead_code, non_snake_case, non_camel_case_types, unused_parens, unused_braces)]',
             'use vstd::prelude::*;',
             em.lits_module(),
             'pub mod types { use vstd::prelude::*; verus! {', dts, '} }',
             'pub mod prelude { use vstd::prelude::*; use super::types::*; use super::lits::*; verus! {', prelude, '} }',
             ]
        # every section of the specifications is a module of its own (the solver sees what the module mentions)
        secs = re.split(r'(?m)^(?=// ---- )', specs) + ['\n'.join(ctext)]
        for i, sec in enumerate(secs):
            o += ['pub mod sec%d { use vstd::prelude::*; use super::types::*; use super::lits::*; use super::prelude::*; use super::specs::*; verus! {' % i,
                  'broadcast use super::prelude::pre_group;', sec, '} }']
        o.append('pub mod specs { %s }' % ' '.join('pub use super::sec%d::*;' % i for i in range(len(secs))))
        for n, r, items in mods:
            o.append('pub mod ob%d { use vstd::prelude::*; use super::types::*; use super::prelude::*; use super::specs::*; use super::lits::*; verus! {' % n)
            o.append('broadcast use {super::prelude::pre_group, super::specs::spec_group, vstd::seq::group_seq_axioms%s};' % ''.join(
                ', super::specs::' + u for u in r.k.uses))
            for pn, head, txt in items:
                o.append('// OBL %s' % pn)
                ls = litsof(re.findall(r'\b\w+\b', txt))
                rl = ('#[verifier::rlimit(%s)] ' % r.k.rlimit if r.k.rlimit else '') + ('#[verifier::spinoff_prover] ' if r.k.spin else '')
                o.append(rl + re.sub(r'\n  hide\((\w+)\);', lambda m: m.group(0) if m.group(1) in defs and (not re.match(r'[er]\d*_', m.group(1)) or m.group(1) in txt) else '', head))
                o.append('  ' + ' '.join('l%s();' % x[1:] for x in sorted(ls)))
                o.append(txt)
            o.append('} }')
        for t, txt in self.tmods:
            o.append('pub mod thm_%s { use vstd::prelude::*; use super::types::*; use super::prelude::*; use super::specs::*; use super::lits::*; %s verus! {' % (
                t.name, ' '.join('use super::thm_%s::*;' % a for a in t.after)))
            o.append('broadcast use {super::prelude::pre_group, super::specs::spec_group, vstd::seq::group_seq_axioms};')
            ls = litsof(re.findall(r'\b\w+\b', txt))
            o.append('// OBL thm_%s' % t.name)
            o.append(txt.replace('LITS;', ' '.join('l%s();' % x[1:] for x in sorted(ls))))
            o.append('} }')
        o.append('fn main() {}')
        return '\n'.join(o), names, mods

    def run(self, res, path, threads=8, extra=(), modules=None):
        text, names, mods = self.assemble(res)
        open(path, 'w').write(text)
        cmd = [VERUS, path, '--output-json', '--time-expanded', '--multiple-errors', '4', '--num-threads', str(threads),
               '--error-format=json', '--rlimit', '30'] + list(extra)
        for m in modules or []:
            cmd += ['--verify-only-module', m]
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, env=dict(os.environ, RUST_MIN_STACK=str(1 << 30)))
        dt = time.time() - t
        try:
            j = json.loads(p.stdout[p.stdout.index('{'):])
        except ValueError:
            j = {}
        lines = text.split('\n')
        owner = []
        cur = None
        for ln in lines:
            m = re.match(r'// OBL (\w+)', ln)
            if m:
                cur = m.group(1)
            elif ln.startswith('} }') or ln.startswith('pub mod '):  # module boundary
                cur = None
            owner.append(cur)
        failed = {}
        other = []
        for ln in p.stderr.split('\n'):
            if not ln.startswith('{'):
                continue
            d = json.loads(ln)
            if d.get('level') != 'error' or not d.get('spans'):
                continue
            sp = [x for x in d['spans'] if x['file_name'] == path]
            if not sp:
                other.append(d['message'])
                continue
            sp = [x for x in sp if x.get('is_primary')] or sp
            o = owner[sp[0]['line_start'] - 1]
            if o is None:
                other.append('%s (line %d: %s)' % (d['message'], sp[0]['line_start'], lines[sp[0]['line_start'] - 1].strip()[:160]))
            else:
                failed.setdefault(o, []).append(d['message'])
        return dict(json=j, failed=failed, other=other, names=names, time=dt, mods=mods, cmd=' '.join(cmd), stderr=p.stderr, text=text)
