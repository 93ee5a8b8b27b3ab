"""Symbolic execution of MIR bodies into verification conditions.

One pass over the control-flow graph in reverse postorder, states merged at joins (guarded
`if` values), calls replaced by the callee's contract when it has one and inlined otherwise.
Every panic site (failed assert, diverging call) and every callee precondition becomes an
obligation under its path condition.
"""
from . import terms as tm
from .terms import *
from .mir import Mir, Unsupported, STD_ENUMS, TRANSPARENT, ERRS

INTRANGE = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1),
            'usize': (0, 2**64 - 1), 'u128': (0, 2**128 - 1),
            'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1),
            'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1)}


WORLD = ('py', 'w')             # state of the Python interpreter, in every environment
PYW = D('PyWorld')
W0 = Call('py_world0', [], PYW)


class Obl:
    def __init__(self, kind, fn, line, facts, pc, goal, note=''):
        self.kind, self.fn, self.line, self.note = kind, fn, line, note
        self.facts, self.pc, self.goal = list(facts), tuple(pc), goal


class Ctx:
    def __init__(self):
        self.obls = []
        self.facts = []


class CallInfo:
    pass


def iter_(seq):
    return mk('iter', (seq,), META)


def ptr(root, projs):
    return mk('ptr', (root, tuple(projs)), META)


class State:
    __slots__ = ('pc', 'env')

    def __init__(self, pc, env):
        self.pc, self.env = pc, env


class Engine:
    MAXDEPTH = 14

    def __init__(self, mir, contracts, lib):
        self.mir = mir
        self.contracts = contracts
        self.lib = lib
        self.ctx = Ctx()
        self.nframe = 0
        self.depth = 0
        self.stack = []
        self.used = set()        # library models used (trusted base)
        self.called = set()      # contracts relied upon
        self.inlined = set()
        self.hard = set()       # loops and folds without a closed form and without an invariant
        self._an = {}
        self.top = None
        self.topargs = []
        self.partial = False    # recursive without a measure

    # ---- obligations ------------------------------------------------------------------
    def oblige(self, kind, line, pc, goal, note=''):
        if goal is TRUE or FALSE in pc:
            return
        fn = self.stack[-1][0] if self.stack else '?'
        self.ctx.obls.append(Obl(kind, fn, line, self.ctx.facts, pc, goal, note))

    def fact(self, pc, f):
        f = Imp(And(*pc), f)
        if f is not TRUE and f not in self.ctx.facts:
            self.ctx.facts.append(f)

    # ---- CFG analyses ------------------------------------------------------------------
    def analyse(self, fn):
        r = self._an.get(fn['name'])
        if r and r[0] is fn:
            return r[1]
        blocks = fn['blocks']

        def succ(b):
            t = blocks[b]['term']
            k = t['t']
            if k in ('goto', 'assert'):
                return [t['to']]
            if k == 'call':
                return [t['to']] if t['to'] is not None else []
            if k == 'switch':
                o = []
                for _, x in t['vals']:
                    if x not in o:
                        o.append(x)
                if t['other'] not in o:
                    o.append(t['other'])
                return o
            return []
        succs = {}
        post = []
        seen = set()
        st = [(0, iter([0]))]
        seen.add(0)
        succs[0] = succ(0)
        st = [(0, iter(succs[0]))]
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    succs[x] = succ(x)
                    st.append((x, iter(succs[x])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for x in succs[b]:
                preds[x].append(b)
        loops = {}
        for u in rpo:
            for h in succs[u]:
                if num[h] <= num[u]:
                    body = loops.setdefault(h, {h})
                    work = [u]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(preds[x])
        # liveness of locals
        use = {b: set() for b in rpo}
        defs = {b: set() for b in rpo}
        mutref = set()

        def up(b, p):
            if p[0] not in defs[b]:
                use[b].add(p[0])
            for e in p[1]:
                if e[0] == 'index' and e[1] not in defs[b]:
                    use[b].add(e[1])

        def uo(b, o):
            if isinstance(o, dict) and o.get('o') in ('copy', 'move'):
                up(b, o['p'])
        for b in rpo:
            for p, r in blocks[b]['s']:
                for k in ('a', 'b'):
                    v = r.get(k)
                    if isinstance(v, list):
                        for o in v:
                            uo(b, o)
                    else:
                        uo(b, v)
                if r['r'] in ('ref', 'rawptr', 'discr') or (r['r'] == 'use' and 'p' in r):
                    up(b, r['p'])
                    if r.get('mut'):
                        mutref.add(r['p'][0])
                if p is None:
                    continue
                if p[1]:
                    up(b, p)
                else:
                    defs[b].add(p[0])
            t = blocks[b]['term']
            if t['t'] == 'switch':
                uo(b, t['d'])
            elif t['t'] == 'assert':
                uo(b, t['c'])
            elif t['t'] == 'call':
                uo(b, t['f'])
                for o in t['a']:
                    uo(b, o)
                if t['dest'][1]:
                    up(b, t['dest'])
                else:
                    defs[b].add(t['dest'][0])
            elif t['t'] == 'return':
                if 0 not in defs[b]:
                    use[b].add(0)
        live = {b: set(use[b]) for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                n = set(use[b])
                for x in succs[b]:
                    n |= live[x] - defs[b]
                if n != live[b]:
                    live[b] = n
                    ch = True
        r = dict(rpo=rpo, num=num, succs=succs, preds=preds, loops=loops, live=live, mutref=mutref)
        self._an[fn['name']] = (fn, r)
        return r

    # ---- merging -----------------------------------------------------------------------
    def merge2(self, a, b):
        k = 0
        while k < len(a.pc) and k < len(b.pc) and a.pc[k] is b.pc[k]:
            k += 1
        c1, c2 = And(*a.pc[k:]), And(*b.pc[k:])
        if c1 is Not(c2) or c1 is TRUE or c2 is TRUE:
            pc = a.pc[:k]
        else:
            o = Or(c1, c2)
            pc = a.pc[:k] + ((o,) if o is not TRUE else ())
        env = {}
        for r, v in a.env.items():
            w = b.env.get(r)
            if w is None:
                continue
            if v is w:
                env[r] = v
                continue
            env[r] = self.vite(c1, v, w)
        return State(pc, env)

    def vite(self, c, v, w):
        if v.meta or w.meta:
            for x, y in ((v, w), (w, v)):
                if x.op == 'iter' and y.op == 'rep':
                    raise Unsupported('merge of iterator kinds')
        return Ite(c, v, w)

    def merge(self, states):
        states = [s for s in states if FALSE not in s.pc]
        if not states:
            return None
        states = list(states)
        while len(states) > 1:
            best = None
            for i in range(len(states)):
                for j in range(i + 1, len(states)):
                    a, b = states[i].pc, states[j].pc
                    k = 0
                    while k < len(a) and k < len(b) and a[k] is b[k]:
                        k += 1
                    key = (k, -len(a) - len(b))
                    if best is None or key > best[0]:
                        best = (key, i, j)
            _, i, j = best
            m = self.merge2(states[i], states[j])
            states = [s for n, s in enumerate(states) if n not in (i, j)] + [m]
        return states[0]

    # ---- places ------------------------------------------------------------------------
    def resolve(self, fn, fid, env, place):
        """-> (root, projs) with projs in resolved form"""
        root = (fid, place[0])
        projs = []
        ty = fn['locals'][place[0]]
        var_ = None
        for e in place[1]:
            k = e[0]
            if k == 'deref':
                v = self.read(env, root, projs)
                if v.op == 'ptr':
                    root, projs = v.a[0], list(v.a[1])
                elif v.op == 'ite' and v.meta:
                    raise Unsupported('deref of merged pointer')
                t = self.mir.types[ty]
                if t['k'] in ('ref', 'ptr'):
                    ty = t['ty']
                elif t['k'] == 'adt' and t['name'] in TRANSPARENT:
                    ty = [x for x in t['args'] if isinstance(x, int)][0]
                else:
                    raise Unsupported('deref of ' + t['s'])
                var_ = None
            elif k == 'downcast':
                var_ = e[1]
            elif k == 'field':
                t = self.mir.types[ty]
                vn = None
                if t['k'] == 'adt' and t['name'] in TRANSPARENT:
                    ty = e[2]
                    var_ = None
                    continue
                if t['k'] == 'adt':
                    vn = self.mir.variant(t['name'], var_ or 0)
                projs.append(('f', t['k'], vn, e[1], self.mir.sort(e[2])))
                ty = e[2]
                var_ = None
            elif k == 'index':
                iv = env[(fid, e[1])]
                projs.append(('i', iv))
                ty = self.mir.types[ty].get('ty')
            elif k == 'cindex':
                if e[2]:
                    base = self.read(env, root, projs)
                    projs.append(('i', Sub(Len(base), I(e[1]))))
                else:
                    projs.append(('i', I(e[1])))
                ty = self.mir.types[ty].get('ty')
            elif k == 'subslice':
                base = self.read(env, root, projs)
                hi = Sub(Len(base), I(e[2])) if e[3] else I(e[2])
                projs.append(('r', I(e[1]), hi))
            else:
                raise Unsupported('projection ' + k)
        return root, tuple(projs), ty

    def read(self, env, root, projs):
        v = env.get(root)
        if v is None:
            raise Unsupported('read of uninitialised local')
        for p in projs:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        if p[0] == 'i':
            return Idx(v, p[1])
        if p[0] == 'r':
            return SubR(v, p[1], p[2])
        _, tk, vn, i, fs = p
        if v.op == 'closure':
            return v.a[1 + i]
        if v.op == 'some':
            return v.a[0]
        if tk == 'tuple' or v.op == 'tuple':
            return TProj(v, i)
        if tk == 'adt':
            if v.op == 'ite' and v.meta and not (v.a[1].op == 'ctor' or v.a[2].op == 'ctor'):
                return self.vite(v.a[0], self.proj(v.a[1], p), self.proj(v.a[2], p))
            if vn in ('Some', 'Ok', 'Continue', 'Err', 'Break') and v.s[0] == 'D' and len(v.s[2]) > 0:
                fs = v.s[2][0] if vn in ('Some', 'Ok', 'Continue') else v.s[2][1]
            return Proj(vn, i, v, fs)
        raise Unsupported('field of %s (%s)' % (tk, v.op))

    def update(self, v, projs, new):
        if not projs:
            return new
        p = projs[0]
        inner = self.update(self.proj(v, p), projs[1:], new)
        if p[0] == 'i':
            return Upd(v, p[1], inner)
        if p[0] == 'r':
            return Cat(SubR(v, I(0), p[1]), inner, SubR(v, p[2], Len(v)))
        _, tk, vn, i, fs = p
        if v.op == 'closure':
            a = list(v.a)
            a[1 + i] = inner
            return mk('closure', a, META)
        if tk == 'tuple' or v.op == 'tuple':
            n = len(v.s[1]) if v.op != 'tuple' else len(v.a)
            return tup(*[inner if k == i else TProj(v, k) for k in range(n)])
        if tk == 'adt':
            fields = self.fields(v.s, vn, v)
            return Ctor(v.s, vn, *[inner if k == i else Proj(vn, k, v, f) for k, f in enumerate(fields)])
        raise Unsupported('update of ' + tk)

    def fields(self, s, vn, v=None):
        if v is not None and v.op == 'ctor' and v.a[0] == vn:
            return [x.s for x in v.a[1:]]
        if s[0] == 'D':
            if s[1] == 'Option':
                return [s[2][0]] if vn == 'Some' else []
            if s[1] in ('Result', 'ControlFlow'):
                return [s[2][0] if vn in ('Ok', 'Continue') else s[2][1]]
            d = self.mir.dt.get(s[1])
            if d:
                for n, fs in d[1]:
                    if n == vn:
                        return [f[1] for f in fs]
        raise Unsupported('fields of %s %s' % (s, vn))

    def write(self, env, root, projs, val):
        if not projs:
            env[root] = val
            return
        if root not in env:
            raise Unsupported('partial initialisation')
        env[root] = self.update(env[root], list(projs), val)

    def pread(self, env, p):
        if p.op != 'ptr':
            raise Unsupported('not a tracked pointer: %s' % p.op)
        return self.read(env, p.a[0], p.a[1])

    def pwrite(self, env, p, v):
        if p.op != 'ptr':
            raise Unsupported('not a tracked pointer: %s' % p.op)
        self.write(env, p.a[0], p.a[1], v)

    def autoderef(self, env, v):
        """value behind a `&mut` pointer, or the value itself"""
        return self.pread(env, v) if v.op == 'ptr' else v

    # ---- operands ----------------------------------------------------------------------
    def const(self, c, ti):
        v = c['val']
        if v['c'] == 'unknown' and c.get('promoted') in self.mir.fns:
            r = self.run(self.mir.fns[c['promoted']], [], {}, ())
            return r.env['ret']
        return self.cval(v, ti, c)

    def cval(self, v, ti, c=None):
        k = v['c']
        mir = self.mir
        if k == 'bool':
            return Bv(v['v'])
        if k == 'int':
            return I(int(v['v']))
        if k == 'char':
            return chr_(v['v'])
        if k == 'str':
            return str_(v['v'])
        t = mir.types[ti] if ti is not None else {'k': 'other', 's': '?'}
        if k == 'ref':
            return self.cval(v['v'], t['ty'])
        if k == 'static' and v['name'] in mir.fns:
            return self.run(mir.fns[v['name']], [], {}, ()).env['ret']
        if k == 'seq':
            while t['k'] == 'ref':
                t = mir.types[t['ty']]
            et = t['ty']
            return seqlit([self.cval(x, et) for x in v['v']], mir.sort(et))
        if k == 'tuple':
            if not v['v']:
                return EMPTY_TUP
            return tup(*[self.cval(x, y) for x, y in zip(v['v'], t['args'])])
        if k == 'fn':
            return mk('fnval', (FnRef(v),), META)
        if k == 'zst':
            if t['k'] == 'closure':
                return mk('closure', (t['name'],), META)
            return mk('zst', (t['s'],), META)
        if k == 'adt':
            n = v['name']
            vn = mir.variant(n, v['variant'])
            if n == 'std::string::String':
                return str_('')
            s = mir.sort(ti)
            if s[0] == 'Seq':
                return seqlit([], s[1])
            if n in STD_ENUMS or mir.adts.get(n, {}).get('local'):
                fs = self.adt_field_tys(n, v['variant'], t)
                return Ctor(s, vn, *[self.cval(x, y) for x, y in zip(v['v'], fs)])
            return mk('zst', (n,), META)
        if c is not None and c.get('def'):
            s = mir.sort(ti)
            if s != META:
                return Call('const_' + c['def'].replace('::', '_'), [], s)
        raise Unsupported('constant %s : %s %s' % (k, t['s'], (c or {}).get('def')))

    def adt_field_tys(self, n, vi, t):
        a = [x for x in t.get('args', []) if isinstance(x, int)]
        if n == 'std::option::Option':
            return [a[0]]
        if n in ('std::result::Result', 'std::ops::ControlFlow'):
            return [a[vi]]
        return [f['ty'] for f in self.mir.adts[n]['variants'][vi]['fields']]

    def operand(self, fn, fid, env, o):
        if o['o'] == 'const':
            return self.const(o, o['ty'])
        if o['o'] == 'other':
            raise Unsupported('operand')
        root, projs, _ = self.resolve(fn, fid, env, o['p'])
        return self.read(env, root, projs)

    # ---- rvalues -----------------------------------------------------------------------
    def place_ty(self, fn, place):
        ty = fn['locals'][place[0]]
        vi = None
        for e in place[1]:
            t = self.mir.types[ty]
            if e[0] == 'deref':
                ty = t['ty'] if t['k'] in ('ref', 'ptr') else [x for x in t['args'] if isinstance(x, int)][0]
            elif e[0] == 'field':
                ty = e[2]
            elif e[0] in ('index', 'cindex'):
                ty = t['ty']
        return ty

    def op_ty(self, fn, o):
        return o['ty'] if o['o'] == 'const' else self.place_ty(fn, o['p'])

    def rvalue(self, fn, fid, st, r, dty, line):
        k = r['r']
        env = st.env
        if k == 'use':
            return self.operand(fn, fid, env, r['a'])
        if k in ('ref', 'rawptr'):
            root, projs, ty = self.resolve(fn, fid, env, r['p'])
            if r.get('mut'):
                # a reborrow of a shared value (e.g. through a Box held by value) is a pointer to the root
                return ptr(root, projs)
            v = self.read(env, root, projs) if root in env else None
            if v is None:
                if r.get('fake'):
                    return EMPTY_TUP
                raise Unsupported('reference to uninitialised local')
            return v
        if k == 'discr':
            root, projs, ty = self.resolve(fn, fid, env, r['p'])
            return mk('discr', (self.read(env, root, projs), self.mir.types[ty]['name']), META)
        if k == 'agg':
            kind = r['kind']
            a = [self.operand(fn, fid, env, x) for x in r['a']]
            if kind == 'array':
                t = self.mir.types[dty]
                es = self.mir.sort(t['ty']) if t['k'] == 'array' else (a[0].s if a else META)
                if es == META and a:
                    es = a[0].s
                return seqlit(a, es)
            if kind == 'tuple':
                return tup(*a) if a else EMPTY_TUP
            if kind == 'closure':
                return mk('closure', (r['name'],) + tuple(a), META)
            if kind == 'adt':
                return self.mkadt(r['name'], r['variant'], a, self.mir.sort(dty))
            raise Unsupported('aggregate ' + kind)
        if k == 'bin':
            return self.binop(r['op'], self.operand(fn, fid, env, r['a']), self.operand(fn, fid, env, r['b']),
                              self.op_ty(fn, r['a']))
        if k == 'un':
            a = self.operand(fn, fid, env, r['a'])
            if r['op'] == 'Not' and a.s == BOOL:
                return Not(a)
            if r['op'] == 'PtrMetadata':
                v = self.autoderef(env, a)
                return Len(v)
            if r['op'] == 'Neg':
                return Sub(I(0), a)
            raise Unsupported('unary ' + r['op'])
        if k == 'cast':
            a = self.operand(fn, fid, env, r['a'])
            if 'IntToInt' in r['kind']:
                src = self.mir.types[self.op_ty(fn, r['a'])].get('name')
                dst = self.mir.types[r['ty']].get('name')
                if src in INTRANGE and dst in INTRANGE and INTRANGE[dst][0] <= INTRANGE[src][0] and INTRANGE[src][1] <= INTRANGE[dst][1]:
                    return a
                if a.s == CHAR or a.s == BOOL:
                    return Call('int_of_' + a.s[0], [a], INT)
                raise Unsupported('narrowing cast %s->%s' % (src, dst))
            return a
        if k == 'repeat':
            a = self.operand(fn, fid, env, r['a'])
            n = r['n']
            if n is not None and int(n) <= 64:
                return seqlit([a] * int(n), a.s)
            raise Unsupported('array repeat')
        raise Unsupported('rvalue ' + k + ' ' + str(r.get('s', ''))[:80])

    def mkadt(self, name, variant, a, sort):
        vn = self.mir.variant(name, variant)
        if name in ERRS:
            return Call('err_new', [], D('Err'))
        if name in STD_ENUMS or self.mir.adts.get(name, {}).get('local'):
            if sort == META or sort[0] != 'D':
                if name in self.mir.dtname:
                    sort = D(self.mir.dtname[name])
                else:
                    sort = D(STD_ENUMS[name][0], *[x.s for x in a])
            if sort[1] == 'Option' and a:
                sort = OPT(a[0].s)
            return Ctor(sort, vn, *a)
        if name.startswith('std::ops::Range'):
            return mk('ctor', (name.split('::')[-1],) + tuple(a), D('std_' + name.split('::')[-1]))
        return mk('ctor', (vn,) + tuple(a), D('foreign_' + name.replace('::', '_')))

    def binop(self, op, a, b, ty):
        if op == 'Eq':
            return Eq(a, b)
        if op == 'Ne':
            return Not(Eq(a, b))
        if op == 'Lt':
            return Lt(a, b)
        if op == 'Le':
            return Le(a, b)
        if op == 'Gt':
            return Lt(b, a)
        if op == 'Ge':
            return Le(b, a)
        if op in ('BitAnd', 'BitOr', 'BitXor') and a.s == BOOL:
            return {'BitAnd': And, 'BitOr': Or}[op](a, b) if op != 'BitXor' else Not(Eq(a, b))
        n = self.mir.types[ty].get('name')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        f = {'Add': Add, 'Sub': Sub, 'Mul': Mul}.get(base)
        if f and n in INTRANGE:
            r = f(a, b)
            lo, hi = INTRANGE[n]
            if op.endswith('WithOverflow'):
                self.lenfacts(r)
                return tup(r, Not(And(Le(I(lo), r), Le(r, I(hi)))))
            return r
        if base == 'Div':
            return mk('div', (a, b), INT)
        if base == 'Rem':
            return mk('mod', (a, b), INT)
        raise Unsupported('binary ' + op)

    def lenfacts(self, t):
        """no collection is longer than isize::MAX"""
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'len':
                self.ctx.facts.append(Le(x, I(2**63 - 1)))
                continue
            if x.op == 'call' and x.a[0] == 'seq_twn':
                self.ctx.facts.append(Le(Len(x.a[1]), I(2**63 - 1)))
            if x.op == 'call' and x.a[0] == 'blen':
                self.ctx.facts.append(And(Le(I(0), x), Le(x, I(2**63 - 1))))
            if x.op not in ('lam', 'forall', 'exists'):
                todo.extend(y for y in x.a if isinstance(y, T))

    # ---- function bodies -----------------------------------------------------------------
    def run(self, fn, args, env, pc):
        """execute a body; returns State with the return value under key 'ret' (or None if it diverges)"""
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported('inlining too deep')
        if sum(1 for s in self.stack if s[0] == fn['name']) > 0:
            raise Unsupported('recursive call without contract: ' + fn['name'])
        self.nframe += 1
        fid = self.nframe
        env = dict(env)
        if len(args) != fn['argc']:
            raise Unsupported('arity of ' + fn['name'])
        for i, a in enumerate(args):
            env[(fid, i + 1)] = a
        self.stack.append((fn['name'], fid))
        try:
            an = self.analyse(fn)
            inc = {0: [State(tuple(pc), env)]}
            rets = []
            self.region(fn, fid, an, inc, rets, set(an['rpo']), None)
            st = self.merge(rets)
            if st is None:
                return None
            ret = st.env.get((fid, 0), EMPTY_TUP)
            env = {k: v for k, v in st.env.items() if k[0] != fid}
            env['ret'] = ret
            return State(st.pc, env)
        finally:
            self.stack.pop()

    def region(self, fn, fid, an, inc, rets, blocks, header):
        """process `blocks` in RPO; edges leaving the set (or back to `header`) are appended to rets as
        (target, State) when header is not None, returns are appended as State otherwise"""
        done = set()
        for b in an['rpo']:
            if b not in blocks or b in done:
                continue
            if b not in inc:
                continue
            st = self.merge(inc.pop(b))
            if st is None:
                continue
            live = an['live'][b]
            env = {k: v for k, v in st.env.items() if k[0] != fid or k[1] in live or k[1] in an['mutref']}
            st = State(st.pc, env)
            if b in an['loops'] and b != header:
                L = an['loops'][b]
                exits = self.loop(fn, fid, an, b, L, st)
                done |= L
            else:
                exits = self.block(fn, fid, b, st)
            for tgt, s in exits:
                if FALSE in s.pc:
                    continue
                if tgt == 'ret':
                    rets.append(s if header is None else ('ret', s))
                elif header is not None and (tgt == header or tgt not in blocks):
                    rets.append((tgt, s))
                elif tgt not in blocks:
                    raise Unsupported('edge out of region')
                else:
                    if an['num'][tgt] <= an['num'][b] and not (b in an['loops']):
                        raise Unsupported('irreducible control flow')
                    inc.setdefault(tgt, []).append(s)

    def block(self, fn, fid, b, st):
        blk = fn['blocks'][b]
        env = st.env
        t = blk['term']
        for place, r in blk['s']:
            if place is None:
                raise Unsupported('statement ' + r.get('s', '')[:60])
            if r['r'] == 'ref' and r.get('fake'):
                continue
            dty = self.place_ty(fn, place)
            v = self.rvalue(fn, fid, st, r, dty, t['line'])
            root, projs, _ = self.resolve(fn, fid, env, place)
            self.write(env, root, projs, v)
        k = t['t']
        line = t['line']
        if k == 'goto':
            return [(t['to'], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'unreachable':
            return []
        if k == 'switch':
            return self.switch(fn, fid, t, st)
        if k == 'assert':
            c = self.operand(fn, fid, env, t['c'])
            if not t['exp']:
                c = Not(c)
            self.oblige('assert', line, st.pc, c, t['msg'])
            self.fact(st.pc, c)
            return [(t['to'], st)]
        if k == 'call':
            return self.call(fn, fid, t, st)
        raise Unsupported('terminator ' + k)

    def switch(self, fn, fid, t, st):
        d = self.operand(fn, fid, st.env, t['d'])
        outs = []
        conds = []

        def isval(v):
            if d.op == 'discr':
                x, adt = d.a
                if adt in STD_ENUMS or self.mir.adts[adt]['local']:
                    if x.op == 'ite' and x.meta:
                        return self.meta_is(self.mir.variant_by_discr(adt, v), x)
                    return Is(self.mir.variant_by_discr(adt, v), x)
                raise Unsupported('match on foreign enum ' + adt)
            if d.s == BOOL:
                return Not(d) if v == '0' else d
            if d.s == CHAR:
                return Eq(d, chr_(int(v)))
            if d.s == INT:
                return Eq(d, I(int(v)))
            raise Unsupported('switch on ' + str(d.s))
        for v, tgt in t['vals']:
            c = isval(v)
            conds.append(c)
            outs.append((tgt, c))
        oth = t['other']
        if d.op == 'discr':
            adt = d.a[1]
            n = len(self.mir.adts[adt]['discrs'])
            rest = [x for x in self.mir.adts[adt]['discrs'] if str(x) not in {v for v, _ in t['vals']}]
            if not rest:
                oc = FALSE
            elif len(rest) == 1:
                oc = isval(str(rest[0]))
            else:
                oc = And(*[Not(c) for c in conds])
            # two-variant enums: use complementary literals so that joins cancel
            if n == 2 and len(conds) == 1:
                oc = Not(conds[0])
            if n == 2 and len(conds) == 2:
                outs[1] = (outs[1][0], Not(conds[0]))
            outs.append((oth, oc))
        else:
            outs.append((oth, And(*[Not(c) for c in conds])))
        # sequentialise: prefix of negated earlier conditions so that joins cancel
        res = []
        neg = []
        bytgt = []
        for tgt, c in outs:
            if c is FALSE:
                continue
            bytgt.append((tgt, c))
        if len(bytgt) <= 2:
            for tgt, c in bytgt:
                pc = st.pc + ((c,) if c is not TRUE and c not in st.pc else ())
                if Not(c) in st.pc:
                    continue
                res.append((tgt, State(pc, self.chosen(c, st.env))))
            return res
        for i, (tgt, c) in enumerate(bytgt):
            lits = tuple(n for n in neg if n not in st.pc)
            if i < len(bytgt) - 1:
                if Not(c) in st.pc or FALSE in lits:
                    continue
                pc = st.pc + lits + ((c,) if c is not TRUE and c not in st.pc else ())
                neg.append(Not(c))
            else:
                pc = st.pc + lits
            if any(Not(x) in st.pc for x in lits):
                continue
            res.append((tgt, State(pc, dict(st.env))))
        return res

    def chosen(self, c, env):
        """values that depend on whether a walk ended early, once that is decided"""
        from .loops import decided
        env = dict(env)
        if not any(v.op == 'ite' and early(v.a[0]) for v in env.values()):
            return env
        known = decided([c])
        for r, v in env.items():
            while v.op == 'ite' and v.a[0].id in known and early(v.a[0]):
                v = v.a[1] if known[v.a[0].id] is TRUE else v.a[2]
            env[r] = v
        return env

    def meta_is(self, vn, x):
        if x.op == 'ite':
            return Ite(x.a[0], self.meta_is(vn, x.a[1]), self.meta_is(vn, x.a[2]))
        return Is(vn, x)

    # ---- calls ---------------------------------------------------------------------------
    def call(self, fn, fid, t, st):
        f = self.operand(fn, fid, st.env, t['f'])
        args = [self.operand(fn, fid, st.env, a) for a in t['a']]
        line = t['line']
        if t['to'] is None:
            nm = f.a[0].name if f.op == 'fnval' else '?'
            self.oblige('panic', line, st.pc, FALSE, nm)
            return []
        ds = self.mir.sort(t['dt'])
        r = self.apply(f, args, st.env, st.pc, line, ds, t['dt'], t['at'])
        if r is None:
            return []
        st2 = State(r.pc, r.env)
        ret = st2.env.pop('ret')
        root, projs, _ = self.resolve(fn, fid, st2.env, t['dest'])
        self.write(st2.env, root, projs, ret)
        return [(t['to'], st2)]

    def apply(self, f, args, env, pc, line, ds=META, dt=None, at=None):
        """call a function value; returns State with 'ret' or None if it diverges"""
        if f.op == 'ptr':
            f = self.pread(env, f)
        if f.op == 'closure':
            body = self.mir.fns.get(f.a[0])
            if body is None or f.a[0] in self.mir.dups:
                raise Unsupported('closure body ' + str(f.a[0]))
            selfv = f
            # closures with captured state by value that is mutated would need a root; by-reference
            # captures are pointers already
            st0 = self.mir.types[body['locals'][1]]
            if st0['k'] == 'ref' and st0['mut']:
                self.nframe += 1
                root = (self.nframe, 'clo')
                env = dict(env)
                env[root] = f
                selfv = ptr(root, ())
            n = body['argc'] - 1
            r = self.run(body, [selfv] + list(args[:n]), env, pc)
            return r
        if f.op == 'fnval':
            return self.callfn(f.a[0], args, dict(env), tuple(pc), line, ds, dt, at)
        if f.op == 'lam':
            e = dict(env)
            e['ret'] = Beta(f, args)
            return State(tuple(pc), e)
        if f.s[0] == 'Fn':
            e = dict(env)
            e['ret'] = Beta(f, args)
            return State(tuple(pc), e)
        if f.op == 'pyclo':
            e = dict(env)
            e['ret'] = f.a[0](*args)
            return State(tuple(pc), e)
        if f.s == D('Param'):
            # a function passed by the caller: any result, any change of the interpreter state
            a = [f, env.get(WORLD, W0)] + list(args)
            e = dict(env)
            n = '' if not args else '_%d' % len(args)
            e['ret'] = Call('call_result' + n, a, ds)
            e[WORLD] = Call('call_world' + n, a, PYW)
            return State(tuple(pc), e)
        raise Unsupported('call of ' + f.op)

    def callfn(self, fr, args, env, pc, line, ds, dt, at):
        j = fr.j
        name = j['name']
        res = j.get('res') or name
        mir = self.mir
        if j.get('ctor'):
            e = dict(env)
            e['ret'] = self.mkadt(j['adt'], j['variant'], list(args), ds)
            return State(pc, e)
        c = CallInfo()
        c.eng, c.name, c.res, c.args, c.env, c.pc, c.line, c.ds, c.dt, c.at, c.j = (
            self, name, res, list(args), env, pc, line, ds, dt, at, j)
        # closures through the Fn traits
        if name in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            tupv = args[1]
            n = len(tupv.s[1]) if tupv.op != 'tuple' else len(tupv.a)
            return self.apply(args[0], [TProj(tupv, i) for i in range(n)], env, pc, line, ds, dt)
        if j.get('reslocal') and j.get('reskind') == 'Item':
            k = self.contracts.get(res)
            if k is not None and not k.inline:
                return self.bycontract(k, c)
            h = self.lib.get(res)
            if h is not None:
                return self.bylib(h, c, res)
            if j.get('derived') and name != 'std::default::Default::default':
                h = self.lib.get(name)
                if h is not None:
                    return self.bylib(h, c, name)
            body = mir.fns.get(res)
            if body is None or res in mir.dups:
                raise Unsupported('no unique body for ' + res)
            self.inlined.add(res)
            return self.run(body, args, env, pc)
        for n in (res, name):
            h = self.lib.get(n)
            if h is not None:
                return self.bylib(h, c, n)
        raise Unsupported('library function ' + res + (' (%s)' % name if name != res else ''))

    def bylib(self, h, c, n):
        self.used.add(n)
        v = h(c)
        if v is None:
            return None
        if isinstance(v, State):
            return v
        c.env['ret'] = v
        return State(c.pc, c.env)

    def bycontract(self, k, c):
        self.called.add(k.fn)
        args = []
        muts = []
        for i, a in enumerate(c.args):
            if i < len(k.params) and k.params[i] in k.fnargs:
                args.append(a if a.s[0] == 'Fn' else self.lam(a, list(k.fnargs[k.params[i]][0]), c.env, c.pc, c.line))
            elif a.op == 'ptr':
                args.append(self.pread(c.env, a))
                muts.append((i, a))
            elif a.meta and a.op == 'iter':
                args.append(a.a[0])
            else:
                args.append(a)
        args = k.bind(args)
        for a in args:
            if a.meta:
                raise Unsupported('meta argument for contract of ' + k.fn)
        if k.requires:
            self.oblige('pre', c.line, c.pc, k.req_term(args), k.fn)
            self.fact(c.pc, k.req_term(args))
        if self.top is not None and self.top.decreases and self.top.group == k.group:
            if not k.decreases:
                raise Unsupported('no measure for ' + k.fn)
            self.oblige('decreases', c.line, c.pc, And(Le(I(0), k.dec_term(args)), Lt(k.dec_term(args), self.top.dec_term(self.topargs))), k.fn)
        elif k is self.top:
            self.partial = True
        if k.world:
            raise Unsupported('call of %s, which changes the interpreter state' % k.fn)
        body = self.mir.fns[k.fn]
        rs = self.mir.sort(body['locals'][0])
        env = c.env
        for i, p in muts:
            if k.params[i] in k.post:
                ps = args[i].s
                self.pwrite(env, p, k.post_term(k.params[i], args, ps))
            elif k.params[i] not in k.frame:
                raise Unsupported('contract of %s says nothing about %s' % (k.fn, k.params[i]))
        env['ret'] = k.ret_term(args, rs) if rs != UNIT else EMPTY_TUP
        for f in k.ens_terms(args, env['ret'], [self.pread(env, c.args[k.params.index(p)]) for p in k.posted()]):
            self.fact(c.pc, f)
        return State(c.pc, env)

    # ---- closures as specification functions ------------------------------------------------
    def sub(self, vs, thunk, dom):
        """evaluate thunk() in a nested context; its obligations are generalised over vs under dom(subst)"""
        outer = self.ctx
        self.ctx = Ctx()
        self.ctx.facts = list(outer.facts)
        n0 = len(outer.facts)
        since = tm._fresh[0]
        try:
            r = thunk()
            inner = self.ctx
        finally:
            self.ctx = outer
        qs, m, d = dom
        for o in inner.obls:
            # the quantified variables stay free in obligations
            hyps = [d] + [subst(h, m) for h in list(o.facts[n0:]) + list(o.pc)]
            if FALSE in hyps:
                continue
            g = subst(o.goal, m)
            if g is TRUE:
                continue
            outer.obls.append(Obl(o.kind, o.fn, o.line, outer.facts, tuple(h for h in hyps if h is not TRUE), g, o.note))
        for f in inner.facts[n0:]:
            if unknowns(f, since):
                continue       # known of one iteration only
            qs, m, d = dom
            g = ForAll(qs, Imp(d, subst(f, m)))
            if g is not TRUE:
                outer.facts.append(g)
        return r

    def seqdom(self, seq, x):
        i = fresh('i', INT)
        e = Beta(seq.a[2], [Idx(seq.a[1], i)]) if seq.op == 'call' and seq.a[0] == 'seq_map' else Idx(seq, i)
        return ([i], {x.a[0]: e}, And(Le(I(0), i), Lt(i, Len(seq))))

    def lam(self, f, sorts, env, pc, line, dom=None, seq=None, post=None):
        """specification function denoting the (pure) Rust function value f"""
        vs = [fresh('x', s) for s in sorts]
        if dom is None:
            if seq is not None:
                dom = self.seqdom(seq, vs[0])
            else:
                dom = ([], {}, FALSE) if False else (vs, {v.a[0]: v for v in vs}, TRUE)

        def go():
            r = self.apply(f, vs, env, pc, line)
            if r is None:
                raise Unsupported('diverging closure')
            ret = r.env.pop('ret')
            for k_, v_ in env.items():
                w = r.env.get(k_)
                if w is not None and w is not v_:
                    raise Unsupported('closure with side effects')
            if post:
                ret = post(ret)
            if ret.op == 'iter':
                ret = ret.a[0]
            return ret
        since = tm._fresh[0]
        body = self.sub(vs, go, dom)
        if unknowns(body, since):
            raise Unsupported('closure with a result known only by a postcondition')
        if body.meta:
            raise Unsupported('closure returning %s' % body.op)
        return Lam(vs, body)

    def invariant(self, fn, h):
        """(contract, position, invariant) the contract gives for the loop"""
        k = self.contracts.get(fn['name'])
        if k is None or k is not self.top:
            return None
        an = self.analyse(fn)
        def driven(b):
            ts = [fn['blocks'][x]['term'] for x in an['loops'][b]]
            return any(t['t'] == 'call' and str((t['f'].get('val') or {}).get('name', '')).endswith('::next') for t in ts)
        # loops that are not driven by an iterator, in source order
        hs = sorted([b for b in an['loops'] if b == h or not driven(b)], key=lambda b: (fn['blocks'][b]['term'].get('line', 0), an['num'][b]))
        i = hs.index(h)
        if len(hs) != len(k.invs):
            raise Unsupported('%d loops without iterator, invariants for %d' % (len(hs), len(k.invs)))
        if i >= len(k.invs) or not k.invs[i]:
            return None
        return k, i, k.invs[i]

    # ---- loops -------------------------------------------------------------------------------
    def loop(self, fn, fid, an, h, L, st):
        from . import loops
        return loops.loop(self, fn, fid, an, h, L, st)


def early(c):
    c = c.a[0] if c.op == 'not' else c
    return c.op == 'lt' and c.a[0].op == 'call' and c.a[0].a[0] == 'seq_twn'


class FnRef:
    def __init__(self, j):
        self.j = j
        self.name = j['name']

    def __hash__(self):
        return hash((self.name, str(self.j.get('args')), self.j.get('res')))

    def __eq__(self, o):
        return isinstance(o, FnRef) and self.j == o.j

    def __repr__(self):
        return 'fn:' + self.name
