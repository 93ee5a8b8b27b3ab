"""Loops over iterators.

The body is executed symbolically on an arbitrary iteration (element x, index k). The values the body changes get a
closed form from their transition: counters, accumulation by concatenation (`v ++ g(x)` becomes `v0 ++ flat(map(s, g))`),
and `seq_fold` for everything else. Early exits (`break`, `return`, `?`) become `the first index at which the exit
condition holds`. The obligations of the body are generated once more with the closed forms in place, for all k.
Loops that are not driven by an iterator need an invariant from the contract (see while_)."""
from . import terms as tm
from .terms import *
from .mir import Unsupported
from .exec import State, Ctx, iter_

MAXROUNDS = 8


def itk(s, k, x, n):
    return mk('itk', (s, k, x, n), META)


def mentions(t, names):
    return bool(t.fv & names)


def suffix(t, v):
    """g such that t == v ++ g, or None"""
    if t is v:
        return seqlit([], v.s[1])
    if t.op == 'cat':
        g = suffix(t.a[0], v)
        if g is not None:
            return Cat(g, *t.a[1:])
    if t.op == 'ite':
        a, b = suffix(t.a[1], v), suffix(t.a[2], v)
        if a is not None and b is not None:
            return Ite(t.a[0], a, b)
    return None


def step_of(t, v):
    """c such that t == v + c, or None"""
    if t is v:
        return I(0)
    if t.op == 'add' and t.a[0] is v:
        return t.a[1]
    if t.op == 'add' and t.a[1] is v:
        return t.a[0]
    if t.op == 'add':
        for i in (0, 1):
            c = step_of(t.a[i], v)
            if c is not None:
                return Add(c, t.a[1 - i])
    return None


def leaves(v, t, v0, out):
    """split (variable, next value, initial value) of a struct or tuple into its parts"""
    if t.op == 'ctor' and single_variant(v.s) and v.s == t.s:
        for i, y in enumerate(t.a[1:]):
            leaves(Proj(t.a[0], i, v, y.s), y, Proj(t.a[0], i, v0, y.s), out)
    elif t.op == 'tuple' and v.s[0] == 'Tup':
        for i, y in enumerate(t.a):
            leaves(TProj(v, i), y, TProj(v0, i), out)
    else:
        out.append((v, t, v0))


def rebuild_like(v, t, form):
    if t.op == 'ctor' and single_variant(v.s) and v.s == t.s:
        return Ctor(t.s, t.a[0], *[rebuild_like(Proj(t.a[0], i, v, y.s), y, form) for i, y in enumerate(t.a[1:])])
    if t.op == 'tuple' and v.s[0] == 'Tup':
        return tup(*[rebuild_like(TProj(v, i), y, form) for i, y in enumerate(t.a)])
    return form[v.id]


def replace(t, m, memo=None):
    """replace subterms by id (m: id -> term)"""
    if memo is None:
        memo = {}
    r = m.get(t.id)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op in ('lam', 'forall', 'exists'):
        b = replace(t.a[1], m, memo)
        if b is t.a[1]:
            r = t
        elif t.op == 'lam':
            r = Lam(t.a[0], b)
        else:
            r = (ForAll if t.op == 'forall' else Exists)(t.a[0], b)
    else:
        a = [replace(y, m, memo) if isinstance(y, T) else y for y in t.a]
        r = t if all(y is z for y, z in zip(a, t.a)) else rebuild(t.op, a, t.s)
    memo[t.id] = r
    return r


def nested(eng, thunk):
    outer = eng.ctx
    eng.ctx = Ctx()
    eng.ctx.facts = list(outer.facts)
    try:
        return thunk()
    finally:
        eng.ctx = outer


def separated(g, k, names):
    """(sep, rest) if g puts sep before rest in all iterations but the first"""
    first = None
    if g.op == 'cat' and g.a[0].op == 'ite':
        first, rest = g.a[0], Cat(*g.a[1:])
    elif g.op == 'ite':
        first, rest = g, None
    if first is None:
        return None
    c, a, b = first.a
    for cond, x, y in ((c, a, b), (Not(c), b, a)):
        if cond in (Lt(I(0), k), Not(mk('eq', (k, I(0)), BOOL)), Not(Eq(k, I(0))), Le(I(1), k)):
            if rest is None:
                if x.op != 'cat':
                    return None
                sep, r = x.a[0], Cat(*x.a[1:])
                if r is not y:
                    return None
            else:
                sep, r = x, rest
                if lit_elems(y) is None or lit_elems(y):
                    return None
            if mentions(sep, names) or k.a[0] in r.fv:
                return None
            return sep, r
    return None


UNROLL = 8


def unroll(eng, seqs, lits, env, pc, step, iters):
    """iteration over given elements"""
    n = min(len(e) for e in lits)
    cur = State(tuple(pc), dict(env))
    outs = []
    for i in range(n):
        res = step(dict(cur.env), cur.pc, I(i), [e[i] for e in lits], I(n))
        backs = []
        for t, s in res:
            if FALSE in s.pc:
                continue
            if t == 'next':
                backs.append(s)
            elif t is not None:
                s.env = dict(s.env)
                for r in iters:
                    if r in s.env and s.env[r].op == 'itk':
                        q = s.env[r]
                        s.env[r] = iter_(SubR(q.a[0], q.a[1], Len(q.a[0])))
                outs.append((t, s))
        if not backs:
            return State(tuple(pc) + (FALSE,), dict(env)), outs
        cur = eng.merge(backs)
    return cur, outs


def iterate(eng, seqs, env, pc, step, iters=(), loc=None, fuse=True):
    """seqs: the sequences walked in step; step(env, pc, k, xs, n) -> [(tag, State)], tag 'next' for the next iteration and
    None for the exhausted iterator. Returns (normal State or None, [(tag, State)])."""
    from .lib import seq_map, seq_flat
    lits = [lit_elems(s) for s in seqs]
    if all(e is not None and len(e) <= UNROLL for e in lits):
        return unroll(eng, seqs, lits, env, pc, step, iters)
    args = (eng, seqs, env, pc, step, iters, loc, False)
    fuse = fuse and any(s.op == 'call' and s.a[0] == 'seq_map' for s in seqs)
    if fuse:
        # a walk over map(s, f) is a walk over s
        fs = [s.a[2] if s.op == 'call' and s.a[0] == 'seq_map' else None for s in seqs]
        step0 = step
        step = lambda e, pc, k, xs, n: step0(e, pc, k, [x if f is None else Beta(f, [x]) for f, x in zip(fs, xs)], n)
        seqs = [s if f is None else s.a[1] for f, s in zip(fs, seqs)]
    k = fresh('k', INT)
    since = tm._fresh[0]
    xs = [fresh('x', s.s[1]) for s in seqs]
    for s in seqs:
        eng.fact(pc, Le(Len(s), I(2**63 - 1)))      # no allocation is larger
    n = Len(seqs[0])
    for s in seqs[1:]:
        n = Call('imin', [n, Len(s)], INT)
    guard = Lt(k, n)
    base = tuple(pc)
    inpc = base + (guard,)

    def run(e):
        outs = step(dict(e), inpc, k, xs, n)
        backs = [s for t, s in outs if t == 'next' and FALSE not in s.pc]
        exits = [(t, s) for t, s in outs if t not in ('next', None) and FALSE not in s.pc]
        return (eng.merge(backs) if backs else None), exits
    mod = {}
    for _ in range(MAXROUNDS):
        e = dict(env)
        for r, v in mod.items():
            e[r] = v
        back, exits = nested(eng, lambda: run(e))
        if back is None:
            break
        new = [r for r in env if r in back.env and r not in iters and back.env[r] is not e[r] and r not in mod]
        if not new:
            break
        for r in new:
            if env[r].meta or back.env[r].meta:
                raise Unsupported('loop changes a tracked value (%s)' % env[r].op)
            mod[r] = fresh('v', env[r].s)
    else:
        raise Unsupported('loop state does not stabilise')
    if back is not None and any(unknowns(back.env[r], since) for r in mod):
        raise Unsupported('loop state from a result known only by a postcondition')
    names = frozenset(v.a[0] for v in mod.values())
    forms = {}
    parts = []
    if back is not None:
        for r, v in mod.items():
            leaves(v, back.env[r], env[r], parts)
    # counters
    done = {}
    rest = []
    for v, t, v0 in parts:
        if v.s == INT:
            c = step_of(t, v)
            if c is not None and c.op == 'int':
                done[v.id] = (lambda v0, c: lambda kk: Add(v0, Mul(c, kk) if c.a[0] != 1 else kk) if c.a[0] else v0)(v0, c)
                continue
        elif t is v:
            done[v.id] = (lambda v0: lambda kk: v0)(v0)
            continue
        rest.append((v, t, v0))
    at = {i: f(k) for i, f in done.items()}
    rest = [(v, replace(t, at), v0) for v, t, v0 in rest]
    # concatenation
    left = []
    kx = frozenset([k.a[0]])

    def prefix(s, kk):
        return s if kk is n and len(seqs) == 1 else SubR(s, I(0), kk)

    def elems(kk):
        """the walked elements up to kk as one sequence"""
        if len(seqs) == 1:
            return prefix(seqs[0], kk)
        if len(seqs) == 2:
            z = Call('seq_zip', list(seqs), SEQ(TUP(*[s.s[1] for s in seqs])))
            return z if kk is n else SubR(z, I(0), kk)
        raise Unsupported('loop over three iterators')

    def fun(body):
        """body over the walked element"""
        if len(seqs) == 1:
            return Lam([xs[0]], body)
        z = fresh('x', TUP(*[s.s[1] for s in seqs]))
        return Lam([z], subst(body, {x.a[0]: TProj(z, i) for i, x in enumerate(xs)}))

    def funk(body):
        return Lam([k], subst(body, {x.a[0]: Idx(s, k) for s, x in zip(seqs, xs)}))
    for v, t, v0 in rest:
        g = suffix(t, v) if v.s[0] == 'Seq' else None
        if g is None or mentions(g, names):
            left.append((v, t, v0))
            continue
        one = single(g)
        es = v.s[1]
        if es == CHAR and len(seqs) == 1 and seqs[0].op == 'call' and seqs[0].a[0] == 'seq_enum':
            base_ = seqs[0].a[1]
            x_ = fresh('x', base_.s[1])
            g_ = subst(g, {xs[0].a[0]: tup(k, x_)})
            j = separated(g_, k, kx | frozenset([x_.a[0]]))
            if j is not None:
                f = Lam([x_], j[1])
                done[v.id] = (lambda v0, sep, f, b: lambda kk: Cat(v0, Call('str_join', [seq_map(b if kk is n else SubR(b, I(0), kk), f), sep], STR)))(v0, j[0], f, base_)
                continue
        if mentions(g, kx):
            j = separated(g, k, kx | frozenset(x.a[0] for x in xs)) if es == CHAR else None
            if j is not None:
                f = fun(j[1])
                done[v.id] = (lambda v0, sep, f: lambda kk: Cat(v0, Call('str_join', [seq_map(elems(kk), f), sep], STR)))(v0, j[0], f)
                continue
            eng.hard.add((loc, '%s: index' % loc[0]))
            if one is not None:
                f = funk(one)
                done[v.id] = (lambda v0, f: lambda kk: Cat(v0, seq_map(Call('rng', [I(0), kk], SEQ(INT)), f)))(v0, f)
            else:
                f = funk(g)
                done[v.id] = (lambda v0, f: lambda kk: Cat(v0, seq_flat(seq_map(Call('rng', [I(0), kk], SEQ(INT)), f))))(v0, f)
        elif one is not None:
            f = fun(one)
            done[v.id] = (lambda v0, f: lambda kk: Cat(v0, seq_map(elems(kk), f)))(v0, f)
        else:
            f = fun(g)
            done[v.id] = (lambda v0, f: lambda kk: Cat(v0, flat(elems(kk), f)))(v0, f)
    if left:
        if fuse:
            return iterate(*args)
        # joint fold
        eng.hard.add((loc, '%s: %s' % (loc[0], ', '.join(sorted(str(v.s) for v, _, _ in left)))))
        lid = {}
        for v, t, v0 in left:
            if mentions(t, kx):
                raise Unsupported('fold that uses the index: %s' % (v.s,))
        ss = TUP(*[v.s for v, _, _ in left]) if len(left) > 1 else left[0][0].s
        acc = fresh('acc', ss)
        m = {v.id: (TProj(acc, i) if len(left) > 1 else acc) for i, (v, _, _) in enumerate(left)}
        body = [replace(t, m) for _, t, _ in left]
        if any(mentions(b, names) for b in body):
            raise Unsupported('loop state with mixed dependencies')
        body = tup(*body) if len(left) > 1 else body[0]
        init = tup(*[v0 for _, _, v0 in left]) if len(left) > 1 else left[0][2]
        es = elems(n).s[1]
        if len(seqs) == 1:
            f = Lam([acc, xs[0]], body)
        else:
            z = fresh('x', es)
            f = Lam([acc, z], subst(body, {x.a[0]: TProj(z, i) for i, x in enumerate(xs)}))
        fold_ = lambda kk: Call('seq_fold', [elems(kk), init, f], ss)
        for i, (v, _, _) in enumerate(left):
            done[v.id] = (lambda i: lambda kk: TProj(fold_(kk), i) if len(left) > 1 else fold_(kk))(i)

    def state_at(kk):
        e = dict(env)
        if back is not None:
            m = {i: f(kk) for i, f in done.items()}
            for r, v in mod.items():
                e[r] = rebuild_like(v, back.env[r], m)
        return e
    # obligations of the body, and the exits, with the closed forms
    box = []

    def go():
        box.append(run(state_at(k)))
    eng.sub([], go, ([k], {x.a[0]: Idx(s, k) for s, x in zip(seqs, xs)}, And(Le(I(0), k), guard)))
    back2, exits = box[0]
    outs = []
    if exits:
        conds = []
        for _, s in exits:
            c = [p for p in s.pc if p not in base and p is not guard]
            conds.append(And(*c))
        E = Or(*conds)
        if unknowns(E, since):
            raise Unsupported('loop exit from a result known only by a postcondition')
        if mentions(E, kx):
            eng.hard.add((loc, '%s: exit' % loc[0]))
        if not mentions(E, kx) and len(seqs) == 1:
            f = Lam([xs[0]], Not(E))
            j = Call('seq_twn', [seqs[0], f], INT) if f.a[1] is not TRUE else n
        else:
            j = Call('seq_twn', [Call('rng', [I(0), n], SEQ(INT)), funk(Not(E))], INT)
        if back2 is None and E is TRUE:
            j = I(0)
        m = {k.a[0]: j}
        for s, x in zip(seqs, xs):
            m[x.a[0]] = Idx(s, j)
        for t, s in exits:
            pc2 = base + (Lt(j, n),) + tuple(subst(p, m) for p in s.pc if p not in base and p is not guard)
            e2 = {}
            known = decided([p for p in s.pc if p not in base and p is not guard])
            for r, v in s.env.items():
                e2[r] = submeta(v if v.meta or not known else replace(v, known), m)
            for r in iters:
                if r in e2 and e2[r].op == 'itk':
                    q = e2[r]
                    e2[r] = iter_(SubR(q.a[0], q.a[1], Len(q.a[0])))
            outs.append((t, State(pc2, e2)))
        npc = base + (Not(Lt(j, n)),)
    else:
        npc = base
    if back2 is None and not exits:
        npc = base
    e = state_at(n)
    return State(npc, e), outs


def decided(ps):
    """what the conditions of a path make true and false"""
    m, todo = {}, list(ps)
    while todo:
        p = todo.pop()
        if p is TRUE or p is FALSE:
            continue
        if p.op == 'not':
            m[p.a[0].id] = FALSE
            if p.a[0].op == 'or':
                todo += [Not(x) for x in p.a[0].a]
        elif p.op == 'and':
            todo += p.a
        m[p.id] = TRUE
    return m


def submeta(v, m):
    if not v.meta:
        return subst(v, m)
    if v.op == 'ptr':
        root, projs = v.a
        return mk('ptr', (root, tuple(tuple(subst(y, m) if isinstance(y, T) else y for y in p) for p in projs)), META)
    return subst(v, m)


def flat(s, f):
    from .lib import seq_map, seq_flat, seq_filter
    if f.op == 'lam' and f.a[1].op == 'ite' and f.a[1].s[1] != CHAR:
        # elements that meet a condition
        c, a, b = f.a[1].a
        for c, a, b in ((c, a, b), (Not(c), b, a)):
            e = lit_elems(b)
            one = single(a)
            if e is not None and not e and one is not None:
                return seq_map(seq_filter(s, Lam([f.a[0][0]], c)), Lam([f.a[0][0]], one))
    return seq_flat(seq_map(s, f))


def single(g):
    """g is always a one-element sequence: that element"""
    e = lit_elems(g)
    if e is not None:
        return e[0] if len(e) == 1 else None
    if g.op == 'ite':
        a, b = single(g.a[1]), single(g.a[2])
        if a is not None and b is not None:
            return Ite(g.a[0], a, b)
    return None


def loop(eng, fn, fid, an, h, L, st):
    from .lib import toseq
    env = st.env

    def body(e, pc):
        exits = []
        eng.region(fn, fid, an, {h: [State(pc, e)]}, exits, L, h)
        return exits
    # which iterators does one pass advance?
    iters = {}
    for _ in range(4):
        e = dict(env)
        for r in iters:
            s = iters[r]
            e[r] = itk(s, fresh('k', INT), fresh('x', s.s[1]), None)
        outs = nested(eng, lambda: body(dict(e), st.pc))
        new = []
        for t, s in outs:
            if t != h:
                continue
            for r, v in e.items():
                w = s.env.get(r)
                if r not in iters and w is not None and w is not v and v.op == 'iter':
                    new.append(r)
                if r in iters and w is not None and w.op == 'itk' and w is v:
                    raise Unsupported('iterator not advanced on every path')
        if not new:
            break
        for r in new:
            iters[r] = env[r].a[0]
    if not iters:
        k = eng.invariant(fn, h)
        if k is None:
            raise Unsupported('loop without iterator and without invariant')
        return while_(eng, fn, fid, an, h, L, st, body, k)
    roots = list(iters)

    def step(e, pc, k, xs, n):
        for r, x in zip(roots, xs):
            e[r] = itk(iters[r], k, x, n)
        outs = []
        for t, s in body(e, pc):
            if t == h:
                for r, x in zip(roots, xs):
                    w = s.env[r]
                    if w.op != 'itk' or w.a[1] is not Add(k, I(1)):
                        raise Unsupported('iterator advanced irregularly')
                s.env = dict(s.env)
                for r in roots:
                    s.env[r] = env[r]
                outs.append(('next', s))
            else:
                outs.append((t, s))
        return outs
    # the exit by exhaustion is executed separately, on the state after all iterations
    norm, outs = iterate(eng, [iters[r] for r in roots], env, st.pc, step, set(roots), (fn['name'], h))
    res = list(outs)
    if norm is not None and FALSE not in norm.pc:
        e = dict(norm.env)
        for r in roots:
            e[r] = mk('itend', (iters[r],), META)
        for t, s in body(e, norm.pc):
            if t == h:
                if FALSE in s.pc:
                    continue
                raise Unsupported('loop continues after exhaustion')
            s.env = dict(s.env)
            for r in roots:
                if r in s.env and s.env[r].op == 'itend':
                    s.env[r] = iter_(seqlit([], iters[r].s[1]))
            res.append((t, s))
    return res


def while_(eng, fn, fid, an, h, L, st, body, kinv):
    """a loop with an invariant from the contract: holds on entry, is kept by every iteration, which decreases the measure"""
    k, pos, inv = kinv
    env = st.env
    names = inv['vars'].split()
    line = fn['blocks'][h]['term']['line']

    def cur(e):
        out = []
        for n in names:
            r = [d for d in fn.get('dbg', []) if d[0] == n]
            if not r:
                raise Unsupported('no variable %s' % n)
            r = [d for d in r if (fid, d[1][0]) in e] or r      # of several variables with this name, the one in scope
            v = e.get((fid, r[0][1][0]))
            if v is None:
                raise Unsupported('variable %s is not live' % n)
            v = eng.autoderef(e, v)
            out.append(v)
        return out
    mod = {}
    for _ in range(MAXROUNDS):
        e = dict(env)
        e.update(mod)
        outs = nested(eng, lambda: body(dict(e), st.pc))
        new = []
        for t, s in outs:
            if t == h:
                new += [r for r in env if r in s.env and s.env[r] is not e[r] and r not in mod and r not in new]
        if not new:
            break
        for r in new:
            if env[r].meta:
                raise Unsupported('loop changes a tracked value (%s)' % env[r].op)
            mod[r] = fresh('w', env[r].s)
    else:
        raise Unsupported('loop state does not stabilise')
    f = lambda e: Call('i%d_%s' % (pos, k.id), list(eng.topargs) + cur(e), BOOL)
    d = lambda e: Call('m%d_%s' % (pos, k.id), list(eng.topargs) + cur(e), INT)
    k.invsorts = getattr(k, 'invsorts', {})
    k.invsorts[pos] = [v.s for v in cur(env)]
    eng.oblige('inv%d_entry' % pos, line, st.pc, f(env), inv['inv'])
    e = dict(env)
    e.update(mod)
    eng.fact(st.pc, f(e))
    res = []
    for t, s in body(dict(e), st.pc):
        if t != h:
            res.append((t, s))
            continue
        eng.oblige('inv%d_kept' % pos, line, s.pc, f(s.env), inv['inv'])
        eng.oblige('inv%d_decreases' % pos, line, s.pc, And(Le(I(0), d(s.env)), Lt(d(s.env), d(e))), inv['dec'])
    return res


def retain(eng, c, v, f, p):
    """retain with a predicate that has state"""
    eng.nframe += 1
    root = (eng.nframe, 'kept')
    env = dict(c.env)
    env[root] = seqlit([], v.s[1])

    def step(e, pc, k, xs, n):
        kept = e[root]
        r = eng.apply(f, [xs[0]], e, pc, c.line)
        if r is None:
            return []
        e2 = dict(r.env)
        ret = e2.pop('ret')
        e2[root] = Ite(ret, Cat(kept, seqlit([xs[0]], v.s[1])), kept)
        return [('next', State(r.pc, e2))]
    norm, outs = iterate(eng, [v], env, c.pc, step, (), ('retain', c.line))
    kept = norm.env.pop(root)
    eng.pwrite(norm.env, p, kept)
    norm.env['ret'] = EMPTY_TUP
    return norm


def closure_step(eng, c, f, args):
    def step(e, pc, k, xs, n):
        r = eng.apply(f, args(xs), e, pc, c.line)
        if r is None:
            return []
        r.env = dict(r.env)
        ret = r.env.pop('ret')
        return r, ret
    return step


def for_each(eng, c, s, f):
    def step(e, pc, k, xs, n):
        r = eng.apply(f, [xs[0]], e, pc, c.line)
        if r is None:
            return []
        e2 = dict(r.env)
        e2.pop('ret')
        return [('next', State(r.pc, e2))]
    norm, outs = iterate(eng, [s], c.env, c.pc, step, (), ('each', c.line))
    norm.env['ret'] = EMPTY_TUP
    return norm


def try_for_each(eng, c, s, f):
    def step(e, pc, k, xs, n):
        r = eng.apply(f, [xs[0]], e, pc, c.line)
        if r is None:
            return []
        e2 = dict(r.env)
        ret = e2.pop('ret')
        ok = Is('Ok', ret)
        e3 = dict(e2)
        e3['ret'] = ret
        return [('next', State(r.pc + ((ok,) if ok is not TRUE else ()), e2)),
                ('stop', State(r.pc + ((Not(ok),) if ok is not FALSE else ()), e3))]
    norm, outs = iterate(eng, [s], c.env, c.pc, step, (), ('each', c.line))
    norm.env['ret'] = Ctor(c.ds, 'Ok', EMPTY_TUP)
    return eng.merge([norm] + [x for _, x in outs])


def try_fold(eng, c, s, init, f):
    """a fold over the results: nothing happens any more after the first failure"""
    if c.ds[0] != 'D' or c.ds[1] not in ('Result', 'Option'):
        raise Unsupported('try_fold into %s' % (c.ds,))
    good = 'Ok' if c.ds[1] == 'Result' else 'Some'
    eng.nframe += 1
    root = (eng.nframe, 'acc')
    env = dict(c.env)
    env[root] = Ctor(c.ds, good, init)

    def step(e, pc, k, xs, n):
        acc = e.pop(root)
        ok = Is(good, acc)
        out = []
        if ok is not TRUE:
            e2 = dict(e)
            e2[root] = acc
            out.append(('next', State(pc + (Not(ok),), e2)))
        if ok is not FALSE:
            r = eng.apply(f, [Proj(good, 0, acc, init.s), xs[0]], dict(e), pc + ((ok,) if ok is not TRUE else ()), c.line)
            if r is not None:
                e2 = dict(r.env)
                e2[root] = e2.pop('ret')
                out.append(('next', State(r.pc, e2)))
        return out
    norm, outs = iterate(eng, [s], env, c.pc, step, (), ('fold', c.line))
    norm.env['ret'] = norm.env.pop(root)
    return norm


def fold(eng, c, s, init, f):
    eng.nframe += 1
    root = (eng.nframe, 'acc')
    env = dict(c.env)
    env[root] = init

    def step(e, pc, k, xs, n):
        acc = e.pop(root)
        r = eng.apply(f, [acc, xs[0]], e, pc, c.line)
        if r is None:
            return []
        e2 = dict(r.env)
        e2[root] = e2.pop('ret')
        return [('next', State(r.pc, e2))]
    norm, outs = iterate(eng, [s], env, c.pc, step, (), ('fold', c.line))
    norm.env['ret'] = norm.env.pop(root)
    return norm
