"""Hash-consed terms of the specification language (printed as Verus spec expressions)."""

BOOL = ('bool',)
INT = ('int',)
CHAR = ('char',)
META = ('meta',)
UNIT = ('Tup', ())


def SEQ(e):
    return ('Seq', e)


STR = SEQ(CHAR)


def TUP(*a):
    return ('Tup', tuple(a))


def D(name, *args):
    return ('D', name, tuple(args))


def OPT(s):
    return D('Option', s)


def RES(s, e):
    return D('Result', s, e)


class T:
    __slots__ = ('op', 'a', 's', 'id', 'fv', 'meta')

    def __repr__(self):
        return '<%s %s>' % (self.op, ' '.join(map(str, self.a)))


_tab = {}


def mk(op, a, s):
    a = tuple(a)
    key = (op, tuple(x.id if isinstance(x, T) else ('#', x) for x in a), s)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.s, t.id = op, a, s, len(_tab)
        m = s == META
        fv = frozenset()
        for x in a:
            if isinstance(x, T):
                fv |= x.fv
        if op == 'var':
            fv = frozenset([a[0]])
        elif op in ('lam', 'forall', 'exists'):
            fv = fv - frozenset(v.a[0] for v in a[0])
            fv |= (a[1].fv - frozenset(v.a[0] for v in a[0]))
        t.fv = fv
        t.meta = m
        _tab[key] = t
    return t


def reset():
    pass


def var(n, s):
    return mk('var', (n,), s)


_fresh = [0]


def fresh(prefix, s):
    _fresh[0] += 1
    return var('%s%d' % (prefix, _fresh[0]), s)


def unknowns(t, since):
    """mentions a result that is known only by a postcondition and was obtained since"""
    return any(n.rstrip('0123456789') in ('ret', 'post') and int(n[len(n.rstrip('0123456789')):]) > since for n in t.fv)


def I(n):
    return mk('int', (int(n),), INT)


def Bv(b):
    return mk('bool', (bool(b),), BOOL)


TRUE = Bv(True)
FALSE = Bv(False)


def chr_(c):
    return mk('chr', (int(c),), CHAR)


def str_(s):
    return mk('str', (s,), STR)


EMPTY_TUP = mk('tuple', (), UNIT)


def seqlit(elems, es):
    elems = tuple(elems)
    if es == CHAR and all(e.op == 'chr' for e in elems):
        return str_(''.join(chr(e.a[0]) for e in elems))
    return mk('seqlit', elems, SEQ(es))


def tup(*xs):
    return mk('tuple', xs, TUP(*[x.s for x in xs]))


def lit_elems(s):
    """elements of a literal sequence or None"""
    if s.op == 'str':
        return [chr_(ord(c)) for c in s.a[0]]
    if s.op == 'seqlit':
        return list(s.a)
    return None


# ---- booleans -------------------------------------------------------------------------------

def Not(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == 'not':
        return x.a[0]
    return mk('not', (x,), BOOL)


def And(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.a if x.op == 'and' else (x,)):
            if y is TRUE or y.id in seen:
                continue
            if y is FALSE or Not(y).id in seen:
                return FALSE
            seen.add(y.id)
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', out, BOOL)


def Or(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.a if x.op == 'or' else (x,)):
            if y is FALSE or y.id in seen:
                continue
            if y is TRUE or Not(y).id in seen:
                return TRUE
            seen.add(y.id)
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', out, BOOL)


def Imp(a, b):
    if a is TRUE:
        return b
    if a is FALSE or b is TRUE:
        return TRUE
    if b is FALSE:
        return Not(a)
    return mk('imp', (a, b), BOOL)


def distinct_lits(a, b):
    """True if a and b are certainly different values"""
    if a.op == b.op and a.op in ('int', 'chr', 'bool', 'str') and a is not b:
        return True
    if a.op == 'ctor' and b.op == 'ctor':
        if a.a[0] != b.a[0]:
            return True
        return any(distinct_lits(x, y) for x, y in zip(a.a[1:], b.a[1:]))
    return False


def Eq(a, b):
    if a is b:
        return TRUE
    if distinct_lits(a, b):
        return FALSE
    if a.s == BOOL:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return Not(b)
        if b is FALSE:
            return Not(a)
    if a.op == 'ctor' and b.op == 'ctor' and a.a[0] == b.a[0]:
        return And(*[Eq(x, y) for x, y in zip(a.a[1:], b.a[1:])])
    for x, y in ((a, b), (b, a)):
        if x.op == 'ctor' and len(x.a) == 1 and y.op != 'ctor':
            return Is(x.a[0], y)
        if x.op == 'ctor' and y.op == 'ite' and (y.a[1].op == 'ctor' or y.a[2].op == 'ctor'):
            return Ite(y.a[0], Eq(y.a[1], x), Eq(y.a[2], x))
        if x.op in ('str', 'int', 'chr') and y.op == 'ite' and (y.a[1].op == x.op or y.a[2].op == x.op):
            return Ite(y.a[0], Eq(y.a[1], x), Eq(y.a[2], x))
        if x.op in ('str', 'seqlit') and not lit_elems(x):
            if y.op == 'cat':
                return And(*[Eq(z, x) for z in y.a])
            if y.s[0] == 'Seq':
                return Eq(Len(y), I(0))
    if a.op == 'tuple' and b.op == 'tuple':
        return And(*[Eq(x, y) for x, y in zip(a.a, b.a)])
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), BOOL)


def Ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return Ite(c.a[0], b, a)
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.s == BOOL and b.s == BOOL:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return Not(c)
        if a is TRUE:
            return Or(c, b)
        if b is FALSE:
            return And(c, a)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
    # merge iterators / wrappers over sequences
    if a.op == 'iter' and b.op == 'iter':
        return mk('iter', (Ite(c, a.a[0], b.a[0]),), META)
    if a.op == 'tuple' and b.op == 'tuple' and len(a.a) == len(b.a):
        return tup(*[Ite(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op == 'ctor' and b.op == 'ctor' and a.a[0] == b.a[0] and len(a.a) > 1:
        return mk('ctor', (a.a[0],) + tuple(Ite(c, x, y) for x, y in zip(a.a[1:], b.a[1:])), a.s)
    s = a.s if a.s != META else b.s
    return mk('ite', (c, a, b), META if (a.meta or b.meta) else s)


# ---- datatypes ------------------------------------------------------------------------------

def Ctor(sort, variant, *fields):
    return mk('ctor', (variant,) + tuple(fields), sort)


def Is(variant, t):
    if t.op == 'ctor':
        return Bv(t.a[0] == variant)
    if t.op == 'ite' and _has_ctor(t):
        return Ite(t.a[0], Is(variant, t.a[1]), Is(variant, t.a[2]))
    if single_variant(t.s):
        return TRUE
    return mk('is', (variant, t), BOOL)


_single = {}


def single_variant(s):
    return s[0] == 'D' and _single.get(s[1], False)


def _has_ctor(t):
    while t.op == 'ite':
        if t.a[1].op == 'ctor' or t.a[2].op == 'ctor':
            return True
        if t.a[1].op == 'ite' and _has_ctor(t.a[1]):
            return True
        t = t.a[2]
    return False


def Proj(variant, idx, t, fsort):
    if t.op == 'ctor':
        if t.a[0] == variant:
            return t.a[1 + idx]
        return mk('proj', (variant, idx, t), fsort)
    if t.op == 'ite':
        a, b = t.a[1], t.a[2]
        ia, ib = Is(variant, a), Is(variant, b)
        if ia is FALSE and ib is not FALSE:
            return Proj(variant, idx, b, fsort)
        if ib is FALSE and ia is not FALSE:
            return Proj(variant, idx, a, fsort)
        if _has_ctor(t):
            return Ite(t.a[0], Proj(variant, idx, a, fsort), Proj(variant, idx, b, fsort))
    return mk('proj', (variant, idx, t), fsort)


def Some(x):
    return Ctor(OPT(x.s), 'Some', x)


def None_(s):
    return Ctor(OPT(s), 'None')


def TProj(t, i):
    if t.op == 'tuple':
        return t.a[i]
    if t.op == 'ite':
        return Ite(t.a[0], TProj(t.a[1], i), TProj(t.a[2], i))
    return mk('tproj', (t, i), t.s[1][i])


# ---- integers -------------------------------------------------------------------------------

def Add(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.a[0] + b.a[0])
    if a.op == 'int' and a.a[0] == 0:
        return b
    if b.op == 'int' and b.a[0] == 0:
        return a
    return mk('add', (a, b), INT)


def Sub(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.a[0] - b.a[0])
    if b.op == 'int' and b.a[0] == 0:
        return a
    if a is b:
        return I(0)
    return mk('sub', (a, b), INT)


def Mul(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.a[0] * b.a[0])
    return mk('mul', (a, b), INT)


def Lt(a, b):
    if a.op == 'int' and b.op == 'int':
        return Bv(a.a[0] < b.a[0])
    if a.op == 'chr' and b.op == 'chr':
        return Bv(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    return mk('lt', (a, b), BOOL)


def Le(a, b):
    if a.op == 'int' and b.op == 'int':
        return Bv(a.a[0] <= b.a[0])
    if a.op == 'chr' and b.op == 'chr':
        return Bv(a.a[0] <= b.a[0])
    if a.op == 'int' and a.a[0] == 0 and b.op == 'len':
        return TRUE
    if a is b:
        return TRUE
    return mk('le', (a, b), BOOL)


# ---- sequences ------------------------------------------------------------------------------

def Len(s):
    e = lit_elems(s)
    if e is not None:
        return I(len(e))
    if s.op == 'upd':
        return Len(s.a[0])
    if s.op == 'cat':
        r = I(0)
        for x in s.a:
            r = Add(r, Len(x))
        return r
    if s.op == 'call' and s.a[0] == 'rng' and s.a[1].op == 'int' and s.a[1].a[0] == 0 and s.a[2].op == 'len':
        return s.a[2]
    if s.op == 'call' and s.a[0] in ('seq_map', 'seq_rev'):
        return Len(s.a[1])
    return mk('len', (s,), INT)


def Idx(s, i):
    e = lit_elems(s)
    if e is not None and i.op == 'int' and 0 <= i.a[0] < len(e):
        return e[i.a[0]]
    if s.op == 'call' and s.a[0] == 'rng':
        return Add(s.a[1], i)
    if s.op == 'ite' and (lit_elems(s.a[1]) is not None or lit_elems(s.a[2]) is not None):
        return Ite(s.a[0], Idx(s.a[1], i), Idx(s.a[2], i))
    return mk('idx', (s, i), s.s[1])


def Cat(*xs):
    out = []
    s = None
    for x in xs:
        s = s or x.s
        for y in (x.a if x.op == 'cat' else (x,)):
            e = lit_elems(y)
            if e is not None and not e:
                continue
            if e is not None and out and lit_elems(out[-1]) is not None:
                out[-1] = seqlit(lit_elems(out[-1]) + e, y.s[1])
            else:
                out.append(y)
    if not out:
        return seqlit([], s[1])
    if len(out) == 1:
        return out[0]
    return mk('cat', out, s)


def SubR(s, a, b):
    e = lit_elems(s)
    if e is not None and a.op == 'int' and b.op == 'int' and 0 <= a.a[0] <= b.a[0] <= len(e):
        return seqlit(e[a.a[0]:b.a[0]], s.s[1])
    if a.op == 'int' and a.a[0] == 0 and b is Len(s):
        return s
    return mk('subr', (s, a, b), s.s)


def Upd(s, i, v):
    return mk('upd', (s, i, v), s.s)


def Call(f, args, s):
    return mk('call', (f,) + tuple(args), s)


def bdepth(t, memo={}):
    """nesting depth of binders inside t"""
    r = memo.get(t.id)
    if r is None:
        r = 0
        if t.op in ('lam', 'forall', 'exists'):
            r = 1 + bdepth(t.a[1])
        else:
            for x in t.a:
                if isinstance(x, T):
                    r = max(r, bdepth(x))
        memo[t.id] = r
    return r


def _canon(vs, body):
    """alpha-canonical binder: bound variables are named after the binder depth of the body"""
    d = bdepth(body)
    nv = [var('q%d_%d' % (d, i), v.s) for i, v in enumerate(vs)]
    m = {v.a[0]: n for v, n in zip(vs, nv) if v is not n}
    if m:
        body = subst(body, m)
    return tuple(nv), body


def Lam(vs, body):
    vs, body = _canon(vs, body)
    return mk('lam', (vs, body), ('Fn', tuple(v.s for v in vs), body.s))


def Beta(lam, args):
    if lam.op == 'lam':
        return subst(lam.a[1], {v.a[0]: x for v, x in zip(lam.a[0], args)})
    return mk('apply', (lam,) + tuple(args), lam.s[2])


def ForAll(vs, body):
    vs = tuple(v for v in vs if v.a[0] in body.fv)
    if body is TRUE or not vs:
        return body
    if body.op == 'imp' and body.a[1].op == 'forall':       # one quantifier, so that it has triggers
        ws, b = body.a[1].a
        ns = [fresh('z', w.s) for w in ws]
        return ForAll(vs + tuple(ns), Imp(body.a[0], subst(b, {w.a[0]: n for w, n in zip(ws, ns)})))
    return mk('forall', _canon(vs, body), BOOL)


def Exists(vs, body):
    if body is FALSE:
        return FALSE
    return mk('exists', _canon(vs, body), BOOL)


def subst(t, m, memo=None):
    """m: var name -> T"""
    if memo is None:
        memo = {}
    if not (t.fv & m.keys()):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'var':
        r = m[t.a[0]]
    elif t.op in ('lam', 'forall', 'exists'):
        vs, b = t.a
        m2 = {k: v for k, v in m.items() if k not in {x.a[0] for x in vs}}
        b2 = subst(b, m2, {})
        r = Lam(vs, b2) if t.op == 'lam' else (ForAll(vs, b2) if t.op == 'forall' else Exists(vs, b2))
    else:
        a = [subst(x, m, memo) if isinstance(x, T) else x for x in t.a]
        r = rebuild(t.op, a, t.s)
    memo[t.id] = r
    return r


def rebuild(op, a, s):
    f = {'not': Not, 'and': And, 'or': Or, 'imp': Imp, 'eq': Eq, 'ite': Ite, 'add': Add, 'sub': Sub, 'mul': Mul,
         'lt': Lt, 'le': Le, 'len': Len, 'idx': Idx, 'cat': Cat, 'subr': SubR, 'upd': Upd, 'is': Is,
         'tproj': TProj}.get(op)
    if f:
        return f(*a)
    if op == 'proj':
        return Proj(a[0], a[1], a[2], s)
    if op == 'seqlit':
        return seqlit(a, s[1])
    return mk(op, a, s)


def restrict(t, c, b, memo=None):
    """t under the assumption that the condition c is b"""
    if memo is None:
        memo = {c.id: Bv(b), Not(c).id: Bv(not b)}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op in ('lam', 'forall', 'exists'):
        if not t.fv & c.fv:
            r = t
        else:
            body = restrict(t.a[1], c, b, memo)
            r = t if body is t.a[1] else {'lam': Lam, 'forall': ForAll, 'exists': Exists}[t.op](t.a[0], body)
    elif b and c.op == 'is' and t.op == 'is' and t.a[1] is c.a[1]:
        r = Bv(t.a[0] == c.a[0])
    else:
        a = [restrict(x, c, b, memo) if isinstance(x, T) else x for x in t.a]
        r = t if all(x is y for x, y in zip(a, t.a)) else rebuild(t.op, a, t.s)
    memo[t.id] = r
    return r


def atom(c):
    while c.op in ('not', 'and', 'or', 'imp') or (c.op == 'ite'):
        c = c.a[0]
    return c


def first_cond(t):
    """a condition the shape of t depends on"""
    if t.op == 'ite':
        return atom(t.a[0])
    if t.op in ('ctor', 'tuple', 'cat'):
        for x in t.a:
            if isinstance(x, T):
                c = first_cond(x)
                if c is not None:
                    return c
    return None


def cases(t, limit=200):
    """[(conditions, t under them)]"""
    out = []
    todo = [((), t)]
    while todo:
        cs, x = todo.pop()
        c = first_cond(x)
        if c is None or len(out) + len(todo) > limit:
            out.append((cs, x))
            continue
        for b in (False, True):
            cb = c if b else Not(c)
            if Not(cb) in cs or any(restrict(y, c, b) is FALSE for y in cs):
                continue
            todo.append((cs + (cb,), restrict(x, c, b)))
    return out
