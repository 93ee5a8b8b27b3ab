"""Models (assumed contracts) of the library functions the engine calls.

Every entry is part of the trusted base and is listed by name in the evidence when it is used.
"""
from . import terms as tm
from .terms import *
from .mir import Unsupported
from .exec import iter_, ptr, State

LIB = {}
TOK = D('Tok')
TS = SEQ(TOK)


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


def val(c, i):
    """argument i with &mut pointers read through"""
    return c.eng.autoderef(c.env, c.args[i])


def toseq(c, v):
    if v.op == 'ptr':
        v = c.eng.pread(c.env, v)
    if v.op == 'iter':
        return v.a[0]
    if v.op == 'itk':
        return SubR(v.a[0], v.a[1], Len(v.a[0]))
    if v.op == 'itend':
        return seqlit([], v.a[0].s[1])
    if v.op == 'ctor' and v.a[0] == 'Range':
        return Call('rng', [v.a[1], v.a[2]], SEQ(INT))
    if v.op == 'ctor' and v.a[0] == 'RangeInclusive':
        return Call('rng', [v.a[1], Add(v.a[2], I(1))], SEQ(INT))
    if v.op == 'ite' and v.meta:
        return Ite(v.a[0], toseq(c, v.a[1]), toseq(c, v.a[2]))
    if v.s[0] == 'Seq':
        return v
    if v.s[0] == 'D' and v.s[1] == 'Option':
        es = v.s[2][0]
        return Ite(Is('Some', v), seqlit([Proj('Some', 0, v, es)], es), seqlit([], es))
    if v.s[0] == 'Set':
        return Call('set_seq', [v], SEQ(v.s[1]))
    if v.s[0] == 'Map':
        return Call('map_seq', [v], SEQ(TUP(v.s[1], v.s[2])))
    raise Unsupported('iteration over %s' % v.op)


def endless(c, v):
    """what an iterator without end gives before its counter overflows, as a sequence"""
    if v.op == 'ptr':
        v = c.eng.pread(c.env, v)
    if v.op == 'endless':
        return v.a[0]
    if v.op == 'ctor' and v.a[0] == 'RangeFrom':
        # the counter of the smallest type that is used here (i32); a larger type only overflows later
        return Call('rng', [v.a[1], I(2**31)], SEQ(INT))
    return None


def S(c, i=0):
    return toseq(c, c.args[i])


def lamof(c, f, seq, post=None, sorts=None):
    return c.eng.lam(f, sorts or [seq.s[1]], c.env, c.pc, c.line, seq=seq if sorts is None else None, post=post)


def each(c, f, seq, post=None):
    """apply f to the elements of a literal sequence"""
    out = []
    for e in lit_elems(seq):
        r = c.eng.apply(f, [e], c.env, c.pc, c.line)
        if r is None:
            raise Unsupported('diverging closure')
        v = r.env.pop('ret')
        for k_, v_ in c.env.items():
            w = r.env.get(k_)
            if w is not None and w is not v_:
                raise Unsupported('closure with side effects')
        out.append(post(v) if post else v)
    return out


def is_lit(s):
    return lit_elems(s) is not None and len(lit_elems(s)) <= 40


# ---- identity-like -----------------------------------------------------------------------------
IDENT = '''std::clone::Clone::clone std::borrow::ToOwned::to_owned std::ops::Deref::deref std::convert::AsRef::as_ref
std::borrow::Borrow::borrow std::string::String::as_str std::vec::Vec::<T,_A>::as_slice std::rc::Rc::<T>::new std::boxed::Box::<T>::new
core::str::<impl_str>::as_bytes std::vec::Vec::<T,_A>::into_boxed_slice
std::slice::<impl_[T]>::to_vec core::slice::<impl_[T]>::as_ref std::hint::must_use std::convert::identity
std::option::Option::<&T>::cloned std::option::Option::<&T>::copied std::option::Option::<T>::as_ref std::option::Option::<T>::as_deref
std::result::Result::<T,_E>::as_ref std::boxed::Box::<T,_A>::into_inner std::mem::drop_ std::borrow::Cow::<'_,_B>::into_owned
std::string::String::into_boxed_str std::boxed::box_assume_init_into_vec_unsafe std::vec::Vec::<T,_A>::as_ref
std::iter::Iterator::by_ref std::iter::Iterator::peekable std::rc::Rc::<T,_A>::as_ref'''.split()
IDENT = [x.replace('_[', ' [').replace(',_', ', ').replace('<impl_', '<impl ') for x in IDENT]


@lib(*IDENT)
def _ident(c):
    v = c.args[0]
    if v.op == 'ptr' and c.name not in ('std::iter::Iterator::by_ref',):
        v = c.eng.pread(c.env, v)
    return v


@lib('std::ops::DerefMut::deref_mut', 'std::convert::AsMut::as_mut')
def _ident_mut(c):
    return c.args[0]


@lib('std::convert::Into::into', 'std::convert::From::from')
def _into(c):
    v = val(c, 0)
    if v.s == c.ds or c.ds == META:
        return v
    if c.ds == D('Err'):
        return Call('err_from', [v], c.ds) if v.s != D('Err') else v
    if c.ds[0] == 'D' and c.ds[1] == 'Option' and c.ds[2][0] == v.s:
        return Some(v)
    if c.ds == STR and v.s == CHAR:
        return seqlit([v], CHAR)
    if c.ds == INT and v.s == BOOL:
        return Ite(v, I(1), I(0))
    # blanket Into: dispatch to the local From impl
    if c.name == 'std::convert::Into::into':
        a = [x for x in c.j.get('args', []) if isinstance(x, int)]
        if len(a) == 2:
            src, dst = c.eng.mir.types[a[0]]['s'], c.eng.mir.types[a[1]]['s']
            n = '<%s as std::convert::From<%s>>::from' % (dst, src)
            b = c.eng.mir.fns.get(n)
            if b is not None:
                k = c.eng.contracts.get(n)
                if k is not None and not k.inline:
                    c.args = [v]
                    return c.eng.bycontract(k, c)
                c.eng.inlined.add(n)
                return c.eng.run(b, [v], c.env, c.pc)
    raise Unsupported('conversion %s -> %s' % (v.s, c.ds))


@lib('std::convert::TryInto::try_into')
def _try_into(c):
    a = [x for x in c.j.get('args', []) if isinstance(x, int)]
    src, dst = c.eng.mir.types[a[0]]['s'], c.eng.mir.types[a[1]]['s']
    for n, b in c.eng.mir.fns.items():
        if n.endswith('<impl std::convert::TryFrom<%s> for %s>::try_from' % (src, dst)) or \
           n == '<%s as std::convert::TryFrom<%s>>::try_from' % (dst, src):
            k = c.eng.contracts.get(n)
            if k is not None and not k.inline:
                return c.eng.bycontract(k, c)
            c.eng.inlined.add(n)
            return c.eng.run(b, [val(c, 0)], c.env, c.pc)
    raise Unsupported('TryInto %s -> %s' % (src, dst))


@lib('std::cmp::PartialEq::eq')
def _eq(c):
    return veq(c, val(c, 0), val(c, 1))


@lib('std::cmp::PartialEq::ne')
def _ne(c):
    return Not(veq(c, val(c, 0), val(c, 1)))


def veq(c, a, b):
    if a.op == 'iter':
        a = a.a[0]
    if b.op == 'iter':
        b = b.a[0]
    if a.meta or b.meta:
        raise Unsupported('comparison of %s and %s' % (a.op, b.op))
    for x, y in ((a, b), (b, a)):
        e = lit_elems(x)
        if x.s == y.s and e is not None and not e and y.op == 'cat':
            pass
    if a.s != b.s:
        # Option<&str> vs Option<String> etc. have the same sort; anything else is unexpected
        raise Unsupported('comparison of sorts %s and %s' % (a.s, b.s))
    return Eq(a, b)


# ---- Option / Result -----------------------------------------------------------------------------
def osort(v):
    return v.s[2][0] if v.s[0] == 'D' and v.s[2] else META


def esort(v):
    return v.s[2][1] if v.s[0] == 'D' and len(v.s[2]) > 1 else META


def unS(v):
    return Proj('Some', 0, v, osort(v))


def unOk(v):
    return Proj('Ok', 0, v, osort(v))


def unErr(v):
    return Proj('Err', 0, v, esort(v))


@lib('std::option::Option::<T>::is_some')
def _(c):
    return Is('Some', val(c, 0))


@lib('std::option::Option::<T>::is_none')
def _(c):
    return Not(Is('Some', val(c, 0)))


@lib('std::result::Result::<T, E>::is_ok')
def _(c):
    return Is('Ok', val(c, 0))


@lib('std::result::Result::<T, E>::is_err')
def _(c):
    return Not(Is('Ok', val(c, 0)))


@lib('std::result::Result::<T, E>::ok')
def _(c):
    v = val(c, 0)
    return Ite(Is('Ok', v), Some(unOk(v)), None_(osort(v)))


@lib('std::result::Result::<T, E>::err')
def _(c):
    v = val(c, 0)
    return Ite(Is('Ok', v), None_(esort(v)), Some(unErr(v)))


def branch(c, cond, fthen, felse, sort=None):
    """run two alternatives (returning State or None) and merge"""
    outs = []
    for cc, f in ((cond, fthen), (Not(cond), felse)):
        if cc is FALSE or Not(cc) in c.pc:
            continue
        pc = c.pc + ((cc,) if cc is not TRUE else ())
        r = f(dict(c.env), pc)
        if r is None:
            continue
        if not isinstance(r, State):
            e = dict(c.env)
            e['ret'] = r
            r = State(pc, e)
        outs.append(r)
    return c.eng.merge(outs)


def ap(c, f, args, env, pc, post=None):
    r = c.eng.apply(f, args, env, pc, c.line)
    if r is not None and post is not None:
        r.env['ret'] = post(r.env['ret'])
    return r


@lib('std::option::Option::<T>::unwrap', 'std::option::Option::<T>::expect')
def _(c):
    v = val(c, 0)
    c.eng.oblige('unwrap', c.line, c.pc, Is('Some', v), c.name)
    c.eng.fact(c.pc, Is('Some', v))
    return unS(v)


@lib('std::result::Result::<T, E>::unwrap', 'std::result::Result::<T, E>::expect')
def _(c):
    v = val(c, 0)
    c.eng.oblige('unwrap', c.line, c.pc, Is('Ok', v), c.name)
    c.eng.fact(c.pc, Is('Ok', v))
    return unOk(v)


@lib('std::option::Option::<T>::unwrap_or')
def _(c):
    v = val(c, 0)
    return Ite(Is('Some', v), unS(v), c.args[1])


@lib('std::result::Result::<T, E>::unwrap_or')
def _(c):
    v = val(c, 0)
    return Ite(Is('Ok', v), unOk(v), c.args[1])


def default(s):
    if s[0] == 'Seq':
        return seqlit([], s[1])
    if s == INT:
        return I(0)
    if s == BOOL:
        return FALSE
    if s[0] == 'D' and s[1] == 'Option':
        return None_(s[2][0])
    if s[0] == 'Tup':
        return tup(*[default(x) for x in s[1]]) if s[1] else EMPTY_TUP
    if s[0] == 'Map':
        return Call('map_empty', [], s)
    if s[0] == 'Set':
        return Call('set_empty', [], s)
    return None


@lib('std::default::Default::default', 'std::vec::Vec::<T>::new', 'std::string::String::new', 'std::vec::Vec::<T>::with_capacity',
     'std::string::String::with_capacity', 'proc_macro2::TokenStream::new', 'std::collections::HashMap::<K, V>::new',
     'std::collections::HashSet::<T>::new')
def _default(c):
    v = default(c.ds)
    if v is None:
        raise Unsupported('Default of %s' % (c.ds,))
    return v


@lib('std::option::Option::<T>::unwrap_or_default', 'std::result::Result::<T, E>::unwrap_or_default')
def _(c):
    v = val(c, 0)
    vn = 'Some' if v.s[1] == 'Option' else 'Ok'
    s = osort(v)
    d = default(s)
    if d is None and s[0] == 'D':
        # local Default impl
        for n, b in c.eng.mir.fns.items():
            if n.endswith('::' + s[1] + ' as std::default::Default>::default'):
                r = c.eng.run(b, [], c.env, c.pc)
                d = r.env['ret']
    if d is None:
        raise Unsupported('Default of %s' % (s,))
    return Ite(Is(vn, v), Proj(vn, 0, v, s), d)


@lib('std::option::Option::<T>::unwrap_or_else')
def _(c):
    v = val(c, 0)
    return branch(c, Is('Some', v), lambda e, p: unS(v), lambda e, p: ap(c, c.args[1], [], e, p))


@lib('std::result::Result::<T, E>::unwrap_or_else')
def _(c):
    v = val(c, 0)
    return branch(c, Is('Ok', v), lambda e, p: unOk(v), lambda e, p: ap(c, c.args[1], [unErr(v)], e, p))


@lib('std::option::Option::<T>::map')
def _(c):
    v = val(c, 0)
    # the None sort is only known after the closure ran
    box = []

    def th(e, p):
        r = ap(c, c.args[1], [unS(v)], e, p, Some)
        if r is not None:
            box.append(osort(r.env['ret']))
        return r
    if Is('Some', v) is FALSE:
        return None_(c.ds[2][0] if c.ds != META and c.ds[0] == 'D' else META)
    return branch(c, Is('Some', v), th, lambda e, p: None_(box[0] if box else c.ds[2][0]))


@lib('std::result::Result::<T, E>::map')
def _(c):
    v = val(c, 0)
    es = esort(v)
    box = []

    def th(e, p):
        r = ap(c, c.args[1], [unOk(v)], e, p, lambda x: Ctor(RES(x.s, es), 'Ok', x))
        if r is not None:
            box.append(osort(r.env['ret']))
        return r
    return branch(c, Is('Ok', v), th,
                  lambda e, p: Ctor(RES(box[0] if box else c.ds[2][0], es), 'Err', unErr(v)))


@lib('std::result::Result::<T, E>::map_err')
def _(c):
    v = val(c, 0)
    es = c.ds[2][1]
    return branch(c, Is('Ok', v), lambda e, p: Ctor(RES(osort(v), es), 'Ok', unOk(v)),
                  lambda e, p: ap(c, c.args[1], [unErr(v)], e, p, lambda x: Ctor(RES(osort(v), es), 'Err', x)))


@lib('std::option::Option::<T>::and_then')
def _(c):
    v = val(c, 0)
    return branch(c, Is('Some', v), lambda e, p: ap(c, c.args[1], [unS(v)], e, p), lambda e, p: None_(c.ds[2][0]))


@lib('std::result::Result::<T, E>::and_then')
def _(c):
    v = val(c, 0)
    return branch(c, Is('Ok', v), lambda e, p: ap(c, c.args[1], [unOk(v)], e, p),
                  lambda e, p: Ctor(c.ds, 'Err', unErr(v)))


@lib('std::result::Result::<T, E>::or_else')
def _(c):
    v = val(c, 0)
    return branch(c, Is('Ok', v), lambda e, p: Ctor(c.ds, 'Ok', unOk(v)), lambda e, p: ap(c, c.args[1], [unErr(v)], e, p))


@lib('std::option::Option::<T>::or_else')
def _(c):
    v = val(c, 0)
    return branch(c, Is('Some', v), lambda e, p: v, lambda e, p: ap(c, c.args[1], [], e, p))


@lib('std::option::Option::<T>::or')
def _(c):
    v = val(c, 0)
    return Ite(Is('Some', v), v, c.args[1])


@lib('std::option::Option::<T>::ok_or', )
def _(c):
    v = val(c, 0)
    return Ite(Is('Some', v), Ctor(c.ds, 'Ok', unS(v)), Ctor(c.ds, 'Err', c.args[1]))


@lib('std::option::Option::<T>::filter')
def _(c):
    v = val(c, 0)
    return branch(c, Is('Some', v),
                  lambda e, p: ap(c, c.args[1], [unS(v)], e, p, lambda b: Ite(b, v, None_(osort(v)))), lambda e, p: v)


@lib('std::option::Option::<T>::map_or')
def _(c):
    v = val(c, 0)
    return branch(c, Is('Some', v), lambda e, p: ap(c, c.args[2], [unS(v)], e, p), lambda e, p: c.args[1])


@lib('std::option::Option::<T>::map_or_else')
def _(c):
    v = val(c, 0)
    return branch(c, Is('Some', v), lambda e, p: ap(c, c.args[2], [unS(v)], e, p), lambda e, p: ap(c, c.args[1], [], e, p))


@lib('std::option::Option::<T>::is_some_and')
def _(c):
    v = val(c, 0)
    return branch(c, Is('Some', v), lambda e, p: ap(c, c.args[1], [unS(v)], e, p), lambda e, p: FALSE)


@lib('std::option::Option::<T>::is_none_or')
def _(c):
    v = val(c, 0)
    return branch(c, Is('Some', v), lambda e, p: ap(c, c.args[1], [unS(v)], e, p), lambda e, p: TRUE)


@lib('std::result::Result::<T, E>::is_ok_and')
def _(c):
    v = val(c, 0)
    return branch(c, Is('Ok', v), lambda e, p: ap(c, c.args[1], [unOk(v)], e, p), lambda e, p: FALSE)


@lib('std::ops::Try::branch')
def _(c):
    v = val(c, 0)
    if v.s[1] == 'Option':
        s = D('ControlFlow', osort(v), v.s)
        return Ite(Is('Some', v), Ctor(s, 'Continue', unS(v)), Ctor(s, 'Break', None_(osort(v))))
    rs = RES(D('Infallible'), esort(v))
    s = D('ControlFlow', osort(v), rs)
    return Ite(Is('Ok', v), Ctor(s, 'Continue', unOk(v)), Ctor(s, 'Break', Ctor(rs, 'Err', unErr(v))))


@lib('std::ops::FromResidual::from_residual')
def _(c):
    v = val(c, 0)
    if c.ds[1] == 'Option':
        return None_(c.ds[2][0])
    e = unErr(v)
    return Ctor(c.ds, 'Err', e)


@lib('std::option::Option::<T>::as_mut')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    q = ptr(p.a[0], p.a[1] + (('f', 'adt', 'Some', 0, osort(v)),))
    return Ite(Is('Some', v), mk('ctor', ('Some', q), OPT(META)), mk('ctor', ('None',), OPT(META)))


@lib('std::option::Option::<T>::take')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    c.eng.pwrite(c.env, p, None_(osort(v)))
    return v


@lib('std::mem::replace')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    c.eng.pwrite(c.env, p, c.args[1])
    return v


@lib('std::mem::take')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    d = default(v.s)
    if d is None:
        raise Unsupported('mem::take')
    c.eng.pwrite(c.env, p, d)
    return v


@lib('std::mem::swap')
def _(c):
    a, b = c.eng.pread(c.env, c.args[0]), c.eng.pread(c.env, c.args[1])
    c.eng.pwrite(c.env, c.args[0], b)
    c.eng.pwrite(c.env, c.args[1], a)
    return EMPTY_TUP


@lib('std::mem::drop')
def _(c):
    return EMPTY_TUP


# ---- iterators -----------------------------------------------------------------------------------
@lib('std::iter::IntoIterator::into_iter', 'core::slice::<impl [T]>::iter', 'std::vec::Vec::<T, A>::iter',
     'core::str::<impl str>::chars', 'std::option::Option::<T>::into_iter', 'std::option::Option::<T>::iter',
     'std::iter::Iterator::cloned', 'std::iter::Iterator::copied', 'std::iter::Iterator::fuse',
     'std::collections::HashMap::<K, V, S>::iter', 'std::collections::HashSet::<T, S>::iter')
def _(c):
    v = val(c, 0)
    if v.op in ('rep', 'iter', 'itk', 'itend'):
        return v
    return iter_(toseq(c, v))


@lib('std::iter::repeat')
def _(c):
    return mk('rep', (c.args[0],), META)


@lib('std::vec::from_elem')
def _(c):
    return Call('seq_repeat', [c.args[0], c.args[1]], SEQ(c.args[0].s))


@lib('std::iter::repeat_n')
def _(c):
    return iter_(Call('seq_repeat', [c.args[0], c.args[1]], SEQ(c.args[0].s)))


@lib('std::iter::once')
def _(c):
    return iter_(seqlit([c.args[0]], c.args[0].s))


@lib('std::iter::empty')
def _(c):
    a = [x for x in c.j['args'] if isinstance(x, int)]
    return iter_(seqlit([], c.eng.mir.sort(a[0])))


@lib('std::iter::Iterator::map')
def _(c):
    if c.args[0].op == 'rep':
        r = c.eng.apply(c.args[1], [c.args[0].a[0]], c.env, c.pc, c.line)
        return mk('rep', (r.env['ret'],), META)
    e = endless(c, c.args[0])
    if e is not None:
        return mk('endless', (seq_map(e, lamof(c, c.args[1], e)),), META)
    s = S(c)
    if is_lit(s):
        e = each(c, c.args[1], s)
        if e:
            return iter_(seqlit(e, e[0].s))
    f = lamof(c, c.args[1], s)
    return iter_(seq_map(s, f))


def seq_map(s, f):
    """normal form: maps are fused, so that map(map(s,f),g) and map(s, g.f) are the same term"""
    if s.op == 'call' and s.a[0] == 'seq_map':
        x = fresh('x', s.a[1].s[1])
        f = Lam([x], Beta(f, [Beta(s.a[2], [x])]))
        s = s.a[1]
    if s.op == 'ite':
        return Ite(s.a[0], seq_map(s.a[1], f), seq_map(s.a[2], f))
    if f.op == 'lam' and f.a[1] is f.a[0][0]:
        return s
    e = lit_elems(s)
    if e is not None and len(e) <= 40:
        return seqlit([Beta(f, [x]) for x in e], f.s[2])
    if s.op == 'cat':
        return Cat(*[seq_map(x, f) for x in s.a])
    return Call('seq_map', [s, f], SEQ(f.s[2]))


@lib('std::iter::Iterator::filter')
def _(c):
    s = S(c)
    if is_lit(s):
        e = each(c, c.args[1], s)
        return iter_(Cat(seqlit([], s.s[1]), *[Ite(b, seqlit([x], x.s), seqlit([], x.s)) for b, x in zip(e, lit_elems(s))]))
    return iter_(seq_filter(s, lamof(c, c.args[1], s)))


def seq_filter(s, f):
    if f.op == 'lam':
        if f.a[1] is TRUE:
            return s
        if f.a[1] is FALSE:
            return seqlit([], s.s[1])
    if s.op == 'ite':
        return Ite(s.a[0], seq_filter(s.a[1], f), seq_filter(s.a[2], f))
    if s.op == 'call' and s.a[0] == 'seq_filter':
        x = fresh('x', s.s[1])
        f = Lam([x], And(Beta(s.a[2], [x]), Beta(f, [x])))
        s = s.a[1]
    if s.op == 'call' and s.a[0] == 'seq_map':
        # filter(map(s,g),f) == map(filter(s, f.g), g)
        x = fresh('x', s.a[1].s[1])
        g = s.a[2]
        return seq_map(seq_filter(s.a[1], Lam([x], Beta(f, [Beta(g, [x])]))), g)
    return Call('seq_filter', [s, f], s.s)


@lib('std::iter::Iterator::filter_map')
def _(c):
    s = S(c)
    if is_lit(s):
        e = each(c, c.args[1], s)
        es = e[0].s[2][0] if e else META
        return iter_(Cat(seqlit([], es), *[Ite(Is('Some', o), seqlit([unS(o)], es), seqlit([], es)) for o in e]))
    f = lamof(c, c.args[1], s)
    es = f.s[2][2][0]
    # normal form: map(filter(s, |x| f(x).is_some()), |x| f(x).unwrap())
    x = fresh('x', s.s[1])
    p = Lam([x], Is('Some', Beta(f, [x])))
    y = fresh('x', s.s[1])
    g = Lam([y], Proj('Some', 0, Beta(f, [y]), es))
    return iter_(seq_map(seq_filter(s, p), g))


@lib('std::iter::Iterator::flat_map')
def _(c):
    s = S(c)
    f = c.eng.lam(c.args[1], [s.s[1]], c.env, c.pc, c.line, seq=s, post=lambda r: toseq(c, r))
    return iter_(seq_flat(seq_map(s, f)))


def seq_flat(s):
    e = lit_elems(s)
    if e is not None:
        return Cat(seqlit([], s.s[1][1]), *e)
    return Call('seq_flat', [s], s.s[1])


@lib('std::iter::Iterator::flatten')
def _(c):
    s = S(c)
    es = s.s[1]
    if es[0] == 'Seq':
        return iter_(seq_flat(s))
    if es[0] == 'D' and es[1] == 'Option':
        x = fresh('x', es)
        y = fresh('x', es)
        return iter_(seq_map(seq_filter(s, Lam([x], Is('Some', x))), Lam([y], unS(y))))
    raise Unsupported('flatten')


@lib('std::iter::Iterator::chain')
def _(c):
    a = toseq(c, c.args[0])
    e = endless(c, c.args[1])
    if e is not None:
        return mk('endless', (Cat(a, e),), META)
    b = toseq(c, c.args[1])
    return iter_(Cat(a, b))


@lib('std::iter::Iterator::take')
def _(c):
    n = c.args[1]
    if c.args[0].op == 'rep':
        v = c.args[0].a[0]
        if n.op == 'int' and n.a[0] < 20:
            return iter_(seqlit([v] * n.a[0], v.s))
        if n.op == 'ite' and n.a[1].op == 'int' and n.a[2].op == 'int':
            return iter_(Ite(n.a[0], seqlit([v] * n.a[1].a[0], v.s), seqlit([v] * n.a[2].a[0], v.s)))
        return iter_(Call('seq_repeat', [v, n], SEQ(v.s)))
    s = S(c)
    if is_lit(s) and n.op == 'int':
        return iter_(seqlit(lit_elems(s)[:n.a[0]], s.s[1]))
    return iter_(SubR(s, I(0), Call('imin', [n, Len(s)], INT)))


@lib('std::iter::Iterator::skip')
def _(c):
    s = S(c)
    n = c.args[1]
    if is_lit(s) and n.op == 'int':
        return iter_(seqlit(lit_elems(s)[n.a[0]:], s.s[1]))
    return iter_(SubR(s, Call('imin', [n, Len(s)], INT), Len(s)))


@lib('std::iter::Iterator::zip')
def _(c):
    a, b = S(c), toseq(c, c.args[1])
    return iter_(Call('seq_zip', [a, b], SEQ(TUP(a.s[1], b.s[1]))))


@lib('std::iter::Iterator::enumerate')
def _(c):
    a = S(c)
    return iter_(Call('seq_enum', [a], SEQ(TUP(INT, a.s[1]))))


@lib('std::iter::Iterator::rev')
def _(c):
    s = S(c)
    return iter_(seq_rev(s))


def seq_rev(s):
    e = lit_elems(s)
    if e is not None:
        return seqlit(e[::-1], s.s[1])
    if s.op == 'call' and s.a[0] == 'seq_rev':
        return s.a[1]
    if s.op == 'call' and s.a[0] == 'seq_map':
        return seq_map(seq_rev(s.a[1]), s.a[2])
    if s.op == 'cat':
        return Cat(*[seq_rev(x) for x in s.a[::-1]])
    return Call('seq_rev', [s], s.s)


@lib('std::iter::Iterator::take_while')
def _(c):
    s = S(c)
    f = lamof(c, c.args[1], s)
    return iter_(SubR(s, I(0), Call('seq_twn', [s, f], INT)))


@lib('std::iter::Iterator::skip_while')
def _(c):
    s = S(c)
    f = lamof(c, c.args[1], s)
    return iter_(SubR(s, Call('seq_twn', [s, f], INT), Len(s)))


@lib('std::iter::Iterator::count', 'std::iter::ExactSizeIterator::len')
def _(c):
    s = S(c)
    if s.op == 'subr' and s.a[1] is I(0) and s.a[2].op == 'call' and s.a[2].a[0] == 'seq_twn':
        return s.a[2]
    return Len(s)


@lib('std::iter::Iterator::collect', 'itertools::Itertools::collect_vec')
def _(c):
    v = val(c, 0)
    if v.op == 'rep':
        raise Unsupported('collect of an infinite iterator')
    s = toseq(c, v)
    return collect(c, s, c.ds)


def collect(c, s, ds):
    if ds == META:
        return s
    if ds[0] == 'Seq':
        if ds == STR and s.s[1] == STR:
            return seq_flat(s)
        if ds == TS and s.s[1] == TS:
            return seq_flat(s)
        return s
    if ds[0] == 'Set':
        return Call('seq_set', [s], ds)
    if ds[0] == 'Map':
        return Call('seq_to_map', [s], ds)
    if ds[0] == 'D' and ds[1] == 'Result':
        ok = ds[2][0]
        if s.s[1][0] == 'D' and s.s[1][1] == 'Result':
            inner = SEQ(s.s[1][2][0])
            r = Call('collect_res', [s], RES(inner, ds[2][1]))
            if inner == ok:
                return r
            x = collect(c, Proj('Ok', 0, r, inner), ok)
            return Ite(Is('Ok', r), Ctor(ds, 'Ok', x), Ctor(ds, 'Err', Proj('Err', 0, r, ds[2][1])))
    if ds[0] == 'D' and ds[1] == 'Option':
        return Call('collect_opt', [s], ds)
    raise Unsupported('collect into %s' % (ds,))


@lib('std::iter::Iterator::any')
def _(c):
    s = S(c)
    if is_lit(s):
        return Or(*each(c, c.args[1], s))
    return seq_any(s, lamof(c, c.args[1], s))


def seq_any(s, f):
    if s.op == 'call' and s.a[0] == 'seq_map':
        x = fresh('x', s.a[1].s[1])
        return seq_any(s.a[1], Lam([x], Beta(f, [Beta(s.a[2], [x])])))
    e = lit_elems(s)
    if e is not None and len(e) <= 40:
        return Or(*[Beta(f, [x]) for x in e])
    if s.op == 'cat':
        return Or(*[seq_any(x, f) for x in s.a])
    if f.op == 'lam' and f.a[1].op == 'or':
        v = f.a[0]
        return Or(*[seq_any(s, Lam(v, b)) for b in f.a[1].a])
    return Call('seq_any', [s, f], BOOL)


@lib('std::iter::Iterator::all')
def _(c):
    s = S(c)
    if is_lit(s):
        return And(*each(c, c.args[1], s))
    f = lamof(c, c.args[1], s)
    return Not(seq_any(s, Lam(f.a[0], Not(f.a[1]))))


@lib('std::iter::Iterator::find')
def _(c):
    e = endless(c, c.args[0])
    s = S(c) if e is None else e
    f = lamof(c, c.args[1], s)
    consume(c, None)
    r = seq_find(s, f)
    if e is not None:
        c.eng.oblige('overflow', c.line, c.pc, Is('Some', r), 'counter of a search without end')
        c.eng.fact(c.pc, Is('Some', r))
    return r


def seq_find(s, f):
    e = lit_elems(s)
    if e is not None and len(e) <= 8:
        r = None_(s.s[1])
        for x in reversed(e):
            r = Ite(Beta(f, [x]), Some(x), r)
        return r
    if s.op == 'cat' and is_lit(s.a[0]):
        r = seq_find(Cat(*s.a[1:]), f)
        for x in reversed(lit_elems(s.a[0])):
            r = Ite(Beta(f, [x]), Some(x), r)
        return r
    if s.op == 'call' and s.a[0] == 'seq_map':
        g = s.a[2]
        x = fresh('x', s.a[1].s[1])
        r = seq_find(s.a[1], Lam([x], Beta(f, [Beta(g, [x])])))
        return Ite(Is('Some', r), Some(Beta(g, [Proj('Some', 0, r, s.a[1].s[1])])), None_(s.s[1]))
    return Call('seq_find', [s, f], OPT(s.s[1]))


def consume(c, rest):
    if c.args[0].op == 'ptr':
        if rest is None and endless(c, c.args[0]) is not None:
            c.eng.pwrite(c.env, c.args[0], mk('used', (), META))
            return
        s = S(c)
        c.eng.pwrite(c.env, c.args[0], iter_(rest if rest is not None else Call('seq_rest', [s], s.s)))


@lib('std::iter::Iterator::find_map')
def _(c):
    s = S(c)
    f = lamof(c, c.args[1], s)
    es = f.s[2][2][0]
    x = fresh('x', s.s[1])
    r = seq_find(s, Lam([x], Is('Some', Beta(f, [x]))))
    return Ite(Is('Some', r), Beta(f, [unS(r)]), None_(es))


@lib('std::iter::Iterator::position')
def _(c):
    s = S(c)
    f = lamof(c, c.args[1], s)
    return Call('seq_pos', [s, f], OPT(INT))


@lib('std::iter::Iterator::last', 'std::iter::DoubleEndedIterator::next_back_')
def _(c):
    return seq_last(S(c))


def seq_last(s):
    e = lit_elems(s)
    if e is not None:
        return Some(e[-1]) if e else None_(s.s[1])
    return Ite(Lt(I(0), Len(s)), Some(Idx(s, Sub(Len(s), I(1)))), None_(s.s[1]))


def seq_first(s):
    e = lit_elems(s)
    if e is not None:
        return Some(e[0]) if e else None_(s.s[1])
    return Ite(Lt(I(0), Len(s)), Some(Idx(s, I(0))), None_(s.s[1]))


def seq_get(s, i):
    return Ite(Lt(i, Len(s)), Some(Idx(s, i)), None_(s.s[1]))


@lib('std::iter::Iterator::next')
def _(c):
    p = c.args[0]
    if p.op == 'ptr':
        v = c.eng.pread(c.env, p)
        if v.op == 'rep':
            return Some(v.a[0])
        if v.op == 'itk':
            q, k, x, n = v.a
            c.eng.pwrite(c.env, p, mk('itk', (q, Add(k, I(1)), mk('spent', (), META), n), META))
            if x.op == 'spent':
                raise Unsupported('two elements per iteration')
            return Some(x)
        if v.op == 'itend':
            return None_(v.a[0].s[1])
        s = toseq(c, v)
        c.eng.pwrite(c.env, p, iter_(Ite(Lt(I(0), Len(s)), SubR(s, I(1), Len(s)), s)))
    else:
        s = toseq(c, p)
    return seq_first(s)


@lib('std::iter::DoubleEndedIterator::next_back')
def _(c):
    p = c.args[0]
    s = S(c)
    if p.op == 'ptr':
        c.eng.pwrite(c.env, p, iter_(Ite(Lt(I(0), Len(s)), SubR(s, I(0), Sub(Len(s), I(1))), s)))
    return seq_last(s)


@lib('std::iter::Iterator::nth')
def _(c):
    s = S(c)
    if c.args[0].op == 'ptr':
        c.eng.pwrite(c.env, c.args[0], iter_(SubR(s, Call('imin', [Add(c.args[1], I(1)), Len(s)], INT), Len(s))))
    return seq_get(s, c.args[1])


@lib('std::iter::Iterator::fold')
def _(c):
    s = S(c)
    init = c.args[1]
    f = c.args[2]
    if is_lit(s):
        env, pc, acc = dict(c.env), c.pc, init
        for e in lit_elems(s):
            r = c.eng.apply(f, [acc, e], env, pc, c.line)
            if r is None:
                return None
            acc = r.env.pop('ret')
            env, pc = r.env, r.pc
        env['ret'] = acc
        return State(pc, env)
    if init.meta:
        raise Unsupported('fold over a tracked value')
    from . import loops
    return loops.fold(c.eng, c, s, init, f)


@lib('std::iter::Iterator::try_fold')
def _(c):
    from . import loops
    if c.args[1].meta:
        raise Unsupported('try_fold over a tracked value')
    return loops.try_fold(c.eng, c, S(c), c.args[1], c.args[2])


@lib('itertools::Itertools::unique')
def _(c):
    s = S(c)
    return iter_(Call('seq_unique', [s], s.s))


@lib('itertools::Itertools::join')
def _(c):
    s = S(c)
    if s.s[1] != STR:
        raise Unsupported('join of non-strings')
    return Call('str_join', [s, c.args[1]], STR)


@lib('std::iter::Iterator::for_each')
def _(c):
    from . import loops
    return loops.for_each(c.eng, c, S(c), c.args[1])


@lib('std::iter::Iterator::try_for_each')
def _(c):
    from . import loops
    return loops.try_for_each(c.eng, c, S(c), c.args[1])


@lib('std::iter::Iterator::max', 'std::iter::Iterator::min', 'std::iter::Iterator::sum')
def _(c):
    s = S(c)
    n = c.name.split('::')[-1]
    return Call('seq_' + n, [s], c.ds)


@lib('std::iter::Extend::extend', 'std::vec::Vec::<T, A>::extend_from_slice', 'std::vec::Vec::<T, A>::append_')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    a = toseq(c, c.args[1])
    if v.s[0] == 'Set':
        c.eng.pwrite(c.env, p, Call('set_extend', [v, a], v.s))
        return EMPTY_TUP
    if v.s[0] == 'Map':
        raise Unsupported('map extend')
    if v.s == TS and a.s == SEQ(TS):
        a = seq_flat(a)
    if v.s == STR and a.s[1] == STR:
        a = seq_flat(a)
    if a.s != v.s:
        raise Unsupported('extend %s with %s' % (v.s, a.s))
    c.eng.pwrite(c.env, p, Cat(v, a))
    return EMPTY_TUP


# ---- vectors and slices -----------------------------------------------------------------------------
@lib('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def _(c):
    return Len(val(c, 0))


@lib('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty',
     'std::string::String::is_empty', 'proc_macro2::TokenStream::is_empty')
def _(c):
    v = val(c, 0)
    return Eq(Len(v), I(0))


@lib('std::vec::Vec::<T, A>::push', 'std::string::String::push')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    c.eng.pwrite(c.env, p, Cat(v, seqlit([c.args[1]], v.s[1] if v.s[1] != META else c.args[1].s)))
    return EMPTY_TUP


@lib('std::string::String::push_str')
def _(c):
    p = c.args[0]
    c.eng.pwrite(c.env, p, Cat(c.eng.pread(c.env, p), c.args[1]))
    return EMPTY_TUP


@lib('std::vec::Vec::<T, A>::pop', 'std::string::String::pop')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    n = Len(v)
    c.eng.pwrite(c.env, p, Ite(Lt(I(0), n), SubR(v, I(0), Sub(n, I(1))), v))
    return Ite(Lt(I(0), n), Some(Idx(v, Sub(n, I(1)))), None_(v.s[1]))


@lib('std::vec::Vec::<T, A>::clear', 'std::string::String::clear')
def _(c):
    v = c.eng.pread(c.env, c.args[0])
    c.eng.pwrite(c.env, c.args[0], seqlit([], v.s[1]))
    return EMPTY_TUP


@lib('std::vec::Vec::<T, A>::remove')
def _(c):
    p, i = c.args
    v = c.eng.pread(c.env, p)
    c.eng.oblige('index', c.line, c.pc, Lt(i, Len(v)), c.name)
    c.eng.fact(c.pc, Lt(i, Len(v)))
    c.eng.pwrite(c.env, p, Cat(SubR(v, I(0), i), SubR(v, Add(i, I(1)), Len(v))))
    return Idx(v, i)


@lib('std::vec::Vec::<T, A>::insert')
def _(c):
    p, i, x = c.args
    v = c.eng.pread(c.env, p)
    c.eng.oblige('index', c.line, c.pc, Le(i, Len(v)), c.name)
    c.eng.pwrite(c.env, p, Cat(SubR(v, I(0), i), seqlit([x], x.s), SubR(v, i, Len(v))))
    return EMPTY_TUP


@lib('std::vec::Vec::<T, A>::truncate')
def _(c):
    p, n = c.args
    v = c.eng.pread(c.env, p)
    c.eng.pwrite(c.env, p, SubR(v, I(0), Call('imin', [n, Len(v)], INT)))
    return EMPTY_TUP


@lib('std::vec::Vec::<T, A>::retain')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    c.eng.pwrite(c.env, p, seq_filter(v, lamof(c, c.args[1], v)))
    return EMPTY_TUP


@lib('std::vec::Vec::<T, A>::drain')
def _(c):
    p, r = c.args
    v = c.eng.pread(c.env, p)
    lo, hi = rng_bounds(c, r, v)
    c.eng.pwrite(c.env, p, Cat(SubR(v, I(0), lo), SubR(v, hi, Len(v))))
    return iter_(SubR(v, lo, hi))


@lib('std::vec::Vec::<T, A>::reserve', 'std::string::String::reserve')
def _(c):
    return EMPTY_TUP


@lib('core::slice::<impl [T]>::last')
def _(c):
    return seq_last(val(c, 0))


@lib('core::slice::<impl [T]>::first')
def _(c):
    return seq_first(val(c, 0))


@lib('core::slice::<impl [T]>::get')
def _(c):
    i = c.args[1]
    if i.s != INT:
        v = val(c, 0)
        raise Unsupported('slice::get with a range')
    return seq_get(val(c, 0), i)


@lib('core::slice::<impl [T]>::split_last')
def _(c):
    v = val(c, 0)
    n = Len(v)
    return Ite(Lt(I(0), n), Some(tup(Idx(v, Sub(n, I(1))), SubR(v, I(0), Sub(n, I(1))))), None_(TUP(v.s[1], v.s)))


@lib('core::slice::<impl [T]>::split_first')
def _(c):
    v = val(c, 0)
    n = Len(v)
    return Ite(Lt(I(0), n), Some(tup(Idx(v, I(0)), SubR(v, I(1), n))), None_(TUP(v.s[1], v.s)))


@lib('core::slice::<impl [T]>::last_mut')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    q = ptr(p.a[0], p.a[1] + (('i', Sub(Len(v), I(1))),))
    return Ite(Lt(I(0), Len(v)), mk('ctor', ('Some', q), OPT(META)), mk('ctor', ('None',), OPT(META)))


@lib('core::slice::<impl [T]>::first_mut')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    q = ptr(p.a[0], p.a[1] + (('i', I(0)),))
    return Ite(Lt(I(0), Len(v)), mk('ctor', ('Some', q), OPT(META)), mk('ctor', ('None',), OPT(META)))


@lib('core::slice::<impl [T]>::contains')
def _(c):
    s, x = val(c, 0), c.args[1]
    e = lit_elems(s)
    if e is not None and len(e) <= 40:
        return Or(*[Eq(y, x) for y in e])
    v = fresh('x', s.s[1])
    return seq_any(s, Lam([v], Eq(v, x)))


@lib('core::slice::<impl [T]>::starts_with')
def _(c):
    return Call('seq_starts', [val(c, 0), val(c, 1)], BOOL)


@lib('core::slice::<impl [T]>::ends_with')
def _(c):
    return Call('seq_ends', [val(c, 0), val(c, 1)], BOOL)


@lib('core::slice::<impl [T]>::strip_prefix')
def _(c):
    s, p = val(c, 0), val(c, 1)
    return Ite(Call('seq_starts', [s, p], BOOL), Some(SubR(s, Len(p), Len(s))), None_(s.s))


@lib('std::slice::<impl [T]>::join')
def _(c):
    s, sep = val(c, 0), c.args[1]
    if s.s[1] == STR:
        return str_join(s, sep)
    raise Unsupported('slice join')


def str_join(s, sep):
    e = lit_elems(s)
    if e is not None and len(e) <= 12:
        r = str_('')
        for i, x in enumerate(e):
            r = Cat(r, sep, x) if i else x
        return r
    return Call('str_join', [s, sep], STR)


@lib('std::slice::<impl [T]>::concat')
def _(c):
    return seq_flat(val(c, 0))


@lib('std::slice::<impl [T]>::into_vec', 'std::slice::<impl [T]>::to_vec')
def _(c):
    return val(c, 0)


def rng_bounds(c, r, v):
    n = Len(v)
    if r.op == 'zst' or (r.op == 'ctor' and r.a[0] == 'RangeFull'):
        return I(0), n
    if r.op != 'ctor':
        raise Unsupported('range')
    k = r.a[0]
    if k == 'Range':
        lo, hi = r.a[1], r.a[2]
        c.eng.oblige('slice', c.line, c.pc, And(Le(lo, hi), Le(hi, n)), 'slice bounds')
    elif k == 'RangeFrom':
        lo, hi = r.a[1], n
        c.eng.oblige('slice', c.line, c.pc, Le(lo, n), 'slice bounds')
    elif k == 'RangeTo':
        lo, hi = I(0), r.a[1]
        c.eng.oblige('slice', c.line, c.pc, Le(hi, n), 'slice bounds')
    elif k == 'RangeInclusive':
        lo, hi = r.a[1], Add(r.a[2], I(1))
        c.eng.oblige('slice', c.line, c.pc, And(Le(lo, hi), Le(hi, n)), 'slice bounds')
    elif k == 'RangeToInclusive':
        lo, hi = I(0), Add(r.a[1], I(1))
        c.eng.oblige('slice', c.line, c.pc, Le(hi, n), 'slice bounds')
    else:
        raise Unsupported('range ' + k)
    c.eng.fact(c.pc, And(Le(I(0), lo), Le(lo, hi), Le(hi, n)))
    return lo, hi


@lib('std::ops::RangeInclusive::<Idx>::new')
def _(c):
    return mk('ctor', ('RangeInclusive', c.args[0], c.args[1]), D('std_RangeInclusive'))


@lib('std::ops::Index::index')
def _(c):
    v, i = val(c, 0), c.args[1]
    if v.s[0] == 'Map':
        ok = Call('map_has', [v, i], BOOL)
        c.eng.oblige('index', c.line, c.pc, ok, c.name)
        return Call('map_idx', [v, i], v.s[2])
    if i.s == INT:
        c.eng.oblige('index', c.line, c.pc, Lt(i, Len(v)), c.name)
        c.eng.fact(c.pc, Lt(i, Len(v)))
        return Idx(v, i)
    if v.s == STR:
        return str_slice(c, v, i)
    lo, hi = rng_bounds(c, i, v)
    return SubR(v, lo, hi)


@lib('std::ops::IndexMut::index_mut')
def _(c):
    p, i = c.args
    v = c.eng.pread(c.env, p)
    if i.s == INT:
        c.eng.oblige('index', c.line, c.pc, Lt(i, Len(v)), c.name)
        c.eng.fact(c.pc, Lt(i, Len(v)))
        return ptr(p.a[0], p.a[1] + (('i', i),))
    lo, hi = rng_bounds(c, i, v)
    return ptr(p.a[0], p.a[1] + (('r', lo, hi),))


# ---- strings ------------------------------------------------------------------------------------------
def strof(v):
    if v.s == CHAR:
        return seqlit([v], CHAR)
    if v.s == STR:
        return v
    return None


def charpred(c, f):
    """a pattern given as a closure / char array / char"""
    if f.s == CHAR:
        x = fresh('x', CHAR)
        return Lam([x], Eq(x, f))
    if f.s == STR and f.op == 'seqlit' or (f.op == 'str'):
        x = fresh('x', CHAR)
        return Lam([x], Or(*[Eq(x, e) for e in lit_elems(f)]))
    x = fresh('c', CHAR)
    return c.eng.lam(f, [CHAR], c.env, c.pc, c.line)


@lib('core::str::<impl str>::starts_with')
def _(c):
    s, p = val(c, 0), c.args[1]
    q = strof(p)
    if q is None:
        return And(Lt(I(0), Len(s)), Beta(charpred(c, p), [Idx(s, I(0))]))
    return Call('seq_starts', [s, q], BOOL)


@lib('core::str::<impl str>::ends_with')
def _(c):
    s, p = val(c, 0), c.args[1]
    q = strof(p)
    if q is None:
        return And(Lt(I(0), Len(s)), Beta(charpred(c, p), [Idx(s, Sub(Len(s), I(1)))]))
    return Call('seq_ends', [s, q], BOOL)


@lib('core::str::<impl str>::strip_prefix')
def _(c):
    s, p = val(c, 0), strof(c.args[1])
    if p is None:
        raise Unsupported('strip_prefix pattern')
    return Ite(Call('seq_starts', [s, p], BOOL), Some(SubR(s, Len(p), Len(s))), None_(STR))


@lib('core::str::<impl str>::strip_suffix')
def _(c):
    s, p = val(c, 0), strof(c.args[1])
    if p is None:
        raise Unsupported('strip_suffix pattern')
    return Ite(Call('seq_ends', [s, p], BOOL), Some(SubR(s, I(0), Sub(Len(s), Len(p)))), None_(STR))


@lib('core::str::<impl str>::trim_start_matches')
def _(c):
    return Call('trim_start_matches', [val(c, 0), strof(c.args[1])], STR)


@lib('core::str::<impl str>::contains')
def _(c):
    s, p = val(c, 0), c.args[1]
    if p.s == CHAR:
        v = fresh('x', CHAR)
        return seq_any(s, Lam([v], Eq(v, p)))
    if p.s == STR:
        return Call('has_sub', [s, p], BOOL)
    return seq_any(s, charpred(c, p))


@lib('core::str::<impl str>::split')
def _(c):
    s, p = val(c, 0), c.args[1]
    if p.s == CHAR:
        return iter_(Call('split_chr', [s, p], SEQ(STR)))
    if p.s == STR:
        return iter_(Call('split_str', [s, p], SEQ(STR)))
    raise Unsupported('split by predicate')


@lib('core::str::<impl str>::split_once')
def _(c):
    s, p = val(c, 0), strof(c.args[1])
    return Call('split_once', [s, p], OPT(TUP(STR, STR)))


@lib('core::str::<impl str>::rsplit_once')
def _(c):
    return Call('rsplit_once', [val(c, 0), strof(c.args[1])], OPT(TUP(STR, STR)))


@lib('core::str::<impl str>::lines')
def _(c):
    return iter_(Call('str_lines', [val(c, 0)], SEQ(STR)))


@lib('core::str::<impl str>::trim')
def _(c):
    return Call('str_trim', [val(c, 0)], STR)


@lib('core::str::<impl str>::trim_end')
def _(c):
    return Call('str_trim_end', [val(c, 0)], STR)


@lib('core::str::<impl str>::trim_start')
def _(c):
    return Call('str_trim_start', [val(c, 0)], STR)


@lib('std::str::<impl str>::to_lowercase')
def _(c):
    return Call('str_lower', [val(c, 0)], STR)


@lib('core::str::<impl str>::matches')
def _(c):
    s, p = val(c, 0), c.args[1]
    if p.s == CHAR:
        v = fresh('x', CHAR)
        return iter_(seq_map(seq_filter(s, Lam([v], Eq(v, p))), Lam([fresh('y', CHAR)], seqlit([p], CHAR))))
    if p.s == STR:
        return iter_(Call('str_matches', [s, p], SEQ(STR)))
    f = charpred(c, p)
    v = fresh('x', CHAR)
    return iter_(seq_map(seq_filter(s, f), Lam([v], seqlit([v], CHAR))))


@lib('std::str::<impl str>::replace')
def _(c):
    s, p, r = val(c, 0), c.args[1], c.args[2]
    if p.s == STR:
        return Call('str_replace', [s, p, r], STR)
    f = charpred(c, p)
    v = fresh('x', CHAR)
    return seq_flat(seq_map(s, Lam([v], Ite(Beta(f, [v]), r, seqlit([v], CHAR)))))


@lib('core::str::<impl str>::len', 'std::string::String::len')
def _(c):
    """length in bytes (UTF-8)"""
    v = val(c, 0)
    if v.op == 'str':
        return I(len(v.a[0].encode()))
    return Call('blen', [v], INT)


@lib('std::string::String::truncate')
def _(c):
    p, n = c.args
    v = c.eng.pread(c.env, p)
    # n is a byte offset: the result is the prefix of byte length n, which must be a character boundary
    if n.op == 'call' and n.a[0] == 'blen':
        w = n.a[1]
        c.eng.oblige('slice', c.line, c.pc, Or(Call('seq_starts', [v, w], BOOL), Le(Call('blen', [v], INT), n)), 'truncate at a char boundary')
        c.eng.pwrite(c.env, p, Ite(Le(Call('blen', [v], INT), n), v, w))
        return EMPTY_TUP
    raise Unsupported('String::truncate')


@lib('std::string::String::remove')
def _(c):
    p, n = c.args
    v = c.eng.pread(c.env, p)
    if n.op == 'int' and n.a[0] == 0:
        c.eng.oblige('index', c.line, c.pc, Lt(I(0), Len(v)), 'String::remove(0)')
        c.eng.pwrite(c.env, p, SubR(v, I(1), Len(v)))
        return Idx(v, I(0))
    raise Unsupported('String::remove')


@lib('std::string::String::insert')
def _(c):
    p, n, ch = c.args
    v = c.eng.pread(c.env, p)
    if n.op == 'int' and n.a[0] == 0:
        c.eng.pwrite(c.env, p, Cat(seqlit([ch], CHAR), v))
        return EMPTY_TUP
    raise Unsupported('String::insert')


@lib('std::string::String::insert_str')
def _(c):
    p, n, x = c.args
    v = c.eng.pread(c.env, p)
    if n.op == 'int' and n.a[0] == 0:
        c.eng.pwrite(c.env, p, Cat(x, v))
        return EMPTY_TUP
    raise Unsupported('String::insert_str')


def str_slice(c, v, r):
    """byte-offset slicing: only offsets that are certainly character boundaries are modelled"""
    lo = hi = None
    if r.op == 'ctor':
        k = r.a[0]
        lo = {'Range': lambda: r.a[1], 'RangeFrom': lambda: r.a[1], 'RangeTo': lambda: I(0)}.get(k, lambda: None)()
        hi = {'Range': lambda: r.a[2], 'RangeTo': lambda: r.a[1], 'RangeFrom': lambda: None}.get(k, lambda: None)()
    raise Unsupported('string slicing by byte offset')


def is_ws(x):
    return Call('is_ws', [x], BOOL)


@lib('core::char::methods::<impl char>::is_whitespace')
def _(c):
    return is_ws(val(c, 0))


@lib('core::char::methods::<impl char>::is_alphanumeric')
def _(c):
    return Call('is_alnum', [val(c, 0)], BOOL)


@lib('core::char::methods::<impl char>::is_ascii_digit')
def _(c):
    v = val(c, 0)
    return And(Le(chr_(48), v), Le(v, chr_(57)))


@lib('std::cmp::Ord::cmp')
def _(c):
    a, b = val(c, 0), val(c, 1)
    if a.s == STR:
        return Call('str_cmp', [a, b], D('Ordering'))
    if a.s == INT:
        return Ite(Lt(a, b), Ctor(D('Ordering'), 'Less'), Ite(Eq(a, b), Ctor(D('Ordering'), 'Equal'), Ctor(D('Ordering'), 'Greater')))
    raise Unsupported('Ord::cmp of %s' % (a.s,))


@lib('std::cmp::PartialOrd::partial_cmp')
def _(c):
    a, b = val(c, 0), val(c, 1)
    if a.s == STR:
        return Some(Call('str_cmp', [a, b], D('Ordering')))
    raise Unsupported('PartialOrd of %s' % (a.s,))


def _rel(name, f, tag, neg):
    @lib('std::cmp::PartialOrd::' + name)
    def _(c):
        a, b = val(c, 0), val(c, 1)
        if a.s == STR and b.s == STR:
            r = Is(tag, Call('str_cmp', [a, b], D('Ordering')))
            return Not(r) if neg else r
        if a.s in (INT, CHAR) and a.s == b.s:
            return f(a, b)
        raise Unsupported('PartialOrd of %s' % (a.s,))


_rel('lt', lambda a, b: Lt(a, b), 'Less', False)
_rel('gt', lambda a, b: Lt(b, a), 'Greater', False)
_rel('le', lambda a, b: Le(a, b), 'Greater', True)
_rel('ge', lambda a, b: Le(b, a), 'Less', True)


# ---- formatting ------------------------------------------------------------------------------------------
@lib('core::fmt::rt::Argument::<\'_>::new_display')
def _(c):
    v = val(c, 0)
    return mk('fmtarg', (display(c, v),), META)


@lib('core::fmt::rt::Argument::<\'_>::new_debug')
def _(c):
    v = val(c, 0)
    if v.op == 'iter':
        v = v.a[0]
    if v.meta:
        raise Unsupported('Debug of %s' % v.op)
    return mk('fmtarg', (Call('fmt_debug', [v], STR),), META)


def display(c, v):
    if v.s == STR:
        return v
    if v.s == CHAR:
        return seqlit([v], CHAR)
    if v.s == INT:
        return Call('int_str', [v], STR)
    if v.s == D('SynIdent'):
        return mk('proj', ('SynIdent', 0, v), STR)
    if v.s == D('PyObj'):
        return v.a[1] if v.op == 'call' and v.a[0] == 'py_strobj' else Call('py_str', [v], STR)
    if v.s == D('Err'):
        return Call('err_str', [v], STR)
    if v.s == TS:
        return Call('ts_str', [v], STR)
    if v.s[0] == 'D':
        for n, b in c.eng.mir.fns.items():
            if n.endswith('::' + v.s[1] + ' as std::fmt::Display>::fmt'):
                k = c.eng.contracts.get(n)
                if k is not None and k.display:
                    return k.ret_term([v], STR)
                c.eng.nframe += 1
                root = (c.eng.nframe, 'fmt')
                env = dict(c.env)
                env[root] = str_('')
                r = c.eng.run(b, [v, ptr(root, ())], env, c.pc)
                c.eng.inlined.add(n)
                return r.env[root]
    raise Unsupported('Display of %s' % (v.s,))


@lib("std::fmt::Arguments::<'a>::new")
def _(c):
    tpl = [x.a[0] for x in lit_elems(c.args[0])]
    args = lit_elems(c.args[1])
    out = []
    i = 0
    k = 0
    while i < len(tpl):
        b = tpl[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(str_(bytes(tpl[i + 1:i + 1 + b]).decode()))
            i += 1 + b
        elif b == 0x80:
            n = tpl[i + 1] | tpl[i + 2] << 8
            out.append(str_(bytes(tpl[i + 3:i + 3 + n]).decode()))
            i += 3 + n
        elif b == 0xC0:
            out.append(args[k].a[0])
            k += 1
            i += 1
        else:
            raise Unsupported('format placeholder with options')
    return mk('fmt', (Cat(str_(''), *out),), META)


@lib("std::fmt::Arguments::<'a>::from_str", "core::fmt::rt::<impl std::fmt::Arguments<'_>>::new_const",
     "std::fmt::Arguments::<'a>::new_const")
def _(c):
    v = c.args[0]
    return mk('fmt', (v,), META)


@lib('std::fmt::format')
def _(c):
    return c.args[0].a[0]


@lib("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt")
def _(c):
    p = c.args[0]
    c.eng.pwrite(c.env, p, Cat(c.eng.pread(c.env, p), c.args[1].a[0]))
    return Ctor(RES(UNIT, D('Err')), 'Ok', EMPTY_TUP)


@lib("std::fmt::Formatter::<'a>::write_str", "std::fmt::Write::write_str")
def _(c):
    p = c.args[0]
    c.eng.pwrite(c.env, p, Cat(c.eng.pread(c.env, p), c.args[1]))
    return Ctor(RES(UNIT, D('Err')), 'Ok', EMPTY_TUP)


@lib('std::io::_eprint', 'std::io::_print')
def _(c):
    return EMPTY_TUP


@lib('std::string::ToString::to_string')
def _(c):
    return display(c, val(c, 0))


# ---- box / vec! -------------------------------------------------------------------------------------------
@lib('std::boxed::Box::<T>::new_uninit')
def _(c):
    c.eng.nframe += 1
    root = (c.eng.nframe, 'box')
    c.env[root] = mk('uninit', (), META)
    return ptr(root, ())


@lib('std::boxed::box_assume_init_into_vec_unsafe')
def _(c):
    v = val(c, 0)
    return v


# ---- maps and sets ------------------------------------------------------------------------------------------
@lib('std::collections::HashMap::<K, V, S>::get')
def _(c):
    m, k = val(c, 0), c.args[1]
    return Ite(Call('map_has', [m, k], BOOL), Some(Call('map_idx', [m, k], m.s[2])), None_(m.s[2]))


@lib('std::collections::HashMap::<K, V, S>::contains_key')
def _(c):
    return Call('map_has', [val(c, 0), c.args[1]], BOOL)


@lib('std::collections::HashMap::<K, V, S>::insert')
def _(c):
    p = c.args[0]
    m = c.eng.pread(c.env, p)
    c.eng.pwrite(c.env, p, Call('map_ins', [m, c.args[1], c.args[2]], m.s))
    return Ite(Call('map_has', [m, c.args[1]], BOOL), Some(Call('map_idx', [m, c.args[1]], m.s[2])), None_(m.s[2]))


@lib('std::collections::HashSet::<T, S>::contains')
def _(c):
    return Call('set_has', [val(c, 0), c.args[1]], BOOL)


@lib('std::collections::HashSet::<T, S>::insert')
def _(c):
    p = c.args[0]
    m = c.eng.pread(c.env, p)
    c.eng.pwrite(c.env, p, Call('set_ins', [m, c.args[1]], m.s))
    return Not(Call('set_has', [m, c.args[1]], BOOL))


# ---- syn / proc_macro2 ------------------------------------------------------------------------------------------
@lib('syn::parse_str')
def _(c):
    s = c.args[0]
    es = D('Err')
    if c.ds == RES(D('SynIdent'), es):
        return Ite(Call('syn_ident_ok', [s], BOOL), Ctor(c.ds, 'Ok', mk('ctor', ('SynIdent', s), D('SynIdent'))),
                   Ctor(c.ds, 'Err', Call('err_new', [], es)))
    if c.ds == RES(D('SynPath'), es):
        return Ite(Call('syn_path_ok', [s], BOOL), Ctor(c.ds, 'Ok', mk('ctor', ('SynPath', s), D('SynPath'))),
                   Ctor(c.ds, 'Err', Call('err_new', [], es)))
    raise Unsupported('syn::parse_str')
