"""Models of quote / proc_macro2 / syn, maps, sorting and further std functions."""
import re
from .terms import *
from .mir import Unsupported
from .exec import iter_, ptr, State
from .lib import lib, LIB, val, toseq, S, TOK, TS, lamof, unS, unOk, branch, ap, seq_map, seq_flat, seq_filter, charpred, strof, default


def tok(v, *a):
    return mk('ctor', (v,) + a, TOK)


def append(c, what):
    p = c.args[0]
    c.eng.pwrite(c.env, p, Cat(c.eng.pread(c.env, p), what))
    return EMPTY_TUP


def one(t):
    return seqlit([t], TOK)


PUNCT = dict(add='+', add_eq='+=', bang='!', caret='^', colon=':', colon2='::', comma=',', dot='.', dot2='..', dot3='...',
             eq='=', eq_eq='==', ge='>=', gt='>', le='<=', lt='<', ne='!=', or_or='||', pound='#', question='?', rarrow='->',
             larrow='<-', rem='%', fat_arrow='=>', semi=';', shl='<<', shr='>>', star='*', sub='-', and_and='&&', at='@',
             div='/', underscore='_', **{'and': '&', 'or': '|'})
for _n, _s in PUNCT.items():
    def _f(c, s=_s):
        return append(c, one(tok('P', str_(s))))
    LIB['quote::__private::push_' + _n] = _f


@lib('quote::__private::push_ident')
def _(c):
    return append(c, one(tok('Id', c.args[1])))


@lib('quote::__private::push_lifetime')
def _(c):
    return append(c, one(tok('P', c.args[1])))


@lib('quote::__private::parse')
def _(c):
    return append(c, one(tok('Lit', c.args[1])))


@lib('quote::__private::push_group')
def _(c):
    d = c.args[1]
    k = d.a[0] if d.op == 'ctor' else (d.a[0] if d.op == 'zst' else None)
    kinds = {'Parenthesis': 0, 'Brace': 1, 'Bracket': 2, 'None': 3}
    if k not in kinds:
        raise Unsupported('delimiter %s' % (d,))
    return append(c, one(tok('G', I(kinds[k]), c.args[2])))


def tokens(v):
    """tokens of an interpolated value"""
    if v.op == 'ctor' and v.a[0] == 'RepInterp':
        v = v.a[1]
    if v.s == TS:
        return v
    if v.s == D('SynIdent'):
        return one(tok('Id', v.a[1] if v.op == 'ctor' else mk('proj', ('SynIdent', 0, v), STR)))
    if v.s == D('SynPath'):
        return one(tok('PathT', v.a[1] if v.op == 'ctor' else mk('proj', ('SynPath', 0, v), STR)))
    if v.s == STR:
        return one(tok('S', v))
    if v.s == INT:
        return one(tok('N', v))
    if v.s == BOOL:
        return one(tok('Id', Ite(v, str_('true'), str_('false'))))
    if v.s[0] == 'D' and v.s[1] == 'Option':
        return Ite(Is('Some', v), tokens(unS(v)), seqlit([], TOK))
    raise Unsupported('ToTokens of %s' % (v.s,))


@lib('quote::ToTokens::to_tokens', '<proc_macro2::Ident as quote::ToTokens>::to_tokens', "<&'a T as quote::ToTokens>::to_tokens",
     '<proc_macro2::TokenStream as quote::ToTokens>::to_tokens', '<quote::__private::RepInterp<T> as quote::ToTokens>::to_tokens',
     '<std::rc::Rc<T> as quote::ToTokens>::to_tokens', '<std::string::String as quote::ToTokens>::to_tokens',
     '<usize as quote::ToTokens>::to_tokens', 'syn::path::printing::<impl quote::ToTokens for syn::Path>::to_tokens')
def _(c):
    v = val(c, 0)
    if v.op == 'iter':
        raise Unsupported('ToTokens of an iterator')
    p = c.args[1]
    c.eng.pwrite(c.env, p, Cat(c.eng.pread(c.env, p), tokens(v)))
    return EMPTY_TUP


@lib('quote::ToTokens::to_token_stream', 'quote::ToTokens::into_token_stream')
def _(c):
    return tokens(val(c, 0))


@lib('quote::__private::ext::RepAsIteratorExt::quote_into_iter', 'quote::__private::ext::RepIteratorExt::quote_into_iter')
def _(c):
    return tup(iter_(toseq(c, val(c, 0))), mk('zst', ('HasIterator',), META))


@lib('std::ops::BitOr::bitor')
def _(c):
    if c.args[0].op in ('zst', 'ctor') or c.args[1].op == 'zst':
        return mk('zst', ('HasIterator',), META)
    raise Unsupported('bitor')


@lib('std::rc::Rc::<T, A>::into_inner')
def _(c):
    # every call site holds the only reference (see DESIGN.md): the value is produced by OutputType, of which the other
    # handle has been dropped
    v = val(c, 0)
    return Some(v)


@lib('proc_macro2::Span::call_site')
def _(c):
    return mk('zst', ('Span',), META)


KEYWORDS = set('''abstract as async await become box break const continue crate do dyn else enum extern false final fn for if impl in
let loop macro match mod move mut override priv pub ref return Self self static struct super trait true try type typeof unsafe unsized
use virtual where while yield _'''.split())


def plain_ident(s):
    """a literal that is an identifier of Rust"""
    return re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', s) is not None and s not in KEYWORDS


@lib('proc_macro2::Ident::new')
def _(c):
    s = c.args[0]
    if not (s.op == 'str' and plain_ident(s.a[0])):
        c.eng.oblige('ident', c.line, c.pc, Call('syn_ident_ok', [s], BOOL), 'Ident::new panics on invalid identifiers')
    return mk('ctor', ('SynIdent', s), D('SynIdent'))


# ---- std ----------------------------------------------------------------------------------------------
@lib('core::bool::<impl bool>::then')
def _(c):
    v = val(c, 0)
    box = []

    def th(e, p):
        r = ap(c, c.args[1], [], e, p, Some)
        if r is not None:
            box.append(r.env['ret'].s[2][0])
        return r
    return branch(c, v, th, lambda e, p: None_(box[0] if box else c.ds[2][0]))


@lib('core::bool::<impl bool>::then_some')
def _(c):
    return Ite(val(c, 0), Some(c.args[1]), None_(c.args[1].s))


@lib('core::num::<impl usize>::saturating_sub')
def _(c):
    a, b = val(c, 0), val(c, 1)
    return Ite(Lt(a, b), I(0), Sub(a, b))


@lib('std::cmp::min', 'std::cmp::Ord::min')
def _(c):
    return Call('imin', [val(c, 0), val(c, 1)], INT)


@lib('std::char::methods::<impl char>::is_alphanumeric')
def _(c):
    return Call('is_alnum', [val(c, 0)], BOOL)


@lib('std::char::methods::<impl char>::is_whitespace')
def _(c):
    return Call('is_ws', [val(c, 0)], BOOL)


@lib('std::string::String::retain')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    try:
        f = lamof(c, c.args[1], v)
        c.eng.pwrite(c.env, p, seq_filter(v, f))
        return EMPTY_TUP
    except Unsupported:
        pass
    from . import loops
    return loops.retain(c.eng, c, v, c.args[1], p)


LIB['std::vec::Vec::<T, A>::retain'] = LIB['std::string::String::retain']


@lib('std::option::Option::<std::result::Result<T, E>>::transpose')
def _(c):
    v = val(c, 0)
    r = unS(v)
    es = c.ds[2][1]
    return Ite(Is('Some', v), Ite(Is('Ok', r), Ctor(c.ds, 'Ok', Some(unOk(r))), Ctor(c.ds, 'Err', Proj('Err', 0, r, es))),
               Ctor(c.ds, 'Ok', None_(c.ds[2][0][2][0])))


@lib('std::slice::<impl [T]>::sort_by', 'std::slice::<impl [T]>::sort_unstable_by')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    f = c.eng.lam(c.args[1], [v.s[1], v.s[1]], c.env, c.pc, c.line)
    c.eng.pwrite(c.env, p, Call('seq_sort', [v, f], v.s))
    return EMPTY_TUP


@lib('std::slice::<impl [T]>::sort', 'std::slice::<impl [T]>::sort_unstable')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    a, b = fresh('x', v.s[1]), fresh('x', v.s[1])
    c.eng.pwrite(c.env, p, Call('seq_sort', [v, Lam([a, b], cmp(c, a, b))], v.s))
    return EMPTY_TUP


def cmp(c, a, b):
    if a.s == STR:
        return Call('str_cmp', [a, b], D('Ordering'))
    if a.s[0] == 'D':
        for n, k in c.eng.contracts.items():
            if n.endswith('::' + a.s[1] + ' as std::cmp::Ord>::cmp') and k.ret is not None:
                c.eng.called.add(n)
                return k.ret_term([a, b], D('Ordering'))
    raise Unsupported('Ord of %s' % (a.s,))


@lib('std::vec::Vec::<T, A>::dedup')
def _(c):
    p = c.args[0]
    v = c.eng.pread(c.env, p)
    c.eng.pwrite(c.env, p, Call('seq_dedup', [v], v.s))
    return EMPTY_TUP


@lib('itertools::Itertools::unique_by')
def _(c):
    s = S(c)
    f = lamof(c, c.args[1], s)
    return iter_(Call('seq_unique_by', [s, f], s.s))


# ---- maps ---------------------------------------------------------------------------------------------
for _o in ('get', 'contains_key', 'insert'):
    LIB['std::collections::HashMap::<K, V, S, A>::' + _o] = LIB['std::collections::HashMap::<K, V, S>::' + _o]
for _o in ('contains', 'insert'):
    LIB['std::collections::HashSet::<T, S, A>::' + _o] = LIB['std::collections::HashSet::<T, S>::' + _o]


@lib("std::fmt::Arguments::<'a>::from_str_nonconst")
def _(c):
    return mk('fmt', (c.args[0],), META)


@lib('std::clone::Clone::clone_from', 'std::borrow::ToOwned::clone_into')
def _(c):
    p, v = c.args
    if p.op != 'ptr':
        p, v = v, p
    c.eng.pwrite(c.env, p, c.eng.autoderef(c.env, v))
    return EMPTY_TUP
