"""Printing of terms, datatypes and obligations as Verus source."""
import re
from .terms import *
from .mir import Unsupported

RESERVED = {'self', 'type', 'fn', 'mod', 'use', 'match', 'if', 'else', 'let', 'struct', 'enum', 'impl', 'as', 'in', 'is',
            'super', 'crate', 'ref', 'move', 'mut', 'loop', 'while', 'for', 'return', 'int', 'nat', 'requires', 'ensures'}


def nm(n):
    return n + '_' if n in RESERVED else n


class Emit:
    def __init__(self, mir):
        self.mir = mir
        self.lits = {}
        self.opaque = set()
        self.calls = {}      # function -> (argument sorts, result sort)

    # ---- sorts -------------------------------------------------------------------------
    def sort(self, s):
        k = s[0]
        if k == 'meta':
            raise Unsupported('meta sort in a specification')
        if k in ('bool', 'int', 'char'):
            return k
        if k == 'Seq':
            return 'Seq<%s>' % self.sort(s[1])
        if k == 'Tup':
            return '(%s)' % ''.join(self.sort(x) + ', ' for x in s[1]) if s[1] else '()'
        if k == 'Map':
            return 'Map<%s, %s>' % (self.sort(s[1]), self.sort(s[2]))
        if k == 'Set':
            return 'Set<%s>' % self.sort(s[1])
        if k == 'Fn':
            return 'spec_fn(%s) -> %s' % (', '.join(self.sort(x) for x in s[1]), self.sort(s[2]))
        if k == 'D':
            if not s[2]:
                if s[1] not in self.mir.dt and s[1] not in ('Ordering', 'SynIdent', 'SynPath', 'Tok', 'Err', 'PyObj', 'PyWorld', 'Param', 'Infallible'):
                    self.opaque.add(s[1])
                return 'ErrV' if s[1] == 'Err' else s[1]
            return '%s<%s>' % (s[1], ', '.join(self.sort(x) for x in s[2]))
        raise Unsupported('sort %s' % (s,))

    # ---- literals ----------------------------------------------------------------------
    def lit(self, s):
        if s == '':
            return 'Seq::<char>::empty()'
        n = self.lits.get(s)
        if n is None:
            b = re.sub(r'[^A-Za-z0-9]', lambda m: '_%02x' % ord(m.group(0)), s)
            if len(b) > 40:
                b = b[:30] + '_n%d' % len(self.lits)
            n = 'L_' + b
            while n in self.lits.values():
                n += 'q'
            self.lits[s] = n
        return n + '()'

    @staticmethod
    def chr(c):
        if 32 <= c < 127 and chr(c) not in "'\\":
            return "'%s'" % chr(c)
        return "'\\u{%x}'" % c

    def lits_module(self):
        o = ['pub mod lits { use vstd::prelude::*; verus! {']
        for s, n in sorted(self.lits.items()):
            cs = ', '.join(self.chr(ord(c)) for c in s)
            o.append('pub closed spec fn %s() -> Seq<char> { seq![%s] }' % (n, cs))
            o.append('pub proof fn l%s() ensures %s().len() == %d, %s { }' % (
                n[1:], n, len(s), ', '.join('%s()[%d] == %s' % (n, i, self.chr(ord(c))) for i, c in enumerate(s))))
        o.append('} }')
        return '\n'.join(o)

    def text(self, t):
        """contract text: `q!{ rust tokens with $x and $(expr) }` becomes the token sequence quote! builds; string literals become
        literal functions"""
        t = re.sub(r"'([][(){}\"|;,])'", lambda m: "'\\u{%x}'" % ord(m.group(1)), t)
        t = seqs(quotes(t))
        def f(m):
            return self.lit(eval(m.group(1)))
        return re.sub(r'("(?:[^"\\]|\\.)*")@', f, t)

    # ---- datatypes ---------------------------------------------------------------------
    def datatypes(self):
        o = ['''pub enum Ordering { Less, Equal, Greater }
pub enum ControlFlow<C, B> { Continue(C), Break(B) }
pub struct SynIdent { pub s: Seq<char> }
pub struct SynPath { pub s: Seq<char> }
pub struct ErrV { pub id: int }
pub struct PyObj { pub id: int }
pub struct PyWorld { pub id: int }
pub struct Param { pub id: int }
pub struct Infallible { pub id: int }
#[verifier::ext_equal]
pub enum Tok { Id(Seq<char>), P(Seq<char>), S(Seq<char>), G(int, Seq<Tok>), PathT(Seq<char>), N(int), Lit(Seq<char>) }''']
        for v, (kind, vs) in sorted(self.mir.dt.items()):
            if v.startswith('ConfigBuilder'):
                continue
            o.append('#[verifier::ext_equal]')
            if kind == 'struct':
                fs = vs[0][1]
                o.append('pub struct %s { %s }' % (v, ', '.join('pub %s: %s' % (self.fname(n), self.fsort(s, b)) for n, s, b in fs)))
            else:
                o.append('pub enum %s { %s }' % (v, ', '.join(
                    vn + ('' if not fs else
                          ('(%s)' % ', '.join(self.fsort(s, b) for _, s, b in fs) if fs[0][0].isdigit()
                           else ' { %s }' % ', '.join('%s: %s' % (self.fname(n), self.fsort(s, b)) for n, s, b in fs)))
                    for vn, fs in vs)))
        for n in sorted(self.opaque):
            o.append('pub struct %s { pub id: int }' % n)
        return '\n'.join(o)

    def fsort(self, s, boxed):
        if s == META:
            self.opaque.add('Unit_')
            return 'Unit_'
        r = self.sort(s)
        return 'Box<%s>' % r if boxed else r

    @staticmethod
    def fname(n):
        if n.isdigit():
            return 'f' + n
        return nm(n)

    def dt(self, s):
        d = self.mir.dt.get(s[1]) if s[0] == 'D' else None
        return d

    # ---- terms -------------------------------------------------------------------------
    def term(self, t, env=None):
        """text of t; env: id -> let-bound name"""
        env = env or {}
        if t.id in env:
            return env[t.id]
        P = lambda x: self.term(x, env)
        op, a = t.op, t.a
        if op == 'var':
            return nm(a[0])
        if op == 'int':
            return '%dint' % a[0] if a[0] >= 0 else '(%dint)' % a[0]
        if op == 'bool':
            return 'true' if a[0] else 'false'
        if op == 'chr':
            return self.chr(a[0])
        if op == 'str':
            return self.lit(a[0])
        if op == 'seqlit':
            if not a:
                return 'Seq::<%s>::empty()' % self.sort(t.s[1])
            return 'Seq::<%s>::empty()%s' % (self.sort(t.s[1]), ''.join('.push(%s)' % P(x) for x in a))
        if op == 'tuple':
            return '(%s)' % ''.join(P(x) + ', ' for x in a) if a else '()'
        if op == 'tproj':
            return '%s.%d' % (self.par(P(a[0])), a[1])
        if op == 'not':
            return '!(%s)' % P(a[0])
        if op == 'and':
            return '(%s)' % ' && '.join(P(x) for x in a)
        if op == 'or':
            return '(%s)' % ' || '.join(P(x) for x in a)
        if op == 'imp':
            return '(%s ==> %s)' % (P(a[0]), P(a[1]))
        if op == 'eq':
            return '(%s == %s)' % (P(a[0]), P(a[1]))
        if op == 'ite':
            return '(if %s { %s } else { %s })' % (P(a[0]), P(a[1]), P(a[2]))
        if op == 'lt':
            return '(%s < %s)' % (P(a[0]), P(a[1]))
        if op == 'le':
            return '(%s <= %s)' % (P(a[0]), P(a[1]))
        if op in ('add', 'sub', 'mul', 'div', 'mod'):
            return '(%s %s %s)' % (P(a[0]), {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'mod': '%'}[op], P(a[1]))
        if op == 'len':
            return '(%s.len() as int)' % self.par(P(a[0]))
        if op == 'idx':
            return '%s[%s]' % (self.par(P(a[0])), P(a[1]))
        if op == 'cat':
            r = P(a[0])
            for x in a[1:]:
                r = '(%s + %s)' % (r, P(x))
            return r
        if op == 'subr':
            return '%s.subrange(%s, %s)' % (self.par(P(a[0])), P(a[1]), P(a[2]))
        if op == 'upd':
            return '%s.update(%s, %s)' % (self.par(P(a[0])), P(a[1]), P(a[2]))
        if op == 'call':
            ty = ''
            self.calls.setdefault(a[0], (tuple(x.s for x in a[1:]), t.s))
            if a[0] in ('map_empty', 'set_empty', 'seq_set', 'seq_to_map') and len(a) == 1:
                ty = '::<%s>' % ', '.join(self.sort(x) for x in t.s[1:])
            return '%s%s(%s)' % (a[0], ty, ', '.join(P(x) for x in a[1:]))
        if op == 'apply':
            return '(%s)(%s)' % (P(a[0]), ', '.join(P(x) for x in a[1:]))
        if op == 'lam':
            vs, b = a
            return '(|%s| { %s })' % (', '.join('%s: %s' % (nm(v.a[0]), self.sort(v.s)) for v in vs), P(b))
        if op in ('forall', 'exists'):
            vs, b = a
            return '(%s|%s| %s%s)' % (op, ', '.join('%s: %s' % (nm(v.a[0]), self.sort(v.s)) for v in vs),
                                      '#![auto] ', P(b))
        if op == 'ctor':
            if t.s[0] == 'D' and t.s[1] in ('Option', 'Result', 'ControlFlow', 'Ordering'):
                pre = '%s::%s' % (t.s[1], a[0])
                if t.s[2] and t.s[1] != 'Option':
                    pre = '%s::<%s>::%s' % (t.s[1], ', '.join(self.sort(x) for x in t.s[2]), a[0])
                elif t.s[2]:
                    pre = 'Option::<%s>::%s' % (self.sort(t.s[2][0]), a[0])
                return pre + ('(%s)' % ', '.join(P(x) for x in a[1:]) if len(a) > 1 else '')
            if t.s[0] == 'D' and t.s[1] in ('SynIdent', 'SynPath'):
                return '%s { s: %s }' % (t.s[1], P(a[1]))
            if t.s == D('Tok'):
                return 'Tok::%s(%s)' % (a[0], ', '.join(P(x) for x in a[1:]))
            d = self.dt(t.s)
            if d is None:
                raise Unsupported('constructor of %s' % (t.s,))
            kind, vs = d
            fs = dict(vs)[a[0]]
            args = [('Box::new(%s)' % P(x)) if f[2] else P(x) for x, f in zip(a[1:], fs)]
            if kind == 'struct':
                return '%s { %s }' % (t.s[1], ', '.join('%s: %s' % (self.fname(f[0]), x) for f, x in zip(fs, args)))
            if not fs:
                return '%s::%s' % (t.s[1], a[0])
            if fs[0][0].isdigit():
                return '%s::%s(%s)' % (t.s[1], a[0], ', '.join(args))
            return '%s::%s { %s }' % (t.s[1], a[0], ', '.join('%s: %s' % (self.fname(f[0]), x) for f, x in zip(fs, args)))
        if op == 'is':
            return '(%s is %s)' % (P(a[1]), a[0])
        if op == 'proj':
            vn, i, x = a
            if x.s[0] == 'D' and x.s[1] in ('Option', 'Result', 'ControlFlow'):
                return '(%s->%s_0)' % (self.par(P(x)), vn)
            if x.s[0] == 'D' and x.s[1] in ('SynIdent', 'SynPath'):
                return '%s.s' % self.par(P(x))
            d = self.dt(x.s)
            if d is None:
                raise Unsupported('projection of %s' % (x.s,))
            kind, vs = d
            f = dict(vs)[vn][i]
            if kind == 'struct':
                r = '%s.%s' % (self.par(P(x)), self.fname(f[0]))
            elif f[0].isdigit():
                r = '(%s->%s_%s)' % (self.par(P(x)), vn, f[0])
            else:
                r = '(%s->%s_%s)' % (self.par(P(x)), vn, self.fname(f[0]))
            return '(*%s)' % r if f[2] else r
        raise Unsupported('term ' + op)

    @staticmethod
    def par(s):
        if re.fullmatch(r'[A-Za-z_0-9.]+(\(\))?', s) or (s.startswith('(') and s.endswith(')')):
            return s
        return '(%s)' % s

    # ---- shared subterms -----------------------------------------------------------------
    def lets(self, terms, bound=frozenset()):
        """names for closed subterms used more than once (in dependency order)"""
        cnt = {}
        order = []

        def visit(t):
            c = cnt.get(t.id, 0)
            cnt[t.id] = c + 1
            if c:
                return
            for x in t.a:
                if isinstance(x, T):
                    visit(x)
                elif isinstance(x, tuple):
                    pass
            order.append(t)
        for t in terms:
            visit(t)
        size = {}

        def sz(t):
            r = size.get(t.id)
            if r is None:
                r = 1 + sum(sz(x) for x in t.a if isinstance(x, T))
                size[t.id] = r
            return r
        env = {}
        out = []
        for t in order:
            if cnt[t.id] > 1 and sz(t) > 6 and not t.meta and t.op not in ('lam', 'str', 'chr', 'seqlit') \
                    and not any(v[0] == 'q' and '_' in v for v in t.fv):
                n = 'v%d' % len(out)
                out.append('let %s = %s;' % (n, self.term(t, env)))
                env[t.id] = n
        return out, env


def has_trigger(q):
    """does the quantified term offer a trigger over all its variables?"""
    vs, body = q.a
    want = {v.a[0] for v in vs}
    got = set()
    seen = set()

    def pure(t):
        if not (t.fv & want):
            return True
        if t.op in ('add', 'sub', 'mul', 'le', 'lt', 'eq', 'and', 'or', 'not', 'imp', 'ite', 'lam', 'forall', 'exists'):
            return False
        return all(pure(x) for x in t.a if isinstance(x, T))

    def visit(t):
        if t.id in seen or not (t.fv & want):
            return
        seen.add(t.id)
        if t.op in ('call', 'idx', 'apply') and pure(t):
            got.update(t.fv & want)
        for x in t.a:
            if isinstance(x, T):
                visit(x)
    visit(body)
    return got >= want


def closing(t, i):
    """index of the bracket that closes the one at i"""
    pairs = {'(': ')', '{': '}', '[': ']'}
    st = []
    while i < len(t):
        ch = t[i]
        if ch == '"':
            i += 1
            while t[i] != '"':
                i += 2 if t[i] == '\\' else 1
        elif ch in pairs:
            st.append(pairs[ch])
        elif st and ch == st[-1]:
            st.pop()
            if not st:
                return i
        i += 1
    raise ValueError('unbalanced quote in a contract')


QTOK = re.compile(r"""\s*(?:(?P<id>r\#[A-Za-z_]\w*|[A-Za-z_]\w*)|(?P<lt>'[a-z_]\w*)|(?P<lit>"(?:[^"\\]|\\.)*"|\d\w*)|(?P<op>\.\.\.|<<=|>>=|\.\.=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\.\.|<<|>>|[-+*/%^!&|=<>@.,;:\#?~_]))""")


def quote_seq(t):
    parts = []
    cur = []
    i = 0

    def flush():
        if cur:
            parts.append('seq![%s]' % ', '.join(cur))
            cur.clear()
    while i < len(t):
        if t[i].isspace():
            i += 1
            continue
        if t.startswith('$S(', i):     # a string literal with that value
            j = closing(t, i + 2)
            cur.append('Tok::S(%s)' % t[i + 3:j])
            i = j + 1
            continue
        if t.startswith('$N(', i):     # a number
            j = closing(t, i + 2)
            cur.append('Tok::N(%s)' % t[i + 3:j])
            i = j + 1
            continue
        if t.startswith('$I(', i):     # an identifier with that spelling
            j = closing(t, i + 2)
            cur.append('Tok::Id(%s)' % t[i + 3:j])
            i = j + 1
            continue
        if t.startswith('$T(', i):     # a literal written like that
            j = closing(t, i + 2)
            cur.append('Tok::Lit(%s)' % t[i + 3:j])
            i = j + 1
            continue
        if t[i] == '$':
            flush()
            if t[i + 1] == '(':
                j = closing(t, i + 1)
                parts.append(t[i + 1:j + 1])
            else:
                m = re.match(r'\w+', t[i + 1:])
                j = i + m.end()
                parts.append(m.group(0))
            i = j + 1
            continue
        if t[i] in '({[':
            j = closing(t, i)
            cur.append('Tok::G(%d, %s)' % ('({['.index(t[i]), quote_seq(t[i + 1:j])))
            i = j + 1
            continue
        m = QTOK.match(t, i)
        if not m or m.end() == i:
            raise ValueError('token in a contract: ' + t[i:i + 20])
        if m.group('id'):
            x = m.group('id')
            cur.append('Tok::P("_"@)' if x == '_' else 'Tok::Id("%s"@)' % x)
        elif m.group('lt'):
            cur.append('Tok::P("%s"@)' % m.group('lt'))
        elif m.group('lit'):
            x = m.group('lit')
            cur.append('Tok::Lit("%s"@)' % x.replace('\\', '\\\\').replace('"', '\\"'))
        else:
            cur.append('Tok::P("%s"@)' % m.group('op'))
        i = m.end()
    flush()
    if not parts:
        return 'Seq::<Tok>::empty()'
    return '(%s)' % ' + '.join(parts) if len(parts) > 1 else parts[0]


def quotes(t):
    while True:
        i = t.find('q!{')
        if i < 0:
            return t
        j = closing(t, i + 2)
        t = t[:i] + quote_seq(t[i + 3:j]) + t[j + 1:]


def splitargs(t):
    out, i, j = [], 0, 0
    while j < len(t):
        if t[j] in '([{"':
            if t[j] == '"':
                j = re.compile(r'"(?:[^"\\]|\\.)*"').match(t, j).end() - 1
            else:
                j = closing(t, j)
        elif t[j] == ',':
            out.append(t[i:j])
            i = j + 1
        j += 1
    if t[i:].strip():
        out.append(t[i:])
    return [x.strip() for x in out]


def seqs(t):
    """seq![a, b] as a chain of push, which the lemmas about sequences are stated for"""
    i = 0
    while True:
        i = t.find('seq![', i)
        if i < 0:
            return t
        j = closing(t, i + 4)
        body = t[i + 5:j]
        plain = re.sub(r'"(?:[^"\\]|\\.)*"', '', body)
        if '|' in plain and ';' in plain:
            i = j
            continue
        a = splitargs(body)
        t = t[:i] + 'Seq::empty()' + ''.join('.push(%s)' % x for x in a) + t[j + 1:]


def free_vars(terms):
    """free variables with their sorts"""
    seen = set()
    vs = {}

    def visit(t, bound):
        if not (t.fv - bound):
            return
        k = (t.id, bound & t.fv)
        if k in seen:
            return
        seen.add(k)
        if t.op == 'var':
            if t.a[0] not in bound:
                vs[t.a[0]] = t.s
        elif t.op in ('lam', 'forall', 'exists'):
            visit(t.a[1], bound | {v.a[0] for v in t.a[0]})
        else:
            for x in t.a:
                if isinstance(x, T):
                    visit(x, bound)
    for t in terms:
        visit(t, frozenset())
    return vs
