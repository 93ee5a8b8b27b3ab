// Domain vocabulary: what the engine's values mean.

pub uninterp spec fn syn_ident_ok(s: Seq<char>) -> bool;   // syn accepts s as an identifier (keywords are rejected)
pub uninterp spec fn syn_path_ok(s: Seq<char>) -> bool;
pub uninterp spec fn str_cmp(a: Seq<char>, b: Seq<char>) -> Ordering;
pub uninterp spec fn err_new() -> ErrV;
pub uninterp spec fn err_from<A>(a: A) -> ErrV;

/// syn does not accept keywords as plain identifiers
pub axiom fn axiom_keywords()
    ensures !syn_ident_ok("super"@), !syn_ident_ok("self"@), !syn_ident_ok("crate"@);
/// comparison of str is an order whose equality is equality
pub axiom fn axiom_str_cmp(a: Seq<char>, b: Seq<char>)
    ensures str_cmp(a, b) is Equal <==> a == b, str_cmp(a, b) is Less <==> str_cmp(b, a) is Greater;

/// Python spelling of a Rust spelling
pub open spec fn py_of(s: Seq<char>) -> Seq<char> { if seq_starts(s, "r#"@) { s.subrange(2, s.len() as int) } else { s } }
/// Rust spelling of a Python name
pub open spec fn rs_of(s: Seq<char>) -> Seq<char> { if syn_ident_ok(s) { s } else { "r#"@ + s } }

pub open spec fn ident(s: Seq<char>) -> Ident { Ident { f0: s } }
pub open spec fn py_ident(s: Seq<char>) -> Ident { ident(rs_of(s)) }
pub open spec fn ipy(i: Ident) -> Seq<char> { py_of(i.f0) }
pub open spec fn irs(i: Ident) -> Seq<char> { i.f0 }

pub open spec fn leading_dots(s: Seq<char>) -> int { seq_twn(s, |c: char| c == '.') }



// ---- paths -----------------------------------------------------------------------------------
pub open spec fn sup() -> Ident { ident("super"@) }
pub open spec fn slf() -> Ident { ident("self"@) }
pub open spec fn nonempty(s: Seq<char>) -> bool { s.len() as int != 0 }
pub open spec fn path0() -> Path { Path { leading_colon: false, segments: Seq::empty() } }
pub open spec fn mkpath(segs: Seq<Ident>) -> Path { Path { leading_colon: false, segments: segs } }

pub open spec fn py_segs(v: Seq<char>) -> Seq<Ident> {
    seq_repeat(sup(), leading_dots(v)) + seq_map(seq_filter(split_chr(v, '.'), |s: Seq<char>| nonempty(s)), |s: Seq<char>| py_ident(s))
}
pub broadcast proof fn py_segs_empty(v: Seq<char>)
    requires v.len() == 0
    ensures #[trigger] py_segs(v) == Seq::<Ident>::empty()
{
    let f = |s: Seq<char>| nonempty(s);
    let sp = split_chr(v, '.');
    assert(sp =~= seq![Seq::<char>::empty()]);
    assert(sp.drop_last() =~= Seq::<Seq<char>>::empty());
    assert(seq_filter(sp.drop_last(), f) =~= Seq::<Seq<char>>::empty());
    assert(seq_filter(sp, f) =~= Seq::<Seq<char>>::empty());
    assert(py_segs(v) =~= Seq::<Ident>::empty());
}
/// component of a dotted name as printed for Python: a parent marker is printed as nothing
pub open spec fn seg_py(i: Ident) -> Seq<char> { if i.f0 == "super"@ { Seq::empty() } else { ipy(i) } }
pub open spec fn segs_py(s: Seq<Ident>) -> Seq<char> {
    str_join(seq_map(s, |i: Ident| seg_py(i)) + (if s.len() > 0 && s.last().f0 == "super"@ { seq![Seq::<char>::empty()] } else { Seq::empty() }), "."@)
}
pub open spec fn segs_rs(p: Path) -> Seq<char> {
    str_join((if p.leading_colon { seq![Seq::<char>::empty()] } else { Seq::empty() }) + seq_map(p.segments, |i: Ident| i.f0), "::"@)
}


// ---- relative paths ----------------------------------------------------------------------------
pub open spec fn step(cur: Option<Seq<Ident>>, seg: Ident) -> Option<Seq<Ident>> {
    match cur {
        Option::None => Option::None,
        Option::Some(c) => if seg == slf() { Option::Some(c) }
            else if seg == sup() { if c.len() == 0 { Option::None } else { Option::Some(c.drop_last()) } }
            else { Option::Some(c.push(seg)) },
    }
}
/// the module or item a relative Rust path denotes when it is written inside `base`
pub open spec fn resolve(base: Option<Seq<Ident>>, rel: Seq<Ident>) -> Option<Seq<Ident>>
    decreases rel.len()
{
    if rel.len() == 0 { base } else { step(resolve(base, rel.drop_last()), rel.last()) }
}
pub open spec fn clean(s: Seq<Ident>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != sup() && s[i] != slf() }

pub broadcast proof fn resolve_append(base: Option<Seq<Ident>>, a: Seq<Ident>, b: Seq<Ident>)
    ensures #[trigger] resolve(base, a + b) == resolve(resolve(base, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        resolve_append(base, a, b.drop_last());
    }
}
pub broadcast proof fn resolve_sups(base: Seq<Ident>, k: int)
    requires 0 <= k <= base.len()
    ensures #[trigger] resolve(Option::Some(base), seq_repeat(sup(), k)) == Option::Some(base.subrange(0, base.len() - k))
    decreases k
{
    if k == 0 { assert(base.subrange(0, base.len() as int) =~= base); } else {
        l_super(); l_self();
        assert(L_super()[1] != L_self()[1]);
        assert(sup() != slf()) by { assert(sup().f0[1] != slf().f0[1]); }
        resolve_sups(base, k - 1);
        let r = seq_repeat(sup(), k);
        assert(r.drop_last() =~= seq_repeat(sup(), k - 1));
        assert(base.subrange(0, base.len() - (k - 1)).drop_last() =~= base.subrange(0, base.len() - k));
    }
}
pub broadcast proof fn resolve_clean(base: Seq<Ident>, r: Seq<Ident>)
    requires clean(r)
    ensures #[trigger] resolve(Option::Some(base), r) == Option::Some(base + r)
    decreases r.len()
{
    if r.len() == 0 { assert(base + r =~= base); } else {
        assert forall|i: int| 0 <= i < r.drop_last().len() implies #[trigger] r.drop_last()[i] != sup() && r.drop_last()[i] != slf() by {
            assert(r.drop_last()[i] == r[i]);
        }
        resolve_clean(base, r.drop_last());
        assert(r[r.len() - 1] != sup());
        assert((base + r.drop_last()).push(r.last()) =~= base + r);
    }
}
pub broadcast proof fn resolve_short(base: Option<Seq<Ident>>, rel: Seq<Ident>)
    ensures
        rel.len() == 1 ==> #[trigger] resolve(base, rel) == step(base, rel[0]),
        rel.len() == 2 ==> resolve(base, rel) == step(step(base, rel[0]), rel[1]),
{
    if rel.len() == 1 || rel.len() == 2 {
        let d = rel.drop_last();
        assert(resolve(base, rel) == step(resolve(base, d), rel.last()));
        if rel.len() == 2 {
            assert(resolve(base, d.drop_last()) == base);
            assert(resolve(base, d) == step(base, d.last()));
        }
    }
}
/// length of the common prefix
pub open spec fn common(a: Seq<Ident>, b: Seq<Ident>) -> int { seq_twn(seq_zip(a, b), |p: (Ident, Ident)| p.0 == p.1) }
pub proof fn common_prefix(a: Seq<Ident>, b: Seq<Ident>)
    ensures 0 <= common(a, b) <= a.len(), common(a, b) <= b.len(),
        a.subrange(0, common(a, b)) =~= b.subrange(0, common(a, b)),
        common(a, b) < a.len() && common(a, b) < b.len() ==> a[common(a, b)] != b[common(a, b)],
{
    let z = seq_zip(a, b);
    let f = |p: (Ident, Ident)| p.0 == p.1;
    twn_bounds(z, f);
    let c = common(a, b);
    assert forall|i: int| 0 <= i < c implies a[i] == b[i] by { assert(f(z[i])); }
    if c < z.len() { assert(!f(z[c])); }
}
/// the shape the unambiguous form must have
pub open spec fn unambiguous(base: Seq<Ident>, r: Seq<Ident>) -> bool {
    r.len() > 0 && (r[0] == slf() || r[0] == sup()) && r.last() != sup() && !(r.len() == 1 && r[0] == slf() && base.len() > 0)
}

// ---- attribute filter (C04) ---------------------------------------------------------------------
pub open spec fn reserved_name(s: Seq<char>) -> bool {
    s == "get_type"@ || s == "obj"@ || s == "py"@ || s == "repr"@ || s == "str"@
}
pub open spec fn private(i: Ident) -> bool { seq_starts(ipy(i), "_"@) }
pub open spec fn attr_allowed(cfg: Config, name: Ident, module: Seq<Ident>) -> bool {
    &&& !reserved_name(ipy(name))
    &&& !seq_any(cfg.blocklist_names, |b: Seq<char>| ipy(name) == b)
    &&& !seq_any(module, |i: Ident| ipy(i) == "__future__"@)
    &&& !seq_any(module, |i: Ident| ipy(i) == "typing"@)
    &&& cfg.include_private || !(private(name) || seq_any(module, |i: Ident| private(i)))
}

// ---- imports (C03) ------------------------------------------------------------------------------
/// `origin` lies inside `package`
pub open spec fn inside(origin: Seq<Ident>, package: Seq<Ident>) -> bool { seq_starts(origin, package) }
pub open spec fn import_class(origin: Seq<Ident>, target: Seq<Ident>) -> ImportType {
    if target.len() == 0 || !inside(origin, target.subrange(0, 1)) { ImportType::ExternalImport }
    else if target.len() >= 2 && inside(origin, target.drop_last()) { ImportType::SubmoduleReexport }
    else { ImportType::PackageReexport }
}

// ---- tokens of generated code --------------------------------------------------------------------
pub uninterp spec fn ts_str(s: Seq<Tok>) -> Seq<char>;      // TokenStream::to_string
/// occurrences of the keyword `impl`
pub open spec fn tok_impls(t: Tok) -> nat
    decreases t
{
    match t { Tok::Id(s) => if s == "impl"@ { 1 } else { 0 }, Tok::G(k, ts) => impls(ts), _ => 0 }
}
pub open spec fn impls(ts: Seq<Tok>) -> nat
    decreases ts
{
    if ts.len() == 0 { 0 } else { impls(ts.drop_last()) + tok_impls(ts[ts.len() - 1]) }
}
pub broadcast proof fn impls_push(ts: Seq<Tok>, t: Tok)
    ensures #[trigger] impls(ts.push(t)) == impls(ts) + tok_impls(t)
{
    assert(ts.push(t).drop_last() =~= ts);
}
pub broadcast proof fn impls_empty()
    ensures #[trigger] impls(Seq::<Tok>::empty()) == 0
{}
pub broadcast proof fn impls_add(a: Seq<Tok>, b: Seq<Tok>)
    ensures #[trigger] impls(a + b) == impls(a) + impls(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        impls_add(a, b.drop_last());
    }
}
pub open spec fn starts_impl(ts: Seq<Tok>) -> bool { ts.len() > 0 && ts[0] == Tok::Id("impl"@) }
pub broadcast proof fn tok_impls_group(k: int, ts: Seq<Tok>)
    ensures #[trigger] tok_impls(Tok::G(k, ts)) == impls(ts)
{}
pub broadcast proof fn impls_flat(s: Seq<Seq<Tok>>)
    requires forall|i: int| 0 <= i < s.len() ==> impls(#[trigger] s[i]) == 0
    ensures #[trigger] impls(seq_flat(s)) == 0
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies impls(#[trigger] s.drop_last()[i]) == 0 by { assert(s.drop_last()[i] == s[i]); }
        impls_flat(s.drop_last());
        impls_add(seq_flat(s.drop_last()), s.last());
        assert(impls(s[s.len() - 1]) == 0);
    }
}
pub broadcast proof fn impls_start(ts: Seq<Tok>)
    ensures #[trigger] starts_impl(ts) ==> impls(ts) >= 1
    decreases ts.len()
{
    if ts.len() > 1 { assert(ts.drop_last()[0] == ts[0]); impls_start(ts.drop_last()); } else if ts.len() == 1 { assert(ts.drop_last() =~= Seq::<Tok>::empty()); assert(starts_impl(ts) ==> tok_impls(ts[0]) == 1); }
}

/// occurrences of HashMap and HashSet
pub open spec fn tok_hashes(t: Tok) -> nat
    decreases t
{
    match t { Tok::Id(s) => if s == "HashMap"@ || s == "HashSet"@ { 1 } else { 0 }, Tok::G(k, ts) => hashes(ts), _ => 0 }
}
pub open spec fn hashes(ts: Seq<Tok>) -> nat
    decreases ts
{
    if ts.len() == 0 { 0 } else { hashes(ts.drop_last()) + tok_hashes(ts[ts.len() - 1]) }
}
pub broadcast proof fn hashes_push(ts: Seq<Tok>, t: Tok)
    ensures #[trigger] hashes(ts.push(t)) == hashes(ts) + tok_hashes(t)
{
    assert(ts.push(t).drop_last() =~= ts);
}
pub broadcast proof fn hashes_empty()
    ensures #[trigger] hashes(Seq::<Tok>::empty()) == 0
{}
pub broadcast proof fn hashes_add(a: Seq<Tok>, b: Seq<Tok>)
    ensures #[trigger] hashes(a + b) == hashes(a) + hashes(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        hashes_add(a, b.drop_last());
    }
}
pub broadcast proof fn tok_hashes_group(k: int, ts: Seq<Tok>)
    ensures #[trigger] tok_hashes(Tok::G(k, ts)) == hashes(ts)
{}

// ---- types ---------------------------------------------------------------------------------------
pub open spec fn ty_size(t: Type) -> int
    decreases t
{
    match t {
        Type::Optional(x) => 1 + ty_size(*x),
        Type::PyFrozenSet(x) => 1 + ty_size(*x),
        Type::PyList(x) => 1 + ty_size(*x),
        Type::PySet(x) => 1 + ty_size(*x),
        Type::PyDict { key_type, value_type } => 1 + ty_size(*key_type) + ty_size(*value_type),
        Type::PyTuple(v) => 2 + tys_size(v),
        Type::Union(v) => 1 + tys_size(v),
        _ => 1,
    }
}
pub open spec fn tys_size(v: Seq<Type>) -> int
    decreases v
{
    if v.len() == 0 { 0 } else { tys_size(v.drop_last()) + ty_size(v[v.len() - 1]) }
}
pub broadcast proof fn ty_size_pos(t: Type)
    ensures #[trigger] ty_size(t) >= 1,
        t is PyTuple ==> ty_size(t) == 2 + tys_size(t->PyTuple_0),
        t is Union ==> ty_size(t) == 1 + tys_size(t->Union_0),
        t is PyDict ==> ty_size(t) == 1 + ty_size(*t->PyDict_key_type) + ty_size(*t->PyDict_value_type) && ty_size(*t->PyDict_key_type) >= 1 && ty_size(*t->PyDict_value_type) >= 1,
        t is PyList ==> ty_size(t) == 1 + ty_size(*t->PyList_0),
        t is PySet ==> ty_size(t) == 1 + ty_size(*t->PySet_0),
        t is PyFrozenSet ==> ty_size(t) == 1 + ty_size(*t->PyFrozenSet_0),
        t is Optional ==> ty_size(t) == 1 + ty_size(*t->Optional_0),
    decreases t
{
    match t {
        Type::Optional(x) => { ty_size_pos(*x); }
        Type::PyFrozenSet(x) => { ty_size_pos(*x); }
        Type::PyList(x) => { ty_size_pos(*x); }
        Type::PySet(x) => { ty_size_pos(*x); }
        Type::PyDict { key_type, value_type } => { ty_size_pos(*key_type); ty_size_pos(*value_type); }
        Type::PyTuple(v) => { tys_size_pos(v); }
        Type::Union(v) => { tys_size_pos(v); }
        _ => {}
    }
}
pub broadcast proof fn tys_size_pos(v: Seq<Type>)
    ensures #[trigger] tys_size(v) >= 0
    decreases v
{
    if v.len() > 0 { tys_size_pos(v.drop_last()); ty_size_pos(v[v.len() - 1]); }
}
pub broadcast proof fn tys_size_elem(v: Seq<Type>, i: int)
    requires 0 <= i < v.len()
    ensures #![trigger tys_size(v), v[i]] ty_size(v[i]) <= tys_size(v)
    decreases v.len()
{
    ty_size_pos(v[v.len() - 1]);
    tys_size_pos(v.drop_last());
    if i < v.len() - 1 { tys_size_elem(v.drop_last(), i); assert(v.drop_last()[i] == v[i]); }
}

// ---- docstrings (C08) ------------------------------------------------------------------------------
pub open spec fn blank(c: char) -> bool { is_ws(c) && c != '\u{a}' }
/// every line is trimmed
pub open spec fn tidy(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() && blank(#[trigger] s[i]) ==> 0 < i < s.len() - 1 && s[i - 1] != '\u{a}' && s[i + 1] != '\u{a}'
}
/// no two adjacent equal characters that satisfy p
pub open spec fn norun(s: Seq<char>, p: spec_fn(char) -> bool) -> bool {
    forall|i: int| 0 < i < s.len() && p(#[trigger] s[i]) ==> s[i - 1] != s[i]
}
pub open spec fn no_runs(s: Seq<char>) -> bool {
    forall|i: int| 0 < i < s.len() && (blank(#[trigger] s[i]) || s[i] == '`') ==> s[i - 1] != s[i]
}
/// the text without white space and backticks
pub open spec fn core(s: Seq<char>) -> Seq<char> { seq_filter(s, |c: char| !is_ws(c) && c != '`') }
/// the same characters in the same order, up to white space, backticks and trailing slashes
pub open spec fn same_core(new: Seq<char>, old: Seq<char>) -> bool {
    exists|k: int| k >= 0 && core(old) == core(new) + #[trigger] seq_repeat('/', k)
}
pub open spec fn joined(s: Seq<char>) -> Seq<char> { str_join(seq_map(str_lines(s), |l: Seq<char>| str_trim(l)), "\n"@) }
/// s without the second of two adjacent equal characters that satisfy p
pub open spec fn dedup_if(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s } else {
        let r = dedup_if(s.drop_last(), p);
        if p(s.last()) && s.len() > 1 && s[s.len() - 2] == s.last() { r } else { r.push(s.last()) }
    }
}
pub open spec fn dedup_step(p: spec_fn(char) -> bool, a: (Option<char>, Seq<char>), c: char) -> (Option<char>, Seq<char>) {
    if p(c) { (Option::Some(c), if a.0 == Option::Some(c) { a.1 } else { a.1.push(c) }) } else { (Option::None, a.1.push(c)) }
}
pub broadcast proof fn dedup_fold(s: Seq<char>, p: spec_fn(char) -> bool, f: spec_fn((Option<char>, Seq<char>), char) -> (Option<char>, Seq<char>))
    requires forall|a: (Option<char>, Seq<char>), c: char| (#[trigger] f(a, c)).0 == dedup_step(p, a, c).0 && f(a, c).1 =~= dedup_step(p, a, c).1
    ensures #![trigger seq_fold(s, (Option::None, Seq::empty()), f), dedup_if(s, p)]
        seq_fold(s, (Option::None, Seq::empty()), f).1 == dedup_if(s, p),
        seq_fold(s, (Option::None, Seq::empty()), f).0 == (if s.len() > 0 && p(s.last()) { Option::Some(s.last()) } else { Option::None }),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        dedup_fold(d, p, f);
        assert(f(seq_fold(d, (Option::None, Seq::empty()), f), s.last()).1 =~= dedup_step(p, seq_fold(d, (Option::None, Seq::empty()), f), s.last()).1);
        if d.len() > 0 { assert(d.last() == s[s.len() - 2]); }
    }
}
pub proof fn split_no_sep(s: Seq<char>, c: char)
    ensures forall|i: int, j: int| 0 <= i < split_chr(s, c).len() && 0 <= j < split_chr(s, c)[i].len() ==> #[trigger] split_chr(s, c)[i][j] != c
    decreases s.len()
{
    if s.len() > 0 {
        split_no_sep(s.drop_last(), c);
        split_nonempty(s.drop_last(), c);
        let r = split_chr(s.drop_last(), c);
        assert forall|i: int, j: int| 0 <= i < split_chr(s, c).len() && 0 <= j < split_chr(s, c)[i].len() implies #[trigger] split_chr(s, c)[i][j] != c by {
            if s.last() == c { if i < r.len() { assert(r[i][j] != c); } }
            else if i < r.len() - 1 { assert(r[i][j] != c); }
            else if j < r.last().len() { assert(r[i][j] != c); }
        }
    }
}
pub broadcast proof fn trim_end_props(s: Seq<char>)
    ensures (#[trigger] str_trim_end(s)).len() <= s.len(), str_trim_end(s) =~= s.subrange(0, str_trim_end(s).len() as int),
        str_trim_end(s).len() > 0 ==> !is_ws(str_trim_end(s).last()),
        forall|i: int| str_trim_end(s).len() <= i < s.len() ==> is_ws(#[trigger] s[i]),
{
    let r = seq_rev(s);
    let f = |c: char| is_ws(c);
    twn_bounds(r, f);
    let n = seq_twn(r, f);
    assert forall|i: int| str_trim_end(s).len() <= i < s.len() implies is_ws(#[trigger] s[i]) by { assert(f(r[s.len() - 1 - i])); }
}
pub open spec fn trim_at(s: Seq<char>) -> int { seq_twn(s, |c: char| is_ws(c)) }
pub proof fn trim_props(s: Seq<char>)
    ensures str_trim(s).len() > 0 ==> !is_ws(str_trim(s)[0]) && !is_ws(str_trim(s).last()),
        0 <= trim_at(s) && trim_at(s) + str_trim(s).len() <= s.len() && str_trim(s) =~= s.subrange(trim_at(s), trim_at(s) + str_trim(s).len()),
        forall|i: int| 0 <= i < trim_at(s) ==> is_ws(#[trigger] s[i]), forall|i: int| trim_at(s) + str_trim(s).len() <= i < s.len() ==> is_ws(#[trigger] s[i]),
{
    let f = |c: char| is_ws(c);
    twn_bounds(s, f);
    let a = seq_twn(s, f);
    let t = trim_s(s);
    trim_end_props(t);
    let n = str_trim(s).len();
    assert(str_trim(s) =~= s.subrange(a, a + n));
    if n > 0 { assert(!f(s[a])); }
    assert forall|i: int| 0 <= i < a implies is_ws(#[trigger] s[i]) by { assert(f(s[i])); }
    assert forall|i: int| a + n <= i < s.len() implies is_ws(#[trigger] s[i]) by { assert(is_ws(t[i - a])); }
}
pub open spec fn good_line(l: Seq<char>) -> bool {
    (l.len() > 0 ==> !is_ws(l[0]) && !is_ws(l.last())) && (forall|j: int| 0 <= j < l.len() ==> #[trigger] l[j] != '\u{a}')
}
pub proof fn join_tidy(ls: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ls.len() ==> good_line(#[trigger] ls[i])
    ensures tidy(str_join(ls, "\n"@))
    decreases ls.len()
{
    l__0a();
    if ls.len() > 1 {
        let d = ls.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies good_line(#[trigger] d[i]) by { assert(d[i] == ls[i]); }
        join_tidy(d);
        let a = str_join(d, "\n"@); let b = ls.last(); let j = str_join(ls, "\n"@);
        assert(good_line(ls[ls.len() - 1]));
        assert forall|i: int| 0 <= i < j.len() && blank(#[trigger] j[i]) implies 0 < i < j.len() - 1 && j[i - 1] != '\u{a}' && j[i + 1] != '\u{a}' by {
            if i < a.len() { assert(blank(a[i])); } else if i > a.len() {
                let k = i - a.len() - 1;
                assert(j[i] == b[k]);
                assert(0 < k < b.len() - 1);
                assert(b[k - 1] != '\u{a}' && b[k + 1] != '\u{a}');
            }
        }
    } else if ls.len() == 1 {
        let b = ls[0];
        assert(good_line(b));
        assert forall|i: int| 0 <= i < b.len() && blank(#[trigger] b[i]) implies 0 < i < b.len() - 1 && b[i - 1] != '\u{a}' && b[i + 1] != '\u{a}' by {}
    }
}
pub proof fn trim_good(l: Seq<char>)
    requires forall|j: int| 0 <= j < l.len() ==> #[trigger] l[j] != '\u{a}'
    ensures good_line(str_trim(l))
{
    trim_props(l);
    let t = str_trim(l);
    let a = trim_at(l);
    assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] != '\u{a}' by { assert(t[j] == l[a + j]); }
}
pub proof fn line_good(s: Seq<char>, i: int)
    requires 0 <= i < str_lines(s).len()
    ensures good_line(str_trim(str_lines(s)[i]))
{
    split_no_sep(s, '\u{a}');
    split_nonempty(s, '\u{a}');
    let q = split_chr(s, '\u{a}')[i];
    let l = str_lines(s)[i];
    assert(l == q || l == q.drop_last());
    assert forall|j: int| 0 <= j < l.len() implies #[trigger] l[j] != '\u{a}' by { assert(q[j] != '\u{a}'); assert(l[j] == q[j]); }
    trim_good(l);
}
pub broadcast proof fn joined_tidy(s: Seq<char>)
    ensures tidy(#[trigger] joined(s)), core(joined(s)) == core(s), same_core(joined(s), s),
{
    let ls = seq_map(str_lines(s), |l: Seq<char>| str_trim(l));
    assert forall|i: int| 0 <= i < ls.len() implies good_line(#[trigger] ls[i]) by { line_good(s, i); }
    join_tidy(ls);
    core_joined(s);
    assert(core(joined(s)) + seq_repeat('/', 0) =~= core(s));
}
pub proof fn filter_add<A>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> bool)
    ensures seq_filter(a + b, f) == seq_filter(a, f) + seq_filter(b, f)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(seq_filter(a, f) + seq_filter(b, f) =~= seq_filter(a, f)); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        filter_add(a, b.drop_last(), f);
        assert(seq_filter(a + b, f) =~= seq_filter(a, f) + seq_filter(b, f));
    }
}
pub proof fn filter_none<A>(a: Seq<A>, f: spec_fn(A) -> bool)
    requires forall|i: int| 0 <= i < a.len() ==> !f(#[trigger] a[i])
    ensures seq_filter(a, f).len() == 0, seq_filter(a, f) == Seq::<A>::empty()
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies !f(#[trigger] a.drop_last()[i]) by { assert(a.drop_last()[i] == a[i]); }
        assert(!f(a[a.len() - 1]));
        filter_none(a.drop_last(), f);
    }
    assert(seq_filter(a, f) =~= Seq::<A>::empty());
}
pub proof fn core_add(a: Seq<char>, b: Seq<char>)
    ensures core(a + b) == core(a) + core(b)
{ filter_add(a, b, |c: char| !is_ws(c) && c != '`'); }
pub proof fn core_ws(a: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> is_ws(#[trigger] a[i]) || a[i] == '`'
    ensures core(a) == Seq::<char>::empty()
{ filter_none(a, |c: char| !is_ws(c) && c != '`'); }
pub proof fn core_trim(s: Seq<char>)
    ensures core(str_trim(s)) == core(s)
{
    trim_props(s);
    let t = str_trim(s);
    let a = trim_at(s);
    let x = s.subrange(0, a); let y = s.subrange(a + t.len(), s.len() as int);
    assert(s =~= x + t + y);
    core_add(x + t, y); core_add(x, t); core_ws(x); core_ws(y);
    assert(core(s) =~= core(t));
}
pub open spec fn cores(ls: Seq<Seq<char>>) -> Seq<char>
    decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else { cores(ls.drop_last()) + core(ls.last()) } }
pub proof fn core_join(ls: Seq<Seq<char>>)
    ensures core(str_join(ls, "\n"@)) == cores(ls)
    decreases ls.len()
{
    l__0a();
    core_ws(Seq::empty());
    if ls.len() == 1 {
        assert(cores(ls.drop_last()) =~= Seq::<char>::empty());
        assert(cores(ls) =~= core(ls[0]));
    } else if ls.len() > 1 {
        core_join(ls.drop_last());
        core_add(str_join(ls.drop_last(), "\n"@) + "\n"@, ls.last());
        core_add(str_join(ls.drop_last(), "\n"@), "\n"@);
        core_ws("\n"@);
        assert(cores(ls) =~= core(str_join(ls, "\n"@)));
    }
}
pub proof fn cores_eq(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> core(#[trigger] a[i]) == core(b[i])
    ensures cores(a) == cores(b)
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies core(#[trigger] a.drop_last()[i]) == core(b.drop_last()[i]) by { assert(a.drop_last()[i] == a[i]); }
        cores_eq(a.drop_last(), b.drop_last());
        assert(core(a[a.len() - 1]) == core(b[b.len() - 1]));
    }
}
pub proof fn core_joined(s: Seq<char>)
    ensures core(joined(s)) == core(s)
{
    let p = split_chr(s, '\u{a}');
    split_nonempty(s, '\u{a}');
    join_split(s, '\u{a}');
    l__0a();
    assert("\n"@ =~= seq!['\u{a}']);
    core_join(p);
    assert(cores(p) == core(s));
    let ls = str_lines(s);
    let ts = seq_map(ls, |l: Seq<char>| str_trim(l));
    core_join(ts);
    assert forall|i: int| 0 <= i < ts.len() implies core(#[trigger] ts[i]) == core(p[i]) by {
        core_trim(ls[i]);
        if i < p.len() - 1 && p[i].len() > 0 && p[i].last() == '\u{d}' {
            assert(ls[i] == p[i].drop_last());
            assert(p[i].drop_last() + seq!['\u{d}'] =~= p[i]);
            core_add(p[i].drop_last(), seq!['\u{d}']);
            core_ws(seq!['\u{d}']);
            assert(core(p[i]) =~= core(ls[i]));
        } else { assert(ls[i] == p[i]); }
    }
    if p.last().len() > 0 {
        cores_eq(ts, p);
    } else {
        let q = p.drop_last();
        assert forall|i: int| 0 <= i < ts.len() implies core(#[trigger] ts[i]) == core(q[i]) by { assert(q[i] == p[i]); }
        cores_eq(ts, q);
        core_ws(p.last());
        assert(cores(p) =~= cores(q));
    }
}
/// a trailing slash is dropped, with the white space before it
pub broadcast proof fn same_core_slash(s: Seq<char>, old: Seq<char>)
    requires s.len() > 0, s.last() == '/', same_core(s, old)
    ensures #[trigger] same_core(str_trim_end(s.subrange(0, s.len() - 1)), old)
{
    let d = s.subrange(0, s.len() - 1);
    let t = str_trim_end(d);
    trim_end_props(d);
    let w = d.subrange(t.len() as int, d.len() as int);
    assert(d =~= t + w);
    core_add(t, w); core_ws(w);
    assert(core(d) =~= core(t));
    assert(s =~= d + seq!['/']);
    core_add(d, seq!['/']);
    assert(seq!['/'].drop_last() =~= Seq::<char>::empty());
    core_ws(Seq::empty());
    assert(core(seq!['/']) =~= seq!['/']);
    let k = choose|k: int| k >= 0 && core(old) == core(s) + #[trigger] seq_repeat('/', k);
    assert(core(t) + seq_repeat('/', k + 1) =~= core(s) + seq_repeat('/', k));
}
pub broadcast proof fn same_core_eq(a: Seq<char>, b: Seq<char>, old: Seq<char>)
    requires core(a) == core(b), same_core(a, old)
    ensures #![trigger same_core(a, old), same_core(b, old)] same_core(b, old)
{
    let k = choose|k: int| k >= 0 && core(old) == core(a) + #[trigger] seq_repeat('/', k);
    assert(core(old) == core(b) + seq_repeat('/', k));
}
pub broadcast proof fn core_edges(b: Seq<char>)
    ensures #![trigger core(" "@ + b)] #![trigger core(b + "\n"@)] core(" "@ + b) == core(b), core(b + "\n"@) == core(b)
{
    l__0a(); l__20();
    core_add(" "@, b); core_add(b, "\n"@); core_ws(" "@); core_ws("\n"@);
    assert(core(" "@ + b) =~= core(b)); assert(core(b + "\n"@) =~= core(b));
}
pub broadcast proof fn core_cut(b: Seq<char>)
    requires b.len() > 0
    ensures #![trigger core(b.subrange(1, b.len() as int))] #![trigger core(b.subrange(0, b.len() - 1))]
        b[0] == '\u{a}' ==> core(b.subrange(1, b.len() as int)) == core(b), b.last() == '\u{a}' ==> core(b.subrange(0, b.len() - 1)) == core(b)
{
    let x = seq!['\u{a}'];
    core_ws(x);
    if b[0] == '\u{a}' { let r = b.subrange(1, b.len() as int); assert(b =~= x + r); core_add(x, r); assert(core(r) =~= core(b)); }
    if b.last() == '\u{a}' { let r = b.subrange(0, b.len() - 1); assert(b =~= r + x); core_add(r, x); assert(core(r) =~= core(b)); }
}
pub broadcast proof fn trim_end_blen(s: Seq<char>)
    ensures #![trigger blen(str_trim_end(s))] blen(str_trim_end(s)) <= blen(s), blen(s) <= blen(str_trim_end(s)) ==> str_trim_end(s) == s
{
    trim_end_props(s);
    blen_prefix(s, str_trim_end(s).len() as int);
    if str_trim_end(s).len() == s.len() { assert(s.subrange(0, s.len() as int) =~= s); }
}
pub open spec fn soft(p: spec_fn(char) -> bool) -> bool { forall|c: char| #[trigger] p(c) ==> is_ws(c) || c == '`' }
pub broadcast proof fn dedup_core(s: Seq<char>, p: spec_fn(char) -> bool)
    requires soft(p)
    ensures core(#[trigger] dedup_if(s, p)) == core(s)
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        dedup_core(d, p);
        let r = dedup_if(d, p);
        if p(s.last()) && s.len() > 1 && s[s.len() - 2] == s.last() {
        } else {
            assert(r.push(s.last()).drop_last() =~= r);
        }
    }
}
/// what remains keeps its neighbours, up to the dropped repetitions
pub broadcast proof fn dedup_props(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures (#[trigger] dedup_if(s, p)).len() <= s.len(), s.len() > 0 ==> dedup_if(s, p).len() > 0 && dedup_if(s, p).last() == s.last() && dedup_if(s, p)[0] == s[0],
        norun(dedup_if(s, p), p),
        dedup_if(s, p).len() >= 2 && !p(s.last()) ==> s.len() >= 2 && dedup_if(s, p)[dedup_if(s, p).len() - 2] == s[s.len() - 2],
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        dedup_props(d, p);
        if d.len() > 0 { assert(d.last() == s[s.len() - 2]); }
    }
}
pub broadcast proof fn dedup_tidy(s: Seq<char>, p: spec_fn(char) -> bool)
    requires tidy(s), forall|c: char| #[trigger] p(c) ==> c != '\u{a}'
    ensures tidy(#[trigger] dedup_if(s, p))
{
    dedup_pre(s, p);
    dedup_props(s, p);
    let r = dedup_if(s, p);
    assert(s.len() > 0 ==> (blank(s.last()) ==> false)) by { if s.len() > 0 { assert(blank(s[s.len() - 1]) ==> false); } }
    assert forall|i: int| 0 <= i < r.len() && blank(#[trigger] r[i]) implies 0 < i < r.len() - 1 && r[i - 1] != '\u{a}' && r[i + 1] != '\u{a}' by {
        assert(!(i == r.len() - 1 && blank(s.last())));
    }
}
/// tidy() except for the end of the text
pub open spec fn tidy_pre(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() && blank(#[trigger] s[i]) ==> 0 < i && s[i - 1] != '\u{a}' && (i < s.len() - 1 ==> s[i + 1] != '\u{a}')
}
pub proof fn dedup_pre(s: Seq<char>, p: spec_fn(char) -> bool)
    requires tidy_pre(s), forall|c: char| #[trigger] p(c) ==> c != '\u{a}'
    ensures tidy_pre(dedup_if(s, p))
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() && blank(#[trigger] d[i]) implies 0 < i && d[i - 1] != '\u{a}' && (i < d.len() - 1 ==> d[i + 1] != '\u{a}') by {
            assert(blank(s[i]));
        }
        dedup_pre(d, p);
        dedup_props(d, p);
        let q = dedup_if(d, p);
        let r = dedup_if(s, p);
        let c = s.last();
        if p(c) && s.len() > 1 && s[s.len() - 2] == c {
        } else {
            assert(blank(s[s.len() - 1]) ==> s.len() > 1 && s[s.len() - 2] != '\u{a}');
            if d.len() > 0 { assert(blank(s[s.len() - 2]) ==> s[s.len() - 1] != '\u{a}'); assert(q.last() == s[s.len() - 2]); }
            assert forall|i: int| 0 <= i < r.len() && blank(#[trigger] r[i]) implies 0 < i && r[i - 1] != '\u{a}' && (i < r.len() - 1 ==> r[i + 1] != '\u{a}') by {
                if i < q.len() { assert(blank(q[i])); }
            }
        }
    }
}
/// dropping repetitions of other characters creates no new ones
pub broadcast proof fn dedup_norun(s: Seq<char>, p: spec_fn(char) -> bool, q: spec_fn(char) -> bool)
    requires norun(s, q), forall|c: char| #![trigger p(c)] #![trigger q(c)] !(p(c) && q(c))
    ensures #![trigger dedup_if(s, p), norun(s, q)] norun(dedup_if(s, p), q)
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 < i < d.len() && q(#[trigger] d[i]) implies d[i - 1] != d[i] by { assert(q(s[i])); }
        dedup_norun(d, p, q);
        dedup_props(d, p);
        let a = dedup_if(d, p);
        let r = dedup_if(s, p);
        if s.len() > 1 { assert(d.last() == s[s.len() - 2]); assert(q(s[s.len() - 1]) ==> s[s.len() - 2] != s[s.len() - 1]); }
        assert forall|i: int| 0 < i < r.len() && q(#[trigger] r[i]) implies r[i - 1] != r[i] by { if i < a.len() { assert(q(a[i])); } }
    }
}
pub broadcast group doc_group { core_edges, core_cut, trim_end_blen, dedup_fold, trim_end_props, joined_tidy, same_core_slash, same_core_eq, dedup_core, dedup_props, dedup_tidy, dedup_norun }

// ---- lookups of Python objects (C16) ----------------------------------------------------------------
pub uninterp spec fn py_world0() -> PyWorld;
pub uninterp spec fn py_import(name: Seq<char>) -> Result<PyObj, ErrV>;
pub uninterp spec fn py_getattr(w: PyWorld, o: PyObj, name: Seq<char>) -> Result<PyObj, ErrV>;
pub uninterp spec fn py_is(a: PyObj, b: PyObj) -> bool;
pub uninterp spec fn py_items(o: PyObj) -> Seq<PyObj>;
pub uninterp spec fn py_is_none(o: PyObj) -> bool;
pub uninterp spec fn py_is_subclass(o: PyObj, class: Seq<char>) -> Result<bool, ErrV>;
pub uninterp spec fn py_is_instance(o: PyObj, class: Seq<char>) -> bool;
pub uninterp spec fn py_type(o: PyObj) -> PyObj;
pub uninterp spec fn py_str(o: PyObj) -> Seq<char>;
pub uninterp spec fn py_qualname(o: PyObj) -> Result<Seq<char>, ErrV>;
pub uninterp spec fn py_call_method(o: PyObj, name: Seq<char>, args: Seq<PyObj>) -> Result<PyObj, ErrV>;
pub uninterp spec fn py_truthy(o: PyObj) -> Result<bool, ErrV>;
/// the attribute of its package hides the module of that name
pub open spec fn hidden(s: Seq<Ident>, m: PyObj) -> bool {
    s.len() > 1 && {
        let p = py_import(segs_py(s.drop_last()));
        p is Ok && {
            let a = py_getattr(py_world0(), p->Ok_0, ipy(s.last()));
            a is Ok && !py_is(a->Ok_0, m)
        }
    }
}
/// the first i components name a module that can be imported; the whole name only if it is not hidden
pub open spec fn usable(segs: Seq<Ident>, i: int) -> bool {
    let s = segs.subrange(0, i);
    py_import(segs_py(s)) is Ok && !(i == segs.len() && hidden(s, py_import(segs_py(s))->Ok_0))
}
/// number of components of the longest usable prefix
pub open spec fn best(segs: Seq<Ident>, n: int) -> int
    decreases n
{
    if n <= 1 { 1 } else if usable(segs, n) { n } else { best(segs, n - 1) }
}
pub proof fn best_is(segs: Seq<Ident>, n: int, k: int)
    requires 1 <= k <= n, k == 1 || usable(segs, k), forall|j: int| k < j <= n ==> !usable(segs, j)
    ensures best(segs, n) == k
    decreases n
{
    if n > k { assert(!usable(segs, n)); best_is(segs, n - 1, k); }
}
pub broadcast proof fn best_bounds(segs: Seq<Ident>, n: int)
    requires n >= 1
    ensures 1 <= #[trigger] best(segs, n) <= n
    decreases n
{
    if n > 1 { best_bounds(segs, n - 1); }
}
pub broadcast proof fn best_found(segs: Seq<Ident>, f: spec_fn(int) -> bool)
    requires segs.len() > 0, forall|i: int| 1 <= i <= segs.len() ==> f(i) == !#[trigger] usable(segs, i)
    ensures #![trigger seq_twn(seq_rev(rng(1, segs.len() as int + 1)), f), best(segs, segs.len() as int)]
        best(segs, segs.len() as int) == if seq_twn(seq_rev(rng(1, segs.len() as int + 1)), f) < segs.len() { segs.len() - seq_twn(seq_rev(rng(1, segs.len() as int + 1)), f) } else { 1 },
{
    let n = segs.len() as int;
    let r = seq_rev(rng(1, n + 1));
    twn_bounds(r, f);
    let k = seq_twn(r, f);
    assert(r.len() == n);
    assert forall|i: int| 0 <= i < n implies #[trigger] r[i] == n - i by {}
    if k < n {
        assert(!f(r[k]));
        assert(usable(segs, n - k));
        assert forall|j: int| n - k < j <= n implies !usable(segs, j) by { assert(f(r[n - j])); }
        best_is(segs, n, n - k);
    } else {
        assert forall|j: int| 1 < j <= n implies !usable(segs, j) by { assert(f(r[n - j])); }
        best_is(segs, n, 1);
    }
}
pub open spec fn getattr_toks(acc: Seq<Tok>, name: Seq<char>) -> Seq<Tok> {
    q!{ ::pyo3::types::PyAnyMethods::getattr($acc.as_any(), ::pyo3::intern!(py, $S(name)))? }
}
pub open spec fn base_toks(name: Seq<char>) -> Seq<Tok> {
    q!{ py.import_bound(::pyo3::intern!(py, $S(name)))? }
}
/// the expression that imports a module and reads attributes, one after the other
pub open spec fn import_toks(module: Seq<char>, rest: Seq<Seq<char>>) -> Seq<Tok>
    decreases rest.len()
{
    if rest.len() == 0 { base_toks(module) } else { getattr_toks(import_toks(module, rest.drop_last()), rest.last()) }
}
pub broadcast proof fn import_fold(module: Seq<char>, rest: Seq<Seq<char>>, init: Seq<Tok>, f: spec_fn(Seq<Tok>, Seq<char>) -> Seq<Tok>)
    requires init =~~= base_toks(module), forall|a: Seq<Tok>, x: Seq<char>| f(a, x) =~~= #[trigger] getattr_toks(a, x)
    ensures #![trigger seq_fold(rest, init, f), import_toks(module, rest)] seq_fold(rest, init, f) == import_toks(module, rest)
    decreases rest.len()
{
    if rest.len() > 0 {
        import_fold(module, rest.drop_last(), init, f);
        assert(f(seq_fold(rest.drop_last(), init, f), rest.last()) =~~= getattr_toks(seq_fold(rest.drop_last(), init, f), rest.last()));
    }
}
pub broadcast group import_group { best_bounds, best_found, import_fold }

// ---- calls (C12) -------------------------------------------------------------------------------------
/// what Function::parse and its callers establish
pub open spec fn func_wf(f: Function) -> bool {
    f.name.segments.len() >= 1 && f.name.segments.last().f0.len() > 0
    && (f.typ is Function || f.typ is Closure ==> f.name.segments.len() >= 2)
    && (f.typ is Method ==> f.typ->Method_class_path.segments.len() >= 1)
}
/// base, base1, base2, ...
pub open spec fn cand(base: Seq<char>, i: int) -> Seq<char> { base + (if i > 0 { int_str(i) } else { Seq::empty() }) }
pub open spec fn all_taken(fns: Seq<Ident>, base: Seq<char>, n: int) -> bool { forall|j: int| 0 <= j < n ==> named(fns, py_ident(#[trigger] cand(base, j))) }
pub open spec fn first_free(fns: Seq<Ident>, base: Seq<char>, i: int) -> int
    decreases fns.len() - i
{
    if i >= fns.len() || !named(fns, py_ident(cand(base, i))) { i } else { first_free(fns, base, i + 1) }
}
/// the spelling of a name that is not an identifier
pub open spec fn sanitized(i: Ident) -> Ident { py_ident("f_"@ + seq_flat(seq_map(ipy(i), |c: char| if is_alnum(c) { Seq::<char>::empty().push(c) } else { "_"@ }))) }
/// the name of the wrapper; none if there is no usable one
pub open spec fn fn_ident(f: Function, fns: Seq<Ident>) -> Option<Seq<char>> {
    let name = f.name.segments.last();
    if syn_ident_ok(name.f0) { if reserved_name(ipy(name)) { Option::None } else { Option::Some(name.f0) } }
    else if named(fns, sanitized(name)) || !syn_ident_ok(sanitized(name).f0) { Option::None }
    else { Option::Some(sanitized(name).f0) }
}
pub open spec fn is_method(f: Function, t: MethodType) -> bool { f.typ is Method && f.typ->Method_typ == t }
pub open spec fn on_instance(f: Function) -> bool { is_method(f, MethodType::InstanceMethod) || is_method(f, MethodType::Callable) }
pub open spec fn no_binding(f: Function) -> bool { is_method(f, MethodType::Unknown) }
/// the Rust name of a parameter
pub open spec fn p_ident(p: Parameter) -> Seq<char> { rs_of("p_"@ + ipy(p.name)) }
/// the Rust name of the wrapper
pub open spec fn wrapper(f: Function, fns: Seq<Ident>) -> Seq<char> {
    if is_method(f, MethodType::Callable) { rs_of(cand("call"@, first_free(fns, "call"@, 0))) }
    else if is_method(f, MethodType::Constructor) { rs_of(cand("new"@, first_free(fns, "new"@, 0))) }
    else { fn_ident(f, fns)->Some_0 }
}
pub open spec fn nameable(f: Function, fns: Seq<Ident>) -> bool {
    (forall|i: int| 0 <= i < f.parameters.len() ==> syn_ident_ok(p_ident(#[trigger] f.parameters[i])))
    && syn_ident_ok(wrapper(f, fns))
}
/// one Rust parameter per Python parameter, in order
pub open spec fn rs_params(ps: Seq<Parameter>, m: Map<Path, Path>) -> Seq<Tok> {
    seq_flat(seq_map(rng(0, ps.len() as int), |i: int| (if 0 < i { q!{ , } } else { Seq::<Tok>::empty() }) + q!{ $I(p_ident(ps[i])): } + arg_type(ps[i].annotation, m)))
}
pub open spec fn conversions(ps: Seq<Parameter>, m: Map<Path, Path>) -> Seq<Tok> {
    seq_flat(seq_map(ps, |p: Parameter| convert(p.annotation, p_ident(p), m)))
}
pub open spec fn signature(f: Function, fns: Seq<Ident>, m: Map<Path, Path>) -> Seq<Tok> {
    let ps = rs_params(f.parameters, m);
    let r = ret_type(f.return_annotation, m);
    let n = wrapper(f, fns);
    if on_instance(f) { q!{ fn $I(n)<'py>(&'py self, $ps) -> ::pyo3::PyResult<$r> } }
    else if is_method(f, MethodType::Constructor) { q!{ pub fn $I(n)<'py>(py: ::pyo3::marker::Python<'py>, $ps) -> ::pyo3::PyResult<::pyo3::Bound<'py, Self>> } }
    else { q!{ pub fn $I(n)<'py>(py: ::pyo3::marker::Python<'py>, $ps) -> ::pyo3::PyResult<$r> } }
}
/// the object that is called, or whose method is called
pub open spec fn receiver(f: Function) -> Seq<Tok> {
    if on_instance(f) { q!{ self } }
    else if f.typ is Method { module_expr(f.typ->Method_class_path) }
    else { module_expr(parent_of(f.name)) }
}
pub open spec fn positional(ps: Seq<Parameter>) -> Seq<Parameter> { seq_filter(ps, |p: Parameter| p.kind is PositionalOnly || p.kind is PositionalOrKeyword) }
pub open spec fn keyword_only(ps: Seq<Parameter>) -> Seq<Parameter> { seq_filter(ps, |p: Parameter| p.kind is KeywordOnly) }
pub open spec fn var_args(ps: Seq<Parameter>) -> Option<Parameter> { seq_find(ps, |p: Parameter| p.kind is VarPositional) }
pub open spec fn var_kwargs(ps: Seq<Parameter>) -> Option<Parameter> { seq_find(ps, |p: Parameter| p.kind is VarKeyword) }
pub open spec fn to_objects(ps: Seq<Parameter>) -> Seq<Tok> { seq_flat(seq_map(ps, |p: Parameter| q!{ ::pyo3::ToPyObject::to_object(&$I(p_ident(p)), py), })) }
pub open spec fn set_items(ps: Seq<Parameter>) -> Seq<Tok> {
    seq_flat(seq_map(ps, |p: Parameter| q!{ ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, $S(ipy(p.name))), $I(p_ident(p))); }))
}
/// the positional arguments in order, then the elements of *args
pub open spec fn args_expr(ps: Seq<Parameter>) -> Seq<Tok> {
    let objs = to_objects(positional(ps));
    match var_args(ps) {
        Option::Some(va) => if positional(ps).len() == 0 { q!{ $I(p_ident(va)) } } else { q!{ {
            let mut __internal__args = Vec::with_capacity($N(positional(ps).len() as int) + ::pyo3::types::PyTupleMethods::len($I(p_ident(va))));
            __internal__args.extend([$objs]);
            __internal__args.extend(::pyo3::types::PyTupleMethods::iter($I(p_ident(va))).map(|__internal__arg| ::pyo3::ToPyObject::to_object(&__internal__arg, py)));
            ::pyo3::types::PyTuple::new_bound(py, __internal__args,)
        } } },
        Option::None => if positional(ps).len() == 0 { q!{ () } } else { q!{ ::pyo3::types::PyTuple::new_bound(py, [$objs],) } },
    }
}
/// the keyword-only arguments under their Python names, added to the entries of **kwargs
pub open spec fn kwargs_expr(ps: Seq<Parameter>) -> Seq<Tok> {
    let sets = set_items(keyword_only(ps));
    match var_kwargs(ps) {
        Option::Some(vk) => if keyword_only(ps).len() == 0 { q!{ $I(p_ident(vk)) } } else { q!{ {
            let __internal__kwargs = $I(p_ident(vk));
            $sets
            __internal__kwargs
        } } },
        Option::None => if keyword_only(ps).len() == 0 { q!{ ::pyo3::types::PyDict::new_bound(py) } } else { q!{ {
            let __internal__kwargs = ::pyo3::types::PyDict::new_bound(py);
            $sets
            __internal__kwargs
        } } },
    }
}
pub open spec fn call_expr(f: Function) -> Seq<Tok> {
    let ps = f.parameters;
    let obj = receiver(f);
    let args = args_expr(ps);
    let kwargs = kwargs_expr(ps);
    let has_args = positional(ps).len() > 0 || var_args(ps) is Some;
    let has_kwargs = keyword_only(ps).len() > 0 || var_kwargs(ps) is Some;
    let name = ipy(f.name.segments.last());
    if is_method(f, MethodType::Constructor) || is_method(f, MethodType::Callable) {
        if has_kwargs { q!{ ::pyo3::types::PyAnyMethods::call($obj.as_any(), $args, Some(&$kwargs)) } }
        else if has_args { q!{ ::pyo3::types::PyAnyMethods::call1($obj.as_any(), $args) } }
        else { q!{ ::pyo3::types::PyAnyMethods::call0($obj.as_any()) } }
    } else {
        if has_kwargs { q!{ ::pyo3::types::PyAnyMethods::call_method($obj.as_any(), ::pyo3::intern!(py, $S(name)), $args, Some(&$kwargs)) } }
        else if has_args { q!{ ::pyo3::types::PyAnyMethods::call_method1($obj.as_any(), ::pyo3::intern!(py, $S(name)), $args) } }
        else { q!{ ::pyo3::types::PyAnyMethods::call_method0($obj.as_any(), ::pyo3::intern!(py, $S(name))) } }
    }
}
pub open spec fn fn_body(f: Function, m: Map<Path, Path>) -> Seq<Tok> {
    let py = if on_instance(f) { q!{ let py = self.py(); } } else { Seq::<Tok>::empty() };
    let pre = conversions(f.parameters, m);
    let call = call_expr(f);
    q!{ { $py $pre ::pyo3::types::PyAnyMethods::extract(&$call?) } }
}
/// decimal numerals
pub axiom fn axiom_int_str(i: int, j: int)
    ensures int_str(i) == int_str(j) ==> i == j, int_str(i).len() > 0;
pub proof fn cand_injective(base: Seq<char>, i: int, j: int)
    requires 0 <= i, 0 <= j, cand(base, i) == cand(base, j), !seq_starts(base, "r#"@), base.len() > 2
    ensures i == j
{
    axiom_int_str(i, j);
    let a = cand(base, i); let b = cand(base, j);
    assert(a.subrange(base.len() as int, a.len() as int) =~= (if i > 0 { int_str(i) } else { Seq::empty() }));
    assert(b.subrange(base.len() as int, b.len() as int) =~= (if j > 0 { int_str(j) } else { Seq::empty() }));
    if i > 0 && j == 0 { assert(int_str(i).len() == 0); axiom_int_str(i, i); }
    if j > 0 && i == 0 { assert(int_str(j).len() == 0); axiom_int_str(j, j); }
}
pub proof fn py_ident_injective(a: Seq<char>, b: Seq<char>)
    requires py_ident(a) == py_ident(b), !seq_starts(a, "r#"@), !seq_starts(b, "r#"@)
    ensures a == b
{
    l_r_23();
    let r = "r#"@ + a; let q = "r#"@ + b;
    assert(r.subrange(2, r.len() as int) =~= a);
    assert(q.subrange(2, q.len() as int) =~= b);
    assert(r.subrange(0, 2) =~= "r#"@);
    assert(q.subrange(0, 2) =~= "r#"@);
}
/// n different names that all occur in a list make it at least n long
pub proof fn pigeon(fns: Seq<Ident>, base: Seq<char>, n: int)
    requires 0 <= n, all_taken(fns, base, n), !seq_starts(base, "r#"@), base.len() > 2
    ensures n <= fns.len()
    decreases n
{
    l_r_23();
    if n > 0 {
        let c = py_ident(cand(base, n - 1));
        assert(named(fns, c));
        let k = choose|k: int| 0 <= k < fns.len() && (|x: Ident| c == x)(#[trigger] fns[k]);
        assert(fns[k] == c);
        let rest = fns.remove(k);
        assert forall|j: int| 0 <= j < n - 1 implies named(rest, py_ident(#[trigger] cand(base, j))) by {
            let d = py_ident(cand(base, j));
            assert(named(fns, d));
            let h = choose|h: int| 0 <= h < fns.len() && (|x: Ident| d == x)(#[trigger] fns[h]);
            assert(fns[h] == d);
            if h == k {
                assert(cand(base, j).subrange(0, 2) =~= base.subrange(0, 2));
                assert(cand(base, n - 1).subrange(0, 2) =~= base.subrange(0, 2));
                py_ident_injective(cand(base, j), cand(base, n - 1));
                cand_injective(base, j, n - 1);
            }
            let g = if h < k { h } else { h - 1 };
            assert(rest[g] == fns[h]);
            assert((|x: Ident| d == x)(rest[g]));
        }
        pigeon(rest, base, n - 1);
    }
}
/// one more round of the search
pub broadcast proof fn next_free(fns: Seq<Ident>, base: Seq<char>, i: int)
    requires 0 <= i, all_taken(fns, base, i), named(fns, py_ident(cand(base, i))), base == "call"@ || base == "new"@
    ensures #![trigger all_taken(fns, base, i), first_free(fns, base, i)] i < fns.len(), all_taken(fns, base, i + 1), first_free(fns, base, i) == first_free(fns, base, i + 1)
{
    l_call(); l_new(); l_r_23();
    assert("call"@.len() == 4 && "call"@[0] == 'c' && "new"@.len() == 3 && "new"@[0] == 'n' && "r#"@[0] == 'r');
    assert(base.subrange(0, 2)[0] != 'r');
    assert forall|j: int| 0 <= j < i + 1 implies named(fns, py_ident(#[trigger] cand(base, j))) by {}
    pigeon(fns, base, i + 1);
}
pub broadcast proof fn found_free(fns: Seq<Ident>, base: Seq<char>, i: int)
    requires !named(fns, py_ident(cand(base, i)))
    ensures #[trigger] first_free(fns, base, i) == i
{}
pub broadcast proof fn collect_map<A, B, E>(s: Seq<A>, h: spec_fn(A) -> Result<B, E>)
    ensures #![trigger collect_res(seq_map(s, h))]
        collect_res(seq_map(s, h)) is Ok <==> (forall|i: int| 0 <= i < s.len() ==> h(#[trigger] s[i]) is Ok),
        collect_res(seq_map(s, h)) is Ok ==> collect_res(seq_map(s, h))->Ok_0.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] collect_res(seq_map(s, h))->Ok_0[i] == h(s[i])->Ok_0),
{
    let t = seq_map(s, h);
    let f = |x: Result<B, E>| x is Ok;
    twn_bounds(t, f);
    let k = seq_twn(t, f);
    if k < t.len() { assert(!f(t[k])); assert(t[k] == h(s[k])); assert(h(s[k]) is Err); }
    else { assert forall|i: int| 0 <= i < s.len() implies h(#[trigger] s[i]) is Ok by { assert(f(t[i])); } }
}
pub broadcast proof fn collect_filter<A, B, E>(s: Seq<A>, f: spec_fn(A) -> bool, h: spec_fn(A) -> Result<B, E>, g: spec_fn(A) -> Result<B, E>)
    requires collect_res(seq_map(s, g)) is Ok, forall|i: int| 0 <= i < s.len() && g(#[trigger] s[i]) is Ok ==> h(s[i]) is Ok
    ensures #![trigger collect_res(seq_map(seq_filter(s, f), h)), collect_res(seq_map(s, g))] collect_res(seq_map(seq_filter(s, f), h)) is Ok
{
    collect_map(s, g);
    collect_map(seq_filter(s, f), h);
    filter_all(s, f, |x: A| h(x) is Ok);
    assert forall|i: int| 0 <= i < seq_filter(s, f).len() implies h(#[trigger] seq_filter(s, f)[i]) is Ok by { assert((|x: A| h(x) is Ok)(seq_filter(s, f)[i])); }
}
pub proof fn filter_all<A>(s: Seq<A>, f: spec_fn(A) -> bool, p: spec_fn(A) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i])
    ensures forall|i: int| 0 <= i < seq_filter(s, f).len() ==> p(#[trigger] seq_filter(s, f)[i])
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies p(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        filter_all(s.drop_last(), f, p);
        assert(p(s[s.len() - 1]));
    }
}
pub broadcast proof fn found_in<A>(s: Seq<A>, f: spec_fn(A) -> bool)
    ensures #![trigger seq_find(s, f)] seq_find(s, f) is Some ==> 0 <= seq_twn(s, |x: A| !f(x)) < s.len() && s[seq_twn(s, |x: A| !f(x))] == seq_find(s, f)->Some_0
{
    twn_bounds(s, |x: A| !f(x));
}
pub broadcast proof fn map_map<A, B, C>(a: Seq<A>, f: spec_fn(A) -> C, b: Seq<B>, g: spec_fn(B) -> C)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> f(#[trigger] a[i]) == g(b[i])
    ensures #![trigger seq_map(a, f), seq_map(b, g)] seq_map(a, f) == seq_map(b, g)
{
    assert(seq_map(a, f) =~= seq_map(b, g));
}
pub broadcast group call_group { next_free, found_free, collect_map, collect_filter, found_in, map_map }

// ---- annotations (C05, C06) ---------------------------------------------------------------------------
/// the open brackets after a character
pub open spec fn scope(n: int, c: char) -> int { if c == '[' { n + 1 } else if c == ']' { if n < 1 { 0 } else { n - 1 } } else { n } }
pub open spec fn depth(s: Seq<char>, n: int) -> int
    decreases s.len()
{ if s.len() == 0 { n } else { scope(depth(s.drop_last(), n), s.last()) } }
pub open spec fn total(s: Seq<Seq<char>>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last().len() } }
/// the elements so far and the brackets still open; an element that starts inside brackets belongs to the one before
pub open spec fn rep(s: Seq<Seq<char>>, sep: char) -> (Seq<Seq<char>>, int)
    decreases s.len()
{ if s.len() == 0 { (Seq::empty(), 0) } else { rep_step(rep(s.drop_last(), sep), s.last(), sep) } }
pub open spec fn rep_step(a: (Seq<Seq<char>>, int), e: Seq<char>, sep: char) -> (Seq<Seq<char>>, int) {
    (if a.1 > 0 && a.0.len() > 0 { a.0.drop_last().push(a.0.last() + Seq::<char>::empty().push(sep) + e) } else { a.0.push(e) }, depth(e, a.1))
}
pub open spec fn trimmed(s: Seq<Seq<char>>) -> Seq<Seq<char>> { seq_map(s, |p: Seq<char>| str_trim(p)) }
/// the parts of s between the separators outside brackets, without the white space around any separator
pub open spec fn split_seq(s: Seq<char>, sep: char) -> Seq<Seq<char>> { rep(trimmed(split_chr(s, sep)), sep).0 }

pub broadcast proof fn depth_fold(s: Seq<char>, n: int, f: spec_fn(int, char) -> int)
    requires forall|d: int, c: char| #[trigger] f(d, c) == scope(d, c)
    ensures #[trigger] seq_fold(s, n, f) == depth(s, n)
    decreases s.len()
{
    if s.len() > 0 { depth_fold(s.drop_last(), n, f); }
}
pub broadcast proof fn depth_bounds(s: Seq<char>, n: int)
    requires 0 <= n
    ensures 0 <= #[trigger] depth(s, n) <= n + s.len()
    decreases s.len()
{
    if s.len() > 0 { depth_bounds(s.drop_last(), n); }
}
pub broadcast proof fn total_prefix(s: Seq<Seq<char>>, k: int)
    requires 0 <= k <= s.len()
    ensures 0 <= #[trigger] total(s.subrange(0, k)) <= total(s)
    decreases s.len()
{
    if k < s.len() {
        total_prefix(s.drop_last(), k);
        assert(s.drop_last().subrange(0, k) =~= s.subrange(0, k));
    } else {
        assert(s.subrange(0, k) =~= s);
        if s.len() > 0 { total_prefix(s.drop_last(), k - 1); }
    }
}
/// no more scopes are open than characters were read
pub broadcast proof fn rep_scopes(s: Seq<Seq<char>>, f: spec_fn((Seq<Seq<char>>, int), Seq<char>) -> (Seq<Seq<char>>, int))
    requires forall|a: (Seq<Seq<char>>, int), e: Seq<char>| (#[trigger] f(a, e)).1 == depth(e, a.1)
    ensures #![trigger seq_fold(s, (Seq::empty(), 0), f)] 0 <= seq_fold(s, (Seq::empty(), 0), f).1 <= total(s)
    decreases s.len()
{
    if s.len() > 0 {
        rep_scopes(s.drop_last(), f);
        let a = seq_fold(s.drop_last(), (Seq::empty(), 0), f);
        assert(f(a, s.last()).1 == depth(s.last(), a.1));
        depth_bounds(s.last(), a.1);
    }
}
pub broadcast proof fn rep_fold(s: Seq<Seq<char>>, sep: char, f: spec_fn((Seq<Seq<char>>, int), Seq<char>) -> (Seq<Seq<char>>, int))
    requires forall|a: (Seq<Seq<char>>, int), e: Seq<char>| (#[trigger] f(a, e)).1 == depth(e, a.1) && f(a, e).0 =~~= rep_step(a, e, sep).0
    ensures #![trigger seq_fold(s, (Seq::empty(), 0), f), rep(s, sep)] seq_fold(s, (Seq::empty(), 0), f) == rep(s, sep)
    decreases s.len()
{
    if s.len() > 0 {
        rep_fold(s.drop_last(), sep, f);
        let a = seq_fold(s.drop_last(), (Seq::empty(), 0), f);
        assert(f(a, s.last()).0 =~~= rep_step(a, s.last(), sep).0);
    }
}
pub proof fn trim_len(s: Seq<char>)
    ensures str_trim(s).len() <= s.len()
{
    twn_bounds(s, |c: char| is_ws(c));
    let t = trim_s(s);
    twn_bounds(seq_rev(t), |c: char| is_ws(c));
}
/// the parts are no longer than the whole together with the separators they lack
pub proof fn split_total(s: Seq<char>, c: char)
    ensures total(split_chr(s, c)) + split_chr(s, c).len() == s.len() + 1, split_chr(s, c).len() >= 1
    decreases s.len()
{
    if s.len() == 0 {
        let r = split_chr(s, c);
        assert(r.drop_last() =~= Seq::empty());
        assert(total(r.drop_last()) == 0);
    } else {
        split_total(s.drop_last(), c);
        let r = split_chr(s.drop_last(), c);
        if s.last() == c { assert(r.push(Seq::empty()).drop_last() =~= r); }
        else { assert(r.drop_last().push(r.last().push(s.last())).drop_last() =~= r.drop_last()); }
    }
}
pub broadcast proof fn trimmed_total(s: Seq<Seq<char>>)
    ensures total(#[trigger] trimmed(s)) <= total(s)
    decreases s.len()
{
    if s.len() > 0 {
        trimmed_total(s.drop_last());
        assert(trimmed(s).drop_last() =~= trimmed(s.drop_last()));
        trim_len(s.last());
    }
}
pub broadcast proof fn split_trim_total(s: Seq<char>, c: char, f: spec_fn(Seq<char>) -> Seq<char>)
    requires forall|p: Seq<char>| #[trigger] f(p) == str_trim(p)
    ensures #![trigger seq_map(split_chr(s, c), f)] seq_map(split_chr(s, c), f) == trimmed(split_chr(s, c)), total(seq_map(split_chr(s, c), f)) <= s.len()
{
    split_total(s, c);
    trimmed_total(split_chr(s, c));
    assert(seq_map(split_chr(s, c), f) =~= trimmed(split_chr(s, c)));
}
pub proof fn rep_total(s: Seq<Seq<char>>, sep: char)
    ensures total(rep(s, sep).0) + rep(s, sep).0.len() == total(s) + s.len(), s.len() > 0 ==> rep(s, sep).0.len() > 0, rep(s, sep).0.len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 {
        rep_total(s.drop_last(), sep);
        let a = rep(s.drop_last(), sep);
        let e = s.last();
        if a.1 > 0 && a.0.len() > 0 {
            assert(a.0.drop_last().push(a.0.last() + Seq::<char>::empty().push(sep) + e).drop_last() =~= a.0.drop_last());
        } else { assert(a.0.push(e).drop_last() =~= a.0); }
    } else { assert(total(rep(s, sep).0) == 0); }
}
pub proof fn total_each(s: Seq<Seq<char>>, i: int)
    requires 0 <= i < s.len()
    ensures s[i].len() <= total(s)
    decreases s.len()
{
    if i == s.len() - 1 { total_prefix(s.drop_last(), s.len() - 1); assert(s.drop_last().subrange(0, s.len() - 1) =~= s.drop_last()); }
    else { total_each(s.drop_last(), i); }
}
/// every part is shorter than the whole unless it is the only one
pub broadcast proof fn split_seq_shorter(s: Seq<char>, sep: char)
    ensures #![trigger split_seq(s, sep)] split_seq(s, sep).len() >= 1,
        forall|i: int| 0 <= i < split_seq(s, sep).len() ==> (#[trigger] split_seq(s, sep)[i]).len() <= s.len(),
        split_seq(s, sep).len() > 1 ==> forall|i: int| 0 <= i < split_seq(s, sep).len() ==> (#[trigger] split_seq(s, sep)[i]).len() < s.len(),
{
    split_total(s, sep);
    trimmed_total(split_chr(s, sep));
    rep_total(trimmed(split_chr(s, sep)), sep);
    assert forall|i: int| 0 <= i < split_seq(s, sep).len() implies (#[trigger] split_seq(s, sep)[i]).len() + split_seq(s, sep).len() <= s.len() + 1 by { total_each(split_seq(s, sep), i); }
}
pub broadcast proof fn trim_shorter(s: Seq<char>)
    ensures (#[trigger] str_trim(s)).len() <= s.len()
{ trim_len(s); }
pub broadcast proof fn collect_all<A, B, E>(s: Seq<A>, h: spec_fn(A) -> Result<B, E>, g: spec_fn(A) -> B)
    requires forall|i: int| 0 <= i < s.len() ==> h(#[trigger] s[i]) is Ok && h(s[i])->Ok_0 == g(s[i])
    ensures #![trigger collect_res(seq_map(s, h)), seq_map(s, g)] collect_res(seq_map(s, h)) is Ok, collect_res(seq_map(s, h))->Ok_0 == seq_map(s, g)
{
    let t = seq_map(s, h);
    let f = |x: Result<B, E>| x is Ok;
    twn_bounds(t, f);
    let k = seq_twn(t, f);
    if k < t.len() { assert(!f(t[k])); assert(t[k] == h(s[k])); }
    assert(collect_res(t)->Ok_0 =~= seq_map(s, g));
}
pub broadcast group type_group { depth_fold, depth_bounds, total_prefix, rep_scopes, rep_fold, split_trim_total, split_seq_shorter, trim_shorter, collect_all }

// ---- all
pub broadcast group spec_group { py_segs_empty, resolve_append, resolve_sups, resolve_clean, resolve_short, impls_push, impls_empty, impls_add, impls_start, impls_flat, tok_impls_group, hashes_push, hashes_empty, hashes_add, tok_hashes_group, ty_size_pos, tys_size_pos, tys_size_elem, }

// ---- replacement of the output streams (C09) --------------------------------------------------------
pub uninterp spec fn call_result(f: Param, w: PyWorld) -> Result<Param, ErrV>;
pub uninterp spec fn call_world(f: Param, w: PyWorld) -> PyWorld;
pub uninterp spec fn py_eval(code: Seq<char>, env: Seq<PyObj>) -> Result<PyObj, ErrV>;
pub uninterp spec fn py_setattr(w: PyWorld, o: PyObj, name: Seq<char>, v: PyObj) -> Result<(), ErrV>;
pub uninterp spec fn py_setattr_w(w: PyWorld, o: PyObj, name: Seq<char>, v: PyObj) -> PyWorld;
pub open spec fn py_sys() -> PyObj { py_import("sys"@)->Ok_0 }
/// `sys` is a module: its attributes can be assigned, an assigned attribute has the assigned value and the others keep theirs
pub open spec fn sys_assignable() -> bool {
    (forall|w: PyWorld, n: Seq<char>, v: PyObj| (#[trigger] py_setattr(w, py_sys(), n, v)) is Ok)
    && (forall|w: PyWorld, n: Seq<char>, v: PyObj, m: Seq<char>| #[trigger] py_getattr(py_setattr_w(w, py_sys(), n, v), py_sys(), m) == if m == n { Result::Ok(v) } else { py_getattr(w, py_sys(), m) })
}
pub open spec fn py_stream(w: PyWorld, n: Seq<char>) -> Result<PyObj, ErrV> { py_getattr(w, py_sys(), n) }
/// Python gave no streams to replace, or no object to replace them with
pub open spec fn refused() -> bool {
    py_import("sys"@) is Err || py_stream(py_world0(), "stdout"@) is Err || py_stream(py_world0(), "stderr"@) is Err
    || exists|code: Seq<char>| (#[trigger] py_eval(code, Seq::empty())) is Err
}
/// w is a state in which exactly the streams asked for are replaced by an object evaluated for that purpose
pub open spec fn muted(w: PyWorld, out: bool, err: bool) -> bool {
    exists|code: Seq<char>| {
        let sink = #[trigger] py_eval(code, Seq::empty());
        sink is Ok
        && py_stream(w, "stdout"@) == (if out { sink } else { py_stream(py_world0(), "stdout"@) })
        && py_stream(w, "stderr"@) == (if err { sink } else { py_stream(py_world0(), "stderr"@) })
    }
}

// ---- names of a module (C15) -------------------------------------------------------------------------
/// every item has a name
pub open spec fn names_wf(m: Module) -> bool {
    (forall|i: int| 0 <= i < m.imports.len() ==> (#[trigger] m.imports[i]).target.segments.len() > 0)
    && (forall|i: int| 0 <= i < m.submodules.len() ==> (#[trigger] m.submodules[i]).name.segments.len() > 0)
    && (forall|i: int| 0 <= i < m.classes.len() ==> (#[trigger] m.classes[i]).name.segments.len() > 0)
    && (forall|i: int| 0 <= i < m.functions.len() ==> (#[trigger] m.functions[i]).name.segments.len() > 0)
    && (forall|i: int| 0 <= i < m.type_vars.len() ==> (#[trigger] m.type_vars[i]).name.segments.len() > 0)
    && (forall|i: int| 0 <= i < m.properties.len() ==> (#[trigger] m.properties[i]).name.segments.len() > 0)
}
/// the name is bound by an item of the module (or by one of its imports)
pub open spec fn binds(m: Module, n: Ident, imports: bool) -> bool {
    (imports && seq_any(m.imports, |x: Import| n == x.target.segments.last()))
    || seq_any(m.submodules, |x: Module| n == x.name.segments.last())
    || seq_any(m.classes, |x: Class| n == x.name.segments.last())
    || seq_any(m.functions, |x: Function| n == x.name.segments.last())
    || seq_any(m.type_vars, |x: TypeVar| n == x.name.segments.last())
    || seq_any(m.properties, |x: Property| n == x.name.segments.last())
}
/// ... by an item of a section that is switched on
pub open spec fn binds_generated(m: Module, n: Ident, cfg: Config) -> bool {
    (cfg.traverse_submodules && seq_any(m.submodules, |x: Module| n == x.name.segments.last()))
    || (cfg.generate_classes && seq_any(m.classes, |x: Class| n == x.name.segments.last()))
    || (cfg.generate_functions && seq_any(m.functions, |x: Function| n == x.name.segments.last()))
    || (cfg.generate_type_vars && seq_any(m.type_vars, |x: TypeVar| n == x.name.segments.last()))
    || (cfg.generate_properties && seq_any(m.properties, |x: Property| n == x.name.segments.last()))
}
pub open spec fn bound_names(m: Module) -> Seq<Ident> {
    seq_map(m.imports, |x: Import| x.target.segments.last()) + seq_map(m.submodules, |x: Module| x.name.segments.last())
    + seq_map(m.classes, |x: Class| x.name.segments.last()) + seq_map(m.functions, |x: Function| x.name.segments.last())
    + seq_map(m.type_vars, |x: TypeVar| x.name.segments.last()) + seq_map(m.properties, |x: Property| x.name.segments.last())
}
pub proof fn any_of_map<A>(s: Seq<A>, g: spec_fn(A) -> Ident, n: Ident)
    ensures named(seq_map(s, g), n) == seq_any(s, |x: A| n == g(x))
{
    let t = seq_map(s, g);
    if named(t, n) {
        let k = choose|k: int| 0 <= k < t.len() && (|x: Ident| n == x)(#[trigger] t[k]);
        assert((|x: A| n == g(x))(s[k]));
    }
    if seq_any(s, |x: A| n == g(x)) {
        let k = choose|k: int| 0 <= k < s.len() && (|x: A| n == g(x))(#[trigger] s[k]);
        assert((|x: Ident| n == x)(t[k]));
    }
}
pub proof fn any_of_sum(s: Seq<Ident>, t: Seq<Ident>, n: Ident)
    ensures named(s + t, n) == (named(s, n) || named(t, n))
{
    let u = s + t;
    if named(u, n) {
        let k = choose|k: int| 0 <= k < u.len() && (|x: Ident| n == x)(#[trigger] u[k]);
        if k < s.len() { assert((|x: Ident| n == x)(s[k])); } else { assert((|x: Ident| n == x)(t[k - s.len()])); }
    }
    if named(s, n) {
        let k = choose|k: int| 0 <= k < s.len() && (|x: Ident| n == x)(#[trigger] s[k]);
        assert((|x: Ident| n == x)(u[k]));
    }
    if named(t, n) {
        let k = choose|k: int| 0 <= k < t.len() && (|x: Ident| n == x)(#[trigger] t[k]);
        assert((|x: Ident| n == x)(u[k + s.len()]));
    }
}
pub broadcast proof fn binds_named(m: Module, n: Ident)
    ensures #[trigger] binds(m, n, true) == named(bound_names(m), n)
{
    let a = seq_map(m.imports, |x: Import| x.target.segments.last()); let b = seq_map(m.submodules, |x: Module| x.name.segments.last());
    let c = seq_map(m.classes, |x: Class| x.name.segments.last()); let d = seq_map(m.functions, |x: Function| x.name.segments.last());
    let e = seq_map(m.type_vars, |x: TypeVar| x.name.segments.last()); let f = seq_map(m.properties, |x: Property| x.name.segments.last());
    any_of_sum(a, b, n); any_of_sum(a + b, c, n); any_of_sum(a + b + c, d, n); any_of_sum(a + b + c + d, e, n); any_of_sum(a + b + c + d + e, f, n);
    any_of_map(m.imports, |x: Import| x.target.segments.last(), n); any_of_map(m.submodules, |x: Module| x.name.segments.last(), n);
    any_of_map(m.classes, |x: Class| x.name.segments.last(), n); any_of_map(m.functions, |x: Function| x.name.segments.last(), n);
    any_of_map(m.type_vars, |x: TypeVar| x.name.segments.last(), n); any_of_map(m.properties, |x: Property| x.name.segments.last(), n);
    assert(seq_any(m.imports, |x: Import| n == (|x: Import| x.target.segments.last())(x)) == seq_any(m.imports, |x: Import| n == x.target.segments.last()));
}
/// the names a prelude exports
pub open spec fn exported(m: Module, cfg: Config) -> Seq<Ident> {
    seq_filter(m.prelude, |i: Ident| binds(m, i, false) && binds_generated(m, i, cfg) && syn_ident_ok(i.f0))
}
pub broadcast proof fn flat_some(s: Seq<Ident>, f: spec_fn(Ident) -> Seq<Tok>)
    requires forall|i: Ident| (#[trigger] f(i)).len() > 0
    ensures (#[trigger] seq_flat(seq_map(s, f))).len() > 0 <==> s.len() > 0
{
    let t = seq_map(s, f);
    if s.len() > 0 { assert(t.last() == f(s.last())); assert(seq_flat(t) == seq_flat(t.drop_last()) + t.last()); }
}
pub broadcast proof fn filter_none(s: Seq<Ident>, f: spec_fn(Ident) -> bool)
    ensures s.len() == 0 ==> (#[trigger] seq_filter(s, f)).len() == 0
{}
/// `call`, `call1`, `call2`, ... are identifiers
pub axiom fn axiom_call_names(i: int)
    ensures i >= 0 ==> syn_ident_ok(cand("call"@, i));
pub broadcast proof fn call_names(m: Module, i: int)
    ensures #![trigger first_free(bound_names(m), "call"@, i)] i >= 0 ==> syn_ident_ok(cand("call"@, i)) && py_ident(cand("call"@, i)).f0 == cand("call"@, i)
{ axiom_call_names(i); }
pub broadcast group name_group { binds_named, call_names, flat_some, filter_none, next_free, found_free }
pub uninterp spec fn py_module_index(o: PyObj) -> Result<PyObj, ErrV>;
pub uninterp spec fn py_dir(o: PyObj) -> PyObj;
pub uninterp spec fn py_call(o: PyObj, args: Seq<PyObj>) -> Result<PyObj, ErrV>;
pub uninterp spec fn py_iter(o: PyObj) -> Result<Seq<Result<PyObj, ErrV>>, ErrV>;
pub uninterp spec fn py_extract_int(o: PyObj) -> Result<int, ErrV>;
pub uninterp spec fn py_getitem(o: PyObj, key: PyObj) -> Result<PyObj, ErrV>;
pub uninterp spec fn py_strobj(s: Seq<char>) -> PyObj;
pub uninterp spec fn py_dict(s: Seq<(Seq<char>, PyObj)>) -> PyObj;

// ---- names of the members of a class (C11) -----------------------------------------------------------
pub proof fn first_free_is(fns: Seq<Ident>, base: Seq<char>, m: int, i: int)
    requires 0 <= i <= m <= fns.len(), all_taken(fns, base, m), !named(fns, py_ident(cand(base, m)))
    ensures first_free(fns, base, i) == m
    decreases m - i
{
    if i < m { assert(named(fns, py_ident(cand(base, i)))); first_free_is(fns, base, m, i + 1); }
}
/// the search through base1, base2, ... ends with the first that is free
pub broadcast proof fn search_free(fns: Seq<Ident>, base: Seq<char>, n: int, f: spec_fn(int) -> bool)
    requires base == "call"@ || base == "new"@, named(fns, py_ident(cand(base, 0))), fns.len() + 1 < n,
        forall|i: int| 1 <= i < n ==> #[trigger] f(i) == !named(fns, py_ident(cand(base, i)))
    ensures #![trigger seq_find(rng(1, n), f), first_free(fns, base, 0)]
        seq_find(rng(1, n), f) == Option::Some(first_free(fns, base, 0)), first_free(fns, base, 0) > 0
{
    l_call(); l_new(); l_r_23();
    assert("call"@.len() == 4 && "call"@[0] == 'c' && "new"@.len() == 3 && "new"@[0] == 'n' && "r#"@[0] == 'r');
    assert(base.subrange(0, 2)[0] != 'r');
    let s = rng(1, n);
    let g = |x: int| !f(x);
    twn_bounds(s, g);
    let k = seq_twn(s, g);
    assert forall|j: int| 0 <= j < k + 1 implies named(fns, py_ident(#[trigger] cand(base, j))) by {
        if j > 0 { assert(g(s[j - 1])); assert(s[j - 1] == j); assert(!f(j)); }
    }
    pigeon(fns, base, k + 1);
    assert(k < s.len());
    assert(!g(s[k]) && s[k] == k + 1);
    assert(f(k + 1));
    first_free_is(fns, base, k + 1, 0);
}
pub proof fn first_free_from(fns: Seq<Ident>, base: Seq<char>, i: int)
    ensures first_free(fns, base, i) >= i
    decreases fns.len() - i
{ if i < fns.len() && named(fns, py_ident(cand(base, i))) { first_free_from(fns, base, i + 1); } }
pub broadcast proof fn first_cand(fns: Seq<Ident>, base: Seq<char>)
    ensures #![trigger first_free(fns, base, 0)] cand(base, 0) == base, first_free(fns, base, 0) >= 0, !named(fns, py_ident(base)) ==> first_free(fns, base, 0) == 0
{ assert(cand(base, 0) =~= base); first_free_from(fns, base, 0); }
pub broadcast proof fn named_map<A>(s: Seq<A>, g: spec_fn(A) -> Ident, n: Ident)
    ensures #[trigger] named(seq_map(s, g), n) == seq_any(s, |x: A| n == g(x))
{ any_of_map(s, g, n); }
pub broadcast proof fn names_same<A>(s: Seq<A>, f: spec_fn(A) -> Ident, g: spec_fn(A) -> Ident)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i])
    ensures #![trigger seq_map(s, f), seq_map(s, g)] seq_map(s, f) == seq_map(s, g)
{ assert(seq_map(s, f) =~= seq_map(s, g)); }
pub broadcast proof fn parts_same<A>(s: Seq<A>, f: spec_fn(A) -> Seq<Tok>, g: spec_fn(A) -> Seq<Tok>)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i])
    ensures #![trigger seq_flat(seq_map(s, f)), seq_flat(seq_map(s, g))] seq_flat(seq_map(s, f)) == seq_flat(seq_map(s, g))
{ assert(seq_map(s, f) =~= seq_map(s, g)); }
pub broadcast group class_group { search_free, first_cand, named_map, names_same, parts_same }
