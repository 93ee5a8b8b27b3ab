// Theorems that state the properties over the contracts. `//@ PROP name` starts a block; `LITS;` is replaced by the
// facts about the string literals the block mentions.

//@ - dotted
/// a component of a dotted Python name
pub open spec fn component(s: Seq<char>) -> bool { s.len() > 0 && !seq_starts(s, "r#"@) }
/// an absolute or relative dotted Python name (or only dots)
pub open spec fn dotted(v: Seq<char>) -> bool {
    let k = leading_dots(v); let sp = split_chr(v, '.');
    &&& !has_sub(v, "::"@)
    &&& k == v.len() || forall|i: int| k <= i < sp.len() ==> component(#[trigger] sp[i])
}
/// the part of split() that comes from the leading dots is empty
pub proof fn split_dots(v: Seq<char>)
    ensures leading_dots(v) < split_chr(v, '.').len(),
        forall|i: int| 0 <= i < leading_dots(v) ==> (#[trigger] split_chr(v, '.')[i]).len() == 0,
        leading_dots(v) == v.len() ==> split_chr(v, '.').len() == v.len() + 1 && split_chr(v, '.').last().len() == 0,
    decreases v.len()
{
    let f = |c: char| c == '.';
    twn_bounds(v, f);
    if v.len() > 0 {
        let p = v.drop_last();
        split_dots(p);
        twn_bounds(p, f);
        let k = seq_twn(v, f);
        let j = seq_twn(p, f);
        if j < p.len() { assert(!f(p[j])); assert(v[j] == p[j]); }
        if k < p.len() { assert(!f(v[k])); assert(v[k] == p[k]); }
        assert(k == j || (k == v.len() && j == p.len())) by {
            if k < j { assert(f(p[k])); }
            if j < k && j < p.len() { assert(f(v[j])); }
        }
        let r = split_chr(p, '.');
        if v.last() != '.' && k == v.len() { assert(f(v[v.len() - 1])); }
        assert forall|i: int| 0 <= i < k implies (#[trigger] split_chr(v, '.')[i]).len() == 0 by {
            if v.last() == '.' {
                if i < r.len() - 1 { assert(r[i].len() == 0); } else if i == r.len() - 1 && i < j { assert(r[i].len() == 0); }
            } else { assert(r[i].len() == 0); }
        }
    }
}
pub proof fn filter_split_at<A>(s: Seq<A>, k: int, f: spec_fn(A) -> bool)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> !f(#[trigger] s[i]), forall|i: int| k <= i < s.len() ==> f(#[trigger] s[i])
    ensures seq_filter(s, f) == s.subrange(k, s.len() as int)
    decreases s.len()
{
    if s.len() == 0 { assert(s.subrange(k, 0) =~= s); }
    else if k == s.len() {
        assert forall|i: int| 0 <= i < k - 1 implies !f(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        filter_split_at(s.drop_last(), k - 1, f);
        assert(!f(s[s.len() - 1]));
        assert(s.drop_last().subrange(k - 1, s.len() - 1) =~= s.subrange(k, s.len() as int));
    } else {
        assert forall|i: int| 0 <= i < k implies !f(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        assert forall|i: int| k <= i < s.len() - 1 implies f(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        filter_split_at(s.drop_last(), k, f);
        assert(f(s[s.len() - 1]));
        assert(s.drop_last().subrange(k, s.len() - 1).push(s.last()) =~= s.subrange(k, s.len() as int));
    }
}
/// printing one component
pub proof fn component_py(s: Seq<char>)
    requires component(s)
    ensures seg_py(py_ident(s)) == s, ipy(py_ident(s)) == s
{
    LITS;
    axiom_keywords();
    let r = "r#"@ + s;
    assert(r.subrange(0, 2) =~= "r#"@);
    assert(r.subrange(2, r.len() as int) =~= s);
    if syn_ident_ok(s) { assert(s != "super"@); } else { assert(r[1] == '#'); assert("super"@[1] == 'u'); }
}

//@ C01 round_trip
//@uses dotted
//= to_py(from_py(v)) == v for every absolute or relative dotted name
pub proof fn round_trip(v: Seq<char>)
    requires dotted(v)
    ensures c_path_Path_to_py(c_path_Path_from_py(v)) == v
{
    LITS;
    let k = leading_dots(v);
    let sp = split_chr(v, '.');
    let ne = |s: Seq<char>| nonempty(s);
    let f = |s: Seq<char>| py_ident(s);
    let g = |i: Ident| seg_py(i);
    split_dots(v);
    join_split(v, '.');
    assert("."@ =~= seq!['.']);
    twn_bounds(v, |c: char| c == '.');
    assert(ident("super"@).f0 == "super"@);
    if k == v.len() {
        assert forall|i: int| 0 <= i < sp.len() implies !ne(#[trigger] sp[i]) by { if i == k { assert(sp[i] == sp.last()); } }
        filter_split_at(sp, sp.len() as int, ne);
        assert(sp.subrange(sp.len() as int, sp.len() as int) =~= Seq::<Seq<char>>::empty());
        let segs = py_segs(v);
        assert(segs =~= seq_repeat(sup(), k));
        if k > 0 { assert(segs.last() == sup()); }
        assert forall|i: int| 0 <= i < sp.len() implies #[trigger] sp[i] == Seq::<char>::empty() by { if i == k { assert(sp[i] == sp.last()); } assert(sp[i] =~= Seq::<char>::empty()); }
        assert forall|i: int| 0 <= i < k implies #[trigger] seq_map(segs, g)[i] == Seq::<char>::empty() by { assert(segs[i] == sup()); }
        assert(seq_map(segs, g) + (if segs.len() > 0 && segs.last().f0 == "super"@ { seq![Seq::<char>::empty()] } else { Seq::empty() }) =~= (if k > 0 { sp } else { Seq::empty() }));
    } else {
        assert forall|i: int| 0 <= i < k implies !ne(#[trigger] sp[i]) by {}
        assert forall|i: int| k <= i < sp.len() implies ne(#[trigger] sp[i]) by { assert(component(sp[i])); }
        filter_split_at(sp, k, ne);
        let cs = sp.subrange(k, sp.len() as int);
        let segs = py_segs(v);
        assert(segs =~= seq_repeat(sup(), k) + seq_map(cs, f));
        assert(segs.len() == sp.len());
        assert forall|i: int| 0 <= i < sp.len() implies #[trigger] seq_map(segs, g)[i] == sp[i] by {
            if i < k { assert(segs[i] == sup()); assert(sp[i] =~= Seq::<char>::empty()); }
            else { assert(segs[i] == py_ident(sp[i])); component_py(sp[i]); }
        }
        assert(segs.last() == py_ident(sp[sp.len() - 1]));
        component_py(sp[sp.len() - 1]);
        assert(component(sp[sp.len() - 1]));
        axiom_keywords();
        assert(segs.last().f0 != "super"@) by {
            if segs.last().f0 == "super"@ { assert(seg_py(segs.last()).len() == 0); }
        }
        assert(seq_map(segs, g) + Seq::<Seq<char>>::empty() =~= sp);
    }
}

//@ C01 spelling
//@uses dotted
//= the Rust spelling of a name is the name or its raw form, the raw form exactly when the plain one is not an identifier
pub proof fn spelling(s: Seq<char>)
    requires component(s)
    ensures c_ident_Ident_py_to_rs(s) == s || c_ident_Ident_py_to_rs(s) == "r#"@ + s,
        c_ident_Ident_py_to_rs(s) == "r#"@ + s <==> !syn_ident_ok(s),
        c_ident_Ident_as_rs(c_ident_Ident_from_py(s)) == c_ident_Ident_py_to_rs(s),
        c_ident_Ident_as_py(c_ident_Ident_from_py(s)) == s,
{
    LITS;
    component_py(s);
    assert(("r#"@ + s).len() == s.len() + 2);
}

//@ C01 injective
//@uses dotted
//= two different Python names never share a Rust spelling
pub proof fn injective(a: Seq<char>, b: Seq<char>)
    requires component(a), component(b), c_ident_Ident_from_py(a) == c_ident_Ident_from_py(b)
    ensures a == b
{
    component_py(a);
    component_py(b);
}

//@ C18 equality
//@uses dotted round_trip
//= names from Python are equal exactly when their spellings are, single and dotted
pub proof fn equality(a: Seq<char>, b: Seq<char>, v: Seq<char>, w: Seq<char>)
    requires component(a), component(b), dotted(v), dotted(w)
    ensures (c_ident_Ident_from_py(a) == c_ident_Ident_from_py(b)) <==> a == b,
        (c_path_Path_from_py(v) == c_path_Path_from_py(w)) <==> v == w
{
    component_py(a);
    component_py(b);
    round_trip(v);
    round_trip(w);
}

//@ C18 order
//@uses dotted round_trip
//= names from Python order exactly as their spellings do, single and dotted
pub proof fn order(a: Seq<char>, b: Seq<char>, v: Seq<char>, w: Seq<char>)
    requires component(a), component(b), dotted(v), dotted(w)
    ensures c_ident_Ident_cmp_Ord_cmp(c_ident_Ident_from_py(a), c_ident_Ident_from_py(b)) == str_cmp(a, b),
        c_path_Path_cmp_Ord_cmp(c_path_Path_from_py(v), c_path_Path_from_py(w)) == str_cmp(v, w),
        c_ident_Ident_cmp_Ord_cmp(c_ident_Ident_from_py(a), c_ident_Ident_from_py(b)) is Equal <==> a == b,
        c_path_Path_cmp_Ord_cmp(c_path_Path_from_py(v), c_path_Path_from_py(w)) is Equal <==> v == w,
{
    axiom_str_cmp(a, b);
    axiom_str_cmp(v, w);
    component_py(a);
    component_py(b);
    round_trip(v);
    round_trip(w);
}

//@ C07 converted_exactly_when_impl
//= a parameter is converted before use exactly when its spelled type is `impl ...`, or an optional dict mapped to a Python dict
pub proof fn converted_exactly_when_impl(t: Type, m: Map<Path, Path>, ident: SynIdent)
    requires
        e0_typing_into_rs_typing_Type_preprocess_borrowed(t, ident, m, c_typing_into_rs_typing_Type_preprocess_borrowed(t, ident, m)),
        e2_typing_into_rs_typing_Type_into_rs(t, m, c_typing_into_rs_typing_Type_into_rs(t, m)),
    ensures
        (c_typing_into_rs_typing_Type_preprocess_borrowed(t, ident, m).len() > 0)
            == (starts_impl(c_typing_into_rs_typing_Type_into_rs_borrowed(t, m)) || optional_dict(t, m)),
{ LITS; }

//@ C07 spelled_types
//= return types never mention `impl`; parameter types mention it at most once, at the front
pub proof fn spelled_types(t: Type, m: Map<Path, Path>)
    requires
        e0_typing_into_rs_typing_Type_into_rs(t, m, c_typing_into_rs_typing_Type_into_rs(t, m)),
        e1_typing_into_rs_typing_Type_into_rs(t, m, c_typing_into_rs_typing_Type_into_rs(t, m)),
    ensures
        impls(c_typing_into_rs_typing_Type_into_rs_owned(t, m)) == 0,
        impls(c_typing_into_rs_typing_Type_into_rs_borrowed(t, m)) == 0
            || (impls(c_typing_into_rs_typing_Type_into_rs_borrowed(t, m)) == 1 && starts_impl(c_typing_into_rs_typing_Type_into_rs_borrowed(t, m))),
{ LITS; }

//@ C11 accessor_names
//@uses dotted
//= the accessors of the properties of one scope are pairwise distinct and differ from its functions and from reserved names
pub open spec fn prop_named(p: Property, c: Seq<char>, props: Seq<Ident>) -> bool {
    component(c) && p.name.segments.len() > 0 && p.name.segments.last() == py_ident(c) && named(props, py_ident(c))
}
pub proof fn same_raw(a: Seq<char>, b: Seq<char>)
    requires component(a), component(b)
    ensures rs_of(a) == rs_of(b) <==> a == b, ident(rs_of(a)) == py_ident(a)
{
    component_py(a); component_py(b);
    if rs_of(a) == rs_of(b) { assert(py_ident(a) == py_ident(b)); }
}
pub proof fn prefixed(pre: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires pre.len() == 4, component(pre), pre[0] != 'r'
    ensures component(pre + a), pre + a == pre + b <==> a == b
{
    LITS;
    assert((pre + a)[0] == pre[0]);
    assert("r#"@[0] == 'r');
    assert((pre + a).subrange(0, 2)[0] == pre[0]);
    assert((pre + a).subrange(4, (pre + a).len() as int) =~= a);
    assert((pre + b).subrange(4, (pre + b).len() as int) =~= b);
}
pub proof fn accessor_names(p: Property, a: Seq<char>, q: Property, b: Seq<char>, fns: Seq<Ident>, props: Seq<Ident>)
    requires prop_named(p, a, props), prop_named(q, b, props)
    ensures
        a != b && getter_name(p, fns, props) is Some ==> getter_name(p, fns, props) != getter_name(q, fns, props),
        a != b && setter_name(p, fns, props) is Some ==> setter_name(p, fns, props) != setter_name(q, fns, props),
        getter_name(p, fns, props) is Some ==> getter_name(p, fns, props) != setter_name(q, fns, props),
        getter_name(p, fns, props) is Some ==> !named(fns, ident(getter_name(p, fns, props)->Some_0)),
        setter_name(p, fns, props) is Some ==> !named(fns, ident(setter_name(p, fns, props)->Some_0)),
        getter_name(p, fns, props) is Some ==> !reserved_name(py_of(getter_name(p, fns, props)->Some_0)),
        setter_name(p, fns, props) is Some ==> !reserved_name(py_of(setter_name(p, fns, props)->Some_0)),
{
    LITS;
    component_py(a); component_py(b);
    assert("get_"@[0] == 'g' && "set_"@[0] == 's' && "r#"@[0] == 'r');
    assert("get_"@.subrange(0, 2)[0] == 'g' && "set_"@.subrange(0, 2)[0] == 's');
    prefixed("get_"@, a, b); prefixed("set_"@, a, b); prefixed("set_"@, b, a); prefixed("get_"@, b, a);
    let ga = "get_"@ + a; let gb = "get_"@ + b; let sa = "set_"@ + a; let sb = "set_"@ + b;
    assert(ga[0] == 'g' && sb[0] == 's' && gb[0] == 'g' && sa[0] == 's');
    same_raw(a, b); same_raw(ga, gb); same_raw(sa, sb); same_raw(ga, sb); same_raw(sb, a); same_raw(ga, b); same_raw(gb, a); same_raw(sa, a); same_raw(sb, b);
    component_py(ga); component_py(sa);
}

//@ - layout
/// the text without the white space around every separator
#[verifier::opaque]
pub open spec fn norm(s: Seq<char>, c: char) -> Seq<char> { str_join(trimmed(split_chr(s, c)), seq![c]) }
/// neither end is white space
pub open spec fn edged(s: Seq<char>) -> bool { s.len() > 0 && !is_ws(s[0]) && !is_ws(s.last()) }
pub open spec fn spaces(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ws(#[trigger] s[i]) }
/// a trimmed text is determined by its ends
pub proof fn trim_to(a: Seq<char>, x: Seq<char>, b: Seq<char>)
    requires spaces(a), spaces(b), edged(x) || x.len() == 0
    ensures str_trim(a + x + b) == x
{
    let s = a + x + b;
    trim_props(s);
    let k = trim_at(s);
    let t = str_trim(s);
    assert forall|i: int| 0 <= i < a.len() implies is_ws(#[trigger] s[i]) by { assert(s[i] == a[i]); }
    assert forall|i: int| a.len() + x.len() <= i < s.len() implies is_ws(#[trigger] s[i]) by { assert(s[i] == b[i - a.len() - x.len()]); }
    if x.len() > 0 {
        assert(s[a.len() as int] == x[0]);
        assert(s[a.len() + x.len() - 1] == x.last());
        assert(k <= a.len());
        assert(k + t.len() >= a.len() + x.len());
        assert(t[0] == s[k]);
        assert(t.last() == s[k + t.len() - 1]);
        assert(k == a.len());
        assert(k + t.len() == a.len() + x.len());
        assert(t =~= x);
    } else if t.len() > 0 {
        assert(t[0] == s[k]);
        if k < a.len() { assert(is_ws(s[k])); } else { assert(is_ws(s[k])); }
    } else { assert(t =~= x); }
}
/// white space at the end does not matter
pub proof fn trim_tail(s: Seq<char>, w: Seq<char>)
    requires spaces(w)
    ensures str_trim(s + w) == str_trim(s)
{
    trim_props(s);
    let k = trim_at(s);
    let t = str_trim(s);
    let a = s.subrange(0, k);
    let b = s.subrange(k + t.len(), s.len() as int) + w;
    assert(s + w =~= a + t + b);
    assert forall|i: int| 0 <= i < b.len() implies is_ws(#[trigger] b[i]) by { if i < s.len() - k - t.len() { assert(b[i] == s[k + t.len() + i]); } else { assert(b[i] == w[i - (s.len() - k - t.len())]); } }
    trim_to(a, t, b);
}
pub proof fn trim_head(w: Seq<char>, s: Seq<char>)
    requires spaces(w)
    ensures str_trim(w + s) == str_trim(s)
{
    trim_props(s);
    let k = trim_at(s);
    let t = str_trim(s);
    let a = w + s.subrange(0, k);
    let b = s.subrange(k + t.len(), s.len() as int);
    assert(w + s =~= a + t + b);
    assert forall|i: int| 0 <= i < a.len() implies is_ws(#[trigger] a[i]) by { if i < w.len() { assert(a[i] == w[i]); } else { assert(a[i] == s[i - w.len()]); } }
    trim_to(a, t, b);
}
/// a text that ends in something visible keeps what follows it up to the next visible character
pub proof fn trim_glue(s: Seq<char>, w: Seq<char>, y: Seq<char>)
    requires spaces(w), edged(y), s.len() == 0 || !is_ws(s.last())
    ensures str_trim(s + w + y) == str_trim(s) + (if s.len() == 0 { Seq::empty() } else { w }) + y
{
    if s.len() == 0 {
        trim_to(w, y, Seq::empty());
        assert(s + w + y =~= w + y + Seq::<char>::empty());
        trim_props(s);
        assert(str_trim(s) + Seq::<char>::empty() + y =~= y);
    } else {
        trim_props(s);
        let k = trim_at(s);
        let t = str_trim(s);
        assert(k + t.len() == s.len());
        assert(t.len() > 0) by { if t.len() == 0 { assert(is_ws(s[s.len() - 1])); } }
        let a = s.subrange(0, k);
        let x = t + w + y;
        assert(s + w + y =~= a + x + Seq::<char>::empty());
        assert(x[0] == t[0]);
        assert(x.last() == y.last());
        trim_to(a, x, Seq::empty());
    }
}
/// splitting one character more
pub proof fn split_tail(s: Seq<char>, y: Seq<char>, c: char)
    requires forall|i: int| 0 <= i < y.len() ==> #[trigger] y[i] != c
    ensures split_chr(s + y, c) == split_chr(s, c).drop_last().push(split_chr(s, c).last() + y), split_chr(s, c).len() > 0
    decreases y.len()
{
    split_nonempty(s, c);
    if y.len() == 0 {
        assert(s + y =~= s);
        assert(split_chr(s, c).last() + y =~= split_chr(s, c).last());
        assert(split_chr(s, c).drop_last().push(split_chr(s, c).last()) =~= split_chr(s, c));
    } else {
        let z = y.drop_last();
        split_tail(s, z, c);
        assert((s + y).drop_last() =~= s + z);
        assert((s + y).last() == y.last());
        let r = split_chr(s, c);
        assert(split_chr(s + z, c).drop_last() =~= r.drop_last());
        assert((r.last() + z).push(y.last()) =~= r.last() + y);
    }
}
pub proof fn split_cut(s: Seq<char>, c: char)
    ensures split_chr(s.push(c), c) == split_chr(s, c).push(Seq::empty())
{
    assert(s.push(c).drop_last() =~= s);
}
pub proof fn trimmed_push(r: Seq<Seq<char>>, e: Seq<char>)
    ensures trimmed(r.push(e)) == trimmed(r).push(str_trim(e))
{
    assert(trimmed(r.push(e)) =~= trimmed(r).push(str_trim(e)));
}
pub proof fn joined_push(r: Seq<Seq<char>>, e: Seq<char>, c: Seq<char>)
    ensures str_join(r.push(e), c) == (if r.len() == 0 { e } else { str_join(r, c) + c + e })
{
    assert(r.push(e).drop_last() =~= r);
}
pub proof fn trim_nothing(s: Seq<char>)
    ensures s.len() == 0 ==> str_trim(s) == s
{ if s.len() == 0 { trim_len(s); assert(str_trim(s) =~= s); } }
/// a separator swallows the white space before it
pub proof fn norm_cut(s: Seq<char>, w: Seq<char>, c: char)
    requires spaces(w), !is_ws(c)
    ensures norm(s + w + seq![c], c) == norm(s, c) + seq![c]
{
    reveal(norm);
    let r = split_chr(s, c);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] != c by { assert(is_ws(w[i])); }
    split_tail(s, w, c);
    split_cut(s + w, c);
    assert(s + w + seq![c] =~= (s + w).push(c));
    let q = r.drop_last().push(r.last() + w);
    trim_tail(r.last(), w);
    trimmed_push(r.drop_last(), r.last() + w);
    trimmed_push(r.drop_last(), r.last());
    assert(r.drop_last().push(r.last()) =~= r);
    trimmed_push(q, Seq::empty());
    trim_nothing(Seq::empty());
    joined_push(trimmed(r), Seq::empty(), seq![c]);
    assert(trimmed(r).len() == r.len());
    assert(norm(s, c) + seq![c] + Seq::<char>::empty() =~= norm(s, c) + seq![c]);
}
pub proof fn norm_tail(s: Seq<char>, w: Seq<char>, c: char)
    requires spaces(w), !is_ws(c)
    ensures norm(s + w, c) == norm(s, c)
{
    reveal(norm);
    let r = split_chr(s, c);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] != c by { assert(is_ws(w[i])); }
    split_tail(s, w, c);
    trim_tail(r.last(), w);
    trimmed_push(r.drop_last(), r.last() + w);
    trimmed_push(r.drop_last(), r.last());
    assert(r.drop_last().push(r.last()) =~= r);
}
/// the part after the last separator
pub proof fn split_last(s: Seq<char>, c: char)
    ensures split_chr(s, c).len() > 0,
        split_chr(s, c).last().len() == 0 <==> s.len() == 0 || s.last() == c,
        split_chr(s, c).last().len() > 0 ==> split_chr(s, c).last().last() == s.last()
    decreases s.len()
{
    if s.len() > 0 { split_last(s.drop_last(), c); }
}
pub proof fn norm_glue(s: Seq<char>, w: Seq<char>, y: Seq<char>, c: char)
    requires spaces(w), !is_ws(c), edged(y), s.len() == 0 || !is_ws(s.last()), forall|i: int| 0 <= i < y.len() ==> #[trigger] y[i] != c
    ensures norm(s + w + y, c) == norm(s, c) + (if s.len() == 0 || s.last() == c { Seq::empty() } else { w }) + y
{
    reveal(norm);
    let r = split_chr(s, c);
    split_last(s, c);
    let l = r.last();
    let wy = w + y;
    assert forall|i: int| 0 <= i < wy.len() implies #[trigger] wy[i] != c by { if i < w.len() { assert(is_ws(w[i])); } else { assert(wy[i] == y[i - w.len()]); } }
    split_tail(s, wy, c);
    assert(s + w + y =~= s + wy);
    assert(l + wy =~= l + w + y);
    trim_glue(l, w, y);
    let v: Seq<char> = if l.len() == 0 { Seq::empty() } else { w };
    trimmed_push(r.drop_last(), l + wy);
    trimmed_push(r.drop_last(), l);
    assert(r.drop_last().push(l) =~= r);
    let p = trimmed(r.drop_last());
    joined_push(p, str_trim(l), seq![c]);
    joined_push(p, str_trim(l) + v + y, seq![c]);
    if p.len() == 0 { }
    else { assert(str_join(p, seq![c]) + seq![c] + (str_trim(l) + v + y) =~= str_join(p, seq![c]) + seq![c] + str_trim(l) + v + y); }
}

// -- scopes
pub proof fn depth_cat(x: Seq<char>, y: Seq<char>, n: int)
    ensures depth(x + y, n) == depth(y, depth(x, n))
    decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); }
    else { assert((x + y).drop_last() =~= x + y.drop_last()); depth_cat(x, y.drop_last(), n); }
}
pub open spec fn flat(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '[' && s[i] != ']' }
pub proof fn depth_flat(s: Seq<char>, n: int)
    requires flat(s)
    ensures depth(s, n) == n
    decreases s.len()
{
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] s.drop_last()[i] != '[' && s.drop_last()[i] != ']' by { assert(s.drop_last()[i] == s[i]); } depth_flat(s.drop_last(), n); assert(s[s.len() - 1] == s.last()); }
}
pub proof fn blank_flat(s: Seq<char>)
    requires spaces(s)
    ensures flat(s)
{ assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '[' && s[i] != ']' by { assert(is_ws(s[i])); } }
pub proof fn depth_trim(s: Seq<char>, n: int)
    ensures depth(str_trim(s), n) == depth(s, n)
{
    trim_props(s);
    let k = trim_at(s);
    let t = str_trim(s);
    let a = s.subrange(0, k);
    let b = s.subrange(k + t.len(), s.len() as int);
    assert(s =~= a + t + b);
    blank_flat(a); blank_flat(b);
    depth_cat(a + t, b, n); depth_cat(a, t, n); depth_flat(a, n); depth_flat(b, depth(t, n));
}
/// brackets are balanced
pub open spec fn ok(s: Seq<char>) -> bool {
    forall|n: int| #![trigger depth(s, n)] n >= 0 ==> depth(s, n) == n && (forall|i: int| 0 <= i <= s.len() ==> depth(#[trigger] s.subrange(0, i), n) >= n)
}
/// every c is inside brackets
pub open spec fn tight(s: Seq<char>, c: char) -> bool {
    forall|n: int, i: int| #![trigger depth(s.subrange(0, i), n)] n >= 0 && 0 <= i < s.len() && s[i] == c ==> depth(s.subrange(0, i), n) > n
}
pub proof fn ok_flat(s: Seq<char>)
    requires flat(s)
    ensures ok(s)
{
    assert forall|n: int| #![trigger depth(s, n)] n >= 0 implies depth(s, n) == n && (forall|i: int| 0 <= i <= s.len() ==> depth(#[trigger] s.subrange(0, i), n) >= n) by {
        depth_flat(s, n);
        assert forall|i: int| 0 <= i <= s.len() implies depth(#[trigger] s.subrange(0, i), n) >= n by { assert(flat(s.subrange(0, i))); depth_flat(s.subrange(0, i), n); }
    }
}
pub proof fn ok_cat(x: Seq<char>, y: Seq<char>)
    requires ok(x), ok(y)
    ensures ok(x + y), forall|c: char| #![trigger tight(x + y, c)] tight(x, c) && tight(y, c) ==> tight(x + y, c)
{
    let s = x + y;
    assert forall|n: int| #![trigger depth(s, n)] n >= 0 implies depth(s, n) == n && (forall|i: int| 0 <= i <= s.len() ==> depth(#[trigger] s.subrange(0, i), n) >= n) by {
        assert(depth(x, n) == n && depth(y, n) == n);
        depth_cat(x, y, n);
        assert forall|i: int| 0 <= i <= s.len() implies depth(#[trigger] s.subrange(0, i), n) >= n by {
            if i <= x.len() { assert(s.subrange(0, i) =~= x.subrange(0, i)); }
            else { assert(s.subrange(0, i) =~= x + y.subrange(0, i - x.len())); depth_cat(x, y.subrange(0, i - x.len()), n); }
        }
    }
    assert forall|c: char| #![trigger tight(x + y, c)] tight(x, c) && tight(y, c) implies tight(x + y, c) by {
        assert forall|n: int, i: int| #![trigger depth(s.subrange(0, i), n)] n >= 0 && 0 <= i < s.len() && s[i] == c implies depth(s.subrange(0, i), n) > n by {
            assert(depth(x, n) == n);
            if i < x.len() { assert(s.subrange(0, i) =~= x.subrange(0, i)); assert(x[i] == c); }
            else { assert(s.subrange(0, i) =~= x + y.subrange(0, i - x.len())); assert(y[i - x.len()] == c); depth_cat(x, y.subrange(0, i - x.len()), n); }
        }
    }
}
/// brackets around something balanced
pub proof fn ok_wrap(b: Seq<char>, c: char)
    requires ok(b), c != '[' && c != ']'
    ensures ok(seq!['['] + b + seq![']']), tight(seq!['['] + b + seq![']'], c)
{
    let s = seq!['['] + b + seq![']'];
    let o = seq!['['];
    let ob = o + b;
    assert forall|n: int, i: int| #![trigger depth(s.subrange(0, i), n)] n >= 0 && 0 < i < s.len() implies depth(s.subrange(0, i), n) > n by {
        assert(s.subrange(0, i) =~= o + b.subrange(0, i - 1));
        depth_cat(o, b.subrange(0, i - 1), n);
        assert(o.drop_last() =~= Seq::empty());
        assert(depth(o.drop_last(), n) == n);
        assert(depth(o, n) == n + 1);
        assert(depth(b, n + 1) == n + 1);
    }
    assert forall|n: int| #![trigger depth(s, n)] n >= 0 implies depth(s, n) == n && (forall|i: int| 0 <= i <= s.len() ==> depth(#[trigger] s.subrange(0, i), n) >= n) by {
        assert(s.drop_last() =~= s.subrange(0, s.len() - 1));
        assert(s.subrange(0, s.len() - 1) =~= o + b);
        depth_cat(o, b, n);
        assert(o.drop_last() =~= Seq::empty());
        assert(depth(o.drop_last(), n) == n);
        assert(depth(o, n) == n + 1);
        assert(depth(b, n + 1) == n + 1);
        assert(s.last() == ']');
        assert forall|i: int| 0 <= i <= s.len() implies depth(#[trigger] s.subrange(0, i), n) >= n by {
            if i == 0 { assert(s.subrange(0, i) =~= Seq::empty()); } else if i == s.len() { assert(s.subrange(0, i) =~= s); } else { }
        }
    }
    assert forall|n: int, i: int| #![trigger depth(s.subrange(0, i), n)] n >= 0 && 0 <= i < s.len() && s[i] == c implies depth(s.subrange(0, i), n) > n by { assert(s[0] == '['); }
}
/// scopes after the first parts
pub open spec fn depths(p: Seq<Seq<char>>, n: int) -> int
    decreases p.len()
{ if p.len() == 0 { n } else { depth(p.last(), depths(p.drop_last(), n)) } }
pub proof fn depths_split(s: Seq<char>, c: char)
    requires c != '[' && c != ']', forall|i: int| 0 <= i < s.len() && s[i] == c ==> depth(#[trigger] s.subrange(0, i), 0) > 0
    ensures depths(split_chr(s, c), 0) == depth(s, 0), forall|k: int| 0 < k < split_chr(s, c).len() ==> depths(#[trigger] split_chr(s, c).subrange(0, k), 0) > 0
    decreases s.len()
{
    let q = split_chr(s, c);
    if s.len() == 0 {
        assert(q.drop_last() =~= Seq::empty());
        assert(depths(q.drop_last(), 0) == 0);
        assert(q.last() =~= Seq::empty());
    } else {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() && p[i] == c implies depth(#[trigger] p.subrange(0, i), 0) > 0 by { assert(p.subrange(0, i) =~= s.subrange(0, i)); assert(s[i] == c); }
        depths_split(p, c);
        let r = split_chr(p, c);
        split_nonempty(p, c);
        if s.last() == c {
            assert(q.drop_last() =~= r);
            assert(q.last() =~= Seq::empty());
            assert(s.subrange(0, s.len() - 1) =~= p);
            assert(s[s.len() - 1] == c);
            assert forall|k: int| 0 < k < q.len() implies depths(#[trigger] q.subrange(0, k), 0) > 0 by {
                if k < r.len() { assert(q.subrange(0, k) =~= r.subrange(0, k)); } else { assert(q.subrange(0, k) =~= r); }
            }
        } else {
            assert(q.drop_last() =~= r.drop_last());
            assert(q.last().drop_last() =~= r.last());
            assert forall|k: int| 0 < k < q.len() implies depths(#[trigger] q.subrange(0, k), 0) > 0 by { assert(q.subrange(0, k) =~= r.subrange(0, k)); }
        }
    }
}
pub proof fn depths_trim(p: Seq<Seq<char>>, n: int)
    ensures depths(trimmed(p), n) == depths(p, n)
    decreases p.len()
{
    if p.len() > 0 {
        depths_trim(p.drop_last(), n);
        assert(trimmed(p).drop_last() =~= trimmed(p.drop_last()));
        depth_trim(p.last(), depths(p.drop_last(), n));
    }
}
/// rep, continued from some elements
pub open spec fn repf(a: (Seq<Seq<char>>, int), s: Seq<Seq<char>>, sep: char) -> (Seq<Seq<char>>, int)
    decreases s.len()
{ if s.len() == 0 { a } else { rep_step(repf(a, s.drop_last(), sep), s.last(), sep) } }
pub proof fn rep_cat(x: Seq<Seq<char>>, y: Seq<Seq<char>>, sep: char)
    ensures rep(x + y, sep) == repf(rep(x, sep), y, sep)
    decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); }
    else { assert((x + y).drop_last() =~= x + y.drop_last()); rep_cat(x, y.drop_last(), sep); }
}
pub proof fn rep_one(a: Seq<Seq<char>>, p: Seq<Seq<char>>, c: char)
    requires p.len() > 0, forall|k: int| 0 < k < p.len() ==> depths(#[trigger] p.subrange(0, k), 0) > 0
    ensures repf((a, 0), p, c) == (a.push(str_join(p, seq![c])), depths(p, 0))
    decreases p.len()
{
    let q = p.drop_last();
    if p.len() == 1 {
        assert(q =~= Seq::empty());
        assert(repf((a, 0), q, c) == (a, 0int));
        assert(depths(q, 0) == 0);
    } else {
        assert forall|k: int| 0 < k < q.len() implies depths(#[trigger] q.subrange(0, k), 0) > 0 by { assert(q.subrange(0, k) =~= p.subrange(0, k)); }
        rep_one(a, q, c);
        assert(q =~= p.subrange(0, p.len() - 1));
        let r = repf((a, 0), q, c);
        assert(r.1 > 0);
        assert(r.0.drop_last() =~= a);
        assert(Seq::<char>::empty().push(c) =~= seq![c]);
    }
}
/// one balanced text without free separators is one element
pub proof fn rep_text(a: Seq<Seq<char>>, s: Seq<char>, c: char)
    requires c != '[' && c != ']', ok(s), tight(s, c)
    ensures repf((a, 0), trimmed(split_chr(s, c)), c) == (a.push(norm(s, c)), 0)
{
    reveal(norm);
    assert forall|i: int| 0 <= i < s.len() && s[i] == c implies depth(#[trigger] s.subrange(0, i), 0) > 0 by {}
    depths_split(s, c);
    let p = split_chr(s, c);
    let t = trimmed(p);
    split_nonempty(s, c);
    assert forall|k: int| 0 < k < t.len() implies depths(#[trigger] t.subrange(0, k), 0) > 0 by {
        assert(t.subrange(0, k) =~= trimmed(p.subrange(0, k)));
        depths_trim(p.subrange(0, k), 0);
        assert(depths(p.subrange(0, k), 0) > 0);
    }
    depths_trim(p, 0);
    assert(depth(s, 0) == 0);
    rep_one(a, t, c);
}
pub proof fn split_cat(x: Seq<char>, y: Seq<char>, c: char)
    ensures split_chr(x + seq![c] + y, c) == split_chr(x, c) + split_chr(y, c)
    decreases y.len()
{
    if y.len() == 0 {
        split_cut(x, c);
        assert(x + seq![c] + y =~= x.push(c));
        assert(split_chr(y, c) =~= seq![Seq::<char>::empty()]);
        assert(split_chr(x, c).push(Seq::empty()) =~= split_chr(x, c) + split_chr(y, c));
    } else {
        let z = y.drop_last();
        split_cat(x, z, c);
        split_nonempty(z, c);
        assert((x + seq![c] + y).drop_last() =~= x + seq![c] + z);
        assert((x + seq![c] + y).last() == y.last());
        let r = split_chr(z, c);
        let f = split_chr(x, c) + r;
        if y.last() == c { assert(f.push(Seq::empty()) =~= split_chr(x, c) + r.push(Seq::empty())); }
        else { assert(f.drop_last().push(f.last().push(y.last())) =~= split_chr(x, c) + r.drop_last().push(r.last().push(y.last()))); }
    }
}
pub open spec fn pieces(p: Seq<Seq<char>>, c: char) -> Seq<Seq<char>> { seq_map(p, |s: Seq<char>| norm(s, c)) }
/// a joined list is split into its elements
pub proof fn split_joined(p: Seq<Seq<char>>, c: char)
    requires p.len() > 0, c != '[' && c != ']', forall|i: int| 0 <= i < p.len() ==> ok(#[trigger] p[i]) && tight(p[i], c)
    ensures rep(trimmed(split_chr(str_join(p, seq![c]), c)), c) == (pieces(p, c), 0), split_seq(str_join(p, seq![c]), c) == pieces(p, c)
    decreases p.len()
{
    let l = p.last();
    assert(ok(p[p.len() - 1]) && tight(p[p.len() - 1], c));
    if p.len() == 1 {
        let e = Seq::<Seq<char>>::empty();
        rep_text(e, l, c);
        rep_cat(e, trimmed(split_chr(l, c)), c);
        assert(e + trimmed(split_chr(l, c)) =~= trimmed(split_chr(l, c)));
        assert(e.push(norm(l, c)) =~= pieces(p, c));
    } else {
        let q = p.drop_last();
        split_joined(q, c);
        split_cat(str_join(q, seq![c]), l, c);
        let x = split_chr(str_join(q, seq![c]), c);
        let y = split_chr(l, c);
        assert(trimmed(x + y) =~= trimmed(x) + trimmed(y));
        rep_cat(trimmed(x), trimmed(y), c);
        rep_text(pieces(q, c), l, c);
        assert(pieces(q, c).push(norm(l, c)) =~= pieces(p, c));
    }
}
pub proof fn norm_empty(c: char)
    ensures norm(Seq::empty(), c) == Seq::<char>::empty()
{
    reveal(norm);
    let r = split_chr(Seq::empty(), c);
    trim_nothing(Seq::empty());
    assert(r.len() == 1 && r[0].len() == 0);
    assert(r[0] =~= Seq::empty());
    assert(trimmed(r)[0] == Seq::<char>::empty());
}
/// something visible after white space: both sides are normalised on their own
pub proof fn norm_mid(s: Seq<char>, w: Seq<char>, y: Seq<char>, c: char)
    requires spaces(w), !is_ws(c), y.len() > 0, !is_ws(y[0]), y[0] != c, s.len() == 0 || !is_ws(s.last())
    ensures norm(s + w + y, c) == norm(s, c) + (if s.len() == 0 || s.last() == c { Seq::empty() } else { w }) + norm(y, c)
    decreases y.len()
{
    let v: Seq<char> = if s.len() == 0 || s.last() == c { Seq::empty() } else { w };
    let z = y.drop_last();
    let ch = y.last();
    let e = Seq::<char>::empty();
    norm_empty(c);
    if z.len() == 0 {
        assert(y =~= seq![y[0]]);
        norm_glue(s, w, y, c);
        norm_glue(e, e, y, c);
        assert(e + e + y =~= y);
    } else if ch == c {
        norm_mid(s, w, z, c);
        norm_cut(s + w + z, e, c);
        norm_cut(z, e, c);
        assert(s + w + z + e + seq![c] =~= s + w + y);
        assert(z + e + seq![c] =~= y);
        assert(norm(s, c) + v + (norm(z, c) + seq![c]) =~= norm(s, c) + v + norm(z, c) + seq![c]);
    } else if is_ws(ch) {
        norm_mid(s, w, z, c);
        norm_tail(s + w + z, seq![ch], c);
        norm_tail(z, seq![ch], c);
        assert(s + w + z + seq![ch] =~= s + w + y);
        assert(z + seq![ch] =~= y);
    } else {
        trim_end_props(z);
        let k = str_trim_end(z).len() as int;
        if k == 0 { assert(is_ws(z[0])); }
        let z0 = z.subrange(0, k);
        let wz = z.subrange(k, z.len() as int);
        assert(z0 =~= str_trim_end(z));
        assert(z0.last() == str_trim_end(z).last());
        assert(spaces(wz)) by { assert forall|i: int| 0 <= i < wz.len() implies is_ws(#[trigger] wz[i]) by { assert(wz[i] == z[k + i]); } }
        norm_mid(s, w, z0, c);
        let q = s + w + z0;
        assert(q.last() == z0.last());
        norm_glue(q, wz, seq![ch], c);
        norm_glue(z0, wz, seq![ch], c);
        assert(q + wz + seq![ch] =~= s + w + y);
        assert(z0 + wz + seq![ch] =~= y);
        let g: Seq<char> = if z0.last() == c { Seq::empty() } else { wz };
        assert(norm(s, c) + v + (norm(z0, c) + g + seq![ch]) =~= norm(s, c) + v + norm(z0, c) + g + seq![ch]);
    }
}
pub proof fn norm_head(w: Seq<char>, s: Seq<char>, c: char)
    requires spaces(w), !is_ws(c), s.len() > 0, !is_ws(s[0]), s[0] != c
    ensures norm(w + s, c) == norm(s, c)
{
    let e = Seq::<char>::empty();
    norm_empty(c);
    norm_mid(e, w, s, c);
    assert(e + w + s =~= w + s);
    assert(e + e + norm(s, c) =~= norm(s, c));
}
/// a text without separators
pub proof fn norm_plain(s: Seq<char>, c: char)
    requires edged(s), !is_ws(c), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c
    ensures norm(s, c) == s
{
    let e = Seq::<char>::empty();
    norm_empty(c);
    norm_glue(e, e, s, c);
    assert(e + e + s =~= s);
}

//@ C06 nested_annotations
//@uses layout
//= every spelling of a nested annotation, with any white space around its separators, denotes exactly that annotation
pub enum Ann {
    /// a plain name
    Name(Seq<char>),
    /// name[element, element, ...]
    Of(Seq<char>, Seq<Ann>),
    /// alternative | alternative | ...
    Any(Seq<Ann>),
}
pub open spec fn is_any(t: Ann) -> bool { t is Any }
pub open spec fn no_marks(n: Seq<char>) -> bool { forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != '[' && n[i] != ']' && n[i] != ',' && n[i] != '|' }
pub open spec fn unary(n: Seq<char>) -> bool { n == "list"@ || n == "set"@ || n == "frozenset"@ || n == "Sequence"@ || n == "Iterable"@ || n == "Iterator"@ || n == "type"@ }
pub open spec fn wf(t: Ann) -> bool
    decreases t
{
    match t {
        Ann::Name(n) => edged(n) && no_marks(n),
        Ann::Of(n, ts) => ((unary(n) && ts.len() == 1) || (n == "dict"@ && ts.len() == 2) || (n == "tuple"@ && ts.len() >= 1)) && (forall|i: int| 0 <= i < ts.len() ==> wf(#[trigger] ts[i])),
        Ann::Any(ts) => ts.len() >= 2 && (forall|i: int| 0 <= i < ts.len() ==> wf(#[trigger] ts[i]) && !is_any(ts[i])),
    }
}
pub open spec fn is_none(t: Ann) -> bool { t == Ann::Name("None"@) }
/// the type an annotation stands for
pub open spec fn meaning(t: Ann) -> Type
    decreases t
{
    match t {
        Ann::Name(n) => parsed(n),
        Ann::Of(n, ts) => if n == "dict"@ && ts.len() == 2 { Type::PyDict { key_type: Box::new(meaning(ts[0])), value_type: Box::new(meaning(ts[1])) } }
            else if n == "tuple"@ { Type::PyTuple(meanings(ts)) }
            else if ts.len() < 1 { Type::Unknown }
            else if n == "set"@ { Type::PySet(Box::new(meaning(ts[0]))) }
            else if n == "frozenset"@ { Type::PyFrozenSet(Box::new(meaning(ts[0]))) }
            else if n == "type"@ { meaning(ts[0]) }
            else { Type::PyList(Box::new(meaning(ts[0]))) },
        Ann::Any(ts) => if ts.len() == 2 && is_none(ts[0]) { Type::Optional(Box::new(meaning(ts[1]))) }
            else if ts.len() == 2 && is_none(ts[1]) { Type::Optional(Box::new(meaning(ts[0]))) }
            else { Type::Union(meanings(ts)) },
    }
}
pub open spec fn meanings(ts: Seq<Ann>) -> Seq<Type>
    decreases ts
{ Seq::new(ts.len(), |i: int| if 0 <= i < ts.len() { meaning(ts[i]) } else { Type::Unknown }) }
/// s spells t; white space is allowed around elements and alternatives
pub open spec fn spells(s: Seq<char>, t: Ann) -> bool
    decreases t
{
    match t {
        Ann::Name(n) => s == n,
        Ann::Of(n, ts) => exists|p: Seq<Seq<char>>| #[trigger] parts_of(p, ts.len() as int) && s == n + seq!['['] + str_join(p, seq![',']) + seq![']']
            && (forall|i: int| 0 <= i < ts.len() ==> spells(str_trim(#[trigger] p[i]), ts[i])),
        Ann::Any(ts) => edged(s) && exists|p: Seq<Seq<char>>| #[trigger] parts_of(p, ts.len() as int) && s == str_join(p, seq!['|'])
            && (forall|i: int| 0 <= i < ts.len() ==> spells(str_trim(#[trigger] p[i]), ts[i])),
    }
}
pub open spec fn parts_of(p: Seq<Seq<char>>, n: int) -> bool { p.len() == n }
/// both ends belong to a name or a bracket
pub open spec fn closed_ends(s: Seq<char>) -> bool { edged(s) && s[0] != ',' && s[0] != '|' && s.last() != ',' && s.last() != '|' }
pub open spec fn lead(s: Seq<char>) -> Seq<char> { s.subrange(0, trim_at(s)) }
pub open spec fn trail(s: Seq<char>) -> Seq<char> { s.subrange(trim_at(s) + str_trim(s).len(), s.len() as int) }
pub proof fn part(s: Seq<char>)
    ensures s == lead(s) + str_trim(s) + trail(s), spaces(lead(s)), spaces(trail(s)), 0 <= trim_at(s), trim_at(s) + str_trim(s).len() <= s.len(),
{
    trim_props(s);
    assert(s =~= lead(s) + str_trim(s) + trail(s));
    assert forall|i: int| 0 <= i < lead(s).len() implies is_ws(#[trigger] lead(s)[i]) by { assert(lead(s)[i] == s[i]); }
    assert forall|i: int| 0 <= i < trail(s).len() implies is_ws(#[trigger] trail(s)[i]) by { assert(trail(s)[i] == s[trim_at(s) + str_trim(s).len() + i]); }
}
pub open spec fn all_spell(p: Seq<Seq<char>>, ts: Seq<Ann>) -> bool { p.len() == ts.len() && (forall|i: int| 0 <= i < ts.len() ==> spells(str_trim(#[trigger] p[i]), ts[i])) }
pub open spec fn joined_by(p: Seq<Seq<char>>, c: char) -> Seq<char> { str_join(p, seq![c]) }
/// the first and the last character of joined parts
pub proof fn join_ends(p: Seq<Seq<char>>, c: char)
    requires p.len() > 0
    ensures joined_by(p, c).len() >= p[0].len(), joined_by(p, c).len() >= p.last().len(), p[0].len() > 0 ==> joined_by(p, c)[0] == p[0][0], p.last().len() > 0 ==> joined_by(p, c).last() == p.last().last(),
        p.len() > 1 ==> joined_by(p, c).len() > p[0].len() && joined_by(p, c).len() > p.last().len(),
        p.len() > 1 ==> exists|i: int| 0 <= i < joined_by(p, c).len() && #[trigger] joined_by(p, c)[i] == c
    decreases p.len()
{
    if p.len() > 1 {
        join_ends(p.drop_last(), c);
        assert(p.drop_last()[0] == p[0]);
        let q = joined_by(p.drop_last(), c);
        assert(joined_by(p, c) == q + seq![c] + p.last());
        assert(joined_by(p, c)[q.len() as int] == c);
        if p[0].len() > 0 { assert(joined_by(p, c)[0] == q[0]); }
    }
}
pub proof fn names_of(n: Seq<char>)
    requires unary(n) || n == "dict"@ || n == "tuple"@
    ensures edged(n), no_marks(n), n.len() >= 3
{ LITS; }
pub proof fn spelled_ends(s: Seq<char>, t: Ann)
    requires spells(s, t), wf(t)
    ensures closed_ends(s), t is Of ==> s.last() == ']'
    decreases t
{
    match t {
        Ann::Name(n) => { assert(s[0] == n[0]); },
        Ann::Of(n, ts) => { names_of(n); assert(s[0] == n[0]); },
        Ann::Any(ts) => {
            let p = choose|p: Seq<Seq<char>>| #[trigger] parts_of(p, ts.len() as int) && s == str_join(p, seq!['|']) && (forall|i: int| 0 <= i < ts.len() ==> spells(str_trim(#[trigger] p[i]), ts[i]));
            join_ends(p, '|');
            let l = p.len() - 1;
            spelled_ends(str_trim(p[0]), ts[0]);
            spelled_ends(str_trim(p[l]), ts[l]);
            part(p[0]); part(p[l]);
            if lead(p[0]).len() > 0 { assert(p[0][0] == lead(p[0])[0]); } else { assert(p[0][0] == str_trim(p[0])[0]); }
            if trail(p[l]).len() > 0 { assert(p[l].last() == trail(p[l]).last()); } else { assert(p[l].last() == str_trim(p[l]).last()); }
        },
    }
}
pub open spec fn kinds_ok(c: char) -> bool { c == ',' || c == '|' }
pub proof fn join_ok(p: Seq<Seq<char>>, d: char, c: char)
    requires p.len() > 0, kinds_ok(d), kinds_ok(c), forall|i: int| 0 <= i < p.len() ==> ok(#[trigger] p[i]) && (c != d ==> tight(p[i], c))
    ensures ok(joined_by(p, d)), c != d ==> tight(joined_by(p, d), c)
    decreases p.len()
{
    assert(ok(p[p.len() - 1]));
    if p.len() > 1 {
        let q = p.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies ok(#[trigger] q[i]) && (c != d ==> tight(q[i], c)) by { assert(q[i] == p[i]); }
        join_ok(q, d, c);
        ok_flat(seq![d]);
        ok_cat(joined_by(q, d), seq![d]);
        ok_cat(joined_by(q, d) + seq![d], p.last());
    } else { assert(p[0] == p[p.len() - 1]); }
}
pub proof fn ok_of(s: Seq<char>, n: Seq<char>, p: Seq<Seq<char>>, c: char)
    requires unary(n) || n == "dict"@ || n == "tuple"@, p.len() > 0, kinds_ok(c), s == n + seq!['['] + joined_by(p, ',') + seq![']'], forall|i: int| 0 <= i < p.len() ==> ok(#[trigger] p[i])
    ensures ok(s), tight(s, c)
{
    names_of(n);
    join_ok(p, ',', ',');
    let b = joined_by(p, ',');
    ok_wrap(b, c);
    assert(flat(n));
    ok_flat(n);
    ok_cat(n, seq!['['] + b + seq![']']);
    assert(s =~= n + (seq!['['] + b + seq![']']));
    assert(tight(n, c));
}
pub proof fn ok_name(n: Seq<char>, c: char)
    requires no_marks(n), kinds_ok(c)
    ensures ok(n), tight(n, c)
{ assert(flat(n)); ok_flat(n); }
pub proof fn spelled_ok(s: Seq<char>, t: Ann, c: char)
    requires spells(s, t), wf(t), kinds_ok(c)
    ensures ok(s), !is_any(t) || c != '|' ==> tight(s, c)
    decreases t
{
    hide(ok); hide(tight); hide(str_trim); hide(str_join);
    match t {
        Ann::Name(n) => { ok_name(n, c); },
        Ann::Of(n, ts) => {
            let p = choose|p: Seq<Seq<char>>| #[trigger] parts_of(p, ts.len() as int) && s == n + seq!['['] + str_join(p, seq![',']) + seq![']'] && (forall|i: int| 0 <= i < ts.len() ==> spells(str_trim(#[trigger] p[i]), ts[i]));
            assert forall|i: int| 0 <= i < p.len() implies ok(#[trigger] p[i]) by { spelled_ok(str_trim(p[i]), ts[i], c); padded_ok(p[i], c); }
            ok_of(s, n, p, c);
        },
        Ann::Any(ts) => {
            let p = choose|p: Seq<Seq<char>>| #[trigger] parts_of(p, ts.len() as int) && s == str_join(p, seq!['|']) && (forall|i: int| 0 <= i < ts.len() ==> spells(str_trim(#[trigger] p[i]), ts[i]));
            assert forall|i: int| 0 <= i < p.len() implies ok(#[trigger] p[i]) && (c != '|' ==> tight(p[i], c)) by { spelled_ok(str_trim(p[i]), ts[i], c); padded_ok(p[i], c); }
            join_ok(p, '|', c);
        },
    }
}
pub proof fn padded_ok(s: Seq<char>, c: char)
    requires ok(str_trim(s)), kinds_ok(c)
    ensures ok(s), tight(str_trim(s), c) ==> tight(s, c)
{
    part(s);
    blank_flat(lead(s)); blank_flat(trail(s));
    ok_flat(lead(s)); ok_flat(trail(s));
    assert(tight(lead(s), c)) by { assert forall|i: int| 0 <= i < lead(s).len() implies #[trigger] lead(s)[i] != c by { assert(is_ws(lead(s)[i])); } }
    assert(tight(trail(s), c)) by { assert forall|i: int| 0 <= i < trail(s).len() implies #[trigger] trail(s)[i] != c by { assert(is_ws(trail(s)[i])); } }
    ok_cat(lead(s), str_trim(s));
    ok_cat(lead(s) + str_trim(s), trail(s));
}
/// the parts of a normalised list
pub open spec fn gap_before(p: Seq<Seq<char>>, i: int, d: char, c: char, first: bool) -> Seq<char> { if c == d && i > 0 || i == 0 && first { Seq::empty() } else { lead(p[i]) } }
pub open spec fn gap_after(p: Seq<Seq<char>>, i: int, d: char, c: char, keep: bool) -> Seq<char> { if i == p.len() - 1 { if keep { trail(p[i]) } else { Seq::empty() } } else if c == d { Seq::empty() } else { trail(p[i]) } }
#[verifier::opaque]
pub open spec fn new_parts(p: Seq<Seq<char>>, d: char, c: char, first: bool, keep: bool) -> Seq<Seq<char>> {
    Seq::new(p.len(), |i: int| gap_before(p, i, d, c, first) + norm(str_trim(p[i]), c) + gap_after(p, i, d, c, keep))
}
#[verifier::opaque]
pub open spec fn untrailed(p: Seq<Seq<char>>, d: char) -> Seq<char> {
    (if p.len() == 1 { Seq::empty() } else { joined_by(p.drop_last(), d) + seq![d] }) + lead(p.last()) + str_trim(p.last())
}
/// all parts but the last
pub proof fn new_parts_step(p: Seq<Seq<char>>, d: char, c: char, first: bool)
    requires p.len() > 1
    ensures ({
        let q = p.drop_last();
        let nq = new_parts(q, d, c, first, false);
        let np = new_parts(p, d, c, first, false);
        &&& nq.len() == q.len() && np.len() == p.len()
        &&& np.drop_last() == nq.drop_last().push(nq.last() + (if c == d { Seq::empty() } else { trail(q.last()) }))
        &&& np.last() == gap_before(p, p.len() - 1, d, c, first) + norm(str_trim(p.last()), c)
    })
{
    reveal(new_parts);
    let q = p.drop_last();
    let nq = new_parts(q, d, c, first, false);
    let np = new_parts(p, d, c, first, false);
    let g: Seq<char> = if c == d { Seq::empty() } else { trail(q.last()) };
    let r = nq.drop_last().push(nq.last() + g);
    assert(np.last() =~= gap_before(p, p.len() - 1, d, c, first) + norm(str_trim(p.last()), c));
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] np.drop_last()[i] == r[i] by {
        assert(q[i] == p[i]);
        if i == q.len() - 1 { assert(np[i] =~= nq[i] + g); } else { assert(np[i] =~= nq[i]); }
    }
    assert(np.drop_last() =~= r);
}
pub proof fn new_parts_keep(p: Seq<Seq<char>>, d: char, c: char, first: bool)
    requires p.len() > 0
    ensures new_parts(p, d, c, first, true) == new_parts(p, d, c, first, false).drop_last().push(new_parts(p, d, c, first, false).last() + trail(p.last())), new_parts(p, d, c, first, false).len() == p.len()
{
    reveal(new_parts);
    let a = new_parts(p, d, c, first, true);
    let b = new_parts(p, d, c, first, false);
    let r = b.drop_last().push(b.last() + trail(p.last()));
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] a[i] == r[i] by { if i == p.len() - 1 { assert(a[i] =~= b[i] + trail(p[i])); } else { assert(a[i] =~= b[i]); } }
    assert(a =~= r);
}
pub proof fn new_parts_trim(p: Seq<Seq<char>>, d: char, c: char, first: bool, keep: bool, i: int)
    requires 0 <= i < p.len(), edged(norm(str_trim(p[i]), c))
    ensures new_parts(p, d, c, first, keep).len() == p.len(), str_trim(new_parts(p, d, c, first, keep)[i]) == norm(str_trim(p[i]), c),
        new_parts(p, d, c, first, keep)[i] == gap_before(p, i, d, c, first) + norm(str_trim(p[i]), c) + gap_after(p, i, d, c, keep)
{
    reveal(new_parts);
    part(p[i]);
    trim_to(gap_before(p, i, d, c, first), norm(str_trim(p[i]), c), gap_after(p, i, d, c, keep));
}
pub proof fn join_more(r: Seq<Seq<char>>, w: Seq<char>, d: char)
    requires r.len() > 0
    ensures joined_by(r.drop_last().push(r.last() + w), d) == joined_by(r, d) + w
{
    let q = r.drop_last();
    joined_push(q, r.last() + w, seq![d]);
    joined_push(q, r.last(), seq![d]);
    assert(q.push(r.last()) =~= r);
    assert(joined_by(q, d) + seq![d] + (r.last() + w) =~= joined_by(q, d) + seq![d] + r.last() + w);
}
pub proof fn join_trail(p: Seq<Seq<char>>, d: char)
    requires p.len() > 0
    ensures joined_by(p, d) == untrailed(p, d) + trail(p.last()), str_trim(p.last()).len() > 0 ==> untrailed(p, d).len() > 0 && untrailed(p, d).last() == str_trim(p.last()).last()
{
    reveal(untrailed);
    part(p.last());
    if p.len() == 1 { assert(p[0] == p.last()); assert(joined_by(p, d) =~= untrailed(p, d) + trail(p.last())); }
    else { assert(joined_by(p, d) =~= untrailed(p, d) + trail(p.last())); }
}
pub proof fn untrailed_step(p: Seq<Seq<char>>, d: char)
    requires p.len() > 1
    ensures untrailed(p, d) == untrailed(p.drop_last(), d) + trail(p.drop_last().last()) + seq![d] + lead(p.last()) + str_trim(p.last())
{
    join_trail(p.drop_last(), d);
    reveal(untrailed);
}
/// one more part
pub proof fn norm_more(s: Seq<char>, k: Seq<char>, l: Seq<char>, x: Seq<char>, d: char, c: char)
    requires kinds_ok(c), kinds_ok(d), spaces(k), spaces(l), closed_ends(x), s.len() > 0, !is_ws(s.last()), s.last() != c
    ensures norm(s + k + seq![d] + l + x, c) == norm(s, c) + (if c == d { Seq::empty() } else { k }) + seq![d] + (if c == d { Seq::empty() } else { l }) + norm(x, c)
{
    let h = s + k + seq![d];
    let g: Seq<char> = if c == d { Seq::empty() } else { k };
    if c == d { norm_cut(s, k, c); assert(norm(s, c) + g + seq![d] =~= norm(s, c) + seq![d]); } else { norm_glue(s, k, seq![d], c); }
    assert(norm(h, c) == norm(s, c) + g + seq![d]);
    norm_mid(h, l, x, c);
}
pub proof fn norm_list(pre: Seq<char>, p: Seq<Seq<char>>, d: char, c: char)
    requires p.len() > 0, kinds_ok(c), kinds_ok(d), forall|i: int| 0 <= i < p.len() ==> closed_ends(str_trim(#[trigger] p[i])),
        pre.len() == 0 || (edged(pre) && forall|i: int| 0 <= i < pre.len() ==> #[trigger] pre[i] != c)
    ensures norm(pre + untrailed(p, d), c) == pre + joined_by(new_parts(p, d, c, pre.len() == 0, false), d)
    decreases p.len()
{
    let l = p.last();
    let x = str_trim(l);
    let first = pre.len() == 0;
    assert(closed_ends(str_trim(p[p.len() - 1])));
    part(l);
    let np = new_parts(p, d, c, first, false);
    let e = Seq::<char>::empty();
    if p.len() == 1 {
        if pre.len() == 0 { norm_empty(c); assert(pre =~= e); } else { norm_plain(pre, c); assert(pre[pre.len() - 1] != c); }
        norm_mid(pre, lead(l), x, c);
        reveal(untrailed); reveal(new_parts);
        assert(pre + untrailed(p, d) =~= pre + lead(l) + x);
        assert(joined_by(np, d) == np[0]);
        assert(np[0] =~= gap_before(p, 0, d, c, first) + norm(x, c));
        assert(pre + np[0] =~= pre + (if first { Seq::empty() } else { lead(l) }) + norm(x, c));
    } else {
        let q = p.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies closed_ends(str_trim(#[trigger] q[i])) by { assert(q[i] == p[i]); }
        norm_list(pre, q, d, c);
        norm_list_step(pre, p, d, c);
    }
}
pub proof fn norm_list_step(pre: Seq<char>, p: Seq<Seq<char>>, d: char, c: char)
    requires p.len() > 1, kinds_ok(c), kinds_ok(d), forall|i: int| 0 <= i < p.len() ==> closed_ends(str_trim(#[trigger] p[i])),
        norm(pre + untrailed(p.drop_last(), d), c) == pre + joined_by(new_parts(p.drop_last(), d, c, pre.len() == 0, false), d)
    ensures norm(pre + untrailed(p, d), c) == pre + joined_by(new_parts(p, d, c, pre.len() == 0, false), d)
{
    let l = p.last();
    let x = str_trim(l);
    let first = pre.len() == 0;
    let q = p.drop_last();
    let k = q.last();
    assert(closed_ends(str_trim(p[p.len() - 1])));
    assert(closed_ends(str_trim(p[p.len() - 2])));
    part(l);
    part(k);
    let np = new_parts(p, d, c, first, false);
    let nq = new_parts(q, d, c, first, false);
    let s = pre + untrailed(q, d);
    join_trail(q, d);
    assert(s.last() == str_trim(k).last());
    untrailed_step(p, d);
    assert(pre + untrailed(p, d) =~= s + trail(k) + seq![d] + lead(l) + x);
    norm_more(s, trail(k), lead(l), x, d, c);
    new_parts_step(p, d, c, first);
    let g: Seq<char> = if c == d { Seq::empty() } else { trail(k) };
    join_more(nq, g, d);
    let v: Seq<char> = if c == d { Seq::empty() } else { lead(l) };
    assert(joined_by(np, d) == joined_by(nq, d) + g + seq![d] + np.last());
    assert(np.last() == v + norm(x, c));
    assert(pre + joined_by(np, d) =~= pre + joined_by(nq, d) + g + seq![d] + v + norm(x, c));
}
pub proof fn norm_of(s: Seq<char>, n: Seq<char>, p: Seq<Seq<char>>, c: char)
    requires p.len() > 0, kinds_ok(c), edged(n), no_marks(n), forall|i: int| 0 <= i < p.len() ==> closed_ends(str_trim(#[trigger] p[i])), s == n + seq!['['] + joined_by(p, ',') + seq![']']
    ensures norm(s, c) == n + seq!['['] + joined_by(new_parts(p, ',', c, false, true), ',') + seq![']']
{
    let pre = n + seq!['['];
    assert forall|i: int| 0 <= i < pre.len() implies #[trigger] pre[i] != c by { if i < n.len() { assert(n[i] != c); } }
    assert(pre[0] == n[0]);
    norm_list(pre, p, ',', c);
    let l = p.last();
    let u = pre + untrailed(p, ',');
    join_trail(p, ',');
    part(l);
    assert(closed_ends(str_trim(p[p.len() - 1])));
    norm_glue(u, trail(l), seq![']'], c);
    assert(s =~= u + trail(l) + seq![']']);
    let np = new_parts(p, ',', c, false, false);
    new_parts_keep(p, ',', c, false);
    join_more(np, trail(l), ',');
    assert(pre + joined_by(np, ',') + trail(l) + seq![']'] =~= n + seq!['['] + (joined_by(np, ',') + trail(l)) + seq![']']);
}
pub proof fn norm_any(s: Seq<char>, p: Seq<Seq<char>>, c: char)
    requires p.len() > 1, kinds_ok(c), edged(s), forall|i: int| 0 <= i < p.len() ==> closed_ends(str_trim(#[trigger] p[i])), s == joined_by(p, '|')
    ensures norm(s, c) == joined_by(new_parts(p, '|', c, true, false), '|')
{
    let e = Seq::<char>::empty();
    norm_list(e, p, '|', c);
    let l = p.last();
    join_trail(p, '|');
    join_ends(p, '|');
    part(l);
    assert(closed_ends(str_trim(p[p.len() - 1])));
    if trail(l).len() > 0 { assert(l.last() == trail(l).last()); }
    assert(s =~= e + untrailed(p, '|'));
    assert(e + joined_by(new_parts(p, '|', c, true, false), '|') =~= joined_by(new_parts(p, '|', c, true, false), '|'));
}
/// without the white space around its separators, a text still spells the same
pub proof fn spelled_norm(s: Seq<char>, t: Ann, c: char)
    requires spells(s, t), wf(t), kinds_ok(c)
    ensures spells(norm(s, c), t)
    decreases t
{
    match t {
        Ann::Name(n) => { assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] != c by {} norm_plain(n, c); },
        Ann::Of(n, ts) => {
            names_of(n);
            let p = choose|p: Seq<Seq<char>>| #[trigger] parts_of(p, ts.len() as int) && s == n + seq!['['] + str_join(p, seq![',']) + seq![']'] && (forall|i: int| 0 <= i < ts.len() ==> spells(str_trim(#[trigger] p[i]), ts[i]));
            let r = new_parts(p, ',', c, false, true);
            assert forall|i: int| 0 <= i < ts.len() implies closed_ends(str_trim(#[trigger] p[i])) && spells(norm(str_trim(p[i]), c), ts[i]) && edged(norm(str_trim(p[i]), c)) by {
                spelled_ends(str_trim(p[i]), ts[i]); spelled_norm(str_trim(p[i]), ts[i], c); spelled_ends(norm(str_trim(p[i]), c), ts[i]);
            }
            norm_of(s, n, p, c);
            new_parts_len(p, ',', c, false, true);
            assert(parts_of(r, ts.len() as int));
            assert forall|i: int| 0 <= i < ts.len() implies spells(str_trim(#[trigger] r[i]), ts[i]) by { assert(closed_ends(str_trim(p[i]))); new_parts_trim(p, ',', c, false, true, i); }
        },
        Ann::Any(ts) => {
            let p = choose|p: Seq<Seq<char>>| #[trigger] parts_of(p, ts.len() as int) && s == str_join(p, seq!['|']) && (forall|i: int| 0 <= i < ts.len() ==> spells(str_trim(#[trigger] p[i]), ts[i]));
            let r = new_parts(p, '|', c, true, false);
            assert forall|i: int| 0 <= i < ts.len() implies closed_ends(str_trim(#[trigger] p[i])) && spells(norm(str_trim(p[i]), c), ts[i]) && edged(norm(str_trim(p[i]), c)) by {
                spelled_ends(str_trim(p[i]), ts[i]); spelled_norm(str_trim(p[i]), ts[i], c); spelled_ends(norm(str_trim(p[i]), c), ts[i]);
            }
            norm_any(s, p, c);
            new_parts_len(p, '|', c, true, false);
            assert(parts_of(r, ts.len() as int));
            assert forall|i: int| 0 <= i < ts.len() implies spells(str_trim(#[trigger] r[i]), ts[i]) by { assert(closed_ends(str_trim(p[i]))); new_parts_trim(p, '|', c, true, false, i); }
            let k = ts.len() - 1;
            assert(closed_ends(str_trim(p[0])) && closed_ends(str_trim(p[k])));
            new_parts_trim(p, '|', c, true, false, 0);
            new_parts_trim(p, '|', c, true, false, k);
            join_ends(r, '|');
            assert(r[0][0] == norm(str_trim(p[0]), c)[0]);
            assert(r.last().last() == norm(str_trim(p[k]), c).last());
        },
    }
}
pub proof fn new_parts_len(p: Seq<Seq<char>>, d: char, c: char, first: bool, keep: bool)
    ensures new_parts(p, d, c, first, keep).len() == p.len()
{ reveal(new_parts); }
/// the elements that a joined list is split into
pub proof fn split_parts(p: Seq<Seq<char>>, ts: Seq<Ann>, c: char)
    requires p.len() > 0, p.len() == ts.len(), kinds_ok(c),
        forall|i: int| 0 <= i < ts.len() ==> spells(str_trim(#[trigger] p[i]), ts[i]) && wf(ts[i]) && (c == '|' ==> !is_any(ts[i]))
    ensures split_seq(joined_by(p, c), c).len() == p.len(), forall|i: int| 0 <= i < ts.len() ==> spells(#[trigger] split_seq(joined_by(p, c), c)[i], ts[i])
{
    assert forall|i: int| 0 <= i < p.len() implies ok(#[trigger] p[i]) && tight(p[i], c) by { spelled_ok(str_trim(p[i]), ts[i], c); padded_ok(p[i], c); }
    split_joined(p, c);
    assert forall|i: int| 0 <= i < ts.len() implies spells(#[trigger] split_seq(joined_by(p, c), c)[i], ts[i]) by {
        assert(split_seq(joined_by(p, c), c)[i] == norm(p[i], c));
        let x = str_trim(p[i]);
        assert(spells(x, ts[i]));
        part(p[i]);
        spelled_ends(x, ts[i]);
        norm_tail(lead(p[i]) + x, trail(p[i]), c);
        norm_head(lead(p[i]), x, c);
        spelled_norm(x, ts[i], c);
    }
}
pub open spec fn contract_holds() -> bool {
    forall|v: Seq<char>| #![trigger c_typing_from_py_str_FromStr_typing_Type_from_str(v)] e1_typing_from_py_str_FromStr_typing_Type_from_str(v, c_typing_from_py_str_FromStr_typing_Type_from_str(v))
}
pub proof fn denotes_edged(s: Seq<char>)
    requires contract_holds()
    ensures denotes(s) == parsed(str_trim(s)), edged(s) ==> str_trim(s) == s, denotes(str_trim(s)) == denotes(s)
{
    let e = Seq::<char>::empty();
    if edged(s) { trim_to(e, s, e); assert(e + s + e =~= s); }
    trim_props(s);
    let t = str_trim(s);
    if t.len() > 0 { trim_to(e, t, e); assert(e + t + e =~= t); } else { trim_nothing(t); }
}
pub proof fn ends_apart(s: Seq<char>)
    requires s.len() > 0, s.last() == ']'
    ensures s != "Any"@, s != "bool"@, s != "bytearray"@, s != "bytes"@, s != "float"@, s != "int"@, s != "str"@, s != "Union"@, s != "None"@, s != "NoneType"@,
        s != "dict"@, s != "Dict"@, s != "Mapping"@, s != "list"@, s != "Sequence"@, s != "Iterable"@, s != "Iterator"@, s != "tuple"@, s != "ipaddress.IPv4Address"@, s != "ipaddress.IPv6Address"@,
        s != "os.PathLike"@, s != "pathlib.Path"@, s != "slice"@, s != "complex"@, s != "datetime.date"@, s != "datetime.datetime"@, s != "timedelta"@, s != "datetime.time"@, s != "datetime.tzinfo"@,
        s != "capsule"@, s != "cfunction"@, s != "code"@, s != "Ellipsis"@, s != "..."@, s != "frame"@, s != "function"@, s != "Callable"@, s != "callable"@, s != "module"@, s != "super"@, s != "traceback"@,
{ LITS; }
/// a text with an alternative is none of the names that are looked up first
pub proof fn alternatives_apart(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), s[i] == '|'
    ensures s != "Any"@, s != "bool"@, s != "bytearray"@, s != "bytes"@, s != "float"@, s != "int"@, s != "str"@
{ LITS; }
pub proof fn wrapped(s: Seq<char>, n: Seq<char>, b: Seq<char>, l: Seq<char>)
    requires s == n + seq!['['] + b + seq![']'], l == n + seq!['[']
    ensures wraps(s, l), within(s, l) == b
{
    LITS;
    assert(s.subrange(0, l.len() as int) =~= l);
    assert(s.subrange(s.len() - 1, s.len() as int) =~= "]"@);
    assert(within(s, l) =~= b);
}
pub proof fn heads(n: Seq<char>)
    ensures n == "dict"@ ==> "dict["@ == n + seq!['['], n == "frozenset"@ ==> "frozenset["@ == n + seq!['['], n == "list"@ ==> "list["@ == n + seq!['['], n == "Sequence"@ ==> "Sequence["@ == n + seq!['['],
        n == "Iterable"@ ==> "Iterable["@ == n + seq!['['], n == "Iterator"@ ==> "Iterator["@ == n + seq!['['], n == "set"@ ==> "set["@ == n + seq!['['], n == "tuple"@ ==> "tuple["@ == n + seq!['['], n == "type"@ ==> "type["@ == n + seq!['['],
{
    LITS;
    if n == "dict"@ { assert("dict["@ =~= n + seq!['[']); }
    if n == "frozenset"@ { assert("frozenset["@ =~= n + seq!['[']); }
    if n == "list"@ { assert("list["@ =~= n + seq!['[']); }
    if n == "Sequence"@ { assert("Sequence["@ =~= n + seq!['[']); }
    if n == "Iterable"@ { assert("Iterable["@ =~= n + seq!['[']); }
    if n == "Iterator"@ { assert("Iterator["@ =~= n + seq!['[']); }
    if n == "set"@ { assert("set["@ =~= n + seq!['[']); }
    if n == "tuple"@ { assert("tuple["@ =~= n + seq!['[']); }
    if n == "type"@ { assert("type["@ =~= n + seq!['[']); }
}
pub proof fn starts_apart(s: Seq<char>, l: Seq<char>, i: int)
    requires 0 <= i < l.len(), i < s.len(), s[i] != l[i]
    ensures !seq_starts(s, l)
{ if seq_starts(s, l) { assert(s.subrange(0, l.len() as int)[i] == s[i]); } }
pub open spec fn of_parsed(n: Seq<char>, b: Seq<char>) -> Type {
    let ts = denote_all(split_seq(b, ','));
    if n == "dict"@ { Type::PyDict { key_type: Box::new(nth_or(ts, 0)), value_type: Box::new(nth_or(ts, 1)) } }
    else if n == "tuple"@ { Type::PyTuple(ts) }
    else if n == "set"@ { Type::PySet(Box::new(denotes(b))) }
    else if n == "frozenset"@ { Type::PyFrozenSet(Box::new(denotes(b))) }
    else if n == "type"@ { denotes(b) }
    else { Type::PyList(Box::new(denotes(b))) }
}
/// name[body] is what the constructor makes of its body
pub proof fn parsed_of(s: Seq<char>, n: Seq<char>, b: Seq<char>)
    requires s == n + seq!['['] + b + seq![']'], unary(n) || n == "dict"@ || n == "tuple"@, split_seq(s, '|').len() == 1
    ensures parsed(s) == of_parsed(n, b)
{
    LITS;
    ends_apart(s);
    heads(n);
    wrapped(s, n, b, n + seq!['[']);
    assert(forall|i: int| 0 <= i < n.len() ==> s[i] == #[trigger] n[i]);
    assert(s[n.len() as int] == '[');
    let d = "dict["@; let f = "frozenset["@; let l = "list["@; let q = "Sequence["@; let a = "Iterable["@; let o = "Iterator["@; let e = "set["@; let t = "tuple["@; let k = "Callable["@; let y = "type["@;
    if n != "dict"@ { assert(s[0] != d[0]); starts_apart(s, d, 0); }
    if n != "frozenset"@ { starts_apart(s, f, 0); }
    if n != "list"@ { starts_apart(s, l, 0); }
    if n != "Sequence"@ { starts_apart(s, q, 0); }
    if n != "Iterable"@ { if n == "Iterator"@ { assert(s[5] == n[5]); starts_apart(s, a, 5); } else { starts_apart(s, a, 0); } }
    if n != "Iterator"@ { if n == "Iterable"@ { assert(s[5] == n[5]); starts_apart(s, o, 5); } else { starts_apart(s, o, 0); } }
    if n != "set"@ { starts_apart(s, e, 0); }
    if n != "tuple"@ { if n == "type"@ { starts_apart(s, t, 1); } else { starts_apart(s, t, 0); } }
    starts_apart(s, k, 0);
}
pub proof fn none_first(q: Seq<Seq<char>>, ts: Seq<Ann>)
    requires q.len() == ts.len(), ts.len() >= 2, forall|i: int| 0 <= i < ts.len() ==> denotes(#[trigger] q[i]) == meaning(ts[i]) && (q[i] == "None"@ <==> is_none(ts[i]))
    ensures alternatives(q) == meaning(Ann::Any(ts))
{
    let f = |x: Seq<char>| x == "None"@;
    let nf = |x: Seq<char>| !f(x);
    twn_bounds(q, nf);
    let k = seq_twn(q, nf);
    assert(denotes(q[0]) == meaning(ts[0]) && denotes(q[1]) == meaning(ts[1]));
    if ts.len() == 2 {
        if is_none(ts[0]) { assert(f(q[0])); assert(k == 0) by { if k > 0 { assert(nf(q[0])); } } }
        else if is_none(ts[1]) { assert(f(q[1])); assert(k == 1) by { if k > 1 { assert(nf(q[1])); } if k == 0 { assert(!nf(q[0])); } } }
        else { assert(k == 2) by { if k < 2 { assert(!nf(q[k])); } } }
    }
    assert(denote_all(q) =~= meanings(ts));
}
pub proof fn elements_of(n: Seq<char>, b: Seq<char>, q: Seq<Seq<char>>, ts: Seq<Ann>)
    requires n == "dict"@ && ts.len() == 2 || n == "tuple"@ && ts.len() >= 1, q == split_seq(b, ','), q.len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> denotes(#[trigger] q[i]) == meaning(ts[i])
    ensures of_parsed(n, b) == meaning(Ann::Of(n, ts))
{
    LITS;
    assert(denotes(q[0]) == meaning(ts[0]));
    if n == "dict"@ { assert(denotes(q[1]) == meaning(ts[1])); assert(denote_all(q)[0] == denotes(q[0]) && denote_all(q)[1] == denotes(q[1])); }
    else { assert(denote_all(q) =~= meanings(ts)); }
}
pub proof fn element_of(n: Seq<char>, b: Seq<char>, ts: Seq<Ann>)
    requires unary(n), ts.len() == 1, denotes(b) == meaning(ts[0])
    ensures of_parsed(n, b) == meaning(Ann::Of(n, ts))
{ LITS; }
pub proof fn alone(s: Seq<char>, t: Ann)
    requires spells(s, t), wf(t), !is_any(t)
    ensures split_seq(s, '|').len() == 1
{
    spelled_ok(s, t, '|');
    let p = seq![s];
    assert(p[0] == s);
    split_joined(p, '|');
    assert(joined_by(p, '|') == s);
}
/// what a text with alternatives is parsed to
pub proof fn parsed_any(s: Seq<char>, p: Seq<Seq<char>>)
    requires s == joined_by(p, '|'), p.len() >= 2, split_seq(s, '|').len() == p.len()
    ensures parsed(s) == alternatives(split_seq(s, '|'))
{
    join_ends(p, '|');
    let j = choose|j: int| 0 <= j < joined_by(p, '|').len() && #[trigger] joined_by(p, '|')[j] == '|';
    alternatives_apart(s, j);
}
pub proof fn nested(s: Seq<char>, t: Ann)
    requires contract_holds(), wf(t), spells(s, t)
    ensures denotes(s) == meaning(t)
    decreases t
{
    hide(parsed); hide(of_parsed); hide(alternatives); hide(contract_holds); hide(denotes); hide(str_trim); hide(edged); hide(split_seq); hide(closed_ends);
    hide(str_join); hide(denote_all);
    spelled_ends(s, t);
    edged_of(s);
    denotes_edged(s);
    match t {
        Ann::Name(n) => {},
        Ann::Of(n, ts) => {
            let p = choose|p: Seq<Seq<char>>| #[trigger] parts_of(p, ts.len() as int) && s == n + seq!['['] + str_join(p, seq![',']) + seq![']'] && (forall|i: int| 0 <= i < ts.len() ==> spells(str_trim(#[trigger] p[i]), ts[i]));
            let b = str_join(p, seq![',']);
            alone(s, t);
            parsed_of(s, n, b);
            assert(wf(ts[0]));
            if n == "dict"@ || n == "tuple"@ {
                distinct_names(n);
                split_parts(p, ts, ',');
                let q = split_seq(b, ',');
                assert forall|i: int| 0 <= i < ts.len() implies denotes(#[trigger] q[i]) == meaning(ts[i]) by { nested(q[i], ts[i]); }
                elements_of(n, b, q, ts);
            } else {
                join_one(p, ',');
                assert(spells(str_trim(p[0]), ts[0]));
                denotes_edged(b);
                nested(str_trim(b), ts[0]);
                element_of(n, b, ts);
            }
        },
        Ann::Any(ts) => {
            let p = choose|p: Seq<Seq<char>>| #[trigger] parts_of(p, ts.len() as int) && s == str_join(p, seq!['|']) && (forall|i: int| 0 <= i < ts.len() ==> spells(str_trim(#[trigger] p[i]), ts[i]));
            split_parts(p, ts, '|');
            parsed_any(s, p);
            let q = split_seq(s, '|');
            assert forall|i: int| 0 <= i < ts.len() implies denotes(#[trigger] q[i]) == meaning(ts[i]) && (q[i] == "None"@ <==> is_none(ts[i])) by { nested(q[i], ts[i]); none_is_none(q[i], ts[i]); }
            none_first(q, ts);
        },
    }
}
pub proof fn edged_of(s: Seq<char>)
    requires closed_ends(s)
    ensures edged(s)
{}
pub proof fn join_one(p: Seq<Seq<char>>, c: char)
    requires p.len() == 1
    ensures joined_by(p, c) == p[0]
{}
pub proof fn distinct_names(n: Seq<char>)
    ensures n == "dict"@ ==> n != "tuple"@ && !unary(n), n == "tuple"@ ==> !unary(n)
{ LITS; }
pub proof fn none_is_none(s: Seq<char>, t: Ann)
    requires spells(s, t), wf(t), !is_any(t)
    ensures s == "None"@ <==> is_none(t)
{
    LITS;
    spelled_ends(s, t);
}
