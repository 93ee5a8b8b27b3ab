// Mathematical vocabulary used by the generated obligations. Everything here is defined and proved;
// `uninterp` functions are the library functions about which nothing is assumed.

pub uninterp spec fn has_sub(s: Seq<char>, p: Seq<char>) -> bool;

// ---- sequences -----------------------------------------------------------------------------
pub open spec fn seq_map<A, B>(s: Seq<A>, f: spec_fn(A) -> B) -> Seq<B> { Seq::new(s.len(), |i: int| f(s[i])) }

pub open spec fn seq_filter<A>(s: Seq<A>, f: spec_fn(A) -> bool) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 { s } else if f(s.last()) { seq_filter(s.drop_last(), f).push(s.last()) } else { seq_filter(s.drop_last(), f) }
}

pub open spec fn seq_repeat<A>(x: A, n: int) -> Seq<A> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| x) }

/// number of leading elements satisfying f
pub open spec fn seq_twn<A>(s: Seq<A>, f: spec_fn(A) -> bool) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if f(s[0]) { 1 + seq_twn(s.drop_first(), f) } else { 0 }
}

pub open spec fn seq_any<A>(s: Seq<A>, f: spec_fn(A) -> bool) -> bool { exists|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) }

pub open spec fn seq_starts<A>(s: Seq<A>, p: Seq<A>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p }
pub open spec fn seq_ends<A>(s: Seq<A>, p: Seq<A>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) =~= p }

pub open spec fn seq_zip<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> {
    Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i]))
}
pub open spec fn seq_rev<A>(s: Seq<A>) -> Seq<A> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }

pub open spec fn str_join(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { str_join(s.drop_last(), sep) + sep + s.last() }
}

/// str::split(char)
pub open spec fn split_chr(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::<char>::empty()] } else {
        let r = split_chr(s.drop_last(), c);
        if s.last() == c { r.push(Seq::empty()) } else { r.drop_last().push(r.last().push(s.last())) }
    }
}

// ---- further sequence functions ------------------------------------------------------------------
pub open spec fn rng(a: int, b: int) -> Seq<int> { Seq::new(if b < a { 0 } else { (b - a) as nat }, |i: int| a + i) }
pub open spec fn seq_flat<A>(s: Seq<Seq<A>>) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { seq_flat(s.drop_last()) + s.last() }
}
pub open spec fn seq_fold<A, B>(s: Seq<A>, init: B, f: spec_fn(B, A) -> B) -> B
    decreases s.len()
{
    if s.len() == 0 { init } else { f(seq_fold(s.drop_last(), init, f), s.last()) }
}
pub open spec fn seq_enum<A>(s: Seq<A>) -> Seq<(int, A)> { Seq::new(s.len(), |i: int| (i, s[i])) }
pub open spec fn seq_find<A>(s: Seq<A>, f: spec_fn(A) -> bool) -> Option<A> {
    let i = seq_twn(s, |x: A| !f(x));
    if i < s.len() { Option::Some(s[i]) } else { Option::None }
}
pub open spec fn seq_pos<A>(s: Seq<A>, f: spec_fn(A) -> bool) -> Option<int> {
    let i = seq_twn(s, |x: A| !f(x));
    if i < s.len() { Option::Some(i) } else { Option::None }
}
/// keeps the first of equal elements
pub open spec fn seq_unique<A>(s: Seq<A>) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 { s } else {
        let r = seq_unique(s.drop_last());
        if seq_any(s.drop_last(), |x: A| x == s.last()) { r } else { r.push(s.last()) }
    }
}
pub open spec fn seq_unique_by<A, K>(s: Seq<A>, f: spec_fn(A) -> K) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 { s } else {
        let r = seq_unique_by(s.drop_last(), f);
        if seq_any(s.drop_last(), |x: A| f(x) == f(s.last())) { r } else { r.push(s.last()) }
    }
}
pub open spec fn seq_dedup<A>(s: Seq<A>) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 { s } else {
        let r = seq_dedup(s.drop_last());
        if r.len() > 0 && r.last() == s.last() { r } else { r.push(s.last()) }
    }
}
pub uninterp spec fn seq_sort<A>(s: Seq<A>, f: spec_fn(A, A) -> Ordering) -> Seq<A>;
pub open spec fn seq_rest<A>(s: Seq<A>) -> Seq<A> { if s.len() == 0 { s } else { s.drop_first() } }
pub open spec fn collect_opt<A>(s: Seq<Option<A>>) -> Option<Seq<A>> {
    if seq_any(s, |x: Option<A>| x is None) { Option::None } else { Option::Some(seq_map(s, |x: Option<A>| x->Some_0)) }
}
pub open spec fn collect_res<A, E>(s: Seq<Result<A, E>>) -> Result<Seq<A>, E> {
    let i = seq_twn(s, |x: Result<A, E>| x is Ok);
    if i < s.len() { Result::Err(s[i]->Err_0) } else { Result::Ok(seq_map(s, |x: Result<A, E>| x->Ok_0)) }
}

// ---- sets and maps (std collections as mathematical ones; iteration order is unknown) ---------------
pub open spec fn set_has<A>(s: Set<A>, x: A) -> bool { s.contains(x) }
pub open spec fn set_ins<A>(s: Set<A>, x: A) -> Set<A> { s.insert(x) }
pub open spec fn set_empty<A>() -> Set<A> { Set::empty() }
pub open spec fn seq_set<A>(s: Seq<A>) -> Set<A> { s.to_set() }
pub open spec fn set_extend<A>(s: Set<A>, x: Seq<A>) -> Set<A> { s.union(x.to_set()) }
pub uninterp spec fn set_seq<A>(s: Set<A>) -> Seq<A>;
pub open spec fn map_has<K, V>(m: Map<K, V>, k: K) -> bool { m.dom().contains(k) }
pub open spec fn map_idx<K, V>(m: Map<K, V>, k: K) -> V { m[k] }
pub open spec fn map_ins<K, V>(m: Map<K, V>, k: K, v: V) -> Map<K, V> { m.insert(k, v) }
pub open spec fn map_empty<K, V>() -> Map<K, V> { Map::empty() }
pub uninterp spec fn map_seq<K, V>(m: Map<K, V>) -> Seq<(K, V)>;
pub open spec fn seq_to_map<K, V>(s: Seq<(K, V)>) -> Map<K, V>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { seq_to_map(s.drop_last()).insert(s.last().0, s.last().1) }
}

// ---- str functions about which nothing (or little) is assumed ------------------------------------------
/// Unicode White_Space, as char::is_whitespace
pub open spec fn is_ws(c: char) -> bool {
    '\u{9}' <= c <= '\u{d}' || c == ' ' || c == '\u{85}' || c == '\u{a0}' || c == '\u{1680}' || '\u{2000}' <= c <= '\u{200a}'
        || c == '\u{2028}' || c == '\u{2029}' || c == '\u{202f}' || c == '\u{205f}' || c == '\u{3000}'
}
pub uninterp spec fn is_alnum(c: char) -> bool;
pub open spec fn trim_s(s: Seq<char>) -> Seq<char> { s.subrange(seq_twn(s, |c: char| is_ws(c)), s.len() as int) }
pub open spec fn str_trim_start(s: Seq<char>) -> Seq<char> { trim_s(s) }
pub open spec fn str_trim_end(s: Seq<char>) -> Seq<char> { seq_rev(trim_s(seq_rev(s))) }
pub open spec fn str_trim(s: Seq<char>) -> Seq<char> { str_trim_end(trim_s(s)) }
pub uninterp spec fn str_lower(s: Seq<char>) -> Seq<char>;
pub open spec fn strip_cr(l: Seq<char>) -> Seq<char> { if l.len() > 0 && l.last() == '\u{d}' { l.drop_last() } else { l } }
/// str::lines
pub open spec fn str_lines(s: Seq<char>) -> Seq<Seq<char>> {
    let p = split_chr(s, '\u{a}');
    seq_map(p.drop_last(), |l: Seq<char>| strip_cr(l)) + (if p.last().len() > 0 { Seq::empty().push(p.last()) } else { Seq::empty() })
}
pub uninterp spec fn str_matches(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn str_replace(s: Seq<char>, p: Seq<char>, r: Seq<char>) -> Seq<char>;
pub uninterp spec fn split_str(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn split_once(s: Seq<char>, p: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;
pub uninterp spec fn rsplit_once(s: Seq<char>, p: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;
pub uninterp spec fn trim_start_matches(s: Seq<char>, p: Seq<char>) -> Seq<char>;
pub uninterp spec fn int_str(i: int) -> Seq<char>;
/// bytes of the UTF-8 encoding
pub open spec fn utf8(c: char) -> int { if c < '\u{80}' { 1 } else if c < '\u{800}' { 2 } else if c < '\u{10000}' { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { blen(s.drop_last()) + utf8(s.last()) } }
/// a proper prefix is shorter
pub proof fn blen_prefix(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures blen(s.subrange(0, n)) <= blen(s), n < s.len() ==> blen(s.subrange(0, n)) < blen(s)
    decreases s.len()
{
    if n < s.len() {
        blen_prefix(s.drop_last(), n);
        assert(s.drop_last().subrange(0, n) =~= s.subrange(0, n));
    } else { assert(s.subrange(0, n) =~= s); }
}
pub uninterp spec fn fmt_debug<A>(a: A) -> Seq<char>;

// ---- lemmas ----------------------------------------------------------------------------------
pub broadcast proof fn twn_bounds<A>(s: Seq<A>, f: spec_fn(A) -> bool)
    ensures
        0 <= #[trigger] seq_twn(s, f) <= s.len(),
        forall|i: int| 0 <= i < seq_twn(s, f) ==> f(#[trigger] s[i]),
        seq_twn(s, f) < s.len() ==> !f(s[seq_twn(s, f)]),
    decreases s.len()
{
    if s.len() > 0 && f(s[0]) {
        twn_bounds(s.drop_first(), f);
        let n = seq_twn(s.drop_first(), f);
        assert forall|i: int| 0 <= i < seq_twn(s, f) implies f(#[trigger] s[i]) by {
            if i > 0 { assert(s.drop_first()[i - 1] == s[i]); }
        }
        if n < s.drop_first().len() { assert(s.drop_first()[n] == s[n + 1]); }
    }
}

pub broadcast proof fn filter_ext<A>(s: Seq<A>, f: spec_fn(A) -> bool, g: spec_fn(A) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i])
    ensures #[trigger] seq_filter(s, f) == #[trigger] seq_filter(s, g)
    decreases s.len()
{
    if s.len() > 0 {
        assert(f(s[s.len() - 1]) == g(s[s.len() - 1]));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) == g(s.drop_last()[i]) by {
            assert(s.drop_last()[i] == s[i]);
        }
        filter_ext(s.drop_last(), f, g);
    }
}

pub broadcast proof fn twn_ext<A>(s: Seq<A>, f: spec_fn(A) -> bool, g: spec_fn(A) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i])
    ensures #[trigger] seq_twn(s, f) == #[trigger] seq_twn(s, g)
    decreases s.len()
{
    if s.len() > 0 {
        assert(f(s[0]) == g(s[0]));
        assert forall|i: int| 0 <= i < s.drop_first().len() implies f(#[trigger] s.drop_first()[i]) == g(s.drop_first()[i]) by {
            assert(s.drop_first()[i] == s[i + 1]);
        }
        twn_ext(s.drop_first(), f, g);
    }
}

pub broadcast proof fn filter_len<A>(s: Seq<A>, f: spec_fn(A) -> bool)
    ensures (#[trigger] seq_filter(s, f)).len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 { filter_len(s.drop_last(), f); }
}

pub broadcast proof fn filter_all<A>(s: Seq<A>, f: spec_fn(A) -> bool, i: int)
    requires 0 <= i < seq_filter(s, f).len()
    ensures f(#[trigger] seq_filter(s, f)[i]), exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == seq_filter(s, f)[i]
    decreases s.len()
{
    if s.len() > 0 {
        let r = seq_filter(s.drop_last(), f);
        if f(s.last()) && i == r.len() {
            assert(s[s.len() - 1] == seq_filter(s, f)[i]);
        } else {
            filter_all(s.drop_last(), f, i);
            let j = choose|j: int| 0 <= j < s.drop_last().len() && #[trigger] s.drop_last()[j] == r[i];
            assert(s[j] == seq_filter(s, f)[i]);
        }
    }
}

pub broadcast proof fn map_ext<A, B>(s: Seq<A>, f: spec_fn(A) -> B, g: spec_fn(A) -> B)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i])
    ensures #[trigger] seq_map(s, f) == #[trigger] seq_map(s, g)
{
    assert(seq_map(s, f) =~= seq_map(s, g));
}

pub broadcast proof fn split_nonempty(s: Seq<char>, c: char)
    ensures (#[trigger] split_chr(s, c)).len() >= 1
    decreases s.len()
{
    if s.len() > 0 { split_nonempty(s.drop_last(), c); }
}

pub proof fn join_push(s: Seq<Seq<char>>, x: Seq<char>, sep: Seq<char>)
    ensures str_join(s.push(x), sep) == if s.len() == 0 { x } else { str_join(s, sep) + sep + x }
{
    assert(s.push(x).drop_last() =~= s);
}

/// joining what split() separated gives the text back
pub proof fn join_split(s: Seq<char>, c: char)
    ensures str_join(split_chr(s, c), seq![c]) == s
    decreases s.len()
{
    if s.len() == 0 {
        assert(split_chr(s, c) =~= seq![Seq::<char>::empty()]);
    } else {
        let p = s.drop_last();
        let r = split_chr(p, c);
        join_split(p, c);
        split_nonempty(p, c);
        if s.last() == c {
            join_push(r, Seq::empty(), seq![c]);
            assert(p + seq![c] + Seq::<char>::empty() =~= s);
        } else {
            let q = r.drop_last();
            join_push(q, r.last(), seq![c]);
            join_push(q, r.last().push(s.last()), seq![c]);
            assert(q.push(r.last()) =~= r);
            if q.len() == 0 {
                assert(r.last() == p);
                assert(r.last().push(s.last()) =~= s);
            } else {
                assert(str_join(q, seq![c]) + seq![c] + r.last().push(s.last()) =~= (str_join(q, seq![c]) + seq![c] + r.last()).push(s.last()));
                assert(p.push(s.last()) =~= s);
            }
        }
    }
}

pub broadcast group pre_group {
    twn_bounds, twn_ext, filter_ext, filter_len, filter_all, map_ext, split_nonempty,
}
