"""Contracts of pyo3_bindgen_engine."""
from vcgen.contract import Contract
from vcgen.terms import CHAR, BOOL

CONTRACTS = []


def C(fn, *a, **k):
    CONTRACTS.append(Contract(fn, *a, **k))


I = 'syntax::common::ident::'
C(I + 'Ident::from_rs', 'value', requires='value.len() > 0', ret='ident(value)', props='C01')
C(I + 'Ident::from_py', 'value', requires='value.len() > 0', ret='py_ident(value)', props='C01')
C(I + 'Ident::into_rs', 'self', ret='self_.f0', props='C01')
C(I + 'Ident::as_rs', 'self', ret='self_.f0', props='C01')
C(I + 'Ident::as_py', 'self', ret='py_of(self_.f0)', props='C01 C18')
C(I + 'Ident::py_to_rs', 'value', ret='rs_of(value)', props='C01')
C(I + 'Ident::rs_as_py', 'value', ret='py_of(value)', props='C01')

P = 'syntax::common::path::'
C(P + 'Path::from_py', 'value', requires='!has_sub(value, "::"@)', ret='mkpath(py_segs(value))', props='C01')
C(P + 'Path::to_py', 'self', ret='segs_py(self_.segments)', props='C01 C18',
  hints='''
    let m = seq_map(self_.segments, |i: Ident| seg_py(i));
    join_push(m, Seq::<char>::empty(), "."@);
    assert(m + seq![Seq::<char>::empty()] =~= m.push(Seq::<char>::empty()));
    assert(m + Seq::<Seq<char>>::empty() =~= m);''')
C(P + 'Path::to_rs', 'self', ret='segs_rs(self_)', props='C01')
C(P + 'Path::into_rs', 'self', ret='segs_rs(self_)', props='C01')
C(P + 'Path::name', 'self', requires='self_.segments.len() > 0', ret='self_.segments.last()', props='C02')
C(P + 'Path::root', 'self', ret='if self_.segments.len() == 0 { Option::None } else { Option::Some(Path { leading_colon: self_.leading_colon, segments: seq![self_.segments[0]] }) }', props='C03')
C(P + 'Path::parent', 'self', ret='if self_.segments.len() <= 1 { Option::None } else { Option::Some(Path { leading_colon: self_.leading_colon, segments: self_.segments.drop_last() }) }', props='C03')
C(P + 'Path::join', 'self other', requires='!other.leading_colon', ret='Path { leading_colon: self_.leading_colon, segments: self_.segments + other.segments }', props='C10')
C(P + 'Path::concat', 'self other', requires='!other.leading_colon', ret='Path { leading_colon: self_.leading_colon, segments: self_.segments + other.segments }', props='C10')
C('<' + P + 'Path as std::convert::From<' + I + 'Ident>>::from', 'ident', ret='mkpath(seq![ident])', props='C02')
C('<' + P + 'Path as std::convert::From<&[' + I + 'Ident]>>::from', 'segments', ret='mkpath(segments)', props='C02')
C(P + 'Path::relative_to', 'self target fully_unambiguous', requires='target.segments.len() > 0',
  ensures=['clean(self_.segments) && clean(target.segments) ==> resolve(Option::Some(self_.segments), result.segments) == Option::Some(target.segments)',
           'clean(self_.segments) && clean(target.segments) && self_.leading_colon == target.leading_colon && fully_unambiguous ==> unambiguous(self_.segments, result.segments)',
           '!result.leading_colon'],
  hints='''
    l_super(); l_self(); assert("super"@[1] != "self"@[1]); assert(sup() != slf()) by { assert(sup().f0[1] != slf().f0[1]); }
    common_prefix(self_.segments, target.segments);
    let c_ = common(self_.segments, target.segments);
    let rest_ = target.segments.subrange(c_, target.segments.len() as int);
    if clean(target.segments) {
        assert forall|i: int| 0 <= i < rest_.len() implies #[trigger] rest_[i] != sup() && rest_[i] != slf() by { assert(rest_[i] == target.segments[i + c_]); }
        assert(target.segments.last() == target.segments[target.segments.len() - 1]);
        assert(target.segments.drop_last().push(target.segments.last()) =~= target.segments);
        assert(target.segments.drop_last() =~= target.segments.subrange(0, target.segments.len() - 1));
    }
    assert(self_.segments.subrange(0, c_) + rest_ =~= target.segments);
    assert(self_.segments.subrange(0, self_.segments.len() as int) =~= self_.segments);
    if c_ == target.segments.len() && c_ == self_.segments.len() { assert(self_.segments =~= target.segments); }
    if clean(target.segments) { assert(target.segments[target.segments.len() - 1] != sup()); if rest_.len() > 0 { assert(rest_.last() == target.segments.last()); } }
    if c_ == target.segments.len() { assert(rest_ =~= Seq::<Ident>::empty()); assert(self_.segments.subrange(0, c_) =~= target.segments); }
  ''', props='C02 C03')
C('<' + I + 'Ident as std::cmp::Ord>::cmp', 'self other', ret='str_cmp(ipy(*self_), ipy(*other))'.replace('*',''), props='C18')
C('<' + I + 'Ident as std::cmp::PartialOrd>::partial_cmp', 'self other', ret='Option::Some(str_cmp(ipy(self_), ipy(other)))', props='C18')
C('<' + P + 'Path as std::cmp::Ord>::cmp', 'self other', ret='str_cmp(segs_py(self_.segments), segs_py(other.segments))', props='C18')
C('<' + P + 'Path as std::cmp::PartialOrd>::partial_cmp', 'self other', ret='Option::Some(str_cmp(segs_py(self_.segments), segs_py(other.segments)))', props='C18')

C('config::Config::is_attr_allowed', 'self attr_name attr_module attr_type', ret='attr_allowed(self_, attr_name, attr_module.segments)', props='C04')

M = 'syntax::import::'
C(M + 'ImportType::from_paths', 'origin target', ret='import_class(origin.segments, target.segments)', props='C03')
C(M + 'Import::new', 'origin target', ret='Import { origin: origin, target: target, import_type: import_class(origin.segments, target.segments) }', props='C03')
C(M + 'Import::generate', 'self _cfg', requires='self_.origin.segments.len() > 0 && self_.target.segments.len() > 0', props='C03', ensures=[
    '!(self_.import_type is SubmoduleReexport) || self_.origin == self_.target ==> result is Ok && result->Ok_0.len() == 0',
    'self_.import_type is SubmoduleReexport && self_.origin != self_.target ==> exists|rel: Path| #![trigger segs_rs(rel)] names_origin(self_, rel) && (result is Err <==> unspeakable(self_, rel)) && (result is Ok ==> result->Ok_0 =~~= reexport(self_, rel))'],
  defs='''
/// the path, written in the module that contains the target, denotes the origin
pub open spec fn names_origin(i: Import, rel: Path) -> bool {
    let home = if i.target.segments.len() <= 1 { Seq::empty() } else { i.target.segments.drop_last() };
    !rel.leading_colon && (clean(home) && clean(i.origin.segments) ==> resolve(Option::Some(home), rel.segments) == Option::Some(i.origin.segments)
        && (!i.origin.leading_colon && !i.target.leading_colon ==> unambiguous(home, rel.segments)))
}
pub open spec fn reexport(i: Import, rel: Path) -> Seq<Tok> {
    if !syn_path_ok(segs_rs(rel)) { Seq::empty() }
    else if i.origin.segments.last() == i.target.segments.last() { q!{ pub use }.push(Tok::PathT(segs_rs(rel))).push(Tok::P(";"@)) }
    else { q!{ pub use }.push(Tok::PathT(segs_rs(rel))) + q!{ as $I(i.target.segments.last().f0) ; } }
}
/// the last component of the target is needed and has no Rust spelling
pub open spec fn unspeakable(i: Import, rel: Path) -> bool {
    syn_path_ok(segs_rs(rel)) && i.origin.segments.last() != i.target.segments.last() && !syn_ident_ok(i.target.segments.last().f0)
}
''')
C(M + 'Import::is_external', 'self', ret='self_.import_type is ExternalImport', props='C03')

T = 'typing::into_rs::'
C(T + 'OutputType::new', 'owned borrowed', ret='OutputType { owned: owned, borrowed: borrowed }', props='C07')
C(T + 'OutputType::new_identical', 'output_type', ret='OutputType { owned: output_type, borrowed: output_type }', props='C07')
TY = T + '<impl typing::Type>::'
C('typing::Type::is_hashable', 'self', det=True, ensures=['result ==> key_ok(self_)'], props='C07', split=True, defs='''
/// Python types whose Rust counterparts implement Hash and Eq
pub open spec fn key_ok(t: Type) -> bool {
    t is PyBool || t is PyLong || t is PyString || t is IpV4Addr || t is IpV6Addr || t is Path || t is PyBytes || t is PyByteArray
}''')
C(TY + 'try_map_external_type', 'type_name', det=True, split=True, props='C07',
  ensures=['result is Some ==> impls(result->Some_0.owned) == 0 && impls(result->Some_0.borrowed) == 0'])
C(TY + 'find_local_type', 'type_name local_types', det=True, props='C07',
  ensures=['result is Some ==> map_has(local_types, mkpath(py_segs(bare(type_name)))) && result->Some_0.s == segs_rs(map_idx(local_types, mkpath(py_segs(bare(type_name)))))'],
  defs='''
/// a class name without its type parameters
pub open spec fn bare(n: Seq<char>) -> Seq<char> { if split_once(n, "["@) is Some { split_once(n, "["@)->Some_0.0 } else { n } }''')
C(TY + 'map_type', 'self local_types', requires='self_ is Other', det=True, split=True, props='C07',
  ensures=['counterpart(self_->Other_0, local_types) is None ==> result == any_type()',
           'counterpart(self_->Other_0, local_types) is Some ==> result =~~= counterpart(self_->Other_0, local_types)->Some_0',
           'impls(result.owned) == 0 && impls(result.borrowed) <= 1 && (impls(result.borrowed) == 1 <==> starts_impl(result.borrowed))',
           'starts_impl(result.borrowed) <==> counterpart(self_->Other_0, local_types) is None'],
  defs='''
pub open spec fn any_owned() -> Seq<Tok> { q!{ ::pyo3::Bound<'py, ::pyo3::types::PyAny> } }
pub open spec fn any_type() -> OutputType {
    OutputType { owned: any_owned(), borrowed: q!{ impl ::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyAny>> } }
}
/// the Rust type of a class that is not a builtin: a known class of another package, or a class bound by the same run
pub open spec fn counterpart(name: Seq<char>, m: Map<Path, Path>) -> Option<OutputType> {
    if c_typing_into_rs_typing_Type_try_map_external_type(name) is Some { c_typing_into_rs_typing_Type_try_map_external_type(name) }
    else if c_typing_into_rs_typing_Type_find_local_type(name, m) is Some {
        let p = seq![Tok::PathT(c_typing_into_rs_typing_Type_find_local_type(name, m)->Some_0.s)];
        Option::Some(OutputType { owned: q!{ ::pyo3::Bound<'py, $p> }, borrowed: q!{ &::pyo3::Bound<'py, $p> } })
    } else { Option::None }
}''')
C(TY + 'into_rs', 'self local_types', det=True, split=True, props='C07', decreases='ty_size(self_)', group='into_rs',
  ensures=['impls(result.owned) == 0',
           'impls(result.borrowed) <= 1 && (impls(result.borrowed) == 1 <==> starts_impl(result.borrowed))',
           'starts_impl(result.borrowed) <==> wants_impl(self_, local_types)',
           'no_counterpart(self_, local_types) ==> result == any_type()',
           'self_ is Other && !no_counterpart(self_, local_types) ==> result =~~= counterpart(self_->Other_0, local_types)->Some_0',
           'direct_hashes(self_, local_types) == 1 ==> hash_key(self_) is Some && key_ok(hash_key(self_)->Some_0) && hash_shape(self_, local_types, result)',
           '!(self_ is Optional || self_ is PyList || self_ is PyTuple || self_ is Other) && direct_hashes(self_, local_types) == 0 ==> hashes(result.owned) == 0 && hashes(result.borrowed) == 0'],
  defs='''
/// a dict becomes a HashMap exactly when its keys can be hashed and its values are not Python objects
pub open spec fn std_map(k: Type, v: Type, m: Map<Path, Path>) -> bool {
    c_typing_Type_is_hashable(k) && !has_sub(ts_str(c_typing_into_rs_typing_Type_into_rs(v, m).owned), "PyAny"@)
}
pub open spec fn direct_hashes(t: Type, m: Map<Path, Path>) -> int {
    if (t is PyDict && std_map(*t->PyDict_key_type, *t->PyDict_value_type, m))
        || (t is PySet && c_typing_Type_is_hashable(*t->PySet_0))
        || (t is PyFrozenSet && c_typing_Type_is_hashable(*t->PyFrozenSet_0)) { 1 } else { 0 }
}
pub open spec fn hash_key(t: Type) -> Option<Type> {
    match t {
        Type::PyDict { key_type, value_type } => Option::Some(*key_type),
        Type::PySet(x) => Option::Some(*x),
        Type::PyFrozenSet(x) => Option::Some(*x),
        _ => Option::None,
    }
}
pub open spec fn hash_shape(t: Type, m: Map<Path, Path>, r: OutputType) -> bool {
    let k = c_typing_into_rs_typing_Type_into_rs(hash_key(t)->Some_0, m).owned;
    if t is PyDict {
        let v = c_typing_into_rs_typing_Type_into_rs(*t->PyDict_value_type, m).owned;
        r.owned =~~= q!{ ::std::collections::HashMap<$k, $v> } && r.borrowed =~~= q!{ &::std::collections::HashMap<$k, $v> }
    } else {
        r.owned =~~= q!{ ::std::collections::HashSet<$k> } && r.borrowed =~~= q!{ &::std::collections::HashSet<$k> }
    }
}
pub open spec fn no_counterpart(t: Type, m: Map<Path, Path>) -> bool {
    t is PyAny || t is Unknown || t is Union || t is PyNone || t is PyEllipsis || (t is Other && counterpart(t->Other_0, m) is None)
}
/// parameters of these types are spelled `impl ...` and converted by the generated code
pub open spec fn wants_impl(t: Type, m: Map<Path, Path>) -> bool {
    no_counterpart(t, m) || t is PyDelta || (t is PyTuple && t->PyTuple_0.len() < 2)
        || (t is PyDict && !std_map(*t->PyDict_key_type, *t->PyDict_value_type, m))
}''')

C(TY + 'into_rs_owned', 'self local_types', ret='c_typing_into_rs_typing_Type_into_rs(self_, local_types).owned', props='C07 C12 C17')
C(TY + 'into_rs_borrowed', 'self local_types', ret='c_typing_into_rs_typing_Type_into_rs(self_, local_types).borrowed', props='C07 C12 C17')
C(TY + 'preprocess_borrowed', 'self ident local_types', det=True, split=True, props='C07 C12 C17',
  ensures=['result.len() > 0 <==> wants_impl(self_, local_types) || optional_dict(self_, local_types)',
           'result.len() > 0 ==> result.len() > 2 && result[0] == Tok::Id("let"@) && result[1] == Tok::Id(ident.s) && result[2] == Tok::P("="@)'],
  defs='''
/// an optional dict that maps to a Python dict
pub open spec fn optional_dict(t: Type, m: Map<Path, Path>) -> bool {
    t is Optional && (*t->Optional_0) is PyDict && wants_impl(*t->Optional_0, m)
}''')

X = 'utils::text::'
C(X + 'conditioned_dedup', 'input predicate', fnargs={'predicate': ((CHAR,), BOOL)}, post={'input': 'dedup_if(input, predicate)'}, uses=['doc_group'], props='C08')
C(X + 'format_docstring', 'docstring', post={'docstring': ''}, hints='let j_ = joined(docstring); assert(tidy(j_) && same_core(j_, docstring) && seq_starts(j_, j_));', uses=['doc_group'], props='C08',
  ensures=['new_docstring.len() > 0 && new_docstring[0] == \' \'',
           'tidy(new_docstring.drop_first())', 'no_runs(new_docstring)',
           'new_docstring.last() != \'/\'',
           'joined(docstring).len() > 0 && joined(docstring).last() != \'\\u{a}\' ==> new_docstring.len() <= 2 || new_docstring.last() != \'\\u{a}\' || new_docstring[new_docstring.len() - 2] != \'/\'',
           'seq_any(new_docstring, |c: char| c == \'\\u{a}\') ==> new_docstring.last() == \'\\u{a}\' && (new_docstring.len() == 2 || (new_docstring[1] != \'\\u{a}\' && new_docstring[new_docstring.len() - 2] != \'\\u{a}\'))',
           'same_core(new_docstring, docstring)'],
  invs=[dict(vars='docstring', dec='cur_docstring.len() as int',
             inv='tidy(cur_docstring) && seq_starts(joined(docstring), cur_docstring) && (cur_docstring == joined(docstring) || cur_docstring.len() == 0 || !is_ws(cur_docstring.last())) && same_core(cur_docstring, docstring)'),
        dict(vars='docstring', dec='cur_docstring.len() as int', inv='doc_inv(cur_docstring, docstring)'),
        dict(vars='docstring', dec='cur_docstring.len() as int', inv='doc_inv(cur_docstring, docstring) && (cur_docstring.len() > 0 ==> cur_docstring.last() == \'\\u{a}\' && cur_docstring[0] != \'\\u{a}\')')],
  defs='''
pub open spec fn doc_inv(cur: Seq<char>, old: Seq<char>) -> bool {
    tidy(cur) && no_runs(cur) && same_core(cur, old) && (cur.len() > 0 ==> cur.last() != '/')
        && (joined(old).len() > 0 && joined(old).last() != '\\u{a}' && cur.len() > 0 ==> cur.last() != '\\u{a}')
}''')

C(P + 'Path::import_quote', 'self py', requires='self_.segments.len() > 0', props='C16 C12 C17',
  hints='let n_ = best(self_.segments, self_.segments.len() as int);', uses=['import_group'],
  ret='import_toks(segs_py(self_.segments.subrange(0, best(self_.segments, self_.segments.len() as int))), seq_map(self_.segments.subrange(best(self_.segments, self_.segments.len() as int), self_.segments.len() as int), |i: Ident| ipy(i)))')

PR = 'syntax::property::Property::'
C(PR + 'generate_setter', 'self cfg fns props types', props='C11 C12 C14 C17 C08', det=True,
  requires='prop_wf(self_)',
  ensures=['setter_name(self_, fns, props) is None ==> result is Ok && result->Ok_0.trait_fn.len() == 0 && result->Ok_0.impl_fn.len() == 0',
           'setter_name(self_, fns, props) is Some ==> (result is Err <==> !syn_ident_ok(setter_name(self_, fns, props)->Some_0))',
           'setter_name(self_, fns, props) is Some && result is Ok ==> result->Ok_0.trait_fn =~~= setter_trait(self_, setter_name(self_, fns, props)->Some_0, types)',
           'setter_name(self_, fns, props) is Some && result is Ok ==> result->Ok_0.impl_fn =~~= doc_attr(cfg, self_.setter_docstring) + setter_impl(self_, setter_name(self_, fns, props)->Some_0, types)'],
  defs='''
/// what Property::parse establishes: a name inside a module or class, documentation only for properties of classes
pub open spec fn prop_wf(p: Property) -> bool {
    p.name.segments.len() >= 1 && p.name.segments.last().f0.len() > 0
    && (p.owner is Module ==> p.name.segments.len() >= 2 && p.docstring is None && p.setter_docstring is None)
}
/// the Python name of a property
pub open spec fn prop_py(p: Property) -> Seq<char> { ipy(p.name.segments.last()) }
pub open spec fn named(xs: Seq<Ident>, i: Ident) -> bool { seq_any(xs, |x: Ident| i == x) }
/// an accessor of this name would collide
pub open spec fn taken(s: Seq<char>, fns: Seq<Ident>, props: Seq<Ident>) -> bool {
    named(fns, py_ident(s)) || named(props, py_ident(s)) || reserved_name(ipy(py_ident(s)))
}
pub open spec fn doc_attr(cfg: Config, d: Option<Seq<char>>) -> Seq<Tok> {
    if cfg.generate_docs && d is Some { q!{ #[doc = $S(p_utils_text_format_docstring_docstring(d->Some_0))] } } else { Seq::empty() }
}
pub open spec fn arg_type(t: Type, m: Map<Path, Path>) -> Seq<Tok> { c_typing_into_rs_typing_Type_into_rs_borrowed(t, m) }
pub open spec fn ret_type(t: Type, m: Map<Path, Path>) -> Seq<Tok> { c_typing_into_rs_typing_Type_into_rs_owned(t, m) }
pub open spec fn convert(t: Type, name: Seq<char>, m: Map<Path, Path>) -> Seq<Tok> { c_typing_into_rs_typing_Type_preprocess_borrowed(t, SynIdent { s: name }, m) }
pub open spec fn module_expr(p: Path) -> Seq<Tok> { c_path_Path_import_quote(p, ()) }
pub open spec fn parent_of(p: Path) -> Path { Path { leading_colon: p.leading_colon, segments: p.segments.drop_last() } }
pub open spec fn setter_name(p: Property, fns: Seq<Ident>, props: Seq<Ident>) -> Option<Seq<char>> {
    if taken("set_"@ + prop_py(p), fns, props) { Option::None } else { Option::Some(rs_of("set_"@ + prop_py(p))) }
}
pub open spec fn setter_trait(p: Property, name: Seq<char>, m: Map<Path, Path>) -> Seq<Tok> {
    if p.owner is Module { Seq::empty() } else {
        let t = arg_type(p.setter_annotation, m);
        q!{ fn $I(name)<'py>(&'py self, p_value: $t,) -> ::pyo3::PyResult<()>; }
    }
}
pub open spec fn setter_impl(p: Property, name: Seq<char>, m: Map<Path, Path>) -> Seq<Tok> {
    let t = arg_type(p.setter_annotation, m);
    let pre = convert(p.setter_annotation, "p_value"@, m);
    if p.owner is Module {
        let import = module_expr(parent_of(p.name));
        q!{ fn $I(name)<'py>(py: ::pyo3::marker::Python<'py>, p_value: $t,) -> ::pyo3::PyResult<()> {
            $pre
            ::pyo3::types::PyAnyMethods::setattr($import.as_any(), ::pyo3::intern!(py, $S(prop_py(p))), p_value)
        } }
    } else {
        q!{ fn $I(name)<'py>(&'py self, p_value: $t,) -> ::pyo3::PyResult<()> {
            let py = self.py();
            $pre
            ::pyo3::types::PyAnyMethods::setattr(self.as_any(), ::pyo3::intern!(py, $S(prop_py(p))), p_value)
        } }
    }
}''')
C(PR + 'generate_getter', 'self cfg fns props types', props='C11 C12 C14 C17 C08', det=True,
  requires='prop_wf(self_)',
  ensures=['getter_name(self_, fns, props) is None ==> result is Ok && result->Ok_0.trait_fn.len() == 0 && result->Ok_0.impl_fn.len() == 0',
           'getter_name(self_, fns, props) is Some ==> (result is Err <==> !syn_ident_ok(getter_name(self_, fns, props)->Some_0))',
           'getter_name(self_, fns, props) is Some && result is Ok ==> result->Ok_0.trait_fn =~~= getter_trait(self_, getter_name(self_, fns, props)->Some_0, types)',
           'getter_name(self_, fns, props) is Some && result is Ok ==> result->Ok_0.impl_fn =~~= doc_attr(cfg, self_.docstring) + getter_impl(self_, getter_name(self_, fns, props)->Some_0, types)'],
  defs='''
/// the name of the getter: the name of the property; get_<name> if that is no identifier, reserved or the name of a function; none if both are taken
pub open spec fn getter_name(p: Property, fns: Seq<Ident>, props: Seq<Ident>) -> Option<Seq<char>> {
    let name = p.name.segments.last();
    if syn_ident_ok(name.f0) && !named(fns, name) && !reserved_name(ipy(name)) { Option::Some(name.f0) }
    else if taken("get_"@ + prop_py(p), fns, props) { Option::None }
    else { Option::Some(rs_of("get_"@ + prop_py(p))) }
}
pub open spec fn getter_trait(p: Property, name: Seq<char>, m: Map<Path, Path>) -> Seq<Tok> {
    if p.owner is Module { Seq::empty() } else {
        let t = ret_type(p.annotation, m);
        q!{ fn $I(name)<'py>(&'py self,) -> ::pyo3::PyResult<$t>; }
    }
}
pub open spec fn getter_impl(p: Property, name: Seq<char>, m: Map<Path, Path>) -> Seq<Tok> {
    let t = ret_type(p.annotation, m);
    if p.owner is Module {
        let import = module_expr(parent_of(p.name));
        q!{ fn $I(name)<'py>(py: ::pyo3::marker::Python<'py>,) -> ::pyo3::PyResult<$t> {
            ::pyo3::types::PyAnyMethods::extract(&::pyo3::types::PyAnyMethods::getattr($import.as_any(), ::pyo3::intern!(py, $S(prop_py(p))))?)
        } }
    } else {
        q!{ fn $I(name)<'py>(&'py self,) -> ::pyo3::PyResult<$t> {
            ::pyo3::types::PyAnyMethods::extract(&::pyo3::types::PyAnyMethods::getattr(self.as_any(), ::pyo3::intern!(self.py(), $S(prop_py(p))))?)
        } }
    }
}''')

C(PR + 'generate', 'self cfg fns props types', props='C11 C12 C14 C17 C08', det=True, requires='prop_wf(self_)',
  ensures=['result is Err <==> getter(self_, cfg, fns, props, types) is Err || (self_.is_mutable && setter(self_, cfg, fns, props, types) is Err)',
           'result is Ok && self_.owner is Module ==> result->Ok_0 is Function && result->Ok_0->Function_0 =~~= published(getter(self_, cfg, fns, props, types)->Ok_0.impl_fn) + (if self_.is_mutable { published(setter(self_, cfg, fns, props, types)->Ok_0.impl_fn) } else { Seq::<Tok>::empty() })',
           'result is Ok && self_.owner is Class ==> result->Ok_0 is Method && result->Ok_0->Method_0.trait_fn =~~= getter(self_, cfg, fns, props, types)->Ok_0.trait_fn + (if self_.is_mutable { setter(self_, cfg, fns, props, types)->Ok_0.trait_fn } else { Seq::<Tok>::empty() })',
           'result is Ok && self_.owner is Class ==> result->Ok_0->Method_0.impl_fn =~~= getter(self_, cfg, fns, props, types)->Ok_0.impl_fn + (if self_.is_mutable { setter(self_, cfg, fns, props, types)->Ok_0.impl_fn } else { Seq::<Tok>::empty() })'],
  defs='''
pub open spec fn getter(p: Property, cfg: Config, fns: Seq<Ident>, props: Seq<Ident>, m: Map<Path, Path>) -> Result<TraitMethod, ErrV> { c_property_Property_generate_getter(p, cfg, fns, props, m) }
pub open spec fn setter(p: Property, cfg: Config, fns: Seq<Ident>, props: Seq<Ident>, m: Map<Path, Path>) -> Result<TraitMethod, ErrV> { c_property_Property_generate_setter(p, cfg, fns, props, m) }
pub open spec fn published(f: Seq<Tok>) -> Seq<Tok> { if f.len() == 0 { Seq::empty() } else { q!{ pub $f } } }
''')

FN = 'syntax::function::Function::'
C(FN + 'generate', 'self cfg fns types', props='C11 C12 C14 C17', det=True, requires='func_wf(self_) && fns.len() < 0x7fff_ffff', uses=['call_group'],
  ensures=['fn_ident(self_, fns) is None ==> result is Ok && result->Ok_0 is Function && result->Ok_0->Function_0.len() == 0',
           'fn_ident(self_, fns) is Some ==> (result is Err <==> !nameable(self_, fns))',
           'fn_ident(self_, fns) is Some && result is Ok && no_binding(self_) ==> result->Ok_0 is Method && result->Ok_0->Method_0.trait_fn.len() == 0 && result->Ok_0->Method_0.impl_fn.len() == 0',
           'fn_ident(self_, fns) is Some && result is Ok && !no_binding(self_) && !on_instance(self_) ==> result->Ok_0 is Function && result->Ok_0->Function_0 =~~= doc_attr(cfg, self_.docstring) + signature(self_, fns, types) + fn_body(self_, types)',
           'fn_ident(self_, fns) is Some && result is Ok && on_instance(self_) ==> result->Ok_0 is Method && result->Ok_0->Method_0.impl_fn =~~= doc_attr(cfg, self_.docstring) + signature(self_, fns, types) + fn_body(self_, types)',
           'fn_ident(self_, fns) is Some && result is Ok && on_instance(self_) ==> result->Ok_0 is Method && result->Ok_0->Method_0.trait_fn =~~= signature(self_, fns, types) + q!{ ; }'],
  invs=[dict(vars='i', dec='fns.len() + 1 - i', inv='0 <= i <= fns.len() && first_free(fns, "call"@, 0) == first_free(fns, "call"@, i) && all_taken(fns, "call"@, i)'),
        dict(vars='i', dec='fns.len() + 1 - i', inv='0 <= i <= fns.len() && first_free(fns, "new"@, 0) == first_free(fns, "new"@, i) && all_taken(fns, "new"@, i)')])

T = 'typing::from_py::'
C(T + 'repair_complex_sequence', 'sequence separator', requires='total(sequence) <= 0x7fff_ffff_ffff_ffff', post={'sequence': 'rep(sequence, separator).0'}, uses=['type_group'], props='C05 C06',
  hints='let r_ = rep(sequence, separator); let t_ = total(sequence);')
C(T + 'split_sequence', 'value separator', ret='split_seq(value, separator)', uses=['type_group'], props='C05 C06')
C(T + 'nth_or_unknown', 'inner_types index', ret='nth_or(inner_types, index)', props='C05 C06',
  defs='pub open spec fn nth_or(ts: Seq<Type>, i: int) -> Type { if 0 <= i < ts.len() { ts[i] } else { Type::Unknown } }')
FS = T + '<impl std::str::FromStr for typing::Type>::from_str'
C(FS, 'value', det=True, rlimit=120, decreases='value.len() as int', props='C05 C06', uses=['type_group'],
  ensures=['result is Ok', 'result->Ok_0 == parsed(str_trim(value))'],
  defs='''
/// the type an annotation denotes (what Type::from_str returns)
pub open spec fn denotes(s: Seq<char>) -> Type { c_typing_from_py_str_FromStr_typing_Type_from_str(s)->Ok_0 }
pub open spec fn denote_all(s: Seq<Seq<char>>) -> Seq<Type> { seq_map(s, |x: Seq<char>| denotes(x)) }
/// p ... ]
pub open spec fn wraps(v: Seq<char>, p: Seq<char>) -> bool { seq_starts(v, p) && seq_ends(v, "]"@) }
pub open spec fn within(v: Seq<char>, p: Seq<char>) -> Seq<char> { v.subrange(p.len() as int, v.len() as int).subrange(0, v.len() - p.len() - 1) }
pub open spec fn quoted(v: Seq<char>, p: Seq<char>) -> bool { seq_starts(v, p) && seq_ends(v.subrange(p.len() as int, v.len() as int), "'>"@) }
pub open spec fn unquoted(v: Seq<char>, p: Seq<char>) -> Seq<char> { v.subrange(p.len() as int, v.len() as int).subrange(0, v.len() - p.len() - 2) }
pub open spec fn after(v: Seq<char>, p: Seq<char>) -> Seq<char> { v.subrange(p.len() as int, v.len() as int) }
pub open spec fn alternatives(parts: Seq<Seq<char>>) -> Type {
    let none = seq_pos(parts, |x: Seq<char>| x == "None"@);
    if none is Some && parts.len() == 2 { Type::Optional(Box::new(denotes(parts[1 - none->Some_0]))) } else { Type::Union(denote_all(parts)) }
}
pub open spec fn parsed(v: Seq<char>) -> Type {
    if v == "Any"@ { Type::PyAny }
    else if v == "bool"@ { Type::PyBool }
    else if v == "bytearray"@ { Type::PyByteArray }
    else if v == "bytes"@ { Type::PyBytes }
    else if v == "float"@ { Type::PyFloat }
    else if v == "int"@ { Type::PyLong }
    else if v == "str"@ { Type::PyString }
    else if split_seq(v, '|').len() > 1 { alternatives(split_seq(v, '|')) }
    else if v == "Union"@ { Type::Union(seq![Type::Unknown]) }
    else if v.len() == 0 || v == "None"@ || v == "NoneType"@ { Type::PyNone }
    else if wraps(v, "dict["@) { let ts = denote_all(split_seq(within(v, "dict["@), ',')); Type::PyDict { key_type: Box::new(nth_or(ts, 0)), value_type: Box::new(nth_or(ts, 1)) } }
    else if v == "dict"@ || v == "Dict"@ || v == "Mapping"@ { Type::PyDict { key_type: Box::new(Type::Unknown), value_type: Box::new(Type::Unknown) } }
    else if wraps(v, "frozenset["@) { Type::PyFrozenSet(Box::new(denotes(within(v, "frozenset["@)))) }
    else if wraps(v, "list["@) { Type::PyList(Box::new(denotes(within(v, "list["@)))) }
    else if v == "list"@ { Type::PyList(Box::new(Type::Unknown)) }
    else if wraps(v, "Sequence["@) { Type::PyList(Box::new(denotes(within(v, "Sequence["@)))) }
    else if v == "Sequence"@ || v == "Iterable"@ || v == "Iterator"@ { Type::PyList(Box::new(Type::Unknown)) }
    else if wraps(v, "Iterable["@) { Type::PyList(Box::new(denotes(within(v, "Iterable["@)))) }
    else if wraps(v, "Iterator["@) { Type::PyList(Box::new(denotes(within(v, "Iterator["@)))) }
    else if wraps(v, "set["@) { Type::PySet(Box::new(denotes(within(v, "set["@)))) }
    else if wraps(v, "tuple["@) { Type::PyTuple(denote_all(split_seq(within(v, "tuple["@), ','))) }
    else if v == "tuple"@ { Type::PyTuple(seq![Type::Unknown]) }
    else if v == "ipaddress.IPv4Address"@ { Type::IpV4Addr }
    else if v == "ipaddress.IPv6Address"@ { Type::IpV6Addr }
    else if v == "os.PathLike"@ || v == "pathlib.Path"@ { Type::Path }
    else if v == "slice"@ { Type::PySlice }
    else if v == "complex"@ { Type::PyComplex }
    else if v == "datetime.date"@ { Type::PyDate }
    else if v == "datetime.datetime"@ { Type::PyDateTime }
    else if v == "timedelta"@ { Type::PyDelta }
    else if v == "datetime.time"@ { Type::PyTime }
    else if v == "datetime.tzinfo"@ { Type::PyTzInfo }
    else if v == "capsule"@ { Type::PyCapsule }
    else if v == "cfunction"@ { Type::PyCFunction }
    else if v == "code"@ { Type::PyCode }
    else if v == "Ellipsis"@ || v == "..."@ { Type::PyEllipsis }
    else if v == "frame"@ { Type::PyFrame }
    else if v == "function"@ { Type::PyFunction { param_types: seq![Type::PyEllipsis], return_annotation: Box::new(Type::Unknown) } }
    else if wraps(v, "Callable["@) { let ts = denote_all(split_seq(within(v, "Callable["@), ',')); Type::PyFunction { param_types: if ts.len() == 1 { Seq::empty() } else { ts.subrange(0, ts.len() - 1) }, return_annotation: Box::new(ts.last()) } }
    else if v == "Callable"@ || v == "callable"@ { Type::PyFunction { param_types: seq![Type::PyEllipsis], return_annotation: Box::new(Type::Unknown) } }
    else if v == "module"@ { Type::PyModule }
    else if v == "super"@ { Type::PySuper }
    else if v == "traceback"@ { Type::PyTraceback }
    else if wraps(v, "type["@) { denotes(within(v, "type["@)) }
    else if quoted(v, "<class '"@) { denotes(unquoted(v, "<class '"@)) }
    else if quoted(v, "<enum '"@) { denotes(unquoted(v, "<enum '"@)) }
    else if seq_starts(v, "typing."@) { denotes(after(v, "typing."@)) }
    else if seq_starts(v, "collections.abc."@) { denotes(after(v, "collections.abc."@)) }
    else if seq_starts(v, "collections."@) { denotes(after(v, "collections."@)) }
    else if v == "_collections._tuplegetter"@ || v == "AsyncState"@ || v == "getset_descriptor"@ || v == "member_descriptor"@ || v == "method_descriptor"@ || v == "property"@ || v == "py"@ { Type::PyAny }
    else { Type::Other(v) }
}''')
TA = T + "<impl std::convert::TryFrom<pyo3::Bound<'_, pyo3::PyAny>> for typing::Type>::try_from"
TT = T + "<impl std::convert::TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for typing::Type>::try_from"
_classes = 'PyBool PyByteArray PyBytes PyFloat PyLong PyString PyDict PyFrozenSet PyList PySet PyTuple PySlice PyComplex PyDate PyDateTime PyDelta PyTime PyTzInfo PyCapsule PyCFunction PyCode PyFrame PyFunction PyModule PySuper PyTraceback PyType'.split()
_u = 'Box::new(Type::Unknown)'
_of = dict(PyDict='PyDict { key_type: %s, value_type: %s }' % (_u, _u), PyFrozenSet='PyFrozenSet(%s)' % _u, PyList='PyList(%s)' % _u, PySet='PySet(%s)' % _u,
           PyTuple='PyTuple(seq![Type::Unknown])', PyFunction='PyFunction { param_types: seq![Type::PyEllipsis], return_annotation: %s }' % _u)
C(TT, 'value', det=True, props='C05 C23', ensures=[
    'py_sane() ==> result is Ok',
    '(forall|k: Seq<char>| #![trigger py_is_subclass(value, k)] supported(k) && closest(value, k) && py_sane() ==> result is Ok && result->Ok_0 == class_type(k))',
    '(forall|k: Seq<char>| #![trigger py_is_subclass(value, k)] supported(k) ==> !derives(value, k)) && py_sane() ==> result is Ok && result->Ok_0 == denotes(py_str(value))'], defs='''
// CPython: every class names its module, and asking whether a class derives from a builtin class does not fail
pub open spec fn py_sane() -> bool {
    (forall|o: PyObj| (#[trigger] py_getattr(py_world0(), py_type(o), "__module__"@)) is Ok)
    && (forall|o: PyObj, c: Seq<char>| (#[trigger] py_is_subclass(o, c)) is Ok)
}
pub open spec fn of_typing(o: PyObj) -> bool { py_getattr(py_world0(), py_type(o), "__module__"@) is Ok && py_str(py_getattr(py_world0(), py_type(o), "__module__"@)->Ok_0) == "typing"@ }
pub open spec fn derives(o: PyObj, k: Seq<char>) -> bool { py_is_subclass(o, k) is Ok && py_is_subclass(o, k)->Ok_0 }
/// classes that have a type of their own
pub open spec fn supported(k: Seq<char>) -> bool { ''' + ' || '.join('k == "%s"@' % k for k in _classes) + ''' }
/// CPython: the supported classes that derive from another supported class
pub open spec fn above(c: Seq<char>, k: Seq<char>) -> bool { (c == "PyLong"@ && k == "PyBool"@) || (c == "PyDate"@ && k == "PyDateTime"@) }
/// of all supported classes the class derives from, k is the most derived
pub open spec fn closest(o: PyObj, k: Seq<char>) -> bool { derives(o, k) && (forall|c: Seq<char>| #![trigger py_is_subclass(o, c)] supported(c) && derives(o, c) ==> c == k || above(c, k)) }
pub open spec fn class_type(k: Seq<char>) -> Type {
    ''' + ' else '.join('if k == "%s"@ { Type::%s }' % (k, _of.get(k, k)) for k in _classes) + ''' else { Type::Unknown }
}
/// a typing construct: its origin with its arguments in order
pub open spec fn applied(w: Type, a: Seq<Type>) -> Type {
    match w {
        Type::Union(_) => if a.len() == 2 && (a[0] is PyNone || a[1] is PyNone) { Type::Optional(Box::new(if a[0] is PyNone { a[1] } else { a[0] })) } else { Type::Union(a) },
        Type::Optional(_) => Type::Optional(Box::new(nth_or(a, 0))),
        Type::PyDict { key_type, value_type } => Type::PyDict { key_type: Box::new(nth_or(a, 0)), value_type: Box::new(nth_or(a, 1)) },
        Type::PyFrozenSet(_) => Type::PyFrozenSet(Box::new(nth_or(a, 0))),
        Type::PyList(_) => Type::PyList(Box::new(nth_or(a, 0))),
        Type::PySet(_) => Type::PySet(Box::new(nth_or(a, 0))),
        Type::PyTuple(_) => Type::PyTuple(a),
        Type::PyFunction { param_types, return_annotation } => Type::PyFunction { param_types: if a.len() < 2 { Seq::empty() } else { a.subrange(0, a.len() - 1) }, return_annotation: Box::new(if a.len() == 0 { Type::Unknown } else { a.last() }) },
        Type::PyType => nth_or(a, 0),
        _ => w,
    }
}
''')
_TA = 'c_typing_from_py_convert_TryFrom_pyo3_Bound___pyo3_PyAny_typing_Type_try_from'
_origin = 'py_getattr(py_world0(), value, "__origin__"@)'
_args = 'py_getattr(py_world0(), value, "__args__"@)'
_types = 'collect_res(seq_map(py_items(%s->Ok_0), |q: PyObj| %s(q)))' % (_args, _TA)
C(T + '<impl typing::Type>::from_typing', 'value', det=True, props='C05 C23', requires='of_typing(value)', ensures=[
    'py_sane() ==> result is Ok',
    '%s is Err ==> result is Ok && result->Ok_0 == denotes(py_str(value))' % _origin,
    '%s is Ok && %s(%s->Ok_0) is Ok && %s is Ok && py_is_instance(%s->Ok_0, "PyTuple"@) && %s is Ok ==> result is Ok && result->Ok_0 =~~= applied(%s(%s->Ok_0)->Ok_0, %s->Ok_0)'
    % (_origin, _TA, _origin, _args, _args, _types, _TA, _origin, _types),
    '%s is Ok && (%s is Err || !py_is_instance(%s->Ok_0, "PyTuple"@)) ==> result == %s(%s->Ok_0)' % (_origin, _args, _args, _TA, _origin)])
_TT = 'c_typing_from_py_convert_TryFrom_pyo3_Bound___pyo3_types_PyType_typing_Type_try_from'
C(TA, 'value', det=True, props='C05 C23', ensures=[
    'py_sane() ==> result is Ok', 'py_is_none(value) ==> result is Ok && result->Ok_0 is Unknown',
    '!py_is_none(value) && py_is_instance(value, "PyType"@) ==> result == %s(value)' % _TT,
    '!py_is_none(value) && !py_is_instance(value, "PyType"@) && of_typing(value) ==> result == c_typing_from_py_typing_Type_from_typing(value)',
    '!py_is_none(value) && !py_is_instance(value, "PyType"@) && !of_typing(value) && py_sane() ==> result is Ok && result->Ok_0 == denotes(py_str(value))'])

# ---- C17: what is read of a Python attribute
PP = 'syntax::property::Property::parse'
C(PP, '_cfg property name owner', det=True, props='C17', ensures=[
    'result is Ok ==> result->Ok_0 =~~= property_of(property, name, owner)',
    'result is Ok && name.segments.len() >= 2 && name.segments.last().f0.len() > 0 ==> prop_wf(result->Ok_0)'], defs="""
/// documentation of an object, if it has any
pub open spec fn doc_of(o: PyObj) -> Option<Seq<char>> {
    let d = py_str(py_getattr(py_world0(), o, "__doc__"@)->Ok_0);
    if d.len() == 0 || d == "None"@ { Option::None } else { Option::Some(d) }
}
pub open spec fn py_signature(o: PyObj) -> Result<PyObj, ErrV> { py_call(py_getattr(py_world0(), py_import("inspect"@)->Ok_0, "signature"@)->Ok_0, seq![o]) }
/// the annotation of a parameter or of a result: unknown if there is none
pub open spec fn annotated(o: PyObj, attr: Seq<char>) -> Type {
    let a = py_getattr(py_world0(), o, attr)->Ok_0;
    if py_is(a, py_getattr(py_world0(), o, "empty"@)->Ok_0) { Type::Unknown } else { object_type(a)->Ok_0 }
}
pub open spec fn object_type(o: PyObj) -> Result<Type, ErrV> { c_typing_from_py_convert_TryFrom_pyo3_Bound___pyo3_PyAny_typing_Type_try_from(o) }
pub open spec fn type_of(o: PyObj) -> Type { c_typing_from_py_convert_TryFrom_pyo3_Bound___pyo3_types_PyType_typing_Type_try_from(py_type(o))->Ok_0 }
pub open spec fn getter_of(p: PyObj) -> Result<PyObj, ErrV> { py_getattr(py_world0(), p, "fget"@) }
pub open spec fn setter_of(p: PyObj) -> Result<PyObj, ErrV> { py_getattr(py_world0(), p, "fset"@) }
pub open spec fn assignable(p: PyObj) -> bool { setter_of(p) is Ok && !py_is_none(setter_of(p)->Ok_0) }
/// the parameters of a signature
pub open spec fn params_of(sig: PyObj) -> Seq<Result<PyObj, ErrV>> { py_iter(py_call_method(py_getattr(py_world0(), sig, "parameters"@)->Ok_0, "values"@, Seq::empty())->Ok_0)->Ok_0 }
/// what reading the attribute of a class gives: the annotated result of its getter, if it has one with a readable signature
pub open spec fn read_type(p: PyObj) -> Type {
    if getter_of(p) is Ok && py_signature(getter_of(p)->Ok_0) is Ok { annotated(py_signature(getter_of(p)->Ok_0)->Ok_0, "return_annotation"@) } else { type_of(p) }
}
/// what may be assigned to it: the annotation of the second parameter of its setter
pub open spec fn write_type(p: PyObj) -> Type {
    if !assignable(p) || !(py_signature(setter_of(p)->Ok_0) is Ok) { Type::Unknown } else {
        let ps = params_of(py_signature(setter_of(p)->Ok_0)->Ok_0);
        if ps.len() > 1 { annotated(ps[1]->Ok_0, "annotation"@) } else { Type::Unknown }
    }
}
pub open spec fn property_of(p: PyObj, name: Path, owner: PropertyOwner) -> Property {
    if owner is Module { Property { name: name, owner: owner, is_mutable: true, annotation: type_of(p), setter_annotation: type_of(p), docstring: Option::None, setter_docstring: Option::None } }
    else {
        let g = if getter_of(p) is Ok { doc_of(getter_of(p)->Ok_0) } else { Option::None };
        let s = if assignable(p) { doc_of(setter_of(p)->Ok_0) } else { Option::None };
        Property { name: name, owner: owner, is_mutable: assignable(p), annotation: read_type(p), setter_annotation: write_type(p),
            docstring: if g is Some { g } else { s }, setter_docstring: if !assignable(p) { Option::None } else if s is Some { s } else { g } }
    }
}
""")

# ---- C12: what is read of a Python function
FP = 'syntax::function::Function::parse'
C(FP, '_cfg function name typ', det=True, props='C12', requires='sig_sane(function) && name.segments.len() > 0 && (typ is Method ==> typ->Method_class_path.segments.len() > 0)', uses=['sig_group'], ensures=[
    'result is Ok ==> result->Ok_0.name == name && result->Ok_0.docstring =~~= doc_of(function)',
    'result is Ok ==> result->Ok_0.typ == bound_type(function, name, typ)',
    'result is Ok && !(py_signature_of(function) is Ok) ==> result->Ok_0.parameters =~~= any_params()',
    'result is Ok && py_signature_of(function) is Ok && names_self(read_bound(function, name, typ)) ==> result->Ok_0.parameters =~~= any_params()',
    'result is Ok && py_signature_of(function) is Ok && !names_self(read_bound(function, name, typ)) ==> result->Ok_0.parameters =~~= read_bound(function, name, typ)',
    'result is Ok ==> result->Ok_0.return_annotation == (if py_signature_of(function) is Ok { annotated(py_signature_of(function)->Ok_0, "return_annotation"@) } else { Type::Unknown })',
    'result is Ok && name.segments.last().f0.len() > 0 && (typ is Function || typ is Closure ==> name.segments.len() >= 2) ==> func_wf(result->Ok_0)'], defs="""
pub open spec fn py_signature_of(f: PyObj) -> Result<PyObj, ErrV> { py_call_method(py_import("inspect"@)->Ok_0, "signature"@, seq![f]) }
/// the parameters in the signature of a function, as the interpreter describes them
pub open spec fn sig_params(f: PyObj) -> Seq<Result<PyObj, ErrV>> { params_of(py_signature_of(f)->Ok_0) }
pub open spec fn attr_of(o: PyObj, n: Seq<char>) -> PyObj { py_getattr(py_world0(), o, n)->Ok_0 }
/// every parameter has a name and one of the five kinds
pub open spec fn sig_sane(f: PyObj) -> bool {
    py_signature_of(f) is Ok ==> forall|i: int| 0 <= i < sig_params(f).len() && (#[trigger] sig_params(f)[i]) is Ok ==> sane_param(sig_params(f)[i]->Ok_0)
}
pub open spec fn sane_param(p: PyObj) -> bool { py_str(attr_of(p, "name"@)).len() > 0 && 0 <= py_extract_int(attr_of(p, "kind"@))->Ok_0 <= 4 }
pub open spec fn kind_no(k: int) -> ParameterKind {
    if k == 0 { ParameterKind::PositionalOnly } else if k == 1 { ParameterKind::PositionalOrKeyword } else if k == 2 { ParameterKind::VarPositional }
    else if k == 3 { ParameterKind::KeywordOnly } else { ParameterKind::VarKeyword }
}
pub open spec fn args_type() -> Type { Type::PyTuple(seq![Type::Unknown]) }
pub open spec fn kwargs_type() -> Type { Type::Optional(Box::new(Type::PyDict { key_type: Box::new(Type::Unknown), value_type: Box::new(Type::Unknown) })) }
pub open spec fn param_of(p: PyObj) -> Parameter {
    let k = kind_no(py_extract_int(attr_of(p, "kind"@))->Ok_0);
    let d = attr_of(p, "default"@);
    Parameter { name: py_ident(py_str(attr_of(p, "name"@))), kind: k,
        annotation: if k is VarPositional { args_type() } else if k is VarKeyword { kwargs_type() } else { annotated(p, "annotation"@) },
        default: if py_is(d, attr_of(p, "empty"@)) { Option::None } else { Option::Some(d) } }
}
pub open spec fn read_params(s: Seq<Result<PyObj, ErrV>>) -> Seq<Parameter> { Seq::new(s.len(), |i: int| param_of(s[i]->Ok_0)) }
/// anything may be passed
pub open spec fn any_params() -> Seq<Parameter> {
    seq![Parameter { name: ident("args"@), kind: ParameterKind::VarPositional, annotation: args_type(), default: Option::None },
         Parameter { name: ident("kwargs"@), kind: ParameterKind::VarKeyword, annotation: kwargs_type(), default: Option::None }]
}
/// the class that a path leads to
pub open spec fn descend(o: Result<PyObj, ErrV>, s: Seq<Ident>) -> Result<PyObj, ErrV>
    decreases s.len()
{
    if s.len() == 0 { o } else { let d = descend(o, s.drop_last()); if d is Ok { py_getattr(py_world0(), d->Ok_0, ipy(s.last())) } else { d } }
}
pub open spec fn class_at(p: Path) -> Result<PyObj, ErrV> {
    let root = py_import(segs_py(seq![p.segments[0]]));
    if root is Ok { descend(root, p.segments.subrange(1, p.segments.len() as int)) } else { root }
}
/// what a class stores under a name, before it is bound
pub open spec fn stored(class: Path, n: Ident) -> Result<PyObj, ErrV> {
    let c = class_at(class);
    if c is Ok && py_getattr(py_world0(), c->Ok_0, "__dict__"@) is Ok { py_getitem(attr_of(c->Ok_0, "__dict__"@), py_strobj(ipy(n))) } else { Result::Err(arbitrary()) }
}
pub open spec fn is_stored_as(o: PyObj, code: Seq<char>) -> bool { py_truthy(py_eval(code, seq![py_dict(seq![("obj"@, o)])])->Ok_0)->Ok_0 }
/// how the class binds the method: what it is stored as decides
pub open spec fn binding(class: Path, n: Ident) -> MethodType {
    let o = stored(class, n);
    if !(o is Ok) { MethodType::StaticMethod }
    else if is_stored_as(o->Ok_0, "isinstance(obj, classmethod)"@) { MethodType::ClassMethod }
    else if is_stored_as(o->Ok_0, "isinstance(obj, staticmethod)"@) { MethodType::StaticMethod }
    else { MethodType::InstanceMethod }
}
pub open spec fn takes_instance(t: FunctionType) -> bool { t is Method && (t->Method_typ is InstanceMethod || t->Method_typ is Constructor || t->Method_typ is Callable) }
pub open spec fn retype(t: FunctionType, m: MethodType) -> FunctionType { FunctionType::Method { class_path: t->Method_class_path, typ: m } }
pub open spec fn starts_with_self(ps: Seq<Parameter>) -> bool { ps.len() > 0 && ps[0].name.f0 == "r#self"@ }
pub open spec fn is_positional(p: Parameter) -> bool { p.kind is PositionalOnly || p.kind is PositionalOrKeyword }
pub open spec fn bound_type(f: PyObj, name: Path, typ: FunctionType) -> FunctionType {
    if !(py_signature_of(f) is Ok) { typ } else {
        let ps = read_params(sig_params(f));
        let t = if typ is Method && typ->Method_typ is Unknown { retype(typ, binding(typ->Method_class_path, name.segments.last())) } else { typ };
        let t = if t is Method && !takes_instance(t) && starts_with_self(ps) { retype(t, MethodType::InstanceMethod) } else { t };
        if t is Method && t->Method_typ is InstanceMethod && ps.len() == 0 { retype(t, MethodType::StaticMethod) } else { t }
    }
}
/// the parameters that a caller of the binding passes: all but the instance; a parameter that is still called self cannot be spelled
pub open spec fn read_bound(f: PyObj, name: Path, typ: FunctionType) -> Seq<Parameter> {
    without_instance(spellable(read_params(sig_params(f)), typ), bound_type(f, name, typ))
}
pub open spec fn names_self(ps: Seq<Parameter>) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).name.f0 == "r#self"@ }
pub open spec fn renamed(p: Parameter) -> Parameter { Parameter { name: ident("__unknown_self__"@), kind: p.kind, annotation: Type::Unknown, default: p.default } }
/// the first parameter of a function that is no method must not be called self
pub open spec fn spellable(ps: Seq<Parameter>, typ: FunctionType) -> Seq<Parameter> {
    if !(typ is Method) && starts_with_self(ps) { if is_positional(ps[0]) { ps.update(0, renamed(ps[0])) } else { any_params() } } else { ps }
}
pub open spec fn without_instance(ps: Seq<Parameter>, t: FunctionType) -> Seq<Parameter> {
    if takes_instance(t) && ps.len() > 0 && is_positional(ps[0]) { ps.subrange(1, ps.len() as int) } else { ps }
}
pub broadcast proof fn sig_read(s: Seq<Result<PyObj, ErrV>>, h: spec_fn(Result<PyObj, ErrV>) -> Result<Parameter, ErrV>)
    requires collect_res(seq_map(s, h)) is Ok, forall|x: Result<PyObj, ErrV>| (#[trigger] h(x)) is Ok && (x is Ok ==> sane_param(x->Ok_0)) ==> x is Ok && h(x)->Ok_0 == param_of(x->Ok_0),
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Ok ==> sane_param(s[i]->Ok_0)
    ensures #![trigger collect_res(seq_map(s, h)), read_params(s)] collect_res(seq_map(s, h))->Ok_0 == read_params(s)
{
    collect_map(s, h);
    assert(collect_res(seq_map(s, h))->Ok_0 =~= read_params(s));
}
pub broadcast proof fn class_fold(s: Seq<Ident>, o: Result<PyObj, ErrV>, f: spec_fn(Result<PyObj, ErrV>, Ident) -> Result<PyObj, ErrV>)
    requires forall|a: Result<PyObj, ErrV>, i: Ident| #[trigger] f(a, i) == (if a is Ok { py_getattr(py_world0(), a->Ok_0, ipy(i)) } else { a })
    ensures #![trigger seq_fold(s, o, f), descend(o, s)] seq_fold(s, o, f) == descend(o, s)
    decreases s.len()
{
    if s.len() > 0 { class_fold(s.drop_last(), o, f); }
}
pub broadcast proof fn update_twice<A>(s: Seq<A>, a: A, b: A)
    ensures #[trigger] s.update(0, a).update(0, b) == s.update(0, b)
{
    assert(s.update(0, a).update(0, b) =~= s.update(0, b));
}
pub broadcast proof fn drop_first<A>(s: Seq<A>, n: int)
    requires 1 <= n <= s.len()
    ensures #[trigger] (s.subrange(0, 0) + s.subrange(1, n)) == s.subrange(1, n)
{
    assert(s.subrange(0, 0) + s.subrange(1, n) =~= s.subrange(1, n));
}
pub broadcast group sig_group { sig_read, class_fold, update_twice, drop_first }
""")

# ---- C13
AV = 'syntax::common::attribute_variant::AttributeVariant::determine'
C(AV, 'py attr attr_type attr_module owner consider_import', det=True, props='C13', requires='!has_sub(module_text(attr_type), "::"@)', ensures=[
    'result is Ok ==> result->Ok_0 == kind_of(attr, attr_type, attr_module != owner, consider_import)',
    'inspects(attr, "isfunction"@) && inspects(attr, "ismethod"@) ==> result is Ok'], defs='''
/// the module that an object says it is defined in
pub open spec fn module_text(o: PyObj) -> Seq<char> { let m = py_getattr(py_world0(), o, "__module__"@); if m is Ok { py_str(m->Ok_0) } else { Seq::empty() } }
pub open spec fn module_name(o: PyObj) -> Seq<char> { segs_py(py_segs(module_text(o))) }
pub open spec fn inspect_says(o: PyObj, f: Seq<char>) -> Result<bool, ErrV> { py_truthy(py_call_method(py_import("inspect"@)->Ok_0, f, seq![o])->Ok_0) }
pub open spec fn inspects(o: PyObj, f: Seq<char>) -> bool { py_import("inspect"@) is Ok && py_call_method(py_import("inspect"@)->Ok_0, f, seq![o]) is Ok && inspect_says(o, f) is Ok }
pub open spec fn is_a(t: PyObj, class: Seq<char>) -> bool { py_is_subclass(t, class) is Ok && py_is_subclass(t, class)->Ok_0 }
/// what an attribute is: o of type t, defined elsewhere or here
pub open spec fn kind_of(o: PyObj, t: PyObj, elsewhere: bool, imports: bool) -> AttributeVariant {
    let function = inspect_says(o, "isfunction"@)->Ok_0;
    let method = inspect_says(o, "ismethod"@)->Ok_0;
    let local = has_sub(py_str(o), "<locals>"@);
    if imports && elsewhere && !local && (is_a(t, "PyModule"@) || is_a(t, "PyType"@) || function || method) { AttributeVariant::Import }
    else if is_a(t, "PyModule"@) { AttributeVariant::Module }
    else if is_a(t, "PyType"@) { AttributeVariant::Class }
    else if is_a(t, "PyCFunction"@) || function { AttributeVariant::Function }
    else if method { AttributeVariant::Method }
    else if module_name(t) == "functools"@ && py_qualname(t) is Ok && py_qualname(t)->Ok_0 == "partial"@ { AttributeVariant::Closure }
    else if module_name(t) == "typing"@ || module_name(t) == "types"@ { AttributeVariant::TypeVar }
    else { AttributeVariant::Property }
}
''')

# ---- C09 -------------------------------------------------------------------------------------------
C('utils::io::with_suppressed_python_output', 'py suppress_stdout suppress_stderr f', requires='sys_assignable()', world=True,
  ensures=[
    # nothing to suppress: the function alone decides
    '!suppress_stdout && !suppress_stderr ==> result == call_result(f, py_world0()) && new_world == call_world(f, py_world0())',
    # the function runs once, in a state where exactly the streams asked for are replaced; its result is the result; or nothing happens
    """(suppress_stdout || suppress_stderr) ==> (result is Err && new_world == py_world0() && refused()) || exists|w: PyWorld| muted(w, suppress_stdout, suppress_stderr) && result == #[trigger] call_result(f, w)
        && py_stream(new_world, "stdout"@) == (if suppress_stdout { py_stream(py_world0(), "stdout"@) } else { py_stream(call_world(f, w), "stdout"@) })
        && py_stream(new_world, "stderr"@) == (if suppress_stderr { py_stream(py_world0(), "stderr"@) } else { py_stream(call_world(f, w), "stderr"@) })""",
  ], props='C09')

# ---- C15 -------------------------------------------------------------------------------------------
MO = 'syntax::module::Module::'
C(MO + 'check_ident_exists_immediate', 'self ident consider_imports', requires='names_wf(self_)', ret='binds(self_, ident, consider_imports)', props='C15')
C(MO + 'check_ident_generated_immediate', 'self ident cfg', requires='names_wf(self_)', ret='binds_generated(self_, ident, cfg)', props='C15')
C(MO + 'generate_prelude', 'self cfg', requires='names_wf(self_) && bound_names(self_).len() < 0x7fff_ffff', props='C15', uses=['call_group', 'name_group'],
  ensures=['exported(self_, cfg).len() == 0 ==> result is Ok && result->Ok_0.len() == 0',
           'exported(self_, cfg).len() > 0 ==> result is Ok && exists|n: Ident| !(#[trigger] binds(self_, n, true)) && syn_ident_ok(n.f0) && result->Ok_0 =~~= prelude_toks(n, exported(self_, cfg))'],
  invs=[dict(vars='i', dec='bound_names(self_).len() + 1 - i', inv='0 <= i <= bound_names(self_).len() && first_free(bound_names(self_), "call"@, 0) == first_free(bound_names(self_), "call"@, i) && all_taken(bound_names(self_), "call"@, i)')],
  defs='''
pub open spec fn prelude_toks(n: Ident, names: Seq<Ident>) -> Seq<Tok> { let names = seq_flat(seq_map(names, |i: Ident| q!{ $I(i.f0), })); q!{ pub mod $I(n.f0) { pub use super::{$names}; } } }
''')
C(MO + 'extract_prelude', 'cfg module module_name', props='C15', requires='names_py(module)',
  ret='if listed_all(module) { Seq::empty() } else { seq_filter(all_names(module), |i: Ident| (cfg.generate_dependencies || same_package(module, module_name, i)) && public_attr(cfg, module, module_name, i)) }',
  defs='''
/// `__all__`: every name once, in order
pub open spec fn all_names(m: PyObj) -> Seq<Ident> {
    if py_module_index(m) is Ok { seq_unique(seq_map(py_items(py_module_index(m)->Ok_0), |o: PyObj| py_ident(py_str(o)))) } else { Seq::empty() }
}
/// names of attributes are not empty, names of modules contain no `::`
pub open spec fn names_py(m: PyObj) -> bool {
    (py_module_index(m) is Ok ==> forall|i: int| 0 <= i < py_items(py_module_index(m)->Ok_0).len() ==> py_str(#[trigger] py_items(py_module_index(m)->Ok_0)[i]).len() > 0)
    && (forall|i: int| 0 <= i < py_items(py_dir(m)).len() ==> py_str(#[trigger] py_items(py_dir(m))[i]).len() > 0)
    && (forall|o: PyObj| #![trigger py_getattr(py_world0(), o, "__module__"@)] !has_sub(origin_text(o), "::"@))
}
/// `__all__` lists exactly the public attributes
pub open spec fn listed_all(m: PyObj) -> bool {
    seq_set(all_names(m)) == seq_set(seq_map(seq_filter(py_items(py_dir(m)), |o: PyObj| !seq_starts(ipy(py_ident(py_str(o))), "_"@)), |o: PyObj| py_ident(py_str(o))))
}
pub open spec fn origin_text(o: PyObj) -> Seq<char> { if py_getattr(py_world0(), o, "__module__"@) is Ok { py_str(py_getattr(py_world0(), o, "__module__"@)->Ok_0) } else { Seq::empty() } }
/// the attribute is defined in the top-level package of the module
pub open spec fn same_package(m: PyObj, name: Path, i: Ident) -> bool {
    let a = py_getattr(py_world0(), m, ipy(i));
    a is Ok && name.segments.len() > 0 && seq_starts(mkpath(py_segs(origin_text(a->Ok_0))).segments, seq![name.segments[0]])
}
pub open spec fn public_attr(cfg: Config, m: PyObj, name: Path, i: Ident) -> bool { py_getattr(py_world0(), m, ipy(i)) is Ok && attr_allowed(cfg, i, name.segments) }
''')

# ---- C04 C13: the members of a class
C('syntax::class::Class::parse', 'cfg class name', det=True, props='C04 C13', requires='members_sane(class) && name.segments.len() > 0 && name.segments.last().f0.len() > 0', uses=['member_group', 'name_group'], hide={FP: 'class_wf', PP: 'class_wf', AV: '', 'sig_sane': 'pre', 'doc_of': 'docstring', 'r_function_Function_parse': 'pre|class_wf', 'r_attribute_variant_AttributeVariant_determine': 'pre', 'r_path_Path_from_py': 'pre'}, rlimit=60, hints='assert(kept(cfg, class) =~= kept(cfg, class)); assert(names_of(class) =~= names_of(class));', ensures=[
    'result is Ok ==> result->Ok_0.name == name && result->Ok_0.docstring =~~= doc_of(class)',
    'result is Ok ==> result->Ok_0.methods =~= methods_of(cfg, class, name)',
    'result is Ok ==> result->Ok_0.properties =~= properties_of(cfg, class, name)',
    'result is Ok ==> class_wf(result->Ok_0)'], defs="""
/// the names of the attributes of an object, each once
pub open spec fn names_of(o: PyObj) -> Seq<Ident> { seq_unique(seq_map(py_items(py_dir(o)), |x: PyObj| py_ident(py_str(x)))) }
pub open spec fn members_sane(o: PyObj) -> bool {
    (forall|i: int| 0 <= i < py_items(py_dir(o)).len() ==> py_str(#[trigger] py_items(py_dir(o))[i]).len() > 0)
    && (forall|i: int| 0 <= i < names_of(o).len() ==> member_sane(o, #[trigger] names_of(o)[i]))
}
pub open spec fn member_sane(o: PyObj, n: Ident) -> bool {
    n.f0.len() > 0 && (py_getattr(py_world0(), o, ipy(n)) is Ok ==> {
        let a = attr_of(o, ipy(n));
        sig_sane(a) && !has_sub(module_text(a), "::"@) && !has_sub(module_text(py_type(a)), "::"@)
    })
}
pub open spec fn defined_in(a: PyObj) -> Path { mkpath(py_segs(module_text(a))) }
/// the members of a class that are looked at: what the configuration admits, and its construction and its call
pub open spec fn kept(cfg: Config, o: PyObj) -> Seq<Ident> {
    seq_filter(names_of(o), |n: Ident| py_getattr(py_world0(), o, ipy(n)) is Ok && (attr_allowed(cfg, n, defined_in(attr_of(o, ipy(n))).segments) || ipy(n) == "__init__"@ || ipy(n) == "__call__"@))
}
pub open spec fn member_kind(o: PyObj, n: Ident, owner: Path) -> AttributeVariant {
    let a = attr_of(o, ipy(n));
    c_attribute_variant_AttributeVariant_determine((), a, py_type(a), defined_in(a), owner, false)->Ok_0
}
pub open spec fn member_path(owner: Path, n: Ident) -> Path { Path { leading_colon: owner.leading_colon, segments: owner.segments + seq![n] } }
/// __init__ constructs, __call__ calls
pub open spec fn role(n: Ident) -> MethodType { if ipy(n) == "__init__"@ { MethodType::Constructor } else if ipy(n) == "__call__"@ { MethodType::Callable } else { MethodType::Unknown } }
pub open spec fn methods_of(cfg: Config, class: PyObj, name: Path) -> Seq<Function> {
    seq_map(seq_filter(kept(cfg, class), |n: Ident| member_kind(class, n, name) is Function || member_kind(class, n, name) is Method),
        |n: Ident| c_function_Function_parse(cfg, attr_of(class, ipy(n)), member_path(name, n), FunctionType::Method { class_path: name, typ: role(n) })->Ok_0)
}
pub open spec fn properties_of(cfg: Config, class: PyObj, name: Path) -> Seq<Property> {
    seq_map(seq_filter(kept(cfg, class), |n: Ident| member_kind(class, n, name) is Property),
        |n: Ident| c_property_Property_parse(cfg, attr_of(class, ipy(n)), member_path(name, n), PropertyOwner::Class)->Ok_0)
}
pub open spec fn class_wf(c: Class) -> bool {
    c.name.segments.len() > 0 && c.name.segments.last().f0.len() > 0
    && (forall|i: int| 0 <= i < c.methods.len() ==> func_wf(#[trigger] c.methods[i])) && (forall|i: int| 0 <= i < c.properties.len() ==> prop_wf(#[trigger] c.properties[i]))
}
pub broadcast proof fn flat_members<A, M>(v: Seq<A>, h: spec_fn(A) -> Seq<M>, p: spec_fn(A) -> bool, m: spec_fn(A) -> M)
    requires forall|i: int| 0 <= i < v.len() ==> h(#[trigger] v[i]) == (if p(v[i]) { Seq::<M>::empty().push(m(v[i])) } else { Seq::<M>::empty() })
    ensures #![trigger seq_flat(seq_map(v, h)), seq_map(seq_filter(v, p), m)] seq_flat(seq_map(v, h)) == seq_map(seq_filter(v, p), m)
    decreases v.len()
{
    let t = seq_map(v, h);
    if v.len() > 0 {
        let d = v.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies h(#[trigger] d[i]) == (if p(d[i]) { Seq::<M>::empty().push(m(d[i])) } else { Seq::<M>::empty() }) by { assert(d[i] == v[i]); }
        flat_members(d, h, p, m);
        assert(seq_map(d, h) =~= t.drop_last());
        assert(t.last() == h(v.last()));
        assert(seq_map(seq_filter(v, p), m) =~= seq_map(seq_filter(d, p), m) + (if p(v.last()) { Seq::<M>::empty().push(m(v.last())) } else { Seq::<M>::empty() }));
    } else { assert(seq_map(seq_filter(v, p), m) =~= Seq::<M>::empty()); }
}
pub broadcast proof fn flat_at<A, M>(v: Seq<A>, h: spec_fn(A) -> Seq<M>, j: int)
    requires 0 <= j < seq_flat(seq_map(v, h)).len()
    ensures exists|i: int, l: int| 0 <= i < v.len() && 0 <= l < h(v[i]).len() && #[trigger] seq_flat(seq_map(v, h))[j] == #[trigger] h(v[i])[l]
    decreases v.len()
{
    let t = seq_map(v, h);
    if v.len() > 0 {
        let d = v.drop_last();
        assert(seq_map(d, h) =~= t.drop_last());
        assert(t.last() == h(v.last()));
        let n = seq_flat(t.drop_last()).len();
        if j < n {
            flat_at(d, h, j);
            let (i, l) = choose|i: int, l: int| 0 <= i < d.len() && 0 <= l < h(d[i]).len() && seq_flat(seq_map(d, h))[j] == #[trigger] h(d[i])[l];
            assert(seq_flat(t)[j] == h(v[i])[l]);
        } else { assert(seq_flat(t)[j] == h(v[v.len() - 1])[j - n]); }
    }
}
pub broadcast group member_group { flat_members, flat_at }
""")
C('syntax::class::Class::generate', 'self cfg types', det=True, props='C11 C14 C08', requires='class_wf(self_) && self_.methods.len() < 0x7fff_fff0', uses=['class_group'], rlimit=60, spin=True, hints='assert(method_names(self_).len() == self_.methods.len()); first_cand(method_names(self_), "new"@); first_cand(method_names(self_), "call"@); assert(inherent(self_, cfg, types) =~= inherent(self_, cfg, types)); assert(declared(self_, cfg, types) =~= declared(self_, cfg, types)); assert(defined(self_, cfg, types) =~= defined(self_, cfg, types)); assert(wrapper_names(self_) =~= wrapper_names(self_)); assert(property_names(self_) =~= property_names(self_));', hide={FN + 'generate': 'pre', PR + 'generate': 'pre', X + 'format_docstring': 'pre', 'r_function_Function_generate': 'pre', 'r_property_Property_generate': 'pre', 'r_ident_Ident_from_py': 'pre', 'r_path_Path_join': 'pre', 'r_path_Path_name': 'pre'}, ensures=[
    'struct_name(self_) is None ==> result is Ok && result->Ok_0.len() == 0',
    'struct_name(self_) is Some ==> (result is Err <==> !members_ok(self_, cfg, types) || !syn_ident_ok(trait_name(self_)))',
    'struct_name(self_) is Some && result is Ok ==> result->Ok_0 == class_toks(self_, cfg, types)'], defs="""
/// the struct of a class: its name, or a spelling of it with `_` for what no identifier has; none if that is none either
pub open spec fn struct_name(c: Class) -> Option<Seq<char>> {
    let name = c.name.segments.last();
    let other = rs_of("s_"@ + seq_flat(seq_map(ipy(name), |c: char| if is_alnum(c) { Seq::<char>::empty().push(c) } else { "_"@ })));
    if syn_ident_ok(name.f0) { Option::Some(name.f0) } else if syn_ident_ok(other) { Option::Some(other) } else { Option::None }
}
pub open spec fn trait_name(c: Class) -> Seq<char> { rs_of(struct_name(c)->Some_0 + "Methods"@) }
pub open spec fn method_names(c: Class) -> Seq<Ident> { seq_map(c.methods, |m: Function| m.name.segments.last()) }
pub open spec fn property_names(c: Class) -> Seq<Ident> { seq_map(c.properties, |p: Property| p.name.segments.last()) }
/// base, base1, base2, ...: the first that is no method
pub open spec fn avail(fns: Seq<Ident>, base: Seq<char>) -> Seq<Ident> { seq![py_ident(cand(base, first_free(fns, base, 0)))] }
/// every name a method of the class is generated under
pub open spec fn wrapper_names(c: Class) -> Seq<Ident> {
    let fns = method_names(c);
    fns + (seq_map(seq_filter(c.methods, |m: Function| !syn_ident_ok(m.name.segments.last().f0)), |m: Function| sanitized(m.name.segments.last()))
        + (if seq_any(c.methods, |m: Function| is_method(m, MethodType::Constructor)) { avail(fns, "new"@) } else { Seq::<Ident>::empty() })
        + (if seq_any(c.methods, |m: Function| is_method(m, MethodType::Callable)) { avail(fns, "call"@) } else { Seq::<Ident>::empty() }))
}
pub open spec fn method_code(c: Class, m: Function, cfg: Config, t: Map<Path, Path>) -> Result<FunctionImplementation, ErrV> { c_function_Function_generate(m, cfg, method_names(c), t) }
pub open spec fn property_code(c: Class, p: Property, cfg: Config, t: Map<Path, Path>) -> Result<FunctionImplementation, ErrV> { c_property_Property_generate(p, cfg, wrapper_names(c), property_names(c), t) }
pub open spec fn members_ok(c: Class, cfg: Config, t: Map<Path, Path>) -> bool {
    (forall|i: int| 0 <= i < c.methods.len() ==> method_code(c, #[trigger] c.methods[i], cfg, t) is Ok)
    && (forall|i: int| 0 <= i < c.properties.len() ==> property_code(c, #[trigger] c.properties[i], cfg, t) is Ok)
}
pub open spec fn as_inherent(f: FunctionImplementation) -> Seq<Tok> { if f is Function { f->Function_0 } else { Seq::empty() } }
pub open spec fn as_declared(f: FunctionImplementation) -> Seq<Tok> { if f is Method { f->Method_0.trait_fn } else { Seq::empty() } }
pub open spec fn as_defined(f: FunctionImplementation) -> Seq<Tok> { if f is Method { f->Method_0.impl_fn } else { Seq::empty() } }
pub open spec fn inherent(c: Class, cfg: Config, t: Map<Path, Path>) -> Seq<Tok> {
    seq_flat(seq_map(c.methods, |m: Function| as_inherent(method_code(c, m, cfg, t)->Ok_0))) + seq_flat(seq_map(c.properties, |p: Property| as_inherent(property_code(c, p, cfg, t)->Ok_0)))
}
pub open spec fn declared(c: Class, cfg: Config, t: Map<Path, Path>) -> Seq<Tok> {
    seq_flat(seq_map(c.methods, |m: Function| as_declared(method_code(c, m, cfg, t)->Ok_0))) + seq_flat(seq_map(c.properties, |p: Property| as_declared(property_code(c, p, cfg, t)->Ok_0)))
}
pub open spec fn defined(c: Class, cfg: Config, t: Map<Path, Path>) -> Seq<Tok> {
    seq_flat(seq_map(c.methods, |m: Function| as_defined(method_code(c, m, cfg, t)->Ok_0))) + seq_flat(seq_map(c.properties, |p: Property| as_defined(property_code(c, p, cfg, t)->Ok_0)))
}
pub open spec fn class_toks(c: Class, cfg: Config, t: Map<Path, Path>) -> Seq<Tok> {
    let name = struct_name(c)->Some_0;
    let methods = trait_name(c);
    let inherent = inherent(c, cfg, t); let declared = declared(c, cfg, t); let defined = defined(c, cfg, t);
    doc_attr(cfg, c.docstring) + q!{
        #[repr(transparent)]
        pub struct $I(name)(::pyo3::PyAny);
        ::pyo3::pyobject_native_type_named!($I(name));
        ::pyo3::pyobject_native_type_info!(
            $I(name),
            ::pyo3::pyobject_native_static_type_object!(::pyo3::ffi::PyBaseObject_Type),
            ::std::option::Option::Some($S(segs_py(c.name.segments)))
        );
        #[automatically_derived]
        impl $I(name) { $inherent }
        #[doc = $T("r\\" These methods are defined for the `Bound<'py, T>` smart pointer, so to use\\""@)]
        #[doc = $T("r\\" method call syntax these methods are separated into a trait, because stable\\""@)]
        #[doc = $T("r\\" Rust does not yet support `arbitrary_self_types`.\\""@)]
        #[doc(alias = $S(name))]
        #[automatically_derived]
        pub trait $I(methods) { $declared }
        #[automatically_derived]
        impl $I(methods) for ::pyo3::Bound<'_, $I(name)> { $defined }
    }
}
""")
