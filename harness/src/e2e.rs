//! Contracts seen from outside: Python packages are generated, run through the real generator, and the bindings are read back
//! and compared with what the model of the package calls for.
use crate::bind::{self, Act, Arg, Kw, RFn, RMod, Recv};
use crate::core::{Ctx, Rng};
use crate::pymodel::*;
use pyo3::prelude::*;
use pyo3_bindgen_engine::{Codegen, Config};
use std::collections::{BTreeMap, BTreeSet};

pub fn run(pid: &str, ctx: &mut Ctx) {
    match pid {
        "C01" => names(ctx),
        "C02" | "C03" => reexports(ctx),
        "C04" => filter(ctx),
        "C05" => annotations(ctx),
        "C06" => structure(ctx, true),
        "C07" => types(ctx),
        "C08" => docs(ctx),
        "C09" => streams(ctx),
        "C10" => merging(ctx),
        "C11" => collisions(ctx),
        "C12" => calls(ctx),
        "C13" => kinds(ctx),
        "C14" => sections(ctx),
        "C15" => preludes(ctx),
        "C16" => lookups(ctx),
        "C17" => accessors(ctx),
        "C19" => build(ctx),
        "C20" => embedding(ctx),
        "C23" => structure(ctx, false),
        _ => {}
    }
}

pub fn ensure(cond: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if cond {
        Ok(())
    } else {
        Err(msg())
    }
}

fn rule(ctx: &mut Ctx, text: &str) {
    if !ctx.rule.is_empty() {
        ctx.rule.push_str("; then ");
    }
    ctx.rule.push_str(text);
}

fn s(x: &str) -> String {
    x.to_string()
}

fn fun(name: &str) -> F {
    F { name: s(name), ..Default::default() }
}

fn p(name: &str, kind: u8) -> P {
    P { name: s(name), kind, ..Default::default() }
}

fn selfp() -> P {
    p("self", 1)
}

fn class(name: &str) -> C {
    C { name: s(name), init: Some(F { name: s("__init__"), params: vec![selfp()], ..Default::default() }), ..Default::default() }
}

fn pkg(name: &str) -> M {
    M { name: s(name), pkg: true, ..Default::default() }
}

fn leaf(name: &str) -> M {
    M { name: s(name), ..Default::default() }
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

// ---------------------------------------------------------------------------------------------
// Calls

/// What the wrapper has to do, from the Python signature. `bound`: the first positional parameter is the instance or class.
/// (number of Rust parameters, positional arguments, keyword arguments)
fn forwarding(params: &[P], bound: bool, instance: bool) -> (usize, Vec<Arg>, Vec<Kw>) {
    let mut ps: Vec<P> = params.to_vec();
    if bound && ps.first().is_some_and(|p| p.kind < 2) {
        ps.remove(0);
    }
    // `self` as a parameter that is not the instance
    let odd = ps.iter().enumerate().any(|(i, p)| p.name == "self" && (instance || i > 0 || p.kind > 1));
    if odd {
        return (2, vec![Arg::Spread(0)], vec![Kw::Spread(1)]);
    }
    let mut args = Vec::new();
    let mut kws = Vec::new();
    for (i, p) in ps.iter().enumerate() {
        match p.kind {
            0 | 1 => args.push(Arg::One(i)),
            2 => args.push(Arg::Spread(i)),
            3 => kws.push(Kw::Named(p.name.clone(), i)),
            _ => kws.push(Kw::Spread(i)),
        }
    }
    (ps.len(), args, kws)
}

fn check_call(f: &RFn, recv: &str, method: Option<&str>, want: &(usize, Vec<Arg>, Vec<Kw>)) -> Result<(), String> {
    ensure(f.params.len() == want.0, || format!("{}: {} Rust parameters, expected {}: {}", f.name, f.params.len(), want.0, f.text))?;
    let names: BTreeSet<&String> = f.params.iter().map(|p| &p.0).collect();
    ensure(names.len() == f.params.len(), || format!("{}: parameters share a name: {:?}", f.name, f.params))?;
    let b = act(f)?;
    let Act::Call { recv: r, method: m, args, kwargs } = &b.act else {
        return Err(format!("{} does not call: {:?}", f.name, b.act));
    };
    ensure(r.dotted() == recv, || format!("{}: calls on {} instead of {recv}", f.name, r.dotted()))?;
    ensure(m.as_deref() == method, || format!("{}: calls method {m:?} instead of {method:?}", f.name))?;
    ensure(*args == want.1, || format!("{}: positional arguments {args:?}, expected {:?}: {}", f.name, want.1, f.text))?;
    let key = |k: &Kw| format!("{k:?}");
    let (mut a, mut e): (Vec<String>, Vec<String>) = (kwargs.iter().map(key).collect(), want.2.iter().map(key).collect());
    a.sort();
    e.sort();
    ensure(a == e, || format!("{}: keyword arguments {kwargs:?}, expected {:?}: {}", f.name, want.2, f.text))
}

const PARAMS: &[&str] = &[
    "a", "b", "c", "type", "match", "fn", "_", "_x", "self", "args", "kwargs", "py", "é", "super", "crate", "Self", "p_a", "value", "struct",
];
const PARAMS_NO_SELF: &[&str] = &[
    "a", "b", "c", "type", "match", "fn", "_", "_x", "args", "kwargs", "py", "é", "super", "crate", "Self", "p_a", "value", "struct",
];

fn random_annotations(rng: &mut Rng, ps: &mut [P]) {
    for p in ps {
        if rng.chance(1, 3) {
            p.ann = Some(s(rng.pick(&["int", "str", "'dict[str, int]'", "_t.Any", "list", "bytes", "_t.Optional[int]", "_t.Callable[[int], str]"])));
        }
    }
}

fn calls(ctx: &mut Ctx) {
    rule(ctx, "packages with functions, partials, methods (instance, class, static, inherited, __init__, __call__) over random parameter lists of up to 6 parameters of all kinds with names that need escaping; bodies are interpreted; non-trivial: some callable has parameters of two kinds");
    for i in 0..ctx.pick_n(260, 6000) {
        let mut rng = Rng::new(ctx.seed * 1_000_003 + i as u64);
        let top = fresh();
        let mut m = pkg(&top);
        let mut sub = leaf("sub");
        let mut funs: Vec<(String, F)> = Vec::new(); // module, function
        for name in distinct_names(&mut rng, 3, &["super", "self", "crate"]) {
            let mut f = fun(&name);
            f.params = random_params(&mut rng, PARAMS, 6);
            if rng.chance(1, 3) {
                if let Some(q) = f.params.iter_mut().find(|q| q.kind < 2) {
                    if !q.default {
                        q.name = s("self");
                    }
                }
                let mut seen = BTreeSet::new();
                f.params.retain(|q| seen.insert(q.name.clone()));
            }
            random_annotations(&mut rng, &mut f.params);
            if rng.flip() {
                m.items.push(Item::Fn(f.clone()));
                funs.push((top.clone(), f));
            } else {
                sub.items.push(Item::Fn(f.clone()));
                funs.push((format!("{top}.sub"), f));
            }
        }
        // a class, and one that inherits from it
        let cname = distinct_names(&mut rng, 4, &["K"]).into_iter().find(|n| funs.iter().all(|f| f.1.name != *n)).unwrap();
        let mut c = class(&cname);
        let first = |rng: &mut Rng| match rng.below(5) {
            0 => None,
            1 => Some(p("this", rng.below(2) as u8)),
            2 => Some(p("_", 1)),
            3 => Some(p("self", 0)),
            _ => Some(selfp()),
        };
        for name in distinct_names(&mut rng, 4, &["super", "self"]) {
            let kind = *rng.pick(&[MKind::Inst, MKind::Inst, MKind::Class, MKind::Static]);
            let mut f = fun(&name);
            let pool = if rng.chance(1, 6) { PARAMS } else { PARAMS_NO_SELF };
            f.params = random_params(&mut rng, pool, 5);
            random_annotations(&mut rng, &mut f.params);
            let head = match kind {
                MKind::Inst => first(&mut rng),
                MKind::Class => Some(p("cls", 1)),
                MKind::Static => None,
            };
            if kind == MKind::Class && f.params.first().is_some_and(|q| q.name == "self") {
                // taken for an instance method, like every method whose first visible parameter is `self`
                f.params.remove(0);
            }
            match head {
                Some(mut h) => {
                    if let Some(q) = f.params.first() {
                        h.kind = h.kind.min(q.kind);
                    }
                    f.params.retain(|q| q.name != h.name);
                    f.params.insert(0, h);
                }
                None => {
                    if kind == MKind::Inst {
                        // the instance arrives via *args, or nothing is accepted at all
                        f.params.retain(|q| q.kind >= 2);
                    } else if kind == MKind::Static && f.params.first().is_some_and(|q| q.name == "self") {
                        f.params.remove(0);
                    }
                }
            }
            c.methods.push((kind, f));
        }
        for slot in ["__init__", "__call__"] {
            let mut f = fun(slot);
            f.params = random_params(&mut rng, PARAMS_NO_SELF, 5);
            if rng.chance(1, 4) {
                f.params.retain(|q| q.kind >= 2);
            }
            random_annotations(&mut rng, &mut f.params);
            if !f.params.first().is_some_and(|q| q.kind == 2) {
                let kind = if f.params.first().is_some_and(|q| q.kind == 0) { 0 } else { rng.below(2) as u8 };
                f.params.insert(0, p("self", kind));
            }
            if slot == "__init__" {
                c.init = Some(f);
            } else if rng.flip() {
                c.call = Some(f);
            }
        }
        let cmod = if rng.flip() { top.clone() } else { format!("{top}.sub") };
        let derived = C { name: s("Derived"), bases: vec![cname.clone()], ..Default::default() };
        {
            let items = if cmod == top { &mut m.items } else { &mut sub.items };
            items.push(Item::Cl(c.clone()));
            items.push(Item::Cl(derived));
            items.push(Item::Raw("unreadable = _b.max".into()));
            items.push(Item::Raw("partial = _f.partial(lambda a, b, *c, d, e=1, **k: None, 1, d=2)".into()));
        }
        m.subs.push(sub);
        let mixed = |f: &F| f.params.iter().map(|q| q.kind / 2).collect::<BTreeSet<_>>().len() > 1;
        let nontrivial = funs.iter().any(|f| mixed(&f.1)) || c.methods.iter().any(|f| mixed(&f.1));
        case_pkg(ctx, &format!("calls #{i}"), &m, nontrivial, || {
            let tops = bindings(&Config::default(), &[&top])?;
            for (md, f) in &funs {
                let r = module(&tops, md)?;
                let fns: Vec<&RFn> = r.fns.iter().collect();
                let rust = spelling(&f.name).unwrap_or(format!("f_{}", f.name));
                let g = find_fn(&fns, &rust)?;
                ensure(!g.has_self && g.public, || format!("{rust} is not a public function"))?;
                check_call(g, md, Some(&f.name), &forwarding(&f.params, false, false))?;
            }
            let r = module(&tops, &cmod)?;
            let fns: Vec<&RFn> = r.fns.iter().collect();
            check_call(find_fn(&fns, "unreadable")?, &cmod, Some("unreadable"), &(2, vec![Arg::Spread(0)], vec![Kw::Spread(1)]))?;
            // partial(.., 1, d=2): b, *c, d, e, **k remain
            check_call(
                find_fn(&fns, "partial")?,
                &cmod,
                Some("partial"),
                &(5, vec![Arg::One(0), Arg::Spread(1)], vec![Kw::Named(s("d"), 2), Kw::Named(s("e"), 3), Kw::Spread(4)]),
            )?;
            let cpath = format!("{cmod}.{cname}");
            let st = find_struct(r, &spelling(&cname).unwrap())?;
            let inherent: Vec<&RFn> = st.inherent.iter().collect();
            let methods: Vec<&RFn> = st.trait_impls.iter().collect();
            for (kind, f) in &c.methods {
                let rust = spelling(&f.name).unwrap_or(format!("f_{}", f.name));
                match kind {
                    MKind::Inst if f.params.is_empty() => {
                        check_call(find_fn(&inherent, &rust)?, &cpath, Some(&f.name), &(0, vec![], vec![]))?
                    }
                    MKind::Inst => check_call(find_fn(&methods, &rust)?, "self", Some(&f.name), &forwarding(&f.params, true, true))?,
                    _ => check_call(
                        find_fn(&inherent, &rust)?,
                        &cpath,
                        Some(&f.name),
                        &forwarding(&f.params, *kind == MKind::Class, true),
                    )?,
                }
            }
            let free = |prefix: &str| {
                (0..).map(|i| if i == 0 { s(prefix) } else { format!("{prefix}{i}") }).find(|n| !c.methods.iter().any(|m| m.1.name == *n)).unwrap()
            };
            let init = c.init.as_ref().unwrap();
            check_call(find_fn(&inherent, &free("new"))?, &cpath, None, &forwarding(&init.params, true, true))?;
            if let Some(call) = &c.call {
                check_call(find_fn(&methods, &free("call"))?, "self", None, &forwarding(&call.params, true, true))?;
            }
            // trait methods are declared and implemented with the same signature
            for st in &r.structs {
                let sig = |f: &RFn| format!("{} {:?} {}", f.name, f.params, f.ret);
                let a = sorted(st.trait_decls.iter().map(sig).collect());
                let b = sorted(st.trait_impls.iter().map(sig).collect());
                ensure(a == b, || format!("{}: trait and implementation differ: {a:?} vs {b:?}", st.name))?;
            }
            // inherited: the first parameter `self` marks instance methods, everything else is reached through the class
            let st = find_struct(r, "Derived")?;
            let inherent: Vec<&RFn> = st.inherent.iter().collect();
            let methods: Vec<&RFn> = st.trait_impls.iter().collect();
            let dpath = format!("{cmod}.Derived");
            for (kind, f) in &c.methods {
                let rust = spelling(&f.name).unwrap_or(format!("f_{}", f.name));
                let first_self = f.params.first().is_some_and(|q| q.name == "self");
                if *kind == MKind::Inst && first_self {
                    check_call(find_fn(&methods, &rust)?, "self", Some(&f.name), &forwarding(&f.params, true, true))?;
                } else {
                    check_call(
                        find_fn(&inherent, &rust)?,
                        &dpath,
                        Some(&f.name),
                        &forwarding(&f.params, *kind == MKind::Class, true),
                    )?;
                }
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------------
// Attribute accessors

fn accessors(ctx: &mut Ctx) {
    rule(ctx, "packages with module variables, class attributes and properties (getter only, getter and setter, unannotated, differently annotated, setter without second parameter) of 14 types; types are compared with those of a function with the same annotation in the same scope; non-trivial: a property with a setter");
    let exprs: &[&str] = &["1", "1.5", "'text'", "b'x'", "True", "[1]", "{'a': 1}", "(1, 2)", "{1}", "_b.frozenset()", "None", "_b.object()", "_f.lru_cache(lambda: 1)", "range(3)"];
    let anns: &[&str] = &[
        "int", "str", "float", "bool", "bytes", "list", "dict", "_t.Any", "'dict[str, int]'", "'list[str]'", "_t.Optional[int]", "_t.Optional[dict]",
        "'Some.Unknown'", "_t.Callable[[int], str]", "tuple", "set", "_t.Union[int, str]", "'Local'", "None",
    ];
    for i in 0..ctx.pick_n(200, 5000) {
        let mut rng = Rng::new(ctx.seed * 1_000_033 + i as u64);
        let top = fresh();
        let deep = rng.flip();
        let md = if deep { format!("{top}.sub.inner") } else { top.clone() };
        let mut m = leaf("inner");
        m.pkg = true;
        let mut vars = Vec::new();
        for (k, name) in distinct_names(&mut rng, 5, &["super", "self", "crate"]).into_iter().enumerate() {
            let expr = s(rng.pick(exprs));
            m.items.push(Item::Var { name: name.clone(), expr: expr.clone() });
            m.items.push(Item::Fn(F {
                name: format!("ref_{k}"),
                ret: Some(format!("_b.type({name})")),
                params: vec![P { ann: Some(format!("_b.type({name})")), ..p("x", 1) }],
                ..Default::default()
            }));
            vars.push((name, k));
        }
        let local = class("Local");
        m.items.push(Item::Cl(local));
        let mut c = class("Owner");
        let mut props: Vec<(Pr, usize)> = Vec::new();
        for (k, name) in distinct_names(&mut rng, 5, &["super", "self"]).into_iter().enumerate() {
            let ann = |rng: &mut Rng| if rng.chance(1, 5) { None } else { Some(s(rng.pick(anns))) };
            let get_ann = ann(&mut rng);
            let set = if rng.chance(2, 3) {
                Some((if rng.flip() { get_ann.clone() } else { ann(&mut rng) }, None))
            } else {
                None
            };
            let pr = Pr { name, get_ann: get_ann.clone(), get_doc: None, set: set.clone() };
            m.items.push(Item::Fn(F {
                name: format!("pref_{k}"),
                ret: get_ann,
                params: vec![P { ann: set.and_then(|x| x.0), ..p("x", 1) }],
                ..Default::default()
            }));
            c.props.push(pr.clone());
            props.push((pr, k));
        }
        // plain class attributes cannot be assigned through the bindings
        let mut attrs = Vec::new();
        for (k, name) in ["plain_a", "plain_b", "plain_c"].iter().enumerate() {
            let expr = s(rng.pick(&exprs[..11]));
            c.attrs.push((s(name), expr.clone()));
            m.items.push(Item::Fn(F { name: format!("aref_{k}"), ret: Some(format!("_b.type({expr})")), ..Default::default() }));
            attrs.push((s(name), k));
        }
        c.raw.push(s("def _vs(*args): pass\nodd = _b.property(lambda self: 1, _vs)\nno_get = _b.property(None, lambda self, v: None)\ndel _vs"));
        // setters with further optional parameters: the value is the second one
        let mut more = Vec::new();
        for (k, tail) in [", strict: bool = True", "=None, *rest: str", ", *, deep: list = ()", ", *rest: bytes, **opts: str"].iter().enumerate() {
            let (a, name) = (*rng.pick(anns), format!("more_{k}"));
            let get = if rng.flip() { format!(" -> {}", rng.pick(anns)) } else { String::new() };
            c.raw.push(format!("def _mg(self){get}: pass\ndef _ms(self, v: {a}{}): pass\n{name} = _b.property(_mg, _ms)\ndel _mg, _ms",
                tail.replacen("=None", " = None", 1)));
            m.items.push(Item::Fn(F { name: format!("mref_{k}"), params: vec![P { ann: Some(s(a)), ..p("x", 1) }], ..Default::default() }));
            more.push((name, k));
        }
        m.items.push(Item::Fn(F { name: s("noref"), params: vec![p("x", 1)], ..Default::default() }));
        m.items.push(Item::Cl(c));
        let root = if deep {
            let mut a = pkg(&top);
            let mut b = pkg("sub");
            b.subs.push(m);
            a.subs.push(b);
            a
        } else {
            let mut a = m;
            a.name = top.clone();
            a
        };
        let nontrivial = props.iter().any(|p| p.0.set.is_some());
        case_pkg(ctx, &format!("accessors #{i}"), &root, nontrivial, || {
            let tops = bindings(&Config::default(), &[&top])?;
            let r = module(&tops, &md)?;
            let fns: Vec<&RFn> = r.fns.iter().collect();
            let check_get = |g: &RFn, recv: &str, name: &str, ty: &str| -> Result<(), String> {
                let b = act(g)?;
                let Act::Get { recv: r, attr } = &b.act else { return Err(format!("{} does not read: {}", g.name, g.text)) };
                ensure(r.dotted() == recv && attr == name, || format!("{} reads {}.{attr}, expected {recv}.{name}", g.name, r.dotted()))?;
                ensure(g.params.is_empty(), || format!("{} takes parameters", g.name))?;
                ensure(g.ret == ty, || format!("{} returns {}, expected {ty}", g.name, g.ret))
            };
            let check_set = |g: &RFn, recv: &str, name: &str, ty: &str, reference: &RFn| -> Result<(), String> {
                let b = act(g)?;
                let Act::Set { recv: r, attr, value } = &b.act else { return Err(format!("{} does not write: {}", g.name, g.text)) };
                ensure(r.dotted() == recv && attr == name, || format!("{} writes {}.{attr}, expected {recv}.{name}", g.name, r.dotted()))?;
                ensure(*value == 0 && g.params.len() == 1, || format!("{} does not write its argument: {}", g.name, g.text))?;
                ensure(g.params[0].1 == ty, || format!("{} accepts {}, expected {ty}", g.name, g.params[0].1))?;
                let conv = b.converted.get(&0).cloned();
                let want = act(reference)?.converted.get(&0).cloned();
                ensure(conv == want, || format!("{}: conversion of the value is {conv:?}, expected {want:?}: {}", g.name, g.text))?;
                if ty.starts_with("impl ") {
                    ensure(conv.is_some(), || format!("{}: {ty} is not converted", g.name))?;
                }
                Ok(())
            };
            let plain = |ret: &str| ret.to_string();
            for (name, k) in &vars {
                let reference = find_fn(&fns, &format!("ref_{k}"))?;
                let rust = spelling(name).unwrap_or(format!("get_{name}"));
                let g = find_fn(&fns, &rust)?;
                ensure(g.public && !g.has_self, || format!("{rust} is not a public function"))?;
                check_get(g, &md, name, &plain(&reference.ret))?;
                check_set(find_fn(&fns, &format!("set_{name}"))?, &md, name, &reference.params[0].1, reference)?;
            }
            let st = find_struct(r, "Owner")?;
            let methods: Vec<&RFn> = st.trait_impls.iter().collect();
            for (pr, k) in &props {
                let reference = find_fn(&fns, &format!("pref_{k}"))?;
                let rust = spelling(&pr.name).unwrap_or(format!("get_{}", pr.name));
                check_get(find_fn(&methods, &rust)?, "self", &pr.name, &plain(&reference.ret))?;
                let setter = format!("set_{}", pr.name);
                if pr.set.is_some() {
                    check_set(find_fn(&methods, &setter)?, "self", &pr.name, &reference.params[0].1, reference)?;
                } else {
                    ensure(!methods.iter().any(|f| f.name == setter), || format!("{setter} exists although the property cannot be assigned"))?;
                }
            }
            for (name, k) in &attrs {
                let reference = find_fn(&fns, &format!("aref_{k}"))?;
                check_get(find_fn(&methods, name)?, "self", name, &plain(&reference.ret))?;
                ensure(!methods.iter().any(|f| f.name == format!("set_{name}")), || format!("set_{name} exists for a plain class attribute"))?;
            }
            for (name, k) in &more {
                let reference = find_fn(&fns, &format!("mref_{k}"))?;
                check_set(find_fn(&methods, &format!("set_{name}"))?, "self", name, &reference.params[0].1, reference)?;
            }
            let noref = find_fn(&fns, "noref")?;
            check_set(find_fn(&methods, "set_odd")?, "self", "odd", &noref.params[0].1, noref)?;
            check_set(find_fn(&methods, "set_no_get")?, "self", "no_get", &noref.params[0].1, noref)?;
            let sig = |f: &RFn| format!("{} {:?} {}", f.name, f.params, f.ret);
            let a = sorted(st.trait_decls.iter().map(sig).collect());
            let b = sorted(st.trait_impls.iter().map(sig).collect());
            ensure(a == b, || format!("trait and implementation differ: {a:?} vs {b:?}"))
        });
    }
}

// ---------------------------------------------------------------------------------------------
// Name clashes

const CLASHING: &[&str] = &[
    "a", "get_a", "set_a", "get_get_a", "set_get_a", "new", "new1", "new2", "call", "call1", "call2", "self", "f_self", "super", "f_super", "get_self",
    "set_self", "get_f_self", "get_new", "get_call", "set_new", "set_call", "type", "get_type", "obj", "py", "str", "repr", "get_py", "set_py", "get_new1",
    "crate", "f_crate", "get_crate", "match", "get_match", "set_match", "get_call1",
];

/// Expected generated names from the names of functions and attributes (with mutability) of one scope
fn expected_names(functions: &[String], wrappers: &[&str], attrs: &[(String, bool)]) -> Vec<String> {
    let mut out = Vec::new();
    let mut taken: BTreeSet<String> = functions.iter().cloned().collect();
    for f in functions {
        match spelling(f) {
            Some(x) => out.push(x),
            None => {
                let x = format!("f_{f}");
                if !functions.contains(&x) {
                    out.push(x.clone());
                }
                taken.insert(x);
            }
        }
    }
    for w in wrappers {
        let n = (0..).map(|i| if i == 0 { s(w) } else { format!("{w}{i}") }).find(|n| !functions.contains(n)).unwrap();
        out.push(n.clone());
        taken.insert(n);
    }
    let names: BTreeSet<&String> = attrs.iter().map(|a| &a.0).collect();
    let reserved = |n: &str| RESERVED.contains(&n);
    for (a, mutable) in attrs {
        match spelling(a) {
            Some(x) if !taken.contains(a) && !reserved(a) => out.push(x),
            _ => {
                let g = format!("get_{a}");
                if !taken.contains(&g) && !names.contains(&g) && !reserved(&g) {
                    out.push(g);
                }
            }
        }
        if *mutable {
            let g = format!("set_{a}");
            if !taken.contains(&g) && !names.contains(&g) && !reserved(&g) {
                out.push(g);
            }
        }
    }
    out.sort();
    out
}

fn collisions(ctx: &mut Ctx) {
    rule(ctx, "modules and classes whose functions, methods, constructors, call wrappers and attributes take random subsets of 38 names chosen to clash (prefixed forms, reserved names, names without a Rust spelling); names are compared with the stated renaming rule; non-trivial: an accessor is renamed or omitted");
    for i in 0..ctx.pick_n(320, 8000) {
        let mut rng = Rng::new(ctx.seed * 1_000_037 + i as u64);
        let top = fresh();
        let mut m = pkg(&top);
        // module
        let mut pool: Vec<&str> = CLASHING.to_vec();
        rng.shuffle(&mut pool);
        let (mut mf, mut ma) = (Vec::new(), Vec::new());
        let k = 3 + rng.below(16);
        for name in pool.iter().take(k) {
            if rng.flip() {
                m.items.push(Item::Fn(fun(name)));
                mf.push(s(name));
            } else {
                m.items.push(Item::Var { name: s(name), expr: s("1") });
                ma.push((s(name), true));
            }
        }
        // class
        let mut c = C { name: s("K"), ..Default::default() };
        rng.shuffle(&mut pool);
        let (mut cf, mut ca) = (Vec::new(), Vec::new());
        let k = 3 + rng.below(16);
        let mut wrappers = Vec::new();
        if rng.chance(3, 4) {
            c.init = Some(F { params: vec![selfp()], ..fun("__init__") });
            wrappers.push("new");
        } else {
            ca.push((s("__init__"), false)); // the slot of `object` is seen as an attribute
        }
        if rng.flip() {
            c.call = Some(F { params: vec![selfp()], ..fun("__call__") });
            wrappers.push("call");
        }
        for name in pool.iter().take(k) {
            match rng.below(5) {
                0 => {
                    c.methods.push((MKind::Inst, F { params: vec![selfp()], ..fun(name) }));
                    cf.push(s(name));
                }
                1 => {
                    c.methods.push((MKind::Static, fun(name)));
                    cf.push(s(name));
                }
                2 => {
                    c.props.push(Pr { name: s(name), set: Some((None, None)), ..Default::default() });
                    ca.push((s(name), true));
                }
                3 => {
                    c.props.push(Pr { name: s(name), ..Default::default() });
                    ca.push((s(name), false));
                }
                _ => {
                    c.attrs.push((s(name), s("1")));
                    ca.push((s(name), false));
                }
            }
        }
        m.items.push(Item::Cl(c));
        let keep = |v: &mut Vec<String>| v.retain(|n| !RESERVED.contains(&n.as_str()));
        let keep2 = |v: &mut Vec<(String, bool)>| v.retain(|n| !RESERVED.contains(&n.0.as_str()));
        keep(&mut mf);
        keep(&mut cf);
        keep2(&mut ma);
        keep2(&mut ca);
        let me = expected_names(&mf, &[], &ma);
        let ce = expected_names(&cf, &wrappers, &ca);
        case_pkg(ctx, &format!("names #{i}"), &m, ce.iter().chain(me.iter()).any(|n| n.starts_with("get_")), || {
            let tops = bindings(&Config::default(), &[&top])?;
            let r = module(&tops, &top)?;
            let got = sorted(r.fns.iter().map(|f| f.name.clone()).collect());
            unique(&got)?;
            ensure(got == me, || format!("functions of the module: {got:?}, expected {me:?}"))?;
            let st = find_struct(r, "K")?;
            let got = sorted(st.inherent.iter().chain(&st.trait_impls).map(|f| f.name.clone()).collect());
            unique(&got)?;
            ensure(got == ce, || format!("functions of the class: {got:?}, expected {ce:?}"))
        });
    }
}

fn unique(names: &[String]) -> Result<(), String> {
    for w in names.windows(2) {
        ensure(w[0] != w[1], || format!("two functions are named {}", w[0]))?;
        ensure(!RESERVED.contains(&w[0].as_str()), || format!("reserved name {}", w[0]))?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Trees of modules

/// A random tree of packages with one item of several kinds in each module
fn random_tree(rng: &mut Rng, name: &str, depth: usize, counter: &mut usize) -> M {
    let mut m = M { name: s(name), pkg: depth > 0 && rng.chance(3, 4), ..Default::default() };
    let n = *counter;
    *counter += 1;
    if rng.chance(3, 4) {
        m.doc = Some(format!("Documentation of module {n}"));
    }
    if rng.chance(4, 5) {
        m.items.push(Item::Fn(F { doc: Some(s("doc")), ..fun(&format!("f{n}")) }));
    }
    if rng.chance(1, 4) {
        m.items.push(Item::Fn(fun("common")));
    }
    if rng.chance(2, 3) {
        let mut c = class(&format!("C{n}"));
        c.methods.push((MKind::Inst, F { params: vec![selfp(), p("x", 1)], ..fun("m") }));
        m.items.push(Item::Cl(c));
    }
    if rng.chance(1, 2) {
        m.items.push(Item::Var { name: format!("v{n}"), expr: s("1") });
    }
    if rng.chance(1, 3) {
        m.items.push(Item::Tv(format!("T{n}")));
    }
    if m.pkg {
        for name in distinct_names(rng, 3, &[]).into_iter().take(rng.below(4)) {
            m.subs.push(random_tree(rng, &name, depth - 1, counter));
        }
    }
    m
}

fn walk<'a>(m: &'a M, prefix: &str, out: &mut Vec<(String, &'a M)>) {
    let path = if prefix.is_empty() { m.name.clone() } else { format!("{prefix}.{}", m.name) };
    out.push((path.clone(), m));
    for x in &m.subs {
        walk(x, &path, out);
    }
}

/// Names of the items a module must contain: (functions, structs, type aliases)
fn own_items(m: &M) -> (Vec<String>, Vec<String>, Vec<String>) {
    let (mut f, mut c, mut t) = (Vec::new(), Vec::new(), Vec::new());
    for i in &m.items {
        match i {
            Item::Fn(x) => f.push(spelling(&x.name).unwrap()),
            Item::Cl(x) => c.push(spelling(&x.name).unwrap()),
            Item::Tv(x) => t.push(spelling(x).unwrap()),
            Item::Var { name, .. } => {
                f.push(spelling(name).unwrap());
                f.push(format!("set_{name}"));
            }
            _ => {}
        }
    }
    (sorted(f), sorted(c), sorted(t))
}

fn merging(ctx: &mut Ctx) {
    rule(ctx, "random trees of up to 4 levels and 40 modules; request lists of 1 to 6 modules of the tree (any order, repetitions, a package with its own submodules, submodules alone, several packages), with and without traversal of submodules; the tree read back is compared with the union of what was requested; non-trivial: two requests overlap");
    for i in 0..ctx.pick_n(220, 5000) {
        let mut rng = Rng::new(ctx.seed * 1_000_039 + i as u64);
        let names: Vec<String> = (0..1 + rng.below(2)).map(|_| fresh()).collect();
        let mut counter = 0;
        let roots: Vec<M> = names
            .iter()
            .map(|n| {
                let d = 1 + rng.below(3);
                let mut m = random_tree(&mut rng, n, d, &mut counter);
                m.pkg = true;
                m
            })
            .collect();
        let mut all = Vec::new();
        for r in &roots {
            walk(r, "", &mut all);
        }
        let requests: Vec<String> = (0..1 + rng.below(6)).map(|_| all[rng.below(all.len())].0.clone()).collect();
        let traverse = rng.chance(3, 4);
        let one_by_one = rng.flip();
        let under = |p: &str, q: &str| p == q || p.starts_with(&format!("{q}."));
        let overlap = requests.iter().enumerate().any(|(i, a)| requests.iter().enumerate().any(|(j, b)| i != j && under(a, b)));
        // what has to be there
        let mut want: BTreeMap<String, bool> = BTreeMap::new(); // path -> with its items
        for (path, _) in &all {
            let full = requests.iter().any(|r| r == path || (traverse && under(path, r)));
            let ancestor = requests.iter().any(|r| under(r, path));
            if full {
                want.insert(path.clone(), true);
            } else if ancestor {
                want.insert(path.clone(), false);
            }
        }
        let input = format!(
            "{}requests: {requests:?} traverse_submodules={traverse}",
            roots.iter().map(|r| describe(r, "")).collect::<String>()
        );
        let scratch = ctx.scratch.clone();
        ctx.case(&format!("tree #{i}"), &input, overlap, || {
            let _w: Vec<Written> = roots.iter().map(|r| Written::new(&scratch, r)).collect();
            let cfg = Config::builder().traverse_submodules(traverse).build();
            let refs: Vec<&str> = requests.iter().map(|x| x.as_str()).collect();
            let tops = if one_by_one {
                let mut c = Codegen::new(cfg);
                for r in &refs {
                    c = c.module_name(r).map_err(|e| e.to_string())?;
                }
                bind::parse(&c.generate().map_err(|e| e.to_string())?.to_string())?
            } else {
                bindings(&cfg, &refs)?
            };
            // without traversal the requested modules below the top level are not part of the output
            let visible = |p: &str| traverse || !p.contains('.');
            let got: Vec<(Vec<String>, &RMod)> = bind::all_modules(&tops);
            let mut seen: BTreeMap<String, usize> = BTreeMap::new();
            for (path, _) in &got {
                *seen.entry(path.join(".")).or_default() += 1;
            }
            for (path, n) in &seen {
                ensure(*n == 1, || format!("module {path} appears {n} times"))?;
                ensure(want.contains_key(path), || format!("module {path} was not requested"))?;
            }
            for (path, full) in &want {
                if !visible(path) {
                    continue;
                }
                let r = module(&tops, path)?;
                let m = all.iter().find(|a| a.0 == *path).unwrap().1;
                let (f, c, t) = if *full { own_items(m) } else { Default::default() };
                let gf = sorted(r.fns.iter().map(|f| f.name.clone()).collect());
                let gc = sorted(r.structs.iter().map(|f| f.name.clone()).collect());
                let gt = sorted(r.types.clone());
                ensure(gf == f, || format!("functions of {path}: {gf:?}, expected {f:?}"))?;
                ensure(gc == c, || format!("classes of {path}: {gc:?}, expected {c:?}"))?;
                ensure(gt == t, || format!("type variables of {path}: {gt:?}, expected {t:?}"))?;
                ensure(r.name == spelling(path.rsplit('.').next().unwrap()).unwrap(), || format!("module {path} is called {}", r.name))?;
                let docs = r.docs.join("|");
                let want_doc = m.doc.as_ref().map(|d| format!(" {d}")).unwrap_or_default();
                ensure(docs == want_doc, || format!("documentation of {path}: {docs:?}, expected {want_doc:?}"))?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------------
// Sections

/// A package in which every section occurs at several levels
fn section_pkg(rng: &mut Rng, top: &str) -> M {
    let mut n = 0;
    fn fill(rng: &mut Rng, name: &str, path: &str, depth: usize, n: &mut usize) -> M {
        let mut m = M { name: s(name), pkg: depth > 0, doc: Some(format!("Pydoc module {n}")), ..Default::default() };
        let k = *n;
        *n += 1;
        let mut subs = Vec::new();
        if depth > 0 {
            for x in 0..1 + rng.below(2) {
                let sub = format!("sub{x}");
                subs.push(fill(rng, &sub, &format!("{path}.{sub}"), depth - 1, n));
            }
        }
        for x in &subs {
            for i in &x.items {
                if let Item::Cl(c) = i {
                    m.items.push(Item::From { module: format!("{path}.{}", x.name), what: c.name.clone(), name: format!("{}_again", c.name) });
                }
                if let Item::Fn(f) = i {
                    if rng.flip() {
                        m.items.push(Item::From { module: format!("{path}.{}", x.name), what: f.name.clone(), name: f.name.clone() });
                    }
                }
            }
        }
        let mut all = Vec::new();
        for j in 0..1 + rng.below(2) {
            let name = format!("f{k}_{j}");
            m.items.push(Item::Fn(F { doc: Some(s("Pydoc function\n\nwith text")), params: vec![P { ann: Some(s("int")), ..p("x", 1) }], ..fun(&name) }));
            all.push(name);
        }
        if rng.chance(4, 5) {
            let name = format!("C{k}");
            let mut c = class(&name);
            c.doc = Some(s("Pydoc class"));
            c.methods.push((MKind::Inst, F { doc: Some(s("Pydoc method")), params: vec![selfp(), p("a", 1)], ..fun("m") }));
            c.methods.push((MKind::Static, F { params: vec![p("a", 3)], ..fun("st") }));
            c.props.push(Pr { name: s("p"), get_doc: Some(s("Pydoc property")), set: Some((None, None)), ..Default::default() });
            for (j, (g, st)) in [(None, Some("Pydoc setter")), (Some("Pydoc getter"), Some("Pydoc setter")), (Some("Pydoc both"), Some("Pydoc both"))].into_iter().enumerate() {
                c.props.push(Pr { name: format!("q{j}"), get_doc: g.map(s), set: Some((None, st.map(s))), ..Default::default() });
            }
            c.init = Some(F { doc: Some(s("Pydoc constructor")), params: vec![selfp()], ..fun("__init__") });
            c.call = Some(F { doc: Some(s("Pydoc caller")), params: vec![selfp(), p("a", 1)], ..fun("__call__") });
            // names that only clash when functions are generated
            c.props.push(Pr { name: s("new"), ..Default::default() });
            m.items.push(Item::Cl(c));
            all.push(name);
        }
        if rng.chance(4, 5) {
            let name = format!("T{k}");
            m.items.push(Item::Tv(name.clone()));
            all.push(name);
        }
        let name = format!("v{k}");
        m.items.push(Item::Var { name: name.clone(), expr: s(*rng.pick(&["1", "'x'", "[1]"])) });
        if rng.flip() {
            // accessors renamed because of functions
            m.items.push(Item::Fn(fun(&format!("set_v{k}"))));
        }
        if rng.chance(1, 3) {
            m.items.push(Item::Var { name: s("call"), expr: s("2") });
        }
        all.push(name);
        m.all = Some(all);
        m.subs = subs;
        m
    }
    let d = 1 + rng.below(2);
    fill(rng, top, top, d, &mut n)
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Sections {
    imports: bool,
    preludes: bool,
    classes: bool,
    type_vars: bool,
    functions: bool,
    properties: bool,
    submodules: bool,
    docs: bool,
}
impl Sections {
    fn from_bits(b: u32) -> Self {
        let f = |i: u32| b & (1 << i) != 0;
        Self { imports: f(0), preludes: f(1), classes: f(2), type_vars: f(3), functions: f(4), properties: f(5), submodules: f(6), docs: f(7) }
    }
    fn cfg(&self) -> Config {
        Config::builder()
            .generate_imports(self.imports)
            .generate_preludes(self.preludes)
            .generate_classes(self.classes)
            .generate_type_vars(self.type_vars)
            .generate_functions(self.functions)
            .generate_properties(self.properties)
            .traverse_submodules(self.submodules)
            .generate_docs(self.docs)
            .build()
    }
}

/// Items of one module with their section
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Entry {
    module: String,
    section: &'static str,
    text: String,
}

/// Without the doc attributes that come from Python docstrings: `# [doc = "..."]`
fn strip_docs(text: &str) -> String {
    let Ok(ts) = text.parse::<proc_macro2::TokenStream>() else { return text.to_string() };
    fn go(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
        let mut out = proc_macro2::TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            if let (proc_macro2::TokenTree::Punct(p), Some(proc_macro2::TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
                let t: Vec<_> = g.stream().into_iter().collect();
                let is_doc = p.as_char() == '#'
                    && t.first().is_some_and(|x| x.to_string() == "doc")
                    && t.get(1).is_some_and(|x| x.to_string() == "=")
                    && t.get(2).is_some_and(|x| x.to_string().contains("Pydoc"));
                if is_doc {
                    i += 2;
                    continue;
                }
            }
            match &v[i] {
                proc_macro2::TokenTree::Group(g) => {
                    out.extend([proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream())))]);
                }
                t => out.extend([t.clone()]),
            }
            i += 1;
        }
        out
    }
    go(ts).to_string()
}

fn entries(tops: &[RMod], keep_docs: bool) -> Vec<Entry> {
    let mut out = Vec::new();
    // the text of tokens depends on how they were made: always the one of parsed tokens
    let normal = |t: &str| t.parse::<proc_macro2::TokenStream>().map(|x| x.to_string()).unwrap_or(t.to_string());
    let clean = |t: &str| if keep_docs { normal(&normal(t)) } else { normal(&strip_docs(t)) };
    for (path, r) in bind::all_modules(tops) {
        let module = path.join(".");
        let mut push = |section: &'static str, text: String| out.push(Entry { module: module.clone(), section, text });
        push("module", format!("{} {}", r.name, if keep_docs { r.docs.join("\u{1}") } else { String::new() }));
        for f in &r.fns {
            let section = match act(f).map(|b| &b.act) {
                Ok(Act::Get { .. } | Act::Set { .. }) => "properties",
                Ok(Act::Embed { .. }) => "embed",
                _ => "functions",
            };
            push(section, clean(&f.text));
        }
        for x in &r.structs {
            push("classes", clean(&x.text));
        }
        for x in &r.types {
            push("type_vars", x.clone());
        }
        for x in &r.uses {
            push("imports", format!("{x:?}"));
        }
        for x in &r.other {
            push("other", x.clone());
        }
    }
    out.sort();
    out
}

/// Prelude modules are `mod call`, `mod call1`, .. whose only content is `pub use super::{..}`
fn split_preludes(tops: &[RMod]) -> (Vec<RMod>, Vec<(String, Vec<String>, String)>) {
    let mut preludes = Vec::new();
    fn go(m: &RMod, prefix: &str, out: &mut Vec<(String, Vec<String>, String)>) -> RMod {
        let path = if prefix.is_empty() { bind::plain(&m.name) } else { format!("{prefix}.{}", bind::plain(&m.name)) };
        let mut r = m.clone();
        r.mods.clear();
        for x in &m.mods {
            if is_prelude(x) {
                out.push((path.clone(), x.uses.iter().map(|u| u.path.last().cloned().unwrap_or_default()).collect(), x.name.clone()));
            } else {
                r.mods.push(go(x, &path, out));
            }
        }
        r
    }
    let tops = tops.iter().map(|t| go(t, "", &mut preludes)).collect();
    (tops, preludes)
}

fn is_prelude(x: &RMod) -> bool {
    x.name.starts_with("call")
        && x.name[4..].chars().all(|c| c.is_ascii_digit())
        && x.fns.is_empty()
        && x.structs.is_empty()
        && x.types.is_empty()
        && x.mods.is_empty()
        && x.other.is_empty()
        && !x.uses.is_empty()
        && x.uses.iter().all(|u| u.public && u.path.len() == 2 && u.path[0] == "super" && u.alias.is_none())
}

fn sections(ctx: &mut Ctx) {
    rule(ctx, "packages with every section at up to 3 levels, all 256 combinations of the eight switches over them; the bindings are compared with those of the full configuration minus the sections switched off; non-trivial: between one and seven switches are off");
    let rounds = ctx.pick_n(2, 24);
    for round in 0..rounds {
        let mut rng = Rng::new(ctx.seed * 1_000_081 + round as u64);
        let top = fresh();
        let m = section_pkg(&mut rng, &top);
        let input = describe(&m, "");
        let scratch = ctx.scratch.clone();
        let _w = Written::new(&scratch, &m);
        // one stable state of the package for all configurations
        let mut all = Vec::new();
        walk(&m, "", &mut all);
        for (path, _) in &all {
            py_exec(&format!("import {path}")).expect("package imports");
        }
        let full = Sections::from_bits(0xff);
        let full_tops = crate::core::guarded(|| bindings(&full.cfg(), &[&top])).and_then(|x| x);
        for bits in 0..256u32 {
            let sec = Sections::from_bits(bits);
            let text = format!("{sec:?}\n{input}");
            ctx.case(&format!("sections {bits:08b} of package {round}"), &text, bits != 0 && bits != 255, || {
                let full_tops = full_tops.as_ref().map_err(|e| format!("full configuration: {e}"))?;
                let (fm, fp) = split_preludes(full_tops);
                ensure(!fp.is_empty(), || s("the full configuration has no prelude"))?;
                // in full, and once
                let fe = entries(&fm, true);
                for w in fe.windows(2) {
                    ensure(w[0] != w[1], || format!("generated twice: {:?}", w[0]))?;
                }
                for (path, x) in &all {
                    let r = module(&fm, path)?;
                    let (f, c, t) = section_items(x);
                    let gf = sorted(r.fns.iter().map(|f| f.name.clone()).collect());
                    ensure(f.iter().all(|n| gf.contains(n)), || format!("functions of {path}: {gf:?} lack some of {f:?}"))?;
                    let gc = sorted(r.structs.iter().map(|f| f.name.clone()).collect());
                    ensure(gc == c, || format!("classes of {path}: {gc:?}, expected {c:?}"))?;
                    let gt = sorted(r.types.clone());
                    ensure(gt == t, || format!("type variables of {path}: {gt:?}, expected {t:?}"))?;
                }
                let tops = bindings(&sec.cfg(), &[&top])?;
                let (gm, gp) = split_preludes(&tops);
                let got = entries(&gm, true);
                let want: Vec<Entry> = entries(&fm, sec.docs)
                    .into_iter()
                    .filter(|e| sec.submodules || e.module == top)
                    .filter(|e| match e.section {
                        "imports" => sec.imports,
                        "classes" => sec.classes,
                        "type_vars" => sec.type_vars,
                        "functions" => sec.functions,
                        "properties" => sec.properties,
                        _ => true,
                    })
                    // re-exports of what is in removed submodules
                    .filter(|e| e.section != "imports" || sec.submodules)
                    .collect();
                let got2: Vec<Entry> = got.iter().filter(|e| e.section != "imports" || sec.submodules || !sec.imports).cloned().collect();
                diff(&want, &got2)?;
                // Preludes: those of the full configuration, without re-exports of removed items
                let bound = |path: &str| -> BTreeSet<String> {
                    let r = module(&gm, path).unwrap();
                    let mut b: BTreeSet<String> = r.fns.iter().map(|f| f.name.clone()).collect();
                    b.extend(r.structs.iter().map(|x| x.name.clone()));
                    b.extend(r.types.iter().cloned());
                    b.extend(r.mods.iter().map(|x| x.name.clone()));
                    b
                };
                let mut want_p: Vec<(String, Vec<String>, String)> = fp
                    .iter()
                    .filter(|_| sec.preludes)
                    .filter(|q| sec.submodules || q.0 == top)
                    .map(|q| (q.0.clone(), sorted(q.1.iter().filter(|n| bound(&q.0).contains(*n)).cloned().collect()), q.2.clone()))
                    .filter(|q| !q.1.is_empty())
                    .collect();
                let mut got_p: Vec<(String, Vec<String>, String)> = gp.iter().map(|q| (q.0.clone(), sorted(q.1.clone()), q.2.clone())).collect();
                want_p.sort();
                got_p.sort();
                ensure(want_p == got_p, || format!("preludes {got_p:?}, expected {want_p:?}"))
            });
        }
    }
}

fn section_items(m: &M) -> (Vec<String>, Vec<String>, Vec<String>) {
    let (mut f, mut c, mut t) = (Vec::new(), Vec::new(), Vec::new());
    for i in &m.items {
        match i {
            Item::Fn(x) => f.push(x.name.clone()),
            Item::Cl(x) => c.push(x.name.clone()),
            Item::Tv(x) => t.push(x.clone()),
            Item::Var { name, .. } => f.push(name.clone()),
            _ => {}
        }
    }
    (sorted(f), sorted(c), sorted(t))
}

fn diff(want: &[Entry], got: &[Entry]) -> Result<(), String> {
    for e in want {
        let (a, b) = (want.iter().filter(|x| *x == e).count(), got.iter().filter(|x| *x == e).count());
        ensure(a == b, || {
            // the part where the most similar item differs
            let common = |x: &Entry| x.text.chars().zip(e.text.chars()).take_while(|(a, b)| a == b).count();
            let best = got.iter().filter(|x| x.module == e.module && x.section == e.section).max_by_key(|x| common(x));
            let at = best.map(|x| common(x)).unwrap_or(0);
            let part = |t: &str| crate::core::clip(&t.chars().skip(at.saturating_sub(60)).collect::<String>(), 300);
            format!(
                "{} of {} occurs {b} times instead of {a}: ..{} (found: ..{})",
                e.section,
                e.module,
                part(&e.text),
                best.map(|x| part(&x.text)).unwrap_or_default()
            )
        })?;
    }
    for e in got {
        ensure(want.contains(e), || format!("unexpected in {}: {} {}", e.module, e.section, crate::core::clip(&e.text, 400)))?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Preludes

fn preludes(ctx: &mut Ctx) {
    rule(ctx, "packages whose modules list random names in `__all__` (bound items of every kind, imported names, missing names, private and blocklisted names, duplicates, names of submodules), with random switches; the re-exports are compared with Python's own view of the names; non-trivial: some listed name must not be re-exported");
    for i in 0..ctx.pick_n(260, 6000) {
        let mut rng = Rng::new(ctx.seed * 1_000_099 + i as u64);
        let top = fresh();
        let mut m = pkg(&top);
        let mut names: Vec<(String, &str)> = Vec::new();
        for name in distinct_names(&mut rng, 8, &["super", "self"]) {
            match rng.below(5) {
                0 => {
                    m.items.push(Item::Fn(fun(&name)));
                    names.push((name, "functions"));
                }
                1 if spelling(&name).is_some() => {
                    m.items.push(Item::Cl(class(&name)));
                    names.push((name, "classes"));
                }
                2 if spelling(&name).is_some() => {
                    m.items.push(Item::Tv(name.clone()));
                    names.push((name, "type_vars"));
                }
                3 => {
                    m.items.push(Item::Var { name: name.clone(), expr: s("1") });
                    names.push((name, "-")); // plain values have no defining module
                }
                _ if spelling(&name).is_some() => {
                    m.items.push(Item::Raw(format!("class _V:\n    pass\n{name} = _V()\ndel _V")));
                    names.push((name, "properties"));
                }
                _ => {}
            }
        }
        m.subs.push(M { items: vec![Item::Fn(fun("inner")), Item::Cl(class("Inner"))], ..leaf("sub") });
        m.items.push(Item::From { module: format!("{top}.sub"), what: s("Inner"), name: s("Inner") });
        let deps = rng.chance(1, 4);
        if !deps {
            m.items.push(Item::From { module: s("json"), what: s("loads"), name: s("loads") });
        }
        if rng.chance(1, 3) {
            m.items.push(Item::Fn(fun("call")));
            names.push((s("call"), "functions"));
            if rng.flip() {
                m.items.push(Item::Cl(class("call1")));
                names.push((s("call1"), "classes"));
            }
        }
        m.items.push(Item::Fn(fun("test")));
        m.items.push(Item::Fn(fun("_private")));
        let mut all: Vec<String> = Vec::new();
        let mut odd = false;
        let mode = rng.below(10);
        if mode == 0 {
            // the public names, exactly: no prelude. (set below, from Python)
        } else {
            for (n, _) in &names {
                if rng.chance(2, 3) {
                    all.push(n.clone());
                }
            }
            for n in ["Inner", "loads", "missing", "test", "_private", "sub", "repr"] {
                if rng.chance(1, 3) {
                    odd = true;
                    all.push(s(n));
                }
            }
            if rng.chance(1, 3) && !all.is_empty() {
                let x = all[rng.below(all.len())].clone();
                all.push(x);
            }
            rng.shuffle(&mut all);
        }
        if mode == 0 {
            m.items.push(Item::Raw(s("__all__ = [n for n in dir() if not n.startswith('_')]")));
        } else if mode > 1 {
            m.all = Some(all.clone());
        } else {
            all.clear();
        }
        let sec = if rng.flip() { Sections::from_bits(0xff) } else { Sections { preludes: true, submodules: rng.flip(), ..Sections::from_bits(rng.next() as u32) } };
        let text = format!("{sec:?} dependencies={deps}\n{}", describe(&m, ""));
        let scratch = ctx.scratch.clone();
        ctx.case(&format!("prelude #{i}"), &text, odd, || {
            let _w = Written::new(&scratch, &m);
            let cfg = Config { generate_dependencies: deps, ..sec.cfg() };
            let tops = bindings(&cfg, &[&top])?;
            let r = module(&tops, &top)?;
            let found: Vec<&RMod> = r.mods.iter().filter(|x| is_prelude(x)).collect();
            ensure(found.len() <= 1, || s("several preludes"))?;
            // nothing else is shaped like a prelude
            let extra = r.mods.iter().filter(|x| !is_prelude(x) && x.name != "sub").count();
            ensure(extra == 0, || s("a module that is neither a submodule nor a prelude"))?;
            let got: Vec<String> = found.first().map(|x| x.uses.iter().map(|u| u.path[1].clone()).collect()).unwrap_or_default();
            let mut want: BTreeSet<String> = BTreeSet::new();
            for n in &all {
                let kind = names.iter().find(|x| x.0 == *n).map(|x| x.1).unwrap_or(if deps && n == "sub" { "submodules" } else { "none" });
                let on = match kind {
                    "-" => deps && sec.properties,
                    "submodules" => sec.submodules,
                    "functions" => sec.functions,
                    "classes" => sec.classes,
                    "type_vars" => sec.type_vars,
                    "properties" => sec.properties,
                    _ => false,
                };
                if on {
                    if let Some(x) = spelling(n) {
                        want.insert(x);
                    }
                }
            }
            let want: Vec<String> = want.into_iter().collect();
            ensure(sorted(got.clone()) == want, || format!("re-exported {got:?}, expected {want:?} for __all__ = {all:?}"))?;
            // every re-export names something generated in the module, and the name of the prelude is free
            let mut bound: BTreeSet<String> = r.fns.iter().map(|f| f.name.clone()).collect();
            bound.extend(r.structs.iter().map(|x| x.name.clone()));
            bound.extend(r.types.iter().cloned());
            bound.extend(r.mods.iter().filter(|x| !is_prelude(x)).map(|x| x.name.clone()));
            for g in &got {
                ensure(bound.contains(g), || format!("re-exports {g}, which is not generated"))?;
            }
            if let Some(x) = found.first() {
                ensure(!names.iter().any(|n| n.0 == x.name), || format!("the prelude is called {} like an item of the module", x.name))?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------------
// Lookups

fn lookups(ctx: &mut Ctx) {
    rule(ctx, "packages of up to 3 levels with submodules on disk, modules that only exist as attributes, classes that shadow a submodule, and keyword names; every lookup of every generated function is compared with the object it stands for; non-trivial: some lookup has an attribute part");
    for i in 0..ctx.pick_n(160, 4000) {
        let mut rng = Rng::new(ctx.seed * 1_000_117 + i as u64);
        let top = fresh();
        let mut counter = 0;
        let d = 1 + rng.below(3);
        let mut m = random_tree(&mut rng, &top, d, &mut counter);
        m.pkg = true;
        // static methods and constructors at every level
        fn add(m: &mut M, path: &str, rng: &mut Rng) {
            let name = distinct_names(rng, 1, &["Holder"])[0].clone();
            if !m.subs.iter().any(|x| x.name == name) {
                let mut c = class(&name);
                c.methods.push((MKind::Static, fun("st")));
                c.methods.push((MKind::Class, F { params: vec![p("cls", 1)], ..fun("cm") }));
                m.items.push(Item::Cl(c));
            }
            if rng.chance(1, 3) {
                // a module that only exists as an attribute
                m.items.push(Item::Raw(format!(
                    "import types as _ty\nvirt = _ty.ModuleType('{path}.virt')\nvirt.__module__ = '{path}'\nexec('def vf(): pass\\nclass VC:\\n    def __init__(self): pass\\nVV = 1', virt.__dict__)\nvirt.vf.__module__ = virt.VC.__module__ = '{path}.virt'"
                )));
            } else if rng.chance(1, 3) && m.pkg {
                // a class that shadows the submodule it comes from
                let mut x = leaf("shadow");
                let mut c = class("shadow");
                c.methods.push((MKind::Static, fun("st")));
                x.items.push(Item::Cl(c));
                m.subs.push(x);
                m.items.push(Item::From { module: format!("{path}.shadow"), what: s("shadow"), name: s("shadow") });
            }
            for x in &mut m.subs {
                if x.name != "shadow" {
                    let p = format!("{path}.{}", x.name);
                    add(x, &p, rng);
                }
            }
        }
        add(&mut m, &top, &mut rng);
        let single = rng.chance(1, 4);
        let mut all = Vec::new();
        walk(&m, "", &mut all);
        let target = if single { all[rng.below(all.len())].0.clone() } else { top.clone() };
        if target.ends_with(".shadow") {
            continue;
        }
        case_pkg(ctx, &format!("lookups #{i}"), &m, true, || {
            let tops = bindings(&Config::default(), &[&target])?;
            let mut seen = 0;
            for (path, r) in bind::all_modules(&tops) {
                let dotted = path.join(".");
                for (f, st) in r.all_fns() {
                    let b = act(f)?;
                    let recv = match &b.act {
                        Act::Call { recv, .. } | Act::Get { recv, .. } | Act::Set { recv, .. } => recv,
                        _ => continue,
                    };
                    let Recv::Lookup { import, attrs } = recv else { continue };
                    seen += 1;
                    let expected = match st {
                        None => dotted.clone(),
                        // the class of the struct
                        Some(x) => {
                            let own = format!("{dotted}.{}", bind::plain(&x.name));
                            if x.name == "shadow" {
                                format!("{own}.shadow") // as defined
                            } else {
                                own
                            }
                        }
                    };
                    let spelled = recv.dotted();
                    ensure(
                        spelled == expected || (st.is_some_and(|x| x.name == "shadow") && expected == format!("{spelled}.shadow")),
                        || format!("{} looks up {spelled}, expected {expected}", f.name),
                    )?;
                    // the import part: longest importable prefix, the whole name only when it is not shadowed
                    let segs: Vec<&str> = spelled.split('.').collect();
                    let want = (1..=segs.len())
                        .rev()
                        .map(|n| segs[..n].join("."))
                        .find(|name| {
                            let whole = *name == spelled;
                            Python::with_gil(|py| {
                                let Ok(md) = py.import_bound(name.as_str()) else { return false };
                                if whole {
                                    if let Some((parent, last)) = name.rsplit_once('.') {
                                        let a = py.import_bound(parent).and_then(|p| p.getattr(last));
                                        return a.map(|a| a.is(&md)).unwrap_or(true);
                                    }
                                }
                                true
                            })
                        })
                        .unwrap_or_else(|| segs[0].to_string());
                    ensure(*import == want, || format!("{} imports {import} to reach {spelled}, expected {want}", f.name))?;
                    // and it finds the object
                    let path_expr = format!("__import__('functools').reduce(getattr, {attrs:?}, importlib.import_module({import:?}))");
                    let name = match &b.act {
                        Act::Call { method: Some(m), .. } => Some(m.clone()),
                        Act::Get { attr, .. } | Act::Set { attr, .. } => Some(attr.clone()),
                        _ => None,
                    };
                    match name {
                        Some(n) => {
                            let found = py_text(&format!("hasattr({path_expr}, {n:?})")).map_err(|e| format!("{}: {e}", f.name))?;
                            ensure(found == "True", || format!("{}: {spelled} has no {n}", f.name))?;
                        }
                        None => {
                            let found = py_text(&format!("isinstance({path_expr}, type)")).map_err(|e| format!("{}: {e}", f.name))?;
                            ensure(found == "True", || format!("{}: {spelled} is not a class", f.name))?;
                        }
                    }
                }
            }
            let _ = seen;
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------------
// Re-exports and relative paths

/// What a path means when it is resolved from inside `module`
fn resolve(module: &str, path: &[String]) -> Result<String, String> {
    let mut cur: Vec<String> = module.split('.').map(String::from).collect();
    for seg in path {
        match seg.as_str() {
            "self" => {}
            "super" => {
                cur.pop().ok_or_else(|| format!("{path:?} leaves the root"))?;
            }
            x => cur.push(bind::plain(x)),
        }
    }
    Ok(cur.join("."))
}

fn reexports(ctx: &mut Ctx) {
    rule(ctx, "packages of up to 4 levels whose modules import classes, functions and modules from their descendants, siblings and other packages under random aliases, and use classes of other modules as annotations; re-exports and type paths are resolved and compared with their origin; non-trivial: an alias differs from the original name");
    for i in 0..ctx.pick_n(200, 5000) {
        let mut rng = Rng::new(ctx.seed * 1_000_121 + i as u64);
        let top = fresh();
        let mut counter = 0;
        let mut m = random_tree(&mut rng, &top, 3, &mut counter);
        m.pkg = true;
        // classes at every module
        fn classes(m: &mut M, rng: &mut Rng) {
            let name = distinct_names(rng, 1, &[])[0].clone();
            if !m.subs.iter().any(|x| x.name == name) {
                m.items.push(Item::Cl(class(&name)));
            }
            for x in &mut m.subs {
                classes(x, rng);
            }
        }
        classes(&mut m, &mut rng);
        // (module, alias, origin, kind)
        let mut want: Vec<(String, String, String)> = Vec::new();
        let mut typed: Vec<(String, String, String)> = Vec::new(); // module, function, class
        fn importing(m: &mut M, path: &str, rng: &mut Rng, top: &str, want: &mut Vec<(String, String, String)>, typed: &mut Vec<(String, String, String)>, earlier: &[(String, M)]) {
            let mut descendants = Vec::new();
            for x in &m.subs {
                walk(x, path, &mut descendants);
            }
            let descendants: Vec<(String, M)> = descendants.into_iter().map(|(p, m)| (p, m.clone())).collect();
            let mut done: Vec<(String, M)> = earlier.to_vec();
            for x in &mut m.subs {
                let p = format!("{path}.{}", x.name);
                importing(x, &p, rng, top, want, typed, &done);
                let mut all = Vec::new();
                walk(x, path, &mut all);
                done.extend(all.into_iter().map(|(p, m)| (p, m.clone())));
            }
            let mut taken: BTreeSet<String> = m.subs.iter().map(|x| x.name.clone()).collect();
            for it in &m.items {
                match it {
                    Item::Fn(f) => taken.insert(f.name.clone()),
                    Item::Cl(c) => taken.insert(c.name.clone()),
                    Item::Var { name, .. } | Item::Tv(name) => taken.insert(name.clone()),
                    _ => false,
                };
            }
            let mut new = Vec::new();
            let mut k = 0;
            for (p, x) in descendants.iter().chain(earlier) {
                for it in &x.items {
                    let (what, is_class) = match it {
                        Item::Fn(f) if f.name.starts_with("uses") => continue,
                        Item::Fn(f) => (f.name.clone(), false),
                        Item::Cl(c) => (c.name.clone(), true),
                        _ => continue,
                    };
                    if !rng.chance(1, 3) {
                        continue;
                    }
                    let alias = if rng.flip() { what.clone() } else { distinct_names(rng, 1, &["alias", "Other"])[0].clone() };
                    // classes used as annotations: by object and by name
                    if is_class {
                        let f = format!("uses{k}");
                        k += 1;
                        new.push(Item::Raw(format!("import {p}")));
                        let ann = if rng.flip() { format!("__import__('importlib').import_module('{p}').{what}") } else { format!("'{p}.{what}'") };
                        new.push(Item::Fn(F { params: vec![P { ann: Some(ann.clone()), ..self::p("x", 1) }], ret: Some(ann), ..fun(&f) }));
                        typed.push((path.to_string(), f, format!("{p}.{what}")));
                    }
                    if !taken.insert(alias.clone()) {
                        continue;
                    }
                    new.push(Item::From { module: p.clone(), what: what.clone(), name: alias.clone() });
                    if p.starts_with(&format!("{path}.")) {
                        want.push((path.to_string(), alias, format!("{p}.{what}")));
                    }
                }
            }
            // whole submodules under another name
            if let Some((p, _)) = descendants.first() {
                if rng.flip() && taken.insert(s("mod_alias")) {
                    new.push(Item::Raw(format!("import {p} as mod_alias")));
                    want.push((path.to_string(), s("mod_alias"), p.clone()));
                }
            }
            if rng.chance(1, 3) && taken.insert(s("ext")) {
                new.push(Item::Raw(s("from json import JSONDecoder as ext")));
            }
            m.items.splice(0..0, new);
        }
        importing(&mut m, &top.clone(), &mut rng, &top, &mut want, &mut typed, &[]);
        let aliased = want.iter().any(|w| !w.2.ends_with(&format!(".{}", w.1)));
        case_pkg(ctx, &format!("re-exports #{i}"), &m, aliased, || {
            let tops = bindings(&Config::default(), &[&top])?;
            let mut got = Vec::new();
            for (path, r) in bind::all_modules(&tops) {
                let dotted = path.join(".");
                if is_prelude(r) {
                    continue;
                }
                for u in &r.uses {
                    ensure(u.public, || format!("private import in {dotted}"))?;
                    let origin = resolve(&dotted, &u.path)?;
                    let last = bind::plain(u.path.last().unwrap());
                    if let Some(a) = &u.alias {
                        ensure(bind::plain(a) != last, || format!("{dotted} re-exports {origin} under its own name as an alias"))?;
                    }
                    let name = u.alias.as_ref().map(|a| bind::plain(a)).unwrap_or(last);
                    got.push((dotted.clone(), name, origin));
                }
            }
            let (mut w, mut g) = (want.clone(), got);
            w.sort();
            g.sort();
            for x in &w {
                ensure(g.contains(x), || format!("{} is not re-exported by {} as {}; re-exports: {g:?}", x.2, x.0, x.1))?;
            }
            for x in &g {
                ensure(w.contains(x), || format!("{} is re-exported by {} as {}, expected {w:?}", x.2, x.0, x.1))?;
            }
            ensure(w == g, || s("an item is re-exported twice"))?;
            for (md, f, target) in &typed {
                let r = module(&tops, md)?;
                let fns: Vec<&RFn> = r.fns.iter().collect();
                let g = find_fn(&fns, f)?;
                for ty in [&g.ret, &g.params[0].1] {
                    let Some(path) = bound_path(ty) else { return Err(format!("{f} of {md} uses {ty}, expected Bound of {target}")) };
                    let found = resolve(md, &path)?;
                    ensure(found == *target, || format!("{f} of {md} uses {ty} = {found}, expected {target}"))?;
                }
            }
            Ok(())
        });
    }
}

/// `::pyo3::Bound<'py, PATH>` (or a reference to one)
fn bound_path(ty: &str) -> Option<Vec<String>> {
    let t: syn::Type = syn::parse_str(ty).ok()?;
    let t = match t {
        syn::Type::Reference(r) => *r.elem,
        t => t,
    };
    let syn::Type::Path(p) = t else { return None };
    let last = p.path.segments.last()?;
    if last.ident == "PyResult" {
        let syn::PathArguments::AngleBracketed(a) = &last.arguments else { return None };
        return match a.args.first() {
            Some(syn::GenericArgument::Type(t)) => bound_path(&quote::quote!(#t).to_string()),
            _ => None,
        };
    }
    if last.ident != "Bound" {
        return None;
    }
    let syn::PathArguments::AngleBracketed(a) = &last.arguments else { return None };
    a.args.iter().find_map(|x| match x {
        syn::GenericArgument::Type(syn::Type::Path(q)) => Some(q.path.segments.iter().map(|x| x.ident.to_string()).collect()),
        _ => None,
    })
}

// ---------------------------------------------------------------------------------------------
// Names

fn names(ctx: &mut Ctx) {
    rule(ctx, "generated packages, modules, classes, functions, parameters and attributes under every name of a list with all Rust keywords; every place where the Python name is spelled is read back; non-trivial: the name is a Rust keyword or not ASCII");
    let mut all: Vec<&str> = PY_NAMES.to_vec();
    all.extend(["super", "crate", "self", "Self", "r", "rr", "r_x", "__x__", "x__", "safe", "box", "yield_", "nonlocal_"]);
    for name in all {
        let top = fresh();
        let mut m = pkg(&top);
        let mut subname = s(name);
        if spelling(name).is_none() {
            subname = s("plain_sub");
        }
        let mut sub = leaf(&subname);
        let mut c = class(if spelling(name).is_some() { name } else { "Plain" });
        let cname = c.name.clone();
        c.methods.push((MKind::Static, fun(name)));
        c.methods.push((MKind::Inst, F { params: vec![selfp(), p("x", 1), p(if name == "self" { "y" } else { name }, 3)], ..fun("meth") }));
        sub.items.push(Item::Fn(F { params: vec![p("x", 1), p(if name == "self" { "y" } else { name }, 3)], ..fun("func") }));
        sub.items.push(Item::Cl(c));
        let mut other = leaf("other");
        other.items.push(Item::Var { name: s(name), expr: s("1") });
        let mut third = leaf("third");
        third.items.push(Item::Fn(fun(name)));
        m.subs = vec![sub, other, third];
        case_pkg(ctx, &format!("name {name}"), &m, !name.is_ascii() || spelling(name).as_deref() != Some(name), || {
            let cfg = Config::builder().include_private(name.starts_with('_')).build();
            let tops = bindings(&cfg, &[&top])?;
            let path = format!("{top}.{subname}");
            let r = module(&tops, &path)?;
            ensure(Some(r.name.clone()) == spelling(&subname), || format!("module {subname} is spelled {}", r.name))?;
            let fns: Vec<&RFn> = r.fns.iter().collect();
            let kw = if name == "self" { "y" } else { name };
            check_call(find_fn(&fns, "func")?, &path, Some("func"), &(2, vec![Arg::One(0)], vec![Kw::Named(s(kw), 1)]))?;
            let st = find_struct(r, &spelling(&cname).unwrap())?;
            let cpath = format!("{path}.{cname}");
            ensure(st.object_name.as_deref() == Some(cpath.as_str()), || format!("class {cpath} is registered as {:?}", st.object_name))?;
            let methods: Vec<&RFn> = st.trait_impls.iter().collect();
            check_call(find_fn(&methods, "meth")?, "self", Some("meth"), &(2, vec![Arg::One(0)], vec![Kw::Named(s(kw), 1)]))?;
            let inherent: Vec<&RFn> = st.inherent.iter().collect();
            let f = spelling(name).unwrap_or(format!("f_{name}"));
            check_call(find_fn(&inherent, &f)?, &cpath, Some(name), &(0, vec![], vec![]))?;
            check_call(find_fn(&inherent, "new")?, &cpath, None, &(0, vec![], vec![]))?;
            let r = module(&tops, &format!("{top}.other"))?;
            let fns: Vec<&RFn> = r.fns.iter().collect();
            let g = find_fn(&fns, &spelling(name).unwrap_or(format!("get_{name}")))?;
            let recv = Recv::Lookup { import: format!("{top}.other"), attrs: vec![] };
            ensure(act(g)?.act == Act::Get { recv: recv.clone(), attr: s(name) }, || format!("getter of {name}: {}", g.text))?;
            let g = find_fn(&fns, &format!("set_{name}"))?;
            ensure(act(g)?.act == Act::Set { recv, attr: s(name), value: 0 }, || format!("setter of {name}: {}", g.text))?;
            let r = module(&tops, &format!("{top}.third"))?;
            let fns: Vec<&RFn> = r.fns.iter().collect();
            check_call(find_fn(&fns, &f)?, &format!("{top}.third"), Some(name), &(0, vec![], vec![]))
        });
    }
}

// ---------------------------------------------------------------------------------------------
// Attribute filter

fn filter(ctx: &mut Ctx) {
    rule(ctx, "packages whose modules, classes and submodules carry reserved, private, dunder, blocklisted and ordinary names, under random blocklists and private switches; each must be present exactly when the filter admits it; non-trivial: an attribute is filtered out");
    let pool: &[&str] = &[
        "get_type", "obj", "py", "repr", "str", "_a", "__b", "__c__", "builtins", "testing", "tests", "test", "alpha", "beta", "typing_x", "future", "a_", "Test",
        "test_", "strx", "custom", "blocked",
    ];
    for i in 0..ctx.pick_n(160, 4000) {
        let mut rng = Rng::new(ctx.seed * 1_000_133 + i as u64);
        let top = fresh();
        let include_private = rng.flip();
        let blocklist: Option<Vec<String>> = if rng.flip() {
            let n = rng.below(4);
            Some((0..n).map(|_| s(rng.pick(pool))).collect())
        } else {
            None
        };
        let effective: Vec<String> = blocklist.clone().unwrap_or_else(|| ["builtins", "testing", "tests", "test"].iter().map(|x| s(x)).collect());
        let allowed = |name: &str, module: &str| {
            !RESERVED.contains(&name)
                && !effective.iter().any(|b| b == name)
                && !module.split('.').any(|c| c == "__future__" || c == "typing")
                && (include_private || !(name.starts_with('_') || module.split('.').any(|c| c.starts_with('_'))))
        };
        let mut m = pkg(&top);
        let mut names: Vec<&str> = pool.to_vec();
        rng.shuffle(&mut names);
        let mut fns = Vec::new();
        let mut classes = Vec::new();
        let mut vars = Vec::new();
        let mut claims = Vec::new();
        let mut subs: Vec<String> = Vec::new();
        for (k, name) in names.iter().enumerate() {
            match k % 5 {
                0 => {
                    m.items.push(Item::Fn(fun(name)));
                    fns.push(s(name));
                }
                1 => {
                    m.items.push(Item::Cl(class(name)));
                    classes.push(s(name));
                }
                2 => {
                    m.items.push(Item::Var { name: s(name), expr: s("1") });
                    vars.push(s(name));
                }
                3 => {
                    // an object that claims to come from another module
                    let module = *rng.pick(&["other", "_hidden", "typing", "a.__future__", "a._b.c", "typing.x", "future", "my_typing", "__future__", "a.b_"]);
                    m.items.push(Item::Raw(format!("class _V: pass\n{name} = _V()\n{name}.__module__ = '{module}'\ndel _V")));
                    claims.push((s(name), s(module)));
                }
                _ => {
                    m.subs.push(M { items: vec![Item::Fn(fun("inside"))], ..leaf(name) });
                    subs.push(s(name));
                }
            }
        }
        // class members
        rng.shuffle(&mut names);
        let mut c = class("Members");
        let mut cm = Vec::new();
        for (k, name) in names.iter().enumerate() {
            if name.starts_with("__") && !name.ends_with("__") {
                continue;
            }
            match k % 3 {
                0 => c.methods.push((MKind::Inst, F { params: vec![selfp()], ..fun(name) })),
                1 => c.props.push(Pr { name: s(name), ..Default::default() }),
                _ => c.attrs.push((s(name), s("1"))),
            }
            cm.push(s(name));
        }
        m.items.push(Item::Cl(c));
        let input = format!("include_private={include_private} blocklist={blocklist:?}\n{}", describe(&m, ""));
        let scratch = ctx.scratch.clone();
        ctx.case(&format!("filter #{i}"), &input, true, || {
            let _w = Written::new(&scratch, &m);
            let mut cfg = Config::builder().include_private(include_private).build();
            if let Some(b) = &blocklist {
                cfg.blocklist_names = b.clone();
            }
            let tops = bindings(&cfg, &[&top])?;
            let r = module(&tops, &top)?;
            let has_fn = |n: &str| r.fns.iter().any(|f| f.name == n);
            for n in &fns {
                ensure(has_fn(n) == allowed(n, &top), || format!("function {n} is present: {}, expected {}", has_fn(n), allowed(n, &top)))?;
            }
            for n in &classes {
                let has = r.structs.iter().any(|x| x.name == *n);
                ensure(has == allowed(n, &top), || format!("class {n} is present: {has}, expected {}", allowed(n, &top)))?;
            }
            for n in &vars {
                let has = r.fns.iter().any(|f| matches!(act(f).map(|b| &b.act), Ok(Act::Get { attr, .. }) if attr == n));
                ensure(has == allowed(n, ""), || format!("variable {n} is present: {has}, expected {}", allowed(n, "")))?;
            }
            for (n, md) in &claims {
                let has = r.fns.iter().any(|f| matches!(act(f).map(|b| &b.act), Ok(Act::Get { attr, .. }) if attr == n));
                ensure(has == allowed(n, md), || format!("object {n} of module {md} is present: {has}, expected {}", allowed(n, md)))?;
            }
            for n in &subs {
                let has = r.mods.iter().any(|x| x.name == *n && !is_prelude(x));
                ensure(has == allowed(n, &top), || format!("submodule {n} is present: {has}, expected {}", allowed(n, &top)))?;
            }
            let st = find_struct(r, "Members")?;
            for n in &cm {
                let has = st.trait_impls.iter().chain(&st.inherent).any(|f| match act(f).map(|b| b.act.clone()) {
                    Ok(Act::Get { attr, .. }) => attr == *n,
                    Ok(Act::Call { method: Some(x), .. }) => x == *n,
                    _ => false,
                });
                ensure(has == allowed(n, &top), || format!("member {n} is present: {has}, expected {}", allowed(n, &top)))?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------------
// Annotations

fn annotations(ctx: &mut Ctx) {
    rule(ctx, "functions and properties whose annotations are odd texts or arbitrary Python objects, through the whole generator; non-trivial: the text has brackets or separators");
    let fragments = ["dict", "list", "[", "]", ",", "|", "None", " ", "Union", "Optional", "Callable", "tuple", "(", ")", "typing.", "'", "\"", "...", "é", "\\", "\n", "<class 'int'>", "Ellipsis", "collections.abc.", "=", ":", "~T", "[]", "type"];
    let objects = [
        "_t.Optional[_t.Dict[str, _t.List[int]]]", "_t.Callable[..., int]", "_t.Callable[[int, _t.Callable[[str], None]], bytes]", "_t.Literal['a,b', 'c]']",
        "_t.Annotated[int, 'x, y[']", "_t.Tuple[int, ...]", "_t.Tuple[()]", "tuple[()]", "list[int] | None", "int | str | None", "_t.TypeVar('T')", "_t.Type[int]", "type[int]",
        "_t.Union[int, None, _t.List[str]]", "_t.ClassVar[int]", "_t.Final", "_t.NoReturn", "None", "1", "'x'", "[]", "{}", "lambda: 1", "_t.Generator[int, None, str]", "_t.NewType('N', int)",
        "_t.ForwardRef('X')", "_b.object()", "_t.Any", "_t.Dict", "_t.List", "dict[str, dict[str, dict[str, int]]]", "_t.Mapping[str, _t.Any]", "_t.Iterable[_t.Sequence[int]]", "...", "NotImplemented",
        "_t.Protocol", "_t.Generic", "_b.type('a,b', (), {})", "_b.type('a[b', (), {})", "_b.type('', (), {})", "_t.Pattern[str]", "b'x'", "_t.Optional[_t.Callable[[_t.Optional[int]], _t.Optional[dict[str, _t.Any]]]]",
    ];
    let n = ctx.pick_n(320, 8000);
    for i in 0..n + objects.len() {
        let mut rng = Rng::new(ctx.seed * 1_000_151 + i as u64);
        let ann = if i < objects.len() {
            s(objects[i])
        } else {
            let k = 1 + rng.below(8);
            let t: String = (0..k).map(|_| *rng.pick(&fragments)).collect();
            py_lit(&t)
        };
        let top = fresh();
        let mut m = leaf(&top);
        m.items.push(Item::Fn(F { params: vec![P { ann: Some(ann.clone()), ..p("x", 1) }, P { ann: Some(ann.clone()), ..p("y", 3) }], ret: Some(ann.clone()), ..fun("f") }));
        let mut c = class("K");
        c.props.push(Pr { name: s("p"), get_ann: Some(ann.clone()), get_doc: None, set: Some((Some(ann.clone()), None)) });
        c.methods.push((MKind::Inst, F { params: vec![selfp(), P { ann: Some(ann.clone()), ..p("x", 0) }], ret: Some(ann.clone()), ..fun("m") }));
        c.methods[0].1.params[0].kind = 0;
        m.items.push(Item::Cl(c));
        m.items.push(Item::Raw(format!("_b.setattr(_b.__import__('sys').modules[__name__], 'v', {ann})")));
        case_pkg(ctx, &format!("annotation {ann}"), &m, ann.contains(['[', ',', '|']), || {
            let tops = bindings(&Config::default(), &[&top])?;
            let r = module(&tops, &top)?;
            let fns: Vec<&RFn> = r.fns.iter().collect();
            let f = find_fn(&fns, "f")?;
            // parsed as Rust already; the wrapper still forwards both arguments
            check_call(f, &top, Some("f"), &(2, vec![Arg::One(0)], vec![Kw::Named(s("y"), 1)]))?;
            let st = find_struct(r, "K")?;
            let methods: Vec<&RFn> = st.trait_impls.iter().collect();
            for n in ["m", "p", "set_p"] {
                find_fn(&methods, n)?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------------
// Types

fn types(ctx: &mut Ctx) {
    rule(ctx, "functions with random nested annotations (texts and typing objects, local classes) in modules, classes and accessors, through the whole generator: return types without `impl`, parameters with at most a leading one, conversion exactly for those; non-trivial: the annotation is nested");
    let leafs = ["int", "str", "float", "bool", "bytes", "None", "_t.Any", "Local", "dict", "list", "tuple", "set", "_t.Callable[[int], str]", "complex", "_b.object", "slice", "range"];
    fn ann(rng: &mut Rng, leafs: &[&str], d: usize) -> String {
        if d == 0 {
            return s(rng.pick(leafs));
        }
        let a = ann(rng, leafs, d - 1);
        let b = ann(rng, leafs, d - 1);
        match rng.below(9) {
            0 => format!("_t.Dict[{a}, {b}]"),
            1 => format!("_t.List[{a}]"),
            2 => format!("_t.Set[{a}]"),
            3 => format!("_t.FrozenSet[{a}]"),
            4 => format!("_t.Tuple[{a}, {b}]"),
            5 => format!("_t.Optional[{a}]"),
            6 => format!("_t.Union[{a}, {b}]"),
            7 => format!("_t.Tuple[{a}]"),
            _ => format!("_t.Sequence[{a}]"),
        }
    }
    for i in 0..ctx.pick_n(220, 6000) {
        let mut rng = Rng::new(ctx.seed * 1_000_159 + i as u64);
        let top = fresh();
        let mut m = pkg(&top);
        m.items.push(Item::Cl(class("Local")));
        let mut c = class("K");
        for k in 0..4 {
            let d = rng.below(4);
            let a = ann(&mut rng, &leafs, d);
            let params = vec![P { ann: Some(a.clone()), ..p("x", 1) }, p("args", 2), P { ann: Some(a.clone()), ..p("y", 3) }, p("kw", 4)];
            m.items.push(Item::Fn(F { params: params.clone(), ret: Some(a.clone()), ..fun(&format!("f{k}")) }));
            let mut mp = vec![selfp()];
            mp.extend(params);
            c.methods.push((MKind::Inst, F { params: mp, ret: Some(a.clone()), ..fun(&format!("m{k}")) }));
            c.props.push(Pr { name: format!("p{k}"), get_ann: Some(a.clone()), get_doc: None, set: Some((Some(a.clone()), None)) });
        }
        m.items.push(Item::Cl(c));
        case_pkg(ctx, &format!("types #{i}"), &m, true, || {
            let tops = bindings(&Config::default(), &[&top])?;
            let r = module(&tops, &top)?;
            for (f, _) in r.all_fns() {
                let b = act(f)?;
                ensure(!bind::idents(&f.ret).iter().any(|_| f.ret.contains("impl ")), || format!("{} returns {}", f.name, f.ret))?;
                for (k, (_, ty)) in f.params.iter().enumerate() {
                    let n = ty.matches("impl ").count();
                    ensure(n == 0 || (n == 1 && ty.starts_with("impl ")), || format!("{}: parameter of type {ty}", f.name))?;
                    let conv = b.converted.get(&k);
                    let opt_dict = ty.starts_with(":: std :: option :: Option") && ty.contains("types :: PyDict");
                    if n == 1 {
                        ensure(conv.is_some(), || format!("{}: parameter {k} of type {ty} is not converted: {}", f.name, f.text))?;
                    } else {
                        ensure(conv.is_none() || opt_dict, || format!("{}: parameter {k} of type {ty} is converted ({conv:?}): {}", f.name, f.text))?;
                    }
                }
            }
            // functions and methods with the same annotations have the same types
            let st = find_struct(r, "K")?;
            for k in 0..4 {
                let fns: Vec<&RFn> = r.fns.iter().collect();
                let ms: Vec<&RFn> = st.trait_impls.iter().collect();
                let (f, mm) = (find_fn(&fns, &format!("f{k}"))?, find_fn(&ms, &format!("m{k}"))?);
                let ty = |f: &RFn| f.params.iter().map(|p| p.1.clone()).collect::<Vec<_>>();
                ensure(ty(f) == ty(mm) && f.ret == mm.ret, || format!("types differ: {} and {}", f.text, mm.text))?;
                let g = find_fn(&ms, &format!("p{k}"))?;
                ensure(g.ret == f.ret, || format!("getter returns {}, function {}", g.ret, f.ret))?;
                let g = find_fn(&ms, &format!("set_p{k}"))?;
                ensure(g.params[0].1 == f.params[0].1, || format!("setter accepts {}, function {}", g.params[0].1, f.params[0].1))?;
            }
            Ok(())
        });
    }
}

/// a nested annotation: as an object, as a text, and the Rust type of returned values
fn tree(rng: &mut Rng, depth: usize, in_option: bool) -> (String, String, String) {
    let leafs = [
        ("int", "int", "i64"),
        ("str", "str", "::std::string::String"),
        ("float", "float", "f64"),
        ("bool", "bool", "bool"),
        ("_dt.datetime", "datetime.datetime", "::pyo3::Bound<'py,::pyo3::types::PyDateTime>"),
        ("_dt.date", "datetime.date", "::pyo3::Bound<'py,::pyo3::types::PyDate>"),
        ("_dt.time", "datetime.time", "::pyo3::Bound<'py,::pyo3::types::PyTime>"),
        ("slice", "slice", "::pyo3::Bound<'py,::pyo3::types::PySlice>"),
        ("complex", "complex", "::pyo3::Bound<'py,::pyo3::types::PyComplex>"),
        ("_ip.IPv4Address", "ipaddress.IPv4Address", "::std::net::Ipv4Addr"),
    ];
    let keys = [("int", "i64"), ("str", "::std::string::String"), ("bool", "bool")];
    let sub = |rng: &mut Rng| tree(rng, depth - 1, false);
    match if depth == 0 { 0 } else { rng.below(if in_option { 10 } else { 12 }) } {
        0 | 1 => {
            let l = rng.pick(&leafs);
            (s(l.0), s(l.1), s(l.2))
        }
        2 | 3 => {
            let (k, v) = (rng.pick(&keys), sub(rng));
            (format!("_t.Dict[{}, {}]", k.0, v.0), format!("dict[{}, {}]", k.0, v.1), format!("::std::collections::HashMap<{},{}>", k.1, v.2))
        }
        4 | 5 => {
            let a = sub(rng);
            let w = *rng.pick(&[("_t.List", "list"), ("_t.Sequence", "Sequence"), ("_t.Iterable", "Iterable"), ("_t.Iterator", "Iterator")]);
            (format!("{}[{}]", w.0, a.0), format!("{}[{}]", w.1, a.1), format!("Vec<{}>", a.2))
        }
        6 => {
            let (a, w) = (rng.pick(&keys), rng.pick(&[("Set", "set"), ("FrozenSet", "frozenset")]));
            (format!("_t.{}[{}]", w.0, a.0), format!("{}[{}]", w.1, a.0), format!("::std::collections::HashSet<{}>", a.1))
        }
        7..=9 => {
            let n = 2 + rng.below(3);
            let v: Vec<_> = (0..n).map(|_| sub(rng)).collect();
            let j = |f: &dyn Fn(&(String, String, String)) -> String, sep: &str| v.iter().map(f).collect::<Vec<_>>().join(sep);
            (format!("_t.Tuple[{}]", j(&|x| x.0.clone(), ", ")), format!("tuple[{}]", j(&|x| x.1.clone(), ", ")), format!("({})", j(&|x| x.2.clone(), ",")))
        }
        _ => {
            let a = tree(rng, depth - 1, true);
            let t = if rng.flip() { format!("{} | None", a.1) } else { format!("None | {}", a.1) };
            (format!("_t.Optional[{}]", a.0), t, format!("::std::option::Option<{}>", a.2))
        }
    }
}

fn structure(ctx: &mut Ctx, text: bool) {
    rule(ctx, "functions, methods and properties with nested annotations through the whole generator: the Rust types of the returned values have the same structure; non-trivial: the annotation is nested");
    for i in 0..ctx.pick_n(200, 5000) {
        let mut rng = Rng::new(ctx.seed * 1_000_183 + i as u64);
        let top = fresh();
        let mut m = leaf(&top);
        m.items.push(Item::Raw("import datetime as _dt, ipaddress as _ip".into()));
        let mut c = class("K");
        let mut want = Vec::new();
        for k in 0..6 {
            let d = rng.below(5);
            let a = tree(&mut rng, d, false);
            let r = if text { py_lit(&a.1) } else { a.0.clone() };
            m.items.push(Item::Fn(F { ret: Some(r.clone()), ..fun(&format!("f{k}")) }));
            c.methods.push((MKind::Inst, F { params: vec![selfp()], ret: Some(r.clone()), ..fun(&format!("m{k}")) }));
            c.props.push(Pr { name: format!("p{k}"), get_ann: Some(r), get_doc: None, set: None });
            want.push(a);
        }
        m.items.push(Item::Cl(c));
        case_pkg(ctx, &format!("annotations #{i}"), &m, true, || {
            let tops = bindings(&Config::default(), &[&top])?;
            let r = module(&tops, &top)?;
            let st = find_struct(r, "K")?;
            let fns: Vec<&RFn> = r.fns.iter().collect();
            let ms: Vec<&RFn> = st.trait_impls.iter().collect();
            for (k, a) in want.iter().enumerate() {
                for f in [find_fn(&fns, &format!("f{k}"))?, find_fn(&ms, &format!("m{k}"))?, find_fn(&ms, &format!("p{k}"))?] {
                    let got = f.ret.replace(' ', "");
                    let full = format!("::pyo3::PyResult<{}>", a.2);
                    ensure(got == full || got == a.2 || got == format!("->{full}"), || {
                        format!("{} annotated with {} returns {got}, expected {full}", f.name, if text { &a.1 } else { &a.0 })
                    })?;
                }
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------------
// Documentation

fn docs(ctx: &mut Ctx) {
    rule(ctx, "docstrings of modules, classes, functions, methods, getters and setters through the whole generator; non-trivial: the text has white space or markup");
    let frags = [" ", "\n", "/", "`", "``", "a", "text", "\t", "\u{3000}", "\r\n", "\n\n", "//", "é", "  ", "\\", "\"", "None", "None "];
    for i in 0..ctx.pick_n(240, 6000) {
        let mut rng = Rng::new(ctx.seed * 1_000_171 + i as u64);
        let text = |rng: &mut Rng| -> Option<String> {
            if rng.chance(1, 6) {
                return None;
            }
            let k = rng.below(9);
            Some((0..k).map(|_| *rng.pick(&frags)).collect())
        };
        let top = fresh();
        let mut m = pkg(&top);
        m.doc = text(&mut rng);
        let f = F { doc: text(&mut rng), ..fun("f") };
        let mut c = class("K");
        c.doc = text(&mut rng);
        let me = F { doc: text(&mut rng), params: vec![selfp()], ..fun("m") };
        let st = F { doc: text(&mut rng), ..fun("st") };
        let pr = Pr { name: s("p"), get_doc: text(&mut rng), set: Some((None, text(&mut rng))), get_ann: None };
        let ro = Pr { name: s("ro"), get_doc: text(&mut rng), set: None, get_ann: None };
        c.methods.push((MKind::Inst, me.clone()));
        c.methods.push((MKind::Static, st.clone()));
        c.props.push(pr.clone());
        c.props.push(ro.clone());
        let cdoc = c.doc.clone();
        let fdoc = f.doc.clone();
        let mdoc = m.doc.clone();
        m.items.push(Item::Fn(f));
        m.items.push(Item::Cl(c));
        case_pkg(ctx, &format!("docs #{i}"), &m, true, || {
            let tops = bindings(&Config::default(), &[&top])?;
            let r = module(&tops, &top)?;
            let check = |what: &str, got: &[String], src: &Option<String>| -> Result<(), String> {
                let src = src.as_ref().filter(|x| !x.is_empty() && *x != "None");
                match src {
                    None => ensure(got.is_empty(), || format!("{what}: documentation {got:?} without docstring")),
                    Some(x) => {
                        // Python reads `\r\n` in a file's string escapes as written
                        ensure(got.len() == 1, || format!("{what}: {} doc attributes", got.len()))?;
                        crate::doccheck::check_docstring(x, &got[0]).map_err(|e| format!("{what}: {e}"))
                    }
                }
            };
            check("module", &r.docs, &mdoc)?;
            let fns: Vec<&RFn> = r.fns.iter().collect();
            check("function", &find_fn(&fns, "f")?.docs, &fdoc)?;
            let k = find_struct(r, "K")?;
            check("class", &k.docs, &cdoc)?;
            let ms: Vec<&RFn> = k.trait_impls.iter().collect();
            let is: Vec<&RFn> = k.inherent.iter().collect();
            check("method", &find_fn(&ms, "m")?.docs, &me.doc)?;
            check("static method", &find_fn(&is, "st")?.docs, &st.doc)?;
            let real = |x: &Option<String>| x.clone().filter(|x| !x.is_empty() && x != "None");
            let (g, st) = (real(&pr.get_doc), pr.set.as_ref().and_then(|x| real(&x.1)));
            check("getter", &find_fn(&ms, "p")?.docs, &g.clone().or(st.clone()))?;
            check("setter", &find_fn(&ms, "set_p")?.docs, &st.or(g))?;
            check("read-only getter", &find_fn(&ms, "ro")?.docs, &ro.get_doc)?;
            // and none at all when switched off
            let tops = bindings(&Config::builder().generate_docs(false).build(), &[&top])?;
            let r = module(&tops, &top)?;
            ensure(r.docs.is_empty() && r.all_fns().iter().all(|f| f.0.docs.is_empty()), || s("documentation although it is switched off"))
        });
    }
}

// ---------------------------------------------------------------------------------------------
// Streams

fn streams(ctx: &mut Ctx) {
    rule(ctx, "packages that print, replace the streams or fail while they are parsed, through `module`, `module_name` and `module_from_str`, under all suppression flags; non-trivial: parsing fails or prints");
    let steps = ["quiet", "prints", "raises", "bad-getattr", "bad-signature", "raises-base", "sub-prints-lots", "bad-doc", "bad-iter"];
    for (i, step) in steps.iter().enumerate() {
        for out in [false, true] {
            for err in [false, true] {
                for how in ["module", "module_name", "modules"] {
                    let top = fresh();
                    let mut m = pkg(&top);
                    m.items.push(Item::Fn(fun("f")));
                    let mut sub = leaf("sub");
                    sub.items.push(Item::Fn(fun("g")));
                    let body = match *step {
                        "prints" => "_b.print('out')\n_b.print('err', file=_b.__import__('sys').stderr)",
                        "raises" => "raise _b.ValueError('no')",
                        "raises-base" => "raise _b.KeyboardInterrupt()",
                        "sub-prints-lots" => "_s = _b.__import__('sys')\nfor _i in range(50):\n    _s.stdout.write('x' * 100)\n    _s.stderr.write('y')\n    _s.stdout.flush()\n    _s.stderr.flush()",
                        "bad-getattr" => "class K:\n    def __init__(self): pass\n    @_b.property\n    def __doc__(self): raise _b.ValueError('x')\nk = K()",
                        "bad-signature" => "class _D(_b.type):\n    pass\nclass _A:\n    def __getattr__(self, n): raise _b.RuntimeError(n)\ndef h(): pass\nh.__signature__ = 3",
                        "bad-doc" => "class _M(_b.type):\n    @_b.property\n    def __doc__(cls): raise _b.RuntimeError('doc')\nclass K(metaclass=_M): pass",
                        "bad-iter" => "def h(): pass\nclass _S:\n    parameters = 3\n    return_annotation = 1\n    empty = 1\nh.__signature__ = _S()",
                        _ => "x = 1",
                    };
                    sub.items.push(Item::Raw(s(body)));
                    m.subs.push(sub);
                    case_pkg(ctx, &format!("streams {i} {step} stdout={out} stderr={err} {how}"), &m, *step != "quiet", || {
                        Python::with_gil(|py| -> Result<(), String> {
                            let e = |e: PyErr| e.to_string();
                            let sys = py.import_bound("sys").map_err(e)?;
                            let saved = (sys.getattr("stdout").map_err(e)?, sys.getattr("stderr").map_err(e)?);
                            let io = py.import_bound("io").map_err(e)?;
                            let (o, r) = (io.call_method0("StringIO").map_err(e)?, io.call_method0("StringIO").map_err(e)?);
                            let target = py.import_bound(top.as_str()).map_err(e)?;
                            sys.setattr("stdout", &o).map_err(e)?;
                            sys.setattr("stderr", &r).map_err(e)?;
                            let cfg = Config::builder().suppress_python_stdout(out).suppress_python_stderr(err).build();
                            let result = crate::core::guarded(|| {
                                let c = Codegen::new(cfg);
                                match how {
                                    "module" => c.module(&target).map(|_| ()).map_err(|e| e.to_string()),
                                    "modules" => c.modules([target.clone()]).map(|_| ()).map_err(|e| e.to_string()),
                                    _ => c.module_name(&top).map(|_| ()).map_err(|e| e.to_string()),
                                }
                            });
                            let now = (sys.getattr("stdout").map_err(e)?, sys.getattr("stderr").map_err(e)?);
                            sys.setattr("stdout", &saved.0).map_err(e)?;
                            sys.setattr("stderr", &saved.1).map_err(e)?;
                            let result = result.map_err(|p| format!("generator panicked: {p}"))?;
                            ensure(now.0.is(&o), || format!("sys.stdout was not restored (result {result:?})"))?;
                            ensure(now.1.is(&r), || format!("sys.stderr was not restored (result {result:?})"))?;
                            let text = |x: &Bound<PyAny>| x.call_method0("getvalue").and_then(|v| v.extract::<String>()).unwrap_or_default();
                            let (to, te) = (text(&o), text(&r));
                            ensure(!out || to.is_empty(), || format!("suppressed stdout received {to:?}"))?;
                            ensure(!err || te.is_empty(), || format!("suppressed stderr received {te:?}"))?;
                            if *step == "prints" {
                                ensure(out || to == "out\n", || format!("stdout received {to:?} although it is not suppressed"))?;
                                ensure(err || te == "err\n", || format!("stderr received {te:?} although it is not suppressed"))?;
                            }
                            if ["quiet", "prints", "raises", "sub-prints-lots"].contains(step) {
                                ensure(result.is_ok(), || format!("failed: {result:?}"))?;
                            }
                            Ok(())
                        })
                    });
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Kinds

fn kinds(ctx: &mut Ctx) {
    rule(ctx, "modules and classes with one attribute of each kind (import, class, function, built-in, bound method, partial, type variable, value, local class or function); what is generated for it is compared with its kind; non-trivial: all");
    // (text, kind in a module, kind in a class)
    let things: &[(&str, &str, &str)] = &[
        ("def X(a): pass", "function", "method"),
        ("X = lambda a: 1", "function", "method"),
        ("class X: pass", "class", "none"),
        ("X = _b.type('X', (), {'__module__': __name__})", "class", "none"),
        ("X = _b.len", "function", "method"),
        ("X = _b.max", "function", "none|method"), // no readable signature: the kind of method is unknown
        ("X = _f.partial(_b.int, base=2)", "function", "none"),
        ("X = _t.TypeVar('X')", "typevar", "none"),
        ("X = _t.List[int]", "none", "none"), // defined in `typing`: filtered
        ("X = list[int]", "typevar", "none"),
        ("X = 1", "property", "property"),
        ("X = 'text'", "property", "property"),
        ("X = None", "property", "property"),
        ("X = [1]", "property", "property"),
        ("class _Q: pass\nX = _Q()\ndel _Q", "property", "property"),
        ("class _Q:\n    def m(self): pass\nX = _Q().m\ndel _Q", "none", "method"),
        ("def _mk():\n    class L: pass\n    return L\nX = _mk()\ndel _mk", "class", "none"),
        ("def _mk():\n    def l(a): pass\n    return l\nX = _mk()\ndel _mk", "function", "method"),
        ("import json as X", "none", "none"),
        ("from json import loads as X", "none", "method"),
        ("from json import JSONDecoder as X", "none", "none"),
        ("X = _f.lru_cache(lambda: 1)", "property", "property"),
        ("X = _b.str.join", "property", "property"),
        ("X = _b.property(lambda self: 1)", "property", "property"),
        ("import enum as _e\nclass X(_e.Enum):\n    A = 1", "class", "none"),
        ("import abc as _a\nclass X(metaclass=_a.ABCMeta): pass", "class", "none"),
        ("X = _b.range(3)", "property", "property"),
        ("X = _b.int", "none", "none"),
        ("async def X(a): pass", "function", "method"),
        ("def X(a):\n    yield", "function", "method"),
    ];
    for (code, in_module, in_class) in things {
        for name in ["Xx", "match", "fn"] {
            let mut text = code.replace("X", name);
            text = text.replace("TypeVar('X')", &format!("TypeVar('{name}')"));
            let top = fresh();
            let mut m = pkg(&top);
            m.items.push(Item::Raw(text.clone()));
            let mut c = class("Owner");
            c.raw.push(text.clone());
            m.items.push(Item::Cl(c));
            case_pkg(ctx, &format!("kind of {code} as {name}"), &m, true, || {
                let tops = bindings(&Config::default(), &[&top])?;
                let r = module(&tops, &top)?;
                let rust = spelling(name).unwrap();
                let kind_of = |fns: &[RFn], structs: &[bind::RStruct], types: &[String], method: bool| -> String {
                    let mut k: Vec<&str> = Vec::new();
                    for f in fns {
                        match act(f).map(|b| b.act.clone()) {
                            Ok(Act::Get { attr, .. }) if attr == name => k.push("property"),
                            Ok(Act::Call { method: Some(x), .. }) if x == name => k.push(if method { "method" } else { "function" }),
                            _ => {}
                        }
                    }
                    k.extend(structs.iter().filter(|x| x.name == rust).map(|_| "class"));
                    k.extend(types.iter().filter(|x| **x == rust).map(|_| "typevar"));
                    if k.is_empty() {
                        s("none")
                    } else {
                        k.join("+")
                    }
                };
                let got = kind_of(&r.fns, &r.structs, &r.types, false);
                ensure(in_module.split('|').any(|k| k == got), || format!("in a module: generated as {got}, expected {in_module}"))?;
                let st = find_struct(r, "Owner")?;
                let all: Vec<RFn> = st.trait_impls.iter().chain(&st.inherent).cloned().collect();
                let got = kind_of(&all, &[], &[], true);
                ensure(in_class.split('|').any(|k| k == got), || format!("in a class: generated as {got}, expected {in_class}"))
            });
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Files

fn build(ctx: &mut Ctx) {
    rule(ctx, "builds of random packages into new, existing, empty, longer, read-only-directory and directory paths, and builds that fail (no module, a module name without Rust spelling, a parameter name without Rust spelling, an unimportable parent); the file is compared with the generated text; non-trivial: a file existed before, or the build fails");
    for i in 0..ctx.pick_n(90, 2500) {
        let mut rng = Rng::new(ctx.seed * 1_000_181 + i as u64);
        let top = fresh();
        let mut counter = 0;
        let mut m = random_tree(&mut rng, &top, 2, &mut counter);
        m.pkg = true;
        if rng.flip() {
            m.doc = Some(s("Ünïcode \"quotes\" and \\ backslash"));
        }
        let failure = ["none", "none", "no-module", "module-name", "sub-name", "no-parent"][rng.below(6)];
        let before = ["absent", "empty", "short", "long", "directory", "no-directory"][rng.below(6)];
        match failure {
            "sub-name" => m.subs.push(leaf("super")),
            "module-name" => {}
            _ => {}
        }
        let input = format!("failure={failure} before={before}\n{}", describe(&m, ""));
        let scratch = ctx.scratch.clone();
        ctx.case(&format!("build #{i}"), &input, failure != "none" || before != "absent", || {
            let _w = Written::new(&scratch, &m);
            let dir = scratch.join(format!("build{i}"));
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            let r = build_case(&dir, &top, failure, before);
            std::fs::remove_dir_all(&dir).ok();
            r
        });
    }
}

fn listing(dir: &std::path::Path) -> Vec<(String, Option<Vec<u8>>)> {
    let mut v: Vec<(String, Option<Vec<u8>>)> = std::fs::read_dir(dir)
        .map(|d| {
            d.flatten()
                .map(|e| {
                    let name = e.file_name().to_string_lossy().to_string();
                    let data = if e.path().is_file() { std::fs::read(e.path()).ok() } else { None };
                    (name, data)
                })
                .collect()
        })
        .unwrap_or_default();
    v.sort();
    v
}

fn build_case(dir: &std::path::Path, top: &str, failure: &str, before: &str) -> Result<(), String> {
    let e = |e: std::io::Error| e.to_string();
    let mut path = dir.join("bindings.rs");
    match before {
        "empty" => std::fs::write(&path, "").map_err(e)?,
        "short" => std::fs::write(&path, "old").map_err(e)?,
        "long" => std::fs::write(&path, "old contents ".repeat(200_000)).map_err(e)?,
        "directory" => std::fs::create_dir(&path).map_err(e)?,
        "no-directory" => path = dir.join("missing").join("bindings.rs"),
        _ => {}
    }
    std::fs::write(dir.join("neighbour.txt"), "keep").map_err(e)?;
    let mut c = Codegen::new(Config::default());
    match failure {
        "no-module" => {}
        "no-parent" => {
            c = c.module_from_str("x = 1", &format!("{top}_missing.child")).map_err(|e| e.to_string())?;
        }
        "module-name" => {
            c = c.module_from_str("x = 1", &format!("{top}-dash")).map_err(|e| e.to_string())?;
        }
        _ => {
            c = c.module_name(top).map_err(|e| e.to_string())?;
        }
    }
    let before_list = listing(dir);
    let want = c.clone().generate().map(|t| t.to_string()).map_err(|e| e.to_string());
    let result = c.build(&path);
    let after = listing(dir);
    if failure != "none" {
        ensure(want.is_err(), || format!("generation succeeds although it should fail ({failure})"))?;
    }
    match (want, result) {
        (Ok(text), Ok(())) => {
            ensure(before != "directory" && before != "no-directory", || s("writing to an impossible path succeeds"))?;
            let got = std::fs::read(&path).map_err(e)?;
            ensure(got == text.as_bytes(), || format!("the file has {} bytes and differs from the generated text of {} bytes", got.len(), text.len()))?;
            let strip = |v: &[(String, Option<Vec<u8>>)]| v.iter().filter(|x| x.0 != "bindings.rs").cloned().collect::<Vec<_>>();
            ensure(strip(&before_list) == strip(&after), || format!("other files changed: {:?}", after.iter().map(|x| &x.0).collect::<Vec<_>>()))?;
            ensure(bind::parse(&text).is_ok(), || s("the written text does not parse"))
        }
        (Ok(_), Err(x)) => {
            ensure(before == "directory" || before == "no-directory", || format!("building failed: {x}"))?;
            ensure(before_list == after, || s("a failing build changed files"))
        }
        (Err(_), Err(_)) => ensure(before_list == after, || {
            format!("a failing generation changed files: {:?}", after.iter().map(|x| (&x.0, x.1.as_ref().map(|y| y.len()))).collect::<Vec<_>>())
        }),
        (Err(x), Ok(())) => Err(format!("generation fails ({x}) but building succeeds")),
    }
}

// ---------------------------------------------------------------------------------------------
// Embedded source code

fn embedding(ctx: &mut Ctx) {
    rule(ctx, "source texts with quotes, escapes, line endings and other scripts, under plain, keyword, dotted and repeated module names, mixed with modules added by name; embedding functions are read back; non-trivial: the text or the name needs escaping, or several modules are added");
    let texts: &[&str] = &[
        "x = 1\n", "def f(a, b=1):\n    '''Doc \"quoted\" \\\\ text'''\n    return a\n", "s = \"quo\\\"te\"\n", "t = 'é日本\u{1F600}'\n", "\r\nx = 1\r\n", "# only a comment", "",
        "x = '''\n  multi\n line'''\n\n\n", "r = r'\\d{x}'\nbr = '{{}} #name $x %s'\n", "class K:\n    def __init__(self): pass\n    def m(self, match): pass\n", "\tx = 1".trim_start(), "x = 1 # trailing   \n   \n",
        "'''Module doc'''\ny = 2", "c = '\\x00'\n", "d = '\u{7f}\u{80}\u{2028}'\n", "raw = '\"#\"##'\n",
    ];
    let names: &[&str] = &["plain", "type", "match", "fn", "async_", "é", "Mixed_Case", "x1", "dyn", "mod"];
    for i in 0..ctx.pick_n(160, 4000) {
        let mut rng = Rng::new(ctx.seed * 1_000_187 + i as u64);
        let base = fresh();
        let mut host = pkg(&base);
        host.items.push(Item::Fn(fun("hosted")));
        let mut hsub = leaf("regular");
        hsub.items.push(Item::Fn(fun("g")));
        host.subs.push(hsub);
        // (name, text)
        let mut sources: Vec<(String, String)> = Vec::new();
        for _ in 0..1 + rng.below(3) {
            let n = rng.pick(names);
            let name = match rng.below(4) {
                0 => format!("{base}.{n}"),
                1 => format!("{base}.regular"),
                2 => format!("{n}_{base}"),
                _ => format!("{base}_{n}"),
            };
            let mut text = s(rng.pick(texts));
            if rng.flip() {
                text.push_str(rng.pick(texts));
            }
            if sources.iter().all(|x| x.0 != name) {
                sources.push((name, text));
            }
        }
        // the bare keyword itself, once
        let bare = if rng.chance(1, 3) { Some(s(rng.pick(&["dyn", "mod", "trait", "impl", "extern", "unsafe"]))) } else { None };
        if let Some(b) = &bare {
            sources.push((b.clone(), s("x = 1\ndef f(): pass\n")));
        }
        let add_host = rng.flip();
        let host_first = rng.flip();
        let invalid = |t: &str| py_text(&format!("compile({}, 'x', 'exec')", py_lit(t))).is_err();
        sources.retain(|x| !invalid(&x.1));
        if sources.is_empty() {
            continue;
        }
        let input = format!("sources={sources:?} host added: {add_host} (first: {host_first})\n{}", describe(&host, ""));
        let scratch = ctx.scratch.clone();
        ctx.case(&format!("embedding #{i}"), &input, true, || {
            let _w = Written::new(&scratch, &host);
            let run = || -> Result<(), String> {
                let e = |e: pyo3_bindgen_engine::PyBindgenError| e.to_string();
                let mut c = Codegen::new(Config::default());
                if add_host && host_first {
                    c = c.module_name(&base).map_err(e)?;
                }
                for (n, t) in &sources {
                    c = c.module_from_str(t, n).map_err(e)?;
                }
                if add_host && !host_first {
                    c = c.module_name(&base).map_err(e)?;
                }
                let text = c.generate().map_err(e)?.to_string();
                let tops = bind::parse(&text)?;
                let mut seen: Vec<(String, String)> = Vec::new();
                for (path, r) in bind::all_modules(&tops) {
                    let dotted = path.join(".");
                    for f in &r.fns {
                        let embeds = f.name == "pyo3_embed_python_source_code";
                        match &act(f)?.act {
                            Act::Embed { source, key, module, file } => {
                                ensure(embeds && f.public && f.params.is_empty(), || format!("embedding function {}", f.name))?;
                                ensure(*key == dotted && *module == dotted, || format!("in {dotted}: registers {key:?} as module {module:?}"))?;
                                ensure(*file == format!("{dotted}/__init__.py"), || format!("in {dotted}: file name {file:?}"))?;
                                seen.push((dotted.clone(), source.clone()));
                            }
                            _ => ensure(!embeds, || format!("{dotted} has an embedding function that does not embed"))?,
                        }
                    }
                }
                for (n, t) in &sources {
                    let k: Vec<&(String, String)> = seen.iter().filter(|x| x.0 == *n).collect();
                    ensure(k.len() == 1, || format!("{n} has {} embedding functions", k.len()))?;
                    ensure(k[0].1 == *t, || format!("{n} embeds {:?} instead of {t:?}", k[0].1))?;
                }
                ensure(seen.len() == sources.len(), || format!("embedding functions in {:?}, expected {:?}", seen.iter().map(|x| &x.0).collect::<Vec<_>>(), sources.iter().map(|x| &x.0).collect::<Vec<_>>()))
            };
            let r = run();
            for (n, _) in &sources {
                forget(n.split('.').next().unwrap());
            }
            r
        });
    }
}
