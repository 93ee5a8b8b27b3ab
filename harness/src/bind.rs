//! Reads generated bindings back: the module structure, and what each generated body does to Python.
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit::Visit;

#[derive(Debug, Clone, Default)]
pub struct RMod {
    pub name: String,
    pub docs: Vec<String>,
    pub fns: Vec<RFn>,
    pub structs: Vec<RStruct>,
    pub types: Vec<String>,
    pub uses: Vec<RUse>,
    pub mods: Vec<RMod>,
    pub other: Vec<String>,
    /// item texts in order, without nested modules
    pub texts: Vec<String>,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct RUse {
    pub path: Vec<String>,
    pub alias: Option<String>,
    pub public: bool,
}

#[derive(Debug, Clone, Default)]
pub struct RStruct {
    pub name: String,
    pub docs: Vec<String>,
    pub object_name: Option<String>,
    pub trait_name: Option<String>,
    pub inherent: Vec<RFn>,
    pub trait_decls: Vec<RFn>,
    pub trait_impls: Vec<RFn>,
    pub text: String,
}

#[derive(Debug, Clone)]
pub struct RFn {
    pub name: String,
    pub public: bool,
    pub docs: Vec<String>,
    pub has_self: bool,
    pub has_py: bool,
    pub params: Vec<(String, String)>,
    pub ret: String,
    pub body: Option<Result<Body, String>>,
    pub text: String,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Recv {
    SelfObj,
    Lookup { import: String, attrs: Vec<String> },
}
impl Recv {
    pub fn dotted(&self) -> String {
        match self {
            Recv::SelfObj => "self".into(),
            Recv::Lookup { import, attrs } => {
                let mut v = vec![import.clone()];
                v.extend(attrs.iter().cloned());
                v.join(".")
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Arg {
    One(usize),
    Spread(usize),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Kw {
    Named(String, usize),
    Spread(usize),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Act {
    Call { recv: Recv, method: Option<String>, args: Vec<Arg>, kwargs: Vec<Kw> },
    Get { recv: Recv, attr: String },
    Set { recv: Recv, attr: String, value: usize },
    Embed { source: String, key: String, file: String, module: String },
}

#[derive(Debug, Clone, PartialEq)]
pub struct Body {
    pub act: Act,
    /// parameters converted to Python objects before use, with the conversion
    pub converted: BTreeMap<usize, String>,
}

pub fn plain(ident: &str) -> String {
    ident.strip_prefix("r#").unwrap_or(ident).to_string()
}

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

pub fn docs(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter(|a| a.path().is_ident("doc"))
        .filter_map(|a| match &a.meta {
            syn::Meta::NameValue(nv) => match &nv.value {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}

/// Parse generated bindings
pub fn parse(text: &str) -> Result<Vec<RMod>, String> {
    let file: syn::File = syn::parse_str(text).map_err(|e| format!("generated code does not parse: {e}"))?;
    let mut out = Vec::new();
    for item in &file.items {
        match item {
            syn::Item::Mod(m) => out.push(module(m)?),
            other => return Err(format!("unexpected top-level item: {}", toks(other))),
        }
    }
    Ok(out)
}

fn use_paths(tree: &syn::UseTree, prefix: &mut Vec<String>, public: bool, out: &mut Vec<RUse>) -> Result<(), String> {
    match tree {
        syn::UseTree::Path(p) => {
            prefix.push(p.ident.to_string());
            use_paths(&p.tree, prefix, public, out)?;
            prefix.pop();
        }
        syn::UseTree::Name(n) => {
            let mut path = prefix.clone();
            path.push(n.ident.to_string());
            out.push(RUse { path, alias: None, public });
        }
        syn::UseTree::Rename(r) => {
            let mut path = prefix.clone();
            path.push(r.ident.to_string());
            out.push(RUse { path, alias: Some(r.rename.to_string()), public });
        }
        syn::UseTree::Group(g) => {
            for t in &g.items {
                use_paths(t, prefix, public, out)?;
            }
        }
        syn::UseTree::Glob(_) => return Err("glob import".into()),
    }
    Ok(())
}

fn module(m: &syn::ItemMod) -> Result<RMod, String> {
    let mut r = RMod { name: m.ident.to_string(), docs: docs(&m.attrs), ..Default::default() };
    let Some((_, items)) = &m.content else {
        return Err(format!("module {} has no body", m.ident));
    };
    let mut structs: Vec<RStruct> = Vec::new();
    for item in items {
        if !matches!(item, syn::Item::Mod(_)) {
            r.texts.push(toks(item));
        }
        match item {
            syn::Item::Mod(m) => r.mods.push(module(m)?),
            syn::Item::Fn(f) => r.fns.push(function(&f.attrs, Some(&f.vis), &f.sig, Some(&f.block))),
            syn::Item::Type(t) => r.types.push(t.ident.to_string()),
            syn::Item::Use(u) => use_paths(&u.tree, &mut Vec::new(), matches!(u.vis, syn::Visibility::Public(_)), &mut r.uses)?,
            syn::Item::Struct(s) => structs.push(RStruct {
                name: s.ident.to_string(),
                docs: docs(&s.attrs),
                text: toks(s),
                ..Default::default()
            }),
            syn::Item::Macro(mac) => {
                // pyobject_native_type_info!(Name, .., Some("python name"))
                let parts: Vec<proc_macro2::TokenTree> = mac.mac.tokens.clone().into_iter().collect();
                let name = parts.first().map(|t| t.to_string()).unwrap_or_default();
                let mac_name = mac.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if let Some(s) = structs.iter_mut().rev().find(|s| s.name == name) {
                    s.text.push_str(&toks(mac));
                    if mac_name == "pyobject_native_type_info" {
                        struct Lits(Vec<String>);
                        fn walk(ts: proc_macro2::TokenStream, out: &mut Lits) {
                            for t in ts {
                                match t {
                                    proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                                    proc_macro2::TokenTree::Literal(l) => {
                                        if let Ok(s) = syn::parse_str::<syn::LitStr>(&l.to_string()) {
                                            out.0.push(s.value());
                                        }
                                    }
                                    _ => {}
                                }
                            }
                        }
                        let mut lits = Lits(Vec::new());
                        walk(mac.mac.tokens.clone(), &mut lits);
                        s.object_name = lits.0.last().cloned();
                    }
                } else {
                    r.other.push(toks(mac));
                }
            }
            syn::Item::Impl(i) => {
                let fns: Vec<RFn> = i
                    .items
                    .iter()
                    .filter_map(|x| match x {
                        syn::ImplItem::Fn(f) => Some(function(&f.attrs, Some(&f.vis), &f.sig, Some(&f.block))),
                        _ => None,
                    })
                    .collect();
                let self_ty = toks(&i.self_ty);
                match &i.trait_ {
                    None => match structs.iter_mut().find(|s| s.name == self_ty) {
                        Some(s) => {
                            s.inherent.extend(fns);
                            s.text.push_str(&toks(i));
                        }
                        None => r.other.push(toks(i)),
                    },
                    Some((_, path, _)) => {
                        let tr = toks(path);
                        let want = |n: &str| self_ty.replace(' ', "") == format!("::pyo3::Bound<'_,{n}>");
                        match structs.iter_mut().find(|s| want(&s.name)) {
                            Some(s) => {
                                s.text.push_str(&toks(i));
                                if s.trait_name.as_deref() != Some(tr.as_str()) {
                                    r.other.push(toks(i));
                                } else {
                                    s.trait_impls.extend(fns);
                                }
                            }
                            None => r.other.push(toks(i)),
                        }
                    }
                }
            }
            syn::Item::Trait(t) => {
                let fns: Vec<RFn> = t
                    .items
                    .iter()
                    .filter_map(|x| match x {
                        syn::TraitItem::Fn(f) => Some(function(&f.attrs, None, &f.sig, f.default.as_ref())),
                        _ => None,
                    })
                    .collect();
                // the struct the trait belongs to is the last one without a trait
                let tn = t.ident.to_string();
                match structs.iter_mut().find(|s| s.trait_name.is_none() && plain(&tn) == plain(&s.name) + "Methods") {
                    Some(s) => {
                        s.text.push_str(&toks(t));
                        s.trait_name = Some(tn);
                        s.trait_decls.extend(fns);
                    }
                    None => r.other.push(toks(t)),
                }
            }
            other => r.other.push(toks(other)),
        }
    }
    r.structs = structs;
    Ok(r)
}

fn function(attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, sig: &syn::Signature, block: Option<&syn::Block>) -> RFn {
    let mut f = RFn {
        name: sig.ident.to_string(),
        public: vis.is_none_or(|v| matches!(v, syn::Visibility::Public(_))),
        docs: docs(attrs),
        has_self: false,
        has_py: false,
        params: Vec::new(),
        ret: match &sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => toks(t),
        },
        body: None,
        text: toks(sig) + &block.map(toks).unwrap_or_default(),
    };
    for (i, inp) in sig.inputs.iter().enumerate() {
        match inp {
            syn::FnArg::Receiver(_) => f.has_self = true,
            syn::FnArg::Typed(t) => {
                let name = toks(&t.pat);
                if i == 0 && name == "py" {
                    f.has_py = true;
                } else {
                    f.params.push((name, toks(&t.ty)));
                }
            }
        }
    }
    f.body = block.map(|b| body(b, &f));
    f
}

// ---- bodies ------------------------------------------------------------------------------------

struct Interp {
    env: BTreeMap<String, usize>,
    converted: BTreeMap<usize, String>,
    py: bool,
    consts: BTreeMap<String, String>,
}

fn path_of(e: &syn::Expr) -> Option<Vec<String>> {
    match e {
        syn::Expr::Path(p) => Some(p.path.segments.iter().map(|s| s.ident.to_string()).collect()),
        _ => None,
    }
}

fn ident_of(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        syn::Expr::Reference(r) => ident_of(&r.expr),
        syn::Expr::Paren(p) => ident_of(&p.expr),
        _ => None,
    }
}

/// `a::b::c(args)` -> ("c", "b", args)
fn call_of(e: &syn::Expr) -> Option<(String, String, Vec<&syn::Expr>)> {
    match e {
        syn::Expr::Call(c) => {
            let p = path_of(&c.func)?;
            let n = p.len();
            Some((p[n - 1].clone(), if n > 1 { p[n - 2].clone() } else { String::new() }, c.args.iter().collect()))
        }
        syn::Expr::Reference(r) => call_of(&r.expr),
        syn::Expr::Paren(r) => call_of(&r.expr),
        _ => None,
    }
}

fn method_of(e: &syn::Expr) -> Option<(String, &syn::Expr, Vec<&syn::Expr>)> {
    match e {
        syn::Expr::MethodCall(m) => Some((m.method.to_string(), &m.receiver, m.args.iter().collect())),
        syn::Expr::Reference(r) => method_of(&r.expr),
        syn::Expr::Paren(r) => method_of(&r.expr),
        _ => None,
    }
}

fn try_of(e: &syn::Expr) -> Option<&syn::Expr> {
    match e {
        syn::Expr::Try(t) => Some(&t.expr),
        syn::Expr::Reference(r) => try_of(&r.expr),
        syn::Expr::Paren(r) => try_of(&r.expr),
        _ => None,
    }
}

/// `intern!(py, "x")` or a string literal
fn name_of(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Macro(m) if m.mac.path.segments.last().is_some_and(|s| s.ident == "intern") => {
            use syn::parse::Parser;
            let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
                .parse2(m.mac.tokens.clone())
                .ok()?;
            if args.len() != 2 {
                return None;
            }
            let first = toks(&args[0]).replace(' ', "");
            if first != "py" && first != "self.py()" {
                return None;
            }
            lit_of(&args[1])
        }
        e => lit_of(e),
    }
}

fn lit_of(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
        syn::Expr::Reference(r) => lit_of(&r.expr),
        _ => None,
    }
}

impl Interp {
    fn is_py(&self, e: &syn::Expr) -> bool {
        ident_of(e).as_deref() == Some("py") && self.py
            || method_of(e).is_some_and(|(n, r, a)| n == "py" && a.is_empty() && ident_of(r).as_deref() == Some("self"))
    }

    /// the parameter whose (possibly converted) value `e` is
    fn value(&mut self, e: &syn::Expr) -> Option<usize> {
        if let Some(i) = ident_of(e) {
            return self.env.get(&i).copied();
        }
        if let Some((name, _, args)) = call_of(e) {
            if (name == "into_py" || name == "into_py_dict_bound" || name == "to_object") && args.len() == 2 && self.is_py(args[1]) {
                let v = self.value(args[0])?;
                if name != "to_object" {
                    let how = if name == "into_py" { toks(e) } else { name.clone() };
                    let how = if how.contains("PyTuple") {
                        "tuple"
                    } else if how.contains("PyAny") {
                        "any"
                    } else if name == "into_py_dict_bound" {
                        "dict"
                    } else {
                        "other"
                    };
                    self.converted.insert(v, how.to_string());
                }
                return Some(v);
            }
            return None;
        }
        if let Some((name, recv, args)) = method_of(e) {
            if name == "bind" && args.len() == 1 && self.is_py(args[0]) {
                return self.value(recv);
            }
            return None;
        }
        if let syn::Expr::If(i) = e {
            // if let Some(x) = x { conversion } else { empty dict }
            let syn::Expr::Let(l) = &*i.cond else { return None };
            let syn::Pat::TupleStruct(ts) = &*l.pat else { return None };
            if !ts.path.segments.last().is_some_and(|s| s.ident == "Some") || ts.elems.len() != 1 {
                return None;
            }
            let v = self.value(&l.expr)?;
            let bound = toks(&ts.elems[0]);
            let saved = self.env.insert(bound.clone(), v);
            let [syn::Stmt::Expr(then, None)] = &i.then_branch.stmts[..] else { return None };
            let got = self.value(then);
            match saved {
                Some(s) => self.env.insert(bound, s),
                None => self.env.remove(&bound),
            };
            let (_, els) = i.else_branch.as_ref()?;
            let syn::Expr::Block(b) = &**els else { return None };
            let [syn::Stmt::Expr(els, None)] = &b.block.stmts[..] else { return None };
            if got != Some(v) || !self.is_empty_dict(els) {
                return None;
            }
            self.converted.insert(v, "optional dict".into());
            return Some(v);
        }
        None
    }

    fn is_empty_dict(&self, e: &syn::Expr) -> bool {
        call_of(e).is_some_and(|(n, t, a)| n == "new_bound" && t == "PyDict" && a.len() == 1 && self.is_py(a[0]))
    }

    /// object expression, with or without a final `.as_any()`
    fn recv(&self, e: &syn::Expr) -> Result<Recv, String> {
        if let Some((n, r, a)) = method_of(e) {
            if n == "as_any" && a.is_empty() {
                return self.recv(r);
            }
        }
        if ident_of(e).as_deref() == Some("self") {
            return Ok(Recv::SelfObj);
        }
        if let Some(inner) = try_of(e) {
            if let Some((n, r, a)) = method_of(inner) {
                if n == "import_bound" && self.is_py(r) && a.len() == 1 {
                    if let Some(import) = name_of(a[0]) {
                        return Ok(Recv::Lookup { import, attrs: Vec::new() });
                    }
                }
            }
            if let Some((n, _, a)) = call_of(inner) {
                if n == "getattr" && a.len() == 2 {
                    if let Recv::Lookup { import, mut attrs } = self.recv(a[0])? {
                        if let Some(x) = name_of(a[1]) {
                            attrs.push(x);
                            return Ok(Recv::Lookup { import, attrs });
                        }
                    }
                }
            }
        }
        Err(format!("not an object lookup: {}", toks(e)))
    }

    fn stmt_let(&mut self, l: &syn::Local) -> Result<(), String> {
        let name = match &l.pat {
            syn::Pat::Ident(i) => i.ident.to_string(),
            p => return Err(format!("unexpected binding {}", toks(p))),
        };
        let Some(init) = &l.init else { return Err("binding without value".into()) };
        if name == "py" && method_of(&init.expr).is_some_and(|(n, r, _)| n == "py" && ident_of(r).as_deref() == Some("self")) {
            self.py = true;
            return Ok(());
        }
        match self.value(&init.expr) {
            Some(v) => {
                self.env.insert(name, v);
                Ok(())
            }
            None => Err(format!("binding of `{name}` to something that is not a parameter: {}", toks(&init.expr))),
        }
    }

    /// elements of an array of positional values
    fn ones(&mut self, e: &syn::Expr) -> Result<Vec<Arg>, String> {
        let e = match e {
            syn::Expr::Reference(r) => &*r.expr,
            e => e,
        };
        let syn::Expr::Array(a) = e else { return Err(format!("not a list of arguments: {}", toks(e))) };
        a.elems
            .iter()
            .map(|x| self.value(x).map(Arg::One).ok_or(format!("argument is not a parameter: {}", toks(x))))
            .collect()
    }

    fn args(&mut self, e: &syn::Expr) -> Result<Vec<Arg>, String> {
        if let syn::Expr::Tuple(t) = e {
            return t
                .elems
                .iter()
                .map(|x| self.value(x).map(Arg::One).ok_or(format!("argument is not a parameter: {}", toks(x))))
                .collect();
        }
        if let Some((n, t, a)) = call_of(e) {
            if n == "new_bound" && t == "PyTuple" && a.len() == 2 && self.is_py(a[0]) {
                return self.ones(a[1]);
            }
        }
        if let syn::Expr::Block(b) = e {
            let mut list: Option<(String, Vec<Arg>)> = None;
            for s in &b.block.stmts {
                match s {
                    syn::Stmt::Local(l) => {
                        let syn::Pat::Ident(i) = &l.pat else { return Err("pattern".into()) };
                        if list.is_some() {
                            return Err("two argument lists".into());
                        }
                        let ok = l.init.as_ref().and_then(|x| call_of(&x.expr)).is_some_and(|(n, t, _)| t == "Vec" && (n == "with_capacity" || n == "new"));
                        if !ok {
                            return Err(format!("argument list starts from {}", toks(l)));
                        }
                        list = Some((i.ident.to_string(), Vec::new()));
                    }
                    syn::Stmt::Expr(x, Some(_)) => {
                        let (name, acc) = list.as_mut().ok_or("no list")?;
                        let Some((m, r, a)) = method_of(x) else { return Err(format!("statement {}", toks(x))) };
                        if m != "extend" || ident_of(r).as_deref() != Some(name) || a.len() != 1 {
                            return Err(format!("statement {}", toks(x)));
                        }
                        if matches!(a[0], syn::Expr::Array(_)) {
                            let more = self.ones(a[0])?;
                            acc.extend(more);
                        } else {
                            // PyTupleMethods::iter(p).map(|x| to_object(&x, py))
                            let Some((m, r, f)) = method_of(a[0]) else { return Err(format!("spread {}", toks(a[0]))) };
                            let Some((n, t, it)) = call_of(r) else { return Err(format!("spread {}", toks(a[0]))) };
                            if m != "map" || n != "iter" || t != "PyTupleMethods" || it.len() != 1 || f.len() != 1 {
                                return Err(format!("spread {}", toks(a[0])));
                            }
                            let syn::Expr::Closure(c) = f[0] else { return Err("spread closure".into()) };
                            let p = c.inputs.first().map(|p| toks(p)).unwrap_or_default();
                            let ok = call_of(&c.body).is_some_and(|(n, _, a)| n == "to_object" && ident_of(a[0]) == Some(p.clone()));
                            if !ok || c.inputs.len() != 1 {
                                return Err(format!("spread maps elements: {}", toks(f[0])));
                            }
                            let v = self.value(it[0]).ok_or("spread of something that is not a parameter")?;
                            acc.push(Arg::Spread(v));
                        }
                    }
                    syn::Stmt::Expr(x, None) => {
                        let (name, acc) = list.as_ref().ok_or("no list")?;
                        let ok = call_of(x).is_some_and(|(n, t, a)| {
                            n == "new_bound" && t == "PyTuple" && a.len() == 2 && self.is_py(a[0]) && ident_of(a[1]).as_deref() == Some(name)
                        });
                        return if ok { Ok(acc.clone()) } else { Err(format!("argument list ends in {}", toks(x))) };
                    }
                    s => return Err(format!("statement {}", toks(s))),
                }
            }
            return Err("argument block without value".into());
        }
        match self.value(e) {
            Some(v) => Ok(vec![Arg::Spread(v)]),
            None => Err(format!("not an argument list: {}", toks(e))),
        }
    }

    fn kwargs(&mut self, e: &syn::Expr) -> Result<Vec<Kw>, String> {
        let e = match e {
            syn::Expr::Reference(r) => &*r.expr,
            e => e,
        };
        if self.is_empty_dict(e) {
            return Ok(Vec::new());
        }
        if let syn::Expr::Block(b) = e {
            let mut cur: Option<(String, Vec<Kw>)> = None;
            for s in &b.block.stmts {
                match s {
                    syn::Stmt::Local(l) => {
                        let syn::Pat::Ident(i) = &l.pat else { return Err("pattern".into()) };
                        let init = l.init.as_ref().ok_or("binding without value")?;
                        if cur.is_some() {
                            return Err("two keyword dictionaries".into());
                        }
                        let start = if self.is_empty_dict(&init.expr) {
                            Vec::new()
                        } else {
                            vec![Kw::Spread(self.value(&init.expr).ok_or(format!("keywords start from {}", toks(&init.expr)))?)]
                        };
                        cur = Some((i.ident.to_string(), start));
                    }
                    syn::Stmt::Expr(x, Some(_)) => {
                        let x = try_of(x).unwrap_or(x);
                        let Some((n, _, a)) = call_of(x) else { return Err(format!("statement {}", toks(x))) };
                        let name = cur.as_ref().map(|c| c.0.clone()).unwrap_or_default();
                        if n != "set_item" || a.len() != 3 || ident_of(a[0]) != Some(name) {
                            return Err(format!("statement {}", toks(x)));
                        }
                        let key = name_of(a[1]).ok_or("keyword name")?;
                        let v = self.value(a[2]).ok_or(format!("keyword value {}", toks(a[2])))?;
                        cur.as_mut().unwrap().1.push(Kw::Named(key, v));
                    }
                    syn::Stmt::Expr(x, None) => {
                        let (name, acc) = cur.as_ref().ok_or("no keywords")?;
                        return if ident_of(x).as_deref() == Some(name) { Ok(acc.clone()) } else { Err(format!("keywords end in {}", toks(x))) };
                    }
                    s => return Err(format!("statement {}", toks(s))),
                }
            }
            return Err("keyword block without value".into());
        }
        match self.value(e) {
            Some(v) => Ok(vec![Kw::Spread(v)]),
            None => Err(format!("not keyword arguments: {}", toks(e))),
        }
    }

    fn act(&mut self, e: &syn::Expr) -> Result<Act, String> {
        let Some((n, t, a)) = call_of(e) else { return Err(format!("not a call: {}", toks(e))) };
        if t != "PyAnyMethods" {
            return Err(format!("not a call on a Python object: {}", toks(e)));
        }
        match (n.as_str(), a.len()) {
            ("extract", 1) => {
                let inner = try_of(a[0]).ok_or(format!("extraction without `?`: {}", toks(a[0])))?;
                let Some((n, _, a)) = call_of(inner) else { return Err(format!("not a call: {}", toks(inner))) };
                let recv = |s: &Self, i: usize| s.recv(a[i]);
                let kw = |s: &mut Self, x: &syn::Expr| match call_of(x) {
                    Some((n, _, a)) if n == "Some" && a.len() == 1 => s.kwargs(a[0]),
                    _ => match ident_of(x).as_deref() {
                        Some("None") => Ok(Vec::new()),
                        _ => Err(format!("keywords {}", toks(x))),
                    },
                };
                let meth = |x: &syn::Expr| name_of(x).ok_or(format!("method name {}", toks(x)));
                match (n.as_str(), a.len()) {
                    ("getattr", 2) => Ok(Act::Get { recv: recv(self, 0)?, attr: meth(a[1])? }),
                    ("call", 3) => Ok(Act::Call { recv: recv(self, 0)?, method: None, args: self.args(a[1])?, kwargs: kw(self, a[2])? }),
                    ("call1", 2) => Ok(Act::Call { recv: recv(self, 0)?, method: None, args: self.args(a[1])?, kwargs: Vec::new() }),
                    ("call0", 1) => Ok(Act::Call { recv: recv(self, 0)?, method: None, args: Vec::new(), kwargs: Vec::new() }),
                    ("call_method", 4) => {
                        Ok(Act::Call { recv: recv(self, 0)?, method: Some(meth(a[1])?), args: self.args(a[2])?, kwargs: kw(self, a[3])? })
                    }
                    ("call_method1", 3) => Ok(Act::Call { recv: recv(self, 0)?, method: Some(meth(a[1])?), args: self.args(a[2])?, kwargs: Vec::new() }),
                    ("call_method0", 2) => Ok(Act::Call { recv: recv(self, 0)?, method: Some(meth(a[1])?), args: Vec::new(), kwargs: Vec::new() }),
                    _ => Err(format!("unknown access {}", toks(inner))),
                }
            }
            ("setattr", 3) => Ok(Act::Set {
                recv: self.recv(a[0])?,
                attr: name_of(a[1]).ok_or("attribute name")?,
                value: self.value(a[2]).ok_or(format!("assigned value {}", toks(a[2])))?,
            }),
            ("set_item", 3) => {
                // sys.modules[key] = module from source
                let tgt = self.recv(a[0])?;
                if tgt != (Recv::Lookup { import: "sys".into(), attrs: vec!["modules".into()] }) {
                    return Err(format!("registers in {tgt:?}"));
                }
                let key = name_of(a[1]).ok_or("key")?;
                let inner = try_of(a[2]).unwrap_or(a[2]);
                let Some((n, _, c)) = call_of(inner) else { return Err("registered value".into()) };
                if n != "from_code_bound" || c.len() != 4 {
                    return Err(format!("registered value {}", toks(a[2])));
                }
                let text = |s: &Self, e: &syn::Expr| lit_of(e).or_else(|| ident_of(e).and_then(|i| s.consts.get(&i).cloned())).ok_or(format!("not a text: {}", toks(e)));
                Ok(Act::Embed { source: text(self, c[1])?, key, file: text(self, c[2])?, module: text(self, c[3])? })
            }
            _ => Err(format!("unknown access {}", toks(e))),
        }
    }
}

fn body(b: &syn::Block, f: &RFn) -> Result<Body, String> {
    let mut it = Interp { env: BTreeMap::new(), converted: BTreeMap::new(), py: f.has_py, consts: BTreeMap::new() };
    for (i, (name, _)) in f.params.iter().enumerate() {
        if it.env.insert(name.clone(), i).is_some() {
            return Err(format!("two parameters named {name}"));
        }
    }
    let n = b.stmts.len();
    for (i, s) in b.stmts.iter().enumerate() {
        match s {
            syn::Stmt::Local(l) => it.stmt_let(l)?,
            syn::Stmt::Item(syn::Item::Const(c)) => {
                if let Some(t) = lit_of(&c.expr) {
                    it.consts.insert(c.ident.to_string(), t);
                }
            }
            syn::Stmt::Expr(e, None) if i + 1 == n => {
                // a block `{ .. }` as generated for functions
                if let syn::Expr::Block(inner) = e {
                    return body(&inner.block, f);
                }
                let act = it.act(e)?;
                return Ok(Body { act, converted: it.converted });
            }
            s => return Err(format!("unexpected statement {}", toks(s))),
        }
    }
    Err("body without value".into())
}

// ---- helpers -------------------------------------------------------------------------------------

impl RMod {
    pub fn find<'a>(&'a self, path: &[&str]) -> Vec<&'a RMod> {
        if path.is_empty() {
            return vec![self];
        }
        self.mods.iter().filter(|m| plain(&m.name) == path[0]).flat_map(|m| m.find(&path[1..])).collect()
    }
    /// all modules with their paths (plain names)
    pub fn all<'a>(&'a self, prefix: &[String], out: &mut Vec<(Vec<String>, &'a RMod)>) {
        let mut p = prefix.to_vec();
        p.push(plain(&self.name));
        out.push((p.clone(), self));
        for m in &self.mods {
            m.all(&p, out);
        }
    }
    pub fn all_fns(&self) -> Vec<(&RFn, Option<&RStruct>)> {
        let mut v: Vec<(&RFn, Option<&RStruct>)> = self.fns.iter().map(|f| (f, None)).collect();
        for s in &self.structs {
            v.extend(s.inherent.iter().map(|f| (f, Some(s))));
            v.extend(s.trait_impls.iter().map(|f| (f, Some(s))));
        }
        v
    }
}

pub fn all_modules(tops: &[RMod]) -> Vec<(Vec<String>, &RMod)> {
    let mut out = Vec::new();
    for t in tops {
        t.all(&[], &mut out);
    }
    out
}

/// identifiers occurring in a piece of code
pub fn idents(text: &str) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_ident(&mut self, i: &'a proc_macro2::Ident) {
            self.0.push(i.to_string());
        }
    }
    let mut v = V(Vec::new());
    if let Ok(t) = syn::parse_str::<syn::Type>(text) {
        v.visit_type(&t);
    }
    v.0
}
