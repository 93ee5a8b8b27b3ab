//! Models of Python packages: random generation, rendering to files, and running the generator on them.
use crate::bind::{self, RMod};
use crate::core::{Ctx, Rng};
use pyo3::prelude::*;
use pyo3_bindgen_engine::{Codegen, Config};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};

pub const PY_NAMES: &[&str] = &[
    "match", "type", "fn", "struct", "mod", "impl", "use", "loop", "move", "mut", "pub", "ref", "dyn", "box", "gen", "union",
    "abstract", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "become", "do", "enum", "extern", "const",
    "static", "trait", "unsafe", "where", "let", "macro_rules", "default", "é", "naïve", "a_b", "raw", "auto", "alpha", "Beta",
    "x1", "true", "日本",
];
/// Python names without a Rust spelling
pub const UNSPELLABLE: &[&str] = &["self", "super", "crate", "Self"];

pub const RESERVED: &[&str] = &["get_type", "obj", "py", "repr", "str"];

const RUST_KEYWORDS: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop",
    "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type",
    "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override",
    "priv", "typeof", "unsized", "virtual", "yield", "try",
];

/// How a Python identifier is spelled in Rust, if it can be
pub fn spelling(name: &str) -> Option<String> {
    if UNSPELLABLE.contains(&name) || name == "_" {
        None
    } else if RUST_KEYWORDS.contains(&name) {
        Some(format!("r#{name}"))
    } else {
        Some(name.to_string())
    }
}

#[derive(Clone, Debug, Default)]
pub struct P {
    pub name: String,
    /// 0 positional-only, 1 positional, 2 *args, 3 keyword-only, 4 **kwargs
    pub kind: u8,
    pub ann: Option<String>,
    pub default: bool,
}

#[derive(Clone, Debug, Default)]
pub struct F {
    pub name: String,
    pub params: Vec<P>,
    pub ret: Option<String>,
    pub doc: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MKind {
    Inst,
    Class,
    Static,
}

#[derive(Clone, Debug, Default)]
pub struct Pr {
    pub name: String,
    pub get_ann: Option<String>,
    pub get_doc: Option<String>,
    /// annotation and docstring of the setter
    pub set: Option<(Option<String>, Option<String>)>,
}

#[derive(Clone, Debug, Default)]
pub struct C {
    pub name: String,
    pub doc: Option<String>,
    pub bases: Vec<String>,
    pub methods: Vec<(MKind, F)>,
    pub props: Vec<Pr>,
    pub attrs: Vec<(String, String)>,
    /// without `__init__`, none is written
    pub init: Option<F>,
    pub call: Option<F>,
    pub raw: Vec<String>,
}
impl Default for MKind {
    fn default() -> Self {
        MKind::Inst
    }
}

#[derive(Clone, Debug)]
pub enum Item {
    Fn(F),
    Cl(C),
    Var { name: String, expr: String },
    Tv(String),
    /// `from module import origin_name as name`
    From { module: String, what: String, name: String },
    Raw(String),
}

#[derive(Clone, Debug, Default)]
pub struct M {
    pub name: String,
    pub doc: Option<String>,
    pub all: Option<Vec<String>>,
    pub items: Vec<Item>,
    pub subs: Vec<M>,
    pub pkg: bool,
}

fn lit(s: &str) -> String {
    // a Python string literal
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\x{:02x}", c as u32)),
            c if (c as u32) > 0x7e => o.push_str(&format!("\\U{:08x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn py_lit(s: &str) -> String {
    lit(s)
}

pub fn signature(params: &[P]) -> String {
    let mut parts = Vec::new();
    let has_pos_only = params.iter().any(|p| p.kind == 0);
    let has_var = params.iter().any(|p| p.kind == 2);
    let mut slash = !has_pos_only;
    let mut star = has_var;
    for p in params {
        if p.kind != 0 && !slash {
            parts.push("/".to_string());
            slash = true;
        }
        if p.kind == 3 && !star {
            parts.push("*".to_string());
            star = true;
        }
        let mut s = match p.kind {
            2 => format!("*{}", p.name),
            4 => format!("**{}", p.name),
            _ => p.name.clone(),
        };
        if let Some(a) = &p.ann {
            s.push_str(&format!(": {a}"));
        }
        if p.default && p.kind != 2 && p.kind != 4 {
            s.push_str(" = None");
        }
        parts.push(s);
    }
    if !slash {
        parts.push("/".to_string());
    }
    parts.join(", ")
}

fn def(f: &F, indent: &str, out: &mut String) {
    out.push_str(&format!("{indent}def {}({})", f.name, signature(&f.params)));
    if let Some(r) = &f.ret {
        out.push_str(&format!(" -> {r}"));
    }
    out.push_str(":\n");
    if let Some(d) = &f.doc {
        out.push_str(&format!("{indent}    {}\n", lit(d)));
    }
    out.push_str(&format!("{indent}    pass\n"));
}

pub fn render(m: &M) -> String {
    let mut o = String::new();
    if let Some(d) = &m.doc {
        o.push_str(&lit(d));
        o.push('\n');
    }
    o.push_str("import builtins as _b, typing as _t, functools as _f\n");
    for i in &m.items {
        match i {
            Item::Fn(f) => def(f, "", &mut o),
            Item::Var { name, expr } => o.push_str(&format!("{name} = {expr}\n")),
            Item::Tv(n) => o.push_str(&format!("{n} = _t.TypeVar({})\n", lit(n))),
            Item::From { module, what, name } => {
                o.push_str(&format!("from {module} import {what} as {name}\n"));
            }
            Item::Raw(s) => {
                o.push_str(s);
                o.push('\n');
            }
            Item::Cl(c) => {
                o.push_str(&format!("class {}({}):\n", c.name, c.bases.join(", ")));
                if let Some(d) = &c.doc {
                    o.push_str(&format!("    {}\n", lit(d)));
                }
                o.push_str("    pass\n");
                for f in c.init.iter().chain(c.call.iter()) {
                    def(f, "    ", &mut o);
                }
                for (k, f) in &c.methods {
                    match k {
                        MKind::Inst => {}
                        MKind::Class => o.push_str("    @_b.classmethod\n"),
                        MKind::Static => o.push_str("    @_b.staticmethod\n"),
                    }
                    def(f, "    ", &mut o);
                }
                for p in &c.props {
                    o.push_str("    def _tmp_get(self)");
                    if let Some(a) = &p.get_ann {
                        o.push_str(&format!(" -> {a}"));
                    }
                    o.push_str(":\n");
                    if let Some(d) = &p.get_doc {
                        o.push_str(&format!("        {}\n", lit(d)));
                    }
                    o.push_str("        pass\n");
                    if let Some((a, d)) = &p.set {
                        o.push_str("    def _tmp_set(self, value");
                        if let Some(a) = a {
                            o.push_str(&format!(": {a}"));
                        }
                        o.push_str("):\n");
                        if let Some(d) = d {
                            o.push_str(&format!("        {}\n", lit(d)));
                        }
                        o.push_str("        pass\n");
                        o.push_str(&format!("    {} = _b.property(_tmp_get, _tmp_set)\n", p.name));
                    } else {
                        o.push_str(&format!("    {} = _b.property(_tmp_get)\n", p.name));
                    }
                }
                if !c.props.is_empty() {
                    o.push_str("    del _tmp_get\n");
                    if c.props.iter().any(|p| p.set.is_some()) {
                        o.push_str("    del _tmp_set\n");
                    }
                }
                for (n, e) in &c.attrs {
                    o.push_str(&format!("    {n} = {e}\n"));
                }
                for r in &c.raw {
                    for l in r.lines() {
                        o.push_str(&format!("    {l}\n"));
                    }
                }
            }
        }
    }
    if let Some(all) = &m.all {
        let names: Vec<String> = all.iter().map(|n| lit(n)).collect();
        o.push_str(&format!("__all__ = [{}]\n", names.join(", ")));
    }
    o
}

pub fn describe(m: &M, prefix: &str) -> String {
    let path = if prefix.is_empty() { m.name.clone() } else { format!("{prefix}.{}", m.name) };
    let mut s = format!("# {path}{}\n{}", if m.pkg { "/__init__.py" } else { ".py" }, render(m));
    for x in &m.subs {
        s.push_str(&describe(x, &path));
    }
    s
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

/// A package name that no other case uses
pub fn fresh() -> String {
    format!("vpk{}", NEXT.fetch_add(1, Ordering::SeqCst))
}

pub struct Written {
    pub root: PathBuf,
    name: String,
}

fn write(dir: &std::path::Path, m: &M) {
    if m.pkg {
        let d = dir.join(&m.name);
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("__init__.py"), render(m)).unwrap();
        for s in &m.subs {
            write(&d, s);
        }
    } else {
        std::fs::write(dir.join(format!("{}.py", m.name)), render(m)).unwrap();
    }
}

/// Directory of the generated packages, on Python's path
pub fn site(scratch: &std::path::Path) -> PathBuf {
    let dir = scratch.join("site");
    std::fs::create_dir_all(&dir).unwrap();
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        Python::with_gil(|py| {
            let sys = py.import_bound("sys").unwrap();
            sys.getattr("path").unwrap().call_method1("insert", (0, dir.to_str().unwrap())).unwrap();
            sys.setattr("dont_write_bytecode", true).unwrap();
        });
    });
    dir
}

impl Written {
    pub fn new(scratch: &std::path::Path, m: &M) -> Self {
        let root = site(scratch);
        write(&root, m);
        Python::with_gil(|py| {
            py.import_bound("importlib").unwrap().call_method0("invalidate_caches").unwrap();
        });
        Self { root, name: m.name.clone() }
    }
}

impl Drop for Written {
    fn drop(&mut self) {
        std::fs::remove_dir_all(self.root.join(&self.name)).ok();
        std::fs::remove_file(self.root.join(format!("{}.py", self.name))).ok();
        forget(&self.name);
    }
}

/// Remove a package from Python's table of modules
pub fn forget(name: &str) {
    Python::with_gil(|py| {
        let code = "import sys\nfor k in list(sys.modules):\n    if k == n or k.startswith(n + '.'): del sys.modules[k]";
        let l = pyo3::types::PyDict::new_bound(py);
        l.set_item("n", name).unwrap();
        py.run_bound(code, Some(&l), None).unwrap();
    });
}

/// Evaluate a Python expression to its text
pub fn py_text(expr: &str) -> Result<String, String> {
    Python::with_gil(|py| {
        let l = pyo3::types::PyDict::new_bound(py);
        py.run_bound("import sys, importlib, inspect, types", Some(&l), None).map_err(|e| e.to_string())?;
        py.eval_bound(expr, Some(&l), None).map(|v| v.to_string()).map_err(|e| e.to_string())
    })
}

pub fn py_exec(code: &str) -> Result<(), String> {
    Python::with_gil(|py| {
        let l = pyo3::types::PyDict::new_bound(py);
        py.run_bound(code, Some(&l), None).map_err(|e| e.to_string())
    })
}

pub fn text_of(cfg: &Config, names: &[&str]) -> Result<String, String> {
    let c = Codegen::new(cfg.clone()).module_names(names).map_err(|e| format!("adding the modules failed: {e}"))?;
    c.generate().map(|t| t.to_string()).map_err(|e| format!("generation failed: {e}"))
}

pub fn bindings(cfg: &Config, names: &[&str]) -> Result<Vec<RMod>, String> {
    bind::parse(&text_of(cfg, names)?)
}

pub fn module<'a>(tops: &'a [RMod], dotted: &str) -> Result<&'a RMod, String> {
    let segs: Vec<&str> = dotted.split('.').collect();
    let all: Vec<&RMod> = tops.iter().filter(|t| bind::plain(&t.name) == segs[0]).flat_map(|t| t.find(&segs[1..])).collect();
    match all.len() {
        1 => Ok(all[0]),
        n => Err(format!("module {dotted} appears {n} times in the bindings")),
    }
}

pub fn find_struct<'a>(m: &'a RMod, name: &str) -> Result<&'a bind::RStruct, String> {
    let all: Vec<_> = m.structs.iter().filter(|s| s.name == name).collect();
    match all.len() {
        1 => Ok(all[0]),
        n => Err(format!("struct {name} appears {n} times in module {}", m.name)),
    }
}

pub fn find_fn<'a>(fns: &[&'a bind::RFn], name: &str) -> Result<&'a bind::RFn, String> {
    let all: Vec<_> = fns.iter().filter(|f| f.name == name).collect();
    match all.len() {
        1 => Ok(all[0]),
        n => Err(format!(
            "function {name} appears {n} times (functions: {:?})",
            fns.iter().map(|f| f.name.clone()).collect::<Vec<_>>()
        )),
    }
}

pub fn act(f: &bind::RFn) -> Result<&bind::Body, String> {
    match &f.body {
        Some(Ok(b)) => Ok(b),
        Some(Err(e)) => Err(format!("body of {} not understood: {e}: {}", f.name, f.text)),
        None => Err(format!("{} has no body", f.name)),
    }
}

pub fn distinct_names(rng: &mut Rng, n: usize, extra: &[&str]) -> Vec<String> {
    let mut pool: Vec<&str> = PY_NAMES.iter().chain(extra.iter()).copied().collect();
    rng.shuffle(&mut pool);
    pool.into_iter().take(n).map(String::from).collect()
}

/// Parameters in an order Python accepts
pub fn random_params(rng: &mut Rng, names: &[&str], max: usize) -> Vec<P> {
    let n = rng.below(max + 1);
    let mut names: Vec<&str> = names.to_vec();
    rng.shuffle(&mut names);
    let mut kinds: Vec<u8> = (0..n.min(names.len())).map(|_| rng.below(5) as u8).collect();
    kinds.sort_unstable();
    let mut seen = [false; 5];
    kinds.retain(|&k| {
        if k == 2 || k == 4 {
            !std::mem::replace(&mut seen[k as usize], true)
        } else {
            true
        }
    });
    let mut out: Vec<P> = kinds
        .iter()
        .zip(names)
        .map(|(&kind, name)| P { name: name.to_string(), kind, ann: None, default: false })
        .collect();
    // defaults: a suffix of the positional ones, any of the keyword-only ones
    let npos = out.iter().filter(|p| p.kind < 2).count();
    let from = if rng.flip() { npos } else { rng.below(npos + 1) };
    for (i, p) in out.iter_mut().enumerate() {
        p.default = (p.kind < 2 && i >= from) || (p.kind == 3 && rng.flip());
    }
    out
}

pub fn case_pkg(ctx: &mut Ctx, key: &str, m: &M, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
    let input = describe(m, "");
    let scratch = ctx.scratch.clone();
    ctx.case(key, &input, nontrivial, || {
        let _w = Written::new(&scratch, m);
        f()
    });
}
