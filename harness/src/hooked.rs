//! Contracts of crate-private functions, evaluated on the real functions.
use crate::core::{guarded, Ctx, Rng};
use crate::doccheck::check_docstring;
use pyo3::prelude::*;
use pyo3_bindgen_engine::verif_hooks::*;
use pyo3_bindgen_engine::{Config, PyBindgenError};
use rustc_hash::FxHashMap;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;

pub fn run(pid: &str, ctx: &mut Ctx) {
    match pid {
        "C01" => c01(ctx),
        "C02" => c02(ctx),
        "C03" => c03(ctx),
        "C04" => c04(ctx),
        "C05" => c05(ctx),
        "C06" => c06(ctx),
        "C23" => c23(ctx),
        "C07" => c07(ctx),
        "C08" => c08(ctx),
        "C09" => c09(ctx),
        "C13" => c13(ctx),
        "C18" => c18(ctx),
        _ => {}
    }
}

fn ensure(cond: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if cond {
        Ok(())
    } else {
        Err(msg())
    }
}

// ---------------------------------------------------------------------------------------------
// Names

/// Identifier-like components, weighted towards those whose Rust spelling differs
pub const NAMES: &[&str] = &[
    "a", "b", "_", "__", "_a", "A", "x1", "mod1", "super", "self", "Self", "crate", "type", "async",
    "struct", "fn", "gen", "try", "union", "dyn", "yield", "await", "abstract", "final", "box",
    "macro", "override", "priv", "typeof", "unsized", "virtual", "become", "do", "True", "None",
    "raw", "auto", "static", "true", "é", "naïve", "日本", "a_b", "get_type", "match", "r", "rr",
    "const", "extern", "impl", "in", "let", "loop", "mut", "pub", "ref", "return", "trait", "unsafe",
    "use", "where", "while", "macro_rules", "safe", "default", "break", "continue", "else", "enum",
    "false", "for", "if", "move", "as", "a-b", "1a", "Ünï",
];

/// Keywords of Rust that cannot be written as a plain identifier (2021 edition, plus those reserved in all editions),
/// from the language reference; independent of `syn`.
const KEYWORDS: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if",
    "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self",
    "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async",
    "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof",
    "unsized", "virtual", "yield", "try", "_",
];

fn usable(name: &str) -> bool {
    let mut cs = name.chars();
    let first_ok = cs.next().is_some_and(|c| c == '_' || c.is_alphabetic());
    first_ok && cs.all(|c| c == '_' || c.is_alphanumeric()) && !KEYWORDS.contains(&name)
}

fn rust_spelling(name: &str) -> String {
    if usable(name) {
        name.to_string()
    } else {
        format!("r#{name}")
    }
}

fn random_name(rng: &mut Rng) -> String {
    if rng.chance(3, 4) {
        return rng.pick(NAMES).to_string();
    }
    let n = 1 + rng.below(6);
    let alphabet: Vec<char> = "abstyperfnulm_01AÉ".chars().collect();
    let mut s: String = (0..n).map(|_| *rng.pick(&alphabet)).collect();
    if s.chars().next().unwrap().is_ascii_digit() {
        s.insert(0, '_');
    }
    s
}

fn dotted_names(ctx: &mut Ctx) -> Vec<String> {
    let mut out = Vec::new();
    let small = &["a", "_", "super", "self", "type", "Self", "é", "a_b", "crate"];
    for dots in 0..4 {
        let d = ".".repeat(dots);
        if dots > 0 {
            out.push(d.clone());
        }
        for a in NAMES {
            out.push(format!("{d}{a}"));
        }
        for a in small {
            for b in small {
                out.push(format!("{d}{a}.{b}"));
                for c in small {
                    out.push(format!("{d}{a}.{b}.{c}"));
                }
            }
        }
    }
    for _ in 0..ctx.pick_n(4000, 400_000) {
        let dots = if ctx.rng.chance(1, 3) { ctx.rng.below(5) } else { 0 };
        let n = 1 + ctx.rng.below(6);
        let parts: Vec<String> = (0..n).map(|_| random_name(&mut ctx.rng)).collect();
        out.push(format!("{}{}", ".".repeat(dots), parts.join(".")));
    }
    out
}

fn c01(ctx: &mut Ctx) {
    ctx.rule = "dotted names: 0-4 leading dots, 1-6 components out of a keyword-heavy list and random identifiers; non-trivial: more than one component, a leading dot, or a raw component".into();
    let names = dotted_names(ctx);
    let mut spelled: HashMap<String, String> = HashMap::new();
    for name in &names {
        let trimmed = name.trim_start_matches('.');
        let dots = name.len() - trimmed.len();
        let comps: Vec<&str> = trimmed.split('.').filter(|c| !c.is_empty()).collect();
        let nontrivial = dots > 0 || comps.len() > 1 || comps.iter().any(|c| !usable(c));
        let mut rs = None;
        ctx.case(&format!("path {name}"), name, nontrivial, || {
            let p = Path::from_py(name);
            let back = p.to_py();
            ensure(back == *name, || format!("printed back as {back:?}"))?;
            ensure(p.len() == dots + comps.len(), || format!("{} segments", p.len()))?;
            for (i, c) in comps.iter().enumerate() {
                let seg = p[dots + i].as_rs();
                ensure(seg == rust_spelling(c), || {
                    format!("component {c:?} is spelled {seg:?}, expected {:?}", rust_spelling(c))
                })?;
                ensure(p[dots + i].as_py() == *c, || {
                    format!("component {c:?} is printed back as {:?}", p[dots + i].as_py())
                })?;
            }
            let expected = p.iter().map(|s| s.as_rs().to_string()).collect::<Vec<_>>().join("::");
            ensure(p.to_rs() == expected, || format!("to_rs() is {:?}, expected {expected:?}", p.to_rs()))?;
            ensure(p.clone().into_rs() == expected, || {
                format!("into_rs() is {:?}, expected {expected:?}", p.clone().into_rs())
            })?;
            rs = Some(expected);
            Ok(())
        });
        if let Some(rs) = rs {
            let prev = spelled.insert(rs.clone(), name.clone());
            if let Some(prev) = prev.filter(|p| p != name) {
                ctx.case(&format!("injective {name}"), &format!("{prev} / {name}"), true, || {
                    Err(format!("{prev:?} and {name:?} share the Rust spelling {rs:?}"))
                });
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Relative paths

fn resolve(module: &Path, relative: &Path) -> Result<Vec<String>, String> {
    let mut at: Vec<String> = module.iter().map(|s| s.as_rs().to_string()).collect();
    for seg in relative.iter() {
        match seg.as_rs() {
            "self" => {}
            "super" => {
                if at.pop().is_none() {
                    return Err(format!("`super` leaves the root: {}", relative.to_rs()));
                }
            }
            name => at.push(name.to_string()),
        }
    }
    Ok(at)
}

fn random_segs(rng: &mut Rng, alphabet: &[&str], min: usize, max: usize) -> Vec<String> {
    let n = min + rng.below(max - min + 1);
    (0..n).map(|_| rng.pick(alphabet).to_string()).collect()
}

fn mk(segs: &[String]) -> Path {
    Path::from_py(&segs.join("."))
}

fn module_pairs(ctx: &mut Ctx) -> Vec<(Vec<String>, Vec<String>)> {
    let small = ["a", "b", "type"];
    let mut all: Vec<Vec<String>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..3 {
        let mut next = Vec::new();
        for p in &last {
            for s in &small {
                let mut q: Vec<String> = p.clone();
                q.push(s.to_string());
                next.push(q);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    let mut out = Vec::new();
    for m in &all {
        for t in &all {
            out.push((m.clone(), t.clone()));
        }
    }
    for _ in 0..ctx.pick_n(6000, 400_000) {
        let m = random_segs(&mut ctx.rng, &["a", "b", "c", "super", "self", "async"], 0, 6);
        let t = if ctx.rng.flip() {
            let mut t = m[..ctx.rng.below(m.len() + 1)].to_vec();
            t.extend(random_segs(&mut ctx.rng, &["a", "b", "c", "super", "Self"], 0, 4));
            t
        } else {
            random_segs(&mut ctx.rng, &["a", "b", "c", "type"], 1, 6)
        };
        out.push((m, t));
    }
    out
}

fn c02(ctx: &mut Ctx) {
    ctx.rule = "pairs of module paths over 3 names up to depth 3 (all) and random ones up to depth 10; both forms; non-trivial: both non-empty".into();
    for (m, t) in module_pairs(ctx) {
        if t.is_empty() {
            continue;
        }
        for form in [false, true] {
            let key = format!("relative {} {} {form}", m.join("."), t.join("."));
            ctx.case(&key, &key, !m.is_empty(), || {
                let (mp, tp) = (mk(&m), mk(&t));
                let rel = mp.relative_to(&tp, form);
                let got = resolve(&mp, &rel)?;
                let want: Vec<String> = tp.iter().map(|s| s.as_rs().to_string()).collect();
                ensure(got == want, || {
                    format!("{:?} from {:?} resolves to {got:?}, expected {want:?}", rel.to_rs(), mp.to_rs())
                })?;
                ensure(!rel.leading_colon, || "leading colon".into())?;
                if form {
                    let segs: Vec<&str> = rel.iter().map(|s| s.as_rs()).collect();
                    ensure(segs.last() != Some(&"super"), || format!("ends in super: {segs:?}"))?;
                    ensure(m.is_empty() || segs != ["self"], || "bare self".into())?;
                    ensure(segs.first() == Some(&"self") || segs.first() == Some(&"super"), || {
                        format!("does not start with self or super: {segs:?}")
                    })?;
                }
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Imports

fn c03(ctx: &mut Ctx) {
    ctx.rule = "origin/target pairs of dotted names; non-trivial: both have at least two components".into();
    let cfg = Config::default();
    for (o, t) in module_pairs(ctx) {
        if o.is_empty() || t.is_empty() {
            continue;
        }
        let key = format!("import {} as {}", o.join("."), t.join("."));
        ctx.case(&key, &key, o.len() > 1 && t.len() > 1, || {
            let (op, tp) = (mk(&o), mk(&t));
            let import = Import::new(op.clone(), tp.clone());
            ensure(import.origin == op && import.target == tp, || "origin or target changed".into())?;
            let package = o.starts_with(&t[..1]);
            let submodule = t.len() > 1 && o.starts_with(&t[..t.len() - 1]);
            let want = if !package {
                ImportType::ExternalImport
            } else if submodule {
                ImportType::SubmoduleReexport
            } else {
                ImportType::PackageReexport
            };
            ensure(import.import_type == want, || format!("classified as {:?}, expected {want:?}", import.import_type))?;
            ensure(import.is_external() == (want == ImportType::ExternalImport), || "is_external()".into())?;
            let spellable = |n: &String| !["super", "self", "Self", "crate", "_"].contains(&n.as_str());
            if !o.iter().all(spellable) || !t.iter().all(spellable) {
                // Names without a raw spelling cannot appear in a path of Rust
                return Ok(());
            }
            let code = import.generate(&cfg).map_err(|e| format!("generation failed: {e}"))?;
            if want != ImportType::SubmoduleReexport || o == t {
                return ensure(code.is_empty(), || format!("unexpected code: {code}"));
            }
            let item: syn::ItemUse = syn::parse2(code.clone()).map_err(|e| format!("{code}: {e}"))?;
            ensure(matches!(item.vis, syn::Visibility::Public(_)), || format!("not public: {code}"))?;
            let mut segs = Vec::new();
            let mut tree = &item.tree;
            let alias = loop {
                match tree {
                    syn::UseTree::Path(p) => {
                        segs.push(p.ident.to_string());
                        tree = &p.tree;
                    }
                    syn::UseTree::Name(n) => {
                        segs.push(n.ident.to_string());
                        break None;
                    }
                    syn::UseTree::Rename(r) => {
                        segs.push(r.ident.to_string());
                        break Some(r.rename.to_string());
                    }
                    _ => return Err(format!("unexpected import tree: {code}")),
                }
            };
            let parent = mk(&t[..t.len() - 1]);
            let got = resolve(&parent, &Path::from_rs(&segs.join("::")))?;
            let want: Vec<String> = op.iter().map(|s| s.as_rs().to_string()).collect();
            ensure(got == want, || format!("`{code}` in {} names {got:?}, expected {want:?}", parent.to_rs()))?;
            let want_alias = (o.last() != t.last()).then(|| rust_spelling(t.last().unwrap()));
            ensure(alias == want_alias, || format!("alias {alias:?}, expected {want_alias:?}"))
        });
    }
}

// ---------------------------------------------------------------------------------------------
// Attribute filter

fn c04(ctx: &mut Ctx) {
    ctx.rule = "attribute name x defining module x configuration; non-trivial: some clause of the filter other than the default decides".into();
    let cfg = Config::default();
    ctx.case("default config", "Config::default()", true, || {
        ensure(!cfg.include_private, || "include_private is on by default".into())?;
        let mut names = cfg.blocklist_names.clone();
        names.sort();
        ensure(names == ["builtins", "test", "testing", "tests"], || format!("default blocklist {names:?}"))
    });
    let names = [
        "a", "_a", "__a__", "_", "get_type", "obj", "py", "repr", "str", "Str", "get_types", "builtins", "testing",
        "tests", "test", "Test", "test_", "typing", "__future__", "foo", "type", "self", "a_", "objs", "__init__",
        "super", "_super", "test1", "struct", "match", "blocked",
    ];
    let mods = [
        "", "a", "a.b", "_a", "a._b", "a._b.c", "typing", "a.typing", "typing.a", "a.typing.b", "__future__",
        "a.__future__", "typing_", "mytyping", "a.typing_extensions", "future", "test", "builtins", "a.test",
        "a.__b__", "a_.b_", "type", "self.a", "_type", "a.struct._x", "typings.a",
    ];
    let blocklists: [&[&str]; 6] = [
        &["builtins", "testing", "tests", "test"],
        &[],
        &["a"],
        &["foo", "self", "struct"],
        &["_a", "super"],
        &["blocked", "fo", "tes"],
    ];
    let mut cases = Vec::new();
    for n in names {
        for m in mods {
            for b in blocklists {
                for p in [false, true] {
                    cases.push((n.to_string(), m.to_string(), b.iter().map(|s| s.to_string()).collect::<Vec<_>>(), p));
                }
            }
        }
    }
    for _ in 0..ctx.pick_n(3000, 200_000) {
        let n = random_name(&mut ctx.rng);
        let m = random_segs(&mut ctx.rng, &["a", "_b", "typing", "__future__", "c_", "type", "x"], 0, 4).join(".");
        let mut b = random_segs(&mut ctx.rng, NAMES, 0, 4);
        if ctx.rng.chance(1, 4) {
            b.push(n.clone());
        }
        cases.push((n, m, b, ctx.rng.flip()));
    }
    Python::with_gil(|py| {
        let typ = py.get_type_bound::<pyo3::types::PyModule>();
        for (n, m, b, private) in cases {
            let key = format!("attr {n:?} of {m:?} private={private} blocklist={b:?}");
            let segs: Vec<&str> = m.split('.').collect();
            let reserved = ["get_type", "obj", "py", "repr", "str"].contains(&n.as_str());
            let hidden = n.starts_with('_') || segs.iter().any(|s| s.starts_with('_'));
            let special = segs.iter().any(|s| *s == "typing" || *s == "__future__");
            let blocked = b.contains(&n);
            let want = !(reserved || special || blocked || (!private && hidden));
            ctx.case(&key, &key, reserved || hidden || special || blocked, || {
                let cfg = Config::builder().blocklist_names(b.clone()).include_private(private).build();
                let got = is_attr_allowed(&cfg, &Ident::from_py(&n), &Path::from_py(&m), &typ);
                ensure(got == want, || format!("allowed: {got}, expected {want}"))
            });
        }
    });
}

// ---------------------------------------------------------------------------------------------
// Annotations

fn annotation_soup(rng: &mut Rng) -> String {
    const TOKENS: &[&str] = &[
        "dict[", "list[", "set[", "frozenset[", "tuple[", "Sequence[", "Iterable[", "Iterator[", "type[",
        "Callable[", "Callable", "Union", "Optional[", "[", "]", "]", "]", ",", ", ", "|", " | ", "None", "int",
        "str", "Any", " ", "...", "<class '", "'>", "<enum '", "typing.", "collections.abc.", "collections.", "Foo",
        "a.b", "a::b", "dict", "tuple", "é", "'", "\"", "\n", "property", "_collections._tuplegetter", "NoneType",
        "Foo[int]", "()", ">", "<class ", "Literal['a", "{", "}", "r#", "::", ".", "..", "bool", "bytes", "datetime.date",
    ];
    let n = rng.below(9);
    let mut s: String = (0..n).map(|_| *rng.pick(TOKENS)).collect();
    if rng.chance(1, 8) {
        let depth = 1 + rng.below(40);
        let (a, b) = *rng.pick(&[("list[", "]"), ("[", "]"), ("dict[str, ", "]"), ("Optional[", "]"), ("", "]"), ("[", ""), ("typing.", ""), ("<class '", "'>")]);
        s = format!("{}{}{}", a.repeat(depth), s, b.repeat(depth));
    }
    s
}

fn c05(ctx: &mut Ctx) {
    ctx.rule = "texts: every sequence of up to 3 out of 34 annotation fragments, random sequences of up to 8, nesting up to depth 40, and runtime typing objects; non-trivial: contains a bracket, comma or `|`".into();
    const SMALL: &[&str] = &[
        "dict[", "list[", "set[", "frozenset[", "tuple[", "Sequence[", "Iterable[", "Iterator[", "type[", "Callable[",
        "[", "]", ",", "|", "None", "int", " ", "", "<class '", "'>", "<enum '", "typing.", "collections.",
        "collections.abc.", "Foo", "...", "dict", "::", "a.b", "Optional[", "Union", "<class ", ">", "<enum ",
    ];
    let mut texts = Vec::new();
    for a in SMALL {
        for b in SMALL {
            for c in SMALL {
                texts.push(format!("{a}{b}{c}"));
                texts.push(format!("{a}{b}{c}]"));
            }
        }
    }
    for _ in 0..ctx.pick_n(40_000, 3_000_000) {
        texts.push(annotation_soup(&mut ctx.rng));
    }
    let empty = FxHashMap::default();
    for t in texts {
        let nontrivial = t.contains(['[', ']', ',', '|']);
        ctx.case(&format!("text {t:?}"), &t, nontrivial, || {
            let typ = Type::from_str(&t).map_err(|e| format!("rejected: {e}"))?;
            // The accepted type can be spelled in Rust
            let spelled = typ.clone().into_rs_owned(&empty).to_string();
            let _ = typ.into_rs_borrowed(&empty);
            ensure(!spelled.is_empty(), || "no Rust spelling".into())
        });
    }
    // Runtime typing objects
    let setup = "
import typing, collections, collections.abc, types, datetime, enum, ipaddress, pathlib
from typing import *
T = TypeVar('T'); K = TypeVar('K'); V = TypeVar('V'); Ts = TypeVarTuple('Ts'); P = ParamSpec('P')
class MyDict(dict, Generic[T]): pass
class MyDict0(dict, Generic[Unpack[Ts]]): pass
class MyList(list, Generic[K, V]): pass
class MyList0(list, Generic[Unpack[Ts]]): pass
class MySet0(set, Generic[Unpack[Ts]]): pass
class MyFs0(frozenset, Generic[Unpack[Ts]]): pass
class MyTuple0(tuple, Generic[Unpack[Ts]]): pass
class MyType0(type, Generic[Unpack[Ts]]): pass
class G(Generic[T]): pass
class E(enum.Enum):
    A = 1
class Named(type):
    def __repr__(cls): return cls.shown
A0 = Named('A0', (), {'shown': 'None'})
A1 = Named('A1', (), {'shown': 'NoneType'})
A2 = Named('A2', (), {'shown': ''})
A3 = Named('A3', (), {'shown': 'Callable[]'})
A4 = Named('A4', (), {'shown': '\\ud800'})
A5 = Named('A5', (), {'shown': 5})
A6 = Named('A6', (), {'shown': 'a | None | b'})
class Fake:
    __module__ = 'typing'
    def __init__(self, origin, args): self.__origin__ = origin; self.__args__ = args
    def __repr__(self): return 'fake'
class NoArgs:
    __module__ = 'typing'
    __origin__ = Union
class Tup(tuple): pass
class Meta0(type):
    __module__ = 5
Strange = Meta0('Strange', (), {})
";
    let exprs = [
        "None", "int", "str", "Any", "List[int]", "Dict[str, int]", "Tuple[()]", "Tuple[int, ...]", "Tuple[int, str]",
        "Optional[int]", "Union[int, str, None]", "Union[int]", "Callable[[], None]", "Callable[..., int]",
        "Callable[[int, str], List[int]]", "Type[int]", "Type", "List", "Dict", "Tuple", "Callable", "Sequence[int]",
        "FrozenSet[int]", "Set[str]", "Literal[1, 'a|b', None]", "ClassVar[int]", "Annotated[int, 'x']", "T", "P",
        "MyDict[int]", "MyDict0[()]", "MyDict0[int, str, int]", "MyList[int, str]", "MyList0[()]", "MySet0[()]",
        "MyFs0[()]", "MyTuple0[()]", "MyType0[()]", "G[int]", "G", "E", "E.A", "dict[str, list[int]]", "list[int | None]",
        "int | None", "int | str | None", "dict[str, None] | int", "'forward'", "'list[int'", "']'", "'dict[x]'", "42",
        "3.5", "(1, 2)", "[int]", "[]", "{}", "object()", "...", "NotImplemented", "collections.abc.Callable[[int], str]",
        "collections.abc.Mapping[str, int]", "collections.OrderedDict[str, int]", "typing.DefaultDict[str, int]",
        "Generator[int, str, None]", "NoReturn", "Final[int]", "Concatenate[int, P]", "Unpack[Ts]", "NewType('N', int)",
        "TypedDict('TD', {'a': int})", "NamedTuple('NT', [('a', int)])", "datetime.timedelta", "pathlib.Path",
        "ipaddress.IPv4Address", "types.ModuleType", "type", "type[int]", "types.GenericAlias(dict, (int,))",
        "types.GenericAlias(dict, ())", "types.GenericAlias(list, ())", "types.GenericAlias(type, ())", "lambda: 1",
        "typing", "Protocol", "Deque[int]", "Counter[str]", "ChainMap[str, int]", "IO[str]", "Pattern[str]",
        "Awaitable[int]", "Union[None, A0]", "Union[A0, A1]", "Union[A2, None]", "Optional[A0]", "Union[A0, A1, A2]", "A0", "A3", "A4",
        "A5", "A6", "List[A0]", "Callable[[A0], A3]", "A0 | None", "A0 | A1", "Fake(Union, ())", "Fake(Union, (None,))",
        "Fake(Union, (type(None), type(None)))", "Fake(Optional, ())", "Fake(dict, ())", "Fake(Callable, ())", "Fake(Union, Tup((int, None)))",
        "Fake('dict[', (int,))", "Fake('Union', (type(None), A0))", "Fake(5, 5)", "NoArgs()", "Strange", "Strange()", "'\\ud800'", "['\\ud800']",
        "super", "property", "classmethod", "memoryview", "range", "slice", "complex", "object",
    ];
    Python::with_gil(|py| {
        let globals = pyo3::types::PyDict::new_bound(py);
        py.run_bound(setup, Some(&globals), None).expect("typing setup");
        for e in exprs {
            let value = match py.eval_bound(e, Some(&globals), None) {
                Ok(v) => v,
                Err(err) => {
                    eprintln!("note: annotation expression {e} not available: {err}");
                    continue;
                }
            };
            ctx.case(&format!("object {e}"), e, true, || {
                let t = Type::try_from(value).map_err(|e| format!("rejected: {e}"))?;
                let _ = t.clone().into_rs_owned(&empty);
                let _ = t.into_rs_borrowed(&empty);
                Ok(())
            });
        }
    });
}

#[derive(Clone)]
enum Ann {
    Plain(&'static str, Type),
    Dict(Box<Ann>, Box<Ann>),
    Wrap(&'static str, Box<Ann>),
    Tuple(Vec<Ann>),
    /// `X | None` or `None | X`
    Opt(Box<Ann>, bool),
    Union(Vec<Ann>),
}

fn plain_types() -> Vec<(&'static str, Type)> {
    let o = |s: &str| Type::Other(s.to_string());
    vec![
        ("int", Type::PyLong),
        ("str", Type::PyString),
        ("bool", Type::PyBool),
        ("float", Type::PyFloat),
        ("bytes", Type::PyBytes),
        ("Any", Type::PyAny),
        ("Foo", o("Foo")),
        ("pkg.mod.Bar", o("pkg.mod.Bar")),
        ("NoneFoo", o("NoneFoo")),
        ("dictlike", o("dictlike")),
        ("list", Type::PyList(Box::new(Type::Unknown))),
        ("pathlib.Path", Type::Path),
        ("datetime.date", Type::PyDate),
        ("typing.Any", Type::PyAny),
        ("My_None", o("My_None")),
    ]
}

impl Ann {
    fn random(rng: &mut Rng, depth: usize, in_union: bool) -> Ann {
        let k = if depth == 0 { 0 } else { rng.below(if in_union { 8 } else { 12 }) };
        let sub = |rng: &mut Rng| Box::new(Ann::random(rng, depth - 1, false));
        match k {
            0 | 1 => {
                let (s, t) = plain_types()[rng.below(plain_types().len())].clone();
                Ann::Plain(s, t)
            }
            2 | 3 => Ann::Dict(sub(rng), sub(rng)),
            4 | 5 => {
                let w = *rng.pick(&["list", "set", "frozenset", "Sequence", "Iterable", "Iterator", "type"]);
                Ann::Wrap(w, sub(rng))
            }
            6 | 7 => Ann::Tuple((0..1 + rng.below(4)).map(|_| *sub(rng)).collect()),
            8 | 9 => Ann::Opt(Box::new(Ann::random(rng, depth - 1, true)), rng.flip()),
            _ => Ann::Union((0..2 + rng.below(3)).map(|_| Ann::random(rng, depth - 1, true)).collect()),
        }
    }
    fn expected(&self) -> Type {
        match self {
            Ann::Plain(_, t) => t.clone(),
            Ann::Dict(k, v) => Type::PyDict {
                key_type: Box::new(k.expected()),
                value_type: Box::new(v.expected()),
            },
            Ann::Wrap(w, x) => {
                let x = Box::new(x.expected());
                match *w {
                    "set" => Type::PySet(x),
                    "frozenset" => Type::PyFrozenSet(x),
                    "type" => *x,
                    _ => Type::PyList(x),
                }
            }
            Ann::Tuple(xs) => Type::PyTuple(xs.iter().map(Ann::expected).collect()),
            Ann::Opt(x, _) => Type::Optional(Box::new(x.expected())),
            Ann::Union(xs) => Type::Union(xs.iter().map(Ann::expected).collect()),
        }
    }
    fn render(&self, rng: &mut Rng, spaces: bool) -> String {
        let mut sp = |rng: &mut Rng| if spaces { " ".repeat(rng.below(3)) } else { String::new() };
        let mut pad = |rng: &mut Rng, s: String| {
            let (a, b) = (sp(rng), sp(rng));
            format!("{a}{s}{b}")
        };
        match self {
            Ann::Plain(s, _) => s.to_string(),
            Ann::Dict(k, v) => {
                let (k, v) = (k.render(rng, spaces), v.render(rng, spaces));
                let (k, v) = (pad(rng, k), pad(rng, v));
                format!("dict[{k},{v}]")
            }
            Ann::Wrap(w, x) => {
                let x = x.render(rng, spaces);
                let x = pad(rng, x);
                format!("{w}[{x}]")
            }
            Ann::Tuple(xs) => {
                let xs: Vec<String> = xs
                    .iter()
                    .map(|x| {
                        let x = x.render(rng, spaces);
                        pad(rng, x)
                    })
                    .collect();
                format!("tuple[{}]", xs.join(","))
            }
            Ann::Opt(x, first) => {
                let x = x.render(rng, spaces);
                let (x, n) = (pad(rng, x), pad(rng, "None".to_string()));
                if *first {
                    format!("{n}|{x}")
                } else {
                    format!("{x}|{n}")
                }
            }
            Ann::Union(xs) => {
                let xs: Vec<String> = xs
                    .iter()
                    .map(|x| {
                        let x = x.render(rng, spaces);
                        pad(rng, x)
                    })
                    .collect();
                xs.join("|")
            }
        }
    }
}

fn c06(ctx: &mut Ctx) {
    ctx.rule = "annotation trees up to depth 4 (quick) / 6 (thorough) rendered with and without blanks; non-trivial: at least one bracket or union".into();
    let mut cases: Vec<Ann> = Vec::new();
    // every pair of constructors, one inside the other, in every position
    let p = |s: &'static str, t: Type| Ann::Plain(s, t);
    let int = p("int", Type::PyLong);
    let st = p("str", Type::PyString);
    let one = |x: Ann, y: Ann| -> Vec<Ann> {
        let mut v = vec![
            Ann::Dict(Box::new(x.clone()), Box::new(y.clone())),
            Ann::Dict(Box::new(y.clone()), Box::new(x.clone())),
            Ann::Tuple(vec![x.clone(), y.clone()]),
            Ann::Tuple(vec![y.clone(), x.clone(), y.clone()]),
            Ann::Tuple(vec![x.clone()]),
        ];
        for w in ["list", "set", "frozenset", "Sequence", "Iterable", "Iterator", "type"] {
            v.push(Ann::Wrap(w, Box::new(x.clone())));
        }
        if !matches!(x, Ann::Opt(..) | Ann::Union(..)) {
            v.push(Ann::Opt(Box::new(x.clone()), false));
            v.push(Ann::Opt(Box::new(x.clone()), true));
            if !matches!(y, Ann::Opt(..) | Ann::Union(..)) {
                v.push(Ann::Union(vec![x.clone(), y.clone()]));
                v.push(Ann::Union(vec![y.clone(), x.clone(), p("None", Type::PyNone)]));
                v.push(Ann::Union(vec![x, p("bool", Type::PyBool), y]));
            }
        }
        v
    };
    for (s, t) in plain_types() {
        cases.push(Ann::Plain(s, t));
    }
    let level1 = one(int.clone(), st.clone());
    let mut level2 = Vec::new();
    for a in &level1 {
        level2.extend(one(a.clone(), int.clone()));
        for b in &level1 {
            level2.extend(one(a.clone(), b.clone()));
        }
    }
    cases.extend(level1);
    cases.extend(level2);
    let depth = ctx.pick_n(4, 6);
    for _ in 0..ctx.pick_n(6000, 300_000) {
        let d = 1 + ctx.rng.below(depth);
        let a = Ann::random(&mut ctx.rng, d, false);
        cases.push(a);
    }
    for a in cases {
        for mode in 0..3 {
            let mut rng = ctx.rng.clone();
            let mut text = a.render(&mut rng, mode == 1);
            if mode == 2 {
                text = format!("  {} ", a.render(&mut rng, true));
            }
            ctx.rng = rng;
            if text.len() > 4000 {
                continue;
            }
            let nontrivial = text.contains(['[', '|']);
            ctx.case(&format!("annotation {text:?}"), &text, nontrivial, || {
                let got = Type::from_str(&text).map_err(|e| format!("rejected: {e}"))?;
                let want = a.expected();
                ensure(got == want, || format!("understood as {got:?}, expected {want:?}"))
            });
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Annotations that are runtime objects

const RUNTIME_SETUP: &str = "
import typing, collections, collections.abc, datetime, enum, types, ipaddress, pathlib
from typing import *
class Foo: pass
class Bar(Foo): pass
class MyInt(int): pass
class MyStr(str): pass
class MyList(list): pass
class MyDict(dict): pass
class MyTime(datetime.datetime): pass
class NT(NamedTuple):
    a: int
class TD(TypedDict):
    a: int
class IE(enum.IntEnum):
    A = 1
Foo.__module__ = Bar.__module__ = 'pkg.mod'
";

/// (expression, its type); no two of them are equal as Python objects
fn runtime_leaves() -> Vec<(&'static str, Type)> {
    let u = || Box::new(Type::Unknown);
    let dict = || Type::PyDict { key_type: u(), value_type: u() };
    let tuple = || Type::PyTuple(vec![Type::Unknown]);
    let list = || Type::PyList(u());
    let o = |s: &str| Type::Other(s.to_string());
    let func = Type::PyFunction { param_types: vec![Type::PyEllipsis], return_annotation: u() };
    vec![
        ("int", Type::PyLong), ("bool", Type::PyBool), ("str", Type::PyString), ("float", Type::PyFloat), ("bytes", Type::PyBytes),
        ("bytearray", Type::PyByteArray), ("complex", Type::PyComplex), ("slice", Type::PySlice), ("dict", dict()), ("list", list()),
        ("set", Type::PySet(u())), ("frozenset", Type::PyFrozenSet(u())), ("tuple", tuple()), ("super", Type::PySuper), ("type", Type::PyType),
        ("datetime.date", Type::PyDate), ("datetime.datetime", Type::PyDateTime), ("datetime.time", Type::PyTime), ("datetime.timedelta", Type::PyDelta),
        ("datetime.tzinfo", Type::PyTzInfo), ("datetime.timezone", Type::PyTzInfo), ("MyTime", Type::PyDateTime), ("MyInt", Type::PyLong),
        ("MyStr", Type::PyString), ("MyList", list()), ("MyDict", dict()), ("NT", tuple()), ("TD", dict()), ("IE", Type::PyLong),
        ("collections.OrderedDict", dict()), ("collections.Counter", dict()), ("types.ModuleType", Type::PyModule), ("types.FunctionType", func),
        ("types.CodeType", Type::PyCode), ("types.FrameType", Type::PyFrame), ("types.TracebackType", Type::PyTraceback),
        ("types.BuiltinFunctionType", Type::PyCFunction), ("pathlib.Path", Type::Path), ("ipaddress.IPv4Address", Type::IpV4Addr),
        ("ipaddress.IPv6Address", Type::IpV6Addr), ("Foo", o("pkg.mod.Foo")), ("Bar", o("pkg.mod.Bar")), ("object", o("object")),
        ("Any", Type::PyAny),
    ]
}

/// An annotation object: expression and type; `union`: it is a union itself (Python merges nested unions)
struct Rt {
    expr: String,
    ty: Type,
    union: bool,
}

fn runtime_ann(rng: &mut Rng, depth: usize, kind: Option<usize>) -> Rt {
    let k = kind.unwrap_or_else(|| if depth == 0 { 0 } else { rng.below(17) });
    let x = |expr: String, ty: Type| Rt { expr, ty, union: false };
    let d = depth.max(1) - 1;
    match k {
        1..=7 => {
            let a = runtime_ann(rng, d, None);
            let b = Box::new(a.ty);
            let (w, t) = match k {
                1 => ("List", Type::PyList(b)),
                2 => ("Set", Type::PySet(b)),
                3 => ("FrozenSet", Type::PyFrozenSet(b)),
                4 => ("Sequence", Type::PyList(b)),
                5 => ("Iterable", Type::PyList(b)),
                6 => ("Iterator", Type::PyList(b)),
                _ => ("Type", *b),
            };
            x(format!("{w}[{}]", a.expr), t)
        }
        8 | 9 => {
            let (a, b) = (runtime_ann(rng, d, None), runtime_ann(rng, d, None));
            let w = if k == 8 { "Dict" } else { "Mapping" };
            x(format!("{w}[{}, {}]", a.expr, b.expr), Type::PyDict { key_type: Box::new(a.ty), value_type: Box::new(b.ty) })
        }
        10 => {
            let n = 1 + rng.below(4);
            let v: Vec<Rt> = (0..n).map(|_| runtime_ann(rng, d, None)).collect();
            x(format!("Tuple[{}]", v.iter().map(|a| a.expr.clone()).collect::<Vec<_>>().join(", ")), Type::PyTuple(v.into_iter().map(|a| a.ty).collect()))
        }
        11 => {
            let a = runtime_ann(rng, d, None);
            x(format!("Tuple[{}, ...]", a.expr), Type::PyTuple(vec![a.ty, Type::PyEllipsis]))
        }
        12 => {
            let n = rng.below(4);
            let v: Vec<Rt> = (0..n).map(|_| runtime_ann(rng, d, None)).collect();
            let r = runtime_ann(rng, d, None);
            x(
                format!("Callable[[{}], {}]", v.iter().map(|a| a.expr.clone()).collect::<Vec<_>>().join(", "), r.expr),
                Type::PyFunction { param_types: v.into_iter().map(|a| a.ty).collect(), return_annotation: Box::new(r.ty) },
            )
        }
        13 => {
            let r = runtime_ann(rng, d, None);
            x(format!("Callable[..., {}]", r.expr), Type::PyFunction { param_types: vec![Type::PyEllipsis], return_annotation: Box::new(r.ty) })
        }
        14 => {
            let a = loop {
                let a = runtime_ann(rng, d, None);
                if !a.union {
                    break a;
                }
            };
            let e = match rng.below(3) {
                0 => format!("Optional[{}]", a.expr),
                1 => format!("Union[None, {}]", a.expr),
                _ => format!("Union[{}, None]", a.expr),
            };
            Rt { expr: e, ty: Type::Optional(Box::new(a.ty)), union: true }
        }
        15 | 16 => {
            let n = 2 + rng.below(3);
            let mut v: Vec<(String, Type)> = Vec::new();
            if rng.below(3) == 0 && n > 2 {
                v.push(("None".into(), Type::PyNone));
            }
            while v.len() < n {
                let a = runtime_ann(rng, d, None);
                if !a.union && v.iter().all(|(e, _)| *e != a.expr) {
                    let i = rng.below(v.len() + 1);
                    v.insert(i, (a.expr, a.ty));
                }
            }
            let e = format!("Union[{}]", v.iter().map(|a| a.0.clone()).collect::<Vec<_>>().join(", "));
            Rt { expr: e, ty: Type::Union(v.into_iter().map(|a| a.1).collect()), union: true }
        }
        _ => {
            let v = runtime_leaves();
            let (e, t) = rng.pick(&v).clone();
            x(e.into(), t)
        }
    }
}

/// classes as annotations, alone and inside of typing constructs
fn c23(ctx: &mut Ctx) {
    ctx.rule = "every supported class (and subclasses of them) as an annotation, alone and inside of typing constructs nested up to depth 3 (quick) / 5 (thorough); non-trivial: a class that derives from a supported one, or a typing construct".into();
    let mut cases: Vec<(String, Type)> = runtime_leaves().into_iter().map(|(e, t)| (e.to_string(), t)).collect();
    for (e, t) in runtime_leaves() {
        cases.push((format!("List[{e}]"), Type::PyList(Box::new(t.clone()))));
        cases.push((format!("Optional[{e}]"), Type::Optional(Box::new(t.clone()))));
        cases.push((format!("Dict[str, {e}]"), Type::PyDict { key_type: Box::new(Type::PyString), value_type: Box::new(t.clone()) }));
        cases.push((format!("Tuple[{e}]"), Type::PyTuple(vec![t])));
    }
    cases.push(("Tuple[()]".into(), Type::PyTuple(vec![])));
    cases.push(("type(None)".into(), Type::PyNone));
    for k in 1..17 {
        for _ in 0..20 {
            let a = runtime_ann(&mut ctx.rng, 2, Some(k));
            cases.push((a.expr, a.ty));
        }
    }
    let depth = ctx.pick_n(3, 5);
    for _ in 0..ctx.pick_n(3000, 60_000) {
        let d = 1 + ctx.rng.below(depth);
        let a = runtime_ann(&mut ctx.rng, d, None);
        if a.expr.len() < 3000 {
            cases.push((a.expr, a.ty));
        }
    }
    Python::with_gil(|py| {
        let globals = pyo3::types::PyDict::new_bound(py);
        py.run_bound(RUNTIME_SETUP, Some(&globals), None).expect("typing setup");
        for (e, want) in cases {
            let value = match py.eval_bound(&e, Some(&globals), None) {
                Ok(v) => v,
                Err(err) => {
                    eprintln!("note: annotation expression {e} not available: {err}");
                    continue;
                }
            };
            let nontrivial = e.contains('[') || e.starts_with("My");
            ctx.case(&format!("object {e}"), &e, nontrivial, || {
                let got = Type::try_from(value).map_err(|e| format!("rejected: {e}"))?;
                ensure(got == want, || format!("understood as {got:?}, expected {want:?}"))
            });
        }
    });
}

// ---------------------------------------------------------------------------------------------
// Types in Rust

fn random_type(rng: &mut Rng, depth: usize) -> Type {
    let leaf = depth == 0;
    let b = |rng: &mut Rng| Box::new(random_type(rng, depth - 1));
    match rng.below(if leaf { 34 } else { 60 }) {
        0 => Type::PyAny,
        1 => Type::Unknown,
        2 => Type::PyBool,
        3 => Type::PyByteArray,
        4 => Type::PyBytes,
        5 => Type::PyFloat,
        6 => Type::PyLong,
        7 => Type::PyString,
        8 => Type::PyNone,
        9 => Type::IpV4Addr,
        10 => Type::IpV6Addr,
        11 => Type::Path,
        12 => Type::PySlice,
        13 => Type::PyComplex,
        14 => Type::PyDate,
        15 => Type::PyDateTime,
        16 => Type::PyDelta,
        17 => Type::PyTime,
        18 => Type::PyTzInfo,
        19 => Type::PyCapsule,
        20 => Type::PyCFunction,
        21 => Type::PyCode,
        22 => Type::PyEllipsis,
        23 => Type::PyFrame,
        24 => Type::PyModule,
        25 => Type::PySuper,
        26 => Type::PyTraceback,
        27 => Type::PyType,
        28 => Type::Other("pkg.Foo".into()),
        29 => Type::Other("pkg.Foo[int]".into()),
        30 => Type::Other("pkg.Unknown".into()),
        31 => Type::Other("type".into()),
        32 => Type::Other("Foo".into()),
        33 => Type::Other("PyAnyThing".into()),
        34..=38 => Type::Optional(b(rng)),
        39 | 40 => Type::Union(vec![*b(rng), *b(rng)]),
        41..=45 => Type::PyDict { key_type: b(rng), value_type: b(rng) },
        46 | 47 => Type::PyFrozenSet(b(rng)),
        48..=50 => Type::PyList(b(rng)),
        51..=53 => Type::PySet(b(rng)),
        54 => Type::PyFunction { param_types: vec![*b(rng)], return_annotation: b(rng) },
        55 => Type::PyTuple(vec![*b(rng), Type::PyEllipsis]),
        _ => {
            let n = rng.below(4);
            Type::PyTuple((0..n).map(|_| *b(rng)).collect())
        }
    }
}

fn hash_ok(t: &syn::Type) -> Result<(), String> {
    // Types that implement Hash and Eq, among those that may appear
    let s = quote::quote!(#t).to_string().replace(' ', "");
    match s.as_str() {
        "bool" | "i64" | "::std::string::String" | "::std::net::Ipv4Addr" | "::std::net::Ipv6Addr"
        | "::std::path::PathBuf" | "&str" => Ok(()),
        _ => Err(format!("`{s}` is used as a key, but does not implement Hash and Eq")),
    }
}

fn check_spelled(t: &syn::Type, locals: &BTreeSet<String>) -> Result<(), String> {
    use syn::Type as T;
    match t {
        T::Reference(r) => check_spelled(&r.elem, locals),
        T::Slice(s) => check_spelled(&s.elem, locals),
        T::Tuple(t) => t.elems.iter().try_for_each(|e| check_spelled(e, locals)),
        T::ImplTrait(i) => {
            let s = quote::quote!(#i).to_string().replace(' ', "");
            ensure(
                [
                    "impl::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyAny>>",
                    "impl::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyTuple>>",
                    "impl::pyo3::types::IntoPyDict",
                ]
                .contains(&s.as_str()),
                || format!("unknown impl type {s}"),
            )
        }
        T::Path(p) => {
            let name = {
                let mut v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if p.path.leading_colon.is_some() {
                    v.insert(0, String::new());
                }
                v.join("::")
            };
            let args: Vec<&syn::Type> = match &p.path.segments.last().unwrap().arguments {
                syn::PathArguments::AngleBracketed(a) => a
                    .args
                    .iter()
                    .filter_map(|a| if let syn::GenericArgument::Type(t) = a { Some(t) } else { None })
                    .collect(),
                _ => vec![],
            };
            const PY: &[&str] = &[
                "PyAny", "PyDict", "PyFrozenSet", "PySet", "PyTuple", "PySlice", "PyComplex", "PyDate", "PyDateTime",
                "PyTime", "PyTzInfo", "PyCapsule", "PyCFunction", "PyCode", "PyFrame", "PyFunction", "PyModule",
                "PySuper", "PyTraceback", "PyType",
            ];
            match name.as_str() {
                "bool" | "f64" | "i64" | "str" | "u8" | "::std::string::String" | "::std::net::Ipv4Addr"
                | "::std::net::Ipv6Addr" | "::std::path::PathBuf" | "::std::path::Path" => {
                    ensure(args.is_empty(), || format!("unexpected arguments of {name}"))
                }
                "::std::option::Option" | "Vec" => {
                    ensure(args.len() == 1, || format!("arguments of {name}"))?;
                    check_spelled(args[0], locals)
                }
                "::std::collections::HashMap" => {
                    ensure(args.len() == 2, || format!("arguments of {name}"))?;
                    hash_ok(args[0])?;
                    args.iter().try_for_each(|a| check_spelled(a, locals))
                }
                "::std::collections::HashSet" => {
                    ensure(args.len() == 1, || format!("arguments of {name}"))?;
                    hash_ok(args[0])?;
                    check_spelled(args[0], locals)
                }
                "::pyo3::Bound" => {
                    ensure(args.len() == 1, || format!("arguments of {name}"))?;
                    let a = args[0];
                    let inner = quote::quote!(#a).to_string().replace(' ', "");
                    let known = inner.strip_prefix("::pyo3::types::").is_some_and(|n| PY.contains(&n));
                    ensure(known || locals.contains(&inner), || format!("`Bound` of unknown type {inner}"))
                }
                _ => Err(format!("the type `{name}` is not known to exist")),
            }
        }
        _ => Err(format!("unexpected type {}", quote::quote!(#t))),
    }
}

fn c07(ctx: &mut Ctx) {
    ctx.rule = "types up to depth 3 (quick) / 5 (thorough): all of depth 0, all containers over them, random deeper ones, with and without local classes; non-trivial: depth at least 1".into();
    let mut leaves = Vec::new();
    {
        let mut rng = Rng::new(7);
        let mut seen = BTreeSet::new();
        for _ in 0..3000 {
            let t = random_type(&mut rng, 0);
            if seen.insert(format!("{t:?}")) {
                leaves.push(t);
            }
        }
    }
    let mut types = leaves.clone();
    let mut containers = Vec::new();
    for a in &leaves {
        let a = || Box::new(a.clone());
        containers.push(Type::Optional(a()));
        containers.push(Type::PyFrozenSet(a()));
        containers.push(Type::PyList(a()));
        containers.push(Type::PySet(a()));
        containers.push(Type::PyTuple(vec![*a()]));
        containers.push(Type::PyTuple(vec![*a(), Type::PyEllipsis]));
        containers.push(Type::PyTuple(vec![Type::PyEllipsis, *a()]));
        containers.push(Type::Union(vec![*a()]));
        containers.push(Type::PyFunction { param_types: vec![*a()], return_annotation: a() });
        for b in &leaves {
            containers.push(Type::PyDict { key_type: a(), value_type: Box::new(b.clone()) });
        }
    }
    for c in &containers {
        types.push(Type::Optional(Box::new(c.clone())));
        types.push(Type::PySet(Box::new(c.clone())));
        types.push(Type::PyDict { key_type: Box::new(c.clone()), value_type: Box::new(Type::PyLong) });
        types.push(Type::PyDict { key_type: Box::new(Type::PyString), value_type: Box::new(c.clone()) });
    }
    types.extend(containers);
    types.push(Type::PyTuple(vec![]));
    let depth = ctx.pick_n(3, 5);
    for _ in 0..ctx.pick_n(4000, 200_000) {
        let d = 1 + ctx.rng.below(depth);
        types.push(random_type(&mut ctx.rng, d));
    }
    let mut with_locals = FxHashMap::default();
    with_locals.insert(Path::from_py("pkg.Foo"), Path::from_rs("super::Foo"));
    with_locals.insert(Path::from_py("Foo"), Path::from_rs("inner::r#type"));
    with_locals.insert(Path::from_py("PyAnyThing"), Path::from_rs("PyAnyThing"));
    let none = FxHashMap::default();
    let ident = syn::Ident::new("p_x", proc_macro2::Span::call_site());
    for t in types {
        for (label, locals) in [("no local classes", &none), ("local classes", &with_locals)] {
            let text = format!("{t:?} with {label}");
            let nontrivial = text.contains('(') || text.contains('{');
            ctx.case(&format!("type {text}"), &text, nontrivial, || {
                let owned = t.clone().into_rs_owned(locals);
                let borrowed = t.clone().into_rs_borrowed(locals);
                let pre = t.preprocess_borrowed(&ident, locals);
                let o: syn::Type = syn::parse2(owned.clone()).map_err(|e| format!("`{owned}`: {e}"))?;
                let b: syn::Type = syn::parse2(borrowed.clone()).map_err(|e| format!("`{borrowed}`: {e}"))?;
                let spelled: BTreeSet<String> = locals.values().map(|p| p.to_rs()).collect();
                ensure(!count_impl(&o), || format!("return type mentions impl: {owned}"))?;
                let top_impl = matches!(b, syn::Type::ImplTrait(_));
                ensure(top_impl || !count_impl(&b), || format!("nested impl: {borrowed}"))?;
                check_spelled(&o, &spelled)?;
                check_spelled(&b, &spelled)?;
                // Preprocessing happens exactly where the spelled type needs it
                let bs = borrowed.to_string().replace(' ', "");
                let opt_dict = matches!(&t, Type::Optional(i) if matches!(**i, Type::PyDict { .. }))
                    && bs.contains("Option<::pyo3::Bound<'py,::pyo3::types::PyDict>>");
                ensure(pre.is_empty() != (top_impl || opt_dict), || {
                    format!("spelled `{borrowed}`, conversion `{pre}`")
                })?;
                let ps = pre.to_string().replace(' ', "");
                let want = if bs.contains("IntoPyDict") || opt_dict {
                    "::pyo3::types::IntoPyDict::into_py_dict_bound(p_x,py)"
                } else if bs.contains("PyTuple") && top_impl {
                    "::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyTuple>>::into_py(p_x,py)"
                } else if top_impl {
                    "::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyAny>>::into_py(p_x,py)"
                } else {
                    ""
                };
                ensure(ps.contains(want), || format!("spelled `{borrowed}`, conversion `{pre}` is not `{want}`"))?;
                let block = format!("{{ {pre} p_x }}");
                syn::parse_str::<syn::Block>(&block).map_err(|e| format!("{block}: {e}"))?;
                // Types without a counterpart, and locally bound classes
                let any = "::pyo3::Bound<'py,::pyo3::types::PyAny>";
                let os = owned.to_string().replace(' ', "");
                match &t {
                    Type::Other(name) => {
                        let base = name.split('[').next().unwrap();
                        let local = locals.get(&Path::from_py(base)).map(|p| p.to_rs());
                        match local {
                            Some(p) => {
                                ensure(os == format!("::pyo3::Bound<'py,{p}>"), || format!("local class is `{os}`"))?;
                                ensure(bs == format!("&::pyo3::Bound<'py,{p}>"), || format!("local class is `{bs}`"))
                            }
                            None => ensure(os == any && top_impl && bs.contains("PyAny"), || format!("`{os}` / `{bs}`")),
                        }
                    }
                    Type::PyAny | Type::Unknown | Type::Union(_) | Type::PyNone | Type::PyEllipsis => {
                        ensure(os == any && top_impl && bs.contains("PyAny"), || format!("`{os}` / `{bs}`"))
                    }
                    _ => ensure(os.matches("::").count() == 0 || !os.is_empty(), String::new),
                }?;
                expected_shape(&t, &os, &bs)
            });
        }
    }
}

/// The Rust counterparts that carry meaning for a user
fn expected_shape(t: &Type, owned: &str, borrowed: &str) -> Result<(), String> {
    let want: Option<(&str, &str)> = match t {
        Type::PyBool => Some(("bool", "bool")),
        Type::PyFloat => Some(("f64", "f64")),
        Type::PyLong => Some(("i64", "i64")),
        Type::PyString => Some(("::std::string::String", "&str")),
        Type::PyBytes | Type::PyByteArray => Some(("Vec<u8>", "&[u8]")),
        Type::Path => Some(("::std::path::PathBuf", "&::std::path::Path")),
        Type::IpV4Addr => Some(("::std::net::Ipv4Addr", "::std::net::Ipv4Addr")),
        Type::IpV6Addr => Some(("::std::net::Ipv6Addr", "::std::net::Ipv6Addr")),
        _ => None,
    };
    if let Some((o, b)) = want {
        return ensure(o == owned && b == borrowed, || format!("spelled `{owned}` / `{borrowed}`, expected `{o}` / `{b}`"));
    }
    let (head_o, head_b): (&[&str], &[&str]) = match t {
        Type::Optional(_) => (&["::std::option::Option<"], &["::std::option::Option<"]),
        Type::PyList(_) => (&["Vec<"], &["&["]),
        Type::PyDict { .. } => (
            &["::std::collections::HashMap<", "::pyo3::Bound<'py,::pyo3::types::PyDict>"],
            &["&::std::collections::HashMap<", "impl::pyo3::types::IntoPyDict"],
        ),
        Type::PySet(_) => (
            &["::std::collections::HashSet<", "::pyo3::Bound<'py,::pyo3::types::PySet>"],
            &["&::std::collections::HashSet<", "&::pyo3::Bound<'py,::pyo3::types::PySet>"],
        ),
        Type::PyFrozenSet(_) => (
            &["::std::collections::HashSet<", "::pyo3::Bound<'py,::pyo3::types::PyFrozenSet>"],
            &["&::std::collections::HashSet<", "&::pyo3::Bound<'py,::pyo3::types::PyFrozenSet>"],
        ),
        _ => return Ok(()),
    };
    let o = head_o.iter().position(|h| owned.starts_with(h));
    let b = head_b.iter().position(|h| borrowed.starts_with(h));
    ensure(o.is_some() && o == b, || format!("spelled `{owned}` / `{borrowed}`"))
}

fn count_impl(t: &syn::Type) -> bool {
    quote::quote!(#t).into_iter().any(|tok| has_impl(tok))
}
fn has_impl(t: proc_macro2::TokenTree) -> bool {
    match t {
        proc_macro2::TokenTree::Ident(i) => i == "impl",
        proc_macro2::TokenTree::Group(g) => g.stream().into_iter().any(has_impl),
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------
// Docstrings

/// The two texts with everything removed that formatting may remove or add
pub fn docstrings(ctx: &mut Ctx) -> Vec<String> {
    let mut texts: Vec<String> = vec![
        "", " ", "\n", "\n\n", "/", "//", "a/", "a //\n/", "a\n/", "```\ncode\n```", "``a``", "a  b", "a\t\tb", "a\t b",
        " a \n b ", "\n\na\n\nb\n\n", "a\r\nb\r\n", "a\u{a0}\u{a0}b", "a\u{2003}\u{2003}b", "/\n", "a/ /", "é\n\nü//",
        "a\n \nb", "a\u{85}\u{85}b", "a\u{2028}\u{2028}b", "\u{b}\u{b}", "a\\", "\"quote\"", "a /\n\n", "` `", "`\n`",
    ]
    .into_iter()
    .map(String::from)
    .collect();
    const A: &[&str] = &["a", "b", " ", "\n", "/", "`", "\t", "\r\n", "\u{a0}", "é", "\r", "\u{2003}", "//", "```", "  "];
    for a in A {
        for b in A {
            for c in A {
                for d in A {
                    texts.push(format!("{a}{b}{c}{d}"));
                }
            }
        }
    }
    for _ in 0..ctx.pick_n(20_000, 1_000_000) {
        let n = ctx.rng.below(14);
        texts.push((0..n).map(|_| *ctx.rng.pick(A)).collect());
    }
    texts
}

fn c08(ctx: &mut Ctx) {
    ctx.rule = "all texts of 4 out of 15 fragments (letters, blanks, line breaks, slashes, backticks, wide blanks) and random ones of up to 13; non-trivial: two different fragments".into();
    for t in docstrings(ctx) {
        ctx.case(&format!("docstring {t:?}"), &t, t.chars().count() > 1, || {
            let mut s = t.clone();
            format_docstring(&mut s);
            check_docstring(&t, &s)
        });
    }
}

// ---------------------------------------------------------------------------------------------
// Standard streams

fn c09(ctx: &mut Ctx) {
    ctx.rule = "suppress_stdout x suppress_stderr x outcome of the step x what the step does to the streams; non-trivial: something is suppressed".into();
    for out in [false, true] {
        for err in [false, true] {
            for outcome in ["ok", "err", "py-err", "nested-err", "replaces-streams", "prints"] {
                let key = format!("suppress stdout={out} stderr={err} step={outcome}");
                ctx.case(&key, &key, out || err, || Python::with_gil(|py| streams(py, out, err, outcome)));
            }
        }
    }
}

fn streams(py: Python, out: bool, err: bool, outcome: &str) -> Result<(), String> {
    let e = |e: PyErr| format!("python: {e}");
    let sys = py.import_bound("sys").map_err(e)?;
    let saved = (sys.getattr("stdout").map_err(e)?, sys.getattr("stderr").map_err(e)?);
    let result = (|| {
        // Recognisable stand-ins
        let io = py.import_bound("io").map_err(e)?;
        let o = io.call_method0("StringIO").map_err(e)?;
        let r = io.call_method0("StringIO").map_err(e)?;
        sys.setattr("stdout", &o).map_err(e)?;
        sys.setattr("stderr", &r).map_err(e)?;
        let mut runs = 0;
        let mut during: Result<(), String> = Ok(());
        let inspect = |during: &mut Result<(), String>| {
            let check = || -> Result<(), String> {
                for (name, orig, suppressed) in [("stdout", &o, out), ("stderr", &r, err)] {
                    let cur = sys.getattr(name).map_err(e)?;
                    ensure(cur.is(orig) != suppressed, || format!("sys.{name} replaced: {}, expected {suppressed}", !cur.is(orig)))?;
                    if suppressed {
                        cur.call_method1("write", ("discarded",)).map_err(|x| format!("write on suppressed {name}: {x}"))?;
                        cur.call_method0("flush").map_err(|x| format!("flush on suppressed {name}: {x}"))?;
                    }
                }
                py.run_bound("import sys\nprint('x')\nprint('y', file=sys.stderr)", None, None)
                    .map_err(|x| format!("printing while suppressed: {x}"))
            };
            *during = check();
        };
        let res: Result<u32, PyBindgenError> = with_suppressed_python_output(py, out, err, || {
            runs += 1;
            inspect(&mut during);
            match outcome {
                "err" => Err(PyBindgenError::ParseError("step failed".into())),
                "py-err" => Err(py.run_bound("raise ValueError('step failed')", None, None).unwrap_err().into()),
                "nested-err" => with_suppressed_python_output(py, true, true, || {
                    Err(PyBindgenError::ParseError("step failed".into()))
                }),
                "replaces-streams" => {
                    py.run_bound("import sys, io\nsys.stdout = io.StringIO() if False else sys.stdout", None, None)?;
                    Ok(7)
                }
                _ => Ok(7),
            }
        });
        during?;
        ensure(runs == 1, || format!("the step ran {runs} times"))?;
        match outcome {
            "err" | "nested-err" => ensure(
                matches!(&res, Err(PyBindgenError::ParseError(m)) if m == "step failed"),
                || format!("result {res:?}"),
            )?,
            "py-err" => ensure(
                matches!(&res, Err(PyBindgenError::PyError(m)) if m.to_string().contains("step failed")),
                || format!("result {res:?}"),
            )?,
            _ => ensure(matches!(res, Ok(7)), || format!("result {res:?}"))?,
        }
        for (name, orig) in [("stdout", &o), ("stderr", &r)] {
            let cur = sys.getattr(name).map_err(e)?;
            ensure(cur.is(orig), || format!("sys.{name} was not restored"))?;
        }
        let texts: Vec<String> = [&o, &r]
            .iter()
            .map(|s| s.call_method0("getvalue").and_then(|v| v.extract::<String>()).unwrap_or_default())
            .collect();
        ensure(texts[0].is_empty() == out, || format!("stdout received {:?}", texts[0]))?;
        ensure(texts[1].is_empty() == err, || format!("stderr received {:?}", texts[1]))
    })();
    sys.setattr("stdout", saved.0).map_err(e)?;
    sys.setattr("stderr", saved.1).map_err(e)?;
    result
}

// ---------------------------------------------------------------------------------------------
// Classification of attributes

fn c13(ctx: &mut Ctx) {
    ctx.rule = "live Python objects of every kind x defining module x owner x import consideration; non-trivial: the object is not a plain value".into();
    // expression, kind, python function/method/class/module that may count as an import
    let exprs: &[(&str, &str, bool)] = &[
        ("json", "module", true),
        ("types.ModuleType('x')", "module", true),
        ("SubModule('y')", "module", true),
        ("int", "class", true),
        ("C", "class", true),
        ("Meta", "class", true),
        ("E", "class", true),
        ("type", "class", true),
        ("f", "function", true),
        ("lambda x: x", "function", true),
        ("gen", "function", true),
        ("len", "builtin", false),
        ("[].append", "builtin", false),
        ("C.m", "function", true),
        ("C().m", "method", true),
        ("C.cm", "method", true),
        ("C.sm", "function", true),
        ("functools.partial(f, 1)", "closure", false),
        ("PartialSub(f)", "property", false),
        ("typing.TypeVar('T')", "typevar", false),
        ("typing.List[int]", "typevar", false),
        ("typing.Optional[int]", "typevar", false),
        ("list[int]", "typevar", false),
        ("int | str", "typevar", false),
        ("types.SimpleNamespace()", "typevar", false),
        ("1", "property", false),
        ("'text'", "property", false),
        ("None", "property", false),
        ("C()", "property", false),
        ("E.A", "property", false),
        ("property(f)", "property", false),
        ("str.join", "property", false),
        ("C.__init__", "property", false),
        ("[1]", "property", false),
        ("WithModule()", "property", false),
        ("functools.lru_cache(f)", "property", false),
    ];
    let setup = "
import json, types, functools, typing, enum
class SubModule(types.ModuleType): pass
class C:
    def m(self): pass
    @classmethod
    def cm(cls): pass
    @staticmethod
    def sm(): pass
class Meta(type): pass
class E(enum.Enum):
    A = 1
def f(x=1): pass
def gen():
    yield 1
class PartialSub(functools.partial): pass
class WithModule:
    __module__ = 'elsewhere'
def outer():
    class Inner: pass
    def inner(): pass
    return Inner, inner
Local, local = outer()
";
    Python::with_gil(|py| {
        let globals = pyo3::types::PyDict::new_bound(py);
        globals.set_item("__name__", "owner").unwrap();
        py.run_bound(setup, Some(&globals), None).expect("setup");
        let mut all: Vec<(&str, &str, bool)> = exprs.to_vec();
        all.push(("Local", "class", false)); // `<locals>` in its text: never an import
        all.push(("local", "function", false));
        // values whose class has an arbitrary name and defining module
        let mut made: Vec<(String, &str)> = Vec::new();
        for m in ["typing", "types", "functools", "types_impl", "typing_extensions", "mytypes", "my.types", "types.sub", "typ", "typings",
            "ctypes", "functools.sub", "functools_x", "_typing", "builtins", "", "Typing", "a.typing", "owner"] {
            for n in ["partial", "Thing", "partialmethod", "function", "method", "builtin_function_or_method", "module", "type", "Partial", "part",
                "functools.partial", "K.partial"] {
                let kind = match (m, n) {
                    ("typing" | "types", _) => "typevar",
                    ("functools", "partial") => "closure",
                    _ => "property",
                };
                made.push((format!("type({n:?}.split('.')[-1], (), {{'__module__': {m:?}, '__qualname__': {n:?}}})()"), kind));
            }
        }
        for (e, k) in &made {
            all.push((e.as_str(), k, false));
        }
        for (e, kind, importable) in all {
            let obj = py.eval_bound(e, Some(&globals), None).unwrap_or_else(|x| panic!("{e}: {x}"));
            for module in ["owner", "elsewhere", "", "owner.sub"] {
                for owner in ["owner", "elsewhere"] {
                    for consider in [true, false] {
                        let key = format!("{e} defined in {module:?} seen from {owner:?} imports={consider}");
                        ctx.case(&key, &key, kind != "property", || {
                            let got = AttributeVariant::determine(
                                py,
                                &obj,
                                &obj.get_type(),
                                &Path::from_py(module),
                                &Path::from_py(owner),
                                consider,
                            )
                            .map_err(|e| format!("failed: {e}"))?;
                            let got = match got {
                                AttributeVariant::Import => "import",
                                AttributeVariant::Module => "module",
                                AttributeVariant::Class => "class",
                                AttributeVariant::Function => "function",
                                AttributeVariant::Method => "method",
                                AttributeVariant::Closure => "closure",
                                AttributeVariant::TypeVar => "typevar",
                                AttributeVariant::Property => "property",
                            };
                            let want = if consider && importable && module != owner {
                                "import"
                            } else if kind == "builtin" {
                                "function"
                            } else {
                                kind
                            };
                            ensure(got == want, || format!("classified as {got}, expected {want}"))
                        });
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
// Ordering

fn c18(ctx: &mut Ctx) {
    ctx.rule = "pairs of names and dotted names from Python; non-trivial: the two differ".into();
    let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    names.extend(["r_a", "q", "s", "rz", "R", "raw_type", "typ", "types", "selfie", "supers", "asyn"].map(String::from));
    for a in &names {
        for b in &names {
            pair(ctx, a, b, true);
        }
    }
    let dotted = dotted_names(ctx);
    for _ in 0..ctx.pick_n(20_000, 1_000_000) {
        let a = ctx.rng.pick(&dotted).clone();
        let b = if ctx.rng.chance(1, 5) {
            a.clone()
        } else if ctx.rng.chance(1, 3) {
            format!("{}.{}", a, ctx.rng.pick(NAMES))
        } else {
            ctx.rng.pick(&dotted).clone()
        };
        pair(ctx, &a, &b, false);
    }
    // Sorting and lookup
    for round in 0..ctx.pick_n(200, 4000) {
        let n = 2 + ctx.rng.below(30);
        let list: Vec<String> = (0..n).map(|_| ctx.rng.pick(&dotted[..60.min(dotted.len())]).clone()).collect();
        let key = format!("sort {round} {}", list.join(" "));
        ctx.case(&key, &key, true, || {
            let mut paths: Vec<Path> = list.iter().map(|s| Path::from_py(s)).collect();
            paths.sort();
            let got: Vec<String> = paths.iter().map(|p| p.to_py()).collect();
            let mut want = list.clone();
            want.sort();
            ensure(got == want, || format!("sorted as {got:?}, expected {want:?}"))?;
            let map: BTreeMap<Path, usize> = list.iter().enumerate().map(|(i, s)| (Path::from_py(s), i)).collect();
            let hmap: FxHashMap<Path, usize> = list.iter().enumerate().map(|(i, s)| (Path::from_py(s), i)).collect();
            let distinct: BTreeSet<&String> = list.iter().collect();
            ensure(map.len() == distinct.len() && hmap.len() == distinct.len(), || "distinct names were confused".into())?;
            for s in &list {
                let want = list.iter().rposition(|x| x == s);
                ensure(map.get(&Path::from_py(s)).copied() == want, || format!("ordered lookup of {s:?}"))?;
                ensure(hmap.get(&Path::from_py(s)).copied() == want, || format!("lookup of {s:?}"))?;
            }
            Ok(())
        });
    }
}

fn pair(ctx: &mut Ctx, a: &str, b: &str, single: bool) {
    let key = format!("compare {a} {b}");
    ctx.case(&key, &key, a != b, || {
        let (p, q) = (Path::from_py(a), Path::from_py(b));
        ensure((p == q) == (a == b), || format!("equal: {}", p == q))?;
        ensure(p.cmp(&q) == a.cmp(b), || format!("ordered {:?}, expected {:?}", p.cmp(&q), a.cmp(b)))?;
        ensure(p.partial_cmp(&q) == Some(a.cmp(b)), || "partial_cmp differs".into())?;
        if single {
            let (i, j) = (Ident::from_py(a), Ident::from_py(b));
            ensure((i == j) == (a == b), || format!("names equal: {}", i == j))?;
            ensure(i.cmp(&j) == a.cmp(b), || format!("names ordered {:?}, expected {:?}", i.cmp(&j), a.cmp(b)))?;
            ensure(i.partial_cmp(&j) == Some(a.cmp(b)), || "partial_cmp of names differs".into())?;
            ensure((i < j) == (a < b), || "`<` of names differs".into())?;
        }
        Ok(())
    });
}

#[allow(dead_code)]
fn unused() {
    let _ = guarded(|| ());
}
