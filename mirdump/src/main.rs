//! rustc driver: dumps the MIR that rustc builds from the engine's current source
//! (`mir_promoted`, i.e. after type checking and match lowering, before any optimisation)
//! as JSON.  Nothing is rewritten: unwinding edges, `StorageLive/Dead`, `FakeRead` and user
//! type ascriptions are the only things left out.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir;
use rustc_middle::ty::{self, print::with_no_trimmed_paths, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

/// block-local statics share their printed path, so the full definition path names them
fn static_name(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("static {}", tcx.def_path(d).to_string_no_crate_verbose())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn gargs(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let tys: Vec<Ty<'tcx>> = args.iter().filter_map(|a| a.as_type()).collect();
        arr(tys.into_iter().map(|t| self.ty(t).to_string()))
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let did = def.did();
        if self.adts.contains_key(&did) {
            return;
        }
        self.adts.insert(did, String::new());
        let local = did.is_local();
        let tcx = self.tcx;
        let ident = ty::GenericArgs::identity_for_item(tcx, did);
        let mut vs = Vec::new();
        if !def.is_union() {
            for v in def.variants().iter() {
                let mut fs = Vec::new();
                for f in v.fields.iter() {
                    let t = if local {
                        let ft = tcx.type_of(f.did).instantiate(tcx, ident).skip_norm_wip();
                        self.ty(ft).to_string()
                    } else {
                        "null".into()
                    };
                    fs.push(format!("{{\"name\":{},\"ty\":{}}}", js(f.name.as_str()), t));
                }
                vs.push(format!("{{\"name\":{},\"fields\":{}}}", js(v.name.as_str()), arr(fs)));
            }
        }
        let kind = if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" };
        let discrs = if def.is_enum() {
            arr(def.discriminants(tcx).map(|(_, d)| d.val.to_string()))
        } else {
            "[]".into()
        };
        let generics = tcx.generics_of(did).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count();
        let s = format!(
            "{{\"kind\":\"{}\",\"local\":{},\"generics\":{},\"discrs\":{},\"variants\":{}}}",
            kind, local, generics, discrs, arr(vs)
        );
        self.adts.insert(did, s);
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, i);
        let disp = with_no_trimmed_paths!(format!("{}", t));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Int(x) => format!("\"k\":\"int\",\"name\":\"{}\"", x.name_str()),
            ty::Uint(x) => format!("\"k\":\"uint\",\"name\":\"{}\"", x.name_str()),
            ty::Float(x) => format!("\"k\":\"float\",\"name\":\"{}\"", x.name_str()),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Adt(def, args) => {
                self.adt(def);
                let p = self.path(def.did());
                let a = self.gargs(args);
                format!("\"k\":\"adt\",\"name\":{},\"local\":{},\"args\":{}", js(&p), def.did().is_local(), a)
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(inner);
                format!("\"k\":\"ref\",\"mut\":{},\"ty\":{}", m.is_mut(), i)
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(inner);
                format!("\"k\":\"ptr\",\"mut\":{},\"ty\":{}", m.is_mut(), i)
            }
            ty::Slice(e) => {
                let i = self.ty(e);
                format!("\"k\":\"slice\",\"ty\":{}", i)
            }
            ty::Array(e, n) => {
                let i = self.ty(e);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"ty\":{},\"len\":{}", i, n)
            }
            ty::Tuple(ts) => {
                let v: Vec<Ty<'tcx>> = ts.iter().collect();
                let a = arr(v.into_iter().map(|t| self.ty(t).to_string()));
                format!("\"k\":\"tuple\",\"args\":{}", a)
            }
            ty::Closure(did, args) => {
                let c = args.as_closure();
                let ups: Vec<Ty<'tcx>> = c.upvar_tys().iter().collect();
                let kind = format!("{:?}", c.kind_ty().to_opt_closure_kind());
                let u = arr(ups.into_iter().map(|t| self.ty(t).to_string()));
                format!("\"k\":\"closure\",\"name\":{},\"upvars\":{},\"ckind\":{}", js(&self.path(did)), u, js(&kind))
            }
            ty::FnDef(did, args) => {
                let args: GenericArgsRef<'tcx> = self.tcx.erase_and_anonymize_regions(args.skip_binder());
                let s = self.fndef(did, args);
                format!("\"k\":\"fndef\",{}", s)
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", js(p.name.as_str())),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Alias(..) => "\"k\":\"alias\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        self.types[i] = format!("{{{},\"s\":{}}}", body, js(&disp));
        i
    }
    fn fndef(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let a = self.gargs(args);
        let is_trait = tcx.trait_of_assoc(did).is_some();
        let mut s = format!("\"name\":{},\"args\":{},\"trait\":{}", js(&self.path(did)), a, is_trait);
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
                s.push_str(",\"ctor\":true");
                let parent = tcx.parent(did);
                let (adt, var) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                    let adt = tcx.parent(parent);
                    (adt, tcx.adt_def(adt).variant_index_with_id(parent).as_usize())
                } else {
                    (parent, 0)
                };
                self.adt(tcx.adt_def(adt));
                let p = self.path(adt);
                let _ = write!(s, ",\"adt\":{},\"variant\":{}", js(&p), var);
            } else if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, did, args) {
                let rd = inst.def_id();
                let kind = format!("{:?}", inst.def);
                let kind = kind.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                let ra = self.gargs(inst.args);
                let derived = tcx.impl_of_assoc(rd).is_some_and(|i| tcx.is_automatically_derived(i));
                let _ = write!(
                    s,
                    ",\"res\":{},\"reskind\":{},\"reslocal\":{},\"resargs\":{},\"derived\":{}",
                    js(&self.path(rd)), js(&kind), rd.is_local(), ra, derived
                );
            }
        }
        s
    }

    fn scalar_json(&self, ty: Ty<'tcx>, s: mir::interpret::Scalar) -> Option<String> {
        let int = s.try_to_scalar_int().ok()?;
        Some(match ty.kind() {
            ty::Bool => format!("{{\"c\":\"bool\",\"v\":{}}}", int.try_to_bool().ok()?),
            ty::Char => format!("{{\"c\":\"char\",\"v\":{}}}", int.to_u32()),
            ty::Uint(_) => format!("{{\"c\":\"int\",\"v\":\"{}\"}}", int.to_bits(int.size())),
            ty::Int(_) => format!("{{\"c\":\"int\",\"v\":\"{}\"}}", int.to_int(int.size())),
            _ => return None,
        })
    }

    fn cval(&mut self, val: mir::ConstValue, ty: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let unk = |_w: &str| "{\"c\":\"unknown\"}".to_string();
        match *ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sc = match val {
                    mir::ConstValue::Scalar(s) => Some(s),
                    mir::ConstValue::Indirect { alloc_id, offset } => {
                        let alloc = tcx.global_alloc(alloc_id).unwrap_memory();
                        let size = match *ty.kind() {
                            ty::Bool => rustc_abi::Size::from_bytes(1),
                            ty::Char => rustc_abi::Size::from_bytes(4),
                            _ => ty.primitive_size(tcx),
                        };
                        alloc.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, size), false).ok()
                    }
                    _ => None,
                };
                sc.and_then(|s| self.scalar_json(ty, s)).unwrap_or_else(|| unk("scalar"))
            }
            ty::Ref(_, inner, _) if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) => {
                // &str and &[T]
                if inner.is_str() {
                    if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                        if let Ok(s) = std::str::from_utf8(b) {
                            return format!("{{\"c\":\"str\",\"v\":{}}}", js(s));
                        }
                    }
                }
                let (ptr, len): (Option<(mir::interpret::AllocId, rustc_abi::Size)>, u64) = match val {
                    mir::ConstValue::Slice { alloc_id, meta } => (Some((alloc_id, rustc_abi::Size::ZERO)), meta),
                    mir::ConstValue::Indirect { alloc_id, offset } => {
                        let a = tcx.global_alloc(alloc_id).unwrap_memory();
                        let a = a.inner();
                        let ps = tcx.data_layout.pointer_size();
                        let p = a.read_scalar(&tcx, mir::interpret::alloc_range(offset, ps), true).ok();
                        let l = a.read_scalar(&tcx, mir::interpret::alloc_range(offset + ps, ps), false).ok();
                        match (p, l) {
                            (Some(p), Some(l)) => match (Some(p.to_pointer(&tcx)), l.to_target_usize(&tcx).discard_err()) {
                                (Some(p), Some(l)) => match p.into_pointer_or_addr() {
                                    Ok(p) => {
                                        let (prov, off) = p.into_raw_parts();
                                        (Some((mir::interpret::Provenance::get_alloc_id(prov).unwrap(), off)), l)
                                    }
                                    Err(_) => (None, l),
                                },
                                _ => return unk("slice"),
                            },
                            _ => return unk("slice"),
                        }
                    }
                    _ => return unk("slice"),
                };
                if inner.is_str() {
                    let Some((aid, off)) = ptr else { return "{\"c\":\"str\",\"v\":\"\"}".into() };
                    let a = tcx.global_alloc(aid).unwrap_memory();
                    let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                        off.bytes_usize()..off.bytes_usize() + len as usize,
                    );
                    return match std::str::from_utf8(bytes) {
                        Ok(s) => format!("{{\"c\":\"str\",\"v\":{}}}", js(s)),
                        Err(_) => unk("utf8"),
                    };
                }
                let ty::Slice(elem) = *inner.kind() else { unreachable!() };
                if len == 0 {
                    return "{\"c\":\"seq\",\"v\":[]}".into();
                }
                let Some((aid, off)) = ptr else { return unk("slice") };
                let Ok(layout) = tcx.layout_of(self.env.as_query_input(elem)) else { return unk("layout") };
                let sz = layout.size;
                let mut v = Vec::new();
                for i in 0..len {
                    let o = off + sz * i;
                    v.push(self.cval(mir::ConstValue::Indirect { alloc_id: aid, offset: o }, elem));
                }
                format!("{{\"c\":\"seq\",\"v\":{}}}", arr(v))
            }
            ty::Ref(_, inner, _) => {
                let sc = match val {
                    mir::ConstValue::Scalar(s) => Some(s),
                    mir::ConstValue::Indirect { alloc_id, offset } => {
                        let alloc = tcx.global_alloc(alloc_id).unwrap_memory();
                        let ps = tcx.data_layout.pointer_size();
                        alloc.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, ps), true).ok()
                    }
                    _ => None,
                };
                let Some(sc) = sc else { return unk("ref") };
                let p = sc.to_pointer(&tcx);
                match p.into_pointer_or_addr() {
                    Ok(p) => {
                        let (prov, off) = p.into_raw_parts();
                        let aid = mir::interpret::Provenance::get_alloc_id(prov).unwrap();
                        match tcx.global_alloc(aid) {
                            mir::interpret::GlobalAlloc::Memory(_) => {
                                let v = self.cval(mir::ConstValue::Indirect { alloc_id: aid, offset: off }, inner);
                                format!("{{\"c\":\"ref\",\"v\":{}}}", v)
                            }
                            mir::interpret::GlobalAlloc::Static(d) => {
                                format!("{{\"c\":\"static\",\"name\":{}}}", js(&static_name(tcx, d)))
                            }
                            _ => unk("ref"),
                        }
                    }
                    Err(_) => {
                        // dangling reference to a ZST
                        let v = self.cval(mir::ConstValue::ZeroSized, inner);
                        format!("{{\"c\":\"ref\",\"v\":{}}}", v)
                    }
                }
            }
            ty::FnDef(did, args) => {
                let args: GenericArgsRef<'tcx> = tcx.erase_and_anonymize_regions(args.skip_binder());
                format!("{{\"c\":\"fn\",{}}}", self.fndef(did, args))
            }
            ty::Closure(..) => "{\"c\":\"zst\"}".into(),
            ty::Tuple(ts) if ts.is_empty() => "{\"c\":\"tuple\",\"v\":[]}".into(),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(d, _) = ty.kind() {
                    if d.is_union() {
                        return unk("union");
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(val, ty) {
                    Some(d) => {
                        let fields: Vec<(mir::ConstValue, Ty<'tcx>)> = d.fields.to_vec();
                        let fs = arr(fields.into_iter().map(|(v, t)| self.cval(v, t)));
                        match ty.kind() {
                            ty::Adt(def, _) => {
                                self.adt(*def);
                                format!(
                                    "{{\"c\":\"adt\",\"name\":{},\"variant\":{},\"v\":{}}}",
                                    js(&self.path(def.did())),
                                    d.variant.map(|v| v.as_usize()).unwrap_or(0),
                                    fs
                                )
                            }
                            ty::Tuple(_) => format!("{{\"c\":\"tuple\",\"v\":{}}}", fs),
                            _ => format!("{{\"c\":\"seq\",\"v\":{}}}", fs),
                        }
                    }
                    None => unk("destructure"),
                }
            }
            _ => unk("ty"),
        }
    }

    fn has_param(ty: Ty<'tcx>) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        ty.has_param()
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> String {
        let ty = c.const_.ty();
        let t = self.ty(ty);
        let extra = match c.const_ {
            mir::Const::Unevaluated(u, _) if u.promoted.is_none() => format!(",\"def\":{}", js(&self.path(u.def))),
            mir::Const::Unevaluated(u, _) => format!(
                ",\"promoted\":{}",
                js(&format!("{}::{{promoted#{}}}", self.path(u.def), u.promoted.unwrap().as_usize()))
            ),
            _ => String::new(),
        };
        let v = match *ty.kind() {
            ty::FnDef(..) | ty::Closure(..) => self.cval(mir::ConstValue::ZeroSized, ty),
            _ if Self::has_param(ty) => "{\"c\":\"unknown\"}".into(),
            _ => {
                use rustc_middle::ty::TypeVisitableExt;
                if c.const_.has_param() {
                    "{\"c\":\"unknown\"}".into()
                } else {
                    match c.const_.eval(self.tcx, self.env, c.span) {
                        Ok(v) => self.cval(v, ty),
                        Err(_) => "{\"c\":\"unknown\"}".into(),
                    }
                }
            }
        };
        format!("{{\"o\":\"const\",\"ty\":{}{},\"val\":{}}}", t, extra, v)
    }
    fn place(&mut self, p: &mir::Place<'tcx>) -> String {
        let mut els = Vec::new();
        for e in p.projection.iter() {
            els.push(match e {
                mir::ProjectionElem::Deref => "[\"deref\"]".to_string(),
                mir::ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"field\",{},{}]", f.as_usize(), t)
                }
                mir::ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                mir::ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    format!("[\"cindex\",{},{},{}]", offset, from_end, min_length)
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"subslice\",{},{},{}]", from, to, from_end)
                }
                mir::ProjectionElem::Downcast(_, v) => format!("[\"downcast\",{}]", v.as_usize()),
                mir::ProjectionElem::OpaqueCast(_) => "[\"cast\"]".to_string(),
                _ => "[\"other\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(els))
    }
    fn operand(&mut self, o: &mir::Operand<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            mir::Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            mir::Operand::Constant(c) => self.constant(c),
            _ => "{\"o\":\"other\"}".into(),
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> String {
        match r {
            mir::Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(o)),
            mir::Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.operand(o), n)
            }
            mir::Rvalue::Ref(_, k, p) => {
                let (m, fake) = match k {
                    mir::BorrowKind::Shared => (false, false),
                    mir::BorrowKind::Fake(_) => (false, true),
                    _ => (true, false),
                };
                format!("{{\"r\":\"ref\",\"mut\":{},\"fake\":{},\"p\":{}}}", m, fake, self.place(p))
            }
            mir::Rvalue::RawPtr(k, p) => {
                format!("{{\"r\":\"rawptr\",\"mut\":{},\"p\":{}}}", matches!(k, mir::RawPtrKind::Mut), self.place(p))
            }
            mir::Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                let fty = match o {
                    mir::Operand::Constant(c) => self.ty(c.const_.ty()).to_string(),
                    _ => "null".into(),
                };
                format!("{{\"r\":\"cast\",\"kind\":{},\"a\":{},\"ty\":{},\"from\":{}}}", js(&format!("{:?}", k)), self.operand(o), t, fty)
            }
            mir::Rvalue::BinaryOp(op, ab) => {
                format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", op, self.operand(&ab.0), self.operand(&ab.1))
            }
            mir::Rvalue::UnaryOp(op, a) => format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(a)),
            mir::Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            mir::Rvalue::Aggregate(k, ops) => {
                let a = arr(ops.iter().map(|o| self.operand(o)).collect::<Vec<_>>());
                let kind = match **k {
                    mir::AggregateKind::Array(_) => "\"kind\":\"array\"".to_string(),
                    mir::AggregateKind::Tuple => "\"kind\":\"tuple\"".to_string(),
                    mir::AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(d);
                        self.adt(def);
                        let ga = self.gargs(args);
                        format!("\"kind\":\"adt\",\"name\":{},\"variant\":{},\"targs\":{}", js(&self.path(d)), v.as_usize(), ga)
                    }
                    mir::AggregateKind::Closure(d, _) => format!("\"kind\":\"closure\",\"name\":{}", js(&self.path(d))),
                    _ => "\"kind\":\"other\"".to_string(),
                };
                format!("{{\"r\":\"agg\",{},\"a\":{}}}", kind, a)
            }
            mir::Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p)),
            mir::Rvalue::Reborrow(_, m, p) => {
                format!("{{\"r\":\"ref\",\"mut\":{},\"fake\":false,\"p\":{}}}", m.is_mut(), self.place(p))
            }
            _ => format!("{{\"r\":\"other\",\"s\":{}}}", js(&format!("{:?}", r))),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn body(&mut self, did: LocalDefId, body: &mir::Body<'tcx>, sfx: &str) -> String {
        let tcx = self.tcx;
        let d = did.to_def_id();
        let name = if matches!(tcx.def_kind(d), DefKind::Static { .. }) { format!("{}{}", static_name(tcx, d), sfx) } else { format!("{}{}", self.path(d), sfx) };
        let locals = arr(body.local_decls.iter().map(|l| l.ty).collect::<Vec<_>>().into_iter().map(|t| self.ty(t).to_string()));
        let mut dbg = Vec::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(format!("[{},{}]", js(v.name.as_str()), self.place(p)));
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        st.push(format!("[{},{}]", self.place(p), self.rvalue(r)));
                    }
                    mir::StatementKind::SetDiscriminant { .. } | mir::StatementKind::Intrinsic(..) => {
                        st.push(format!("[null,{{\"r\":\"other\",\"s\":{}}}]", js(&format!("{:?}", s.kind))));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.line(t.source_info.span);
            let tj = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => format!("\"t\":\"goto\",\"to\":{}", target.as_usize()),
                mir::TerminatorKind::FalseEdge { real_target, .. } | mir::TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize())
                }
                mir::TerminatorKind::Drop { target, place, .. } => {
                    format!("\"t\":\"goto\",\"to\":{},\"drop\":{}", target.as_usize(), self.place(place))
                }
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(ty);
                    let vals = arr(targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())));
                    format!(
                        "\"t\":\"switch\",\"d\":{},\"dty\":{},\"vals\":{},\"other\":{}",
                        self.operand(discr), ti, vals, targets.otherwise().as_usize()
                    )
                }
                mir::TerminatorKind::Return => "\"t\":\"return\"".into(),
                mir::TerminatorKind::Unreachable => "\"t\":\"unreachable\"".into(),
                mir::TerminatorKind::UnwindResume | mir::TerminatorKind::UnwindTerminate(_) => "\"t\":\"resume\"".into(),
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = arr(args.iter().map(|a| self.operand(&a.node)).collect::<Vec<_>>());
                    let tys: Vec<Ty<'tcx>> = args.iter().map(|a| a.node.ty(&body.local_decls, tcx)).collect();
                    let at = arr(tys.into_iter().map(|t| self.ty(t).to_string()));
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    let to = target.map(|b| b.as_usize().to_string()).unwrap_or("null".into());
                    format!(
                        "\"t\":\"call\",\"f\":{},\"a\":{},\"at\":{},\"dest\":{},\"dt\":{},\"to\":{}",
                        f, a, at, self.place(destination), dt, to
                    )
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = format!("{:?}", msg);
                    let k2: String = k.chars().take(120).collect();
                    format!(
                        "\"t\":\"assert\",\"c\":{},\"exp\":{},\"msg\":{},\"to\":{}",
                        self.operand(cond), expected, js(&k2), target.as_usize()
                    )
                }
                k => format!("\"t\":\"other\",\"s\":{}", js(&format!("{:?}", k))),
            };
            blocks.push(format!(
                "{{\"s\":{},\"term\":{{{},\"line\":{}}},\"cleanup\":{}}}",
                arr(st), tj, line, bb.is_cleanup
            ));
        }
        let kind = format!("{:?}", tcx.def_kind(d));
        let parent = tcx.opt_parent(d);
        let derived = tcx.impl_of_assoc(d).is_some_and(|i| tcx.is_automatically_derived(i));
        let file = {
            let sp = tcx.def_span(d);
            format!("{}", tcx.sess.source_map().span_to_filename(sp).prefer_local_unconditionally())
        };
        let l0 = self.line(tcx.def_span(d));
        let hash = 0;
        let _ = (parent, hash);
        format!(
            "{{\"name\":{},\"kind\":{},\"derived\":{},\"file\":{},\"line\":{},\"argc\":{},\"locals\":{},\"dbg\":{},\"blocks\":{}}}",
            js(&name), js(&kind), derived, js(&file), l0, body.arg_count, locals, arr(dbg), arr(blocks)
        )
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else {
            return rustc_driver::Compilation::Continue;
        };
        let mut ids: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        ids.retain(|d| matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Static { .. }));
        // Phase 1: clone every body before anything steals it.
        let mut bodies: Vec<(LocalDefId, mir::Body<'tcx>, String)> = Vec::new();
        for &d in &ids {
            let (b, ps) = tcx.mir_promoted(d);
            bodies.push((d, b.borrow().clone(), String::new()));
            for (i, p) in ps.borrow().iter_enumerated() {
                bodies.push((d, p.clone(), format!("::{{promoted#{}}}", i.as_usize())));
            }
        }
        let mut cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), types: vec![], tymap: HashMap::new(), adts: HashMap::new() };
        let mut fns = Vec::new();
        for (d, b, sfx) in &bodies {
            let owner = tcx.typeck_root_def_id(d.to_def_id());
            cx.env = TypingEnv::post_analysis(tcx, owner);
            fns.push(cx.body(*d, b, sfx));
        }
        let mut ks: Vec<(String, String)> =
            cx.adts.iter().map(|(d, s)| (with_no_trimmed_paths!(tcx.def_path_str(*d)), s.clone())).collect();
        ks.sort();
        let adts = format!("{{{}}}", ks.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        let text = format!(
            "{{\"crate\":{},\"types\":[{}],\"adts\":{},\"fns\":[\n{}\n]}}\n",
            js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            cx.types.join(",\n"),
            adts,
            fns.join(",\n")
        );
        std::fs::write(&out, text).expect("write MIRDUMP_OUT");
        rustc_driver::Compilation::Continue
    }
}

struct NoCb;
impl rustc_driver::Callbacks for NoCb {}

fn main() {
    // Used as RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    if !want.is_empty() && name == want {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut NoCb);
    }
}
