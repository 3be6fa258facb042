// MIR fact extractor: a rustc driver injected with RUSTC_WORKSPACE_WRAPPER.
// Writes one JSON file per workspace crate with the type-checked, resolved MIR of every local body.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

struct Cb;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn fixcrate(s: String) -> String {
    if !s.contains("crate::") { return s }
    let k = KRATE.get().unwrap();
    let b = s.as_bytes();
    let mut o = String::with_capacity(s.len() + 32);
    let mut i = 0;
    while i < s.len() {
        if s[i..].starts_with("crate::") && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' || b[i - 1] == b'$')) {
            o.push_str(k);
            o.push_str("::");
            i += 7;
        } else {
            let c = s[i..].chars().next().unwrap();
            o.push(c);
            i += c.len_utf8();
        }
    }
    o
}
static KRATE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    fixcrate(with_crate_prefix!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))))
}
fn tystr(t: Ty<'_>) -> String {
    fixcrate(with_crate_prefix!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}")))))
}
fn full(tcx: TyCtxt<'_>, d: DefId) -> String { path(tcx, d) }

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<String, usize>,
    type_list: Vec<String>,
    type_objs: Vec<Ty<'tcx>>,
    adts: BTreeMap<String, String>,
}

impl<'tcx> D<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let s = self.tystr(t);
        if let Some(i) = self.types.get(&s) { return *i }
        let i = self.type_list.len();
        self.types.insert(s.clone(), i);
        self.type_list.push(s);
        self.type_objs.push(t);
        self.note_adt(t);
        i
    }
    fn tystr(&self, t: Ty<'tcx>) -> String { tystr(t) }
    fn note_adt(&mut self, t: Ty<'tcx>) {
        for g in t.walk() {
            if let Some(t) = g.as_type() {
                if let ty::Adt(def, _) = t.kind() {
                    let p = path(self.tcx, def.did());
                    if self.adts.contains_key(&p) { continue }
                    self.adts.insert(p.clone(), String::new());
                    let mut s = String::new();
                    let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                    let _ = write!(s, "{{\"kind\":\"{kind}\",\"local\":{},\"variants\":[", def.did().is_local());
                    for (vi, v) in def.variants().iter_enumerated() {
                        if vi.as_usize() > 0 { s.push(',') }
                        let disc = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                        let _ = write!(s, "[{},{disc},[", esc(v.name.as_str()));
                        for (fi, f) in v.fields.iter().enumerate() {
                            if fi > 0 { s.push(',') }
                            let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let vis = f.vis.is_public();
                            let _ = write!(s, "[{},{},{}]", esc(f.name.as_str()), esc(&tystr(ft)), vis);
                        }
                        s.push_str("]]");
                    }
                    s.push(']');
                    let ity = self.tcx.type_of(def.did()).instantiate_identity().skip_norm_wip();
                    let env = ty::TypingEnv::post_analysis(self.tcx, def.did());
                    if let Ok(l) = self.tcx.layout_of(env.as_query_input(ity)) { let _ = write!(s, ",\"size\":{}", l.size.bytes()); }
                    s.push('}');
                    self.adts.insert(p, s);
                }
            }
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut s = String::new();
        let _ = write!(s, "[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            s.push(',');
            match e {
                ProjectionElem::Deref => s.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(s, "[\".\",{},{}]", f.as_usize(), esc(&name));
                }
                ProjectionElem::Index(l) => { let _ = write!(s, "[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => { let _ = write!(s, "[\"c\",{offset},{from_end}]"); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(s, "[\"s\",{from},{to},{from_end}]"); }
                ProjectionElem::Downcast(n, v) => {
                    let name = n.map(|n| n.to_string()).unwrap_or_else(|| v.as_usize().to_string());
                    let _ = write!(s, "[\"v\",{},{}]", v.as_usize(), esc(&name));
                }
                _ => s.push_str("\"?\""),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        s.push(']');
        s
    }

    fn generic_args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut s = String::from("[");
        let mut first = true;
        for a in args.iter() {
            let v = if let Some(t) = a.as_type() { self.ty(t).to_string() }
                else if let Some(c) = a.as_const() { esc(&format!("{c}")) }
                else { continue };
            if !first { s.push(',') }
            first = false;
            s.push_str(&v);
        }
        s.push(']');
        s
    }

    fn fndef(&mut self, env: TypingEnv<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let ga = self.generic_args(args);
        let mut res = "null".to_string();
        let mut virt = false;
        let args_e = self.tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, did, args_e) {
            match inst.def {
                ty::InstanceKind::Virtual(..) => virt = true,
                ty::InstanceKind::Item(d) => { if d != did { res = format!("[{},{}]", esc(&full(self.tcx, d)), self.generic_args(inst.args)); } else { res = "1".into(); } }
                
                _ => {
                    let d = inst.def_id();
                    if d != did { res = format!("[{},[]]", esc(&full(self.tcx, d))); } else { res = "1".into(); }
                }
            }
        }
        let tr = self.tcx.trait_of_assoc(did).map(|t| esc(&full(self.tcx, t))).unwrap_or("null".into());
        format!("{{\"f\":{},\"a\":{},\"r\":{},\"v\":{},\"t\":{}}}", esc(&full(self.tcx, did)), ga, res, virt, tr)
    }

    // ---- constant decoding (type-driven) ----
    fn decode_alloc(&mut self, env: TypingEnv<'tcx>, alloc: AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> Option<String> {
        if depth > 12 { return None }
        let tcx = self.tcx;
        let mem = match tcx.try_get_global_alloc(alloc)? {
            GlobalAlloc::Memory(m) => m,
            GlobalAlloc::Static(d) => tcx.eval_static_initializer(d).ok()?,
            GlobalAlloc::Function { instance, .. } => {
                // a closure coerced to a function pointer is a shim around FnOnce::call_once
                if let Some(ty::Closure(d, _)) = instance.args.types().next().map(|t| t.kind()) {
                    return Some(format!("{{\"fn\":{},\"clo\":{}}}", esc(&full(tcx, instance.def_id())), esc(&full(tcx, *d))));
                }
                return Some(format!("{{\"fn\":{}}}", esc(&full(tcx, instance.def_id()))));
            }
            _ => return None,
        };
        let a = mem.inner();
        let read = |o: u64, n: u64| -> Option<u128> {
            if (o + n) as usize > a.len() { return None }
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + n) as usize);
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() { v |= (*x as u128) << (8 * i); }
            Some(v)
        };
        let lay = tcx.layout_of(env.as_query_input(t)).ok()?;
        let size = lay.size.bytes();
        Some(match t.kind() {
            ty::Bool => (read(off, 1)? != 0).to_string(),
            ty::Uint(_) => read(off, size)?.to_string(),
            ty::Char => format!("{{\"char\":{}}}", read(off, 4)?),
            ty::Int(_) => { let v = read(off, size)?; let sh = 128 - size * 8; (((v << sh) as i128) >> sh).to_string() }
            ty::Float(f) => {
                let v = read(off, size)?;
                match f.bit_width() { 32 => format!("{{\"f32\":{}}}", v), _ => format!("{{\"f64\":{}}}", v) }
            }
            ty::FnPtr(..) => {
                let prov = a.provenance().get_ptr(rustc_abi::Size::from_bytes(off))?;
                self.decode_alloc(env, prov.alloc_id(), 0, t, depth + 1)?
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let prov = a.provenance().get_ptr(rustc_abi::Size::from_bytes(off))?;
                let poff = read(off, 8)? as u64;
                match inner.kind() {
                    ty::Str => {
                        let len = read(off + 8, 8)? as u64;
                        self.decode_bytes(prov.alloc_id(), poff, len, true)?
                    }
                    ty::Slice(e) => {
                        let len = read(off + 8, 8)? as u64;
                        self.decode_seq(env, prov.alloc_id(), poff, len, *e, depth)?
                    }
                    ty::Dynamic(..) => return None,
                    _ => self.decode_alloc(env, prov.alloc_id(), poff, *inner, depth + 1)?,
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)?;
                self.decode_seq(env, alloc, off, n, *e, depth)?
            }
            ty::Tuple(ts) => {
                let mut s = String::from("[");
                for (i, ft) in ts.iter().enumerate() {
                    if i > 0 { s.push(',') }
                    let fo = lay.fields.offset(i).bytes();
                    s.push_str(&self.decode_alloc(env, alloc, off + fo, ft, depth + 1)?);
                }
                s.push(']');
                s
            }
            ty::Adt(def, args) => {
                use rustc_abi::{TagEncoding, Variants};
                if def.is_union() { return None }
                let vi = match &lay.variants {
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let to = lay.fields.offset(tag_field.as_usize()).bytes();
                        let tsz = tag.size(&tcx).bytes();
                        let isptr = a.provenance().get_ptr(rustc_abi::Size::from_bytes(off + to)).is_some();
                        let v = read(off + to, tsz)?;
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = None;
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                for (i, _) in def.variants().iter_enumerated() {
                                    if def.discriminant_for_variant(tcx, i).val & mask == v { r = Some(i) }
                                }
                                r?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if isptr { *untagged_variant } else {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = v.wrapping_sub(*niche_start) & mask;
                                    let first = niche_variants.start.as_u32() as u128;
                                    let last = niche_variants.last.as_u32() as u128;
                                    let _ = variants;
                                    if rel <= last - first { rustc_abi::VariantIdx::from_u32((first + rel) as u32) } else { *untagged_variant }
                                }
                            }
                        }
                    }
                    _ => return None,
                };
                let v = def.variant(vi);
                let cx = ty::layout::LayoutCx::new(tcx, env);
                let vl = lay.for_variant(&cx, vi);
                let mut s = String::from("{");
                let _ = write!(s, "\"#\":{}", esc(v.name.as_str()));
                for (i, f) in v.fields.iter_enumerated() {
                    let ft = f.ty(tcx, args);
                    let ft = tcx.normalize_erasing_regions(env, ft);
                    let fo = vl.fields.offset(i.as_usize()).bytes();
                    let val = self.decode_alloc(env, alloc, off + fo, ft, depth + 1).unwrap_or("null".into());
                    let _ = write!(s, ",{}:{}", esc(f.name.as_str()), val);
                }
                s.push('}');
                s
            }
            _ => return None,
        })
    }
    fn decode_bytes(&mut self, alloc: AllocId, off: u64, len: u64, is_str: bool) -> Option<String> {
        let mem = match self.tcx.try_get_global_alloc(alloc)? { GlobalAlloc::Memory(m) => m, GlobalAlloc::Static(d) => self.tcx.eval_static_initializer(d).ok()?, _ => return None };
        let a = mem.inner();
        if (off + len) as usize > a.len() { return None }
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
        if is_str { return Some(esc(&String::from_utf8_lossy(b))) }
        let mut s = String::from("{\"bytes\":\"");
        for x in b { let _ = write!(s, "{x:02x}"); }
        s.push_str("\"}");
        Some(s)
    }
    fn decode_seq(&mut self, env: TypingEnv<'tcx>, alloc: AllocId, off: u64, n: u64, e: Ty<'tcx>, depth: usize) -> Option<String> {
        if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) { return if n > 65536 { Some(format!("{{\"bytes_len\":{n}}}")) } else { self.decode_bytes(alloc, off, n, false) } }
        if n > 20000 { return None }
        let es = self.tcx.layout_of(env.as_query_input(e)).ok()?.size.bytes();
        let mut s = String::from("[");
        for i in 0..n {
            if i > 0 { s.push(',') }
            s.push_str(&self.decode_alloc(env, alloc, off + i * es, e, depth + 1)?);
        }
        s.push(']');
        Some(s)
    }
    fn decode_value(&mut self, env: TypingEnv<'tcx>, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        match v {
            ConstValue::ZeroSized => None,
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size().bytes();
                let raw = i.to_bits_unchecked();
                Some(match t.kind() {
                    ty::Bool => (raw != 0).to_string(),
                    ty::Char => format!("{{\"char\":{raw}}}"),
                    ty::Int(_) => { let sh = 128 - size * 8; (((raw << sh) as i128) >> sh).to_string() }
                    ty::Float(f) => match f.bit_width() { 32 => format!("{{\"f32\":{raw}}}"), _ => format!("{{\"f64\":{raw}}}") },
                    ty::Adt(def, _) if def.is_enum() => {
                        let mut r = None;
                        for (i2, v2) in def.variants().iter_enumerated() {
                            let d = def.discriminant_for_variant(self.tcx, i2).val;
                            let mask = if size >= 16 { u128::MAX } else { (1u128 << (8 * size)) - 1 };
                            if d & mask == raw { r = Some(v2.name.to_string()) }
                        }
                        match r { Some(n) if def.variants().iter().all(|v| v.fields.is_empty()) => format!("{{\"#\":{}}}", esc(&n)), _ => format!("{{\"raw\":{raw}}}") }
                    }
                    _ => raw.to_string(),
                })
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match t.kind() {
                    ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => self.decode_alloc(env, prov.alloc_id(), off.bytes(), *inner, 0).or_else(|| {
                        match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                            Some(GlobalAlloc::Static(d)) => Some(format!("{{\"static\":{}}}", esc(&full(self.tcx, d)))),
                            _ => None
                        }
                    }),
                    ty::FnPtr(..) => self.decode_alloc(env, prov.alloc_id(), 0, t, 0),
                    _ => None
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                match t.kind() {
                    ty::Ref(_, inner, _) => match inner.kind() {
                        ty::Str => self.decode_bytes(alloc_id, 0, meta, true),
                        ty::Slice(e) => self.decode_seq(env, alloc_id, 0, meta, *e, 0),
                        _ => None
                    },
                    _ => None
                }
            }
            ConstValue::Indirect { alloc_id, offset } => self.decode_alloc(env, alloc_id, offset.bytes(), t, 0),
        }
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(did, args) = t.kind() {
            return format!("[\"k\",{},{{\"fn\":{}}}]", self.ty(t), self.fndef(env, *did, args.no_bound_vars().unwrap_or_else(|| self.tcx.mk_args(&[]))));
        }
        let name = match c.const_ {
            Const::Unevaluated(u, _) => Some((u.def, u.promoted, u.args)),
            _ => None,
        };
        let val = c.const_.eval(self.tcx, env, c.span).ok().and_then(|v| self.decode_value(env, v, t));
        let mut s = format!("[\"k\",{},{{", self.ty(t));
        let mut first = true;
        if let Some((d, p, a)) = name {
            if let Some(p) = p { let _ = write!(s, "\"promoted\":{},\"of\":{}", p.as_usize(), esc(&full(self.tcx, d))); }
            else { let ga = self.generic_args(a); let _ = write!(s, "\"const\":{},\"ca\":{}", esc(&full(self.tcx, d)), ga); }
            first = false;
        } else if let Const::Ty(_, cc) = c.const_ { let _ = write!(s, "\"param\":{}", esc(&format!("{cc}"))); first = false; }
        if let Some(v) = val { if !first { s.push(',') } let _ = write!(s, "\"v\":{v}"); }
        s.push_str("}]");
        s
    }
    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => self.constant(env, c),
            #[allow(unreachable_patterns)]
            _ => "[\"k\",0,{}]".into(),
        }
    }
    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(env, body, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(env, body, o), esc(&format!("{n}"))),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(body, p)),
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(body, p)),
            Rvalue::Cast(k, o, t) => { let st = o.ty(&body.local_decls, self.tcx); let sti = self.ty(st); format!("[\"cast\",{},{},{},{sti}]", esc(&format!("{k:?}")), self.operand(env, body, o), self.ty(*t)) }
            Rvalue::BinaryOp(b, ops) => { let st = ops.0.ty(&body.local_decls, self.tcx); let sti = self.ty(st); format!("[\"bin\",\"{b:?}\",{},{},{sti}]", self.operand(env, body, &ops.0), self.operand(env, body, &ops.1)) }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{u:?}\",{}]", self.operand(env, body, o)),
            Rvalue::Discriminant(p) => { let t = p.ty(&body.local_decls, self.tcx).ty; let ti = self.ty(t); format!("[\"disc\",{},{ti}]", self.place(body, p)) }
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let def = self.tcx.adt_def(*d);
                        let at = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let ti = self.ty(at);
                        let var = def.variant(*v);
                        let names: Vec<String> = match f { Some(f) => vec![esc(var.fields[*f].name.as_str())], None => var.fields.iter().map(|f| esc(f.name.as_str())).collect() };
                        format!("[\"adt\",{},{},{},[{}]]", esc(&path(self.tcx, *d)), esc(var.name.as_str()), ti, names.join(","))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&full(self.tcx, *d))),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                let os: Vec<String> = ops.iter().map(|o| self.operand(env, body, o)).collect();
                format!("[\"agg\",{ks},[{}]]", os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            other => format!("[\"other\",{}]", esc(&format!("{other:?}").chars().take(80).collect::<String>())),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", lo.line)
    }
    fn file(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", lo.file.name.prefer_local_unconditionally())
    }

    fn body(&mut self, did: LocalDefId, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut s = String::new();
        let _ = write!(s, "\"argc\":{},\"locals\":[", body.arg_count);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.entry(p.local.as_usize()).or_insert(v.name.to_string()); }
            }
        }
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 { s.push(',') }
            let t = self.ty(l.ty);
            match names.get(&i.as_usize()) { Some(n) => { let _ = write!(s, "[{t},{}]", esc(n)); } None => { let _ = write!(s, "[{t}]"); } }
        }
        s.push_str("],\"upvars\":[");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if !p.projection.is_empty() && p.local.as_usize() == 1 {
                    if !first { s.push(',') }
                    first = false;
                    let _ = write!(s, "[{},{}]", esc(v.name.as_str()), self.place(body, &p));
                }
            }
        }
        s.push_str("],\"bb\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 { s.push(',') }
            s.push_str("[[");
            let mut first = true;
            for st in &bb.statements {
                let t = match &st.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        format!("[{},{},{}]", self.place(body, p), self.rvalue(env, body, r), self.line(st.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[{},[\"setdisc\",{}],{}]", self.place(body, place), variant_index.as_usize(), self.line(st.source_info.span))
                    }
                    StatementKind::StorageDead(l) => format!("[[{}],[\"dead\"],0]", l.as_usize()),
                    _ => continue,
                };
                if !first { s.push(',') }
                first = false;
                s.push_str(&t);
            }
            s.push_str("],");
            let term = bb.terminator();
            let ln = self.line(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = String::new();
                    for (i, (val, t)) in targets.iter().enumerate() {
                        if i > 0 { v.push(',') }
                        let _ = write!(v, "[{val},{}]", t.as_usize());
                    }
                    format!("[\"switch\",{},[{v}],{},{ln}]", self.operand(env, body, discr), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{},{ln}]", self.place(body, place), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(env, body, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(env, body, &a.node)).collect();
                    let _ = fn_span;
                    format!("[\"call\",{f},[{}],{},{},{ln}]", a.join(","), self.place(body, destination), target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::TailCall { .. } => "[\"unreach\"]".into(),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(env, body, len), self.operand(env, body, index)]),
                        AssertKind::Overflow(b, l, r) => (format!("overflow:{b:?}"), vec![self.operand(env, body, l), self.operand(env, body, r)]),
                        AssertKind::OverflowNeg(o) => ("overflow:Neg".into(), vec![self.operand(env, body, o)]),
                        AssertKind::DivisionByZero(o) => ("div0".into(), vec![self.operand(env, body, o)]),
                        AssertKind::RemainderByZero(o) => ("rem0".into(), vec![self.operand(env, body, o)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!("[\"assert\",{},{expected},{},[{}],{},{ln}]", self.operand(env, body, cond), esc(&k), ops.join(","), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"unreach\"]".into(),
            };
            s.push_str(&t);
            s.push(']');
        }
        s.push(']');
        let _ = did;
        s
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
    let _ = KRATE.set(krate.clone());
    let skip_derived = true;
    let mut d = D { tcx, types: HashMap::new(), type_list: vec![], type_objs: vec![], adts: BTreeMap::new() };
    let mut fns: Vec<String> = vec![];
    let mut consts: Vec<String> = vec![];
    let mut impls: Vec<String> = vec![];
    let evis = tcx.effective_visibilities(());
    for did in tcx.mir_keys(()) {
        let did = *did;
        let kind = tcx.def_kind(did);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let id = did.to_def_id();
        if !is_fn {
            if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::fully_monomorphized();
                let gen = tcx.generics_of(did).requires_monomorphization(tcx);
                let mut v = None;
                if !gen {
                    if matches!(kind, DefKind::Static { .. }) {
                        if let Ok(_) = tcx.eval_static_initializer(id) {
                            let a = tcx.reserve_and_set_static_alloc(id);
                            v = d.decode_alloc(env, a, 0, t, 0);
                        }
                    } else if let Ok(cv) = tcx.const_eval_poly(id) { v = d.decode_value(env, cv, t); }
                }
                let ti = d.ty(t);
                consts.push(format!("{{\"p\":{},\"ty\":{ti},\"file\":{},\"line\":{},\"v\":{}}}", esc(&full(tcx, id)), esc(&d.file(tcx.def_span(id))), d.line(tcx.def_span(id)), v.unwrap_or("null".into())));
            }
            continue;
        }
        if skip_derived {
            let mut p = tcx.typeck_root_def_id(id);
            if let Some(i) = tcx.impl_of_assoc(p) { p = i; }
            if tcx.is_automatically_derived(p) { continue }
        }
        let env = TypingEnv::post_analysis(tcx, id);
        let body = tcx.optimized_mir(id);
        let root = tcx.typeck_root_def_id(id);
        let (itrait, iself, iselfadt) = match tcx.impl_of_assoc(root) {
            Some(i) => {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let sti = d.ty(st);
                let tr = tcx.impl_opt_trait_ref(i).map(|t| { let t = t.skip_binder(); (esc(&full(tcx, t.def_id)), d.generic_args(t.args)) });
                (match tr { Some((a, b)) => format!("[{a},{b}]"), None => "null".into() }, sti.to_string(), match st.kind() { ty::Adt(a, _) => esc(&full(tcx, a.did())), _ => "null".into() })
            }
            None => {
                match tcx.trait_of_assoc(root) { Some(t) => (format!("[{},[]]", esc(&full(tcx, t))), "null".into(), "\"trait\"".into()), None => ("null".into(), "null".into(), "null".into()) }
            }
        };
        let name = if kind == DefKind::Closure { "closure".to_string() } else { tcx.item_name(id).to_string() };
        let public = did.to_def_id() == root && evis.is_reachable(did);
        let uns = kind != DefKind::Closure && tcx.fn_sig(id).skip_binder().safety().is_unsafe();
        let span = tcx.def_span(id);
        let test = false;
        let b = d.body(did, body, env);
        let parent = if kind == DefKind::Closure { esc(&full(tcx, tcx.parent(id))) } else { "null".into() };
        let gens: Vec<String> = { let mut chain = vec![]; let mut cur = Some(tcx.generics_of(root)); while let Some(g) = cur { chain.push(g); cur = g.parent.map(|p| tcx.generics_of(p)); } let mut v = vec![]; for g in chain.iter().rev() { for p in &g.own_params { if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) { v.push(esc(p.name.as_str())); } } } v };
        let _ = test;
        let prom: Vec<String> = tcx.promoted_mir(id).iter().map(|b| format!("{{{}}}", d.body(did, b, env))).collect();
        fns.push(format!("{{\"p\":{},\"n\":{},\"kind\":\"{:?}\",\"file\":{},\"line\":{},\"pub\":{public},\"unsafe\":{uns},\"trait\":{itrait},\"self\":{iself},\"selfadt\":{iselfadt},\"parent\":{parent},\"gen\":[{}],\"prom\":[{}],{b}}}",
            esc(&full(tcx, id)), esc(&name), kind, esc(&d.file(span)), d.line(span), gens.join(","), prom.join(",")));
    }
    // unsafe blocks (HIR/THIR already gone): count via source spans is not needed; MIR carries unsafe callee info.
    for (tr, is) in tcx.all_local_trait_impls(()) {
        for i in is {
            let st = tcx.type_of(*i).instantiate_identity().skip_norm_wip();
            let sti = d.ty(st);
            let tref = tcx.impl_trait_ref(i.to_def_id()).skip_binder();
            let ga = d.generic_args(tref.args);
            let items: Vec<String> = tcx.associated_items(i.to_def_id()).in_definition_order().map(|a| esc(a.name().as_str())).collect();
            let mut preds: Vec<String> = vec![];
            for (c, _) in tcx.clauses_of(i.to_def_id()).instantiate_identity(tcx) {
                if let Some(t) = c.skip_norm_wip().as_trait_clause() { let t = t.skip_binder(); preds.push(format!("[{},{}]", d.ty(t.self_ty()), esc(&full(tcx, t.def_id())))); }
            }
            impls.push(format!("[{},{sti},{ga},[{}],[{}]]", esc(&full(tcx, *tr)), items.join(","), preds.join(",")));
        }
    }
    let mut s = String::new();
    s.push_str("{\"crate\":");
    s.push_str(&esc(&krate));
    s.push_str(",\"fns\":[\n");
    s.push_str(&fns.join(",\n"));
    s.push_str("],\n\"consts\":[\n");
    s.push_str(&consts.join(",\n"));
    s.push_str("],\n\"impls\":[\n");
    s.push_str(&impls.join(",\n"));
    s.push_str("],\n\"types\":[");
    s.push_str(&d.type_list.iter().map(|t| esc(t)).collect::<Vec<_>>().join(","));
    s.push_str("],\n\"adts\":{");
    s.push_str(&d.adts.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(",\n"));
    s.push_str("}}\n");
    std::fs::write(format!("{out}/{krate}.json"), s).expect("write dump");
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("MIRDUMP_OUT") {
            let is_bs = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() == "build_script_build";
            if !is_bs { dump(tcx, &out); }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    if !args.iter().any(|a| a == "--sysroot") {
        if let Ok(s) = std::env::var("MIRDUMP_SYSROOT") { args.push("--sysroot".into()); args.push(s); }
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir=no".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
