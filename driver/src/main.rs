//! Compiler driver: compiles the crate named by MIRDUMP_CRATE exactly as cargo asks, and writes
//! the type-checked, monomorphised MIR of everything reachable from it as JSON lines
//! (one record per line) to MIRDUMP_OUT.  It is injected with RUSTC_WORKSPACE_WRAPPER.
//! Every other crate is handed to the compiler unchanged.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_middle::ty::{TyCtxt, TypeVisitableExt};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, DefId, ItemKind};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T, F: FnMut(T) -> String>(it: impl IntoIterator<Item = T>, f: F) -> String {
    let v: Vec<String> = it.into_iter().map(f).collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty, usize>,
    type_records: Vec<String>,
    type_todo: VecDeque<Ty>,
    adts: HashSet<String>,
    adt_records: Vec<String>,
    seen: HashMap<String, ()>,
    todo: VecDeque<Instance>,
    unsized_pairs: HashSet<(usize, usize)>,
    out: std::io::BufWriter<std::fs::File>,
    bodies: usize,
}

/// fully qualified path, with the crate name in front also for the local crate
fn path_of(d: DefId) -> String {
    struct D(DefId);
    impl CrateDef for D {
        fn def_id(&self) -> DefId {
            self.0
        }
    }
    D(d).name().to_string()
}

fn krate_of<D: CrateDef>(d: &D) -> String {
    d.krate().name.to_string()
}

fn is_simple_leaf(path: &str) -> bool {
    // Bodies below these are never needed: panic formatting, OS layer, thread parking.
    const P: &[&str] = &[
        "core::panicking",
        "std::fmt",
        "std::alloc::handle_alloc_error",
        "std::str::",
        "std::num::flt2dec",
        "std::num::imp",
        "std::arch",
        "crossbeam_channel::",
        "rand",
        "<crossbeam_channel::",
        "getrandom",
        "std::panicking",
        "std::rt",
        "core::fmt",
        "alloc::fmt",
        "std::io",
        "std::sys",
        "std::thread",
        "std::sync",
        "std::env",
        "std::fs",
        "std::backtrace",
        "std::time",
        "std::process",
        "core::str::",
        "core::num::flt2dec",
        "core::num::imp::flt2dec",
        "core::core_arch",
        "core::unicode",
    ];
    P.iter().any(|p| path.starts_with(p))
}

impl<'tcx> Cx<'tcx> {
    fn path_ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.insert(t, i);
        self.type_todo.push_back(t);
        i
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|x| match x {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(self.path_ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => esc(&format!("{n}")),
                    Err(_) => esc("?const"),
                }),
            })
            .collect();
        format!("[{}]", v.join(","))
    }

    fn args_str(&self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|x| match x {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(self.ty_str(*t)),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("{n}"),
                    Err(_) => "_".into(),
                }),
            })
            .collect();
        if v.is_empty() {
            String::new()
        } else {
            format!("<{}>", v.join(", "))
        }
    }

    fn ty_str(&self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "bool".into(),
                RigidTy::Char => "char".into(),
                RigidTy::Int(i) => format!("{i:?}").to_lowercase(),
                RigidTy::Uint(i) => format!("{i:?}").to_lowercase(),
                RigidTy::Float(i) => format!("{i:?}").to_lowercase(),
                RigidTy::Adt(d, a) => format!("{}{}", path_of(d.def_id()), self.args_str(&a)),
                RigidTy::Str => "str".into(),
                RigidTy::Array(t, n) => format!(
                    "[{}; {}]",
                    self.ty_str(t),
                    n.eval_target_usize().map(|x| x.to_string()).unwrap_or("_".into())
                ),
                RigidTy::Slice(t) => format!("[{}]", self.ty_str(t)),
                RigidTy::RawPtr(t, Mutability::Mut) => format!("*mut {}", self.ty_str(t)),
                RigidTy::RawPtr(t, _) => format!("*const {}", self.ty_str(t)),
                RigidTy::Ref(_, t, Mutability::Mut) => format!("&mut {}", self.ty_str(t)),
                RigidTy::Ref(_, t, _) => format!("&{}", self.ty_str(t)),
                RigidTy::FnDef(d, a) => format!("fn#{}{}", path_of(d.def_id()), self.args_str(&a)),
                RigidTy::FnPtr(_) => "fnptr".into(),
                RigidTy::Closure(d, _) => format!("closure#{}", path_of(d.def_id())),
                RigidTy::Dynamic(p, _) => {
                    let mut v = vec![];
                    for b in p {
                        match b.value {
                            ExistentialPredicate::Trait(t) => v.push(format!(
                                "{}{}",
                                path_of(t.def_id.def_id()),
                                self.args_str(&t.generic_args)
                            )),
                            ExistentialPredicate::AutoTrait(t) => v.push(path_of(t.def_id())),
                            _ => (),
                        }
                    }
                    format!("dyn {}", v.join("+"))
                }
                RigidTy::Never => "!".into(),
                RigidTy::Tuple(v) => {
                    format!("({})", v.iter().map(|t| self.ty_str(*t)).collect::<Vec<_>>().join(", "))
                }
                other => format!("{other:?}"),
            },
            TyKind::Param(p) => format!("${}", p.name),
            TyKind::Alias(_, a) => format!("alias#{}{}", path_of(a.def_id.def_id()), self.args_str(&a.args)),
            TyKind::Bound(..) => "bound".into(),
        }
    }

    fn flush_types(&mut self) {
        while let Some(t) = self.type_todo.pop_front() {
            let id = self.types[&t];
            let s = esc(&self.ty_str(t));
            let rest = match t.kind() {
                TyKind::RigidTy(r) => match r {
                    RigidTy::Bool | RigidTy::Char | RigidTy::Str | RigidTy::Never => {
                        "\"k\":\"prim\"".to_string()
                    }
                    RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                    RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                    RigidTy::Float(f) => format!(
                        "\"k\":\"float\",\"bits\":{}",
                        match f {
                            FloatTy::F16 => 16,
                            FloatTy::F32 => 32,
                            FloatTy::F64 => 64,
                            FloatTy::F128 => 128,
                        }
                    ),
                    RigidTy::Adt(d, a) => {
                        let p = path_of(d.def_id());
                        let args = self.args(&a);
                        let mut fields = String::new();
                        let generic = s.contains('$');
                        if !generic {
                            let vs = d.variants();
                            if vs.len() < 64 {
                                fields = format!(
                                    ",\"fields\":{}",
                                    list(vs, |v| list(v.fields(), |f| self
                                        .path_ty(f.ty_with_args(&a))
                                        .to_string()))
                                );
                            }
                        }
                        self.adt(d, &p);
                        format!("\"k\":\"adt\",\"path\":{},\"args\":{}{}", esc(&p), args, fields)
                    }
                    RigidTy::Array(e, n) => format!(
                        "\"k\":\"array\",\"e\":{},\"n\":{}",
                        self.path_ty(e),
                        n.eval_target_usize().map(|x| x.to_string()).unwrap_or("-1".into())
                    ),
                    RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.path_ty(e)),
                    RigidTy::RawPtr(e, m) => {
                        format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.path_ty(e), m == Mutability::Mut)
                    }
                    RigidTy::Ref(_, e, m) => {
                        format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.path_ty(e), m == Mutability::Mut)
                    }
                    RigidTy::FnDef(d, a) => {
                        let inst = Instance::resolve(d, &a).ok();
                        let key = match inst {
                            Some(i) => {
                                self.want(i);
                                esc(&self.key(&i))
                            }
                            None => "null".into(),
                        };
                        format!("\"k\":\"fndef\",\"path\":{},\"args\":{},\"inst\":{}", esc(&path_of(d.def_id())), self.args(&a), key)
                    }
                    RigidTy::Closure(d, a) => {
                        let mut key = "null".to_string();
                        if !s.contains('$') {
                            for kind in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                                if let Ok(i) = Instance::resolve_closure(d, &a, kind) {
                                    self.want(i);
                                    key = esc(&self.key(&i));
                                    break;
                                }
                            }
                        }
                        // upvars: the last generic argument is the tuple of captured types
                        let up = match a.0.last() {
                            Some(GenericArgKind::Type(t)) => self.path_ty(*t).to_string(),
                            _ => "null".into(),
                        };
                        format!(
                            "\"k\":\"closure\",\"path\":{},\"inst\":{},\"up\":{}",
                            esc(&path_of(d.def_id())),
                            key,
                            up
                        )
                    }
                    RigidTy::Dynamic(p, _) => {
                        let tr: Vec<String> = p
                            .iter()
                            .filter_map(|b| match &b.value {
                                ExistentialPredicate::Trait(t) => Some(esc(&path_of(t.def_id.def_id()))),
                                _ => None,
                            })
                            .collect();
                        format!("\"k\":\"dyn\",\"traits\":[{}]", tr.join(","))
                    }
                    RigidTy::Tuple(v) => {
                        format!("\"k\":\"tuple\",\"es\":{}", list(v, |t| self.path_ty(t).to_string()))
                    }
                    RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                    _ => "\"k\":\"other\"".into(),
                },
                TyKind::Param(_) => "\"k\":\"param\"".into(),
                _ => "\"k\":\"alias\"".into(),
            };
            self.type_records.push(format!("{{\"r\":\"ty\",\"id\":{id},\"s\":{s},{rest}}}"));
        }
    }

    fn adt(&mut self, d: AdtDef, p: &str) {
        if !self.adts.insert(p.to_string()) {
            return;
        }
        let kind = format!("{:?}", d.kind()).to_lowercase();
        let mut vs = vec![];
        let all = d.variants();
        if all.len() < 256 {
            for v in all {
                let disc = if d.kind() == AdtKind::Enum {
                    d.discriminant_for_variant(v.idx()).val.to_string()
                } else {
                    "0".into()
                };
                let fs = list(v.fields(), |f| esc(&f.name.to_string()));
                vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(&v.name().to_string()), disc, fs));
            }
        }
        self.adt_records.push(format!(
            "{{\"r\":\"adt\",\"path\":{},\"krate\":{},\"kind\":{},\"simd\":{},\"box\":{},\"variants\":[{}]}}",
            esc(p),
            esc(&krate_of(&d)),
            esc(&kind),
            d.is_simd(),
            d.is_box(),
            vs.join(",")
        ));
    }

    /// whether type parameters are left in the arguments, however deep
    fn has_params(&self, i: &Instance) -> bool {
        let i = rustc_public::rustc_internal::internal(self.tcx, *i);
        i.args.has_non_region_param()
    }

    fn key(&mut self, i: &Instance) -> String {
        if self.has_params(i) {
            return format!("generic:{}:{:?}", path_of(i.def.def_id()), i.args());
        }
        match i.kind {
            InstanceKind::Virtual { .. } => {
                format!("virtual:{}", path_of(i.def.def_id()))
            }
            _ => i.mangled_name().to_string(),
        }
    }

    fn want(&mut self, i: Instance) {
        if let InstanceKind::Virtual { .. } = i.kind {
            return;
        }
        if self.has_params(&i) {
            return;
        }
        let k = self.key(&i);
        if self.seen.insert(k, ()).is_none() {
            self.todo.push_back(i);
        }
    }

    /// the variant and the fields of an enum value in memory
    fn enum_alloc(
        &mut self,
        a: &rustc_public::ty::Allocation,
        ty: Ty,
        d: &rustc_public::ty::AdtDef,
        args: &rustc_public::ty::GenericArgs,
    ) -> Option<String> {
        use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
        let sh = ty.layout().ok()?.shape();
        let (enc, tag_field, variants, tag) = match &sh.variants {
            VariantsShape::Multiple { tag_encoding, tag_field, variants, tag } => {
                (tag_encoding.clone(), *tag_field, variants.clone(), tag.clone())
            }
            _ => return None,
        };
        let off = match &sh.fields {
            FieldsShape::Arbitrary { offsets } => offsets.get(tag_field)?.bytes(),
            _ => return None,
        };
        let n = match tag {
            rustc_public::abi::Scalar::Initialized { value, .. } => match value {
                rustc_public::abi::Primitive::Int { length, .. } => match length {
                    rustc_public::abi::IntegerLength::I8 => 1,
                    rustc_public::abi::IntegerLength::I16 => 2,
                    rustc_public::abi::IntegerLength::I32 => 4,
                    rustc_public::abi::IntegerLength::I64 => 8,
                    rustc_public::abi::IntegerLength::I128 => 16,
                },
                rustc_public::abi::Primitive::Pointer(_) => 8,
                _ => return None,
            },
            _ => return None,
        };
        let mut v: u128 = 0;
        for (i, b) in a.bytes.get(off..off + n)?.iter().enumerate() {
            v |= ((*b)? as u128) << (8 * i);
        }
        let ptr = a.provenance.ptrs.iter().any(|(o, _)| *o >= off && *o < off + n);
        let vi: usize = match enc {
            TagEncoding::Direct => v as usize,
            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                let ix = |x: &rustc_public::ty::VariantIdx| Some(rustc_public_bridge::IndexedVal::to_index(x));
                let lo = ix(niche_variants.start())?;
                let hi = ix(niche_variants.end())?;
                let mask: u128 = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                let rel = v.wrapping_sub(niche_start) & mask;
                if !ptr && rel <= (hi - lo) as u128 {
                    lo + rel as usize
                } else {
                    ix(&untagged_variant)?
                }
            }
        };
        let vs = d.variants();
        let var = vs.get(vi)?;
        let offs = variants.get(vi)?;
        let mut out = vec![];
        for (fi, f) in var.fields().iter().enumerate() {
            let ft = f.ty_with_args(args);
            let fsz = ft.layout().ok()?.shape().size.bytes();
            let o = offs.offsets.get(fi)?.bytes();
            let mut sub = a.clone();
            sub.bytes = a.bytes.get(o..o + fsz)?.to_vec();
            sub.provenance.ptrs = a
                .provenance
                .ptrs
                .iter()
                .filter(|(x, _)| *x >= o && *x < o + fsz)
                .map(|(x, p)| (*x - o, *p))
                .collect();
            out.push(format!("{{{}}}", self.alloc(&sub, ft)));
        }
        Some(format!("\"variant\":{},\"vf\":[{}]", vi, out.join(",")))
    }

    fn alloc(&mut self, a: &Allocation, ty: Ty) -> String {
        // returns fields describing the constant
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Bool) => match a.read_uint() {
                Ok(v) => return format!("\"v\":{}", v),
                _ => (),
            },
            TyKind::RigidTy(RigidTy::Int(_)) => match a.read_int() {
                Ok(v) => return format!("\"v\":{}", v),
                _ => (),
            },
            TyKind::RigidTy(RigidTy::Uint(_)) | TyKind::RigidTy(RigidTy::Char) => match a.read_uint() {
                Ok(v) => return format!("\"v\":{}", v),
                _ => (),
            },
            TyKind::RigidTy(RigidTy::Float(f)) => match (f, a.read_uint()) {
                (FloatTy::F32, Ok(v)) => {
                    return format!("\"fl\":{}", esc(&format!("{:?}", f32::from_bits(v as u32))))
                }
                (FloatTy::F64, Ok(v)) => {
                    return format!("\"fl\":{}", esc(&format!("{:?}", f64::from_bits(v as u64))))
                }
                _ => (),
            },
            TyKind::RigidTy(RigidTy::Ref(_, inner, _)) => {
                if let Some((_, prov)) = a.provenance.ptrs.first() {
                    if let GlobalAlloc::Memory(m) = GlobalAlloc::from(prov.0) {
                        if let TyKind::RigidTy(RigidTy::Str) = inner.kind() {
                            if let Ok(b) = m.raw_bytes() {
                                // length is in the second word
                                let n = a.read_partial_uint(8..16).unwrap_or(b.len() as u128) as usize;
                                let b = &b[..n.min(b.len())];
                                return format!("\"str\":{}", esc(&String::from_utf8_lossy(b)));
                            }
                        } else {
                            let i = self.alloc(&m, inner);
                            return format!("\"ref\":{{{}}}", i);
                        }
                    }
                }
            }
            TyKind::RigidTy(RigidTy::Slice(e)) | TyKind::RigidTy(RigidTy::Array(e, _)) => {
                if let Ok(l) = e.layout() {
                    let sz = l.shape().size.bytes();
                    if sz > 0 && a.bytes.len() <= 65536 * sz {
                        let n = a.bytes.len() / sz;
                        if n <= 256 {
                            let mut v = vec![];
                            for k in 0..n {
                                let mut sub = a.clone();
                                sub.bytes = a.bytes[k * sz..(k + 1) * sz].to_vec();
                                sub.provenance.ptrs = a
                                    .provenance
                                    .ptrs
                                    .iter()
                                    .filter(|(o, _)| *o >= k * sz && *o < (k + 1) * sz)
                                    .map(|(o, p)| (*o - k * sz, *p))
                                    .collect();
                                v.push(format!("{{{}}}", self.alloc(&sub, e)));
                            }
                            return format!("\"arr\":[{}]", v.join(","));
                        }
                    }
                }
            }
            TyKind::RigidTy(RigidTy::Adt(d, args)) => {
                if d.kind() == AdtKind::Struct {
                    if let Ok(l) = ty.layout() {
                        let sh = l.shape();
                        if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = sh.fields {
                            let vs = d.variants();
                            let mut v = vec![];
                            for (fi, f) in vs[0].fields().iter().enumerate() {
                                let ft = f.ty_with_args(&args);
                                let fsz = match ft.layout() {
                                    Ok(l) => l.shape().size.bytes(),
                                    _ => return "\"opaque\":1".into(),
                                };
                                let off = offsets[fi].bytes();
                                let mut sub = a.clone();
                                sub.bytes = a.bytes[off..off + fsz].to_vec();
                                sub.provenance.ptrs = a
                                    .provenance
                                    .ptrs
                                    .iter()
                                    .filter(|(o, _)| *o >= off && *o < off + fsz)
                                    .map(|(o, p)| (*o - off, *p))
                                    .collect();
                                v.push(format!("{{{}}}", self.alloc(&sub, ft)));
                            }
                            return format!("\"adt\":[{}]", v.join(","));
                        }
                    }
                } else if d.kind() == AdtKind::Enum && d.variants().iter().all(|v| v.fields().is_empty()) {
                    if let Ok(v) = a.read_uint() {
                        return format!("\"disc\":{}", v);
                    }
                }
                if d.kind() == AdtKind::Enum {
                    if let Some(r) = self.enum_alloc(a, ty, &d, &args) {
                        return r;
                    }
                }
            }
            _ => (),
        }
        let mut fns = vec![];
        for (_, p) in &a.provenance.ptrs {
            match GlobalAlloc::from(p.0) {
                GlobalAlloc::Function(i) => {
                    self.want(i);
                    fns.push(esc(&self.key(&i)));
                }
                GlobalAlloc::Static(s) => {
                    return format!("\"static\":{}", esc(&path_of(s.def_id())));
                }
                _ => (),
            }
        }
        if let Ok(b) = a.raw_bytes() {
            if b.len() <= 64 {
                let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
                return format!("\"bytes\":\"{}\",\"fns\":[{}]", h, fns.join(","));
            }
        }
        format!("\"opaque\":1,\"fns\":[{}]", fns.join(","))
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = self.path_ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => format!("{{\"ty\":{},{}}}", t, self.alloc(a, c.ty())),
            ConstantKind::ZeroSized => format!("{{\"ty\":{},\"zst\":1}}", t),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => format!("{{\"ty\":{},\"v\":{}}}", t, v),
                _ => match tc.kind() {
                    TyConstKind::Value(ty, a) => format!("{{\"ty\":{},{}}}", t, self.alloc(a, *ty)),
                    TyConstKind::ZSTValue(_) => format!("{{\"ty\":{},\"zst\":1}}", t),
                    _ => format!("{{\"ty\":{},\"param\":1}}", t),
                },
            },
            ConstantKind::Unevaluated(u) => {
                format!("{{\"ty\":{},\"uneval\":{}}}", t, esc(&path_of(u.def.def_id())))
            }
            ConstantKind::Param(p) => format!("{{\"ty\":{},\"param\":{}}}", t, esc(&p.name)),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let pr = list(&p.projection, |e| match e {
            ProjectionElem::Deref => "[\"*\"]".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.path_ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                format!("[\"ss\",{},{},{}]", from, to, from_end)
            }
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", rustc_public_bridge::IndexedVal::to_index(v)),
            ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
        });
        format!("[{},{}]", p.local, pr)
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(&c.const_)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(k, p) => {
                format!("[\"addr\",{},{}]", self.place(p), k.to_mutable_lossy() == Mutability::Mut)
            }
            Rvalue::Aggregate(k, ops) => {
                let o = list(ops, |o| self.operand(o));
                let h = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.path_ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.path_ty(d.ty_with_args(a));
                        format!(
                            "[\"adt\",{},{},{}]",
                            t,
                            rustc_public_bridge::IndexedVal::to_index(v),
                            f.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.path_ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.path_ty(*t)),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", h, o)
            }
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::Cast(k, o, t) => {
                let ti = self.path_ty(*t);
                let mut extra = String::new();
                match k {
                    CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                        if let Ok(src) = o.ty(locals) {
                            self.unsize(src, *t);
                        }
                    }
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                        if let Ok(src) = o.ty(locals) {
                            if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = src.kind() {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                                    self.want(i);
                                    extra = format!(",{}", esc(&self.key(&i)));
                                }
                            }
                        }
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                        if let Ok(src) = o.ty(locals) {
                            if let TyKind::RigidTy(RigidTy::Closure(d, a)) = src.kind() {
                                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                                    self.want(i);
                                    extra = format!(",{}", esc(&self.key(&i)));
                                }
                            }
                        }
                    }
                    _ => (),
                }
                format!("[\"cast\",{},{},{}{}]", esc(&format!("{k:?}")), self.operand(o), ti, extra)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => {
                let ty = p.ty(locals).map(|t| self.path_ty(t).to_string()).unwrap_or("null".into());
                format!("[\"discr\",{},{}]", self.place(p), ty)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", self.place(p), k.to_mutable_lossy() == Mutability::Mut)
            }
            Rvalue::Repeat(o, n) => format!(
                "[\"rep\",{},{}]",
                self.operand(o),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("-1".into())
            ),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&path_of(i.def_id()))),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", self.place(p), *m == Mutability::Mut),
        }
    }

    /// record a coercion to a trait object and make its methods reachable
    fn unsize(&mut self, src: Ty, dst: Ty) {
        fn tail(t: Ty) -> Option<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
                TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|x| x.ty().copied()),
                _ => None,
            }
        }
        let (mut s, mut d) = (src, dst);
        for _ in 0..4 {
            if let TyKind::RigidTy(RigidTy::Dynamic(..)) = d.kind() {
                break;
            }
            match (tail(s), tail(d)) {
                (Some(a), Some(b)) => {
                    s = a;
                    d = b;
                }
                _ => return,
            }
        }
        if let Some(tr) = d.kind().trait_principal() {
            if let TyKind::RigidTy(RigidTy::Dynamic(..)) = s.kind() {
                return;
            }
            if self.ty_str(s).contains('$') {
                return;
            }
            let (si, di) = (self.path_ty(s), self.path_ty(d));
            if !self.unsized_pairs.insert((si, di)) {
                return;
            }
            let mut ms = vec![];
            {
                use rustc_public::rustc_internal;
                let ds = rustc_internal::internal(self.tcx, d);
                let ss = rustc_internal::internal(self.tcx, s);
                let mut insts = vec![];
                if let rustc_middle::ty::TyKind::Dynamic(preds, _) = ds.kind() {
                    if let Some(pr) = preds.principal() {
                        let pr = self.tcx.instantiate_bound_regions_with_erased(pr);
                        let tref = pr.with_self_ty(self.tcx, ss);
                        let tref = self.tcx.erase_and_anonymize_regions(tref);
                        for e in self.tcx.vtable_entries(tref) {
                            if let rustc_middle::ty::VtblEntry::Method(i) = e {
                                insts.push(rustc_internal::stable(*i));
                            }
                        }
                    }
                }
                for i in insts {
                    self.want(i);
                    let k = self.key(&i);
                    let p = path_of(i.def.def_id());
                    let m = p.rsplit("::").next().unwrap_or("").to_string();
                    ms.push(format!("[{},{}]", esc(&m), esc(&k)));
                }
            }
            let dg = Instance::resolve_drop_in_place(s);
            self.want(dg);
            ms.push(format!("[\"drop_in_place\",{}]", esc(&self.key(&dg))));
            let tn = path_of(tr.value.def_id.def_id());
            let r = format!(
                "{{\"r\":\"vtable\",\"ty\":{},\"dyn\":{},\"trait\":{},\"methods\":[{}]}}",
                si,
                di,
                esc(&tn),
                ms.join(",")
            );
            let _ = writeln!(self.out, "{}", r);
        } else if let TyKind::RigidTy(RigidTy::Dynamic(..)) = d.kind() {
            // dyn Send etc: only the drop glue
            let dg = Instance::resolve_drop_in_place(s);
            self.want(dg);
        }
    }

    fn loc(&self, s: &Span) -> String {
        let l = s.get_lines();
        format!("{}", l.start_line)
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let mut o = String::new();
        let names: HashMap<usize, String> = b
            .var_debug_info
            .iter()
            .filter_map(|v| v.local().map(|l| (l, v.name.to_string())))
            .collect();
        let _ = write!(
            o,
            "\"argc\":{},\"locals\":{}",
            b.arg_locals().len(),
            list(locals.iter().enumerate(), |(i, l)| {
                let t = self.path_ty(l.ty);
                match names.get(&i) {
                    Some(n) => format!("[{},{}]", t, esc(n)),
                    None => format!("[{}]", t),
                }
            })
        );
        if let Some(s) = b.spread_arg() {
            let _ = write!(o, ",\"spread\":{}", s);
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pl = self.place(p);
                        let rv = self.rvalue(r, &locals);
                        st.push(format!("[\"=\",{},{},{}]", pl, rv, self.loc(&s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "[\"sd\",{},{}]",
                            self.place(place),
                            rustc_public_bridge::IndexedVal::to_index(variant_index)
                        ));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        st.push(format!(
                            "[\"cno\",{},{},{}]",
                            self.operand(&c.src),
                            self.operand(&c.dst),
                            self.operand(&c.count)
                        ));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(c)) => {
                        st.push(format!("[\"assume\",{}]", self.operand(c)));
                    }
                    _ => (),
                }
            }
            let line = self.loc(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&locals).map(|t| self.path_ty(t).to_string()).unwrap_or("null".into());
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr),
                        list(targets.branches(), |(v, b)| format!("[{},{}]", v, b)),
                        targets.otherwise(),
                        ty
                    )
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let ty = place.ty(&locals).ok();
                    let (ti, k) = match ty {
                        Some(t) => {
                            let ti = self.path_ty(t);
                            if self.ty_str(t).contains('$') {
                                (ti.to_string(), "null".to_string())
                            } else {
                                let i = Instance::resolve_drop_in_place(t);
                                if i.is_empty_shim() {
                                    (ti.to_string(), "\"\"".to_string())
                                } else {
                                    self.want(i);
                                    (ti.to_string(), esc(&self.key(&i)))
                                }
                            }
                        }
                        None => ("null".into(), "null".into()),
                    };
                    let uw = unw(unwind);
                    format!("[\"drop\",{},{},{},{},{}]", self.place(place), target, ti, k, uw)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let f = self.callee(func, &locals);
                    let a = list(args, |o| self.operand(o));
                    let tys = list(args, |o| match o.ty(&locals) {
                        Ok(t) => self.path_ty(t).to_string(),
                        Err(_) => "null".into(),
                    });
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        a,
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        unw(unwind),
                        tys
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (kind, ops) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("bounds".to_string(), vec![self.operand(len), self.operand(index)])
                        }
                        AssertMessage::DivisionByZero(o) => ("div0".into(), vec![self.operand(o)]),
                        AssertMessage::RemainderByZero(o) => ("rem0".into(), vec![self.operand(o)]),
                        AssertMessage::Overflow(op, a, b) => {
                            (format!("overflow:{op:?}"), vec![self.operand(a), self.operand(b)])
                        }
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        "[\"assert\",{},{},{},[{}],{},{}]",
                        self.operand(cond),
                        expected,
                        esc(&kind),
                        ops.join(","),
                        target,
                        unw(unwind)
                    )
                }
                TerminatorKind::InlineAsm { destination, .. } => {
                    format!("[\"asm\",{}]", destination.map(|t| t.to_string()).unwrap_or("null".into()))
                }
            };
            blocks.push(format!("[[{}],{},{}]", st.join(","), t, line));
        }
        let _ = write!(o, ",\"blocks\":[{}]", blocks.join(","));
        o
    }

    fn calls_only(&mut self, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let mut v = vec![];
        for bb in &b.blocks {
            match &bb.terminator.kind {
                TerminatorKind::Call { func, .. } => v.push(self.callee(func, &locals)),
                TerminatorKind::Drop { place, .. } => {
                    if let Ok(t) = place.ty(&locals) {
                        let i = Instance::resolve_drop_in_place(t);
                        if !i.is_empty_shim() {
                            let k = self.key(&i);
                            v.push(format!("{{\"k\":\"drop\",\"inst\":{}}}", esc(&k)));
                        }
                    }
                }
                _ => (),
            }
        }
        format!("[{}]", v.join(","))
    }

    fn callee(&mut self, func: &Operand, locals: &[LocalDecl]) -> String {
        let ty = match func.ty(locals) {
            Ok(t) => t,
            Err(_) => return "{\"k\":\"unknown\"}".into(),
        };
        match ty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                let p = path_of(d.def_id());
                let args = self.args(&a);
                let generic = self.args_str(&a).contains('$');
                let tr = d
                    .associated_item()
                    .and_then(|ai| match ai.container {
                        AssocContainer::Trait => d.def_id().parent().map(|x| path_of(x)),
                        _ => None,
                    });
                let trs = tr.map(|t| esc(&t)).unwrap_or("null".into());
                let resolved = if generic { None } else { Instance::resolve(d, &a).ok() };
                if let Some(i) = resolved {
                    if !self.has_params(&i) {
                        let kind = match i.kind {
                            InstanceKind::Virtual { .. } => "virtual",
                            InstanceKind::Intrinsic => "intrinsic",
                            InstanceKind::LlvmIntrinsic => "llvm",
                            InstanceKind::Shim => "shim",
                            InstanceKind::Item => "item",
                        };
                        self.want(i);
                        let k = self.key(&i);
                        return format!(
                            "{{\"k\":{},\"path\":{},\"trait\":{},\"inst\":{},\"args\":{}}}",
                            esc(kind),
                            esc(&p),
                            trs,
                            esc(&k),
                            args
                        );
                    }
                }
                format!(
                    "{{\"k\":\"unresolved\",\"path\":{},\"trait\":{},\"krate\":{},\"args\":{}}}",
                    esc(&p),
                    trs,
                    esc(&krate_of(&d)),
                    args
                )
            }
            _ => {
                format!("{{\"k\":\"ptr\",\"op\":{}}}", self.operand(func))
            }
        }
    }

    fn fn_meta(&mut self, i: &Instance) -> String {
        let d = i.def;
        let p = path_of(d.def_id());
        let k = krate_of(&d);
        let span = d.span();
        let l = span.get_lines();
        let file = span.get_filename().to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let mut extra = String::new();
        let fd = FnDefProbe(d.def_id());
        if let Some(x) = fd.meta(self) {
            extra.push_str(&x);
        }
        let args = self.args(&i.args());
        format!(
            "\"path\":{},\"krate\":{},\"kind\":{},\"file\":{},\"line\":{},\"args\":{}{}",
            esc(&p),
            esc(&k),
            esc(kind),
            esc(&file),
            l.start_line,
            args,
            extra
        )
    }
}

struct FnDefProbe(DefId);
impl FnDefProbe {
    fn meta(&self, cx: &mut Cx<'_>) -> Option<String> {
        let parent = self.0.parent()?;
        let mut s = format!(",\"parent\":{}", esc(&path_of(parent)));
        let _ = cx;
        let _ = write!(s, "");
        Some(s)
    }
}

fn unw(u: &UnwindAction) -> String {
    match u {
        UnwindAction::Cleanup(b) => b.to_string(),
        _ => "null".into(),
    }
}

fn dump(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let tmp = format!("{out}.tmp");
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        type_records: vec![],
        type_todo: VecDeque::new(),
        adts: HashSet::new(),
        adt_records: vec![],
        seen: HashMap::new(),
        todo: VecDeque::new(),
        unsized_pairs: HashSet::new(),
        out: std::io::BufWriter::new(std::fs::File::create(&tmp).expect("create")),
        bodies: 0,
    };
    let local = rustc_public::local_crate();
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if it.kind() != ItemKind::Fn {
            if it.kind() == ItemKind::Const {
                let r = format!(
                    "{{\"r\":\"const\",\"path\":{},\"ty\":{}}}",
                    esc(&path_of(it.def_id())),
                    esc(&cx.ty_str(it.ty()))
                );
                let _ = writeln!(cx.out, "{}", r);
            }
            continue;
        }
        if matches!(it.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..))) {
            continue;
        }
        // a generic function is analysed where it is instantiated
        if !it.requires_monomorphization() {
            if let Ok(i) = Instance::try_from(it) {
                roots.push(i);
            }
        }
    }
    // function table of the local crate: visibility, trait membership
    {
        use rustc_public::rustc_internal;
        let ev = tcx.effective_visibilities(());
        for it in rustc_public::all_local_items() {
            if it.kind() != ItemKind::Fn {
                continue;
            }
            let did = rustc_internal::internal(tcx, it.def_id());
            let is_closure = matches!(it.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
            let vis_pub = did.as_local().map(|l| ev.is_reachable(l)).unwrap_or(false);
            let mut tr = "null".to_string();
            let mut selfty = "null".to_string();
            let mut name = it.def_id().name().to_string();
            if !is_closure {
                if let Some(ai) = tcx.opt_associated_item(did) {
                    name = ai.name().to_string();
                    let cont = tcx.parent(did);
                    if tcx.def_kind(cont) == rustc_hir_defkind_trait() {
                        tr = esc(&path_of(rustc_internal::stable(cont)));
                        selfty = esc("Self");
                    } else {
                        let st = tcx.type_of(cont).instantiate_identity().skip_norm_wip();
                        let stable = rustc_internal::stable(st);
                        selfty = esc(&cx.ty_str(stable));
                        if let Some(t) = tcx.impl_opt_trait_ref(cont) {
                            let t = t.instantiate_identity().skip_norm_wip();
                            tr = esc(&path_of(rustc_internal::stable(t.def_id)));
                        }
                    }
                } else {
                    name = name.rsplit("::").next().unwrap_or("").to_string();
                }
            }
            let span = it.span();
            let r = format!(
                "{{\"r\":\"fn\",\"path\":{},\"name\":{},\"trait\":{},\"self\":{},\"reach\":{},\"closure\":{},\"generic\":{},\"file\":{},\"line\":{}}}",
                esc(&path_of(it.def_id())),
                esc(&name),
                tr,
                selfty,
                vis_pub,
                is_closure,
                it.requires_monomorphization(),
                esc(&span.get_filename().to_string()),
                span.get_lines().start_line
            );
            let _ = writeln!(cx.out, "{}", r);
        }
    }
    for i in roots {
        let k = cx.key(&i);
        let r = format!("{{\"r\":\"root\",\"inst\":{},\"path\":{}}}", esc(&k), esc(&path_of(i.def.def_id())));
        let _ = writeln!(cx.out, "{}", r);
        cx.want(i);
    }
    loop {
        cx.flush_types();
        let Some(i) = cx.todo.pop_front() else { break };
        let k = cx.key(&i);
        let p = path_of(i.def.def_id());
        let meta = cx.fn_meta(&i);
        let leaf = is_simple_leaf(&p);
        let body = if leaf { None } else { i.body() };
        let r = match body {
            Some(b) => {
                cx.bodies += 1;
                let bj = cx.body(&b);
                let kr = krate_of(&i.def);
                let full = matches!(kr.as_str(), "rawdio" | "core" | "alloc" | "std" | "fixed" | "az" | "itertools" | "atomic_float");
                if full {
                    format!("{{\"r\":\"inst\",\"key\":{},{},{}}}", esc(&k), meta, bj)
                } else {
                    let cs = cx.calls_only(&b);
                    format!("{{\"r\":\"inst\",\"key\":{},{},\"calls\":{}}}", esc(&k), meta, cs)
                }
            }
            None => format!("{{\"r\":\"inst\",\"key\":{},{},\"nobody\":true}}", esc(&k), meta),
        };
        let _ = writeln!(cx.out, "{}", r);
    }
    cx.flush_types();
    for r in std::mem::take(&mut cx.type_records) {
        let _ = writeln!(cx.out, "{}", r);
    }
    for r in std::mem::take(&mut cx.adt_records) {
        let _ = writeln!(cx.out, "{}", r);
    }
    // trait implementations in the local crate
    for im in rustc_public::all_trait_impls() {
        if im.krate().is_local {
            let t = im.trait_impl().value;
            let r = format!(
                "{{\"r\":\"impl\",\"trait\":{},\"self\":{}}}",
                esc(&path_of(t.def_id.def_id())),
                esc(&cx.ty_str(t.self_ty()))
            );
            let _ = writeln!(cx.out, "{}", r);
        }
    }
    let _ = writeln!(cx.out, "{{\"r\":\"end\",\"bodies\":{}}}", cx.bodies);
    cx.out.flush().expect("flush");
    std::fs::rename(&tmp, &out).expect("rename");
    ControlFlow::Continue(())
}

fn rustc_hir_defkind_trait() -> rustc_hir::def::DefKind {
    rustc_hir::def::DefKind::Trait
}
extern crate rustc_hir;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut name = None;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" {
            name = args.get(i + 1).cloned();
        }
    }
    let is_test = args.iter().any(|a| a == "--test");
    if name.as_deref() == Some(want.as_str()) && !is_test && std::env::var("MIRDUMP_OUT").is_ok() {
        let r = rustc_public::run_with_tcx!(&args, dump);
        match r {
            Ok(_) => std::process::exit(0),
            Err(e) => {
                eprintln!("mirdump: {e:?}");
                std::process::exit(1)
            }
        }
    } else {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
