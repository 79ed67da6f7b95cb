//! mirdump: dumps the type-checked program (monomorphic MIR of every local function reachable
//! without type parameters, polymorphic MIR of the rest, evaluated constants, types, trait impls,
//! visibility) of the crate named in MIRDUMP_CRATE as JSON to MIRDUMP_OUT.
//! It never runs any code of that crate.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_middle::ty as rty;
use rustc_middle::ty::TyCtxt as Tcx;
use rustc_middle::ty::TypeVisitableExt;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_middle::ty::print::PrintTraitRefExt;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: Tcx<'tcx>,
    ty_ids: HashMap<Ty, usize>,
    tys: Vec<Option<String>>,
    inst_ids: HashMap<Instance, usize>,
    insts: Vec<Option<String>>,
    queue: Vec<(usize, Instance)>,
    alloc_ids: HashMap<AllocId, usize>,
    allocs: Vec<Option<String>>,
}

const EXPAND: &[&str] = &["option::", "result::", "ops::", "cmp::", "num::", "iter::", "array::", "mem::", "convert::"];

/// std items small enough to be analysed like the crate's own code (when rustc has their MIR)
const INLINE: &[&str] = &[
    "option::", "result::", "num::", "cmp::", "ops::", "convert::", "bool::", "clone::", "mem::", "iter::", "tuple::",
    "f64::", "i32::", "i64::", "array::", "char::", "default::", "intrinsics::", "hash::impls", "hash::Hasher",
];

fn in_list(name: &str, l: &[&str]) -> bool {
    let n = name.trim_start_matches('<');
    if ["serde::de::", "serde::ser::", "serde_core::de::", "serde_core::ser::"].iter().any(|p| n.starts_with(p) || n.contains(&format!(" as {}", p))) {
        return true;
    }
    for p in ["std::", "core::"] {
        if let Some(r) = n.strip_prefix(p) {
            return l.iter().any(|x| r.starts_with(x));
        }
        // <T as std::x::Y>::z
        if let Some(k) = n.find(&format!(" as {}", p)) {
            let r = &n[k + 4 + p.len()..];
            return l.iter().any(|x| r.starts_with(x));
        }
    }
    false
}

impl<'tcx> Cx<'tcx> {
    fn is_local<D: CrateDef>(&self, d: &D) -> bool {
        d.krate().is_local
    }
    fn defname<D: CrateDef>(&self, d: &D) -> String {
        d.name().to_string()
    }

    fn const_len(&self, c: &TyConst) -> String {
        match c.eval_target_usize() {
            Ok(v) => v.to_string(),
            Err(_) => "null".into(),
        }
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for k in a.0.iter() {
            match k {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(format!("{{\"const\":{}}}", self.const_len(c))),
                _ => {}
            }
        }
        arr(v)
    }

    fn has_param(&self, t: Ty) -> bool {
        let i = rustc_public::rustc_internal::internal(self.tcx, t);
        i.has_non_region_param() || i.has_aliases() || i.has_escaping_bound_vars()
    }

    fn closure_inst(&mut self, def: &ClosureDef, args: &GenericArgs) -> Option<usize> {
        let t = Ty::new_closure(def.clone(), args.clone());
        if self.has_param(t) {
            return None;
        }
        let ity = rustc_public::rustc_internal::internal(self.tcx, t);
        if let rty::TyKind::Closure(did, cargs) = ity.kind() {
            let inst = rty::Instance::new_raw(*did, cargs);
            let si: Instance = rustc_public::rustc_internal::stable(inst);
            return Some(self.inst(si));
        }
        None
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.ty_ids.insert(t, id);
        self.tys.push(None);
        let kind = t.kind();
        let mut s = match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"s\":1,\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"s\":0,\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!(
                    "\"k\":\"float\",\"bits\":{}",
                    match f {
                        FloatTy::F16 => 16,
                        FloatTy::F32 => 32,
                        FloatTy::F64 => 64,
                        FloatTy::F128 => 128,
                    }
                ),
                RigidTy::Array(e, n) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, self.const_len(n))
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"slice\",\"elem\":{}", e)
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", e, (*m == Mutability::Mut) as u8)
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", e, (*m == Mutability::Mut) as u8)
                }
                RigidTy::Tuple(v) => {
                    let v: Vec<String> = v.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"elems\":{}", arr(v))
                }
                RigidTy::FnDef(d, a) => {
                    let a2 = self.args(a);
                    let inst = if self.has_param(t) {
                        None
                    } else {
                        match Instance::resolve(d.clone(), a) {
                            Ok(i) => Some(self.inst(i)),
                            Err(_) => None,
                        }
                    };
                    format!(
                        "\"k\":\"fndef\",\"name\":{},\"args\":{},\"inst\":{}",
                        esc(&self.defname(d)),
                        a2,
                        inst.map(|i| i.to_string()).unwrap_or("null".into())
                    )
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let i = self.closure_inst(d, a);
                    // upvar types
                    let ity = rustc_public::rustc_internal::internal(self.tcx, t);
                    let mut ups = vec![];
                    if let rty::TyKind::Closure(_, ca) = ity.kind() {
                        for u in ca.as_closure().upvar_tys() {
                            let st: Ty = rustc_public::rustc_internal::stable(u);
                            ups.push(self.ty(st).to_string());
                        }
                    }
                    format!(
                        "\"k\":\"closure\",\"name\":{},\"inst\":{},\"upvars\":{}",
                        esc(&self.defname(d)),
                        i.map(|i| i.to_string()).unwrap_or("null".into()),
                        arr(ups)
                    )
                }
                RigidTy::Adt(d, a) => {
                    let name = self.defname(d);
                    let kindn = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let a2 = self.args(a);
                    let expand = self.is_local(d) || in_list(&name, EXPAND);
                    let vs = if expand {
                        let mut vv = vec![];
                        for v in d.variants() {
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(a);
                                let fi = self.ty(ft);
                                fs.push(format!("[{},{}]", esc(&f.name.to_string()), fi));
                            }
                            let dv = if kindn == "enum" {
                                d.discriminant_for_variant(v.idx()).val.to_string()
                            } else {
                                "0".into()
                            };
                            vv.push(format!(
                                "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                                esc(&v.name().to_string()),
                                dv,
                                arr(fs)
                            ));
                        }
                        arr(vv)
                    } else {
                        "null".into()
                    };
                    format!(
                        "\"k\":\"adt\",\"adt\":\"{}\",\"name\":{},\"local\":{},\"args\":{},\"variants\":{}",
                        kindn,
                        esc(&name),
                        self.is_local(d) as u8,
                        a2,
                        vs
                    )
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                _ => "\"k\":\"other\"".into(),
            },
            TyKind::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(&p.name)),
            TyKind::Alias(..) => "\"k\":\"alias\"".into(),
            TyKind::Bound(..) => "\"k\":\"bound\"".into(),
        };
        let _ = write!(s, ",\"str\":{}", esc(&format!("{}", self.pretty(t))));
        // layout
        if !self.has_param(t) {
            if let TyKind::RigidTy(r) = &kind {
                let want = matches!(
                    r,
                    RigidTy::Adt(..) | RigidTy::Tuple(..) | RigidTy::Array(..) | RigidTy::Closure(..)
                        | RigidTy::Ref(..) | RigidTy::Int(..) | RigidTy::Uint(..) | RigidTy::Bool | RigidTy::Float(..)
                );
                if want {
                    if let Ok(l) = t.layout() {
                        let sh = l.shape();
                        let _ = write!(s, ",\"size\":{}", sh.size.bytes());
                        if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &sh.fields {
                            let o: Vec<String> = offsets.iter().map(|x| x.bytes().to_string()).collect();
                            let _ = write!(s, ",\"offsets\":{}", arr(o));
                        }
                        if let rustc_public::abi::VariantsShape::Multiple { tag, tag_encoding, variants, .. } = &sh.variants {
                            use rustc_public::abi::{Scalar, TagEncoding};
                            let prim = match tag {
                                Scalar::Initialized { value, .. } => value,
                                Scalar::Union { value } => value,
                            };
                            let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                            let vo: Vec<String> = variants
                                .iter()
                                .map(|v| arr(v.offsets.iter().map(|x| x.bytes().to_string()).collect()))
                                .collect();
                            let enc = match tag_encoding {
                                TagEncoding::Direct => "null".to_string(),
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                                    "[{},{},{},\"{}\"]",
                                    untagged_variant.to_index(),
                                    niche_variants.start().to_index(),
                                    niche_variants.end().to_index(),
                                    niche_start
                                ),
                            };
                            let _ = write!(s, ",\"tagsize\":{},\"niche\":{},\"voffs\":{}", tsz, enc, arr(vo));
                        } else if let rustc_public::abi::VariantsShape::Single { index } = &sh.variants {
                            let _ = write!(s, ",\"single\":{}", index.to_index());
                        }
                    }
                }
            }
        }
        self.tys[id] = Some(format!("{{{}}}", s));
        id
    }

    fn pretty(&self, t: Ty) -> String {
        let ity = rustc_public::rustc_internal::internal(self.tcx, t);
        format!("{}", ity)
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.inst_ids.get(&i) {
            return *k;
        }
        let id = self.insts.len();
        self.inst_ids.insert(i, id);
        self.insts.push(None);
        self.queue.push((id, i));
        id
    }

    fn alloc_body(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in a.bytes.iter() {
            match b {
                Some(b) => {
                    let _ = write!(hex, "{:02x}", b);
                }
                None => hex.push_str("--"),
            }
        }
        let ps: Vec<(usize, AllocId)> = a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect();
        let mut pv = vec![];
        for (o, p) in ps {
            let k = self.alloc(p);
            pv.push(format!("[{},{}]", o, k));
        }
        format!(
            "\"bytes\":\"{}\",\"prov\":{},\"mut\":{}",
            hex,
            arr(pv),
            (a.mutability == Mutability::Mut) as u8
        )
    }

    fn alloc(&mut self, id: AllocId) -> usize {
        if let Some(k) = self.alloc_ids.get(&id) {
            return *k;
        }
        let k = self.allocs.len();
        self.alloc_ids.insert(id, k);
        self.allocs.push(None);
        let s = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => {
                let b = self.alloc_body(&a);
                format!("{{\"k\":\"mem\",{}}}", b)
            }
            GlobalAlloc::Function(i) => {
                let k = self.inst(i);
                format!("{{\"k\":\"fn\",\"inst\":{}}}", k)
            }
            GlobalAlloc::Static(d) => {
                let t = self.ty(d.ty());
                let init = match d.eval_initializer() {
                    Ok(a) => {
                        let b = self.alloc_body(&a);
                        format!(",{}", b)
                    }
                    Err(_) => "".into(),
                };
                format!("{{\"k\":\"static\",\"name\":{},\"ty\":{}{}}}", esc(&self.defname(&d)), t, init)
            }
            _ => "{\"k\":\"other\"}".into(),
        };
        self.allocs[k] = Some(s);
        k
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let b = self.alloc_body(a);
                format!("{{\"ty\":{},{}}}", t, b)
            }
            ConstantKind::ZeroSized => format!("{{\"ty\":{},\"zst\":1}}", t),
            ConstantKind::Unevaluated(u) => {
                let promoted = u.promoted.is_some();
                format!("{{\"ty\":{},\"uneval\":{},\"promoted\":{}}}", t, esc(&u.def.name().to_string()), promoted as u8)
            }
            ConstantKind::Ty(tc) => {
                let v = match tc.kind() {
                    TyConstKind::Value(_, a) => {
                        let b = self.alloc_body(a);
                        format!(",{}", b)
                    }
                    _ => "".into(),
                };
                format!("{{\"ty\":{},\"tyconst\":1{}}}", t, v)
            }
            ConstantKind::Param(_) => format!("{{\"ty\":{},\"param\":1}}", t),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    format!("[\"f\",{},{}]", i, t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, *from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, *from_end as u8)
                }
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".into(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                format!("{{\"p\":{}}}", self.place(p))
            }
            Operand::Constant(c) => format!("{{\"c\":{}}}", self.konst(&c.const_)),
            Operand::RuntimeChecks(_) => "{\"rc\":1}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("{{\"k\":\"addr\",\"p\":{}}}", self.place(p)),
            Rvalue::Ref(_, b, p) => {
                let m = matches!(b, BorrowKind::Mut { .. });
                format!("{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}", m as u8, self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"k\":\"reborrow\",\"mut\":{},\"p\":{}}}", (*m == Mutability::Mut) as u8, self.place(p))
            }
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"p\":{}}}}}", self.place(p)),
            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", self.op(o)),
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::Len(p) => format!("{{\"k\":\"len\",\"p\":{}}}", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = self.const_len(n);
                format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.op(o), n)
            }
            Rvalue::ThreadLocalRef(i) => format!("{{\"k\":\"tls\",\"name\":{}}}", esc(&self.defname(i))),
            Rvalue::UnaryOp(u, o) => format!("{{\"k\":\"un\",\"op\":\"{:?}\",\"o\":{}}}", u, self.op(o)),
            Rvalue::BinaryOp(b, x, y) => {
                format!("{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", b, self.op(x), self.op(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("{{\"k\":\"cbin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", b, self.op(x), self.op(y))
            }
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("{{\"k\":\"cast\",\"kind\":{},\"o\":{},\"ty\":{}}}", esc(&format!("{:?}", k)), self.op(o), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("\"agg\":\"array\",\"elem\":{}", t)
                    }
                    AggregateKind::Tuple => "\"agg\":\"tuple\"".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        let t = self.ty(t);
                        format!(
                            "\"agg\":\"adt\",\"ty\":{},\"variant\":{},\"active\":{}",
                            t,
                            v.to_index(),
                            f.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(d.clone(), a.clone());
                        let t = self.ty(t);
                        format!("\"agg\":\"closure\",\"ty\":{}", t)
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        format!("\"agg\":\"rawptr\",\"ty\":{}", t)
                    }
                    _ => "\"agg\":\"other\"".into(),
                };
                format!("{{\"k\":\"agg\",{},\"ops\":{}}}", ks, arr(os))
            }
        }
    }

    fn line(&self, s: &Span) -> String {
        let l = s.get_lines();
        let f = s.get_filename().to_string();
        if f.ends_with(".rs") && !f.starts_with("/rustc") && !f.contains("/rustlib/") {
            format!("[{},{}]", l.start_line, esc(f.rsplit('/').next().unwrap_or("")))
        } else {
            format!("[{},{}]", l.start_line, esc(&f))
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, esc(&v.name.to_string())));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let ln = self.line(&s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        st.push(format!("{{\"s\":\"=\",\"p\":{},\"r\":{},\"l\":{}}}", p, r, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!(
                            "{{\"s\":\"setdiscr\",\"p\":{},\"v\":{},\"l\":{}}}",
                            p,
                            variant_index.to_index(),
                            ln
                        ));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let o = self.op(o);
                        st.push(format!("{{\"s\":\"assume\",\"o\":{},\"l\":{}}}", o, ln));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        st.push(format!("{{\"s\":\"cno\",\"l\":{}}}", ln));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("{{\"s\":\"dead\",\"v\":{}}}", l)),
                    _ => {}
                }
            }
            let ln = self.line(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("{{\"t\":\"goto\",\"to\":{}}}", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!(
                        "{{\"t\":\"switch\",\"o\":{},\"br\":{},\"else\":{},\"l\":{}}}",
                        self.op(discr),
                        arr(br),
                        targets.otherwise(),
                        ln
                    )
                }
                TerminatorKind::Resume => "{\"t\":\"resume\"}".into(),
                TerminatorKind::Abort => "{\"t\":\"abort\"}".into(),
                TerminatorKind::Return => format!("{{\"t\":\"return\",\"l\":{}}}", ln),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("{{\"t\":\"drop\",\"p\":{},\"to\":{}}}", self.place(place), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    let d = self.place(destination);
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"to\":{},\"l\":{}}}",
                        f,
                        arr(a),
                        d,
                        target.map(|x| x.to_string()).unwrap_or("null".into()),
                        ln
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.op(len), self.op(index))
                        }
                        AssertMessage::Overflow(b, x, y) => {
                            format!("[\"overflow\",\"{:?}\",{},{}]", b, self.op(x), self.op(y))
                        }
                        AssertMessage::OverflowNeg(x) => format!("[\"negoverflow\",{}]", self.op(x)),
                        AssertMessage::DivisionByZero(x) => format!("[\"divzero\",{}]", self.op(x)),
                        AssertMessage::RemainderByZero(x) => format!("[\"remzero\",{}]", self.op(x)),
                        m => format!("[\"other\",{}]", esc(&format!("{:?}", m))),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"o\":{},\"exp\":{},\"msg\":{},\"to\":{},\"l\":{}}}",
                        self.op(cond),
                        *expected as u8,
                        m,
                        target,
                        ln
                    )
                }
                TerminatorKind::InlineAsm { .. } => "{\"t\":\"asm\"}".into(),
            };
            blocks.push(format!("{{\"st\":{},\"term\":{}}}", arr(st), t));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{},\"span\":{}",
            b.arg_locals().len(),
            arr(locals),
            arr(names),
            arr(blocks),
            self.line(&b.span)
        )
    }

    fn vis(&self, d: rustc_span::def_id::DefId) -> (bool, bool) {
        match d.as_local() {
            None => (false, false),
            Some(l) => {
                let ev = self.tcx.effective_visibilities(());
                (ev.is_exported(l), ev.is_reachable(l))
            }
        }
    }

    fn drain(&mut self) {
        while let Some((id, i)) = self.queue.pop() {
            let dn = i.def.def_id();
            let did = rustc_public::rustc_internal::internal(self.tcx, dn);
            let local = did.is_local();
            let dname = i.def.name().to_string();
            let name = i.name().to_string();
            let a = i.args();
            let a2 = self.args(&a);
            let intr = i.intrinsic_name().map(|s| esc(&s.to_string())).unwrap_or("null".into());
            let kind = format!("{:?}", i.kind);
            let (exp, _) = self.vis(did);
            let tr = self.trait_of(did);
            let mut s = format!(
                "\"def\":{},\"name\":{},\"local\":{},\"args\":{},\"intrinsic\":{},\"kind\":{},\"exported\":{},\"trait\":{},\"unsafe\":{}",
                esc(&dname), esc(&name), local as u8, a2, intr, esc(&kind), exp as u8, tr, self.is_unsafe(did) as u8
            );
            if local || (in_list(&dname, INLINE) && i.intrinsic_name().is_none() && i.has_body()) {
                if let Some(b) = i.body() {
                    let bs = self.body(&b);
                    let _ = write!(s, ",{}", bs);
                }
            }
            self.insts[id] = Some(format!("{{{}}}", s));
        }
    }

    fn is_unsafe(&self, did: rustc_span::def_id::DefId) -> bool {
        matches!(self.tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn)
            && self.tcx.fn_sig(did).skip_binder().safety().is_unsafe()
    }

    /// (trait path, self type) if the item is a member of a trait impl
    fn trait_of(&mut self, did: rustc_span::def_id::DefId) -> String {
        if let Some(p) = self.tcx.opt_parent(did) {
            if matches!(self.tcx.def_kind(p), rustc_hir::def::DefKind::Impl { of_trait: true }) {
                let tr = self.tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                return esc(&format!("{} for {}", tr.print_only_trait_path(), tr.self_ty()));
            }
        }
        "null".into()
    }
}

fn dump(tcx: Tcx<'_>) -> ControlFlow<(), ()> {
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let krate = rustc_public::local_crate();
    if krate.name.to_string() != want {
        return ControlFlow::Continue(());
    }
    let mut cx = Cx {
        tcx,
        ty_ids: HashMap::new(),
        tys: vec![],
        inst_ids: HashMap::new(),
        insts: vec![],
        queue: vec![],
        alloc_ids: HashMap::new(),
        allocs: vec![],
    };
    let mut items = vec![];
    let mut generics = vec![];
    for it in rustc_public::all_local_items() {
        let it: CrateItem = it;
        let did = rustc_public::rustc_internal::internal(tcx, it.def_id());
        let (exp, reach) = cx.vis(did);
        let kind = format!("{:?}", it.kind());
        let name = it.name().to_string();
        let tr = cx.trait_of(did);
        let has_safety = if matches!(tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
            let sig = format!("{:?}", tcx.fn_sig(did).skip_binder());
            sig.contains("unsafe") as u8
        } else {
            0
        };
        let mut e = format!(
            "\"name\":{},\"kind\":{},\"exported\":{},\"reachable\":{},\"trait\":{},\"unsafe\":{},\"span\":{}",
            esc(&name), esc(&kind), exp as u8, reach as u8, tr, has_safety, cx.line(&it.span())
        );
        if it.requires_monomorphization() {
            if let Some(b) = it.body() {
                let bs = cx.body(&b);
                generics.push(format!("{{{},{}}}", e, bs));
            }
            e.push_str(",\"generic\":1");
        } else if kind == "Fn" {
            if let Ok(i) = Instance::try_from(it) {
                let k = cx.inst(i);
                let _ = write!(e, ",\"inst\":{}", k);
            }
        } else if kind.starts_with("Const") || kind == "Static" {
            // evaluated constant
            if let Ok(i) = Instance::try_from(it) {
                let t = it.ty();
                let ti = cx.ty(t);
                let _ = write!(e, ",\"ty\":{}", ti);
                if kind.starts_with("Const") {
                    if let Ok(a) = i.try_const_eval(t) {
                        let b = cx.alloc_body(&a);
                        let _ = write!(e, ",\"value\":{{{}}}", b);
                    }
                }
            }
        }
        items.push(format!("{{{}}}", e));
        cx.drain();
    }
    cx.drain();
    let mut impls = vec![];
    for im in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(im), rustc_hir::def::DefKind::Impl { of_trait: true }) {
            let tr = tcx.impl_trait_ref(im.to_def_id()).instantiate_identity().skip_norm_wip();
            let derived = tcx.is_builtin_derived(im.to_def_id());
            let sp = tcx.def_span(im.to_def_id());
            let s: Span = rustc_public::rustc_internal::stable(sp);
            impls.push(format!(
                "{{\"trait\":{},\"self\":{},\"derived\":{},\"span\":{}}}",
                esc(&format!("{}", tr.print_only_trait_path())),
                esc(&format!("{}", tr.self_ty())),
                derived as u8,
                cx.line(&s)
            ));
        }
    }
    let out = format!(
        "{{\"crate\":{},\"items\":{},\n\"generics\":{},\n\"impls\":{},\n\"insts\":{},\n\"types\":{},\n\"allocs\":{}}}\n",
        esc(&krate.name.to_string()),
        arr(items),
        arr(generics),
        arr(impls),
        arr(cx.insts.iter().map(|x| x.clone().unwrap_or("null".into())).collect()),
        arr(cx.tys.iter().map(|x| x.clone().unwrap_or("null".into())).collect()),
        arr(cx.allocs.iter().map(|x| x.clone().unwrap_or("null".into())).collect())
    );
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let tmp = format!("{}.tmp.{}", path, std::process::id());
    std::fs::write(&tmp, out).expect("write");
    std::fs::rename(&tmp, &path).expect("rename");
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if !is_target {
        // version probes and other crates: the real compiler
        let st = std::process::Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.remove(1);
    for f in ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Coverflow-checks=on", "-Cdebug-assertions=on", "-Awarnings"] {
        args.push(f.into());
    }
    let r = run_with_tcx!(&args, dump);
    if let Err(e) = r {
        eprintln!("mirdump: {:?}", e);
        std::process::exit(1);
    }
}
