// mirdump: a rustc wrapper that, for the crate named in MIRDUMP_CRATE, dumps the monomorphic
// MIR reachable from every exported (#[no_mangle]) function, with layouts and constants.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{rustc_internal, CrateDef, CrateDefType};
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_q: Vec<Ty>,
    insts: HashMap<Instance, usize>,
    inst_q: Vec<Instance>,
    allocs: HashMap<AllocId, usize>,
    alloc_q: Vec<AllocId>,
}

fn scalar_json(s: &Scalar) -> String {
    let p = match s { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
    match p {
        Primitive::Int { length, signed } => format!("[\"{}\",{}]", if *signed { "i" } else { "u" }, length.bits() / 8),
        Primitive::Float { length } => format!("[\"f\",{}]", length.bits() / 8),
        Primitive::Pointer(_) => "[\"p\",4]".to_string(),
    }
}

impl<'tcx> Ctx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_q.len();
        self.tys.insert(t, i);
        self.ty_q.push(t);
        i
    }
    fn inst(&mut self, t: Instance) -> usize {
        if let Some(i) = self.insts.get(&t) { return *i; }
        let i = self.inst_q.len();
        self.insts.insert(t, i);
        self.inst_q.push(t);
        i
    }
    fn alloc(&mut self, t: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&t) { return *i; }
        let i = self.alloc_q.len();
        self.allocs.insert(t, i);
        self.alloc_q.push(t);
        i
    }

    fn alloc_json(&mut self, a: &Allocation) -> String {
        let mut hex = String::with_capacity(a.bytes.len() * 2);
        for b in &a.bytes { let _ = write!(hex, "{:02x}", b.unwrap_or(0)); }
        let provs: Vec<String> = a.provenance.ptrs.iter().map(|(off, p)| {
            let id = self.alloc(p.0);
            format!("[{},{}]", off, id)
        }).collect();
        format!("\"b\":\"{}\",\"p\":[{}],\"al\":{}", hex, provs.join(","), a.align)
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let mut o = String::new();
        let kind = t.kind();
        let name = format!("{}", t);
        let _ = write!(o, "{{\"n\":{}", esc(&name));
        let rigid = match kind.rigid() { Some(r) => r.clone(), None => { o.push_str(",\"k\":\"other\"}"); return o; } };
        match &rigid {
            RigidTy::Bool => o.push_str(",\"k\":\"bool\""),
            RigidTy::Char => o.push_str(",\"k\":\"char\""),
            RigidTy::Int(_) => o.push_str(",\"k\":\"int\""),
            RigidTy::Uint(_) => o.push_str(",\"k\":\"uint\""),
            RigidTy::Float(_) => o.push_str(",\"k\":\"float\""),
            RigidTy::Str => o.push_str(",\"k\":\"str\""),
            RigidTy::Never => o.push_str(",\"k\":\"never\""),
            RigidTy::Array(e, c) => { let e = self.ty(*e); let _ = write!(o, ",\"k\":\"array\",\"e\":{},\"cnt\":{}", e, c.eval_target_usize().unwrap_or(0)); }
            RigidTy::Slice(e) => { let e = self.ty(*e); let _ = write!(o, ",\"k\":\"slice\",\"e\":{}", e); }
            RigidTy::RawPtr(e, _) => { let e = self.ty(*e); let _ = write!(o, ",\"k\":\"ptr\",\"e\":{}", e); }
            RigidTy::Ref(_, e, _) => { let e = self.ty(*e); let _ = write!(o, ",\"k\":\"ref\",\"e\":{}", e); }
            RigidTy::Pat(e, _) => { let e = self.ty(*e); let _ = write!(o, ",\"k\":\"pat\",\"e\":{}", e); }
            RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect(); let _ = write!(o, ",\"k\":\"tuple\",\"f\":[{}]", v.join(",")); }
            RigidTy::FnDef(..) => o.push_str(",\"k\":\"fndef\""),
            RigidTy::FnPtr(_) => o.push_str(",\"k\":\"fnptr\""),
            RigidTy::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            RigidTy::Closure(..) => o.push_str(",\"k\":\"closure\""),
            RigidTy::Adt(def, args) => {
                let k = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                let _ = write!(o, ",\"k\":\"{}\",\"def\":{},\"box\":{}", k, esc(&def.name()), def.is_box());
                let ta: Vec<String> = args.0.iter().filter_map(|a| a.ty().copied()).map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"ta\":[{}]", ta.join(","));
                let mut vs = vec![];
                for v in def.variants() {
                    let fs: Vec<String> = v.fields().iter().map(|f| format!("[{},{}]", esc(&f.name.to_string()), self.ty(f.ty_with_args(args)))).collect();
                    let d = if k == "enum" { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name().to_string()), d, fs.join(",")));
                }
                let _ = write!(o, ",\"v\":[{}]", vs.join(","));
                if k == "enum" { let d = self.ty(rigid.discriminant_ty()); let _ = write!(o, ",\"dty\":{}", d); }
            }
            _ => o.push_str(",\"k\":\"other\""),
        }
        if let Ok(l) = t.layout() {
            let s = l.shape();
            let _ = write!(o, ",\"sz\":{},\"al\":{},\"uns\":{}", s.size.bytes(), s.abi_align, s.is_unsized());
            match &s.value_repr {
                ValueRepr::Scalar(a) => { let _ = write!(o, ",\"abi\":[{}]", scalar_json(a)); }
                ValueRepr::ScalarPair { a, b, b_offset } => { let _ = write!(o, ",\"abi\":[{},{},{}]", scalar_json(a), scalar_json(b), b_offset.bytes()); }
                _ => {}
            }
            match &s.fields {
                FieldsShape::Primitive => {}
                FieldsShape::Union(n) => { let _ = write!(o, ",\"fo\":[{}]", vec!["0"; n.get()].join(",")); }
                FieldsShape::Array { stride, .. } => { let _ = write!(o, ",\"st\":{}", stride.bytes()); }
                FieldsShape::Arbitrary { offsets } => { let v: Vec<String> = offsets.iter().map(|x| x.bytes().to_string()).collect(); let _ = write!(o, ",\"fo\":[{}]", v.join(",")); }
            }
            match &s.variants {
                VariantsShape::Empty => {}
                VariantsShape::Single { index } => { let _ = write!(o, ",\"sv\":{}", index.to_index()); }
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let tag_off = match &s.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                    let vo: Vec<String> = variants.iter().map(|v| format!("[{}]", v.offsets.iter().map(|x| x.bytes().to_string()).collect::<Vec<_>>().join(","))).collect();
                    let _ = write!(o, ",\"tag\":{},\"tago\":{},\"vo\":[{}]", scalar_json(tag), tag_off, vo.join(","));
                    match tag_encoding {
                        TagEncoding::Direct => {}
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                            let _ = write!(o, ",\"niche\":[{},{},{},{}]", untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), niche_start);
                        }
                    }
                }
            }
        }
        o.push('}');
        o
    }

    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() { return format!("[{}]", p.local); }
        let v: Vec<String> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "[\"d\"]".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
        }).collect();
        format!("[{},{}]", p.local, v.join(","))
    }

    fn operand(&mut self, op: &Operand) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
            Operand::Constant(c) => {
                let ty = c.const_.ty();
                let tid = self.ty(ty);
                match c.const_.kind() {
                    ConstantKind::ZeroSized => format!("[\"z\",{}]", tid),
                    ConstantKind::Allocated(a) => {
                        let a = a.clone();
                        if a.provenance.ptrs.is_empty() && a.bytes.len() <= 16 {
                            let mut v: u128 = 0;
                            for (i, b) in a.bytes.iter().enumerate() { v |= (b.unwrap_or(0) as u128) << (8 * i); }
                            format!("[\"k\",{},{}]", tid, v)
                        } else {
                            format!("[\"K\",{},{{{}}}]", tid, self.alloc_json(&a))
                        }
                    }
                    ConstantKind::Ty(tc) => match tc.kind() {
                        TyConstKind::Value(_, a) => {
                            let mut v: u128 = 0;
                            for (i, b) in a.bytes.iter().enumerate().take(16) { v |= (b.unwrap_or(0) as u128) << (8 * i); }
                            format!("[\"k\",{},{}]", tid, v)
                        }
                        TyConstKind::ZSTValue(_) => format!("[\"z\",{}]", tid),
                        x => format!("[\"?\",{},{}]", tid, esc(&format!("{:?}", x))),
                    },
                    x => format!("[\"?\",{},{}]", tid, esc(&format!("{:?}", x))),
                }
            }
        }
    }

    // ["len",n] | ["vt",alloc] | ["keep"]
    fn unsize(&mut self, src: Ty, dst: Ty) -> String {
        let (sk, dk) = (src.kind(), dst.kind());
        let (s, d) = (sk.rigid().unwrap().clone(), dk.rigid().unwrap().clone());
        match (&s, &d) {
            (RigidTy::Ref(_, a, _) | RigidTy::RawPtr(a, _), RigidTy::Ref(_, b, _) | RigidTy::RawPtr(b, _)) => self.unsize_tail(*a, *b),
            (RigidTy::Pat(a, _), RigidTy::Pat(b, _)) => self.unsize(*a, *b),
            (RigidTy::Adt(da, aa), RigidTy::Adt(_db, ab)) => {
                let va = da.variants();
                for f in va[0].fields() {
                    let (fa, fb) = (f.ty_with_args(aa), f.ty_with_args(ab));
                    if fa != fb {
                        // skip PhantomData-like zsts
                        if fa.layout().map(|l| l.shape().size.bytes() == 0).unwrap_or(false) { continue; }
                        return self.unsize(fa, fb);
                    }
                }
                "[\"?\"]".to_string()
            }
            _ => "[\"?\"]".to_string(),
        }
    }
    fn unsize_tail(&mut self, a: Ty, b: Ty) -> String {
        let (ak, bk) = (a.kind(), b.kind());
        let (ra, rb) = (ak.rigid().unwrap().clone(), bk.rigid().unwrap().clone());
        match (&ra, &rb) {
            (RigidTy::Array(_, n), RigidTy::Slice(_)) => format!("[\"len\",{}]", n.eval_target_usize().unwrap()),
            (RigidTy::Dynamic(..), RigidTy::Dynamic(..)) => "[\"keep\"]".to_string(),
            (_, RigidTy::Dynamic(..)) => {
                let principal = bk.trait_principal();
                let va = GlobalAlloc::VTable(a, principal).vtable_allocation();
                match va { Some(id) => format!("[\"vt\",{}]", self.alloc(id)), None => "[\"?\"]".to_string() }
            }
            (RigidTy::Adt(da, aa), RigidTy::Adt(_, ab)) => {
                let f = da.variants()[0].fields();
                let l = f.last().unwrap();
                self.unsize_tail(l.ty_with_args(aa), l.ty_with_args(ab))
            }
            _ => "[\"?\"]".to_string(),
        }
    }

    fn fn_const(&mut self, t: Ty) -> Option<Instance> {
        match t.kind().rigid() {
            Some(RigidTy::FnDef(d, a)) => Instance::resolve(*d, a).ok(),
            _ => None,
        }
    }

    fn rvalue(&mut self, rv: &Rvalue, locals: &[LocalDecl]) -> String {
        match rv {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::AddressOf(_, p) | Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kk = match k {
                    AggregateKind::Array(_) => "[\"arr\"]".to_string(),
                    AggregateKind::Tuple => "[\"tup\"]".to_string(),
                    AggregateKind::Adt(_, v, _, _, f) => match f { Some(f) => format!("[\"un\",{}]", f), None => format!("[\"adt\",{}]", v.to_index()) },
                    AggregateKind::Closure(..) => "[\"tup\"]".to_string(),
                    AggregateKind::RawPtr(..) => "[\"rp\"]".to_string(),
                    _ => "[\"?\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kk, v.join(","))
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).unwrap(); let tb = b.ty(locals).unwrap();
                let (t, tb) = (self.ty(t), self.ty(tb));
                format!("[\"bin\",\"{:?}\",{},{},{},{}]", op, self.operand(a), self.operand(b), t, tb)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).unwrap(); let tb = b.ty(locals).unwrap();
                let (t, tb) = (self.ty(t), self.ty(tb));
                format!("[\"cbin\",\"{:?}\",{},{},{},{}]", op, self.operand(a), self.operand(b), t, tb)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(locals).unwrap();
                let t = self.ty(t);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a), t)
            }
            Rvalue::Cast(k, o, ty) => {
                let st = o.ty(locals).unwrap();
                let extra = match k {
                    CastKind::PointerCoercion(PointerCoercion::Unsize) => self.unsize(st, *ty),
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                        match st.kind().rigid() {
                            Some(RigidTy::FnDef(d, a)) => { let i = Instance::resolve_for_fn_ptr(*d, a).unwrap(); format!("{}", self.inst(i)) }
                            _ => "null".into(),
                        }
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                        match st.kind().rigid() {
                            Some(RigidTy::Closure(d, a)) => { let i = Instance::resolve_closure(*d, a, ClosureKind::FnOnce).unwrap(); format!("{}", self.inst(i)) }
                            _ => "null".into(),
                        }
                    }
                    _ => "null".into(),
                };
                let kk = match k {
                    CastKind::PointerCoercion(c) => match c {
                        PointerCoercion::ReifyFnPointer(_) => "reify".to_string(),
                        PointerCoercion::ClosureFnPointer(_) => "closurefn".to_string(),
                        PointerCoercion::Unsize => "unsize".to_string(),
                        _ => "PtrToPtr".to_string(),
                    },
                    k => format!("{:?}", k),
                };
                let (st, dt) = (self.ty(st), self.ty(*ty));
                format!("[\"cast\",\"{}\",{},{},{},{}]", kk, self.operand(o), st, dt, extra)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().unwrap()),
            Rvalue::ThreadLocalRef(item) => {
                match StaticDef::try_from(item.clone()) {
                    Ok(s) => format!("[\"tls\",{}]", esc(&s.name())),
                    Err(_) => "[\"?\"]".into(),
                }
            }
        }
    }

    fn body_json(&mut self, b: &Body) -> String {
        let locals = b.locals().to_vec();
        let mut o = String::new();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, "\"l\":[{}],\"ac\":{},\"sp\":{}", lt.join(","), b.arg_locals().len(), match b.spread_arg() { Some(s) => s.to_string(), None => "null".into() });
        let mut bbs = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, rv) => { let p = self.place(p); let r = self.rvalue(rv, &locals); ss.push(format!("[\"=\",{},{}]", p, r)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); ss.push(format!("[\"sd\",{},{}]", p, variant_index.to_index())); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let t = c.src.ty(&locals).unwrap();
                        let t = self.ty(t);
                        let (a, b2, n) = (self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count));
                        ss.push(format!("[\"cno\",{},{},{},{}]", a, b2, n, t));
                    }
                    StatementKind::StorageLive(l) => ss.push(format!("[\"sl\",{}]", l)),
                    _ => {}
                }
            }
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let t = discr.ty(&locals).unwrap();
                    let t = self.ty(t);
                    format!("[\"sw\",{},{},[{}],{}]", self.operand(discr), t, br.join(","), targets.otherwise())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unr\"]".into(),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&locals).unwrap();
                    let i = Instance::resolve_drop_in_place(t);
                    let tid = self.ty(t);
                    let is_dyn = matches!(t.kind().rigid(), Some(RigidTy::Dynamic(..)));
                    if is_dyn { format!("[\"drop\",{},{},{},\"dyn\"]", self.place(place), target, tid) }
                    else if i.is_empty_shim() { format!("[\"goto\",{}]", target) }
                    else { format!("[\"drop\",{},{},{},{}]", self.place(place), target, tid, self.inst(i)) }
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&locals).unwrap();
                    let mut rustcall = false;
                    if let Some(sig) = ft.kind().fn_sig() { if sig.skip_binder().abi == Abi::RustCall { rustcall = true; } }
                    let f = match self.fn_const(ft) {
                        Some(i) => match i.kind {
                            InstanceKind::Virtual { idx } => format!("[\"virt\",{},{}]", idx, esc(&i.name())),
                            _ => if i.is_empty_shim() { "[\"nop\"]".into() } else { format!("[\"fn\",{}]", self.inst(i)) },
                        },
                        None => match ft.kind().rigid() {
                            Some(RigidTy::FnDef(..)) => format!("[\"unresolved\",{}]", esc(&format!("{:?}", ft))),
                            _ => format!("[\"ptr\",{}]", self.operand(func)),
                        },
                    };
                    let av: Vec<String> = args.iter().map(|a| { let t = a.ty(&locals).unwrap(); let t = self.ty(t); format!("[{},{}]", self.operand(a), t) }).collect();
                    format!("[\"call\",{},[{}],{},{},{}]", f, av.join(","), self.place(destination), match target { Some(t) => t.to_string(), None => "null".into() }, rustcall)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg { AssertMessage::BoundsCheck { .. } => "bounds".to_string(), m => m.description().unwrap_or("assert").to_string() };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, target, esc(&m))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            bbs.push(format!("[[{}],{}]", ss.join(","), t));
        }
        let _ = write!(o, ",\"bb\":[{}]", bbs.join(","));
        o
    }

    fn inst_json(&mut self, i: Instance) -> String {
        let mut o = String::new();
        let name = i.name();
        let _ = write!(o, "{{\"n\":{},\"sym\":{}", esc(&name), esc(&i.mangled_name()));
        let ta: Vec<String> = i.args().0.iter().filter_map(|a| a.ty().copied()).map(|t| self.ty(t).to_string()).collect();
        let _ = write!(o, ",\"ta\":[{}]", ta.join(","));
        let foreign = i.is_foreign_item();
        if foreign { o.push_str(",\"foreign\":true"); }
        if let Some(n) = i.intrinsic_name() { let _ = write!(o, ",\"intr\":{}", esc(&n)); }
        if let InstanceKind::Virtual { idx } = i.kind { let _ = write!(o, ",\"virt\":{}", idx); }
        let did = rustc_internal::internal(self.tcx, i.def.def_id());
        let dp = rustc_middle::ty::print::with_resolve_crate_name!(rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(did)));
        let _ = write!(o, ",\"dp\":{}", esc(&dp));
        if let rustc_hir::def::DefKind::Ctor(..) = self.tcx.def_kind(did) {
            o.push_str(",\"ctor\":true");
            if let Some(sig) = i.ty().kind().fn_sig() {
                let sig = sig.skip_binder();
                let rt = self.ty(sig.output());
                let at: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
                let _ = write!(o, ",\"rt\":{},\"at\":[{}]", rt, at.join(","));
            }
        }
        if !foreign && !matches!(i.kind, InstanceKind::Virtual { .. }) && !matches!(i.kind, InstanceKind::LlvmIntrinsic) && (i.kind != InstanceKind::Intrinsic || i.has_body()) {
            if i.kind == InstanceKind::Shim || i.has_body() {
                if let Some(b) = i.body() { o.push(','); let s = self.body_json(&b); o.push_str(&s); }
            }
        }
        o.push('}');
        o
    }

    fn galloc_json(&mut self, a: AllocId) -> String {
        match GlobalAlloc::from(a) {
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"i\":{}}}", self.inst(i)),
            g @ GlobalAlloc::VTable(..) => { let id = g.vtable_allocation().unwrap(); format!("{{\"k\":\"vt\",\"a\":{}}}", self.alloc(id)) }
            GlobalAlloc::Static(s) => {
                let nm = s.name();
                match s.eval_initializer() {
                    Ok(al) => format!("{{\"k\":\"static\",\"n\":{},{}}}", esc(&nm), self.alloc_json(&al)),
                    Err(_) => format!("{{\"k\":\"extern\",\"n\":{}}}", esc(&nm)),
                }
            }
            GlobalAlloc::Memory(m) => format!("{{\"k\":\"mem\",{}}}", self.alloc_json(&m)),
            GlobalAlloc::TypeId { ty } => format!("{{\"k\":\"typeid\",\"t\":{}}}", self.ty(ty)),
        }
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Ctx { tcx, tys: HashMap::new(), ty_q: vec![], insts: HashMap::new(), inst_q: vec![], allocs: HashMap::new(), alloc_q: vec![] };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if item.kind() != rustc_public::ItemKind::Fn || item.requires_monomorphization() { continue; }
        let did = rustc_internal::internal(tcx, item.def_id());
        let attrs = tcx.codegen_fn_attrs(did);
        let exported = attrs.contains_extern_indicator() || attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE);
        if !exported { continue; }
        if let Ok(i) = Instance::try_from(item) {
            let id = cx.inst(i);
            roots.push(format!("[{},{}]", esc(&i.mangled_name()), id));
        }
    }
    // Extra roots: types of local non-generic ADTs (for state encoding), by name.
    let mut adts = vec![];
    for a in rustc_public::local_crate().adts() {
        let did = rustc_internal::internal(tcx, a.def_id());
        if tcx.generics_of(did).count() == 0 {
            let id = cx.ty(a.ty());
            adts.push(format!("[{},{}]", esc(&a.name()), id));
        }
    }
    let f = std::fs::File::create(out).unwrap();
    let mut w = std::io::BufWriter::new(f);
    let (mut ii, mut ai, mut ti) = (0, 0, 0);
    loop {
        if ii < cx.inst_q.len() { let i = cx.inst_q[ii]; let s = cx.inst_json(i); writeln!(w, "F{} {}", ii, s).unwrap(); ii += 1; continue; }
        if ai < cx.alloc_q.len() { let a = cx.alloc_q[ai]; let s = cx.galloc_json(a); writeln!(w, "A{} {}", ai, s).unwrap(); ai += 1; continue; }
        if ti < cx.ty_q.len() { let t = cx.ty_q[ti]; let s = cx.ty_json(t); writeln!(w, "T{} {}", ti, s).unwrap(); ti += 1; continue; }
        break;
    }
    writeln!(w, "R {{\"roots\":[{}],\"adts\":[{}]}}", roots.join(","), adts.join(",")).unwrap();
    w.flush().unwrap();
}

struct Cb(Option<String>);
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = self.0.take() {
            rustc_internal::run(tcx, || dump(tcx, &out)).unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let wasm = args.iter().any(|a| a.contains("wasm32-unknown-unknown"));
    let mut out = None;
    if wasm {
        args.push("--sysroot".into());
        args.push(std::env::var("MIRDUMP_SYSROOT").expect("MIRDUMP_SYSROOT"));
        args.push("-Zalways-encode-mir".into());
        if let Ok(x) = std::env::var("MIRDUMP_FLAGS") { args.extend(x.split_whitespace().map(|s| s.to_string())); }
        if let (Ok(c), Ok(o)) = (std::env::var("MIRDUMP_CRATE"), std::env::var("MIRDUMP_OUT")) {
            if args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == c) { out = Some(o); }
        }
    }
    rustc_driver::install_ice_hook("", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| { rustc_driver::compiler_entrypoint(&args, &mut Cb(out)); });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
