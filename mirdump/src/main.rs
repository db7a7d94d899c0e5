//! rustc driver: compiles the harness crate (whose `root_*` functions name the functions under
//! contract) and writes the monomorphic MIR of everything reachable from the roots as JSON.
//! Nothing is interpreted here: the JSON is the compiler's own MIR of the code in /repo.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
#[macro_use]
extern crate rustc_public;
extern crate rustc_middle;
extern crate rustc_public_bridge;

use rustc_public::abi::*;
use rustc_public::mir::alloc::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&x);
    }
    o.push(']');
    o
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    ty_q: VecDeque<(usize, Ty)>,
    insts: HashMap<Instance, usize>,
    inst_q: VecDeque<(usize, Instance)>,
    stop: Vec<String>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> String {
        if let Some(i) = self.tys.get(&t) {
            return i.to_string();
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        self.ty_q.push_back((i, t));
        i.to_string()
    }
    fn inst(&mut self, x: Instance) -> String {
        if let Some(i) = self.insts.get(&x) {
            return i.to_string();
        }
        let i = self.insts.len();
        self.insts.insert(x, i);
        self.inst_q.push_back((i, x));
        i.to_string()
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(self.ty(*t)),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{n}}}"),
                    Err(_) => "null".into(),
                }),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        arr(v)
    }
    fn emit_ty(&mut self, t: Ty) -> String {
        let TyKind::RigidTy(r) = t.kind() else { return format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{t}"))) };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"w\":{},\"s\":1}}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"w\":{},\"s\":0}}", i.num_bytes() * 8),
            RigidTy::Float(f) => format!("{{\"k\":\"float\",\"n\":{}}}", js(&format!("{f:?}"))),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                format!("{{\"k\":\"array\",\"e\":{e},\"n\":{}}}", n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))
            }
            RigidTy::Slice(e) => {
                let e = self.ty(e);
                format!("{{\"k\":\"slice\",\"e\":{e}}}")
            }
            RigidTy::RawPtr(e, _) => {
                let e = self.ty(e);
                format!("{{\"k\":\"ptr\",\"e\":{e}}}")
            }
            RigidTy::Ref(_, e, m) => {
                let e = self.ty(e);
                format!("{{\"k\":\"ref\",\"e\":{e},\"m\":{}}}", (m == Mutability::Mut) as u8)
            }
            RigidTy::Tuple(v) => {
                let v: Vec<String> = v.iter().map(|x| self.ty(*x)).collect();
                format!("{{\"k\":\"tuple\",\"f\":{}}}", arr(v))
            }
            RigidTy::FnDef(d, a) => {
                let inst = Instance::resolve(d, &a).ok();
                let i = inst.map(|i| self.inst(i)).unwrap_or("null".into());
                let g = self.gargs(&a);
                format!("{{\"k\":\"fndef\",\"d\":{},\"a\":{g},\"i\":{i}}}", js(&d.name()))
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", js(&format!("{t}"))),
            RigidTy::Closure(d, a) => {
                // upvars: last generic arg is the tupled upvar types
                let up = a.0.last().and_then(|g| g.ty().copied());
                let up = up.map(|u| self.ty(u)).unwrap_or("null".into());
                let mut s = String::from("{");
                let _ = write!(s, "\"k\":\"closure\",\"d\":{},\"u\":{up}", js(&d.name()));
                for (n, k) in [("once", ClosureKind::FnOnce), ("mut", ClosureKind::FnMut), ("fn", ClosureKind::Fn)] {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve_closure(d, &a, k)));
                    if let Ok(Ok(i)) = r {
                        let i = self.inst(i);
                        let _ = write!(s, ",\"{n}\":{i}");
                    }
                }
                s.push('}');
                s
            }
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", js(&format!("{t}"))),
            RigidTy::Adt(d, a) => {
                let g = self.gargs(&a);
                let kind = match d.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let vs: Vec<String> = d
                    .variants()
                    .iter()
                    .map(|v| {
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let t = self.ty(f.ty_with_args(&a));
                                format!("[{},{}]", js(&f.name), t)
                            })
                            .collect();
                        let disc = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        format!("{{\"n\":{},\"d\":{disc},\"f\":{}}}", js(&v.name()), arr(fs))
                    })
                    .collect();
                format!("{{\"k\":\"adt\",\"ak\":{},\"n\":{},\"box\":{},\"a\":{g},\"v\":{},\"s\":{}}}", js(kind), js(&d.name()), d.is_box() as u8, arr(vs), js(&format!("{t}")))
            }
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{t}"))),
        }
    }

    // ---- constants
    fn decode(&mut self, t: Ty, al: &Allocation, off: usize, depth: usize) -> String {
        if depth > 12 {
            return "{\"c\":\"deep\"}".into();
        }
        let rd = |n: usize| -> Option<u128> { al.read_partial_uint(off..off + n).ok() };
        let TyKind::RigidTy(r) = t.kind() else { return "{\"c\":\"?\"}".into() };
        match r {
            RigidTy::Bool => rd(1).map(|v| format!("{{\"c\":\"bool\",\"v\":{v}}}")).unwrap_or("{\"c\":\"?\"}".into()),
            RigidTy::Char => rd(4).map(|v| format!("{{\"c\":\"char\",\"v\":{v}}}")).unwrap_or("{\"c\":\"?\"}".into()),
            RigidTy::Int(i) => match rd(i.num_bytes()) {
                Some(v) => {
                    let b = i.num_bytes() * 8;
                    let sv = if b == 128 { v as i128 } else { ((v << (128 - b)) as i128) >> (128 - b) };
                    format!("{{\"c\":\"int\",\"v\":{sv}}}")
                }
                None => "{\"c\":\"?\"}".into(),
            },
            RigidTy::Uint(i) => rd(i.num_bytes()).map(|v| format!("{{\"c\":\"int\",\"v\":{v}}}")).unwrap_or("{\"c\":\"?\"}".into()),
            RigidTy::Float(f) => {
                let n = match f {
                    FloatTy::F16 => 2,
                    FloatTy::F32 => 4,
                    FloatTy::F64 => 8,
                    FloatTy::F128 => 16,
                };
                match rd(n) {
                    Some(v) => {
                        let s = if n == 8 { format!("{:?}", f64::from_bits(v as u64)) } else if n == 4 { format!("{:?}", f32::from_bits(v as u32)) } else { "?".into() };
                        format!("{{\"c\":\"float\",\"n\":{n},\"bits\":\"{v}\",\"v\":{}}}", js(&s))
                    }
                    None => "{\"c\":\"?\"}".into(),
                }
            }
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return "{\"c\":\"?\"}".into() };
                let sh = l.shape();
                let offs = Self::offsets(&sh.fields);
                let v: Vec<String> = ts.iter().enumerate().map(|(i, ft)| self.decode(*ft, al, off + offs.get(i).copied().unwrap_or(0), depth + 1)).collect();
                format!("{{\"c\":\"tuple\",\"f\":{}}}", arr(v))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let u8t = matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8)));
                if u8t {
                    let b: Vec<String> = (0..n).map(|i| al.read_partial_uint(off + i..off + i + 1).unwrap_or(0).to_string()).collect();
                    return format!("{{\"c\":\"bytes\",\"v\":{}}}", arr(b));
                }
                let v: Vec<String> = (0..n.min(4096)).map(|i| self.decode(e, al, off + i * sz, depth + 1)).collect();
                format!("{{\"c\":\"array\",\"f\":{}}}", arr(v))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some((_, prov)) = al.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
                    return rd(8).map(|v| format!("{{\"c\":\"rawaddr\",\"v\":{v}}}")).unwrap_or("{\"c\":\"?\"}".into());
                };
                let addr = rd(8).unwrap_or(0) as usize;
                let meta = al.read_partial_uint(off + 8..off + 16).ok();
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = meta.unwrap_or(0) as usize;
                            let b: Vec<u8> = (0..n).map(|i| m.bytes.get(addr + i).copied().flatten().unwrap_or(0)).collect();
                            format!("{{\"c\":\"str\",\"v\":{}}}", js(&String::from_utf8_lossy(&b)))
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = meta.unwrap_or(0) as usize;
                            let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let v: Vec<String> = (0..n.min(4096)).map(|i| self.decode(el, &m, addr + i * sz, depth + 1)).collect();
                            format!("{{\"c\":\"sliceref\",\"f\":{}}}", arr(v))
                        }
                        _ => {
                            let v = self.decode(e, &m, addr, depth + 1);
                            format!("{{\"c\":\"ref\",\"v\":{v}}}")
                        }
                    },
                    GlobalAlloc::Static(s) => format!("{{\"c\":\"static\",\"n\":{},\"id\":{}}}", js(&s.name()), self.static_val(s, depth)),
                    GlobalAlloc::Function(i) => {
                        let i = self.inst(i);
                        format!("{{\"c\":\"fn\",\"i\":{i}}}")
                    }
                    _ => "{\"c\":\"?\"}".into(),
                }
            }
            RigidTy::FnPtr(_) => {
                if let Some((_, prov)) = al.provenance.ptrs.iter().find(|(o, _)| *o == off) {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(prov.0) {
                        let i = self.inst(i);
                        return format!("{{\"c\":\"fn\",\"i\":{i}}}");
                    }
                }
                "{\"c\":\"?\"}".into()
            }
            RigidTy::Adt(d, a) => {
                let Ok(l) = t.layout() else { return "{\"c\":\"?\"}".into() };
                let sh = l.shape();
                if d.kind() == AdtKind::Union {
                    return "{\"c\":\"union\"}".into();
                }
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => (index.to_index(), Self::offsets(&sh.fields)),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = Self::offsets(&sh.fields).get(*tag_field).copied().unwrap_or(0);
                        let n = match tag {
                            Scalar::Initialized { value, .. } => Self::prim_size(value),
                            Scalar::Union { value } => Self::prim_size(value),
                        };
                        let has_ptr = al.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let tagv = al.read_partial_uint(off + toff..off + toff + n).unwrap_or(0);
                        let idx = match tag_encoding {
                            TagEncoding::Direct => d.variants().iter().position(|v| {
                                let m = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                d.discriminant_for_variant(v.idx()).val & m == tagv & m
                            }),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_ptr {
                                    Some(untagged_variant.to_index())
                                } else {
                                    let m = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                    let rel = tagv.wrapping_sub(*niche_start) & m;
                                    let (s, e) = (niche_variants.start().to_index() as u128, niche_variants.end().to_index() as u128);
                                    if rel <= e - s { Some((s + rel) as usize) } else { Some(untagged_variant.to_index()) }
                                }
                            }
                        };
                        let Some(i) = idx else { return "{\"c\":\"?\"}".into() };
                        (i, variants[i].offsets.iter().map(|o| o.bytes()).collect())
                    }
                    VariantsShape::Empty => return "{\"c\":\"?\"}".into(),
                };
                let v = &d.variants()[vi];
                let fs: Vec<String> = v.fields().iter().enumerate().map(|(i, f)| self.decode(f.ty_with_args(&a), al, off + offs.get(i).copied().unwrap_or(0), depth + 1)).collect();
                format!("{{\"c\":\"adt\",\"vi\":{vi},\"f\":{}}}", arr(fs))
            }
            _ => "{\"c\":\"zst\"}".into(),
        }
    }
    fn static_val(&mut self, s: StaticDef, depth: usize) -> String {
        match s.eval_initializer() {
            Ok(al) => self.decode(s.ty(), &al, 0, depth + 1),
            Err(_) => "null".into(),
        }
    }
    fn prim_size(p: &Primitive) -> usize {
        match p {
            Primitive::Int { length, .. } => match length {
                IntegerLength::I8 => 1,
                IntegerLength::I16 => 2,
                IntegerLength::I32 => 4,
                IntegerLength::I64 => 8,
                IntegerLength::I128 => 16,
            },
            Primitive::Float { length } => match length {
                FloatLength::F16 => 2,
                FloatLength::F32 => 4,
                FloatLength::F64 => 8,
                FloatLength::F128 => 16,
                _ => 16,
            },
            Primitive::Pointer(_) => 8,
        }
    }
    fn offsets(f: &FieldsShape) -> Vec<usize> {
        match f {
            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
            FieldsShape::Array { stride, count } => (0..*count as usize).map(|i| i * stride.bytes()).collect(),
            _ => vec![],
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::Allocated(al) => self.decode(c.ty(), al, 0, 0),
            ConstantKind::ZeroSized => "{\"c\":\"zst\"}".into(),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("{{\"c\":\"int\",\"v\":{n}}}"),
                Err(_) => "{\"c\":\"?\"}".into(),
            },
            _ => "{\"c\":\"?\"}".into(),
        };
        format!("[{t},{v}]")
    }

    // ---- bodies
    fn place(&mut self, p: &Place) -> String {
        let pr: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"*\"]".into(),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    format!("[\".\",{i},{t}]")
                }
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{offset},{min_length},{}]", *from_end as u8),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{from},{to},{}]", *from_end as u8),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".into(),
            })
            .collect();
        format!("[{},{}]", p.local, arr(pr))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            #[allow(unreachable_patterns)]
            x => format!("[\"rt\",{}]", js(&format!("{x:?}"))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(b, BorrowKind::Mut { .. }) as u8),
            Rvalue::Reborrow(_, m, p) => format!("[\"use\",[\"{}\",{}]]", if *m == Mutability::Mut { "mv" } else { "cp" }, self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{op:?}\",{},{}]", self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"chk\",\"{op:?}\",{},{}]", self.operand(a), self.operand(b)),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{op:?}\",{}]", self.operand(a)),
            Rvalue::Cast(k, o, t) => {
                let o2 = self.operand(o);
                let t2 = self.ty(*t);
                format!("[\"cast\",{},{o2},{t2}]", js(&format!("{k:?}")))
            }
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", js(&i.name())),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let os = arr(os);
                match k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("[\"agg\",\"array\",{t},0,{os}]")
                    }
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,{os}]"),
                    AggregateKind::Adt(d, v, a, _, fi) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!("[\"agg\",\"adt\",{t},{},{os},{}]", v.to_index(), fi.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"agg\",\"closure\",{t},0,{os}]")
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        format!("[\"agg\",\"rawptr\",{t},0,{os}]")
                    }
                    _ => format!("[\"agg\",\"?\",null,0,{os}]"),
                }
            }
        }
    }
    fn span(&self, s: &rustc_public::ty::Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }
    fn body(&mut self, b: &Body) -> String {
        let ls: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let nargs = b.arg_locals().len();
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local, js(&v.name)));
                }
            }
        }
        let mut bs = vec![];
        for blk in &b.blocks {
            let mut ss = vec![];
            for s in &blk.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        ss.push(format!("[\"=\",{p},{r}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(format!("[\"setd\",{p},{}]", variant_index.to_index()));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let o = self.operand(o);
                        ss.push(format!("[\"assume\",{o}]"));
                    }
                    StatementKind::Intrinsic(_) => ss.push("[\"copyno\"]".into()),
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{l}]")),
                    _ => {}
                }
            }
            let t = match &blk.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr);
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{v},{t}]")).collect();
                    format!("[\"switch\",{o},{},{}]", arr(br), targets.otherwise())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    format!("[\"drop\",{p},{target}]")
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(x)).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{f},{},{d},{}]", arr(a), target.map(|x| x.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = msg.description().unwrap_or("assert");
                    format!("[\"assert\",{c},{},{},{target}]", *expected as u8, js(m))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            let line = self.span(&blk.terminator.source_info.span);
            bs.push(format!("{{\"s\":{},\"t\":{t},\"l\":{}}}", arr(ss), js(&line)));
        }
        format!("{{\"n\":{nargs},\"locals\":{},\"names\":{},\"spread\":{},\"span\":{},\"blocks\":{}}}", arr(ls), arr(names), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), js(&self.span(&b.span)), arr(bs))
    }
}

fn run_dump() -> ControlFlow<()> {
    let krate = rustc_public::local_crate().name.to_string();
    let Ok(target) = std::env::var("MIRDUMP_CRATE") else { return ControlFlow::Continue(()) };
    if krate != target {
        return ControlFlow::Continue(());
    }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut cx = Cx { tys: HashMap::new(), ty_out: vec![], ty_q: VecDeque::new(), insts: HashMap::new(), inst_q: VecDeque::new(), stop };
    let mut roots = vec![];
    let pre: Vec<String> = std::env::var("MIRDUMP_ROOTS").unwrap_or_else(|_| "root_".into()).split(';').map(|s| s.to_string()).collect();
    for it in rustc_public::all_local_items() {
        let it: CrateItem = it;
        let name = it.name().to_string();
        let short = name.rsplit("::").next().unwrap_or("").to_string();
        if it.kind() == rustc_public::ItemKind::Fn && pre.iter().any(|p| short.starts_with(p.as_str())) {
            if let Ok(i) = Instance::try_from(it) {
                let id = cx.inst(i);
                roots.push(format!("[{},{}]", js(&short), id));
            }
        }
    }
    let mut insts_out: Vec<(usize, String)> = vec![];
    loop {
        if let Some((i, x)) = cx.inst_q.pop_front() {
            let name = x.name().to_string();
            let kind = match x.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let stopped = cx.stop.iter().any(|s| name.starts_with(s.as_str()) || name.starts_with(&format!("<{s}")));
            let iname = x.intrinsic_name().map(|s| s.to_string());
            let want = !stopped && x.kind != InstanceKind::Intrinsic && x.kind != InstanceKind::LlvmIntrinsic && x.has_body() || x.kind == InstanceKind::Shim;
            let body = if want {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.body())) {
                    Ok(Some(b)) => cx.body(&b),
                    _ => "null".into(),
                }
            } else {
                "null".into()
            };
            let a = cx.gargs(&x.args());
            let fty = cx.ty(x.ty());
            insts_out.push((i, format!("{{\"n\":{},\"k\":\"{kind}\",\"in\":{},\"a\":{a},\"ty\":{fty},\"b\":{body}}}", js(&name), iname.map(|s| js(&s)).unwrap_or("null".into()))));
            continue;
        }
        if let Some((i, t)) = cx.ty_q.pop_front() {
            let s = cx.emit_ty(t);
            cx.ty_out[i] = s;
            continue;
        }
        break;
    }
    insts_out.sort_by_key(|x| x.0);
    let mut o = String::new();
    o.push_str("{\"roots\":");
    o.push_str(&arr(roots));
    o.push_str(",\n\"types\":[\n");
    o.push_str(&cx.ty_out.join(",\n"));
    o.push_str("],\n\"insts\":[\n");
    o.push_str(&insts_out.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",\n"));
    o.push_str("]}\n");
    std::fs::write(&out, o).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER/RUSTC_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let r = run!(&args, run_dump);
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
