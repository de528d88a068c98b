//! mirv-driver: a rustc driver that compiles a harness crate and dumps the monomorphised MIR of
//! everything reachable from its `pub fn`s, one JSON object per line.
//! It transcribes rustc's own MIR; it makes no decision about what the code means.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T>(v: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

struct D {
    out: std::io::BufWriter<std::fs::File>,
    tys: HashMap<Ty, usize>,
    insts: HashMap<Instance, usize>,
    queue: Vec<(Instance, usize)>,
    allocs: HashMap<AllocId, usize>,
    aqueue: Vec<(AllocId, usize)>,
    vts: HashMap<String, usize>,
}

fn vidx(v: VariantIdx) -> usize {
    
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}

impl D {
    fn line(&mut self, s: String) {
        self.out.write_all(s.as_bytes()).unwrap();
        self.out.write_all(b"\n").unwrap();
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let n = self.insts.len();
        self.insts.insert(i, n);
        self.queue.push((i, n));
        n
    }
    fn alloc_id(&mut self, a: AllocId) -> usize {
        if let Some(x) = self.allocs.get(&a) {
            return *x;
        }
        let n = self.allocs.len();
        self.allocs.insert(a, n);
        self.aqueue.push((a, n));
        n
    }
    fn alloc(&mut self, a: &Allocation) -> String {
        let mut hex = String::with_capacity(a.bytes.len() * 2);
        for b in &a.bytes {
            match b {
                Some(x) => {
                    let _ = write!(hex, "{:02x}", x);
                }
                None => hex.push_str("uu"),
            }
        }
        let p = list(a.provenance.ptrs.iter(), |(o, p)| format!("[{},{}]", o, self.alloc_id(p.0)));
        format!("[\"{}\",{}]", hex, p)
    }
    fn offs(&self, v: &[rustc_public::target::MachineSize]) -> String {
        list(v.iter(), |s| s.bytes().to_string())
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(x) = self.tys.get(&t) {
            return *x;
        }
        let n = self.tys.len();
        self.tys.insert(t, n);
        let lay = t.layout().ok().map(|l| l.shape());
        let mut s = format!("{{\"t\":{}", n);
        if let Some(l) = &lay {
            let _ = write!(s, ",\"size\":{},\"align\":{}", l.size.bytes(), l.abi_align);
            if l.is_unsized() {
                s.push_str(",\"unsized\":1");
            }
            match &l.fields {
                FieldsShape::Arbitrary { offsets } => {
                    let _ = write!(s, ",\"offs\":{}", self.offs(offsets));
                }
                FieldsShape::Array { stride, count } => {
                    let _ = write!(s, ",\"stride\":{},\"count\":{}", stride.bytes(), count);
                }
                FieldsShape::Union(n) => {
                    let _ = write!(s, ",\"offs\":{}", list(0..n.get(), |_| "0".into()));
                }
                FieldsShape::Primitive => {}
            }
            match &l.variants {
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let (prim,) = match tag {
                        Scalar::Initialized { value, .. } => (value,),
                        Scalar::Union { value } => (value,),
                    };
                    let bits = match prim {
                        Primitive::Int { length, .. } => length.bits(),
                        _ => 64,
                    };
                    let toff = match &l.fields {
                        FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                        _ => 0,
                    };
                    let enc = match tag_encoding {
                        TagEncoding::Direct => "\"direct\"".to_string(),
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                            format!(
                                "[{},{},{},\"{}\"]",
                                vidx(*untagged_variant),
                                vidx(*niche_variants.start()),
                                vidx(*niche_variants.end()),
                                niche_start
                            )
                        }
                    };
                    let vs = list(variants.iter(), |v| self.offs(&v.offsets));
                    let _ = write!(
                        s,
                        ",\"tag\":{{\"bits\":{},\"off\":{},\"enc\":{},\"voffs\":{}}}",
                        bits, toff, enc, vs
                    );
                }
                VariantsShape::Single { index } => {
                    let _ = write!(s, ",\"single\":{}", vidx(*index));
                }
                VariantsShape::Empty => s.push_str(",\"empty\":1"),
            }
        }
        let _ = write!(s, ",\"name\":{}", js(&format!("{}", t)));
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"uint\",\"bool\":1,\"bits\":8".to_string(),
                RigidTy::Char => "\"k\":\"uint\",\"char\":1,\"bits\":32".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"f\":\"{:?}\"", f),
                RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                    format!("\"k\":\"ptr\",\"to\":{}", self.ty(to))
                }
                RigidTy::Adt(def, args) => {
                    let kind = format!("{}", def.kind());
                    let vs = list(def.variants_iter(), |v| {
                        let d = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".to_string()
                        };
                        let fs = list(v.fields(), |f| {
                            format!("[{},{}]", js(&f.name.to_string()), self.ty(f.ty_with_args(&args)))
                        });
                        format!("[{},\"{}\",{}]", js(&v.name().to_string()), d, fs)
                    });
                    let targs = list(args.0.iter().filter_map(|a| a.ty().copied()), |x| self.ty(x).to_string());
                    format!(
                        "\"k\":\"adt\",\"box\":{},\"adt\":\"{}\",\"def\":{},\"targs\":{},\"vars\":{}",
                        def.is_box() as u8,
                        kind,
                        js(&def.name().to_string()),
                        targs,
                        vs
                    )
                }
                RigidTy::Tuple(ts) => format!("\"k\":\"tuple\",\"fs\":{}", list(ts, |x| self.ty(x).to_string())),
                RigidTy::Closure(_, args) => {
                    let up = args.0.last().unwrap().ty().unwrap().clone();
                    let ups = match up.kind() {
                        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts,
                        _ => vec![],
                    };
                    format!("\"k\":\"tuple\",\"closure\":1,\"fs\":{}", list(ups, |x| self.ty(x).to_string()))
                }
                RigidTy::Array(e, n) => format!(
                    "\"k\":\"array\",\"el\":{},\"n\":{}",
                    self.ty(e),
                    n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                ),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"el\":{}", self.ty(e)),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::FnDef(def, args) => {
                    let i = Instance::resolve(def, &args).ok();
                    let s = match i {
                        Some(i) => self.inst(i).to_string(),
                        None => "null".into(),
                    };
                    format!("\"k\":\"fndef\",\"inst\":{}", s)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                other => format!("\"k\":\"other\",\"dbg\":{}", js(&format!("{:?}", other).chars().take(80).collect::<String>())),
            },
            _ => "\"k\":\"nonrigid\"".to_string(),
        };
        s.push(',');
        s.push_str(&k);
        s.push('}');
        self.line(s);
        n
    }
    fn place(&mut self, p: &Place) -> String {
        let pr = list(p.projection.iter(), |e| match e {
            ProjectionElem::Deref => "\"D\"".into(),
            ProjectionElem::Field(i, t) => format!("[\"F\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"I\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"C\",{},{},{}]", offset, min_length, *from_end as u8)
            }
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"S\",{},{},{}]", from, to, *from_end as u8),
            ProjectionElem::Downcast(v) => format!("[\"V\",{}]", vidx(*v)),
            ProjectionElem::OpaqueCast(t) => format!("[\"O\",{}]", self.ty(*t)),
        });
        format!("[{},{}]", p.local, pr)
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::ZeroSized => format!("[\"k\",{},0]", t),
            ConstantKind::Allocated(a) => format!("[\"k\",{},{}]", t, self.alloc(a)),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => format!("[\"k\",{},{}]", t, self.alloc(a)),
                TyConstKind::ZSTValue(_) => format!("[\"k\",{},0]", t),
                k => format!("[\"kx\",{}]", js(&format!("{:?}", k))),
            },
            k => format!("[\"kx\",{}]", js(&format!("{:?}", k))),
        }
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }
    fn ops(&mut self, v: &[Operand]) -> String {
        list(v.iter(), |o| self.op(o))
    }
    fn tail(&self, t: Ty) -> Ty {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Struct => {
                let v = def.variants_iter().next().unwrap();
                match v.fields().last() {
                    Some(f) => self.tail(f.ty_with_args(&args)),
                    None => t,
                }
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) if !ts.is_empty() => self.tail(*ts.last().unwrap()),
            _ => t,
        }
    }
    fn pointee(&self, t: Ty) -> Option<Ty> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, x, _)) | TyKind::RigidTy(RigidTy::RawPtr(x, _)) => Some(x),
            TyKind::RigidTy(RigidTy::Pat(x, _)) => self.pointee(x),
            TyKind::RigidTy(RigidTy::Adt(def, args)) => {
                // Box / NonNull / Unique / Rc ...: first field that holds a pointer
                for f in def.variants_iter().next()?.fields() {
                    if let Some(x) = self.pointee(f.ty_with_args(&args)) {
                        return Some(x);
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn unsize(&mut self, from: Ty, to: Ty) -> String {
        // metadata of the resulting fat pointer: array length or vtable
        let (Some(mut a), Some(mut b)) = (self.pointee(from), self.pointee(to)) else {
            return "null".into();
        };
        // walk down struct tails in lockstep
        loop {
            let (ka, kb) = (a.kind(), b.kind());
            match (&ka, &kb) {
                (TyKind::RigidTy(RigidTy::Adt(d1, a1)), TyKind::RigidTy(RigidTy::Adt(d2, a2)))
                    if d1 == d2 && d1.kind() == AdtKind::Struct =>
                {
                    let f1 = d1.variants_iter().next().unwrap().fields();
                    let f2 = d2.variants_iter().next().unwrap().fields();
                    a = f1.last().unwrap().ty_with_args(a1);
                    b = f2.last().unwrap().ty_with_args(a2);
                }
                _ => break,
            }
        }
        match (a.kind(), b.kind()) {
            (TyKind::RigidTy(RigidTy::Array(_, n)), TyKind::RigidTy(RigidTy::Slice(_))) => {
                format!("[\"len\",{}]", n.eval_target_usize().unwrap())
            }
            (TyKind::RigidTy(RigidTy::Dynamic(..)), _) => "[\"same\"]".into(),
            (_, TyKind::RigidTy(RigidTy::Dynamic(preds, _))) => {
                let mut tr = None;
                for p in preds.iter() {
                    if let ExistentialPredicate::Trait(t) = &p.value {
                        tr = Some(Binder { value: t.clone(), bound_vars: p.bound_vars.clone() });
                    }
                }
                let key = format!("{:?}|{:?}", a, preds);
                if let Some(x) = self.vts.get(&key) {
                    return format!("[\"vt\",{}]", x);
                }
                let ga = GlobalAlloc::VTable(a, tr);
                match ga.vtable_allocation() {
                    Some(id) => {
                        let n = self.alloc_id(id);
                        self.vts.insert(key, n);
                        format!("[\"vt\",{}]", n)
                    }
                    None => "null".into(),
                }
            }
            _ => "null".into(),
        }
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o = self.ops(ops);
                let t = r.ty(locals).map(|t| self.ty(t)).unwrap_or(usize::MAX);
                match k {
                    AggregateKind::Adt(_, v, _, _, f) => format!(
                        "[\"agg\",{},{},{},{}]",
                        t,
                        vidx(*v),
                        f.map(|x| x.to_string()).unwrap_or("null".into()),
                        o
                    ),
                    AggregateKind::RawPtr(..) => format!("[\"rawptr\",{},{}]", t, o),
                    _ => format!("[\"agg\",{},0,null,{}]", t, o),
                }
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::UnaryOp(b, x) => format!("[\"un\",\"{:?}\",{}]", b, self.op(x)),
            Rvalue::Cast(k, x, t) => {
                let kind = match k {
                    CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                        let m = match x.ty(locals) {
                            Ok(f) => self.unsize(f, *t),
                            _ => "null".into(),
                        };
                        return format!("[\"unsize\",{},{},{}]", self.op(x), self.ty(*t), m);
                    }
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                        let i = match x.ty(locals).unwrap().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve_for_fn_ptr(d, &a).ok(),
                            _ => None,
                        };
                        let n = i.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                        return format!("[\"fnptr\",{}]", n);
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                        let i = match x.ty(locals).unwrap().kind() {
                            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                                Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok()
                            }
                            _ => None,
                        };
                        let n = i.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                        return format!("[\"fnptr\",{}]", n);
                    }
                    CastKind::PointerCoercion(_) => "ptr".to_string(),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",\"{}\",{},{}]", kind, self.op(x), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::ThreadLocalRef(c) => format!("[\"tls\",{}]", js(&c.name().to_string())),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let lt = list(locals.iter(), |l| self.ty(l.ty).to_string());
        let nargs = b.arg_locals().len();
        let blocks = list(b.blocks.iter(), |bb| {
            let st = list(
                bb.statements.iter().filter_map(|s| match &s.kind {
                    StatementKind::Assign(p, r) => {
                        Some(format!("[\"=\",{},{}]", self.place(p), self.rv(r, &locals)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        Some(format!("[\"sd\",{},{}]", self.place(place), vidx(*variant_index)))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        Some(format!("[\"cpy\",{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count)))
                    }
                    _ => None,
                }).collect::<Vec<_>>(),
                |s| s,
            );
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "[\"sw\",{},{},{}]",
                    self.op(discr),
                    list(targets.branches(), |(v, t)| format!("[\"{}\",{}]", v, t)),
                    targets.otherwise()
                ),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pty = place.ty(&locals).unwrap();
                    let i = Instance::resolve_drop_in_place(pty);
                    if i.is_empty_shim() {
                        format!("[\"goto\",{}]", target)
                    } else {
                        format!("[\"drop\",{},{},{}]", self.place(place), self.inst(i), target)
                    }
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.ty(&locals).unwrap().kind() {
                        TyKind::RigidTy(RigidTy::FnDef(def, ga)) => match Instance::resolve(def, &ga) {
                            Ok(i) => match i.kind {
                                InstanceKind::Virtual { idx } => format!("[\"virt\",{}]", idx),
                                _ => self.inst(i).to_string(),
                            },
                            Err(_) => format!("[\"unres\",{}]", js(&def.name().to_string())),
                        },
                        _ => self.op(func),
                    };
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        self.ops(args),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                    "[\"assert\",{},{},{},{}]",
                    self.op(cond),
                    *expected as u8,
                    target,
                    js(msg.description().unwrap_or("assert"))
                ),
                TerminatorKind::InlineAsm { template, operands, options, destination, .. } => {
                    let o = list(operands.iter(), |o| {
                        format!(
                            "[{},{},{}]",
                            o.in_value.as_ref().map(|x| self.op(x)).unwrap_or("null".into()),
                            o.out_place.as_ref().map(|x| self.place(x)).unwrap_or("null".into()),
                            js(&o.raw_rpr)
                        )
                    });
                    format!(
                        "[\"asm\",{},{},{},{}]",
                        js(template),
                        o,
                        js(options),
                        destination.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
            };
            format!("[{},{}]", st, t)
        });
        format!(
            "\"args\":{},\"spread\":{},\"locals\":{},\"bb\":{}",
            nargs,
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            lt,
            blocks
        )
    }
    fn run(&mut self) {
        loop {
            if let Some((i, n)) = self.queue.pop() {
                let name = i.name().to_string();
                let kind = match i.kind {
                    InstanceKind::Item => "item".to_string(),
                    InstanceKind::Intrinsic => format!("intr:{}", i.intrinsic_name().unwrap()),
                    InstanceKind::LlvmIntrinsic => "llvm".to_string(),
                    InstanceKind::Virtual { idx } => format!("virtual:{}", idx),
                    InstanceKind::Shim => "shim".to_string(),
                };
                let targs = list(
                    i.args().0.iter().filter_map(|a| a.ty().copied()).collect::<Vec<_>>(),
                    |x| self.ty(x).to_string(),
                );
                let cargs = list(
                    i.args().0.iter().filter_map(|a| match a {
                        GenericArgKind::Const(c) => c.eval_target_usize().ok(),
                        _ => None,
                    }).collect::<Vec<_>>(),
                    |x| x.to_string(),
                );
                let skip = matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic)
                    || i.is_foreign_item();
                let body = if skip { None } else { i.body() };
                let span = i.def.span();
                let file = span.get_filename().to_string();
                let b = match &body {
                    Some(b) => format!(",{}", self.body(b)),
                    None => String::new(),
                };
                let s = format!(
                    "{{\"f\":{},\"name\":{},\"sym\":{},\"kind\":\"{}\",\"file\":{},\"targs\":{},\"cargs\":{}{}}}",
                    n,
                    js(&name),
                    js(&i.mangled_name().to_string()),
                    kind,
                    js(&format!("{}:{}", file, span.get_lines().start_line)),
                    targs,
                    cargs,
                    b
                );
                self.line(s);
                continue;
            }
            if let Some((a, n)) = self.aqueue.pop() {
                let s = match GlobalAlloc::from(a) {
                    GlobalAlloc::Function(i) => format!("{{\"a\":{},\"fn\":{}}}", n, self.inst(i)),
                    GlobalAlloc::VTable(t, tr) => {
                        let id = GlobalAlloc::VTable(t, tr).vtable_allocation();
                        match id {
                            Some(v) if v != a => format!("{{\"a\":{},\"alias\":{}}}", n, self.alloc_id(v)),
                            _ => format!("{{\"a\":{},\"vtable\":1}}", n),
                        }
                    }
                    GlobalAlloc::Static(sd) => {
                        let t = self.ty(sd.ty());
                        let nm = sd.name().to_string();
                        match sd.eval_initializer() {
                            Ok(al) => format!(
                                "{{\"a\":{},\"static\":{},\"ty\":{},\"mem\":{}}}",
                                n,
                                js(&nm),
                                t,
                                self.alloc(&al)
                            ),
                            Err(_) => format!("{{\"a\":{},\"static\":{},\"ty\":{}}}", n, js(&nm), t),
                        }
                    }
                    GlobalAlloc::Memory(al) => format!("{{\"a\":{},\"mem\":{}}}", n, self.alloc(&al)),
                    GlobalAlloc::TypeId { ty } => format!("{{\"a\":{},\"typeid\":{}}}", n, self.ty(ty)),
                };
                self.line(s);
                continue;
            }
            break;
        }
    }
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("MIRV_OUT").expect("MIRV_OUT");
    let f = std::fs::File::create(format!("{}.tmp", out)).unwrap();
    let mut d = D {
        out: std::io::BufWriter::with_capacity(1 << 20, f),
        tys: HashMap::new(),
        insts: HashMap::new(),
        queue: vec![],
        allocs: HashMap::new(),
        aqueue: vec![],
        vts: HashMap::new(),
    };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), ItemKind::Fn) {
            continue;
        }
        let it: CrateItem = it;
        if it.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let nm = i.name().to_string();
            if nm.contains("{closure") {
                continue;
            }
            let n = d.inst(i);
            roots.push((nm, n));
        }
    }
    d.run();
    let _ = StaticDef::ty;
    let r = list(roots.iter(), |(a, n)| format!("[{},{}]", js(a), n));
    d.line(format!("{{\"roots\":{}}}", r));
    d.out.flush().unwrap();
    std::fs::rename(format!("{}.tmp", out), out).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // called as RUSTC_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let want = std::env::var("MIRV_CRATE").unwrap_or_default();
    let mut is = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == want {
            is = true;
        }
    }
    if !is {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[0]).args(&args[1..]).exec();
        panic!("{}", e);
    }
    if let Ok(sr) = std::env::var("MIRV_SYSROOT") {
        args.push("--sysroot".into());
        args.push(sr);
    }
    let r = run!(&args, dump);
    if r.is_err() {
        std::process::exit(1);
    }
}
