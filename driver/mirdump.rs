// mirdump: a rustc driver that type-checks the harness crate exactly like rustc, then writes the
// monomorphic MIR of every function reachable from the crate's public non-generic functions
// (callees resolved, constants and statics evaluated by the compiler) as JSON lines.
// Nothing is executed: the output is the type-checked program.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

use rustc_public::abi::{FieldsShape, Scalar, TagEncoding, VariantsShape, Primitive, IntegerLength};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<(usize, String)>,
    ty_queue: VecDeque<Ty>,
    allocs: HashSet<String>,
    alloc_ids: HashMap<AllocId, usize>,
    alloc_queue: VecDeque<(usize, AllocId)>,
    alloc_out: Vec<String>,
    queue: VecDeque<Instance>,
    seen: HashMap<String, ()>,
    fn_out: Vec<String>,
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) { return i; }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_queue.push_back(t);
        i
    }

    fn enqueue(&mut self, inst: Instance) -> String {
        let m = inst.mangled_name().to_string();
        if !self.seen.contains_key(&m) {
            self.seen.insert(m.clone(), ());
            self.queue.push_back(inst);
        }
        m
    }

    fn layout_json(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let s = l.shape();
        let fields = match &s.fields {
            FieldsShape::Primitive => "\"prim\"".to_string(),
            FieldsShape::Union(_) => "\"union\"".to_string(),
            FieldsShape::Array { stride, count } => format!("{{\"stride\":{},\"count\":{}}}", stride.bytes(), count),
            FieldsShape::Arbitrary { offsets, .. } => format!("[{}]", offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>().join(",")),
        };
        let variants = match &s.variants {
            VariantsShape::Empty => "\"empty\"".to_string(),
            VariantsShape::Single { index } => format!("{{\"single\":{}}}", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let prim = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                let tsz = match prim {
                    Primitive::Int { length, .. } => match length { IntegerLength::I8 => 1, IntegerLength::I16 => 2, IntegerLength::I32 => 4, IntegerLength::I64 => 8, IntegerLength::I128 => 16 },
                    _ => 8,
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "\"direct\"".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":\"{}\"}}",
                        untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), niche_start),
                };
                let toff = match &s.fields { FieldsShape::Arbitrary { offsets, .. } => offsets.get(*tag_field as usize).map(|o| o.bytes()).unwrap_or(0), _ => 0 };
                let vs = variants.iter().map(|v| format!("[{}]", v.offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",");
                format!("{{\"tag_off\":{},\"tag_size\":{},\"enc\":{},\"variants\":[{}]}}", toff, tsz, enc, vs)
            }
        };
        format!("{{\"size\":{},\"align\":{},\"fields\":{},\"variants\":{}}}", s.size.bytes(), s.abi_align, fields, variants)
    }

    fn emit_ty(&mut self, t: Ty) {
        let id = self.tys[&t];
        let name = format!("{}", t);
        let mut k = String::new();
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => k.push_str("\"k\":\"bool\""),
                RigidTy::Char => k.push_str("\"k\":\"char\""),
                RigidTy::Int(i) => { let b = i.num_bytes() * 8; let _ = write!(k, "\"k\":\"int\",\"bits\":{},\"signed\":true", b); }
                RigidTy::Uint(i) => { let b = i.num_bytes() * 8; let _ = write!(k, "\"k\":\"int\",\"bits\":{},\"signed\":false", b); }
                RigidTy::Float(f) => { let _ = write!(k, "\"k\":\"float\",\"f\":{}", js(&format!("{:?}", f))); }
                RigidTy::Str => k.push_str("\"k\":\"str\""),
                RigidTy::Never => k.push_str("\"k\":\"never\""),
                RigidTy::Array(e, n) => { let e = self.ty(e); let n = n.eval_target_usize().unwrap_or(0); let _ = write!(k, "\"k\":\"array\",\"elem\":{},\"len\":{}", e, n); }
                RigidTy::Slice(e) => { let e = self.ty(e); let _ = write!(k, "\"k\":\"slice\",\"elem\":{}", e); }
                RigidTy::RawPtr(e, m) => { let e = self.ty(e); let _ = write!(k, "\"k\":\"ptr\",\"to\":{},\"mut\":{}", e, m == Mutability::Mut); }
                RigidTy::Ref(_, e, m) => { let e = self.ty(e); let _ = write!(k, "\"k\":\"ref\",\"to\":{},\"mut\":{}", e, m == Mutability::Mut); }
                RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect(); let _ = write!(k, "\"k\":\"tuple\",\"fields\":[{}]", v.join(",")); }
                RigidTy::Adt(def, args) => {
                    let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let fs: Vec<String> = v.fields().iter().map(|f| { let ft = f.ty_with_args(&args); self.ty(ft).to_string() }).collect();
                        let discr = if matches!(def.kind(), AdtKind::Enum) { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        let fns: Vec<String> = v.fields().iter().map(|f| js(&f.name.to_string())).collect();
                        vs.push(format!("{{\"name\":{},\"fields\":[{}],\"fnames\":[{}],\"discr\":\"{}\"}}", js(&v.name().to_string()), fs.join(","), fns.join(","), discr));
                    }
                    let gargs: Vec<String> = args.0.iter().filter_map(|a| match a { GenericArgKind::Type(t) => Some(self.ty(*t).to_string()), _ => None }).collect();
                    let _ = write!(k, "\"k\":\"adt\",\"adt\":\"{}\",\"def\":{},\"targs\":[{}],\"variants\":[{}]", kind, js(&def.name().to_string()), gargs.join(","), vs.join(","));
                }
                RigidTy::FnDef(def, args) => {
                    let m = match Instance::resolve(def, &args) { Ok(i) => { let nm = i.name().to_string(); format!("{},\"fname\":{}", js(&self.enqueue(i)), js(&nm)) } Err(_) => "null".into() };
                    let _ = write!(k, "\"k\":\"fndef\",\"inst\":{}", m);
                }
                RigidTy::FnPtr(_) => k.push_str("\"k\":\"fnptr\""),
                RigidTy::Closure(def, args) => {
                    let mut ups = vec![];
                    // upvar types are the fields of the last generic argument (a tuple)
                    if let Some(GenericArgKind::Type(t)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() { for t in ts { ups.push(self.ty(t).to_string()); } }
                    }
                    let m = match Instance::resolve_closure(def, &args, ClosureKind::FnOnce) { Ok(i) => { let _ = i; "null".to_string() } Err(_) => "null".into() };
                    let _ = write!(k, "\"k\":\"closure\",\"upvars\":[{}],\"inst\":{}", ups.join(","), m);
                }
                RigidTy::Dynamic(..) => k.push_str("\"k\":\"dyn\""),
                RigidTy::Foreign(_) => k.push_str("\"k\":\"foreign\""),
                RigidTy::Pat(e, _) => { let e = self.ty(e); let _ = write!(k, "\"k\":\"pat\",\"to\":{}", e); }
                _ => k.push_str("\"k\":\"other\""),
            },
            _ => k.push_str("\"k\":\"other\""),
        }
        let lay = self.layout_json(t);
        self.ty_out.push((id, format!("{{\"id\":{},\"s\":{},{},\"layout\":{}}}", id, js(&name), k, lay)));
    }

    fn alloc_ref(&mut self, id: AllocId) -> usize {
        if let Some(&i) = self.alloc_ids.get(&id) { return i; }
        let i = self.alloc_ids.len();
        self.alloc_ids.insert(id, i);
        self.alloc_queue.push_back((i, id));
        i
    }

    fn alloc_json(&mut self, a: &Allocation) -> String {
        let mut hex = String::with_capacity(a.bytes.len() * 2);
        for b in &a.bytes { match b { Some(b) => { let _ = write!(hex, "{:02x}", b); } None => hex.push_str("uu") } }
        let prov: Vec<String> = a.provenance.ptrs.iter().map(|(o, p)| { let r = self.alloc_ref(p.0); format!("[{},{}]", o, r) }).collect();
        format!("{{\"b\":\"{}\",\"p\":[{}]}}", hex, prov.join(","))
    }

    fn emit_alloc(&mut self, i: usize, id: AllocId) {
        let g = GlobalAlloc::from(id);
        let s = match g {
            GlobalAlloc::Function(inst) => { let m = self.enqueue(inst); format!("{{\"id\":{},\"k\":\"fn\",\"inst\":{}}}", i, js(&m)) }
            GlobalAlloc::VTable(..) => format!("{{\"id\":{},\"k\":\"vtable\"}}", i),
            GlobalAlloc::Static(def) => {
                let t = self.ty(def.ty());
                match def.eval_initializer() {
                    Ok(a) => { let a = self.alloc_json(&a); format!("{{\"id\":{},\"k\":\"static\",\"name\":{},\"ty\":{},\"a\":{}}}", i, js(&def.name().to_string()), t, a) }
                    Err(_) => format!("{{\"id\":{},\"k\":\"static\",\"name\":{},\"ty\":{},\"a\":null}}", i, js(&def.name().to_string()), t),
                }
            }
            GlobalAlloc::Memory(a) => { let a = self.alloc_json(&a); format!("{{\"id\":{},\"k\":\"mem\",\"a\":{}}}", i, a) }
            GlobalAlloc::TypeId { .. } => format!("{{\"id\":{},\"k\":\"typeid\"}}", i),
        };
        self.alloc_out.push(s);
    }

    fn konst(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        match c.const_.kind() {
            ConstantKind::Allocated(a) => { let a = self.alloc_json(a); format!("[\"c\",{},{}]", ti, a) }
            ConstantKind::ZeroSized => format!("[\"c\",{},null]", ti),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => { let a = self.alloc_json(a); format!("[\"c\",{},{}]", ti, a) }
                TyConstKind::ZSTValue(_) => format!("[\"c\",{},null]", ti),
                _ => format!("[\"c\",{},\"unknown\"]", ti),
            },
            _ => format!("[\"c\",{},\"unknown\"]", ti),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"f\",{},{}]", i, t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                _ => "\"?\"".into(),
            });
        }
        format!("[{}]", v.join(","))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => format!("[\"p\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", js(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let t = r.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let kk = match k {
                    AggregateKind::Adt(_, v, _, _, f) => format!("[\"adt\",{},{}]", v.to_index(), f.map(|f| f as i64).unwrap_or(-1)),
                    AggregateKind::Array(_) => "[\"array\"]".into(),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Closure(..) => "[\"closure\"]".into(),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{},[{}]]", kk, t, os.join(","))
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let t2 = b.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"bin\",\"{:?}\",{},{},{},{}]", op, self.operand(a), self.operand(b), t, t2)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"cbin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a), t)
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).ok();
                let fi = from.map(|t| self.ty(t) as i64).unwrap_or(-1);
                let ti = self.ty(*t);
                if let (CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)), Some(ft)) = (k, from) {
                    if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = ft.kind() {
                        if let Ok(i) = Instance::resolve_for_fn_ptr(def, &args) { self.enqueue(i); }
                    }
                }
                format!("[\"cast\",{},{},{},{}]", js(&format!("{:?}", k)), self.operand(o), fi, ti)
            }
            Rvalue::Discriminant(p) => { let t = p.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1); format!("[\"discr\",{},{}]", self.place(p), t) }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(_) => "[\"other\"]".into(),
        }
    }

    fn span(&self, s: &Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }

    fn emit_fn(&mut self, inst: Instance) {
        let m = inst.mangled_name().to_string();
        let name = inst.name().to_string();
        let intr = inst.intrinsic_name().map(|s| js(&s.to_string())).unwrap_or("null".into());
        let kind = match inst.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim", _ => "llvm" };
        let gargs: Vec<String> = inst.args().0.iter().filter_map(|a| match a { GenericArgKind::Type(t) => Some(self.ty(*t).to_string()), _ => None }).collect();
        let defname = inst.def.name().to_string();
        let krate = inst.def.krate().name.to_string();
        let empty = inst.is_empty_shim();
        let body = if matches!(inst.kind, InstanceKind::Virtual { .. }) { None } else { inst.body() };
        let head = format!("\"m\":{},\"n\":{},\"d\":{},\"crate\":{},\"kind\":\"{}\",\"intr\":{},\"targs\":[{}],\"empty\":{}", js(&m), js(&name), js(&defname), js(&krate), kind, intr, gargs.join(","), empty);
        let Some(body) = body else {
            self.fn_out.push(format!("{{{},\"body\":null}}", head));
            return;
        };
        let locals: Vec<LocalDecl> = body.locals().to_vec();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for b in &body.blocks {
            let mut st = vec![];
            for s in &b.statements {
                let sp = js(&self.span(&s.source_info.span));
                match &s.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rvalue(r, &locals); st.push(format!("[\"=\",{},{},{}]", p, r, sp)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(format!("[\"setd\",{},{},{}]", p, variant_index.to_index(), sp)); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { let o = self.operand(o); st.push(format!("[\"assume\",{},{}]", o, sp)); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (a, b2, n) = (self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count));
                        st.push(format!("[\"copyno\",{},{},{},{}]", a, b2, n, sp));
                    }
                    _ => {}
                }
            }
            let sp = js(&self.span(&b.terminator.source_info.span));
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let bs: Vec<String> = targets.branches().map(|(v, b)| format!("[\"{}\",{}]", v, b)).collect();
                    format!("[\"switch\",{},[{}],{},{},{}]", self.operand(discr), bs.join(","), targets.otherwise(), t, sp)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Unreachable => format!("[\"unreachable\",{}]", sp),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!("[\"drop\",{},{},{}]", self.place(place), target, t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&locals).ok();
                    let mut callee = "null".to_string();
                    if let Some(ft) = ft {
                        if let TyKind::RigidTy(RigidTy::FnDef(def, ga)) = ft.kind() {
                            if let Ok(i) = Instance::resolve(def, &ga) { callee = js(&self.enqueue(i)); }
                            else { callee = js(&format!("!unresolved {}", ft)); }
                        }
                    }
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let at: Vec<String> = args.iter().map(|o| o.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1).to_string()).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let tg = target.map(|t| t.to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},[{}],[{}],{},{},{},{}]", callee, f, a.join(","), at.join(","), d, dt, tg, sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let mk = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertMessage::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertMessage::DivisionByZero(_) => "divzero".into(),
                        AssertMessage::RemainderByZero(_) => "remzero".into(),
                        AssertMessage::NullPointerDereference => "null".into(),
                        AssertMessage::MisalignedPointerDereference { .. } => "misaligned".into(),
                        AssertMessage::InvalidEnumConstruction(_) => "invalidenum".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, js(&mk), target, sp)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{}}}", st.join(","), t));
        }
        let argc = body.arg_locals().len();
        let spread = body.spread_arg().map(|l| l as i64).unwrap_or(-1);
        let sp = js(&self.span(&body.span));
        self.fn_out.push(format!("{{{},\"argc\":{},\"spread\":{},\"locals\":[{}],\"span\":{},\"body\":[{}]}}", head, argc, spread, lt.join(","), sp, blocks.join(",")));
    }
}

fn analyze() -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let mut d = Dump { tys: HashMap::new(), ty_out: vec![], ty_queue: VecDeque::new(), allocs: HashSet::new(), alloc_ids: HashMap::new(), alloc_queue: VecDeque::new(), alloc_out: vec![], queue: VecDeque::new(), seen: HashMap::new(), fn_out: vec![] };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn | rustc_public::ItemKind::Const) { continue; }
        if item.requires_monomorphization() { continue; }
        if let Ok(inst) = <Instance as TryFrom<rustc_public::CrateItem>>::try_from(item) {
            let nm = inst.name().to_string();
            let m = d.enqueue(inst);
            roots.push(format!("[{},{}]", js(&nm), js(&m)));
        }
    }
    loop {
        let mut progress = false;
        while let Some(i) = d.queue.pop_front() { d.emit_fn(i); progress = true; }
        while let Some(t) = d.ty_queue.pop_front() { d.emit_ty(t); progress = true; }
        while let Some((i, a)) = d.alloc_queue.pop_front() { d.emit_alloc(i, a); progress = true; }
        if !progress { break; }
    }
    let _ = d.allocs.len();
    let w = |n: &str, lines: Vec<String>| {
        let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}/{}", out, n)).unwrap());
        for l in lines { f.write_all(l.as_bytes()).unwrap(); f.write_all(b"\n").unwrap(); }
    };
    d.ty_out.sort();
    w("types.jsonl", d.ty_out.drain(..).map(|x| x.1).collect());
    w("allocs.jsonl", std::mem::take(&mut d.alloc_out));
    w("fns.jsonl", std::mem::take(&mut d.fn_out));
    w("roots.jsonl", roots);
    ControlFlow::Continue(())
}

fn main() {
    // argv: mirdump <rustc> <args...> (RUSTC_WORKSPACE_WRAPPER calling convention)
    let args: Vec<String> = std::env::args().skip(1).collect();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("vharness"));
    if !is_target || std::env::var("MIRDUMP_OUT").is_err() {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = rustc_public::run!(&args, analyze);
    match r {
        Ok(_) => {}
        Err(e) => { eprintln!("mirdump: {:?}", e); std::process::exit(1); }
    }
}
