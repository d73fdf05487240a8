// MIR fact extractor: a rustc driver that, for the `vroots` crate, walks every
// monomorphic instance reachable from its `pub fn root_*` functions and writes the
// typed MIR (with resolved callees, drop glue, decoded constants and layouts) as JSON.
// It runs no code of the analysed crates: it stops after rustc's analysis phase.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_public;

use rustc_public::abi::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_queue: Vec<Ty>,
    ty_done: usize,
    ty_out: Vec<String>,
    fns: HashMap<Instance, usize>,
    fn_queue: Vec<Instance>,
    statics: HashMap<String, usize>,
    static_queue: Vec<StaticDef>,
    redirects: HashMap<String, String>,
    models: HashMap<String, FnDef>,
    nobody: Vec<String>,
}

fn size_of_ty(t: Ty) -> Option<LayoutShape> {
    std::panic::catch_unwind(|| t.layout().ok().map(|l| l.shape())).ok().flatten()
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_queue.len();
        self.tys.insert(t, i);
        self.ty_queue.push(t);
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(n) = self.fns.get(&i) {
            return *n;
        }
        let n = self.fn_queue.len();
        self.fns.insert(i, n);
        self.fn_queue.push(i);
        n
    }
    fn static_(&mut self, d: StaticDef) -> usize {
        let name = d.name();
        if let Some(n) = self.statics.get(&name) {
            return *n;
        }
        let n = self.static_queue.len();
        self.statics.insert(name, n);
        self.static_queue.push(d);
        n
    }
    fn args_json(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => {
                    v.push(match c.eval_target_usize() {
                        Ok(n) => format!("{{\"n\":{n}}}"),
                        _ => esc(&format!("{:?}", c.kind())),
                    });
                }
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    fn resolve(&mut self, def: FnDef, args: &GenericArgs) -> Result<Instance, String> {
        let i = Instance::resolve(def, args).map_err(|e| format!("{e:?}"))?;
        Ok(self.redirect(i))
    }
    fn redirect(&mut self, i: Instance) -> Instance {
        if matches!(i.kind, InstanceKind::Intrinsic) {
            return i;
        }
        let dn = norm(&CrateDef::name(&i.def));
        if let Some(m) = self.redirects.get(&dn) {
            if let Some(f) = self.models.get(m) {
                let args = i.args();
                let lts = lifetimes(*f);
                let mine: Vec<_> = args.0.iter().filter(|a| matches!(a, GenericArgKind::Lifetime(_))).take(lts).cloned().collect();
                let targs = GenericArgs(
                    mine.into_iter()
                        .chain(args.0.iter().filter(|a| !matches!(a, GenericArgKind::Lifetime(_))).cloned())
                        .collect(),
                );
                if let Ok(r) = Instance::resolve(*f, &targs) {
                    return r;
                }
            }
        }
        default_method(i).unwrap_or(i)
    }
    fn layout_json(&mut self, t: Ty) -> String {
        let Some(s) = size_of_ty(t) else { return "null".into() };
        let offs = |v: &Vec<_>| -> String {
            let v: Vec<String> = v.iter().map(|o: &rustc_public::target::MachineSize| o.bytes().to_string()).collect();
            format!("[{}]", v.join(","))
        };
        let fields = match &s.fields {
            FieldsShape::Primitive => "\"prim\"".to_string(),
            FieldsShape::Union(n) => format!("{{\"union\":{}}}", n.get()),
            FieldsShape::Array { stride, count } => {
                format!("{{\"stride\":{},\"count\":{}}}", stride.bytes(), count)
            }
            FieldsShape::Arbitrary { offsets } => offs(offsets),
        };
        let prim = |sc: &Scalar| -> String {
            let p = match sc {
                Scalar::Initialized { value, .. } => value,
                Scalar::Union { value } => value,
            };
            match p {
                Primitive::Int { length, signed } => {
                    let n = match length {
                        IntegerLength::I8 => 1,
                        IntegerLength::I16 => 2,
                        IntegerLength::I32 => 4,
                        IntegerLength::I64 => 8,
                        IntegerLength::I128 => 16,
                    };
                    format!("[{},{}]", n, signed)
                }
                Primitive::Pointer(_) => "[8,false]".into(),
                Primitive::Float { .. } => "[8,false]".into(),
            }
        };
        let variants = match &s.variants {
            VariantsShape::Empty => "\"empty\"".to_string(),
            VariantsShape::Single { index } => format!("{{\"single\":{}}}", index.to_index_()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let vs: Vec<String> = variants.iter().map(|v| offs(&v.offsets)).collect();
                let enc = match tag_encoding {
                    TagEncoding::Direct => "\"direct\"".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":\"{}\"}}",
                        untagged_variant.to_index_(),
                        niche_variants.start().to_index_(),
                        niche_variants.end().to_index_(),
                        niche_start
                    ),
                };
                format!(
                    "{{\"tag\":{},\"enc\":{},\"tag_field\":{},\"v\":[{}]}}",
                    prim(tag),
                    enc,
                    tag_field,
                    vs.join(",")
                )
            }
        };
        format!(
            "{{\"size\":{},\"align\":{},\"unsized\":{},\"f\":{},\"v\":{}}}",
            s.size.bytes(),
            s.abi_align,
            s.is_unsized(),
            fields,
            variants
        )
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let k = t.kind();
        let disp = esc(&format!("{}", t));
        let lay = self.layout_json(t);
        let body = match k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"f\":{}", esc(&format!("{f:?}"))),
                RigidTy::Adt(def, args) => {
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(format!("[{},{}]", esc(&f.name), self.ty(ft)));
                        }
                        let d = if matches!(def.kind(), AdtKind::Enum) {
                            let d = def.discriminant_for_variant(v.idx());
                            match d.ty.kind() {
                                TyKind::RigidTy(RigidTy::Int(i)) => {
                                    let sh = 128 - 8 * i.num_bytes() as u32;
                                    ((d.val << sh) as i128) >> sh
                                }
                                _ => d.val as i128,
                            }
                        } else {
                            0
                        };
                        vs.push(format!(
                            "{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}",
                            esc(&v.name()),
                            d,
                            fs.join(",")
                        ));
                    }
                    let a = self.args_json(&args);
                    format!(
                        "\"k\":\"adt\",\"ak\":\"{}\",\"name\":{},\"args\":{},\"box\":{},\"v\":[{}]",
                        kind,
                        esc(&def.name()),
                        a,
                        def.is_box(),
                        vs.join(",")
                    )
                }
                RigidTy::Foreign(_) => "\"k\":\"foreign\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(e, n) => {
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n.eval_target_usize().unwrap_or(0))
                }
                RigidTy::Pat(b, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(b)),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => {
                    format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::FnDef(d, args) => match self.resolve(d, &args) {
                    Ok(i) => format!("\"k\":\"fndef\",\"fn\":{}", self.inst(i)),
                    Err(e) => format!("\"k\":\"fndef\",\"fn\":null,\"err\":{}", esc(&e)),
                },
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, args) => {
                    let n = args.0.len();
                    // last generic arg of a closure is the tuple of upvar types
                    let up = match &args.0[n - 1] {
                        GenericArgKind::Type(t) => Some(*t),
                        _ => None,
                    };
                    let ups = match up.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => {
                            ts.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>()
                        }
                        _ => vec![],
                    };
                    let inst = Instance::resolve_closure(d, &args, ClosureKind::FnOnce).ok().map(|_| 0);
                    let _ = inst;
                    format!("\"k\":\"closure\",\"name\":{},\"up\":[{}]", esc(&d.name()), ups.join(","))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"e\":[{}]", v.join(","))
                }
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{{},\"s\":{},\"l\":{}}}", body, disp, lay)
    }

    // ---------- constants ----------
    fn decode(&mut self, alloc: &Allocation, off: usize, t: Ty) -> String {
        let Some(sh) = size_of_ty(t) else {
            return format!("{{\"x\":\"nolayout\",\"t\":{}}}", self.ty(t));
        };
        let sz = sh.size.bytes();
        let rd = |o: usize, n: usize| alloc.read_partial_uint(o..o + n);
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match rd(off, sz) {
                    Ok(v) => format!("{{\"i\":\"{v}\",\"t\":{}}}", self.ty(t)),
                    Err(_) => "{\"x\":\"uninit\"}".into(),
                },
                RigidTy::Int(_) => match rd(off, sz) {
                    Ok(v) => {
                        let bits = sz as u32 * 8;
                        let s = if bits < 128 && (v >> (bits - 1)) & 1 == 1 { (v as i128) - (1i128 << bits) } else { v as i128 };
                        format!("{{\"i\":\"{s}\",\"t\":{}}}", self.ty(t))
                    }
                    Err(_) => "{\"x\":\"uninit\"}".into(),
                },
                RigidTy::Float(_) => match rd(off, sz) {
                    Ok(v) => format!("{{\"f\":\"{v}\",\"t\":{}}}", self.ty(t)),
                    Err(_) => "{\"x\":\"uninit\"}".into(),
                },
                RigidTy::Pat(b, _) => self.decode(alloc, off, b),
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => self.decode_ptr(alloc, off, e, t),
                RigidTy::FnPtr(_) => {
                    for (o, p) in &alloc.provenance.ptrs {
                        if *o == off {
                            if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                                let i = self.redirect(i);
                                return format!("{{\"fn\":{}}}", self.inst(i));
                            }
                        }
                    }
                    "{\"x\":\"fnptr\"}".into()
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    let es = size_of_ty(e).map(|s| s.size.bytes()).unwrap_or(0);
                    let v: Vec<String> = (0..n).map(|i| self.decode(alloc, off + i * es, e)).collect();
                    format!("{{\"a\":[{}],\"t\":{}}}", v.join(","), self.ty(t))
                }
                RigidTy::Tuple(ts) => {
                    let FieldsShape::Arbitrary { offsets } = &sh.fields else {
                        return format!("{{\"a\":[],\"t\":{}}}", self.ty(t));
                    };
                    let v: Vec<String> = ts
                        .iter()
                        .enumerate()
                        .map(|(i, x)| self.decode(alloc, off + offsets[i].bytes(), *x))
                        .collect();
                    format!("{{\"a\":[{}],\"t\":{}}}", v.join(","), self.ty(t))
                }
                RigidTy::FnDef(..) => format!("{{\"z\":{}}}", self.ty(t)),
                RigidTy::Closure(..) => format!("{{\"z\":{}}}", self.ty(t)),
                RigidTy::Adt(def, args) => {
                    let (vi, offs): (usize, Vec<usize>) = match (&sh.variants, &sh.fields) {
                        (VariantsShape::Multiple { tag, tag_encoding, tag_field, variants }, FieldsShape::Arbitrary { offsets }) => {
                            let to = off + offsets[*tag_field].bytes();
                            let p = match tag {
                                Scalar::Initialized { value, .. } => value,
                                Scalar::Union { value } => value,
                            };
                            let n = p.size(&rustc_public::target::MachineInfo::target()).bytes();
                            // a tag stored in a pointer with provenance means the untagged variant
                            let hasprov = alloc.provenance.ptrs.iter().any(|(o, _)| *o == to);
                            let v = rd(to, n);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let Ok(v) = v else { return "{\"x\":\"uninit\"}".into() };
                                    let mask = if n == 16 { u128::MAX } else { (1u128 << (n * 8)) - 1 };
                                    let mut r = None;
                                    for vd in def.variants_iter() {
                                        if def.discriminant_for_variant(vd.idx()).val & mask == v & mask {
                                            r = Some(vd.idx().to_index_());
                                        }
                                    }
                                    match r {
                                        Some(r) => r,
                                        None => return "{\"x\":\"badtag\"}".into(),
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let mask = if n == 16 { u128::MAX } else { (1u128 << (n * 8)) - 1 };
                                    let lo = niche_variants.start().to_index_();
                                    let hi = niche_variants.end().to_index_();
                                    match (hasprov, v) {
                                        (false, Ok(v)) => {
                                            let rel = v.wrapping_sub(*niche_start) & mask;
                                            if rel <= (hi - lo) as u128 { lo + rel as usize } else { untagged_variant.to_index_() }
                                        }
                                        _ => untagged_variant.to_index_(),
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                        }
                        (VariantsShape::Single { index }, FieldsShape::Arbitrary { offsets }) => {
                            (index.to_index_(), offsets.iter().map(|o| o.bytes()).collect())
                        }
                        (VariantsShape::Single { index }, FieldsShape::Union(n)) => (index.to_index_(), vec![0; n.get()]),
                        (VariantsShape::Single { index }, _) => (index.to_index_(), vec![]),
                        _ => return "{\"x\":\"adt\"}".into(),
                    };
                    let vd = def.variants_iter().nth(vi).unwrap();
                    let mut v = vec![];
                    for (i, f) in vd.fields().iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        v.push(self.decode(alloc, off + offs.get(i).copied().unwrap_or(0), ft));
                    }
                    format!("{{\"v\":{},\"a\":[{}],\"t\":{}}}", vi, v.join(","), self.ty(t))
                }
                _ => format!("{{\"x\":\"kind\",\"t\":{}}}", self.ty(t)),
            },
            _ => "{\"x\":\"alias\"}".into(),
        }
    }
    fn decode_ptr(&mut self, alloc: &Allocation, off: usize, e: Ty, t: Ty) -> String {
        let prov = alloc.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
        let addr = alloc.read_partial_uint(off..off + 8).unwrap_or(0) as usize;
        let ek = e.kind();
        let is_slice_like = matches!(
            ek,
            TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Dynamic(..))
        );
        let meta = if is_slice_like { alloc.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize } else { 0 };
        let Some(id) = prov else {
            return format!("{{\"addr\":\"{}\",\"meta\":{},\"t\":{}}}", addr, meta, self.ty(t));
        };
        match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(m) => match ek {
                TyKind::RigidTy(RigidTy::Str) => {
                    let b: Vec<u8> = m.bytes[addr..addr + meta].iter().map(|b| b.unwrap_or(0)).collect();
                    format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b)))
                }
                TyKind::RigidTy(RigidTy::Slice(x)) => {
                    let es = size_of_ty(x).map(|s| s.size.bytes()).unwrap_or(0);
                    let v: Vec<String> = (0..meta).map(|i| self.decode(&m, addr + i * es, x)).collect();
                    format!("{{\"ref\":{{\"a\":[{}],\"t\":null}},\"t\":{}}}", v.join(","), self.ty(t))
                }
                TyKind::RigidTy(RigidTy::Dynamic(..)) => format!("{{\"x\":\"dynref\",\"t\":{}}}", self.ty(t)),
                _ => {
                    if size_of_ty(e).map(|s| s.size.bytes() + addr <= m.bytes.len()).unwrap_or(false) {
                        let inner = self.decode(&m, addr, e);
                        format!("{{\"ref\":{},\"t\":{}}}", inner, self.ty(t))
                    } else {
                        format!("{{\"x\":\"ptr\",\"t\":{}}}", self.ty(t))
                    }
                }
            },
            GlobalAlloc::Static(d) => format!("{{\"static\":{},\"t\":{}}}", self.static_(d), self.ty(t)),
            GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
            _ => format!("{{\"x\":\"galloc\",\"t\":{}}}", self.ty(t)),
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t),
            ConstantKind::ZeroSized => format!("{{\"z\":{}}}", self.ty(t)),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t),
                TyConstKind::ZSTValue(t) => format!("{{\"z\":{}}}", self.ty(*t)),
                _ => match tc.eval_target_usize() {
                    Ok(n) => format!("{{\"i\":\"{n}\",\"t\":{}}}", self.ty(t)),
                    _ => format!("{{\"x\":\"tyconst\",\"t\":{}}}", self.ty(t)),
                },
            },
            _ => format!("{{\"x\":\"const\",\"t\":{}}}", self.ty(t)),
        }
    }

    // ---------- MIR ----------
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index_()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{r:?}"))),
        }
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let t = r.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let kk = match k {
                    AggregateKind::Array(_) => "\"array\",0,null".to_string(),
                    AggregateKind::Tuple => "\"tuple\",0,null".into(),
                    AggregateKind::Adt(_, vi, _, _, f) => format!(
                        "\"adt\",{},{}",
                        vi.to_index_(),
                        f.map(|f| f.to_string()).unwrap_or("null".into())
                    ),
                    AggregateKind::Closure(..) => "\"closure\",0,null".into(),
                    AggregateKind::RawPtr(..) => "\"rawptr\",0,null".into(),
                    _ => "\"other\",0,null".into(),
                };
                format!("[\"agg\",{},{},[{}]]", kk, t, v.join(","))
            }
            Rvalue::BinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"bin\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = x.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"cbin\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t)
            }
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(locals).unwrap();
                let src = self.ty(ot);
                let dst = self.ty(*t);
                let mut extra = "null".to_string();
                match k {
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = ot.kind() {
                            if let Ok(i) = Instance::resolve_for_fn_ptr(d, &args) {
                                let i = self.redirect(i);
                                extra = self.inst(i).to_string();
                            }
                        }
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                        if let TyKind::RigidTy(RigidTy::Closure(d, args)) = ot.kind() {
                            if let Ok(i) = Instance::resolve_closure(d, &args, ClosureKind::FnOnce) {
                                extra = self.inst(i).to_string();
                            }
                        }
                    }
                    _ => {}
                }
                let kn = match k {
                    CastKind::PointerCoercion(p) => format!("PC{p:?}"),
                    k => format!("{k:?}"),
                };
                format!("[\"cast\",{},{},{},{},{}]", esc(&kn), self.op(o), src, dst, extra)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().unwrap_or(0))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"un\",\"{:?}\",{},{}]", u, self.op(o), t)
            }
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
        }
    }
    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            UnwindAction::Continue => "-1".into(),
            UnwindAction::Unreachable => "-2".into(),
            UnwindAction::Terminate => "-3".into(),
        }
    }
    fn body_json(&mut self, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let ls: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        ss.push(format!("[\"=\",{},{},{}]", self.place(p), self.rv(r, &locals), line))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                        ss.push(format!("[\"sd\",{},{},{}]", self.place(place), variant_index.to_index_(), t))
                    }
                    StatementKind::StorageLive(l) => ss.push(format!("[\"sl\",{}]", l)),
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => ss.push(format!(
                        "[\"cno\",{},{},{}]",
                        self.op(&c.src),
                        self.op(&c.dst),
                        self.op(&c.count)
                    )),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    let ty = discr.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!("[\"sw\",{},[{}],{},{}]", self.op(discr), br.join(","), targets.otherwise(), ty)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(&locals).unwrap();
                    let i = Instance::resolve_drop_in_place(t);
                    let f = if i.is_empty_shim() { "null".to_string() } else { self.inst(i).to_string() };
                    format!("[\"drop\",{},{},{},{},{}]", self.place(place), target, Self::unwind(unwind), f, self.ty(t))
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let a: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    let ft = func.ty(&locals).unwrap();
                    let callee = match ft.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, ga)) => match self.resolve(d, &ga) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(e) => format!("{{\"err\":{}}}", esc(&e)),
                        },
                        _ => format!("{{\"op\":{}}}", self.op(func)),
                    };
                    format!(
                        "[\"call\",{},[{}],{},{},{},{}]",
                        callee,
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        Self::unwind(unwind),
                        line
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let d = match msg {
                        AssertMessage::Overflow(o, ..) => format!("overflow:{o:?}"),
                        m => m.description().map(|s| s.to_string()).unwrap_or_default(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.op(cond),
                        expected,
                        esc(&d),
                        target,
                        Self::unwind(unwind),
                        line
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[[{}],{},{}]", ss.join(","), t, line));
        }
        let names: Vec<String> = b
            .var_debug_info
            .iter()
            .filter_map(|v| v.local().map(|l| format!("[{},{}]", l, esc(&v.name))))
            .collect();
        format!(
            "\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[{}]",
            b.arg_locals().len(),
            b.spread_arg().map(|l| l.to_string()).unwrap_or("null".into()),
            ls.join(","),
            names.join(","),
            blocks.join(",\n")
        )
    }
    fn fn_json(&mut self, i: Instance) -> String {
        let mut o = String::new();
        let name = i.name();
        let dn = CrateDef::name(&i.def);
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let intr = i.intrinsic_name();
        let span = i.def.span();
        let file = span.get_filename();
        let line = span.get_lines().start_line;
        let krate = CrateDef::krate(&i.def).name;
        let args = i.args();
        let aj = self.args_json(&args);
        let dbg = format!("{:?}", i.kind);
        let _ = write!(
            o,
            "{{\"name\":{},\"def\":{},\"kind\":\"{}\",\"dbg\":{},\"intr\":{},\"file\":{},\"line\":{},\"crate\":{},\"args\":{}",
            esc(&name),
            esc(&dn),
            kind,
            esc(&dbg),
            intr.as_deref().map(esc).unwrap_or("null".into()),
            esc(&file),
            line,
            esc(&krate),
            aj
        );
        let body = if matches!(i.kind, InstanceKind::Intrinsic) {
            fallback(i)
        } else if matches!(i.kind, InstanceKind::LlvmIntrinsic | InstanceKind::Virtual { .. }) {
            None
        } else if i.is_foreign_item() {
            None
        } else {
            i.body()
        };
        // Fn-pointer / trait shims and drop glue bodies come through body() too
        match body {
            Some(b) => {
                let bj = self.body_json(&b);
                let _ = write!(o, ",{}}}", bj);
            }
            None => {
                self.nobody.push(name);
                if let Some(s) = i.ty().kind().fn_sig() {
                    let t = self.ty(s.skip_binder().output());
                    let _ = write!(o, ",\"ret\":{}", t);
                }
                o.push_str(",\"blocks\":null}");
            }
        }
        o
    }
}

/// iterators the interpreter represents natively: their specialised methods are replaced
/// by the default methods of the trait, so that only `next` and `next_back` need a model
const OPAQUE_ITERS: &[&str] = &[
    "core::str::iter::Chars",
    "core::str::iter::CharIndices",
    "core::str::iter::Bytes",
    "core::str::iter::EncodeUtf16",
    "core::slice::iter::Iter",
    "core::slice::iter::IterMut",
    "alloc::vec::into_iter::IntoIter",
    "alloc::vec::drain::Drain",
    "alloc::string::Drain",
    "core::array::iter::IntoIter",
    "alloc::collections::vec_deque::iter::Iter",
    "alloc::collections::vec_deque::iter_mut::IterMut",
    "alloc::collections::vec_deque::into_iter::IntoIter",
    "alloc::collections::vec_deque::drain::Drain",
    "alloc::collections::btree::map::Iter",
    "alloc::collections::btree::map::IterMut",
    "alloc::collections::btree::map::IntoIter",
    "alloc::collections::btree::map::Keys",
    "alloc::collections::btree::map::Values",
    "alloc::collections::btree::map::ValuesMut",
    "alloc::collections::btree::map::IntoKeys",
    "alloc::collections::btree::map::IntoValues",
    "alloc::collections::btree::set::Iter",
    "alloc::collections::btree::set::IntoIter",
    "std::collections::hash::map::Iter",
    "std::collections::hash::map::IterMut",
    "std::collections::hash::map::IntoIter",
    "std::collections::hash::map::Keys",
    "std::collections::hash::map::Values",
    "std::collections::hash::map::ValuesMut",
    "std::collections::hash::set::Iter",
    "std::collections::hash::set::IntoIter",
];

fn norm(s: &str) -> String {
    s.replace("alloc::", "std::").replace("core::", "std::")
}

fn default_method(i: Instance) -> Option<Instance> {
    use rustc_middle::ty;
    ty::tls::with(|tcx| {
        let n = rustc_public::rustc_internal::internal(tcx, i);
        let ty::InstanceKind::Item(d) = n.def else { return None };
        let item = tcx.opt_associated_item(d)?;
        if matches!(item.name().as_str(), "next" | "next_back" | "size_hint" | "len" | "is_empty" | "__iterator_get_unchecked") {
            return None;
        }
        let imp = tcx.impl_of_assoc(d)?;
        let tr = tcx.impl_opt_trait_ref(imp)?.instantiate(tcx, n.args).skip_norm_wip();
        let ty::TyKind::Adt(a, _) = tr.self_ty().kind() else { return None };
        if !OPAQUE_ITERS.contains(&with_real_path(tcx, a.did()).as_str()) {
            return None;
        }
        let m = item.trait_item_def_id()?;
        if !tcx.defaultness(m).has_value() {
            return None;
        }
        let args = n.args.rebase_onto(tcx, imp, tr.args);
        let raw = ty::Instance { def: ty::InstanceKind::Item(m), args };
        Some(rustc_public::rustc_internal::stable(raw))
    })
}

fn with_real_path(tcx: rustc_middle::ty::TyCtxt<'_>, d: rustc_span::def_id::DefId) -> String {
    let p = tcx.def_path(d);
    let mut s = tcx.crate_name(d.krate).to_string();
    for x in p.data {
        s.push_str("::");
        s.push_str(&x.as_sym(false).to_string());
    }
    s
}

/// the number of early-bound lifetimes of a function
fn lifetimes(f: rustc_public::ty::FnDef) -> usize {
    use rustc_public::CrateDef;
    rustc_middle::ty::tls::with(|tcx| {
        let d = rustc_public::rustc_internal::internal(tcx, f.def_id());
        tcx.generics_of(d).own_counts().lifetimes
    })
}

/// the body an intrinsic has if the back end does not override it
fn fallback(i: Instance) -> Option<Body> {
    let r = rustc_middle::ty::tls::with(|tcx| {
        let n = rustc_public::rustc_internal::internal(tcx, i);
        let d = n.def.def_id();
        if tcx.intrinsic(d).is_none_or(|x| x.must_be_overridden) || !tcx.is_mir_available(d) {
            return None;
        }
        let raw = rustc_middle::ty::Instance { def: rustc_middle::ty::InstanceKind::Item(d), args: n.args };
        Some(rustc_public::rustc_internal::stable(raw))
    })?;
    r.body()
}

trait ToIdx {
    fn to_index_(&self) -> usize;
}
impl ToIdx for VariantIdx {
    fn to_index_(&self) -> usize {
        // VariantIdx serialises to its index; Debug prints VariantIdx(n, ..)
        let s = format!("{:?}", self);
        let d: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
        d.parse().unwrap()
    }
}

fn analyze() -> ControlFlow<()> {
    let out = std::env::var("VFACTS_OUT").unwrap();
    let mut cx = Cx {
        tys: HashMap::new(),
        ty_queue: vec![],
        ty_done: 0,
        ty_out: vec![],
        fns: HashMap::new(),
        fn_queue: vec![],
        statics: HashMap::new(),
        static_queue: vec![],
        redirects: HashMap::new(),
        models: HashMap::new(),
        nobody: vec![],
    };
    if let Ok(r) = std::env::var("VFACTS_REDIRECT") {
        for l in std::fs::read_to_string(r).unwrap().lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let (a, b) = l.split_once("=>").unwrap();
            cx.redirects.insert(norm(a.trim()), b.trim().into());
        }
    }
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        let n = item.name();
        if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = item.ty().kind() {
            if n.contains("models::") {
                cx.models.insert(n.strip_prefix("vroots::").unwrap_or(&n).to_string(), d);
            }
            let last = n.rsplit("::").next().unwrap().to_string();
            if last.starts_with("root_") || n.ends_with("::program::main") {
                if let Ok(i) = Instance::try_from(item) {
                    // path below the crate and its top module
                    let q: Vec<&str> = n.trim_start_matches("vroots::").split("::").skip(1).collect();
                    roots.push((q.join("::"), i));
                }
            }
        }
    }
    let mut rj = vec![];
    for (n, i) in roots {
        rj.push(format!("{}:{}", esc(&n), cx.inst(i)));
    }
    let mut fns = vec![];
    let mut st = vec![];
    let mut sdone = 0;
    loop {
        let mut progress = false;
        while fns.len() < cx.fn_queue.len() {
            let i = cx.fn_queue[fns.len()];
            let j = cx.fn_json(i);
            fns.push(j);
            progress = true;
        }
        while sdone < cx.static_queue.len() {
            let d = cx.static_queue[sdone];
            sdone += 1;
            let t = d.ty();
            let v = match d.eval_initializer() {
                Ok(a) => cx.decode(&a, 0, t),
                Err(_) => "{\"x\":\"static\"}".into(),
            };
            st.push(format!("{{\"name\":{},\"v\":{}}}", esc(&d.name()), v));
            progress = true;
        }
        while cx.ty_done < cx.ty_queue.len() {
            let t = cx.ty_queue[cx.ty_done];
            cx.ty_done += 1;
            let j = cx.ty_json(t);
            cx.ty_out.push(j);
            progress = true;
        }
        if !progress {
            break;
        }
    }
    let s = format!(
        "{{\"roots\":{{{}}},\n\"types\":[\n{}\n],\n\"fns\":[\n{}\n],\n\"statics\":[{}]}}\n",
        rj.join(","),
        cx.ty_out.join(",\n"),
        fns.join(",\n"),
        st.join(",")
    );
    std::fs::write(&out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WRAPPER protocol: argv[1] is the real rustc path.
    let mut args: Vec<String> = std::env::args().collect();
    let real = args.remove(1);
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "vroots");
    if !is_target {
        let st = std::process::Command::new(real).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    args[0] = real;
    let r = rustc_public::run!(&args, analyze);
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Skipped) | Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(_) => std::process::exit(1),
    }
}
