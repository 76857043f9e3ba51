//! Dumps the resolved, monomorphised MIR of everything the harness crate can reach, as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER for the harness crate. It never runs any of the code it dumps.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::target::MachineSize;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::convert::TryFrom;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

enum J {
    Null,
    B(bool),
    N(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => write!(o, "{n}").unwrap(),
            J::U(n) => write!(o, "{n}").unwrap(),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{k}\":").unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn n(x: usize) -> J {
    J::N(x as i128)
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn a(v: Vec<J>) -> J {
    J::A(v)
}

#[derive(Default)]
struct Cx {
    types: HashMap<Ty, usize>,
    ty_out: Vec<Option<J>>,
    ty_q: VecDeque<Ty>,
    fns: HashMap<Instance, usize>,
    fn_list: Vec<Instance>,
    allocs: HashMap<AllocId, usize>,
    alloc_list: Vec<AllocId>,
    statics: HashMap<StaticDef, usize>,
    static_list: Vec<StaticDef>,
    vt: HashMap<AllocId, ()>,
    cur: String,
}

fn bits_of_int(t: &IntTy) -> usize {
    match t {
        IntTy::Isize => 64,
        IntTy::I8 => 8,
        IntTy::I16 => 16,
        IntTy::I32 => 32,
        IntTy::I64 => 64,
        IntTy::I128 => 128,
    }
}
fn bits_of_uint(t: &UintTy) -> usize {
    match t {
        UintTy::Usize => 64,
        UintTy::U8 => 8,
        UintTy::U16 => 16,
        UintTy::U32 => 32,
        UintTy::U64 => 64,
        UintTy::U128 => 128,
    }
}

impl Cx {
    fn ty(&mut self, t: Ty) -> J {
        n(self.tyi(t))
    }
    fn tyi(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.types.insert(t, i);
        self.ty_out.push(None);
        self.ty_q.push_back(t);
        i
    }
    fn func(&mut self, i: Instance) -> usize {
        if let Some(k) = self.fns.get(&i) {
            return *k;
        }
        let k = self.fn_list.len();
        self.fns.insert(i, k);
        self.fn_list.push(i);
        k
    }
    fn alloc(&mut self, i: AllocId) -> usize {
        if let Some(k) = self.allocs.get(&i) {
            return *k;
        }
        let k = self.alloc_list.len();
        self.allocs.insert(i, k);
        self.alloc_list.push(i);
        k
    }
    fn stat(&mut self, d: StaticDef) -> usize {
        if let Some(k) = self.statics.get(&d) {
            return *k;
        }
        let k = self.static_list.len();
        self.statics.insert(d, k);
        self.static_list.push(d);
        k
    }
    fn fields(&mut self, tys: Vec<Ty>) -> J {
        a(tys.into_iter().map(|t| self.ty(t)).collect())
    }

    fn layout(&mut self, t: Ty) -> J {
        let Ok(l) = t.layout() else { return J::Null };
        let sh = l.shape();
        let offs = |v: &Vec<MachineSize>| a(v.iter().map(|x| n(x.bytes())).collect());
        let fields = match &sh.fields {
            FieldsShape::Primitive => J::Null,
            FieldsShape::Union(k) => a((0..k.get()).map(|_| n(0)).collect()),
            FieldsShape::Array { stride, count } => {
                J::O(vec![("stride", n(stride.bytes())), ("count", J::U(*count as u128))])
            }
            FieldsShape::Arbitrary { offsets } => offs(offsets),
        };
        let variants = match &sh.variants {
            VariantsShape::Empty => s("empty"),
            VariantsShape::Single { index } => J::O(vec![("single", n(index.to_index()))]),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let (prim, valid) = match tag {
                    Scalar::Initialized { value, valid_range } => (value, (valid_range.start, valid_range.end)),
                    Scalar::Union { value } => (value, (0, 0)),
                };
                let (size, isptr) = match prim {
                    Primitive::Int { length, .. } => (length.bits() / 8, false),
                    Primitive::Pointer(_) => (8, true),
                    Primitive::Float { length } => (length.bits() / 8, false),
                };
                let tag_off = match &sh.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                    _ => 0,
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => s("direct"),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => J::O(vec![
                        ("untagged", n(untagged_variant.to_index())),
                        ("start", n(niche_variants.start().to_index())),
                        ("end", n(niche_variants.end().to_index())),
                        ("niche_start", J::U(*niche_start)),
                    ]),
                };
                J::O(vec![
                    ("tag_off", n(tag_off)),
                    ("tag_size", n(size)),
                    ("tag_ptr", J::B(isptr)),
                    ("valid", a(vec![J::U(valid.0), J::U(valid.1)])),
                    ("enc", enc),
                    ("offsets", a(variants.iter().map(|v| offs(&v.offsets)).collect())),
                ])
            }
        };
        let abi = match &sh.value_repr {
            ValueRepr::Scalar(_) => "scalar",
            ValueRepr::ScalarPair { .. } => "pair",
            ValueRepr::Aggregate { sized: false } => "unsized",
            _ => "agg",
        };
        J::O(vec![
            ("size", n(sh.size.bytes())),
            ("align", n(sh.abi_align as usize)),
            ("fields", fields),
            ("variants", variants),
            ("abi", s(abi)),
        ])
    }

    fn emit_ty(&mut self, t: Ty) -> J {
        let name = format!("{t}");
        let mut o = vec![];
        let TyKind::RigidTy(r) = t.kind() else {
            return J::O(vec![("k", s("other")), ("name", s(name))]);
        };
        let mut k = "other";
        match &r {
            RigidTy::Bool => k = "bool",
            RigidTy::Char => k = "char",
            RigidTy::Int(i) => {
                k = "int";
                o.push(("bits", n(bits_of_int(i))));
            }
            RigidTy::Uint(i) => {
                k = "uint";
                o.push(("bits", n(bits_of_uint(i))));
            }
            RigidTy::Float(f) => {
                k = "float";
                o.push((
                    "bits",
                    n(match f {
                        FloatTy::F16 => 16,
                        FloatTy::F32 => 32,
                        FloatTy::F64 => 64,
                        FloatTy::F128 => 128,
                    }),
                ));
            }
            RigidTy::Adt(def, args) => {
                k = match def.kind() {
                    AdtKind::Struct => "struct",
                    AdtKind::Enum => "enum",
                    AdtKind::Union => "union",
                };
                o.push(("def", s(def.name())));
                if def.is_box() {
                    o.push(("box", J::B(true)));
                }
                let mut targs = vec![];
                for g in &args.0 {
                    if let GenericArgKind::Type(t) = g {
                        targs.push(self.ty(*t));
                    }
                }
                o.push(("args", a(targs)));
                let mut vs = vec![];
                let mut names = vec![];
                let mut discr = vec![];
                let mut fnames = vec![];
                for v in def.variants_iter() {
                    let tys: Vec<Ty> = v.fields().iter().map(|f| f.ty_with_args(args)).collect();
                    fnames.push(a(v.fields().iter().map(|f| s(f.name.to_string())).collect()));
                    vs.push(self.fields(tys));
                    names.push(s(v.name()));
                    if matches!(def.kind(), AdtKind::Enum) {
                        discr.push(J::U(def.discriminant_for_variant(v.idx()).val));
                    }
                }
                o.push(("variants", a(vs)));
                o.push(("vnames", a(names)));
                o.push(("fnames", a(fnames)));
                o.push(("discr", a(discr)));
                if matches!(def.kind(), AdtKind::Enum) {
                    let dt = r.discriminant_ty();
                    o.push(("discr_ty", self.ty(dt)));
                }
            }
            RigidTy::Foreign(_) => k = "foreign",
            RigidTy::Str => k = "str",
            RigidTy::Array(e, c) => {
                k = "array";
                o.push(("elem", self.ty(*e)));
                o.push(("len", J::U(c.eval_target_usize().unwrap_or(0) as u128)));
            }
            RigidTy::Pat(b, _) => {
                k = "pat";
                o.push(("base", self.ty(*b)));
            }
            RigidTy::Slice(e) => {
                k = "slice";
                o.push(("elem", self.ty(*e)));
            }
            RigidTy::RawPtr(p, _) => {
                k = "ptr";
                o.push(("to", self.ty(*p)));
            }
            RigidTy::Ref(_, p, m) => {
                k = "ref";
                o.push(("to", self.ty(*p)));
                o.push(("mut", J::B(matches!(m, Mutability::Mut))));
            }
            RigidTy::FnDef(def, args) => {
                k = "fndef";
                o.push(("def", s(def.name())));
                if let Ok(i) = Instance::resolve(*def, args) {
                    o.push(("inst", n(self.func(i))));
                }
            }
            RigidTy::FnPtr(_) => k = "fnptr",
            RigidTy::Closure(def, args) => {
                k = "closure";
                o.push(("def", s(def.name())));
                if let Some(GenericArgKind::Type(u)) = args.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = u.kind() {
                        let f = self.fields(ts);
                        o.push(("variants", a(vec![f])));
                    }
                }
            }
            RigidTy::Dynamic(..) => k = "dyn",
            RigidTy::Never => k = "never",
            RigidTy::Tuple(ts) => {
                k = "tuple";
                let f = self.fields(ts.clone());
                o.push(("variants", a(vec![f])));
            }
            _ => {}
        }
        let mut out = vec![("k", s(k)), ("name", s(name))];
        out.append(&mut o);
        let l = self.layout(t);
        out.push(("layout", l));
        if !matches!(k, "dyn" | "str" | "slice" | "other" | "foreign") {
            let d = Instance::resolve_drop_in_place(t);
            if !d.is_empty_shim() {
                out.push(("drop", n(self.func(d))));
            }
        } else if matches!(k, "slice" | "str") {
            let d = Instance::resolve_drop_in_place(t);
            if !d.is_empty_shim() {
                out.push(("drop", n(self.func(d))));
            }
        }
        J::O(out)
    }

    fn allocation(&mut self, al: &Allocation) -> J {
        let mut hex = String::new();
        for b in &al.bytes {
            match b {
                Some(b) => write!(hex, "{b:02x}").unwrap(),
                None => hex.push_str("__"),
            }
        }
        let pv = al
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| a(vec![n(*o), n(self.alloc(p.0))]))
            .collect();
        J::O(vec![
            ("bytes", s(hex)),
            ("prov", a(pv)),
            ("align", J::U(al.align as u128)),
            ("mut", J::B(matches!(al.mutability, Mutability::Mut))),
        ])
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![n(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => a(vec![s("d")]),
                ProjectionElem::Field(i, t) => a(vec![s("f"), n(*i), self.ty(*t)]),
                ProjectionElem::Index(l) => a(vec![s("i"), n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    a(vec![s("c"), n(*offset as usize), n(*min_length as usize), J::B(*from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    a(vec![s("s"), n(*from as usize), n(*to as usize), J::B(*from_end)])
                }
                ProjectionElem::Downcast(i) => a(vec![s("v"), n(i.to_index())]),
                ProjectionElem::OpaqueCast(t) => a(vec![s("o"), self.ty(*t)]),
            });
        }
        a(v)
    }

    fn tyconst_val(&mut self, c: &TyConst) -> J {
        match c.kind() {
            TyConstKind::Value(t, al) => {
                let x = self.allocation(al);
                a(vec![s("k"), self.ty(*t), x])
            }
            TyConstKind::ZSTValue(t) => a(vec![s("z"), self.ty(*t)]),
            _ => a(vec![s("?"), s(format!("{c:?}"))]),
        }
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => a(vec![s("c"), self.place(p)]),
            Operand::Move(p) => a(vec![s("m"), self.place(p)]),
            Operand::RuntimeChecks(r) => a(vec![s("rc"), s(format!("{r:?}"))]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                match c.const_.kind() {
                    ConstantKind::Allocated(al) => {
                        let x = self.allocation(al);
                        a(vec![s("k"), self.ty(t), x])
                    }
                    ConstantKind::ZeroSized => a(vec![s("z"), self.ty(t)]),
                    ConstantKind::Ty(tc) => self.tyconst_val(tc),
                    other => a(vec![s("?"), s(format!("{other:?}"))]),
                }
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::AddressOf(_, p) => a(vec![s("addr"), self.place(p)]),
            Rvalue::Ref(_, _, p) => a(vec![s("ref"), self.place(p)]),
            Rvalue::Reborrow(_, _, p) => a(vec![s("use"), a(vec![s("c"), self.place(p)])]),
            Rvalue::Aggregate(k, ops) => {
                let os = a(ops.iter().map(|o| self.operand(o)).collect());
                let kk = match k {
                    AggregateKind::Array(_) => a(vec![s("array")]),
                    AggregateKind::Tuple => a(vec![s("tuple")]),
                    AggregateKind::Adt(_, v, _, _, f) => a(vec![
                        s("adt"),
                        n(v.to_index()),
                        f.map_or(J::Null, |f| n(f)),
                    ]),
                    AggregateKind::Closure(..) => a(vec![s("closure")]),
                    AggregateKind::RawPtr(..) => a(vec![s("rawptr")]),
                    _ => a(vec![s("?")]),
                };
                a(vec![s("agg"), kk, os])
            }
            Rvalue::BinaryOp(b, x, y) => {
                a(vec![s("bin"), s(format!("{b:?}")), self.operand(x), self.operand(y)])
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                a(vec![s("cbin"), s(format!("{b:?}")), self.operand(x), self.operand(y)])
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).unwrap();
                let mut v = vec![s("cast"), s(""), self.operand(o), self.ty(from), self.ty(*t)];
                let kk = match k {
                    CastKind::PointerCoercion(pc) => match pc {
                        PointerCoercion::ReifyFnPointer(_) => {
                            if let TyKind::RigidTy(RigidTy::FnDef(d, ar)) = from.kind() {
                                let i = Instance::resolve_for_fn_ptr(d, &ar).unwrap();
                                v.push(n(self.func(i)));
                            }
                            "reify"
                        }
                        PointerCoercion::ClosureFnPointer(_) => {
                            if let TyKind::RigidTy(RigidTy::Closure(d, ar)) = from.kind() {
                                let i = Instance::resolve_closure(d, &ar, ClosureKind::FnOnce).unwrap();
                                v.push(n(self.func(i)));
                            }
                            "reify"
                        }
                        PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer => "ptr",
                        PointerCoercion::ArrayToPointer => "ptr",
                        PointerCoercion::Unsize => {
                            let x = self.unsize(from, *t);
                            v.push(x);
                            "unsize"
                        }
                    },
                    CastKind::PointerExposeAddress => "p2i",
                    CastKind::PointerWithExposedProvenance => "i2p",
                    CastKind::IntToInt => "i2i",
                    CastKind::FloatToInt => "f2i",
                    CastKind::FloatToFloat => "f2f",
                    CastKind::IntToFloat => "i2f",
                    CastKind::PtrToPtr => "ptr",
                    CastKind::FnPtrToPtr => "ptr",
                    CastKind::Transmute | CastKind::BoxDerefTransmute => "transmute",
                    CastKind::Subtype => "transmute",
                };
                v[1] = s(kk);
                a(v)
            }
            Rvalue::CopyForDeref(p) => a(vec![s("use"), a(vec![s("c"), self.place(p)])]),
            Rvalue::Discriminant(p) => a(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => a(vec![s("len"), self.place(p)]),
            Rvalue::Repeat(o, c) => {
                let cnt = c.eval_target_usize().unwrap();
                a(vec![s("repeat"), self.operand(o), J::U(cnt as u128)])
            }
            Rvalue::ThreadLocalRef(_) => a(vec![s("tls")]),
            Rvalue::UnaryOp(u, o) => a(vec![s("un"), s(format!("{u:?}")), self.operand(o)]),
            Rvalue::Use(o, _) => a(vec![s("use"), self.operand(o)]),
        }
    }

    // Finds what an unsizing coercion adds: a length or a vtable
    fn unsize(&mut self, from: Ty, to: Ty) -> J {
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, p, _)) | TyKind::RigidTy(RigidTy::RawPtr(p, _)) => Some(p),
                _ => None,
            }
        }
        fn fields_of(t: Ty) -> Vec<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Adt(d, ar)) if d.kind() == AdtKind::Struct => {
                    d.variants_iter().next().unwrap().fields().iter().map(|f| f.ty_with_args(&ar)).collect()
                }
                _ => vec![],
            }
        }
        fn find(from: Ty, to: Ty, depth: usize) -> Option<(Ty, Ty)> {
            if from == to || depth > 8 {
                return None;
            }
            if let (Some(p), Some(q)) = (pointee(from), pointee(to)) {
                return tail(p, q, depth + 1);
            }
            if let (TyKind::RigidTy(RigidTy::Pat(p, _)), TyKind::RigidTy(RigidTy::Pat(q, _))) = (from.kind(), to.kind()) {
                return find(p, q, depth + 1);
            }
            let (f, g) = (fields_of(from), fields_of(to));
            for (x, y) in f.into_iter().zip(g) {
                if x != y {
                    if let Some(r) = find(x, y, depth + 1) {
                        return Some(r);
                    }
                }
            }
            None
        }
        fn tail(p: Ty, q: Ty, depth: usize) -> Option<(Ty, Ty)> {
            match (p.kind(), q.kind()) {
                (TyKind::RigidTy(RigidTy::Array(..)), TyKind::RigidTy(RigidTy::Slice(..))) => Some((p, q)),
                (_, TyKind::RigidTy(RigidTy::Dynamic(..))) => Some((p, q)),
                _ => {
                    let (f, g) = (fields_of(p), fields_of(q));
                    let (x, y) = (f.last()?, g.last()?);
                    if depth > 8 {
                        return None;
                    }
                    tail(*x, *y, depth + 1)
                }
            }
        }
        if from == to {
            // Only a lifetime changes
            return s("same");
        }
        let Some((p, q)) = find(from, to, 0) else { return s("?") };
        if let (TyKind::RigidTy(RigidTy::Dynamic(a, ..)), TyKind::RigidTy(RigidTy::Dynamic(b, ..))) = (p.kind(), q.kind()) {
            let pr = |x: &Vec<Binder<ExistentialPredicate>>| {
                x.iter().find_map(|i| if let ExistentialPredicate::Trait(t) = &i.value { Some(t.def_id) } else { None })
            };
            return if pr(&a) == pr(&b) { s("same") } else { s("?") };
        }
        match q.kind() {
            TyKind::RigidTy(RigidTy::Slice(_)) => {
                if let TyKind::RigidTy(RigidTy::Array(_, c)) = p.kind() {
                    J::O(vec![("len", J::U(c.eval_target_usize().unwrap() as u128))])
                } else {
                    s("?")
                }
            }
            TyKind::RigidTy(RigidTy::Dynamic(preds, _)) => {
                if matches!(p.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) {
                    return J::O(vec![("upcast", J::B(true))]);
                }
                let mut principal = None;
                for pr in preds {
                    if let ExistentialPredicate::Trait(t) = &pr.value {
                        principal = Some(Binder::bind_with_vars(t.clone(), pr.bound_vars.clone()));
                    }
                }
                let ga = GlobalAlloc::VTable(p, principal);
                match ga.vtable_allocation() {
                    Some(id) => {
                        self.vt.insert(id, ());
                        J::O(vec![("vtable", n(self.alloc(id))), ("ty", self.ty(p))])
                    }
                    None => s("?"),
                }
            }
            _ => s("?"),
        }
    }

    fn span(&self, sp: &Span) -> J {
        let l = sp.get_lines();
        let f = sp.get_filename();
        s(format!("{}:{}", f, l.start_line))
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => s("c"),
            UnwindAction::Unreachable => s("u"),
            UnwindAction::Terminate => s("t"),
            UnwindAction::Cleanup(b) => n(*b),
        }
    }

    // The constructor of a tuple struct or variant, which has no body of its own
    fn constructor(&mut self, i: &Instance) -> Option<J> {
        let TyKind::RigidTy(RigidTy::FnDef(d, ar)) = i.ty().kind() else { return None };
        let sig = i.ty().kind().fn_sig()?.skip_binder();
        let out = sig.output();
        let TyKind::RigidTy(RigidTy::Adt(adt, oar)) = out.kind() else { return None };
        let name = d.name();
        let v = match adt.kind() {
            AdtKind::Struct if name.rsplit("::").next() == adt.name().rsplit("::").next() => adt.variants_iter().next()?,
            AdtKind::Enum => adt.variants_iter().find(|v| {
                let short = v.name();
                let short = short.rsplit("::").next().unwrap_or("");
                name.rsplit("::").next() == Some(short)
            })?,
            _ => return None,
        };
        let _ = ar;
        if v.fields().len() != sig.inputs().len() {
            return None;
        }
        let mut lt = vec![self.ty(out)];
        let mut ops = vec![];
        for (k, f) in v.fields().iter().enumerate() {
            lt.push(self.ty(f.ty_with_args(&oar)));
            ops.push(a(vec![s("m"), a(vec![n(k + 1)])]));
        }
        let argc = ops.len();
        let rv = a(vec![s("agg"), a(vec![s("adt"), n(v.idx().to_index()), J::Null]), a(ops)]);
        let st = a(vec![s("="), a(vec![n(0)]), rv, s("constructor:0")]);
        Some(J::O(vec![
            ("locals", a(lt)),
            ("argc", n(argc)),
            ("spread", J::Null),
            ("blocks", a(vec![a(vec![a(vec![st]), a(vec![s("ret")])])])),
            ("names", a(vec![])),
            ("span", s("constructor:0")),
        ]))
    }

    fn body(&mut self, b: &Body) -> J {
        let locals = b.locals();
        let lt = a(locals.iter().map(|l| self.ty(l.ty)).collect());
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let pl = self.place(p);
                        let rv = self.rvalue(r, locals);
                        st.push(a(vec![s("="), pl, rv, self.span(&x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(a(vec![s("sd"), self.place(place), n(variant_index.to_index())]))
                    }
                    StatementKind::StorageLive(l) => st.push(a(vec![s("sl"), n(*l)])),
                    StatementKind::StorageDead(l) => st.push(a(vec![s("sx"), n(*l)])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        st.push(a(vec![s("assume"), self.operand(o)]))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => st.push(a(vec![
                        s("cno"),
                        self.operand(&c.src),
                        self.operand(&c.dst),
                        self.operand(&c.count),
                    ])),
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let sp = self.span(&t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target } => a(vec![s("goto"), n(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = a(targets.branches().map(|(v, t)| a(vec![J::U(v), n(t)])).collect());
                    let dt = discr.ty(locals).unwrap();
                    a(vec![s("switch"), self.operand(discr), br, n(targets.otherwise()), self.ty(dt), sp])
                }
                TerminatorKind::Resume => a(vec![s("resume")]),
                TerminatorKind::Abort => a(vec![s("abort")]),
                TerminatorKind::Return => a(vec![s("ret")]),
                TerminatorKind::Unreachable => a(vec![s("unreachable"), sp]),
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(locals).unwrap();
                    a(vec![s("drop"), self.place(place), n(*target), self.ty(t), sp, self.unwind(unwind)])
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let ft = func.ty(locals).unwrap();
                    let callee = match ft.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, ar)) => match Instance::resolve(d, &ar) {
                            Ok(i) => {
                                let idx = self.func(i);
                                a(vec![s("fn"), n(idx)])
                            }
                            Err(e) => a(vec![s("?"), s(format!("{} {e:?}", d.name()))]),
                        },
                        _ => a(vec![s("ptr"), self.operand(func)]),
                    };
                    let at = a(args.iter().map(|x| { let t = x.ty(locals).unwrap(); self.ty(t) }).collect());
                    let ar = a(args.iter().map(|x| self.operand(x)).collect());
                    let dt = destination.ty(locals).unwrap();
                    a(vec![
                        s("call"),
                        callee,
                        ar,
                        self.place(destination),
                        target.map_or(J::Null, |t| n(t)),
                        at,
                        self.ty(dt),
                        sp,
                        self.unwind(unwind),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (m, ops) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("index out of bounds".to_string(), vec![self.operand(len), self.operand(index)])
                        }
                        AssertMessage::MisalignedPointerDereference { .. } => ("misaligned".to_string(), vec![]),
                        AssertMessage::NullPointerDereference => ("nullderef".to_string(), vec![]),
                        AssertMessage::NullReferenceConstructed => ("nullref".to_string(), vec![]),
                        AssertMessage::InvalidEnumConstruction(_) => ("invalidenum".to_string(), vec![]),
                        m => (m.description().unwrap_or("assert").to_string(), vec![]),
                    };
                    a(vec![s("assert"), self.operand(cond), J::B(*expected), s(m), n(*target), sp, a(ops), self.unwind(unwind)])
                }
                TerminatorKind::InlineAsm { .. } => a(vec![s("asm")]),
            };
            blocks.push(a(vec![a(st), tj]));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(a(vec![n(p.local), s(v.name.to_string())]));
                }
            }
        }
        J::O(vec![
            ("locals", lt),
            ("argc", n(b.arg_locals().len())),
            ("spread", b.spread_arg().map_or(J::Null, |l| n(l))),
            ("blocks", a(blocks)),
            ("names", a(names)),
            ("span", self.span(&b.span)),
        ])
    }
}

fn dump(out: &str) -> ControlFlow<()> {
    let mut cx = Cx::default();
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        let name = it.name();
        let short = name.rsplit("::").next().unwrap().to_string();
        if short.starts_with("h_") {
            if let Ok(i) = Instance::try_from(it) {
                let k = cx.func(i);
                roots.push(a(vec![s(short), n(k)]));
            }
        }
    }
    let mut fns: Vec<J> = vec![];
    let mut allocs: Vec<J> = vec![];
    let mut statics: Vec<J> = vec![];
    let (mut fi, mut ai, mut si) = (0, 0, 0);
    let local = rustc_public::local_crate().name;
    loop {
        if fi < cx.fn_list.len() {
            let i = cx.fn_list[fi];
            fi += 1;
            let name = i.name();
            cx.cur = name.clone();
            let kind = match i.kind {
                InstanceKind::Item => s("item"),
                InstanceKind::Intrinsic => s("intrinsic"),
                InstanceKind::LlvmIntrinsic => s("llvm"),
                InstanceKind::Virtual { idx } => a(vec![s("virtual"), n(idx)]),
                InstanceKind::Shim => s("shim"),
            };
            let mut targs = vec![];
            for g in &i.args().0 {
                match g {
                    GenericArgKind::Type(t) => targs.push(cx.ty(*t)),
                    GenericArgKind::Const(c) => {
                        let v = cx.tyconst_val(c);
                        targs.push(v)
                    }
                    GenericArgKind::Lifetime(_) => {}
                }
            }
            let krate = i.def.krate().name;
            let iname = i.intrinsic_name().map_or(J::Null, |x| s(x.to_string()));
            let empty = i.is_empty_shim();
            let body = if matches!(i.kind, InstanceKind::Virtual { .. }) || i.is_foreign_item() {
                None
            } else {
                i.body()
            };
            let bj = match &body {
                Some(b) => cx.body(b),
                None => cx.constructor(&i).unwrap_or(J::Null),
            };
            let path = i.def.name();
            fns.push(J::O(vec![
                ("name", s(name)),
                ("path", s(path)),
                ("mangled", s(i.mangled_name().to_string())),
                ("crate", s(krate)),
                ("kind", kind),
                ("intrinsic", iname),
                ("foreign", J::B(i.is_foreign_item())),
                ("empty", J::B(empty)),
                ("closure", J::B(matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..))))),
                ("args", a(targs)),
                ("body", bj),
            ]));
            continue;
        }
        if ai < cx.alloc_list.len() {
            let id = cx.alloc_list[ai];
            ai += 1;
            let j = match GlobalAlloc::from(id) {
                GlobalAlloc::Function(i) => a(vec![s("fn"), n(cx.func(i))]),
                GlobalAlloc::VTable(t, p) => match GlobalAlloc::VTable(t, p).vtable_allocation() {
                    Some(id2) if id2 != id => a(vec![s("alias"), n(cx.alloc(id2))]),
                    _ => a(vec![s("?")]),
                },
                GlobalAlloc::Static(d) => a(vec![s("static"), n(cx.stat(d))]),
                GlobalAlloc::Memory(m) => {
                    let x = cx.allocation(&m);
                    a(vec![s("mem"), x])
                }
                GlobalAlloc::TypeId { ty } => a(vec![s("typeid"), cx.ty(ty)]),
            };
            allocs.push(j);
            continue;
        }
        if si < cx.static_list.len() {
            let d = cx.static_list[si];
            si += 1;
            let t = d.ty();
            let init = match d.eval_initializer() {
                Ok(al) => cx.allocation(&al),
                Err(_) => J::Null,
            };
            statics.push(J::O(vec![("name", s(d.name())), ("ty", cx.ty(t)), ("init", init)]));
            continue;
        }
        if let Some(t) = cx.ty_q.pop_front() {
            let i = cx.types[&t];
            let j = cx.emit_ty(t);
            cx.ty_out[i] = Some(j);
            continue;
        }
        break;
    }
    let mut o = String::new();
    let types = std::mem::take(&mut cx.ty_out).into_iter().map(|x| x.unwrap()).collect();
    J::O(vec![
        ("crate", s(local)),
        ("roots", a(roots)),
        ("types", a(types)),
        ("fns", a(fns)),
        ("allocs", a(allocs)),
        ("statics", a(statics)),
    ])
    .w(&mut o);
    std::fs::write(out, o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER the first argument is the path of rustc
    if args.get(1).is_some_and(|x| x.ends_with("rustc")) {
        args.remove(1);
    }
    let krate = args.iter().position(|x| x == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let out = std::env::var("VP_OUT").ok();
    if let (Some(k), Some(out)) = (&krate, &out) {
        if k == "harness" {
            let _ = rustc_public::run!(&args, || dump(out));
            return;
        }
    }
    // Any other crate is compiled as usual
    let rustc = std::env::args().nth(1).unwrap();
    use std::os::unix::process::CommandExt;
    let e = std::process::Command::new(rustc).args(&args[1..]).exec();
    panic!("{e}");
}
