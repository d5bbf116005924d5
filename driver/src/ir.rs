//! Lowering of monomorphic MIR (through rustc_public) to a compact, layout-resolved form.
use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId as RAllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use rustc_public::CrateDefType;
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
pub type FnId = u32;
pub type GId = u32;

#[derive(Clone, Debug, PartialEq)]
pub enum Meta {
    Thin,
    Slice,
    Dyn,
}

#[derive(Clone, Debug)]
pub enum TK {
    Int { signed: bool },
    Bool,
    Char,
    Float,
    Ptr { to: TyId, meta: Meta },
    FnPtr,
    FnDef(Option<FnId>),
    Array { el: TyId, n: u64 },
    Slice { el: TyId },
    Str,
    Dyn,
    Struct { offs: Vec<usize>, tys: Vec<TyId> },
    Union { tys: Vec<TyId> },
    Enum { tag_off: usize, tag_size: usize, enc: Enc, vars: Vec<VarL> },
    Never,
    Other,
}

#[derive(Clone, Debug)]
pub enum Enc {
    Single(usize),
    Direct,
    Niche { untagged: usize, lo: usize, hi: usize, start: u128 },
    Empty,
}

#[derive(Clone, Debug)]
pub struct VarL {
    pub discr: u128,
    pub offs: Vec<usize>,
    pub tys: Vec<TyId>,
}

#[derive(Clone, Debug)]
pub struct TyInfo {
    pub size: usize,
    pub align: usize,
    pub sized: bool,
    pub k: TK,
    pub ty: Ty,
    pub simd: Option<(TyId, usize)>,
    pub name: Rc<str>,
}

#[derive(Clone, Debug)]
pub enum Proj {
    Deref { to: TyId },
    Field { off: usize, ty: TyId },
    Index { local: usize, el: TyId },
    ConstIndex { off: u64, from_end: bool, el: TyId, arr: Option<u64> },
    Subslice { from: u64, to: u64, from_end: bool, el: TyId, arr: Option<u64>, ty: TyId },
    Cast { ty: TyId },
}

#[derive(Clone, Debug)]
pub struct Pl {
    pub local: usize,
    pub proj: Vec<Proj>,
    pub ty: TyId,
}

#[derive(Clone, Debug)]
pub enum CByte {
    U,
    C(u8),
    /// byte i of a pointer to global g at offset
    P(GId, i64, u8),
    Fn(FnId, u8),
}

#[derive(Clone, Debug)]
pub enum Op {
    Copy(Pl),
    Const(Rc<Vec<CByte>>, TyId),
    Check(bool),
}

#[derive(Clone, Debug)]
pub enum Rv {
    Use(Op),
    Repeat(Op, u64),
    Ref(Pl),
    Len(Pl),
    Cast(CastKind, Op, TyId, TyId),
    Glob(GId),
    Bin(BinOp, Op, Op, TyId, TyId),
    Checked(BinOp, Op, Op, TyId),
    Un(UnOp, Op, TyId),
    Discr(Pl),
    Agg { ty: TyId, variant: usize, ops: Vec<Op>, field: Option<usize> },
    RawPtr(Op, Op),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum St {
    Assign(Pl, Rv),
    SetDiscr(Pl, usize),
    Live(usize),
    Dead(usize),
    Assume(Op),
    CopyNonOverlapping { src: Op, dst: Op, count: Op, el: TyId },
    Nop,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(FnId),
    Ptr(Op),
    /// one three-operand assembly instruction
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Tm {
    Goto(usize),
    Switch(Op, TyId, Vec<(u128, usize)>, usize),
    Return,
    Unreachable,
    End,
    Call { f: Callee, args: Vec<Op>, argtys: Vec<TyId>, dest: Pl, target: Option<usize> },
    Assert { cond: Op, expected: bool, msg: String, target: usize, debug_only: bool },
    Drop { pl: Pl, target: usize, f: Option<FnId> },
    Asm,
}

pub struct Blk {
    pub st: Vec<(St, Span)>,
    pub tm: Tm,
    pub span: Span,
    pub cleanup: bool,
}

pub struct LoopInfo {
    pub header: usize,
    pub blocks: Vec<bool>,
    pub parent: Option<usize>,
}

pub struct Body {
    pub blocks: Vec<Blk>,
    pub locals: Vec<TyId>,
    pub names: Vec<Option<String>>,
    pub nargs: usize,
    pub spread: Option<usize>,
    pub rpo: Vec<usize>,
    pub loops: Vec<LoopInfo>,
    pub loop_of_header: Vec<Option<usize>>,
    pub live_in: Vec<Vec<u64>>,
    pub addr_taken: Vec<bool>,
}

pub struct FnInfo {
    pub inst: Instance,
    pub name: String,
    pub krate: String,
    pub body: Option<Option<Rc<Body>>>,
    pub intrinsic: Option<String>,
    pub link_name: Option<String>,
    pub features: Vec<String>,
    pub args: Vec<GArg>,
    pub virt: Option<usize>,
    pub empty_shim: bool,
    pub foreign: bool,
    pub clone_shim: bool,
    pub never: bool,
}

#[derive(Clone, Debug)]
pub enum GArg {
    Ty(TyId),
    Const(Option<Rc<Vec<CByte>>>),
}

pub struct Glob {
    pub bytes: Rc<Vec<CByte>>,
    pub align: usize,
    pub mutable: bool,
    pub name: String,
    /// static with interior mutability or `static mut`
    pub is_static: bool,
    /// `static mut`, or of a type the crate itself declares Sync: nothing orders accesses to it
    pub unsync: bool,
}

pub struct Prog<'tcx> {
    pub tcx: rustc_middle::ty::TyCtxt<'tcx>,
    pub tys: Vec<TyInfo>,
    ty_map: HashMap<Ty, TyId>,
    pub fns: Vec<FnInfo>,
    fn_map: HashMap<Instance, FnId>,
    pub globs: Vec<Glob>,
    glob_map: HashMap<RAllocId, GId>,
    static_map: HashMap<String, GId>,
    pub unsupported: Vec<String>,
}

impl<'tcx> Prog<'tcx> {
    pub fn new(tcx: rustc_middle::ty::TyCtxt<'tcx>) -> Self {
        Prog {
            tcx,
            tys: vec![],
            ty_map: HashMap::new(),
            fns: vec![],
            fn_map: HashMap::new(),
            globs: vec![],
            glob_map: HashMap::new(),
            static_map: HashMap::new(),
            unsupported: vec![],
        }
    }
    pub fn t(&self, id: TyId) -> &TyInfo {
        &self.tys[id as usize]
    }
    pub fn size(&self, id: TyId) -> usize {
        self.tys[id as usize].size
    }

    pub fn ty(&mut self, ty: Ty) -> TyId {
        if let Some(&i) = self.ty_map.get(&ty) {
            return i;
        }
        let id = self.tys.len() as TyId;
        self.ty_map.insert(ty, id);
        self.tys.push(TyInfo {
            size: 0,
            align: 1,
            sized: true,
            k: TK::Other,
            ty,
            simd: None,
            name: "?".into(),
        });
        let kind = ty.kind();
        let shape = ty.layout().ok().map(|l| l.shape());
        let (size, align, sized) = match &shape {
            Some(s) => (s.size.bytes(), s.abi_align as usize, s.is_sized()),
            None => (0, 1, false),
        };
        let mut simd = None;
        let k = match kind.rigid() {
            Some(r) => match r {
                RigidTy::Bool => TK::Bool,
                RigidTy::Char => TK::Char,
                RigidTy::Int(_) => TK::Int { signed: true },
                RigidTy::Uint(_) => TK::Int { signed: false },
                RigidTy::Float(_) => TK::Float,
                RigidTy::Never => TK::Never,
                RigidTy::Str => TK::Str,
                RigidTy::Slice(e) => TK::Slice { el: self.ty(*e) },
                RigidTy::Dynamic(..) => TK::Dyn,
                RigidTy::Array(e, n) => TK::Array { el: self.ty(*e), n: n.eval_target_usize().unwrap_or(0) },
                RigidTy::RawPtr(p, _) | RigidTy::Ref(_, p, _) => {
                    let to = self.ty(*p);
                    let meta = if size == 8 || size == 4 && self.ptr_size() == 4 {
                        Meta::Thin
                    } else {
                        self.tail_meta(to)
                    };
                    TK::Ptr { to, meta }
                }
                RigidTy::FnPtr(_) => TK::FnPtr,
                RigidTy::FnDef(d, a) => TK::FnDef(self.resolve(*d, a)),
                RigidTy::Tuple(ts) => {
                    let tys: Vec<TyId> = ts.iter().map(|t| self.ty(*t)).collect();
                    TK::Struct { offs: Self::offs(&shape), tys }
                }
                RigidTy::Closure(_, args) => {
                    // the upvar tuple is the last generic argument
                    let up = args.0.iter().rev().find_map(|a| a.ty().copied());
                    let tys = match up.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => ts.iter().map(|t| self.ty(*t)).collect(),
                        _ => vec![],
                    };
                    TK::Struct { offs: Self::offs(&shape), tys }
                }
                RigidTy::Pat(b, _) => {
                    let b = self.ty(*b);
                    self.t(b).k.clone()
                }
                RigidTy::Adt(def, args) => {
                    let variants = def.variants();
                    match def.kind() {
                        AdtKind::Union => {
                            let tys = variants[0].fields().iter().map(|f| self.ty(f.ty_with_args(args))).collect();
                            TK::Union { tys }
                        }
                        AdtKind::Struct => {
                            let tys: Vec<TyId> =
                                variants[0].fields().iter().map(|f| self.ty(f.ty_with_args(args))).collect();
                            if def.is_simd() {
                                // struct Simd([T; N])
                                if let Some(&a) = tys.first() {
                                    if let TK::Array { el, n } = self.t(a).k {
                                        simd = Some((el, n as usize));
                                    }
                                }
                            }
                            let mut offs = Self::offs(&shape);
                            if offs.len() != tys.len() {
                                offs = vec![0; tys.len()];
                            }
                            TK::Struct { offs, tys }
                        }
                        AdtKind::Enum => {
                            let mut vars = vec![];
                            for v in &variants {
                                let tys: Vec<TyId> = v.fields().iter().map(|f| self.ty(f.ty_with_args(args))).collect();
                                vars.push(VarL {
                                    discr: def.discriminant_for_variant(v.idx()).val,
                                    offs: vec![0; tys.len()],
                                    tys,
                                });
                            }
                            let mut tag_off = 0;
                            let mut tag_size = 0;
                            let enc = match shape.as_ref().map(|s| &s.variants) {
                                Some(VariantsShape::Single { index }) => {
                                    let i = index.to_index();
                                    if i < vars.len() {
                                        let o = Self::offs(&shape);
                                        if o.len() == vars[i].tys.len() {
                                            vars[i].offs = o;
                                        }
                                    }
                                    Enc::Single(i)
                                }
                                Some(VariantsShape::Multiple { tag, tag_encoding, tag_field, variants: vl }) => {
                                    for (i, v) in vl.iter().enumerate() {
                                        vars[i].offs = v.offsets.iter().map(|o| o.bytes()).collect();
                                    }
                                    let o = Self::offs(&shape);
                                    tag_off = o.get(*tag_field).copied().unwrap_or(0);
                                    tag_size = match tag {
                                        Scalar::Initialized { value, .. } | Scalar::Union { value } => {
                                            value.size(&rustc_public::target::MachineInfo::target()).bytes()
                                        }
                                    };
                                    match tag_encoding {
                                        TagEncoding::Direct => Enc::Direct,
                                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                            Enc::Niche {
                                                untagged: untagged_variant.to_index(),
                                                lo: niche_variants.start().to_index(),
                                                hi: niche_variants.end().to_index(),
                                                start: *niche_start,
                                            }
                                        }
                                    }
                                }
                                _ => Enc::Empty,
                            };
                            TK::Enum { tag_off, tag_size, enc, vars }
                        }
                    }
                }
                _ => TK::Other,
            },
            None => TK::Other,
        };
        let name: Rc<str> = format!("{ty}").into();
        self.tys[id as usize] = TyInfo { size, align, sized, k, ty, simd, name };
        id
    }
    pub fn ptr_size(&self) -> usize {
        rustc_public::target::MachineInfo::target_pointer_width().bytes()
    }
    fn tail_meta(&self, t: TyId) -> Meta {
        match &self.t(t).k {
            TK::Slice { .. } | TK::Str => Meta::Slice,
            TK::Dyn => Meta::Dyn,
            TK::Struct { tys, .. } if !tys.is_empty() => self.tail_meta(*tys.last().unwrap()),
            _ => Meta::Thin,
        }
    }
    fn offs(s: &Option<LayoutShape>) -> Vec<usize> {
        match s.as_ref().map(|s| &s.fields) {
            Some(FieldsShape::Arbitrary { offsets }) => offsets.iter().map(|o| o.bytes()).collect(),
            Some(FieldsShape::Array { stride, count }) => (0..*count as usize).map(|i| i * stride.bytes()).collect(),
            _ => vec![],
        }
    }
    pub fn mk_ty_usize(&mut self) -> TyId {
        self.ty(Ty::usize_ty())
    }

    fn resolve(&mut self, d: FnDef, a: &GenericArgs) -> Option<FnId> {
        match Instance::resolve(d, a) {
            Ok(i) => Some(self.func(i)),
            Err(_) => None,
        }
    }

    pub fn func(&mut self, inst: Instance) -> FnId {
        if let Some(&f) = self.fn_map.get(&inst) {
            return f;
        }
        let id = self.fns.len() as FnId;
        self.fn_map.insert(inst, id);
        let name = inst.name();
        let krate = inst.def.krate().name;
        let mut features = vec![];
        let mut link_name = None;
        let internal = rustc_public::rustc_internal::internal(self.tcx, inst);
        let did = internal.def_id();
        let is_fn = matches!(
            self.tcx.def_kind(did),
            rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn | rustc_hir::def::DefKind::Closure
        );
        if is_fn && matches!(inst.kind, InstanceKind::Item | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) {
            let attrs = self.tcx.codegen_fn_attrs(did);
            features = attrs.target_features.iter().map(|f| f.name.to_string()).collect();
            if let Some(s) = attrs.symbol_name {
                link_name = Some(s.to_string());
            }
        }
        let never = is_fn && matches!(inst.ty().kind().fn_sig().map(|s| s.skip_binder().output().kind()), Some(TyKind::RigidTy(RigidTy::Never)));
        let intrinsic = inst.intrinsic_name();
        let virt = match inst.kind {
            InstanceKind::Virtual { idx } => Some(idx),
            _ => None,
        };
        let empty_shim = inst.is_empty_shim();
        let foreign = matches!(inst.kind, InstanceKind::Item | InstanceKind::LlvmIntrinsic) && inst.is_foreign_item();
        let clone_shim = format!("{:?}", internal.def).starts_with("CloneShim");
        self.fns.push(FnInfo {
            inst,
            name,
            krate,
            body: None,
            intrinsic,
            link_name,
            features,
            args: vec![],
            virt,
            empty_shim,
            foreign,
            clone_shim,
            never,
        });
        let gargs = inst.args();
        let mut v = vec![];
        for a in &gargs.0 {
            match a {
                GenericArgKind::Type(t) => v.push(GArg::Ty(self.ty(*t))),
                GenericArgKind::Const(c) => v.push(GArg::Const(self.tyconst_bytes(c))),
                _ => {}
            }
        }
        self.fns[id as usize].args = v;
        id
    }
    fn tyconst_bytes(&mut self, c: &TyConst) -> Option<Rc<Vec<CByte>>> {
        match c.kind() {
            TyConstKind::Value(_, a) => Some(Rc::new(self.alloc_bytes(a))),
            TyConstKind::ZSTValue(_) => Some(Rc::new(vec![])),
            _ => c
                .eval_target_usize()
                .ok()
                .map(|v| Rc::new(v.to_le_bytes()[..self.ptr_size()].iter().map(|&b| CByte::C(b)).collect())),
        }
    }

    pub fn alloc_bytes(&mut self, a: &Allocation) -> Vec<CByte> {
        let mut out: Vec<CByte> = a
            .bytes
            .iter()
            .map(|b| match b {
                Some(x) => CByte::C(*x),
                None => CByte::U,
            })
            .collect();
        let ps = self.ptr_size();
        for (off, prov) in &a.provenance.ptrs {
            let off = *off;
            let mut addend = 0u64;
            for i in 0..ps {
                if let Some(x) = a.bytes[off + i] {
                    addend |= (x as u64) << (8 * i);
                }
            }
            match self.glob(prov.0) {
                GRef::G(g) => {
                    for i in 0..ps {
                        out[off + i] = CByte::P(g, addend as i64, i as u8);
                    }
                }
                GRef::F(f) => {
                    for i in 0..ps {
                        out[off + i] = CByte::Fn(f, i as u8);
                    }
                }
            }
        }
        out
    }

    fn unsync(&self, s: &rustc_public::mir::mono::StaticDef) -> bool {
        use rustc_public::CrateDef;
        let did = rustc_public::rustc_internal::internal(self.tcx, s.def_id());
        if self.tcx.is_thread_local_static(did) {
            return false;
        }
        if self.tcx.is_mutable_static(did) {
            return true;
        }
        // a type of the crate that wraps a bare cell
        let ty = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
        match ty.kind() {
            rustc_middle::ty::TyKind::Adt(d, _) => {
                let k = self.tcx.crate_name(d.did().krate);
                !matches!(k.as_str(), "core" | "std" | "alloc")
            }
            _ => false,
        }
    }
    /// The static a thread-local reference names (one thread's copy).
    pub fn thread_local(&mut self, c: rustc_public::CrateItem) -> Option<GId> {
        let s = rustc_public::mir::mono::StaticDef::try_from(c).ok()?;
        let n = format!("thread_local {}", { use rustc_public::CrateDef; s.name() });
        if let Some(&g) = self.static_map.get(&n) {
            return Some(g);
        }
        let a = s.eval_initializer().ok()?;
        let g = self.globs.len() as GId;
        self.static_map.insert(n.clone(), g);
        self.globs.push(Glob { bytes: Rc::new(vec![]), align: a.align as usize, mutable: true, name: n, is_static: true, unsync: false });
        let b = self.alloc_bytes(&a);
        self.globs[g as usize].bytes = Rc::new(b);
        Some(g)
    }
    pub fn glob(&mut self, id: RAllocId) -> GRef {
        if let Some(&g) = self.glob_map.get(&id) {
            return GRef::G(g);
        }
        let mut unsync = false;
        let (alloc, name, is_static) = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => return GRef::F(self.func(i)),
            ga @ GlobalAlloc::VTable(..) => {
                if let Some(v) = ga.vtable_allocation() {
                    let r = self.glob(v);
                    if let GRef::G(g) = r {
                        self.glob_map.insert(id, g);
                    }
                    return r;
                }
                (None, "vtable".to_string(), false)
            }
            GlobalAlloc::Static(s) => {
                unsync = self.unsync(&s);
                let n = s.name();
                if let Some(&g) = self.static_map.get(&n) {
                    self.glob_map.insert(id, g);
                    return GRef::G(g);
                }
                (s.eval_initializer().ok(), n, true)
            }
            GlobalAlloc::Memory(a) => (Some(a), "const".to_string(), false),
            GlobalAlloc::TypeId { .. } => (None, "typeid".to_string(), false),
        };
        let g = self.globs.len() as GId;
        self.glob_map.insert(id, g);
        if is_static {
            self.static_map.insert(name.clone(), g);
        }
        let mutable = alloc.as_ref().map_or(false, |a| a.mutability == Mutability::Mut);
        let align = alloc.as_ref().map_or(1, |a| a.align as usize);
        self.globs.push(Glob { bytes: Rc::new(vec![]), align, mutable, name, is_static, unsync });
        if let Some(a) = alloc {
            let b = self.alloc_bytes(&a);
            self.globs[g as usize].bytes = Rc::new(b);
        }
        GRef::G(g)
    }

    /// The table of methods of a concrete type behind a trait object.
    pub fn vtable(&mut self, concrete: TyId, dynamic: TyId) -> Option<GId> {
        if matches!(self.t(concrete).k, TK::Dyn) {
            return None;
        }
        let tr = match self.t(dynamic).ty.kind() {
            TyKind::RigidTy(RigidTy::Dynamic(preds, ..)) => preds.into_iter().find_map(|p| {
                let vars = p.bound_vars.clone();
                match p.value {
                    rustc_public::ty::ExistentialPredicate::Trait(t) => Some(rustc_public::ty::Binder { value: t, bound_vars: vars }),
                    _ => None,
                }
            }),
            _ => return None,
        };
        let v = GlobalAlloc::VTable(self.t(concrete).ty, tr).vtable_allocation()?;
        match self.glob(v) {
            GRef::G(g) => Some(g),
            _ => None,
        }
    }

    // ---- bodies ----
    pub fn body(&mut self, f: FnId) -> Option<Rc<Body>> {
        if let Some(b) = &self.fns[f as usize].body {
            return b.clone();
        }
        let inst = self.fns[f as usize].inst;
        let b = match inst.kind {
            InstanceKind::Item | InstanceKind::Shim | InstanceKind::Intrinsic => {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inst.body())).unwrap_or(None)
            }
            _ => None,
        };
        let r = b.map(|b| Rc::new(self.lower(&b)));
        self.fns[f as usize].body = Some(r.clone());
        r
    }

    fn place(&mut self, locals: &[TyId], p: &Place) -> Pl {
        let mut ty = locals[p.local];
        let mut variant: Option<usize> = None;
        let mut proj = vec![];
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let to = match &self.t(ty).k {
                        TK::Ptr { to, .. } => *to,
                        TK::Struct { .. } => {
                            // Box<T>: deref of the inner pointer at offset 0
                            let rty = self.t(ty).ty;
                            match rty.kind().builtin_deref(true) {
                                Some(tm) => self.ty(tm.ty),
                                None => self.ty(Ty::new_tuple(&[])),
                            }
                        }
                        _ => self.ty(Ty::new_tuple(&[])),
                    };
                    proj.push(Proj::Deref { to });
                    ty = to;
                    variant = None;
                }
                ProjectionElem::Field(i, fty) => {
                    let fty = self.ty(*fty);
                    let off = match &self.t(ty).k {
                        TK::Struct { offs, .. } => offs.get(*i).copied().unwrap_or(0),
                        TK::Union { .. } => 0,
                        TK::Enum { vars, .. } => {
                            vars[variant.unwrap_or(0)].offs.get(*i).copied().unwrap_or(0)
                        }
                        _ => 0,
                    };
                    proj.push(Proj::Field { off, ty: fty });
                    ty = fty;
                    variant = None;
                }
                ProjectionElem::Index(l) => {
                    let el = self.elem(ty);
                    proj.push(Proj::Index { local: *l, el });
                    ty = el;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let el = self.elem(ty);
                    let arr = self.arrlen(ty);
                    proj.push(Proj::ConstIndex { off: *offset, from_end: *from_end, el, arr });
                    ty = el;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let el = self.elem(ty);
                    let arr = self.arrlen(ty);
                    let nty = e.ty(self.t(ty).ty).map(|t| self.ty(t)).unwrap_or(ty);
                    proj.push(Proj::Subslice { from: *from, to: *to, from_end: *from_end, el, arr, ty: nty });
                    ty = nty;
                }
                ProjectionElem::Downcast(v) => variant = Some(v.to_index()),
                ProjectionElem::OpaqueCast(t) => {
                    ty = self.ty(*t);
                    proj.push(Proj::Cast { ty });
                }
            }
        }
        Pl { local: p.local, proj, ty }
    }
    fn elem(&self, t: TyId) -> TyId {
        match self.t(t).k {
            TK::Array { el, .. } | TK::Slice { el } => el,
            _ => t,
        }
    }
    fn arrlen(&self, t: TyId) -> Option<u64> {
        match self.t(t).k {
            TK::Array { n, .. } => Some(n),
            _ => None,
        }
    }
    fn constant(&mut self, c: &MirConst) -> Op {
        let ty = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let mut b = self.alloc_bytes(a);
                b.truncate(self.size(ty).max(b.len().min(self.size(ty))));
                Op::Const(Rc::new(b), ty)
            }
            ConstantKind::ZeroSized => Op::Const(Rc::new(vec![]), ty),
            ConstantKind::Ty(t) => match self.tyconst_bytes(t) {
                Some(b) => Op::Const(b, ty),
                None => Op::Const(Rc::new(vec![CByte::U; self.size(ty)]), ty),
            },
            _ => {
                self.unsupported.push(format!("const {c:?}"));
                Op::Const(Rc::new(vec![CByte::U; self.size(ty)]), ty)
            }
        }
    }
    fn op(&mut self, locals: &[TyId], o: &Operand) -> Op {
        match o {
            Operand::Copy(p) | Operand::Move(p) => Op::Copy(self.place(locals, p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => Op::Check(matches!(r, RuntimeChecks::OverflowChecks)),
        }
    }
    /// `mnemonic {d}, {a}, {b}` with one output becomes a call of that instruction.
    fn asm(&mut self, locals: &[TyId], template: &str, ops: &[InlineAsmOperand], dest: Option<usize>) -> Option<Tm> {
        let mut text = String::new();
        let mut idx = vec![];
        let mut rest = template;
        loop {
            let a = rest.find("String(\"");
            let b = rest.find("operand_idx: ");
            match (a, b) {
                (Some(x), y) if y.map_or(true, |y| x < y) => {
                    rest = &rest[x + 8..];
                    let e = rest.find('"')?;
                    text.push_str(&rest[..e]);
                    rest = &rest[e..];
                }
                (_, Some(y)) => {
                    rest = &rest[y + 13..];
                    let e = rest.find(|c: char| !c.is_ascii_digit())?;
                    idx.push(rest[..e].parse::<usize>().ok()?);
                    text.push('#');
                }
                _ => break,
            }
        }
        let t: String = text.split_whitespace().collect::<Vec<_>>().join(" ");
        let (mn, args) = t.split_once(' ')?;
        if args.replace(' ', "") != "#,#,#" || idx.len() != 3 {
            return None;
        }
        let out = ops.get(idx[0])?.out_place.as_ref()?;
        if ops.iter().enumerate().any(|(i, o)| i != idx[0] && o.out_place.is_some()) {
            return None;
        }
        let mut a = vec![];
        for &i in &idx[1..] {
            a.push(self.op(locals, ops.get(i)?.in_value.as_ref()?));
        }
        let argtys = a.iter().map(|x| self.op_ty(x)).collect();
        Some(Tm::Call { f: Callee::Asm(mn.to_string()), args: a, argtys, dest: self.place(locals, out), target: dest })
    }
    pub fn op_ty(&mut self, o: &Op) -> TyId {
        match o {
            Op::Copy(p) => p.ty,
            Op::Const(_, t) => *t,
            Op::Check(_) => self.ty(Ty::bool_ty()),
        }
    }
    fn rv(&mut self, locals: &[TyId], r: &Rvalue) -> Rv {
        match r {
            Rvalue::Use(o, _) => Rv::Use(self.op(locals, o)),
            Rvalue::CopyForDeref(p) => Rv::Use(Op::Copy(self.place(locals, p))),
            Rvalue::Reborrow(_, _, p) => Rv::Use(Op::Copy(self.place(locals, p))),
            Rvalue::Repeat(o, n) => Rv::Repeat(self.op(locals, o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => Rv::Ref(self.place(locals, p)),
            Rvalue::Len(p) => Rv::Len(self.place(locals, p)),
            Rvalue::Cast(k, o, t) => {
                let o = self.op(locals, o);
                let from = self.op_ty(&o);
                let to = self.ty(*t);
                Rv::Cast(*k, o, from, to)
            }
            Rvalue::BinaryOp(b, x, y) => {
                let x = self.op(locals, x);
                let y = self.op(locals, y);
                let (tx, ty) = (self.op_ty(&x), self.op_ty(&y));
                Rv::Bin(*b, x, y, tx, ty)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let x = self.op(locals, x);
                let y = self.op(locals, y);
                let tx = self.op_ty(&x);
                Rv::Checked(*b, x, y, tx)
            }
            Rvalue::UnaryOp(u, x) => {
                let x = self.op(locals, x);
                let t = self.op_ty(&x);
                Rv::Un(*u, x, t)
            }
            Rvalue::Discriminant(p) => Rv::Discr(self.place(locals, p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<Op> = ops.iter().map(|o| self.op(locals, o)).collect();
                if let AggregateKind::RawPtr(..) = k {
                    return Rv::RawPtr(o[0].clone(), o[1].clone());
                }
                let mut variant = 0;
                let mut field = None;
                let ty = match k {
                    AggregateKind::Adt(d, v, a, _, f) => {
                        variant = v.to_index();
                        field = *f;
                        d.ty_with_args(a)
                    }
                    AggregateKind::Array(t) => match Ty::try_new_array(*t, ops.len() as u64) {
                        Ok(t) => t,
                        Err(_) => return Rv::Unsupported("array".into()),
                    },
                    AggregateKind::Tuple => {
                        let ts: Vec<Ty> = o.iter().map(|x| { let t = self.op_ty(x); self.t(t).ty }).collect();
                        Ty::new_tuple(&ts)
                    }
                    AggregateKind::Closure(d, a) => Ty::new_closure(*d, a.clone()),
                    _ => return Rv::Unsupported("aggregate".into()),
                };
                let ty = self.ty(ty);
                Rv::Agg { ty, variant, ops: o, field }
            }
            Rvalue::ThreadLocalRef(c) => match self.thread_local(*c) {
                Some(g) => Rv::Glob(g),
                None => Rv::Unsupported("thread-local static".into()),
            },
            other => Rv::Unsupported(format!("{other:?}")),
        }
    }

    fn lower(&mut self, b: &rustc_public::mir::Body) -> Body {
        let locals: Vec<TyId> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![None; locals.len()];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names[l] = Some(v.name.clone());
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let x = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let rv = self.rv(&locals, r);
                        St::Assign(self.place(&locals, p), rv)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        St::SetDiscr(self.place(&locals, place), variant_index.to_index())
                    }
                    StatementKind::StorageLive(l) => St::Live(*l),
                    StatementKind::StorageDead(l) => St::Dead(*l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => St::Assume(self.op(&locals, o)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let src = self.op(&locals, &c.src);
                        let t = self.op_ty(&src);
                        let el = match self.t(t).k {
                            TK::Ptr { to, .. } => to,
                            _ => t,
                        };
                        St::CopyNonOverlapping {
                            src,
                            dst: self.op(&locals, &c.dst),
                            count: self.op(&locals, &c.count),
                            el,
                        }
                    }
                    _ => continue,
                };
                st.push((x, s.source_info.span));
            }
            let tm = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => Tm::Goto(*target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(&locals, discr);
                    let t = self.op_ty(&d);
                    Tm::Switch(d, t, targets.branches().collect(), targets.otherwise())
                }
                TerminatorKind::Return => Tm::Return,
                TerminatorKind::Unreachable => Tm::Unreachable,
                TerminatorKind::Resume | TerminatorKind::Abort => Tm::End,
                TerminatorKind::Drop { place, target, .. } => {
                    let pl = self.place(&locals, place);
                    let inst = Instance::resolve_drop_in_place(self.t(pl.ty).ty);
                    let f = if inst.is_empty_shim() { None } else { Some(self.func(inst)) };
                    Tm::Drop { pl, target: *target, f }
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fo = self.op(&locals, func);
                    let fty = self.op_ty(&fo);
                    let f = match &self.t(fty).k {
                        TK::FnDef(Some(f)) => Callee::Fn(*f),
                        _ => Callee::Ptr(fo),
                    };
                    let a: Vec<Op> = args.iter().map(|x| self.op(&locals, x)).collect();
                    let argtys = a.iter().map(|x| self.op_ty(x)).collect();
                    Tm::Call { f, args: a, argtys, dest: self.place(&locals, destination), target: *target }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (m, debug_only) = match msg {
                        AssertMessage::BoundsCheck { .. } => ("index out of bounds".to_string(), false),
                        AssertMessage::MisalignedPointerDereference { .. }
                        | AssertMessage::NullPointerDereference
                        | AssertMessage::NullReferenceConstructed
                        | AssertMessage::InvalidEnumConstruction(_) => ("ub check".to_string(), true),
                        m => (m.description().unwrap_or("assertion").to_string(), false),
                    };
                    Tm::Assert {
                        cond: self.op(&locals, cond),
                        expected: *expected,
                        msg: m,
                        target: *target,
                        debug_only,
                    }
                }
                TerminatorKind::InlineAsm { template, operands, destination, .. } => {
                    self.asm(&locals, template, operands, *destination).unwrap_or(Tm::Asm)
                }
            };
            blocks.push(Blk { st, tm, span: bb.terminator.source_info.span, cleanup: false });
        }
        let mut body = Body {
            blocks,
            names,
            nargs: b.arg_locals().len(),
            spread: b.spread_arg(),
            rpo: vec![],
            loops: vec![],
            loop_of_header: vec![],
            live_in: vec![],
            addr_taken: vec![false; locals.len()],
            locals,
        };
        analyse_cfg(&mut body);
        liveness(&mut body);
        body
    }
}

pub enum GRef {
    G(GId),
    F(FnId),
}

pub fn succs(t: &Tm) -> Vec<usize> {
    match t {
        Tm::Goto(b) => vec![*b],
        Tm::Switch(_, _, v, o) => v.iter().map(|x| x.1).chain(Some(*o)).collect(),
        Tm::Call { target, .. } => target.iter().copied().collect(),
        Tm::Assert { target, .. } | Tm::Drop { target, .. } => vec![*target],
        _ => vec![],
    }
}

fn analyse_cfg(b: &mut Body) {
    let n = b.blocks.len();
    // post-order
    let mut seen = vec![false; n];
    let mut post = vec![];
    let mut st: Vec<(usize, Vec<usize>)> = vec![(0, succs(&b.blocks[0].tm))];
    seen[0] = true;
    while let Some((x, s)) = st.last_mut() {
        if let Some(y) = s.pop() {
            if !seen[y] {
                seen[y] = true;
                let ss = succs(&b.blocks[y].tm);
                st.push((y, ss));
            }
        } else {
            post.push(*x);
            st.pop();
        }
    }
    let mut rpo = vec![usize::MAX; n];
    let order: Vec<usize> = post.iter().rev().copied().collect();
    for (i, &x) in order.iter().enumerate() {
        rpo[x] = i;
    }
    // dominators (simple iterative)
    let mut preds = vec![vec![]; n];
    for &x in &order {
        for y in succs(&b.blocks[x].tm) {
            preds[y].push(x);
        }
    }
    let mut idom = vec![usize::MAX; n];
    idom[0] = 0;
    let mut ch = true;
    while ch {
        ch = false;
        for &x in order.iter().skip(1) {
            let mut new = usize::MAX;
            for &p in &preds[x] {
                if idom[p] == usize::MAX {
                    continue;
                }
                new = if new == usize::MAX {
                    p
                } else {
                    let (mut a, mut c) = (p, new);
                    while a != c {
                        while rpo[a] > rpo[c] {
                            a = idom[a];
                        }
                        while rpo[c] > rpo[a] {
                            c = idom[c];
                        }
                    }
                    a
                };
            }
            if new != idom[x] {
                idom[x] = new;
                ch = true;
            }
        }
    }
    let dom = |a: usize, mut x: usize| -> bool {
        loop {
            if x == a {
                return true;
            }
            if x == 0 || idom[x] == usize::MAX {
                return false;
            }
            x = idom[x];
        }
    };
    let mut loop_of_header = vec![None; n];
    let mut loops: Vec<LoopInfo> = vec![];
    for &h in &order {
        let backs: Vec<usize> = preds[h].iter().copied().filter(|&p| dom(h, p)).collect();
        if backs.is_empty() {
            continue;
        }
        let mut blocks = vec![false; n];
        blocks[h] = true;
        let mut w = backs;
        while let Some(x) = w.pop() {
            if blocks[x] {
                continue;
            }
            blocks[x] = true;
            w.extend(preds[x].iter().copied());
        }
        loop_of_header[h] = Some(loops.len());
        loops.push(LoopInfo { header: h, blocks, parent: None });
    }
    for i in 0..loops.len() {
        let h = loops[i].header;
        let mut best: Option<usize> = None;
        for j in 0..loops.len() {
            if j != i && loops[j].blocks[h] {
                let sz = |k: usize| loops[k].blocks.iter().filter(|x| **x).count();
                if best.map_or(true, |k| sz(j) < sz(k)) {
                    best = Some(j);
                }
            }
        }
        loops[i].parent = best;
    }
    b.rpo = rpo;
    b.loops = loops;
    b.loop_of_header = loop_of_header;
}

fn set(v: &mut [u64], i: usize) {
    v[i / 64] |= 1 << (i % 64);
}
fn clr(v: &mut [u64], i: usize) {
    v[i / 64] &= !(1 << (i % 64));
}
pub fn has(v: &[u64], i: usize) -> bool {
    v[i / 64] >> (i % 64) & 1 == 1
}

fn pl_use(p: &Pl, l: &mut [u64]) {
    set(l, p.local);
    pl_idx(p, l);
}
fn pl_idx(p: &Pl, l: &mut [u64]) {
    for e in &p.proj {
        if let Proj::Index { local, .. } = e {
            set(l, *local);
        }
    }
}
fn op_use(o: &Op, l: &mut [u64]) {
    if let Op::Copy(p) = o {
        pl_use(p, l);
    }
}
fn pl_def(p: &Pl, l: &mut [u64]) {
    if p.proj.is_empty() {
        clr(l, p.local);
    } else {
        if p.proj.iter().any(|e| matches!(e, Proj::Deref { .. })) {
            set(l, p.local);
        }
        pl_idx(p, l);
    }
}
fn rv_use(r: &Rv, l: &mut [u64]) {
    match r {
        Rv::Use(o) | Rv::Repeat(o, _) | Rv::Cast(_, o, _, _) | Rv::Un(_, o, _) => op_use(o, l),
        Rv::Ref(p) | Rv::Len(p) | Rv::Discr(p) => pl_use(p, l),
        Rv::Bin(_, a, b, _, _) | Rv::Checked(_, a, b, _) | Rv::RawPtr(a, b) => {
            op_use(a, l);
            op_use(b, l);
        }
        Rv::Agg { ops, .. } => ops.iter().for_each(|o| op_use(o, l)),
        Rv::Unsupported(_) | Rv::Glob(_) => {}
    }
}

fn liveness(b: &mut Body) {
    let n = b.blocks.len();
    let w = b.locals.len().div_ceil(64);
    for blk in &b.blocks {
        for (s, _) in &blk.st {
            if let St::Assign(_, Rv::Ref(p)) = s {
                if !p.proj.iter().any(|e| matches!(e, Proj::Deref { .. })) {
                    b.addr_taken[p.local] = true;
                }
            }
        }
        if let Tm::Drop { pl, .. } = &blk.tm {
            b.addr_taken[pl.local] = true;
        }
    }
    let mut live = vec![vec![0u64; w]; n];
    let mut ch = true;
    while ch {
        ch = false;
        for x in (0..n).rev() {
            if b.rpo[x] == usize::MAX {
                continue;
            }
            let mut l = vec![0u64; w];
            for y in succs(&b.blocks[x].tm) {
                for i in 0..w {
                    l[i] |= live[y][i];
                }
            }
            match &b.blocks[x].tm {
                Tm::Return => set(&mut l, 0),
                Tm::Switch(o, ..) => op_use(o, &mut l),
                Tm::Assert { cond, .. } => op_use(cond, &mut l),
                Tm::Drop { pl, .. } => pl_use(pl, &mut l),
                Tm::Call { f, args, dest, .. } => {
                    pl_def(dest, &mut l);
                    if let Callee::Ptr(o) = f {
                        op_use(o, &mut l);
                    }
                    args.iter().for_each(|o| op_use(o, &mut l));
                }
                _ => {}
            }
            for (s, _) in b.blocks[x].st.iter().rev() {
                match s {
                    St::Assign(p, r) => {
                        pl_def(p, &mut l);
                        rv_use(r, &mut l);
                    }
                    St::SetDiscr(p, _) => pl_def(p, &mut l),
                    St::Live(i) | St::Dead(i) => clr(&mut l, *i),
                    St::Assume(o) => op_use(o, &mut l),
                    St::CopyNonOverlapping { src, dst, count, .. } => {
                        op_use(src, &mut l);
                        op_use(dst, &mut l);
                        op_use(count, &mut l);
                    }
                    St::Nop => {}
                }
            }
            if l != live[x] {
                live[x] = l;
                ch = true;
            }
        }
    }
    b.live_in = live;
}
