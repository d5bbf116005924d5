//! Rules on the types of the public interface: where returned lifetimes come from, who may make a token,
//! and which traits must stay unsafe. Reads the resolved signatures of the crates the harness links.
use crate::job::jstr;
use rustc_hir::def::{DefKind, Res};
use rustc_middle::ty::{self, GenericArgKind, Region, Ty, TyCtxt, TypeSuperVisitable, TypeVisitable, TypeVisitor};
use rustc_span::def_id::DefId;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;

const CRATES: &[&str] = &["vsimd", "base64_simd", "base32_simd", "hex_simd", "uuid_simd", "unicode_simd"];

/// How a region occurs in a type.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Use {
    /// behind a shared reference only
    Shared,
    /// as the lifetime of a unique borrow (&mut, Out<'_, _>)
    Unique,
    /// some other lifetime parameter
    Param,
}

struct Regions<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(Region<'tcx>, Use)>,
    raw: bool,
    text: bool,
}

impl<'tcx> TypeVisitor<TyCtxt<'tcx>> for Regions<'tcx> {
    fn visit_ty(&mut self, t: Ty<'tcx>) {
        match t.kind() {
            ty::Ref(r, _, m) => {
                self.out.push((*r, if m.is_mut() { Use::Unique } else { Use::Shared }));
            }
            ty::RawPtr(..) => self.raw = true,
            ty::Str => self.text = true,
            ty::Adt(d, args) => {
                let n = self.tcx.def_path_str(d.did());
                let uniq = n.ends_with("outref::Out") || n.ends_with("outref::slice::Out") || n.rsplit("::").next() == Some("Out");
                if n == "std::string::String" || n == "alloc::string::String" {
                    self.text = true;
                }
                for a in args.iter() {
                    if let GenericArgKind::Lifetime(r) = a.kind() {
                        self.out.push((r, if uniq { Use::Unique } else { Use::Param }));
                    }
                }
            }
            _ => {}
        }
        t.super_visit_with(self);
    }
}

pub struct Api<'tcx> {
    tcx: TyCtxt<'tcx>,
    pub viols: Vec<(String, String, String)>,
    pub fns: Vec<String>,
    pub tokens: Vec<String>,
    pub pods: Vec<String>,
    pub checks: BTreeMap<&'static str, usize>,
    seen: HashSet<DefId>,
    adts: Vec<DefId>,
    traits: Vec<DefId>,
}

pub fn run(tcx: TyCtxt<'_>, outp: &str) {
    let mut a = Api {
        tcx,
        viols: vec![],
        fns: vec![],
        tokens: vec![],
        pods: vec![],
        checks: BTreeMap::new(),
        seen: HashSet::new(),
        adts: vec![],
        traits: vec![],
    };
    let mut found = vec![];
    for &c in tcx.crates(()).iter() {
        let n = tcx.crate_name(c).to_string();
        if CRATES.contains(&n.as_str()) {
            found.push(n);
            a.module(c.as_def_id());
        }
    }
    a.types();
    let mut s = String::from("{\"id\":\"api\",\"viols\":[");
    a.viols.sort();
    a.viols.dedup();
    for (i, (k, f, d)) in a.viols.iter().enumerate() {
        let _ = write!(s, "{}{{\"kind\":{},\"func\":{},\"detail\":{}}}", if i > 0 { "," } else { "" }, jstr(k), jstr(f), jstr(d));
    }
    let list = |v: &[String]| v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",");
    a.fns.sort();
    let _ = write!(
        s,
        "],\"crates\":[{}],\"fns\":[{}],\"tokens\":[{}],\"pods\":[{}],\"checks\":{{{}}}}}\n",
        list(&found),
        list(&a.fns),
        list(&a.tokens),
        list(&a.pods),
        a.checks.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",")
    );
    std::fs::write(format!("{outp}.0"), s).unwrap();
}

impl<'tcx> Api<'tcx> {
    fn ours(&self, d: DefId) -> bool {
        CRATES.contains(&self.tcx.crate_name(d.krate).as_str())
    }
    fn hit(&mut self, k: &'static str) {
        *self.checks.entry(k).or_insert(0) += 1;
    }
    fn viol(&mut self, k: &str, d: DefId, why: String) {
        let f = self.tcx.def_path_str(d);
        self.viols.push((k.into(), f, why));
    }
    fn module(&mut self, m: DefId) {
        if !self.seen.insert(m) {
            return;
        }
        for c in self.tcx.module_children(m) {
            if !c.vis.is_public() {
                continue;
            }
            let d = match c.res {
                Res::Def(_, d) => d,
                _ => continue,
            };
            if !self.ours(d) {
                continue;
            }
            match self.tcx.def_kind(d) {
                DefKind::Mod => self.module(d),
                DefKind::Fn => self.func(d),
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    if !self.adts.contains(&d) { self.adts.push(d); }
                }
                DefKind::Trait => {
                    if !self.traits.contains(&d) { self.traits.push(d); }
                }
                _ => {}
            }
        }
    }
    fn types(&mut self) {
        for t in self.traits.clone() {
            for &i in self.tcx.associated_item_def_ids(t) {
                if self.tcx.def_kind(i) == DefKind::AssocFn {
                    self.func(i);
                }
            }
        }
        for d in self.adts.clone() {
            for &i in self.tcx.inherent_impls(d) {
                for &f in self.tcx.associated_item_def_ids(i) {
                    if self.tcx.def_kind(f) == DefKind::AssocFn && self.tcx.visibility(f).is_public() {
                        self.func(f);
                    }
                }
            }
        }
        for t in self.traits.clone() {
            let name = self.tcx.item_name(t).to_string();
            let imps: Vec<DefId> = self.tcx.all_impls(t).collect();
            if matches!(name.as_str(), "InstructionSet" | "POD" | "SIMD64" | "SIMD128" | "SIMD256" | "Scalable") {
                self.hit("unsafe trait");
                if self.tcx.trait_def(t).safety.is_safe() {
                    self.viol("SAFE_TRAIT", t, "implementing this trait asserts an invariant the library relies on, so it must be unsafe to implement".into());
                }
            }
            if name == "POD" {
                for i in &imps {
                    let st = self.tcx.impl_trait_ref(*i).instantiate_identity().skip_norm_wip().self_ty();
                    self.hit("pod implementation");
                    let ok = match st.kind() {
                        ty::Int(_) | ty::Uint(_) | ty::Float(_) => true,
                        ty::Adt(d, args) => d.is_struct() && self.plain(st, d.did(), args),
                        _ => false,
                    };
                    self.pods.push(format!("{st}"));
                    if !ok {
                        self.viol("POD_TYPE", *i, format!("{st} is declared plain old data, but not every bit pattern is one of its values"));
                    }
                }
            }
            if name == "InstructionSet" {
                for i in &imps {
                    let st = self.tcx.impl_trait_ref(*i).instantiate_identity().skip_norm_wip().self_ty();
                    if let ty::Adt(d, _) = st.kind() {
                        self.token(d.did());
                    }
                }
            }
            if (name.starts_with("From") || name.starts_with("Append")) && name.ends_with("Decode") {
                for i in &imps {
                    let st = self.tcx.impl_trait_ref(*i).instantiate_identity().skip_norm_wip().self_ty();
                    self.hit("decode target type");
                    let mut r = Regions { tcx: self.tcx, out: vec![], raw: false, text: false };
                    st.visit_with(&mut r);
                    if r.text {
                        self.viol("DECODE_TO_TEXT", *i, format!("decoded bytes may be obtained as {st} through a safe trait"));
                    }
                }
            }
        }
    }
    fn plain(&self, t: Ty<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> bool {
        let _ = (t, args);
        let a = self.tcx.adt_def(d);
        a.is_struct()
            && a.all_fields().all(|f| {
                let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                self.plain_field(ft)
            })
    }
    fn plain_field(&self, ft: Ty<'tcx>) -> bool {
        match ft.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Float(_) => true,
            ty::Array(e, _) => self.plain_field(*e),
            ty::Adt(d, args) => {
                d.repr().simd() || (d.is_struct() && self.plain(ft, d.did(), args))
            }
            _ => false,
        }
    }
    /// An instruction-set token: only unsafe code may make one.
    fn token(&mut self, d: DefId) {
        let tcx = self.tcx;
        let name = tcx.def_path_str(d);
        self.tokens.push(name.clone());
        self.hit("token type");
        let a = tcx.adt_def(d);
        if a.is_enum() || a.all_fields().count() == 0 {
            self.viol("TOKEN_PUBLIC", d, "the token has no private field, so safe code can make one".into());
        }
        for f in a.all_fields() {
            if tcx.visibility(f.did).is_public() {
                self.viol("TOKEN_PUBLIC", d, format!("field {} of the token is public, so safe code can make one", f.name));
            }
        }
        // trait implementations that make a value from nothing
        for &t in tcx.all_traits_including_private().collect::<Vec<_>>().iter() {
            let n = tcx.def_path_str(t);
            if n.ends_with("default::Default") {
                for i in tcx.all_impls(t) {
                    if let ty::Adt(x, _) = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip().self_ty().kind() {
                        if x.did() == d {
                            self.viol("TOKEN_DEFAULT", d, "the token implements Default, so safe code can make one".into());
                        }
                    }
                }
            }
        }
    }
    fn func(&mut self, f: DefId) {
        if !self.seen.insert(f) {
            return;
        }
        let tcx = self.tcx;
        let sig0 = tcx.fn_sig(f).instantiate_identity().skip_norm_wip();
        let sig = tcx.liberate_late_bound_regions(f, sig0);
        let name = tcx.def_path_str(f);
        self.fns.push(name.clone());
        self.hit("public function");
        if !sig.safety().is_safe() {
            return;
        }
        let mut ins = Regions { tcx, out: vec![], raw: false, text: false };
        for t in sig.inputs() {
            t.visit_with(&mut ins);
        }
        let mut outs = Regions { tcx, out: vec![], raw: false, text: false };
        sig.output().visit_with(&mut outs);
        if ins.raw {
            self.hit("raw pointer parameter");
            self.viol("RAW_SAFE", f, "takes a raw pointer although it is not an unsafe function".into());
        }
        // tokens made by safe code
        let out_ty = sig.output();
        let tok = |t: Ty<'tcx>| -> bool {
            let mut found = false;
            for a in t.walk() {
                if let GenericArgKind::Type(x) = a.kind() {
                    if let ty::Adt(d, _) = x.kind() {
                        let is = tcx.all_traits_including_private().any(|tr| {
                            tcx.item_name(tr).as_str() == "InstructionSet"
                                && tcx.all_impls(tr).any(|i| matches!(tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip().self_ty().kind(), ty::Adt(y, _) if y.did() == d.did()))
                        });
                        found |= is;
                    }
                }
            }
            found
        };
        if tok(out_ty) && !sig.inputs().iter().any(|t| tok(*t)) {
            self.hit("function returning a token");
            // an Option of a token stands for a detection; its guard is decided by the analysis of the code
            let is_opt = matches!(out_ty.kind(), ty::Adt(d, _) if tcx.item_name(d.did()).as_str() == "Option");
            if !is_opt {
                self.viol("TOKEN_SAFE", f, format!("safe function makes an instruction-set token ({out_ty})"));
            }
        }
        // trait methods returning Self without taking it
        for (r, u) in &outs.out {
            self.hit("returned lifetime");
            if r.is_static() {
                if *u == Use::Unique {
                    self.viol("STATIC_MUT", f, format!("returns a unique reference with lifetime 'static: {out_ty}"));
                }
                // a 'static result is fine for shared constants only: no borrowed input may flow into it, which the
                // borrow checker has verified unless unsafe code made it up
                let borrows = ins.out.iter().any(|(r, _)| !r.is_static());
                let named = name.rsplit("::").next().unwrap_or("");
                if borrows && named != "charset" && *u != Use::Unique && !matches!(out_ty.kind(), ty::Ref(_, t, _) if t.is_array()) {
                    self.viol("STATIC_OUT", f, format!("returns {out_ty}, which does not borrow from its inputs"));
                }
                continue;
            }
            let same: Vec<Use> = ins.out.iter().filter(|(x, _)| x == r).map(|x| x.1).collect();
            if same.is_empty() {
                self.viol("FREE_LIFETIME", f, format!("the lifetime {r} of the result ({out_ty}) is not tied to any argument: the caller can choose it"));
            } else if *u == Use::Unique && !same.iter().any(|x| *x != Use::Shared) {
                self.viol("UNIQUE_FROM_SHARED", f, format!("returns a unique reference ({out_ty}) whose lifetime {r} comes from a shared borrow only"));
            } else if *u == Use::Unique && same.iter().all(|x| *x == Use::Param) {
                self.viol("UNIQUE_FROM_SHARED", f, format!("returns a unique reference ({out_ty}) whose lifetime {r} does not come from a unique borrow"));
            } else if *u == Use::Unique {
                // the unique borrow the result comes from must be the only unique borrow with another lifetime
                let uniq: BTreeSet<String> = ins.out.iter().filter(|x| x.1 == Use::Unique).map(|x| format!("{}", x.0)).collect();
                if uniq.len() > 1 && !uniq.contains(&format!("{r}")) {
                    self.viol("UNIQUE_FROM_SHARED", f, format!("result lifetime {r} is not the one of a unique argument"));
                }
            }
        }
        // a result that borrows from fewer arguments than it may contain is decided by the compiler
        let last = name.rsplit("::").next().unwrap_or("").to_string();
        if outs.text && last.contains("decode") {
            self.viol("DECODE_TO_TEXT", f, format!("decoded bytes are returned as text ({out_ty})"));
        }
    }
}
