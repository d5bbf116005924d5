//! Abstract interpreter over lowered MIR: values, places, statements, blocks, joins, calls.
use crate::bdd::*;
use crate::ir::*;
use crate::sym::*;
use crate::val::*;
use rustc_public::mir::{BinOp, CastKind, PointerCoercion, UnOp};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: &'static str,
    pub func: String,
    pub loc: String,
    pub detail: String,
    pub pc: B,
    pub env: Rc<Env>,
    pub stack: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum VarKey {
    /// bit of byte of input buffer at affine offset
    Byte(u32, Aff, u8),
    /// loop reduction variable
    Red(u32),
    /// other unknown
    Free(u32),
}

pub struct OpenCtx {
    pub k: Sym,
    pub reads: Vec<(Aid, Aff, i128, Rc<Env>)>,
}

pub struct Interp<'tcx> {
    pub p: Prog<'tcx>,
    pub bdd: Bdd,
    pub vars: Vec<VarKey>,
    pub varmap: HashMap<(u32, Aff), u32>,
    pub next_sym: Sym,
    pub feats: BTreeSet<String>,
    pub events: Vec<Event>,
    pub steps: u64,
    pub max_steps: u64,
    pub opens: Vec<OpenCtx>,
    pub active: Vec<Sym>,
    pub exit_syms: BTreeSet<Sym>,
    pub cstack: Vec<FnId>,
    pub fns_seen: BTreeSet<String>,
    pub obligations: u64,
    pub accel: u64,
    pub facts_made: u64,
    pub depth: usize,
    pub trace: bool,
    pub hull: BTreeMap<FnId, u64>,
    pub no_accel: bool,
    pub gid_seen: BTreeSet<GId>,
    pub why: Vec<String>,
    pub deadline: Option<std::time::Instant>,
    pub panic_ok: bool,
    pub par_threads: Option<Aff>,
    pub par_hook: bool,
    pub detected: BTreeSet<String>,
    pub allocs: u64,
    /// functions analysed in place of others
    pub subst: HashMap<String, FnId>,
    /// maxima kept symbolic: first variable, width, the values they are the maximum of
    pub maxes: Vec<(u32, usize, Vec<Bits>)>,
    pub max_abs: bool,
    /// rounds of one loop that are followed
    pub bound: usize,
    /// per call in progress, the state to split if its terminator is interrupted
    saved: Vec<Option<State>>,
    /// comparisons of lengths with larger numbers: (function, number) -> the largest value compared
    pub limits: Option<BTreeMap<(FnId, char, i128), i128>>,
    /// Only the first, the middle and the last source bytes and those around powers of two and one more offset vary: (source length in
    /// bytes, element size, that offset).
    pub sparse: Option<(i128, i128, i128)>,
    /// assumed addresses of the buffers modulo 4096
    pub residue: Option<(i128, i128)>,
    /// inside an atomic operation
    pub atomic_now: bool,
    /// statics on which an atomic read-modify-write was done (taken for locks)
    pub locked: BTreeSet<Aid>,
    /// values stored to statics by atomic operations, with the condition of the store
    pub stores: BTreeMap<(Aid, i128, usize), Vec<(Vec<BV>, B)>>,
    pub collect_stores: bool,
    /// other threads may do those stores at any time
    pub interfere: bool,
    choice: HashMap<(Vec<FnId>, Aid, i128, usize), u32>,
    pub loads: BTreeSet<String>,
}

pub struct Fr<'a> {
    pub f: FnId,
    pub body: &'a Body,
    pub base: usize,
}

pub const NULLA: Aid = 0x3fff_ffff;

type Succ = Vec<(usize, State)>;

impl<'tcx> Interp<'tcx> {
    pub fn new(p: Prog<'tcx>) -> Self {
        Interp {
            p,
            bdd: Bdd::new(),
            vars: vec![],
            varmap: HashMap::new(),
            next_sym: 1000,
            feats: BTreeSet::new(),
            events: vec![],
            steps: 0,
            max_steps: 40_000_000,
            opens: vec![],
            active: vec![],
            exit_syms: BTreeSet::new(),
            cstack: vec![],
            fns_seen: BTreeSet::new(),
            obligations: 0,
            accel: 0,
            facts_made: 0,
            depth: 0,
            trace: std::env::var("SL_TRACE").is_ok(),
            hull: BTreeMap::new(),
            no_accel: false,
            gid_seen: BTreeSet::new(),
            why: vec![],
            deadline: None,
            panic_ok: false,
            par_threads: None,
            par_hook: false,
            detected: BTreeSet::new(),
            allocs: 0,
            subst: HashMap::new(),
            maxes: vec![],
            max_abs: true,
            limits: None,
            sparse: None,
            saved: vec![],
            bound: 20_000,
            residue: None,
            atomic_now: false,
            locked: BTreeSet::new(),
            stores: BTreeMap::new(),
            collect_stores: false,
            interfere: false,
            choice: HashMap::new(),
            loads: BTreeSet::new(),
        }
    }
    /// Remembers the numbers a small length is compared with: lengths beyond them take other paths.
    fn note_limit(&mut self, f: FnId, op: BinOp, a: &IV, b: &IV) {
        use BinOp::*;
        let m = match self.limits.as_mut() {
            Some(m) => m,
            None => return,
        };
        let (x, y) = match (a, b) {
            (IV::K(x), IV::K(y)) => match (x.as_const(), y.as_const()) {
                (Some(x), Some(y)) => (x, y),
                _ => return,
            },
            _ => return,
        };
        let mut add = |k: char, c: i128, v: i128| {
            if c > 64 && c <= 1 << 21 && v < c {
                let e = m.entry((f, k, c)).or_insert(v);
                *e = (*e).max(v);
            }
        };
        match op {
            Eq | Ne | Lt | Le | Gt | Ge | Cmp => {
                add('c', x, y);
                add('c', y, x);
            }
            Rem | Div => add('m', y, x),
            BitAnd => {
                for (c, v) in [(x, y), (y, x)] {
                    if c > 0 && c < 1 << 21 {
                        add('m', c & -c, v);
                        add('m', c + 1, v);
                    }
                    if c > 1 << 30 {
                        add('m', c & -c, v);
                    }
                }
            }
            Shr | ShrUnchecked if y < 21 => add('m', 1 << y, x),
            _ => {}
        }
    }

    /// Forget everything that belongs to one analysis job.
    pub fn reset(&mut self) {
        self.bdd = Bdd::new();
        self.vars.clear();
        self.varmap.clear();
        self.maxes.clear();
        self.events.clear();
        self.opens.clear();
        self.active.clear();
        self.exit_syms.clear();
        self.cstack.clear();
        self.steps = 0;
        self.depth = 0;
        self.next_sym = 1000;
        self.hull.clear();
        self.why.clear();
        self.atomic_now = false;
        self.locked.clear();
        self.stores.clear();
        self.collect_stores = false;
        self.interfere = false;
        self.choice.clear();
        self.loads.clear();
        self.saved.clear();
    }

    pub fn new_var(&mut self, k: VarKey) -> u32 {
        self.vars.push(k);
        (self.vars.len() - 1) as u32
    }
    pub fn fresh_sym(&mut self) -> Sym {
        self.next_sym += 1;
        self.next_sym
    }
    /// The abstract byte of input buffer `buf` at `off`.
    pub fn input_byte(&mut self, buf: u32, off: &Aff) -> BV {
        if let (0, Some((n, e, x)), Some(o)) = (buf, self.sparse, off.as_const()) {
            let near = |c: i128, w: i128| c - w <= o && o < c + w;
            if !(near(0, 4) || near(n, 8 * e) || near(n / 2 / e * e, 2 * e) || near(x, 8 * e) || (6..40).any(|k| 1 << k < n && near(1 << k, 2 * e))) {
                let i = o / e;
                let c = b"ABCDEF234567"[((i ^ i >> 4 ^ i >> 9) * 7 % 12) as usize];
                return BV::C(if o % e == 0 { c } else { 0 });
            }
        }
        let b = self.input_var(buf, off);
        let mut a = [F; 8];
        for i in 0..8 {
            a[i] = self.bdd.var(b + i as u32);
        }
        BV::S(Rc::new(a))
    }
    pub fn input_var(&mut self, buf: u32, off: &Aff) -> u32 {
        if let Some(&b) = self.varmap.get(&(buf, off.clone())) {
            return b;
        }
        let b = self.vars.len() as u32;
        for i in 0..8 {
            self.vars.push(VarKey::Byte(buf, off.clone(), i));
        }
        self.varmap.insert((buf, off.clone()), b);
        b
    }

    // ------------------------------------------------------------------ decisions
    pub fn ge0(&mut self, st: &State, e: &Aff) -> R<bool> {
        match st.env.nonneg(e) {
            Tri::Yes => Ok(true),
            Tri::No => Ok(false),
            Tri::Unk => Err(Intr::Cond(e.clone())),
        }
    }
    pub fn is0(&mut self, st: &State, e: &Aff) -> R<bool> {
        match st.env.zero(e) {
            Tri::Yes => Ok(true),
            Tri::No => Ok(false),
            Tri::Unk => {
                if !self.ge0(st, e)? {
                    return Ok(false);
                }
                // e >= 0
                Ok(!self.ge0(st, &e.addk(-1))?)
            }
        }
    }
    pub fn lt(&mut self, st: &State, a: &Aff, b: &Aff) -> R<bool> {
        self.ge0(st, &b.sub(a).addk(-1))
    }

    /// Normalises to the unsigned range of `w` bytes.
    pub fn norm(&mut self, st: &State, e: Aff, n: usize) -> R<IV> {
        if n > 8 && e.as_const().is_none() {
            return unsup("wide affine");
        }
        if n >= 16 {
            return if e.c >= 0 { Ok(IV::K(e)) } else { Ok(IV::Bits(self.bdd.konst(e.c as u128, n * 8))) };
        }
        let m = 1i128 << (8 * n);
        let mut e = e;
        if let Some(c) = e.as_const() {
            return Ok(IV::K(Aff::k(c.rem_euclid(m))));
        }
        for _ in 0..4 {
            if !self.ge0(st, &e)? {
                e.c += m;
                continue;
            }
            if !self.ge0(st, &e.scale(-1).addk(m - 1))? {
                e.c -= m;
                continue;
            }
            return Ok(IV::K(e));
        }
        unsup("wrapping affine")
    }
    fn signed_aff(&mut self, st: &State, e: &Aff, n: usize) -> R<Aff> {
        let h = if n >= 16 { return Ok(e.clone()) } else { 1i128 << (8 * n - 1) };
        if self.ge0(st, &e.addk(-h))? {
            Ok(e.addk(-2 * h))
        } else {
            Ok(e.clone())
        }
    }

    // ------------------------------------------------------------------ bytes <-> ints
    pub fn to_iv(&mut self, st: &State, b: &[BV]) -> R<IV> {
        let n = b.len();
        if n == 0 {
            return Ok(IV::K(Aff::k(0)));
        }
        if b.iter().all(|x| matches!(x, BV::C(_))) {
            let mut v = 0u128;
            let mut wide = false;
            for (i, x) in b.iter().enumerate() {
                if let BV::C(c) = x {
                    if i < 16 {
                        v |= (*c as u128) << (8 * i);
                    } else if *c != 0 {
                        wide = true;
                    }
                }
            }
            if v <= i128::MAX as u128 && !wide {
                return Ok(IV::K(Aff::k(v as i128)));
            }
        }
        match &b[0] {
            BV::A(a, 0) => {
                let a = a.clone();
                let mut m = 0;
                while m < n && b[m] == BV::A(a.clone(), m as u8) {
                    m += 1;
                }
                let mut ok = true;
                for x in &b[m..] {
                    match x {
                        BV::C(0) => {}
                        _ => ok = false,
                    }
                }
                if ok && m > 0 && m <= 8 {
                    // value of the low m bytes, zero-extended
                    return self.norm_trunc(st, &a, m);
                }
                return Ok(IV::Top);
            }
            BV::A(a, s) if b.iter().enumerate().all(|(i, x)| *x == BV::A(a.clone(), s + i as u8)) => {
                // high part of an affine value
                let a = a.clone();
                let d = 1i128 << (8 * *s as u32);
                if self.ge0(st, &a)? && self.ge0(st, &a.scale(-1).addk(d - 1))? {
                    return Ok(IV::K(Aff::k(0)));
                }
                return Ok(IV::Top);
            }
            BV::P(p, 0) => {
                let p = p.clone();
                if b.iter().enumerate().all(|(i, x)| *x == BV::P(p.clone(), i as u8)) {
                    return Ok(IV::Ptr(p));
                }
                return Ok(IV::Top);
            }
            BV::G(f, 0) => {
                let f = *f;
                if b.iter().enumerate().all(|(i, x)| *x == BV::G(f, i as u8)) {
                    return Ok(IV::Fn(f));
                }
                return Ok(IV::Top);
            }
            _ => {}
        }
        let mut out = Vec::with_capacity(n * 8);
        let mut undef = false;
        for x in b {
            match byte_bits(x) {
                Some(a) => out.extend_from_slice(&a),
                None => match x {
                    BV::U => undef = true,
                    _ => return Ok(IV::Top),
                },
            }
        }
        if undef {
            return Ok(IV::Undef);
        }
        Ok(IV::Bits(out))
    }
    fn norm_trunc(&mut self, st: &State, a: &Aff, m: usize) -> R<IV> {
        match self.norm(st, a.clone(), m) {
            Err(Intr::Unsup(_)) => Ok(IV::Top),
            x => x,
        }
    }

    pub fn iv_bits(&mut self, st: &State, v: &IV, w: usize) -> R<Option<Bits>> {
        Ok(match v {
            IV::K(a) => match a.as_const() {
                Some(c) => Some(self.bdd.konst(c as u128, w)),
                None => {
                    let _ = st;
                    None
                }
            },
            IV::Bits(b) => Some(b.clone()),
            _ => None,
        })
    }

    /// Exact affine value of an integer; forks the path on data-dependent bits.
    pub fn need_aff(&mut self, st: &State, v: &IV) -> R<Aff> {
        match v {
            IV::K(a) => Ok(a.clone()),
            IV::Bits(b) => {
                let mut c = 0u128;
                for (i, &x) in b.iter().enumerate() {
                    let r = if x <= 1 {
                        x
                    } else {
                        let px = self.bdd.and(st.pc, x);
                        if px == F {
                            F
                        } else if px == st.pc {
                            T
                        } else {
                            return Err(Intr::Fork(x));
                        }
                    };
                    if r == T {
                        if i >= 127 {
                            return unsup("wide constant");
                        }
                        c |= 1 << i;
                    }
                }
                Ok(Aff::k(c as i128))
            }
            IV::Undef => {
                self.event(st, "UNINIT", "an uninitialised value decides an address or a length".into());
                Err(Intr::Dead)
            }
            IV::Ptr(_) => unsup("pointer used as a number"),
            _ => unsup("unknown number"),
        }
    }

    pub fn event(&mut self, st: &State, kind: &'static str, detail: String) {
        let (func, loc) = match self.cstack.last() {
            Some(&f) => (self.p.fns[f as usize].name.clone(), String::new()),
            None => ("entry".into(), String::new()),
        };
        let stack = self.cstack.iter().map(|&f| self.p.fns[f as usize].name.clone()).collect();
        if self.trace {
            eprintln!("EVENT {kind} in {func}: {detail}");
        }
        self.events.push(Event { kind, func, loc, detail, pc: st.pc, env: st.env.clone(), stack });
    }

    // ------------------------------------------------------------------ memory
    /// Checks that [off, off+len) lies inside the allocation; Ok(true) = in bounds.
    fn bounds(&mut self, st: &State, p: &Ptr, len: i128, what: &'static str) -> R<()> {
        self.obligations += 1;
        if len == 0 {
            return Ok(());
        }
        let kind = if what == "write" { "OOB_WRITE" } else { "OOB_READ" };
        if p.a == NULLA {
            self.event(st, kind, format!("{what} of {len} bytes through a dangling pointer"));
            return Err(Intr::Dead);
        }
        let (size, ak) = match st.get(p.a) {
            Some(a) => (a.size.clone(), a.k),
            None => {
                self.event(st, kind, format!("{what} of {len} bytes through a dangling pointer"));
                return Err(Intr::Dead);
            }
        };
        if ak == AK::Dead {
            self.event(st, kind, format!("{what} of {len} bytes in freed memory"));
            return Err(Intr::Dead);
        }
        if let Some(bits) = &p.bits {
            // data-dependent offset: off must be constant relative to the size
            let room = size.sub(&p.off).addk(-len);
            let (lowok, low) = match p.off.as_const() {
                Some(c) => (true, (-c).max(0)),
                None => (self.ge0(st, &p.off)?, 0),
            };
            let room_c = match room.as_const() {
                Some(c) => c,
                None => {
                    // fall back to a fork on the bits
                    return Err(Intr::Fork(self.first_open_bit(st, bits)));
                }
            };
            let bad = if room_c < 0 || !lowok {
                T
            } else {
                let k = self.bdd.konst(room_c as u128, bits.len());
                let over = self.bdd.ult(&k, bits);
                let l = self.bdd.konst(low as u128, bits.len());
                let under = self.bdd.ult(bits, &l);
                self.bdd.or(over, under)
            };
            let b = self.bdd.and(st.pc, bad);
            if b != F {
                let mut s2 = st.clone();
                s2.pc = b;
                self.event(&s2, kind, format!("{what} of {len} bytes at {}+data, buffer of {} bytes", p.off, size));
                if b == st.pc {
                    return Err(Intr::Dead);
                }
            }
            return Ok(());
        }
        if !self.ge0(st, &p.off)? || !self.ge0(st, &size.sub(&p.off).addk(-len))? {
            let k = match ak {
                AK::Src => "source",
                AK::Dst => "destination",
                AK::Local => "local",
                AK::Heap => "heap",
                _ => "static",
            };
            self.event(st, kind, format!("{what} of {len} bytes at offset {} of a {k} buffer of {} bytes", p.off, size));
            return Err(Intr::Dead);
        }
        Ok(())
    }
    fn first_open_bit(&mut self, st: &State, bits: &[B]) -> B {
        for &x in bits {
            if x > 1 {
                let px = self.bdd.and(st.pc, x);
                if px != F && px != st.pc {
                    return x;
                }
            }
        }
        T
    }
    /// If the data-dependent part of the pointer is constant under the path condition, folds it in.
    pub fn fold_ptr(&mut self, st: &State, p: &Ptr) -> R<Ptr> {
        match &p.bits {
            None => Ok(p.clone()),
            Some(b) => {
                let v = IV::Bits(b.to_vec());
                let a = self.need_aff(st, &v)?;
                Ok(Ptr { a: p.a, off: p.off.add(&a), bits: None })
            }
        }
    }

    fn glob_ensure(&mut self, st: &mut State, a: Aid) {
        if a & GLOB != 0 && a != NULLA && !st.glob.contains_key(&a) {
            let al = self.glob_alloc(a);
            st.glob.insert(a, Rc::new(al));
        }
    }
    fn glob_alloc(&mut self, a: Aid) -> Alloc {
        let g = &self.p.globs[(a & !GLOB) as usize];
        let bytes = g.bytes.clone();
        let (align, ro) = (g.align as u32, !g.mutable);
        let d = self.cbytes(&bytes);
        Alloc { size: Aff::k(d.len() as i128), align, k: AK::Glob, ro, d: Data::Ground(d) }
    }
    pub fn cbytes(&mut self, b: &[CByte]) -> Vec<BV> {
        let mut out = Vec::with_capacity(b.len());
        let mut last: Option<(GId, i64, Rc<Ptr>)> = None;
        for x in b {
            out.push(match x {
                CByte::U => BV::U,
                CByte::C(c) => BV::C(*c),
                CByte::Fn(f, i) => BV::G(*f, *i),
                CByte::P(g, o, i) => {
                    let rc = match &last {
                        Some((g2, o2, r)) if g2 == g && o2 == o && *i != 0 => r.clone(),
                        _ => Rc::new(Ptr { a: GLOB | g, off: Aff::k(*o as i128), bits: None }),
                    };
                    last = Some((*g, *o, rc.clone()));
                    BV::P(rc, *i)
                }
            });
        }
        out
    }

    pub fn read(&mut self, st: &mut State, p: &Ptr, len: usize) -> R<Vec<BV>> {
        if len == 0 {
            return Ok(vec![]);
        }
        if p.a & GLOB != 0 && p.a != NULLA {
            self.glob_ensure(st, p.a);
        }
        // fast path
        if p.bits.is_none() {
            if let Some(al) = st.get(p.a) {
                if let (Data::Ground(d), Some(o)) = (&al.d, p.off.as_const()) {
                    if o >= 0 && o as usize + len <= d.len() && al.k != AK::Dead {
                        return Ok(d[o as usize..o as usize + len].to_vec());
                    }
                }
            }
        }
        self.bounds(st, p, len as i128, "read")?;
        if let Some(bits) = p.bits.clone() {
            let al = st.get(p.a).unwrap().clone();
            match (&al.d, p.off.as_const()) {
                (Data::Ground(d), Some(o)) => {
                    let n = d.len();
                    // highest open bit
                    let mut hi = 0;
                    for (i, &x) in bits.iter().enumerate() {
                        if x != F {
                            hi = i + 1;
                        }
                    }
                    if hi > 12 || hi < bits.len() && bits[hi..].iter().any(|&x| x != F) {
                        let b = self.first_open_bit(st, &bits);
                        return Err(Intr::Fork(b));
                    }
                    let mut out = Vec::with_capacity(len);
                    for j in 0..len {
                        let t: Vec<BV> = (0..(1usize << hi))
                            .map(|v| {
                                let a = o + (v + j) as i128;
                                if a >= 0 && (a as usize) < n {
                                    d[a as usize].clone()
                                } else {
                                    BV::U
                                }
                            })
                            .collect();
                        out.push(self.table(&t, &bits[..hi], st)?);
                    }
                    return Ok(out);
                }
                _ => {
                    let b = self.first_open_bit(st, &bits);
                    if b == T {
                        let p2 = self.fold_ptr(st, p)?;
                        return self.read(st, &p2, len);
                    }
                    return Err(Intr::Fork(b));
                }
            }
        }
        let al = st.get(p.a).unwrap().clone();
        match &al.d {
            Data::Ground(d) => match p.off.as_const() {
                Some(o) => Ok(d[o as usize..o as usize + len].to_vec()),
                None => {
                    // symbolic offset into a ground buffer: split on the position
                    Err(Intr::Cond(p.off.addk(-self.mid(st, &p.off))))
                }
            },
            Data::Sym { input, ws } => {
                let ws = ws.clone();
                let mut out: Vec<Option<BV>> = vec![None; len];
                self.read_ws(st, p.a, &ws, &p.off, &mut out)?;
                let mut r = Vec::with_capacity(len);
                for (i, x) in out.into_iter().enumerate() {
                    r.push(match x {
                        Some(b) => b,
                        None => match input {
                            Some(b) => self.input_byte(*b, &p.off.addk(i as i128)),
                            None => BV::U,
                        },
                    });
                }
                Ok(r)
            }
        }
    }
    fn mid(&self, st: &State, e: &Aff) -> i128 {
        match (st.env.min(e), st.env.max(e)) {
            (Some(a), Some(b)) => a + (b - a + 1) / 2,
            _ => 0,
        }
    }
    fn table(&mut self, t: &[BV], bits: &[B], st: &State) -> R<BV> {
        if bits.is_empty() {
            return Ok(t[0].clone());
        }
        if t.iter().all(|x| *x == t[0]) {
            return Ok(t[0].clone());
        }
        // byte-wise multiplexer on data bits
        let mut planes: Vec<[B; 8]> = Vec::with_capacity(t.len());
        for x in t {
            match x {
                BV::U => planes.push([F; 8]),
                _ => match byte_bits(x) {
                    Some(a) => planes.push(a),
                    None => {
                        let b = self.first_open_bit(st, bits);
                        if b == T {
                            return unsup("table of pointers");
                        }
                        return Err(Intr::Fork(b));
                    }
                },
            }
        }
        for (j, &b) in bits.iter().enumerate() {
            let _ = j;
            let half = planes.len() / 2;
            let mut nx = Vec::with_capacity(half);
            for i in 0..half {
                let mut a = [F; 8];
                for q in 0..8 {
                    a[q] = self.bdd.ite(b, planes[2 * i + 1][q], planes[2 * i][q]);
                }
                nx.push(a);
            }
            planes = nx;
        }
        Ok(bits_bytes(&planes[0]).pop().unwrap())
    }

    /// Overlay of the writes (newest first) on a read of out.len() bytes at `off`.
    pub fn read_ws(&mut self, st: &State, a: Aid, ws: &[W], off: &Aff, out: &mut Vec<Option<BV>>) -> R<()> {
        let len = out.len() as i128;
        for w in ws.iter().rev() {
            if out.iter().all(|x| x.is_some()) {
                return Ok(());
            }
            match w {
                W::G { off: wo, bytes } => {
                    let d = off.sub(wo);
                    match d.as_const() {
                        Some(d) => {
                            for i in 0..len {
                                let j = d + i;
                                if out[i as usize].is_none() && j >= 0 && j < bytes.len() as i128 {
                                    out[i as usize] = Some(bytes[j as usize].clone());
                                }
                            }
                        }
                        None => {
                            // disjoint?
                            if self.ge0(st, &d)? {
                                if !self.ge0(st, &d.addk(-(bytes.len() as i128)))? {
                                    // overlap at a non-constant distance: small range, force it
                                    return Err(Intr::Cond(d.addk(-self.mid(st, &d))));
                                }
                            } else if !self.ge0(st, &d.scale(-1).addk(-len))? {
                                return Err(Intr::Cond(d.addk(-self.mid(st, &d))));
                            }
                        }
                    }
                }
                W::Copy { off: wo, len: wl, src, soff } => {
                    for i in 0..len {
                        if out[i as usize].is_some() {
                            continue;
                        }
                        let d = off.addk(i).sub(wo);
                        if self.ge0(st, &d)? && self.lt(st, &d, wl)? {
                            let so = soff.add(&d);
                            let sal = match st.get(*src) {
                                Some(x) => x.clone(),
                                None => return unsup("copy source"),
                            };
                            match &sal.d {
                                Data::Sym { input: Some(b), .. } => out[i as usize] = Some(self.input_byte(*b, &so)),
                                _ => return unsup("copy source"),
                            }
                        }
                    }
                }
                W::Open { id, .. } => {
                    self.opens[*id as usize].reads.push((a, off.clone(), len, st.env.clone()));
                }
                W::Loop { k, count, body } => {
                    for i in 0..out.len() {
                        if out[i].is_none() {
                            out[i] = self.read_loop(st, *k, count, body, &off.addk(i as i128))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn loop_extent(&mut self, body: &[W], k: Sym) -> R<(i128, Aff, i128)> {
        // stride, lowest offset, extent
        let mut d = None;
        let mut base: Option<Aff> = None;
        let (mut lo, mut hi) = (0i128, 0i128);
        for w in body {
            match w {
                W::G { off, bytes } => {
                    let c = off.coef(k);
                    if d.is_some() && d != Some(c) {
                        return unsup("writes with different strides");
                    }
                    d = Some(c);
                    match &base {
                        None => {
                            base = Some(off.clone());
                            hi = bytes.len() as i128;
                        }
                        Some(b) => match off.sub(b).as_const() {
                            Some(x) => {
                                lo = lo.min(x);
                                hi = hi.max(x + bytes.len() as i128);
                            }
                            None => return unsup("loop writes at unrelated offsets"),
                        },
                    }
                }
                _ => return unsup("nested loop writes"),
            }
        }
        let d = d.unwrap_or(0);
        if d <= 0 {
            return unsup("loop writes do not advance");
        }
        let base = base.unwrap().addk(lo);
        Ok((d, base.subst(k, &Aff::k(0)), hi - lo))
    }
    fn read_loop(&mut self, st: &State, k: Sym, count: &Aff, body: &[W], off: &Aff) -> R<Option<BV>> {
        let (d, lo, ext) = self.loop_extent(body, k)?;
        let x = off.sub(&lo);
        // before everything?
        if !self.ge0(st, &x)? {
            return Ok(None);
        }
        // after everything: off >= lo + d*(count-1) + ext
        if self.ge0(st, &x.sub(&count.scale(d)).addk(d - ext))? {
            return Ok(None);
        }
        let q = match x.div_floor(d) {
            Some(q) => q,
            None => {
                let (s, m) = x.split_for(d).unwrap();
                return Err(Intr::Mod(s, m));
            }
        };
        let r = x.c.rem_euclid(d);
        let mut j = 0;
        while r + d * j < ext {
            let kk = q.addk(-j);
            if !self.ge0(st, &kk)? {
                break;
            }
            if self.lt(st, &kk, count)? {
                for w in body.iter().rev() {
                    if let W::G { off: wo, bytes } = w {
                        let rel = off.sub(&wo.subst(k, &kk));
                        if let Some(c) = rel.as_const() {
                            if c >= 0 && c < bytes.len() as i128 {
                                let b = bytes[c as usize].clone();
                                return Ok(Some(self.subst_bv(&b, k, &kk)?));
                            }
                        } else {
                            return unsup("loop read");
                        }
                    }
                }
            }
            j += 1;
        }
        Ok(None)
    }

    pub fn subst_b(&mut self, b: B, k: Sym, e: &Aff) -> R<B> {
        if b <= 1 {
            return Ok(b);
        }
        let sup = self.bdd.support(b);
        let mut map: FxMap<u32, B> = FxMap::default();
        for v in sup {
            match self.vars[v as usize].clone() {
                VarKey::Byte(buf, off, bit) => {
                    if off.coef(k) != 0 {
                        let o2 = off.subst(k, e);
                        let nb = self.input_var(buf, &o2) + bit as u32;
                        let f = self.bdd.var(nb);
                        map.insert(v, f);
                    }
                }
                VarKey::Red(s) if s == k => return unsup("reduction variable escapes its loop"),
                _ => {}
            }
        }
        if map.is_empty() {
            return Ok(b);
        }
        let mut memo = FxMap::default();
        Ok(self.bdd.compose(b, &map, &mut memo))
    }
    pub fn subst_bv(&mut self, b: &BV, k: Sym, e: &Aff) -> R<BV> {
        Ok(match b {
            BV::S(s) => {
                let mut a = **s;
                for x in a.iter_mut() {
                    *x = self.subst_b(*x, k, e)?;
                }
                bits_bytes(&a).pop().unwrap()
            }
            BV::A(a, i) => BV::A(Rc::new(a.subst(k, e)), *i),
            BV::P(p, i) => BV::P(Rc::new(Ptr { a: p.a, off: p.off.subst(k, e), bits: p.bits.clone() }), *i),
            x => x.clone(),
        })
    }

    pub fn atomic_write(&mut self, st: &mut State, p: &Ptr, bytes: Vec<BV>) -> R<()> {
        if self.collect_stores && p.a & GLOB != 0 && p.a != NULLA && p.bits.is_none() {
            if let Some(o) = p.off.as_const() {
                let l = self.stores.entry((p.a, o, bytes.len())).or_default();
                match l.iter_mut().find(|x| x.0 == bytes) {
                    Some(x) => x.1 = self.bdd.or(x.1, st.pc),
                    None => l.push((bytes.clone(), st.pc)),
                }
            }
        }
        self.atomic_now = true;
        let r = self.write(st, p, bytes);
        self.atomic_now = false;
        r
    }
    /// An atomic load, which under interference may see any value another thread stores.
    pub fn atomic_read(&mut self, st: &mut State, p: &Ptr, n: usize) -> R<Vec<BV>> {
        let cur = self.read(st, p, n)?;
        if p.a & GLOB != 0 && p.a != NULLA {
            self.loads.insert(self.p.globs[(p.a & !GLOB) as usize].name.clone());
        }
        if !self.interfere || p.a & GLOB == 0 || p.bits.is_some() {
            return Ok(cur);
        }
        let o = match p.off.as_const() {
            Some(o) => o,
            None => return Ok(cur),
        };
        let l = self.stores.get(&(p.a, o, n)).cloned().unwrap_or_default();
        for (i, (v, pc)) in l.into_iter().enumerate() {
            if v == cur {
                continue;
            }
            let key = (self.cstack.clone(), p.a, o, i);
            let var = match self.choice.get(&key) {
                Some(&x) => x,
                None => {
                    let x = self.new_var(VarKey::Free(1000 + self.choice.len() as u32));
                    self.choice.insert(key, x);
                    x
                }
            };
            let x = self.bdd.var(var);
            let c = self.bdd.and(x, pc);
            let t = self.bdd.and(st.pc, c);
            if t == F {
                continue;
            }
            if t == st.pc {
                return Ok(v);
            }
            return Err(Intr::Fork(c));
        }
        Ok(cur)
    }
    pub fn write(&mut self, st: &mut State, p: &Ptr, bytes: Vec<BV>) -> R<()> {
        let len = bytes.len();
        if len == 0 {
            return Ok(());
        }
        if p.a & GLOB != 0 && p.a != NULLA {
            self.glob_ensure(st, p.a);
            let g = &self.p.globs[(p.a & !GLOB) as usize];
            if g.unsync && !self.atomic_now && !self.locked.contains(&p.a) {
                let d = format!("writes the static {} without synchronisation", g.name);
                self.event(st, "RACE", d);
            }
        }
        let p2;
        let p = if p.bits.is_some() {
            p2 = self.fold_ptr(st, p)?;
            &p2
        } else {
            p
        };
        if p.a != NULLA && p.a & GLOB == 0 && p.a & HEAP != 0 {
            if let Some(Data::Ground(d)) = st.get(p.a).map(|a| &a.d) {
                if d.len() > 1024 {
                    // large: written in place, which needs the only reference
                    self.saved.iter_mut().for_each(|s| *s = None);
                }
            }
        }
        // fast path
        if let Some(o) = p.off.as_const() {
            if let Some(al) = st.get_mut(p.a) {
                if !al.ro && al.k != AK::Dead {
                    if let Data::Ground(d) = &mut al.d {
                        if o >= 0 && o as usize + len <= d.len() {
                            for (i, b) in bytes.into_iter().enumerate() {
                                d[o as usize + i] = b;
                            }
                            return Ok(());
                        }
                    }
                }
            }
        }
        self.bounds(st, p, len as i128, "write")?;
        if st.get(p.a).unwrap().ro {
            self.event(st, "SRC_WRITE", format!("write of {len} bytes to a read-only buffer at {}", p.off));
            return Err(Intr::Dead);
        }
        let off = p.off.clone();
        let mid = self.mid(st, &off);
        match &mut st.get_mut(p.a).unwrap().d {
            Data::Ground(d) => match off.as_const() {
                Some(o) => {
                    for (i, b) in bytes.into_iter().enumerate() {
                        d[o as usize + i] = b;
                    }
                    Ok(())
                }
                None => Err(Intr::Cond(off.addk(-mid))),
            },
            Data::Sym { ws, .. } => {
                ws.push(W::G { off, bytes: Rc::new(bytes) });
                Ok(())
            }
        }
    }

    /// memcpy/memmove of an affine number of bytes.
    pub fn copy(&mut self, st: &mut State, src: &IV, dst: &IV, n: &Aff) -> R<()> {
        if let Some(c) = n.as_const() {
            if c == 0 {
                return Ok(());
            }
            if c < 0 || c > 1 << 16 {
                return unsup("large constant copy");
            }
            let s = self.need_ptr(st, src)?;
            let d = self.need_ptr(st, dst)?;
            let b = self.read(st, &s, c as usize)?;
            return self.write(st, &d, b);
        }
        if self.is0(st, n)? {
            return Ok(());
        }
        let s = self.need_ptr(st, src)?;
        let d = self.need_ptr(st, dst)?;
        let (s, d) = (self.fold_ptr(st, &s)?, self.fold_ptr(st, &d)?);
        for (p, what, kind) in [(&s, "read", "OOB_READ"), (&d, "write", "OOB_WRITE")] {
            let size = match st.get(p.a) {
                Some(a) if a.k != AK::Dead => a.size.clone(),
                _ => {
                    self.event(st, kind, format!("{what} of {n} bytes through a dangling pointer"));
                    return Err(Intr::Dead);
                }
            };
            self.obligations += 1;
            if !self.ge0(st, &p.off)? || !self.ge0(st, &size.sub(&p.off).sub(n))? {
                self.event(st, kind, format!("{what} of {n} bytes at offset {} of a buffer of {size} bytes", p.off));
                return Err(Intr::Dead);
            }
        }
        let (sw, si) = match &st.get(s.a).unwrap().d {
            Data::Sym { input, ws } => (ws.clone(), *input),
            _ => return unsup("symbolic copy from a ground buffer"),
        };
        if st.get(d.a).unwrap().ro {
            self.event(st, "SRC_WRITE", "copy into a read-only buffer".into());
            return Err(Intr::Dead);
        }
        if s.a == d.a {
            if self.is0(st, &s.off.sub(&d.off))? {
                return Ok(());
            }
            return unsup("overlapping symbolic copy");
        }
        // contents of the copied range: only initial input contents are representable, or uninitialised
        let mut whole: Option<Vec<W>> = None;
        if !sw.is_empty() {
            // shift every write of the source by the distance, provided it lies inside the copied range
            let sh = d.off.sub(&s.off);
            let mut v = vec![];
            for w in &sw {
                v.push(self.shift_w(st, w, &sh, &s.off, n)?);
            }
            whole = Some(v);
        }
        match &mut st.get_mut(d.a).unwrap().d {
            Data::Sym { ws, .. } => {
                if si.is_some() {
                    ws.push(W::Copy { off: d.off.clone(), len: n.clone(), src: s.a, soff: s.off.clone() });
                }
                if let Some(v) = whole {
                    ws.extend(v);
                }
                Ok(())
            }
            _ => unsup("symbolic copy to a ground buffer"),
        }
    }
    fn shift_w(&mut self, st: &State, w: &W, sh: &Aff, lo: &Aff, n: &Aff) -> R<W> {
        match w {
            W::G { off, bytes } => {
                let hi = lo.add(n);
                if !self.ge0(st, &off.sub(lo))? || !self.ge0(st, &hi.sub(off).addk(-(bytes.len() as i128)))? {
                    return unsup("partial copy");
                }
                Ok(W::G { off: off.add(sh), bytes: bytes.clone() })
            }
            W::Loop { k, count, body } => {
                let mut b2 = vec![];
                for x in body.iter() {
                    match x {
                        W::G { off, bytes } => b2.push(W::G { off: off.add(sh), bytes: bytes.clone() }),
                        _ => return unsup("partial copy"),
                    }
                }
                let (d, base, ext) = self.loop_extent(body, *k)?;
                let end = base.add(&count.addk(-1).scale(d)).addk(ext);
                if !self.ge0(st, &base.sub(lo))? || !self.ge0(st, &lo.add(n).sub(&end))? {
                    return unsup("partial copy");
                }
                Ok(W::Loop { k: *k, count: count.clone(), body: Rc::new(b2) })
            }
            _ => unsup("copy of a copy"),
        }
    }

    // ------------------------------------------------------------------ pointers
    pub fn need_ptr(&mut self, st: &State, v: &IV) -> R<Ptr> {
        match v {
            IV::Ptr(p) => Ok((**p).clone()),
            IV::K(a) => Ok(Ptr { a: NULLA, off: a.clone(), bits: None }),
            IV::Undef => {
                self.event(st, "UNINIT", "an uninitialised pointer is used".into());
                Err(Intr::Dead)
            }
            _ => unsup(format!("pointer with unknown target {v:?}")),
        }
    }
    pub fn ptr_add(&mut self, st: &State, p: &IV, k: &IV, scale: i128) -> R<IV> {
        let pt = match p {
            IV::Ptr(p) => (**p).clone(),
            IV::K(a) => {
                let k = self.need_aff(st, k)?;
                let k = self.signed_aff(st, &k, self.p.ptr_size())?;
                let e = a.add(&k.scale(scale));
                return self.norm(st, e, self.p.ptr_size());
            }
            IV::Undef => return Ok(IV::Undef),
            _ => return unsup("offset of an unknown pointer"),
        };
        match k {
            IV::K(e) => {
                let e = self.signed_aff(st, e, self.p.ptr_size())?;
                Ok(IV::Ptr(Rc::new(Ptr { a: pt.a, off: pt.off.add(&e.scale(scale)), bits: pt.bits })))
            }
            IV::Bits(b) => {
                if Bdd::as_const(b).is_some() {
                    let c = Bdd::as_const(b).unwrap() as i128;
                    return self.ptr_add(st, p, &IV::K(Aff::k(c)), scale);
                }
                // data-dependent offset, treated as unsigned and small
                let w = b.len();
                if scale < 0 || b[w.min(64) - 1] != F {
                    let x = self.first_open_bit(st, b);
                    if x == T {
                        let a = self.need_aff(st, k)?;
                        return self.ptr_add(st, p, &IV::K(a), scale);
                    }
                    return Err(Intr::Fork(x));
                }
                let sc = self.bdd.konst(scale as u128, w);
                let mut m = self.bdd.mul(b, &sc);
                if let Some(o) = &pt.bits {
                    m = self.bdd.add(&m, o);
                }
                Ok(IV::Ptr(Rc::new(Ptr { a: pt.a, off: pt.off, bits: Some(Rc::new(m)) })))
            }
            IV::Undef => Ok(IV::Undef),
            _ => unsup("unknown pointer offset"),
        }
    }

    // ------------------------------------------------------------------ places
    pub fn place(&mut self, st: &mut State, fr: &Fr, pl: &Pl) -> R<(Ptr, Option<Vec<BV>>)> {
        let mut p = Ptr { a: (fr.base + pl.local) as Aid, off: Aff::k(0), bits: None };
        let mut meta: Option<Vec<BV>> = None;
        let ps = self.p.ptr_size();
        for e in &pl.proj {
            match e {
                Proj::Deref { to } => {
                    let b = self.read(st, &p, ps)?;
                    let iv = self.to_iv(st, &b)?;
                    let m = if self.p.t(*to).sized {
                        None
                    } else {
                        let mut p2 = p.clone();
                        p2.off.c += ps as i128;
                        Some(self.read(st, &p2, ps)?)
                    };
                    p = self.need_ptr(st, &iv)?;
                    meta = m;
                    let al = self.p.t(*to).align as i128;
                    if al > 1 {
                        self.align(st, &p, al)?;
                    }
                }
                Proj::Field { off, ty } => {
                    p.off.c += *off as i128;
                    if self.p.t(*ty).sized {
                        meta = None;
                    }
                }
                Proj::Index { local, el } => {
                    let n = self.p.size(fr.body.locals[*local]);
                    let lp = Ptr { a: (fr.base + local) as Aid, off: Aff::k(0), bits: None };
                    let b = self.read(st, &lp, n)?;
                    let iv = self.to_iv(st, &b)?;
                    let sz = self.p.size(*el) as i128;
                    match self.ptr_add(st, &IV::Ptr(Rc::new(p)), &iv, sz)? {
                        IV::Ptr(q) => p = (*q).clone(),
                        _ => return unsup("index"),
                    }
                    meta = None;
                }
                Proj::ConstIndex { off, from_end, el, arr } => {
                    let sz = self.p.size(*el) as i128;
                    if *from_end {
                        let n = self.seq_len(st, &meta, *arr)?;
                        p.off = p.off.add(&n.addk(-(*off as i128)).scale(sz));
                    } else {
                        p.off.c += *off as i128 * sz;
                    }
                    meta = None;
                }
                Proj::Subslice { from, to, from_end, el, arr, .. } => {
                    let sz = self.p.size(*el) as i128;
                    p.off.c += *from as i128 * sz;
                    if arr.is_none() {
                        let n = self.seq_len(st, &meta, None)?;
                        let l = if *from_end { n.addk(-((from + to) as i128)) } else { Aff::k((to - from) as i128) };
                        meta = Some(aff_bytes(&l, ps));
                    }
                }
                Proj::Cast { .. } => {}
            }
        }
        Ok((p, meta))
    }
    /// A dereference of a typed pointer needs an address aligned for the type.
    fn align(&mut self, st: &State, p: &Ptr, al: i128) -> R<()> {
        if p.bits.is_some() || p.a == NULLA {
            return Ok(());
        }
        let (have, name) = match st.get(p.a) {
            Some(a) if a.k != AK::Dead => (a.align as i128, a.k),
            _ => return Ok(()),
        };
        let off_ok = p.off.c % al == 0 && p.off.t.iter().all(|x| x.1 % al == 0);
        if p.off.as_const().is_some() || have < al {
            self.obligations += 1;
            if have < al || !off_ok {
                self.event(
                    st,
                    "ALIGN",
                    format!("dereference that needs {al}-byte alignment at offset {} of a {name:?} buffer aligned to {have}", p.off),
                );
                return Err(Intr::Dead);
            }
        }
        Ok(())
    }
    fn seq_len(&mut self, st: &State, meta: &Option<Vec<BV>>, arr: Option<u64>) -> R<Aff> {
        match (meta, arr) {
            (_, Some(n)) => Ok(Aff::k(n as i128)),
            (Some(m), None) => {
                let iv = self.to_iv(st, m)?;
                self.need_aff(st, &iv)
            }
            _ => unsup("length of a place"),
        }
    }

    pub fn op(&mut self, st: &mut State, fr: &Fr, o: &Op) -> R<Vec<BV>> {
        match o {
            Op::Copy(pl) => {
                let n = self.p.size(pl.ty);
                if n == 0 {
                    return Ok(vec![]);
                }
                // fast path: local with field projections
                let (p, _) = self.place(st, fr, pl)?;
                self.read(st, &p, n)
            }
            Op::Const(b, ty) => {
                let n = self.p.size(*ty);
                let mut v = self.cbytes(b);
                v.truncate(n);
                Ok(v)
            }
            Op::Check(b) => Ok(vec![BV::C(*b as u8)]),
        }
    }
    pub fn op_iv(&mut self, st: &mut State, fr: &Fr, o: &Op) -> R<IV> {
        let b = self.op(st, fr, o)?;
        self.to_iv(st, &b)
    }

    // ------------------------------------------------------------------ arithmetic
    pub fn is_signed(&self, t: TyId) -> bool {
        matches!(self.p.t(t).k, TK::Int { signed: true })
    }
    fn wrap_iv(&mut self, st: &State, e: Aff, n: usize) -> R<IV> {
        self.norm(st, e, n)
    }

    pub fn bool_iv(b: bool) -> IV {
        IV::K(Aff::k(b as i128))
    }
    fn bbit(&mut self, b: B) -> IV {
        let mut v = vec![F; 8];
        v[0] = b;
        match Bdd::as_const(&v) {
            Some(c) => IV::K(Aff::k(c as i128)),
            None => IV::Bits(v),
        }
    }
    pub fn fix(&self, b: Bits) -> IV {
        match Bdd::as_const(&b) {
            Some(c) if c <= i128::MAX as u128 && b.len() <= 128 => IV::K(Aff::k(c as i128)),
            _ => IV::Bits(b),
        }
    }

    /// The address modulo 4096, under the address assumption of the job.
    fn low_address(&self, st: &State, p: &Ptr) -> Option<i128> {
        let (rs, rd) = self.residue?;
        let off = p.off.as_const()?;
        if p.bits.is_some() || p.a == NULLA {
            return None;
        }
        let x = st.get(p.a)?;
        let al = x.align as i128;
        let base = match x.k {
            AK::Src => rs,
            AK::Dst => rd,
            _ => al,
        };
        Some((base / al * al + off).rem_euclid(4096))
    }
    pub fn binop(&mut self, st: &State, op: BinOp, a: &IV, b: &IV, n: usize, bn: usize, signed: bool) -> R<IV> {
        use BinOp::*;
        if matches!(a, IV::Undef) || matches!(b, IV::Undef) {
            return Ok(IV::Undef);
        }
        // pointers
        match (a, b) {
            (IV::Ptr(x), IV::Ptr(y)) => return self.ptr_cmp(st, op, x, y),
            (IV::Ptr(p), IV::K(k)) => {
                match op {
                    Add | AddUnchecked => return self.ptr_add(st, a, b, 1),
                    Sub | SubUnchecked => return self.ptr_add(st, a, b, -1),
                    BitAnd | Rem => {
                        if let Some(c) = k.as_const() {
                            let m = if matches!(op, Rem) { c - 1 } else { c };
                            let al = st.get(p.a).map_or(1, |x| x.align as i128);
                            if m >= 0 && (m + 1) & m == 0 && m + 1 <= al {
                                return self.binop(st, Rem, &IV::K(p.off.clone()), &IV::K(Aff::k(m + 1)), n, n, false);
                            }
                            if let Some(low) = self.low_address(st, p) {
                                if matches!(op, Rem) {
                                    if c > 0 && 4096 % c == 0 {
                                        return Ok(IV::K(Aff::k(low % c)));
                                    }
                                } else if (0..4096).contains(&c) {
                                    return Ok(IV::K(Aff::k(low & c)));
                                } else {
                                    let clear = ((1i128 << (8 * n)) - 1) ^ c;
                                    if (0..4096).contains(&clear) {
                                        return self.ptr_add(st, a, &IV::K(Aff::k(low & clear)), -1);
                                    }
                                }
                            }
                        }
                        return unsup("pointer alignment");
                    }
                    Eq | Ne | Lt | Le | Gt | Ge => {
                        if k.as_const().map_or(false, |c| c < 65536) {
                            return Ok(Self::bool_iv(matches!(op, Ne | Gt | Ge)));
                        }
                    }
                    _ => {}
                }
                return unsup(format!("pointer arithmetic {op:?}"));
            }
            (IV::K(_), IV::Ptr(_)) => {
                let sw = match op {
                    Eq | Ne => op,
                    Lt => Gt,
                    Le => Ge,
                    Gt => Lt,
                    Ge => Le,
                    Add | AddUnchecked => return self.ptr_add(st, b, a, 1),
                    BitAnd => BitAnd,
                    _ => return unsup("pointer arithmetic"),
                };
                return self.binop(st, sw, b, a, n, bn, signed);
            }
            (IV::Fn(x), IV::Fn(y)) => {
                return match op {
                    Eq => Ok(Self::bool_iv(x == y)),
                    Ne => Ok(Self::bool_iv(x != y)),
                    _ => unsup("function pointer arithmetic"),
                }
            }
            (IV::Fn(_), IV::K(_)) | (IV::K(_), IV::Fn(_)) => {
                return match op {
                    Eq => Ok(Self::bool_iv(false)),
                    Ne => Ok(Self::bool_iv(true)),
                    _ => unsup("function pointer arithmetic"),
                }
            }
            (IV::Ptr(_), IV::Bits(_)) => {
                let k = self.need_aff(st, b)?;
                return self.binop(st, op, a, &IV::K(k), n, bn, signed);
            }
            _ => {}
        }
        // x & 0, etc. with unknown operands
        if matches!(a, IV::Top) || matches!(b, IV::Top) {
            let zero = |v: &IV| matches!(v, IV::K(k) if k.as_const() == Some(0));
            if matches!(op, BitAnd | Mul) && (zero(a) || zero(b)) {
                return Ok(IV::K(Aff::k(0)));
            }
            return Ok(IV::Top);
        }
        if matches!(a, IV::Ptr(_) | IV::Fn(_)) || matches!(b, IV::Ptr(_) | IV::Fn(_)) {
            return unsup(format!("pointer arithmetic {op:?}"));
        }
        // constants fold through Bits; affine otherwise
        let ca = matches!(a, IV::K(k) if k.as_const().is_none());
        let cb = matches!(b, IV::K(k) if k.as_const().is_none());
        if ca || cb {
            let x = self.need_aff(st, a)?;
            let y = self.need_aff(st, b)?;
            return self.aff_op(st, op, &x, &y, n, signed);
        }
        if n <= 8 {
            if let (IV::K(x), IV::K(y)) = (a, b) {
                if let (Some(x), Some(y)) = (x.as_const(), y.as_const()) {
                    if let Some(r) = const_op(op, x, y, n, signed) {
                        return Ok(IV::K(Aff::k(r)));
                    }
                }
            }
        }
        let w = n * 8;
        let x = self.iv_bits(st, a, w)?.unwrap();
        let y = self.iv_bits(st, b, bn * 8)?.unwrap();
        let r = match op {
            Add | AddUnchecked => self.bdd.add(&x, &y),
            Sub | SubUnchecked => self.bdd.sub(&x, &y),
            Mul | MulUnchecked => self.bdd.mul(&x, &y),
            BitAnd => (0..w).map(|i| self.bdd.and(x[i], y[i])).collect(),
            BitOr => (0..w).map(|i| self.bdd.or(x[i], y[i])).collect(),
            BitXor => (0..w).map(|i| self.bdd.xor(x[i], y[i])).collect(),
            Shl | ShlUnchecked | Shr | ShrUnchecked => {
                let left = matches!(op, Shl | ShlUnchecked);
                let lg = w.trailing_zeros() as usize;
                let amt: Vec<B> = y.iter().copied().take(lg).collect();
                self.bdd.shift_var(&x, &amt, left, signed)
            }
            Div | Rem => match Bdd::as_const(&y) {
                Some(d) if d != 0 && !signed => {
                    let (q, r) = self.udivrem(&x, d);
                    if matches!(op, Div) {
                        q
                    } else {
                        r
                    }
                }
                _ => {
                    let k = self.need_aff(st, a)?;
                    return self.binop(st, op, &IV::K(k), b, n, bn, signed);
                }
            },
            Eq | Ne | Lt | Le | Gt | Ge => {
                let r = match op {
                    Eq => self.bdd.eq(&x, &y),
                    Ne => {
                        let e = self.bdd.eq(&x, &y);
                        self.bdd.not(e)
                    }
                    Lt | Ge => {
                        let l = if signed { self.bdd.slt(&x, &y) } else { self.bdd.ult(&x, &y) };
                        if matches!(op, Lt) {
                            l
                        } else {
                            self.bdd.not(l)
                        }
                    }
                    _ => {
                        let l = if signed { self.bdd.slt(&y, &x) } else { self.bdd.ult(&y, &x) };
                        if matches!(op, Gt) {
                            l
                        } else {
                            self.bdd.not(l)
                        }
                    }
                };
                let r = self.settle(r);
                return Ok(self.bbit(r));
            }
            Cmp => {
                let l = if signed { self.bdd.slt(&x, &y) } else { self.bdd.ult(&x, &y) };
                let e = self.bdd.eq(&x, &y);
                let ne = self.bdd.not(e);
                let mut v = vec![l; 8];
                v[0] = ne;
                return Ok(self.fix(v));
            }
            Offset => return unsup("offset"),
        };
        Ok(self.fix(r))
    }
    pub fn udivrem(&mut self, x: &[B], d: u128) -> (Bits, Bits) {
        let w = x.len();
        if d.is_power_of_two() {
            let k = d.trailing_zeros() as usize;
            let q = self.bdd.shr_c(x, k, false);
            let mut r = x.to_vec();
            for i in k..w {
                r[i] = F;
            }
            return (q, r);
        }
        let dk = self.bdd.konst(d, w + 1);
        let mut rem: Bits = vec![F; w + 1];
        let mut q = vec![F; w];
        for i in (0..w).rev() {
            rem.insert(0, x[i]);
            rem.truncate(w + 1);
            let lt = self.bdd.ult(&rem, &dk);
            let ge = self.bdd.not(lt);
            q[i] = ge;
            let s = self.bdd.sub(&rem, &dk);
            rem = self.bdd.mux(ge, &s, &rem);
        }
        rem.truncate(w);
        (q, rem)
    }

    fn ptr_cmp(&mut self, st: &State, op: BinOp, x: &Ptr, y: &Ptr) -> R<IV> {
        use BinOp::*;
        if x.a == y.a && x.bits.is_none() && y.bits.is_none() {
            let d = x.off.sub(&y.off);
            return match op {
                Eq => Ok(Self::bool_iv(self.is0(st, &d)?)),
                Ne => Ok(Self::bool_iv(!self.is0(st, &d)?)),
                Ge => Ok(Self::bool_iv(self.ge0(st, &d)?)),
                Lt => Ok(Self::bool_iv(!self.ge0(st, &d)?)),
                Gt => Ok(Self::bool_iv(self.ge0(st, &d.addk(-1))?)),
                Le => Ok(Self::bool_iv(!self.ge0(st, &d.addk(-1))?)),
                Sub | SubUnchecked => self.norm(st, d, self.p.ptr_size()),
                _ => unsup("pointer arithmetic"),
            };
        }
        if x.bits.is_some() || y.bits.is_some() {
            let x = self.fold_ptr(st, x)?;
            let y = self.fold_ptr(st, y)?;
            return self.ptr_cmp(st, op, &x, &y);
        }
        match op {
            Eq => Ok(Self::bool_iv(false)),
            Ne => Ok(Self::bool_iv(true)),
            _ => unsup("comparison of pointers to different buffers"),
        }
    }

    fn aff_op(&mut self, st: &State, op: BinOp, x: &Aff, y: &Aff, n: usize, signed: bool) -> R<IV> {
        use BinOp::*;
        let (xs, ys) = if signed && matches!(op, Lt | Le | Gt | Ge | Cmp | Div | Rem | Mul | MulUnchecked) {
            (self.signed_aff(st, x, n)?, self.signed_aff(st, y, n)?)
        } else {
            (x.clone(), y.clone())
        };
        match op {
            Add | AddUnchecked => self.wrap_iv(st, x.add(y), n),
            Sub | SubUnchecked => self.wrap_iv(st, x.sub(y), n),
            Mul | MulUnchecked => {
                let e = self.aff_mul(&xs, &ys)?;
                self.wrap_iv(st, e, n)
            }
            Shl | ShlUnchecked => match y.as_const() {
                Some(c) => self.wrap_iv(st, x.scale(1 << (c as usize % (8 * n))), n),
                None => unsup("shift by a length"),
            },
            Shr | ShrUnchecked if !signed => match y.as_const() {
                Some(c) => self.aff_op(st, Div, x, &Aff::k(1 << (c as usize % (8 * n))), n, false),
                None => unsup("shift by a length"),
            },
            Div | Rem => {
                let d = match ys.as_const() {
                    Some(d) if d > 0 => d,
                    _ => return unsup("division by a length"),
                };
                if signed && !self.ge0(st, &xs)? {
                    return unsup("division of a negative length");
                }
                // small values
                if self.ge0(st, &xs.scale(-1).addk(d - 1)).unwrap_or(false) {
                    return Ok(IV::K(if matches!(op, Div) { Aff::k(0) } else { xs }));
                }
                match xs.div_floor(d) {
                    Some(q) => Ok(IV::K(if matches!(op, Div) { q } else { Aff::k(xs.c.rem_euclid(d)) })),
                    None => {
                        let (s, m) = xs.split_for(d).unwrap();
                        Err(Intr::Mod(s, m))
                    }
                }
            }
            BitAnd => {
                let (v, m) = match (x.as_const(), y.as_const()) {
                    (_, Some(m)) => (x, m),
                    (Some(m), _) => (y, m),
                    _ => return unsup("bitwise operation on lengths"),
                };
                if (m + 1) & m == 0 {
                    return self.aff_op(st, Rem, v, &Aff::k(m + 1), n, false);
                }
                let inv = (1i128 << (8 * n)) - 1 - m;
                if (inv + 1) & inv == 0 {
                    let r = match self.aff_op(st, Rem, v, &Aff::k(inv + 1), n, false)? {
                        IV::K(r) => r,
                        _ => return unsup("mask"),
                    };
                    return Ok(IV::K(v.sub(&r)));
                }
                // m = a << k masks: single bit or contiguous bits
                let k = m.trailing_zeros();
                if ((m >> k) + 1) & (m >> k) == 0 {
                    let q = match self.aff_op(st, Div, v, &Aff::k(1 << k), n, false)? {
                        IV::K(q) => q,
                        _ => return unsup("mask"),
                    };
                    let r = self.aff_op(st, Rem, &q, &Aff::k((m >> k) + 1), n, false)?;
                    if let IV::K(r) = r {
                        return Ok(IV::K(r.scale(1 << k)));
                    }
                }
                unsup("mask of a length")
            }
            BitOr | BitXor => {
                // disjoint bits: multiple of 2^k with a small constant
                let (v, m) = match (x.as_const(), y.as_const()) {
                    (_, Some(m)) => (x, m),
                    (Some(m), _) => (y, m),
                    _ => return unsup("bitwise operation on lengths"),
                };
                if m == 0 {
                    return Ok(IV::K(v.clone()));
                }
                if matches!(op, BitXor) && m == (1i128 << (8 * n)) - 1 {
                    return Ok(IV::K(v.scale(-1).addk(m)));
                }
                let k = 128 - (m as u128).leading_zeros();
                let r = match self.aff_op(st, Rem, v, &Aff::k(1 << k), n, false)? {
                    IV::K(r) => r,
                    _ => return unsup("or"),
                };
                match r.as_const() {
                    Some(r) => {
                        let nv = if matches!(op, BitOr) { r | m } else { r ^ m };
                        Ok(IV::K(v.addk(nv - r)))
                    }
                    None => unsup("bitwise operation on a length"),
                }
            }
            Eq => Ok(Self::bool_iv(self.is0(st, &x.sub(y))?)),
            Ne => Ok(Self::bool_iv(!self.is0(st, &x.sub(y))?)),
            Lt => Ok(Self::bool_iv(self.lt(st, &xs, &ys)?)),
            Ge => Ok(Self::bool_iv(!self.lt(st, &xs, &ys)?)),
            Gt => Ok(Self::bool_iv(self.lt(st, &ys, &xs)?)),
            Le => Ok(Self::bool_iv(!self.lt(st, &ys, &xs)?)),
            Cmp => {
                if self.lt(st, &xs, &ys)? {
                    Ok(IV::K(Aff::k(255)))
                } else if self.is0(st, &xs.sub(&ys))? {
                    Ok(IV::K(Aff::k(0)))
                } else {
                    Ok(IV::K(Aff::k(1)))
                }
            }
            _ => unsup(format!("{op:?} on a length")),
        }
    }
    fn aff_mul(&mut self, x: &Aff, y: &Aff) -> R<Aff> {
        match (x.as_const(), y.as_const()) {
            (_, Some(c)) => Ok(x.scale(c)),
            (Some(c), _) => Ok(y.scale(c)),
            _ => unsup("product of two lengths"),
        }
    }

    /// (wrapped value, overflow bit)
    pub fn checked(&mut self, st: &State, op: BinOp, a: &IV, b: &IV, n: usize, bn: usize, signed: bool) -> R<(IV, IV)> {
        use BinOp::*;
        if matches!(a, IV::Undef) || matches!(b, IV::Undef) {
            return Ok((IV::Undef, IV::Undef));
        }
        let ka = matches!(a, IV::K(_));
        let kb = matches!(b, IV::K(_));
        let nonc = |v: &IV| matches!(v, IV::K(k) if k.as_const().is_none());
        if (ka && kb) || nonc(a) || nonc(b) {
            if n <= 8 {
                let mut x = self.need_aff(st, a)?;
                let mut y = self.need_aff(st, b)?;
                if matches!(op, Shl | Shr) {
                    let o = match y.as_const() {
                        Some(c) => !(0..8 * n as i128).contains(&c),
                        None => return unsup("shift by a length"),
                    };
                    return Ok((self.binop(st, op, a, b, n, bn, signed)?, Self::bool_iv(o)));
                }
                if signed {
                    x = self.signed_aff(st, &x, n)?;
                    y = self.signed_aff(st, &y, n)?;
                }
                let e = match op {
                    Add => x.add(&y),
                    Sub => x.sub(&y),
                    Mul => self.aff_mul(&x, &y)?,
                    _ => return unsup("checked op"),
                };
                let (lo, hi) = if signed {
                    (-(1i128 << (8 * n - 1)), (1i128 << (8 * n - 1)) - 1)
                } else {
                    (0, (1i128 << (8 * n)) - 1)
                };
                let ov = !self.ge0(st, &e.addk(-lo))? || !self.ge0(st, &e.scale(-1).addk(hi))?;
                return Ok((self.wrap_iv(st, e, n)?, Self::bool_iv(ov)));
            }
        }
        if matches!(a, IV::Top) || matches!(b, IV::Top) {
            return Ok((IV::Top, IV::Top));
        }
        if matches!(a, IV::Ptr(_) | IV::Fn(_)) || matches!(b, IV::Ptr(_) | IV::Fn(_)) {
            return Ok((self.binop(st, op, a, b, n, bn, signed)?, Self::bool_iv(false)));
        }
        let w = n * 8;
        let x = self.iv_bits(st, a, w)?.unwrap();
        let y = self.iv_bits(st, b, bn * 8)?.unwrap();
        match op {
            Shl | Shr => {
                let lim = self.bdd.konst(w as u128, y.len());
                let o = if y.len() >= 8 || w < (1 << y.len()) {
                    let l = self.bdd.ult(&y, &lim);
                    self.bdd.not(l)
                } else {
                    F
                };
                let v = self.binop(st, op, a, b, n, bn, signed)?;
                Ok((v, self.bbit(o)))
            }
            Add | Sub => {
                let xe = self.bdd.ext(&x, w + 1, signed);
                let ye = self.bdd.ext(&y, w + 1, signed);
                let r = if matches!(op, Add) { self.bdd.add(&xe, &ye) } else { self.bdd.sub(&xe, &ye) };
                let o = if signed { self.bdd.xor(r[w], r[w - 1]) } else { r[w] };
                Ok((self.fix(r[..w].to_vec()), self.bbit(o)))
            }
            Mul => {
                let xe = self.bdd.ext(&x, 2 * w, signed);
                let ye = self.bdd.ext(&y, 2 * w, signed);
                let r = self.bdd.mul(&xe, &ye);
                let mut o = F;
                let s = if signed { r[w - 1] } else { F };
                for i in w..2 * w {
                    let d = self.bdd.xor(r[i], s);
                    o = self.bdd.or(o, d);
                }
                Ok((self.fix(r[..w].to_vec()), self.bbit(o)))
            }
            _ => unsup("checked op"),
        }
    }

    // ------------------------------------------------------------------ rvalues
    fn rvalue(&mut self, st: &mut State, fr: &Fr, rv: &Rv, dty: TyId) -> R<Vec<BV>> {
        let ps = self.p.ptr_size();
        match rv {
            Rv::Use(o) => self.op(st, fr, o),
            Rv::Repeat(o, n) => {
                let b = self.op(st, fr, o)?;
                if *n as usize * b.len() > 1 << 20 {
                    return unsup("huge array");
                }
                let mut v = Vec::with_capacity(b.len() * *n as usize);
                for _ in 0..*n {
                    v.extend_from_slice(&b);
                }
                Ok(v)
            }
            Rv::Ref(pl) => {
                let (p, meta) = self.place(st, fr, pl)?;
                let iv = if p.a == NULLA { IV::K(p.off) } else { IV::Ptr(Rc::new(p)) };
                let mut v = iv_bytes(&iv, ps);
                if self.p.size(dty) > ps {
                    match meta {
                        Some(m) => v.extend(m),
                        None => return unsup("missing metadata"),
                    }
                }
                Ok(v)
            }
            Rv::Len(pl) => {
                let (_, meta) = self.place(st, fr, pl)?;
                if let TK::Array { n, .. } = self.p.t(pl.ty).k {
                    return Ok(konst_bytes(n as u128, ps));
                }
                match meta {
                    Some(m) => Ok(m),
                    None => unsup("length of a place"),
                }
            }
            Rv::Cast(k, o, from, to) => {
                let b = self.op(st, fr, o)?;
                if matches!(k, CastKind::IntToInt) && self.limits.is_some() {
                    // a narrowing cast: from some length on it drops bits
                    let w = self.p.size(*to);
                    if w < b.len() && w < 3 {
                        let x = self.to_iv(st, &b)?;
                        let c = 1 << (8 * w - self.is_signed(*to) as usize);
                        self.note_limit(fr.f, BinOp::Lt, &x, &IV::K(Aff::k(c)));
                    }
                }
                self.cast(st, *k, b, *from, *to)
            }
            Rv::Bin(op, a, b, ta, tb) => {
                if matches!(op, BinOp::Offset) {
                    let p = self.op_iv(st, fr, a)?;
                    let k = self.op_iv(st, fr, b)?;
                    let sz = match self.p.t(*ta).k {
                        TK::Ptr { to, .. } => self.p.size(to) as i128,
                        _ => return unsup("offset"),
                    };
                    let r = self.ptr_add(st, &p, &k, sz)?;
                    return Ok(iv_bytes(&r, ps));
                }
                let mut n = self.p.size(*ta);
                let mut x = self.op(st, fr, a)?;
                let mut y = self.op(st, fr, b)?;
                if matches!(self.p.t(*ta).k, TK::Ptr { .. }) && n > ps {
                    // fat pointer comparison: addresses first
                    if x[ps..] != y[ps..] {
                        return unsup("fat pointer comparison");
                    }
                    x.truncate(ps);
                    y.truncate(ps);
                    n = ps;
                }
                if matches!(self.p.t(*ta).k, TK::Float) {
                    return unsup("floating point");
                }
                if n == 0 {
                    return Ok(vec![BV::C(matches!(op, BinOp::Eq | BinOp::Le | BinOp::Ge) as u8)]);
                }
                let x = self.to_iv(st, &x)?;
                let y = self.to_iv(st, &y)?;
                let bn = self.p.size(*tb).min(if n == ps && self.p.size(*tb) > 16 { ps } else { 16 });
                let s = self.is_signed(*ta);
                if n >= 2 && self.limits.is_some() {
                    self.note_limit(fr.f, *op, &x, &y);
                }
                let r = self.binop(st, *op, &x, &y, n, bn, s)?;
                Ok(iv_bytes(&r, self.p.size(dty)))
            }
            Rv::Glob(g) => Ok(ptr_bytes(Rc::new(Ptr { a: GLOB | *g, off: Aff::k(0), bits: None }), ps)),
            Rv::Checked(op, a, b, ta) => {
                let x = self.op(st, fr, a)?;
                let y = self.op(st, fr, b)?;
                let (n, bn) = (x.len(), y.len());
                let x = self.to_iv(st, &x)?;
                let y = self.to_iv(st, &y)?;
                let s = self.is_signed(*ta);
                let (v, o) = self.checked(st, *op, &x, &y, n, bn, s)?;
                let offs = match &self.p.t(dty).k {
                    TK::Struct { offs, .. } => offs.clone(),
                    _ => return unsup("checked result"),
                };
                let mut out = vec![BV::U; self.p.size(dty)];
                put(&mut out, offs[0], iv_bytes(&v, n));
                put(&mut out, offs[1], iv_bytes(&o, 1));
                Ok(out)
            }
            Rv::Un(op, a, ta) => match op {
                UnOp::PtrMetadata => {
                    let b = self.op(st, fr, a)?;
                    Ok(b[ps.min(b.len())..].to_vec())
                }
                UnOp::Not => {
                    let n = self.p.size(*ta);
                    let v = self.op_iv(st, fr, a)?;
                    if matches!(self.p.t(*ta).k, TK::Bool) {
                        return Ok(iv_bytes(&self.not_bool(&v), 1));
                    }
                    let ones = self.fix(vec![T; n * 8]);
                    let r = self.binop(st, BinOp::BitXor, &v, &ones, n, n, false)?;
                    Ok(iv_bytes(&r, n))
                }
                UnOp::Neg => {
                    let n = self.p.size(*ta);
                    let v = self.op_iv(st, fr, a)?;
                    let r = self.binop(st, BinOp::Sub, &IV::K(Aff::k(0)), &v, n, n, false)?;
                    Ok(iv_bytes(&r, n))
                }
            },
            Rv::Discr(pl) => {
                let (p, _) = self.place(st, fr, pl)?;
                self.discr(st, &p, pl.ty, self.p.size(dty))
            }
            Rv::Agg { ty, variant, ops, field } => {
                let mut out = vec![BV::U; self.p.size(*ty)];
                let k = self.p.t(*ty).k.clone();
                match &k {
                    TK::Struct { offs, .. } => {
                        for (i, o) in ops.iter().enumerate() {
                            let b = self.op(st, fr, o)?;
                            put(&mut out, offs[i], b);
                        }
                    }
                    TK::Union { .. } => {
                        let _ = field;
                        let b = self.op(st, fr, &ops[0])?;
                        put(&mut out, 0, b);
                    }
                    TK::Array { el, .. } => {
                        let es = self.p.size(*el);
                        for (i, o) in ops.iter().enumerate() {
                            let b = self.op(st, fr, o)?;
                            put(&mut out, i * es, b);
                        }
                    }
                    TK::Enum { vars, .. } => {
                        for (i, o) in ops.iter().enumerate() {
                            let b = self.op(st, fr, o)?;
                            put(&mut out, vars[*variant].offs[i], b);
                        }
                        self.set_tag(&k, *variant, &mut out);
                    }
                    _ => return unsup("aggregate"),
                }
                Ok(out)
            }
            Rv::RawPtr(a, b) => {
                let mut v = self.op(st, fr, a)?;
                v.truncate(ps);
                v.extend(self.op(st, fr, b)?);
                Ok(v)
            }
            Rv::Unsupported(s) => unsup(format!("rvalue {s}")),
        }
    }
    pub fn not_bool(&mut self, v: &IV) -> IV {
        match v {
            IV::K(a) if a.as_const().is_some() => Self::bool_iv(a.c == 0),
            IV::Bits(b) => {
                let n = self.bdd.not(b[0]);
                self.bbit(n)
            }
            x => x.clone(),
        }
    }
    fn set_tag(&mut self, k: &TK, variant: usize, out: &mut [BV]) {
        if let TK::Enum { tag_off, tag_size, enc, vars } = k {
            match enc {
                Enc::Direct => put(out, *tag_off, konst_bytes(vars[variant].discr, *tag_size)),
                Enc::Niche { untagged, lo, start, .. } => {
                    if variant != *untagged {
                        let v = start.wrapping_add(variant as u128).wrapping_sub(*lo as u128);
                        put(out, *tag_off, konst_bytes(v, *tag_size));
                    }
                }
                _ => {}
            }
        }
    }
    pub fn discr(&mut self, st: &mut State, p: &Ptr, ty: TyId, dn: usize) -> R<Vec<BV>> {
        let k = self.p.t(ty).k.clone();
        match &k {
            TK::Enum { tag_off, tag_size, enc, vars } => match enc {
                Enc::Single(i) => Ok(konst_bytes(vars.get(*i).map_or(0, |v| v.discr), dn)),
                Enc::Empty => unsup("discriminant of an empty enum"),
                Enc::Direct => {
                    let mut p2 = p.clone();
                    p2.off.c += *tag_off as i128;
                    let mut b = self.read(st, &p2, *tag_size)?;
                    b.truncate(dn);
                    while b.len() < dn {
                        b.push(BV::C(0));
                    }
                    Ok(b)
                }
                Enc::Niche { untagged, lo, hi, start } => {
                    if vars.iter().enumerate().any(|(i, v)| v.discr != i as u128) {
                        return unsup("niche with explicit discriminants");
                    }
                    let mut p2 = p.clone();
                    p2.off.c += *tag_off as i128;
                    let b = self.read(st, &p2, *tag_size)?;
                    let v = self.to_iv(st, &b)?;
                    let n = (*hi - *lo) as i128;
                    match v {
                        IV::Ptr(_) | IV::Fn(_) => Ok(konst_bytes(*untagged as u128, dn)),
                        IV::K(a) => {
                            let rel = a.addk(-(*start as i128));
                            let rel = if tag_size < &16 {
                                match rel.as_const() {
                                    Some(c) => Aff::k(c.rem_euclid(1i128 << (8 * tag_size))),
                                    None => rel,
                                }
                            } else {
                                rel
                            };
                            if self.ge0(st, &rel)? && self.ge0(st, &rel.scale(-1).addk(n))? {
                                Ok(aff_bytes(&rel.addk(*lo as i128), dn))
                            } else {
                                Ok(konst_bytes(*untagged as u128, dn))
                            }
                        }
                        IV::Bits(x) => {
                            let w = x.len();
                            let s = self.bdd.konst(*start, w);
                            let rel = self.bdd.sub(&x, &s);
                            let lim = self.bdd.konst(n as u128 + 1, w);
                            let isn = self.bdd.ult(&rel, &lim);
                            let lo = self.bdd.konst(*lo as u128, w);
                            let vi = self.bdd.add(&rel, &lo);
                            let vi = self.bdd.ext(&vi, dn * 8, false);
                            let un = self.bdd.konst(*untagged as u128, dn * 8);
                            let r = self.bdd.mux(isn, &vi, &un);
                            Ok(bits_bytes(&r))
                        }
                        IV::Undef => {
                            self.event(st, "UNINIT", "an uninitialised tag is read".into());
                            Err(Intr::Dead)
                        }
                        IV::Top => unsup("unknown tag"),
                    }
                }
            },
            _ => Ok(konst_bytes(0, dn)),
        }
    }

    pub fn cast(&mut self, st: &mut State, k: CastKind, mut b: Vec<BV>, from: TyId, to: TyId) -> R<Vec<BV>> {
        let ps = self.p.ptr_size();
        let tn = self.p.size(to);
        match k {
            CastKind::IntToInt => {
                let v = self.to_iv(st, &b)?;
                let s = self.is_signed(from);
                let n = b.len();
                let r = self.int_cast(st, v, n, s, tn)?;
                Ok(iv_bytes(&r, tn))
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                b.truncate(tn);
                Ok(b)
            }
            CastKind::PointerExposeAddress | CastKind::PointerWithExposedProvenance => {
                b.truncate(tn);
                Ok(b)
            }
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => {
                b.truncate(tn);
                Ok(b)
            }
            CastKind::PointerCoercion(c) => match c {
                PointerCoercion::ReifyFnPointer(_) => match self.p.t(from).k {
                    TK::FnDef(Some(f)) => Ok((0..ps).map(|i| BV::G(f, i as u8)).collect()),
                    _ => unsup("function pointer"),
                },
                PointerCoercion::ClosureFnPointer(_) => unsup("closure pointer"),
                PointerCoercion::Unsize => {
                    // pointer-like source of one word: find pointee array
                    if b.len() == tn {
                        return Ok(b);
                    }
                    if let Some((arr, _)) = self.pointee(from).zip(self.pointee(to)) {
                        let mut t = arr;
                        loop {
                            match self.p.t(t).k.clone() {
                                TK::Array { n, .. } => {
                                    b.extend(konst_bytes(n as u128, ps));
                                    return Ok(b);
                                }
                                TK::Struct { tys, .. } if !tys.is_empty() => t = *tys.last().unwrap(),
                                _ => break,
                            }
                        }
                    }
                    if let Some((c, d)) = self.pointee(from).zip(self.pointee(to)) {
                        if matches!(self.p.t(d).k, TK::Dyn) {
                            if let Some(g) = self.p.vtable(c, d) {
                                b.extend(ptr_bytes(Rc::new(Ptr { a: GLOB | g, off: Aff::k(0), bits: None }), ps));
                                return Ok(b);
                            }
                        }
                    }
                    // otherwise the vtable is opaque
                    b.extend(vec![BV::T; ps]);
                    Ok(b)
                }
                _ => {
                    b.truncate(tn);
                    Ok(b)
                }
            },
            _ => unsup(format!("cast {k:?}")),
        }
    }
    fn pointee(&self, t: TyId) -> Option<TyId> {
        match &self.p.t(t).k {
            TK::Ptr { to, .. } => Some(*to),
            TK::Struct { tys, .. } => tys.iter().find_map(|&x| self.pointee(x)),
            _ => None,
        }
    }
    pub fn int_cast(&mut self, st: &State, v: IV, n: usize, s: bool, tn: usize) -> R<IV> {
        Ok(match v {
            IV::K(a) => {
                let a = if s && tn > n { self.signed_aff(st, &a, n)? } else { a };
                self.norm(st, a, tn)?
            }
            IV::Bits(x) => {
                let r = self.bdd.ext(&x, tn * 8, s);
                self.fix(r)
            }
            IV::Ptr(p) if tn >= n => IV::Ptr(p),
            x => match x {
                IV::Undef => IV::Undef,
                _ => IV::Top,
            },
        })
    }

    // ------------------------------------------------------------------ statements
    fn stmt(&mut self, st: &mut State, fr: &Fr, s: &St) -> R<()> {
        match s {
            St::Assign(pl, rv) => {
                let v = self.rvalue(st, fr, rv, pl.ty)?;
                if v.is_empty() {
                    return Ok(());
                }
                let (p, _) = self.place(st, fr, pl)?;
                self.write(st, &p, v)
            }
            St::SetDiscr(pl, v) => {
                let k = self.p.t(pl.ty).k.clone();
                if let TK::Enum { tag_off, tag_size, .. } = &k {
                    let (mut p, _) = self.place(st, fr, pl)?;
                    let mut out = vec![BV::U; self.p.size(pl.ty)];
                    self.set_tag(&k, *v, &mut out);
                    let b = out[*tag_off..*tag_off + *tag_size].to_vec();
                    if b.iter().all(|x| *x == BV::U) {
                        return Ok(());
                    }
                    p.off.c += *tag_off as i128;
                    self.write(st, &p, b)?;
                }
                Ok(())
            }
            St::Live(l) | St::Dead(l) => {
                let a = Rc::make_mut(&mut st.stack[fr.base + l]);
                if let Data::Ground(d) = &mut a.d {
                    for x in d.iter_mut() {
                        *x = BV::U;
                    }
                }
                Ok(())
            }
            St::Assume(o) => {
                let b = self.op(st, fr, o)?;
                self.assume(st, &b)
            }
            St::Nop => Ok(()),
            St::CopyNonOverlapping { src, dst, count, el } => {
                let s = self.op_iv(st, fr, src)?;
                let d = self.op_iv(st, fr, dst)?;
                let n = self.op_iv(st, fr, count)?;
                let n = self.need_aff(st, &n)?.scale(self.p.size(*el) as i128);
                self.copy(st, &s, &d, &n)
            }
        }
    }

    /// A promise to the compiler: undefined behaviour unless it holds.
    pub fn assume(&mut self, st: &mut State, b: &[BV]) -> R<()> {
        self.obligations += 1;
        match self.to_iv(st, b)? {
            IV::K(a) => {
                if self.is0(st, &a)? {
                    self.event(st, "UNREACHABLE", "a condition promised to the compiler is false".into());
                    return Err(Intr::Dead);
                }
            }
            IV::Bits(b) => {
                let nb = self.bdd.not(b[0]);
                let bad = self.bdd.and(st.pc, nb);
                if bad != F {
                    let mut s = st.clone();
                    s.pc = bad;
                    self.event(&s, "UNREACHABLE", "a condition promised to the compiler can be false".into());
                }
                st.pc = self.bdd.and(st.pc, b[0]);
                if st.pc == F {
                    return Err(Intr::Dead);
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// Splits a state so that the interrupted step can be repeated; None if not possible at this level.
    fn split(&mut self, st: &State, e: &Intr) -> Option<Vec<State>> {
        match e {
            Intr::Fork(b) => {
                if *b <= 1 {
                    return Some(vec![]);
                }
                let mut a = st.clone();
                a.pc = self.bdd.and(st.pc, *b);
                let mut c = st.clone();
                let nb = self.bdd.not(*b);
                c.pc = self.bdd.and(st.pc, nb);
                Some([a, c].into_iter().filter(|s| s.pc != F).collect())
            }
            Intr::Cond(e) => {
                let s = st.env.v.iter().rev().find(|b| e.coef(b.s) != 0)?.s;
                if !self.exit_syms.contains(&s) {
                    return None;
                }
                let (a, b) = split_env(&st.env, s, e)?;
                let mut x = st.clone();
                x.env = Rc::new(a);
                let mut y = st.clone();
                y.env = Rc::new(b);
                Some(vec![x, y])
            }
            _ => None,
        }
    }

    fn exec_block(&mut self, st: State, fr: &Fr, bi: usize) -> R<(Succ, Vec<State>)> {
        let mut work = vec![(st, 0usize)];
        let mut succ: Succ = vec![];
        let mut rets = vec![];
        let mut forks = 0;
        'w: while let Some((mut st, start)) = work.pop() {
            let blk = &fr.body.blocks[bi];
            for i in start..blk.st.len() {
                self.steps += 1;
                match self.stmt(&mut st, fr, &blk.st[i].0) {
                    Ok(()) => {}
                    Err(Intr::Dead) => continue 'w,
                    Err(e) => match self.split(&st, &e) {
                        Some(v) => {
                            forks += 1;
                            if forks > 4096 {
                                return unsup("too many forks");
                            }
                            for s in v {
                                work.push((s, i));
                            }
                            continue 'w;
                        }
                        None => return Err(self.annotate(e, fr, blk.st[i].1)),
                    },
                }
            }
            self.steps += 1;
            if self.steps > self.max_steps || self.bdd.overflow {
                return unsup("budget");
            }
            if self.steps & 0xfff == 0 {
                if let Some(d) = self.deadline {
                    if std::time::Instant::now() > d {
                        return unsup("time budget");
                    }
                }
            }
            self.saved.push(Some(st.clone()));
            let r = self.term(st, fr, bi);
            let saved = self.saved.pop().unwrap();
            match r {
                Ok((s, r)) => {
                    succ.extend(s);
                    rets.extend(r);
                }
                Err(Intr::Dead) => {}
                Err(e) => match saved.and_then(|s| self.split(&s, &e)) {
                    Some(v) => {
                        forks += 1;
                        if forks > 4096 {
                            return unsup("too many forks");
                        }
                        let n = blk.st.len();
                        for s in v {
                            work.push((s, n));
                        }
                    }
                    None => return Err(self.annotate(e, fr, blk.span)),
                },
            }
        }
        Ok((succ, rets))
    }
    fn annotate(&self, e: Intr, fr: &Fr, sp: rustc_public::ty::Span) -> Intr {
        match e {
            Intr::Unsup(s) if !s.contains(" @ ") => {
                let l = sp.get_lines();
                Intr::Unsup(format!(
                    "{s} @ {} ({}:{})",
                    self.p.fns[fr.f as usize].name,
                    sp.get_filename(),
                    l.start_line
                ))
            }
            e => {
                if self.trace {
                    if let Intr::Cond(_) | Intr::Mod(..) = &e {
                        let l = sp.get_lines();
                        eprintln!("  intr {e:?} at {}:{}", sp.get_filename(), l.start_line);
                    }
                }
                e
            }
        }
    }

    fn term(&mut self, mut st: State, fr: &Fr, bi: usize) -> R<(Succ, Vec<State>)> {
        let body = fr.body;
        match &body.blocks[bi].tm {
            Tm::Goto(b) => Ok((vec![(*b, st)], vec![])),
            Tm::Return => Ok((vec![], vec![st])),
            Tm::Unreachable => {
                self.event(&st, "UNREACHABLE", "reaches code declared unreachable".into());
                Err(Intr::Dead)
            }
            Tm::End | Tm::Asm => unsup("asm"),
            Tm::Switch(o, ty, targets, other) => {
                let n = self.p.size(*ty);
                let v = self.op_iv(&mut st, fr, o)?;
                match v {
                    IV::K(a) => {
                        if n >= 2 && self.limits.is_some() {
                            for (c, _) in targets {
                                if *c < 1 << 21 {
                                    self.note_limit(fr.f, BinOp::Eq, &IV::K(a.clone()), &IV::K(Aff::k(*c as i128)));
                                }
                            }
                        }
                        for (c, t) in targets {
                            let cc = if *c > i128::MAX as u128 { return unsup("wide switch") } else { *c as i128 };
                            if self.is0(&st, &a.addk(-cc))? {
                                return Ok((vec![(*t, st)], vec![]));
                            }
                        }
                        Ok((vec![(*other, st)], vec![]))
                    }
                    IV::Bits(b) => {
                        let mut out: Succ = vec![];
                        let mut rest = st.pc;
                        let mut by: BTreeMap<usize, B> = BTreeMap::new();
                        for (c, t) in targets {
                            let k = self.bdd.konst(*c, n * 8);
                            let e = self.bdd.eq(&b, &k);
                            let e = self.settle(e);
                            let p = self.bdd.and(rest, e);
                            let ne = self.bdd.not(e);
                            rest = self.bdd.and(rest, ne);
                            let q = by.entry(*t).or_insert(F);
                            *q = self.bdd.or(*q, p);
                        }
                        let q = by.entry(*other).or_insert(F);
                        *q = self.bdd.or(*q, rest);
                        for (t, p) in by {
                            if p != F {
                                let mut s = st.clone();
                                s.pc = p;
                                out.push((t, s));
                            }
                        }
                        Ok((out, vec![]))
                    }
                    IV::Ptr(_) | IV::Fn(_) => Ok((vec![(*other, st)], vec![])),
                    IV::Undef => {
                        self.event(&st, "UNINIT", "a branch depends on uninitialised data".into());
                        Err(Intr::Dead)
                    }
                    IV::Top => unsup("branch on an unknown value"),
                }
            }
            Tm::Assert { cond, expected, msg, target, debug_only } => {
                if *debug_only {
                    return Ok((vec![(*target, st)], vec![]));
                }
                self.obligations += 1;
                let v = self.op_iv(&mut st, fr, cond)?;
                let v = if *expected { v } else { self.not_bool(&v) };
                match v {
                    IV::K(a) => {
                        if self.is0(&st, &a)? {
                            self.event(&st, "PANIC", msg.clone());
                            return Err(Intr::Dead);
                        }
                        Ok((vec![(*target, st)], vec![]))
                    }
                    IV::Bits(b) => {
                        let nb = self.bdd.not(b[0]);
                        let bad = self.bdd.and(st.pc, nb);
                        if bad != F {
                            let mut s = st.clone();
                            s.pc = bad;
                            self.event(&s, "PANIC", msg.clone());
                        }
                        st.pc = self.bdd.and(st.pc, b[0]);
                        if st.pc == F {
                            return Err(Intr::Dead);
                        }
                        Ok((vec![(*target, st)], vec![]))
                    }
                    IV::Undef => {
                        self.event(&st, "UNINIT", "an assertion depends on uninitialised data".into());
                        Err(Intr::Dead)
                    }
                    _ => unsup("assertion on an unknown value"),
                }
            }
            Tm::Drop { pl, target, f } => {
                let f = match f {
                    None => return Ok((vec![(*target, st)], vec![])),
                    Some(f) => *f,
                };
                let (p, meta) = self.place(&mut st, fr, pl)?;
                let ps = self.p.ptr_size();
                let mut a = ptr_bytes(Rc::new(p), ps);
                if let Some(m) = meta {
                    a.extend(m);
                }
                let rs = self.call(st, f, vec![a], 0)?;
                Ok((rs.into_iter().map(|(s, _)| (*target, s)).collect(), vec![]))
            }
            Tm::Call { f, args, argtys: _, dest, target } => {
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    av.push(self.op(&mut st, fr, a)?);
                }
                let f = match f {
                    Callee::Fn(f) => Ok(*f),
                    Callee::Asm(m) => Err(m.clone()),
                    Callee::Ptr(o) => match self.op_iv(&mut st, fr, o)? {
                        IV::Fn(f) => Ok(f),
                        _ => return unsup("call through an unknown function pointer"),
                    },
                };
                let dn = self.p.size(dest.ty);
                let rs = match f {
                    Ok(f) => self.call(st, f, av, dn)?,
                    Err(m) => self.asm_insn(st, &m, av, dn)?,
                };
                let mut out = vec![];
                for (mut s, r) in rs {
                    let t = match target {
                        Some(t) => *t,
                        None => continue,
                    };
                    if !r.is_empty() {
                        let (p, _) = self.place(&mut s, fr, dest)?;
                        self.write(&mut s, &p, r)?;
                    }
                    out.push((t, s));
                }
                Ok((out, vec![]))
            }
        }
    }

    // ------------------------------------------------------------------ calls
    pub fn call(&mut self, st: State, f: FnId, args: Vec<Vec<BV>>, dn: usize) -> R<Vec<(State, Vec<BV>)>> {
        // target features
        let missing: Vec<String> = self.p.fns[f as usize]
            .features
            .iter()
            .filter(|x| !self.feats.contains(*x))
            .cloned()
            .collect();
        self.obligations += 1;
        if !missing.is_empty() {
            self.event(
                &st,
                "FEATURE",
                format!("calls {} which requires {}", self.p.fns[f as usize].name, missing.join(",")),
            );
            return Err(Intr::Dead);
        }
        if let Some(r) = self.model(&st, f, &args, dn)? {
            return Ok(r);
        }
        if let Some(idx) = self.p.fns[f as usize].virt {
            // a method of a trait object: look it up in the table
            let ps = self.p.ptr_size();
            if let Some(a0) = args.first().filter(|a| a.len() == 2 * ps) {
                let mut st = st.clone();
                if let IV::Ptr(v) = self.to_iv(&st, &a0[ps..].to_vec())? {
                    let e = self.read(&mut st, &Ptr { a: v.a, off: v.off.addk((idx * ps) as i128), bits: None }, ps)?;
                    if let IV::Fn(g) = self.to_iv(&st, &e)? {
                        let mut args = args;
                        args[0].truncate(ps);
                        return self.call(st, g, args, dn);
                    }
                }
            }
        }
        let body = match self.p.body(f) {
            Some(b) => b,
            None => {
                if let Some(&g) = self.subst.get(&self.p.fns[f as usize].name) {
                    if g != f {
                        return self.call(st, g, args, dn);
                    }
                }
                let fi = &self.p.fns[f as usize];
                return unsup(format!(
                    "no body for {} (link {:?}, intrinsic {:?}, {:?})",
                    fi.name, fi.link_name, fi.intrinsic, fi.inst.kind
                ));
            }
        };
        if self.depth > 300 {
            return unsup("recursion");
        }
        if self.p.fns[f as usize].krate.ends_with("_simd") || self.p.fns[f as usize].krate == "vsimd" {
            let n = self.p.fns[f as usize].name.clone();
            self.fns_seen.insert(n);
        }
        self.exec_fn(st, f, &body, args)
    }

    pub fn exec_fn(&mut self, mut st: State, f: FnId, body: &Body, args: Vec<Vec<BV>>) -> R<Vec<(State, Vec<BV>)>> {
        let base = st.stack.len();
        for &t in &body.locals {
            let i = self.p.t(t);
            let (s, a) = (i.size, i.align as u32);
            st.stack.push(Rc::new(Alloc::ground(AK::Local, s, a)));
        }
        let mut args = args;
        if let Some(sp) = body.spread {
            // RustCall ABI: the last formal parameter is a tuple of the remaining arguments
            let tt = body.locals[sp];
            let rest: Vec<Vec<BV>> = args.split_off(sp - 1);
            if let TK::Struct { offs, .. } = self.p.t(tt).k.clone() {
                let mut out = vec![BV::U; self.p.size(tt)];
                if rest.len() == offs.len() {
                    for (i, b) in rest.into_iter().enumerate() {
                        put(&mut out, offs[i], b);
                    }
                } else if rest.len() == 1 {
                    out = rest.into_iter().next().unwrap();
                }
                args.push(out);
            }
        } else if args.len() != body.nargs && !args.is_empty() {
            // caller passes a tuple for a closure call: untuple it
            let mut flat: Vec<Vec<BV>> = args[..args.len() - 1].to_vec();
            let last = args.last().unwrap().clone();
            let need = body.nargs - flat.len();
            let tys: Vec<TyId> = body.locals[1 + flat.len()..1 + body.nargs].to_vec();
            // compute the tuple layout
            let rt: Vec<rustc_public::ty::Ty> = tys.iter().map(|&t| self.p.t(t).ty).collect();
            let tt = self.p.ty(rustc_public::ty::Ty::new_tuple(&rt));
            if let TK::Struct { offs, .. } = self.p.t(tt).k.clone() {
                for i in 0..need {
                    let n = self.p.size(tys[i]);
                    flat.push(last[offs[i]..offs[i] + n].to_vec());
                }
            }
            args = flat;
        }
        for (i, a) in args.into_iter().enumerate() {
            let al = Rc::make_mut(&mut st.stack[base + 1 + i]);
            if let Data::Ground(d) = &mut al.d {
                if a.len() == d.len() {
                    *d = a;
                } else {
                    return unsup(format!(
                        "argument size mismatch calling {} arg {i} ({} vs {})",
                        self.p.fns[f as usize].name,
                        a.len(),
                        d.len()
                    ));
                }
            }
        }
        let fr = Fr { f, body, base };
        self.cstack.push(f);
        self.depth += 1;
        let r = self.region(&fr, vec![(0, st)], None);
        self.depth -= 1;
        self.cstack.pop();
        let (_, _, rets) = r?;
        let mut out: Vec<State> = vec![];
        for mut s in rets {
            self.kill_frame(&mut s, base, true);
            out.push(s);
        }
        let out = self.merge_all(out);
        let mut res = vec![];
        for mut s in out {
            let r = match &s.stack[base].d {
                Data::Ground(d) => d.clone(),
                _ => vec![],
            };
            s.stack.truncate(base);
            res.push((s, r));
        }
        Ok(res)
    }
    fn kill_frame(&mut self, s: &mut State, base: usize, keep_ret: bool) {
        for i in base + keep_ret as usize..s.stack.len() {
            let a = Rc::make_mut(&mut s.stack[i]);
            if let Data::Ground(d) = &mut a.d {
                for x in d.iter_mut() {
                    *x = BV::U;
                }
            }
        }
    }
    pub fn kill_dead(&mut self, s: &mut State, fr: &Fr, bi: usize) {
        let live = &fr.body.live_in[bi];
        for l in 0..fr.body.locals.len() {
            if fr.body.addr_taken[l] || has(live, l) {
                continue;
            }
            let a = &s.stack[fr.base + l];
            let dirty = match &a.d {
                Data::Ground(d) => d.iter().any(|x| *x != BV::U),
                _ => false,
            };
            if dirty {
                let a = Rc::make_mut(&mut s.stack[fr.base + l]);
                if let Data::Ground(d) = &mut a.d {
                    for x in d.iter_mut() {
                        *x = BV::U;
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------------ regions
    /// Runs from the given entry points. With a loop given, stops at its header and outside it.
    /// Returns (states at the header, states leaving the loop, states returning).
    #[allow(clippy::type_complexity)]
    pub fn region(
        &mut self,
        fr: &Fr,
        entry: Vec<(usize, State)>,
        lp: Option<usize>,
    ) -> R<(Vec<State>, Vec<(usize, State)>, Vec<State>)> {
        let body = fr.body;
        let mut pending: BTreeMap<usize, Vec<State>> = BTreeMap::new();
        let rpo = &body.rpo;
        let mut by_rpo: HashMap<usize, usize> = HashMap::new();
        let mut first = true;
        for (b, s) in entry {
            by_rpo.insert(rpo[b], b);
            pending.entry(rpo[b]).or_default().push(s);
        }
        let mut back = vec![];
        let mut exits: Vec<(usize, State)> = vec![];
        let mut rets = vec![];
        while let Some((&r, _)) = pending.iter().next() {
            let states = pending.remove(&r).unwrap();
            let b = by_rpo[&r];
            let states = if states.len() > 1 {
                let mut v = states;
                for s in v.iter_mut() {
                    self.kill_dead(s, fr, b);
                }
                self.merge_all(v)
            } else {
                states
            };
            if states.len() > 3000 {
                return unsup("too many states");
            }
            for s in states {
                let is_self_header = lp.map_or(false, |l| body.loops[l].header == b);
                let mut outs: Vec<(usize, State)> = vec![];
                if !is_self_header || !first {
                    if let Some(l2) = body.loop_of_header[b] {
                        if !is_self_header {
                            let (ex, rt) = self.run_loop(fr, l2, s)?;
                            outs.extend(ex);
                            rets.extend(rt);
                            self.push(fr, lp, outs, &mut back, &mut exits, &mut pending, &mut by_rpo);
                            continue;
                        }
                    }
                }
                let (su, rt) = self.exec_block(s, fr, b)?;
                outs.extend(su);
                rets.extend(rt);
                self.push(fr, lp, outs, &mut back, &mut exits, &mut pending, &mut by_rpo);
            }
            first = false;
        }
        Ok((back, exits, rets))
    }
    #[allow(clippy::too_many_arguments)]
    fn push(
        &mut self,
        fr: &Fr,
        lp: Option<usize>,
        outs: Vec<(usize, State)>,
        back: &mut Vec<State>,
        exits: &mut Vec<(usize, State)>,
        pending: &mut BTreeMap<usize, Vec<State>>,
        by_rpo: &mut HashMap<usize, usize>,
    ) {
        for (t, s) in outs {
            if let Some(l) = lp {
                if t == fr.body.loops[l].header {
                    back.push(s);
                    continue;
                }
                if !fr.body.loops[l].blocks[t] {
                    exits.push((t, s));
                    continue;
                }
            }
            by_rpo.insert(fr.body.rpo[t], t);
            pending.entry(fr.body.rpo[t]).or_default().push(s);
        }
    }

    // ------------------------------------------------------------------ joins
    pub fn merge_all(&mut self, v: Vec<State>) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        for s in v {
            let mut done = false;
            for o in out.iter_mut() {
                if let Some(m) = self.merge(o, &s) {
                    *o = m;
                    done = true;
                    break;
                }
            }
            if !done {
                out.push(s);
            }
        }
        out
    }
    pub fn merge(&mut self, a: &State, b: &State) -> Option<State> {
        if a.env != b.env
            || a.facts != b.facts
            || a.stack.len() != b.stack.len()
            || a.heap.len() != b.heap.len()
            || a.sinks != b.sinks
            || a.sink.len() != b.sink.len()
        {
            return None;
        }
        if a.pc == F {
            return Some(b.clone());
        }
        if b.pc == F {
            return Some(a.clone());
        }
        // cheap pre-pass: anything unmergeable?
        let pairs = |x: &[Rc<Alloc>], y: &[Rc<Alloc>]| -> bool {
            x.iter().zip(y).all(|(p, q)| Rc::ptr_eq(p, q) || mergeable(p, q))
        };
        if !pairs(&a.stack, &b.stack) || !pairs(&a.heap, &b.heap) {
            return None;
        }
        // statics one side has not touched keep their initial contents there
        let (mut a2, mut b2): (State, State);
        let (a, b) = if a.glob.len() != b.glob.len() || a.glob.keys().ne(b.glob.keys()) {
            a2 = a.clone();
            b2 = b.clone();
            for k in b.glob.keys() {
                self.glob_ensure(&mut a2, *k);
            }
            for k in a.glob.keys() {
                self.glob_ensure(&mut b2, *k);
            }
            (&a2, &b2)
        } else {
            (a, b)
        };
        for (k, v) in &a.glob {
            if let Some(w) = b.glob.get(k) {
                if !Rc::ptr_eq(v, w) && v != w && !mergeable(v, w) {
                    return None;
                }
            }
        }
        let or = self.bdd.or(a.pc, b.pc);
        let c = self.bdd.restrict(a.pc, or);
        let mut r = a.clone();
        r.pc = or;
        for i in 0..r.stack.len() {
            if !Rc::ptr_eq(&a.stack[i], &b.stack[i]) {
                let m = self.merge_alloc(c, &a.stack[i], &b.stack[i]);
                r.stack[i] = Rc::new(m);
            }
        }
        for i in 0..r.heap.len() {
            if !Rc::ptr_eq(&a.heap[i], &b.heap[i]) {
                let m = self.merge_alloc(c, &a.heap[i], &b.heap[i]);
                r.heap[i] = Rc::new(m);
            }
        }
        for (k, w) in &b.glob {
            match a.glob.get(k) {
                Some(v) => {
                    if !Rc::ptr_eq(v, w) {
                        let m = self.merge_alloc(c, v, w);
                        r.glob.insert(*k, Rc::new(m));
                    }
                }
                None => {
                    r.glob.insert(*k, w.clone());
                }
            }
        }
        if a.sink != b.sink {
            let mut v = vec![];
            for (x, y) in a.sink.iter().zip(b.sink.iter()) {
                v.push(self.merge_bv(c, x, y, true));
            }
            r.sink = Rc::new(v);
        }
        Some(r)
    }
    fn merge_alloc(&mut self, c: B, a: &Alloc, b: &Alloc) -> Alloc {
        let mut r = a.clone();
        if let (Data::Ground(x), Data::Ground(y)) = (&a.d, &b.d) {
            let local = a.k == AK::Local;
            let v = x
                .iter()
                .zip(y)
                .map(|(p, q)| if p == q { p.clone() } else { self.merge_bv(c, p, q, local) })
                .collect();
            r.d = Data::Ground(v);
        }
        r
    }
    fn merge_bv(&mut self, c: B, a: &BV, b: &BV, local: bool) -> BV {
        if a == b {
            return a.clone();
        }
        match (a, b) {
            (BV::U, x) | (x, BV::U) => {
                if local {
                    x.clone()
                } else {
                    BV::M
                }
            }
            (BV::M, _) | (_, BV::M) => BV::M,
            _ => match (byte_bits(a), byte_bits(b)) {
                (Some(x), Some(y)) => {
                    let mut r = [F; 8];
                    for i in 0..8 {
                        r[i] = self.bdd.ite(c, x[i], y[i]);
                    }
                    bits_bytes(&r).pop().unwrap()
                }
                _ => BV::T,
            },
        }
    }
}

/// Can the two allocations be joined without losing pointers or affine values?
fn mergeable(a: &Alloc, b: &Alloc) -> bool {
    if a.size != b.size || a.k != b.k {
        return false;
    }
    match (&a.d, &b.d) {
        (Data::Ground(x), Data::Ground(y)) => x.iter().zip(y).all(|(p, q)| {
            if a.k != AK::Local && (*p == BV::U) != (*q == BV::U) {
                return false;
            }
            p == q
                || matches!(p, BV::U | BV::M | BV::T)
                || matches!(q, BV::U | BV::M | BV::T)
                || (matches!(p, BV::C(_) | BV::S(_)) && matches!(q, BV::C(_) | BV::S(_)))
        }) && !lens_differ(a, x, y),
        (x, y) => x == y,
    }
}
/// Joining two different constants of a word-sized local would turn a length or counter into a
/// data-dependent number; keep such states apart.
fn lens_differ(a: &Alloc, x: &[BV], y: &[BV]) -> bool {
    if a.k != AK::Local || x.len() % 8 != 0 || x.len() > 64 {
        return false;
    }
    for i in (0..x.len()).step_by(8) {
        let (p, q) = (&x[i..i + 8], &y[i..i + 8]);
        if p != q
            && p.iter().all(|b| matches!(b, BV::C(_)))
            && q.iter().all(|b| matches!(b, BV::C(_)))
            && p[4..].iter().all(|b| *b == BV::C(0))
            && q[4..].iter().all(|b| *b == BV::C(0))
        {
            // tags are small; treat 0/1 differences as tags
            let v = |s: &[BV]| s.iter().enumerate().fold(0u64, |a, (i, b)| if let BV::C(c) = b { a | (*c as u64) << (8 * i) } else { a });
            let (m, n) = (v(p), v(q));
            if m.max(n) > 1 {
                return true;
            }
        }
    }
    false
}

pub fn put(out: &mut [BV], off: usize, b: Vec<BV>) {
    for (i, x) in b.into_iter().enumerate() {
        if off + i < out.len() {
            out[off + i] = x;
        }
    }
}

pub fn const_op(op: BinOp, x: i128, y: i128, n: usize, signed: bool) -> Option<i128> {
    use BinOp::*;
    let w = 8 * n as u32;
    let m = 1i128 << w;
    let sx = if signed && x >= m / 2 { x - m } else { x };
    let sy = if signed && y >= m / 2 { y - m } else { y };
    let r = match op {
        Add | AddUnchecked => x + y,
        Sub | SubUnchecked => x - y,
        Mul | MulUnchecked => (x as u128).wrapping_mul(y as u128) as i128 & (m - 1),
        BitAnd => x & y,
        BitOr => x | y,
        BitXor => x ^ y,
        Shl | ShlUnchecked => ((x as u128) << (y as u32 % w)) as i128 & (m - 1),
        Shr | ShrUnchecked => sx >> (y as u32 % w),
        Div if y != 0 => sx / sy,
        Rem if y != 0 => sx % sy,
        Eq => (x == y) as i128,
        Ne => (x != y) as i128,
        Lt => (sx < sy) as i128,
        Le => (sx <= sy) as i128,
        Gt => (sx > sy) as i128,
        Ge => (sx >= sy) as i128,
        Cmp => match sx.cmp(&sy) {
            std::cmp::Ordering::Less => 255,
            std::cmp::Ordering::Equal => 0,
            std::cmp::Ordering::Greater => 1,
        },
        _ => return None,
    };
    Some(r.rem_euclid(m))
}

/// Splits the range of symbol s on e >= 0: (environment where e >= 0, environment where e < 0).
pub fn split_env(env: &Env, s: Sym, e: &Aff) -> Option<(Env, Env)> {
    let a = e.coef(s);
    let mut rest = e.clone();
    rest.t.retain(|x| x.0 != s);
    let mut yes = env.clone();
    let mut no = env.clone();
    if a > 0 {
        // s >= ceil(-rest/a) = -floor(rest/a)
        let lo = rest.div_floor(a)?.scale(-1);
        for b in yes.v.iter_mut().filter(|b| b.s == s) {
            b.lo = lo.clone();
        }
        for b in no.v.iter_mut().filter(|b| b.s == s) {
            b.hi = Some(lo.addk(-1));
        }
    } else {
        // s <= floor(rest/-a)
        let hi = rest.div_floor(-a)?;
        for b in yes.v.iter_mut().filter(|b| b.s == s) {
            b.hi = Some(hi.clone());
        }
        for b in no.v.iter_mut().filter(|b| b.s == s) {
            b.lo = hi.addk(1);
        }
    }
    Some((yes, no))
}
