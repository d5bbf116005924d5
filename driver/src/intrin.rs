//! Models of compiler intrinsics, vendor vector intrinsics, the allocator, CPU detection and panics.
use crate::bdd::*;
use crate::interp::*;
use crate::ir::*;
use crate::sym::*;
use crate::val::*;
use rustc_public::mir::BinOp;
use std::collections::HashMap;
use std::rc::Rc;

type Out = R<Option<Vec<(State, Vec<BV>)>>>;

fn one(st: State, v: Vec<BV>) -> Out {
    Ok(Some(vec![(st, v)]))
}

/// Lane-wise operations on bit vectors.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum L {
    Add,
    Sub,
    Mul,
    And,
    Or,
    Xor,
    AndNot,
    MinU,
    MinS,
    MaxU,
    MaxS,
    AddSatU,
    AddSatS,
    SubSatU,
    SubSatS,
    MulHiU,
    MulHiS,
    AvgU,
    Eq,
    LtU,
    LtS,
    Tst,
}

impl<'tcx> Interp<'tcx> {
    // ---------------------------------------------------------------- lanes
    pub fn lanes(&mut self, st: &State, b: &[BV], es: usize) -> R<Vec<IV>> {
        b.chunks(es).map(|c| self.to_iv(st, c)).collect()
    }
    /// Bits of a lane; None if the lane is (partly) undefined or unknown.
    pub fn lane_bits(&mut self, st: &State, v: &IV, w: usize) -> R<Option<Bits>> {
        match v {
            IV::K(a) if a.as_const().is_none() => unsup("length in a vector lane"),
            _ => self.iv_bits(st, v, w),
        }
    }
    fn lane2(&mut self, st: &State, op: L, a: &IV, b: &IV, n: usize) -> R<IV> {
        self.lane2x(st, op, a, b, n, false)
    }
    fn lane2x(&mut self, st: &State, op: L, a: &IV, b: &IV, n: usize, reduce: bool) -> R<IV> {
        if matches!(a, IV::Undef) || matches!(b, IV::Undef) {
            return Ok(IV::Undef);
        }
        let w = n * 8;
        let (x, y) = match (self.lane_bits(st, a, w)?, self.lane_bits(st, b, w)?) {
            (Some(x), Some(y)) => (x, y),
            _ => {
                // absorbing constants
                if op == L::And {
                    for v in [a, b] {
                        if matches!(v, IV::K(k) if k.as_const() == Some(0)) {
                            return Ok(IV::K(Aff::k(0)));
                        }
                    }
                }
                return Ok(IV::Top);
            }
        };
        let r = match op {
            L::MaxU | L::MinU | L::MaxS | L::MinS 
                if self.max_abs && (n >= 2 || reduce) && Self::open(&x) && Self::open(&y) =>
            {
                self.sym_max(op, &x, &y)
            }
            L::Eq | L::LtU | L::LtS | L::Tst => {
                let r = self.bits2(op, &x, &y);
                let b = self.settle(r[0]);
                vec![b; r.len()]
            }
            _ => self.bits2(op, &x, &y),
        };
        Ok(self.fixl(r))
    }
    fn open(b: &[B]) -> bool {
        let mut v: Vec<B> = b.iter().cloned().filter(|x| *x > 1).collect();
        v.sort_unstable();
        v.dedup();
        v.len() > 12.min(b.len() / 2)
    }
    /// Outcome of a test with symbolic maxima expanded where that is possible.
    pub fn settle(&mut self, b: B) -> B {
        if b <= 1 || self.maxes.is_empty() {
            return b;
        }
        self.elim_max(b).unwrap_or(b)
    }
    /// The maximum of wide lanes stays a fresh number with its set of candidates: comparing it with a
    /// constant distributes over the candidates, writing it out would not stay small.
    fn sym_max(&mut self, op: L, x: &[B], y: &[B]) -> Bits {
        let w = x.len();
        let min = matches!(op, L::MinU | L::MinS);
        let sgn = matches!(op, L::MaxS | L::MinS);
        let map = |s: &mut Self, b: &[B]| -> Bits {
            (0..w).map(|i| if min != (sgn && i == w - 1) { s.bdd.not(b[i]) } else { b[i] }).collect()
        };
        let (x, y) = (map(self, x), map(self, y));
        let mut set: Vec<Bits> = vec![];
        for b in [&x, &y] {
            let known = self.maxes.iter().position(|m| m.1 == w && (0..w).all(|i| b[i] == self.bdd.var(m.0 + i as u32)));
            let cand = match known {
                Some(k) => self.maxes[k].2.clone(),
                None => vec![b.to_vec()],
            };
            for c in cand {
                if !set.contains(&c) {
                    set.push(c);
                }
            }
        }
        let base = self.vars.len() as u32;
        for i in 0..w {
            self.vars.push(VarKey::Red(base + i as u32));
            self.bdd.mark_special(base + i as u32);
        }
        self.maxes.push((base, w, set));
        let r: Bits = (0..w).map(|i| self.bdd.var(base + i as u32)).collect();
        map(self, &r)
    }
    /// Replaces symbolic maxima by what they stand for: a function of such a number is a combination of
    /// threshold tests, and `max(S) >= c` holds when some element of S is `>= c`.
    pub fn elim_max(&mut self, f: B) -> R<B> {
        let mut f = f;
        for i in (0..self.maxes.len()).rev() {
            let (base, w, set) = self.maxes[i].clone();
            let sup = self.bdd.special_support(f);
            if !sup.iter().any(|&v| v >= base && v < base + w as u32) {
                continue;
            }
            let mut memo = HashMap::new();
            f = self.elim_one(f, base, w, &set, &mut memo)?;
        }
        Ok(f)
    }
    fn elim_one(&mut self, f: B, base: u32, w: usize, set: &[Bits], memo: &mut HashMap<B, B>) -> R<B> {
        if f <= 1 || self.bdd.top(f) >= base + w as u32 {
            return Ok(f);
        }
        if let Some(&r) = memo.get(&f) {
            return Ok(r);
        }
        let t = self.bdd.top(f);
        let r = if t < base {
            let (l, h) = self.bdd.kids(f);
            let l2 = self.elim_one(l, base, w, set, memo)?;
            let h2 = self.elim_one(h, base, w, set, memo)?;
            let v = self.bdd.var(t);
            self.bdd.ite(v, h2, l2)
        } else {
            let zero = |_: u32| false;
            let at0 = self.bdd.eval(f, &zero);
            let vars: Bits = (0..w).map(|i| self.bdd.var(base + i as u32)).collect();
            let mut g = if at0 { self.bdd.not(f) } else { f };
            let mut r = at0 as B;
            let mut n = 0;
            while g != F {
                n += 1;
                if n > 64 {
                    return unsup("function of a maximum");
                }
                // smallest number with g true, most significant bit first
                let mut c: u128 = 0;
                let mut cur = g;
                for i in (0..w).rev() {
                    let nv = self.bdd.not(vars[i]);
                    let lo = self.bdd.and(cur, nv);
                    if lo != F {
                        cur = lo;
                    } else {
                        c |= 1 << i;
                        cur = self.bdd.and(cur, vars[i]);
                    }
                }
                let k = self.bdd.konst(c, w);
                let lt = self.bdd.ult(&vars, &k);
                let ge = self.bdd.not(lt);
                g = self.bdd.xor(g, ge);
                let mut any = F;
                for h in set {
                    let lt = self.bdd.ult(h, &k);
                    let ge = self.bdd.not(lt);
                    any = self.bdd.or(any, ge);
                }
                r = self.bdd.xor(r, any);
            }
            r
        };
        memo.insert(f, r);
        Ok(r)
    }
    /// One assembly instruction with two inputs and one output.
    pub fn asm_insn(&mut self, st: State, mn: &str, args: Vec<Vec<BV>>, dn: usize) -> R<Vec<(State, Vec<BV>)>> {
        let (op, es) = match mn {
            "vpavgb" => (L::AvgU, 1),
            "vpavgw" => (L::AvgU, 2),
            "vpaddb" => (L::Add, 1),
            "vpsubb" => (L::Sub, 1),
            "vpmaxub" => (L::MaxU, 1),
            "vpminub" => (L::MinU, 1),
            "vpand" => (L::And, 1),
            "vpor" => (L::Or, 1),
            "vpxor" => (L::Xor, 1),
            "vpaddusb" => (L::AddSatU, 1),
            "vpaddsb" => (L::AddSatS, 1),
            "vpsubusb" => (L::SubSatU, 1),
            "vpsubsb" => (L::SubSatS, 1),
            _ => return unsup(format!("instruction {mn}")),
        };
        let need = if dn == 32 { "avx2" } else { "avx" };
        self.obligations += 1;
        if !self.feats.contains(need) {
            self.event(&st, "FEATURE", format!("executes {mn} on {dn}-byte registers, which requires {need}"));
            return Err(Intr::Dead);
        }
        if args.len() != 2 || args[0].len() != dn || args[1].len() != dn {
            return unsup("asm operands");
        }
        let r = self.vec2(&st, op, &args[0], &args[1], es)?;
        Ok(vec![(st, r)])
    }
    fn fixl(&self, b: Bits) -> IV {
        self.fix(b)
    }
    fn bits2(&mut self, op: L, x: &[B], y: &[B]) -> Bits {
        let w = x.len();
        let d = &mut self.bdd;
        match op {
            L::Add => d.add(x, y),
            L::Sub => d.sub(x, y),
            L::Mul => d.mul(x, y),
            L::And => (0..w).map(|i| d.and(x[i], y[i])).collect(),
            L::Or => (0..w).map(|i| d.or(x[i], y[i])).collect(),
            L::Xor => (0..w).map(|i| d.xor(x[i], y[i])).collect(),
            L::AndNot => (0..w)
                .map(|i| {
                    let n = d.not(y[i]);
                    d.and(x[i], n)
                })
                .collect(),
            L::MinU => {
                let c = d.ult(x, y);
                d.mux(c, x, y)
            }
            L::MaxU => {
                let c = d.ult(x, y);
                d.mux(c, y, x)
            }
            L::MinS => {
                let c = d.slt(x, y);
                d.mux(c, x, y)
            }
            L::MaxS => {
                let c = d.slt(x, y);
                d.mux(c, y, x)
            }
            L::AddSatU => {
                let (s, c) = d.add_c(x, y, F);
                s.iter().map(|&b| d.or(b, c)).collect()
            }
            L::SubSatU => {
                let lt = d.ult(x, y);
                let nl = d.not(lt);
                let s = d.sub(x, y);
                s.iter().map(|&b| d.and(b, nl)).collect()
            }
            L::AddSatS | L::SubSatS => {
                let xe = d.ext(x, w + 1, true);
                let ye = d.ext(y, w + 1, true);
                let s = if op == L::AddSatS { d.add(&xe, &ye) } else { d.sub(&xe, &ye) };
                let ov = d.xor(s[w], s[w - 1]);
                // saturated value: sign s[w]: negative -> 100..0, positive -> 011..1
                let neg = s[w];
                let pos = d.not(neg);
                (0..w)
                    .map(|i| {
                        let sat = if i == w - 1 { neg } else { pos };
                        d.ite(ov, sat, s[i])
                    })
                    .collect()
            }
            L::MulHiU | L::MulHiS => {
                let s = op == L::MulHiS;
                let xe = d.ext(x, 2 * w, s);
                let ye = d.ext(y, 2 * w, s);
                let m = d.mul(&xe, &ye);
                m[w..].to_vec()
            }
            L::AvgU => {
                let xe = d.ext(x, w + 1, false);
                let ye = d.ext(y, w + 1, false);
                let (s, _) = d.add_c(&xe, &ye, T);
                s[1..].to_vec()
            }
            L::Eq => {
                let c = d.eq(x, y);
                vec![c; w]
            }
            L::LtU => {
                let c = d.ult(x, y);
                vec![c; w]
            }
            L::LtS => {
                let c = d.slt(x, y);
                vec![c; w]
            }
            L::Tst => {
                let mut r = F;
                for i in 0..w {
                    let a = d.and(x[i], y[i]);
                    r = d.or(r, a);
                }
                vec![r; w]
            }
        }
    }
    pub fn vec2(&mut self, st: &State, op: L, a: &[BV], b: &[BV], es: usize) -> R<Vec<BV>> {
        let mut out = Vec::with_capacity(a.len());
        // byte-wise logic needs no lane structure
        let es = if matches!(op, L::And | L::Or | L::Xor | L::AndNot) { 1 } else { es };
        for (x, y) in a.chunks(es).zip(b.chunks(es)) {
            let x = self.to_iv(st, x)?;
            let y = self.to_iv(st, y)?;
            let r = self.lane2(st, op, &x, &y, es)?;
            out.extend(iv_bytes(&r, es));
        }
        Ok(out)
    }
    /// Table lookup by byte index: `f(index bits)` chooses (zero?, index into t); t.len() power of two.
    fn lookup(&mut self, st: &State, t: &[BV], idx: &BV, nbits: usize, zero: &dyn Fn(&mut Bdd, &[B; 8]) -> B) -> R<BV> {
        let bits = match idx {
            BV::U => return Ok(BV::U),
            _ => match byte_bits(idx) {
                Some(b) => b,
                None => return Ok(BV::T),
            },
        };
        let z = zero(&mut self.bdd, &bits);
        if z == T {
            return Ok(BV::C(0));
        }
        let r = self.mux_table(st, t, &bits[..nbits])?;
        if z == F {
            return Ok(r);
        }
        let rb = match byte_bits(&r) {
            Some(b) => b,
            None => return Ok(if r == BV::U { BV::U } else { BV::T }),
        };
        let nz = self.bdd.not(z);
        let mut o = [F; 8];
        for i in 0..8 {
            o[i] = self.bdd.and(rb[i], nz);
        }
        Ok(bits_bytes(&o).pop().unwrap())
    }
    pub fn mux_table(&mut self, st: &State, t: &[BV], bits: &[B]) -> R<BV> {
        let _ = st;
        if bits.is_empty() {
            return Ok(t[0].clone());
        }
        let h = t.len() / 2;
        let b = bits[bits.len() - 1];
        let rest = &bits[..bits.len() - 1];
        if b == F {
            return self.mux_table(st, &t[..h], rest);
        }
        if b == T {
            return self.mux_table(st, &t[h..], rest);
        }
        let lo = self.mux_table(st, &t[..h], rest)?;
        let hi = self.mux_table(st, &t[h..], rest)?;
        if lo == hi {
            return Ok(lo);
        }
        match (byte_bits(&lo), byte_bits(&hi)) {
            (Some(x), Some(y)) => {
                let mut o = [F; 8];
                for i in 0..8 {
                    o[i] = self.bdd.ite(b, y[i], x[i]);
                }
                Ok(bits_bytes(&o).pop().unwrap())
            }
            _ => Ok(if lo == BV::U || hi == BV::U { BV::U } else { BV::T }),
        }
    }
    fn pshufb(&mut self, st: &State, a: &[BV], m: &[BV]) -> R<Vec<BV>> {
        let mut out = vec![];
        for (i, x) in m.iter().enumerate() {
            let base = i / 16 * 16;
            let t = &a[base..base + 16];
            out.push(self.lookup(st, t, x, 4, &|_, b| b[7])?);
        }
        Ok(out)
    }
    fn pack_sat(&mut self, st: &State, a: &[BV], b: &[BV], es: usize, signed: bool) -> R<Vec<BV>> {
        // per 128-bit lane: a's lanes then b's, signed source, saturated to es/2 bytes
        let h = es / 2;
        let mut out = vec![];
        for base in (0..a.len()).step_by(16) {
            for v in [a, b] {
                for c in v[base..base + 16].chunks(es) {
                    let iv = self.to_iv(st, c)?;
                    let r = self.narrow_sat(st, &iv, es * 8, h * 8, true, signed)?;
                    out.extend(iv_bytes(&r, h));
                }
            }
        }
        Ok(out)
    }
    fn narrow_sat(&mut self, st: &State, v: &IV, w: usize, nw: usize, src_signed: bool, dst_signed: bool) -> R<IV> {
        if matches!(v, IV::Undef) {
            return Ok(IV::Undef);
        }
        let x = match self.lane_bits(st, v, w)? {
            Some(x) => x,
            None => return Ok(IV::Top),
        };
        let d = &mut self.bdd;
        let (lo, hi): (i128, i128) =
            if dst_signed { (-(1 << (nw - 1)), (1 << (nw - 1)) - 1) } else { (0, (1 << nw) - 1) };
        let lok = d.konst(lo as u128, w);
        let hik = d.konst(hi as u128, w);
        let (below, above) = if src_signed {
            (d.slt(&x, &lok), d.slt(&hik, &x))
        } else {
            (F, d.ult(&hik, &x))
        };
        let t: Bits = x[..nw].to_vec();
        let r = d.mux(above, &hik[..nw], &t);
        let r = d.mux(below, &lok[..nw], &r);
        Ok(self.fix(r))
    }
    fn madd(&mut self, st: &State, a: &[BV], b: &[BV], es: usize, a_signed: bool, b_signed: bool, sat: bool) -> R<Vec<BV>> {
        // pairs of es-byte lanes -> one 2*es-byte lane
        let mut out = vec![];
        let w = es * 16;
        for (x, y) in a.chunks(2 * es).zip(b.chunks(2 * es)) {
            let mut sum: Option<Bits> = Some(vec![F; w + 1]);
            let mut undef = false;
            for j in 0..2 {
                let p = self.to_iv(st, &x[j * es..(j + 1) * es])?;
                let q = self.to_iv(st, &y[j * es..(j + 1) * es])?;
                undef |= matches!(p, IV::Undef) || matches!(q, IV::Undef);
                let (p, q) = (self.lane_bits(st, &p, es * 8)?, self.lane_bits(st, &q, es * 8)?);
                match (p, q, sum.take()) {
                    (Some(p), Some(q), Some(s)) => {
                        let p = self.bdd.ext(&p, w + 1, a_signed);
                        let q = self.bdd.ext(&q, w + 1, b_signed);
                        let m = self.bdd.mul(&p, &q);
                        sum = Some(self.bdd.add(&s, &m));
                    }
                    _ => {}
                }
            }
            let r = match sum {
                _ if undef => IV::Undef,
                None => IV::Top,
                Some(s) => {
                    if sat {
                        let v = IV::Bits(s);
                        self.narrow_sat(st, &v, w + 1, w, true, true)?
                    } else {
                        self.fix(s[..w].to_vec())
                    }
                }
            };
            out.extend(iv_bytes(&r, 2 * es));
        }
        Ok(out)
    }
    fn movemask(&mut self, st: &State, a: &[BV], es: usize) -> R<Vec<B>> {
        let mut out = vec![];
        for c in a.chunks(es) {
            let b = &c[es - 1];
            match byte_bits(b) {
                Some(x) => {
                    let y = self.settle(x[7]);
                    out.push(y)
                }
                None => {
                    if *b == BV::U {
                        self.event(st, "UNINIT", "a mask is computed from uninitialised bytes".into());
                        return Err(Intr::Dead);
                    }
                    return unsup("mask of unknown bytes");
                }
            }
        }
        Ok(out)
    }
    /// OR of all bits of a & m (m None: a alone); undefined bytes are reported.
    fn any_bit(&mut self, st: &State, a: &[BV], m: Option<&[BV]>, neg_a: bool) -> R<B> {
        let mut r = F;
        for i in 0..a.len() {
            let y = match m {
                Some(m) => match byte_bits(&m[i]) {
                    Some(b) => Some(b),
                    None => None,
                },
                None => Some([T; 8]),
            };
            let x = byte_bits(&a[i]);
            match (x, y) {
                (Some(x), Some(y)) => {
                    for q in 0..8 {
                        let xa = if neg_a { self.bdd.not(x[q]) } else { x[q] };
                        let z = self.bdd.and(xa, y[q]);
                        r = self.bdd.or(r, z);
                    }
                }
                (_, Some(y)) if y == [F; 8] => {}
                (Some(x), _) if (!neg_a && x == [F; 8]) || (neg_a && x == [T; 8]) => {}
                _ => {
                    if a[i] == BV::U || m.map_or(false, |m| m[i] == BV::U) {
                        self.event(st, "UNINIT", "a test depends on uninitialised bytes".into());
                        return Err(Intr::Dead);
                    }
                    return unsup("test of unknown bytes");
                }
            }
        }
        let r = self.settle(r);
        Ok(r)
    }
    fn bool_bytes(&mut self, b: B, n: usize) -> Vec<BV> {
        let mut v = vec![F; n * 8];
        v[0] = b;
        bits_bytes(&v)
    }
    fn kconst(&mut self, st: &State, b: &[BV]) -> R<i128> {
        let v = self.to_iv(st, b)?;
        match self.need_aff(st, &v)?.as_const() {
            Some(c) => Ok(c),
            None => unsup("constant expected"),
        }
    }
    /// Per-lane shift amounts.
    fn lane_shift(&mut self, st: &State, a: &IV, amt: &IV, n: usize, left: bool, signed: bool) -> R<IV> {
        if matches!(a, IV::Undef) || matches!(amt, IV::Undef) {
            return Ok(IV::Undef);
        }
        let w = n * 8;
        match (self.lane_bits(st, a, w)?, self.lane_bits(st, amt, w)?) {
            (Some(x), Some(y)) => {
                if let Some(c) = Bdd::as_const(&y) {
                    let c = c.min(w as u128) as usize;
                    let r = if left { self.bdd.shl_c(&x, c) } else { self.bdd.shr_c(&x, c, signed) };
                    return Ok(self.fix(r));
                }
                let r = self.bdd.shift_var(&x, &y, left, signed);
                Ok(self.fix(r))
            }
            _ => Ok(IV::Top),
        }
    }

    fn simd_ty(&self, f: FnId, i: usize) -> R<(TyId, usize, usize)> {
        // (element type, element size, lanes)
        match self.p.fns[f as usize].args.iter().filter(|a| matches!(a, GArg::Ty(_))).nth(i) {
            Some(GArg::Ty(t)) => match self.p.t(*t).simd {
                Some((el, n)) => Ok((el, self.p.size(el), n)),
                None => match self.p.t(*t).k {
                    TK::Array { el, n } => Ok((el, self.p.size(el), n as usize)),
                    _ => Ok((*t, self.p.size(*t), 1)),
                },
            },
            _ => unsup("vector type"),
        }
    }
    fn gty(&self, f: FnId, i: usize) -> Option<TyId> {
        self.p.fns[f as usize]
            .args
            .iter()
            .filter_map(|a| if let GArg::Ty(t) = a { Some(*t) } else { None })
            .nth(i)
    }
    fn gconst(&mut self, f: FnId, i: usize) -> Option<Vec<BV>> {
        let c = self.p.fns[f as usize]
            .args
            .iter()
            .filter_map(|a| if let GArg::Const(c) = a { Some(c.clone()) } else { None })
            .nth(i)??;
        Some(self.cbytes(&c))
    }

    // ---------------------------------------------------------------- entry point
    pub fn model(&mut self, st: &State, f: FnId, args: &[Vec<BV>], dn: usize) -> Out {
        let fi = &self.p.fns[f as usize];
        if let Some(ln) = &fi.link_name {
            if ln.starts_with("llvm.") {
                let ln = ln.clone();
                return self.llvm(st, f, &ln, args, dn);
            }
        }
        if let Some(n) = &fi.intrinsic {
            let n = n.clone();
            return self.intrinsic(st, f, &n, args, dn);
        }
        if fi.empty_shim {
            return one(st.clone(), vec![]);
        }
        let name = fi.name.clone();
        let base = name.split("::<").next().unwrap_or(&name).to_string();
        let last = base.rsplit("::").next().unwrap_or("");
        if fi.foreign || last.starts_with("__rust_") || last.starts_with("__rustc") {
            return self.foreign(st, last, args);
        }
        // CPU feature detection
        if base.contains("__is_feature_detected") {
            let feat = match last {
                "sse4_1" => "sse4.1".to_string(),
                "sse4_2" => "sse4.2".to_string(),
                x => x.to_string(),
            };
            let r = self.feats.contains(&feat);
            self.detected.insert(feat);
            return one(st.clone(), vec![BV::C(r as u8)]);
        }
        // panics
        if fi.never {
            let detail = if base.contains("handle_alloc_error")
                || base.contains("capacity_overflow")
                || base.contains("raw_vec::handle_error")
            {
                self.event(st, "ALLOCFAIL", base.clone());
                return Err(Intr::Dead);
            } else {
                format!("reaches {base}")
            };
            self.event(st, "PANIC", detail);
            return Err(Intr::Dead);
        }
        // lane-wise maxima and minima (defined in the standard library by a comparison and a selection)
        if fi.krate == "core" && args.len() == 2 && args[0].len() == args[1].len() {
            if let Some((op, es)) = self.minmax_fn(f, last) {
                let r = self.vec2(st, op, &args[0], &args[1], es)?;
                return one(st.clone(), r);
            }
        }
        // formatting sink
        if (base.contains("fmt::Display") && name.contains("<str as")) && last == "fmt"
            || base.ends_with("Formatter::pad")
            || base.ends_with("Formatter::write_str")
            || (base.ends_with("::write_str") && base.contains("Formatter"))
            || name == "std::fmt::Formatter::<'_>::pad"
            || name == "std::fmt::Formatter::<'_>::write_str"
        {
            let sarg = if args[0].len() == 2 * self.p.ptr_size() { &args[0] } else { &args[1] };
            return self.sink(st, sarg, dn);
        }
        Ok(None)
    }

    fn minmax_fn(&mut self, f: FnId, last: &str) -> Option<(L, usize)> {
        let pick = |max: bool, sg: bool| match (max, sg) {
            (true, true) => L::MaxS,
            (true, false) => L::MaxU,
            (false, true) => L::MinS,
            (false, false) => L::MinU,
        };
        if last == "simd_imax" || last == "simd_imin" {
            let (el, es, _) = self.simd_ty(f, 0).ok()?;
            return Some((pick(last == "simd_imax", self.is_signed(el)), es));
        }
        let lane = |t: &str| -> Option<usize> {
            match t {
                "8" | "8x16" => Some(1),
                "16" | "16x8" => Some(2),
                "32" | "32x4" => Some(4),
                _ => None,
            }
        };
        for (p, max) in [("vmaxq_", true), ("vminq_", false), ("vmax_", true), ("vmin_", false)] {
            if let Some(t) = last.strip_prefix(p) {
                let sg = t.starts_with('s');
                if sg || t.starts_with('u') {
                    return Some((pick(max, sg), lane(&t[1..])?));
                }
            }
        }
        for (p, max) in [("_max", true), ("_min", false)] {
            if let Some(t) = last.strip_suffix(p) {
                let sg = t.starts_with('i');
                if (sg || t.starts_with('u')) && t.contains('x') {
                    return Some((pick(max, sg), lane(&t[1..])?));
                }
            }
        }
        None
    }

    fn sink(&mut self, st: &State, s: &[BV], dn: usize) -> Out {
        let ps = self.p.ptr_size();
        let p = self.to_iv(st, &s[..ps])?;
        let n = self.kconst(st, &s[ps..])?;
        let mut st = st.clone();
        if n > 0 {
            let p = self.need_ptr(&st, &p)?;
            let b = self.read(&mut st, &p, n as usize)?;
            Rc::make_mut(&mut st.sink).extend(b);
        }
        st.sinks += 1;
        one(st, vec![BV::C(0); dn])
    }

    // ---------------------------------------------------------------- allocator
    fn foreign(&mut self, st: &State, name: &str, args: &[Vec<BV>]) -> Out {
        let ps = self.p.ptr_size();
        let mut st = st.clone();
        match name {
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let n = self.to_iv(&st, &args[0])?;
                let n = self.need_aff(&st, &n)?;
                let al = self.kconst(&st, &args[1])?;
                self.allocs += 1;
                if n.as_const() == Some(0) {
                    self.event(&st, "DEALLOC", "zero-sized allocation request".into());
                }
                let zero = name.ends_with("zeroed");
                let d = match n.as_const() {
                    Some(c) if c <= 1 << 20 => Data::Ground(vec![if zero { BV::C(0) } else { BV::U }; c as usize]),
                    _ => {
                        if zero {
                            return unsup("zeroed symbolic allocation");
                        }
                        Data::Sym { input: None, ws: vec![] }
                    }
                };
                let a = st.add_heap(Alloc { size: n, align: al as u32, k: AK::Heap, ro: false, d });
                let p = Rc::new(Ptr { a, off: Aff::k(0), bits: None });
                one(st, ptr_bytes(p, ps))
            }
            "__rust_dealloc" => {
                let p = self.to_iv(&st, &args[0])?;
                let p = self.need_ptr(&st, &p)?;
                let n = self.to_iv(&st, &args[1])?;
                let n = self.need_aff(&st, &n)?;
                self.obligations += 1;
                let (k, sz) = match st.get(p.a) {
                    Some(a) => (a.k, a.size.clone()),
                    None => (AK::Dead, Aff::k(0)),
                };
                if k != AK::Heap || !self.is0(&st, &p.off)? || !self.is0(&st, &sz.sub(&n))? {
                    self.event(
                        &st,
                        "DEALLOC",
                        format!("frees {n} bytes at offset {} of a block of {sz} bytes ({k:?})", p.off),
                    );
                    return Err(Intr::Dead);
                }
                let a = st.get_mut(p.a).unwrap();
                a.k = AK::Dead;
                a.d = Data::Ground(vec![]);
                one(st, vec![])
            }
            "__rust_realloc" => {
                let p = self.to_iv(&st, &args[0])?;
                let p = self.need_ptr(&st, &p)?;
                let n = self.to_iv(&st, &args[1])?;
                let n = self.need_aff(&st, &n)?;
                let al = self.kconst(&st, &args[2])?;
                let m = self.to_iv(&st, &args[3])?;
                let m = self.need_aff(&st, &m)?;
                self.obligations += 1;
                self.allocs += 1;
                let old = match st.get(p.a) {
                    Some(a) if a.k == AK::Heap => a.clone(),
                    _ => {
                        self.event(&st, "DEALLOC", "reallocates a block that is not live".into());
                        return Err(Intr::Dead);
                    }
                };
                if !self.is0(&st, &p.off)? || !self.is0(&st, &old.size.sub(&n))? {
                    self.event(&st, "DEALLOC", format!("reallocates a block of {} bytes as {n} bytes", old.size));
                    return Err(Intr::Dead);
                }
                let d = match (&old.d, m.as_const()) {
                    (Data::Ground(d), Some(c)) if c <= 1 << 20 => {
                        let mut d = d.clone();
                        d.resize(c as usize, BV::U);
                        Data::Ground(d)
                    }
                    (Data::Ground(d), _) => {
                        let mut ws = vec![];
                        if !d.is_empty() {
                            ws.push(W::G { off: Aff::k(0), bytes: Rc::new(d.clone()) });
                        }
                        Data::Sym { input: None, ws }
                    }
                    (Data::Sym { input, ws }, _) => {
                        if !self.ge0(&st, &m.sub(&n))? {
                            // shrinking: the tail is gone; later reads are bounds-checked against the new size
                        }
                        Data::Sym { input: *input, ws: ws.clone() }
                    }
                };
                let a = st.add_heap(Alloc { size: m, align: al as u32, k: AK::Heap, ro: false, d });
                let o = st.get_mut(p.a).unwrap();
                o.k = AK::Dead;
                o.d = Data::Ground(vec![]);
                let p = Rc::new(Ptr { a, off: Aff::k(0), bits: None });
                one(st, ptr_bytes(p, ps))
            }
            n if n.starts_with("__rust_no_alloc_shim") => one(st, vec![]),
            "memcmp" | "bcmp" => {
                let n = self.kconst(&st, &args[2])?;
                let r = self.memcmp(&mut st, &args[0], &args[1], n as usize)?;
                one(st, r)
            }
            _ => Ok(None),
        }
    }
    fn memcmp(&mut self, st: &mut State, a: &[BV], b: &[BV], n: usize) -> R<Vec<BV>> {
        if n == 0 {
            return Ok(konst_bytes(0, 4));
        }
        let p = self.to_iv(st, a)?;
        let q = self.to_iv(st, b)?;
        let p = self.need_ptr(st, &p)?;
        let q = self.need_ptr(st, &q)?;
        let x = self.read(st, &p, n)?;
        let y = self.read(st, &q, n)?;
        // result: -1/0/1 by first difference
        let mut lt = F;
        let mut eq = T;
        for i in 0..n {
            let (u, v) = match (byte_bits(&x[i]), byte_bits(&y[i])) {
                (Some(u), Some(v)) => (u, v),
                _ => {
                    if x[i] == BV::U || y[i] == BV::U {
                        self.event(st, "UNINIT", "a comparison reads uninitialised bytes".into());
                        return Err(Intr::Dead);
                    }
                    return unsup("comparison of unknown bytes");
                }
            };
            let l = self.bdd.ult(&u, &v);
            let e = self.bdd.eq(&u, &v);
            let l2 = self.bdd.and(eq, l);
            lt = self.bdd.or(lt, l2);
            eq = self.bdd.and(eq, e);
        }
        let ne = self.bdd.not(eq);
        let mut bits = vec![lt; 32];
        bits[0] = ne;
        Ok(bits_bytes(&bits))
    }

    // ---------------------------------------------------------------- compiler intrinsics
    fn intrinsic(&mut self, st: &State, f: FnId, name: &str, args: &[Vec<BV>], dn: usize) -> Out {
        let ps = self.p.ptr_size();
        if let Some(s) = name.strip_prefix("simd_") {
            let s = s.to_string();
            return self.simd(st, f, &s, args, dn);
        }
        let t0 = self.gty(f, 0);
        let n0 = t0.map_or(0, |t| self.p.size(t));
        let sg = t0.map_or(false, |t| self.is_signed(t));
        macro_rules! iv {
            ($i:expr) => {
                self.to_iv(st, &args[$i])?
            };
        }
        macro_rules! bin {
            ($op:expr) => {{
                let (a, b) = (iv!(0), iv!(1));
                let bn = args[1].len();
                let r = self.binop(st, $op, &a, &b, n0, bn, sg)?;
                one(st.clone(), iv_bytes(&r, dn))
            }};
        }
        match name {
            "black_box" | "transmute" | "transmute_unchecked" => one(st.clone(), args[0].clone()),
            "assume" => {
                let mut s = st.clone();
                self.assume(&mut s, &args[0])?;
                one(s, vec![])
            }
            "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path"
            | "forget" | "prefetch_read_data" => one(st.clone(), vec![]),
            "likely" | "unlikely" => one(st.clone(), args[0].clone()),
            "needs_drop" => one(st.clone(), vec![BV::C(1)]),
            "ub_checks" | "is_val_statically_known" | "contract_checks" => one(st.clone(), vec![BV::C(0)]),
            "overflow_checks" => one(st.clone(), vec![BV::C(1)]),
            "size_of" => one(st.clone(), konst_bytes(n0 as u128, ps)),
            "align_of" | "min_align_of" | "pref_align_of" => {
                one(st.clone(), konst_bytes(t0.map_or(1, |t| self.p.t(t).align) as u128, ps))
            }
            "size_of_val" => {
                let t = t0.unwrap();
                let ti = self.p.t(t);
                if ti.sized {
                    return one(st.clone(), konst_bytes(n0 as u128, ps));
                }
                let el = match ti.k {
                    TK::Slice { el } => self.p.size(el),
                    TK::Str => 1,
                    _ => return unsup("size of a dynamic value"),
                };
                let n = self.to_iv(st, &args[0][ps..])?;
                let n = self.need_aff(st, &n)?;
                one(st.clone(), aff_bytes(&n.scale(el as i128), ps))
            }
            "align_of_val" | "min_align_of_val" => {
                let t = t0.unwrap();
                let a = match self.p.t(t).k {
                    TK::Slice { el } => self.p.t(el).align,
                    TK::Dyn => return unsup("alignment of a dynamic value"),
                    _ => self.p.t(t).align,
                };
                one(st.clone(), konst_bytes(a as u128, ps))
            }
            "wrapping_add" | "unchecked_add" => bin!(BinOp::Add),
            "wrapping_sub" | "unchecked_sub" => bin!(BinOp::Sub),
            "wrapping_mul" | "unchecked_mul" => bin!(BinOp::Mul),
            "unchecked_shl" => bin!(BinOp::Shl),
            "unchecked_shr" => bin!(BinOp::Shr),
            "unchecked_div" => bin!(BinOp::Div),
            "exact_div" => bin!(BinOp::Div),
            "unchecked_rem" => bin!(BinOp::Rem),
            "disjoint_bitor" => bin!(BinOp::BitOr),
            "three_way_compare" => bin!(BinOp::Cmp),
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match &name[..3] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let (a, b) = (iv!(0), iv!(1));
                let (v, o) = self.checked(st, op, &a, &b, n0, n0, sg)?;
                let mut out = iv_bytes(&v, n0);
                out.extend(iv_bytes(&o, 1));
                out.resize(dn, BV::U);
                one(st.clone(), out)
            }
            "saturating_add" | "saturating_sub" => {
                let (a, b) = (iv!(0), iv!(1));
                let add = name.ends_with("add");
                let nonc = |v: &IV| matches!(v, IV::K(k) if k.as_const().is_none());
                if nonc(&a) || nonc(&b) {
                    let op = if add { BinOp::Add } else { BinOp::Sub };
                    let (v, o) = self.checked(st, op, &a, &b, n0, n0, sg)?;
                    let o = self.need_aff(st, &o)?;
                    if o.c != 0 {
                        let k = if add { (1i128 << (8 * n0)) - 1 } else { 0 };
                        return one(st.clone(), konst_bytes(k as u128, n0));
                    }
                    return one(st.clone(), iv_bytes(&v, n0));
                }
                let op = match (add, sg) {
                    (true, false) => L::AddSatU,
                    (true, true) => L::AddSatS,
                    (false, false) => L::SubSatU,
                    (false, true) => L::SubSatS,
                };
                let r = self.lane2(st, op, &a, &b, n0)?;
                one(st.clone(), iv_bytes(&r, n0))
            }
            "rotate_left" | "rotate_right" => {
                let a = iv!(0);
                let k = self.kconst(st, &args[1])? as usize % (8 * n0);
                match self.iv_bits(st, &a, 8 * n0)? {
                    Some(x) => {
                        let w = 8 * n0;
                        let k = if name == "rotate_left" { w - k } else { k };
                        let r: Bits = (0..w).map(|i| x[(i + k) % w]).collect();
                        let r = self.fix(r);
                        one(st.clone(), iv_bytes(&r, n0))
                    }
                    None => one(st.clone(), vec![if a == IV::Undef { BV::U } else { BV::T }; n0]),
                }
            }
            "bswap" => {
                let mut v = args[0].clone();
                if v.iter().any(|b| matches!(b, BV::A(..) | BV::P(..))) {
                    return unsup("byte swap of a length");
                }
                v.reverse();
                one(st.clone(), v)
            }
            "bitreverse" => {
                let a = iv!(0);
                match self.iv_bits(st, &a, 8 * n0)? {
                    Some(mut x) => {
                        x.reverse();
                        let r = self.fix(x);
                        one(st.clone(), iv_bytes(&r, n0))
                    }
                    None => one(st.clone(), vec![if a == IV::Undef { BV::U } else { BV::T }; n0]),
                }
            }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
                let a = iv!(0);
                if matches!(a, IV::Undef) {
                    return one(st.clone(), vec![BV::U; dn]);
                }
                if let IV::K(k) = &a {
                    if k.as_const().is_none() {
                        return unsup("bit count of a length");
                    }
                }
                match self.iv_bits(st, &a, 8 * n0)? {
                    Some(x) => {
                        let w = 8 * n0;
                        let ow = dn * 8;
                        let r = if name == "ctpop" {
                            let mut s = vec![F; ow];
                            for &b in &x {
                                let mut o = vec![F; ow];
                                o[0] = b;
                                s = self.bdd.add(&s, &o);
                            }
                            s
                        } else {
                            let lead = name.starts_with("ctlz");
                            let mut r = self.bdd.konst(w as u128, ow);
                            for i in 0..w {
                                // process so that the deciding bit is applied last
                                let (bit, val) = if lead { (x[i], w - 1 - i) } else { (x[w - 1 - i], w - 1 - i) };
                                let k = self.bdd.konst(val as u128, ow);
                                r = self.bdd.mux(bit, &k, &r);
                            }
                            r
                        };
                        let r = self.fix(r);
                        one(st.clone(), iv_bytes(&r, dn))
                    }
                    None => one(st.clone(), vec![BV::T; dn]),
                }
            }
            "offset" | "arith_offset" | "ptr_offset" => {
                let p = iv!(0);
                let k = iv!(1);
                let sz = match name {
                    "offset" => match t0.map(|t| self.p.t(t).k.clone()) {
                        Some(TK::Ptr { to, .. }) => self.p.size(to),
                        _ => n0,
                    },
                    _ => n0,
                };
                let r = self.ptr_add(st, &p, &k, sz as i128)?;
                one(st.clone(), iv_bytes(&r, ps))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let (a, b) = (iv!(0), iv!(1));
                let d = match (&a, &b) {
                    (IV::Ptr(x), IV::Ptr(y)) => {
                        if x.a != y.a {
                            self.event(st, "OOB_READ", "distance between pointers into different buffers".into());
                            return Err(Intr::Dead);
                        }
                        let x = self.fold_ptr(st, x)?;
                        let y = self.fold_ptr(st, y)?;
                        x.off.sub(&y.off)
                    }
                    (IV::K(x), IV::K(y)) => x.sub(y),
                    _ => return unsup("pointer distance"),
                };
                let d = if n0 <= 1 {
                    d
                } else {
                    match d.div_floor(n0 as i128) {
                        Some(q) => q,
                        None => {
                            let (s, m) = d.split_for(n0 as i128).unwrap();
                            return Err(Intr::Mod(s, m));
                        }
                    }
                };
                if name.ends_with("unsigned") && !self.ge0(st, &d)? {
                    self.event(st, "OOB_READ", "negative unsigned pointer distance".into());
                    return Err(Intr::Dead);
                }
                let r = self.norm(st, d, ps)?;
                one(st.clone(), iv_bytes(&r, ps))
            }
            "ptr_mask" => {
                let (a, b) = (iv!(0), iv!(1));
                let r = self.binop(st, BinOp::BitAnd, &a, &b, ps, ps, false)?;
                one(st.clone(), iv_bytes(&r, ps))
            }
            "ptr_guaranteed_cmp" => one(st.clone(), vec![BV::C(2)]),
            "copy" | "copy_nonoverlapping" | "volatile_copy_nonoverlapping_memory" => {
                let (s, d) = if name.starts_with("volatile") { (iv!(1), iv!(0)) } else { (iv!(0), iv!(1)) };
                let n = iv!(2);
                let n = self.need_aff(st, &n)?.scale(n0 as i128);
                let mut st = st.clone();
                if name != "copy" {
                    self.check_disjoint(&st, &s, &d, &n)?;
                }
                self.copy(&mut st, &s, &d, &n)?;
                one(st, vec![])
            }
            "write_bytes" => {
                let d = iv!(0);
                let n = iv!(2);
                let n = self.need_aff(st, &n)?.scale(n0 as i128);
                let mut st = st.clone();
                match n.as_const() {
                    Some(0) => {}
                    Some(c) if c <= 1 << 20 => {
                        let p = self.need_ptr(&st, &d)?;
                        self.write(&mut st, &p, vec![args[1][0].clone(); c as usize])?;
                    }
                    _ => return unsup("symbolic fill"),
                }
                one(st, vec![])
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                if n0 == 0 {
                    return one(st.clone(), vec![]);
                }
                let p = iv!(0);
                let mut st = st.clone();
                let p = self.need_ptr(&st, &p)?;
                let b = self.read(&mut st, &p, n0)?;
                one(st, b)
            }
            "write_via_move" | "volatile_store" | "unaligned_volatile_store" => {
                let p = iv!(0);
                let mut st = st.clone();
                if n0 > 0 {
                    let p = self.need_ptr(&st, &p)?;
                    self.write(&mut st, &p, args[1].clone())?;
                }
                one(st, vec![])
            }
            "compare_bytes" => {
                let n = self.kconst(st, &args[2])?;
                let mut st = st.clone();
                let r = self.memcmp(&mut st, &args[0], &args[1], n as usize)?;
                one(st, r)
            }
            "raw_eq" => {
                let mut st = st.clone();
                let r = self.memcmp(&mut st, &args[0], &args[1], n0)?;
                let b = byte_bits(&r[0]).map(|b| b[0]);
                match b {
                    Some(b) => {
                        let nb = self.bdd.not(b);
                        let v = self.bool_bytes(nb, 1);
                        one(st, v)
                    }
                    None => unsup("raw_eq"),
                }
            }
            "select_unpredictable" => {
                let c = iv!(0);
                match c {
                    IV::K(k) => one(st.clone(), args[if k.c != 0 { 1 } else { 2 }].clone()),
                    IV::Bits(b) => {
                        let mut out = vec![];
                        for (x, y) in args[1].iter().zip(&args[2]) {
                            if x == y {
                                out.push(x.clone());
                                continue;
                            }
                            match (byte_bits(x), byte_bits(y)) {
                                (Some(x), Some(y)) => {
                                    let m = self.bdd.mux(b[0], &x, &y);
                                    out.extend(bits_bytes(&m));
                                }
                                _ => return Err(Intr::Fork(b[0])),
                            }
                        }
                        one(st.clone(), out)
                    }
                    _ => unsup("select"),
                }
            }
            "discriminant_value" => {
                let p = self.to_iv(st, &args[0])?;
                let mut st = st.clone();
                let p = self.need_ptr(&st, &p)?;
                let t = t0.unwrap();
                let r = self.discr(&mut st, &p, t, dn)?;
                one(st, r)
            }
            "abort" | "breakpoint" => {
                self.event(st, "PANIC", "aborts".into());
                Err(Intr::Dead)
            }
            "unreachable" => {
                self.event(st, "UNREACHABLE", "reaches code declared unreachable".into());
                Err(Intr::Dead)
            }
            "const_eval_select" => {
                // (args tuple, const fn, runtime fn): call the runtime function
                let rt = self.gty(f, 2).map(|t| self.p.t(t).k.clone());
                match rt {
                    Some(TK::FnDef(Some(g))) => {
                        let tt = t0.unwrap();
                        let mut av = vec![];
                        if let TK::Struct { offs, tys } = self.p.t(tt).k.clone() {
                            for i in 0..offs.len() {
                                let n = self.p.size(tys[i]);
                                av.push(args[0][offs[i]..offs[i] + n].to_vec());
                            }
                        }
                        let r = self.call(st.clone(), g, av, dn)?;
                        Ok(Some(r))
                    }
                    _ => unsup("const_eval_select"),
                }
            }
            "type_id" | "type_name" => one(st.clone(), vec![BV::T; dn]),
            "caller_location" => one(st.clone(), vec![BV::T; dn]),
            n if n.starts_with("atomic_") => self.atomic(st, f, n, args, dn),
            _ => Ok(None),
        }
    }

    fn check_disjoint(&mut self, st: &State, s: &IV, d: &IV, n: &Aff) -> R<()> {
        if let (IV::Ptr(s), IV::Ptr(d), Some(n)) = (s, d, n.as_const()) {
            if s.a == d.a && s.bits.is_none() && d.bits.is_none() && n > 0 {
                if let Some(x) = s.off.sub(&d.off).as_const() {
                    if x.abs() < n {
                        self.event(st, "OVERLAP", "copy_nonoverlapping on overlapping ranges".into());
                    }
                }
            }
        }
        Ok(())
    }

    fn atomic(&mut self, st: &State, f: FnId, name: &str, args: &[Vec<BV>], dn: usize) -> Out {
        let n = self.gty(f, 0).map_or(0, |t| self.p.size(t));
        let mut st = st.clone();
        if name.starts_with("atomic_fence") || name.starts_with("atomic_singlethread") {
            return one(st, vec![]);
        }
        let p = self.to_iv(&st, &args[0])?;
        let p = self.need_ptr(&st, &p)?;
        if p.a & GLOB != 0 && (name.starts_with("atomic_xchg") || name.starts_with("atomic_cxchg")) {
            self.locked.insert(p.a);
        }
        if name.starts_with("atomic_load") {
            let b = self.atomic_read(&mut st, &p, n)?;
            return one(st, b);
        }
        if name.starts_with("atomic_store") {
            self.atomic_write(&mut st, &p, args[1].clone())?;
            return one(st, vec![]);
        }
        if name.starts_with("atomic_xchg") {
            let b = self.atomic_read(&mut st, &p, n)?;
            self.atomic_write(&mut st, &p, args[1].clone())?;
            return one(st, b);
        }
        if name.starts_with("atomic_cxchg") {
            let b = self.atomic_read(&mut st, &p, n)?;
            let same = b == args[1];
            if same {
                self.atomic_write(&mut st, &p, args[2].clone())?;
            }
            let mut out = b;
            out.push(BV::C(same as u8));
            out.resize(dn, BV::U);
            return one(st, out);
        }
        for (pre, op) in [("atomic_xadd", BinOp::Add), ("atomic_xsub", BinOp::Sub), ("atomic_or", BinOp::BitOr), ("atomic_and", BinOp::BitAnd)] {
            if name.starts_with(pre) {
                let b = self.atomic_read(&mut st, &p, n)?;
                let x = self.to_iv(&st, &b)?;
                let y = self.to_iv(&st, &args[1])?;
                let r = self.binop(&st, op, &x, &y, n, n, false)?;
                self.atomic_write(&mut st, &p, iv_bytes(&r, n))?;
                return one(st, b);
            }
        }
        unsup(format!("{name}"))
    }

    // ---------------------------------------------------------------- portable vector intrinsics
    fn simd(&mut self, st: &State, f: FnId, name: &str, args: &[Vec<BV>], dn: usize) -> Out {
        let (el, es, n) = self.simd_ty(f, 0)?;
        let sg = self.is_signed(el);
        let bin = |s: bool, a: L, b: L| if s { a } else { b };
        let op = match name {
            "add" => Some(L::Add),
            "sub" => Some(L::Sub),
            "mul" => Some(L::Mul),
            "and" => Some(L::And),
            "or" => Some(L::Or),
            "xor" => Some(L::Xor),
            "saturating_add" => Some(bin(sg, L::AddSatS, L::AddSatU)),
            "saturating_sub" => Some(bin(sg, L::SubSatS, L::SubSatU)),
            _ => None,
        };
        if let Some(op) = op {
            let r = self.vec2(st, op, &args[0], &args[1], es)?;
            return one(st.clone(), r);
        }
        match name {
            "eq" | "ne" | "lt" | "le" | "gt" | "ge" => {
                let (a, b) = (&args[0], &args[1]);
                let (_, os, _) = self.simd_ty(f, 1)?;
                let lt = bin(sg, L::LtS, L::LtU);
                let (op, x, y, neg) = match name {
                    "eq" => (L::Eq, a, b, false),
                    "ne" => (L::Eq, a, b, true),
                    "lt" => (lt, a, b, false),
                    "ge" => (lt, a, b, true),
                    "gt" => (lt, b, a, false),
                    _ => (lt, b, a, true),
                };
                let mut r = self.vec2(st, op, x, y, es)?;
                if neg {
                    r = self.vnot(st, &r)?;
                }
                if os != es {
                    let mut o = vec![];
                    for c in r.chunks(es) {
                        o.extend(vec![c[0].clone(); os]);
                    }
                    r = o;
                }
                one(st.clone(), r)
            }
            "shl" | "shr" => {
                let mut out = vec![];
                for (x, y) in args[0].chunks(es).zip(args[1].chunks(es)) {
                    let x = self.to_iv(st, x)?;
                    let y = self.to_iv(st, y)?;
                    let r = self.lane_shift(st, &x, &y, es, name == "shl", sg)?;
                    out.extend(iv_bytes(&r, es));
                }
                one(st.clone(), out)
            }
            "neg" => {
                let z = vec![BV::C(0); args[0].len()];
                let r = self.vec2(st, L::Sub, &z, &args[0], es)?;
                one(st.clone(), r)
            }
            "bswap" => {
                let mut out = vec![];
                for c in args[0].chunks(es) {
                    out.extend(c.iter().rev().cloned());
                }
                one(st.clone(), out)
            }
            "bitreverse" | "ctpop" | "ctlz" | "cttz" => {
                let mut out = vec![];
                for c in args[0].chunks(es) {
                    let v = self.to_iv(st, c)?;
                    match self.lane_bits(st, &v, es * 8)? {
                        Some(mut x) => {
                            let r = match name {
                                "bitreverse" => {
                                    x.reverse();
                                    x
                                }
                                "ctpop" => {
                                    let mut s = vec![F; es * 8];
                                    for &b in &x {
                                        let mut o = vec![F; es * 8];
                                        o[0] = b;
                                        s = self.bdd.add(&s, &o);
                                    }
                                    s
                                }
                                _ => return unsup(format!("simd_{name}")),
                            };
                            out.extend(bits_bytes(&r));
                        }
                        None => out.extend(vec![if v == IV::Undef { BV::U } else { BV::T }; es]),
                    }
                }
                one(st.clone(), out)
            }
            "splat" => {
                let mut out = vec![];
                for _ in 0..n {
                    out.extend_from_slice(&args[0]);
                }
                one(st.clone(), out)
            }
            "insert" | "insert_dyn" => {
                let i = self.kconst(st, &args[1])? as usize;
                let mut v = args[0].clone();
                if i >= n {
                    return unsup("lane index");
                }
                put(&mut v, i * es, args[2].clone());
                one(st.clone(), v)
            }
            "extract" | "extract_dyn" => {
                let i = self.kconst(st, &args[1])? as usize;
                if i >= n {
                    return unsup("lane index");
                }
                one(st.clone(), args[0][i * es..(i + 1) * es].to_vec())
            }
            "shuffle" | "shuffle_const_generic" => {
                let idx = if name == "shuffle" {
                    args[2].clone()
                } else {
                    match self.gconst(f, 0) {
                        Some(c) => c,
                        None => return unsup("shuffle indices"),
                    }
                };
                let mut out = vec![];
                for c in idx.chunks(4) {
                    let i = self.kconst(st, c)? as usize;
                    let s = if i < n { &args[0][i * es..(i + 1) * es] } else { &args[1][(i - n) * es..(i - n + 1) * es] };
                    out.extend_from_slice(s);
                }
                if out.len() != dn {
                    return unsup("shuffle result size");
                }
                one(st.clone(), out)
            }
            "cast" | "as" | "cast_ptr" => {
                let (_, os, _) = self.simd_ty(f, 1)?;
                let mut out = vec![];
                for c in args[0].chunks(es) {
                    let v = self.to_iv(st, c)?;
                    let r = self.int_cast(st, v, es, sg, os)?;
                    out.extend(iv_bytes(&r, os));
                }
                one(st.clone(), out)
            }
            "select" => {
                // mask lanes all-ones or all-zero
                let (_, vs, _) = self.simd_ty(f, 1)?;
                let mut out = vec![];
                for i in 0..n {
                    let m = &args[0][i * es..(i + 1) * es];
                    let c = match byte_bits(&m[es - 1]) {
                        Some(b) => b[7],
                        None => return unsup("select mask"),
                    };
                    for j in i * vs..(i + 1) * vs {
                        out.push(self.sel(c, &args[1][j], &args[2][j]));
                    }
                }
                one(st.clone(), out)
            }
            "bitmask" => {
                let m = self.movemask(st, &args[0], es)?;
                let mut v = m;
                v.resize(dn * 8, F);
                one(st.clone(), bits_bytes(&v))
            }
            "reduce_all" | "reduce_any" | "reduce_and" | "reduce_or" | "reduce_xor" | "reduce_max" | "reduce_min"
            | "reduce_add_ordered" | "reduce_add_unordered" => {
                if name == "reduce_all" || name == "reduce_any" {
                    let m = self.movemask(st, &args[0], es)?;
                    let mut r = if name == "reduce_all" { T } else { F };
                    for b in m {
                        r = if name == "reduce_all" { self.bdd.and(r, b) } else { self.bdd.or(r, b) };
                    }
                    let v = self.bool_bytes(r, 1);
                    return one(st.clone(), v);
                }
                let op = match name {
                    "reduce_and" => L::And,
                    "reduce_or" => L::Or,
                    "reduce_xor" => L::Xor,
                    "reduce_max" => bin(sg, L::MaxS, L::MaxU),
                    "reduce_min" => bin(sg, L::MinS, L::MinU),
                    _ => L::Add,
                };
                let mut acc = self.to_iv(st, &args[0][..es])?;
                for c in args[0].chunks(es).skip(1) {
                    let v = self.to_iv(st, c)?;
                    acc = self.lane2x(st, op, &acc, &v, es, true)?;
                }
                if name.starts_with("reduce_add_ordered") {
                    let v = self.to_iv(st, &args[1])?;
                    acc = self.lane2(st, op, &acc, &v, es)?;
                }
                one(st.clone(), iv_bytes(&acc, es))
            }
            _ => unsup(format!("simd_{name}")),
        }
    }
    fn vnot(&mut self, st: &State, a: &[BV]) -> R<Vec<BV>> {
        let ones = vec![BV::C(255); a.len()];
        self.vec2(st, L::Xor, a, &ones, 1)
    }
    fn sel(&mut self, c: B, a: &BV, b: &BV) -> BV {
        if c == T || a == b {
            return a.clone();
        }
        if c == F {
            return b.clone();
        }
        match (byte_bits(a), byte_bits(b)) {
            (Some(x), Some(y)) => {
                let m = self.bdd.mux(c, &x, &y);
                bits_bytes(&m).pop().unwrap()
            }
            _ => {
                if *a == BV::U || *b == BV::U {
                    BV::U
                } else {
                    BV::T
                }
            }
        }
    }

    // ---------------------------------------------------------------- vendor intrinsics
    fn llvm(&mut self, st: &State, f: FnId, ln: &str, args: &[Vec<BV>], dn: usize) -> Out {
        let _ = f;
        let s = st.clone();
        let a0 = args.first().cloned().unwrap_or_default();
        let a1 = args.get(1).cloned().unwrap_or_default();
        macro_rules! v2 {
            ($op:expr, $es:expr) => {{
                let r = self.vec2(st, $op, &a0, &a1, $es)?;
                return one(s, r);
            }};
        }
        if let Some(x) = ln.strip_prefix("llvm.x86.") {
            match x {
                "ssse3.pshuf.b.128" | "avx2.pshuf.b" => {
                    let r = self.pshufb(st, &a0, &a1)?;
                    return one(s, r);
                }
                "sse2.pmovmskb.128" | "avx2.pmovmskb" => {
                    let mut m = self.movemask(st, &a0, 1)?;
                    m.resize(dn * 8, F);
                    return one(s, bits_bytes(&m));
                }
                "sse41.ptestz" | "avx.ptestz.256" => {
                    let r = self.any_bit(st, &a0, Some(&a1), false)?;
                    let r = self.bdd.not(r);
                    return one(s, self.bool_bytes(r, dn));
                }
                "sse41.ptestc" | "avx.ptestc.256" => {
                    let r = self.any_bit(st, &a0, Some(&a1), true)?;
                    let r = self.bdd.not(r);
                    return one(s, self.bool_bytes(r, dn));
                }
                "sse2.packuswb.128" | "avx2.packuswb" => {
                    let r = self.pack_sat(st, &a0, &a1, 2, false)?;
                    return one(s, r);
                }
                "sse2.packsswb.128" | "avx2.packsswb" => {
                    let r = self.pack_sat(st, &a0, &a1, 2, true)?;
                    return one(s, r);
                }
                "sse41.packusdw" | "avx2.packusdw" => {
                    let r = self.pack_sat(st, &a0, &a1, 4, false)?;
                    return one(s, r);
                }
                "sse2.packssdw.128" | "avx2.packssdw" => {
                    let r = self.pack_sat(st, &a0, &a1, 4, true)?;
                    return one(s, r);
                }
                "ssse3.pmadd.ub.sw.128" | "avx2.pmadd.ub.sw" => {
                    let r = self.madd(st, &a0, &a1, 1, false, true, true)?;
                    return one(s, r);
                }
                "sse2.pmadd.wd" | "avx2.pmadd.wd" => {
                    let r = self.madd(st, &a0, &a1, 2, true, true, false)?;
                    return one(s, r);
                }
                "sse2.pmulhu.w" | "avx2.pmulhu.w" => v2!(L::MulHiU, 2),
                "sse2.pmulh.w" | "avx2.pmulh.w" => v2!(L::MulHiS, 2),
                "sse2.pavg.b" | "avx2.pavg.b" => v2!(L::AvgU, 1),
                "sse2.pavg.w" | "avx2.pavg.w" => v2!(L::AvgU, 2),
                "sse41.pblendvb" | "avx2.pblendvb" => {
                    let mut out = vec![];
                    for i in 0..a0.len() {
                        let c = match byte_bits(&args[2][i]) {
                            Some(b) => b[7],
                            None => {
                                out.push(if args[2][i] == BV::U { BV::U } else { BV::T });
                                continue;
                            }
                        };
                        out.push(self.sel(c, &a1[i], &a0[i]));
                    }
                    return one(s, out);
                }
                "avx2.permd" => {
                    let mut out = vec![];
                    for c in a1.chunks(4) {
                        let i = self.kconst(st, c)? as usize % 8;
                        out.extend_from_slice(&a0[i * 4..i * 4 + 4]);
                    }
                    return one(s, out);
                }
                "sse2.lfence" | "sse2.mfence" | "sse.sfence" | "avx.vzeroupper" | "avx.vzeroall" | "sse2.pause" => {
                    return one(s, vec![])
                }
                "avx.ldu.dq.256" | "sse3.ldu.dq" => {
                    let p = self.to_iv(st, &a0)?;
                    let p = self.need_ptr(st, &p)?;
                    let mut s = s;
                    let b = self.read(&mut s, &p, dn)?;
                    return one(s, b);
                }
                _ => {}
            }
            // sse2.pslli.w etc. (vector op, i32 count)
            let parts: Vec<&str> = x.split('.').collect();
            if parts.len() == 3 && (parts[1].starts_with("psll") || parts[1].starts_with("psrl") || parts[1].starts_with("psra")) {
                let es = match parts[2] {
                    "w" => 2,
                    "d" => 4,
                    "q" => 8,
                    _ => return unsup(format!("intrinsic {ln}")),
                };
                let cnt = if a1.len() == 16 { &a1[..8] } else { &a1[..] };
                let k = self.kconst(st, cnt)?;
                let left = parts[1].starts_with("psll");
                let sg = parts[1].starts_with("psra");
                let w = es * 8;
                let mut out = vec![];
                for c in a0.chunks(es) {
                    let v = self.to_iv(st, c)?;
                    let kk = if sg { k.min(w as i128 - 1) } else { k.min(w as i128) };
                    let r = self.lane_shift(st, &v, &IV::K(Aff::k(kk)), es, left, sg)?;
                    out.extend(iv_bytes(&r, es));
                }
                return one(s, out);
            }
        }
        if let Some(x) = ln.strip_prefix("llvm.aarch64.neon.") {
            let (op, ty) = x.split_once('.').unwrap_or((x, ""));
            // types: v16i8, v8i16, v4i32, v8i8, ... possibly "i32.v16i8"
            let last = ty.rsplit('.').next().unwrap_or(ty);
            let es = last
                .rsplit('i')
                .next()
                .and_then(|w| w.parse::<usize>().ok())
                .map(|w| w / 8)
                .unwrap_or(1)
                .max(1);
            let l = match op {
                "uqadd" => Some(L::AddSatU),
                "sqadd" => Some(L::AddSatS),
                "uqsub" => Some(L::SubSatU),
                "sqsub" => Some(L::SubSatS),
                "umax" => Some(L::MaxU),
                "umin" => Some(L::MinU),
                "smax" => Some(L::MaxS),
                "smin" => Some(L::MinS),
                "urhadd" => Some(L::AvgU),
                _ => None,
            };
            if let Some(l) = l {
                v2!(l, es);
            }
            if let Some(k) = op.strip_prefix("st1x").and_then(|x| x.parse::<usize>().ok()) {
                let mut s = s;
                let p = self.to_iv(st, &args[k])?;
                let p = self.need_ptr(st, &p)?;
                let b: Vec<BV> = args[..k].iter().flatten().cloned().collect();
                self.write(&mut s, &p, b)?;
                return one(s, vec![]);
            }
            if let Some(k) = op.strip_prefix("ld1x").and_then(|x| x.parse::<usize>().ok()) {
                let _ = k;
                let mut s = s;
                let p = self.to_iv(st, &a0)?;
                let p = self.need_ptr(st, &p)?;
                let b = self.read(&mut s, &p, dn)?;
                return one(s, b);
            }
            match op {
                "tbl1" | "tbl2" => {
                    let nt = if op == "tbl1" { 1 } else { 2 };
                    let mut t = a0.clone();
                    if nt == 2 {
                        t.extend(a1.iter().cloned());
                    }
                    let idx = &args[nt];
                    let nb = t.len().trailing_zeros() as usize;
                    let mut out = vec![];
                    for i in idx {
                        out.push(self.lookup(st, &t, i, nb, &|d, b| {
                            let mut z = F;
                            for &x in &b[nb..] {
                                z = d.or(z, x);
                            }
                            z
                        })?);
                    }
                    return one(s, out);
                }
                "umaxp" | "uminp" | "smaxp" | "sminp" | "addp" => {
                    let l = match op {
                        "umaxp" => L::MaxU,
                        "uminp" => L::MinU,
                        "smaxp" => L::MaxS,
                        "sminp" => L::MinS,
                        _ => L::Add,
                    };
                    let mut all = a0.clone();
                    all.extend(a1.iter().cloned());
                    let mut out = vec![];
                    for c in all.chunks(2 * es) {
                        let x = self.to_iv(st, &c[..es])?;
                        let y = self.to_iv(st, &c[es..])?;
                        let r = self.lane2(st, l, &x, &y, es)?;
                        out.extend(iv_bytes(&r, es));
                    }
                    return one(s, out);
                }
                "umaxv" | "uminv" | "smaxv" | "sminv" => {
                    let l = match op {
                        "umaxv" => L::MaxU,
                        "uminv" => L::MinU,
                        "smaxv" => L::MaxS,
                        _ => L::MinS,
                    };
                    let mut acc = self.to_iv(st, &a0[..es])?;
                    for c in a0.chunks(es).skip(1) {
                        let y = self.to_iv(st, c)?;
                        acc = self.lane2x(st, l, &acc, &y, es, true)?;
                    }
                    let mut out = iv_bytes(&acc, es);
                    out.resize(dn, BV::C(0));
                    return one(s, out);
                }
                _ => {}
            }
        }
        if let Some(x) = ln.strip_prefix("llvm.wasm.") {
            let es = |x: &str| -> usize {
                match x.rsplit('.').next().unwrap_or("") {
                    "v16i8" => 1,
                    "v8i16" => 2,
                    "v4i32" => 4,
                    "v2i64" => 8,
                    _ => 1,
                }
            };
            match x {
                "swizzle" => {
                    let mut out = vec![];
                    for i in &a1 {
                        out.push(self.lookup(st, &a0, i, 4, &|d, b| {
                            let mut z = F;
                            for &x in &b[4..] {
                                z = d.or(z, x);
                            }
                            z
                        })?);
                    }
                    return one(s, out);
                }
                "narrow.unsigned.v16i8.v8i16" | "narrow.signed.v16i8.v8i16" | "narrow.unsigned.v8i16.v4i32"
                | "narrow.signed.v8i16.v4i32" => {
                    let n = if x.ends_with("v8i16") { 2 } else { 4 };
                    let r = self.pack_sat(st, &a0, &a1, n, x.starts_with("narrow.signed"))?;
                    return one(s, r);
                }
                _ => {}
            }
            if x.starts_with("alltrue") {
                let e = es(x);
                let mut r = T;
                for c in a0.chunks(e) {
                    let b = self.any_bit(st, c, None, false)?;
                    r = self.bdd.and(r, b);
                }
                return one(s, self.bool_bytes(r, dn));
            }
            if x.starts_with("anytrue") {
                let r = self.any_bit(st, &a0, None, false)?;
                return one(s, self.bool_bytes(r, dn));
            }
            if x.starts_with("bitmask") {
                let mut m = self.movemask(st, &a0, es(x))?;
                m.resize(dn * 8, F);
                return one(s, bits_bytes(&m));
            }
            if x.starts_with("avgr.unsigned") {
                v2!(L::AvgU, es(x));
            }
            if x == "dot" {
                let r = self.madd(st, &a0, &a1, 2, true, true, false)?;
                return one(s, r);
            }
            if x.starts_with("sub.sat.") || x.starts_with("add.sat.") {
                let l = match &x[..10.min(x.len())] {
                    "sub.sat.un" => L::SubSatU,
                    "sub.sat.si" => L::SubSatS,
                    "add.sat.un" => L::AddSatU,
                    _ => L::AddSatS,
                };
                v2!(l, es(x));
            }
        }
        // generic llvm saturating intrinsics: llvm.usub.sat.v16i8
        for (pre, l) in [
            ("llvm.usub.sat.", L::SubSatU),
            ("llvm.ssub.sat.", L::SubSatS),
            ("llvm.uadd.sat.", L::AddSatU),
            ("llvm.sadd.sat.", L::AddSatS),
            ("llvm.umax.", L::MaxU),
            ("llvm.umin.", L::MinU),
            ("llvm.smax.", L::MaxS),
            ("llvm.smin.", L::MinS),
        ] {
            if let Some(t) = ln.strip_prefix(pre) {
                let es = t.rsplit('i').next().and_then(|w| w.parse::<usize>().ok()).unwrap_or(8) / 8;
                v2!(l, es);
            }
        }
        unsup(format!("intrinsic {ln}"))
    }
}
