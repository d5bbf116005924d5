//! Reduced ordered binary decision diagrams: the abstract domain of Boolean functions of input bits.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type B = u32;
pub const F: B = 0;
pub const T: B = 1;

#[derive(Clone, Copy)]
struct Node {
    var: u32,
    lo: B,
    hi: B,
}

pub struct Bdd {
    nodes: Vec<Node>,
    uniq: FxMap<(u32, B, B), B>,
    cache: Vec<(B, B, B, B)>,
    restrict_cache: FxMap<(B, B), B>,
    pub overflow: bool,
    pub limit: usize,
    /// variables that stand for maxima; `flag[node]`: the node depends on one
    pub special: Vec<bool>,
    flag: Vec<bool>,
    /// products of two unknowns as uninterpreted values, by operands
    pub uf: Option<HashMap<(Bits, Bits), u32>>,
}

const CACHE_BITS: usize = 18;

impl Bdd {
    pub fn new() -> Self {
        Bdd {
            nodes: vec![Node { var: u32::MAX, lo: 0, hi: 0 }],
            uniq: FxMap::default(),
            cache: vec![(u32::MAX, 0, 0, 0); 1 << CACHE_BITS],
            restrict_cache: FxMap::default(),
            overflow: false,
            limit: 40_000_000,
            special: vec![],
            flag: vec![false],
            uf: None,
        }
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    #[inline]
    pub fn top(&self, f: B) -> u32 {
        self.nodes[(f >> 1) as usize].var
    }
    #[inline]
    pub fn kids(&self, f: B) -> (B, B) {
        let n = self.nodes[(f >> 1) as usize];
        (n.lo ^ (f & 1), n.hi ^ (f & 1))
    }
    // complement edges: bit 0 of a reference negates; the low child of a node is never complemented
    fn mk(&mut self, var: u32, lo: B, hi: B) -> B {
        if lo == hi {
            return lo;
        }
        let neg = lo & 1;
        let (lo, hi) = (lo ^ neg, hi ^ neg);
        if let Some(&x) = self.uniq.get(&(var, lo, hi)) {
            return x ^ neg;
        }
        if self.nodes.len() >= self.limit {
            self.overflow = true;
            return F;
        }
        let id = (self.nodes.len() as B) << 1;
        let fl = self.special.get(var as usize).copied().unwrap_or(false)
            || self.flag[(lo >> 1) as usize]
            || self.flag[(hi >> 1) as usize];
        self.flag.push(fl);
        self.nodes.push(Node { var, lo, hi });
        self.uniq.insert((var, lo, hi), id);
        id ^ neg
    }
    pub fn var(&mut self, v: u32) -> B {
        self.mk(v, F, T)
    }
    pub fn ite(&mut self, f: B, g: B, h: B) -> B {
        let (f, g, h) = if f & 1 == 1 { (f ^ 1, h, g) } else { (f, g, h) };
        if f == F {
            return h;
        }
        if g == h {
            return g;
        }
        let g = if g == f { T } else if g == f ^ 1 { F } else { g };
        let h = if h == f { F } else if h == f ^ 1 { T } else { h };
        if g == h {
            return g;
        }
        if g == T && h == F {
            return f;
        }
        if g == F && h == T {
            return f ^ 1;
        }
        if self.overflow {
            return F;
        }
        let neg = g & 1;
        let (g, h) = (g ^ neg, h ^ neg);
        let key = (f as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)
            ^ (g as u64).wrapping_mul(0xC2B2_AE3D_27D4_EB4F)
            ^ (h as u64).wrapping_mul(0x1656_67B1_9E37_79F9);
        let slot = (key >> (64 - CACHE_BITS)) as usize;
        let c = self.cache[slot];
        if c.0 == f && c.1 == g && c.2 == h {
            return c.3 ^ neg;
        }
        let v = self.top(f).min(self.top(g)).min(self.top(h));
        let (f0, f1) = self.cof(f, v);
        let (g0, g1) = self.cof(g, v);
        let (h0, h1) = self.cof(h, v);
        let lo = self.ite(f0, g0, h0);
        let hi = self.ite(f1, g1, h1);
        let r = self.mk(v, lo, hi);
        self.cache[slot] = (f, g, h, r);
        r ^ neg
    }
    #[inline]
    fn cof(&self, f: B, v: u32) -> (B, B) {
        let n = self.nodes[(f >> 1) as usize];
        if n.var == v {
            (n.lo ^ (f & 1), n.hi ^ (f & 1))
        } else {
            (f, f)
        }
    }
    #[inline]
    pub fn not(&mut self, f: B) -> B {
        f ^ 1
    }
    pub fn and(&mut self, f: B, g: B) -> B {
        if f == g {
            return f;
        }
        let (f, g) = if f <= g { (f, g) } else { (g, f) };
        self.ite(f, g, F)
    }
    pub fn or(&mut self, f: B, g: B) -> B {
        if f == g {
            return f;
        }
        let (f, g) = if f <= g { (f, g) } else { (g, f) };
        self.ite(f, T, g)
    }
    pub fn xor(&mut self, f: B, g: B) -> B {
        if f == F {
            return g;
        }
        if g == F {
            return f;
        }
        if f == g {
            return F;
        }
        let (f, g) = if f <= g { (f, g) } else { (g, f) };
        let ng = self.not(g);
        self.ite(f, ng, g)
    }
    pub fn implies(&mut self, f: B, g: B) -> bool {
        let ng = self.not(g);
        self.and(f, ng) == F && !self.overflow
    }
    /// Simplifies `f` using the care set `c` (Coudert-Madre restrict); equal to `f` wherever `c` holds.
    pub fn restrict(&mut self, f: B, c: B) -> B {
        if c == T || c == F || f <= 1 {
            return f;
        }
        if self.overflow {
            return f;
        }
        let neg = f & 1;
        let f = f ^ neg;
        if let Some(&r) = self.restrict_cache.get(&(f, c)) {
            return r ^ neg;
        }
        let vf = self.top(f);
        let vc = self.top(c);
        let r = if vc < vf {
            let (c0, c1) = self.kids(c);
            let c2 = self.or(c0, c1);
            self.restrict(f, c2)
        } else {
            let (f0, f1) = self.kids(f);
            let (c0, c1) = self.cof(c, vf);
            if c0 == F {
                self.restrict(f1, c1)
            } else if c1 == F {
                self.restrict(f0, c0)
            } else {
                let lo = self.restrict(f0, c0);
                let hi = self.restrict(f1, c1);
                self.mk(vf, lo, hi)
            }
        };
        self.restrict_cache.insert((f, c), r);
        r ^ neg
    }
    pub fn mark_special(&mut self, v: u32) {
        if self.special.len() <= v as usize {
            self.special.resize(v as usize + 1, false);
        }
        self.special[v as usize] = true;
    }
    /// The special variables `f` depends on.
    pub fn special_support(&self, f: B) -> Vec<u32> {
        let mut seen: FxMap<B, ()> = FxMap::default();
        let mut vars: std::collections::BTreeSet<u32> = Default::default();
        let mut st = vec![f];
        while let Some(x) = st.pop() {
            let x = x & !1;
            if !self.flag[(x >> 1) as usize] || seen.insert(x, ()).is_some() {
                continue;
            }
            let n = self.nodes[(x >> 1) as usize];
            if self.special.get(n.var as usize).copied().unwrap_or(false) {
                vars.insert(n.var);
            }
            st.push(n.lo);
            st.push(n.hi);
        }
        vars.into_iter().collect()
    }
    /// Existential quantification of every variable above level `k`.
    pub fn exists_above(&mut self, f: B, k: u32) -> B {
        let mut f = f;
        while f > 1 && self.top(f) < k {
            let (l, h) = self.kids(f);
            f = self.or(l, h);
        }
        f
    }
    pub fn support(&self, f: B) -> Vec<u32> {
        let mut seen: FxMap<B, ()> = FxMap::default();
        let mut vars: std::collections::BTreeSet<u32> = Default::default();
        let mut st = vec![f];
        while let Some(x) = st.pop() {
            let x = x & !1;
            if x <= 1 || seen.insert(x, ()).is_some() {
                continue;
            }
            let n = self.nodes[(x >> 1) as usize];
            vars.insert(n.var);
            st.push(n.lo);
            st.push(n.hi);
        }
        vars.into_iter().collect()
    }
    /// Simultaneous substitution of variables by functions.
    pub fn compose(&mut self, f: B, map: &FxMap<u32, B>, memo: &mut FxMap<B, B>) -> B {
        if f <= 1 {
            return f;
        }
        let neg = f & 1;
        let f = f ^ neg;
        if let Some(&r) = memo.get(&f) {
            return r ^ neg;
        }
        let n = self.nodes[(f >> 1) as usize];
        let lo = self.compose(n.lo, map, memo);
        let hi = self.compose(n.hi, map, memo);
        let v = match map.get(&n.var) {
            Some(&g) => g,
            None => self.var(n.var),
        };
        let r = self.ite(v, hi, lo);
        memo.insert(f, r);
        r ^ neg
    }
    /// One satisfying assignment (var, value).
    pub fn witness(&self, f: B) -> Vec<(u32, bool)> {
        let mut out = vec![];
        let mut x = f;
        while x > 1 {
            let v = self.top(x);
            let (lo, hi) = self.kids(x);
            if lo != F {
                out.push((v, false));
                x = lo;
            } else {
                out.push((v, true));
                x = hi;
            }
        }
        out
    }
    pub fn eval(&self, f: B, asg: &dyn Fn(u32) -> bool) -> bool {
        let mut x = f;
        while x > 1 {
            let (lo, hi) = self.kids(x);
            x = if asg(self.top(x)) { hi } else { lo };
        }
        x == T
    }
}

/// Little-endian bit-vector operations.
pub type Bits = Vec<B>;

impl Bdd {
    pub fn konst(&self, v: u128, w: usize) -> Bits {
        (0..w).map(|i| if i < 128 && (v >> i) & 1 == 1 { T } else { F }).collect()
    }
    pub fn as_const(b: &[B]) -> Option<u128> {
        let mut v = 0u128;
        for (i, &x) in b.iter().enumerate() {
            match x {
                F => {}
                T => v |= 1 << i,
                _ => return None,
            }
        }
        Some(v)
    }
    /// Sum with carry in; returns (sum, carry out).
    pub fn add_c(&mut self, a: &[B], b: &[B], cin: B) -> (Bits, B) {
        let mut c = cin;
        let mut out = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            out.push(self.xor(x, c));
            let ab = self.and(a[i], b[i]);
            let xc = self.and(x, c);
            c = self.or(ab, xc);
        }
        (out, c)
    }
    pub fn add(&mut self, a: &[B], b: &[B]) -> Bits {
        self.add_c(a, b, F).0
    }
    pub fn neg_bits(&mut self, b: &[B]) -> Bits {
        b.iter().map(|&x| self.not(x)).collect()
    }
    pub fn sub(&mut self, a: &[B], b: &[B]) -> Bits {
        let nb = self.neg_bits(b);
        self.add_c(a, &nb, T).0
    }
    /// a < b unsigned
    pub fn ult(&mut self, a: &[B], b: &[B]) -> B {
        let mut lt = F;
        for i in 0..a.len() {
            // from LSB to MSB: lt = (!a & b) | (!(a^b) & lt)
            let na = self.not(a[i]);
            let l = self.and(na, b[i]);
            let x = self.xor(a[i], b[i]);
            lt = self.ite(x, l, lt);
        }
        lt
    }
    pub fn slt(&mut self, a: &[B], b: &[B]) -> B {
        let n = a.len();
        let mut a2 = a.to_vec();
        let mut b2 = b.to_vec();
        a2[n - 1] = self.not(a[n - 1]);
        b2[n - 1] = self.not(b[n - 1]);
        self.ult(&a2, &b2)
    }
    pub fn eq(&mut self, a: &[B], b: &[B]) -> B {
        let mut r = T;
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            let nx = self.not(x);
            r = self.and(r, nx);
        }
        r
    }
    pub fn mux(&mut self, c: B, a: &[B], b: &[B]) -> Bits {
        (0..a.len()).map(|i| self.ite(c, a[i], b[i])).collect()
    }
    pub fn mul(&mut self, a: &[B], b: &[B]) -> Bits {
        let n = a.len();
        if self.uf.is_some() && Self::as_const(a).is_none() && Self::as_const(b).is_none() {
            return self.mul_uf(a, b);
        }
        if let Some((x, mut k)) = match (Self::as_const(a), Self::as_const(b)) {
            (_, Some(k)) => Some((a, k)),
            (Some(k), _) => Some((b, k)),
            _ => None,
        } {
            // few additions and subtractions: the constant in non-adjacent form
            let mut acc = vec![F; n];
            let mut i = 0;
            while k != 0 && i < n {
                if k & 1 == 1 {
                    let t = self.shl_c(x, i);
                    if k & 3 == 3 {
                        acc = self.sub(&acc, &t);
                        k = k.wrapping_add(1);
                        if k == 0 {
                            // the carry left the top of the word
                            break;
                        }
                    } else {
                        acc = self.add(&acc, &t);
                        k -= 1;
                    }
                }
                k >>= 1;
                i += 1;
            }
            return acc;
        }
        // multiply by the operand with more constant bits
        let ca = a.iter().filter(|&&x| x == F).count();
        let cb = b.iter().filter(|&&x| x == F).count();
        let (a, b) = if ca > cb { (b, a) } else { (a, b) };
        let mut acc = vec![F; n];
        for i in 0..n {
            if b[i] == F {
                continue;
            }
            let mut t = vec![F; n];
            for j in 0..n - i {
                t[i + j] = self.and(a[j], b[i]);
            }
            acc = self.add(&acc, &t);
        }
        acc
    }
    /// The product as a fresh unknown shared by equal operand pairs (as signed numbers, widths trimmed).
    fn mul_uf(&mut self, a: &[B], b: &[B]) -> Bits {
        let n = a.len();
        let trim = |x: &[B]| {
            let mut k = x.len();
            while k > 1 && x[k - 1] == x[k - 2] {
                k -= 1;
            }
            x[..k].to_vec()
        };
        let (mut x, mut y) = (trim(a), trim(b));
        if y < x {
            std::mem::swap(&mut x, &mut y);
        }
        // a factor that is never negative saves a bit
        let nn = x[x.len() - 1] == F || y[y.len() - 1] == F;
        let w = x.len() + y.len() - nn as usize;
        let m = self.uf.as_mut().unwrap();
        let k = m.len() as u32;
        let id = *m.entry((x, y)).or_insert(k);
        // bits of all products interleaved, so that sums of products stay small
        let full: Bits = (0..w).map(|i| self.var(1 << 24 | (i as u32) << 10 | id)).collect();
        self.ext(&full, n, true)
    }
    pub fn ext(&self, a: &[B], w: usize, signed: bool) -> Bits {
        let mut r: Bits = a.iter().copied().take(w).collect();
        let fill = if signed && !a.is_empty() { a[a.len() - 1] } else { F };
        while r.len() < w {
            r.push(fill);
        }
        r
    }
    /// Variable shift; `amt` interpreted as unsigned, shifting in `fill`.
    pub fn shl_c(&self, a: &[B], k: usize) -> Bits {
        let n = a.len();
        (0..n).map(|i| if i >= k { a[i - k] } else { F }).collect()
    }
    pub fn shr_c(&self, a: &[B], k: usize, signed: bool) -> Bits {
        let n = a.len();
        let fill = if signed { a[n - 1] } else { F };
        (0..n).map(|i| if i + k < n { a[i + k] } else { fill }).collect()
    }
    pub fn shift_var(&mut self, a: &[B], amt: &[B], left: bool, signed: bool) -> Bits {
        let mut r = a.to_vec();
        for (i, &s) in amt.iter().enumerate() {
            let k = if i < 20 { 1usize << i } else { usize::MAX / 2 };
            let k = k.min(a.len());
            let sh = if left { self.shl_c(&r, k) } else { self.shr_c(&r, k, signed) };
            r = self.mux(s, &sh, &r);
        }
        r
    }
}
