//! Affine expressions over bounded integer symbols, and the environment of their bounds.
use std::fmt;

pub type Sym = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord, Default)]
pub struct Aff {
    pub c: i128,
    /// sorted by symbol, no zero coefficients
    pub t: Vec<(Sym, i128)>,
}

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

impl Aff {
    pub fn k(c: i128) -> Aff {
        Aff { c, t: vec![] }
    }
    pub fn sym(s: Sym) -> Aff {
        Aff { c: 0, t: vec![(s, 1)] }
    }
    pub fn as_const(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    pub fn coef(&self, s: Sym) -> i128 {
        self.t.iter().find(|x| x.0 == s).map_or(0, |x| x.1)
    }
    pub fn add(&self, o: &Aff) -> Aff {
        self.lin(1, o, 1)
    }
    pub fn sub(&self, o: &Aff) -> Aff {
        self.lin(1, o, -1)
    }
    pub fn addk(&self, k: i128) -> Aff {
        let mut r = self.clone();
        r.c += k;
        r
    }
    pub fn scale(&self, k: i128) -> Aff {
        if k == 0 {
            return Aff::k(0);
        }
        Aff { c: self.c * k, t: self.t.iter().map(|&(s, x)| (s, x * k)).collect() }
    }
    pub fn lin(&self, a: i128, o: &Aff, b: i128) -> Aff {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push((self.t[i].0, self.t[i].1 * a));
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1 * b));
                j += 1;
            } else {
                let x = self.t[i].1 * a + o.t[j].1 * b;
                if x != 0 {
                    t.push((self.t[i].0, x));
                }
                i += 1;
                j += 1;
            }
        }
        t.retain(|x| x.1 != 0);
        Aff { c: self.c * a + o.c * b, t }
    }
    pub fn subst(&self, s: Sym, e: &Aff) -> Aff {
        let k = self.coef(s);
        if k == 0 {
            return self.clone();
        }
        let mut r = self.clone();
        r.t.retain(|x| x.0 != s);
        r.add(&e.scale(k))
    }
    /// gcd of the symbol coefficients (0 if constant)
    pub fn content(&self) -> i128 {
        self.t.iter().fold(0, |g, x| gcd(g, x.1))
    }
    /// exact floor division by a positive constant when every coefficient is divisible
    pub fn div_floor(&self, d: i128) -> Option<Aff> {
        if self.t.iter().all(|x| x.1 % d == 0) {
            Some(Aff { c: self.c.div_euclid(d), t: self.t.iter().map(|&(s, x)| (s, x / d)).collect() })
        } else {
            None
        }
    }
    /// first symbol whose coefficient is not divisible by d, with the factor by which to split it
    pub fn split_for(&self, d: i128) -> Option<(Sym, i128)> {
        self.t.iter().find(|x| x.1 % d != 0).map(|&(s, x)| (s, d / gcd(d, x)))
    }
}

impl fmt::Display for Aff {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut first = true;
        for &(s, k) in &self.t {
            if !first {
                write!(f, "+")?;
            }
            first = false;
            if k == 1 {
                write!(f, "s{s}")?;
            } else {
                write!(f, "{k}*s{s}")?;
            }
        }
        if first {
            write!(f, "{}", self.c)
        } else if self.c != 0 {
            write!(f, "{}{}", if self.c > 0 { "+" } else { "" }, self.c)
        } else {
            Ok(())
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SymB {
    pub s: Sym,
    pub lo: Aff,
    pub hi: Option<Aff>,
}

/// Symbols in dependency order: the bounds of a symbol mention only earlier ones.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Env {
    pub v: Vec<SymB>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tri {
    Yes,
    No,
    Unk,
}

impl Env {
    pub fn max(&self, e: &Aff) -> Option<i128> {
        self.ext(e, true)
    }
    pub fn min(&self, e: &Aff) -> Option<i128> {
        self.ext(e, false)
    }
    fn ext(&self, e: &Aff, max: bool) -> Option<i128> {
        let mut e = e.clone();
        for b in self.v.iter().rev() {
            let k = e.coef(b.s);
            if k == 0 {
                continue;
            }
            if (k > 0) == max {
                match &b.hi {
                    Some(h) => e = e.subst(b.s, h),
                    None => return None,
                }
            } else {
                e = e.subst(b.s, &b.lo);
            }
        }
        e.as_const()
    }
    /// Is e >= 0?
    pub fn nonneg(&self, e: &Aff) -> Tri {
        if let Some(c) = e.as_const() {
            return if c >= 0 { Tri::Yes } else { Tri::No };
        }
        let g = e.content();
        let e2 = if g > 1 { e.div_floor(g).unwrap() } else { e.clone() };
        if let Some(m) = self.min(&e2) {
            if m >= 0 {
                return Tri::Yes;
            }
        }
        if let Some(m) = self.max(&e2) {
            if m < 0 {
                return Tri::No;
            }
        }
        Tri::Unk
    }
    pub fn zero(&self, e: &Aff) -> Tri {
        if let Some(c) = e.as_const() {
            return if c == 0 { Tri::Yes } else { Tri::No };
        }
        let g = e.content();
        if g > 1 && e.c % g != 0 {
            return Tri::No;
        }
        match (self.min(e), self.max(e)) {
            (Some(a), _) if a > 0 => Tri::No,
            (_, Some(b)) if b < 0 => Tri::No,
            (Some(0), Some(0)) => Tri::Yes,
            _ => Tri::Unk,
        }
    }
    pub fn get(&self, s: Sym) -> Option<&SymB> {
        self.v.iter().find(|b| b.s == s)
    }
    pub fn push(&mut self, s: Sym, lo: Aff, hi: Option<Aff>) {
        self.v.push(SymB { s, lo, hi });
    }
    /// Replace symbol s by expression e over the other symbols (removes it from the environment).
    pub fn subst(&mut self, s: Sym, e: &Aff) {
        self.v.retain(|b| b.s != s);
        for b in &mut self.v {
            b.lo = b.lo.subst(s, e);
            if let Some(h) = &b.hi {
                b.hi = Some(h.subst(s, e));
            }
        }
    }
    /// Could the box be empty? (false only if provably non-empty for all earlier symbols)
    pub fn maybe_empty(&self) -> bool {
        for b in &self.v {
            if let Some(h) = &b.hi {
                let d = h.sub(&b.lo);
                if self.min(&d).map_or(true, |m| m < 0) {
                    return true;
                }
            }
        }
        false
    }
}
