//! The meaning of the SIMD layer's primitives, read off their names, as Boolean functions of the operand bits.
use crate::bdd::*;
use crate::spec::{kbyte, By, Spec};

pub struct Lane {
    /// operand sizes in bytes
    pub args: Vec<usize>,
    /// precondition on the operands
    pub pre: B,
    /// condition under which a result is returned (otherwise an error)
    pub ok: B,
    pub out: Vec<By>,
}

fn lane_ty(s: &str) -> Option<(bool, usize, usize)> {
    let sg = match s.chars().next()? {
        'i' => true,
        'u' => false,
        _ => return None,
    };
    let (w, rest) = s[1..].split_once('x')?;
    let w: usize = w.parse().ok()?;
    let n = match rest.split_once('x') {
        None => rest.parse::<usize>().ok()?,
        Some((n, k)) => n.parse::<usize>().ok()? * k.parse::<usize>().ok()?,
    };
    Some((sg, w, n))
}

fn lanes(x: &[By], w: usize) -> Vec<Bits> {
    x.chunks(w / 8).map(|c| c.iter().flat_map(|b| b.iter().copied()).collect()).collect()
}
fn bytes(v: &[Bits]) -> Vec<By> {
    v.iter().flat_map(|l| l.chunks(8).map(|c| std::array::from_fn(|i| c[i])).collect::<Vec<By>>()).collect()
}

/// Operand sizes by name (without the `scalable_` prefix).
pub fn args(name: &str) -> Option<Vec<usize>> {
    let name = name.trim_start_matches("scalable_");
    let vw = |s: &str| if s.contains("v64") { 8 } else if s.contains("v128") { 16 } else if s.contains("v256") { 32 } else { 64 };
    if let Some(r) = name.strip_prefix("ascii_") {
        return Some(vec![vw(r)]);
    }
    if let Some(r) = name.strip_prefix("hex_") {
        return Some(match r {
            "encode16_lo" | "encode16_up" | "decode16" => vec![16],
            "encode32_lo" | "encode32_up" | "decode32" => vec![32],
            "decode32x2" => vec![32, 32],
            r => vec![vw(r)],
        });
    }
    if let Some(r) = name.strip_prefix("lookup_") {
        return Some(vec![vw(r), vw(r)]);
    }
    if name == "sim_u8x16_bitmask" {
        return Some(vec![16]);
    }
    if let Some(r) = name.strip_prefix("mask_") {
        return Some(vec![if r.contains("x16") { 16 } else { 32 }]);
    }
    if let Some(r) = name.strip_prefix("vec_") {
        return Some(vec![match r {
            "v64_to_u64" | "v64_bytes" => 8,
            "v128_bytes" | "halves64" | "double128" | "double128b" => 16,
            "v256_bytes" | "halves128" | "lo128" | "double256" | "double256b" => 32,
            _ => 64,
        }]);
    }
    if let Some(r) = name.strip_prefix("hexs_") {
        return Some(vec![if r == "unhex" { 1 } else { 16 }]);
    }
    if name == "u16x16_from_u8x16" {
        return Some(vec![16]);
    }
    if let Some(r) = name.strip_prefix("v128_").or_else(|| name.strip_prefix("v256_")).or_else(|| name.strip_prefix("v128x2_")) {
        let w = if name.starts_with("v128_") { 16 } else { 32 };
        let k = match r {
            "create_zero" => 0,
            "bsl" => 3,
            "and" | "or" | "xor" | "andnot" | "zip_lo" | "zip_hi" => 2,
            _ => 1,
        };
        return Some(vec![w; k]);
    }
    let (t, o) = name.split_once('_')?;
    let (_, w, n) = lane_ty(t)?;
    let b = w * n / 8;
    let o = o.trim_end_matches(|c: char| c.is_ascii_digit());
    Some(match o {
        "splat" => vec![w / 8],
        "bswap" | "any_zero" | "bitmask" | "reduce_max" | "reduce_min" | "shl_" | "shr_" | "permute_" => vec![b],
        "blendv" => vec![b; 3],
        _ => vec![b; 2],
    })
}

/// Whether the second operand selects bytes of the first (it then comes first in the variable order).
pub fn selects(name: &str) -> bool {
    name.contains("swizzle") || name.starts_with("lookup_")
}

impl<'a> Spec<'a> {
    fn hexval(&mut self, x: &By) -> (B, By) {
        let cs = self.hex_decode(&[*x, kbyte(b'0')]);
        let ok = cs[0].cond;
        let o = cs[0].out[0];
        (ok, [o[4], o[5], o[6], o[7], F, F, F, F])
    }
    fn hexchar(&mut self, nib: &[B], up: bool) -> By {
        let mut o = [F; 8];
        let al: &[u8; 16] = if up { b"0123456789ABCDEF" } else { b"0123456789abcdef" };
        for (i, y) in o.iter_mut().enumerate() {
            *y = self.tab(nib, &|v| al[v & 15] >> i & 1 == 1);
        }
        o
    }
    fn select16(&mut self, tab: &[By], idx: &By, bits: usize) -> By {
        // idx < 2^bits -> tab[idx], high bit set -> 0
        let mut level: Vec<By> = tab.to_vec();
        for k in 0..bits {
            level = level.chunks(2).map(|p| std::array::from_fn(|i| self.b.ite(idx[k], p[1][i], p[0][i]))).collect();
        }
        let nh = self.b.not(idx[7]);
        std::array::from_fn(|i| self.b.and(level[0][i], nh))
    }
    fn all_bytes(&mut self, x: &[By], f: &mut dyn FnMut(&mut Bdd, &By) -> B) -> B {
        let mut r = T;
        for y in x {
            let c = f(self.b, y);
            r = self.b.and(r, c);
        }
        r
    }
    fn boolean(&mut self, b: B) -> Vec<By> {
        vec![[b, F, F, F, F, F, F, F]]
    }

    pub fn lane(&mut self, name: &str, a: &[Vec<By>]) -> Option<Lane> {
        let name = name.trim_start_matches("scalable_");
        let args: Vec<usize> = a.iter().map(|x| x.len()).collect();
        let mut pre = T;
        let mut ok = T;
        let ew = |s: &mut Self, f: &mut dyn FnMut(&mut Bdd, B, B) -> B| -> Vec<By> {
            a[0].iter().zip(&a[1]).map(|(x, y)| std::array::from_fn(|i| f(s.b, x[i], y[i]))).collect()
        };
        let isfull = |d: &mut Bdd, x: &By| {
            let e: Vec<B> = (1..8).map(|i| d.xor(x[0], x[i])).collect();
            let mut r = T;
            for y in e {
                let n = d.not(y);
                r = d.and(r, n);
            }
            r
        };
        let out: Vec<By> = if let Some(r) = name.strip_prefix("ascii_to_") {
            let lower = r.starts_with("lower");
            let (lo, hi) = if lower { (b'A', b'Z') } else { (b'a', b'z') };
            a[0].iter()
                .map(|x| {
                    let is = self.tab(x, &|v| v as u8 >= lo && v as u8 <= hi);
                    let mut y = *x;
                    y[5] = self.b.xor(x[5], is);
                    y
                })
                .collect()
        } else if let Some(r) = name.strip_prefix("hex_") {
            match r {
                _ if r.starts_with("check") => {
                    let c = self.hex_check(&a[0]);
                    self.boolean(c)
                }
                _ if r.starts_with("encode") => {
                    let up = r.ends_with("up");
                    a[0].iter().flat_map(|x| vec![self.hexchar(&x[4..], up), self.hexchar(&x[..4], up)]).collect()
                }
                _ => {
                    let all: Vec<By> = a.concat();
                    let c = self.hex_decode(&all);
                    ok = c[0].cond;
                    c[0].out.clone()
                }
            }
        } else if name.starts_with("lookup_") || name.ends_with("_swizzle") {
            let whole = name == "u8x32_swizzle";
            let k = if whole { 32 } else { 16 };
            if !name.starts_with("lookup_") {
                pre = self.all_bytes(&a[1], &mut |d, x| {
                    let mut hi = if whole { F } else { x[4] };
                    for j in 5..7 {
                        hi = d.or(hi, x[j]);
                    }
                    let n = d.not(hi);
                    d.or(n, x[7])
                });
            }
            let mut o = vec![];
            for (t, ix) in a[0].chunks(k).zip(a[1].chunks(k)) {
                for x in ix {
                    o.push(self.select16(t, x, if whole { 5 } else { 4 }));
                }
            }
            o
        } else if let Some(r) = name.strip_prefix("mask_") {
            if r.starts_with("mask") {
                pre = self.all_bytes(&a[0], &mut |d, x| isfull(d, x));
            }
            let mut all = T;
            let mut any = F;
            for x in &a[0] {
                all = self.b.and(all, x[7]);
                any = self.b.or(any, x[7]);
            }
            self.boolean(if r.ends_with("all") { all } else { any })
        } else if let Some(r) = name.strip_prefix("vec_") {
            match r {
                "lo128" => a[0][..16].to_vec(),
                _ if r.starts_with("double") => [&a[0][..], &a[0][..]].concat(),
                _ => a[0].clone(),
            }
        } else if let Some(r) = name.strip_prefix("hexs_") {
            match r {
                "unhex" | "nibbles" => a[0]
                    .iter()
                    .map(|x| {
                        let (c, v) = self.hexval(x);
                        std::array::from_fn(|i| self.b.ite(c, v[i], T))
                    })
                    .collect(),
                "merge" => {
                    pre = self.all_bytes(&a[0], &mut |d, x| {
                        let mut h = F;
                        for j in 4..8 {
                            h = d.or(h, x[j]);
                        }
                        d.not(h)
                    });
                    a[0].chunks(2).map(|c| std::array::from_fn(|i| if i < 4 { c[1][i] } else { c[0][i - 4] })).collect()
                }
                _ => {
                    let up = r.ends_with("up");
                    a[0].iter().flat_map(|x| vec![self.hexchar(&x[4..], up), self.hexchar(&x[..4], up)]).collect()
                }
            }
        } else if name == "u16x16_from_u8x16" {
            a[0].iter().flat_map(|x| vec![*x, [F; 8]]).collect()
        } else if let Some(r) = name.strip_prefix("v128x2_zip_") {
            let k = if r == "lo" { 0 } else { 16 };
            [&a[0][k..k + 16], &a[1][k..k + 16]].concat()
        } else if let Some(r) = name.strip_prefix("v128_").or_else(|| name.strip_prefix("v256_")) {
            match r {
                "create_zero" => vec![[F; 8]; if name.starts_with("v128") { 16 } else { 32 }],
                "not" => a[0].iter().map(|x| std::array::from_fn(|i| self.b.not(x[i]))).collect(),
                "and" => ew(self, &mut |d, x, y| d.and(x, y)),
                "or" => ew(self, &mut |d, x, y| d.or(x, y)),
                "xor" => ew(self, &mut |d, x, y| d.xor(x, y)),
                "andnot" => ew(self, &mut |d, x, y| {
                    let n = d.not(y);
                    d.and(x, n)
                }),
                "all_zero" => {
                    let mut any = F;
                    for x in a[0].iter().flatten() {
                        any = self.b.or(any, *x);
                    }
                    let z = self.b.not(any);
                    self.boolean(z)
                }
                "bsl" => (0..a[0].len())
                    .map(|k| std::array::from_fn(|i| self.b.ite(a[0][k][i], a[1][k][i], a[2][k][i])))
                    .collect(),
                "load" | "load_unaligned" | "store" | "store_unaligned" => a[0].clone(),
                _ => return None,
            }
        } else {
            let name = name.trim_start_matches("sim_");
            let (t, o) = name.split_once('_')?;
            let (sg, w, n) = lane_ty(t)?;
            let l: Vec<Vec<Bits>> = a.iter().map(|x| lanes(x, w)).collect();
            let imm: usize = o.rsplit('_').next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let o = o.trim_end_matches(|c: char| c.is_ascii_digit()).trim_end_matches('_');
            let d = &mut *self.b;
            let mut l2 = |d: &mut Bdd, f: &mut dyn FnMut(&mut Bdd, &Bits, &Bits) -> Bits| -> Vec<By> {
                let v: Vec<Bits> = (0..n).map(|i| f(d, &l[0][i], &l[1][i])).collect();
                bytes(&v)
            };
            // saturation of a wide signed value to w bits
            fn sat(d: &mut Bdd, x: &Bits, w: usize, signed: bool) -> Bits {
                let k = x.len();
                let (lo, hi): (i128, i128) = if signed { (-(1 << (w - 1)), (1 << (w - 1)) - 1) } else { (0, (1 << w) - 1) };
                let lo = d.konst(lo as u128, k);
                let hi = d.konst(hi as u128, k);
                let below = d.slt(x, &lo);
                let above = d.slt(&hi, x);
                let r = d.mux(below, &lo, x);
                d.mux(above, &hi, &r)[..w].to_vec()
            }
            match o {
                "splat" => a[0].repeat(n),
                "add" => l2(d, &mut |d, x, y| d.add(x, y)),
                "sub" => l2(d, &mut |d, x, y| d.sub(x, y)),
                "add_sat" | "sub_sat" => l2(d, &mut |d, x, y| {
                    let (x, y) = (d.ext(x, w + 2, sg), d.ext(y, w + 2, sg));
                    let s = if o == "add_sat" { d.add(&x, &y) } else { d.sub(&x, &y) };
                    sat(d, &s, w, sg)
                }),
                "mul_lo" => l2(d, &mut |d, x, y| d.mul(x, y)),
                "mul_hi" => l2(d, &mut |d, x, y| {
                    let (x, y) = (d.ext(x, 2 * w, sg), d.ext(y, 2 * w, sg));
                    d.mul(&x, &y)[w..].to_vec()
                }),
                "avgr" => l2(d, &mut |d, x, y| {
                    let (x, y) = (d.ext(x, w + 1, false), d.ext(y, w + 1, false));
                    d.add_c(&x, &y, T).0[1..].to_vec()
                }),
                "eq" => l2(d, &mut |d, x, y| {
                    let c = d.eq(x, y);
                    vec![c; w]
                }),
                "lt" => l2(d, &mut |d, x, y| {
                    let c = if sg { d.slt(x, y) } else { d.ult(x, y) };
                    vec![c; w]
                }),
                "max" | "min" => l2(d, &mut |d, x, y| {
                    let c = if sg { d.slt(x, y) } else { d.ult(x, y) };
                    if o == "max" {
                        d.mux(c, y, x)
                    } else {
                        d.mux(c, x, y)
                    }
                }),
                "shl" => bytes(&l[0].iter().map(|x| d.shl_c(x, imm)).collect::<Vec<_>>()),
                "shr" => bytes(&l[0].iter().map(|x| d.shr_c(x, imm, false)).collect::<Vec<_>>()),
                "bswap" => a[0].chunks(w / 8).flat_map(|c| c.iter().rev().copied().collect::<Vec<By>>()).collect(),
                "any_zero" => {
                    let mut r = F;
                    for x in &l[0] {
                        let z = d.konst(0, w);
                        let e = d.eq(x, &z);
                        r = d.or(r, e);
                    }
                    self.boolean(r)
                }
                "bitmask" => {
                    let m: Bits = l[0].iter().map(|x| x[w - 1]).collect();
                    bytes(&[m])
                }
                "reduce_max" | "reduce_min" => {
                    let mut m = l[0][0].clone();
                    for x in &l[0][1..] {
                        let c = d.ult(&m, x);
                        m = if o == "reduce_max" { d.mux(c, x, &m) } else { d.mux(c, &m, x) };
                    }
                    bytes(&[m])
                }
                "blendv" => {
                    let v: Vec<Bits> = (0..n).map(|i| d.mux(l[2][i][w - 1], &l[1][i], &l[0][i])).collect();
                    bytes(&v)
                }
                "blend" => bytes(&(0..n).map(|i| l[imm >> i & 1][i].clone()).collect::<Vec<_>>()),
                "permute" => bytes(&(0..n).map(|i| l[0][imm >> (2 * i) & 3].clone()).collect::<Vec<_>>()),
                "zip_lo" | "zip_hi" => {
                    // within each 128-bit half
                    let k = 128 / w;
                    let mut v = vec![];
                    for (x, y) in l[0].chunks(k).zip(l[1].chunks(k)) {
                        let s = if o == "zip_lo" { 0 } else { k / 2 };
                        for i in s..s + k / 2 {
                            v.push(x[i].clone());
                            v.push(y[i].clone());
                        }
                    }
                    bytes(&v)
                }
                "unzip_even" | "unzip_odd" => {
                    let all: Vec<Bits> = l.concat();
                    let v: Vec<Bits> = all.into_iter().skip((o == "unzip_odd") as usize).step_by(2).collect();
                    let v = if name == "u8x8_unzip_even" { v } else { v };
                    bytes(&v)
                }
                "maddubs" | "madd" => {
                    // unsigned (maddubs) or signed lanes of the first operand by signed lanes of the second, adjacent sums
                    let (h, uns) = if o == "maddubs" { (8, true) } else { (16, false) };
                    let (x, y) = (lanes(&a[0], h), lanes(&a[1], h));
                    let mut v = vec![];
                    for (p, q) in x.chunks(2).zip(y.chunks(2)) {
                        let mut s = vec![F; 2 * h + 2];
                        for j in 0..2 {
                            let (u, z) = (d.ext(&p[j], 2 * h + 2, !uns), d.ext(&q[j], 2 * h + 2, true));
                            let m = d.mul(&u, &z);
                            s = d.add(&s, &m);
                        }
                        v.push(if uns { sat(d, &s, 2 * h, true) } else { s[..2 * h].to_vec() });
                    }
                    bytes(&v)
                }
                "packus" => {
                    let mut v = vec![];
                    for x in l.iter().flatten() {
                        let x = d.ext(x, w + 1, true);
                        v.push(sat(d, &x, 8, false));
                    }
                    bytes(&v)
                }
                _ => return None,
            }
        };
        Some(Lane { args, pre, ok, out })
    }
}
