//! What each operation must compute, as Boolean functions of the input bits.
use crate::bdd::*;

pub type By = [B; 8];

#[derive(Clone, Debug)]
pub struct Case {
    pub cond: B,
    pub out: Vec<By>,
}

pub const B64_STD: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub const B64_URL: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
pub const B32_STD: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
pub const B32_HEX: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUV";
pub const HEX_LO: &[u8] = b"0123456789abcdef";
pub const HEX_UP: &[u8] = b"0123456789ABCDEF";

#[derive(Clone, Copy)]
pub struct Codec {
    pub alpha: &'static [u8],
    /// bits per character
    pub bits: usize,
    pub pad: bool,
}

pub fn codec(m: &str) -> Option<Codec> {
    let (alpha, bits, pad) = match m {
        "b64_std" => (B64_STD, 6, true),
        "b64_url" => (B64_URL, 6, true),
        "b64_stdnp" => (B64_STD, 6, false),
        "b64_urlnp" => (B64_URL, 6, false),
        "b32" => (B32_STD, 5, true),
        "b32hex" => (B32_HEX, 5, true),
        "b32np" => (B32_STD, 5, false),
        "b32hexnp" => (B32_HEX, 5, false),
        "hex_lo" => (HEX_LO, 4, false),
        "hex_up" => (HEX_UP, 4, false),
        _ => return None,
    };
    Some(Codec { alpha, bits, pad })
}

pub struct Spec<'a> {
    pub b: &'a mut Bdd,
}

pub fn kbyte(c: u8) -> By {
    let mut r = [F; 8];
    for i in 0..8 {
        if c >> i & 1 == 1 {
            r[i] = T;
        }
    }
    r
}

impl<'a> Spec<'a> {
    pub fn is(&mut self, x: &By, c: u8) -> B {
        self.b.eq(x, &kbyte(c))
    }
    /// f(x) for a table over the low `x.len()` bits
    pub fn tab(&mut self, x: &[B], f: &dyn Fn(usize) -> bool) -> B {
        let mut cur: Vec<B> = (0..1usize << x.len()).map(|i| f(i) as B).collect();
        for &v in x {
            cur = cur.chunks(2).map(|c| (c[0], c[1])).collect::<Vec<_>>().into_iter().map(|(l, h)| if l == h { l } else { self.b.ite(v, h, l) }).collect();
        }
        cur[0]
    }
    /// x (MSB-first symbol bits) to a character of the alphabet
    fn sym_char(&mut self, msb: &[B], alpha: &'static [u8]) -> By {
        let lsb: Vec<B> = msb.iter().rev().cloned().collect();
        let mut r = [F; 8];
        for i in 0..8 {
            r[i] = self.tab(&lsb, &|v| alpha[v] >> i & 1 == 1);
        }
        r
    }
    /// (is a character of the alphabet, MSB-first value)
    pub fn char_sym(&mut self, x: &By, alpha: &[u8], bits: usize, fold: bool) -> (B, Vec<B>) {
        let val = |c: usize| -> Option<usize> {
            let c = c as u8;
            alpha.iter().position(|&a| a == c || (fold && a.to_ascii_lowercase() == c.to_ascii_lowercase()))
        };
        let ok = self.tab(x, &|c| val(c).is_some());
        let v = (0..bits).rev().map(|i| self.tab(x, &|c| val(c).map_or(false, |v| v >> i & 1 == 1))).collect();
        (ok, v)
    }
    pub fn encode(&mut self, c: Codec, src: &[By]) -> Vec<By> {
        let mut bits: Vec<B> = vec![];
        for x in src {
            bits.extend(x.iter().rev());
        }
        while bits.len() % c.bits != 0 {
            bits.push(F);
        }
        let mut out: Vec<By> = vec![];
        for ch in bits.chunks(c.bits) {
            out.push(self.sym_char(ch, c.alpha));
        }
        if c.pad {
            let g = if c.bits == 6 { 4 } else { 8 };
            while out.len() % g != 0 {
                out.push(kbyte(b'='));
            }
        }
        out
    }
    fn from_bits(bits: &[B]) -> Vec<By> {
        bits.chunks_exact(8)
            .map(|c| {
                let mut r = [F; 8];
                for i in 0..8 {
                    r[i] = c[7 - i];
                }
                r
            })
            .collect()
    }
    /// `chars` all in the alphabet -> (condition, bytes, trailing bits zero)
    fn unsym(&mut self, c: Codec, chars: &[By], fold: bool) -> (B, Vec<By>, B) {
        let mut cond = T;
        let mut bits = vec![];
        for x in chars {
            let (ok, v) = self.char_sym(x, c.alpha, c.bits, fold);
            cond = self.b.and(cond, ok);
            bits.extend(v);
        }
        let n = bits.len() / 8 * 8;
        let mut tz = T;
        for &x in &bits[n..] {
            let nx = self.b.not(x);
            tz = self.b.and(tz, nx);
        }
        (cond, Self::from_bits(&bits[..n]), tz)
    }
    pub fn decode(&mut self, c: Codec, src: &[By]) -> Vec<Case> {
        let n = src.len();
        let g = if c.bits == 6 { 4 } else { 8 };
        let ok_res = |m: usize| if c.bits == 6 { m != 1 } else { !matches!(m, 1 | 3 | 6) };
        let mut cases = vec![];
        let pads: Vec<usize> = if c.pad {
            if n % g != 0 {
                return vec![];
            }
            if n == 0 {
                vec![0]
            } else if c.bits == 6 {
                vec![0, 1, 2]
            } else {
                vec![0, 1, 3, 4, 6]
            }
        } else {
            if !ok_res(n % g) {
                return vec![];
            }
            vec![0]
        };
        for p in pads {
            let mut cond = T;
            for x in &src[n - p..] {
                let e = self.is(x, b'=');
                cond = self.b.and(cond, e);
            }
            let (ok, out, tz) = self.unsym(c, &src[..n - p], false);
            cond = self.b.and(cond, ok);
            cond = self.b.and(cond, tz);
            cases.push(Case { cond, out });
        }
        cases
    }
    pub fn is_ws(&mut self, x: &By) -> B {
        self.tab(x, &|c| matches!(c, 9 | 10 | 12 | 13 | 32))
    }
    /// WHATWG forgiving-base64 decode; `free` lists the positions that may be whitespace under `pc`.
    pub fn forgiving(&mut self, src: &[By], pc: B) -> Option<Vec<Case>> {
        let c = Codec { alpha: B64_STD, bits: 6, pad: false };
        // enumerate whitespace patterns compatible with pc
        let mut pats: Vec<(B, Vec<usize>)> = vec![(pc, vec![])];
        for (i, x) in src.iter().enumerate() {
            let w = self.is_ws(x);
            let nw = self.b.not(w);
            let mut next = vec![];
            for (p, keep) in pats {
                let a = self.b.and(p, w);
                let b = self.b.and(p, nw);
                if a != F {
                    next.push((a, keep.clone()));
                }
                if b != F {
                    let mut k = keep;
                    k.push(i);
                    next.push((b, k));
                }
            }
            if next.len() > 4096 {
                return None;
            }
            pats = next;
        }
        let mut cases = vec![];
        for (p, keep) in pats {
            let ch: Vec<By> = keep.iter().map(|&i| src[i]).collect();
            let n = ch.len();
            let mut add = |s: &mut Self, m: usize, extra: B| {
                if m % 4 == 1 {
                    return;
                }
                let (ok, out, _) = s.unsym(c, &ch[..m], false);
                let mut cond = s.b.and(p, ok);
                cond = s.b.and(cond, extra);
                if cond != F {
                    cases.push(Case { cond, out });
                }
            };
            add(self, n, T);
            if n % 4 == 0 && n > 0 {
                let e1 = self.is(&ch[n - 1], b'=');
                let e2 = self.is(&ch[n - 2], b'=');
                let two = self.b.and(e1, e2);
                let ne2 = self.b.not(e2);
                let one = self.b.and(e1, ne2);
                add(self, n - 1, one);
                add(self, n - 2, two);
            }
        }
        Some(cases)
    }
    pub fn hex_decode(&mut self, src: &[By]) -> Vec<Case> {
        if src.len() % 2 != 0 {
            return vec![];
        }
        let c = Codec { alpha: HEX_LO, bits: 4, pad: false };
        let (cond, out, _) = self.unsym(c, src, true);
        vec![Case { cond, out }]
    }
    pub fn hex_check(&mut self, src: &[By]) -> B {
        let c = Codec { alpha: HEX_LO, bits: 4, pad: false };
        self.unsym(c, src, true).0
    }
    pub fn uuid(&mut self, src: &[By], simple: bool, hyph: bool, wide: bool) -> Vec<Case> {
        let n = src.len();
        let (mut cond, body): (B, Vec<By>) = match n {
            32 if simple => (T, src.to_vec()),
            36 if hyph => self.hyph(src),
            38 if wide => {
                let a = self.is(&src[0], b'{');
                let b = self.is(&src[37], b'}');
                let (c, v) = self.hyph(&src[1..37]);
                let ab = self.b.and(a, b);
                (self.b.and(ab, c), v)
            }
            45 if wide => {
                let (mut c, v) = self.hyph(&src[9..]);
                for (i, &k) in b"urn:uuid:".iter().enumerate() {
                    let e = self.is(&src[i], k);
                    c = self.b.and(c, e);
                }
                (c, v)
            }
            _ => return vec![],
        };
        let mut v = self.hex_decode(&body);
        cond = self.b.and(cond, v[0].cond);
        v[0].cond = cond;
        v
    }
    fn hyph(&mut self, s: &[By]) -> (B, Vec<By>) {
        let mut c = T;
        let mut v = vec![];
        for (i, x) in s.iter().enumerate() {
            if matches!(i, 8 | 13 | 18 | 23) {
                let e = self.is(x, b'-');
                c = self.b.and(c, e);
            } else {
                v.push(*x);
            }
        }
        (c, v)
    }
    pub fn uuid_fmt(&mut self, src: &[By], hyph: bool, up: bool) -> Vec<By> {
        let c = codec(if up { "hex_up" } else { "hex_lo" }).unwrap();
        let h = self.encode(c, src);
        if !hyph {
            return h;
        }
        let mut out = vec![];
        for (i, x) in h.into_iter().enumerate() {
            if matches!(i, 8 | 12 | 16 | 20) {
                out.push(kbyte(b'-'));
            }
            out.push(x);
        }
        out
    }
    pub fn ascii(&mut self, src: &[By]) -> B {
        let mut c = T;
        for x in src {
            let n = self.b.not(x[7]);
            c = self.b.and(c, n);
        }
        c
    }
    pub fn utf32(&mut self, src: &[By]) -> B {
        let mut c = T;
        for x in src.chunks(4) {
            let bits: Vec<B> = x.iter().flat_map(|y| y.iter().cloned()).collect();
            let lim = self.b.konst(0x110000, 32);
            let small = self.b.ult(&bits, &lim);
            let hi: Vec<B> = bits[11..].to_vec();
            let k = self.b.konst(0xD800 >> 11, 21);
            let sur = self.b.eq(&hi, &k);
            let ns = self.b.not(sur);
            let ok = self.b.and(small, ns);
            c = self.b.and(c, ok);
        }
        c
    }
}

/// Length arithmetic on plain numbers.
pub fn enc_len(c: Codec, n: u128) -> u128 {
    let chars = (n * 8 + c.bits as u128 - 1) / c.bits as u128;
    if c.pad {
        let g = if c.bits == 6 { 4 } else { 8 };
        (chars + g - 1) / g * g
    } else {
        chars
    }
}
