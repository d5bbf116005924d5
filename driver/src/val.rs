//! Abstract values, memory and program states.
use crate::bdd::*;
use crate::sym::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Aid = u32;
pub const HEAP: Aid = 1 << 30;
pub const GLOB: Aid = 1 << 31;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ptr {
    pub a: Aid,
    pub off: Aff,
    pub bits: Option<Rc<Vec<B>>>,
}

/// Abstract byte.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum BV {
    /// never written
    U,
    C(u8),
    S(Rc<[B; 8]>),
    /// byte i of a pointer
    P(Rc<Ptr>, u8),
    /// byte i of an affine integer (two's complement)
    A(Rc<Aff>, u8),
    /// byte i of a function pointer
    G(u32, u8),
    /// anything
    T,
    /// written on some of the merged paths only
    M,
}

/// Abstract integer of a known width.
#[derive(Clone, PartialEq, Debug)]
pub enum IV {
    /// value as an unsigned number of the width
    K(Aff),
    Bits(Bits),
    Ptr(Rc<Ptr>),
    Fn(u32),
    Undef,
    Top,
}

#[derive(Clone, Debug)]
pub enum Intr {
    /// the sign of an affine expression (>= 0?) must be known
    Cond(Aff),
    /// a symbol must be split modulo a constant
    Mod(Sym, i128),
    /// a Boolean function must be constant on the path
    Fork(B),
    /// this path has ended (panic, violation, infeasible)
    Dead,
    /// the analysis cannot represent what the code does
    Unsup(String),
}
pub type R<X> = Result<X, Intr>;
pub fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Intr::Unsup(s.into()))
}

#[derive(Clone, Debug, PartialEq)]
pub enum W {
    G { off: Aff, bytes: Rc<Vec<BV>> },
    /// writes of all iterations 0 <= k < count, in order
    Loop { k: Sym, count: Aff, body: Rc<Vec<W>> },
    /// writes of the iterations before the current one of loop `id` (shape not known yet)
    Open { id: u32, k: Sym },
    /// copy of `len` bytes of another buffer's initial contents
    Copy { off: Aff, len: Aff, src: Aid, soff: Aff },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Data {
    Ground(Vec<BV>),
    Sym { input: Option<u32>, ws: Vec<W> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AK {
    Local,
    Heap,
    Src,
    Dst,
    Glob,
    Dead,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Alloc {
    pub size: Aff,
    pub align: u32,
    pub k: AK,
    pub ro: bool,
    pub d: Data,
}

impl Alloc {
    pub fn ground(k: AK, n: usize, align: u32) -> Alloc {
        Alloc { size: Aff::k(n as i128), align, k, ro: false, d: Data::Ground(vec![BV::U; n]) }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fact {
    /// for all 0 <= k < count: g
    All { k: Sym, count: Aff, g: B },
    /// var = init | exists k < count: h  (or)   /   var = init & forall k < count: h  (and)
    Red { k: Sym, count: Aff, vars: Vec<(u32, bool, B, B)> },
    /// lane of `bits` vars = max(init, max over k of h) as unsigned number
    Max { k: Sym, count: Aff, vars: Vec<u32>, init: Bits, h: Bits },
}

#[derive(Clone)]
pub struct State {
    pub stack: Vec<Rc<Alloc>>,
    pub heap: Vec<Rc<Alloc>>,
    pub glob: BTreeMap<u32, Rc<Alloc>>,
    pub pc: B,
    pub env: Rc<Env>,
    pub facts: Vec<Rc<Fact>>,
    pub sink: Rc<Vec<BV>>,
    /// number of Display/pad sink calls (a marker that sink is exact)
    pub sinks: u32,
    /// writes to destination allocations counted (for "nothing written" checks)
    pub dead: bool,
}

impl State {
    pub fn new(env: Env) -> State {
        State {
            stack: vec![],
            heap: vec![],
            glob: BTreeMap::new(),
            pc: T,
            env: Rc::new(env),
            facts: vec![],
            sink: Rc::new(vec![]),
            sinks: 0,
            dead: false,
        }
    }
    pub fn get(&self, a: Aid) -> Option<&Rc<Alloc>> {
        if a & GLOB != 0 {
            self.glob.get(&a)
        } else if a & HEAP != 0 {
            self.heap.get((a & !HEAP) as usize)
        } else {
            self.stack.get(a as usize)
        }
    }
    pub fn get_mut(&mut self, a: Aid) -> Option<&mut Alloc> {
        let r = if a & GLOB != 0 {
            self.glob.get_mut(&a)
        } else if a & HEAP != 0 {
            self.heap.get_mut((a & !HEAP) as usize)
        } else {
            self.stack.get_mut(a as usize)
        };
        r.map(Rc::make_mut)
    }
    pub fn add_heap(&mut self, al: Alloc) -> Aid {
        self.heap.push(Rc::new(al));
        HEAP | (self.heap.len() - 1) as Aid
    }
}

pub fn konst_bytes(v: u128, n: usize) -> Vec<BV> {
    (0..n).map(|i| BV::C(if i < 16 { (v >> (8 * i)) as u8 } else { 0 })).collect()
}

pub fn aff_bytes(a: &Aff, n: usize) -> Vec<BV> {
    match a.as_const() {
        Some(c) => (0..n).map(|i| BV::C(if i < 16 { (c >> (8 * i).min(127)) as u8 } else if c < 0 { 255 } else { 0 })).collect(),
        None => {
            let r = Rc::new(a.clone());
            (0..n).map(|i| BV::A(r.clone(), i as u8)).collect()
        }
    }
}

pub fn bits_bytes(b: &[B]) -> Vec<BV> {
    b.chunks(8)
        .map(|c| {
            let mut a = [F; 8];
            a[..c.len()].copy_from_slice(c);
            match Bdd::as_const(&a) {
                Some(v) => BV::C(v as u8),
                None => BV::S(Rc::new(a)),
            }
        })
        .collect()
}

pub fn iv_bytes(v: &IV, n: usize) -> Vec<BV> {
    match v {
        IV::K(a) => aff_bytes(a, n),
        IV::Bits(b) => bits_bytes(b),
        IV::Ptr(p) => ptr_bytes(p.clone(), n),
        IV::Fn(f) => (0..n).map(|i| BV::G(*f, i as u8)).collect(),
        IV::Undef => vec![BV::U; n],
        IV::Top => vec![BV::T; n],
    }
}

pub fn ptr_bytes(p: Rc<Ptr>, n: usize) -> Vec<BV> {
    (0..n).map(|i| BV::P(p.clone(), i as u8)).collect()
}

pub fn byte_bits(b: &BV) -> Option<[B; 8]> {
    match b {
        BV::C(c) => {
            let mut a = [F; 8];
            for i in 0..8 {
                if c >> i & 1 == 1 {
                    a[i] = T;
                }
            }
            Some(a)
        }
        BV::S(s) => Some(**s),
        _ => None,
    }
}
