//! One analysis job: an entry point, a destination shape and a CPU feature set, over all contents of the source.
use crate::bdd::*;
use crate::interp::*;
use crate::ir::*;
use crate::spec::*;
use crate::sym::*;
use crate::val::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::rc::Rc;

#[derive(Clone, Default, Debug)]
pub struct Job {
    pub id: String,
    pub kv: BTreeMap<String, String>,
}
impl Job {
    pub fn parse(l: &str) -> Option<Job> {
        let mut kv = BTreeMap::new();
        for t in l.split_whitespace() {
            let (k, v) = t.split_once('=')?;
            kv.insert(k.to_string(), v.to_string());
        }
        Some(Job { id: kv.get("id")?.clone(), kv })
    }
    pub fn s(&self, k: &str) -> &str {
        self.kv.get(k).map_or("", |x| x.as_str())
    }
    pub fn n(&self, k: &str) -> usize {
        self.s(k).parse().unwrap_or(0)
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub func: String,
    pub detail: String,
    pub witness: String,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct Out {
    pub viols: Vec<Viol>,
    pub unres: Vec<String>,
    pub sig: String,
    pub outcomes: usize,
}

/// One way a call can end.
pub struct Outcome {
    pub st: State,
    /// path condition under which it returned success / failure
    pub ok: B,
    pub err: B,
    pub ptr: Option<IV>,
    pub len: Option<usize>,
    pub cap: Option<usize>,
}

pub struct Setup {
    pub src: Aid,
    pub dst: Aid,
    pub inplace: bool,
    pub append: bool,
    pub d: usize,
    pub elem: usize,
}

fn bounds_text(e: &Env) -> String {
    e.v.iter()
        .map(|b| format!("{} <= s{} <= {}", b.lo, b.s, b.hi.as_ref().map_or("max".into(), |h| h.to_string())))
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn elem_of(entry: &str) -> usize {
    if entry.contains("utf16") {
        2
    } else if entry.contains("utf32") {
        4
    } else {
        1
    }
}

pub struct Runner<'tcx> {
    pub it: Interp<'tcx>,
    pub entries: HashMap<String, FnId>,
}

impl<'tcx> Runner<'tcx> {
    pub fn witness(&self, cond: B, n: usize, elem: usize) -> String {
        let w: HashMap<u32, bool> = self.it.bdd.witness(cond).into_iter().collect();
        let mut src = vec![];
        let mut any = false;
        for i in 0..n * elem {
            match self.it.varmap.get(&(0, Aff::k(i as i128))) {
                Some(&b) => {
                    let mut v = 0u8;
                    for j in 0..8 {
                        if w.get(&(b + j)).copied().unwrap_or(false) {
                            v |= 1 << j;
                        }
                        any |= w.contains_key(&(b + j));
                    }
                    src.push(v);
                }
                None => src.push(0),
            }
        }
        if !any {
            return format!("any source of {n} elements");
        }
        let mut s = format!("source of {n} elements, bytes ");
        for b in src {
            let _ = write!(s, "{b:02x}");
        }
        s
    }

    /// Another call, `entry:length`, on contents of its own; the argument blocks of `st` are put back afterwards.
    fn other_call(&mut self, st: State, call: &str, buf: u32, main: (Aid, Aid, usize), job: &Job) -> R<Vec<State>> {
        // "self": the call under analysis on its own buffers, "other": on other buffers
        let me = match call {
            "self" => format!("{}*={}", job.s("entry"), job.n("n")),
            "other" => format!("{}*{}", job.s("entry"), job.n("n")),
            c => c.to_string(),
        };
        let call = &me[..];
        let (en, n) = match call.split_once('*') {
            Some(x) => x,
            None => return unsup("call"),
        };
        // "=": on the very buffers of the call under analysis, with other contents
        let same = n.starts_with('=');
        let n: usize = n.trim_start_matches('=').parse().unwrap_or(0);
        let f = match self.entries.get(en) {
            Some(&f) => f,
            None => return unsup(format!("no entry {en}")),
        };
        let ps = self.it.p.ptr_size();
        let elem = elem_of(en);
        let d = 2 * n + 64;
        let (b0, b1, b2) = (st.stack[0].clone(), st.stack[1].clone(), st.stack[2].clone());
        let (sink, sinks) = (st.sink.clone(), st.sinks);
        let base = st.heap.len();
        let mut s = st;
        let inplace = en.contains("inplace");
        let append = en.contains("append");
        let bytes: Vec<BV> = (0..n * elem).map(|i| self.it.input_byte(buf, &Aff::k(i as i128))).collect();
        let src = s.add_heap(Alloc { size: Aff::k((n * elem) as i128), align: elem as u32, k: AK::Src, ro: !inplace, d: Data::Ground(bytes) });
        let d = if en.starts_with("uuid_p") { 16 } else if en.ends_with("format_simple") { 32 } else if en.ends_with("format_hyphenated") { 36 } else if en.contains("utf") { n } else { d };
        let dst = s.add_heap(if append {
            Alloc { size: Aff::k(d as i128), align: 1, k: AK::Heap, ro: false, d: Data::Ground(vec![BV::U; d]) }
        } else {
            Alloc { size: Aff::k((d * elem) as i128), align: elem as u32, k: AK::Dst, ro: false, d: Data::Ground(vec![BV::U; d * elem]) }
        });
        let pp = |a: Aid| ptr_bytes(Rc::new(Ptr { a, off: Aff::k(0), bits: None }), ps);
        let (ms, md) = (main.0, main.1);
        let keep = (s.get(ms).cloned(), s.get(md).cloned());
        let (src, dst, d) = if same && !append {
            let bytes = s.get(src).unwrap().d.clone();
            if let Some(x) = s.get_mut(ms) {
                x.d = bytes;
            }
            (ms, md, main.2)
        } else {
            (src, dst, d)
        };
        let mut a = vec![];
        a.extend(pp(src));
        a.extend(konst_bytes(n as u128, ps));
        a.extend(pp(dst));
        a.extend(konst_bytes(if append { 0 } else { d } as u128, ps));
        a.extend(konst_bytes(d as u128, ps));
        a.extend(pp(2));
        Rc::make_mut(&mut s.stack[0]).d = Data::Ground(a);
        let mut out = vec![];
        for (mut r, _) in self.it.call(s, f, vec![pp(0), pp(1)], 0)? {
            r.stack[0] = b0.clone();
            r.stack[1] = b1.clone();
            r.stack[2] = b2.clone();
            r.sink = sink.clone();
            r.sinks = sinks;
            // what the call left on the heap is gone, unless a static refers to it
            let kept = r.glob.values().any(|g| match &g.d {
                Data::Ground(d) => d.iter().any(|b| matches!(b, BV::P(p, _) if p.a != NULLA && p.a & GLOB == 0 && p.a & HEAP != 0 && (p.a & !HEAP) as usize >= base)),
                _ => true,
            });
            if !kept {
                r.heap.truncate(base);
            }
            for (i, k) in [(ms, &keep.0), (md, &keep.1)] {
                if let (Some(x), Some(k)) = (r.get_mut(i), k) {
                    *x = (**k).clone();
                }
            }
            out.push(r);
        }
        Ok(out)
    }

    /// Builds the initial state and runs the entry.
    pub fn run(&mut self, job: &Job, entry: &str, srcb: Option<(Vec<BV>, B)>) -> R<(Setup, Vec<Outcome>)> {
        let f = match self.entries.get(entry) {
            Some(&f) => f,
            None => return unsup(format!("no entry {entry}")),
        };
        let ps = self.it.p.ptr_size();
        let name = entry.rsplit("::").next().unwrap();
        let elem = elem_of(name);
        let inplace = name.contains("inplace");
        let append = name.contains("append");
        let n = match &srcb {
            Some((b, _)) => b.len() / elem,
            None => job.n("n"),
        };
        let d = job.n("d");
        let cap = if job.s("p").is_empty() { job.n("cap").max(d) } else { job.n("p") };
        let mut st = State::new(Env::default());
        let bytes: Vec<BV> = match &srcb {
            Some((b, pc)) => {
                st.pc = *pc;
                b.clone()
            }
            None => (0..n * elem).map(|i| self.it.input_byte(0, &Aff::k(i as i128))).collect(),
        };
        // whitespace pattern assumption
        if srcb.is_none() && !job.s("ws").is_empty() {
            let pat: Vec<usize> = job.s("ws").split(',').filter_map(|x| x.parse().ok()).collect();
            let mut pc = T;
            for (i, b) in bytes.iter().enumerate() {
                let x = byte_bits(b).unwrap();
                let w = Spec { b: &mut self.it.bdd }.is_ws(&x);
                let c = if pat.contains(&i) { w } else { self.it.bdd.not(w) };
                pc = self.it.bdd.and(pc, c);
            }
            st.pc = pc;
        }
        st.stack.push(Rc::new(Alloc::ground(AK::Local, 6 * ps, ps as u32)));
        st.stack.push(Rc::new(Alloc::ground(AK::Local, 8 + 3 * ps, 8)));
        // the formatter: any options (flags, width, precision), and a sink behind it
        let mut fm = vec![BV::T; 128];
        if name.starts_with("simple_") || name.starts_with("hyphenated_") {
            for (i, x) in fm.iter_mut().enumerate().take(32) {
                *x = self.it.input_byte(2, &Aff::k(i as i128));
            }
        }
        st.stack.push(Rc::new(Alloc { size: Aff::k(128), align: 16, k: AK::Local, ro: false, d: Data::Ground(fm) }));
        let src = st.add_heap(Alloc {
            size: Aff::k((n * elem) as i128),
            align: if job.n("al") > 0 { job.n("al") as u32 } else { elem as u32 },
            k: AK::Src,
            ro: !inplace,
            d: Data::Ground(bytes),
        });
        let dst = if append {
            let mut v = vec![BV::U; cap];
            for (i, x) in v.iter_mut().enumerate().take(d) {
                *x = self.it.input_byte(1, &Aff::k(i as i128));
            }
            st.add_heap(Alloc { size: Aff::k(cap as i128), align: 1, k: AK::Heap, ro: false, d: Data::Ground(v) })
        } else {
            st.add_heap(Alloc {
                size: Aff::k((d * elem) as i128),
                align: if job.n("al") > 0 { job.n("al") as u32 } else { elem as u32 },
                k: AK::Dst,
                ro: false,
                d: Data::Ground(vec![BV::U; d * elem]),
            })
        };
        let pp = |a: Aid| ptr_bytes(Rc::new(Ptr { a, off: Aff::k(0), bits: None }), ps);
        let mut a = vec![];
        a.extend(pp(src));
        a.extend(konst_bytes(n as u128, ps));
        if append && cap == 0 {
            a.extend(konst_bytes(1, ps));
        } else {
            a.extend(pp(dst));
        }
        a.extend(konst_bytes(d as u128, ps));
        a.extend(konst_bytes(cap as u128, ps));
        a.extend(pp(2));
        Rc::make_mut(&mut st.stack[0]).d = Data::Ground(a);
        let mut starts = vec![st];
        if srcb.is_none() && !job.s("hist").is_empty() {
            // earlier calls, whose state between calls is kept
            for (i, c) in job.s("hist").split('+').enumerate() {
                let mut next = vec![];
                for s in starts {
                    next.extend(self.other_call(s, c, 2 + i as u32, (src, dst, d), job)?);
                }
                starts = self.it.merge_all(next);
                if starts.len() > 64 {
                    return unsup("too many states between calls");
                }
            }
            self.it.events.clear();
        }
        if srcb.is_none() && !job.s("inter").is_empty() {
            // concurrent calls, which may do their atomic stores at any time
            self.it.collect_stores = true;
            for (i, c) in job.s("inter").split('+').enumerate() {
                self.other_call(starts[0].clone(), c, 20 + i as u32, (src, dst, d), job)?;
            }
            self.it.events.clear();
            self.it.collect_stores = false;
            self.it.interfere = true;
        }
        let mut rs = vec![];
        for st in starts {
            rs.extend(self.it.call(st, f, vec![pp(0), pp(1)], 0)?);
        }
        let mut outs = vec![];
        for (s, _) in rs {
            let r = match &s.stack[1].d {
                Data::Ground(d) => d.clone(),
                _ => return unsup("result block"),
            };
            let pc = s.pc;
            let tag = match byte_bits(&r[0]) {
                Some(b) => b[0],
                None => return unsup("result tag"),
            };
            let ok = self.it.bdd.and(pc, tag);
            let nt = self.it.bdd.not(tag);
            let err = self.it.bdd.and(pc, nt);
            let ptr = self.it.to_iv(&s, &r[8..8 + ps]).ok();
            let len = self.it.to_iv(&s, &r[8 + ps..8 + 2 * ps])?;
            let cap = match self.it.to_iv(&s, &r[8 + 2 * ps..8 + 3 * ps])? {
                IV::K(a) => a.as_const().map(|x| x as usize),
                _ => None,
            };
            match len {
                IV::Bits(b) => {
                    // enumerate the possible lengths
                    let (mut rest, mut resterr) = (ok, err);
                    for l in 0..=4 * n + d + 64 {
                        let k = self.it.bdd.konst(l as u128, b.len());
                        let e = self.it.bdd.eq(&b, &k);
                        let c = self.it.bdd.and(rest, e);
                        let ce = self.it.bdd.and(resterr, e);
                        let ne = self.it.bdd.not(e);
                        rest = self.it.bdd.and(rest, ne);
                        resterr = self.it.bdd.and(resterr, ne);
                        if c != F || ce != F {
                            let mut s2 = s.clone();
                            s2.pc = self.it.bdd.or(c, ce);
                            outs.push(Outcome { st: s2, ok: c, err: ce, ptr: ptr.clone(), len: Some(l), cap });
                        }
                        if rest == F && resterr == F {
                            break;
                        }
                    }
                    if rest != F || resterr != F {
                        outs.push(Outcome { st: s.clone(), ok: rest, err: resterr, ptr: ptr.clone(), len: None, cap });
                    }
                }
                l => {
                    let len = match l {
                        IV::K(a) => a.as_const().map(|x| x as usize),
                        _ => None,
                    };
                    outs.push(Outcome { st: s, ok, err, ptr, len, cap });
                }
            }
        }
        if !self.it.maxes.is_empty() {
            for o in outs.iter_mut() {
                o.ok = self.it.elim_max(o.ok)?;
                o.err = self.it.elim_max(o.err)?;
            }
        }
        Ok((Setup { src, dst, inplace, append, d, elem }, outs))
    }

    fn wit_len(&self, cond: B) -> String {
        let w: HashMap<u32, bool> = self.it.bdd.witness(cond).into_iter().collect();
        let bits = self.it.p.ptr_size() * 8;
        let mut n = 0u128;
        for i in 0..bits {
            if w.get(&((bits - 1 - i) as u32)).copied().unwrap_or(false) {
                n |= 1 << i;
            }
        }
        format!("length {n} ({n:#x})")
    }

    /// A function of a length only, for every length at once: the bits of the length are the variables.
    fn symlen(&mut self, entry: &str, out: &mut Out) -> R<()> {
        let f = match self.entries.get(entry) {
            Some(&f) => f,
            None => return unsup(format!("no entry {entry}")),
        };
        let (m, name) = entry.split_once("::").unwrap();
        let ps = self.it.p.ptr_size();
        let w = ps * 8;
        for i in 0..w {
            self.it.new_var(VarKey::Free(i as u32));
        }
        let n: Bits = (0..w).map(|i| self.it.bdd.var((w - 1 - i) as u32)).collect();
        let mut st = State::new(Env::default());
        st.stack.push(Rc::new(Alloc::ground(AK::Local, 6 * ps, ps as u32)));
        st.stack.push(Rc::new(Alloc::ground(AK::Local, 8 + 3 * ps, 8)));
        let mut a = konst_bytes(1, ps);
        for k in 0..ps {
            let mut x = [F; 8];
            x.copy_from_slice(&n[8 * k..8 * k + 8]);
            a.push(BV::S(Rc::new(x)));
        }
        for _ in 0..4 {
            a.extend(konst_bytes(1, ps));
        }
        Rc::make_mut(&mut st.stack[0]).d = Data::Ground(a);
        let pp = |a: Aid| ptr_bytes(Rc::new(Ptr { a, off: Aff::k(0), bits: None }), ps);
        let rs = self.it.call(st, f, vec![pp(0), pp(1)], 0)?;
        // the specification, in arithmetic wide enough not to overflow
        let big = w + 4;
        let nn = self.it.bdd.ext(&n, big, false);
        let (num, den, floor) = match (m.starts_with("b64"), m.starts_with("b32"), name) {
            (true, _, "encoded_length") => (8u128, 6u128, false),
            (_, true, "encoded_length") => (8, 5, false),
            (_, _, "encoded_length") => (2, 1, true),
            (true, _, _) => (6, 8, true),
            (_, true, _) => (5, 8, true),
            _ => (1, 2, true),
        };
        let k = self.it.bdd.konst(num, big);
        let mut x = self.it.bdd.mul(&nn, &k);
        if !floor {
            let k = self.it.bdd.konst(den - 1, big);
            x = self.it.bdd.add(&x, &k);
        }
        let (mut q, _) = if den == 1 { (x, vec![]) } else { self.it.udivrem(&x, den) };
        let group = if m.starts_with("b64") { 4u128 } else { 8 };
        if name == "encoded_length" && m.starts_with('b') && !m.ends_with("np") {
            // whole groups
            let k = self.it.bdd.konst(group - 1, big);
            q = self.it.bdd.add(&q, &k);
            for b in q.iter_mut().take(group.trailing_zeros() as usize) {
                *b = F;
            }
        }
        // lengths for which the call must succeed, and those where it may panic
        let hi = n[w - 1];
        let in_range = self.it.bdd.not(hi);
        let (must, est) = match name {
            "encoded_length" => (in_range, false),
            "decoded_length" => {
                let even = self.it.bdd.not(n[0]);
                (even, false)
            }
            _ => {
                // text lengths some text of which decodes
                let r: Bits = n[..group.trailing_zeros() as usize].to_vec();
                let ok: &[u128] = match (group, m.ends_with("np")) {
                    (4, false) | (8, false) => &[0],
                    (4, true) => &[0, 2, 3],
                    _ => &[0, 2, 4, 5, 7],
                };
                let mut c = F;
                for &o in ok {
                    let k = self.it.bdd.konst(o, r.len());
                    let e = self.it.bdd.eq(&r, &k);
                    c = self.it.bdd.or(c, e);
                }
                (c, true)
            }
        };
        let mut good = F;
        let mut covered = F;
        let mut add = |me: &Self, kind: &str, cond: B, detail: String| {
            out.viols.push(Viol { kind: kind.into(), func: entry.into(), detail, witness: me.wit_len(cond), stack: vec![] })
        };
        for (s, _) in rs {
            let r = match &s.stack[1].d {
                Data::Ground(d) => d.clone(),
                _ => return unsup("result block"),
            };
            let tag = match byte_bits(&r[0]) {
                Some(b) => b[0],
                None => return unsup("result tag"),
            };
            covered = self.it.bdd.or(covered, s.pc);
            let ok = self.it.bdd.and(s.pc, tag);
            if ok == F {
                continue;
            }
            good = self.it.bdd.or(good, ok);
            let iv = self.it.to_iv(&s, &r[8 + ps..8 + 2 * ps])?;
            let got = match self.it.iv_bits(&s, &iv, w)? {
                Some(b) => b,
                None => return unsup("length result"),
            };
            let got = self.it.bdd.ext(&got, big, false);
            let wrong = if est {
                self.it.bdd.ult(&got, &q)
            } else {
                let e = self.it.bdd.eq(&got, &q);
                self.it.bdd.not(e)
            };
            let dom = if est { must } else { T };
            let c = self.it.bdd.and(ok, wrong);
            let c = self.it.bdd.and(c, dom);
            if c != F {
                add(self, "LEN", c, if est { "estimate below the decoded length".into() } else { "returns a wrong length".into() });
            }
        }
        self.it.obligations += 3;
        let ng = self.it.bdd.not(good);
        let bad = self.it.bdd.and(must, ng);
        let mut ev = F;
        for e in &self.it.events {
            ev = self.it.bdd.or(ev, e.pc);
        }
        // failures other than reported panics
        let nev = self.it.bdd.not(ev);
        let c = self.it.bdd.and(bad, nev);
        if c != F {
            add(self, "REJECT_GOOD", c, "no result for a length it must accept".into());
        }
        if name == "decoded_length" {
            let c = self.it.bdd.and(good, n[0]);
            if c != F {
                add(self, "ACCEPT_BAD", c, "accepts an odd length".into());
            }
        }
        // panics are documented above usize::MAX / 2 for encoded_length; such lengths are not slice lengths
        if name == "encoded_length" {
            for e in self.it.events.iter_mut() {
                e.pc = self.it.bdd.and(e.pc, in_range);
            }
        }
        out.outcomes = 1;
        out.sig = format!("{good:x}{covered:x}");
        Ok(())
    }

    /// The decoded length of a text of any length: the length is an affine symbol, split into residue classes
    /// and ranges where the code distinguishes them; the contents are unconstrained.
    fn symdec(&mut self, entry: &str, out: &mut Out) -> R<()> {
        let f = match self.entries.get(entry) {
            Some(&f) => f,
            None => return unsup(format!("no entry {entry}")),
        };
        let (m, _) = entry.split_once("::").unwrap();
        let c = codec(m).unwrap();
        let ps = self.it.p.ptr_size();
        let max = (1i128 << (8 * ps - 1)) - 1;
        let s0 = self.it.fresh_sym();
        let mut env = Env::default();
        env.push(s0, Aff::k(0), Some(Aff::k(max)));
        let mut work = vec![(Aff::sym(s0), env)];
        let (mut cells, mut rounds) = (vec![], 0);
        while let Some((n, env)) = work.pop() {
            rounds += 1;
            if rounds > 2000 {
                return unsup("too many length classes");
            }
            self.it.bdd = Bdd::new();
            self.it.vars.clear();
            self.it.varmap.clear();
            let ne = self.it.events.len();
            let nv = out.viols.len();
            let r = self.symdec1(f, entry, c, &n, env.clone(), out);
            let split = match r {
                Ok(()) => {
                    let e2: Vec<Event> = self.it.events.drain(ne..).collect();
                    for e in e2 {
                        out.viols.push(Viol {
                            kind: e.kind.into(),
                            func: e.func,
                            detail: e.detail,
                            witness: format!("length {n} with {}", bounds_text(&env)),
                            stack: e.stack.iter().rev().take(8).cloned().collect(),
                        });
                    }
                    cells.push(format!("{n}"));
                    continue;
                }
                Err(e) => e,
            };
            self.it.events.truncate(ne);
            out.viols.truncate(nv);
            match split {
                Intr::Cond(e) => {
                    let s = match env.v.iter().rev().find(|b| e.coef(b.s) != 0) {
                        Some(b) => b.s,
                        None => return unsup("unrelated condition"),
                    };
                    let (a, b) = match split_env(&env, s, &e) {
                        Some(x) => x,
                        None => return unsup("condition on a length"),
                    };
                    for mut x in [a, b] {
                        let b = x.v[0].clone();
                        match (b.lo.as_const(), b.hi.as_ref().and_then(|h| h.as_const())) {
                            (Some(l), Some(h)) if l > h => {}
                            (Some(l), Some(h)) if l == h => {
                                x.v.clear();
                                work.push((n.subst(b.s, &Aff::k(l)), x));
                            }
                            _ => work.push((n.clone(), x)),
                        }
                    }
                }
                Intr::Mod(s, m) => {
                    let b = env.get(s).unwrap().clone();
                    let (l, h) = (b.lo.as_const().unwrap(), b.hi.unwrap().as_const().unwrap());
                    for r in 0..m {
                        // s = m*t + r with l <= s <= h
                        let lo = (l - r).div_euclid(m) + ((l - r).rem_euclid(m) != 0) as i128;
                        let hi = (h - r).div_euclid(m);
                        if lo > hi {
                            continue;
                        }
                        if lo == hi {
                            work.push((n.subst(s, &Aff::k(m * lo + r)), Env::default()));
                            continue;
                        }
                        let t = self.it.fresh_sym();
                        let mut e = Env::default();
                        e.push(t, Aff::k(lo), Some(Aff::k(hi)));
                        work.push((n.subst(s, &Aff { c: r, t: vec![(t, m)] }), e));
                    }
                }
                e => return Err(e),
            }
        }
        cells.sort();
        out.sig = cells.join(" ");
        out.outcomes = cells.len();
        Ok(())
    }

    fn symdec1(&mut self, f: FnId, entry: &str, c: Codec, n: &Aff, env: Env, out: &mut Out) -> R<()> {
        let ps = self.it.p.ptr_size();
        let mut st = State::new(env);
        st.stack.push(Rc::new(Alloc::ground(AK::Local, 6 * ps, ps as u32)));
        st.stack.push(Rc::new(Alloc::ground(AK::Local, 8 + 3 * ps, 8)));
        let src = st.add_heap(Alloc { size: n.clone(), align: 1, k: AK::Src, ro: true, d: Data::Sym { input: Some(0), ws: vec![] } });
        let pp = |a: Aid| ptr_bytes(Rc::new(Ptr { a, off: Aff::k(0), bits: None }), ps);
        let mut a = pp(src);
        a.extend(aff_bytes(n, ps));
        for _ in 0..4 {
            a.extend(konst_bytes(1, ps));
        }
        Rc::make_mut(&mut st.stack[0]).d = Data::Ground(a);
        let rs = self.it.call(st.clone(), f, vec![pp(0), pp(1)], 0)?;
        // the specification: which trailing characters belong to a decodable text, and its decoded length
        let g: i128 = if c.bits == 6 { 4 } else { 8 };
        let (q, r) = match n.div_floor(g) {
            Some(q) => (q, n.c.rem_euclid(g)),
            None => {
                let (s, m) = n.split_for(g).unwrap();
                return Err(Intr::Mod(s, m));
            }
        };
        let bytes = g * c.bits as i128 / 8;
        let zero = self.it.is0(&st, n)?;
        let mut cases: Vec<(B, Aff)> = vec![];
        if zero {
            cases.push((T, Aff::k(0)));
        } else if c.pad {
            if r == 0 {
                let pads: &[i128] = if g == 4 { &[0, 1, 2] } else { &[0, 1, 3, 4, 6] };
                for &p in pads {
                    let mut cond = T;
                    for i in 1..=g {
                        if self.it.lt(&st, n, &Aff::k(i))? {
                            continue;
                        }
                        let b = self.it.input_byte(0, &n.addk(-i));
                        let b = byte_bits(&b).unwrap();
                        let is = Spec { b: &mut self.it.bdd }.is(&b, b'=');
                        let is = if i <= p { is } else { self.it.bdd.not(is) };
                        cond = self.it.bdd.and(cond, is);
                    }
                    cases.push((cond, q.scale(bytes).addk(-((p * c.bits as i128 + 7) / 8))));
                }
            }
        } else {
            let ok: &[i128] = if g == 4 { &[0, 2, 3] } else { &[0, 2, 4, 5, 7] };
            if ok.contains(&r) {
                cases.push((T, q.scale(bytes).addk(r * c.bits as i128 / 8)));
            }
        }
        let mut reached = F;
        for (s, _) in rs {
            let rb = match &s.stack[1].d {
                Data::Ground(d) => d.clone(),
                _ => return unsup("result block"),
            };
            let tag = match byte_bits(&rb[0]) {
                Some(b) => b[0],
                None => return unsup("result tag"),
            };
            reached = self.it.bdd.or(reached, s.pc);
            let iv = self.it.to_iv(&s, &rb[8 + ps..8 + 2 * ps])?;
            for (cond, exp) in &cases {
                self.it.obligations += 2;
                let pc = self.it.bdd.and(s.pc, *cond);
                let nt = self.it.bdd.not(tag);
                let rej = self.it.bdd.and(pc, nt);
                let mut say = |kind: &str, d: String| {
                    out.viols.push(Viol { kind: kind.into(), func: entry.into(), detail: d, witness: format!("length {n}"), stack: vec![] })
                };
                if rej != F {
                    say("REJECT_GOOD", format!("no decoded length for a decodable text of length {n} ({})", bounds_text(&s.env)));
                }
                let ok = self.it.bdd.and(pc, tag);
                if ok == F {
                    continue;
                }
                match &iv {
                    IV::K(a) => {
                        if !self.it.is0(&s, &a.sub(exp))? {
                            say("LEN", format!("returns {a} for a text of length {n}, must be {exp}"));
                        }
                    }
                    IV::Bits(b) => {
                        // ground length, data-dependent result
                        let e = match exp.as_const() {
                            Some(e) => e,
                            None => return unsup("length result"),
                        };
                        let k = self.it.bdd.konst(e as u128, b.len());
                        let eq = self.it.bdd.eq(b, &k);
                        let ne = self.it.bdd.not(eq);
                        if self.it.bdd.and(ok, ne) != F {
                            say("LEN", format!("returns a wrong length for a text of length {n}, must be {exp}"));
                        }
                    }
                    _ => return unsup("length result"),
                }
            }
        }
        let mut ev = reached;
        for e in &self.it.events {
            ev = self.it.bdd.or(ev, e.pc);
        }
        if ev != T {
            out.viols.push(Viol {
                kind: "LOST".into(),
                func: entry.into(),
                detail: format!("no path returns for some text of length {n}"),
                witness: String::new(),
                stack: vec![],
            });
        }
        Ok(())
    }

    /// Bytes of the result of an outcome.
    pub fn result(&mut self, o: &Outcome, elem: usize) -> R<(Option<Aid>, i128, Vec<BV>)> {
        let n = match o.len {
            Some(n) => n * elem,
            None => return unsup("result length"),
        };
        match &o.ptr {
            Some(IV::Ptr(p)) => {
                let off = match (p.off.as_const(), &p.bits) {
                    (Some(c), None) => c,
                    _ => return unsup("result pointer"),
                };
                if n == 0 {
                    return Ok((Some(p.a), off, vec![]));
                }
                let mut st = o.st.clone();
                let p = (**p).clone();
                let ne = self.it.events.len();
                let r = self.it.read(&mut st, &p, n);
                self.it.events.truncate(ne);
                match r {
                    Ok(v) => Ok((Some(p.a), off, v)),
                    Err(Intr::Dead) => Ok((Some(p.a), off, vec![])),
                    Err(e) => Err(e),
                }
            }
            _ if n == 0 => Ok((None, 0, vec![])),
            _ => unsup("result pointer"),
        }
    }

    pub fn job(&mut self, job: &Job) -> Out {
        self.it.reset();
        self.it.feats = job.s("feats").split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        self.it.deadline =
            Some(std::time::Instant::now() + std::time::Duration::from_secs(job.s("tl").parse().unwrap_or(120)));
        let entry = job.s("entry").to_string();
        let elem = elem_of(entry.rsplit("::").next().unwrap());
        let n = job.n("n");
        self.it.bound = 20_000.max(8 * n);
        self.it.sparse = (job.n("sparse") > 0).then(|| {
            let e = elem_of(entry.rsplit("::").next().unwrap());
            ((n * e) as i128, e as i128, (job.n("sparse") * e) as i128)
        });
        self.it.limits = (n <= 140 && job.s("mode").is_empty()).then(BTreeMap::new);
        self.it.residue = (!job.s("ra").is_empty()).then(|| (job.n("ra") as i128, job.n("rb") as i128));
        if job.s("mode") == "lane" {
            let name = entry.rsplit("::").next().unwrap();
            let sz = crate::lane::args(name).unwrap_or_default();
            let mut order: Vec<usize> = vec![];
            if sz.len() == 1 && sz[0] == 32 && ["reduce", "_zero", "mask", "highbit", "hex_check"].iter().any(|x| name.contains(x)) {
                // tests on both halves together
                order.extend((0..16).flat_map(|i| [i, i + 16]));
            } else if name.ends_with("_madd") {
                // adjacent lanes are added
                order.extend((0..sz[0] / 4).flat_map(|i| [4 * i, 4 * i + 2, 4 * i + 1, 4 * i + 3]));
                order.extend(sz[0]..2 * sz[0]);
            } else if crate::lane::selects(name) {
                order.extend((sz[0]..sz[0] + sz[1]).chain(0..sz[0]));
            } else {
                // operands interleaved by byte
                for i in 0..sz.iter().copied().max().unwrap_or(0) {
                    let mut o = 0;
                    for &z in &sz {
                        if i < z {
                            order.push(o + i);
                        }
                        o += z;
                    }
                }
            }
            for i in order {
                self.it.input_var(0, &Aff::k(i as i128));
            }
        }
        // later bytes nearer the root: conjunctions over a left-to-right scan stay linear
        for i in (0..n * elem).rev() {
            self.it.input_var(0, &Aff::k(i as i128));
        }
        for i in 0..job.n("d") {
            if entry.contains("append") {
                self.it.input_var(1, &Aff::k(i as i128));
            }
        }
        let mut out = Out::default();
        self.it.max_abs = true;
        let r = match job.s("mode") {
            "chain" => self.chain(job, &entry, &mut out),
            "symlen" => self.symlen(&entry, &mut out),
            "lane" => self.lane(job, &entry, &mut out),
            "symdec" => self.symdec(&entry, &mut out),
            _ => self.single(job, &entry, &mut out),
        };
        if let Err(e) = r {
            out.unres.push(match e {
                Intr::Unsup(s) => s,
                e => format!("{e:?}"),
            });
        }
        // events
        let ev = std::mem::take(&mut self.it.events);
        let sym = job.s("mode") == "symlen";
        for mut e in ev {
            match self.it.elim_max(e.pc) {
                Ok(F) => continue,
                Ok(p) => e.pc = p,
                Err(_) => {
                    out.unres.push(format!("{} on a path that depends on a maximum", e.kind));
                    continue;
                }
            }
            let w = if sym { self.wit_len(e.pc) } else { self.witness(e.pc, n, elem) };
            out.viols.push(Viol {
                kind: e.kind.into(),
                func: e.func,
                detail: e.detail,
                witness: w,
                stack: e.stack.iter().rev().take(8).cloned().collect(),
            });
        }
        if self.it.bdd.overflow {
            out.viols.clear();
            out.unres.push("budget".into());
            out.sig.clear();
        }
        // one report per kind and function
        let mut seen = std::collections::BTreeSet::new();
        out.viols.retain(|v| seen.insert((v.kind.clone(), v.func.clone())));
        out
    }

    fn add(&mut self, out: &mut Out, job: &Job, kind: &str, cond: B, detail: String) {
        let entry = job.s("entry").to_string();
        let w = self.witness(cond, job.n("n"), elem_of(&entry));
        out.viols.push(Viol { kind: kind.into(), func: entry, detail, witness: w, stack: vec![] });
    }

    fn bits_of(&mut self, b: &BV) -> Option<By> {
        byte_bits(b)
    }

    /// Differences between actual and expected bytes under a condition.
    fn cmp_bytes(&mut self, cond: B, act: &[BV], exp: &[By], out: &mut Out, job: &Job, kind: &str, what: &str) {
        // `weak`: the condition with every variable above the byte's own projected away
        let mut weak = cond;
        for (i, x) in act.iter().enumerate().rev() {
            match x {
                BV::U | BV::M => {
                    self.add(out, job, "UNINIT", cond, format!("byte {i} of the result was never written"));
                    return;
                }
                _ => {}
            }
            let b = match self.bits_of(x) {
                Some(mut b) => {
                    if !self.it.maxes.is_empty() {
                        for y in b.iter_mut() {
                            match self.it.elim_max(*y) {
                                Ok(z) => *y = z,
                                Err(_) => {
                                    out.unres.push("result depends on a maximum".into());
                                    return;
                                }
                            }
                        }
                    }
                    b
                }
                None => {
                    out.unres.push(format!("byte {i} of the result is unknown"));
                    return;
                }
            };
            for j in 0..8 {
                let d = self.it.bdd.xor(b[j], exp[i][j]);
                if d == F {
                    continue;
                }
                let mut bad = F;
                let lvl = self.it.bdd.top(d);
                weak = self.it.bdd.exists_above(weak, lvl);
                if self.it.bdd.and(d, weak) != F {
                    bad = self.it.bdd.and(d, cond);
                }
                if bad != F {
                    self.add(out, job, kind, bad, format!("{what}: byte {i} bit {j} differs from the specification"));
                    return;
                }
            }
        }
    }

    fn hash_bdd(&self, f: B, memo: &mut HashMap<B, u64>) -> u64 {
        if f <= 1 {
            return f as u64 + 11;
        }
        if let Some(&h) = memo.get(&f) {
            return h;
        }
        let (l, h) = self.it.bdd.kids(f);
        let v = self.it.bdd.top(f);
        let kv = match &self.it.vars[v as usize] {
            VarKey::Byte(b, o, i) => {
                (*b as u64 + 1) << 48 ^ (o.as_const().unwrap_or(-7) as u64) << 8 ^ *i as u64
            }
            VarKey::Red(x) => 0xabcd_0000 ^ *x as u64,
            VarKey::Free(x) => 0xdcba_0000 ^ *x as u64,
        };
        let a = self.hash_bdd(l, memo);
        let b = self.hash_bdd(h, memo);
        let mut x = kv.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ a.rotate_left(17).wrapping_mul(0xC2B2_AE3D_27D4_EB4F) ^ b;
        x ^= x >> 29;
        x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x ^= x >> 32;
        memo.insert(f, x);
        x
    }

    fn single(&mut self, job: &Job, entry: &str, out: &mut Out) -> R<()> {
        let (su, outs) = self.run(job, entry, None)?;
        out.outcomes = outs.len();
        let (module, name) = {
            let mut p = entry.rsplitn(2, "::");
            let n = p.next().unwrap().to_string();
            (p.next().unwrap_or("").to_string(), n)
        };
        let (m, nm) = (module.as_str(), name.as_str());
        let n = job.n("n");
        let d = job.n("d");
        let elem = su.elem;
        let pc0 = {
            // the assumption, if any
            let mut pc = T;
            if !job.s("ws").is_empty() {
                let pat: Vec<usize> = job.s("ws").split(',').filter_map(|x| x.parse().ok()).collect();
                for i in 0..n {
                    let x = byte_bits(&self.it.input_byte(0, &Aff::k(i as i128))).unwrap();
                    let w = Spec { b: &mut self.it.bdd }.is_ws(&x);
                    let c = if pat.contains(&i) { w } else { self.it.bdd.not(w) };
                    pc = self.it.bdd.and(pc, c);
                }
            }
            pc
        };
        let src: Vec<By> =
            (0..n * elem).map(|i| byte_bits(&self.it.input_byte(0, &Aff::k(i as i128))).unwrap()).collect();

        // ---- specification
        #[derive(PartialEq)]
        enum Kind {
            Out,
            Bool,
            Len,
            Sink,
        }
        let mut kind = Kind::Out;
        let mut text = false;
        let mut limit = usize::MAX; // destination length limit
        let mut total = true; // decode-like operations may reject
        let mut sp = Spec { b: &mut self.it.bdd };
        let mut est = false;
        let cases: Vec<Case> = if let Some(c) = codec(m) {
            match nm {
                x if (x.starts_with("encode") && x != "encoded_length") || x == "par_encode" => {
                    text = x != "encode_vec";
                    if matches!(nm, "encode" | "encode_as_str" | "par_encode") {
                        limit = d;
                        total = false;
                    }
                    vec![Case { cond: T, out: sp.encode(c, &src) }]
                }
                "charset" => {
                    text = true;
                    let o: Vec<By> = c.alpha.iter().map(|&x| std::array::from_fn(|i| if x >> i & 1 == 1 { T } else { F })).collect();
                    vec![Case { cond: T, out: o }]
                }
                "encoded_length" => {
                    kind = Kind::Len;
                    vec![Case { cond: T, out: vec![[F; 8]; enc_len(c, n as u128) as usize] }]
                }
                "estimated_decoded_length" => {
                    kind = Kind::Len;
                    est = true;
                    let mx = sp.decode(c, &src).iter().map(|c| c.out.len()).max().unwrap_or(0);
                    vec![Case { cond: T, out: vec![[F; 8]; mx] }]
                }
                _ => {
                    total = false;
                    if nm == "decode" {
                        limit = d;
                    }
                    if nm == "check" {
                        kind = Kind::Bool;
                    }
                    if nm == "decoded_length" {
                        kind = Kind::Len;
                    }
                    sp.decode(c, &src)
                }
            }
        } else {
            match (m, nm) {
                ("b64f", x) => {
                    total = false;
                    if x == "forgiving_decode" {
                        limit = d;
                    }
                    match sp.forgiving(&src, pc0) {
                        Some(c) => c,
                        None => return unsup("too many whitespace patterns"),
                    }
                }
                ("isa", x) if x.starts_with("detect_") => {
                    kind = Kind::Bool;
                    total = false;
                    let f = match &x[7..] {
                        "sse41" => "sse4.1",
                        f => f,
                    };
                    let has = self.it.feats.iter().any(|y| y == f);
                    vec![Case { cond: if has { T } else { F }, out: vec![] }]
                }
                ("isa", _) => vec![Case { cond: T, out: src.clone() }],
                ("hex", "check") | ("hex", "check_raw") => {
                    kind = Kind::Bool;
                    total = false;
                    let c = sp.hex_check(&src);
                    vec![Case { cond: c, out: vec![] }]
                }
                ("hex", "encoded_length") => {
                    kind = Kind::Len;
                    vec![Case { cond: T, out: vec![[F; 8]; 2 * n] }]
                }
                ("hex", "decoded_length") => {
                    kind = Kind::Len;
                    total = false;
                    if n % 2 == 0 {
                        vec![Case { cond: T, out: vec![[F; 8]; n / 2] }]
                    } else {
                        vec![]
                    }
                }
                ("hex", x) => {
                    total = false;
                    if x == "decode" {
                        limit = d;
                    }
                    sp.hex_decode(&src)
                }
                ("uuid_p", x) => {
                    total = false;
                    let (s, h, w) = match x.trim_start_matches("ext_") {
                        "parse" => (true, true, true),
                        "parse_simple" => (true, false, false),
                        _ => (false, true, false),
                    };
                    sp.uuid(&src, s, h, w)
                }
                ("uuid_lo", x) | ("uuid_up", x) => {
                    text = true;
                    vec![Case { cond: T, out: sp.uuid_fmt(&src, x.contains("hyph"), m == "uuid_up") }]
                }
                ("uuid_fmt", x) => {
                    text = true;
                    kind = Kind::Sink;
                    vec![Case { cond: T, out: sp.uuid_fmt(&src, x.contains("hyph"), x.contains("upper")) }]
                }
                ("uni", "is_ascii") => {
                    kind = Kind::Bool;
                    total = false;
                    vec![Case { cond: sp.ascii(&src), out: vec![] }]
                }
                ("uni", "from_ascii") => {
                    text = true;
                    total = false;
                    vec![Case { cond: sp.ascii(&src), out: src.clone() }]
                }
                ("uni", "is_utf32le") => {
                    kind = Kind::Bool;
                    total = false;
                    vec![Case { cond: sp.utf32(&src), out: vec![] }]
                }
                ("uni", _) => {
                    let o: Vec<By> = src.chunks(elem).flat_map(|c| c.iter().rev().cloned()).collect();
                    vec![Case { cond: T, out: o }]
                }
                _ => return unsup(format!("no specification for {entry}")),
            }
        };
        // merge cases of equal length for the accept set
        let mut accept = F;
        for c in &cases {
            if c.out.len() <= limit {
                let x = self.it.bdd.and(c.cond, pc0);
                accept = self.it.bdd.or(accept, x);
            }
        }
        // ---- actual
        let mut got = F;
        let mut covered = F;
        for o in &outs {
            got = self.it.bdd.or(got, o.ok);
            covered = self.it.bdd.or(covered, o.ok);
            covered = self.it.bdd.or(covered, o.err);
        }
        // paths that ended in a reported event do not count as rejections
        for e in self.it.events.clone() {
            let p = self.it.elim_max(e.pc)?;
            covered = self.it.bdd.or(covered, p);
        }
        let nc = self.it.bdd.not(covered);
        let lost = self.it.bdd.and(nc, pc0);
        if lost != F {
            self.add(out, job, "LOST", lost, "no path of the analysed code returns for this input".into());
        }
        let na = self.it.bdd.not(accept);
        let bad = self.it.bdd.and(got, na);
        if bad != F && !(kind == Kind::Len) {
            // too-short destinations first
            let mut short = F;
            for c in &cases {
                if c.out.len() > limit {
                    short = self.it.bdd.or(short, c.cond);
                }
            }
            let s = self.it.bdd.and(bad, short);
            if s != F {
                self.add(out, job, "SHORT_OK", s, format!("succeeds with a destination of {d} bytes, too short for the result"));
            }
            let ns = self.it.bdd.not(short);
            let b2 = self.it.bdd.and(bad, ns);
            if b2 != F {
                self.add(out, job, "ACCEPT_BAD", b2, "accepts input it must reject".into());
            }
        }
        let mut nrej = F;
        for o in &outs {
            nrej = self.it.bdd.or(nrej, o.err);
        }
        let bad = self.it.bdd.and(accept, nrej);
        if bad != F {
            let k = if total { "REJECT_TOTAL" } else { "REJECT_GOOD" };
            self.add(out, job, k, bad, "rejects input it must accept".into());
        }
        let mut sigs: Vec<(usize, B, Vec<By>)> = vec![];
        for o in &outs {
            // failure: nothing written when too short; appended vector unchanged
            if o.err != F {
                if su.append {
                    self.append_fail(job, &su, o, out)?;
                }
                if limit != usize::MAX && d < cases.iter().map(|c| c.out.len()).max().unwrap_or(0) {
                    let mut short = F;
                    for c in &cases {
                        if c.out.len() > limit {
                            short = self.it.bdd.or(short, c.cond);
                        }
                    }
                    let cond = self.it.bdd.and(o.err, short);
                    if cond != F {
                        if let Some(a) = o.st.get(su.dst) {
                            if let Data::Ground(v) = &a.d {
                                if let Some(i) = v.iter().position(|x| *x != BV::U) {
                                    self.add(
                                        out,
                                        job,
                                        "TOUCHED_SHORT",
                                        cond,
                                        format!("the destination of {d} bytes is too short, yet byte {i} of it is written"),
                                    );
                                }
                            }
                        }
                    }
                }
            }
            if o.ok == F {
                continue;
            }
            match kind {
                Kind::Bool => {
                    sigs.push((0, o.ok, vec![]));
                    continue;
                }
                Kind::Len => {
                    let l = match o.len {
                        Some(l) => l,
                        None => {
                            out.unres.push("length result".into());
                            continue;
                        }
                    };
                    sigs.push((l, o.ok, vec![]));
                    for c in &cases {
                        let x = self.it.bdd.and(c.cond, o.ok);
                        if x != F && (if est { l < c.out.len() } else { l != c.out.len() }) {
                            self.add(out, job, "LEN", x, format!("returns {l}, must be {}", c.out.len()));
                        }
                    }
                    continue;
                }
                Kind::Sink => {
                    let v = o.st.sink.clone();
                    let c = &cases[0];
                    if v.len() != c.out.len() {
                        self.add(out, job, "LEN", o.ok, format!("prints {} bytes, must be {}", v.len(), c.out.len()));
                    } else {
                        self.cmp_bytes(o.ok, &v, &c.out, out, job, "VALUE", "printed text");
                    }
                    self.ascii_check(o.ok, &v, out, job);
                    let mut bs = vec![];
                    for x in v.iter() {
                        if let Some(b) = byte_bits(x) {
                            bs.push(b);
                        }
                    }
                    sigs.push((v.len(), o.ok, bs));
                    continue;
                }
                Kind::Out => {}
            }
            let (a, off, mut bytes) = match self.result(o, elem) {
                Ok(x) => x,
                Err(Intr::Unsup(s)) => {
                    out.unres.push(s);
                    continue;
                }
                Err(e) => return Err(e),
            };
            let l = o.len.unwrap() * elem;
            // where the result lies
            let heap = matches!(a.and_then(|a| o.st.get(a)).map(|x| x.k), Some(AK::Heap));
            if (l > 0 || limit != usize::MAX || su.inplace) && nm != "charset" {
                let alloc_api = !su.inplace && limit == usize::MAX && !m.starts_with("uuid") && !matches!(m, "uni" | "isa" | "lane") && !nm.contains("raw");
                let want = if su.inplace || nm == "from_ascii" {
                    Some(su.src)
                } else if alloc_api {
                    None
                } else {
                    Some(su.dst)
                };
                match want {
                    Some(w) => {
                        if a != Some(w) || off != 0 {
                            self.add(out, job, "RESULT_PTR", o.ok, "the result does not start at the start of its buffer".into());
                        }
                    }
                    None => {
                        if l > 0 && (!heap || off != 0) {
                            self.add(out, job, "RESULT_PTR", o.ok, "the result is not a live heap block".into());
                        }
                    }
                }
                if alloc_api {
                    if let (Some(a), Some(c)) = (a, o.cap) {
                        if let Some(al) = o.st.get(a) {
                            if al.k == AK::Heap && al.size.as_const() != Some(c as i128) {
                                self.add(
                                    out,
                                    job,
                                    "DEALLOC",
                                    o.ok,
                                    format!("the returned owner frees {c} bytes of a block of {} bytes", al.size),
                                );
                            }
                        }
                    }
                }
            }
            if bytes.len() < l {
                let sz = a.and_then(|a| o.st.get(a)).map(|x| format!("{}", x.size)).unwrap_or_default();
                self.add(out, job, "OOB_READ", o.ok, format!("the result has {l} bytes, its buffer has {sz}"));
                continue;
            }
            // appended part
            if su.append {
                if l < d {
                    self.add(out, job, "APPEND_PREFIX", o.ok, format!("the vector shrank from {d} to {l} bytes"));
                    continue;
                }
                let pre: Vec<By> =
                    (0..d).map(|i| byte_bits(&self.it.input_byte(1, &Aff::k(i as i128))).unwrap()).collect();
                let head: Vec<BV> = bytes.drain(..d).collect();
                self.cmp_bytes(o.ok, &head, &pre, out, job, "APPEND_PREFIX", "existing contents");
            }
            let mut matched = F;
            for c in &cases {
                let x = self.it.bdd.and(c.cond, o.ok);
                if x == F {
                    continue;
                }
                matched = self.it.bdd.or(matched, x);
                if c.out.len() != bytes.len() {
                    self.add(
                        out,
                        job,
                        "LEN",
                        x,
                        format!("the result has {} bytes, must have {}", bytes.len(), c.out.len()),
                    );
                    continue;
                }
                self.cmp_bytes(x, &bytes, &c.out, out, job, "VALUE", "result");
            }
            let nm2 = self.it.bdd.not(matched);
            let rest = self.it.bdd.and(o.ok, nm2);
            if rest != F {
                for (i, x) in bytes.iter().enumerate() {
                    if matches!(x, BV::U | BV::M) {
                        self.add(out, job, "UNINIT", rest, format!("byte {i} of the result was never written"));
                        break;
                    }
                }
            }
            if text {
                self.ascii_check(o.ok, &bytes, out, job);
            }
            // the rest of the destination is untouched
            if a == Some(su.dst) && limit != usize::MAX || (m == "uni" && !su.inplace && a == Some(su.dst)) {
                if let Some(al) = o.st.get(su.dst) {
                    if let Data::Ground(v) = &al.d {
                        let skip = m == "b64f";
                        if !skip {
                            if let Some(i) = (l..v.len()).find(|&i| v[i] != BV::U) {
                                self.add(
                                    out,
                                    job,
                                    "TOUCHED",
                                    o.ok,
                                    format!("byte {i} of the destination, beyond the {l}-byte result, is written"),
                                );
                            }
                        }
                    }
                }
            }
            let mut bs = vec![];
            for x in &bytes {
                match byte_bits(x) {
                    Some(b) => bs.push(b),
                    None => bs.push([F; 8]),
                }
            }
            sigs.push((bytes.len(), o.ok, bs));
        }
        // ---- signature: the function computed, canonically
        let mut by: BTreeMap<usize, (B, Vec<By>)> = BTreeMap::new();
        if job.s("nosig") == "1" {
            sigs.clear();
        }
        for (l, c, b) in sigs {
            let mut gated = vec![];
            for x in &b {
                let mut y = [F; 8];
                for j in 0..8 {
                    y[j] = self.it.bdd.and(x[j], c);
                }
                gated.push(y);
            }
            match by.get_mut(&l) {
                None => {
                    by.insert(l, (c, gated));
                }
                Some(e) => {
                    e.0 = self.it.bdd.or(e.0, c);
                    for (i, y) in gated.iter().enumerate() {
                        for j in 0..8 {
                            e.1[i][j] = self.it.bdd.or(e.1[i][j], y[j]);
                        }
                    }
                }
            }
        }
        if job.s("nosig") == "1" {
            return Ok(());
        }
        let mut memo = HashMap::new();
        let mut h: u64 = 1469598103934665603;
        let mut mix = |x: u64| {
            h ^= x;
            h = h.wrapping_mul(0x100000001b3).rotate_left(23);
        };
        for (l, (c, b)) in &by {
            mix(*l as u64 + 1);
            mix(self.hash_bdd(*c, &mut memo));
            for x in b {
                for y in x {
                    mix(self.hash_bdd(*y, &mut memo));
                }
            }
        }
        out.sig = format!("{h:016x}");
        Ok(())
    }

    /// A primitive of the SIMD layer against its lane-wise meaning.
    fn lane(&mut self, job: &Job, entry: &str, out: &mut Out) -> R<()> {
        let name = entry.rsplit("::").next().unwrap();
        let sz = match crate::lane::args(name) {
            Some(s) => s,
            None => return unsup(format!("no specification for {entry}")),
        };
        let n: usize = sz.iter().sum();
        if n != job.n("n") {
            return unsup(format!("operand size of {entry}"));
        }
        if job.s("uf") == "1" {
            self.it.bdd.uf = Some(HashMap::new());
        }
        let mut src: Vec<BV> = (0..n).map(|i| self.it.input_byte(0, &Aff::k(i as i128))).collect();
        if !job.s("fix").is_empty() {
            // the last operand is a constant, given in hexadecimal and repeated
            let f: Vec<u8> = (0..job.s("fix").len() / 2).map(|i| u8::from_str_radix(&job.s("fix")[2 * i..2 * i + 2], 16).unwrap()).collect();
            let o = n - sz[sz.len() - 1];
            for i in o..n {
                src[i] = BV::S(Rc::new(crate::spec::kbyte(f[(i - o) % f.len()])));
            }
        }
        let by: Vec<By> = src.iter().map(|b| byte_bits(b).unwrap()).collect();
        let mut ops = vec![];
        let mut o = 0;
        for &z in &sz {
            ops.push(by[o..o + z].to_vec());
            o += z;
        }
        // the largest or smallest of many lanes stays symbolic, as a set of candidates
        let reduce = name.contains("_reduce_");
        self.it.max_abs = reduce || ["_zero", "mask", "highbit", "hex_"].iter().any(|x| name.contains(x));
        let l = if reduce {
            let sz1 = crate::lane::args(name).unwrap()[0];
            Some(crate::lane::Lane { args: vec![sz1], pre: T, ok: T, out: vec![[F; 8]] })
        } else {
            None
        };
        let l = match l {
            Some(l) => Some(l),
            None => (Spec { b: &mut self.it.bdd }).lane(name, &ops),
        };
        let l = match l {
            Some(l) => l,
            None => return unsup(format!("no specification for {entry}")),
        };
        let src: Vec<BV> = by.iter().map(|x| BV::S(Rc::new(*x))).collect();
        let (su, outs) = self.run(job, entry, Some((src, l.pre)))?;
        out.outcomes = outs.len();
        let mut covered = F;
        for o in &outs {
            covered = self.it.bdd.or(covered, o.ok);
            covered = self.it.bdd.or(covered, o.err);
            let no = self.it.bdd.not(l.ok);
            let bad = self.it.bdd.and(o.ok, no);
            if bad != F {
                self.add(out, job, "ACCEPT_BAD", bad, "accepts operands it must reject".into());
            }
            let bad = self.it.bdd.and(o.err, l.ok);
            if bad != F {
                self.add(out, job, "REJECT_GOOD", bad, "rejects operands it must accept".into());
            }
            let good = self.it.bdd.and(o.ok, l.ok);
            if good == F {
                continue;
            }
            let (a, off, bytes) = self.result(o, 1)?;
            if a != Some(su.dst) || off != 0 {
                return unsup("result place");
            }
            if bytes.len() != l.out.len() {
                self.add(out, job, "LEN", good, format!("the result has {} bytes, must have {}", bytes.len(), l.out.len()));
                continue;
            }
            if reduce {
                let min = name.ends_with("min");
                let b = match byte_bits(&bytes[0]) {
                    Some(b) => b,
                    None => return unsup("result"),
                };
                let r: Bits = (0..8).map(|i| if min { self.it.bdd.not(b[i]) } else { b[i] }).collect();
                let known = (0..self.it.maxes.len())
                    .find(|&k| self.it.maxes[k].1 == 8 && (0..8).all(|i| r[i] == self.it.bdd.var(self.it.maxes[k].0 + i as u32)));
                match known {
                    None => out.unres.push("the result is not a maximum of known candidates".into()),
                    Some(k) => {
                        // two maxima are equal when they pass every threshold together
                        let set: Vec<Bits> = self.it.maxes[k].2.clone();
                        let want: Vec<Bits> =
                            by.iter().map(|x| (0..8).map(|i| if min { self.it.bdd.not(x[i]) } else { x[i] }).collect()).collect();
                        for c in 1..256u128 {
                            let kc = self.it.bdd.konst(c, 8);
                            let mut r = [F, F];
                            for (j, s) in [&set, &want].into_iter().enumerate() {
                                for x in s {
                                    let lt = self.it.bdd.ult(x, &kc);
                                    let ge = self.it.bdd.not(lt);
                                    r[j] = self.it.bdd.or(r[j], ge);
                                }
                            }
                            let bad = self.it.bdd.xor(r[0], r[1]);
                            if bad != F {
                                self.add(out, job, "VALUE", bad, format!("the result is not the {} of the lanes", if min { "least" } else { "greatest" }));
                                break;
                            }
                        }
                    }
                }
                continue;
            }
            self.cmp_bytes(good, &bytes, &l.out, out, job, "VALUE", "result");
        }
        for e in self.it.events.clone() {
            let p = self.it.elim_max(e.pc)?;
            covered = self.it.bdd.or(covered, p);
        }
        let nc = self.it.bdd.not(covered);
        let lost = self.it.bdd.and(nc, l.pre);
        if lost != F {
            self.add(out, job, "LOST", lost, "no path of the analysed code returns for these operands".into());
        }
        Ok(())
    }

    fn ascii_check(&mut self, cond: B, v: &[BV], out: &mut Out, job: &Job) {
        for (i, x) in v.iter().enumerate() {
            if let Some(b) = byte_bits(x) {
                let bad = self.it.bdd.and(cond, b[7]);
                if bad != F {
                    self.add(out, job, "NONASCII", bad, format!("byte {i} of the returned text is not ASCII"));
                    return;
                }
            }
        }
    }

    fn append_fail(&mut self, job: &Job, su: &Setup, o: &Outcome, out: &mut Out) -> R<()> {
        let d = su.d;
        match o.len {
            Some(l) if l == d => {}
            Some(l) => {
                self.add(out, job, "APPEND_FAIL", o.err, format!("the failed append changed the length from {d} to {l}"));
                return Ok(());
            }
            None => return unsup("length after a failed append"),
        }
        let (_, _, bytes) = self.result(o, 1)?;
        let pre: Vec<By> = (0..d).map(|i| byte_bits(&self.it.input_byte(1, &Aff::k(i as i128))).unwrap()).collect();
        if bytes.len() < d {
            self.add(out, job, "OOB_READ", o.err, "the vector's buffer is smaller than its length".into());
            return Ok(());
        }
        self.cmp_bytes(o.err, &bytes, &pre, out, job, "APPEND_FAIL", "contents after a failed append");
        Ok(())
    }

    /// Applies a second operation to the result of the first and compares with the original source.
    fn chain(&mut self, job: &Job, entry: &str, out: &mut Out) -> R<()> {
        let (su, outs) = self.run(job, entry, None)?;
        out.outcomes = outs.len();
        let n = job.n("n");
        let orig: Vec<By> =
            (0..n * su.elem).map(|i| byte_bits(&self.it.input_byte(0, &Aff::k(i as i128))).unwrap()).collect();
        let e2 = job.s("e2").to_string();
        for o in &outs {
            if job.s("total") == "1" && o.err != F {
                self.add(out, job, "ROUNDTRIP", o.err, "the first operation fails".into());
            }
            if o.ok == F {
                continue;
            }
            let (_, _, bytes) = self.result(o, 1)?;
            if bytes.len() != o.len.unwrap() {
                continue;
            }
            if let Some(i) = bytes.iter().position(|b| byte_bits(b).is_none()) {
                if matches!(bytes[i], BV::U | BV::M) {
                    continue;
                }
                return unsup("intermediate result");
            }
            let mut j2 = job.clone();
            j2.kv.insert("d".into(), job.s("d2").into());
            let (_, outs2) = self.run(&j2, &e2, Some((bytes, o.ok)))?;
            for p in &outs2 {
                if p.err != F {
                    self.add(out, job, "ROUNDTRIP", p.err, format!("{e2} rejects the result of {entry}"));
                }
                if p.ok == F {
                    continue;
                }
                let (_, _, b2) = self.result(p, 1)?;
                if b2.len() != orig.len() {
                    self.add(out, job, "ROUNDTRIP", p.ok, format!("{} bytes come back, {} went in", b2.len(), orig.len()));
                    continue;
                }
                self.cmp_bytes(p.ok, &b2, &orig, out, job, "ROUNDTRIP", "round trip");
            }
        }
        out.viols.retain(|v| v.kind != "UNINIT");
        self.it.events.clear();
        Ok(())
    }
}
