//! simdlint: abstract interpretation of the compiled MIR of the simd crates.
//! Runs as RUSTC_WORKSPACE_WRAPPER; analyses the crate named by SL_CRATE, passes everything else through.
#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
mod api;
mod bdd;
mod interp;
mod intrin;
mod ir;
mod job;
mod lane;
mod loops;
mod spec;
mod sym;
mod val;

use job::*;
use rustc_public::mir::mono::Instance;
use rustc_public::CrateDef;
use std::collections::{BTreeSet, HashMap};
use std::io::Write;
use std::ops::ControlFlow;
use std::sync::atomic::{AtomicUsize, Ordering};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","))
}

fn analyse(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    if std::env::var("SL_MODE").as_deref() == Ok("api") {
        api::run(tcx, &std::env::var("SL_OUT").unwrap());
        return ControlFlow::Continue(());
    }
    let jobs: Vec<Job> = std::fs::read_to_string(std::env::var("SL_JOBS").unwrap())
        .unwrap()
        .lines()
        .filter_map(Job::parse)
        .collect();
    let outp = std::env::var("SL_OUT").unwrap();
    let nw: usize = std::env::var("SL_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut it = interp::Interp::new(ir::Prog::new(tcx));
    let mut entries = HashMap::new();
    for d in rustc_public::local_crate().fn_defs() {
        let name = d.name();
        let did = rustc_public::rustc_internal::internal(tcx, d.def_id());
        if tcx.generics_of(did).count() != 0 || !tcx.visibility(did).is_public() {
            continue;
        }
        if let Ok(i) = Instance::resolve(d, &rustc_public::ty::GenericArgs(vec![])) {
            let short = name.trim_start_matches("simd_entries::").trim_start_matches("simd_par::").trim_start_matches("simd_lane::").to_string();
            let f = it.p.func(i);
            entries.insert(short, f);
        }
    }
    for (from, to) in [(
        "<std::string::String as std::convert::From<std::boxed::Box<str>>>::from",
        "model::string_from_box_str",
    )] {
        if let Some(&f) = entries.get(to) {
            it.subst.insert(from.into(), f);
            it.subst.insert(
                from.replace("std::", "simd_entries::alloc::").replace("simd_entries::alloc::convert", "core::convert"),
                f,
            );
            it.subst.insert(from.replace("std::", "alloc::").replace("alloc::convert", "core::convert"), f);
        }
    }
    if let Some(&f) = entries.get("model_std::once_call") {
        it.subst.insert("std::sys::sync::once::futex::Once::call".into(), f);
    }
    let mut r = Runner { it, entries };
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    let ctr = unsafe { &*(shared as *const AtomicUsize) };
    let mut pids = vec![];
    let mut me = None;
    if nw > 1 {
        for w in 0..nw {
            let p = unsafe { fork() };
            if p == 0 {
                me = Some(w);
                break;
            }
            pids.push(p);
        }
        if me.is_none() {
            for p in pids {
                let mut st = 0;
                unsafe { waitpid(p, &mut st, 0) };
            }
            return ControlFlow::Continue(());
        }
    }
    let w = me.unwrap_or(0);
    let mut f = std::fs::File::create(format!("{outp}.{w}")).unwrap();
    let mut last_fns: BTreeSet<String> = BTreeSet::new();
    loop {
        let i = ctr.fetch_add(1, Ordering::SeqCst);
        if i >= jobs.len() {
            break;
        }
        let j = &jobs[i];
        let t0 = std::time::Instant::now();
        let ob = r.it.obligations;
        r.it.fns_seen.clear();
        let o = r.job(j);
        let mut s = format!(
            "{{\"id\":{},\"ms\":{},\"steps\":{},\"bdd\":{},\"outcomes\":{},\"obligations\":{},\"sig\":{},\"unres\":{},\"viols\":[",
            jstr(&j.id),
            t0.elapsed().as_millis(),
            r.it.steps,
            r.it.bdd.len(),
            o.outcomes,
            r.it.obligations - ob,
            jstr(&o.sig),
            list(&o.unres)
        );
        for (k, v) in o.viols.iter().enumerate() {
            if k > 0 {
                s.push(',');
            }
            s.push_str(&format!(
                "{{\"kind\":{},\"func\":{},\"detail\":{},\"witness\":{},\"stack\":{}}}",
                jstr(&v.kind),
                jstr(&v.func),
                jstr(&v.detail),
                jstr(&v.witness),
                list(&v.stack)
            ));
        }
        let lim: Vec<String> = r
            .it
            .limits
            .iter()
            .flatten()
            .map(|(&(f, k, c), v)| format!("[{},{c},{v}]", jstr(&format!("{k} {}", r.it.p.fns[f as usize].name))))
            .collect();
        let new: Vec<String> = r.it.fns_seen.difference(&last_fns).cloned().collect();
        last_fns.extend(new.iter().cloned());
        s.push_str(&format!("],\"limits\":[{}],\"statics\":{},\"fns\":{}}}\n", lim.join(","), list(&r.it.loads.iter().cloned().collect::<Vec<_>>()), list(&new)));
        f.write_all(s.as_bytes()).unwrap();
    }
    drop(f);
    if me.is_some() {
        unsafe { _exit(0) }
    }
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // features that do not change the analysed code but need another compiler
    if let Ok(f) = std::env::var("SL_STRIP") {
        let f = format!("feature=\"{f}\"");
        while let Some(i) = args.windows(2).position(|w| w[0] == "--cfg" && w[1] == f) {
            args.drain(i..i + 2);
        }
    }
    let target = std::env::var("SL_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target);
    if !is || target.is_empty() {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    args[0] = "rustc".into();
    let r = run_with_tcx!(&args, analyse);
    if r.is_err() {
        std::process::exit(1);
    }
}
