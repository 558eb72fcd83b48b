#![feature(
    allocator_api,
    ptr_metadata,
    unsized_fn_params,
    unsize,
    alloc_error_hook,
    macro_metavar_expr,
    coerce_unsized
)]
#![allow(internal_features)]

//! Property-based testing of unsized-vec and emplacable. See ../DESIGN.md.

mod checks;

use vhcore::{alloc, elems, machine};

#[global_allocator]
static GLOBAL: alloc::Guard = alloc::Guard;

use machine::{EXPECT, LAST_PANIC, OP_NAMES, R, Stats, TRACE};
use vhcore::src::{Src, mix};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::fd::AsRawFd;

unsafe extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

/// Runs one case under the allocator's eyes.
fn one(id: &str, src: &mut Src, st: &mut Stats) -> R {
    elems::reset();
    EXPECT.with(|e| e.set((false, 0)));
    alloc::begin_case();
    let r = machine::guarded(|| checks::case(id, src, st));
    let (blocks, bytes) = alloc::end_case();
    elems::disarm_panics();
    let err = alloc::take_error().or_else(elems::take_error);
    match r {
        Err(p) => Err(format!("unexpected panic: {p}")),
        Ok(Err(e)) => Err(e),
        Ok(Ok(())) => {
            if let Some(e) = err {
                return Err(e);
            }
            let (slack, expected) = EXPECT.with(|e| e.get());
            if !slack && blocks != expected {
                return Err(format!(
                    "{blocks} blocks ({bytes} bytes) are still allocated at the end, {expected} belong to forgotten values"
                ));
            }
            if !slack && (elems::live() != 0 || elems::zlive() != 0) {
                return Err(format!("{} + {} values never dropped", elems::live(), elems::zlive()));
            }
            Ok(())
        }
    }
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        alloc::leave_scope();
        let m = i.payload().downcast_ref::<&str>().copied().or(i.payload().downcast_ref::<String>().map(|s| s.as_str())).unwrap_or("?");
        alloc::untracked(|| {
            LAST_PANIC.with(|l| {
                let mut l = l.borrow_mut();
                l.clear();
                let _ = write!(l, "{m} at {}", i.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line())));
            });
            if std::env::var_os("VH_PANICS").is_some() {
                eprintln!("panic: {m} at {:?}", i.location());
            }
        });
    }));
    std::alloc::set_alloc_error_hook(|l| {
        // before the message: formatting it allocates
        alloc::leave_scope();
        machine::ALLOC_ERROR.set(true);
        let r = alloc::refused();
        if !r.contains(&(l.size(), l.align())) {
            elems::note_error(format!("the allocator refused {} bytes aligned to {}, the allocation-error handler is told {} aligned to {}", r[0].0, r[0].1, l.size(), l.align()));
        }
        panic!("allocation of {} bytes failed", l.size())
    });
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn case_seed(seed: u64, id: &str, salt: u64, i: u64) -> u64 {
    let mut h = mix(seed ^ 0xC0FFEE) ^ mix(salt.wrapping_mul(77));
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(i))
}

fn trace_of(id: &str, choices: Vec<u32>) -> (R, Vec<String>) {
    TRACE.with(|t| *t.borrow_mut() = Some(Vec::new()));
    let mut src = Src::replay(choices);
    let mut st = Stats::default();
    let r = one(id, &mut src, &mut st);
    let t = TRACE.with(|t| t.borrow_mut().take()).unwrap_or_default();
    (r, t)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    hook();
    match cmd {
        // vh run ID SEED SALT CASES WORKER WORKERS OUT MIRROR SECONDS
        "run" => {
            let id = &a[2];
            let p = |i: usize| a[i].parse::<u64>().unwrap();
            let (seed, salt, cases, worker, workers, secs) = (p(3), p(4), p(5), p(6), p(7), p(10));
            let out = &a[8];
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&a[9]).unwrap();
            const CAP: usize = 1 << 18;
            f.set_len((CAP * 4) as u64).unwrap();
            let m = unsafe { mmap(std::ptr::null_mut(), CAP * 4, 3, 1, f.as_raw_fd(), 0) }.cast::<u32>();
            assert!(m as isize != -1);
            // word 0: cases finished; words 1..: choices of the running case
            let t0 = std::time::Instant::now();
            let mut distinct: HashSet<u64> = HashSet::new();
            let mut hist: BTreeMap<String, u64> = BTreeMap::new();
            let (mut done, mut nontrivial, mut steps) = (0u64, 0u64, 0u64);
            let mut samples: Vec<Vec<u32>> = Vec::new();
            let mut failure: Option<(Vec<u32>, Vec<u32>, String)> = None;
            let mut i = worker;
            while i < cases {
                if done % 64 == 0 && t0.elapsed().as_secs() >= secs {
                    break;
                }
                let mut src = Src::random(case_seed(seed, id, salt, i));
                src.mirror_to(unsafe { m.add(1) }, CAP - 2);
                let mut st = Stats::default();
                let r = one(id, &mut src, &mut st);
                done += 1;
                unsafe { m.write_volatile(done as u32) };
                if let Err(e) = r {
                    failure = Some((std::mem::take(&mut src.out), std::mem::take(&mut src.spans), e));
                    break;
                }
                steps += st.op_count.iter().map(|&c| c as u64).sum::<u64>() + st.extra_steps as u64;
                let nt = checks::nontrivial(id, &st);
                if nt {
                    nontrivial += 1;
                    let mut h = 0u64;
                    for &c in &src.out {
                        h = mix(h ^ c as u64);
                    }
                    distinct.insert(h);
                    if samples.len() < 2 && src.out.len() < 400 {
                        samples.push(src.out.clone());
                    }
                }
                checks::classify(id, &st, &mut |k| *hist.entry(k).or_insert(0) += 1);
                i += workers;
            }
            let mut o = String::new();
            let _ = write!(o, "{{\"rule\":{},\"done\":{done},\"nontrivial\":{nontrivial},\"steps\":{steps},\"hist\":{{", esc(checks::rule(id)));
            for (n, (k, v)) in hist.iter().enumerate() {
                let _ = write!(o, "{}{}:{v}", if n > 0 { "," } else { "" }, esc(k));
            }
            o.push_str("},\"samples\":[");
            for (n, s) in samples.into_iter().enumerate() {
                if failure.is_some() {
                    break;
                }
                let (_, t) = trace_of(id, s);
                let _ = write!(o, "{}[{}]", if n > 0 { "," } else { "" }, t.iter().map(|l| esc(l)).collect::<Vec<_>>().join(","));
            }
            o.push(']');
            if let Some((c, s, e)) = &failure {
                let j = |v: &[u32]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                let _ = write!(o, ",\"failure\":{{\"choices\":[{}],\"spans\":[{}],\"message\":{}}}", j(c), j(s), esc(e));
            }
            o.push('}');
            std::fs::write(format!("{out}.h"), distinct.iter().flat_map(|h| h.to_le_bytes()).collect::<Vec<u8>>()).unwrap();
            std::fs::write(out, o).unwrap();
            let _ = std::io::stdout().flush();
            // no destructors of anything a failed case left behind
            std::process::exit(if failure.is_some() { 10 } else { 0 });
        }
        // vh replay ID FILE (comma separated choices): exit 0 passed, 10 failed, else crashed
        "replay" => {
            let id = &a[2];
            let c: Vec<u32> = std::fs::read_to_string(&a[3])
                .unwrap()
                .split(|c: char| !c.is_ascii_digit())
                .filter(|s| !s.is_empty())
                .map(|s| s.parse::<u32>().unwrap())
                .collect();
            if a.get(4).is_some_and(|s| s == "-v") {
                machine::STREAM.set(true);
            }
            let (r, t) = trace_of(id, c);
            match r {
                Ok(()) => {
                    println!("PASS");
                    for l in t {
                        println!("  {l}");
                    }
                }
                Err(e) => {
                    println!("FAIL {e}");
                    for l in t {
                        println!("  {l}");
                    }
                    let _ = std::io::stdout().flush();
                    std::process::exit(10);
                }
            }
        }
        // vh batch ID: many candidate choice sequences on stdin, one per line; prints the first failing
        // line's number, or nothing. (A crash is seen by the caller as the death of the process after "@n".)
        "batch" => {
            let id = &a[2];
            let mut line = String::new();
            let mut n = 0;
            while std::io::stdin().read_line(&mut line).unwrap() > 0 {
                let c: Vec<u32> = line.split(',').filter_map(|s| s.trim().parse::<u32>().ok()).collect();
                line.clear();
                println!("@{n}");
                let _ = std::io::stdout().flush();
                let mut src = Src::replay(c);
                let mut st = Stats::default();
                if let Err(e) = one(id, &mut src, &mut st) {
                    println!("FAIL {n} {e}");
                    let _ = std::io::stdout().flush();
                    std::process::exit(10);
                }
                n += 1;
            }
        }
        "ids" => {
            for i in checks::IDS {
                println!("{i}");
            }
            let _ = OP_NAMES;
        }
        _ => {
            eprintln!("usage: vh run|replay|batch ...");
            std::process::exit(2);
        }
    }
}

