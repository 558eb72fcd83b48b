#![feature(allocator_api, ptr_metadata, unsized_fn_params)]
#![allow(internal_features)]
//! What operations cost on long vectors (C18).
//!
//! The clock is the CPU time of this thread, every figure is the least of several measurements, and only
//! costs which are far above those of any constant-time operation *and* grow with the vector count.

use emplacable::{Emplacable, box_new_with};
use unsized_vec::UnsizedVec;
use vhcore::alloc;
use vhcore::elems::{self, A32, A64, Spec};
use vhcore::ensure;
use vhcore::fam::{CStrF, DynF, Family, OsStrF, PathF, SizedF, SliceF, StrF, TailDynF, TailSliceF};
use vhcore::machine::{EXPECT, R, Stats, trace};
use vhcore::src::{Src, mix};

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
unsafe extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// CPU time of this thread in nanoseconds.
fn now() -> u64 {
    let mut t = Timespec { s: 0, ns: 0 };
    let r = unsafe { clock_gettime(3, &mut t) };
    assert!(r == 0, "harness: no thread clock");
    t.s as u64 * 1_000_000_000 + t.ns as u64
}

/// An operation that does not depend on the length costs well below 1 µs here; one that visits every element of a
/// vector of 2^16 costs 30 µs and more.
const FLOOR: u64 = 10_000;
const GROWTH: u64 = 8;
/// Calls per measurement.
const K: usize = 16;

const OPS: [&str; 18] = [
    "get", "index", "get_mut", "index_mut", "len and capacities", "push", "push_with", "push_unsize", "pop_into a box", "pop_into and drop",
    "remove_into near the end", "insert near the end", "insert_with near the end", "first and last of iter()", "first and last of iter_mut()",
    "push and pop in turn", "insert_unsize near the end", "forget a popped value",
];

fn value<F: Family>(specs: &[Spec], i: usize) -> Box<F::T> {
    let mut s = specs[i % specs.len()].clone();
    s.seed = (s.seed + i as u32) & 0xffff;
    F::make(&s)
}

fn addr<F: Family>(x: &F::T) -> usize {
    (x as *const F::T).cast::<u8>() as usize
}

/// Nanoseconds for one call of the operation, at best.
fn cost<F: Family>(v: &mut UnsizedVec<F::T>, op: usize, specs: &[Spec], salt: u64, tries: usize) -> u64 {
    let n = v.len();
    let mut best = u64::MAX;
    for t in 0..tries {
        let at: Vec<usize> = (0..K).map(|k| mix(salt ^ (t * K + k) as u64) as usize % n).collect();
        let near = |len: usize, k: usize| len - (at[k] % 6).min(len - 1);
        let mut fresh: Vec<Box<F::T>> = Vec::new();
        if matches!(op, 5 | 6 | 11 | 12 | 15) {
            fresh = (0..K).map(|k| value::<F>(specs, k)).collect();
            fresh.reverse();
        }
        if matches!(op, 5..=7 | 11 | 12 | 15 | 16) {
            // no growth while the clock runs
            let room: usize = specs.iter().map(|s| std::mem::size_of_val(&*F::make(s))).max().unwrap() + 512;
            v.reserve_capacity_bytes(K, K * room);
        }
        let e = |b: Box<F::T>| <Emplacable<F::T, _> as From<Box<F::T>>>::from(b);
        let mut kept: Vec<Box<F::T>> = Vec::with_capacity(K);
        let mut sink = 0usize;
        let c0 = now();
        match op {
            0 => at.iter().for_each(|&i| sink ^= addr::<F>(v.get(i).unwrap())),
            1 => at.iter().for_each(|&i| sink ^= addr::<F>(&v[i])),
            2 => at.iter().for_each(|&i| sink ^= addr::<F>(v.get_mut(i).unwrap())),
            3 => at.iter().for_each(|&i| sink ^= addr::<F>(&mut v[i])),
            4 => {
                for _ in 0..K {
                    sink ^= v.len() ^ v.byte_len() ^ v.capacity() ^ v.byte_capacity() ^ v.align() ^ v.is_empty() as usize;
                }
            }
            5 => {
                for _ in 0..K {
                    v.push(*fresh.pop().unwrap());
                }
            }
            6 => {
                for _ in 0..K {
                    v.push_with(e(fresh.pop().unwrap()));
                }
            }
            7 => {
                for k in 0..K {
                    let mut s = specs[k % specs.len()].clone();
                    s.seed += k as u32;
                    if !F::push_unsize(v, &s, &mut None) {
                        break;
                    }
                }
            }
            8 => {
                for _ in 0..K {
                    kept.push(box_new_with(v.pop_into().unwrap()));
                }
            }
            9 => {
                for _ in 0..K {
                    drop(v.pop_into());
                }
            }
            10 => {
                for k in 0..K {
                    let i = near(v.len(), k) - 1;
                    kept.push(box_new_with(v.remove_into(i)));
                }
            }
            11 => {
                for k in 0..K {
                    let i = near(v.len(), k);
                    v.insert(i, *fresh.pop().unwrap());
                }
            }
            12 => {
                for k in 0..K {
                    let i = near(v.len(), k);
                    v.insert_with(i, e(fresh.pop().unwrap()));
                }
            }
            13 => {
                for _ in 0..K {
                    let mut it = v.iter();
                    sink ^= addr::<F>(it.next().unwrap());
                    sink ^= addr::<F>(it.next_back().unwrap());
                    sink ^= it.len();
                }
            }
            14 => {
                for _ in 0..K {
                    let mut it = v.iter_mut();
                    sink ^= addr::<F>(it.next().unwrap());
                    sink ^= addr::<F>(it.next_back().unwrap());
                }
            }
            15 => {
                for _ in 0..K {
                    v.push(*fresh.pop().unwrap());
                    kept.push(box_new_with(v.pop_into().unwrap()));
                }
            }
            16 => {
                for k in 0..K {
                    let i = near(v.len(), k);
                    let mut s = specs[k % specs.len()].clone();
                    s.seed += k as u32;
                    if !F::insert_unsize(v, i, &s, &mut None) {
                        break;
                    }
                }
            }
            _ => {
                for _ in 0..K {
                    if let Some(e) = v.pop_into() {
                        e.forget();
                    }
                }
            }
        }
        let c1 = now();
        std::hint::black_box(sink);
        best = best.min((c1 - c0) / K as u64);
        // back to n elements
        while v.len() > n {
            drop(v.pop_into());
        }
        let mut i = 0;
        while v.len() < n {
            v.push(*value::<F>(specs, i));
            i += 1;
        }
    }
    best
}

const WHOLE: [&str; 8] = ["iterate", "iterate backwards", "insert at the front", "remove from the front", "shrink_to_fit", "clone by re-collecting", "compare with itself", "drop"];

fn whole<F: Family>(v: &mut UnsizedVec<F::T>, op: usize, specs: &[Spec]) -> u64 {
    let mut sink = 0usize;
    let b = value::<F>(specs, 0);
    let mut other: UnsizedVec<F::T> = UnsizedVec::new();
    if op == 2 {
        v.reserve_capacity_bytes(1, 1024);
    }
    if op == 7 {
        std::mem::swap(v, &mut other);
    }
    let c0 = now();
    match op {
        0 => v.iter().for_each(|x| sink ^= (x as *const F::T).cast::<u8>() as usize),
        1 => v.iter().rev().for_each(|x| sink ^= (x as *const F::T).cast::<u8>() as usize),
        2 => v.insert(0, *b),
        3 => drop(v.remove_into(0)),
        4 => v.shrink_to_fit(),
        5 => {
            let n = v.len();
            for _ in 0..n.min(K) {
                other.push_with(v.remove_into(0));
            }
        }
        6 => sink ^= v.iter().zip(v.iter()).filter(|(a, b)| std::ptr::addr_eq(*a as *const F::T, *b as *const F::T)).count(),
        _ => drop(std::mem::take(&mut other)),
    }
    let c1 = now();
    std::hint::black_box(sink);
    c1 - c0
}

fn costs<F: Family>(src: &mut Src, st: &mut Stats) -> R {
    let k = src.range(1, 5);
    let specs: Vec<Spec> = (0..k)
        .map(|_| {
            let mut s = F::spec(src);
            // no values with destructors that are counted: the registry has its own costs
            if s.kind >= 13 {
                s.kind = 1;
            }
            s.len = s.len.min(40);
            s
        })
        .collect();
    let size: usize = specs.iter().map(|s| std::mem::size_of_val(&*F::make(s))).max().unwrap() + 16;
    let mut top = if src.bool(1, 8) { 17 } else { 16 };
    while top > 13 && size << top > 20 << 20 {
        top -= 1;
    }
    let how = src.below(4);
    let ops: Vec<usize> = (0..src.range(2, 4)).map(|_| src.below(OPS.len() as u32) as usize).collect();
    let last = src.below(WHOLE.len() as u32) as usize;
    let salt = src.below(1 << 16) as u64;
    trace(|| {
        let names: Vec<&str> = ops.iter().map(|&o| OPS[o]).collect();
        let how = ["push", "push_with", "extend", "push_unsize"][how as usize];
        format!("{} of {}, values {specs:?}, up to 2^{top} elements by {how}; then {names:?} and {:?}", "costs", F::NAME, WHOLE[last])
    });
    let mut v: UnsizedVec<F::T> = UnsizedVec::new();
    let mut base: Vec<u64> = Vec::new();
    let mut i = 0;
    let mut e = 10;
    while e <= top {
        let n = 1usize << e;
        let c0 = now();
        let was = v.len();
        while v.len() < n {
            let mut s = specs[i % specs.len()].clone();
            s.seed = (s.seed + i as u32) & 0xffff;
            match how {
                0 => v.push(*F::make(&s)),
                1 => v.push_with(<Emplacable<F::T, _> as From<Box<F::T>>>::from(F::make(&s))),
                2 => v.extend((0..64).map(|k| <Emplacable<F::T, _> as From<Box<F::T>>>::from(value::<F>(&specs, i + k)))),
                _ => {
                    if !F::push_unsize(&mut v, &s, &mut None) {
                        v.push(*F::make(&s))
                    }
                }
            }
            i += 1;
        }
        let each = (now() - c0) / (v.len() - was).max(1) as u64;
        // growth is amortised, so this is a constant, too; it is measured once, hence the wider margin
        ensure!(how == 2 || each <= 5 * FLOOR, "adding an element costs {each} ns on the way from {was} to {n} elements");
        for (j, &op) in ops.iter().enumerate() {
            if F::SIZE == Some(0) {
                break;
            }
            let mut c = cost::<F>(&mut v, op, &specs, salt, 4);
            if j >= base.len() {
                base.push(c.max(1));
            }
            if c > FLOOR && c > GROWTH * base[j] {
                // again, to be sure
                c = c.min(cost::<F>(&mut v, op, &specs, salt ^ 77, 12));
            }
            ensure!(
                c <= FLOOR || c <= GROWTH * base[j],
                "{} costs {c} ns with {n} elements, {} ns with {}: not independent of the length",
                OPS[op],
                base[j],
                1 << 10
            );
        }
        st.extra_steps += 1;
        e += 2;
        if e > top && e - 2 < top {
            e = top;
        }
    }
    // linear ones: not quadratic
    let n = v.len() as u64;
    let mut c = whole::<F>(&mut v, last, &specs);
    if !matches!(last, 4 | 7) && c > n * FLOOR / 4 {
        c = c.min(whole::<F>(&mut v, last, &specs));
    }
    ensure!(c <= n * FLOOR / 4 * if last == 5 { K as u64 } else { 1 }, "to {} {n} elements takes {c} ns: more than linear time", WHOLE[last]);
    st.max_len = st.max_len.max(n as _);
    drop(v);
    if let Some(e) = elems::take_error().or_else(alloc::take_error) {
        return Err(e);
    }
    // forgotten values may own memory
    EXPECT.with(|e| e.set((ops.contains(&17), 0)));
    Ok(())
}

pub fn case(src: &mut Src, st: &mut Stats) -> R {
    match src.below(13) {
        0 => costs::<SizedF<u64>>(src, st),
        1 => costs::<SliceF<u8>>(src, st),
        2 => costs::<StrF>(src, st),
        3 => costs::<DynF>(src, st),
        4 => costs::<SliceF<u32>>(src, st),
        5 => costs::<TailDynF>(src, st),
        6 => costs::<TailSliceF<u8>>(src, st),
        7 => costs::<OsStrF>(src, st),
        8 => costs::<PathF>(src, st),
        9 => costs::<CStrF>(src, st),
        10 => costs::<SliceF<A32>>(src, st),
        11 => costs::<SizedF<A64>>(src, st),
        _ => costs::<SizedF<[u8; 3]>>(src, st),
    }
}
