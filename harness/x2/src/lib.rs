#![feature(allocator_api, ptr_metadata, unsized_fn_params)]
#![allow(internal_features)]
//! Growth over long histories, iterator conversions, lying iterators, boxing by value and the macros.

mod streams;
pub use streams::streams;

use emplacable::{Emplacable, box_new, box_pin, by_value_str, rc_new, rc_pin, arc_new, arc_pin, unsize};
use std::rc::Rc;
use std::sync::Arc;
use unsized_vec::{UnsizedIter, UnsizedVec, unsize_vec, unsized_vec};
use vhcore::alloc::{self, counts, scope};
use vhcore::elems::{self, A32, A64, A256, Elem, Obj, Z4096, Pair, Tail, Tracked, Val, ZTok, B3, W8, note_error, step};
use vhcore::ensure;
use vhcore::fam::{self, DynF, Family, Odd, PathF, SizedF, SliceF, StrF, CStrF, OsStrF, TailDynF, TailSliceF, hand_made, obs_elem, obs_slice};
use vhcore::machine::{EXPECT, R, Stats, guarded, trace};
use vhcore::src::{Src, mix};

// ------------------------------------------------------------------ growth (C06)

fn log2(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64
}

fn grow<F: Family>(src: &mut Src, st: &mut Stats) -> R {
    // few but long: about 2^8 to 2^13 elements, now and then more than 2^16
    let e = if src.bool(1, 30) { 16 } else { src.range(8, 12) };
    let mut n = (1usize << e) + src.below(1 << e) as usize;
    let how = src.below(7);
    if F::TOKENS {
        n = n.min(2500);
    }
    if matches!(how, 4 | 5) {
        n = n.min(1500);
    }
    let seed = src.below(1 << 16);
    let uniform = src.bool(1, 2);
    let cap = if src.bool(1, 4) { src.below(50) as usize } else { 0 };
    let chunk = src.range(1, 9) as usize;
    let lower = src.below(2);
    let names = ["push", "push_with", "push_unsize", "push of popped values", "insert", "insert_with", "extend"];
    // values: a few recipes, used in turn
    let k = if uniform { 1 } else { src.range(2, 5) };
    let specs: Vec<elems::Spec> = (0..k)
        .map(|_| {
            let mut s = F::spec(src);
            s.len = s.len.min(90);
            if s.kind >= 13 && s.kind != 14 {
                s.kind = 1;
            }
            s
        })
        .collect();
    if n >= 1 << 14 {
        let size = specs.iter().map(|s| std::mem::size_of_val(&*F::make(s))).max().unwrap_or(0);
        if size > 64 {
            n >>= 4;
        }
    }
    trace(|| format!("{n} elements of {} by {} (chunks of {chunk}, starting capacity {cap}), values {specs:?}", F::NAME, names[how as usize]));
    let mut v: UnsizedVec<F::T> = if cap > 0 { UnsizedVec::with_capacity(cap) } else { UnsizedVec::new() };
    let c0 = counts();
    let mut at = seed as usize;
    let mut i = 0;
    while i < n {
        let mut s = specs[i % specs.len()].clone();
        s.seed = (seed.wrapping_add(i as u32)) & 0xffff;
        at = mix(at as u64) as usize;
        match how {
            0 => {
                let b = F::make(&s);
                scope(|| v.push(*b))
            }
            1 => {
                let b = F::make(&s);
                let e = <Emplacable<F::T, _> as From<Box<F::T>>>::from(b);
                scope(|| v.push_with(e))
            }
            2 => {
                if !F::push_unsize(&mut v, &s, &mut None) {
                    let b = F::make(&s);
                    scope(|| v.push(*b))
                }
            }
            3 => {
                let b = F::make(&s);
                let mut t: UnsizedVec<F::T> = UnsizedVec::new();
                t.push(*b);
                let e = t.remove_into(0);
                scope(|| v.push_with(e))
            }
            4 => {
                let b = F::make(&s);
                let j = at % (v.len() + 1);
                scope(|| v.insert(j, *b))
            }
            5 => {
                let b = F::make(&s);
                let j = at % (v.len() + 1);
                let e = <Emplacable<F::T, _> as From<Box<F::T>>>::from(b);
                scope(|| v.insert_with(j, e))
            }
            _ => {
                let boxes: Vec<Box<F::T>> = (0..chunk)
                    .map(|d| {
                        let mut s = specs[(i + d) % specs.len()].clone();
                        s.seed = (seed.wrapping_add((i + d) as u32)) & 0xffff;
                        F::make(&s)
                    })
                    .collect();
                let it = boxes.into_iter().map(<Emplacable<F::T, _> as From<Box<F::T>>>::from);
                let it = Odd { it, len: chunk, hint: (if lower == 1 { chunk } else { 0 }, None) };
                scope(|| v.extend(it));
                i += chunk - 1;
            }
        }
        i += 1;
    }
    let c1 = counts();
    let calls = c1.calls - c0.calls;
    ensure!(v.len() == i, "{i} elements added, len() is {}", v.len());
    st.grew += calls as u32;
    let bound = 2 * (log2(v.byte_len().max(1)) + log2(i)) + 40;
    ensure!(calls <= bound, "adding {i} elements ({} bytes) made {calls} allocator calls; amortised growth needs at most about {bound}", v.byte_len());
    // contents survived
    let spots = (0..8).map(|j| mix(seed as u64 + j) as usize % i).chain([0, i - 1, 255, 256, 4095, 4096, 65535, 65536]);
    for j in spots.filter(|j| *j < i) {
        let val = F::obs(&v[j]);
        if let Some(e) = elems::take_error() {
            return Err(format!("element {j}: {e}"));
        }
        if !matches!(how, 4 | 5) {
            let mut s = specs[j % specs.len()].clone();
            s.seed = (seed.wrapping_add(j as u32)) & 0xffff;
            if !F::TOKENS {
                let want = F::obs(&F::make(&s));
                ensure!(val == want, "element {j} of {i} is {val:?}, should be {want:?}");
            }
        }
    }
    let ends = v.capacity();
    let (cap, bcap, al) = (ends, v.byte_capacity(), v.align());
    let c2 = counts();
    let down = src.below(3);
    trace(|| format!("then remove all but 3 ({})", ["pop", "remove the last but one", "pop and remove"][down as usize]));
    while v.len() > 3 {
        let n = v.len();
        if down == 0 || (down == 2 && n % 2 == 0) {
            let e = scope(|| v.pop_into());
            scope(|| drop(e));
        } else {
            let e = scope(|| v.remove_into(n - 2));
            scope(|| drop(e));
        }
    }
    ensure!(counts().calls == c2.calls, "removing elements called the allocator");
    ensure!((v.capacity(), v.byte_capacity(), v.align()) == (cap, bcap, al), "removing elements changed a capacity");
    drop(v);
    EXPECT.with(|e| e.set((false, 0)));
    Ok(())
}

pub fn growth(src: &mut Src, st: &mut Stats) -> R {
    match src.below(10) {
        0 => grow::<SizedF<u64>>(src, st),
        1 => grow::<SizedF<[u8; 3]>>(src, st),
        2 => grow::<SliceF<u8>>(src, st),
        3 => grow::<SliceF<Tracked>>(src, st),
        4 => grow::<StrF>(src, st),
        5 => grow::<DynF>(src, st),
        6 => grow::<TailDynF>(src, st),
        7 => grow::<TailSliceF<u8>>(src, st),
        8 => grow::<OsStrF>(src, st),
        _ => grow::<SliceF<A32>>(src, st),
    }
}

// ------------------------------------------------------------------ iterators of sized types (C12)

fn iters<E: Elem>(src: &mut Src, st: &mut Stats, name: &str) -> R {
    let n = src.below(8) as usize;
    let spare = src.below(4) as usize;
    let mut list: Vec<E> = Vec::with_capacity(n + spare);
    for i in 0..n {
        list.push(E::make(i as u32 + 1));
    }
    let (f, b) = (src.below(4) as usize, src.below(4) as usize);
    let (f2, b2) = (src.below(3) as usize, src.below(3) as usize);
    let dir = src.below(4);
    trace(|| format!("{n} {name}, {f} taken from the front and {b} from the back, converted ({dir}), {f2} and {b2} more taken"));
    let want: Vec<*const E> = list.iter().map(|e| e as *const E).collect();
    let seq = |it: &mut dyn DoubleEndedIterator<Item = &E>, f: usize, b: usize| -> Vec<*const E> {
        let mut o = Vec::new();
        for _ in 0..f {
            o.extend(it.next().map(|e| e as *const E));
        }
        for _ in 0..b {
            o.extend(it.next_back().map(|e| e as *const E));
        }
        o
    };
    // what a slice iterator yields
    let mut ref_it = list.iter();
    let mut expect = seq(&mut ref_it, f, b);
    let rest: Vec<*const E> = ref_it.clone().map(|e| e as *const E).collect();
    expect.extend(seq(&mut ref_it, f2, b2));
    let left = ref_it.len();
    expect.extend(ref_it.map(|e| e as *const E));
    if f + b > 0 && n > f + b {
        st.class("converted while partly consumed");
    }
    match dir {
        0 => {
            let mut it = list.iter();
            let mut got = seq(&mut it, f, b);
            let mut u: UnsizedIter<'_, E> = it.into();
            ensure!(u.len() == rest.len(), "len() after conversion is {}, should be {}", u.len(), rest.len());
            got.extend(seq(&mut u, f2, b2));
            ensure!(u.len() == left && u.size_hint() == (left, Some(left)), "size_hint() is {:?}, {left} are left", u.size_hint());
            got.extend(u.map(|e| e as *const E));
            ensure!(got == expect, "slice iterator as vector iterator yields other elements");
        }
        1 => {
            let v: UnsizedVec<E> = list.into();
            let mut it = v.iter();
            let mut got = seq(&mut it, f, b);
            let mut s: std::slice::Iter<'_, E> = it.into();
            let slice: Vec<*const E> = s.as_slice().iter().map(|e| e as *const E).collect();
            ensure!(slice == rest, "vector iterator as slice iterator has another slice left ({} elements, should be {})", slice.len(), rest.len());
            got.extend(seq(&mut s, f2, b2));
            got.extend(s.map(|e| e as *const E));
            ensure!(got == expect, "vector iterator as slice iterator yields other elements");
        }
        2 => {
            // there and back
            let mut it = list.iter();
            let mut got = seq(&mut it, f, b);
            let u: UnsizedIter<'_, E> = it.into();
            let mut s: std::slice::Iter<'_, E> = u.into();
            got.extend(seq(&mut s, f2, b2));
            got.extend(s.map(|e| e as *const E));
            ensure!(got == expect, "a slice iterator does not survive the conversion to a vector iterator and back");
        }
        _ => {
            let v: UnsizedVec<E> = list.into();
            let mut it = v.iter();
            let mut got = seq(&mut it, f, b);
            let s: std::slice::Iter<'_, E> = it.into();
            let mut u: UnsizedIter<'_, E> = s.into();
            got.extend(seq(&mut u, f2, b2));
            got.extend(u.map(|e| e as *const E));
            ensure!(got == expect, "a vector iterator does not survive the conversion to a slice iterator and back");
            let w: Vec<E> = v.into();
            let now: Vec<*const E> = w.iter().map(|e| e as *const E).collect();
            ensure!(now == want, "Vec to UnsizedVec and back moved or lost elements");
            ensure!(w.capacity() >= n + spare || std::mem::size_of::<E>() == 0, "Vec to UnsizedVec and back lost capacity");
        }
    }
    Ok(())
}

/// Vec -> UnsizedVec -> Vec with changes in between.
fn roundtrip<E: Elem>(src: &mut Src, st: &mut Stats, name: &str) -> R {
    let n = src.below(6) as usize;
    let spare = if src.bool(1, 2) { src.below(6) as usize } else { 0 };
    let mut list: Vec<E> = Vec::with_capacity(n + spare);
    let mut model: Vec<Val> = Vec::new();
    for i in 0..n {
        list.push(E::make(i as u32 + 1));
        model.push(obs_elem(&list[i]));
    }
    let (cap, ptr) = (list.capacity(), list.as_ptr());
    let c0 = counts();
    let mut v: UnsizedVec<E> = scope(|| list.into());
    ensure!(counts().calls == c0.calls && counts().frees == c0.frees, "Vec to UnsizedVec called the allocator");
    ensure!(v.len() == n && v.capacity() == cap, "from a Vec with len {n} capacity {cap}: len() {} capacity() {}", v.len(), v.capacity());
    let zst = std::mem::size_of::<E>() == 0;
    ensure!(zst || v.byte_capacity() == cap * std::mem::size_of::<E>(), "byte_capacity() is {} with capacity {cap}", v.byte_capacity());
    ensure!(v.byte_len() == n * std::mem::size_of::<E>(), "byte_len() is {}", v.byte_len());
    ensure!(v.align() == std::mem::align_of::<E>(), "align() is {}", v.align());
    ensure!(n == 0 || std::ptr::eq(&v[0], ptr), "Vec to UnsizedVec moved the elements");
    let steps = src.below(5);
    let mut log = Vec::new();
    for s in 0..steps {
        match src.below(5) {
            0 => {
                let e = E::make(100 + s);
                model.push(obs_elem(&e));
                v.push(e);
                log.push("push");
            }
            1 => {
                let i = src.below(model.len() as u32 + 1) as usize;
                let e = E::make(200 + s);
                model.insert(i, obs_elem(&e));
                v.insert(i, e);
                log.push("insert");
            }
            2 if !model.is_empty() => {
                let i = src.below(model.len() as u32) as usize;
                model.remove(i);
                drop(v.remove_into(i));
                log.push("remove");
            }
            3 => {
                v.shrink_to_fit();
                log.push("shrink_to_fit");
            }
            _ => {
                v.reserve(src.below(20) as usize);
                log.push("reserve");
            }
        }
    }
    trace(|| format!("Vec of {n} {name} (+{spare}) to UnsizedVec, {log:?}, and back"));
    let (cap, ptr) = (v.capacity(), v.get(0).map(|e| e as *const E));
    let c1 = counts();
    let w: Vec<E> = scope(|| v.into());
    ensure!(counts().calls == c1.calls && counts().frees == c1.frees, "UnsizedVec to Vec called the allocator");
    ensure!(w.len() == model.len() && w.capacity() == cap, "back in a Vec: len {} capacity {}, should be {} and {cap}", w.len(), w.capacity(), model.len());
    if let Some(p) = ptr {
        ensure!(w.as_ptr() == p, "UnsizedVec to Vec moved the elements");
    }
    for (i, e) in w.iter().enumerate() {
        ensure!(obs_elem(e) == model[i], "element {i} came back as {:?}, should be {:?}", obs_elem(e), model[i]);
    }
    st.extra_steps += steps;
    Ok(())
}

pub fn conversions(src: &mut Src, st: &mut Stats) -> R {
    EXPECT.with(|e| e.set((false, 0)));
    for _ in 0..src.range(1, 3) {
        src.span();
        st.extra_steps += 1;
        if src.bool(1, 2) {
            match src.below(6) {
                0 => iters::<u64>(src, st, "u64")?,
                1 => iters::<u8>(src, st, "u8")?,
                2 => iters::<Tracked>(src, st, "Tracked")?,
                3 => iters::<()>(src, st, "()")?,
                4 => iters::<ZTok>(src, st, "ZTok")?,
                _ => iters::<A64>(src, st, "align64")?,
            }
        } else {
            match src.below(6) {
                0 => roundtrip::<u64>(src, st, "u64")?,
                1 => roundtrip::<[u8; 3]>(src, st, "[u8;3]")?,
                2 => roundtrip::<Tracked>(src, st, "Tracked")?,
                3 => roundtrip::<()>(src, st, "()")?,
                4 => roundtrip::<ZTok>(src, st, "ZTok")?,
                _ => roundtrip::<A64>(src, st, "align64")?,
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ lying iterators (C15)

pub fn liars(src: &mut Src, st: &mut Stats) -> R {
    let n = src.below(7) as usize;
    let claim = match src.below(4) {
        0 => n,
        1 => n + src.range(1, 3) as usize,
        2 => n.saturating_sub(src.range(1, 3) as usize),
        _ => src.below(12) as usize,
    };
    let lo = src.below(14) as usize;
    let hi = match src.below(6) {
        0..3 => None,
        3 => Some(if src.bool(1, 2) { usize::MAX } else { 1 << src.range(20, 62) }),
        _ => Some(src.below(10) as usize),
    };
    let hand = src.bool(1, 3);
    let site = src.below(6);
    let at = src.range(1, 9);
    let dest = src.below(8);
    trace(|| {
        format!(
            "iterator of {n} values claiming len() {claim}, size_hint ({lo}, {hi:?}){}{} -> {}",
            if hand { ", hand-made" } else { "" },
            match site {
                0 => format!(", next() call {at} panics"),
                1 => format!(", emplacable step {at} panics"),
                2 => format!(", drop {at} panics"),
                _ => String::new(),
            },
            ["box", "vec", "drop", "forget", "UnsizedVec<[T]>", "UnsizedVec::extend", "Vec::extend", "collect"][dest as usize]
        )
    });
    let items: Vec<Tracked> = (0..n).map(|i| Tracked::new(i as u32)).collect();
    let ids: Vec<u32> = items.iter().map(|t| t.id).collect();
    match site {
        0 => elems::arm_panic(elems::ITER, at),
        1 if hand => elems::arm_panic(elems::EMPL, at),
        2 => elems::arm_panic(elems::DROP, at),
        _ => {}
    }
    let mut into: UnsizedVec<[Tracked]> = UnsizedVec::new();
    into.push_unsize([Tracked::new(1000)]);
    let mut grown: UnsizedVec<Tracked> = UnsizedVec::new();
    grown.push(Tracked::new(2000));
    let mut plain: Vec<Tracked> = vec![Tracked::new(3000)];
    // observed: the values that arrived, in order
    let mut got: Option<Vec<u32>> = None;
    let see = |s: &[Tracked]| -> Vec<u32> {
        s.iter()
            .map(|t| {
                t.check();
                t.id
            })
            .collect()
    };
    let hint = (lo, hi);
    macro_rules! go {
        ($mk:expr) => {{
            let it = Odd { it: items.into_iter().map($mk), len: claim, hint };
            match dest {
                0 => {
                    let b: Box<[Tracked]> = emplacable::box_new_with(Emplacable::from_iter(it));
                    got = Some(see(&b));
                }
                1 => {
                    let v = Emplacable::from_iter(it).into_vec();
                    got = Some(see(&v));
                }
                2 => drop(Emplacable::from_iter(it)),
                3 => Emplacable::from_iter(it).forget(),
                4 => {
                    into.push_with(Emplacable::from_iter(it));
                    got = Some(see(&into[1]));
                }
                5 => grown.extend(it),
                6 => plain.extend(it),
                _ => {
                    let c: UnsizedVec<Tracked> = it.collect();
                    let v: Vec<Tracked> = c.into();
                    got = Some(see(&v));
                }
            }
        }};
    }
    let r = guarded(|| {
        if hand {
            go!(|t| hand_made(Box::new(t)))
        } else {
            go!(<Emplacable<Tracked, _> as From<Tracked>>::from)
        }
    });
    let fired = elems::disarm_panics();
    st.panics += fired;
    if let Some(e) = elems::take_error().or_else(alloc::take_error) {
        return Err(e);
    }
    let exact = dest < 5; // uses the claimed length
    match &r {
        Err(m) => ensure!(fired > 0 || (exact && claim != n), "panicked although length and values are in order: {m}"),
        Ok(()) => {
            if exact && fired == 0 && dest != 2 && dest != 3 {
                let g = got.clone().unwrap_or_default();
                ensure!(g.len() == claim, "{} values arrived, the iterator said {claim}", g.len());
                ensure!(ids.starts_with(&g), "values {g:?} arrived, the iterator has {ids:?}");
            }
            if dest == 7 && fired == 0 {
                ensure!(got.as_deref() == Some(&ids), "collected {got:?}, the iterator has {ids:?}");
            }
        }
    }
    // the destinations are valid lists: what was there, and a prefix of the new
    let now: Vec<u32> = grown.iter().map(|t| { t.check(); t.id }).collect();
    ensure!(!now.is_empty() && grown[0].pay == 2000 && ids.starts_with(&now[1..]), "extended by {ids:?}, the vector holds {now:?}");
    ensure!(dest != 5 || r.is_err() || now.len() == n + 1, "extended by {n} values, the vector holds {}", now.len());
    let pl = see(&plain);
    ensure!(!pl.is_empty() && plain[0].pay == 3000 && ids.starts_with(&pl[1..]), "extended by {ids:?}, the Vec holds {pl:?}");
    ensure!(dest != 6 || r.is_err() || pl.len() == n + 1, "extended by {n} values, the Vec holds {}", pl.len());
    ensure!(see(&into[0]).len() == 1 && into.len() <= 2, "the vector of slices was damaged");
    if into.len() == 2 {
        see(&into[1]);
    }
    into.push_unsize([Tracked::new(1), Tracked::new(2)]);
    grown.push(Tracked::new(5));
    let slack = r.is_err() || fired > 0 || dest == 3;
    if claim != n {
        st.class("iterator lies about its length");
    }
    if dest == 3 && r.is_ok() && fired == 0 {
        elems::forgotten(&ids, 0);
    }
    drop((into, grown, plain));
    if let Some(e) = elems::take_error().or_else(alloc::take_error) {
        return Err(e);
    }
    EXPECT.with(|e| e.set((slack, 0)));
    Ok(())
}

// ------------------------------------------------------------------ boxing by value and macros (C16)

fn boxing<F: Family>(src: &mut Src, st: &mut Stats) -> R {
    let s = F::spec(src);
    let how = src.below(12);
    let refuse = src.bool(1, 8);
    trace(|| {
        let f = ["box_new", "box_pin", "rc_new", "rc_pin", "arc_new", "arc_pin"][how as usize % 6];
        format!("{f}{}, {} {s:?}{}", if how >= 6 { "_with" } else { "" }, F::NAME, if refuse { ", the allocator refuses" } else { "" })
    });
    let b = F::make(&s);
    let want = F::obs(&b);
    let aligned = |p: *const u8| -> R {
        ensure!(p as usize % want.align == 0, "the value is at {p:p}, it needs alignment {}", want.align);
        Ok(())
    };
    let e = |b: Box<F::T>| <Emplacable<F::T, _> as From<Box<F::T>>>::from(b);
    macro_rules! judge {
        ($p:expr) => {{
            let p = $p;
            let r: &F::T = &*p;
            aligned(r as *const F::T as *const u8)?;
            let v = F::obs(r);
            ensure!(v == want, "{v:?} arrived, should be {want:?}");
            p
        }};
    }
    if refuse {
        alloc::arm(1, 1);
    }
    let r = guarded(|| -> R {
        match how {
            0 => drop(judge!(scope(|| box_new(*b)))),
            1 => drop(judge!(scope(|| box_pin(*b)))),
            2 => {
                let r = judge!(scope(|| rc_new(*b)));
                ensure!(Rc::strong_count(&r) == 1 && Rc::weak_count(&r) == 0, "a new Rc has {} owners", Rc::strong_count(&r));
                let w = Rc::downgrade(&r);
                drop(r);
                ensure!(w.upgrade().is_none(), "the value outlives its Rc");
            }
            3 => drop(judge!(scope(|| rc_pin(*b)))),
            4 => {
                let r = judge!(scope(|| arc_new(*b)));
                ensure!(Arc::strong_count(&r) == 1 && Arc::weak_count(&r) == 0, "a new Arc has {} owners", Arc::strong_count(&r));
                let w = Arc::downgrade(&r);
                drop(r);
                ensure!(w.upgrade().is_none(), "the value outlives its Arc");
            }
            5 => drop(judge!(scope(|| arc_pin(*b)))),
            6 => drop(judge!(scope(|| emplacable::box_new_with(e(b))))),
            7 => drop(judge!(scope(|| emplacable::box_pin_with(e(b))))),
            8 => {
                let r = judge!(scope(|| emplacable::rc_new_with(e(b))));
                ensure!(Rc::strong_count(&r) == 1 && Rc::weak_count(&r) == 0, "a new Rc has {} owners", Rc::strong_count(&r));
            }
            9 => drop(judge!(scope(|| emplacable::rc_pin_with(e(b))))),
            10 => {
                let r = judge!(scope(|| emplacable::arc_new_with(e(b))));
                ensure!(Arc::strong_count(&r) == 1 && Arc::weak_count(&r) == 0, "a new Arc has {} owners", Arc::strong_count(&r));
            }
            _ => drop(judge!(scope(|| emplacable::arc_pin_with(e(b))))),
        }
        Ok(())
    });
    let refused = alloc::disarm().1;
    match r {
        Ok(r) => r?,
        Err(m) => {
            ensure!(refused > 0, "panicked: {m}");
            // the allocation-error handler was called, as it should; nothing is said about leaks then
            st.faults += 1;
            EXPECT.with(|e| e.set((true, 0)));
            return Ok(());
        }
    }
    ensure!(elems::live() == 0 && elems::zlive() == 0, "{} + {} values alive after their only owner is gone", elems::live(), elems::zlive());
    Ok(())
}

fn obs_dyn(t: &(dyn Obj + 'static)) -> Val {
    fam::obs_dyn(t)
}

/// `unsize!` of one value of type `S`, to a trait object, into the various takers.
fn unsize_one<S: Obj + Elem>(src: &mut Src, name: &str) -> R {
    let seed = src.below(1 << 16);
    let how = src.below(9);
    let x = S::make(seed);
    let want = obs_dyn(&x);
    trace(|| format!("unsize!(({name}) -> dyn Obj) {want:?} into {}", ["box_new", "rc_new", "arc_pin", "push", "insert", "unsized_vec!", "unsize_vec!", "with_emplacable_for", "box_new of Tail"][how as usize]));
    let judge = |r: &(dyn Obj + 'static)| -> R {
        let a = r as *const dyn Obj as *const u8 as usize;
        ensure!(a % want.align == 0, "the value is at {a:#x}, it needs alignment {}", want.align);
        let v = obs_dyn(r);
        ensure!(v == want, "{v:?} arrived, should be {want:?}");
        Ok(())
    };
    match how {
        0 => {
            let b: Box<dyn Obj> = box_new(unsize!(x, (S) -> dyn Obj));
            judge(&*b)?;
        }
        1 => {
            let b: Rc<dyn Obj> = rc_new(unsize!(x, (S) -> dyn Obj));
            judge(&*b)?;
        }
        2 => {
            let b = arc_pin(unsize!(x, (S) -> dyn Obj));
            judge(&*b)?;
        }
        3 => {
            let mut v: UnsizedVec<dyn Obj> = unsize_vec![B3::make(1)];
            v.push(unsize!(x, (S) -> dyn Obj));
            judge(&v[1])?;
        }
        4 => {
            let mut v: UnsizedVec<dyn Obj> = unsize_vec![B3::make(1), W8::make(2)];
            v.insert(1, unsize!(x, (S) -> dyn Obj));
            judge(&v[1])?;
            ensure!(v[0].kind() == 2 && v[2].kind() == 1, "neighbours of an inserted value changed");
        }
        5 => {
            let v: UnsizedVec<dyn Obj> = unsized_vec![unsize!(x, (S) -> dyn Obj), unsize!(B3::make(5), (B3) -> dyn Obj)];
            judge(&v[0])?;
            ensure!(v.len() == 2 && obs_dyn(&v[1]) == obs_dyn(&B3::make(5)), "unsized_vec! mixed its arguments up");
        }
        6 => {
            let v: UnsizedVec<dyn Obj> = unsize_vec![W8::make(9), x, B3::make(5)];
            judge(&v[1])?;
            ensure!(v.len() == 3 && obs_dyn(&v[0]) == obs_dyn(&W8::make(9)) && obs_dyn(&v[2]) == obs_dyn(&B3::make(5)), "unsize_vec! mixed its arguments up");
        }
        7 => {
            let mut r = Ok(());
            emplacable::with_emplacable_for(unsize!(x, (S) -> dyn Obj), |e| {
                let b = emplacable::box_new_with(e);
                r = judge(&*b);
            });
            r?;
        }
        _ => {
            let t = Tail { head: 7, tail: x };
            let b: Box<Tail<dyn Obj>> = box_new(unsize!(t, (Tail<S>) -> Tail<dyn Obj>));
            ensure!(b.head == 7, "the head of the struct is {}", b.head);
            judge(&b.tail)?;
        }
    }
    Ok(())
}

fn unsize_array<E: Elem, const N: usize>(src: &mut Src, name: &str) -> R {
    let seed = src.below(1 << 16);
    let how = src.below(5);
    let a: [E; N] = std::array::from_fn(|i| E::make(seed + i as u32));
    let want = obs_slice(&a);
    trace(|| format!("unsize!(([{name};{N}]) -> [{name}]) {want:?} ({how})"));
    let judge = |s: &[E]| -> R {
        let v = obs_slice(s);
        ensure!(s.as_ptr() as usize % want.align == 0, "the slice is not aligned");
        ensure!(v == want, "{v:?} arrived, should be {want:?}");
        Ok(())
    };
    match how {
        0 => judge(&box_new(unsize!(a, ([E; N]) -> [E])))?,
        1 => judge(&arc_new(unsize!(a, ([E; N]) -> [E])))?,
        2 => {
            let mut v: UnsizedVec<[E]> = unsized_vec![unsize!([E::make(1)], ([E; 1]) -> [E])];
            v.insert_unsize(0, a);
            judge(&v[0])?;
            ensure!(v[1].len() == 1, "the neighbour of an inserted value changed");
        }
        3 => {
            let v: UnsizedVec<[E]> = unsize_vec![[E::make(4), E::make(5)], a];
            judge(&v[1])?;
            ensure!(v[0].len() == 2, "unsize_vec! mixed its arguments up");
        }
        _ => {
            // by value and by emplacable in one call
            let mut w: UnsizedVec<[E]> = unsize_vec![a];
            let v: UnsizedVec<[E]> = unsized_vec![unsize!([E::make(1), E::make(2), E::make(3)], ([E; 3]) -> [E]), w.remove_into(0),];
            judge(&v[1])?;
            ensure!(v.len() == 2 && v[0].len() == 3 && w.is_empty(), "unsized_vec! mixed its arguments up");
        }
    }
    Ok(())
}

fn strs(src: &mut Src) -> R {
    let how = src.below(8);
    trace(|| format!("by_value_str! #{how}"));
    macro_rules! each {
        ($($n:literal $s:literal),*) => { match how { $($n => {
            let b: Box<str> = box_new(by_value_str!($s));
            ensure!(&*b == $s, "box_new(by_value_str!({:?})) is {b:?}", $s);
            let mut v: UnsizedVec<str> = unsized_vec![by_value_str!("x"), by_value_str!($s), by_value_str!("yz")];
            v.push(by_value_str!($s));
            v.insert(0, by_value_str!($s));
            let l: Vec<&str> = v.iter().collect();
            ensure!(l == [$s, "x", $s, "yz", $s], "a vector of by_value_str! {:?} is {l:?}", $s);
            let e: Rc<str> = rc_new(by_value_str!($s));
            ensure!(&*e == $s, "rc_new(by_value_str!) is {e:?}");
        })* _ => {
            let mut o = String::new();
            emplacable::with_emplacable_for(by_value_str!("emplaced é語"), |e| o = e.into_string());
            ensure!(o == "emplaced é語", "by_value_str! as emplacable is {o:?}");
        } } };
    }
    each!(0 "", 1 "a", 2 "why hello there", 3 "\u{e9}\u{8a9e}\u{1f600}", 4 "nul\0inside", 5 "quote\"back\\slash", 6 "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef!");
    Ok(())
}

/// Arguments are evaluated and pushed in order; a panic in one drops the earlier ones once.
fn order(src: &mut Src, st: &mut Stats) -> R {
    let at = src.below(5);
    let which = src.below(3);
    trace(|| format!("{} with argument {at} panicking", ["unsize_vec![a, b, c, d]", "unsized_vec![a, b, c, d]", "unsized_vec! of emplacables"][which as usize]));
    if at > 0 {
        elems::arm_panic(elems::ITER, at);
    }
    let mut log: Vec<u32> = Vec::new();
    let mut arg = |n: u32| {
        log.push(n);
        step(elems::ITER);
        Tracked::new(n)
    };
    let r = guarded(|| -> Vec<u32> {
        match which {
            0 => {
                let v: UnsizedVec<dyn Obj> = unsize_vec![arg(0), Pair { t: arg(1), b: [1; 9] }, arg(2), arg(3)];
                v.iter().map(|o| u32::from_le_bytes(obs_dyn(o).bytes[..4].try_into().unwrap())).collect()
            }
            1 => {
                let v: UnsizedVec<Tracked> = unsized_vec![arg(0), arg(1), arg(2), arg(3)];
                v.iter().map(|t| t.pay).collect()
            }
            _ => {
                let v: UnsizedVec<Tracked> = unsized_vec![
                    <Emplacable<Tracked, _> as From<Tracked>>::from(arg(0)),
                    arg(1),
                    hand_made(Box::new(arg(2))),
                    <Emplacable<Tracked, _> as From<Box<Tracked>>>::from(Box::new(arg(3))),
                ];
                v.iter().map(|t| t.pay).collect()
            }
        }
    });
    let fired = elems::disarm_panics();
    st.panics += fired;
    match r {
        Ok(l) => {
            ensure!(fired == 0, "the panic of an argument is lost");
            ensure!(l == [0, 1, 2, 3], "the vector holds {l:?}, should hold [0, 1, 2, 3]");
            ensure!(log == [0, 1, 2, 3], "the arguments were evaluated as {log:?}");
        }
        Err(m) => {
            ensure!(fired > 0, "panicked: {m}");
            ensure!(log.len() == at as usize && log.iter().enumerate().all(|(i, &n)| n == i as u32), "the arguments were evaluated as {log:?}");
        }
    }
    ensure!(elems::live() == 0, "{} values alive", elems::live());
    let z: UnsizedVec<str> = unsized_vec![];
    let y: UnsizedVec<dyn Obj> = unsize_vec![];
    ensure!(z.is_empty() && y.is_empty(), "an empty macro call makes a vector with elements");
    Ok(())
}

/// Sources that panic while being boxed: no half-made box survives.
fn box_panics(src: &mut Src, st: &mut Stats) -> R {
    let at = src.range(1, 2);
    let which = src.below(5);
    match src.below(9) {
        0 => return box_panics_of::<SizedF<Tracked>>(src, st, at, which),
        1 => return box_panics_of::<SizedF<A64>>(src, st, at, which),
        2 => return box_panics_of::<SizedF<Z4096>>(src, st, at, which),
        3 => return box_panics_of::<SliceF<Tracked>>(src, st, at, which),
        4 => return box_panics_of::<StrF>(src, st, at, which),
        5 => return box_panics_of::<TailSliceF<Tracked>>(src, st, at, which),
        6 => return box_panics_of::<DynF>(src, st, at, which),
        _ => {}
    }
    trace(|| format!("slice a hand-made emplacable that panics at step {at}"));
    elems::arm_panic(elems::EMPL, at);
    let r = guarded(|| {
        let e: Emplacable<[Tracked], _> = hand_made(Box::new([Tracked::new(1), Tracked::new(2)])).into();
        if which % 2 == 0 { drop(emplacable::box_new_with(e)) } else { drop(e.into_vec()) }
    });
    let fired = elems::disarm_panics();
    st.panics += fired;
    ensure!(r.is_err() == (fired > 0), "the panic was lost or made up: {r:?}");
    EXPECT.with(|e| e.set((fired > 0, 0)));
    Ok(())
}

/// `box_new_with` gives its block back when the emplacable panics; a hand-made one drops its value.
fn box_panics_of<F: Family>(src: &mut Src, st: &mut Stats, at: u32, which: u32) -> R {
    let s = F::spec(src);
    let f = ["box_new_with", "box_pin_with", "rc_new_with", "arc_pin_with", "Arc::from"][which as usize];
    trace(|| format!("{f} of a hand-made emplacable of {} {s:?} that panics at step {at}", F::NAME));
    let b = F::make(&s);
    elems::arm_panic(elems::EMPL, at);
    let r = guarded(|| {
        let e = hand_made(b);
        match which {
            0 => drop(emplacable::box_new_with(e)),
            1 => drop(emplacable::box_pin_with(e)),
            2 => drop(emplacable::rc_new_with(e)),
            3 => drop(emplacable::arc_pin_with(e)),
            _ => drop(Arc::<F::T>::from(e)),
        }
    });
    let fired = elems::disarm_panics();
    st.panics += fired;
    ensure!(fired == 1 && r.is_err(), "the panic was lost or made up: {r:?}");
    ensure!(elems::live() == 0 && elems::zlive() == 0, "{} + {} values alive", elems::live(), elems::zlive());
    Ok(())
}

pub fn macros(src: &mut Src, st: &mut Stats) -> R {
    EXPECT.with(|e| e.set((false, 0)));
    for _ in 0..src.range(1, 3) {
        if src.exhausted() {
            break;
        }
        src.span();
        st.extra_steps += 1;
        match src.below(8) {
            0..=2 => match src.below(14) {
                12 => boxing::<SizedF<Z4096>>(src, st)?,
                0 => boxing::<SizedF<u64>>(src, st)?,
                1 => boxing::<SizedF<Tracked>>(src, st)?,
                2 => boxing::<SizedF<A64>>(src, st)?,
                3 => boxing::<SizedF<ZTok>>(src, st)?,
                4 => boxing::<SliceF<u8>>(src, st)?,
                5 => boxing::<SliceF<Tracked>>(src, st)?,
                6 => boxing::<SliceF<A32>>(src, st)?,
                7 => boxing::<StrF>(src, st)?,
                8 => boxing::<CStrF>(src, st)?,
                9 => boxing::<PathF>(src, st)?,
                10 => boxing::<TailSliceF<Tracked>>(src, st)?,
                11 => boxing::<TailDynF>(src, st)?,
                _ => boxing::<DynF>(src, st)?,
            },
            3 => match src.below(8) {
                6 => unsize_one::<Z4096>(src, "zero-sized align4096")?,
                0 => unsize_one::<Tracked>(src, "Tracked")?,
                1 => unsize_one::<Pair>(src, "Pair")?,
                2 => unsize_one::<ZTok>(src, "ZTok")?,
                3 => unsize_one::<A256>(src, "align256")?,
                4 => unsize_one::<B3>(src, "B3")?,
                5 => unsize_one::<A32>(src, "align32")?,
                _ => unsize_one::<W8>(src, "W8")?,
            },
            4 => match src.below(6) {
                0 => unsize_array::<u8, 3>(src, "u8")?,
                1 => unsize_array::<u32, 0>(src, "u32")?,
                2 => unsize_array::<Tracked, 2>(src, "Tracked")?,
                3 => unsize_array::<A32, 3>(src, "align32")?,
                4 => unsize_array::<ZTok, 4>(src, "ZTok")?,
                _ => unsize_array::<u64, 17>(src, "u64")?,
            },
            5 => strs(src)?,
            6 => order(src, st)?,
            _ => {
                box_panics(src, st)?;
                // leaks are possible from here on
                return match elems::take_error() {
                    Some(e) => Err(e),
                    None => Ok(()),
                };
            }
        }
        if let Some(e) = elems::take_error().or_else(alloc::take_error) {
            return Err(e);
        }
        if EXPECT.with(|e| e.get()).0 {
            break;
        }
    }
    let _ = note_error as fn(String);
    Ok(())
}
