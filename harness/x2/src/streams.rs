//! Many emplacables at once: collecting, extending, and emplacing whole slices (C14).

use emplacable::{Emplacable, EmplacableFn};
use std::ffi::{CStr, CString, OsStr};
use std::path::Path;
use std::rc::Rc;
use std::sync::Arc;
use unsized_vec::UnsizedVec;
use vhcore::alloc;
use vhcore::elems::{self, A32, A64, Elem, Tracked, Val, ZTok};
use vhcore::ensure;
use vhcore::fam::{DynF, Family, Odd, OsStrF, SizedF, SliceF, StrF, TailDynF, TailSliceF, hand_made, obs_elem};
use vhcore::machine::{EXPECT, R, Stats, trace};
use vhcore::src::Src;

const SHAPES: [&str; 9] = ["exact hint", "wide hint", "filter", "chain", "from_fn", "rev", "skip and take", "peeked", "flat_map"];

/// An iterator over `items` whose size hint is truthful, mostly without being exact.
/// Returns it with the indices of the items it will yield.
fn shaped<X: 'static>(src: &mut Src, items: Vec<X>) -> (Box<dyn Iterator<Item = X>>, Vec<usize>, u32) {
    let n = items.len();
    let all: Vec<usize> = (0..n).collect();
    let shape = src.below(SHAPES.len() as u32);
    match shape {
        0 => (Box::new(items.into_iter()), all, shape),
        1 => {
            let lo = src.below(n as u32 + 1) as usize;
            // an upper bound promises nothing about how much comes
            let hi = match src.below(5) {
                0 => None,
                1 => Some(n),
                2 => Some(usize::MAX),
                3 => Some(1 << src.range(20, 62)),
                _ => Some(n + src.below(9) as usize),
            };
            (Box::new(Odd { it: items.into_iter(), len: n, hint: (lo, hi) }), all, shape)
        }
        2 => {
            let keep = src.u32();
            let idx = all.into_iter().filter(|i| keep >> (i % 32) & 1 == 1).collect();
            (Box::new(items.into_iter().enumerate().filter(move |(i, _)| keep >> (i % 32) & 1 == 1).map(|(_, x)| x)), idx, shape)
        }
        3 => {
            let at = src.below(n as u32 + 1) as usize;
            let mut a = items;
            let b = a.split_off(at);
            let mut b = Some(b);
            let unknown = src.bool(1, 2);
            if unknown {
                // lower bound: the first part
                let tail = std::iter::from_fn(move || b.as_mut().and_then(|b| if b.is_empty() { None } else { Some(b.remove(0)) }));
                (Box::new(a.into_iter().chain(tail)), all, shape)
            } else {
                (Box::new(a.into_iter().chain(b.unwrap())), all, shape)
            }
        }
        4 => {
            let mut it = items.into_iter();
            (Box::new(std::iter::from_fn(move || it.next())), all, shape)
        }
        5 => (Box::new(items.into_iter().rev()), all.into_iter().rev().collect(), shape),
        6 => {
            let s = src.below(n as u32 + 2) as usize;
            let t = src.below(n as u32 + 2) as usize;
            (Box::new(items.into_iter().skip(s).take(t)), all.into_iter().skip(s).take(t).collect(), shape)
        }
        7 => {
            let mut p = items.into_iter().peekable();
            let _ = p.peek();
            (Box::new(p), all, shape)
        }
        _ => (Box::new(items.into_iter().flat_map(std::iter::once)), all, shape),
    }
}

fn no_errors() -> R {
    match elems::take_error().or_else(alloc::take_error) {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn same(what: &str, got: &[Val], want: &[Val]) -> R {
    ensure!(got.len() == want.len(), "{what}: {} values arrived, there should be {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g == w, "{what}: value {i} is {g:?}, should be {w:?}");
    }
    Ok(())
}

/// Into a vector of (un)sized elements, in one or more goes, with elements there before.
fn into_unsized<F: Family, C: EmplacableFn<F::T> + 'static>(
    src: &mut Src,
    st: &mut Stats,
    name: &str,
    make: impl Fn(Box<F::T>) -> Emplacable<F::T, C>,
) -> R {
    let rounds = src.range(1, 3);
    let collect = src.bool(1, 3);
    let mut v: UnsizedVec<F::T> = UnsizedVec::new();
    let mut want: Vec<Val> = Vec::new();
    if !collect {
        for _ in 0..src.below(3) {
            let b = F::make(&F::spec(src));
            want.push(F::obs(&b));
            v.push(*b);
        }
        if src.bool(1, 3) {
            v.reserve_capacity_bytes(src.below(9) as usize, src.below(100) as usize);
        }
    }
    for r in 0..rounds {
        let n = src.below(9) as usize;
        let mut boxes = Vec::new();
        for _ in 0..n {
            boxes.push(F::make(&F::spec(src)));
        }
        let vals: Vec<Val> = boxes.iter().map(|b| F::obs(b)).collect();
        let items: Vec<Emplacable<F::T, C>> = boxes.into_iter().map(&make).collect();
        let (it, idx, shape) = shaped(src, items);
        trace(|| {
            format!(
                "{} an UnsizedVec of {} ({} there) with {n} emplacables ({name}, {}), yielding {idx:?}",
                if collect && r == 0 { "collect" } else { "extend" },
                F::NAME,
                v.len(),
                SHAPES[shape as usize]
            )
        });
        st.class(SHAPES[shape as usize]);
        st.transfers += idx.len() as u32;
        want.extend(idx.iter().map(|&i| vals[i].clone()));
        if collect && r == 0 {
            v = it.collect();
        } else {
            v.extend(it);
        }
        no_errors()?;
        let got: Vec<Val> = v.iter().map(|t| F::obs(t)).collect();
        same("vector", &got, &want)?;
        no_errors()?;
    }
    Ok(())
}

/// Sized values: into a `Vec`, and as one slice into any owner.
fn into_plain<E: Elem, C: EmplacableFn<E> + 'static>(src: &mut Src, st: &mut Stats, name: &str, make: impl Fn(E) -> Emplacable<E, C>) -> R {
    let n = src.below(9) as usize;
    let seed = src.below(1 << 16);
    let list: Vec<E> = (0..n).map(|i| E::make(seed + i as u32)).collect();
    let vals: Vec<Val> = list.iter().map(obs_elem).collect();
    let items: Vec<Emplacable<E, C>> = list.into_iter().map(make).collect();
    let dest = src.below(9);
    let dests = ["Vec::from_iter", "Vec::extend", "Box<[T]>", "Vec", "Rc<[T]>", "Arc<[T]>", "UnsizedVec<[T]>::push_with", "UnsizedVec<[T]>::insert_with", "array of emplacables"];
    let mut judge = |got: &[E], idx: &[usize], extra: &[Val]| -> R {
        let got: Vec<Val> = got.iter().map(obs_elem).collect();
        let mut want = extra.to_vec();
        want.extend(idx.iter().map(|&i| vals[i].clone()));
        st.transfers += idx.len() as u32;
        same(dests[dest as usize], &got, &want)
    };
    if dest < 2 {
        let (it, idx, shape) = shaped(src, items);
        trace(|| format!("{n} emplacables of {} ({name}, {}), yielding {idx:?}, to {}", std::any::type_name::<E>(), SHAPES[shape as usize], dests[dest as usize]));
        if dest == 0 {
            let v: Vec<E> = it.collect();
            judge(&v, &idx, &[])?;
        } else {
            let k = src.below(4) as usize;
            let mut v: Vec<E> = Vec::with_capacity(k + src.below(6) as usize);
            for i in 0..k {
                v.push(E::make(70000 + i as u32));
            }
            let extra: Vec<Val> = v.iter().map(obs_elem).collect();
            v.extend(it);
            judge(&v, &idx, &extra)?;
        }
        st.class(SHAPES[shape as usize]);
        return no_errors();
    }
    if dest == 8 {
        let Ok(a) = <[Emplacable<E, C>; 3]>::try_from(items.into_iter().take(3).collect::<Vec<_>>()) else { return Ok(()) };
        let how = src.below(3);
        trace(|| format!("array of 3 emplacables of {} ({name}), {how}", std::any::type_name::<E>()));
        match how {
            0 => {
                let e: Emplacable<[E; 3], _> = a.into();
                let a: [E; 3] = e.get();
                judge(&a, &[0, 1, 2], &[])?;
            }
            1 => {
                let e: Emplacable<[E], _> = a.into();
                judge(&emplacable::box_new_with(e), &[0, 1, 2], &[])?;
            }
            _ => {
                let e: Emplacable<[E; 3], _> = a.into();
                let e: Emplacable<[E], _> = e.into();
                judge(&e.into_vec(), &[0, 1, 2], &[])?;
            }
        }
        return no_errors();
    }
    // iterators that know their length
    let shape = src.below(5);
    let (a, b) = (src.below(n as u32 + 1) as usize, src.below(n as u32 + 1) as usize);
    let idx: Vec<usize> = match shape {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).take(a).collect(),
        3 => (0..n).skip(a).take(b).collect(),
        _ => (a..n - b.min(n - a)).collect(),
    };
    trace(|| {
        let s = ["all", "rev", "take", "skip and take", "partly consumed from both ends"][shape as usize];
        format!("exact-size iterator over {n} emplacables of {} ({name}, {s}), yielding {idx:?}, to {}", std::any::type_name::<E>(), dests[dest as usize])
    });
    let other: Vec<E> = (0..2).map(|i| E::make(80000 + i)).collect();
    let mut go = |it: &mut dyn ExactSizeIterator<Item = Emplacable<E, C>>| -> R {
        let e = Emplacable::from_iter(it);
        match dest {
            2 => judge(&emplacable::box_new_with(e), &idx, &[]),
            3 => judge(&Vec::from(e), &idx, &[]),
            4 => judge(&Rc::from(e), &idx, &[]),
            5 => judge(&Arc::from(e), &idx, &[]),
            d => {
                let mut v: UnsizedVec<[E]> = UnsizedVec::new();
                let before: Vec<Val> = other.iter().map(obs_elem).collect();
                v.push_with(Vec::from_iter(other).into());
                if d == 6 {
                    v.push_with(e);
                } else {
                    v.insert_with(0, e);
                }
                let (new, old) = if d == 6 { (1, 0) } else { (0, 1) };
                ensure!(v.len() == 2, "{} elements after adding one to one", v.len());
                let o: Vec<Val> = v[old].iter().map(obs_elem).collect();
                same("the element there before", &o, &before)?;
                judge(&v[new], &idx, &[])
            }
        }
    };
    match shape {
        0 => go(&mut items.into_iter())?,
        1 => go(&mut items.into_iter().rev())?,
        2 => go(&mut items.into_iter().take(a))?,
        3 => go(&mut items.into_iter().skip(a).take(b))?,
        _ => {
            let mut it = items.into_iter();
            for _ in 0..a {
                drop(it.next());
            }
            for _ in 0..b {
                drop(it.next_back());
            }
            go(&mut it)?
        }
    }
    no_errors()
}

fn plain<E: Elem>(src: &mut Src, st: &mut Stats) -> R {
    match src.below(3) {
        0 => into_plain::<E, _>(src, st, "value", <Emplacable<E, _> as From<E>>::from),
        1 => into_plain::<E, _>(src, st, "box", |e| <Emplacable<E, _> as From<Box<E>>>::from(Box::new(e))),
        _ => into_plain::<E, _>(src, st, "hand-made", |e| hand_made(Box::new(e))),
    }
}

fn any<F: Family>(src: &mut Src, st: &mut Stats) -> R {
    if src.bool(1, 2) {
        into_unsized::<F, _>(src, st, "box", <Emplacable<F::T, _> as From<Box<F::T>>>::from)
    } else {
        into_unsized::<F, _>(src, st, "hand-made", hand_made)
    }
}

/// References, cloned or copied into the destination.
fn refs(src: &mut Src, st: &mut Stats) -> R {
    let n = src.below(7) as usize;
    let kind = src.below(6);
    let words: Vec<String> = (0..n)
        .map(|i| {
            let l = [0, 1, 3, 7, 12, 33][src.below(6) as usize];
            (0..l).map(|j| [b'a', b'/', b'0', b'.', b'/', b'.', b'Z'][(i + j) % 7] as char).collect::<String>() + ["", "\u{e9}", "\u{1f600}"][i % 3]
        })
        .collect();
    trace(|| format!("references to {words:?} (kind {kind})"));
    let by_extend = src.bool(1, 2);
    st.transfers += n as u32;
    macro_rules! go {
        ($t:ty, $list:expr, $to:expr) => {{
            let items: Vec<_> = $list.map(|x| <Emplacable<$t, _> as From<_>>::from(x)).collect();
            let lo = src.below(n as u32 + 1) as usize;
            let it = Odd { it: items.into_iter(), len: n, hint: (lo, None) };
            let v: UnsizedVec<$t> = if by_extend {
                let mut v = UnsizedVec::new();
                v.extend(it);
                v
            } else {
                it.collect()
            };
            ensure!(v.len() == n, "{n} references became {} elements", v.len());
            for (i, w) in words.iter().enumerate() {
                let x: &$t = &v[i];
                ensure!($to(x) == w.as_bytes(), "element {i} is {x:?}, should be {w:?}");
            }
        }};
    }
    match kind {
        0 => go!(str, words.iter().map(|w| w.as_str()), |x: &str| x.as_bytes().to_vec()),
        1 => go!([u8], words.iter().map(|w| w.as_bytes()), |x: &[u8]| x.to_vec()),
        2 => {
            let c: Vec<CString> = words.iter().map(|w| CString::new(w.as_str()).unwrap()).collect();
            go!(CStr, c.iter().map(|w| w.as_c_str()), |x: &CStr| x.to_bytes().to_vec())
        }
        3 => go!(OsStr, words.iter().map(|w| OsStr::new(w)), |x: &OsStr| x.as_encoded_bytes().to_vec()),
        4 => go!(Path, words.iter().map(|w| Path::new(w)), |x: &Path| x.as_os_str().as_encoded_bytes().to_vec()),
        _ => go!([u8], words.iter().map(|w| w.as_bytes().to_vec()), |x: &[u8]| x.to_vec()),
    }
    no_errors()
}

pub fn streams(src: &mut Src, st: &mut Stats) -> R {
    EXPECT.with(|e| e.set((false, 0)));
    for _ in 0..src.range(1, 2) {
        if src.exhausted() {
            break;
        }
        src.span();
        st.extra_steps += 1;
        match src.below(16) {
            0 => plain::<u64>(src, st)?,
            1 => plain::<[u8; 3]>(src, st)?,
            2 | 3 => plain::<Tracked>(src, st)?,
            4 => plain::<A64>(src, st)?,
            5 => plain::<()>(src, st)?,
            6 => plain::<ZTok>(src, st)?,
            7 => any::<SizedF<u64>>(src, st)?,
            8 => any::<SliceF<u8>>(src, st)?,
            9 => any::<SliceF<Tracked>>(src, st)?,
            10 => any::<SliceF<A32>>(src, st)?,
            11 => any::<StrF>(src, st)?,
            12 => any::<DynF>(src, st)?,
            13 => match src.below(3) {
                0 => any::<TailDynF>(src, st)?,
                1 => any::<TailSliceF<u8>>(src, st)?,
                _ => any::<OsStrF>(src, st)?,
            },
            14 => any::<SizedF<Tracked>>(src, st)?,
            _ => refs(src, st)?,
        }
    }
    Ok(())
}
