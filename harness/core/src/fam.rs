//! Element families: how to make, observe, change and emplace values of each vector element type.

use crate::elems::*;
use crate::src::{Src, mix};
use crate::alloc::scope;
use emplacable::{Emplacable, EmplacableFn, Emplacer, box_new_with};
use std::ffi::{CStr, CString, OsStr, OsString};
use std::os::unix::ffi::OsStringExt;
use std::marker::PhantomData;
use std::mem;
use std::path::{Path, PathBuf};
use unsized_vec::UnsizedVec;

/// Receiver of an `Emplacable` whose closure type only the source knows.
pub trait Sink<T: ?Sized> {
    type Out;
    fn take<G: EmplacableFn<T>>(self, e: Emplacable<T, G>) -> Self::Out;
}

/// The three storage strategies, as documented on `UnsizedVec`.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Strat {
    Sized,
    Packed,
    Padded,
}

pub trait Family: 'static {
    type T: ?Sized + 'static;
    const NAME: &'static str;
    const STRAT: Strat;
    /// Static alignment, when there is one.
    const ALIGN: usize;
    /// Size of elements, when static.
    const SIZE: Option<usize> = None;
    const TOKENS: bool = false;

    fn spec(src: &mut Src) -> Spec;
    fn make(s: &Spec) -> Box<Self::T>;
    fn obs(t: &Self::T) -> Val;
    fn mutate(t: &mut Self::T, salt: u8);
    fn mutate_val(v: &mut Val, salt: u8) {
        for b in &mut v.bytes {
            *b ^= salt;
        }
    }

    /// `push_unsize` where a sized source exists for this spec; `out` receives the value's observation.
    /// Returns false when there is none.
    fn push_unsize(_v: &mut UnsizedVec<Self::T>, _s: &Spec, _out: &mut Option<Val>) -> bool {
        false
    }
    fn insert_unsize(_v: &mut UnsizedVec<Self::T>, _i: usize, _s: &Spec, _out: &mut Option<Val>) -> bool {
        false
    }

    /// Number of family-specific ways to build an `Emplacable` (beyond Box and with_emplacable_for).
    const SOURCES: u32 = 0;
    /// `how < SOURCES`. `out` receives the observation of the value (token ids of clones excepted).
    fn emplace<K: Sink<Self::T>>(_how: u32, _s: &Spec, _out: &mut Option<Val>, _k: K) -> Option<K::Out> {
        None
    }
    /// Whether source `how` copies or clones (so token ids are not known beforehand).
    fn source_name(_how: u32) -> &'static str {
        ""
    }

    /// Build a vector by conversion (`From<Vec>`, `unsize`); kind-specific.
    fn convert(_src: &mut Src) -> Option<(UnsizedVec<Self::T>, Vec<Val>, &'static str)> {
        None
    }
    /// `Emplacable::get` for sized families, `None` otherwise.
    fn get<G: EmplacableFn<Self::T>>(e: Emplacable<Self::T, G>) -> Result<Val, Emplacable<Self::T, G>> {
        Err(e)
    }
    /// Round trip through `Vec` for sized families; must keep the storage.
    fn via_vec(v: UnsizedVec<Self::T>) -> Result<UnsizedVec<Self::T>, UnsizedVec<Self::T>> {
        Err(v)
    }
    /// Sources that clone, copy or compose; used where only the payload is compared.
    const XSOURCES: &'static [X] = &[];
    fn emplace_x<K: Sink<Self::T>>(_how: u32, _s: &Spec, _out: &mut Option<Val>, _k: K) -> Option<K::Out> {
        None
    }
    /// Destinations only this family has.
    const DESTS: &'static [&'static str] = &[];
    fn deliver<G: EmplacableFn<Self::T>>(e: Emplacable<Self::T, G>, _n: u32) -> Result<Val, Emplacable<Self::T, G>> {
        Err(e)
    }
}

pub struct X {
    pub name: &'static str,
    /// the value is a clone: its tokens are not the source's
    pub clones: bool,
    /// forgetting the emplacable may leave memory of its parts behind
    pub parts: bool,
}
const fn x(name: &'static str, clones: bool, parts: bool) -> X {
    X { name, clones, parts }
}

/// Per element type: further ways to emplace a slice of it.
pub trait SliceExtra: Elem + Clone {
    fn str_bytes<K: Sink<[Self]>>(_s: &Spec, _out: &mut Option<Val>, _k: K) -> Option<K::Out> {
        None
    }
}
impl SliceExtra for u8 {
    fn str_bytes<K: Sink<[u8]>>(s: &Spec, out: &mut Option<Val>, k: K) -> Option<K::Out> {
        let t = text(s);
        *out = Some(obs_slice(t.as_bytes()));
        Some(match s.seed % 3 {
            0 => k.take(<Emplacable<str, _> as From<&str>>::from(&t).into()),
            1 => k.take(<Emplacable<str, _> as From<Box<str>>>::from(t.into_boxed_str()).into()),
            _ => k.take(hand_made(t.into_boxed_str()).into()),
        })
    }
}
impl SliceExtra for u32 {}
impl SliceExtra for Tracked {}
impl SliceExtra for ZTok {}
impl SliceExtra for A32 {}
impl SliceExtra for () {}

/// Per element type: further ways to emplace one.
pub trait SizedExtra: Elem {
    const SX: &'static [X] = &[];
    fn extra<K: Sink<Self>>(_how: u32, _s: &Spec, _out: &mut Option<Val>, _k: K) -> Option<K::Out> {
        None
    }
}
impl SizedExtra for [u8; 3] {
    const SX: &'static [X] = &[x("[Emplacable<u8>;3]", false, false), x("[hand-made;3]", false, true)];
    fn extra<K: Sink<[u8; 3]>>(how: u32, s: &Spec, out: &mut Option<Val>, k: K) -> Option<K::Out> {
        let a = <[u8; 3]>::make(s.seed);
        *out = Some(obs_elem(&a));
        Some(match how {
            0 => k.take(a.map(<Emplacable<u8, _> as From<u8>>::from).into()),
            _ => k.take(a.map(|b| hand_made(Box::new(b))).into()),
        })
    }
}
impl SizedExtra for u64 {}
impl SizedExtra for Tracked {}
impl SizedExtra for A64 {}
impl SizedExtra for Z4096 {}
impl SizedExtra for () {}
impl SizedExtra for ZTok {}

/// An iterator whose `len` and `size_hint` may lie and whose `next` may panic.
pub struct Odd<I> {
    pub it: I,
    pub len: usize,
    pub hint: (usize, Option<usize>),
}
impl<I: Iterator> Iterator for Odd<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        step(ITER);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
impl<I: Iterator> ExactSizeIterator for Odd<I> {
    fn len(&self) -> usize {
        self.len
    }
}

pub fn small_seed(src: &mut Src) -> u32 {
    src.below(1 << 16)
}

thread_local! {
    static HANDS: std::cell::Cell<[u32; 3]> = const { std::cell::Cell::new([0; 3]) };
}
fn hand_ended(how: usize) {
    HANDS.with(|h| {
        let mut a = h.get();
        a[how] += 1;
        h.set(a);
    })
}
/// How many hand-made emplacables were written out, told to drop, and told nothing, since the last call.
pub fn hands_ended() -> [u32; 3] {
    HANDS.with(|h| h.take())
}

/// An `Emplacable` written by hand, following the documented protocol; panics on request before
/// calling the emplacer, or inside the inner closure.
pub fn hand_made<T: ?Sized + 'static>(b: Box<T>) -> Emplacable<T, impl EmplacableFn<T>> {
    let closure = move |em: &mut Emplacer<'_, T>| {
        step(EMPL);
        let layout = std::alloc::Layout::for_value(&*b);
        let meta = std::ptr::metadata(&*b as *const T);
        let mut slot = Some(b);
        let f = unsafe { em.into_fn() };
        f(layout, meta, &mut |p| {
            step(EMPL);
            let b = slot.take().expect("inner closure called twice");
            if p.is_null() {
                hand_ended(1);
                drop(b);
            } else {
                hand_ended(0);
                if p.addr() % layout.align() != 0 {
                    note_error(format!("an emplacer asked for a value with layout {layout:?} to be written to {p:p}"));
                }
                unsafe {
                    let raw = Box::into_raw(b);
                    std::ptr::copy_nonoverlapping(raw.cast::<u8>(), p.cast::<u8>(), layout.size());
                    drop(Box::from_raw(raw as *mut mem::ManuallyDrop<T>));
                }
            }
        });
        // declined: the value is forgotten, its memory is not
        if let Some(b) = slot {
            hand_ended(2);
            drop(unsafe { Box::from_raw(Box::into_raw(b) as *mut mem::ManuallyDrop<T>) });
        }
    };
    unsafe { Emplacable::from_fn(closure) }
}

// ---------------------------------------------------------------- sized

pub struct SizedF<E>(PhantomData<E>);

pub trait Named {
    const NAME: &'static str;
}
macro_rules! named {
    ($($t:ty => $n:literal;)*) => {$(impl Named for $t { const NAME: &'static str = $n; })*};
}
named! {
    u8 => "u8"; u32 => "u32"; u64 => "u64"; [u8; 3] => "[u8;3]"; () => "()"; Tracked => "Tracked";
    ZTok => "ZTok"; A64 => "align64"; A32 => "align32"; Z4096 => "zero-sized align4096"; Pair => "Pair";
}

pub fn obs_elem<E: Elem>(e: &E) -> Val {
    let mut v = Val::empty(0, mem::size_of::<E>(), mem::align_of::<E>());
    v.len = 1;
    e.obs(&mut v);
    v
}

impl<E: SizedExtra + Named> Family for SizedF<E> {
    type T = E;
    const NAME: &'static str = E::NAME;
    const STRAT: Strat = Strat::Sized;
    const ALIGN: usize = mem::align_of::<E>();
    const SIZE: Option<usize> = Some(mem::size_of::<E>());
    const TOKENS: bool = E::TOKENS;

    fn spec(src: &mut Src) -> Spec {
        Spec { kind: 0, len: 1, seed: small_seed(src) }
    }
    fn make(s: &Spec) -> Box<E> {
        Box::new(E::make(s.seed))
    }
    fn obs(t: &E) -> Val {
        obs_elem(t)
    }
    fn mutate(t: &mut E, salt: u8) {
        t.mutate(salt)
    }
    const SOURCES: u32 = 1;
    fn source_name(_: u32) -> &'static str {
        "value"
    }
    fn emplace<K: Sink<E>>(_how: u32, s: &Spec, out: &mut Option<Val>, k: K) -> Option<K::Out> {
        let e = E::make(s.seed);
        *out = Some(obs_elem(&e));
        Some(k.take(<Emplacable<E, _> as From<E>>::from(e)))
    }
    fn convert(src: &mut Src) -> Option<(UnsizedVec<E>, Vec<Val>, &'static str)> {
        let (v, m) = plain_vec::<E>(src);
        let mut v: UnsizedVec<E> = v.into();
        // a vector that came from a Vec reports the Vec's own figures
        if v.len() != m.len() {
            note_error("From<Vec>: wrong len".into());
        }
        v = UnsizedVec::from(Vec::from(v));
        Some((v, m, "From<Vec>"))
    }
    const XSOURCES: &'static [X] = E::SX;
    fn emplace_x<K: Sink<E>>(how: u32, s: &Spec, out: &mut Option<Val>, k: K) -> Option<K::Out> {
        E::extra(how, s, out, k)
    }
    const DESTS: &'static [&'static str] = &["get", "Vec (collect)", "Vec (extend)", "array of one"];
    fn deliver<G: EmplacableFn<E>>(e: Emplacable<E, G>, n: u32) -> Result<Val, Emplacable<E, G>> {
        Ok(match n {
            0 => {
                let x = scope(|| e.get());
                obs_elem(&x)
            }
            1 => {
                let v: Vec<E> = scope(|| std::iter::once(e).collect());
                if v.len() != 1 {
                    note_error(format!("collecting one emplacable gives {} values", v.len()));
                }
                obs_elem(&v[0])
            }
            2 => {
                let mut v = vec![E::make(1), E::make(2)];
                scope(|| v.extend(std::iter::once(e)));
                if v.len() != 3 {
                    note_error(format!("extending by one emplacable gives {} values", v.len()));
                }
                for (i, x) in v.iter().enumerate().take(2) {
                    let _ = (i, obs_elem(x));
                }
                obs_elem(&v[2])
            }
            _ => {
                let a: Emplacable<[E; 1], _> = [e].into();
                let b: Box<[E; 1]> = scope(|| box_new_with(a));
                obs_elem(&b[0])
            }
        })
    }
    fn get<G: EmplacableFn<E>>(e: Emplacable<E, G>) -> Result<Val, Emplacable<E, G>> {
        let x = e.get();
        Ok(obs_elem(&x))
    }
    fn via_vec(v: UnsizedVec<E>) -> Result<UnsizedVec<E>, UnsizedVec<E>> {
        let len = v.len();
        let cap = v.capacity();
        let p = v.get(0).map(|p| p as *const E as usize);
        let w: Vec<E> = v.into();
        if w.len() != len || w.capacity() != cap {
            note_error(format!("Vec::from: len {} cap {} instead of {len} {cap}", w.len(), w.capacity()));
        }
        if let Some(p) = p {
            if w.as_ptr() as usize != p {
                note_error("Vec::from moved the elements".into());
            }
        }
        let p = w.as_ptr() as usize;
        let v: UnsizedVec<E> = w.into();
        if v.len() != len || v.capacity() != cap || v.get(0).is_some_and(|q| q as *const E as usize != p) {
            note_error("UnsizedVec::from(Vec) moved the elements or changed len/capacity".into());
        }
        Ok(v)
    }
}

/// A `Vec` of elements with some spare capacity, and the model of it.
pub fn plain_vec<E: Elem>(src: &mut Src) -> (Vec<E>, Vec<Val>) {
    let n = src.below(7);
    let spare = if src.bool(1, 2) { src.below(9) } else { 0 };
    let seed = small_seed(src);
    let mut v: Vec<E> = Vec::with_capacity((n + spare) as usize);
    for i in 0..n {
        v.push(E::make(mix((seed as u64) << 8 | i as u64) as u32));
    }
    let m = v.iter().map(obs_elem).collect();
    (v, m)
}

// ---------------------------------------------------------------- slices

pub struct SliceF<E>(PhantomData<E>);

pub fn elem_seed(s: &Spec, i: usize) -> u32 {
    mix(((s.seed as u64) << 16) | i as u64) as u32
}
pub fn obs_slice<E: Elem>(t: &[E]) -> Val {
    let mut v = Val::empty(0, mem::size_of_val(t), mem::align_of::<E>());
    v.len = t.len();
    for e in t {
        e.obs(&mut v);
    }
    v
}
pub fn make_vec<E: Elem>(s: &Spec, spare: usize) -> Vec<E> {
    let mut v = Vec::with_capacity(s.len as usize + spare);
    for i in 0..s.len as usize {
        v.push(E::make(elem_seed(s, i)));
    }
    v
}
pub fn make_arr<E: Elem, const N: usize>(s: &Spec) -> [E; N] {
    std::array::from_fn(|i| E::make(elem_seed(s, i)))
}

/// Mostly short; now and then beyond the ranges of u8, a page and u16 (only for small elements).
pub fn slice_len(src: &mut Src, long: bool) -> u16 {
    (match src.weighted(&[1600, 640, 160, 8, 1]) {
        0 => src.below(6),
        1 => src.below(20),
        2 => src.below(90),
        3 => src.below(300),
        _ if !long => 250 + src.below(20),
        _ => match src.below(5) {
            0 => 250 + src.below(20),
            1 => 4090 + src.below(12),
            2 | 3 => src.below(9000),
            _ => 65500 + src.below(36),
        },
    }) as u16
}

/// Runs the body with an array type of the spec's length, if there is one.
macro_rules! with_arr {
    ($s:expr, $E:ty, $a:ident => $body:expr) => {
        match $s.len {
            0 => { let $a: [$E; 0] = make_arr($s); $body; true }
            1 => { let $a: [$E; 1] = make_arr($s); $body; true }
            2 => { let $a: [$E; 2] = make_arr($s); $body; true }
            3 => { let $a: [$E; 3] = make_arr($s); $body; true }
            5 => { let $a: [$E; 5] = make_arr($s); $body; true }
            _ => false,
        }
    };
}

/// Ways to make an `Emplacable<[E]>`.
pub fn emplace_slice<E: Elem, K: Sink<[E]>>(how: u32, s: &Spec, out: &mut Option<Val>, k: K) -> Option<K::Out> {
    match how {
        // Vec, with spare capacity
        0 => {
            let v: Vec<E> = make_vec(s, (s.seed % 5) as usize);
            *out = Some(obs_slice(&v));
            Some(k.take(v.into()))
        }
        // exact-size iterator over emplacables
        1 => {
            let v: Vec<E> = make_vec(s, 0);
            *out = Some(obs_slice(&v));
            Some(k.take(Emplacable::from_iter(v.into_iter().map(<Emplacable<E, _> as From<E>>::from))))
        }
        // array of emplacables, directly to a slice
        2 => {
            let mut k = Some(k);
            let mut r = None;
            with_arr!(s, E, a => {
                *out = Some(obs_slice(&a));
                let a = a.map(<Emplacable<E, _> as From<E>>::from);
                let e: Emplacable<[E], _> = a.into();
                r = Some(k.take().unwrap().take(e))
            });
            r
        }
        // emplacable of an array, converted or unsized to a slice
        _ => {
            let mut k = Some(k);
            let mut r = None;
            with_arr!(s, E, a => {
                *out = Some(obs_slice(&a));
                if s.seed % 2 == 0 {
                    let e = <Emplacable<_, _> as From<_>>::from(a);
                    let e: Emplacable<[E], _> = e.into();
                    r = Some(k.take().unwrap().take(e))
                } else {
                    let e = <Emplacable<_, _> as From<_>>::from(a);
                    r = Some(k.take().unwrap().take(e.unsize::<[E]>()))
                }
            });
            r
        }
    }
}

impl<E: SliceExtra + Named> Family for SliceF<E> {
    type T = [E];
    const NAME: &'static str = const_format_slice::<E>();
    const STRAT: Strat = Strat::Packed;
    const ALIGN: usize = mem::align_of::<E>();
    const TOKENS: bool = E::TOKENS;

    fn spec(src: &mut Src) -> Spec {
        let len = slice_len(src, !E::TOKENS && mem::size_of::<E>() <= 4);
        Spec { kind: 0, len, seed: small_seed(src) }
    }
    fn make(s: &Spec) -> Box<[E]> {
        make_vec(s, 0).into_boxed_slice()
    }
    fn obs(t: &[E]) -> Val {
        obs_slice(t)
    }
    fn mutate(t: &mut [E], salt: u8) {
        for e in t {
            e.mutate(salt)
        }
    }
    fn push_unsize(v: &mut UnsizedVec<[E]>, s: &Spec, out: &mut Option<Val>) -> bool {
        with_arr!(s, E, a => { *out = Some(obs_slice(&a)); crate::alloc::scope(|| v.push_unsize(a)) })
    }
    fn insert_unsize(v: &mut UnsizedVec<[E]>, i: usize, s: &Spec, out: &mut Option<Val>) -> bool {
        with_arr!(s, E, a => { *out = Some(obs_slice(&a)); crate::alloc::scope(|| v.insert_unsize(i, a)) })
    }
    const SOURCES: u32 = 4;
    fn source_name(how: u32) -> &'static str {
        ["Vec", "from_iter", "[Emplacable;N]", "Emplacable<[T;N]>"][how as usize]
    }
    fn emplace<K: Sink<[E]>>(how: u32, s: &Spec, out: &mut Option<Val>, k: K) -> Option<K::Out> {
        emplace_slice(how, s, out, k)
    }
    const XSOURCES: &'static [X] = &[
        x("&[T]", true, false),
        x("from_iter(hand-made)", false, true),
        x("[hand-made;3]", false, true),
        x("str to bytes", false, false),
        x("from_iter(custom iterator)", false, true),
        x("Box<[T;3]> to slice", false, false),
    ];
    fn emplace_x<K: Sink<[E]>>(how: u32, s: &Spec, out: &mut Option<Val>, k: K) -> Option<K::Out> {
        match how {
            0 => {
                let v: Vec<E> = make_vec(s, 0);
                *out = Some(obs_slice(&v));
                Some(k.take(<Emplacable<[E], _> as From<&[E]>>::from(&v)))
            }
            1 => {
                let v: Vec<E> = make_vec(s, 1);
                *out = Some(obs_slice(&v));
                Some(k.take(Emplacable::from_iter(v.into_iter().map(|x| hand_made(Box::new(x))))))
            }
            2 => {
                let s = Spec { len: 3, ..s.clone() };
                let a: [E; 3] = make_arr(&s);
                *out = Some(obs_slice(&a));
                let e: Emplacable<[E], _> = a.map(|x| hand_made(Box::new(x))).into();
                Some(k.take(e))
            }
            3 => E::str_bytes(s, out, k),
            4 => {
                let v: Vec<E> = make_vec(s, 0);
                *out = Some(obs_slice(&v));
                let n = v.len();
                let it = v.into_iter().map(<Emplacable<E, _> as From<E>>::from);
                Some(k.take(Emplacable::from_iter(Odd { it, len: n, hint: (n, Some(n)) })))
            }
            _ => {
                let s = Spec { len: 3, ..s.clone() };
                let b: Box<[E; 3]> = Box::new(make_arr(&s));
                *out = Some(obs_slice(&*b));
                let e = <Emplacable<[E; 3], _> as From<Box<[E; 3]>>>::from(b);
                let e: Emplacable<[E], _> = e.into();
                Some(k.take(e))
            }
        }
    }
    const DESTS: &'static [&'static str] = &["into_vec", "Vec::from"];
    fn deliver<G: EmplacableFn<[E]>>(e: Emplacable<[E], G>, n: u32) -> Result<Val, Emplacable<[E], G>> {
        let v = if n == 0 { scope(|| e.into_vec()) } else { scope(|| Vec::from(e)) };
        Ok(obs_slice(&v))
    }
    fn convert(src: &mut Src) -> Option<(UnsizedVec<[E]>, Vec<Val>, &'static str)> {
        fn go<E: Elem, const N: usize>(src: &mut Src) -> (UnsizedVec<[E]>, Vec<Val>) {
            let n = src.below(6);
            let spare = if src.bool(1, 2) { src.below(6) } else { 0 };
            let seed = small_seed(src);
            let mut v: Vec<[E; N]> = Vec::with_capacity((n + spare) as usize);
            for i in 0..n {
                let s = Spec { kind: 0, len: N as u16, seed: mix((seed as u64) << 8 | i as u64) as u32 };
                v.push(make_arr(&s));
            }
            let m = v.iter().map(|a| obs_slice(a)).collect();
            let v: UnsizedVec<[E; N]> = v.into();
            (v.unsize(), m)
        }
        let (v, m) = match src.below(4) {
            0 => go::<E, 1>(src),
            1 => go::<E, 3>(src),
            2 => go::<E, 0>(src),
            _ => go::<E, 2>(src),
        };
        Some((v, m, "unsize"))
    }
}

const fn const_format_slice<E: Named>() -> &'static str {
    // const string concatenation: "[" NAME "]"
    struct C<E>(PhantomData<E>);
    impl<E: Named> C<E> {
        const BYTES: [u8; 32] = {
            let mut a = [0; 32];
            let n = E::NAME.as_bytes();
            a[0] = b'[';
            let mut i = 0;
            while i < n.len() {
                a[i + 1] = n[i];
                i += 1;
            }
            a[n.len() + 1] = b']';
            a
        };
    }
    let all: &'static [u8; 32] = &C::<E>::BYTES;
    let (head, _) = all.split_at(E::NAME.len() + 2);
    match std::str::from_utf8(head) {
        Ok(s) => s,
        Err(_) => "?",
    }
}

// ---------------------------------------------------------------- strings

pub fn text(s: &Spec) -> String {
    const ALPHA: [&str; 16] = ["a", "B", "z", "0", " ", "é", "Ω", "語", "😀", "Q", "/", ".", "\0", "\n", "\u{301}", "\u{feff}"];
    let mut t = String::new();
    for i in 0..s.len as usize {
        t.push_str(ALPHA[byte_at(s.seed, i) as usize % ALPHA.len()]);
    }
    t
}
/// Bytes an operating system string may hold: not only UTF-8.
fn os_text(t: String, path: bool) -> OsString {
    let mut b = t.into_bytes();
    for x in &mut b {
        *x = match *x {
            b'Q' => 0xff,
            b'B' | b'z' | b'0' if path => b'/',
            b'a' | b' ' if path => b'.',
            x => x,
        };
    }
    OsString::from_vec(b)
}
fn obs_bytes(b: &[u8], len: usize) -> Val {
    let mut v = Val::empty(0, len, 1);
    v.len = len;
    v.bytes = b.to_vec();
    v
}
fn ascii_mutate(b: &mut [u8], salt: u8) {
    if salt % 2 == 0 { b.make_ascii_uppercase() } else { b.make_ascii_lowercase() }
}

macro_rules! text_family {
    ($F:ident, $T:ty, $name:literal, $strat:expr, $make:expr, $obs:expr, $mutate:expr, $own:ty, $($dn:literal => |$e:ident| $d:expr),+) => {
        pub struct $F;
        impl Family for $F {
            type T = $T;
            const NAME: &'static str = $name;
            const STRAT: Strat = $strat;
            const ALIGN: usize = 1;
            fn spec(src: &mut Src) -> Spec {
                let len = slice_len(src, true);
                Spec { kind: 0, len, seed: small_seed(src) }
            }
            fn make(s: &Spec) -> Box<$T> {
                let f: fn(String) -> Box<$T> = $make;
                f(text(s))
            }
            fn obs(t: &$T) -> Val {
                let f: fn(&$T) -> Val = $obs;
                let v = f(t);
                if !matches!($name, "OsStr" | "Path") && std::str::from_utf8(&v.bytes).is_err() {
                    note_error("text element is not the text that went in (invalid UTF-8)".into());
                }
                v
            }
            fn mutate(t: &mut $T, salt: u8) {
                let f: fn(&mut $T, u8) = $mutate;
                f(t, salt)
            }
            fn mutate_val(v: &mut Val, salt: u8) {
                if $name != "CStr" {
                    ascii_mutate(&mut v.bytes, salt)
                }
            }
            const SOURCES: u32 = 1;
            fn source_name(_: u32) -> &'static str {
                "reference"
            }
            fn emplace<K: Sink<$T>>(_how: u32, s: &Spec, out: &mut Option<Val>, k: K) -> Option<K::Out> {
                let b = Self::make(s);
                *out = Some(Self::obs(&b));
                Some(k.take(<Emplacable<$T, _> as From<&$T>>::from(&*b)))
            }
            const DESTS: &'static [&'static str] = &[$($dn),+];
            fn deliver<G: EmplacableFn<$T>>(e: Emplacable<$T, G>, n: u32) -> Result<Val, Emplacable<$T, G>> {
                let mut i = 0;
                $(
                    if n == i {
                        let $e = e;
                        return Ok($d);
                    }
                    i += 1;
                )+
                let _ = i;
                Err(e)
            }
        }
    };
}

text_family!(StrF, str, "str", Strat::Packed, |s| s.into_boxed_str(), |t| obs_bytes(t.as_bytes(), t.len()),
    |t, salt| if salt % 2 == 0 { t.make_ascii_uppercase() } else { t.make_ascii_lowercase() }, String,
    "String::from" => |e| { let s = scope(|| String::from(e)); Self::obs(&s) },
    "into_string" => |e| { let s = scope(|| e.into_string()); Self::obs(&s) },
    "bytes (boxed)" => |e| {
        let e: Emplacable<[u8], _> = e.into();
        let b: Box<[u8]> = scope(|| box_new_with(e));
        match std::str::from_utf8(&b) { Ok(s) => Self::obs(s), Err(_) => obs_bytes(&b, b.len()) }
    },
    "bytes (Vec)" => |e| {
        let e: Emplacable<[u8], _> = e.into();
        let b: Vec<u8> = scope(|| e.into_vec());
        match std::str::from_utf8(&b) { Ok(s) => Self::obs(s), Err(_) => obs_bytes(&b, b.len()) }
    });
text_family!(CStrF, CStr, "CStr", Strat::Packed, |s| CString::new(s.replace('\0', "\u{1}")).unwrap().into_boxed_c_str(),
    |t| { let mut v = obs_bytes(t.to_bytes(), mem::size_of_val(t)); if t.to_bytes_with_nul().last() != Some(&0) || t.to_bytes_with_nul().len() != v.size { note_error("CStr without its nul".into()) } v.len = v.size; v },
    |_, _| (), CString, "CString" => |e| { let s = scope(|| CString::from(e)); Self::obs(&s) });
text_family!(OsStrF, OsStr, "OsStr", Strat::Padded, |s| os_text(s, false).into_boxed_os_str(),
    |t| obs_bytes(t.as_encoded_bytes(), mem::size_of_val(t)),
    |t, salt| if salt % 2 == 0 { t.make_ascii_uppercase() } else { t.make_ascii_lowercase() }, OsString, "OsString" => |e| { let s = scope(|| OsString::from(e)); Self::obs(&s) });
text_family!(PathF, Path, "Path", Strat::Padded, |s| PathBuf::from(os_text(s, true)).into_boxed_path(),
    |t| obs_bytes(t.as_os_str().as_encoded_bytes(), mem::size_of_val(t)),
    |t, salt| if salt % 2 == 0 { t.as_mut_os_str().make_ascii_uppercase() } else { t.as_mut_os_str().make_ascii_lowercase() }, PathBuf, "PathBuf" => |e| { let s = scope(|| PathBuf::from(e)); Self::obs(&s) });

// ---------------------------------------------------------------- trait objects

pub struct DynF;

pub fn obs_dyn(t: &dyn Obj) -> Val {
    let mut v = Val::empty(t.kind(), mem::size_of_val(t), mem::align_of_val(t));
    v.len = 1;
    t.observe(&mut v);
    v
}
pub fn dyn_spec(src: &mut Src) -> Spec {
    let kind = src.weighted(&OBJ_WEIGHTS) as u16;
    Spec { kind, len: 1, seed: small_seed(src) }
}

impl Family for DynF {
    type T = dyn Obj;
    const NAME: &'static str = "dyn";
    const STRAT: Strat = Strat::Padded;
    const ALIGN: usize = 0;
    const TOKENS: bool = true;
    fn spec(src: &mut Src) -> Spec {
        dyn_spec(src)
    }
    fn make(s: &Spec) -> Box<dyn Obj> {
        with_obj_kind!(s.kind, S => Box::new(<S as Elem>::make(s.seed)) as Box<dyn Obj>)
    }
    fn obs(t: &dyn Obj) -> Val {
        obs_dyn(t)
    }
    fn mutate(t: &mut (dyn Obj + 'static), salt: u8) {
        t.change(salt)
    }
    fn push_unsize(v: &mut UnsizedVec<dyn Obj>, s: &Spec, out: &mut Option<Val>) -> bool {
        with_obj_kind!(s.kind, S => {
            let x = <S as Elem>::make(s.seed);
            *out = Some(obs_dyn(&x));
            crate::alloc::scope(|| v.push_unsize(x));
        });
        true
    }
    fn insert_unsize(v: &mut UnsizedVec<dyn Obj>, i: usize, s: &Spec, out: &mut Option<Val>) -> bool {
        with_obj_kind!(s.kind, S => {
            let x = <S as Elem>::make(s.seed);
            *out = Some(obs_dyn(&x));
            crate::alloc::scope(|| v.insert_unsize(i, x));
        });
        true
    }
    const SOURCES: u32 = 1;
    fn source_name(_: u32) -> &'static str {
        "Emplacable::unsize"
    }
    fn emplace<K: Sink<dyn Obj>>(_how: u32, s: &Spec, out: &mut Option<Val>, k: K) -> Option<K::Out> {
        with_obj_kind!(s.kind, S => {
            let x = <S as Elem>::make(s.seed);
            *out = Some(obs_dyn(&x));
            Some(k.take(<Emplacable<S, _> as From<S>>::from(x).unsize::<dyn Obj>()))
        })
    }
    const XSOURCES: &'static [X] = &[x("Box<S>, unsized", false, false), x("hand-made S, unsized", false, false)];
    fn emplace_x<K: Sink<dyn Obj>>(how: u32, s: &Spec, out: &mut Option<Val>, k: K) -> Option<K::Out> {
        with_obj_kind!(s.kind, S => {
            let x = Box::new(<S as Elem>::make(s.seed));
            *out = Some(obs_dyn(&*x));
            Some(if how == 0 {
                k.take(<Emplacable<S, _> as From<Box<S>>>::from(x).unsize::<dyn Obj>())
            } else {
                k.take(hand_made::<S>(x).unsize::<dyn Obj>())
            })
        })
    }
    fn convert(src: &mut Src) -> Option<(UnsizedVec<dyn Obj>, Vec<Val>, &'static str)> {
        let kind = src.weighted(&OBJ_WEIGHTS) as u16;
        with_obj_kind!(kind, S => {
            let (v, _) = plain_vec::<S>(src);
            let m: Vec<Val> = v.iter().map(|x| obs_dyn(x)).collect();
            let v: UnsizedVec<S> = v.into();
            Some((v.unsize(), m, "unsize"))
        })
    }
}

// ---------------------------------------------------------------- structs with unsized tails

pub struct TailSliceF<E>(PhantomData<E>);

fn obs_tail<E: Elem>(t: &Tail<[E]>) -> Val {
    check_addr(&t.head, "Tail.head");
    let mut v = Val::empty(0, mem::size_of_val(t), mem::align_of_val(t));
    v.len = t.tail.len();
    v.bytes.extend_from_slice(&t.head.to_le_bytes());
    for e in &t.tail {
        e.obs(&mut v);
    }
    v
}

macro_rules! with_tail {
    ($s:expr, $E:ty, $a:ident => $body:expr) => {
        with_arr!($s, $E, a => { let $a = Tail { head: $s.seed as u16, tail: a }; $body })
    };
}

impl<E: Elem + Named> Family for TailSliceF<E> {
    type T = Tail<[E]>;
    const NAME: &'static str = if E::TOKENS { "Tail<[Tracked]>" } else { "Tail<[u8]>" };
    const STRAT: Strat = Strat::Padded;
    const ALIGN: usize = 0;
    const TOKENS: bool = E::TOKENS;
    fn spec(src: &mut Src) -> Spec {
        let len = [0u16, 1, 2, 3, 5, 7, 9, 30][src.below(8) as usize];
        Spec { kind: 0, len, seed: small_seed(src) }
    }
    fn make(s: &Spec) -> Box<Tail<[E]>> {
        macro_rules! boxed {
            ($($n:literal)*) => { match s.len { $($n => Box::new(Tail { head: s.seed as u16, tail: make_arr::<E, $n>(s) }) as Box<Tail<[E]>>,)* _ => unreachable!() } };
        }
        boxed!(0 1 2 3 5 7 9 30)
    }
    fn obs(t: &Tail<[E]>) -> Val {
        obs_tail(t)
    }
    fn mutate(t: &mut Tail<[E]>, salt: u8) {
        t.head ^= u16::from_le_bytes([salt; 2]);
        for e in &mut t.tail {
            e.mutate(salt);
        }
    }
    fn push_unsize(v: &mut UnsizedVec<Tail<[E]>>, s: &Spec, out: &mut Option<Val>) -> bool {
        with_tail!(s, E, a => { *out = Some(obs_tail::<E>(&a)); crate::alloc::scope(|| v.push_unsize(a)) })
    }
    fn insert_unsize(v: &mut UnsizedVec<Tail<[E]>>, i: usize, s: &Spec, out: &mut Option<Val>) -> bool {
        with_tail!(s, E, a => { *out = Some(obs_tail::<E>(&a)); crate::alloc::scope(|| v.insert_unsize(i, a)) })
    }
    const SOURCES: u32 = 1;
    fn source_name(_: u32) -> &'static str {
        "Emplacable::unsize"
    }
    fn emplace<K: Sink<Tail<[E]>>>(_how: u32, s: &Spec, out: &mut Option<Val>, k: K) -> Option<K::Out> {
        let mut k = Some(k);
        let mut r = None;
        with_tail!(s, E, a => {
            *out = Some(obs_tail::<E>(&a));
            r = Some(k.take().unwrap().take(<Emplacable<_, _> as From<_>>::from(a).unsize::<Tail<[E]>>()))
        });
        r
    }
    fn convert(src: &mut Src) -> Option<(UnsizedVec<Tail<[E]>>, Vec<Val>, &'static str)> {
        let n = src.below(6);
        let spare = src.below(4);
        let seed = small_seed(src);
        let mut v: Vec<Tail<[E; 3]>> = Vec::with_capacity((n + spare) as usize);
        for i in 0..n {
            let s = Spec { kind: 0, len: 3, seed: mix((seed as u64) << 8 | i as u64) as u32 };
            v.push(Tail { head: s.seed as u16, tail: make_arr(&s) });
        }
        let m = v.iter().map(|a| obs_tail::<E>(a)).collect();
        let v: UnsizedVec<Tail<[E; 3]>> = v.into();
        Some((v.unsize(), m, "unsize"))
    }
}

pub struct TailDynF;

fn obs_tail_dyn(t: &Tail<dyn Obj>) -> Val {
    check_addr(&t.head, "Tail.head");
    let mut v = Val::empty(t.tail.kind(), mem::size_of_val(t), mem::align_of_val(t));
    v.len = 1;
    v.bytes.extend_from_slice(&t.head.to_le_bytes());
    t.tail.observe(&mut v);
    v
}

impl Family for TailDynF {
    type T = Tail<dyn Obj>;
    const NAME: &'static str = "Tail<dyn>";
    const STRAT: Strat = Strat::Padded;
    const ALIGN: usize = 0;
    const TOKENS: bool = true;
    fn spec(src: &mut Src) -> Spec {
        dyn_spec(src)
    }
    fn make(s: &Spec) -> Box<Tail<dyn Obj>> {
        with_obj_kind!(s.kind, S => Box::new(Tail { head: s.seed as u16, tail: <S as Elem>::make(s.seed) }) as Box<Tail<dyn Obj>>)
    }
    fn obs(t: &Tail<dyn Obj>) -> Val {
        obs_tail_dyn(t)
    }
    fn mutate(t: &mut Tail<dyn Obj + 'static>, salt: u8) {
        t.head ^= u16::from_le_bytes([salt; 2]);
        t.tail.change(salt)
    }
    const XSOURCES: &'static [X] = &[x("Tail<S>, unsized", false, false)];
    fn emplace_x<K: Sink<Tail<dyn Obj>>>(_how: u32, s: &Spec, out: &mut Option<Val>, k: K) -> Option<K::Out> {
        with_obj_kind!(s.kind, S => {
            let x = Tail { head: s.seed as u16, tail: <S as Elem>::make(s.seed) };
            *out = Some(obs_tail_dyn(&x));
            Some(k.take(<Emplacable<Tail<S>, _> as From<Tail<S>>>::from(x).unsize::<Tail<dyn Obj>>()))
        })
    }
}
