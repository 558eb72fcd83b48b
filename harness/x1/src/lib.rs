#![feature(allocator_api, ptr_metadata, unsized_fn_params)]
#![allow(internal_features)]
//! Comparison, hashing, formatting, serialisation and cloning against plain lists.

use serde::ser::{self, Serialize, SerializeSeq};
use std::cmp::Ordering;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::path::Path;
use unsized_vec::UnsizedVec;
use vhcore::elems::{self, A64, Elem, Tracked, ZTok, note_error};
use vhcore::fam::text;
use vhcore::machine::{EXPECT, R, Stats, guarded, trace};
use vhcore::src::{Src, mix};
use vhcore::{alloc, elems::Spec, ensure};

// ------------------------------------------------------------------ recorders

/// A hasher that remembers everything written to it, calls told apart.
#[derive(Default)]
pub struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        self.0.iter().fold(7, |h, &b| mix(h ^ b as u64))
    }
}
fn hash_of<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut h = Rec::default();
    t.hash(&mut h);
    h.0
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Seq(Option<usize>),
    End,
    Str(String),
    Num(u64),
    Bytes(Vec<u8>),
    Other(&'static str),
}
#[derive(Debug, PartialEq)]
struct Stop;
impl Display for Stop {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("stop")
    }
}
impl std::error::Error for Stop {}
impl ser::Error for Stop {
    fn custom<T: Display>(_: T) -> Self {
        Stop
    }
}
/// Records serde events; fails at event number `limit` and, should it be asked again, not after.
struct Tape {
    ev: Vec<Ev>,
    limit: usize,
    failed: bool,
}
impl Tape {
    fn put(&mut self, e: Ev) -> Result<(), Stop> {
        if self.ev.len() == self.limit && !self.failed {
            self.failed = true;
            return Err(Stop);
        }
        self.ev.push(e);
        Ok(())
    }
}
impl SerializeSeq for &mut Tape {
    type Ok = ();
    type Error = Stop;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Stop> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Stop> {
        self.put(Ev::End)
    }
}
macro_rules! other {
    ($($f:ident($($a:ident: $t:ty),*);)*) => {$(
        fn $f(self, $($a: $t),*) -> Result<(), Stop> { $(let _ = $a;)* self.put(Ev::Other(stringify!($f))) }
    )*};
}
macro_rules! never {
    ($($t:ident $f:ident($($a:ty),*);)*) => {$(
        fn $f(self, $(_: $a),*) -> Result<Self::$t, Stop> { Err(Stop) }
    )*};
}
impl ser::Serializer for &mut Tape {
    type Ok = ();
    type Error = Stop;
    type SerializeSeq = Self;
    type SerializeTuple = ser::Impossible<(), Stop>;
    type SerializeTupleStruct = ser::Impossible<(), Stop>;
    type SerializeTupleVariant = ser::Impossible<(), Stop>;
    type SerializeMap = ser::Impossible<(), Stop>;
    type SerializeStruct = ser::Impossible<(), Stop>;
    type SerializeStructVariant = ser::Impossible<(), Stop>;
    other! {
        serialize_bool(v: bool); serialize_i8(v: i8); serialize_i16(v: i16); serialize_i32(v: i32); serialize_i64(v: i64);
        serialize_f32(v: f32); serialize_f64(v: f64); serialize_char(v: char); serialize_none(); serialize_unit();
        serialize_unit_struct(n: &'static str); serialize_unit_variant(n: &'static str, i: u32, v: &'static str);
    }
    fn serialize_u8(self, v: u8) -> Result<(), Stop> {
        self.put(Ev::Num(v as u64))
    }
    fn serialize_u16(self, v: u16) -> Result<(), Stop> {
        self.put(Ev::Num(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<(), Stop> {
        self.put(Ev::Num(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<(), Stop> {
        self.put(Ev::Num(v))
    }
    fn serialize_str(self, v: &str) -> Result<(), Stop> {
        self.put(Ev::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Stop> {
        self.put(Ev::Bytes(v.to_vec()))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Stop> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Stop> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<(), Stop> {
        v.serialize(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Self, Stop> {
        self.put(Ev::Seq(len))?;
        Ok(self)
    }
    never! {
        SerializeTuple serialize_tuple(usize);
        SerializeTupleStruct serialize_tuple_struct(&'static str, usize);
        SerializeTupleVariant serialize_tuple_variant(&'static str, u32, &'static str, usize);
        SerializeMap serialize_map(Option<usize>);
        SerializeStruct serialize_struct(&'static str, usize);
        SerializeStructVariant serialize_struct_variant(&'static str, u32, &'static str, usize);
    }
}
fn tape<T: Serialize + ?Sized>(t: &T, limit: usize) -> (Vec<Ev>, bool) {
    let mut x = Tape { ev: Vec::new(), limit, failed: false };
    let ok = t.serialize(&mut x).is_ok();
    (x.ev, ok)
}

// ------------------------------------------------------------------ values

/// Something a boxed element can be made of, from a small space so that ties are common.
trait Cmp {
    type T: ?Sized;
    const NAME: &'static str;
    fn make(n: u32) -> Box<Self::T>;
    /// Further payload: `n` values are distinct for distinct n below this
    const KINDS: u32 = 6;
}
macro_rules! cmp_kinds {
    ($($F:ident $T:ty, $name:literal, $make:expr;)*) => {$(
        struct $F;
        impl Cmp for $F {
            type T = $T;
            const NAME: &'static str = $name;
            fn make(n: u32) -> Box<$T> {
                let f: fn(u32) -> Box<$T> = $make;
                f(n)
            }
        }
    )*};
}
fn word(n: u32) -> String {
    ["", "a", "ab", "b", "é", "aé語"][n as usize % 6].to_string()
}
cmp_kinds! {
    U64 u64, "u64", |n| Box::new([0, 1, 2, u64::MAX, 7, 1 << 40][n as usize % 6]);
    B3 [u8; 3], "[u8;3]", |n| Box::new([[0, 0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0], [255, 0, 0], [1, 1, 1]][n as usize % 6]);
    F64 f64, "f64", |n| Box::new([0.0, -0.0, 1.5, f64::NAN, -1.0, f64::INFINITY][n as usize % 6]);
    Unit (), "()", |_| Box::new(());
    Str str, "str", |n| word(n).into_boxed_str();
    SU8 [u8], "[u8]", |n| word(n).into_bytes().into_boxed_slice();
    SU32 [u32], "[u32]", |n| [vec![], vec![0], vec![0, 0], vec![1], vec![0, 1, 2], vec![7]][n as usize % 6].clone().into_boxed_slice();
    SF32 [f32], "[f32]", |n| [vec![], vec![0.0], vec![-0.0], vec![f32::NAN], vec![0.0, f32::NAN], vec![2.0, 1.0]][n as usize % 6].clone().into_boxed_slice();
    C CStr, "CStr", |n| CString::new(word(n)).unwrap().into_boxed_c_str();
    Os OsStr, "OsStr", |n| OsString::from(word(n)).into_boxed_os_str();
    Pa Path, "Path", |n| std::path::PathBuf::from(["", "a", "a/b", "b", "a/", "./a"][n as usize % 6]).into_boxed_path();
    Al A64, "align64", |n| Box::new(A64::make(n % 6));
    Tr Tracked, "Tracked", |n| Box::new(Tracked::new(n % 6));
}

/// A vector of the values, with a history that depends on `style`, and the list.
fn build<F: Cmp>(ns: &[u32], style: u32) -> (UnsizedVec<F::T>, Vec<Box<F::T>>) {
    let mut v: UnsizedVec<F::T> = match style % 4 {
        0 => UnsizedVec::new(),
        1 => UnsizedVec::with_capacity_bytes_align(ns.len() + style as usize % 9, (style as usize % 50) * (std::mem::size_of::<&F::T>() / 8 - 1), 16),
        2 => UnsizedVec::with_capacity(style as usize % 7),
        _ => UnsizedVec::default(),
    };
    match style % 3 {
        0 => {
            for &n in ns {
                v.push(*F::make(n));
            }
        }
        1 => {
            for &n in ns.iter().rev() {
                v.insert(0, *F::make(n));
            }
        }
        _ => {
            for &n in ns {
                v.push(*F::make(n.wrapping_add(1)));
                v.push(*F::make(n));
                let k = v.len() - 2;
                drop(v.remove_into(k));
            }
            v.shrink_to_fit();
        }
    }
    (v, ns.iter().map(|&n| F::make(n)).collect())
}

fn two_lists(src: &mut Src) -> (Vec<u32>, Vec<u32>) {
    let n = src.below(7) as usize;
    let a: Vec<u32> = (0..n).map(|_| src.below(6)).collect();
    let mut b = a.clone();
    match src.below(6) {
        0 => {}
        1 => {
            b.truncate(src.below(n as u32 + 1) as usize);
        }
        2 => {
            for _ in 0..src.range(1, 3) {
                b.push(src.below(6));
            }
        }
        3 if n > 0 => {
            let i = src.below(n as u32) as usize;
            b[i] = src.below(6);
            if src.bool(1, 3) {
                b.truncate(i + 1);
            }
        }
        4 if n > 1 => {
            let i = src.below(n as u32 - 1) as usize;
            b.swap(i, i + 1);
        }
        _ => b = (0..src.below(5)).map(|_| src.below(6)).collect(),
    }
    if src.bool(1, 2) { (a, b) } else { (b, a) }
}

fn refs<T: ?Sized>(l: &[Box<T>]) -> Vec<&T> {
    l.iter().map(|b| &**b).collect()
}

fn partial<F: Cmp>(src: &mut Src, st: &mut Stats) -> R
where
    F::T: PartialOrd + Debug,
{
    let (x, y) = two_lists(src);
    let (sx, sy) = (src.below(60), src.below(60));
    trace(|| format!("compare, print vectors of {} {x:?} (style {sx}) and {y:?} (style {sy})", F::NAME));
    let (a, la) = build::<F>(&x, sx);
    let (b, lb) = build::<F>(&y, sy);
    let (ra, rb) = (refs(&la), refs(&lb));
    let mut checks = vec![
        ("==", a == b, ra == rb),
        ("!=", a != b, ra != rb),
        ("<", a < b, ra < rb),
        ("<=", a <= b, ra <= rb),
        (">", a > b, ra > rb),
        (">=", a >= b, ra >= rb),
        ("== itself", a == a, ra == ra),
    ];
    checks.push(("partial_cmp", a.partial_cmp(&b) == ra.partial_cmp(&rb), true));
    for (what, got, want) in checks {
        ensure!(got == want, "{what} of vectors of {} {ra:?} and {rb:?} is {got}, of the lists {want}", F::NAME);
    }
    ensure!(a.partial_cmp(&b) == ra.partial_cmp(&rb), "partial_cmp is {:?}, of the lists {:?}", a.partial_cmp(&b), ra.partial_cmp(&rb));
    ensure!(b.partial_cmp(&a) == rb.partial_cmp(&ra), "partial_cmp (swapped) is {:?}, of the lists {:?}", b.partial_cmp(&a), rb.partial_cmp(&ra));
    for f in 0..3 {
        let (g, w) = match f {
            0 => (format!("{a:?}"), format!("{ra:?}")),
            1 => (format!("{a:#?}"), format!("{ra:#?}")),
            _ => (format!("{a:04?}"), format!("{ra:04?}")),
        };
        ensure!(g == w, "Debug prints {g}, the list prints {w}");
    }
    if ra == rb && !x.is_empty() {
        st.class("equal, not empty");
    }
    if x.len() != y.len() && ra.iter().zip(&rb).all(|(p, q)| p == q) {
        st.class("one a proper prefix");
    }
    if ra.partial_cmp(&rb).is_none() {
        st.class("incomparable");
    }
    Ok(())
}

fn total<F: Cmp>(src: &mut Src, _st: &mut Stats) -> R
where
    F::T: Ord + Hash + Debug,
{
    let (x, y) = two_lists(src);
    let (sx, sy) = (src.below(60), src.below(60));
    trace(|| format!("order, hash vectors of {} {x:?} (style {sx}) and {y:?} (style {sy})", F::NAME));
    let (a, la) = build::<F>(&x, sx);
    let (b, lb) = build::<F>(&y, sy);
    let (ra, rb) = (refs(&la), refs(&lb));
    ensure!(a.cmp(&b) == ra.cmp(&rb), "cmp of {ra:?} and {rb:?} is {:?}, of the lists {:?}", a.cmp(&b), ra.cmp(&rb));
    ensure!(b.cmp(&a) == a.cmp(&b).reverse(), "cmp is not antisymmetric on {ra:?} and {rb:?}");
    ensure!(a.cmp(&a) == Ordering::Equal, "cmp with itself is not Equal");
    if ra == rb {
        ensure!(hash_of(&a) == hash_of(&b), "equal vectors {ra:?} hash differently");
        let s = |v: &UnsizedVec<F::T>| {
            #[allow(deprecated)]
            let mut h = std::hash::SipHasher::new();
            v.hash(&mut h);
            h.finish()
        };
        ensure!(s(&a) == s(&b), "equal vectors {ra:?} hash differently");
    }
    ensure!(hash_of(&a) == hash_of(&a), "hashing twice gives different results");
    Ok(())
}

fn serialise<F: Cmp>(src: &mut Src, st: &mut Stats) -> R
where
    F::T: Serialize,
{
    let (x, _) = two_lists(src);
    let s = src.below(60);
    let (a, la) = build::<F>(&x, s);
    let mut want = vec![Ev::Seq(Some(la.len()))];
    for e in &la {
        want.extend(tape(&**e, usize::MAX).0);
    }
    want.push(Ev::End);
    let limit = if src.bool(1, 3) { src.below(want.len() as u32 + 1) as usize } else { usize::MAX };
    trace(|| format!("serialise a vector of {} {x:?} (style {s}), the serialiser fails after {limit} events", F::NAME));
    let (got, ok) = tape(&a, limit);
    let cut = limit.min(want.len());
    ensure!(got == want[..cut], "serialising gives {got:?}, should give {:?}", &want[..cut]);
    ensure!(ok == (limit >= want.len()), "the serialiser's error is lost or made up");
    if limit < want.len() {
        st.class("serialiser fails");
    }
    Ok(())
}

fn clones<F: Cmp>(src: &mut Src, st: &mut Stats) -> R
where
    F::T: Clone + Elem + Sized,
{
    let (x, _) = two_lists(src);
    let s = src.below(60);
    let change = src.below(4);
    let from = src.bool(1, 3);
    trace(|| format!("clone a vector of {} {x:?} (style {s}), {}then change {change}", F::NAME, if from { "by clone_from, " } else { "" }));
    let (mut a, la) = build::<F>(&x, s);
    let obs = |v: &UnsizedVec<F::T>| -> Vec<(Vec<u8>, u32)> {
        v.iter()
            .map(|e| {
                let o = vhcore::fam::obs_elem(e);
                (o.bytes, o.z)
            })
            .collect()
    };
    let list: Vec<(Vec<u8>, u32)> = la
        .iter()
        .map(|e| {
            let o = vhcore::fam::obs_elem::<F::T>(e);
            (o.bytes, o.z)
        })
        .collect();
    let before = (a.len(), a.capacity(), a.byte_capacity(), a.align());
    let mut c = if from {
        let (mut c, _) = build::<F>(&x[..x.len() / 2], s + 1);
        c.clone_from(&a);
        c
    } else {
        a.clone()
    };
    ensure!(obs(&c) == list, "the clone holds {:?}, the original {list:?}", obs(&c));
    ensure!((a.len(), a.capacity(), a.byte_capacity(), a.align()) == before, "cloning changed the original");
    ensure!(c.capacity() >= c.len() && c.byte_capacity() >= c.byte_len(), "the clone has capacity() {} for {} elements", c.capacity(), c.len());
    for (i, (p, q)) in a.iter().zip(&c).enumerate() {
        ensure!(std::mem::size_of::<F::T>() == 0 || !std::ptr::eq(p, q), "element {i} of the clone is the original's");
    }
    // independent
    match change {
        0 => {
            for e in a.iter_mut() {
                e.mutate(0x35);
            }
            ensure!(obs(&c) == list, "changing the original changed the clone");
        }
        1 => {
            for e in c.iter_mut() {
                e.mutate(0x35);
            }
            c.push(*F::make(3));
            ensure!(obs(&a) == list, "changing the clone changed the original");
        }
        2 => {
            drop(a);
            ensure!(obs(&c) == list, "dropping the original changed the clone");
            c.push(*F::make(2));
            return Ok(());
        }
        _ => {
            drop(c);
            ensure!(obs(&a) == list, "dropping the clone changed the original");
            a.push(*F::make(2));
            return Ok(());
        }
    }
    if !x.is_empty() {
        st.class("clone, not empty");
    }
    Ok(())
}

/// Comparisons between different element types, operands told apart.
fn cross(src: &mut Src, _st: &mut Stats) -> R {
    struct L(u32, bool);
    struct Rr(u32);
    impl PartialEq<Rr> for L {
        fn eq(&self, o: &Rr) -> bool {
            self.0 == o.0 + 1
        }
    }
    impl PartialOrd<Rr> for L {
        fn partial_cmp(&self, o: &Rr) -> Option<Ordering> {
            if self.1 { None } else { Some(self.0.cmp(&(o.0 + 1))) }
        }
    }
    let (x, y) = two_lists(src);
    let odd: Vec<bool> = x.iter().map(|_| src.bool(1, 8)).collect();
    trace(|| format!("compare {x:?} (incomparable: {odd:?}) with a vector of another type {y:?}"));
    let mut a: UnsizedVec<L> = UnsizedVec::new();
    let mut b: UnsizedVec<Rr> = UnsizedVec::new();
    for (&n, &o) in x.iter().zip(&odd) {
        a.push(L(n + 1, o));
    }
    for &n in &y {
        b.push(Rr(n));
    }
    ensure!((a == b) == (x == y), "== across types is {}", a == b);
    ensure!((a != b) == (x != y), "!= across types is {}", a != b);
    let mut want = Some(x.len().cmp(&y.len()));
    for i in 0..x.len().min(y.len()) {
        if odd[i] {
            want = None;
            break;
        }
        if x[i] != y[i] {
            want = Some(x[i].cmp(&y[i]));
            break;
        }
    }
    ensure!(a.partial_cmp(&b) == want, "partial_cmp across types is {:?}, should be {want:?}", a.partial_cmp(&b));
    ensure!((a < b) == (want == Some(Ordering::Less)) && (a >= b) == matches!(want, Some(Ordering::Greater | Ordering::Equal)), "< or >= across types disagrees with partial_cmp");
    // str against String, slices against arrays
    let mut s: UnsizedVec<str> = UnsizedVec::new();
    let mut t: UnsizedVec<String> = UnsizedVec::new();
    let mut u: UnsizedVec<[u8]> = UnsizedVec::new();
    let mut w: UnsizedVec<[u8; 2]> = UnsizedVec::new();
    for &n in &x {
        s.push(*word(n).into_boxed_str());
        u.push(*vec![n as u8; 2].into_boxed_slice());
    }
    for &n in &y {
        t.push(word(n));
        w.push([n as u8; 2]);
    }
    ensure!((s == t) == (x == y), "UnsizedVec<str> == UnsizedVec<String> is {}", s == t);
    ensure!((u == w) == (x == y), "UnsizedVec<[u8]> == UnsizedVec<[u8;2]> is {}", u == w);
    Ok(())
}

/// A clone panics half way (C10).
pub fn clone_panics(src: &mut Src, st: &mut Stats) -> R {
    fn go<E: Elem + Clone>(src: &mut Src, st: &mut Stats, name: &str) -> R {
        let n = src.range(1, 8);
        let at = src.range(1, n + 1);
        let from = src.bool(1, 3);
        trace(|| format!("clone a vector of {n} {name}, clone call {at} panics"));
        let mut a: UnsizedVec<E> = UnsizedVec::new();
        for i in 0..n {
            a.push(E::make(i));
        }
        let before: Vec<_> = a.iter().map(|e| vhcore::fam::obs_elem(e)).collect();
        elems::arm_panic(elems::CLONE, at);
        let r = if from {
            let mut c: UnsizedVec<E> = UnsizedVec::new();
            c.push(E::make(1));
            let r = guarded(|| c.clone_from(&a));
            for e in c.iter() {
                vhcore::fam::obs_elem(e);
            }
            r
        } else {
            guarded(|| drop(a.clone()))
        };
        let fired = elems::disarm_panics();
        ensure!(r.is_err() == (fired > 0), "the panic of a clone was lost or made up: {r:?}");
        st.panics += fired;
        let after: Vec<_> = a.iter().map(|e| vhcore::fam::obs_elem(e)).collect();
        ensure!(before == after, "a panicking clone changed the original");
        a.push(E::make(77));
        let z: i64 = a.iter().map(|e| vhcore::fam::obs_elem(e).z as i64).sum();
        let l: usize = a.iter().map(|e| vhcore::fam::obs_elem(e).ids.len()).sum();
        ensure!(elems::live() == l && elems::zlive() == z, "{} + {} values alive, the vector holds {l} + {z}", elems::live(), elems::zlive());
        drop(a);
        Ok(())
    }
    EXPECT.with(|e| e.set((false, 0)));
    let r = if src.bool(3, 4) { go::<Tracked>(src, st, "Tracked") } else { go::<ZTok>(src, st, "ZTok") };
    if let Some(e) = elems::take_error().or_else(alloc::take_error) {
        note_error(e);
    }
    r
}

pub fn case(src: &mut Src, st: &mut Stats) -> R {
    for _ in 0..src.range(1, 4) {
        if src.exhausted() {
            break;
        }
        src.span();
        st.extra_steps += 1;
        let f = src.below(13);
        macro_rules! each {
            ($f:ident: $($n:literal $F:ident),* ; $d:ident) => { match f { $($n => $f::<$F>(src, st),)* _ => $f::<$d>(src, st) } };
        }
        match src.below(12) {
            0..=3 => each!(partial: 0 U64, 1 B3, 2 F64, 3 Unit, 4 Str, 5 SU8, 6 SU32, 7 SF32, 8 C, 9 Os, 10 Pa, 11 Tr; F64)?,
            4..=6 => each!(total: 0 U64, 1 B3, 3 Unit, 4 Str, 5 SU8, 6 SU32, 8 C, 9 Os, 10 Pa, 11 Al; Tr)?,
            7 | 8 => each!(serialise: 0 U64, 1 SU8, 2 SU32, 3 Str, 4 Unit; Str)?,
            9 | 10 => each!(clones: 0 U64, 1 B3, 2 Unit, 3 Al; Tr)?,
            _ => cross(src, st)?,
        }
    }
    let _ = text(&Spec { kind: 0, len: 0, seed: 0 });
    Ok(())
}
