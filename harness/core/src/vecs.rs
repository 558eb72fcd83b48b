//! Type-erased access to two vectors of one element family.

use crate::alloc::scope;
use crate::elems::{self, note_error, step};
use crate::fam::*;
use crate::src::Src;
use crate::elems::{Spec, Val};
use emplacable::{Emplacable, EmplacableFn, Emplacer, box_new_with, with_emplacable_for};
use std::alloc::Layout;
use std::iter::FusedIterator;
use std::marker::PhantomData;
use std::ptr::Pointee;
use std::rc::Rc;
use std::sync::Arc;
use unsized_vec::UnsizedVec;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Fig {
    pub len: usize,
    pub bytes: usize,
    pub cap: usize,
    pub bcap: usize,
    pub align: usize,
    pub empty: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Info {
    pub name: &'static str,
    pub strat: Strat,
    pub align: usize,
    pub size: Option<usize>,
    pub tokens: bool,
    pub sources: u32,
}

/// How a value gets in.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    ByValue,
    Unsize,
    WithBox,
    WithFor,
    Hand,
    Special(u32),
}

/// What a removed value is handed to.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Recv {
    Box,
    Drop,
    Forget,
    Rc,
    Arc,
    Buffer,
    Null,
    Decline,
    Get,
    Pin,
    PanicEmplacer,
    Unbox,
    RcFrom,
    RcPin,
    ArcFrom,
    ArcPin,
    /// Family-specific destination.
    Special(u32),
}
pub const RECVS: [Recv; 11] = [
    Recv::Box,
    Recv::Drop,
    Recv::Forget,
    Recv::Rc,
    Recv::Arc,
    Recv::Buffer,
    Recv::Null,
    Recv::Decline,
    Recv::Get,
    Recv::Pin,
    Recv::Unbox,
];

/// What happened to a removed value.
#[derive(Default, Debug)]
pub struct Taken {
    /// observation through the receiver
    pub val: Option<Val>,
    pub layout: Option<(usize, usize)>,
    /// the value was forgotten: destructor must not have run
    pub forgotten: bool,
    /// pop_into returned None
    pub none: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev<X> {
    Item(Option<X>),
    Num(usize),
    Len(usize, usize, Option<usize>),
    Flag(bool),
    Many(Vec<X>),
}

/// Step of an iterator script.
pub type ItOp = (u32, u32);

/// Ops `0..STEPS` keep the iterator usable, `STEPS..ALL` consume it.
pub const IT_STEPS: u32 = 17;
pub const IT_ALL: u32 = 17 + 13;

pub fn it_name(op: u32) -> &'static str {
    [
        "next", "next_back", "nth", "nth_back", "len", "size_hint", "find", "rfind", "position", "any", "all", "find_map",
        "by_ref.take", "by_ref.rev.take", "by_ref.skip", "try_fold", "rposition", // steps
        "count", "last", "collect", "rev.collect", "fold", "rfold", "for_each", "skip", "step_by", "rev.nth", "zip.rev", "partition-ish chain", "drop",
    ][op as usize]
}

/// What scripts use of an iterator; items are observed as they are yielded. Every method the
/// iterators could specialise is forwarded to the real one.
pub trait DynIt<X> {
    fn next(&mut self) -> Option<X>;
    fn next_back(&mut self) -> Option<X>;
    fn nth(&mut self, n: usize) -> Option<X>;
    fn nth_back(&mut self, n: usize) -> Option<X>;
    fn len(&self) -> usize;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn find(&mut self, p: &mut dyn FnMut() -> bool) -> Option<X>;
    fn rfind(&mut self, p: &mut dyn FnMut() -> bool) -> Option<X>;
    fn find_map(&mut self, p: &mut dyn FnMut() -> bool) -> Option<X>;
    fn position(&mut self, p: &mut dyn FnMut(X) -> bool) -> Option<usize>;
    fn rposition(&mut self, p: &mut dyn FnMut(X) -> bool) -> Option<usize>;
    fn any(&mut self, p: &mut dyn FnMut(X) -> bool) -> bool;
    fn all(&mut self, p: &mut dyn FnMut(X) -> bool) -> bool;
    fn try_each(&mut self, p: &mut dyn FnMut(X) -> bool) -> bool;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<X>;
    fn for_each(self: Box<Self>, p: &mut dyn FnMut(X));
    fn fold(self: Box<Self>, p: &mut dyn FnMut(X));
    fn rfold(self: Box<Self>, p: &mut dyn FnMut(X));
}

/// A real iterator together with the way its items are observed.
pub struct Obs<I, F> {
    pub it: I,
    pub f: F,
}

impl<X, I, F> DynIt<X> for Obs<I, F>
where
    I: ExactSizeIterator + DoubleEndedIterator + FusedIterator,
    F: FnMut(I::Item) -> X,
{
    fn next(&mut self) -> Option<X> {
        self.it.next().map(&mut self.f)
    }
    fn next_back(&mut self) -> Option<X> {
        self.it.next_back().map(&mut self.f)
    }
    fn nth(&mut self, n: usize) -> Option<X> {
        self.it.nth(n).map(&mut self.f)
    }
    fn nth_back(&mut self, n: usize) -> Option<X> {
        self.it.nth_back(n).map(&mut self.f)
    }
    fn len(&self) -> usize {
        self.it.len()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn find(&mut self, p: &mut dyn FnMut() -> bool) -> Option<X> {
        self.it.find(|_| p()).map(&mut self.f)
    }
    fn rfind(&mut self, p: &mut dyn FnMut() -> bool) -> Option<X> {
        self.it.rfind(|_| p()).map(&mut self.f)
    }
    fn find_map(&mut self, p: &mut dyn FnMut() -> bool) -> Option<X> {
        let f = &mut self.f;
        self.it.find_map(|x| if p() { Some(f(x)) } else { None })
    }
    fn position(&mut self, p: &mut dyn FnMut(X) -> bool) -> Option<usize> {
        let f = &mut self.f;
        self.it.position(|x| p(f(x)))
    }
    fn rposition(&mut self, p: &mut dyn FnMut(X) -> bool) -> Option<usize> {
        let f = &mut self.f;
        self.it.rposition(|x| p(f(x)))
    }
    fn any(&mut self, p: &mut dyn FnMut(X) -> bool) -> bool {
        let f = &mut self.f;
        self.it.any(|x| p(f(x)))
    }
    fn all(&mut self, p: &mut dyn FnMut(X) -> bool) -> bool {
        let f = &mut self.f;
        self.it.all(|x| p(f(x)))
    }
    fn try_each(&mut self, p: &mut dyn FnMut(X) -> bool) -> bool {
        let f = &mut self.f;
        self.it.try_for_each(|x| if p(f(x)) { Err(()) } else { Ok(()) }).is_err()
    }
    fn count(self: Box<Self>) -> usize {
        self.it.count()
    }
    fn last(self: Box<Self>) -> Option<X> {
        let mut f = self.f;
        self.it.last().map(|x| f(x))
    }
    fn for_each(self: Box<Self>, p: &mut dyn FnMut(X)) {
        let mut f = self.f;
        self.it.for_each(|x| p(f(x)))
    }
    fn fold(self: Box<Self>, p: &mut dyn FnMut(X)) {
        let mut f = self.f;
        self.it.fold((), |(), x| p(f(x)))
    }
    fn rfold(self: Box<Self>, p: &mut dyn FnMut(X)) {
        let mut f = self.f;
        self.it.rfold((), |(), x| p(f(x)))
    }
}

/// The erased iterator as an iterator again, for the standard adaptors.
struct Er<'a, X>(Box<dyn DynIt<X> + 'a>);
impl<X> Iterator for Er<'_, X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        self.0.next()
    }
    fn nth(&mut self, n: usize) -> Option<X> {
        self.0.nth(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<X> DoubleEndedIterator for Er<'_, X> {
    fn next_back(&mut self) -> Option<X> {
        self.0.next_back()
    }
    fn nth_back(&mut self, n: usize) -> Option<X> {
        self.0.nth_back(n)
    }
}
impl<X> ExactSizeIterator for Er<'_, X> {
    fn len(&self) -> usize {
        self.0.len()
    }
}

/// Runs a script and returns what it saw.
pub fn run_script<X>(it: Box<dyn DynIt<X> + '_>, ops: &[ItOp]) -> Vec<Ev<X>> {
    let mut it = Er(it);
    let mut ev = Vec::new();
    for (n, &(op, k)) in ops.iter().enumerate() {
        // the largest stand for amounts no iterator has
        let k = if k >= u32::MAX - 2 { usize::MAX - (u32::MAX - k) as usize } else { k as usize };
        let left = it.len();
        // a predicate that is true at its k-th call, whatever the item is
        let mut calls = 0usize;
        let mut hit = || {
            calls += 1;
            calls - 1 == k
        };
        let last = n + 1 == ops.len();
        let mut seen = Vec::new();
        match op {
            0 => ev.push(Ev::Item(it.0.next())),
            1 => ev.push(Ev::Item(it.0.next_back())),
            2 => ev.push(Ev::Item(it.0.nth(k))),
            3 => ev.push(Ev::Item(it.0.nth_back(k))),
            4 => ev.push(Ev::Num(it.len())),
            5 => {
                let (a, b) = it.size_hint();
                ev.push(Ev::Len(left, a, b));
            }
            6 => ev.push(Ev::Item(it.0.find(&mut hit))),
            7 => ev.push(Ev::Item(it.0.rfind(&mut hit))),
            8 | 16 => {
                let mut p = |x| {
                    seen.push(x);
                    hit()
                };
                let r = if op == 8 { it.0.position(&mut p) } else { it.0.rposition(&mut p) };
                ev.push(Ev::Many(seen));
                ev.push(Ev::Num(r.unwrap_or(usize::MAX)));
            }
            9 => {
                let r = it.0.any(&mut |x| {
                    seen.push(x);
                    hit()
                });
                ev.push(Ev::Many(seen));
                ev.push(Ev::Flag(r));
            }
            10 => {
                let r = it.0.all(&mut |x| {
                    seen.push(x);
                    !hit()
                });
                ev.push(Ev::Many(seen));
                ev.push(Ev::Flag(r));
            }
            11 => ev.push(Ev::Item(it.0.find_map(&mut hit))),
            12 => {
                let v: Vec<X> = it.by_ref().take(k).collect();
                ev.push(Ev::Many(v));
            }
            13 => {
                let v: Vec<X> = it.by_ref().rev().take(k).collect();
                ev.push(Ev::Many(v));
            }
            14 => ev.push(Ev::Item(it.by_ref().skip(k).next())),
            15 => {
                let r = it.0.try_each(&mut |x| {
                    seen.push(x);
                    hit()
                });
                ev.push(Ev::Many(seen));
                ev.push(Ev::Flag(r));
            }
            // consuming ones
            17 => {
                ev.push(Ev::Num(it.0.count()));
                return ev;
            }
            18 => {
                ev.push(Ev::Item(it.0.last()));
                return ev;
            }
            19 => {
                ev.push(Ev::Many(it.collect()));
                return ev;
            }
            20 => {
                ev.push(Ev::Many(it.rev().collect()));
                return ev;
            }
            21 => {
                it.0.fold(&mut |x| seen.push(x));
                ev.push(Ev::Many(seen));
                return ev;
            }
            22 => {
                it.0.rfold(&mut |x| seen.push(x));
                ev.push(Ev::Many(seen));
                return ev;
            }
            23 => {
                it.0.for_each(&mut |x| seen.push(x));
                ev.push(Ev::Many(seen));
                return ev;
            }
            24 => {
                let mut it = it.skip(k);
                ev.push(Ev::Num(it.len()));
                ev.push(Ev::Item(it.next_back()));
                ev.push(Ev::Many(it.collect()));
                return ev;
            }
            25 => {
                let it = it.step_by(k + 1);
                ev.push(Ev::Num(it.len()));
                ev.push(Ev::Many(it.collect()));
                return ev;
            }
            26 => {
                let mut r = it.rev();
                ev.push(Ev::Item(r.nth(k)));
                ev.push(Ev::Many(r.collect()));
                return ev;
            }
            27 => {
                // zip from the back needs exact lengths
                let n = it.len();
                ev.push(Ev::Many(it.zip(0..n / 2 + k).rev().map(|(x, _)| x).collect()));
                return ev;
            }
            28 => {
                let mut p = it.enumerate().peekable();
                while let Some((_, x)) = p.next_if(|(i, _)| *i <= k) {
                    seen.push(x);
                }
                ev.push(Ev::Many(seen));
                ev.push(Ev::Many(p.map(|(_, x)| x).collect()));
                return ev;
            }
            _ => return ev,
        }
        if last {
            ev.push(Ev::Num(it.len()));
        }
    }
    ev
}

/// Type-erased pair of vectors.
pub trait DynVec {
    fn info(&self) -> Info;
    fn spec(&self, src: &mut Src) -> Spec;
    fn mutate_val(&self, v: &mut Val, salt: u8);
    fn source_name(&self, how: u32) -> &'static str;
    fn fig(&self, w: usize) -> Fig;
    /// Observation and address of an element.
    fn at(&self, w: usize, i: usize, how: u32) -> Option<(Val, usize)>;
    fn add(&mut self, w: usize, at: Option<usize>, how: How, s: &Spec, out: &mut Option<Val>) -> bool;
    fn take(&mut self, w: usize, at: Option<usize>, recv: Recv, out: &mut Taken);
    fn get_capable(&self) -> bool;
    fn mutate(&mut self, w: usize, i: usize, how: u32, salt: u8);
    fn reserve(&mut self, w: usize, which: u32, a: usize, b: usize, c: usize) -> Result<(), String>;
    fn shrink(&mut self, w: usize, which: u32, a: usize, b: usize, c: usize);
    /// remove_into (or pop_into) of one vector into push_with (or insert_with) of the other.
    fn transfer(&mut self, from: usize, at: Option<usize>, to: Option<usize>);
    fn extend(&mut self, w: usize, how: u32, specs: &[Spec], out: &mut Vec<Val>);
    fn script(&mut self, w: usize, kind: u32, ops: &[ItOp], salts: Option<u8>) -> Vec<Ev<(Val, usize)>>;
    fn fresh(&mut self, w: usize, how: u32, a: usize, b: usize, c: usize);
    fn collect(&mut self, w: usize, specs: &[Spec], out: &mut Vec<Val>);
    fn convert(&mut self, w: usize, src: &mut Src) -> Option<(Vec<Val>, &'static str)>;
    fn via_vec(&mut self, w: usize) -> bool;
    fn drop_one(&mut self, w: usize);
    fn swap(&mut self);
}

pub struct W<F: Family> {
    pub v: [UnsizedVec<F::T>; 2],
}

impl<F: Family> W<F> {
    pub fn new() -> Self {
        W { v: [UnsizedVec::new(), UnsizedVec::new()] }
    }
}

pub struct AddTo<'a, T: ?Sized> {
    pub v: &'a mut UnsizedVec<T>,
    pub at: Option<usize>,
}
impl<T: ?Sized> Sink<T> for AddTo<'_, T> {
    type Out = ();
    fn take<G: EmplacableFn<T>>(self, e: Emplacable<T, G>) {
        scope(|| match self.at {
            None => self.v.push_with(e),
            Some(i) => self.v.insert_with(i, e),
        })
    }
}

fn seen<F: Family>(b: &F::T) -> Val {
    let v = F::obs(b);
    let a = b as *const F::T as *const u8 as usize;
    if a % v.align != 0 {
        note_error(format!("value delivered at {a:#x}, it needs alignment {}", v.align));
    }
    v
}

pub const GUARD: usize = 96;

/// Emplaces into a guarded buffer of exactly the announced layout, and checks the protocol.
pub fn into_buffer<F: Family, G: EmplacableFn<F::T>>(e: Emplacable<F::T, G>, out: &mut Taken) {
    let f = e.into_fn();
    let mut calls = 0;
    let mut hold: Option<(Box<[u8]>, usize, <F::T as Pointee>::Metadata)> = None;
    {
        let out = &mut *out;
        let calls = &mut calls;
        let hold = &mut hold;
        let mut em = move |l: Layout, m: <F::T as Pointee>::Metadata, inner: &mut dyn FnMut(*mut PhantomData<F::T>)| {
            *calls += 1;
            out.layout = Some((l.size(), l.align()));
            if l.size() > 1 << 20 || l.align() > 1 << 14 {
                note_error(format!("emplacer told the absurd layout {l:?}"));
                return;
            }
            // the buffer: aligned to exactly the announced alignment, guard bytes around it
            let al = l.align();
            let total = l.size() + 2 * GUARD + 4 * al;
            let mut raw: Vec<u8> = vec![0xEE; total];
            let base = raw.as_mut_ptr() as usize + GUARD;
            let mut a = base.next_multiple_of(2 * al);
            a += al; // odd multiple of the alignment
            let off = a - raw.as_ptr() as usize;
            let p = unsafe { raw.as_mut_ptr().add(off) };
            inner(p.cast());
            // (what lies in the range may be padding)
            for i in (0..off).chain(off + l.size()..raw.len()) {
                if raw[i] != 0xEE {
                    note_error(format!(
                        "emplacing a value announced as {} bytes wrote at offset {} of the buffer",
                        l.size(),
                        i as isize - off as isize
                    ));
                }
            }
            let t: *mut F::T = std::ptr::from_raw_parts_mut(p.cast::<()>(), m);
            let v = F::obs(unsafe { &*t });
            if (v.size, v.align) != (l.size(), l.align()) {
                note_error(format!("emplacer told layout {l:?}, the value has size {} align {}", v.size, v.align));
            }
            out.val = Some(v);
            // leave the value where it is; it is dropped by the caller below
            let b: Box<[u8]> = raw.into_boxed_slice();
            *hold = Some((b, off, m));
        };
        f(unsafe { Emplacer::from_fn(&mut em) });
    }
    if calls != 1 {
        note_error(format!("emplacer called {calls} times"));
    }
    // ownership is ours only now
    if let Some((mut b, off, m)) = hold {
        let t: *mut F::T = std::ptr::from_raw_parts_mut(unsafe { b.as_mut_ptr().add(off) }.cast::<()>(), m);
        unsafe { std::ptr::drop_in_place(t) };
    }
}

/// Runs an emplacable against an emplacer that passes null (`Some(true)`), declines (`Some(false)`)
/// or panics first (`None`).
pub fn into_nothing<F: Family, G: EmplacableFn<F::T>>(e: Emplacable<F::T, G>, null: Option<bool>, out: &mut Taken) {
    let f = e.into_fn();
    let mut calls = 0;
    {
        let out = &mut *out;
        let calls = &mut calls;
        let mut em = move |l: Layout, m: <F::T as Pointee>::Metadata, inner: &mut dyn FnMut(*mut PhantomData<F::T>)| {
            *calls += 1;
            let told: *const F::T = std::ptr::from_raw_parts(std::ptr::null::<()>(), m);
            let (ms, ma) = unsafe { (std::mem::size_of_val_raw(told), std::mem::align_of_val_raw(told)) };
            if (ms, ma) != (l.size(), l.align()) {
                note_error(format!("emplacer told layout {l:?}, the metadata is that of a value of size {ms} align {ma}"));
            }
            out.layout = Some((l.size(), l.align()));
            match null {
                Some(true) => inner(std::ptr::null_mut()),
                Some(false) => out.forgotten = true,
                None => {
                    // not armed: declines
                    step(elems::EMPL);
                    out.forgotten = true;
                }
            }
        };
        f(unsafe { Emplacer::from_fn(&mut em) });
    }
    if calls != 1 {
        note_error(format!("emplacer called {calls} times"));
    }
}

pub fn receive<F: Family, G: EmplacableFn<F::T>>(e: Emplacable<F::T, G>, recv: Recv, out: &mut Taken) {
    match recv {
        Recv::Box => {
            let b = scope(|| box_new_with(e));
            out.val = Some(seen::<F>(&b));
        }
        Recv::Pin => {
            let b = scope(|| emplacable::box_pin_with(e));
            out.val = Some(seen::<F>(&b));
        }
        Recv::Drop => scope(|| drop(e)),
        Recv::Forget => {
            scope(|| e.forget());
            out.forgotten = true;
        }
        Recv::Rc => {
            let b: Rc<F::T> = scope(|| emplacable::rc_new_with(e));
            out.val = Some(seen::<F>(&b));
        }
        Recv::RcFrom => {
            let b: Rc<F::T> = scope(|| Rc::from(e));
            let c = b.clone();
            drop(b);
            out.val = Some(seen::<F>(&c));
        }
        Recv::RcPin => {
            let b = scope(|| emplacable::rc_pin_with(e));
            out.val = Some(seen::<F>(&b));
        }
        Recv::ArcFrom => {
            let b: Arc<F::T> = scope(|| Arc::from(e));
            let c = b.clone();
            drop(b);
            out.val = Some(seen::<F>(&c));
        }
        Recv::ArcPin => {
            let b = scope(|| emplacable::arc_pin_with(e));
            out.val = Some(seen::<F>(&b));
        }
        Recv::Special(n) => match F::deliver(e, n) {
            Ok(v) => out.val = Some(v),
            Err(e) => {
                let b: Box<F::T> = scope(|| box_new_with(e));
                out.val = Some(seen::<F>(&b));
            }
        },
        Recv::Arc => {
            let b: Arc<F::T> = scope(|| emplacable::arc_new_with(e));
            out.val = Some(seen::<F>(&b));
        }
        Recv::Buffer => into_buffer::<F, G>(e, out),
        Recv::Null => scope(|| into_nothing::<F, G>(e, Some(true), out)),
        Recv::Decline => scope(|| into_nothing::<F, G>(e, Some(false), out)),
        Recv::PanicEmplacer => scope(|| into_nothing::<F, G>(e, None, out)),
        Recv::Get | Recv::Unbox => match F::get(e) {
            Ok(v) => out.val = Some(v),
            Err(e) => {
                let b: Box<F::T> = scope(|| box_new_with(e));
                out.val = Some(seen::<F>(&b));
            }
        },
    }
}

impl<F: Family> DynVec for W<F> {
    fn info(&self) -> Info {
        Info { name: F::NAME, strat: F::STRAT, align: F::ALIGN, size: F::SIZE, tokens: F::TOKENS, sources: F::SOURCES }
    }
    fn spec(&self, src: &mut Src) -> Spec {
        F::spec(src)
    }
    fn mutate_val(&self, v: &mut Val, salt: u8) {
        F::mutate_val(v, salt)
    }
    fn source_name(&self, how: u32) -> &'static str {
        F::source_name(how)
    }
    fn fig(&self, w: usize) -> Fig {
        let v = &self.v[w];
        Fig {
            len: v.len(),
            bytes: v.byte_len(),
            cap: v.capacity(),
            bcap: v.byte_capacity(),
            align: v.align(),
            empty: v.is_empty(),
        }
    }
    fn at(&self, w: usize, i: usize, how: u32) -> Option<(Val, usize)> {
        let v = &self.v[w];
        let t: &F::T = match how {
            0 => v.get(i)?,
            1 => &v[i],
            2 => {
                if i >= v.len() {
                    return None;
                }
                unsafe { v.get_unchecked(i) }
            }
            3 => v.iter().nth(i)?,
            _ => v.iter().enumerate().find(|(j, _)| *j == i)?.1,
        };
        let a = t as *const F::T as *const u8 as usize;
        let al = std::mem::align_of_val(t);
        if a % al != 0 {
            // do not look through a misaligned reference
            note_error(format!("element {i} at address {a:#x} is not aligned to {al}"));
        }
        Some((F::obs(t), a))
    }
    fn add(&mut self, w: usize, at: Option<usize>, how: How, s: &Spec, out: &mut Option<Val>) -> bool {
        let v = &mut self.v[w];
        match how {
            How::ByValue => {
                let b = F::make(s);
                *out = Some(F::obs(&b));
                scope(|| match at {
                    None => v.push(*b),
                    Some(i) => v.insert(i, *b),
                });
                true
            }
            How::Unsize => match at {
                None => F::push_unsize(v, s, out),
                Some(i) => F::insert_unsize(v, i, s, out),
            },
            How::WithBox => {
                let b = F::make(s);
                *out = Some(F::obs(&b));
                let e = <Emplacable<F::T, _> as From<Box<F::T>>>::from(b);
                AddTo { v, at }.take(e);
                true
            }
            How::WithFor => {
                let b = F::make(s);
                *out = Some(F::obs(&b));
                with_emplacable_for(*b, |e| AddTo { v: &mut *v, at }.take(e));
                true
            }
            How::Hand => {
                let b = F::make(s);
                *out = Some(F::obs(&b));
                AddTo { v, at }.take(hand_made(b));
                true
            }
            How::Special(n) => F::emplace(n, s, out, AddTo { v, at }).is_some(),
        }
    }
    fn take(&mut self, w: usize, at: Option<usize>, recv: Recv, out: &mut Taken) {
        let v = &mut self.v[w];
        match at {
            None => match scope(|| v.pop_into()) {
                None => out.none = true,
                Some(e) => receive::<F, _>(e, recv, out),
            },
            Some(i) => {
                let e = scope(|| v.remove_into(i));
                receive::<F, _>(e, recv, out)
            }
        }
    }
    fn get_capable(&self) -> bool {
        F::STRAT == Strat::Sized
    }
    fn mutate(&mut self, w: usize, i: usize, how: u32, salt: u8) {
        let v = &mut self.v[w];
        let t: &mut F::T = match how {
            0 => v.get_mut(i).expect("get_mut is None inside the vector"),
            1 => &mut v[i],
            2 => unsafe { v.get_unchecked_mut(i) },
            3 => v.iter_mut().nth(i).expect("iter_mut ended early"),
            4 => v.into_iter().enumerate().find(|(j, _)| *j == i).expect("into_iter ended early").1,
            _ => {
                let n = v.len();
                v.iter_mut().rev().nth(n - 1 - i).expect("iter_mut.rev ended early")
            }
        };
        F::mutate(t, salt)
    }
    fn reserve(&mut self, w: usize, which: u32, a: usize, b: usize, c: usize) -> Result<(), String> {
        let v = &mut self.v[w];
        let r = scope(|| match which {
            0 => Ok(v.reserve(a)),
            1 => Ok(v.reserve_exact(a)),
            2 => v.try_reserve(a),
            3 => v.try_reserve_exact(a),
            4 => Ok(v.reserve_capacity_bytes(a, b)),
            5 => Ok(v.reserve_exact_capacity_bytes(a, b)),
            6 => v.try_reserve_capacity_bytes(a, b),
            7 => v.try_reserve_exact_capacity_bytes(a, b),
            8 => Ok(v.reserve_capacity_bytes_align(a, b, c)),
            9 => Ok(v.reserve_exact_capacity_bytes_align(a, b, c)),
            10 => v.try_reserve_capacity_bytes_align(a, b, c),
            _ => v.try_reserve_exact_capacity_bytes_align(a, b, c),
        });
        r.map_err(|e| format!("{e:?}"))
    }
    fn shrink(&mut self, w: usize, which: u32, a: usize, b: usize, c: usize) {
        let v = &mut self.v[w];
        scope(|| match which {
            0 => v.shrink_to_fit(),
            1 => v.shrink_to(a),
            2 => v.shrink_capacity_bytes_to(a, b),
            _ => v.shrink_capacity_bytes_align_to(a, b, c),
        })
    }
    fn transfer(&mut self, from: usize, at: Option<usize>, to: Option<usize>) {
        let [v0, v1] = &mut self.v;
        let (f, t) = if from == 0 { (v0, v1) } else { (v1, v0) };
        scope(|| match at {
            None => {
                let e = f.pop_into().expect("pop_into is None on a non-empty vector");
                match to {
                    None => t.push_with(e),
                    Some(j) => t.insert_with(j, e),
                }
            }
            Some(i) => {
                let e = f.remove_into(i);
                match to {
                    None => t.push_with(e),
                    Some(j) => t.insert_with(j, e),
                }
            }
        })
    }
    fn extend(&mut self, w: usize, how: u32, specs: &[Spec], out: &mut Vec<Val>) {
        let v = &mut self.v[w];
        let bs: Vec<Box<F::T>> = specs.iter().map(F::make).collect();
        out.reserve_exact(bs.len());
        for b in &bs {
            out.push(F::obs(b));
        }
        match how {
            0 => {
                let es: Vec<_> = bs.into_iter().map(<Emplacable<F::T, _> as From<Box<F::T>>>::from).collect();
                let it = es.into_iter().inspect(|_| step(elems::ITER));
                scope(|| v.extend(it))
            }
            1 => {
                // no size hint
                let es: Vec<_> = bs.into_iter().map(hand_made).collect();
                let it = es.into_iter().filter(|_| {
                    step(elems::ITER);
                    true
                });
                scope(|| v.extend(it))
            }
            _ => {
                // lower bound of the size hint larger than what comes (allowed to be wrong, must be safe)
                let es: Vec<_> = bs.into_iter().map(<Emplacable<F::T, _> as From<Box<F::T>>>::from).collect();
                let n = es.len();
                let it = Hinted { it: es.into_iter().inspect(|_| step(elems::ITER)), hint: n / 2 };
                scope(|| v.extend(it))
            }
        }
    }
    fn script(&mut self, w: usize, kind: u32, ops: &[ItOp], salts: Option<u8>) -> Vec<Ev<(Val, usize)>> {
        let v = &mut self.v[w];
        let obs = |t: &F::T| (F::obs(t), t as *const F::T as *const u8 as usize);
        let mut n = 0u8;
        let obs_mut = move |t: &mut F::T| {
            if let Some(s) = salts {
                F::mutate(t, s.wrapping_add(n) | 1);
                n = n.wrapping_add(2);
            }
            (F::obs(t), t as *const F::T as *const u8 as usize)
        };
        let it: Box<dyn DynIt<(Val, usize)> + '_> = match kind {
            0 => Box::new(Obs { it: v.iter(), f: obs }),
            1 => Box::new(Obs { it: (&*v).into_iter(), f: obs }),
            2 => Box::new(Obs { it: v.iter_mut(), f: obs_mut }),
            _ => Box::new(Obs { it: v.into_iter(), f: obs_mut }),
        };
        run_script(it, ops)
    }
    fn fresh(&mut self, w: usize, how: u32, a: usize, b: usize, c: usize) {
        let v = scope(|| match how {
            0 => UnsizedVec::new(),
            1 => UnsizedVec::default(),
            2 => UnsizedVec::with_capacity(a),
            3 => UnsizedVec::with_capacity_bytes(a, b),
            _ => UnsizedVec::with_capacity_bytes_align(a, b, c),
        });
        self.v[w] = v;
    }
    fn collect(&mut self, w: usize, specs: &[Spec], out: &mut Vec<Val>) {
        let bs: Vec<Box<F::T>> = specs.iter().map(F::make).collect();
        out.reserve_exact(bs.len());
        for b in &bs {
            out.push(F::obs(b));
        }
        let es: Vec<_> = bs.into_iter().map(<Emplacable<F::T, _> as From<Box<F::T>>>::from).collect();
        let v: UnsizedVec<F::T> = scope(|| es.into_iter().collect());
        self.v[w] = v;
    }
    fn convert(&mut self, w: usize, src: &mut Src) -> Option<(Vec<Val>, &'static str)> {
        let (v, m, n) = F::convert(src)?;
        self.v[w] = v;
        Some((m, n))
    }
    fn via_vec(&mut self, w: usize) -> bool {
        let v = std::mem::replace(&mut self.v[w], UnsizedVec::new());
        match F::via_vec(v) {
            Ok(v) => {
                self.v[w] = v;
                true
            }
            Err(v) => {
                self.v[w] = v;
                false
            }
        }
    }
    fn drop_one(&mut self, w: usize) {
        let v = std::mem::replace(&mut self.v[w], UnsizedVec::new());
        scope(|| drop(v));
    }
    fn swap(&mut self) {
        self.v.swap(0, 1);
    }
}

struct Hinted<I> {
    it: I,
    hint: usize,
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.hint, None)
    }
}
