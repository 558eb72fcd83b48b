//! Model-based histories over vectors: operations, reference model (a plain list), oracles.

use crate::alloc::{self, counts};
use crate::elems::{self, SITES, Spec, Val};
use crate::fam::*;
use crate::src::Src;
use crate::ensure;
use crate::vecs::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub type R<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)+) => { if !$c { return Err(format!($($f)+)); } };
}

/// What a case is made of.
#[derive(Clone)]
pub struct Profile {
    /// weights of the families, in `FAMILIES` order
    pub fams: [u32; NFAM],
    pub ops: [u32; NOPS],
    pub max_ops: u32,
    /// probability (in 8ths) that a case uses larger values and more of them
    pub sites: [u32; SITES],
}

pub const NFAM: usize = 19;
pub const FAMILIES: [&str; NFAM] = [
    "[u8;3]", "u64", "Tracked", "align64", "()", "ZTok", "[u8]", "[u32]", "[Tracked]", "[ZTok]", "[align32]", "[()]", "str",
    "CStr", "dyn", "Tail<[u8]>", "Tail<[Tracked]>", "Tail<dyn>", "OsStr+Path",
];
pub const SIZED: usize = 6;

/// Makes the vectors of family `i`.
pub type Make = fn(usize) -> Box<dyn DynVec>;

// operation kinds
pub const NOPS: usize = 17;
pub const PUSH: usize = 0;
pub const INSERT: usize = 1;
pub const POP: usize = 2;
pub const REMOVE: usize = 3;
pub const MUTATE: usize = 4;
pub const RESERVE: usize = 5;
pub const SHRINK: usize = 6;
pub const TRANSFER: usize = 7;
pub const EXTEND: usize = 8;
pub const SCRIPT: usize = 9;
pub const FRESH: usize = 10;
pub const INVALID: usize = 11;
pub const FAULT: usize = 12;
pub const PANIC: usize = 13;
pub const VIAVEC: usize = 14;
pub const DRAIN: usize = 15;
pub const CONVERT: usize = 16;

pub const OP_NAMES: [&str; NOPS] = [
    "push", "insert", "pop", "remove", "mutate", "reserve", "shrink", "transfer", "extend", "iterate", "fresh", "invalid",
    "alloc-fault", "panic", "via_vec", "drain", "convert",
];

/// Bits describing what a case did (for the evidence: non-trivial rule and class histogram).
#[derive(Default, Clone)]
pub struct Stats {
    pub fam: usize,
    pub op_count: [u32; NOPS],
    pub max_len: usize,
    pub grew: u32,
    pub realigned: u32,
    pub mid_insert: u32,
    pub mid_remove: u32,
    pub in_capacity: u32,
    pub shrunk: u32,
    pub faults: u32,
    pub panics: u32,
    pub rejected: u32,
    pub iter_steps: u32,
    pub transfers: u32,
    pub extra_steps: u32,
    pub classes: Vec<&'static str>,
}

impl Stats {
    /// Notes a class of case for the evidence.
    pub fn class(&mut self, c: &'static str) {
        alloc::untracked(|| self.classes.push(c));
    }
}

thread_local! {
    pub static TRACE: std::cell::RefCell<Option<Vec<String>>> = const { std::cell::RefCell::new(None) };
}
thread_local! {
    /// Also print the trace while it happens (for cases that crash).
    pub static STREAM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn trace(f: impl FnOnce() -> String) {
    alloc::untracked(|| {
        TRACE.with(|t| {
            if let Some(t) = t.borrow_mut().as_mut() {
                let l = f();
                if STREAM.get() {
                    eprintln!(">> {l}");
                }
                t.push(l);
            }
        })
    })
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    /// The last panic was the allocation-error handler's.
    pub static ALLOC_ERROR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs code under test that is not expected to unwind unless the caller says so.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    ALLOC_ERROR.set(false);
    let r = catch_unwind(AssertUnwindSafe(f));
    alloc::leave_scope_only();
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            drop(p);
            Err(alloc::untracked(|| LAST_PANIC.with(|l| l.borrow().clone())))
        }
    }
}

pub struct Machine<'a> {
    pub dv: Box<dyn DynVec>,
    pub info: Info,
    pub model: [Vec<Val>; 2],
    /// capacity figures known from the previous operation
    pub figs: [Fig; 2],
    pub src: &'a mut Src,
    pub st: &'a mut Stats,
    pub p: &'a Profile,
    /// values may have leaked (a panic was injected)
    pub slack: bool,
    /// blocks leaked on purpose (forgotten values own heap memory)
    pub leaked: usize,
    big: bool,
}

fn pad(n: usize, a: usize) -> usize {
    n.next_multiple_of(a.max(1))
}

/// Description of one modelled operation, enough to judge any outcome of it.
enum Done<T> {
    Ok(T),
    Panicked,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Armed {
    No,
    Fault,
    Panic,
}

impl<'a> Machine<'a> {
    pub fn new(src: &'a mut Src, st: &'a mut Stats, p: &'a Profile, make: Make) -> Machine<'a> {
        let fam = src.weighted(&p.fams);
        let path = fam == NFAM - 1 && src.bool(1, 2);
        let dv = make(if path { NFAM } else { fam });
        st.fam = fam;
        let info = dv.info();
        trace(|| format!("element type {}", info.name));
        let big = src.bool(1, 8);
        Machine { dv, info, model: [Vec::new(), Vec::new()], figs: Default::default(), src, st, p, slack: false, leaked: 0, big }
    }

    // ------------------------------------------------------------ full state check

    /// Compares a vector with a list without touching the model; returns the addresses.
    fn matches(&self, w: usize, m: &[Val]) -> R<Vec<usize>> {
        let fig = self.dv.fig(w);
        ensure!(fig.len == m.len(), "len() is {}, the list has {} elements", fig.len, m.len());
        let mut addrs = Vec::with_capacity(m.len());
        for (i, x) in m.iter().enumerate() {
            let got = self.dv.at(w, i, 0);
            let Some((v, a)) = got else {
                return Err(format!("get({i}) is None with len {}", m.len()));
            };
            if let Some(e) = elems::take_error() {
                return Err(format!("element {i}: {e}"));
            }
            ensure!(v == *x, "element {i} is {v:?}, the list has {x:?}");
            ensure!(a % x.align == 0, "element {i} at {a:#x} is not aligned to {}", x.align);
            addrs.push(a);
        }
        Ok(addrs)
    }

    pub fn check(&mut self, w: usize) -> R<Vec<usize>> {
        let m = &self.model[w];
        let fig = self.dv.fig(w);
        let addrs = self.matches(w, m).map_err(|e| format!("vector {w}: {e}"))?;
        let n = m.len();
        ensure!(fig.empty == (n == 0), "is_empty() is {} with len {n}", fig.empty);
        ensure!(self.dv.at(w, n, 0).is_none(), "get(len) is not None");
        ensure!(self.dv.at(w, n.wrapping_add(1 + n), 0).is_none(), "get beyond len is not None");
        if n > 0 {
            let i = self.src.below(n as u32) as usize;
            let how = self.src.below(5);
            let (v, a) = self.dv.at(w, i, how).ok_or_else(|| format!("access path {how} to element {i} ended early"))?;
            ensure!(v == m[i] && a == addrs[i], "access path {how} to element {i} gives {v:?} at {a:#x}, get gives {:?} at {:#x}", m[i], addrs[i]);
        }
        ensure!(fig.align.is_power_of_two(), "align() is {}", fig.align);
        ensure!(fig.cap >= fig.len, "capacity() {} below len() {}", fig.cap, fig.len);
        ensure!(fig.bcap >= fig.bytes, "byte_capacity() {} below byte_len() {}", fig.bcap, fig.bytes);
        let max_align = m.iter().map(|v| v.align).max().unwrap_or(1);
        ensure!(fig.align >= max_align, "align() is {}, an element needs {max_align}", fig.align);
        let padded = self.info.strat == Strat::Padded;
        let (lo_al, hi_al) = if padded { (max_align, fig.align) } else { (1, 1) };
        if !padded {
            ensure!(fig.align == self.info.align, "align() is {}, the type's alignment {}", fig.align, self.info.align);
        }
        let lo: usize = m.iter().map(|v| pad(v.size, lo_al)).sum();
        let hi: usize = m.iter().map(|v| pad(v.size, hi_al)).sum();
        ensure!(
            fig.bytes >= lo && fig.bytes <= hi,
            "byte_len() is {}, the elements take between {lo} and {hi} bytes (align() {})",
            fig.bytes,
            fig.align
        );
        for i in 1..n {
            let d = addrs[i].wrapping_sub(addrs[i - 1]);
            let s = m[i - 1].size;
            ensure!(
                d >= pad(s, lo_al) && d <= pad(s, hi_al),
                "elements {} and {i} are {} bytes apart, the first has {s} bytes (element alignment {max_align}, align() {})",
                i - 1,
                d as isize,
                fig.align
            );
        }
        if n > 0 {
            let used = addrs[n - 1] + m[n - 1].size - addrs[0];
            ensure!(used <= fig.bcap, "elements take {used} bytes, byte_capacity() is {}", fig.bcap);
        }
        self.figs[w] = fig;
        if n > self.st.max_len {
            self.st.max_len = n;
        }
        Ok(addrs)
    }

    pub fn check_global(&mut self) -> R {
        if let Some(e) = alloc::take_error() {
            return Err(e);
        }
        if let Some(e) = elems::take_error() {
            return Err(e);
        }
        let ids: usize = self.model.iter().flatten().map(|v| v.ids.len()).sum();
        let z: i64 = self.model.iter().flatten().map(|v| v.z as i64).sum();
        let (l, zl) = (elems::live(), elems::zlive());
        if self.slack {
            ensure!(l >= ids, "{l} values alive, the vectors hold {ids}");
            ensure!(zl >= z, "{zl} zero-sized values alive, the vectors hold {z}");
        } else {
            ensure!(l == ids, "{l} values with destructors are alive, the vectors hold {ids}");
            ensure!(zl == z, "{zl} zero-sized values with destructors are alive, the vectors hold {z}");
        }
        Ok(())
    }

    // ------------------------------------------------------------ generation helpers

    fn index(&mut self, n: usize) -> usize {
        // ends and neighbours of ends matter most
        match self.src.below(4) {
            0 => self.src.below(n as u32) as usize,
            1 => 0,
            2 => n - 1,
            _ => self.src.below(n as u32) as usize,
        }
    }
    fn spec(&mut self) -> Spec {
        self.dv.spec(self.src)
    }
    fn how(&mut self) -> How {
        let n = self.info.sources;
        match self.src.below(6 + n) {
            0 => How::ByValue,
            1 => How::Unsize,
            2 => How::WithBox,
            3 => How::WithFor,
            4 => How::Hand,
            5 => How::ByValue,
            k => How::Special(k - 6),
        }
    }
    fn recv(&mut self) -> Recv {
        RECVS[self.src.below(RECVS.len() as u32) as usize]
    }
    fn amount(&mut self, bytes: bool) -> usize {
        let big = if bytes { 3000 } else { 300 };
        if self.src.bool(1, 80) {
            // about the ranges of u8, a page, u16
            return [250, 4090, 8190, 32760, 65530][self.src.below(5) as usize] + self.src.below(12) as usize;
        }
        (match self.src.below(6) {
            0 => 0,
            1 | 2 => self.src.below(9),
            3 => self.src.below(40),
            4 => self.src.below(200),
            _ => self.src.below(big),
        }) as usize
    }
    fn alignment(&mut self) -> usize {
        1 << match self.src.below(20) {
            0..5 => 0,
            5..10 => self.src.below(5),
            10..15 => self.src.below(8),
            15..19 => self.src.below(11),
            _ => self.src.below(17),
        }
    }

    // ------------------------------------------------------------ running

    pub fn run(&mut self) -> R {
        let n = if self.big { self.p.max_ops * 4 } else { self.src.range(1, self.p.max_ops) };
        for _ in 0..n {
            if self.src.exhausted() {
                break;
            }
            self.src.span();
            let w = if self.src.bool(1, 5) { 1 } else { 0 };
            let mut ops = self.p.ops;
            if self.model[0].len() + self.model[1].len() > 40 && !self.big {
                ops[EXTEND] = 0;
                ops[DRAIN] += 4;
            }
            let op = self.src.weighted(&ops);
            self.st.op_count[op] += 1;
            self.step(w, op, Armed::No).map_err(|e| format!("{} on {}: {e}", OP_NAMES[op], self.info.name))?;
            self.check_all()?;
        }
        Ok(())
    }
    pub fn check_all(&mut self) -> R {
        for w in 0..2 {
            self.check(w)?;
        }
        self.check_global()
    }

    /// Drops both vectors.
    pub fn finish(&mut self) -> R {
        for w in 0..2 {
            let before = alloc::blocks();
            guarded(|| self.dv.drop_one(w)).map_err(|e| format!("dropping the vector panicked: {e}"))?;
            // every counted value with an id has a block of its own
            let theirs: usize = self.model[w].iter().map(|v| v.ids.len()).sum();
            let own = before.saturating_sub(alloc::blocks()).saturating_sub(theirs);
            let most = if self.info.strat == Strat::Sized { 1 } else { 2 };
            ensure!(own <= most, "the vector used {own} blocks, it should use at most {most}");
            self.model[w].clear();
        }
        self.check_global()
    }

    pub fn step(&mut self, w: usize, op: usize, armed: Armed) -> R {
        match op {
            PUSH => self.op_add(w, None, armed),
            INSERT => {
                let n = self.model[w].len();
                let i = self.index(n + 1);
                self.op_add(w, Some(i), armed)
            }
            POP => self.op_take(w, None, armed),
            REMOVE => {
                let n = self.model[w].len();
                if n == 0 {
                    return self.op_take(w, None, armed);
                }
                let i = self.index(n);
                self.op_take(w, Some(i), armed)
            }
            MUTATE => self.op_mutate(w),
            RESERVE => self.op_reserve(w, armed),
            SHRINK => self.op_shrink(w, armed),
            TRANSFER => self.op_transfer(w, armed),
            EXTEND => self.op_extend(w, armed),
            SCRIPT => self.op_script(w),
            FRESH => self.op_fresh(w),
            INVALID => self.op_invalid(w),
            FAULT => {
                const INNER: [usize; 8] = [PUSH, INSERT, RESERVE, SHRINK, TRANSFER, EXTEND, PUSH, RESERVE];
                let op = INNER[self.src.below(8) as usize];
                if self.src.bool(1, 5) {
                    return self.op_overflow(w);
                }
                let at = self.src.range(1, 3) as u64;
                let n = [1, 2, 1000][self.src.below(3) as usize];
                trace(|| format!("  (allocator refuses calls {at}..{})", at + n));
                alloc::arm(at, n);
                let r = self.step(w, op, Armed::Fault);
                alloc::disarm();
                r
            }
            PANIC => {
                let site = self.src.weighted(&self.p.sites.clone());
                const BY_SITE: [[usize; 4]; SITES] = [
                    [CONVERT, CONVERT, CONVERT, CONVERT],
                    [POP, REMOVE, DRAIN, FRESH],
                    [PUSH, INSERT, POP, EXTEND],
                    [EXTEND, EXTEND, EXTEND, EXTEND],
                ];
                let op = BY_SITE[site][self.src.below(4) as usize];
                let n = self.src.range(1, 4);
                trace(|| format!("  (user code {} panics at its call {n})", ["clone", "drop", "emplacable", "iterator"][site]));
                self.slack_pending(site, n);
                let r = match op {
                    FRESH => self.op_drop(w),
                    DRAIN => self.op_take(w, None, Armed::Panic),
                    _ => self.step(w, op, Armed::Panic),
                };
                let fired = elems::disarm_panics();
                self.st.panics += fired;
                if fired > 0 {
                    self.slack = true;
                }
                r
            }
            VIAVEC => {
                trace(|| format!("vec[{w}]: to Vec and back"));
                let fig = self.dv.fig(w);
                let done = guarded(|| self.dv.via_vec(w)).map_err(|e| format!("panicked: {e}"))?;
                if done {
                    ensure!(self.dv.fig(w) == fig, "figures {:?} became {:?}", fig, self.dv.fig(w));
                }
                Ok(())
            }
            DRAIN => {
                let keep = self.src.below(4) as usize;
                while self.model[w].len() > keep {
                    let back = self.src.bool(1, 2);
                    let n = self.model[w].len();
                    let at = if back { None } else { Some(self.index(n)) };
                    self.op_take(w, at, Armed::No)?;
                    self.check(w)?;
                    self.check_global()?;
                }
                Ok(())
            }
            _ => self.op_convert(w),
        }
    }

    fn slack_pending(&mut self, site: usize, n: u32) {
        elems::arm_panic(site, n);
    }

    /// Result of a guarded call: unexpected panics become failures.
    fn call<T>(&mut self, armed: Armed, f: impl FnOnce(&mut dyn DynVec) -> T) -> R<Done<T>> {
        let dv = &mut *self.dv;
        match guarded(|| f(dv)) {
            Ok(v) => Ok(Done::Ok(v)),
            Err(msg) => {
                let (_, refused) = alloc::disarm();
                                let fired = elems::fired();
                match armed {
                    Armed::Fault if refused > 0 => {
                        ensure!(ALLOC_ERROR.get(), "the allocator's refusal was not handed to the allocation-error handler: panicked with {msg}");
                        self.st.faults += 1;
                        self.slack = true;
                        Ok(Done::Panicked)
                    }
                    Armed::Panic if fired > 0 => {
                        self.slack = true;
                        Ok(Done::Panicked)
                    }
                    _ => Err(format!("panicked: {msg}")),
                }
            }
        }
    }

    /// After an aborted operation the vector must be one of the given lists; adopts it.
    fn adopt(&mut self, w: usize, choices: Vec<Vec<Val>>, what: &str) -> R {
        let mut first = None;
        for c in choices {
            elems::take_error();
            match self.matches(w, &c) {
                Ok(_) => {
                    self.model[w] = c;
                    return Ok(());
                }
                Err(e) => {
                    if first.is_none() {
                        first = Some(e);
                    }
                }
            }
        }
        Err(format!("after {what} the vector is not a valid list: {}", first.unwrap_or_default()))
    }

    // ------------------------------------------------------------ operations

    fn fits(&self, fig: &Fig, size: usize, align: usize) -> bool {
        let room = match self.info.strat {
            Strat::Padded => pad(size, fig.align),
            _ => size,
        };
        fig.len < fig.cap && align <= fig.align && fig.bytes + room <= fig.bcap
    }

    /// Elements `0..n` did not move, and no capacity changed.
    fn unmoved(&self, w: usize, before: &Fig, addrs: &[usize], n: usize, what: &str) -> R {
        let f = self.dv.fig(w);
        ensure!(
            (f.cap, f.bcap, f.align) == (before.cap, before.bcap, before.align),
            "{what}: capacities (elements, bytes, align) {:?} became {:?}",
            (before.cap, before.bcap, before.align),
            (f.cap, f.bcap, f.align)
        );
        for i in 0..n {
            let a = self.dv.at(w, i, 0).map(|x| x.1);
            ensure!(a == Some(addrs[i]), "{what}: element {i} moved");
        }
        Ok(())
    }

    fn addrs(&self, w: usize) -> Vec<usize> {
        (0..self.model[w].len()).map(|i| self.dv.at(w, i, 0).map_or(0, |x| x.1)).collect()
    }

    fn op_add(&mut self, w: usize, at: Option<usize>, armed: Armed) -> R {
        let mut how = self.how();
        if armed == Armed::Panic && self.src.bool(3, 4) {
            how = How::Hand;
        }
        let s = self.spec();
        trace(|| {
            let place = at.map_or("push".to_string(), |i| format!("insert({i})"));
            let src = match how {
                How::Special(n) => self.dv.source_name(n).to_string(),
                h => format!("{h:?}"),
            };
            format!("vec[{w}].{place} {s:?} by {src}")
        });
        let before = self.dv.fig(w);
        let addrs = self.addrs(w);
        let mut out = None;
        let c0 = counts();
        let mut done = self.call(armed, |dv| dv.add(w, at, how, &s, &mut out))?;
        if let Done::Ok(false) = done {
            how = How::ByValue;
            out = None;
            done = self.call(armed, |dv| dv.add(w, at, how, &s, &mut out))?;
        }
        let c1 = counts();
        match done {
            Done::Ok(_) => {
                let Some(val) = out else { return Err("harness: no value".into()) };
                let fig = self.dv.fig(w);
                if self.fits(&before, val.size, val.align) {
                    self.st.in_capacity += 1;
                    ensure!(c1.calls == c0.calls, "value fits the capacities {before:?}, but the allocator was called {} times", c1.calls - c0.calls);
                    let n = at.unwrap_or(addrs.len());
                    self.unmoved(w, &before, &addrs, n, "value fits the capacities")?;
                } else {
                    ensure!(
                        fig.cap >= before.cap && fig.bcap >= before.bcap && fig.align >= before.align,
                        "adding an element lowered a capacity: {before:?} to {fig:?}"
                    );
                    self.st.grew += 1;
                    if fig.align > before.align && before.len > 0 {
                        self.st.realigned += 1;
                    }
                }
                match at {
                    None => self.model[w].push(val),
                    Some(i) => {
                        if i < self.model[w].len() {
                            self.st.mid_insert += 1;
                        }
                        self.model[w].insert(i, val)
                    }
                }
                Ok(())
            }
            Done::Panicked => {
                let old = self.model[w].clone();
                self.adopt(w, vec![old], "an aborted insertion")
            }
        }
    }

    fn op_take(&mut self, w: usize, at: Option<usize>, armed: Armed) -> R {
        let mut recv = self.recv();
        if armed == Armed::Panic {
            recv = [recv, Recv::Drop, Recv::Null, Recv::PanicEmplacer][self.src.below(4) as usize];
        }
        trace(|| format!("vec[{w}].{} to {recv:?}", at.map_or("pop".to_string(), |i| format!("remove({i})"))));
        let before = self.dv.fig(w);
        let addrs = self.addrs(w);
        let old = self.model[w].clone();
        let mut out = Taken::default();
        let c0 = counts();
        let done = self.call(armed, |dv| dv.take(w, at, recv, &mut out))?;
        let c1 = counts();
        let n = old.len();
        if let Done::Panicked = done {
            let mut without = old.clone();
            match at {
                None => without.pop().map(drop),
                Some(i) => Some(drop(without.remove(i))),
            };
            return self.adopt(w, vec![without, old], "an aborted removal");
        }
        if out.none {
            ensure!(n == 0 && at.is_none(), "pop_into is None on a vector of {n}");
            self.unmoved(w, &before, &addrs, n, "pop on an empty vector")?;
            return Ok(());
        }
        ensure!(n > 0, "pop_into on an empty vector is Some");
        let i = at.unwrap_or(n - 1);
        let want = self.model[w].remove(i);
        if i + 1 < n {
            self.st.mid_remove += 1;
        }
        if let Some(v) = &out.val {
            ensure!(*v == want, "removed element {i} arrived as {v:?}, the list has {want:?}");
        }
        if let Some(l) = out.layout {
            ensure!(l == (want.size, want.align), "emplacer told layout {l:?}, the element is {want:?}");
        }
        if out.forgotten {
            elems::forgotten(&want.ids, want.z);
            self.leaked += want.ids.len();
        }
        match recv {
            Recv::Drop | Recv::Forget | Recv::Null | Recv::Decline | Recv::PanicEmplacer => {
                ensure!(c1.calls == c0.calls, "removing an element called the allocator")
            }
            Recv::Box | Recv::Pin => ensure!(c1.calls - c0.calls <= 1, "removing into a box made {} allocator calls", c1.calls - c0.calls),
            _ => {}
        }
        self.unmoved(w, &before, &addrs, i, "removal")
    }

    fn op_mutate(&mut self, w: usize) -> R {
        let n = self.model[w].len();
        if n == 0 {
            return Ok(());
        }
        let i = self.index(n);
        let how = self.src.below(6);
        let salt = self.src.range(1, 255) as u8;
        trace(|| format!("vec[{w}]: change element {i} (path {how}, salt {salt})"));
        let before = self.dv.fig(w);
        let addrs = self.addrs(w);
        self.call(Armed::No, |dv| dv.mutate(w, i, how, salt))?;
        self.dv.mutate_val(&mut self.model[w][i], salt);
        self.unmoved(w, &before, &addrs, n, "in-place change")
    }

    /// An alignment beyond what an allocator would ever hand out costs nothing while no bytes are
    /// reserved: it is recorded, kept by a shrink that asks for it, and given up by the next one.
    fn op_align_only(&mut self, w: usize) -> R {
        let which = 8 + self.src.below(4);
        let a = self.amount(false) % 40;
        let c = 1usize << self.src.below(64);
        let keep = 1usize << self.src.below(64);
        self.do_reserve(w, which, a, 0, c, Armed::No)?;
        ensure!(self.dv.fig(w).bcap == 0, "reserving no bytes took byte_capacity() from 0 to {}", self.dv.fig(w).bcap);
        let how = 1 + self.src.below(2);
        self.do_shrink(w, how, 0, 0, 1, Armed::No)?;
        self.do_shrink(w, 3, 0, 0, keep, Armed::No)?;
        self.do_shrink(w, 0, 0, 0, 1, Armed::No)
    }

    fn op_reserve(&mut self, w: usize, armed: Armed) -> R {
        if self.info.strat == Strat::Padded && armed == Armed::No && self.dv.fig(w).bcap == 0 && self.src.bool(1, 8) {
            return self.op_align_only(w);
        }
        let which = self.src.below(12);
        let a = self.amount(false);
        let b = if which >= 4 { self.amount(true) } else { 0 };
        let c = if which >= 8 { self.alignment() } else { 1 };
        self.do_reserve(w, which, a, b, c, armed)
    }

    fn do_reserve(&mut self, w: usize, which: u32, a: usize, b: usize, c: usize, armed: Armed) -> R {
        let exact = which % 2 == 1;
        let fallible = which % 4 >= 2;
        trace(|| {
            format!(
                "vec[{w}].{}reserve{}{}({a}, {b}, {c})",
                if fallible { "try_" } else { "" },
                if exact { "_exact" } else { "" },
                ["", "_capacity_bytes", "_capacity_bytes_align"][(which / 4) as usize]
            )
        });
        let padded = self.info.strat == Strat::Padded;
        let zst = self.info.size == Some(0);
        let before = self.dv.fig(w);
        let addrs = self.addrs(w);
        let n = addrs.len();
        let want_c = if padded { c } else { 1 };
        let room = a <= before.cap - before.len && b <= before.bcap - before.bytes && want_c <= before.align;
        let c0 = counts();
        let old = self.model[w].clone();
        if zst && b > 0 {
            // elements without size can never take up bytes: success and refusal are both in order
            let r = guarded(|| self.dv.reserve(w, which, a, b, c));
            if let Err(m) = r {
                ensure!(!fallible, "a try_ function panicked: {m}");
            }
            return self.adopt(w, vec![old], "a byte reservation for elements without size");
        }
        let done = self.call(armed, |dv| dv.reserve(w, which, a, b, c))?;
        let c1 = counts();
        let r = match done {
            Done::Panicked => {
                ensure!(!fallible, "a try_ function panicked when the allocator refused");
                return self.adopt(w, vec![old], "a failed reservation");
            }
            Done::Ok(r) => r,
        };
        let f = self.dv.fig(w);
        if let Err(e) = r {
            let (_, refused) = alloc::disarm();
            ensure!(armed == Armed::Fault && refused > 0, "reservation failed with {e} although the allocator refused nothing");
            ensure!(fallible, "harness");
            self.st.faults += 1;
            return Ok(());
        }
        ensure!(f.cap - f.len >= a, "reserved room for {a} more elements, capacity() is {} with len() {}", f.cap, f.len);
        ensure!(zst || f.bcap - f.bytes >= b, "reserved {b} more bytes, byte_capacity() is {} with byte_len() {}", f.bcap, f.bytes);
        ensure!(f.align >= want_c, "reserved alignment {c}, align() is {}", f.align);
        ensure!(
            f.cap >= before.cap && f.bcap >= before.bcap && f.align >= before.align,
            "a reservation lowered a capacity: {before:?} to {f:?}"
        );
        if room && !zst {
            ensure!(c1.calls == c0.calls, "the room was already there, but the allocator was called");
            self.unmoved(w, &before, &addrs, n, "the room was already there")?;
        } else {
            self.st.grew += 1;
            if f.align > before.align && n > 0 {
                self.st.realigned += 1;
            }
        }
        if exact && !zst && armed == Armed::No {
            // asked for, up to alignment padding
            let al = f.align;
            let need_len = match self.info.size {
                Some(s) => f.len + a.max(b.div_ceil(s)),
                None => f.len + a,
            };
            ensure!(f.cap <= before.cap.max(need_len), "an exact reservation of {a} elements took capacity() from {} to {} (len() {})", before.cap, f.cap, f.len);
            if self.info.strat != Strat::Sized {
                // re-aligning may turn unused bytes into padding and back
                let base = before.bcap + (f.bytes - before.bytes.min(f.bytes));
                let lim = base.max(f.bytes + b).saturating_add(al.saturating_mul(2));
                let lim = if f.align == before.align { before.bcap.max((f.bytes + b).saturating_add(al)) } else { lim };
                ensure!(
                    f.bcap <= lim,
                    "an exact reservation of {b} bytes took byte_capacity() from {} to {} (byte_len() {})",
                    before.bcap,
                    f.bcap,
                    f.bytes
                );
            }
        }
        Ok(())
    }

    fn op_shrink(&mut self, w: usize, armed: Armed) -> R {
        let which = self.src.below(4);
        let n = self.model[w].len();
        let bytes = self.dv.fig(w).bytes;
        let near = self.src.bool(1, 2);
        let mut a = if which >= 1 { self.amount(false) } else { 0 };
        let mut b = if which >= 2 { self.amount(true) } else { 0 };
        let c = match which {
            0..3 => 1,
            _ if self.src.bool(1, 8) => 1 << self.src.below(64),
            _ => self.alignment(),
        };
        if near && which >= 1 {
            a = (n + a % 5).saturating_sub(2);
            if which >= 2 {
                b = (bytes + b % 40).saturating_sub(20);
            }
        }
        self.do_shrink(w, which, a, b, c, armed)
    }

    fn do_shrink(&mut self, w: usize, which: u32, a: usize, b: usize, c: usize, armed: Armed) -> R {
        trace(|| {
            format!("vec[{w}].{}({a}, {b}, {c})", ["shrink_to_fit", "shrink_to", "shrink_capacity_bytes_to", "shrink_capacity_bytes_align_to"][which as usize])
        });
        let padded = self.info.strat == Strat::Padded;
        let sized = self.info.strat == Strat::Sized;
        let zst = self.info.size == Some(0);
        let before = self.dv.fig(w);
        let max_align = self.model[w].iter().map(|v| v.align).max().unwrap_or(1);
        let done = self.call(armed, |dv| dv.shrink(w, which, a, b, c))?;
        let old = self.model[w].clone();
        let mut refused = alloc::disarm().1 > 0;
        match done {
            Done::Panicked => return self.adopt(w, vec![old], "a refused shrink"),
            Done::Ok(()) => {}
        }
        refused |= armed == Armed::Fault;
        self.adopt(w, vec![old], "a shrink")?;
        let f = self.dv.fig(w);
        self.st.shrunk += 1;
        ensure!(
            f.cap <= before.cap && f.bcap <= before.bcap && f.align <= before.align && f.bytes <= before.bytes,
            "shrinking raised a figure: {before:?} to {f:?}"
        );
        if zst {
            return Ok(());
        }
        let (min_a, min_b, min_c) = match which {
            0 => (0, 0, 1),
            1 => (a, if sized { 0 } else { usize::MAX }, usize::MAX),
            2 => (a, b, usize::MAX),
            _ => (a, b, c),
        };
        // lower bounds
        ensure!(f.cap >= before.cap.min(min_a.max(f.len)), "capacity() went from {} to {}, minimum {min_a}, len {}", before.cap, f.cap, f.len);
        ensure!(f.bcap >= before.bcap.min(min_b.max(f.bytes)), "byte_capacity() went from {} to {}, minimum {min_b}, byte_len {}", before.bcap, f.bcap, f.bytes);
        if padded {
            ensure!(f.align >= before.align.min(min_c.max(max_align)), "align() went from {} to {}, minimum {min_c}, elements need {max_align}", before.align, f.align);
        }
        if refused {
            return Ok(());
        }
        // really shrinks
        if sized {
            let s = self.info.size.unwrap();
            let lim = f.len.max(min_a).max(if which >= 2 { min_b.div_ceil(s) } else { 0 });
            ensure!(f.cap <= before.cap.min(lim), "{} left capacity() {} where {lim} is enough", ["shrink_to_fit", "shrink_to", "shrink_capacity_bytes_to", "shrink_capacity_bytes_align_to"][which as usize], f.cap);
        } else {
            let lim = before.cap.min(f.len.max(min_a));
            ensure!(f.cap <= lim, "left capacity() {} where {lim} is enough", f.cap);
            if which != 1 {
                let lim = before.bcap.min(f.bytes.max(min_b).saturating_add(f.align - 1));
                ensure!(f.bcap <= lim, "left byte_capacity() {} where {lim} is enough (byte_len {})", f.bcap, f.bytes);
            }
            if which == 0 {
                ensure!(f.bcap - f.bytes < f.align.max(1), "shrink_to_fit left {} unused bytes", f.bcap - f.bytes);
            }
            if padded && (which == 0 || which == 3) {
                let lim = before.align.min(max_align.max(min_c));
                ensure!(f.align <= lim, "left align() {} where {lim} is enough", f.align);
            }
        }
        Ok(())
    }

    fn op_transfer(&mut self, from: usize, armed: Armed) -> R {
        let to = 1 - from;
        let n = self.model[from].len();
        if n == 0 {
            return Ok(());
        }
        let at = if self.src.bool(1, 2) { Some(self.index(n)) } else { None };
        let m = self.model[to].len();
        let dest = if self.src.bool(1, 2) { Some(self.index(m + 1)) } else { None };
        trace(|| format!("vec[{from}].{} into vec[{to}] {}", at.map_or("pop".into(), |i| format!("remove({i})")), dest.map_or("push_with".into(), |j| format!("insert_with({j})"))));
        let before = self.dv.fig(from);
        let before_to = self.dv.fig(to);
        let addrs = self.addrs(from);
        let addrs_to = self.addrs(to);
        let c0 = counts();
        let done = self.call(armed, |dv| dv.transfer(from, at, dest))?;
        let c1 = counts();
        let i = at.unwrap_or(n - 1);
        if let Done::Panicked = done {
            let old = self.model[from].clone();
            let mut without = old.clone();
            let val = without.remove(i);
            self.adopt(from, vec![without, old], "an aborted transfer (source)")?;
            let old_to = self.model[to].clone();
            let mut with = old_to.clone();
            with.insert(dest.unwrap_or(m), val.clone());
            let choices = if self.model[from].len() == n { vec![old_to] } else { vec![old_to, with] };
            return self.adopt(to, choices, "an aborted transfer (destination)");
        }
        let val = self.model[from].remove(i);
        let fits = self.fits(&before_to, val.size, val.align);
        self.model[to].insert(dest.unwrap_or(m), val);
        self.st.transfers += 1;
        self.unmoved(from, &before, &addrs, i, "transfer (source)")?;
        if fits {
            ensure!(c1.calls == c0.calls, "transferred value fits the capacities, but the allocator was called");
            self.unmoved(to, &before_to, &addrs_to, dest.unwrap_or(m), "transfer (destination)")?;
        }
        Ok(())
    }

    fn op_extend(&mut self, w: usize, armed: Armed) -> R {
        let how = self.src.below(3);
        let k = if self.big { self.src.below(40) } else { self.src.below(8) };
        let specs: Vec<Spec> = (0..k).map(|_| self.spec()).collect();
        trace(|| format!("vec[{w}].extend #{how} {specs:?}"));
        let before = self.dv.fig(w);
        let addrs = self.addrs(w);
        let mut out = Vec::new();
        let c0 = counts();
        let done = self.call(armed, |dv| dv.extend(w, how, &specs, &mut out))?;
        let c1 = counts();
        if let Done::Panicked = done {
            let old = self.model[w].clone();
            let mut choices = Vec::new();
            for m in 0..=out.len() {
                let mut c = old.clone();
                c.extend_from_slice(&out[..m]);
                choices.push(c);
            }
            return self.adopt(w, choices, "an aborted extend");
        }
        let bytes: usize = out
            .iter()
            .map(|v| if self.info.strat == Strat::Padded { pad(v.size, before.align) } else { v.size })
            .sum();
        if before.len + out.len() <= before.cap && before.bytes + bytes <= before.bcap && out.iter().all(|v| v.align <= before.align) {
            ensure!(c1.calls == c0.calls, "the extension fits the capacities, but the allocator was called");
            self.unmoved(w, &before, &addrs, addrs.len(), "the extension fits the capacities")?;
            self.st.in_capacity += 1;
        } else {
            let f = self.dv.fig(w);
            ensure!(f.cap >= before.cap && f.bcap >= before.bcap && f.align >= before.align, "extending lowered a capacity");
        }
        self.model[w].append(&mut out);
        Ok(())
    }

    fn op_script(&mut self, w: usize) -> R {
        let steps = self.src.below(8);
        let mut ops: Vec<ItOp> = Vec::new();
        for _ in 0..steps {
            let op = self.src.weighted(&[6, 6, 5, 5, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2]) as u32;
            let k = match self.src.below(24) {
                0..4 => self.src.below(20),
                4 => u32::MAX - self.src.below(3),
                _ => self.src.below(3),
            };
            ops.push((op, k));
        }
        if self.src.bool(2, 3) {
            let op = self.src.range(IT_STEPS, IT_ALL - 1);
            let k = if matches!(op, 24 | 26) && self.src.bool(1, 6) { u32::MAX - self.src.below(3) } else { self.src.below(4) };
            ops.push((op, k));
        }
        self.script_with(w, &ops)
    }

    pub fn script_with(&mut self, w: usize, ops: &[ItOp]) -> R {
        let kind = self.src.below(4);
        let salt = if kind >= 2 && self.src.bool(1, 2) { Some(self.src.range(1, 255) as u8) } else { None };
        trace(|| {
            let arg = |k: u32| if k >= u32::MAX - 2 { format!("usize::MAX - {}", u32::MAX - k) } else { k.to_string() };
            let l: Vec<String> = ops.iter().map(|&(o, k)| format!("{}({})", it_name(o), arg(k))).collect();
            format!("vec[{w}].{}: {}", ["iter", "into_iter (ref)", "iter_mut", "into_iter (mut)"][kind as usize], l.join(" "))
        });
        self.st.iter_steps += ops.len() as u32;
        let addrs = self.addrs(w);
        let idx: Vec<usize> = (0..addrs.len()).collect();
        let mut order = Vec::new();
        let f = |&i: &usize| {
            order.push(i);
            order.len() - 1
        };
        let expect = run_script(Box::new(Obs { it: idx.iter(), f }), ops);
        let got = guarded(|| self.dv.script(w, kind, ops, salt)).map_err(|e| format!("iterator panicked: {e}"))?;
        if let Some(e) = elems::take_error() {
            return Err(format!("through an iterator: {e}"));
        }
        // values as they were when each was yielded
        let mut at_yield = Vec::new();
        for (n, &i) in order.iter().enumerate() {
            if let Some(s) = salt {
                self.dv.mutate_val(&mut self.model[w][i], s.wrapping_add((n as u8).wrapping_mul(2)) | 1);
            }
            at_yield.push((self.model[w][i].clone(), addrs[i]));
        }
        let expect: Vec<Ev<(Val, usize)>> = expect
            .into_iter()
            .map(|e| match e {
                Ev::Item(x) => Ev::Item(x.map(|n| at_yield[n].clone())),
                Ev::Many(v) => Ev::Many(v.into_iter().map(|n| at_yield[n].clone()).collect()),
                Ev::Num(n) => Ev::Num(n),
                Ev::Len(a, b, c) => Ev::Len(a, b, c),
                Ev::Flag(b) => Ev::Flag(b),
            })
            .collect();
        if expect != got {
            let n = expect.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(expect.len().min(got.len()));
            return Err(format!("iterator answer {n}: got {:?}, a slice iterator gives {:?}", got.get(n), expect.get(n)));
        }
        Ok(())
    }

    fn op_fresh(&mut self, w: usize) -> R {
        let how = self.src.below(6);
        if how == 5 {
            let k = self.src.below(8);
            let specs: Vec<Spec> = (0..k).map(|_| self.spec()).collect();
            trace(|| format!("vec[{w}] = collect {specs:?}"));
            let mut out = Vec::new();
            self.call(Armed::No, |dv| dv.collect(w, &specs, &mut out))?;
            self.model[w] = out;
            return Ok(());
        }
        let a = self.amount(false);
        let b = self.amount(true);
        let c = self.alignment();
        let zst = self.info.size == Some(0);
        let b = if zst { 0 } else { b };
        trace(|| format!("vec[{w}] = {}({a}, {b}, {c})", ["new", "default", "with_capacity", "with_capacity_bytes", "with_capacity_bytes_align"][how as usize]));
        let c0 = counts();
        self.call(Armed::No, |dv| dv.fresh(w, how, a, b, c))?;
        let c1 = counts();
        self.model[w].clear();
        let f = self.dv.fig(w);
        ensure!(f.len == 0 && f.bytes == 0 && f.empty, "a new vector has figures {f:?}");
        if how < 2 {
            ensure!(c1.calls == c0.calls, "new() allocated");
            ensure!((f.cap == 0 || zst) && f.bcap == 0, "new() has capacities {f:?}");
        } else {
            ensure!(f.cap >= a, "with_capacity({a}) has capacity() {}", f.cap);
            if how >= 3 {
                ensure!(f.bcap >= b, "with_capacity_bytes({a}, {b}) has byte_capacity() {}", f.bcap);
            }
            if how == 4 && self.info.strat == Strat::Padded {
                ensure!(f.align >= c, "with_capacity_bytes_align({a}, {b}, {c}) has align() {}", f.align);
            }
            // constructors reserve exactly
            if !zst {
                let lim = match self.info.size {
                    Some(s) => a.max(if how >= 3 { b.div_ceil(s) } else { 0 }),
                    None => a,
                };
                ensure!(f.cap <= lim, "a vector made for {a} elements, {b} bytes has capacity() {}", f.cap);
                if self.info.strat != Strat::Sized {
                    let b = if how >= 3 { b } else { 0 };
                    ensure!(f.bcap < b + f.align.max(1), "a vector made for {b} bytes has byte_capacity() {}", f.bcap);
                }
            }
        }
        Ok(())
    }

    fn op_drop(&mut self, w: usize) -> R {
        trace(|| format!("drop vec[{w}]"));
        self.call(Armed::Panic, |dv| dv.drop_one(w))?;
        self.model[w].clear();
        Ok(())
    }

    fn op_convert(&mut self, w: usize) -> R {
        let src: *mut Src = self.src;
        // the conversion draws its own choices
        let dv = &mut *self.dv;
        let r = guarded(|| dv.convert(w, unsafe { &mut *src })).map_err(|e| format!("panicked: {e}"))?;
        if let Some((m, name)) = r {
            trace(|| format!("vec[{w}] = {} elements by {name}", m.len()));
            self.model[w] = m;
        }
        Ok(())
    }

    /// Calls that must be rejected and change nothing.
    fn op_invalid(&mut self, w: usize) -> R {
        let n = self.model[w].len();
        let before = self.dv.fig(w);
        let addrs = self.addrs(w);
        let kind = self.src.below(9);
        let beyond = match self.src.below(5) {
            0 => 0,
            1 => 1,
            2 => self.src.below(100) as usize,
            3 => usize::MAX - n,
            _ => (1usize << 63) - n.min(1 << 20),
        };
        let old = self.model[w].clone();
        self.st.rejected += 1;
        match kind {
            0 => {
                trace(|| format!("vec[{w}]: get({}) beyond the end", n.wrapping_add(beyond)));
                ensure!(self.dv.at(w, n.saturating_add(beyond), 0).is_none(), "get({}) with len {n} is not None", n.saturating_add(beyond));
            }
            1 => {
                let i = n.saturating_add(beyond);
                trace(|| format!("vec[{w}][{i}] with len {n}"));
                let r = guarded(|| self.dv.at(w, i, 1));
                ensure!(r.is_err(), "indexing with {i} does not panic, len is {n}");
            }
            2 | 3 => {
                let i = n.saturating_add(beyond);
                let how = if kind == 2 { 0 } else { 1 };
                trace(|| format!("vec[{w}]: {} with {i}, len {n}", if how == 0 { "get_mut" } else { "index_mut" }));
                let r = guarded(|| self.dv.mutate(w, i, how, 1));
                ensure!(r.is_err(), "mutable access to index {i} is not rejected, len is {n}");
            }
            4 => {
                let i = n.saturating_add(beyond);
                let recv = self.recv();
                trace(|| format!("vec[{w}].remove_into({i}) with len {n}, to {recv:?}"));
                let mut out = Taken::default();
                let r = guarded(|| self.dv.take(w, Some(i), recv, &mut out));
                ensure!(r.is_err(), "remove_into({i}) with len {n} does not panic");
            }
            5 | 6 => {
                let i = n.saturating_add(beyond).saturating_add(1);
                let how = self.how();
                let s = self.spec();
                trace(|| format!("vec[{w}].insert({i}) with len {n}, {s:?} by {how:?}"));
                let mut out = None;
                let r = guarded(|| self.dv.add(w, Some(i), how, &s, &mut out));
                ensure!(r != Ok(true), "insert({i}) with len {n} does not panic");
            }
            7 => {
                if n == 0 {
                    let recv = self.recv();
                    trace(|| format!("vec[{w}].pop_into() on an empty vector"));
                    let mut out = Taken::default();
                    guarded(|| self.dv.take(w, None, recv, &mut out)).map_err(|e| format!("pop_into on an empty vector panicked: {e}"))?;
                    ensure!(out.none, "pop_into on an empty vector is Some");
                }
            }
            _ => {
                let a = self.amount(false);
                let b = self.amount(true);
                let c = match self.src.below(5) {
                    0 => 0,
                    1 => 3,
                    2 => usize::MAX,
                    3 => (1 << 63) + 1,
                    _ => self.src.range(1, 500) as usize * 2 + 4,
                };
                if c.is_power_of_two() || self.info.strat != Strat::Padded {
                    return Ok(());
                }
                let which = self.src.below(6);
                trace(|| format!("vec[{w}]: alignment {c} (call {which}, {a}, {b})"));
                let r = match which {
                    0..=3 => guarded(|| self.dv.reserve(w, 8 + which, a, b, c)).map(drop),
                    4 => guarded(|| self.dv.shrink(w, 3, a, b, c)),
                    _ => {
                        if n > 0 {
                            return Ok(());
                        }
                        guarded(|| self.dv.fresh(w, 4, a, b, c))
                    }
                };
                ensure!(r.is_err(), "alignment {c}, not a power of two, is accepted");
                self.adopt(w, vec![old], "a rejected call")?;
                return Ok(());
            }
        }
        let f = self.dv.fig(w);
        ensure!(f.len == n && f.bytes == before.bytes, "a rejected call changed the vector: {before:?} to {f:?}");
        self.adopt(w, vec![old], "a rejected call")?;
        let _ = addrs;
        Ok(())
    }

    /// Impossible requests.
    fn op_overflow(&mut self, w: usize) -> R {
        let which = self.src.below(12);
        let huge = |m: &mut Self| match m.src.below(6) {
            0 => usize::MAX,
            1 => isize::MAX as usize,
            2 => isize::MAX as usize + 1,
            3 => usize::MAX - m.src.below(200) as usize,
            4 => isize::MAX as usize - m.src.below(200) as usize,
            _ => 1usize << m.src.range(32, 63),
        };
        let zst = self.info.size == Some(0);
        let in_bytes = which >= 4 && self.src.bool(1, 2);
        let a = if in_bytes { self.amount(false) } else { huge(self) };
        let b = if which < 4 {
            0
        } else if in_bytes || self.src.bool(1, 3) {
            huge(self)
        } else {
            self.amount(true)
        };
        let c = if which < 8 {
            1
        } else if self.src.bool(1, 3) {
            1usize << self.src.range(0, 63)
        } else {
            self.alignment()
        };
        let fallible = which % 4 >= 2;
        trace(|| format!("vec[{w}]: impossible reservation #{which} ({a}, {b}, {c})"));
        let n = self.model[w].len();
        let r = guarded(|| self.dv.reserve(w, which, a, b, c));
        let old = self.model[w].clone();
        let f = self.dv.fig(w);
        match r {
            Err(m) => {
                ensure!(!fallible, "a try_ function panicked: {m}");
                ensure!(!zst || b > 0 || n.checked_add(a).is_none(), "reserving {a} elements of size zero panicked: {m}");
                // whatever the order in which the two are looked at
                let never = |x: usize| x > isize::MAX as usize;
                if !zst && c <= 1 << 12 && (never(a) || never(b)) && (never(a) || a < 1 << 16) && (never(b) || b < 1 << 16) {
                    ensure!(!ALLOC_ERROR.get(), "an overflowing capacity ended in the allocation-error handler instead of a panic: {m}");
                }
            }
            Ok(Err(_)) => {}
            Ok(Ok(())) => {
                // only possible if nothing needed allocating
                ensure!(f.cap - f.len >= a, "reserving {a} more elements 'succeeded', capacity() is {}", f.cap);
                ensure!(zst || f.bcap - f.bytes >= b, "reserving {b} more bytes 'succeeded', byte_capacity() is {}", f.bcap);
                if !zst {
                    let es = self.info.size.unwrap_or(1);
                    ensure!(a.saturating_mul(es) <= isize::MAX as usize && b <= isize::MAX as usize, "an impossible reservation succeeded");
                }
            }
        }
        ensure!(f.len == n, "a failed reservation changed len()");
        self.st.faults += 1;
        self.adopt(w, vec![old], "an impossible reservation")
    }
}

/// One machine case; returns the failure if there is one.
pub fn case(src: &mut Src, p: &Profile, st: &mut Stats, make: Make) -> R {
    let mut m = Machine::new(src, st, p, make);
    let r = m.check_all().and_then(|_| m.run()).and_then(|_| m.finish());
    let (slack, leaked) = (m.slack, m.leaked);
    if let Err(e) = r {
        std::mem::forget(m);
        return Err(e);
    }
    drop(m);
    EXPECT.with(|e| e.set((slack, leaked)));
    Ok(())
}

thread_local! {
    /// (leaks allowed, blocks leaked on purpose)
    pub static EXPECT: std::cell::Cell<(bool, usize)> = const { std::cell::Cell::new((false, 0)) };
}
