//! Checking global allocator.
//!
//! * remembers the layout of every block handed out while a case runs and compares it with the
//!   layout the block comes back with (C03); blocks still there at the end are leaks;
//! * counts calls made inside a `scope` (the call under test), for C05/C06/C09;
//! * can refuse the k-th such call (C09);
//! * fills fresh memory with 0xA5 and freed memory with 0xDD, always moves on realloc, and (without
//!   ASan) surrounds blocks with red zones and aligns them to exactly what was asked for and not more.

use std::alloc::{GlobalAlloc, Layout, System};

pub struct Guard;

const SLOTS: usize = 1 << 19;
/// Requests beyond this are refused like a real allocator would refuse impossible ones.
pub const MAX_BLOCK: usize = 1 << 26;
pub const MAX_ALIGN: usize = 1 << 16;

#[derive(Clone, Copy)]
struct Slot {
    addr: usize, // 0 empty, 1 tombstone
    size: usize,
    align: usize,
}

struct State {
    tracking: bool,
    paused: u32,
    slots: [Slot; SLOTS],
    touched: [u32; SLOTS / 2 + 1],
    used: usize,
    live: usize,
    live_bytes: usize,
    in_scope: bool,
    calls: u64,
    frees: u64,
    moved: u64,
    // fail calls number fail_at .. fail_at + fail_n (1-based) inside scopes
    fail_at: u64,
    fail_n: u64,
    scope_calls: u64,
    failed: u64,
    refused: [(usize, usize); 4],
    err: [u8; 256],
    err_len: usize,
}

static mut ST: State = State {
    tracking: false,
    paused: 0,
    slots: [Slot { addr: 0, size: 0, align: 0 }; SLOTS],
    touched: [0; SLOTS / 2 + 1],
    used: 0,
    live: 0,
    live_bytes: 0,
    in_scope: false,
    calls: 0,
    frees: 0,
    moved: 0,
    fail_at: 0,
    fail_n: 0,
    scope_calls: 0,
    failed: 0,
    refused: [(0, 0); 4],
    err: [0; 256],
    err_len: 0,
};

#[allow(static_mut_refs)]
fn st() -> &'static mut State {
    // single-threaded by construction: workers never start threads
    unsafe { &mut ST }
}

struct Buf;
impl std::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let s_ = st();
        for &b in s.as_bytes() {
            if s_.err_len < s_.err.len() {
                s_.err[s_.err_len] = b;
                s_.err_len += 1;
            }
        }
        Ok(())
    }
}

fn error(args: std::fmt::Arguments<'_>) {
    if st().err_len == 0 {
        let _ = std::fmt::Write::write_fmt(&mut Buf, args);
    }
}

fn hash(a: usize) -> usize {
    (a >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40
}

impl State {
    fn insert(&mut self, addr: usize, l: Layout) {
        if self.used * 2 > SLOTS {
            self.sweep();
        }
        let mut i = hash(addr) % SLOTS;
        loop {
            let s = &mut self.slots[i];
            if s.addr <= 1 {
                if s.addr == 0 {
                    self.touched[self.used] = i as u32;
                    self.used += 1;
                }
                *s = Slot { addr, size: l.size(), align: l.align() };
                self.live += 1;
                self.live_bytes += l.size();
                return;
            }
            i = (i + 1) % SLOTS;
        }
    }
    /// Gets rid of the tombstones.
    #[cold]
    fn sweep(&mut self) {
        static mut KEPT: [Slot; SLOTS / 4] = [Slot { addr: 0, size: 0, align: 0 }; SLOTS / 4];
        let mut n = 0;
        for &i in &self.touched[..self.used] {
            let s = &mut self.slots[i as usize];
            if s.addr > 1 {
                if n == SLOTS / 4 {
                    // more live blocks than any case makes
                    std::process::abort();
                }
                unsafe { KEPT[n] = *s };
                n += 1;
            }
            s.addr = 0;
        }
        self.used = 0;
        self.live = 0;
        self.live_bytes = 0;
        for k in 0..n {
            let s = unsafe { KEPT[k] };
            self.insert(s.addr, unsafe { Layout::from_size_align_unchecked(s.size, s.align) });
        }
    }
    /// Returns the slot for `addr` and removes it.
    fn remove(&mut self, addr: usize) -> Option<Slot> {
        let mut i = hash(addr) % SLOTS;
        loop {
            let s = &mut self.slots[i];
            if s.addr == 0 {
                return None;
            }
            if s.addr == addr {
                let r = *s;
                s.addr = 1;
                self.live -= 1;
                self.live_bytes -= r.size;
                return Some(r);
            }
            i = (i + 1) % SLOTS;
        }
    }
}

#[cfg(not(feature = "asan"))]
mod raw {
    use super::*;
    const TAIL: usize = 64;
    const MAGIC: usize = 0x5AFE_B10C_5AFE_B10C;
    const FREED: usize = 0xDEAD_B10C_DEAD_B10C;
    const QUARANTINE: usize = 512;

    static mut Q: [(usize, usize, usize); QUARANTINE] = [(0, 0, 0); QUARANTINE];
    static mut QI: usize = 0;

    // block: [pad .. | header 32 bytes | user size | TAIL]
    // user % align == 0 and user % (2 * align) == align, so nobody profits from accidental alignment.
    fn outer(l: Layout) -> Layout {
        let a = l.align().max(16);
        unsafe { Layout::from_size_align_unchecked(l.size() + 2 * a + 64 + TAIL, 2 * a) }
    }
    fn front(l: Layout) -> usize {
        let a = l.align().max(16);
        // base is a multiple of 2a; user = base + k with k >= 48, k % 2*align == align
        let al = l.align();
        let mut k = a;
        while k < 48 {
            k += 2 * a;
        }
        // k = a (mod 2a). for al < 16 lower it to be exactly al-aligned
        if al < 16 {
            k + al
        } else {
            k
        }
    }
    pub unsafe fn alloc(l: Layout) -> *mut u8 {
        unsafe {
            let o = outer(l);
            let base = System.alloc(o);
            if base.is_null() {
                return base;
            }
            let u = base.add(front(l));
            let h = u.sub(32).cast::<usize>();
            h.write_unaligned(MAGIC);
            h.add(1).write_unaligned(l.size());
            h.add(2).write_unaligned(l.align());
            h.add(3).write_unaligned(!MAGIC);
            u.add(l.size()).write_bytes(0xFE, TAIL);
            u
        }
    }
    pub unsafe fn check(u: *mut u8, l: Layout) -> bool {
        unsafe {
            let h = u.sub(32).cast::<usize>();
            let m = h.read_unaligned();
            if m == FREED {
                error(format_args!("block {u:p} freed twice"));
                return false;
            }
            let (s, a) = (h.add(1).read_unaligned(), h.add(2).read_unaligned());
            if m != MAGIC || h.add(3).read_unaligned() != !MAGIC {
                error(format_args!("write before block of {} bytes, or free of a pointer never allocated", l.size()));
                return false;
            }
            if (s, a) != (l.size(), l.align()) {
                error(format_args!(
                    "block allocated with size {s} align {a} freed with size {} align {}",
                    l.size(),
                    l.align()
                ));
                return false;
            }
            for i in 0..TAIL {
                if u.add(s + i).read() != 0xFE {
                    error(format_args!("write {i} bytes past the end of a block of {s} bytes"));
                    return false;
                }
            }
            true
        }
    }
    pub unsafe fn dealloc(u: *mut u8, l: Layout) {
        unsafe {
            if !check(u, l) {
                return; // leak it, the error is recorded
            }
            u.sub(32).cast::<usize>().write_unaligned(FREED);
            u.write_bytes(0xDD, l.size());
            let i = QI % QUARANTINE;
            QI = QI.wrapping_add(1);
            let (ou, os, oa) = Q[i];
            Q[i] = (u as usize, l.size(), l.align());
            if ou != 0 {
                let ol = Layout::from_size_align_unchecked(os, oa);
                let u = ou as *mut u8;
                System.dealloc(u.sub(front(ol)), outer(ol));
            }
        }
    }
}

#[cfg(feature = "asan")]
mod raw {
    use super::*;
    pub unsafe fn alloc(l: Layout) -> *mut u8 {
        unsafe { System.alloc(l) }
    }
    pub unsafe fn dealloc(u: *mut u8, l: Layout) {
        unsafe { System.dealloc(u, l) }
    }
}

fn refuse(l: Layout) -> bool {
    let s = st();
    if s.in_scope {
        s.calls += 1;
        s.scope_calls += 1;
        if s.fail_n > 0 && s.scope_calls >= s.fail_at && s.scope_calls < s.fail_at + s.fail_n {
            s.failed += 1;
            note_refused(l);
            return true;
        }
    }
    if l.size() > MAX_BLOCK || l.align() > MAX_ALIGN {
        note_refused(l);
        return true;
    }
    false
}

fn note_refused(l: Layout) {
    let r = &mut st().refused;
    r.rotate_right(1);
    r[0] = (l.size(), l.align());
}

/// Sizes and alignments of the requests refused last, the latest first.
pub fn refused() -> [(usize, usize); 4] {
    st().refused
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            error(format_args!("allocation of zero bytes requested"));
        }
        if refuse(l) {
            return std::ptr::null_mut();
        }
        unsafe {
            let p = raw::alloc(l);
            if !p.is_null() {
                p.write_bytes(0xA5, l.size().min(1 << 16));
                let s = st();
                if s.tracking && s.paused == 0 {
                    s.insert(p as usize, l);
                }
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = st();
        if s.in_scope {
            s.frees += 1;
        }
        let known = if s.tracking { s.remove(p as usize) } else { None };
        if let Some(k) = known {
            if (k.size, k.align) != (l.size(), l.align()) {
                error(format_args!(
                    "block allocated with size {} align {} freed with size {} align {}",
                    k.size,
                    k.align,
                    l.size(),
                    l.align()
                ));
            }
            let l = unsafe { Layout::from_size_align_unchecked(k.size, k.align) };
            unsafe { raw::dealloc(p, l) }
        } else {
            unsafe { raw::dealloc(p, l) }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = unsafe { Layout::from_size_align_unchecked(new, l.align()) };
        if refuse(nl) {
            return std::ptr::null_mut();
        }
        let s = st();
        if s.in_scope {
            s.moved += l.size() as u64;
        }
        let was = s.in_scope;
        s.in_scope = false;
        unsafe {
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            st().in_scope = was;
            q
        }
    }
}

pub fn begin_case() {
    let s = st();
    s.tracking = true;
    s.paused = 0;
    for &i in &s.touched[..s.used] {
        s.slots[i as usize].addr = 0;
    }
    s.used = 0;
    s.live = 0;
    s.live_bytes = 0;
    s.err_len = 0;
    s.in_scope = false;
    disarm();
}

/// Number of blocks (and bytes) allocated since `begin_case` that are still there.
pub fn end_case() -> (usize, usize) {
    let s = st();
    s.tracking = false;
    (s.live, s.live_bytes)
}

/// Blocks allocated since `begin_case` that are still there.
pub fn blocks() -> usize {
    st().live
}

pub fn take_error() -> Option<String> {
    let s = st();
    if s.err_len == 0 {
        return None;
    }
    let m = untracked(|| String::from_utf8_lossy(&st().err[..st().err_len]).into_owned());
    Some(m)
}

/// Runs harness bookkeeping whose allocations outlive the case.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let was = st().in_scope;
    st().in_scope = false;
    st().paused += 1;
    let r = f();
    st().paused -= 1;
    st().in_scope = was;
    r
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Counts {
    pub calls: u64,
    pub frees: u64,
    pub moved: u64,
}

/// Totals over all scopes since the process started.
pub fn counts() -> Counts {
    let s = st();
    Counts { calls: s.calls, frees: s.frees, moved: s.moved }
}

struct Leave;
impl Drop for Leave {
    fn drop(&mut self) {
        st().in_scope = false;
    }
}

/// Runs the call under test; allocator calls in it are counted, and refused when armed.
#[inline]
pub fn scope<R>(f: impl FnOnce() -> R) -> R {
    st().in_scope = true;
    let l = Leave;
    let r = f();
    drop(l);
    r
}

/// Refuse calls number `at`, `at+1`, .. `at+n-1` (1-based) made inside scopes from now on.
pub fn arm(at: u64, n: u64) {
    let s = st();
    s.fail_at = at;
    s.fail_n = n;
    s.scope_calls = 0;
    s.failed = 0;
}

/// Stops refusing; returns (calls seen since arming, calls refused).
pub fn disarm() -> (u64, u64) {
    let s = st();
    let r = (s.scope_calls, s.failed);
    s.fail_n = 0;
    s.scope_calls = 0;
    s.failed = 0;
    r
}

/// Leaves the scope for good until the next one (used when a panic starts inside).
pub fn leave_scope() {
    st().in_scope = false;
    st().fail_n = 0;
}

/// Ends the scope after a caught panic.
pub fn leave_scope_only() {
    st().in_scope = false;
}
