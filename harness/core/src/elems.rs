//! Values the vectors are filled with. Every value carries a pseudo-random payload derived from its
//! spec, and "tokens" whose construction and destruction is recorded.

use crate::src::mix;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- registry

#[derive(Default)]
struct Reg {
    state: Vec<u8>, // per token: 1 live, 2 dropped
    live: usize,
    zlive: i64,
    zmade: u64,
    err: Option<String>,
    /// countdowns (0 = off): panic on the n-th clone / drop / step
    panic_in: [u32; SITES],
    fired: u32,
}

pub const SITES: usize = 4;
pub const CLONE: usize = 0;
pub const DROP: usize = 1;
pub const EMPL: usize = 2;
pub const ITER: usize = 3;

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}

fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    crate::alloc::untracked(|| REG.with(|r| f(&mut r.borrow_mut())))
}

pub fn reset() {
    reg(|r| {
        r.state.clear();
        r.live = 0;
        r.zlive = 0;
        r.zmade = 0;
        r.err = None;
        r.panic_in = [0; SITES];
        r.fired = 0;
    })
}
pub fn live() -> usize {
    reg(|r| r.live)
}
pub fn zlive() -> i64 {
    reg(|r| r.zlive)
}
pub fn is_live(id: u32) -> bool {
    reg(|r| r.state.get(id as usize) == Some(&1))
}
pub fn note_error(m: String) {
    reg(|r| {
        if r.err.is_none() {
            r.err = Some(m);
        }
    })
}
pub fn take_error() -> Option<String> {
    reg(|r| r.err.take())
}
/// Marks a token as gone without its destructor (the value was forgotten on purpose).
pub fn forgotten(ids: &[u32], z: u32) {
    reg(|r| {
        for &i in ids {
            if r.state.get(i as usize) == Some(&1) {
                r.state[i as usize] = 3;
                r.live -= 1;
            } else {
                r.err.get_or_insert(format!("token {i} of a forgotten value is not live: its destructor ran"));
            }
        }
        r.zlive -= z as i64;
    })
}
pub fn arm_panic(site: usize, n: u32) {
    reg(|r| r.panic_in[site] = n)
}
/// Returns how many injected panics fired, and stops injecting.
pub fn disarm_panics() -> u32 {
    reg(|r| {
        r.panic_in = [0; SITES];
        std::mem::take(&mut r.fired)
    })
}
pub fn fired() -> u32 {
    reg(|r| r.fired)
}
pub fn step(site: usize) {
    let fire = reg(|r| {
        if r.panic_in[site] > 0 {
            r.panic_in[site] -= 1;
            if r.panic_in[site] == 0 {
                r.fired += 1;
                return true;
            }
        }
        false
    });
    if fire {
        panic!("injected");
    }
}

fn new_token() -> u32 {
    reg(|r| {
        r.state.push(1);
        r.live += 1;
        (r.state.len() - 1) as u32
    })
}

// ---------------------------------------------------------------- values as the model sees them

/// What can be observed of an element; the model is a list of these.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Val {
    pub kind: u16,
    pub bytes: Vec<u8>,
    pub ids: Vec<u32>,
    pub z: u32,
    pub len: usize,
    pub size: usize,
    pub align: usize,
}

impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{} len{} {}B/a{} [", self.kind, self.len, self.size, self.align)?;
        for b in self.bytes.iter().take(12) {
            write!(f, "{b:02x}")?;
        }
        if self.bytes.len() > 12 {
            write!(f, "..")?;
        }
        write!(f, "]")?;
        if !self.ids.is_empty() {
            write!(f, " tok{:?}", self.ids)?;
        }
        if self.z != 0 {
            write!(f, " z{}", self.z)?;
        }
        Ok(())
    }
}

impl Val {
    pub fn empty(kind: u16, size: usize, align: usize) -> Val {
        Val { kind, bytes: Vec::new(), ids: Vec::new(), z: 0, len: 0, size, align }
    }
    /// Same value apart from token identities (a clone).
    pub fn same_payload(&self, o: &Val) -> bool {
        self.kind == o.kind && self.bytes == o.bytes && self.z == o.z && self.len == o.len && self.ids.len() == o.ids.len()
    }
}

/// Recipe for a value.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Spec {
    pub kind: u16,
    pub len: u16,
    pub seed: u32,
}

pub fn byte_at(seed: u32, i: usize) -> u8 {
    (mix(seed as u64 ^ ((i as u64) << 32)) >> 13) as u8
}

// ---------------------------------------------------------------- element types

pub trait Elem: Sized + 'static {
    const TOKENS: bool = false;
    fn make(seed: u32) -> Self;
    fn obs(&self, v: &mut Val);
    fn mutate(&mut self, salt: u8);
}

fn fill(bytes: &mut [u8], seed: u32) {
    for (i, b) in bytes.iter_mut().enumerate() {
        *b = byte_at(seed, i);
    }
}

pub fn check_addr<T>(p: &T, what: &str) {
    let a = p as *const T as usize;
    if a % std::mem::align_of::<T>() != 0 {
        note_error(format!("{what} seen at address {a:#x}, not aligned to {}", std::mem::align_of::<T>()));
    }
}

impl Elem for u8 {
    fn make(seed: u32) -> Self {
        byte_at(seed, 0)
    }
    fn obs(&self, v: &mut Val) {
        v.bytes.push(*self);
    }
    fn mutate(&mut self, salt: u8) {
        *self ^= salt;
    }
}
impl Elem for u32 {
    fn make(seed: u32) -> Self {
        mix(seed as u64) as u32
    }
    fn obs(&self, v: &mut Val) {
        v.bytes.extend_from_slice(&self.to_le_bytes());
    }
    fn mutate(&mut self, salt: u8) {
        *self ^= u32::from_le_bytes([salt; 4]);
    }
}
impl Elem for u64 {
    fn make(seed: u32) -> Self {
        mix(seed as u64)
    }
    fn obs(&self, v: &mut Val) {
        v.bytes.extend_from_slice(&self.to_le_bytes());
    }
    fn mutate(&mut self, salt: u8) {
        *self ^= u64::from_le_bytes([salt; 8]);
    }
}
impl<const N: usize> Elem for [u8; N] {
    fn make(seed: u32) -> Self {
        let mut a = [0; N];
        fill(&mut a, seed);
        a
    }
    fn obs(&self, v: &mut Val) {
        v.bytes.extend_from_slice(self);
    }
    fn mutate(&mut self, salt: u8) {
        for b in self {
            *b ^= salt;
        }
    }
}
impl Elem for () {
    fn make(_: u32) -> Self {}
    fn obs(&self, _: &mut Val) {}
    fn mutate(&mut self, _: u8) {}
}

macro_rules! bytes_elem {
    ($($name:ident $align:literal $n:literal;)*) => {$(
        #[repr(C, align($align))]
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        pub struct $name(pub [u8; $n]);
        impl Elem for $name {
            fn make(seed: u32) -> Self {
                let mut a = [0; $n];
                fill(&mut a, seed);
                $name(a)
            }
            fn obs(&self, v: &mut Val) {
                check_addr(self, stringify!($name));
                v.bytes.extend_from_slice(&self.0);
            }
            fn mutate(&mut self, salt: u8) {
                for b in &mut self.0 {
                    *b ^= salt;
                }
            }
        }
    )*};
}
bytes_elem! {
    Z1 1 0;
    Z64 64 0;
    Z4096 4096 0;
    B1 1 1;
    B3 1 3;
    H6 2 6;
    W8 8 8;
    B40 1 40;
    W24 4 24;
    A16x48 16 48;
    A32 32 32;
    A64 64 64;
    A64x192 64 192;
    A256 256 256;
    A4096 4096 4096;
}

/// Owns a heap block and a token; notices being dropped twice, being dropped as garbage, and being
/// used after it was dropped.
pub struct Tracked {
    pub id: u32,
    pub pay: u32,
    heap: std::mem::ManuallyDrop<Box<u64>>,
}

impl Tracked {
    pub fn new(pay: u32) -> Tracked {
        let id = new_token();
        Tracked { id, pay, heap: std::mem::ManuallyDrop::new(Box::new(mix(id as u64))) }
    }
    pub fn check(&self) {
        check_addr(self, "Tracked");
        if !is_live(self.id) {
            note_error(format!("value with token {} observed although it is not live (dropped or garbage)", self.id));
        } else if **self.heap != mix(self.id as u64) {
            note_error(format!("heap data of token {} corrupted", self.id));
        }
    }
}
impl Elem for Tracked {
    const TOKENS: bool = true;
    fn make(seed: u32) -> Self {
        Tracked::new(mix(seed as u64) as u32)
    }
    fn obs(&self, v: &mut Val) {
        self.check();
        v.bytes.extend_from_slice(&self.pay.to_le_bytes());
        v.ids.push(self.id);
    }
    fn mutate(&mut self, salt: u8) {
        self.pay ^= u32::from_le_bytes([salt; 4]);
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        check_addr(self, "Tracked");
        let id = self.id;
        let ok = reg(|r| match r.state.get_mut(id as usize) {
            Some(s @ 1) => {
                *s = 2;
                r.live -= 1;
                true
            }
            Some(2) => {
                r.err.get_or_insert(format!("value with token {id} dropped twice"));
                false
            }
            Some(3) => {
                r.err.get_or_insert(format!("value with token {id} dropped although it was forgotten"));
                false
            }
            _ => {
                r.err.get_or_insert(format!("destructor ran on garbage (token {id:#x})"));
                false
            }
        });
        if ok {
            if **self.heap != mix(id as u64) {
                note_error(format!("heap data of token {id} corrupted at drop"));
            }
            unsafe { std::mem::ManuallyDrop::drop(&mut self.heap) };
            step(DROP);
        }
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        self.check();
        step(CLONE);
        Tracked::new(self.pay)
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool {
        self.pay == o.pay
    }
}
impl Eq for Tracked {}
impl PartialOrd for Tracked {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tracked {
    fn cmp(&self, o: &Self) -> Ordering {
        self.pay.cmp(&o.pay)
    }
}
impl Hash for Tracked {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.pay.hash(h)
    }
}
impl std::fmt::Debug for Tracked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "T{}", self.pay)
    }
}

/// Over-aligned value with a token.
#[repr(C, align(16))]
pub struct Pair {
    pub t: Tracked,
    pub b: [u8; 9],
}
impl Elem for Pair {
    const TOKENS: bool = true;
    fn make(seed: u32) -> Self {
        let mut b = [0; 9];
        fill(&mut b, seed ^ 0x55);
        Pair { t: Tracked::make(seed), b }
    }
    fn obs(&self, v: &mut Val) {
        check_addr(self, "Pair");
        self.t.obs(v);
        v.bytes.extend_from_slice(&self.b);
    }
    fn mutate(&mut self, salt: u8) {
        self.t.mutate(salt);
        self.b.mutate(salt);
    }
}

/// Zero-sized value with a destructor.
pub struct ZTok;
impl ZTok {
    pub fn new() -> ZTok {
        reg(|r| {
            r.zlive += 1;
            r.zmade += 1;
        });
        ZTok
    }
}
impl Elem for ZTok {
    const TOKENS: bool = true;
    fn make(_: u32) -> Self {
        ZTok::new()
    }
    fn obs(&self, v: &mut Val) {
        v.z += 1;
    }
    fn mutate(&mut self, _: u8) {}
}
impl Drop for ZTok {
    fn drop(&mut self) {
        reg(|r| {
            r.zlive -= 1;
            if r.zlive < 0 {
                r.err.get_or_insert("more zero-sized values dropped than were made".into());
            }
        });
        step(DROP);
    }
}
impl Clone for ZTok {
    fn clone(&self) -> Self {
        step(CLONE);
        ZTok::new()
    }
}

// ---------------------------------------------------------------- trait objects

pub trait Obj {
    fn kind(&self) -> u16;
    fn observe(&self, v: &mut Val);
    fn change(&mut self, salt: u8);
}

macro_rules! obj_kinds {
    ($($k:literal $t:ty;)*) => {
        $(impl Obj for $t {
            fn kind(&self) -> u16 { $k }
            fn observe(&self, v: &mut Val) {
                check_addr(self, stringify!($t));
                v.kind = $k;
                <$t as Elem>::obs(self, v)
            }
            fn change(&mut self, salt: u8) { <$t as Elem>::mutate(self, salt) }
        })*
        /// Runs the body with `$S` naming the concrete type of the kind.
        macro_rules! with_obj_kind {
            ($$kind:expr, $$S:ident => $$body:expr) => {
                match $$kind {
                    $($k => { type $$S = $t; $$body })*
                    k => unreachable!("kind {k}"),
                }
            };
        }
    };
}
obj_kinds! {
    0 crate::elems::B1;
    1 crate::elems::W8;
    2 crate::elems::B3;
    3 crate::elems::Z1;
    4 crate::elems::Tracked;
    5 crate::elems::B40;
    6 crate::elems::H6;
    7 crate::elems::W24;
    8 crate::elems::A16x48;
    9 crate::elems::Pair;
    10 crate::elems::ZTok;
    11 crate::elems::Z64;
    12 crate::elems::A32;
    13 crate::elems::A64x192;
    14 crate::elems::A256;
    15 crate::elems::A4096;
    16 crate::elems::Z4096;
}
pub(crate) use with_obj_kind;
pub const OBJ_KINDS: u16 = 17;
pub const OBJ_WEIGHTS: [u32; 17] = [10, 10, 8, 5, 10, 5, 6, 6, 6, 6, 4, 4, 5, 4, 2, 1, 1];

// ---------------------------------------------------------------- structs with an unsized tail

#[repr(C)]
pub struct Tail<T: ?Sized> {
    pub head: u16,
    pub tail: T,
}
