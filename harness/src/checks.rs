//! The properties: which cases decide each, when a case counts as non-trivial, and classes.

use vhcore::emp::Mode;
use vhcore::machine::{self, *};
use vhcore::src::Src;
use vhcore::vecs::DynVec;

fn make(i: usize) -> Box<dyn DynVec> {
    vhfa::make(i).or_else(|| vhfb::make(i)).or_else(|| vhfc::make(i)).or_else(|| vhfd::make(i)).or_else(|| vhfe::make(i)).unwrap()
}


pub const IDS: [&str; 18] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
];

//                        u83 u64 Tr  a64 ()  ZT [u8][u32][Tr][ZT][a32][()]str CSt dyn T8 TTr Tdy Os
const ALL: [u32; NFAM] = [3, 3, 4, 3, 2, 2, 4, 4, 4, 2, 3, 2, 4, 3, 9, 3, 3, 5, 3];
const TOK: [u32; NFAM] = [0, 0, 5, 0, 0, 4, 0, 0, 6, 4, 0, 0, 0, 0, 9, 0, 4, 6, 0];
const DYN: [u32; NFAM] = [1, 1, 1, 3, 1, 1, 2, 3, 2, 1, 4, 1, 1, 1, 14, 4, 4, 9, 2];

//                                push ins pop rem mut rsv shr trf ext scr fre inv flt pan via drn cnv
const GENERAL: [u32; NOPS] = [20, 14, 6, 10, 5, 4, 5, 5, 3, 3, 1, 1, 0, 0, 1, 1, 1];

fn profile(id: &str) -> Profile {
    let mut p = Profile { fams: ALL, ops: GENERAL, max_ops: 24, sites: [0, 4, 3, 1] };
    match id {
        "C02" => {
            p.fams = TOK;
            p.ops = [16, 10, 10, 12, 2, 2, 4, 8, 4, 1, 1, 2, 0, 0, 1, 2, 2];
        }
        "C03" => {
            p.ops = [16, 10, 6, 8, 2, 5, 6, 5, 4, 2, 2, 1, 1, 0, 1, 1, 2];
        }
        "C04" => {
            p.fams = DYN;
            p.ops = [16, 12, 5, 8, 2, 8, 8, 5, 2, 2, 2, 0, 0, 0, 0, 1, 2];
        }
        "C05" => {
            p.ops = [20, 12, 5, 6, 1, 16, 3, 4, 6, 0, 4, 0, 0, 0, 1, 1, 1];
        }
        "C06" => {
            p.ops = [14, 5, 8, 8, 0, 16, 2, 2, 6, 0, 4, 0, 0, 0, 0, 2, 1];
        }
        "C07" => {
            p.ops = [14, 8, 6, 8, 1, 8, 16, 2, 2, 1, 3, 0, 0, 0, 0, 2, 2];
        }
        "C08" => {
            p.ops = [10, 4, 2, 3, 3, 1, 1, 1, 3, 24, 1, 0, 0, 0, 0, 0, 2];
            p.max_ops = 16;
        }
        "C09" => {
            p.ops = [8, 5, 2, 3, 1, 3, 3, 2, 2, 1, 1, 0, 20, 0, 0, 0, 1];
        }
        "C10" => {
            p.fams = TOK;
            p.ops = [10, 6, 2, 3, 1, 2, 2, 3, 2, 1, 1, 0, 0, 14, 0, 0, 1];
        }
        "C12" => {
            p.ops = [8, 6, 4, 6, 3, 3, 5, 3, 3, 3, 1, 0, 0, 0, 5, 3, 10];
        }
        "C13" => {
            p.ops = [8, 5, 3, 4, 1, 2, 2, 2, 1, 1, 1, 20, 0, 0, 0, 0, 1];
        }
        _ => {}
    }
    p
}


/// How often each kind of case runs for a property, in this order:
/// history, emplacable, clone panics, comparison, growth, conversions, lying iterators, boxing and macros, many emplacables.
fn mix(id: &str) -> [u32; 10] {
    match id {
        "C02" => [12, 3, 0, 0, 0, 0, 1, 1, 1, 0],
        "C03" => [10, 4, 1, 1, 0, 1, 1, 1, 1, 0],
        "C05" => [1, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        "C06" => [200, 0, 0, 0, 1, 0, 0, 0, 0, 0],
        "C10" => [8, 3, 2, 0, 0, 0, 2, 1, 0, 0],
        "C11" => [0, 0, 0, 1, 0, 0, 0, 0, 0, 0],
        "C12" => [3, 0, 0, 0, 0, 2, 0, 0, 0, 0],
        "C14" => [0, 4, 0, 0, 0, 0, 0, 0, 1, 0],
        "C15" => [2, 8, 0, 0, 0, 0, 4, 2, 2, 0],
        "C16" => [0, 0, 0, 0, 0, 0, 0, 1, 0, 0],
        "C17" => [0, 1, 0, 0, 0, 0, 0, 0, 0, 0],
        "C18" => [3, 0, 0, 0, 0, 0, 0, 0, 0, 1],
        _ => [1, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    }
}

const KINDS: [&str; 10] = ["history", "emplacable", "panicking clone", "comparison", "growth", "conversion", "lying iterator", "boxing and macros", "many emplacables", "costs"];

fn emplacable(src: &mut Src, st: &mut Stats, mode: Mode) -> R {
    //                u83 u64 Tr a64 () ZT [u8][u32][Tr][ZT][a32][()]str CSt dyn T8 TTr Tdy Os Path
    let i = src.weighted(&[2, 2, 4, 3, 2, 3, 4, 3, 7, 3, 4, 2, 4, 3, 4, 3, 4, 4, 3, 2]);
    vhha::case(i, src, st, mode)
        .or_else(|| vhhb::case(i, src, st, mode))
        .or_else(|| vhhc::case(i, src, st, mode))
        .or_else(|| vhhd::case(i, src, st, mode))
        .or_else(|| vhhe::case(i, src, st, mode))
        .unwrap()
}

pub fn case(id: &str, src: &mut Src, st: &mut Stats) -> R {
    let m = mix(id);
    let kind = src.weighted(&m);
    st.class(KINDS[kind]);
    let mode = match id {
        "C14" => Mode::Value,
        "C17" => Mode::Protocol,
        "C03" => [Mode::Value, Mode::Own, Mode::Protocol][if kind == 1 { src.below(3) as usize } else { 0 }],
        _ => Mode::Own,
    };
    match kind {
        0 => machine::case(src, &profile(id), st, make),
        1 => emplacable(src, st, mode),
        2 => vhx1::clone_panics(src, st),
        3 => vhx1::case(src, st),
        4 => vhx2::growth(src, st),
        5 => vhx2::conversions(src, st),
        6 => vhx2::liars(src, st),
        7 => vhx2::macros(src, st),
        8 => vhx2::streams(src, st),
        _ => vhx3::case(src, st),
    }
}

/// Does the case reach what the property is about? (Counted in the evidence; a trivial case is still judged.)
pub fn nontrivial(id: &str, st: &Stats) -> bool {
    let ops: u32 = st.op_count.iter().sum();
    let history = st.classes.first() == Some(&KINDS[0]);
    if !history {
        return match id {
            "C14" => st.transfers > 0,
            "C15" | "C02" | "C10" | "C03" => st.extra_steps > 0 || st.panics > 0 || !st.classes.is_empty(),
            "C17" => st.transfers + st.rejected + st.panics > 0,
            "C06" => st.grew > 0,
            "C18" => st.max_len >= 1 << 13,
            _ => st.extra_steps > 0,
        };
    }
    match id {
        "C01" => ops >= 4 && st.max_len >= 2 && (st.mid_insert + st.mid_remove > 0 || st.realigned > 0),
        "C02" => ops >= 4 && (st.mid_remove > 0 || st.transfers > 0 || st.grew > 1),
        "C03" => ops >= 4 && st.grew > 0,
        "C04" => st.max_len >= 2 && (st.realigned > 0 || st.mid_insert + st.mid_remove > 0),
        "C05" => st.in_capacity > 0,
        "C06" => ops >= 3 && st.grew > 0,
        "C07" => st.shrunk > 0,
        "C08" => st.iter_steps > 0 && st.max_len >= 2,
        "C09" => st.faults > 0,
        "C10" => st.panics > 0,
        "C12" => st.op_count[16] > 0,
        "C13" => st.rejected > 0,
        "C18" => ops >= 3 && st.grew > 0,
        _ => ops >= 3,
    }
}

pub fn rule(id: &str) -> &'static str {
    match id {
        "C01" => "at least 4 operations, at least 2 elements at once, and an insertion or removal in the middle or a change of alignment",
        "C02" => "a history of at least 4 operations with a removal in the middle, a transfer or a second growth; or an emplacable, lying iterator or boxing case that ran",
        "C03" => "a history of at least 4 operations in which the buffer grew; or another case that ran",
        "C04" => "at least 2 elements at once and a change of alignment, or an insertion or removal in the middle",
        "C05" => "an element was added within reserved capacity, with the allocator watched",
        "C06" => "the buffer grew (histories of at least 3 operations, or appends of 256 to 8192 elements)",
        "C07" => "a shrink call released something",
        "C08" => "an iterator script ran on a vector that had at least 2 elements",
        "C09" => "an allocation was refused or an impossible reservation was made",
        "C10" => "user code panicked (history); or a panicking clone, emplacement, iterator or boxing case ran",
        "C11" => "two vectors were built and compared, printed, hashed, serialised or cloned",
        "C12" => "a vector was unsized or converted",
        "C13" => "an invalid call was made",
        "C14" => "a value was delivered",
        "C15" => "an emplacable was consumed, dropped, forgotten or aborted, or a lying iterator was used",
        "C16" => "a boxing function or macro ran",
        "C18" => "operations were measured on vectors of up to at least 2^13 elements; or a history of at least 3 operations in which the buffer grew",
        _ => "an emplacer was called by an emplacable",
    }
}

pub fn classify(_id: &str, st: &Stats, f: &mut dyn FnMut(String)) {
    if matches!(st.classes.first(), Some(&"history") | Some(&"emplacable")) {
        f(format!("type {}", FAMILIES[st.fam]));
    }
    for (i, &c) in st.op_count.iter().enumerate() {
        if c > 0 {
            f(format!("op {}", OP_NAMES[i]));
        }
    }
    for c in &st.classes {
        f(c.to_string());
    }
    for (n, c) in [
        ("buffer grew", st.grew),
        ("buffer re-aligned", st.realigned),
        ("insertion in the middle", st.mid_insert),
        ("removal in the middle", st.mid_remove),
        ("addition within capacity", st.in_capacity),
        ("shrink", st.shrunk),
        ("allocation refused", st.faults),
        ("panic in user code", st.panics),
        ("rejected call or declined value", st.rejected),
        ("iterator calls", st.iter_steps),
        ("value handed over", st.transfers),
    ] {
        if c > 0 {
            f(format!("with: {n}"));
        }
    }
}
