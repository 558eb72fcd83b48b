//! One emplacable from a random source, through random adapters, to a random destination.

use crate::alloc::{self, scope};
use crate::elems::{self, Spec, Val, note_error};
use crate::ensure;
use crate::fam::*;
use crate::machine::{EXPECT, FAMILIES, R, Stats, guarded, trace};
use crate::src::Src;
use crate::vecs::*;
use emplacable::{Emplacable, EmplacableFn, with_emplacable_for};
use unsized_vec::UnsizedVec;

/// Emphasis of the cases.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// C14: the value arrives
    Value,
    /// C15 / C10: drop, forget, panics, lying iterators
    Own,
    /// C17: what the emplacer is told
    Protocol,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Source {
    Box,
    For,
    Hand,
    Pop,
    Remove(usize),
    Special(u32),
    X(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Dest {
    Recv(Recv),
    Push,
    Insert(usize),
    Extend,
    Collect,
    /// `mem::forget` of the emplacable itself
    Leak,
}

struct State<F: Family> {
    dest: Dest,
    relay: u32,
    out: Taken,
    /// collected / pushed into
    v: UnsizedVec<F::T>,
    reached: bool,
    /// the destination returned
    done: bool,
}

struct Deliver<'a, F: Family>(&'a mut State<F>);

fn finish<F: Family, G: EmplacableFn<F::T>>(st: &mut State<F>, e: Emplacable<F::T, G>) {
    st.reached = true;
    match st.dest {
        Dest::Recv(r) => receive::<F, G>(e, r, &mut st.out),
        Dest::Push => scope(|| st.v.push_with(e)),
        Dest::Insert(i) => scope(|| st.v.insert_with(i, e)),
        Dest::Extend => scope(|| st.v.extend(std::iter::once(e))),
        Dest::Collect => {
            let w: UnsizedVec<F::T> = scope(|| std::iter::once(e).collect());
            if w.len() != 1 {
                note_error(format!("collecting one emplacable makes a vector of {}", w.len()));
            }
            st.out.val = Some(F::obs(&w[0]));
        }
        Dest::Leak => std::mem::forget(e),
    }
    st.done = true;
}

impl<F: Family> Sink<F::T> for Deliver<'_, F> {
    type Out = ();
    fn take<G: EmplacableFn<F::T>>(self, e: Emplacable<F::T, G>) {
        match self.0.relay {
            0 => finish(self.0, e),
            n => {
                // through another vector, at its end or in the middle
                let mut t: UnsizedVec<F::T> = UnsizedVec::new();
                t.push_with(e);
                for k in 1..n {
                    let s = Spec { kind: (k % 8) as u16, len: 1, seed: k };
                    t.push(*F::make(&s));
                }
                let e = t.remove_into(0);
                finish(self.0, e);
                if t.len() != n as usize - 1 && self.0.dest != Dest::Leak {
                    note_error(format!("a vector of {n} has {} elements after one was removed", t.len()));
                }
            }
        }
    }
}

fn list<T: ?Sized, F: Family<T = T>>(v: &UnsizedVec<T>) -> Vec<Val> {
    v.iter().map(|x| F::obs(x)).collect()
}

fn same(got: &[Val], want: &[Val], what: &str) -> R {
    ensure!(got.len() == want.len(), "{what} has {} elements, should have {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g == w, "{what}: element {i} is {g:?}, should be {w:?}");
    }
    Ok(())
}

pub fn case<F: Family>(src: &mut Src, stats: &mut Stats, mode: Mode) -> R {
    let mut slack = false;
    let mut leaked = 0usize;
    let mut v: UnsizedVec<F::T> = UnsizedVec::new();
    let mut model: Vec<Val> = Vec::new();
    trace(|| format!("values of type {}", F::NAME));
    stats.fam = FAMILIES.iter().position(|n| *n == F::NAME).unwrap_or(FAMILIES.len() - 1);
    let rounds = src.range(1, 5);
    for _ in 0..rounds {
        if src.exhausted() {
            break;
        }
        src.span();
        stats.extra_steps += 1;
        // ---- what
        let spec = F::spec(src);
        let nx = F::XSOURCES.len() as u32;
        let k = src.below(6 + F::SOURCES + 2 * nx);
        let mut others: UnsizedVec<F::T> = UnsizedVec::new();
        let mut om: Vec<Val> = Vec::new();
        let source = match k {
            0 => Source::Box,
            1 => Source::For,
            2 => Source::Hand,
            3 => Source::Pop,
            4 | 5 => Source::Remove(0),
            k if k < 6 + F::SOURCES => Source::Special(k - 6),
            k => Source::X((k - 6 - F::SOURCES) / 2),
        };
        let source = match source {
            Source::Remove(_) | Source::Pop => {
                let n = src.range(1, 5) as usize;
                for i in 0..n {
                    let s = F::spec(src);
                    let b = F::make(&s);
                    om.push(F::obs(&b));
                    if i % 2 == 0 {
                        others.push(*b);
                    } else {
                        others.push_with(<Emplacable<F::T, _> as From<Box<F::T>>>::from(b));
                    }
                }
                if source == Source::Pop { Source::Pop } else { Source::Remove(src.below(n as u32) as usize) }
            }
            s => s,
        };
        let relay = if src.bool(1, 6) { src.range(1, 3) } else { 0 };
        // ---- where to
        let nd = F::DESTS.len() as u32;
        let dest = match mode {
            Mode::Value => match src.below(14 + 2 * nd) {
                0 => Dest::Recv(Recv::Box),
                1 => Dest::Recv(Recv::Pin),
                2 => Dest::Recv(Recv::Rc),
                3 => Dest::Recv(Recv::RcFrom),
                4 => Dest::Recv(Recv::RcPin),
                5 => Dest::Recv(Recv::Arc),
                6 => Dest::Recv(Recv::ArcFrom),
                7 => Dest::Recv(Recv::ArcPin),
                8 => Dest::Recv(Recv::Buffer),
                9 => Dest::Push,
                10 | 11 => Dest::Insert(0),
                12 => Dest::Extend,
                13 => Dest::Collect,
                k => Dest::Recv(Recv::Special((k - 14) / 2)),
            },
            Mode::Own => match src.below(14) {
                0 | 1 => Dest::Recv(Recv::Drop),
                2 | 3 => Dest::Recv(Recv::Forget),
                4 => Dest::Recv(Recv::Decline),
                5 => Dest::Recv(Recv::Null),
                6 => Dest::Recv(Recv::Box),
                7 => Dest::Recv(Recv::Rc),
                8 => Dest::Push,
                9 => Dest::Insert(0),
                10 => Dest::Recv(Recv::PanicEmplacer),
                11 if nd > 0 => Dest::Recv(Recv::Special(src.below(nd))),
                12 if matches!(source, Source::Pop | Source::Remove(_)) && relay == 0 => Dest::Leak,
                _ => Dest::Recv(Recv::Buffer),
            },
            Mode::Protocol => match src.below(16) {
                0 | 1 => Dest::Recv(Recv::Null),
                2 | 3 => Dest::Recv(Recv::Decline),
                4 | 5 => Dest::Recv(Recv::PanicEmplacer),
                6 => Dest::Push,
                7 => Dest::Insert(0),
                8 => Dest::Recv([Recv::Box, Recv::Rc, Recv::ArcPin][src.below(3) as usize]),
                _ => Dest::Recv(Recv::Buffer),
            },
        };
        let dest = if let Dest::Insert(_) = dest { Dest::Insert(src.below(model.len() as u32 + 1) as usize) } else { dest };
        // ---- faults
        let arm = match mode {
            Mode::Own => src.bool(2, 5),
            Mode::Protocol => dest == Dest::Recv(Recv::PanicEmplacer) && src.bool(1, 2),
            Mode::Value => false,
        };
        let (site, nth) = if arm {
            let s = if dest == Dest::Recv(Recv::PanicEmplacer) { elems::EMPL } else { [elems::EMPL, elems::CLONE, elems::DROP, elems::ITER][src.below(4) as usize] };
            (s, src.range(1, 5))
        } else {
            (0, 0)
        };
        let refuse = if mode == Mode::Own && nth == 0 && src.bool(1, 5) { (src.range(1, 3) as u64, src.range(1, 2) as u64) } else { (0, 0) };
        let xinfo = if let Source::X(n) = source { Some(&F::XSOURCES[n as usize]) } else { None };
        trace(|| {
            let s = match source {
                Source::Special(n) => F::source_name(n).to_string(),
                Source::X(n) => F::XSOURCES[n as usize].name.to_string(),
                Source::Pop => format!("pop_into of {om:?}"),
                Source::Remove(i) => format!("remove_into({i}) of {om:?}"),
                s => format!("{s:?} {spec:?}"),
            };
            let d = match dest {
                Dest::Recv(Recv::Special(n)) => F::DESTS[n as usize].to_string(),
                d => format!("{d:?}"),
            };
            let p = if nth > 0 { format!(" ({} panics at call {nth})", ["clone", "drop", "emplacable or emplacer", "iterator"][site]) } else { String::new() };
            let p = if refuse.1 > 0 { format!("{p} (allocator calls {} to {} refused)", refuse.0, refuse.0 + refuse.1 - 1) } else { p };
            let r = if relay > 0 { " through a vector".to_string() } else { String::new() };
            format!("{s} {}{r} -> {d}{p}", if matches!(source, Source::Special(_) | Source::X(_)) { format!("{spec:?}") } else { String::new() })
        });
        // ---- go
        let mut st: State<F> = State { dest, relay, out: Taken::default(), v: std::mem::take(&mut v), reached: false, done: false };
        let mut want: Option<Val> = None;
        hands_ended();
        if nth > 0 {
            elems::arm_panic(site, nth);
        }
        if refuse.1 > 0 {
            alloc::arm(refuse.0, refuse.1);
        }
        let r = guarded(|| match source {
            Source::Box => {
                let b = F::make(&spec);
                want = Some(F::obs(&b));
                Deliver(&mut st).take(<Emplacable<F::T, _> as From<Box<F::T>>>::from(b));
                true
            }
            Source::For => {
                let b = F::make(&spec);
                want = Some(F::obs(&b));
                let mut ran = false;
                let x = with_emplacable_for(*b, |e| {
                    Deliver(&mut st).take(e);
                    ran = true;
                    41u8
                });
                if !ran || x != 41 {
                    note_error("with_emplacable_for did not run its closure or lost the result".into());
                }
                true
            }
            Source::Hand => {
                let b = F::make(&spec);
                want = Some(F::obs(&b));
                Deliver(&mut st).take(hand_made(b));
                true
            }
            Source::Pop => {
                want = om.last().cloned();
                match others.pop_into() {
                    Some(e) => Deliver(&mut st).take(e),
                    None => note_error("pop_into is None on a vector with elements".into()),
                }
                true
            }
            Source::Remove(i) => {
                want = Some(om[i].clone());
                Deliver(&mut st).take(others.remove_into(i));
                true
            }
            Source::Special(n) => F::emplace(n, &spec, &mut want, Deliver(&mut st)).is_some(),
            Source::X(n) => F::emplace_x(n, &spec, &mut want, Deliver(&mut st)).is_some(),
        });
        let refused = if refuse.1 > 0 { alloc::disarm().1 as u32 } else { 0 };
        let fired = elems::disarm_panics() + refused;
        stats.faults += (refused > 0) as u32;
        v = std::mem::take(&mut st.v);
        let source_gone = matches!(source, Source::Pop | Source::Remove(_));
        let mut without = om.clone();
        match source {
            Source::Pop => drop(without.pop()),
            Source::Remove(i) => drop(without.remove(i)),
            _ => {}
        }
        if let Some(e) = elems::take_error().or_else(alloc::take_error) {
            std::mem::forget((v, others));
            return Err(e);
        }
        match r {
            Err(m) => {
                if fired == 0 {
                    std::mem::forget((v, others));
                    return Err(format!("panicked: {m}"));
                }
                slack = true;
                stats.panics += 1;
                // the destination is what it was, unless the panic came later; the source has lost the value or not
                if let (true, Dest::Push | Dest::Extend | Dest::Insert(_)) = (st.done, dest) {
                    let at = if let Dest::Insert(i) = dest { i } else { model.len() };
                    let now = list::<_, F>(&v);
                    ensure!(now.len() == model.len() + 1, "the vector has {} elements, should have {}", now.len(), model.len() + 1);
                    let want = want.clone().ok_or("harness: no value")?;
                    ensure!(now[at].same_payload(&want), "element {at} is {:?}, should be like {want:?}", now[at]);
                    model.insert(at, now[at].clone());
                }
                same(&list::<_, F>(&v), &model, "the destination of an aborted emplacement")?;
                if source_gone {
                    let now = list::<_, F>(&others);
                    if same(&now, &om, "").is_err() {
                        same(&now, &without, "the vector an aborted removal was from")?;
                    }
                }
            }
            Ok(false) => {
                // this family has no such source
                same(&list::<_, F>(&v), &model, "the destination")?;
            }
            Ok(true) => {
                slack |= fired > 0;
                stats.transfers += 1;
                let want = want.ok_or("harness: no value")?;
                ensure!(st.reached, "harness: emplacable not delivered");
                let clones = xinfo.is_some_and(|x| x.clones);
                let parts = xinfo.is_some_and(|x| x.parts) || matches!(source, Source::Special(n) if F::source_name(n) == "from_iter");
                if let Some((s, a)) = st.out.layout {
                    ensure!((s, a) == (want.size, want.align), "the emplacer is told size {s} align {a}, the value is {want:?}");
                }
                // what a wrapped emplacable is told: to drop its value, or nothing
                let hands = hands_ended();
                if fired == 0 && relay == 0 {
                    match dest {
                        Dest::Recv(Recv::Drop | Recv::Null) => {
                            ensure!(hands[2] == 0, "{} wrapped emplacables were not told to drop their values", hands[2])
                        }
                        Dest::Recv(Recv::Forget | Recv::Decline | Recv::PanicEmplacer) => {
                            ensure!(hands[1] == 0, "{} wrapped emplacables were told to drop their values", hands[1])
                        }
                        _ => ensure!(hands[1] == 0 && hands[2] == 0, "{} + {} wrapped emplacables did not write their values", hands[1], hands[2]),
                    }
                }
                if st.out.forgotten {
                    if !clones || relay > 0 {
                        if clones {
                            // the clone in between was forgotten: its tokens are unknown
                            slack = true;
                        } else {
                            elems::forgotten(&want.ids, want.z);
                            leaked += want.ids.len();
                        }
                    }
                    slack |= parts;
                    stats.rejected += 1;
                }
                if let Some(got) = &st.out.val {
                    if clones {
                        ensure!(got.same_payload(&want) && (got.size, got.align) == (want.size, want.align), "{got:?} arrived, should be a clone of {want:?}");
                        ensure!(got.ids.iter().all(|i| !want.ids.contains(i)), "the clone shares a value with its original");
                    } else {
                        ensure!(*got == want, "{got:?} arrived, should be {want:?}");
                    }
                }
                match dest {
                    Dest::Push | Dest::Extend | Dest::Insert(_) => {
                        let at = if let Dest::Insert(i) = dest { i } else { model.len() };
                        let now = list::<_, F>(&v);
                        ensure!(now.len() == model.len() + 1, "the vector has {} elements, should have {}", now.len(), model.len() + 1);
                        if clones {
                            ensure!(now[at].same_payload(&want), "element {at} is {:?}, should be a clone of {want:?}", now[at]);
                            model.insert(at, now[at].clone());
                        } else {
                            model.insert(at, want.clone());
                        }
                        same(&now, &model, "the vector emplaced into")?;
                    }
                    Dest::Recv(Recv::Box | Recv::Pin) => {
                        same(&list::<_, F>(&v), &model, "another vector")?;
                    }
                    Dest::Leak => {
                        // the value stays in the vector or is lost
                        let now = list::<_, F>(&others);
                        if same(&now, &om, "").is_err() {
                            slack = true;
                            same(&now, &without, "the vector whose emplacable was leaked")?;
                        }
                    }
                    _ => same(&list::<_, F>(&v), &model, "another vector")?,
                }
                if source_gone && dest != Dest::Leak {
                    same(&list::<_, F>(&others), &without, "the vector the value was removed from")?;
                }
            }
        }
        guarded(|| drop(others)).map_err(|m| format!("dropping the source vector panicked: {m}"))?;
        let alive: usize = model.iter().map(|v| v.ids.len()).sum();
        let zalive: i64 = model.iter().map(|v| v.z as i64).sum();
        let (l, z) = (elems::live(), elems::zlive());
        if slack {
            ensure!(l >= alive && z >= zalive, "{l} + {z} values alive, the vector holds {alive} + {zalive}");
        } else {
            ensure!(l == alive && z == zalive, "{l} + {z} values with destructors are alive, {alive} + {zalive} should be");
        }
        if let Some(e) = elems::take_error().or_else(alloc::take_error) {
            std::mem::forget(v);
            return Err(e);
        }
    }
    guarded(|| drop(v)).map_err(|m| format!("dropping the vector panicked: {m}"))?;
    EXPECT.with(|e| e.set((slack, leaked)));
    Ok(())
}
