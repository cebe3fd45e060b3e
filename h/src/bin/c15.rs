//! C15: SingleOrVec against the standard Vec.
#![recursion_limit = "1024"]
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
use stabby::alloc::single_or_vec::SingleOrVec;
use stabby::vec::Vec as SVec;
use vph::chk::{self, Chk, ChkR, ChkD, ChkZ, TA};
use vph::track::{self, *};
use vph::*;

macro_rules! run {
    ($($name:ident: $e:ty, $a:ty);* $(;)?) => { $(
        mod $name {
            use super::*;
            type E = $e;
            type A = $a;
            type C = SingleOrVec<E, A>;
            const ZST: bool = core::mem::size_of::<E>() == 0;
            fn state(v: &C, m: &[u32], at: &str) -> Res {
                ck_eq!(v.len(), m.len(), "{at}: len");
                ck_eq!(v.is_empty(), m.is_empty(), "{at}: is_empty");
                let s = v.as_slice();
                ck_eq!(s.len(), m.len(), "{at}: slice length");
                ck_eq!((s.as_ptr(), <C as AsRef<[E]>>::as_ref(v).as_ptr(), (**v).as_ptr()), (s.as_ptr(), s.as_ptr(), s.as_ptr()), "{at}: views disagree");
                for (i, (a, b)) in s.iter().zip(m).enumerate() {
                    ck!(a.val() == *b, "{at}: element {i} is {} instead of {}", a.val(), b);
                }
                let mut n = 0;
                for (a, b) in v.into_iter().zip(m) {
                    ck_eq!(a.val(), *b, "{at}: iteration");
                    n += 1;
                }
                ck_eq!(n, m.len(), "{at}: iteration length");
                ck!(v.capacity() >= v.len(), "{at}: capacity {} < len {}", v.capacity(), v.len());
                ck_eq!(v.remaining_capacity(), v.capacity() - v.len(), "{at}: remaining_capacity");
                if A::CHECKED && !ZST {
                    let me = v as *const C as usize;
                    let p = s.as_ptr() as usize;
                    let inline = p >= me && p < me + core::mem::size_of::<C>();
                    if v.capacity() > 0 && !inline {
                        ck!(chk::covers(p, v.capacity() * core::mem::size_of::<E>()), "{at}: capacity {} exceeds the allocated block", v.capacity());
                    }
                    if inline && v.len() > 0 {
                        ck!(p + core::mem::size_of::<E>() <= me + core::mem::size_of::<C>(), "{at}: inline element sticks out");
                        ck_eq!(v.capacity(), 1, "{at}: inline capacity");
                    }
                }
                chk::mid().map_err(|e| format!("{at}: {e}"))
            }
            pub fn run(c: &mut Case) -> Res {
                chk::begin();
                body(c)?;
                chk::fail_all(false);
                chk::fail_mask(0);
                chk::end()
            }
            /// replace a container by a known one
            fn fresh(c: &mut Case, m: &mut Vec<u32>) -> Result<C, String> {
                m.clear();
                Ok(match c.below(5) {
                    0 => {
                        let k = c.usize(12);
                        op!(c, "with_capacity_in({k})");
                        let v = C::with_capacity_in(k, A::mk(3));
                        ck!(v.capacity() >= k, "with_capacity_in({k}) gave {}", v.capacity());
                        v
                    }
                    1 => {
                        let k = c.usize(12);
                        let fail = A::CHECKED && c.chance(1, 3);
                        op!(c, "try_with_capacity_in({k}) (failing {fail})");
                        chk::fail_all(fail);
                        let r: Result<C, A> = C::try_with_capacity_in(k, A::mk(3)).into();
                        chk::fail_all(false);
                        match r {
                            Ok(v) => {
                                ck!(!fail || k == 0 || ZST, "try_with_capacity_in({k}) succeeded without memory");
                                ck!(v.capacity() >= k, "try_with_capacity_in({k}) gave {}", v.capacity());
                                v
                            }
                            Err(a) => {
                                ck!(fail, "try_with_capacity_in({k}) refused");
                                C::new_in(a)
                            }
                        }
                    }
                    2 => {
                        op!(c, "from a vector");
                        let n = c.usize(4);
                        let mut v = SVec::with_capacity_in(c.usize(4), A::mk(3));
                        for _ in 0..n {
                            let x = c.below(60) as u32;
                            v.push(E::new(x));
                            m.push(E::new(x).val());
                        }
                        C::from(v)
                    }
                    3 => {
                        op!(c, "default");
                        C::default()
                    }
                    _ => {
                        op!(c, "new_in");
                        let v = C::new_in(A::mk(3));
                        ck_eq!(v.len(), 0, "new_in");
                        if A::CHECKED { ck_eq!(v.capacity() == 0 || ZST, true, "capacity {} without allocation", v.capacity()); }
                        v
                    }
                })
            }
            fn body(c: &mut Case) -> Res {
                let mut m: Vec<u32> = vec![];
                let mut v = fresh(c, &mut m)?;
                let mut phases = 0u32;
                let mut room = 0usize; // promised by reserve
                for step in 0..c.range(2, 20) {
                    let at = format!("step {step}");
                    state(&v, &m, &at)?;
                    phases |= 1 << m.len().min(3);
                    let which = c.weighted(&[8, 4, 4, 5, 5, 3, 3, 3, 2, 2, 2, 2]);
                    match which {
                        0 | 1 => {
                            let x = c.below(60) as u32;
                            let mask = if A::CHECKED && c.chance(1, 2) { c.u64() } else { 0 };
                            let before = chk::counts();
                            let refused = chk::refused();
                            chk::fail_mask(mask);
                            let cap = v.capacity();
                            let r: Result<(), E> = v.try_push(E::new(x)).into();
                            let denied = chk::refused() - refused;
                            chk::fail_mask(0);
                            op!(c, "try_push {x}: {} ({denied} allocations refused)", r.is_ok());
                            match r {
                                Ok(()) => m.push(E::new(x).val()),
                                Err(e) => {
                                    c.label("push refused");
                                    ck!(denied > 0, "{at}: try_push failed without an allocation failure");
                                    ck_eq!(e.val(), E::new(x).val(), "{at}: value given back");
                                    ck_eq!(v.capacity(), cap, "{at}: capacity after a failed push");
                                }
                            }
                            if A::CHECKED && (room > 0 || m.len() == 1 && cap == 0) {
                                ck_eq!(chk::counts(), before, "{at}: push allocated although {}", if room > 0 { "room had been reserved" } else { "the first value needs no allocation" });
                            }
                            room = room.saturating_sub(1);
                        }
                        2 => {
                            let x = c.below(60) as u32;
                            op!(c, "push {x}");
                            let fail = A::CHECKED && c.chance(1, 4);
                            chk::fail_all(fail);
                            let full = v.len() == v.capacity() && v.capacity() != 0;
                            let e = E::new(x);
                            let y = e.val();
                            let r = catch(|| v.push(e));
                            chk::fail_all(false);
                            ck_eq!(r.is_err(), fail && full && !ZST, "{at}: push panicking (allocation failing {fail}, full {full}): {r:?}");
                            if r.is_ok() { m.push(y) }
                            room = room.saturating_sub(1);
                        }
                        3 => {
                            let k = c.usize(m.len() + 2);
                            op!(c, "truncate {k}");
                            v.truncate(k);
                            if k < m.len() { m.truncate(k); c.label("truncated"); }
                            room = 0;
                        }
                        4 => {
                            let huge = !ZST && c.chance(1, 8);
                            let k = if huge { usize::MAX - c.usize(3) } else { c.usize(14) };
                            let mask = if A::CHECKED && c.chance(1, 2) { c.u64() } else { 0 };
                            let refused = chk::refused();
                            let cap = v.capacity();
                            chk::fail_mask(mask);
                            let panicking = !huge && mask == 0 && c.bool();
                            let r = if panicking { catch(|| v.reserve(k)) } else {
                                let r: Result<_, _> = v.try_reserve(k).into();
                                r.map(|_| ()).map_err(|_| "refused".to_string())
                            };
                            chk::fail_mask(0);
                            let denied = chk::refused() - refused;
                            op!(c, "reserve {k}: {} ({denied} refused)", r.is_ok());
                            match r {
                                Ok(()) => {
                                    ck!(!huge || m.len().checked_add(k).is_some_and(|n| n <= v.capacity()), "{at}: reserve({k}) accepted");
                                    ck!(v.remaining_capacity() >= k, "{at}: {} left after reserve({k})", v.remaining_capacity());
                                    room = k;
                                }
                                Err(e) => {
                                    c.label("reserve refused");
                                    ck!(denied > 0 || huge, "{at}: reserve({k}) failed: {e}");
                                    ck_eq!(v.capacity(), cap, "{at}: capacity after a failed reserve");
                                }
                            }
                        }
                        5 => {
                            let n = c.usize(4);
                            let xs: Vec<u32> = (0..n).map(|_| c.below(60) as u32).collect();
                            op!(c, "extend {xs:?}");
                            if c.bool() {
                                v.extend(xs.iter().map(|x| E::new(*x)));
                            } else {
                                v.extend(xs.iter().filter(|_| true).map(|x| E::new(*x)));
                            }
                            m.extend(xs.iter().map(|x| E::new(*x).val()));
                            room = 0;
                        }
                        6 => {
                            op!(c, "as_slice_mut");
                            {
                                let mut g = v.as_slice_mut();
                                ck_eq!(g.len(), m.len(), "{at}: mutable slice length");
                                for (e, w) in g.iter_mut().zip(m.iter_mut()) {
                                    ck_eq!(e.val(), *w, "{at}: mutable slice");
                                    let x = c.below(60) as u32;
                                    if c.bool() { e.set(x) } else { *e = E::new(x) }
                                    *w = e.val();
                                }
                                g.reverse();
                                m.reverse();
                            }
                        }
                        7 => {
                            // iterator by mutable reference, both ends, with skips
                            op!(c, "iter_mut");
                            let mut want: std::collections::VecDeque<usize> = (0..m.len()).collect();
                            let mut it = (&mut v).into_iter();
                            for _ in 0..c.usize(5) {
                                ck_eq!((it.len(), it.size_hint()), (want.len(), (want.len(), Some(want.len()))), "{at}: iterator length");
                                let k = if c.chance(1, 12) { usize::MAX - c.usize(2) } else { c.usize(4) };
                                let back = c.bool();
                                let nth = c.bool();
                                op!(c, "  {} {}", if back { "back" } else { "front" }, if nth { format!("nth({k})") } else { String::new() });
                                let skip = if nth { k.min(want.len()) } else { 0 };
                                for _ in 0..skip { if back { want.pop_back(); } else { want.pop_front(); } }
                                let w = if back { want.pop_back() } else { want.pop_front() };
                                let g = match (back, nth) { (true, true) => it.nth_back(k), (true, false) => it.next_back(), (false, true) => it.nth(k), _ => it.next() };
                                ck_eq!(g.as_ref().map(|e| e.val()), w.map(|i| m[i]), "{at}: item");
                                if let (Some(e), Some(i)) = (g, w) {
                                    let x = c.below(60) as u32;
                                    e.set(x);
                                    m[i] = e.val();
                                }
                            }
                            match c.below(3) {
                                0 => ck_eq!(it.count(), want.len(), "{at}: count"),
                                1 => ck_eq!(it.last().map(|e| e.val()), want.back().map(|i| m[*i]), "{at}: last"),
                                _ => for e in it { ck_eq!(Some(e.val()), want.pop_front().map(|i| m[i]), "{at}: rest"); }
                            }
                        }
                        8 => {
                            op!(c, "clone");
                            let w = v.clone();
                            state(&w, &m, &format!("{at}: clone"))?;
                            ck!(w == v.as_slice(), "{at}: clone differs");
                            // the clone and the original do not share elements
                            if c.bool() { v = w } else { drop(w) }
                            room = 0;
                        }
                        9 => {
                            let n = c.usize(4);
                            let mut o: Vec<E> = (0..n).map(|_| E::new(c.below(3) as u32)).collect();
                            if c.bool() { o = m.iter().map(|x| E::new(*x)).collect(); if c.bool() { o.push(E::new(1)); } }
                            let mine: Vec<E> = m.iter().map(|x| E::new(*x)).collect();
                            let mut ov = C::new_in(A::mk(3));
                            for x in &o { ov.push(x.clone()); }
                            op!(c, "compare with {:?}", o);
                            ck_eq!((v == o, v != o, v.partial_cmp(&o)), (mine == o, mine != o, mine.partial_cmp(&o)), "{at}: comparison");
                            ck_eq!((v == ov, v.partial_cmp(&ov), v.cmp(&ov)), (mine == o, mine.partial_cmp(&o), mine.cmp(&o)), "{at}: comparison");
                        }
                        10 => {
                            op!(c, "into a vector{}", if m.len() < 2 { "" } else { " and back" });
                            let w: SVec<E, A> = v.into();
                            ck_eq!(w.iter().map(|e| e.val()).collect::<Vec<_>>(), m, "{at}: converted vector");
                            v = w.into();
                            room = 0;
                        }
                        _ => {
                            drop(v);
                            chk::end().map_err(|e| format!("{at}: {e}"))?;
                            chk::begin();
                            v = fresh(c, &mut m)?;
                            room = 0;
                        }
                    }
                }
                state(&v, &m, "at the end")?;
                phases |= 1 << m.len().min(3);
                c.nontrivial = phases.count_ones() >= 3;
                Ok(())
            }
        }
    )* };
}
run! {
    tr_chk: Tr, Chk;
    tr_chkz: Tr, ChkZ;
    tr_chkd: Tr, ChkD;
    tr_chkr: Tr, ChkR;
    big_chk: TrBig, Chk;
    niche_chkz: TrNiche, ChkZ;
    niche_chk: TrNiche, Chk;
    al16_chk: Tr16, Chk;
    al64_chkz: Tr64, ChkZ;
    zst_chk: TrZ, Chk;
    zst_chkz: TrZ, ChkZ;
    zst64_chk: TrZ64, Chk;
    u8_chk: u8, Chk;
    u8_chkz: u8, ChkZ;
    u128_chk: u128, Chk;
    tr_rust: Tr, RustAlloc;
    tr_libc: Tr, LibcAlloc;
    u16_libc: u16, LibcAlloc;
}

fn main() {
    let _ = track::alive();
    macro_rules! s { ($n:ident, $k:expr) => { sub(stringify!($n), $k, $k * 20, $n::run) } }
    vph::main(
        "C15",
        "random operation sequences (2-20 steps: construction, pushes and reservations with injected allocation failures, truncation, mutation, iteration from both ends, conversion, comparison) on a SingleOrVec and a std Vec of tracked elements, compared after every step; non-trivial = the sequence visits at least 3 of the lengths 0, 1, 2, 3 or more",
        &[
            s!(tr_chk, 150000), s!(tr_chkz, 100000), s!(tr_chkd, 60000), s!(tr_chkr, 60000), s!(big_chk, 80000), s!(niche_chkz, 80000), s!(niche_chk, 80000), s!(al16_chk, 60000), s!(al64_chkz, 60000),
            s!(zst_chk, 60000), s!(zst_chkz, 60000), s!(zst64_chk, 60000), s!(u8_chk, 60000), s!(u8_chkz, 60000), s!(u128_chk, 60000), s!(tr_rust, 60000), s!(tr_libc, 60000), s!(u16_libc, 60000),
        ],
        &[],
    )
}
