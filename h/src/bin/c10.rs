//! C10: stabby Vec against the standard Vec.
use stabby::vec::Vec as SVec;
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::Bound;
use vph::chk::{self, Chk, ChkR, ChkZ, TA};
use vph::track::{self, *};
use vph::*;
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};

fn vals<E: El>(m: &[u32]) -> Vec<u32> {
    m.iter().map(|v| E::new(*v).val()).collect()
}

fn state<E: El, A: TA>(v: &SVec<E, A>, m: &[u32], at: &str) -> Res {
    ck_eq!(v.len(), m.len(), "{at}: len");
    ck_eq!(v.is_empty(), m.is_empty(), "{at}: is_empty");
    ck!(v.capacity() >= v.len(), "{at}: capacity {} < len {}", v.capacity(), v.len());
    ck_eq!(v.remaining_capacity(), v.capacity() - v.len(), "{at}: remaining_capacity");
    let s = v.as_slice();
    ck_eq!(s.len(), m.len(), "{at}: slice length");
    if A::CHECKED && core::mem::size_of::<E>() != 0 && v.capacity() > 0 {
        ck!(chk::covers(s.as_ptr() as usize, v.capacity() * core::mem::size_of::<E>()), "{at}: capacity {} exceeds the allocated block", v.capacity());
    }
    for (i, (a, b)) in s.iter().zip(m).enumerate() {
        ck!(a.val() == *b, "{at}: element {i} is {} instead of {}", a.val(), b);
    }
    chk::mid().map_err(|e| format!("{at}: {e}"))
}

/// An iterator with an arbitrary (possibly lying or absent) size hint.
struct Hint<I> {
    it: I,
    hint: (usize, Option<usize>),
}
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

fn gen_bound(c: &mut Case, len: usize) -> (Bound<usize>, Bound<usize>, Option<(usize, usize)>) {
    // mostly valid ranges, sometimes invalid
    let a = c.usize(len + 1);
    let b = if c.chance(1, 10) { c.usize(len + 3) } else { a + c.usize(len - a + 1) };
    let s = match c.below(4) {
        0 => Bound::Unbounded,
        1 if a > 0 => Bound::Excluded(a - 1),
        _ => Bound::Included(a),
    };
    let e = match c.below(4) {
        0 => Bound::Unbounded,
        1 if b > 0 => Bound::Included(b - 1),
        _ => Bound::Excluded(b),
    };
    let from = match s {
        Bound::Unbounded => 0,
        Bound::Included(x) => x,
        Bound::Excluded(x) => x + 1,
    };
    let to = match e {
        Bound::Unbounded => len,
        Bound::Included(x) => x + 1,
        Bound::Excluded(x) => x,
    };
    (s, e, if from <= to && to <= len { Some((from, to)) } else { None })
}

fn drain_use<E: El, A: TA>(c: &mut Case, d: stabby::alloc::vec::Drain<'_, E, A>, m: &mut Vec<u32>, (from, to): (usize, usize)) -> Res {
    let mut want: std::collections::VecDeque<u32> = m.drain(from..to).collect();
    let total = want.len();
    let mut d = d;
    let n = c.usize(total + 2);
    for _ in 0..n {
        ck_eq!(d.size_hint(), (want.len(), Some(want.len())), "drain size_hint");
        ck_eq!(d.len(), want.len(), "drain len");
        ck_eq!(d.next().map(|x| x.val()), want.pop_front(), "drain next");
    }
    match c.below(4) {
        0 => {
            op!(c, "  consume {n}, drop");
            drop(d)
        }
        1 => {
            op!(c, "  consume {n}, stop");
            d.stop();
            for (i, w) in want.into_iter().enumerate() {
                m.insert(from + i, w);
            }
        }
        2 => {
            let mut d = d.double_ended();
            let k = c.usize(want.len() + 3);
            op!(c, "  consume {n}, double-ended x{k}");
            c.label("double_ended");
            for _ in 0..k {
                ck_eq!(d.len(), want.len(), "double-ended len");
                ck_eq!(d.size_hint(), (want.len(), Some(want.len())), "double-ended size_hint");
                if c.bool() {
                    ck_eq!(d.next().map(|x| x.val()), want.pop_front(), "double-ended next");
                } else {
                    ck_eq!(d.next_back().map(|x| x.val()), want.pop_back(), "double-ended next_back");
                }
            }
        }
        _ => {
            op!(c, "  consume all");
            for x in d.by_ref() {
                ck_eq!(Some(x.val()), want.pop_front(), "drain item");
            }
            ck!(want.is_empty(), "drain ended early, {} left", want.len());
            ck!(d.next().is_none(), "drain yields after its end");
        }
    }
    Ok(())
}

fn build<E: El, A: TA>(c: &mut Case, tag: u32) -> Result<(SVec<E, A>, Vec<u32>), String> {
    Ok(match c.below(5) {
        0 => (SVec::new_in(A::mk(tag)), vec![]),
        1 => {
            let n = c.usize(20);
            let v = SVec::<E, A>::with_capacity_in(n, A::mk(tag));
            ck!(v.capacity() >= n, "with_capacity({n}) gives {}", v.capacity());
            (v, vec![])
        }
        2 => {
            let n = c.usize(20);
            let r = SVec::<E, A>::try_with_capacity_in(n, A::mk(tag));
            ck!(r.is_ok(), "try_with_capacity failed with memory available");
            let v = core::result::Result::from(r).ok().unwrap();
            ck!(v.capacity() >= n, "try_with_capacity({n}) gives {}", v.capacity());
            (v, vec![])
        }
        3 => (SVec::default(), vec![]),
        _ => {
            let n = c.usize(12);
            let m: Vec<u32> = (0..n).map(|_| c.below(100) as u32).collect();
            (m.iter().map(|x| E::new(*x)).collect(), m.iter().map(|x| x % E::DISTINCT.max(1)).collect())
        }
    })
}

fn run<E: El, A: TA>(c: &mut Case) -> Res {
    chk::begin();
    let r = body::<E, A>(c);
    r?;
    chk::end()
}
fn body<E: El, A: TA>(c: &mut Case) -> Res {
    let zst = core::mem::size_of::<E>() == 0;
    let (mut v, mut m) = build::<E, A>(c, 7)?;
    if zst {
        m.iter_mut().for_each(|x| *x = 0);
    }
    op!(c, "Vec<{}, {}> of {:?}", E::NAME, A::NAME, m);
    state(&v, &m, "new")?;
    let n = c.range(1, 24);
    let mut interesting = 0;
    for step in 0..n {
        let len = m.len();
        let which = c.weighted(&[10, 3, 4, 4, 3, 3, 3, 3, 6, 8, 3, 2, 2, 2, 3, 2, 2, 2, 2]);
        let at = format!("step {step} op {which}");
        let x = c.below(1000) as u32;
        let xv = E::new(x).val();
        match which {
            0 => {
                let k = if c.chance(1, 6) { c.range(2, 30) } else { 1 };
                op!(c, "push {x} x{k}");
                for i in 0..k as u32 {
                    v.push(E::new(x + i));
                    m.push(E::new(x + i).val());
                }
            }
            1 => {
                op!(c, "try_push {x}");
                ck!(v.try_push(E::new(x)).is_ok(), "try_push failed with memory available");
                m.push(xv);
            }
            2 => {
                op!(c, "pop");
                ck_eq!(v.pop().map(|e| e.val()), m.pop(), "{at}: pop");
            }
            3 => {
                let i = if c.chance(1, 8) { c.usize(len + 3) } else { c.usize(len.max(1)) };
                op!(c, "remove {i}");
                let w = if i < len { Some(m.remove(i)) } else { None };
                ck_eq!(v.remove(i).map(|e| e.val()), w, "{at}: remove({i})");
                interesting += (i + 1 < len) as u32;
            }
            4 => {
                let i = if c.chance(1, 8) { c.usize(len + 3) } else { c.usize(len.max(1)) };
                op!(c, "swap_remove {i}");
                let w = if i < len { Some(m.swap_remove(i)) } else { None };
                ck_eq!(v.swap_remove(i).map(|e| e.val()), w, "{at}: swap_remove({i})");
                interesting += (i + 1 < len) as u32;
            }
            5 => {
                let (i, j) = (c.usize(len + 1), c.usize(len + 1));
                op!(c, "swap {i} {j}");
                let r = catch(|| v.swap(i, j));
                ck_eq!(r.is_err(), i >= len || j >= len, "{at}: swap({i},{j}) panics, len {len}");
                if r.is_ok() {
                    m.swap(i, j);
                }
            }
            6 => {
                let k = c.usize(len + 3);
                op!(c, "truncate {k}");
                v.truncate(k);
                interesting += (k < len) as u32;
                m.truncate(k);
            }
            7 => {
                let k = c.usize(40);
                op!(c, "reserve {k}");
                if c.bool() {
                    v.reserve(k);
                } else {
                    let r = v.try_reserve(k);
                    ck!(r.is_ok(), "{at}: try_reserve failed");
                    let cap = r.unwrap().get();
                    ck!(zst || cap == v.capacity(), "{at}: try_reserve returned {cap}, capacity {}", v.capacity());
                }
                ck!(v.capacity() >= len + k, "{at}: reserve({k}) leaves capacity {} for len {len}", v.capacity());
                ck!(v.remaining_capacity() >= k, "{at}: remaining_capacity {} after reserve({k})", v.remaining_capacity());
                let cap = v.capacity();
                let p = v.as_slice().as_ptr();
                if c.chance(1, 3) {
                    for i in 0..k as u32 {
                        v.push(E::new(x + i));
                        m.push(E::new(x + i).val());
                    }
                    ck_eq!((v.capacity(), v.as_slice().as_ptr()), (cap, p), "{at}: reallocated within the reserved capacity");
                }
            }
            8 => {
                let k = c.usize(10);
                let items: Vec<u32> = (0..k).map(|i| x + i as u32).collect();
                let it = items.iter().map(|x| E::new(*x));
                let mode = c.below(5);
                op!(c, "extend {k} hint mode {mode}");
                match mode {
                    0 => v.extend(it),
                    1 => v.extend(Hint { it, hint: (0, None) }),
                    2 => v.extend(Hint { it, hint: (c.usize(k + 1), None) }),
                    3 => v.extend(Hint { it, hint: (c.usize(k + 1), Some(k + c.usize(5))) }),
                    _ => {
                        c.label("lying_hint");
                        let lo = c.usize(k + 3);
                        let hi = c.usize(k + 3).max(lo);
                        v.extend(Hint { it, hint: (lo, Some(hi)) })
                    }
                }
                m.extend(vals::<E>(&items));
                interesting += 1;
            }
            9 | 10 => {
                let (s, e, valid) = gen_bound(c, len);
                op!(c, "{} {s:?} {e:?}", if which == 9 { "drain" } else { "try_drain" });
                if which == 9 {
                    match valid {
                        None => {
                            let r = catch(|| {
                                v.drain((s, e));
                            });
                            ck!(r.is_err(), "{at}: drain of invalid range {s:?} {e:?} of {len} did not panic");
                        }
                        Some(r) => {
                            interesting += (r.1 > r.0) as u32;
                            let d = v.drain((s, e));
                            drain_use(c, d, &mut m, r)?;
                        }
                    }
                } else {
                    let d = v.try_drain((s, e));
                    match (d, valid) {
                        (None, None) => {}
                        (None, Some(r)) => return Err(format!("{at}: try_drain refuses valid range {r:?} of {len}")),
                        (Some(_), None) => return Err(format!("{at}: try_drain accepts invalid range {s:?} {e:?} of {len}")),
                        (Some(d), Some(r)) => {
                            interesting += (r.1 > r.0) as u32;
                            drain_use(c, d, &mut m, r)?;
                        }
                    }
                }
            }
            11 => {
                op!(c, "clone");
                let w = v.clone();
                state(&w, &m, "clone")?;
                ck!(w == v && !(w != v), "{at}: clone differs");
                if c.bool() {
                    v = w;
                } else {
                    let mut w = w;
                    w.push(E::new(1));
                    drop(w);
                }
            }
            12 => {
                let k = c.usize(len + 2);
                op!(c, "into_iter, take {k}");
                let mut it = core::mem::replace(&mut v, SVec::new_in(A::mk(7))).into_iter();
                for i in 0..k {
                    ck_eq!(it.next().map(|e| e.val()), m.get(i).copied(), "{at}: into_iter item {i}");
                }
                let rest = if c.bool() {
                    let r: Vec<u32> = it.by_ref().map(|e| e.val()).collect();
                    ck_eq!(r, m[k.min(len)..].to_vec(), "{at}: into_iter rest");
                    ck!(it.next().is_none(), "{at}: into_iter not fused at its end");
                    true
                } else {
                    false
                };
                drop(it);
                let _ = rest;
                m.clear();
            }
            13 => {
                // in-place mutation through every view
                op!(c, "mutate");
                for (e, w) in v.iter_mut().zip(m.iter_mut()) {
                    let n = e.val() ^ 1;
                    e.set(n);
                    *w = e.val();
                }
                if len > 0 {
                    let i = c.usize(len);
                    v[i].set(x);
                    m[i] = v[i].val();
                    ck!(m[i] == xv, "{at}: index_mut");
                    let k = c.usize(len + 1);
                    v.rotate_left(k);
                    m.rotate_left(k);
                    v.as_slice_mut().reverse();
                    m.reverse();
                }
                if c.bool() {
                    v.sort();
                    m.sort();
                }
            }
            14 => {
                // indexing, including its panics
                let (a, b) = (c.usize(len + 2), c.usize(len + 2));
                op!(c, "index {a} {b}");
                let g = |r: Result<Vec<u32>, String>, w: Option<&[u32]>, n: &str| -> Res {
                    match (r, w) {
                        (Ok(x), Some(y)) if x == y => Ok(()),
                        (Err(_), None) => Ok(()),
                        (x, y) => Err(format!("{n} of {len}: got {x:?}, expected {y:?}")),
                    }
                };
                let t = |s: &[E]| s.iter().map(|e| e.val()).collect::<Vec<_>>();
                g(catch(|| t(&v[a..b])), m.get(a..b), &format!("[{a}..{b}]"))?;
                g(catch(|| t(&v[a..=b])), m.get(a..=b), &format!("[{a}..={b}]"))?;
                g(catch(|| t(&v[..b])), m.get(..b), &format!("[..{b}]"))?;
                g(catch(|| t(&v[..=b])), m.get(..=b), &format!("[..={b}]"))?;
                g(catch(|| t(&v[a..])), m.get(a..), &format!("[{a}..]"))?;
                g(catch(|| t(&v[..])), Some(&m[..]), "[..]")?;
                g(catch(|| vec![v[a].val()]), m.get(a..a.wrapping_add(1)), &format!("[{a}]"))?;
                let it: Vec<u32> = v.iter().map(|e| e.val()).collect();
                ck_eq!(it, m, "{at}: iter");
                let it: Vec<u32> = (&v).into_iter().rev().map(|e| e.val()).collect();
                ck_eq!(it, m.iter().rev().copied().collect::<Vec<_>>(), "{at}: iter rev");
            }
            15 => {
                let (w, wm) = build::<E, A>(c, 7)?;
                let wm: Vec<u32> = if zst { wm.iter().map(|_| 0).collect() } else { wm };
                op!(c, "compare with {wm:?}");
                ck_eq!(v == w, m == wm, "{at}: ==");
                ck_eq!(v != w, m != wm, "{at}: !=");
                ck_eq!(v.partial_cmp(&w), m.partial_cmp(&wm), "{at}: partial_cmp");
                ck_eq!(v.cmp(&w), m.cmp(&wm), "{at}: cmp");
                let a = format!("{v:?}");
                let b = if zst { format!("[{}]", vec!["Z"; len].join(", ")) } else { format!("{m:?}") };
                ck_eq!(a, b, "{at}: Debug");
                let p = v.as_slice().as_ptr() as usize;
                ck_eq!((v.as_ref().as_ptr() as usize, (&*v).as_ptr() as usize), (p, p), "{at}: AsRef/Deref");
            }
            16 => {
                op!(c, "round trip through iterator with capacity {len}");
                let w: SVec<E, A> = core::mem::replace(&mut v, SVec::new_in(A::mk(7))).into_iter().collect();
                v = w;
            }
            17 => {
                op!(c, "try_reserve overflow");
                let huge = match c.below(4) {
                    0 => usize::MAX,
                    1 => usize::MAX - c.usize(200),
                    2 => usize::MAX / core::mem::size_of::<E>().max(1) - c.usize(4),
                    _ => (isize::MAX as usize) / core::mem::size_of::<E>().max(1) + c.usize(3),
                };
                if !zst {
                    let r = catch(|| v.try_reserve(huge).is_ok());
                    ck!(r == Ok(false), "{at}: try_reserve({huge}) with len {len} gives {r:?} instead of an error");
                    let r = catch(|| v.reserve(huge));
                    ck!(r.is_err(), "{at}: reserve({huge}) did not panic");
                    let r = catch(|| SVec::<E, A>::try_with_capacity_in(huge, A::mk(7)).is_ok());
                    ck!(r == Ok(false), "{at}: try_with_capacity({huge}) gives {r:?} instead of an error");
                    interesting += 1;
                }
            }
            _ => {
                op!(c, "allocator");
                let _ = v.allocator_mut();
                let _ = v.allocator();
                let w = core::mem::take(&mut v);
                ck_eq!(v.len(), 0, "{at}: take leaves elements");
                v = w;
            }
        }
        state(&v, &m, &at)?;
        if len == 0 || m.len() > 8 {
            interesting += 1;
        }
    }
    c.nontrivial = interesting >= 3;
    drop(v);
    Ok(())
}

/// Operations only available on Copy / byte elements.
fn bytes<A: TA>(c: &mut Case) -> Res {
    chk::begin();
    let mut m: Vec<u8> = (0..c.usize(40)).map(|_| c.below(256) as u8).collect();
    let mut v: SVec<u8, A> = SVec::from(&m[..]);
    state(&v, &m.iter().map(|x| *x as u32).collect::<Vec<_>>(), "from slice")?;
    for step in 0..c.range(1, 10) {
        let ext: Vec<u8> = (0..c.usize(30)).map(|_| c.below(256) as u8).collect();
        match c.below(5) {
            0 => {
                v.copy_extend(&ext);
                m.extend_from_slice(&ext);
            }
            1 => {
                ck!(v.try_copy_extend(&ext).is_ok(), "try_copy_extend failed");
                m.extend_from_slice(&ext);
            }
            2 => {
                ck_eq!(v.write(&ext).unwrap(), ext.len(), "io::Write");
                v.flush().unwrap();
                m.extend_from_slice(&ext);
            }
            3 => {
                v.write_all(&ext).unwrap();
                m.extend_from_slice(&ext);
                v.truncate(m.len() / 2);
                m.truncate(m.len() / 2);
            }
            _ => {
                let lo: Vec<String> = m.iter().map(|b| format!("{b:x}")).collect();
                let up: Vec<String> = m.iter().map(|b| format!("{b:X}")).collect();
                let mut s = String::new();
                write!(s, "{v:x}/{v:X}").unwrap();
                ck_eq!(s, format!("{}/{}", lo.join(":"), up.join(":")), "hex format");
                let mut s = String::new();
                write!(s, "{v:02x}").unwrap();
                ck_eq!(s, m.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(":"), "padded hex format");
            }
        }
        op!(c, "step {step}: {} bytes", m.len());
        state(&v, &m.iter().map(|x| *x as u32).collect::<Vec<_>>(), "bytes")?;
        c.nontrivial |= m.len() > 20;
    }
    drop(v);
    chk::end()
}

fn main() {
    let _ = track::alive();
    vph::main(
        "C10",
        "random operation sequences (1-24 operations, indices/ranges valid and invalid) on a stabby Vec and a std Vec of tracked elements, state compared after every step; non-trivial = at least 3 operations that grow, drain, remove inside or overflow-reserve",
        &[
            sub("tr_chk", 300000, 6000000, run::<Tr, Chk>),
            sub("tr_chkr", 100000, 2000000, run::<Tr, ChkR>),
            sub("tr_chkz", 150000, 3000000, run::<Tr, ChkZ>),
            sub("big_chk", 100000, 2000000, run::<TrBig, Chk>),
            sub("niche_chkz", 100000, 2000000, run::<TrNiche, ChkZ>),
            sub("al16_chk", 100000, 2000000, run::<Tr16, Chk>),
            sub("al64_chk", 150000, 3000000, run::<Tr64, Chk>),
            sub("al64_chkz", 50000, 1000000, run::<Tr64, ChkZ>),
            sub("zst64_chk", 100000, 2000000, run::<TrZ64, Chk>),
            sub("zst_chk", 100000, 2000000, run::<TrZ, Chk>),
            sub("u8_chk", 100000, 2000000, run::<u8, Chk>),
            sub("u128_chk", 100000, 2000000, run::<u128, Chk>),
            sub("tr_rust", 100000, 2000000, run::<Tr, RustAlloc>),
            sub("tr_libc", 100000, 2000000, run::<Tr, LibcAlloc>),
            sub("al64_rust", 100000, 2000000, run::<Tr64, RustAlloc>),
            sub("al64_libc", 100000, 2000000, run::<Tr64, LibcAlloc>),
            sub("bytes_chk", 100000, 2000000, bytes::<Chk>),
            sub("bytes_rust", 50000, 1000000, bytes::<RustAlloc>),
            sub("bytes_libc", 50000, 1000000, bytes::<LibcAlloc>),
        ],
        &[],
    )
}
