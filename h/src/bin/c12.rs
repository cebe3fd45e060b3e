//! C12: boxes, boxed slices and shared slices keep contents, drops and allocations through conversions and edits.
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
use stabby::boxed::{Box as SBox, BoxedSlice};
use stabby::sync::{Arc as SArc, ArcSlice, WeakSlice};
use stabby::vec::Vec as SVec;
use std::hash::{Hash, Hasher};
use vph::chk::{self, Chk, ChkR, ChkZ, TA};
use vph::track::*;
use vph::*;

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
enum Cont<E: El, A: TA> {
    V(SVec<E, A>),
    B(BoxedSlice<E, A>),
    S(ArcSlice<E, A>),
}
fn same<E: El>(s: &[E], m: &[u32], at: &str) -> Res {
    ck_eq!(s.len(), m.len(), "{at}: length");
    for (i, (a, b)) in s.iter().zip(m).enumerate() {
        ck!(a.val() == *b, "{at}: element {i} is {} instead of {}", a.val(), b);
    }
    chk::mid().map_err(|e| format!("{at}: {e}"))
}
fn mk<E: El>(c: &mut Case, n: usize) -> Vec<u32> {
    (0..n).map(|_| E::new(c.below(50) as u32).val()).collect()
}
fn vec_of<E: El, A: TA>(c: &mut Case, m: &[u32], spare: usize) -> SVec<E, A> {
    let mut v = if spare == 0 && c.bool() { SVec::new_in(A::mk(3)) } else { SVec::with_capacity_in(m.len() + spare, A::mk(3)) };
    v.extend(m.iter().map(|x| E::new(*x)));
    v
}

fn slices<E: El, A: TA>(c: &mut Case) -> Res {
    chk::begin();
    slices_body::<E, A>(c)?;
    chk::end()
}
fn slices_body<E: El, A: TA>(c: &mut Case) -> Res {
    let zst = core::mem::size_of::<E>() == 0;
    let n = if c.chance(1, 4) { 0 } else { c.usize(9) };
    let mut m = mk::<E>(c, n);
    let spare = c.usize(4);
    // capacity the container must keep (0: nothing known)
    let mut cap;
    let mut cur: Cont<E, A> = match c.below(4) {
        0 => {
            op!(c, "BoxedSlice::with_capacity_in({spare})");
            m.clear();
            cap = spare;
            Cont::B(BoxedSlice::with_capacity_in(spare, A::mk(3)))
        }
        1 if A::NAME != "Chk" => {
            op!(c, "collect boxed slice {m:?}");
            cap = 0;
            Cont::B(m.iter().map(|x| E::new(*x)).collect())
        }
        2 if A::NAME != "Chk" => {
            op!(c, "collect shared slice {m:?}");
            cap = 0;
            Cont::S(m.iter().map(|x| E::new(*x)).collect())
        }
        _ => {
            let v = vec_of::<E, A>(c, &m, spare);
            cap = v.capacity();
            op!(c, "vector {m:?} capacity {cap}");
            Cont::V(v)
        }
    };
    let mut aliases: Vec<(ArcSlice<E, A>, Vec<u32>)> = vec![];
    let mut weaks: Vec<WeakSlice<E, A>> = vec![];
    let mut trans = 0;
    for step in 0..c.range(2, 16) {
        let which = c.below(12);
        let at = format!("step {step} op {which}");
        cur = match cur {
            Cont::V(mut v) => {
                same(&v, &m, &at)?;
                if !zst {
                    ck!(v.capacity() >= cap, "{at}: capacity {} after conversions, was {cap}", v.capacity());
                }
                match which {
                    0..=3 => {
                        op!(c, "vec -> boxed");
                        trans += 1;
                        cap = v.capacity();
                        Cont::B(v.into())
                    }
                    4..=7 => {
                        op!(c, "vec -> arc slice");
                        trans += 1;
                        cap = v.capacity();
                        Cont::S(v.into())
                    }
                    8 => {
                        let k = c.usize(m.len() + 2);
                        op!(c, "truncate {k}");
                        v.truncate(k);
                        m.truncate(k);
                        Cont::V(v)
                    }
                    9 => {
                        op!(c, "pop");
                        ck_eq!(v.pop().map(|x| x.val()), m.pop(), "{at}: pop");
                        Cont::V(v)
                    }
                    _ => {
                        let x = c.below(50) as u32;
                        op!(c, "push {x}");
                        v.push(E::new(x));
                        m.push(E::new(x).val());
                        cap = v.capacity();
                        Cont::V(v)
                    }
                }
            }
            Cont::B(mut b) => {
                same(&b, &m, &at)?;
                ck_eq!((b.len(), b.is_empty()), (m.len(), m.is_empty()), "{at}: boxed slice length");
                match which {
                    0..=4 => {
                        op!(c, "boxed -> vec");
                        trans += 1;
                        Cont::V(b.into())
                    }
                    5 | 6 => {
                        // the standard way around: rebuild from the owned iterator
                        op!(c, "boxed into_iter");
                        trans += 1;
                        let k = c.usize(m.len() + 1);
                        let mut it = b.into_iter();
                        for i in 0..k {
                            ck_eq!(it.next().map(|e| e.val()), m.get(i).copied(), "{at}: into_iter");
                        }
                        let mut v = SVec::new_in(A::mk(3));
                        v.extend(it);
                        m.drain(..k);
                        cap = 0;
                        Cont::V(v)
                    }
                    7 | 8 => {
                        let x = c.below(50) as u32;
                        let room = zst || m.len() < cap;
                        let r = b.try_push(E::new(x));
                        op!(c, "boxed try_push {x}: {}", r.is_ok());
                        match r {
                            Ok(()) => m.push(E::new(x).val()),
                            Err(e) => {
                                ck!(!room, "{at}: try_push refused at length {} with capacity {cap}", m.len());
                                ck_eq!(e.val(), E::new(x).val(), "{at}: refused value");
                            }
                        }
                        Cont::B(b)
                    }
                    _ => {
                        op!(c, "boxed views");
                        for (e, w) in b.iter_mut().zip(m.iter_mut()) {
                            e.set(*w + 1);
                            *w = e.val();
                        }
                        b.as_slice_mut().reverse();
                        m.reverse();
                        ck_eq!(format!("{b:?}"), if zst { format!("[{}]", vec!["Z"; m.len()].join(", ")) } else { format!("{m:?}") }, "{at}: Debug");
                        let n2 = c.usize(4);
                        let o = mk::<E>(c, n2);
                        let ov: BoxedSlice<E, A> = vec_of::<E, A>(c, &o, 0).into();
                        ck_eq!((b == ov, b.partial_cmp(&ov), b.cmp(&ov)), (m == o, m.partial_cmp(&o), m.cmp(&o)), "{at}: comparison with {o:?}");
                        let es: Vec<E> = m.iter().map(|x| E::new(*x)).collect();
                        ck_eq!(hash(&b), hash(&es[..]), "{at}: hash");
                        Cont::B(b)
                    }
                }
            }
            Cont::S(mut s) => {
                same(&s, &m, &at)?;
                ck_eq!((s.len(), s.is_empty()), (m.len(), m.is_empty()), "{at}: shared slice length");
                ck_eq!(ArcSlice::strong_count(&s), 1 + aliases.len(), "{at}: strong count");
                ck_eq!(ArcSlice::weak_count(&s), 1 + weaks.len(), "{at}: weak count");
                let unique = aliases.is_empty() && weaks.is_empty();
                ck_eq!(ArcSlice::is_unique(&s), unique, "{at}: is_unique");
                match which {
                    0..=3 => {
                        op!(c, "arc slice -> vec (unique {unique})");
                        match SVec::try_from(s) {
                            Ok(v) => {
                                ck!(unique, "{at}: shared slice turned into a vector while shared");
                                trans += 1;
                                Cont::V(v)
                            }
                            Err(s) => {
                                ck!(!unique || zst, "{at}: unique shared slice refused");
                                Cont::S(s)
                            }
                        }
                    }
                    4 | 5 => {
                        op!(c, "clone");
                        let t = if c.bool() { s.clone() } else { (&s).into() };
                        ck!(t == s && hash(&t) == hash(&s), "{at}: clone differs");
                        aliases.push((t, m.clone()));
                        Cont::S(s)
                    }
                    6 => {
                        op!(c, "downgrade");
                        let w = WeakSlice::from(&s);
                        if c.bool() {
                            weaks.push(w.clone());
                        }
                        let u = w.upgrade();
                        ck!(u.as_ref().map_or(false, |u| u.as_slice().as_ptr() == s.as_slice().as_ptr() && u.len() == s.len()), "{at}: upgrade of a live slice");
                        Cont::S(s)
                    }
                    7 => {
                        op!(c, "drop aliases");
                        for (a, am) in aliases.drain(..) {
                            same(&a, &am, &at)?;
                        }
                        weaks.clear();
                        Cont::S(s)
                    }
                    8 => {
                        op!(c, "mutate if unique");
                        match s.as_slice_mut() {
                            Some(x) => {
                                ck!(unique, "{at}: mutable access while shared");
                                x.reverse();
                                m.reverse();
                                for (e, w) in x.iter_mut().zip(m.iter_mut()) {
                                    e.set(*w + 1);
                                    *w = e.val();
                                }
                            }
                            None => ck!(!unique, "{at}: unique slice refuses mutable access"),
                        }
                        Cont::S(s)
                    }
                    9 => {
                        op!(c, "raw round trip");
                        let r = ArcSlice::into_raw(s);
                        Cont::S(unsafe { ArcSlice::from_raw(r) })
                    }
                    10 => {
                        op!(c, "replace by an alias");
                        if let Some((a, am)) = aliases.pop() {
                            ck_eq!(am, m, "{at}: alias");
                            drop(s);
                            Cont::S(a)
                        } else {
                            Cont::S(s)
                        }
                    }
                    _ => {
                        ck_eq!(format!("{s:?}"), if zst { format!("[{}]", vec!["Z"; m.len()].join(", ")) } else { format!("{m:?}") }, "{at}: Debug");
                        let n2 = c.usize(4);
                        let o = mk::<E>(c, n2);
                        let ov: ArcSlice<E, A> = vec_of::<E, A>(c, &o, 0).into();
                        ck_eq!((s == ov, s.partial_cmp(&ov), s.cmp(&ov)), (m == o, m.partial_cmp(&o), m.cmp(&o)), "{at}: comparison with {o:?}");
                        ck_eq!((&s).into_iter().map(|e| e.val()).collect::<Vec<_>>(), m, "{at}: iteration");
                        Cont::S(s)
                    }
                }
            }
        };
        for (a, am) in &aliases {
            same(a, am, &format!("{at}: alias"))?;
        }
        if let Cont::S(_) = cur {
        } else {
            ck!(aliases.is_empty(), "{at}: aliases outlive the shared state");
            weaks.retain(|_| true);
        }
    }
    c.nontrivial = trans >= 3;
    if c.bool() {
        drop(cur);
        for w in &weaks {
            ck_eq!(w.upgrade().is_some(), !aliases.is_empty(), "upgrade after drop");
        }
    } else {
        drop(aliases);
    }
    Ok(())
}

fn singles<E: El, A: TA>(c: &mut Case) -> Res {
    chk::begin();
    singles_body::<E, A>(c)?;
    chk::end()
}
fn singles_body<E: El, A: TA>(c: &mut Case) -> Res {
    let mut x = E::new(c.below(1000) as u32).val();
    enum One<E: El, A: TA> {
        B(SBox<E, A>),
        A(SArc<E, A>),
        S(ArcSlice<E, A>),
        V(SVec<E, A>),
    }
    let mut cur: One<E, A> = if c.bool() { One::B(SBox::new_in(E::new(x), A::mk(3))) } else { One::A(SArc::new_in(E::new(x), A::mk(3))) };
    let mut trans = 0;
    for step in 0..c.range(2, 14) {
        let which = c.below(10);
        let at = format!("step {step} op {which}");
        op!(c, "{at} value {x}");
        cur = match cur {
            One::B(mut b) => {
                ck_eq!(b.val(), x, "{at}: boxed value");
                ck!((&*b as *const E as usize) % core::mem::align_of::<E>() == 0, "{at}: misaligned");
                if A::CHECKED {
                    ck!(core::mem::size_of::<E>() == 0 || chk::covers(&*b as *const E as usize, core::mem::size_of::<E>()), "{at}: value outside the block");
                }
                match which {
                    0 => {
                        let v = SBox::into_inner(b);
                        ck_eq!(v.val(), x, "{at}: into_inner");
                        trans += 1;
                        One::A(SArc::new_in(v, A::mk(3)))
                    }
                    1 => {
                        let r = SBox::into_raw(b);
                        One::B(unsafe { SBox::from_raw(r) })
                    }
                    2 => {
                        b.set(x + 1);
                        x = b.val();
                        One::B(b)
                    }
                    3 => {
                        let k = b.clone();
                        ck_eq!(k.val(), x, "{at}: clone");
                        if c.bool() {
                            One::B(k)
                        } else {
                            One::B(b)
                        }
                    }
                    4 => {
                        // a constructor that gives up hands the memory back, uninitialised
                        let r = unsafe { SBox::<E, A>::make_in(|_| Err(()), A::mk(3)) };
                        ck!(r.is_err(), "{at}: failing constructor");
                        drop(r);
                        let y = c.below(1000) as u32;
                        let r = unsafe { SBox::<E, A>::make_in(|s| Ok(s.write(E::new(y))), A::mk(3)) };
                        match r {
                            Ok(n) => {
                                x = E::new(y).val();
                                One::B(n)
                            }
                            Err(_) => return Err(format!("{at}: successful constructor reported as failed")),
                        }
                    }
                    5 => match SBox::<E, A>::try_new_in(E::new(x), A::mk(3)) {
                        Ok(n) => One::B(n),
                        Err(_) => return Err(format!("{at}: try_new_in failed")),
                    },
                    _ => {
                        *b = E::new(x);
                        One::B(b)
                    }
                }
            }
            One::A(mut a) => {
                ck_eq!(a.val(), x, "{at}: shared value");
                match which {
                    0 | 1 => match SArc::try_into_inner(a) {
                        Ok(v) => {
                            ck_eq!(v.val(), x, "{at}: try_into_inner");
                            trans += 1;
                            One::B(SBox::new_in(v, A::mk(3)))
                        }
                        Err(_) => return Err(format!("{at}: try_into_inner refused a unique value")),
                    },
                    2 => {
                        let k = a.clone();
                        let a = match SArc::try_into_inner(a) {
                            Ok(_) => return Err(format!("{at}: try_into_inner took a shared value")),
                            Err(a) => a,
                        };
                        ck!(core::ptr::eq(&*a, &*k), "{at}: clone points elsewhere");
                        One::A(k)
                    }
                    3..=5 => {
                        trans += 1;
                        One::S(a.into())
                    }
                    6 => {
                        let k = a.clone();
                        SArc::make_mut(&mut a).set(x + 1);
                        ck_eq!(k.val(), x, "{at}: make_mut changed another handle");
                        x = a.val();
                        One::A(a)
                    }
                    7 => {
                        match SArc::get_mut(&mut a) {
                            Some(v) => v.set(x + 2),
                            None => return Err(format!("{at}: get_mut refused a unique value")),
                        }
                        x = a.val();
                        One::A(a)
                    }
                    8 => {
                        let r = unsafe { SArc::<E, A>::make_in(|_| Err(()), A::mk(3)) };
                        ck!(r.is_err(), "{at}: failing constructor");
                        One::A(a)
                    }
                    _ => {
                        let r = SArc::into_raw(a);
                        One::A(unsafe { SArc::from_raw(r) })
                    }
                }
            }
            One::S(s) => {
                same(&s, &[x], &at)?;
                trans += 1;
                match SVec::try_from(s) {
                    Ok(v) => One::V(v),
                    Err(s) => {
                        ck!(core::mem::size_of::<E>() == 0, "{at}: unique slice refused");
                        drop(s);
                        One::A(SArc::new_in(E::new(x), A::mk(3)))
                    }
                }
            }
            One::V(mut v) => {
                same(&v, &[x], &at)?;
                ck_eq!(v.capacity(), 1, "{at}: capacity of a vector made from a single value");
                trans += 1;
                for i in 0..c.below(3) {
                    v.push(E::new(i as u32));
                }
                v.swap_remove(0);
                drop(v);
                One::B(SBox::new_in(E::new(x), A::mk(3)))
            }
        };
        chk::mid().map_err(|e| format!("{at}: {e}"))?;
    }
    c.nontrivial = trans >= 2;
    Ok(())
}

fn copies<A: TA>(c: &mut Case) -> Res {
    chk::begin();
    {
        let n = c.usize(30);
        let m: Vec<u8> = (0..n).map(|_| c.below(256) as u8).collect();
        op!(c, "from {m:?}");
        let b = BoxedSlice::<u8, A>::from(&m[..]);
        ck_eq!(b.as_slice(), &m[..], "boxed from slice");
        let s = ArcSlice::<u8, A>::from(&m[..]);
        ck_eq!(s.as_slice(), &m[..], "shared from slice");
        let hx = m.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(":");
        ck_eq!((format!("{b:02x}"), format!("{s:02x}")), (hx.clone(), hx.clone()), "hex");
        ck_eq!((format!("{b:02X}"), format!("{s:02X}")), (hx.to_uppercase(), hx.to_uppercase()), "HEX");
        let w = WeakSlice::from(&s);
        drop(s);
        ck!(w.upgrade().is_none(), "upgrade of a dropped slice");
        // bytes survive until the last weak handle
        let f = w.force_upgrade();
        ck_eq!(f.as_slice(), &m[..], "force_upgrade");
        ck_eq!((ArcSlice::strong_count(&f), ArcSlice::weak_count(&f)), (1, 2), "counts after force_upgrade");
        if c.bool() {
            let g = w.force_upgrade();
            ck_eq!(ArcSlice::strong_count(&g), 2, "second force_upgrade");
            drop(f);
            ck_eq!(g.as_slice(), &m[..], "force_upgrade");
        } else {
            drop(w);
            let v = SVec::try_from(f).ok();
            ck_eq!(v.as_ref().map(|v| &v[..]), Some(&m[..]), "vector from a revived slice");
        }
        c.nontrivial = n > 3;
    }
    chk::end()
}

fn main() {
    vph::main(
        "C12",
        "random chains of conversions among stabby Vec/BoxedSlice/ArcSlice/Box/Arc with in-place operations, against a std Vec of values with checking allocators; non-trivial = at least 3 container conversions (2 for single values, more than 3 bytes for byte slices)",
        &[
            sub("tr_chk", 600000, 12000000, slices::<Tr, Chk>),
            sub("tr_chkr", 200000, 4000000, slices::<Tr, ChkR>),
            sub("zst_chkr", 100000, 2000000, slices::<TrZ, ChkR>),
            sub("one_tr_chkr", 200000, 4000000, singles::<Tr, ChkR>),
            sub("tr_chkz", 600000, 12000000, slices::<Tr, ChkZ>),
            sub("big_chk", 300000, 6000000, slices::<TrBig, Chk>),
            sub("niche_chkz", 300000, 6000000, slices::<TrNiche, ChkZ>),
            sub("al64_chk", 300000, 6000000, slices::<Tr64, Chk>),
            sub("al64_chkz", 300000, 6000000, slices::<Tr64, ChkZ>),
            sub("zst64_chk", 100000, 2000000, slices::<TrZ64, Chk>),
            sub("zst_chk", 300000, 6000000, slices::<TrZ, Chk>),
            sub("zst_chkz", 300000, 6000000, slices::<TrZ, ChkZ>),
            sub("u8_chkz", 200000, 4000000, slices::<u8, ChkZ>),
            sub("tr_rust", 200000, 4000000, slices::<Tr, RustAlloc>),
            sub("tr64_libc", 200000, 4000000, slices::<Tr64, LibcAlloc>),
            sub("one_tr_chk", 400000, 8000000, singles::<Tr, Chk>),
            sub("one_al64_chk", 400000, 8000000, singles::<Tr64, Chk>),
            sub("one_big_chkz", 200000, 4000000, singles::<TrBig, ChkZ>),
            sub("one_zst_chk", 200000, 4000000, singles::<TrZ, Chk>),
            sub("one_u8_libc", 200000, 4000000, singles::<u8, LibcAlloc>),
            sub("one_al16_rust", 200000, 4000000, singles::<Tr16, RustAlloc>),
            sub("copy_chkz", 200000, 4000000, copies::<ChkZ>),
            sub("copy_chk", 200000, 4000000, copies::<Chk>),
            sub("copy_rust", 100000, 2000000, copies::<RustAlloc>),
        ],
        &[],
    )
}
