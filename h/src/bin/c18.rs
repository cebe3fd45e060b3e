//! C18: allocation failures leave every container usable and unchanged.
#![recursion_limit = "1024"]
use stabby::alloc::collections::arc_btree::{ArcBTreeMap, ArcBTreeSet};
use stabby::alloc::single_or_vec::SingleOrVec;
use stabby::alloc::IAlloc;
use stabby::boxed::{Box as SBox, BoxedSlice, BoxedStr};
use stabby::string::String as SString;
use stabby::sync::{Arc as SArc, ArcSlice, ArcStr};
use stabby::vec::Vec as SVec;
use std::collections::BTreeMap;
use vph::chk::{self, Chk, ChkD, ChkR, ChkZ, TA};
use vph::track::*;
use vph::*;

/// Lets only some of the next requests through.
fn arm(c: &mut Case) -> u64 {
    let m = match c.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 => !0,
        _ => c.below(16),
    };
    chk::fail_mask(m);
    chk::refused()
}
/// Back to normal; whether a request was refused since.
fn relax(r: u64) -> bool {
    chk::fail_mask(0);
    chk::refused() != r
}
fn vals<E: El>(v: &[E]) -> Vec<u32> {
    v.iter().map(|e| e.val()).collect()
}
fn tag<A: IAlloc + 'static>(a: &A) -> Option<u32> {
    let a: &dyn std::any::Any = unsafe { &*(a as *const A) };
    a.downcast_ref::<Chk>().map(|a| a.tag).or(a.downcast_ref::<ChkR>().map(|a| a.tag)).or(a.downcast_ref::<ChkD>().map(|a| a.tag))
}
/// The allocator handed back is the one that was given.
fn given<A: TA>(a: &A, t: u32) -> bool {
    tag(a).map_or(true, |x| x == t)
}
fn body<E: El, A: TA>(c: &mut Case, f: fn(&mut Case) -> Res) -> Res {
    chk::begin();
    f(c)?;
    chk::fail_mask(0);
    let _ = std::marker::PhantomData::<(E, A)>;
    chk::end()
}
fn mid(at: &str) -> Res {
    chk::mid().map_err(|e| format!("{at}: {e}"))
}

// vectors

fn vecs<E: El, A: TA>(c: &mut Case) -> Res {
    body::<E, A>(c, |c| {
        let zst = core::mem::size_of::<E>() == 0;
        let mut m: Vec<u32> = vec![];
        let mut v: SVec<E, A> = SVec::new_in(A::mk(3));
        let mut hits = 0;
        for step in 0..c.range(3, 16) {
            let at = format!("step {step}");
            let (cap, ptr) = (v.capacity(), v.as_ptr() as usize);
            let x = E::new(c.below(50) as u32).val();
            let r = arm(c);
            let mut failed = false;
            match c.below(8) {
                0..=2 => {
                    op!(c, "try_push {x}");
                    match v.try_push(E::new(x)) {
                        Ok(()) => m.push(x),
                        Err(e) => {
                            failed = true;
                            ck_eq!(e.val(), x, "{at}: value handed back");
                            let hit = relax(r);
                            ck!(hit, "{at}: try_push fails though no allocation was refused");
                            ck_eq!(vals(&v), m, "{at}: contents after a failed push");
                            op!(c, "retry");
                            ck!(v.try_push(e).is_ok(), "{at}: try_push fails though memory is available");
                            m.push(x);
                            hits += 1;
                        }
                    }
                }
                3 => {
                    let n = if c.chance(1, 8) { usize::MAX - c.usize(3) } else { c.usize(12) };
                    op!(c, "try_reserve {n}");
                    match v.try_reserve(n) {
                        Ok(k) => {
                            ck!(v.capacity() - v.len() >= n, "{at}: room for {} after reserving {n}", v.capacity() - v.len());
                            ck!(k.get() >= v.len() + n && (zst || k.get() == v.capacity()), "{at}: reserved capacity {} of {}", k.get(), v.capacity());
                        }
                        Err(_) => {
                            failed = true;
                            let hit = relax(r);
                            let impossible = n > 1 << 40;
                            ck!(hit || impossible, "{at}: try_reserve fails though no allocation was refused");
                            if !impossible {
                                ck!(v.try_reserve(n).is_ok(), "{at}: try_reserve fails though memory is available");
                                ck_eq!(vals(&v), m, "{at}: contents after a retried reservation");
                                ck!(v.capacity() - v.len() >= n, "{at}: room");
                                hits += 1;
                                continue;
                            }
                        }
                    }
                }
                4 => {
                    op!(c, "push {x}");
                    let e = E::new(x);
                    match catch(|| v.push(e)) {
                        Ok(()) => m.push(x),
                        Err(_) => {
                            failed = true;
                            ck!(relax(r), "{at}: push panics though no allocation was refused");
                            hits += 1;
                        }
                    }
                }
                5 => {
                    let n = c.usize(12);
                    op!(c, "reserve {n}");
                    if catch(|| v.reserve(n)).is_err() {
                        failed = true;
                        ck!(relax(r), "{at}: reserve panics though no allocation was refused");
                        hits += 1;
                    }
                }
                6 => {
                    let xs: Vec<u32> = (0..c.usize(14)).map(|i| E::new(x + i as u32).val()).collect();
                    op!(c, "extend {xs:?}");
                    let es: Vec<E> = xs.iter().map(|x| E::new(*x)).collect();
                    if catch(|| v.extend(es)).is_err() {
                        ck!(relax(r), "{at}: extend panics though no allocation was refused");
                        hits += 1;
                        // some of them may have made it
                        let got = vals(&v);
                        ck!(got.len() >= m.len() && got.len() <= m.len() + xs.len() && got[..m.len()] == m[..] && got[m.len()..] == xs[..got.len() - m.len()], "{at}: {m:?} interrupted while extending by {xs:?} is {got:?}");
                        m = got;
                    } else {
                        m.extend(&xs);
                    }
                }
                _ => {
                    let n = c.usize(20);
                    op!(c, "vector made anew with capacity {n}");
                    match SVec::<E, A>::try_with_capacity_in(n, A::mk(5)) {
                        Ok(w) => {
                            ck!(w.capacity() >= n && w.is_empty(), "{at}: capacity {} of a vector made with {n}", w.capacity());
                            v = w;
                            m.clear();
                            relax(r);
                            continue;
                        }
                        Err(a) => {
                            ck!(relax(r), "{at}: try_with_capacity_in fails though no allocation was refused");
                            ck!(given(&a, 5), "{at}: another allocator is handed back");
                            hits += 1;
                            ck!(SVec::<E, A>::try_with_capacity_in(n, a).is_ok(), "{at}: try_with_capacity_in fails though memory is available");
                        }
                    }
                }
            }
            relax(r);
            ck_eq!(vals(&v), m, "{at}: contents");
            if failed && vals(&v).len() == m.len() && cap == v.capacity() {
                ck_eq!(v.as_ptr() as usize, ptr, "{at}: a failed operation moved the elements");
            }
            ck!(v.capacity() >= v.len(), "{at}: capacity");
            if A::CHECKED && !zst && v.capacity() > 0 {
                ck!(chk::covers(v.as_ptr() as usize, v.capacity() * core::mem::size_of::<E>()), "{at}: capacity exceeds the allocation");
            }
            mid(&at)?;
        }
        c.nontrivial = hits > 0;
        // conversions under failure
        let r = arm(c);
        match c.below(4) {
            0 => {
                op!(c, "into ArcSlice");
                match catch(|| ArcSlice::from(v)) {
                    Ok(s) => ck_eq!(vals(&s), m, "shared contents"),
                    Err(_) => ck!(relax(r), "conversion panics though no allocation was refused"),
                }
            }
            1 => {
                op!(c, "into BoxedSlice");
                match catch(|| BoxedSlice::from(v)) {
                    Ok(s) => ck_eq!(vals(&s), m, "boxed contents"),
                    Err(_) => ck!(relax(r), "conversion panics though no allocation was refused"),
                }
            }
            2 => {
                op!(c, "clone");
                match catch(|| v.clone()) {
                    Ok(s) => ck_eq!(vals(&s), m, "cloned contents"),
                    Err(_) => ck!(relax(r), "clone panics though no allocation was refused"),
                }
                ck_eq!(vals(&v), m, "contents after cloning");
            }
            _ => {}
        }
        relax(r);
        Ok(())
    })
}

// vectors of plain data, strings

fn copies<A: TA>(c: &mut Case) -> Res {
    body::<u16, A>(c, |c| {
        let mut m: Vec<u16> = vec![];
        let mut v: SVec<u16, A> = SVec::new_in(A::mk(3));
        let mut t = String::new();
        let mut s: SString<A> = SString::new_in(A::mk(3));
        let mut hits = 0;
        for step in 0..c.range(3, 14) {
            let at = format!("step {step}");
            let n = c.usize(14);
            let xs: Vec<u16> = (0..n).map(|i| (step * 100) as u16 + i as u16).collect();
            let text: String = (0..n).map(|_| *c.pick(&['a', 'é', '€', '𝄞', 'Z'])).collect();
            let r = arm(c);
            match c.below(5) {
                0 => {
                    op!(c, "try_copy_extend {n}");
                    match v.try_copy_extend(&xs) {
                        Ok(()) => m.extend(&xs),
                        Err(_) => {
                            ck!(relax(r), "{at}: try_copy_extend fails though no allocation was refused");
                            ck_eq!(v.as_slice(), &m[..], "{at}: contents after a failure");
                            hits += 1;
                            ck!(v.try_copy_extend(&xs).is_ok(), "{at}: try_copy_extend fails though memory is available");
                            m.extend(&xs);
                        }
                    }
                }
                1 => {
                    op!(c, "copy_extend {n}");
                    match catch(|| v.copy_extend(&xs)) {
                        Ok(()) => m.extend(&xs),
                        Err(_) => {
                            ck!(relax(r), "{at}: copy_extend panics though no allocation was refused");
                            hits += 1;
                        }
                    }
                }
                2 | 3 => {
                    op!(c, "try_concat {text:?}");
                    match s.try_concat(&text) {
                        Ok(()) => t += &text,
                        Err(_) => {
                            ck!(relax(r), "{at}: try_concat fails though no allocation was refused");
                            ck_eq!(s.as_str(), t, "{at}: text after a failure");
                            hits += 1;
                            ck!(s.try_concat(&text).is_ok(), "{at}: try_concat fails though memory is available");
                            t += &text;
                        }
                    }
                }
                _ => {
                    op!(c, "+= {text:?}");
                    match catch(|| s += &text) {
                        Ok(()) => t += &text,
                        Err(_) => {
                            ck!(relax(r), "{at}: += panics though no allocation was refused");
                            hits += 1;
                        }
                    }
                }
            }
            relax(r);
            ck_eq!(v.as_slice(), &m[..], "{at}: contents");
            ck_eq!(s.as_str(), t, "{at}: text");
            mid(&at)?;
        }
        let r = arm(c);
        match c.below(3) {
            0 => {
                if let Ok(x) = catch(|| ArcStr::from(s)) {
                    ck_eq!(x.as_str(), t, "shared text");
                }
            }
            1 => {
                if let Ok(x) = catch(|| BoxedStr::from(s)) {
                    ck_eq!(x.as_str(), t, "boxed text");
                }
            }
            _ => {
                if let Ok(x) = catch(|| s.clone()) {
                    ck_eq!(x.as_str(), t, "cloned text");
                }
                ck_eq!(s.as_str(), t, "text after cloning");
            }
        }
        relax(r);
        c.nontrivial = hits > 0;
        Ok(())
    })
}

// boxes and shared pointers

fn handles<E: El, A: TA>(c: &mut Case) -> Res {
    body::<E, A>(c, |c| {
        let mut boxes: Vec<(SBox<E, A>, u32)> = vec![];
        let mut arcs: Vec<(SArc<E, A>, u32)> = vec![];
        let mut slices: Vec<(ArcSlice<E, A>, Vec<u32>)> = vec![];
        let mut hits = 0;
        for step in 0..c.range(2, 12) {
            let at = format!("step {step}");
            let x = E::new(c.below(50) as u32).val();
            let n = c.usize(5);
            let ok = c.chance(2, 3);
            let k = c.usize(arcs.len().max(1));
            let j = c.usize(slices.len().max(1));
            let r = arm(c);
            // a constructor that owns something, and either fills the slot or says it didn't
            let extra = E::new(x);
            fn hr<E, F: for<'a> FnOnce(&'a mut core::mem::MaybeUninit<E>) -> Result<&'a mut E, ()>>(f: F) -> F {
                f
            }
            let fill = hr::<E, _>(move |slot| {
                extra.val();
                if ok {
                    Ok(slot.write(E::new(x)))
                } else {
                    Err(())
                }
            });
            match c.below(9) {
                0 | 1 => {
                    op!(c, "Box::try_new_in({x})");
                    match SBox::try_new_in(E::new(x), A::mk(4)) {
                        Ok(b) => boxes.push((b, x)),
                        Err((e, a)) => {
                            ck!(relax(r), "{at}: try_new_in fails though no allocation was refused");
                            ck_eq!(e.val(), x, "{at}: value handed back");
                            ck!(given(&a, 4), "{at}: another allocator is handed back");
                            hits += 1;
                            match SBox::try_new_in(e, a) {
                                Ok(b) => boxes.push((b, x)),
                                Err(_) => return Err(format!("{at}: try_new_in fails though memory is available")),
                            }
                        }
                    }
                }
                2 => {
                    op!(c, "Box::try_make_in({x}) {}", if ok { "" } else { "failing" });
                    match unsafe { SBox::try_make_in(fill, A::mk(4)) } {
                        Ok(b) => {
                            ck!(ok, "{at}: a failed constructor made a box");
                            boxes.push((b, x))
                        }
                        Err(Ok(un)) => {
                            ck!(!ok, "{at}: a constructor that worked made no box");
                            let p = &*un as *const _ as usize;
                            if A::CHECKED && core::mem::size_of::<E>() > 0 {
                                ck!(chk::covers(p, core::mem::size_of::<E>()), "{at}: the uninitialized box holds no block");
                            }
                            hits += 1;
                        }
                        Err(Err((f, a))) => {
                            ck!(relax(r), "{at}: try_make_in fails though no allocation was refused");
                            ck!(given(&a, 4), "{at}: another allocator is handed back");
                            hits += 1;
                            match unsafe { SBox::try_make_in(f, a) } {
                                Ok(b) if ok => boxes.push((b, x)),
                                Err(Ok(_)) if !ok => {}
                                _ => return Err(format!("{at}: retried try_make_in")),
                            }
                        }
                    }
                }
                3 | 4 => {
                    op!(c, "Arc::try_new_in({x})");
                    match SArc::try_new_in(E::new(x), A::mk(4)) {
                        Ok(b) => arcs.push((b, x)),
                        Err((e, a)) => {
                            ck!(relax(r), "{at}: try_new_in fails though no allocation was refused");
                            ck_eq!(e.val(), x, "{at}: value handed back");
                            ck!(given(&a, 4), "{at}: another allocator is handed back");
                            hits += 1;
                            match SArc::try_new_in(e, a) {
                                Ok(b) => arcs.push((b, x)),
                                Err(_) => return Err(format!("{at}: try_new_in fails though memory is available")),
                            }
                        }
                    }
                }
                5 => {
                    op!(c, "Arc::try_make_in({x}) {}", if ok { "" } else { "failing" });
                    match unsafe { SArc::try_make_in(fill, A::mk(4)) } {
                        Ok(b) => {
                            ck!(ok, "{at}: a failed constructor made a shared pointer");
                            arcs.push((b, x))
                        }
                        Err(Ok(un)) => {
                            ck!(!ok, "{at}: a constructor that worked made no shared pointer");
                            ck_eq!((SArc::strong_count(&un), SArc::weak_count(&un)), (1, 1), "{at}: counts of the uninitialized value");
                            hits += 1;
                        }
                        Err(Err((f, a))) => {
                            ck!(relax(r), "{at}: try_make_in fails though no allocation was refused");
                            ck!(given(&a, 4), "{at}: another allocator is handed back");
                            hits += 1;
                            match unsafe { SArc::try_make_in(f, a) } {
                                Ok(b) if ok => arcs.push((b, x)),
                                Err(Ok(_)) if !ok => {}
                                _ => return Err(format!("{at}: retried try_make_in")),
                            }
                        }
                    }
                }
                6 if !arcs.is_empty() => {
                    // copy on write
                    if c.bool() {
                        let a = arcs[k].0.clone();
                        let v = arcs[k].1;
                        arcs.push((a, v));
                    }
                    op!(c, "make_mut {k}, set {x}");
                    let (a, v) = &mut arcs[k];
                    let before = &**a as *const E as usize;
                    let count = SArc::strong_count(a);
                    match catch(|| SArc::make_mut(a).set(x)) {
                        Ok(()) => *v = E::new(x).val(),
                        Err(_) => {
                            ck!(relax(r), "{at}: make_mut panics though no allocation was refused");
                            ck_eq!(&**a as *const E as usize, before, "{at}: make_mut failed and moved the value");
                            ck_eq!(SArc::strong_count(a), count, "{at}: count after make_mut failed");
                            hits += 1;
                        }
                    }
                }
                7 => {
                    // the only shared slice that needs an allocation of its own is the one made from a vector without one
                    let xs: Vec<u32> = (0..n).map(|i| E::new(x + i as u32).val()).collect();
                    let mut v: SVec<E, A> = SVec::new_in(A::mk(4));
                    let room = c.bool();
                    chk::fail_mask(0);
                    for x in &xs {
                        v.push(E::new(*x));
                    }
                    if room {
                        v.reserve(3);
                    }
                    let r = arm(c);
                    op!(c, "shared slice of {xs:?}");
                    match catch(|| ArcSlice::from(v)) {
                        Ok(s) => slices.push((s, xs)),
                        Err(_) => {
                            ck!(relax(r), "{at}: conversion panics though no allocation was refused");
                            hits += 1;
                        }
                    }
                }
                _ if !slices.is_empty() => {
                    if c.bool() {
                        let s = slices[j].clone();
                        slices.push(s);
                    }
                    op!(c, "set all of slice {j} to {x}");
                    // nothing here allocates
                    let (s, v) = &mut slices[j];
                    if ArcSlice::is_unique(s) {
                        for e in s.as_slice_mut().expect("unique") {
                            e.set(x)
                        }
                        v.iter_mut().for_each(|v| *v = E::new(x).val());
                    }
                }
                _ => {}
            }
            relax(r);
            for (b, x) in &boxes {
                ck_eq!(b.val(), *x, "{at}: boxed value");
            }
            for (b, x) in &arcs {
                ck_eq!(b.val(), *x, "{at}: shared value");
            }
            for (s, x) in &slices {
                ck_eq!(&vals(s), x, "{at}: shared slice");
            }
            mid(&at)?;
        }
        c.nontrivial = hits > 0;
        Ok(())
    })
}

// SingleOrVec

macro_rules! single {
    ($name:ident, $e:ty, $a:ty) => {
        fn $name(c: &mut Case) -> Res {
            type E = $e;
            type A = $a;
            type C = SingleOrVec<E, A>;
            body::<E, A>(c, |c| {
                let mut m: Vec<u32> = vec![];
                let mut v: C = C::new_in(A::mk(3));
                let mut hits = 0;
                for step in 0..c.range(2, 14) {
                    let at = format!("step {step}");
                    let x = E::new(c.below(50) as u32).val();
                    let n = c.usize(12);
                    let r = arm(c);
                    match c.below(7) {
                        0..=2 => {
                            op!(c, "try_push {x}");
                            match v.try_push(E::new(x)) {
                                Ok(()) => m.push(x),
                                Err(e) => {
                                    ck!(relax(r), "{at}: try_push fails though no allocation was refused");
                                    ck_eq!(e.val(), x, "{at}: value handed back");
                                    ck_eq!(vals(&v), m, "{at}: contents after a failed push");
                                    hits += 1;
                                    ck!(v.try_push(e).is_ok(), "{at}: try_push fails though memory is available");
                                    m.push(x);
                                }
                            }
                        }
                        3 => {
                            op!(c, "push {x}");
                            let e = E::new(x);
                            match catch(|| v.push(e)) {
                                Ok(()) => m.push(x),
                                Err(_) => {
                                    ck!(relax(r), "{at}: push panics though no allocation was refused");
                                    hits += 1;
                                }
                            }
                        }
                        4 => {
                            op!(c, "try_reserve {n}");
                            match v.try_reserve(n) {
                                Ok(_) => ck!(v.capacity() - v.len() >= n, "{at}: room for {} after reserving {n}", v.capacity() - v.len()),
                                Err(_) => {
                                    ck!(relax(r), "{at}: try_reserve fails though no allocation was refused");
                                    ck_eq!(vals(&v), m, "{at}: contents after a failed reservation");
                                    hits += 1;
                                    ck!(v.try_reserve(n).is_ok(), "{at}: try_reserve fails though memory is available");
                                }
                            }
                        }
                        5 => {
                            op!(c, "truncate {}", n % 4);
                            v.truncate(n % 4);
                            m.truncate(n % 4);
                        }
                        _ => {
                            op!(c, "made anew with capacity {n}");
                            match C::try_with_capacity_in(n, A::mk(5)) {
                                Ok(w) => {
                                    v = w;
                                    m.clear();
                                }
                                Err(a) => {
                                    ck!(relax(r), "{at}: try_with_capacity_in fails though no allocation was refused");
                                    ck!(given(&a, 5), "{at}: another allocator is handed back");
                                    hits += 1;
                                }
                            }
                        }
                    }
                    relax(r);
                    ck_eq!(vals(&v), m, "{at}: contents");
                    mid(&at)?;
                }
                c.nontrivial = hits > 0;
                Ok(())
            })
        }
    };
}
single!(single_tr_chk, Tr, Chk);
single!(single_tr_chkr, Tr, ChkR);
single!(single_niche_chkz, TrNiche, ChkZ);
single!(single_al64_chkd, Tr64, ChkD);
single!(single_u8_chkr, u8, ChkR);
single!(single_zst_chk, TrZ, Chk);

// persistent sets and maps: insertion panics when memory runs out

fn sets<E: El, A: TA, const R: bool, const S: usize>(c: &mut Case) -> Res {
    body::<E, A>(c, |c| {
        // each version with its model: element by value
        let mut vs: Vec<(ArcBTreeSet<E, A, R, S>, Vec<u32>)> = vec![(ArcBTreeSet::from_alloc(A::mk(3)), vec![])];
        let mut hits = 0;
        for step in 0..c.range(4, 30) {
            let at = format!("step {step}");
            let i = c.usize(vs.len());
            if c.chance(1, 8) && vs.len() < 4 {
                op!(c, "clone {i}");
                let (s, m) = &vs[i];
                let s = s.clone();
                let m = m.clone();
                vs.push((s, m));
                continue;
            }
            let x = E::new(c.below(40) as u32).val();
            let r = if c.chance(1, 3) { arm(c) } else { chk::refused() };
            op!(c, "insert {x} into {i}");
            let (s, m) = &mut vs[i];
            let e = E::new(x);
            match catch(|| s.insert(e).map(|e| e.val())) {
                Ok(old) => {
                    let there = m.binary_search(&x);
                    ck_eq!(old, there.ok().map(|_| x), "{at}: result of the insertion");
                    if let Err(k) = there {
                        m.insert(k, x)
                    }
                }
                Err(_) => {
                    ck!(relax(r), "{at}: insertion panics though no allocation was refused");
                    hits += 1;
                    // the version that was being changed holds some of its elements, and works
                    let mut left = vec![];
                    for y in 0..41u32 {
                        let y = E::new(y).val();
                        if s.get(&E::new(y)).is_some() && !left.contains(&y) {
                            left.push(y);
                        }
                    }
                    left.sort();
                    ck!(left.iter().all(|y| m.contains(y) || *y == x), "{at}: elements {left:?} after inserting {x} into {m:?} failed");
                    *m = left;
                }
            }
            relax(r);
            for (i, (s, m)) in vs.iter().enumerate() {
                ck_eq!(s.len(), m.len(), "{at}: length of version {i}");
                ck_eq!(s.is_empty(), m.is_empty(), "{at}: emptiness of version {i}");
                for y in m {
                    ck_eq!(s.get(&E::new(*y)).map(|e| e.val()), Some(*y), "{at}: element of version {i}");
                }
            }
            mid(&at)?;
        }
        c.nontrivial = hits > 0;
        Ok(())
    })
}
fn maps<A: TA>(c: &mut Case) -> Res {
    body::<u32, A>(c, |c| {
        let mut s: ArcBTreeMap<u32, Tr, A, 5> = ArcBTreeMap::from_alloc(A::mk(3));
        let mut m: BTreeMap<u32, u32> = BTreeMap::new();
        let snap = s.clone();
        let mut kept: Option<(ArcBTreeMap<u32, Tr, A, 5>, BTreeMap<u32, u32>)> = None;
        let mut hits = 0;
        for step in 0..c.range(2, 20) {
            let at = format!("step {step}");
            let (k, x) = (c.below(16) as u32, c.below(50) as u32);
            if c.chance(1, 10) {
                kept = Some((s.clone(), m.clone()));
            }
            let r = if c.chance(1, 3) { arm(c) } else { chk::refused() };
            op!(c, "insert {k}: {x}");
            let e = Tr::new(x);
            match catch(|| s.insert(k, e).map(|e| e.val())) {
                Ok(old) => ck_eq!(old, m.insert(k, x), "{at}: previous value"),
                Err(_) => {
                    ck!(relax(r), "{at}: insertion panics though no allocation was refused");
                    hits += 1;
                    let left: BTreeMap<u32, u32> = (0..16).filter_map(|k| s.get(&k).map(|e| (k, e.val()))).collect();
                    ck!(left.iter().all(|(l, y)| m.get(l) == Some(y) || (*l, *y) == (k, x)), "{at}: {left:?} after inserting {k}: {x} into {m:?} failed");
                    m = left;
                }
            }
            relax(r);
            let same = |s: &ArcBTreeMap<u32, Tr, A, 5>, m: &BTreeMap<u32, u32>| (0..16).all(|k| s.get(&k).map(|e| e.val()) == m.get(&k).copied());
            ck!(same(&s, &m), "{at}: contents");
            if let Some((s, m)) = &kept {
                ck!(same(s, m), "{at}: contents of a snapshot");
            }
            ck!(same(&snap, &BTreeMap::new()), "{at}: contents of the first snapshot");
            mid(&at)?;
        }
        c.nontrivial = hits > 0;
        Ok(())
    })
}

fn main() {
    vph::main(
        "C18",
        "random operation sequences on vectors, strings, boxes, shared pointers and slices, single-or-many containers and persistent sets and maps, with a random subset of the allocator calls refused; contents compared with a model after every step, refused operations retried; non-trivial = at least one operation was refused memory (or one constructor declined)",
        &[
            sub("vec_tr_chk", 150000, 3000000, vecs::<Tr, Chk>),
            sub("vec_tr_chkr", 150000, 3000000, vecs::<Tr, ChkR>),
            sub("vec_al64_chkd", 100000, 2000000, vecs::<Tr64, ChkD>),
            sub("vec_big_chkz", 100000, 2000000, vecs::<TrBig, ChkZ>),
            sub("vec_zst_chkr", 60000, 1200000, vecs::<TrZ, ChkR>),
            sub("vec_u8_chk", 60000, 1200000, vecs::<u8, Chk>),
            sub("copies_chk", 100000, 2000000, copies::<Chk>),
            sub("copies_chkr", 100000, 2000000, copies::<ChkR>),
            sub("handles_tr_chk", 150000, 3000000, handles::<Tr, Chk>),
            sub("handles_tr_chkr", 150000, 3000000, handles::<Tr, ChkR>),
            sub("handles_al64_chkz", 100000, 2000000, handles::<Tr64, ChkZ>),
            sub("handles_niche_chkd", 100000, 2000000, handles::<TrNiche, ChkD>),
            sub("handles_zst_chkr", 100000, 2000000, handles::<TrZ, ChkR>),
            sub("single_tr_chk", 100000, 2000000, single_tr_chk),
            sub("single_tr_chkr", 100000, 2000000, single_tr_chkr),
            sub("single_niche_chkz", 100000, 2000000, single_niche_chkz),
            sub("single_al64_chkd", 60000, 1200000, single_al64_chkd),
            sub("single_u8_chkr", 60000, 1200000, single_u8_chkr),
            sub("single_zst_chk", 60000, 1200000, single_zst_chk),
            sub("set5_tr_chkr", 30000, 600000, sets::<Tr, ChkR, false, 5>),
            sub("rset3_tr_chk", 30000, 600000, sets::<Tr, Chk, true, 3>),
            sub("set3_big_chkr", 20000, 400000, sets::<TrBig, ChkR, false, 3>),
            sub("map_chkr", 30000, 600000, maps::<ChkR>),
            sub("map_chkz", 30000, 600000, maps::<ChkZ>),
        ],
        &[],
    )
}
