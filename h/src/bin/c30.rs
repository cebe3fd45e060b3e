//! C30: user code that panics inside a container or sum type leaves it usable, and every element is dropped at most once.
#![recursion_limit = "1024"]
use stabby::alloc::allocators::RustAlloc;
use stabby::alloc::collections::arc_btree::{ArcBTreeMap, ArcBTreeSet, AtomicArcBTreeSet};
use stabby::alloc::single_or_vec::SingleOrVec;
use stabby::alloc::sync::{ArcSlice, Weak, WeakSlice};
use stabby::boxed::{Box as SBox, BoxedSlice};
use stabby::string::String as SString;
use stabby::sync::Arc as SArc;
use stabby::vec::Vec as SVec;
use std::fmt::Write as _;
use std::mem::MaybeUninit;
use vph::chk::{self, Chk, ChkR, ChkZ, TA};
use vph::track::{self, *};
use vph::*;
type SOpt<T> = stabby::option::Option<T>;
type SRes<T, E> = stabby::result::Result<T, E>;

/// Runs `f` with one panic armed at a random user call: its result, or `None` if the panic came out of it.
fn shot<T>(c: &mut Case, f: impl FnOnce() -> T) -> Result<Option<T>, String> {
    let kinds = *c.pick(&[K_CLONE, K_DROP, K_CMP, K_CALL, K_ALLOC, K_CLONE | K_DROP, !0, !0]);
    let k = *c.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 6, 9, 14, 20]);
    track::arm_panic(k, kinds);
    let r = catch(f);
    let fired = track::disarm();
    match r {
        Ok(v) => {
            ck!(!fired, "a panic of user code was swallowed");
            Ok(Some(v))
        }
        Err(p) => {
            ck!(fired && p.contains("injected"), "unexpected {p}");
            op!(c, "    panicked (user call {k}, kinds {kinds:#x})");
            c.label("panics");
            c.nontrivial = true;
            Ok(None)
        }
    }
}
fn begin() {
    chk::begin();
}
/// Nothing was dropped twice, touched after it was dropped or released; and nothing is left unless a panic came.
fn end(c: &Case) -> Res {
    if !c.nontrivial {
        return chk::end();
    }
    chk::mid()?;
    ck!(chk::handles() >= 0, "allocators dropped {} time(s) more than they were made", -chk::handles());
    chk::begin();
    Ok(())
}
/// `held` are elements that were put there, none of them twice.
fn inside(held: &[u32], pool: &[u32], at: &str) -> Res {
    let mut left = pool.to_vec();
    for h in held {
        match left.iter().position(|x| x == h) {
            Some(i) => {
                left.swap_remove(i);
            }
            None => return Err(format!("{at}: holds {held:?}, of {pool:?}")),
        }
    }
    Ok(())
}
fn new<E: El>(next: &mut u32) -> (E, u32) {
    *next += 1;
    let e = E::new(*next);
    let v = e.val();
    (e, v)
}

/// An iterator of user code.
struct Src<'a, E> {
    left: usize,
    hint: usize,
    next: &'a mut u32,
    given: &'a mut Vec<u32>,
    e: std::marker::PhantomData<E>,
}
impl<E: El> Iterator for Src<'_, E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        user(K_CALL);
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let (e, v) = new::<E>(self.next);
        self.given.push(v);
        Some(e)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        user(K_CALL);
        (self.hint, None)
    }
}
macro_rules! src {
    ($n:expr, $hint:expr, $next:expr, $given:expr) => {
        Src { left: $n, hint: $hint, next: $next, given: $given, e: std::marker::PhantomData }
    };
}

fn vals<E: El>(v: &[E]) -> Vec<u32> {
    v.iter().map(|e| e.val()).collect()
}
fn filled<E: El, A: TA>(c: &mut Case, next: &mut u32, m: &mut Vec<u32>) -> SVec<E, A> {
    let mut v = if c.bool() { SVec::new_in(A::mk(3)) } else { SVec::with_capacity_in(c.usize(12), A::mk(3)) };
    for _ in 0..c.usize(10) {
        let (e, x) = new(next);
        v.push(e);
        m.push(x);
    }
    v
}
/// after a panic: the elements are among `pool`; after none, they are `want`
fn settle<E: El>(held: &[E], done: bool, want: &[u32], pool: &[u32], at: &str) -> Result<Vec<u32>, String> {
    chk::mid().map_err(|e| format!("{at}: {e}"))?;
    let h = vals(held);
    chk::mid().map_err(|e| format!("{at}: {e}"))?;
    if done {
        ck_eq!(h, want, "{at}");
    } else {
        inside(&h, pool, at)?;
    }
    Ok(h)
}
fn vec_case<E: El, A: TA>(c: &mut Case) -> Res {
    begin();
    vec_body::<E, A>(c)?;
    end(c)
}
fn vec_body<E: El, A: TA>(c: &mut Case) -> Res {
    let mut next = 100;
    let mut m = vec![];
    let mut v = filled::<E, A>(c, &mut next, &mut m);
    for step in 0..c.range(1, 6) {
        let at = format!("step {step}");
        let n = m.len();
        let before = m.clone();
        match c.below(15) {
            0 => {
                op!(c, "{at}: clone of {m:?}");
                let r = shot(c, || v.clone())?;
                m = settle(&v, true, &before, &[], &format!("{at}: the original"))?;
                if let Some(w) = r {
                    settle(&w, true, &m, &[], &format!("{at}: the clone"))?;
                    shot(c, move || drop(w))?;
                    settle(&v, true, &m, &[], &format!("{at}: the original, after the clone"))?;
                }
            }
            1 => {
                op!(c, "{at}: compare {m:?}");
                let mut o = vec![];
                let w = filled::<E, A>(c, &mut next, &mut o);
                let k = c.below(4);
                shot(c, || match k {
                    0 => v == w,
                    1 => v.cmp(&w) == core::cmp::Ordering::Less,
                    2 => v < w,
                    _ => v.as_slice() == v.as_slice(),
                })?;
                settle(&v, true, &m, &[], &at)?;
                settle(&w, true, &o, &[], &at)?;
            }
            2 => {
                let k = c.usize(n + 2);
                op!(c, "{at}: truncate {m:?} to {k}");
                let r = shot(c, || v.truncate(k))?;
                m.truncate(k);
                m = settle(&v, r.is_some(), &m, &before, &at)?;
            }
            3 | 4 => {
                let from = c.usize(n + 1);
                let to = from + c.usize(n - from + 1);
                let (k, end, back) = (c.usize(to - from + 1), c.below(3), c.u64());
                op!(c, "{at}: drain {from}..{to} of {m:?}, {k} taken, end {end}");
                let mut taken = 0;
                let r = shot(c, || {
                    let mut d = v.drain(from..to);
                    for _ in 0..k {
                        let e = d.next();
                        user(K_CALL);
                        taken += e.is_some() as usize;
                        drop(e);
                    }
                    match end {
                        0 => drop(d),
                        1 => d.stop(),
                        _ => {
                            let mut d = d.double_ended();
                            for b in 0..back % 4 {
                                let e = if back >> (8 + b) & 1 == 0 { d.next() } else { d.next_back() };
                                user(K_CALL);
                                drop(e);
                            }
                        }
                    }
                })?;
                m.drain(from..if end == 1 { from + taken } else { to });
                m = settle(&v, r.is_some(), &m, &before, &at)?;
            }
            5 => {
                op!(c, "{at}: iterate {m:?} by value");
                let k = c.usize(n + 2);
                let w = core::mem::replace(&mut v, SVec::new_in(A::mk(4)));
                let mut it = w.into_iter();
                shot(c, || {
                    for _ in 0..k {
                        let e = it.next();
                        user(K_CALL);
                        drop(e);
                    }
                })?;
                chk::mid()?;
                // what's left of it
                shot(c, move || drop(it))?;
                m.clear();
            }
            6 | 7 => {
                let (k, hint) = (c.usize(8), c.usize(5));
                op!(c, "{at}: extend {m:?} by {k}");
                let mut given = vec![];
                let r = shot(c, || v.extend(src!(k, hint, &mut next, &mut given)))?;
                m.extend(&given);
                let pool = m.clone();
                m = settle(&v, r.is_some(), &m, &pool, &at)?;
            }
            8 => {
                let (k, hint) = (c.usize(12), c.usize(5));
                op!(c, "{at}: collect {k}");
                let mut given = vec![];
                let r = shot(c, || src!(k, hint, &mut next, &mut given).collect::<SVec<E, A>>())?;
                if let Some(w) = r {
                    m = settle(&w, true, &given, &[], &at)?;
                    let old = core::mem::replace(&mut v, w);
                    shot(c, move || drop(old))?;
                }
            }
            9 if n > 0 => {
                let i = c.usize(n);
                let (e, x) = new(&mut next);
                op!(c, "{at}: assign {i} of {m:?}");
                let r = shot(c, || v[i] = e)?;
                m[i] = x;
                let mut pool = before.clone();
                pool.push(x);
                m = settle(&v, r.is_some(), &m, &pool, &at)?;
            }
            10 if n > 0 => {
                let i = c.usize(n);
                let k = c.below(3);
                op!(c, "{at}: remove {i} of {m:?} ({k})");
                let r = shot(c, || drop(match k { 0 => v.remove(i), 1 => v.swap_remove(i), _ => v.pop() }))?;
                match k {
                    0 => drop(m.remove(i)),
                    1 => drop(m.swap_remove(i)),
                    _ => drop(m.pop()),
                }
                m = settle(&v, r.is_some(), &m, &before, &at)?;
            }
            11 => {
                op!(c, "{at}: sort {m:?}");
                shot(c, || {
                    v.iter_mut().for_each(|_| user(K_CALL));
                    v.sort_by(|a, b| b.cmp(a))
                })?;
                m = settle(&v, false, &[], &before, &at)?;
                ck_eq!(m.len(), n, "{at}: sorting lost elements");
            }
            12 => {
                op!(c, "{at}: {m:?} as a boxed slice");
                let w = core::mem::replace(&mut v, SVec::new_in(A::mk(5)));
                let mut b = BoxedSlice::from(w);
                if n > 0 {
                    let i = c.usize(n);
                    let (e, x) = new(&mut next);
                    let r = shot(c, || b[i] = e)?;
                    m[i] = x;
                    let mut pool = before.clone();
                    pool.push(x);
                    m = settle(&b, r.is_some(), &m, &pool, &at)?;
                    shot(c, || (b == b) as u8 + (b.cmp(&b) == core::cmp::Ordering::Equal) as u8)?;
                }
                let (e, x) = new(&mut next);
                match b.try_push(e) {
                    Ok(()) => m.push(x),
                    Err(e) => drop(shot(c, move || drop(e))?),
                }
                settle(&b, true, &m, &[], &at)?;
                if c.bool() {
                    v = b.into();
                } else {
                    shot(c, move || drop(b))?;
                    m.clear();
                }
            }
            13 => {
                op!(c, "{at}: {m:?} as a shared slice");
                let w = core::mem::replace(&mut v, SVec::new_in(A::mk(6)));
                let s = ArcSlice::from(w);
                let (s2, weak) = (s.clone(), WeakSlice::from(&s));
                shot(c, || (s == s2) as u8 + (s < s2) as u8)?;
                settle(&s2, true, &before, &[], &at)?;
                drop(s);
                settle(&s2, true, &before, &[], &at)?;
                if core::mem::size_of::<E>() != 0 && c.bool() {
                    drop(weak);
                    match SVec::try_from(s2) {
                        Ok(w) => v = w,
                        Err(_) => return Err(format!("{at}: not unique")),
                    }
                } else {
                    shot(c, move || drop(s2))?;
                    ck!(weak.upgrade().is_none(), "{at}: a destroyed slice was upgraded");
                    m.clear();
                }
            }
            _ => {
                op!(c, "{at}: drop {m:?}");
                let w = core::mem::replace(&mut v, SVec::new_in(A::mk(4)));
                shot(c, move || drop(w))?;
                m.clear();
            }
        }
        chk::mid().map_err(|e| format!("{at}: {e}"))?;
        // it still works
        let (e, x) = new(&mut next);
        v.push(e);
        m.push(x);
        ck!(v.capacity() >= v.len(), "{at}: capacity {} < len {}", v.capacity(), v.len());
        settle(&v, true, &m, &[], &format!("{at}, then push"))?;
        if c.bool() {
            let i = c.usize(m.len());
            ck_eq!(v.remove(i).map(|e| e.val()), Some(m.remove(i)), "{at}, then remove");
            settle(&v, true, &m, &[], &format!("{at}, then remove"))?;
        }
    }
    if c.bool() {
        shot(c, move || drop(v))?;
    } else {
        drop(v);
    }
    Ok(())
}

macro_rules! single {
    ($($name:ident: $e:ty, $a:ty);* $(;)?) => { $(
        fn $name(c: &mut Case) -> Res {
            type E = $e;
            type A = $a;
            type C = SingleOrVec<E, A>;
            fn body(c: &mut Case) -> Res {
                let mut next = 100;
                let mut m: Vec<u32> = vec![];
                let mut v = C::new_in(A::mk(1));
                for _ in 0..c.usize(4) {
                    let (e, x) = new(&mut next);
                    v.push(e);
                    m.push(x);
                }
                for step in 0..c.range(1, 6) {
                    let at = format!("step {step}");
                    let n = m.len();
                    let before = m.clone();
                    match c.below(10) {
                        0 => {
                            op!(c, "{at}: clone of {m:?}");
                            let r = shot(c, || v.clone())?;
                            if let Some(w) = r {
                                settle(&w, true, &m, &[], &format!("{at}: the clone"))?;
                                shot(c, move || drop(w))?;
                            }
                            settle(&v, true, &m, &[], &at)?;
                        }
                        1 => {
                            op!(c, "{at}: compare {m:?}");
                            let w = v.clone();
                            shot(c, || (v == w) as u8 + (v.cmp(&w) == core::cmp::Ordering::Equal) as u8)?;
                            settle(&v, true, &m, &[], &at)?;
                        }
                        2 | 3 => {
                            let k = c.usize(n + 1);
                            op!(c, "{at}: truncate {m:?} to {k}");
                            let r = shot(c, || v.truncate(k))?;
                            m.truncate(k);
                            m = settle(&v, r.is_some(), &m, &before, &at)?;
                        }
                        4 if n > 0 => {
                            let i = c.usize(n);
                            let (e, x) = new(&mut next);
                            op!(c, "{at}: assign {i} of {m:?}");
                            let r = shot(c, || {
                                let mut s = v.as_slice_mut();
                                s[i] = e;
                                user(K_CALL);
                            })?;
                            m[i] = x;
                            let mut pool = before.clone();
                            pool.push(x);
                            m = settle(&v, r.is_some(), &m, &pool, &at)?;
                        }
                        5 => {
                            op!(c, "{at}: iterate {m:?} mutably");
                            shot(c, || for x in &mut v { x.val(); user(K_CALL); drop(x.clone()); })?;
                            settle(&v, true, &m, &[], &at)?;
                        }
                        6 => {
                            let (k, hint) = (c.usize(4), c.usize(3));
                            op!(c, "{at}: extend {m:?} by {k}");
                            let mut given = vec![];
                            let r = shot(c, || v.extend(src!(k, hint, &mut next, &mut given)))?;
                            m.extend(&given);
                            let pool = m.clone();
                            m = settle(&v, r.is_some(), &m, &pool, &at)?;
                        }
                        7 => {
                            op!(c, "{at}: push, reserve on {m:?}");
                            let (e, x) = new(&mut next);
                            let k = c.usize(5);
                            let r = shot(c, || {
                                v.reserve(k);
                                v.push(e)
                            })?;
                            m.push(x);
                            let pool = m.clone();
                            m = settle(&v, r.is_some(), &m, &pool, &at)?;
                        }
                        8 => {
                            op!(c, "{at}: {m:?} through a vector");
                            let w = core::mem::replace(&mut v, C::new_in(A::mk(2)));
                            let mut w = SVec::from(w);
                            settle(&w, true, &m, &[], &at)?;
                            let k = c.usize(n + 1);
                            shot(c, || w.truncate(k))?;
                            m = settle(&w, false, &[], &before, &at)?;
                            v = C::from(w);
                        }
                        _ => {
                            op!(c, "{at}: drop {m:?}");
                            let w = core::mem::replace(&mut v, C::new_in(A::mk(2)));
                            shot(c, move || drop(w))?;
                            m.clear();
                        }
                    }
                    settle(&v, true, &m, &[], &format!("{at}, afterwards"))?;
                    if c.bool() {
                        let (e, x) = new(&mut next);
                        v.push(e);
                        m.push(x);
                        settle(&v, true, &m, &[], &format!("{at}, then push"))?;
                    }
                }
                if c.bool() {
                    shot(c, move || drop(v))?;
                }
                Ok(())
            }
            begin();
            body(c)?;
            end(c)
        }
    )* };
}
single! {
    single_tr_chk: Tr, Chk;
    single_tr_chkr: Tr, ChkR;
    single_big_chkz: TrBig, ChkZ;
    single_niche_chk: TrNiche, Chk;
    single_al64_chk: Tr64, Chk;
    single_zst_chk: TrZ, Chk;
}

/// An initialiser that panics before or after it wrote the value.
unsafe fn init<'a, E: El>(slot: &'a mut MaybeUninit<E>, x: u32, fail: bool) -> Result<&'a mut E, ()> {
    user(K_CALL);
    if fail {
        return Err(());
    }
    let e = E::new(x);
    user(K_CALL);
    let r = slot.write(e);
    user(K_CALL);
    Ok(r)
}
fn box_case<E: El, A: TA>(c: &mut Case) -> Res {
    begin();
    box_body::<E, A>(c)?;
    end(c)
}
fn box_body<E: El, A: TA>(c: &mut Case) -> Res {
    let mut next = 100;
    let (e, mut x) = new::<E>(&mut next);
    let mut b = SBox::new_in(e, A::mk(1));
    for step in 0..c.range(1, 5) {
        let at = format!("step {step}");
        match c.below(5) {
            0 => {
                op!(c, "{at}: clone");
                if let Some(d) = shot(c, || b.clone())? {
                    ck_eq!((d.val(), b.val()), (x, x), "{at}: clone");
                    let old = core::mem::replace(&mut b, d);
                    shot(c, move || drop(old))?;
                }
                ck_eq!(b.val(), x, "{at}: clone");
            }
            1 => {
                op!(c, "{at}: assign");
                let (e, y) = new::<E>(&mut next);
                let r = shot(c, || *b = e)?;
                let is = b.val();
                ck!(is == y || r.is_none() && is == x, "{at}: assigned {y}, is {is}");
                x = is;
            }
            2 => {
                op!(c, "{at}: make");
                next += 1;
                let (y, fail) = (E::new(next).val(), c.chance(1, 4));
                let a = A::mk(2);
                let r = shot(c, || unsafe { SBox::<E, A>::make_in(|s| init(s, y, fail), a) })?;
                chk::mid().map_err(|e| format!("{at}: {e}"))?;
                match r {
                    Some(Ok(d)) => {
                        ck_eq!((d.val(), fail), (y, false), "{at}: made");
                        b = d;
                        x = y;
                    }
                    Some(Err(_)) => ck!(fail, "{at}: make failed"),
                    None => {}
                }
            }
            3 => {
                op!(c, "{at}: into_inner");
                let (e, y) = new::<E>(&mut next);
                let old = core::mem::replace(&mut b, SBox::new_in(e, A::mk(3)));
                shot(c, || {
                    let e = SBox::into_inner(old);
                    user(K_CALL);
                    drop(e)
                })?;
                x = y;
            }
            _ => {
                op!(c, "{at}: drop");
                let (e, y) = new::<E>(&mut next);
                let old = core::mem::replace(&mut b, SBox::new_in(e, A::mk(3)));
                shot(c, move || drop(old))?;
                x = y;
            }
        }
        chk::mid().map_err(|e| format!("{at}: {e}"))?;
        ck_eq!(b.val(), x, "{at}: afterwards");
    }
    shot(c, move || drop(b))?;
    Ok(())
}

fn arc_case<E: El, A: TA>(c: &mut Case) -> Res {
    begin();
    arc_body::<E, A>(c)?;
    end(c)
}
fn arc_body<E: El, A: TA>(c: &mut Case) -> Res {
    let mut next = 100;
    let (e, x) = new::<E>(&mut next);
    let mut hs: Vec<(SArc<E, A>, u32)> = vec![(SArc::new_in(e, A::mk(1)), x)];
    let mut ws: Vec<(Weak<E, A>, usize)> = vec![];
    for step in 0..c.range(2, 12) {
        let at = format!("step {step}");
        if hs.is_empty() {
            let (e, x) = new::<E>(&mut next);
            hs.push((SArc::new_in(e, A::mk(1)), x));
        }
        let i = c.usize(hs.len());
        let old = hs[i].1;
        match c.below(9) {
            0 | 1 => {
                op!(c, "{at}: clone {i}");
                let h = (hs[i].0.clone(), old);
                hs.push(h);
            }
            2 => {
                op!(c, "{at}: downgrade {i}");
                ws.push((SArc::downgrade(&hs[i].0), &*hs[i].0 as *const E as usize));
            }
            3 | 4 => {
                next += 1;
                let x = E::new(next).val();
                op!(c, "{at}: make_mut {i} set {x}");
                let r = shot(c, || {
                    let r = hs[i].0.make_mut();
                    user(K_CALL);
                    r.set(x);
                })?;
                chk::mid().map_err(|e| format!("{at}: {e}"))?;
                let is = hs[i].0.val();
                ck_eq!(is, if r.is_some() { x } else { old }, "{at}: value after make_mut");
                hs[i].1 = is;
            }
            5 => {
                op!(c, "{at}: get_mut {i}");
                let (e, x) = new::<E>(&mut next);
                let mut slot = Some(e);
                let r = shot(c, || {
                    if let Some(r) = SArc::get_mut(&mut hs[i].0) {
                        *r = slot.take().unwrap();
                    }
                })?;
                let is = hs[i].0.val();
                let want = if slot.is_none() { x } else { old };
                ck!(is == want || r.is_none() && is == old, "{at}: value after get_mut is {is}");
                hs[i].1 = is;
            }
            6 => {
                op!(c, "{at}: into_inner {i}");
                let (h, x) = hs.swap_remove(i);
                let r = shot(c, || match SArc::try_into_inner(h) {
                    Ok(e) => {
                        user(K_CALL);
                        drop(e);
                        None
                    }
                    Err(h) => Some(h),
                })?;
                if let Some(Some(h)) = r {
                    hs.push((h, x));
                }
            }
            7 => {
                op!(c, "{at}: make");
                next += 1;
                let (y, fail) = (E::new(next).val(), c.chance(1, 4));
                let a = A::mk(2);
                let r = shot(c, || unsafe { SArc::<E, A>::make_in(|s| init(s, y, fail), a) })?;
                if let Some(Ok(h)) = r {
                    hs.push((h, y));
                }
            }
            _ => {
                op!(c, "{at}: drop {i}");
                let h = hs.swap_remove(i);
                shot(c, move || drop(h))?;
            }
        }
        chk::mid().map_err(|e| format!("{at}: {e}"))?;
        for (i, (h, x)) in hs.iter().enumerate() {
            ck_eq!(h.val(), *x, "{at}: value of handle {i}");
            let p = &**h as *const E;
            let same = hs.iter().filter(|(o, _)| std::ptr::eq(&**o as *const E, p)).count();
            ck!(SArc::strong_count(h) >= same, "{at}: {same} handles, strong count {}", SArc::strong_count(h));
        }
        for (i, (w, p)) in ws.iter().enumerate() {
            // a value is released before its block, so that an address can't be reused while `w` is there
            let live = hs.iter().any(|(h, _)| &**h as *const E as usize == *p);
            let up = w.upgrade();
            if let Some(h) = &up {
                h.val();
                ck_eq!(&**h as *const E as usize, *p, "{at}: address of weak handle {i}");
            }
            ck_eq!(up.is_some(), live, "{at}: weak handle {i} upgrades");
            // (the upgrade itself must not be the last handle)
        }
        chk::mid().map_err(|e| format!("{at}: {e}"))?;
    }
    Ok(())
}

macro_rules! versions {
    ($c:expr, $vs:expr, $dom:expr, $at:expr, $get:expr) => {
        for (i, (s, m)) in $vs.iter().enumerate() {
            let mut n = 0;
            for k in 0..$dom {
                let g = $get(s, k);
                n += g.is_some() as usize;
                ck_eq!(g, m.get(&k).copied(), "{}: version {i} at {k}", $at);
            }
            ck_eq!(n, m.len(), "{}: contents of version {i}", $at);
        }
    };
}
use std::collections::BTreeMap;
fn set_case<E: El, A: TA, const R: bool, const L: usize>(c: &mut Case) -> Res {
    begin();
    set_body::<E, A, R, L>(c)?;
    end(c)
}
fn set_body<E: El, A: TA, const R: bool, const L: usize>(c: &mut Case) -> Res {
    type S<E, A, const R: bool, const L: usize> = ArcBTreeSet<E, A, R, L>;
    let dom = (*c.pick(&[4u32, 12, 40])).min(E::DISTINCT);
    let find = |s: &S<E, A, R, L>, k: u32| s.get(&E::new(k)).map(|e| e.val());
    let mut vs: Vec<(S<E, A, R, L>, BTreeMap<u32, u32>)> = vec![(S::from_alloc(A::mk(1)), BTreeMap::new())];
    for _ in 0..c.usize(30) {
        let k = c.below(dom as u64) as u32;
        vs[0].0.insert(E::new(k));
        vs[0].1.insert(k, k);
    }
    for step in 0..c.range(1, 14) {
        let at = format!("step {step}");
        let i = c.usize(vs.len());
        let k = c.below(dom as u64) as u32;
        match c.weighted(&[8, 3, 2, 2]) {
            0 => {
                op!(c, "{at}: v{i} insert {k}");
                let e = E::new(k);
                let s = &mut vs[i].0;
                let r = shot(c, || drop(s.insert(e)))?;
                chk::mid().map_err(|e| format!("{at}: {e}"))?;
                let (s, m) = &mut vs[i];
                if r.is_some() {
                    m.insert(k, k);
                } else {
                    // whatever it holds now was in it or being inserted
                    let mut found = BTreeMap::new();
                    for j in 0..dom {
                        if let Some(v) = find(s, j) {
                            ck_eq!(v, j, "{at}: value found");
                            ck!(j == k || m.contains_key(&j), "{at}: {j} came from nowhere");
                            found.insert(j, j);
                        }
                    }
                    ck_eq!(s.len(), found.len(), "{at}: length after a panic");
                    *m = found;
                }
            }
            1 => {
                op!(c, "{at}: v{i} get {k}");
                let e = E::new(k);
                let (s, m) = &vs[i];
                if let Some(r) = shot(c, || s.get(&e).map(|e| e.val()))? {
                    ck_eq!(r, m.get(&k).copied(), "{at}: get");
                }
            }
            2 if vs.len() < 4 => {
                op!(c, "{at}: v{i} cloned");
                let s = &vs[i].0;
                if let Some(s) = shot(c, || s.clone())? {
                    let m = vs[i].1.clone();
                    vs.push((s, m));
                }
            }
            _ => {
                op!(c, "{at}: v{i} dropped");
                let (s, m) = vs.swap_remove(i);
                if vs.is_empty() {
                    vs.push((s, m));
                } else {
                    let r = shot(c, move || drop(s))?;
                    if r.is_none() {
                        c.label("a set's drop panicked");
                    }
                }
            }
        }
        chk::mid().map_err(|e| format!("{at}: {e}"))?;
        versions!(c, vs, dom, at, find);
        chk::mid().map_err(|e| format!("{at}: {e}"))?;
    }
    // they still work
    for (s, m) in &mut vs {
        for k in 0..dom {
            ck_eq!(s.insert(E::new(k)).is_some(), m.insert(k, k).is_some(), "inserting {k} afterwards");
        }
        ck_eq!(s.len(), m.len(), "length in the end");
    }
    versions!(c, vs, dom, "in the end", find);
    Ok(())
}
fn map_case<E: El, A: TA, const L: usize>(c: &mut Case) -> Res {
    begin();
    map_body::<E, A, L>(c)?;
    end(c)
}
fn map_body<E: El, A: TA, const L: usize>(c: &mut Case) -> Res {
    type M<E, A, const L: usize> = ArcBTreeMap<E, E, A, L>;
    let dom = *c.pick(&[4u32, 12, 40]);
    let find = |s: &M<E, A, L>, k: u32| s.get(&E::new(k)).map(|e| e.val());
    let mut vs: Vec<(M<E, A, L>, BTreeMap<u32, u32>)> = vec![(M::from_alloc(A::mk(1)), BTreeMap::new())];
    let mut next = 1000;
    for _ in 0..c.usize(30) {
        let k = c.below(dom as u64) as u32;
        next += 1;
        vs[0].0.insert(E::new(k), E::new(next));
        vs[0].1.insert(k, next);
    }
    for step in 0..c.range(1, 14) {
        let at = format!("step {step}");
        let i = c.usize(vs.len());
        let k = c.below(dom as u64) as u32;
        match c.weighted(&[8, 2, 2, 2]) {
            0 => {
                next += 1;
                op!(c, "{at}: v{i} insert {k}:{next}");
                let (e, v) = (E::new(k), E::new(next));
                let s = &mut vs[i].0;
                let r = shot(c, || drop(s.insert(e, v)))?;
                chk::mid().map_err(|e| format!("{at}: {e}"))?;
                let (s, m) = &mut vs[i];
                if r.is_some() {
                    m.insert(k, next);
                } else {
                    let mut found = BTreeMap::new();
                    for j in 0..dom {
                        if let Some(v) = find(s, j) {
                            ck!(m.get(&j) == Some(&v) || j == k && v == next, "{at}: {j}:{v} came from nowhere");
                            found.insert(j, v);
                        }
                    }
                    *m = found;
                }
            }
            1 => {
                op!(c, "{at}: v{i} get {k}");
                let e = E::new(k);
                let (s, m) = &vs[i];
                if let Some(r) = shot(c, || s.get(&e).map(|e| e.val()))? {
                    ck_eq!(r, m.get(&k).copied(), "{at}: get");
                }
            }
            2 if vs.len() < 4 => {
                op!(c, "{at}: v{i} cloned");
                let s = &vs[i].0;
                if let Some(s) = shot(c, || s.clone())? {
                    let m = vs[i].1.clone();
                    vs.push((s, m));
                }
            }
            _ => {
                op!(c, "{at}: v{i} dropped");
                let (s, m) = vs.swap_remove(i);
                if vs.is_empty() {
                    vs.push((s, m));
                } else {
                    shot(c, move || drop(s))?;
                }
            }
        }
        chk::mid().map_err(|e| format!("{at}: {e}"))?;
        versions!(c, vs, dom, at, find);
        chk::mid().map_err(|e| format!("{at}: {e}"))?;
    }
    for (s, m) in &mut vs {
        for k in 0..dom {
            ck_eq!(s.insert(E::new(k), E::new(k)).map(|e| e.val()), m.insert(k, k), "inserting {k} afterwards");
        }
    }
    versions!(c, vs, dom, "in the end", find);
    Ok(())
}
fn atomic_set<const R: bool, const L: usize>(c: &mut Case) -> Res {
    begin();
    {
        let s = AtomicArcBTreeSet::<Tr, R, L>::new();
        let mut m: std::collections::BTreeSet<u32> = Default::default();
        let dom = 20;
        for step in 0..c.range(2, 16) {
            let at = format!("step {step}");
            let k = c.below(dom) as u32;
            if c.chance(2, 3) {
                op!(c, "{at}: edit: insert {k}");
                let r = shot(c, || {
                    s.edit(|mut t| {
                        user(K_CALL);
                        t.insert(Tr::new(k));
                        user(K_CALL);
                        t
                    })
                })?;
                if r.is_some() {
                    m.insert(k);
                } else {
                    // published entirely, or not at all
                    let mut has = false;
                    s.get(&Tr::new(k), |e| has = e.is_some());
                    ck!(has || !m.contains(&k), "{at}: {k} was lost");
                    if has {
                        m.insert(k);
                    }
                }
            } else {
                op!(c, "{at}: get {k}");
                let e = Tr::new(k);
                let mut got = None;
                shot(c, || {
                    s.get(&e, |v| {
                        user(K_CALL);
                        got = Some(v.map(|v| v.val()));
                        user(K_CALL);
                    })
                })?;
                ck!(got.is_none() || got == Some(m.get(&k).copied()), "{at}: got {got:?}");
            }
            chk::mid().map_err(|e| format!("{at}: {e}"))?;
            for k in 0..dom as u32 {
                let mut got = None;
                s.get(&Tr::new(k), |v| got = v.map(|v| v.val()));
                ck_eq!(got, m.get(&k).copied(), "{at}: at {k}");
            }
        }
        // not blocked by what a panic left
        s.edit(|mut t| {
            t.insert(Tr::new(99));
            t
        });
        if c.bool() {
            shot(c, move || drop(s))?;
        }
    }
    end(c)
}

// sum types
macro_rules! sums {
    ($($name:ident: $t:ty, $e:ty);* $(;)?) => { $(
        fn $name(c: &mut Case) -> Res {
            type T = $t;
            type E = $e;
            type S = SRes<T, E>;
            fn mk(c: &mut Case, next: &mut u32) -> (S, Result<u32, u32>) {
                if c.bool() {
                    let (e, x) = new::<T>(next);
                    (S::Ok(e), Ok(x))
                } else {
                    let (e, x) = new::<E>(next);
                    (S::Err(e), Err(x))
                }
            }
            fn look(s: &S) -> Result<u32, u32> {
                s.match_ref(|a| Ok(a.val()), |b| Err(b.val()))
            }
            fn body(c: &mut Case) -> Res {
                let mut next = 100;
                let (mut s, mut m) = mk(c, &mut next);
                for step in 0..c.range(1, 6) {
                    let at = format!("step {step}");
                    let op = c.below(13);
                    op!(c, "{at}: operation {op} on {m:?}");
                    match op {
                        0 => {
                            shot(c, || s.match_ref(|a| { user(K_CALL); a.val() }, |b| { user(K_CALL); b.val() }))?;
                        }
                        1 => {
                            let (e, _) = new::<T>(&mut next);
                            shot(c, || s.match_ref_ctx(e, |e, _| { user(K_CALL); drop(e) }, |e, b| { user(K_CALL); b.val(); drop(e) }))?;
                        }
                        2 | 3 => {
                            // in place, or by assignment
                            let (a, x) = new::<T>(&mut next);
                            let (b, y) = new::<E>(&mut next);
                            let ctx = op == 3;
                            let r = shot(c, || if ctx {
                                s.match_mut_ctx((a, b), |(a, _), mut g| { user(K_CALL); *g = a; user(K_CALL) }, |(_, b), mut g| { user(K_CALL); *g = b; user(K_CALL) })
                            } else {
                                s.match_mut(|mut g| { user(K_CALL); *g = a; user(K_CALL) }, |mut g| { user(K_CALL); *g = b; user(K_CALL) })
                            })?;
                            let is = look(&s);
                            let want = m.map(|_| x).map_err(|_| y);
                            ck!(is == want || r.is_none() && is == m, "{at}: {is:?} after assigning {want:?} to {m:?}");
                            m = is;
                        }
                        4 => {
                            let r = shot(c, || if let Some(mut g) = s.ok_mut() { user(K_CALL); let t = (*g).clone(); *g = t; user(K_CALL) })?;
                            let _ = r;
                        }
                        5 => {
                            let r = shot(c, || if let Some(mut g) = s.err_mut() { user(K_CALL); let t = (*g).clone(); *g = t; user(K_CALL) })?;
                            let _ = r;
                        }
                        6 => {
                            if let Some(t) = shot(c, || s.clone())? {
                                ck_eq!(look(&t), m, "{at}: clone");
                                shot(c, move || drop(t))?;
                            }
                        }
                        7 => {
                            let (t, _) = mk(c, &mut next);
                            shot(c, || (s == t) as u8 + (s == s) as u8)?;
                        }
                        _ => {
                            let (t, n) = mk(c, &mut next);
                            let old = core::mem::replace(&mut s, t);
                            m = n;
                            let (cx, _) = new::<E>(&mut next);
                            match op {
                                8 => drop(shot(c, move || old.match_owned(|a| { user(K_CALL); drop(a) }, |b| { user(K_CALL); drop(b) }))?),
                                9 => drop(shot(c, move || old.match_owned_ctx(cx, |e, a| { user(K_CALL); drop(a); drop(e) }, |e, b| { user(K_CALL); drop(e); drop(b) }))?),
                                10 => {
                                    let r = shot(c, move || {
                                        let r: SRes<T, E> = old.map(|a| { user(K_CALL); let b = a.clone(); drop(a); b }).and_then(|a| { user(K_CALL); if a.val() % 2 == 0 { SRes::Ok(a) } else { SRes::Err(cx) } });
                                        r
                                    })?;
                                    if let Some(r) = r {
                                        m = look(&r);
                                        s = r;
                                    }
                                }
                                11 => {
                                    shot(c, move || {
                                        let std: Result<T, E> = old.into();
                                        user(K_CALL);
                                        let back: S = std.into();
                                        user(K_CALL);
                                        drop(back.unwrap_or_else(|e| { user(K_CALL); T::new(e.val()) }));
                                    })?;
                                }
                                _ => drop(shot(c, move || drop(old))?),
                            }
                        }
                    }
                    chk::mid().map_err(|e| format!("{at}: {e}"))?;
                    ck_eq!(look(&s), m, "{at}: afterwards");
                    ck_eq!(s.is_ok(), m.is_ok(), "{at}: variant");
                    chk::mid().map_err(|e| format!("{at}: {e}"))?;
                }
                shot(c, move || drop(s))?;
                Ok(())
            }
            begin();
            body(c)?;
            end(c)
        }
    )* };
}
macro_rules! options {
    ($($name:ident: $t:ty);* $(;)?) => { $(
        fn $name(c: &mut Case) -> Res {
            type T = $t;
            type S = SOpt<T>;
            fn mk(c: &mut Case, next: &mut u32) -> (S, Option<u32>) {
                if c.chance(3, 4) {
                    let (e, x) = new::<T>(next);
                    (S::Some(e), Some(x))
                } else {
                    (S::None(), None)
                }
            }
            fn look(s: &S) -> Option<u32> {
                s.match_ref(|a| Some(a.val()), || None)
            }
            fn body(c: &mut Case) -> Res {
                let mut next = 100;
                let (mut s, mut m) = mk(c, &mut next);
                for step in 0..c.range(1, 6) {
                    let at = format!("step {step}");
                    let op = c.below(10);
                    op!(c, "{at}: operation {op} on {m:?}");
                    match op {
                        0 => {
                            let (e, _) = new::<T>(&mut next);
                            shot(c, || s.match_ref_ctx(e, |e, a| { user(K_CALL); a.val(); drop(e) }, |e| { user(K_CALL); drop(e) }))?;
                        }
                        1 | 2 => {
                            let (a, x) = new::<T>(&mut next);
                            let ctx = op == 2;
                            let r = shot(c, || if ctx {
                                s.match_mut_ctx(a, |a, mut g| { user(K_CALL); *g = a; user(K_CALL) }, |_| user(K_CALL))
                            } else {
                                s.match_mut(|mut g| { user(K_CALL); *g = a; user(K_CALL) }, || user(K_CALL))
                            })?;
                            let is = look(&s);
                            let want = m.map(|_| x);
                            ck!(is == want || r.is_none() && is == m, "{at}: {is:?} after assigning {want:?} to {m:?}");
                            m = is;
                        }
                        3 => {
                            shot(c, || if let Some(mut g) = s.as_mut() { user(K_CALL); let t = (*g).clone(); *g = t; user(K_CALL) })?;
                        }
                        4 => {
                            if let Some(t) = shot(c, || s.clone())? {
                                ck_eq!(look(&t), m, "{at}: clone");
                                shot(c, move || drop(t))?;
                            }
                        }
                        5 => {
                            let (t, _) = mk(c, &mut next);
                            shot(c, || (s == t) as u8 + (s == s) as u8)?;
                        }
                        _ => {
                            let (t, n) = mk(c, &mut next);
                            let old = core::mem::replace(&mut s, t);
                            m = n;
                            let (cx, _) = new::<T>(&mut next);
                            match op {
                                6 => drop(shot(c, move || old.match_owned(|a| { user(K_CALL); drop(a) }, || user(K_CALL)))?),
                                7 => drop(shot(c, move || old.match_owned_ctx(cx, |e, a| { user(K_CALL); drop(a); drop(e) }, |e| { user(K_CALL); drop(e) }))?),
                                8 => {
                                    shot(c, move || {
                                        let std: Option<T> = old.into();
                                        user(K_CALL);
                                        let back: S = std.into();
                                        user(K_CALL);
                                        drop(back.unwrap_or_else(|| { user(K_CALL); cx }));
                                    })?;
                                }
                                _ => drop(shot(c, move || drop(old))?),
                            }
                        }
                    }
                    chk::mid().map_err(|e| format!("{at}: {e}"))?;
                    ck_eq!(look(&s), m, "{at}: afterwards");
                    ck_eq!(s.is_some(), m.is_some(), "{at}: variant");
                    chk::mid().map_err(|e| format!("{at}: {e}"))?;
                }
                shot(c, move || drop(s))?;
                Ok(())
            }
            begin();
            body(c)?;
            end(c)
        }
    )* };
}
type VTr = SVec<Tr, Chk>;
sums! {
    result_tr_tr: Tr, Tr;
    result_tr_niche: Tr, TrNiche;
    result_niche_tr: TrNiche, Tr;
    result_big_al64: TrBig, Tr64;
    result_niche_niche: TrNiche, TrNiche;
}
options! {
    option_tr: Tr;
    option_niche: TrNiche;
    option_big: TrBig;
    option_al16: Tr16;
    option_zst: TrZ;
}

#[stabby::stabby]
#[repr(stabby)]
pub enum N5 {
    A(Tr),
    B(TrNiche),
    C,
    D(TrBig),
    V(VTr),
}
#[stabby::stabby]
#[repr(stabby)]
pub enum N3 {
    A(TrNiche),
    B,
    C(Tr),
}
macro_rules! nary {
    ($name:ident, $n:ident, $count:expr, $c:ident, $next:ident, |$k:ident| $mk:expr, |$s:ident| $look:expr, |$s2:ident, $edit:ident| $mut:expr, |$s3:ident| $own:expr, |$s4:ident, $ctx:ident| $own_ctx:expr) => {
        fn $name(c: &mut Case) -> Res {
            fn mk($c: &mut Case, $next: &mut u32) -> ($n, (usize, u32)) {
                let $k = $c.usize($count);
                let s = $mk;
                let l = look(&s);
                (s, l)
            }
            fn look($s: &$n) -> (usize, u32) {
                $look
            }
            fn body(c: &mut Case) -> Res {
                let mut next = 100;
                let (mut s, mut m) = mk(c, &mut next);
                for step in 0..c.range(1, 6) {
                    let at = format!("step {step}");
                    let op = c.below(5);
                    op!(c, "{at}: operation {op} on {m:?}");
                    match op {
                        0 => drop(shot(c, || { let x = look(&s); user(K_CALL); x })?),
                        1 => {
                            next += 1;
                            let $edit = next;
                            let r = shot(c, || { let $s2 = &mut s; $mut })?;
                            let is = look(&s);
                            ck_eq!(is.0, m.0, "{at}: variant");
                            ck!(r.is_none() || r == Some(is.1), "{at}: {is:?} after assigning {r:?}");
                            ck!(is.1 == m.1 || is.1 == next, "{at}: {is:?} is neither {m:?} nor {next}");
                            m = is;
                        }
                        _ => {
                            let (t, n) = mk(c, &mut next);
                            let $s3 = core::mem::replace(&mut s, t);
                            m = n;
                            match op {
                                2 => drop(shot(c, move || $own)?),
                                3 => {
                                    let $s4 = $s3;
                                    let ($ctx, _) = new::<TrBig>(&mut next);
                                    drop(shot(c, move || $own_ctx)?)
                                }
                                _ => drop(shot(c, move || drop($s3))?),
                            }
                        }
                    }
                    chk::mid().map_err(|e| format!("{at}: {e}"))?;
                    ck_eq!(look(&s), m, "{at}: afterwards");
                    chk::mid().map_err(|e| format!("{at}: {e}"))?;
                }
                shot(c, move || drop(s))?;
                Ok(())
            }
            begin();
            body(c)?;
            end(c)
        }
    };
}
fn gone<T>(t: T) {
    user(K_CALL);
    drop(t);
}
fn put<T: El>(mut g: impl std::ops::DerefMut<Target = T>, x: u32) -> u32 {
    user(K_CALL);
    *g = T::new(x);
    user(K_CALL);
    g.val()
}
fn two(v: &mut u32) -> VTr {
    let mut w = VTr::new_in(Chk::new(4));
    w.push(new::<Tr>(v).0);
    w.push(new::<Tr>(v).0);
    w
}
nary!(
    enum5, N5, 5, c, next,
    |k| match k {
        0 => N5::A(new(next).0),
        1 => N5::B(new(next).0),
        2 => N5::C(),
        3 => N5::D(new(next).0),
        _ => N5::V(two(next)),
    },
    |s| s.match_ref(|a| (0, a.val()), |b| (1, b.val()), || (2, 0), |d| (3, d.val()), |v| (4, v.iter().map(|e| e.val()).max().unwrap_or(0))),
    |s, x| s.match_mut(|a| put(a, x), |b| put(b, x), || { user(K_CALL); 0 }, |d| put(d, x), |mut v| { user(K_CALL); v.push(Tr::new(x)); user(K_CALL); x }),
    |s| s.match_owned(gone, gone, || user(K_CALL), gone, gone),
    |s, cx| s.match_owned_ctx(cx, |e, a| { gone(e); gone(a) }, |e, b| { gone(b); gone(e) }, |e| gone(e), |e, d| gone((d, e)), |e, v| gone((e, v)))
);
nary!(
    enum3, N3, 3, c, next,
    |k| match k {
        0 => N3::A(new(next).0),
        1 => N3::B(),
        _ => N3::C(new(next).0),
    },
    |s| s.match_ref(|a| (0, a.val()), || (1, 0), |d| (2, d.val())),
    |s, x| s.match_mut(|a| put(a, x), || { user(K_CALL); 0 }, |d| put(d, x)),
    |s| s.match_owned(gone, || user(K_CALL), gone),
    |s, cx| s.match_owned_ctx(cx, |e, a| { gone(e); gone(a) }, |e| gone(e), |e, d| gone((d, e)))
);

/// Text of user code.
struct Text<'a>(&'a str);
impl std::fmt::Display for Text<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for c in self.0.chars() {
            user(K_CALL);
            f.write_char(c)?;
        }
        user(K_CALL);
        Ok(())
    }
}
impl AsRef<str> for Text<'_> {
    fn as_ref(&self) -> &str {
        user(K_CALL);
        self.0
    }
}
fn text(c: &mut Case) -> Res {
    begin();
    {
        let mut s = SString::default();
        let mut m = String::new();
        for step in 0..c.range(1, 8) {
            let t: String = (0..c.usize(6)).map(|_| *c.pick(&['a', 'é', '€', '𝄞'])).collect();
            let before = m.clone();
            let at = format!("step {step}");
            match c.below(3) {
                0 => {
                    op!(c, "{at}: write {t:?}");
                    let r = shot(c, || write!(s, "<{}>", Text(&t)).is_ok())?;
                    m += &format!("<{t}>");
                    ck!(m.starts_with(s.as_ref() as &str) && s.starts_with(&before) && (r.is_none() || m == *s), "{at}: {:?} instead of {m:?}", s.as_ref() as &str);
                    m = s.to_string();
                }
                1 => {
                    op!(c, "{at}: += {t:?}");
                    let r = shot(c, || s += &Text(&t))?;
                    if r.is_some() {
                        m += &t;
                    }
                    ck_eq!(s.as_ref() as &str, m.as_str(), "{at}");
                }
                _ => {
                    op!(c, "{at}: == {t:?}");
                    let r = shot(c, || s == Text(&t))?;
                    ck!(r.is_none() || r == Some(t == m), "{at}: {r:?}");
                    ck_eq!(s.as_ref() as &str, m.as_str(), "{at}");
                }
            }
        }
    }
    end(c)
}

/// Values of user types converted by user code.
struct Ua(Tr);
struct Ub(u32, Tr);
impl From<Ua> for Ub {
    fn from(a: Ua) -> Ub {
        user(K_CALL);
        let v = a.0.val();
        let b = Ub(v, a.0);
        user(K_CALL);
        b
    }
}
impl From<Ub> for Ua {
    fn from(b: Ub) -> Ua {
        user(K_CALL);
        Ua(b.1)
    }
}
/// A view can't give back what a panicking conversion consumed: what matters is that the value isn't used any more,
/// be it by ending the process, hence each case in its own.
fn views(c: &mut Case) -> Res {
    begin();
    let (kind, k) = (c.below(3), c.below(5) as i64);
    op!(c, "view {kind}, panic at user call {k}");
    let mut fd = [0; 2];
    if unsafe { libc::pipe(fd.as_mut_ptr()) } != 0 {
        return Err("pipe".into());
    }
    let pid = unsafe { libc::fork() };
    ck!(pid >= 0, "fork failed");
    if pid == 0 {
        let null = unsafe { libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY) };
        unsafe { libc::dup2(null, 2) };
        let mut a = Ua(Tr::new(7));
        track::arm_panic(k, K_CALL);
        let r = catch(|| match kind {
            0 => stabby::abi::AccessAs::ref_as::<Ub>(&a).1.val(),
            1 => stabby::abi::AccessAs::mut_as::<Ub>(&mut a).1.val(),
            _ => {
                let mut g = stabby::abi::AccessAs::mut_as::<Ub>(&mut a);
                g.1.set(8);
                user(K_CALL);
                g.1.val()
            }
        });
        let fired = track::disarm();
        let e = (|| -> Res {
            ck_eq!(r.is_err(), fired, "panics");
            chk::mid()?;
            let v = a.0.val();
            chk::mid().map_err(|e| format!("the value, after the view: {e}"))?;
            ck!(v == 7 || v == 8, "the value is {v}");
            drop(a);
            chk::mid().map_err(|e| format!("the value, dropped after the view: {e}"))
        })();
        if let Err(e) = e {
            unsafe { libc::write(fd[1], e.as_ptr().cast(), e.len()) };
        }
        unsafe { libc::_exit(fired as i32) }
    }
    unsafe { libc::close(fd[1]) };
    let mut said = vec![0u8; 4096];
    let mut n = 0;
    loop {
        let r = unsafe { libc::read(fd[0], said[n..].as_mut_ptr().cast(), said.len() - n) };
        if r <= 0 {
            break;
        }
        n += r as usize;
    }
    let mut status = 0;
    unsafe {
        libc::close(fd[0]);
        libc::waitpid(pid, &mut status, 0);
    }
    ck!(n == 0, "{}", String::from_utf8_lossy(&said[..n]));
    if libc::WIFEXITED(status) {
        c.nontrivial = libc::WEXITSTATUS(status) == 1;
    } else {
        ck_eq!(libc::WTERMSIG(status), libc::SIGABRT, "the process was ended by signal");
        c.nontrivial = true;
        c.label("the process was aborted");
    }
    Ok(())
}

fn main() {
    let _ = track::alive();
    vph::main(
        "C30",
        "random histories on containers, shared pointers, persistent sets and sum types of tracked elements over a checking allocator, in which one user call (the 1st to the 21st: clone, drop, comparison, closure, iterator, initialiser) of an operation panics and the panic is caught; after each operation nothing was dropped twice, used after its drop or written after its release, what's held is live and was put there, shared and borrowed values are unchanged, and the value is used again; non-trivial = a panic came out of an operation",
        &[
            sub("vec_tr_chk", 60000, 1500000, vec_case::<Tr, Chk>),
            sub("vec_tr_chkr", 30000, 600000, vec_case::<Tr, ChkR>),
            sub("vec_big_chkz", 30000, 600000, vec_case::<TrBig, ChkZ>),
            sub("vec_al64_chk", 30000, 600000, vec_case::<Tr64, Chk>),
            sub("vec_zst_chk", 30000, 600000, vec_case::<TrZ, Chk>),
            sub("vec_niche_rust", 20000, 400000, vec_case::<TrNiche, RustAlloc>),
            sub("single_tr_chk", 40000, 800000, single_tr_chk),
            sub("single_tr_chkr", 20000, 400000, single_tr_chkr),
            sub("single_big_chkz", 20000, 400000, single_big_chkz),
            sub("single_niche_chk", 20000, 400000, single_niche_chk),
            sub("single_al64_chk", 20000, 400000, single_al64_chk),
            sub("single_zst_chk", 20000, 400000, single_zst_chk),
            sub("box_tr_chk", 30000, 600000, box_case::<Tr, Chk>),
            sub("box_al64_chkr", 20000, 400000, box_case::<Tr64, ChkR>),
            sub("box_zst_chkz", 20000, 400000, box_case::<TrZ, ChkZ>),
            sub("arc_tr_chk", 40000, 800000, arc_case::<Tr, Chk>),
            sub("arc_al64_chkr", 20000, 400000, arc_case::<Tr64, ChkR>),
            sub("arc_big_chkz", 20000, 400000, arc_case::<TrBig, ChkZ>),
            sub("set3_tr_chk", 20000, 400000, set_case::<Tr, Chk, false, 3>),
            sub("set5_tr_chkr", 20000, 400000, set_case::<Tr, ChkR, false, 5>),
            sub("rset3_big_chkz", 15000, 300000, set_case::<TrBig, ChkZ, true, 3>),
            sub("rset5_niche_chk", 15000, 300000, set_case::<TrNiche, Chk, true, 5>),
            sub("map3_tr_chk", 15000, 300000, map_case::<Tr, Chk, 3>),
            sub("map5_tr_chkr", 15000, 300000, map_case::<Tr, ChkR, 5>),
            sub("atomic_set3", 10000, 200000, atomic_set::<false, 3>),
            sub("atomic_rset5", 10000, 200000, atomic_set::<true, 5>),
            sub("result_tr_tr", 30000, 600000, result_tr_tr),
            sub("result_tr_niche", 30000, 600000, result_tr_niche),
            sub("result_niche_tr", 30000, 600000, result_niche_tr),
            sub("result_big_al64", 20000, 400000, result_big_al64),
            sub("result_niche_niche", 30000, 600000, result_niche_niche),
            sub("option_tr", 20000, 400000, option_tr),
            sub("option_niche", 30000, 600000, option_niche),
            sub("option_big", 20000, 400000, option_big),
            sub("option_al16", 20000, 400000, option_al16),
            sub("option_zst", 20000, 400000, option_zst),
            sub("enum5", 30000, 600000, enum5),
            sub("enum3", 30000, 600000, enum3),
            sub("text", 20000, 400000, text),
            sub("views", 600, 10000, views),
        ],
        &[],
    )
}
