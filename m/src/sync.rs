//! C14: handles to one value, spread over threads.
use crate::{Cnt, Plan, P};
use stabby::alloc::vec::Vec as SVec;
use stabby::string::String as SString;
use stabby::sync::{Arc, ArcSlice, ArcStr, Weak, WeakSlice, WeakStr};
use std::sync::Mutex;

/// Handles of one kind.
trait Kind: 'static {
    type S: Send + 'static;
    type W: Send + 'static;
    const UPGRADE: bool = true;
    fn new() -> Self::S;
    fn clone(s: &Self::S) -> Self::S;
    fn downgrade(s: &Self::S) -> Self::W;
    fn upgrade(w: &Self::W) -> Option<Self::S>;
    fn clonew(w: &Self::W) -> Self::W;
    fn addr(s: &Self::S) -> usize;
    fn read(s: &Self::S);
    /// exclusive access, and a write, if granted
    fn get_mut(s: &mut Self::S) -> bool;
    fn is_unique(_: &mut Self::S) -> Option<bool> {
        None
    }
    fn make_mut(_: &mut Self::S) -> bool {
        false
    }
    /// takes the value out if possible, and shares it anew
    fn into_inner(s: Self::S) -> (Self::S, Option<bool>) {
        (s, None)
    }
    fn counts(_: &Self::S) -> Option<(usize, usize)> {
        None
    }
    fn raw(s: Self::S) -> Vec<Self::S> {
        vec![s]
    }
    fn force(_: &Self::W) -> Option<Self::S> {
        None
    }
}
struct KArc;
impl Kind for KArc {
    type S = Arc<P, Cnt>;
    type W = Weak<P, Cnt>;
    fn new() -> Self::S {
        Arc::new_in(P::new(7), Cnt::default())
    }
    fn clone(s: &Self::S) -> Self::S {
        s.clone()
    }
    fn downgrade(s: &Self::S) -> Self::W {
        Arc::downgrade(s)
    }
    fn upgrade(w: &Self::W) -> Option<Self::S> {
        w.upgrade()
    }
    fn clonew(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn addr(s: &Self::S) -> usize {
        &**s as *const P as usize
    }
    fn read(s: &Self::S) {
        s.read();
    }
    fn get_mut(s: &mut Self::S) -> bool {
        Arc::get_mut(s).map(|p| p.write(11)).is_some()
    }
    fn is_unique(s: &mut Self::S) -> Option<bool> {
        let u = Arc::is_unique(s);
        if u {
            unsafe { Arc::get_mut_unchecked(s) }.write(12);
        }
        Some(u)
    }
    fn make_mut(s: &mut Self::S) -> bool {
        Arc::make_mut(s).write(13);
        true
    }
    fn into_inner(s: Self::S) -> (Self::S, Option<bool>) {
        match Arc::try_into_inner(s) {
            Ok(mut p) => {
                p.write(14);
                (Arc::new_in(p, Cnt::default()), Some(true))
            }
            Err(s) => (s, Some(false)),
        }
    }
    fn counts(s: &Self::S) -> Option<(usize, usize)> {
        Some((Arc::strong_count(s), Arc::weak_count(s)))
    }
    fn raw(s: Self::S) -> Vec<Self::S> {
        let p = &*s as *const P;
        let a = Arc::into_raw(s);
        unsafe {
            Arc::<P, Cnt>::increment_strong_count(p);
            let s = Arc::from_raw(a);
            let t = Arc::from_raw(a);
            Arc::increment_weak_count(&s);
            drop(Weak::<P, Cnt>::from_raw(a));
            vec![s, t]
        }
    }
}
#[stabby::stabby]
pub trait Obj {
    extern "C" fn rd(&self) -> u64;
    extern "C" fn wr(&mut self, v: u64);
}
impl Obj for P {
    extern "C" fn rd(&self) -> u64 {
        self.read()
    }
    extern "C" fn wr(&mut self, v: u64) {
        self.write(v)
    }
}
struct KDyn;
impl Kind for KDyn {
    type S = stabby::Dyn<'static, Arc<(), Cnt>, stabby::vtable!(Obj + Send + Sync)>;
    type W = stabby::Dyn<'static, Weak<(), Cnt>, stabby::vtable!(Obj + Send + Sync)>;
    fn new() -> Self::S {
        Arc::new_in(P::new(7), Cnt::default()).into()
    }
    fn clone(s: &Self::S) -> Self::S {
        s.clone()
    }
    fn downgrade(s: &Self::S) -> Self::W {
        // the borrow only serves to tell where the reference comes from
        let s: &'static Self::S = unsafe { &*(s as *const Self::S) };
        s.into()
    }
    /// `upgrade` goes through a stable option, whose storage is made of integers: Miri then considers that pointers lost
    /// their provenance (see DESIGN.md). C13 exercises it natively.
    const UPGRADE: bool = false;
    fn upgrade(_: &Self::W) -> Option<Self::S> {
        None
    }
    fn clonew(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn addr(s: &Self::S) -> usize {
        unsafe { stabby::abi::IPtr::as_ref::<u8>(stabby::Dyn::ptr(s)) as *const u8 as usize }
    }
    fn read(s: &Self::S) {
        s.rd();
    }
    fn get_mut(s: &mut Self::S) -> bool {
        stabby::Dyn::try_as_mut(s).map(|mut d| d.wr(15)).is_some()
    }
}
struct KSlice;
impl Kind for KSlice {
    type S = ArcSlice<P, Cnt>;
    type W = WeakSlice<P, Cnt>;
    fn new() -> Self::S {
        let mut v = SVec::new_in(Cnt::default());
        for i in 0..2 {
            v.push(P::new(i));
        }
        v.into()
    }
    fn clone(s: &Self::S) -> Self::S {
        s.clone()
    }
    fn downgrade(s: &Self::S) -> Self::W {
        s.into()
    }
    fn upgrade(w: &Self::W) -> Option<Self::S> {
        w.upgrade()
    }
    fn clonew(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn addr(s: &Self::S) -> usize {
        s.as_ptr() as usize
    }
    fn read(s: &Self::S) {
        for p in s.iter() {
            p.read();
        }
    }
    fn get_mut(s: &mut Self::S) -> bool {
        s.as_slice_mut().map(|s| s.iter_mut().for_each(|p| p.write(16))).is_some()
    }
    fn is_unique(s: &mut Self::S) -> Option<bool> {
        let u = ArcSlice::is_unique(s);
        if u {
            let s: &mut [P] = unsafe { s.as_slice_mut_unchecked() };
            s[0].write(17);
        }
        Some(u)
    }
    fn into_inner(s: Self::S) -> (Self::S, Option<bool>) {
        match SVec::try_from(s) {
            Ok(mut v) => {
                v.push(P::new(18));
                drop(v.pop());
                (v.into(), Some(true))
            }
            Err(s) => (s, Some(false)),
        }
    }
    fn counts(s: &Self::S) -> Option<(usize, usize)> {
        Some((ArcSlice::strong_count(s), ArcSlice::weak_count(s)))
    }
    fn raw(s: Self::S) -> Vec<Self::S> {
        vec![unsafe { ArcSlice::from_raw(ArcSlice::into_raw(s)) }]
    }
}
struct KStr;
impl Kind for KStr {
    type S = ArcStr<Cnt>;
    type W = WeakStr<Cnt>;
    fn new() -> Self::S {
        let mut s = SString::new_in(Cnt::default());
        s += "ab";
        s.into()
    }
    fn clone(s: &Self::S) -> Self::S {
        s.clone()
    }
    fn downgrade(s: &Self::S) -> Self::W {
        s.into()
    }
    fn upgrade(w: &Self::W) -> Option<Self::S> {
        w.upgrade()
    }
    fn clonew(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn addr(s: &Self::S) -> usize {
        s.as_ptr() as usize
    }
    fn read(s: &Self::S) {
        assert!(matches!(s.as_str(), "ab" | "AB"), "text read in the middle of a write: {s:?}");
    }
    fn get_mut(s: &mut Self::S) -> bool {
        s.as_str_mut()
            .map(|s| {
                s.make_ascii_uppercase();
                s.make_ascii_lowercase()
            })
            .is_some()
    }
    fn is_unique(s: &mut Self::S) -> Option<bool> {
        let u = ArcStr::is_unique(s);
        if u {
            unsafe { s.as_str_mut_unchecked() }.make_ascii_uppercase();
        }
        Some(u)
    }
    fn into_inner(s: Self::S) -> (Self::S, Option<bool>) {
        match SString::try_from(s) {
            Ok(v) => (v.into(), Some(true)),
            Err(s) => (s, Some(false)),
        }
    }
    fn force(w: &Self::W) -> Option<Self::S> {
        Some(w.force_upgrade())
    }
}
pub fn run(p: &Plan) -> Option<isize> {
    match p.kind {
        0 => go::<KArc>(p),
        1 => go::<KDyn>(p),
        2 => go::<KSlice>(p),
        _ => go::<KStr>(p),
    }
    Some(0)
}
fn go<K: Kind>(p: &Plan) {
    let first = K::new();
    let home = K::addr(&first);
    let keep = p.opts[0];
    let kept = (keep == 1).then(|| K::clone(&first));
    let keptw = (keep == 2).then(|| K::downgrade(&first));
    // handles of each thread; weak ones with the address of what they refer to
    let mut own: Vec<(Vec<K::S>, Vec<(K::W, usize)>)> = vec![];
    for t in 0..p.threads.len() {
        let (s, w) = (p.opts.get(1 + 2 * t).copied().unwrap_or(0), p.opts.get(2 + 2 * t).copied().unwrap_or(0));
        own.push(((0..s).map(|_| K::clone(&first)).collect(), (0..w).map(|_| (K::downgrade(&first), home)).collect()));
    }
    drop(first);
    let post: Mutex<Vec<K::S>> = Mutex::new(vec![]);
    let mut left = vec![];
    let mut mine = None;
    let mut hs = vec![];
    for (i, ((s, w), ops)) in own.into_iter().zip(&p.threads).enumerate() {
        if i == 0 {
            // the main thread is one of them
            mine = Some((s, w, ops));
        } else {
            let post = &post;
            hs.push(crate::spawn(move || thread::<K>(s, w, ops, keep, home, post)));
        }
    }
    if let Some((s, w, ops)) = mine {
        left.extend(thread::<K>(s, w, ops, keep, home, &post));
    }
    for h in hs {
        left.extend(h.join());
    }
    let posted: Vec<_> = post.into_inner().unwrap();
    // the counts are exact again
    if let Some(s) = &kept {
        K::read(s);
        if let Some((strong, weak)) = K::counts(s) {
            let same = posted.iter().filter(|s| K::addr(s) == home).count();
            assert_eq!(strong, 1 + same, "strong count at the end");
            assert_eq!(weak, 1 + left.len(), "weak count at the end");
        }
        assert!(!K::UPGRADE || left.iter().all(|w| K::upgrade(w).is_some()), "a kept value couldn't be upgraded at the end");
    }
    drop(posted);
    drop(kept);
    if let Some(w) = &keptw {
        assert!(K::upgrade(w).is_none(), "upgraded to a dropped value");
    }
    assert!(left.iter().all(|w| K::upgrade(w).is_none()), "upgraded to a dropped value");
    assert_eq!(
        crate::DROPPED.load(std::sync::atomic::Ordering::Relaxed),
        crate::MADE.load(std::sync::atomic::Ordering::Relaxed),
        "drops of the values made, before weak handles are gone"
    );
}
/// Runs the operations; returns weak handles to the first value that are left.
fn thread<K: Kind>(mut s: Vec<K::S>, mut w: Vec<(K::W, usize)>, ops: &[(u8, u8)], keep: usize, home: usize, post: &Mutex<Vec<K::S>>) -> Vec<K::W> {
    let mut give = vec![];
    // handles another thread may hold to a value other than the first one
    for &(op, arg) in ops {
        let i = if s.is_empty() { 0 } else { arg as usize % s.len() };
        let j = if w.is_empty() { 0 } else { arg as usize % w.len() };
        let (hs, hw) = (!s.is_empty(), !w.is_empty());
        // whether another handle to that value certainly exists
        let shared = |s: &[K::S], w: &[(K::W, usize)], i: usize| {
            let a = K::addr(&s[i]);
            (a == home && keep != 0) || s.iter().filter(|x| K::addr(x) == a).count() > 1 || w.iter().any(|x| x.1 == a)
        };
        match op {
            0 if hs && s.len() < 6 => {
                let c = K::clone(&s[i]);
                s.push(c)
            }
            1 if hs => drop(s.swap_remove(i)),
            2 if hs => {
                let x = (K::downgrade(&s[i]), K::addr(&s[i]));
                w.push(x)
            }
            3 if hw && K::UPGRADE => {
                let held = (w[j].1 == home && keep == 1) || s.iter().any(|x| K::addr(x) == w[j].1);
                match K::upgrade(&w[j].0) {
                    Some(x) => {
                        assert_eq!(K::addr(&x), w[j].1, "address after an upgrade");
                        K::read(&x);
                        s.push(x)
                    }
                    None => assert!(!held, "a held value couldn't be upgraded"),
                }
            }
            4 if hs => K::read(&s[i]),
            5 if hs => {
                let sh = shared(&s, &w, i);
                assert!(!(K::get_mut(&mut s[i]) && sh), "exclusive access to a shared value");
            }
            6 if hs => {
                let sh = shared(&s, &w, i);
                assert!(!(K::is_unique(&mut s[i]) == Some(true) && sh), "a shared value was considered unique");
            }
            7 if hs => {
                let (sh, a) = (shared(&s, &w, i), K::addr(&s[i]));
                if K::make_mut(&mut s[i]) {
                    assert!(!(sh && K::addr(&s[i]) == a), "exclusive access to a shared value");
                    K::read(&s[i]);
                }
            }
            8 if hs => {
                let sh = shared(&s, &w, i);
                let (x, got) = K::into_inner(s.swap_remove(i));
                assert!(!(got == Some(true) && sh), "a shared value was moved out");
                if got == Some(true) {
                    // possibly another value at the same address: it isn't the first one
                    K::read(&x);
                    drop(x);
                } else {
                    s.push(x);
                }
            }
            9 if hw && w.len() < 6 => {
                let x = (K::clonew(&w[j].0), w[j].1);
                w.push(x)
            }
            10 if hw => drop(w.swap_remove(j)),
            11 if hs => {
                if let Some((a, b)) = K::counts(&s[i]) {
                    let aa = K::addr(&s[i]);
                    let least = s.iter().filter(|x| K::addr(x) == aa).count() + (keep == 1 && aa == home) as usize;
                    let leastw = 1 + w.iter().filter(|x| x.1 == aa).count() + (keep == 2 && aa == home) as usize;
                    assert!(a >= least && a <= 60, "strong count of {a}, with at least {least} handles");
                    assert!(b >= leastw && b <= 60, "weak count of {b}, with at least {leastw} handles");
                }
            }
            12 if hs => {
                let x = s.swap_remove(i);
                s.extend(K::raw(x));
            }
            13 if hs && s.len() > 1 => {
                let x = s.swap_remove(i);
                if K::addr(&x) == home {
                    post.lock().unwrap().push(x)
                } else {
                    give.push(x)
                }
            }
            14 => {
                let x = post.lock().unwrap().pop();
                s.extend(x);
            }
            15 => std::thread::yield_now(),
            16 if hw => {
                if let Some(x) = K::force(&w[j].0) {
                    K::read(&x);
                    s.push(x)
                }
            }
            17 if hw => {
                let x = w.remove(0);
                w.push(x)
            }
            _ => {}
        }
    }
    drop(s);
    w.into_iter().filter(|x| x.1 == home).map(|x| x.0).collect()
}
