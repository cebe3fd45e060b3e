//! C19/C20: what generated trait-object programs are made of: argument values, call logs, uniform views of differently typed objects, and the comparison with native twins.
#![allow(improper_ctypes_definitions)]
use crate::engine::{mix, Case, Res};
use crate::track::{El, Tr, TrBig, TrNiche};
use crate::{chk, ck, ck_eq, op, track};
use stabby::boxed::Box as SBox;
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
use stabby::string::String as SString;
use stabby::sync::Arc as SArc;
use stabby::vec::Vec as SVec;
use std::any::Any;
use std::cell::{Cell, RefCell};

/// Argument and result types: built from, and reduced to, a number.
pub trait Val {
    fn mk(h: u64) -> Self;
    fn h(&self) -> u64;
}
macro_rules! vals {
    ($($t:ty : |$x:ident| $mk:expr, |$s:ident| $h:expr;)*) => {$(
        impl Val for $t {
            fn mk($x: u64) -> Self { $mk }
            fn h(&self) -> u64 { let $s = self; $h }
        }
    )*};
}
extern "C" fn cb0(x: u64) -> u64 {
    x + 1
}
extern "C" fn cb1(x: u64) -> u64 {
    x * 3
}
#[stabby::stabby]
pub trait Helper {
    extern "C" fn hv(&self) -> u64;
    extern "C" fn hm(&mut self, x: u64);
}
#[stabby::stabby]
pub struct Help {
    pub a: u64,
    pub tr: Tr,
}
impl Helper for Help {
    extern "C" fn hv(&self) -> u64 {
        mix(self.a, self.tr.val() as u64)
    }
    extern "C" fn hm(&mut self, x: u64) {
        self.a = mix(self.a, x)
    }
}
pub type HelpBox = stabby::dynptr!(SBox<dyn Helper>);
pub type HelpArc = stabby::dynptr!(SArc<dyn Helper + Send + Sync>);
pub type CFn = extern "C" fn(u64) -> u64;
pub type Arr3 = [u16; 3];
pub type Opt32 = SOption<u32>;
pub type OptNz = SOption<core::num::NonZeroU8>;
pub type OptBox = SOption<SBox<Tr>>;
pub type Res32 = SResult<u32, SString>;
pub type Vec16 = SVec<u16>;
pub type BoxTr = SBox<Tr>;
pub type ArcTr = SArc<Tr>;
pub type Tup = stabby::tuple::Tuple2<u8, u32>;
vals! {
    (): |_x| (), |_s| 0;
    bool: |x| x & 1 == 1, |s| *s as u64;
    u8: |x| x as u8, |s| *s as u64;
    i16: |x| x as i16, |s| *s as u64;
    u32: |x| x as u32, |s| *s as u64;
    i64: |x| x as i64, |s| *s as u64;
    u64: |x| x, |s| *s;
    usize: |x| x as usize, |s| *s as u64;
    u128: |x| (x as u128) << 64 | mix(x, 1) as u128, |s| mix(*s as u64, (*s >> 64) as u64);
    f32: |x| (x as u16) as f32 * 0.5, |s| s.to_bits() as u64;
    f64: |x| (x as u32) as f64 * 0.25, |s| s.to_bits();
    char: |x| char::from_u32(x as u32 % 0xD800).unwrap(), |s| *s as u64;
    core::num::NonZeroU32: |x| core::num::NonZeroU32::new(x as u32 | 1).unwrap(), |s| s.get() as u64;
    Opt32: |x| if x % 3 == 0 { SOption::None() } else { SOption::Some(x as u32) }, |s| s.match_ref(|v| 1 + *v as u64, || 0);
    OptNz: |x| match core::num::NonZeroU8::new(x as u8 & 3) { Some(n) => SOption::Some(n), None => SOption::None() }, |s| s.match_ref(|v| v.get() as u64, || 0);
    OptBox: |x| if x % 3 == 0 { SOption::None() } else { SOption::Some(SBox::new(Tr::new(x as u32))) }, |s| s.match_ref(|v| 1 + v.val() as u64, || 0);
    Res32: |x| if x % 2 == 0 { SResult::Ok(x as u32) } else { SResult::Err(SString::from(format!("{x:x}").as_str())) }, |s| s.match_ref(|v| *v as u64, |e| crate::engine::hash_str(e.as_str()));
    Vec16: |x| { let mut v = SVec::new(); for i in 0..x % 5 { v.push((x >> i) as u16); } v }, |s| s.iter().fold(s.len() as u64, |a, b| mix(a, *b as u64));
    SString: |x| SString::from(format!("{x}é").as_str()), |s| crate::engine::hash_str(s.as_str());
    BoxTr: |x| SBox::new(Tr::new(x as u32)), |s| s.val() as u64;
    ArcTr: |x| SArc::new(Tr::new(x as u32)), |s| s.val() as u64;
    Tr: |x| <Tr as El>::new(x as u32), |s| s.val() as u64;
    TrBig: |x| <TrBig as El>::new(x as u32), |s| s.val() as u64;
    TrNiche: |x| <TrNiche as El>::new(x as u32), |s| s.val() as u64;
    Tup: |x| stabby::tuple::Tuple2(x as u8, mix(x, 2) as u32), |s| mix(s.0 as u64, s.1 as u64);
    Arr3: |x| [x as u16, (x >> 16) as u16, (x >> 32) as u16], |s| s.iter().fold(0, |a, b| mix(a, *b as u64));
    CFn: |x| if x % 2 == 0 { cb0 } else { cb1 }, |s| s(7);
    HelpBox: |x| SBox::new(Help { a: x, tr: Tr::new(x as u32) }).into(), |s| s.hv();
    HelpArc: |x| SArc::new(Help { a: x, tr: Tr::new(x as u32) }).into(), |s| s.hv();
}

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static DROPS: RefCell<Vec<(u64, u64)>> = const { RefCell::new(vec![]) };
    pub static IDLE: u64 = const { 0 };
}
/// Every implementation reports each call it gets.
pub fn called(k: u64, n: u64) -> u64 {
    CALLS.with(|c| c.set(mix(c.get(), k)));
    mix(k, n)
}
/// Every value reports its drop and the state it had.
pub fn dropped(k: u64, n: u64) {
    DROPS.with(|d| d.borrow_mut().push((k, n)));
}
pub fn drops() -> Vec<(u64, u64)> {
    DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()))
}
/// The result of a call along with a digest of the implementation calls it caused.
pub fn obs(f: impl FnOnce() -> u64) -> u64 {
    CALLS.with(|c| c.set(0));
    let r = f();
    mix(r, CALLS.with(|c| c.get()))
}

/// The state of a generated concrete type.
pub trait St: Sized {
    const K: u64;
    fn make(n: u64) -> Self;
    fn n(&self) -> u64;
    fn put(&mut self, n: u64);
    fn nref(&self) -> &u64;
    fn nmut(&mut self) -> &mut u64;
}
impl St for u64 {
    const K: u64 = 0;
    fn make(n: u64) -> Self {
        n
    }
    fn n(&self) -> u64 {
        *self
    }
    fn put(&mut self, n: u64) {
        *self = n
    }
    fn nref(&self) -> &u64 {
        self
    }
    fn nmut(&mut self) -> &mut u64 {
        self
    }
}
impl St for (u64, Tr) {
    const K: u64 = 0;
    fn make(n: u64) -> Self {
        (n, Tr::new(1))
    }
    fn n(&self) -> u64 {
        self.1.val();
        self.0
    }
    fn put(&mut self, n: u64) {
        self.0 = n
    }
    fn nref(&self) -> &u64 {
        &self.0
    }
    fn nmut(&mut self) -> &mut u64 {
        &mut self.0
    }
}
pub type X = [u64; 4];
/// A concrete value called natively.
pub trait Ty {
    fn state(&self) -> u64;
    fn native(&self, m: usize, x: &X) -> u64;
    fn native_mut(&mut self, m: usize, x: &X) -> u64;
}
#[derive(Clone, Copy)]
pub struct Meth {
    pub name: &'static str,
    /// index in `Ty::native` or `Ty::native_mut`
    pub native: usize,
}
/// What can be done with objects of one trait list.
pub struct Level {
    pub text: &'static str,
    pub refs: &'static [Meth],
    pub muts: &'static [Meth],
    pub ups: usize,
    pub any: bool,
    /// the raw words of two vtables, and whether they are equal, and hash equally
    pub cmp: fn(&dyn Any, &dyn Any) -> (Vec<usize>, Vec<usize>, bool, bool),
}
pub trait Obj {
    fn level(&self) -> &'static Level;
    fn shared(&self, view: usize, m: usize, x: &X) -> u64;
    /// `None`: the object can't be borrowed mutably now
    fn exclusive(&mut self, view: usize, m: usize, x: &X) -> Option<u64>;
    fn dup(&self) -> Option<Box<dyn Obj>>;
    fn up(self: Box<Self>, which: usize) -> Box<dyn Obj>;
    fn addr(&self) -> usize;
    /// address found by downcasting to each concrete type of the program, by reference and mutably
    fn down(&self) -> Vec<Option<usize>>;
    fn down_mut(&mut self) -> Option<Vec<Option<usize>>>;
    /// unsafe downcasts, and whether that type's vtable is identical
    fn raw_down(&mut self) -> Vec<(Option<usize>, bool)>;
    fn vt(&self) -> Box<dyn Any>;
}
/// A way to build objects of one trait list from any type of the program.
pub struct Root {
    pub level: &'static Level,
    pub types: &'static [&'static str],
    /// (pointer kind, type, state): the object and, for borrowed ones, what they borrow
    pub make: fn(usize, usize, u64) -> (Box<dyn Obj>, Option<Store>),
    pub twin: fn(usize, u64) -> Box<dyn Ty>,
    /// words of the vtable a type should have in this list, and of the one objects of it get
    pub words: fn(usize) -> Vec<usize>,
    pub live: fn(usize) -> Vec<usize>,
    pub ks: fn(usize) -> u64,
}
/// The value behind a `&` or `&mut` object.
pub struct Store {
    pub ptr: *mut (),
    pub free: fn(*mut ()),
}
pub fn store<T>(t: T) -> (*mut T, Store) {
    fn free<T>(p: *mut ()) {
        drop(unsafe { Box::from_raw(p as *mut T) })
    }
    let p = Box::into_raw(Box::new(t));
    (p, Store { ptr: p as *mut (), free: free::<T> })
}
pub const KINDS: [&str; 4] = ["box", "shared", "&mut", "&"];
pub fn words_of<T>(t: &T) -> Vec<usize> {
    let n = size_of::<T>() / size_of::<usize>();
    (0..n).map(|i| unsafe { *(t as *const T as *const usize).add(i) }).collect()
}
pub fn cmp_vt<V: PartialEq + std::hash::Hash + 'static>(a: &dyn Any, b: &dyn Any) -> (Vec<usize>, Vec<usize>, bool, bool) {
    use std::hash::{DefaultHasher, Hasher};
    let (a, b): (&V, &V) = (a.downcast_ref().unwrap(), b.downcast_ref().unwrap());
    let h = |v: &V| {
        let mut s = DefaultHasher::new();
        v.hash(&mut s);
        s.finish()
    };
    (words_of(a), words_of(b), a == b, h(a) == h(b))
}
#[macro_export]
macro_rules! level {
    ($A:ty, $V:ty, $L:expr, $rf:ident, $own:ident, $ex:ident, $dn:ident, $dnm:ident, $dnr:ident, $raw:ident, [$($i:literal => $to:ident),*]) => {
        pub struct B(pub stabby::Dyn<'static, stabby::boxed::Box<(), $A>, $V>);
        pub struct R(pub stabby::Dyn<'static, stabby::sync::Arc<(), $A>, $V>);
        pub struct M(pub stabby::Dyn<'static, &'static mut (), $V>);
        pub struct F(pub stabby::DynRef<'static, $V>);
        impl $crate::dynobj::Obj for B {
            fn level(&self) -> &'static Level { &$L }
            fn shared(&self, view: usize, m: usize, x: &X) -> u64 { if view % 2 == 0 { $own(&self.0, m, x) } else { $rf(&stabby::Dyn::as_ref(&self.0), m, x) } }
            fn exclusive(&mut self, view: usize, m: usize, x: &X) -> Option<u64> {
                Some(match view % 3 { 0 => $ex(&mut self.0, m, x), 1 => $ex(&mut stabby::Dyn::as_mut(&mut self.0), m, x), _ => $ex(&mut stabby::Dyn::try_as_mut(&mut self.0)?, m, x) })
            }
            fn dup(&self) -> Option<Box<dyn Obj>> { None }
            fn up(self: Box<Self>, which: usize) -> Box<dyn Obj> { match which { $($i => Box::new(super::$to::B(stabby::Dyn::into_super(self.0))),)* _ => unreachable!() } }
            fn addr(&self) -> usize { unsafe { stabby::abi::IPtr::as_ref::<u8>(stabby::Dyn::ptr(&self.0)) as *const u8 as usize } }
            fn down(&self) -> Vec<Option<usize>> { $dn(&self.0) }
            fn down_mut(&mut self) -> Option<Vec<Option<usize>>> { Some($dnm(&mut self.0)) }
            fn raw_down(&mut self) -> Vec<(Option<usize>, bool)> { $raw(&mut self.0) }
            fn vt(&self) -> Box<dyn Any> { Box::new(*stabby::Dyn::vtable(&self.0)) }
        }
        impl $crate::dynobj::Obj for R {
            fn level(&self) -> &'static Level { &$L }
            fn shared(&self, view: usize, m: usize, x: &X) -> u64 { if view % 2 == 0 { $own(&self.0, m, x) } else { $rf(&stabby::Dyn::as_ref(&self.0), m, x) } }
            fn exclusive(&mut self, _: usize, m: usize, x: &X) -> Option<u64> { Some($ex(&mut stabby::Dyn::try_as_mut(&mut self.0)?, m, x)) }
            fn dup(&self) -> Option<Box<dyn Obj>> { Some(Box::new(R(Clone::clone(&self.0)))) }
            fn up(self: Box<Self>, which: usize) -> Box<dyn Obj> { match which { $($i => Box::new(super::$to::R(stabby::Dyn::into_super(self.0))),)* _ => unreachable!() } }
            fn addr(&self) -> usize { unsafe { stabby::abi::IPtr::as_ref::<u8>(stabby::Dyn::ptr(&self.0)) as *const u8 as usize } }
            fn down(&self) -> Vec<Option<usize>> { $dn(&self.0) }
            fn down_mut(&mut self) -> Option<Vec<Option<usize>>> { Some($dnm(&mut stabby::Dyn::try_as_mut(&mut self.0)?)) }
            fn raw_down(&mut self) -> Vec<(Option<usize>, bool)> { match stabby::Dyn::try_as_mut(&mut self.0) { Some(mut d) => $raw(&mut d), None => vec![] } }
            fn vt(&self) -> Box<dyn Any> { Box::new(*stabby::Dyn::vtable(&self.0)) }
        }
        impl $crate::dynobj::Obj for M {
            fn level(&self) -> &'static Level { &$L }
            fn shared(&self, view: usize, m: usize, x: &X) -> u64 { if view % 2 == 0 { $own(&self.0, m, x) } else { $rf(&stabby::Dyn::as_ref(&self.0), m, x) } }
            fn exclusive(&mut self, view: usize, m: usize, x: &X) -> Option<u64> {
                Some(match view % 3 { 0 => $ex(&mut self.0, m, x), 1 => $ex(&mut stabby::Dyn::as_mut(&mut self.0), m, x), _ => $ex(&mut stabby::Dyn::try_as_mut(&mut self.0)?, m, x) })
            }
            fn dup(&self) -> Option<Box<dyn Obj>> { None }
            fn up(self: Box<Self>, which: usize) -> Box<dyn Obj> { match which { $($i => Box::new(super::$to::M(stabby::Dyn::into_super(self.0))),)* _ => unreachable!() } }
            fn addr(&self) -> usize { unsafe { stabby::abi::IPtr::as_ref::<u8>(stabby::Dyn::ptr(&self.0)) as *const u8 as usize } }
            fn down(&self) -> Vec<Option<usize>> { $dn(&self.0) }
            fn down_mut(&mut self) -> Option<Vec<Option<usize>>> { Some($dnm(&mut self.0)) }
            fn raw_down(&mut self) -> Vec<(Option<usize>, bool)> { $raw(&mut self.0) }
            fn vt(&self) -> Box<dyn Any> { Box::new(*stabby::Dyn::vtable(&self.0)) }
        }
        impl $crate::dynobj::Obj for F {
            fn level(&self) -> &'static Level { &$L }
            fn shared(&self, _: usize, m: usize, x: &X) -> u64 { $rf(&self.0, m, x) }
            fn exclusive(&mut self, _: usize, _: usize, _: &X) -> Option<u64> { None }
            fn dup(&self) -> Option<Box<dyn Obj>> { Some(Box::new(F(self.0))) }
            fn up(self: Box<Self>, which: usize) -> Box<dyn Obj> { match which { $($i => Box::new(super::$to::F(stabby::DynRef::into_super(self.0))),)* _ => unreachable!() } }
            fn addr(&self) -> usize { stabby::DynRef::ptr(&self.0) as *const () as usize }
            fn down(&self) -> Vec<Option<usize>> { $dnr(&self.0) }
            fn down_mut(&mut self) -> Option<Vec<Option<usize>>> { None }
            fn raw_down(&mut self) -> Vec<(Option<usize>, bool)> { vec![] }
            fn vt(&self) -> Box<dyn Any> { Box::new(*stabby::DynRef::vtable(&self.0)) }
        }
    };
}

thread_local!(static ROOTS: RefCell<&'static [Root]> = const { RefCell::new(&[]) });
pub fn set(t: Vec<Vec<Root>>) {
    let n = t.len();
    let empty = t.iter().filter(|x| x.is_empty()).count();
    let all: Vec<Root> = t.into_iter().flatten().collect();
    crate::engine::note(format!("{} trait lists in {n} crates ({empty} of which rustc took too long on)", all.len()));
    ROOTS.with(|x| *x.borrow_mut() = all.leak());
}
fn roots() -> &'static [Root] {
    ROOTS.with(|x| *x.borrow())
}
fn xs(c: &mut Case) -> X {
    let mut x = [0; 4];
    for x in &mut x {
        *x = if c.bool() { c.below(8) } else { c.u64() };
    }
    x
}
/// What the drop log should hold after the drop of a value.
fn log(root: &Root, ty: usize, state: u64) -> Vec<(u64, u64)> {
    match (root.ks)(ty) {
        0 => vec![],
        k => vec![(k, state)],
    }
}
/// One object, its clones and its native twin, through a history of calls.
pub fn history(c: &mut Case) -> Res {
    let root = &roots()[c.usize(roots().len())];
    let kind = c.weighted(&[4, 3, 2, 2]);
    let ty = c.usize(root.types.len());
    let seed = c.below(1 << 20);
    chk::begin();
    drops();
    op!(c, "{} of {} as {}", KINDS[kind], root.types[ty], root.level.text);
    c.label(KINDS[kind]);
    let (first, store) = (root.make)(kind, ty, seed);
    let mut twin = (root.twin)(ty, seed);
    let addr = first.addr();
    if let Some(s) = &store {
        ck_eq!(addr, s.ptr as usize, "address of the borrowed value");
    }
    let mut handles = vec![first];
    let (mut calls, mut ups, mut refused) = (0, 0, 0);
    let steps = if c.thorough { 24 } else { 14 };
    for _ in 0..c.range(1, steps) {
        if handles.is_empty() {
            break;
        }
        let i = c.usize(handles.len());
        let n = handles.len();
        let o = &mut handles[i];
        let l = o.level();
        match c.below(20) {
            0..=7 if !l.refs.is_empty() => {
                let m = c.usize(l.refs.len());
                let x = xs(c);
                let view = c.usize(2);
                op!(c, "handle {i} ({}): {}({x:x?}) through view {view}", l.text, l.refs[m].name);
                let got = obs(|| o.shared(view, m, &x));
                let want = obs(|| twin.native(l.refs[m].native, &x));
                ck_eq!(got, want, "{} through {}", l.refs[m].name, l.text);
                calls += 1;
            }
            8..=14 if !l.muts.is_empty() => {
                let m = c.usize(l.muts.len());
                let x = xs(c);
                let view = c.usize(3);
                op!(c, "handle {i} ({}): {}({x:x?}) through view {view}", l.text, l.muts[m].name);
                let mut some = false;
                let got = obs(|| match o.exclusive(view, m, &x) {
                    Some(h) => {
                        some = true;
                        h
                    }
                    None => 0,
                });
                ck_eq!(some, kind != 3 && n == 1, "mutable borrow possible (of {n} handles)");
                if some {
                    let want = obs(|| twin.native_mut(l.muts[m].native, &x));
                    ck_eq!(got, want, "{} through {}", l.muts[m].name, l.text);
                    calls += 1;
                } else {
                    refused += 1;
                }
            }
            15 | 16 => {
                let d = o.dup();
                ck_eq!(d.is_some(), kind == 1 || kind == 3, "cloneable");
                if let Some(d) = d {
                    op!(c, "handle {i} cloned");
                    ck_eq!(d.addr(), addr, "address through the clone");
                    let at = c.usize(n + 1);
                    handles.insert(at, d);
                }
            }
            17 | 18 => {
                if l.ups > 0 {
                    let w = c.usize(l.ups);
                    let o = handles.remove(i).up(w);
                    op!(c, "handle {i} becomes {}", o.level().text);
                    ck_eq!(o.addr(), addr, "address after discarding traits");
                    handles.insert(i, o);
                    ups += 1;
                }
            }
            19 => {
                op!(c, "handle {i} dropped");
                handles.remove(i);
            }
            _ => {}
        }
        let d = drops();
        if handles.is_empty() && kind < 2 {
            ck_eq!(d, log(root, ty, twin.state()), "drops (type, state) with the last handle");
        } else {
            ck!(d.is_empty(), "the value was dropped early: {d:?}");
        }
        chk::mid()?;
    }
    c.nontrivial = calls >= 2 && (ups > 0 || handles.len() != 1 || refused > 0 || calls > 3);
    if !handles.is_empty() {
        handles.clear();
        let d = drops();
        if kind < 2 {
            ck_eq!(d, log(root, ty, twin.state()), "drops (type, state) with the last handle");
        } else {
            ck!(d.is_empty(), "a borrowed value was dropped: {d:?}");
        }
    }
    let state = twin.state();
    drop(twin);
    ck_eq!(drops(), log(root, ty, state), "drops of the twin");
    if let Some(s) = store {
        (s.free)(s.ptr);
        ck_eq!(drops(), log(root, ty, state), "state of the borrowed value at the end");
    }
    chk::end()
}
/// Downcasts to every type of the program, before and after discarding traits.
pub fn downcasts(c: &mut Case) -> Res {
    let root = &roots()[c.usize(roots().len())];
    let kind = c.weighted(&[4, 3, 2, 2]);
    let ty = c.usize(root.types.len());
    let seed = c.below(1 << 20);
    chk::begin();
    drops();
    op!(c, "{} of {} as {}", KINDS[kind], root.types[ty], root.level.text);
    let (mut o, store) = (root.make)(kind, ty, seed);
    let mut twin = (root.twin)(ty, seed);
    let addr = o.addr();
    let mut other = None;
    let mut tried = 0;
    for _ in 0..c.range(1, 10) {
        let l = o.level();
        match c.below(8) {
            0 | 1 if l.any => {
                let got = o.down();
                op!(c, "downcasts of {} by reference: {got:x?}", l.text);
                for (i, g) in got.iter().enumerate() {
                    ck_eq!(*g, if i == ty { Some(addr) } else { None }, "{} behind {} recovered as {}", root.types[ty], l.text, root.types[i]);
                    tried += 1;
                }
            }
            2 | 3 if l.any => {
                let got = o.down_mut();
                op!(c, "mutable downcasts of {}: {got:x?}", l.text);
                ck_eq!(got.is_some(), kind != 3 && other.is_none(), "mutable borrow possible");
                for (i, g) in got.unwrap_or_default().iter().enumerate() {
                    ck_eq!(*g, if i == ty { Some(addr) } else { None }, "{} behind {} recovered mutably as {}", root.types[ty], l.text, root.types[i]);
                    tried += 1;
                }
            }
            4 => {
                let got = o.raw_down();
                op!(c, "downcasts of {} by vtable: {got:x?}", l.text);
                for (i, (g, same)) in got.iter().enumerate() {
                    ck_eq!(*g, if *same { Some(addr) } else { None }, "{} behind {} recovered by vtable as {}", root.types[ty], l.text, root.types[i]);
                    ck!(i == ty || g.is_none() || l.refs.len() + l.muts.len() == 0, "{} behind {} recovered by vtable as {}", root.types[ty], l.text, root.types[i]);
                    tried += 1;
                }
            }
            5 => {
                if l.ups > 0 {
                    let w = c.usize(l.ups);
                    o = o.up(w);
                    op!(c, "becomes {}", o.level().text);
                    ck_eq!(o.addr(), addr, "address after discarding traits");
                }
            }
            6 => {
                if let Some(d) = o.dup() {
                    op!(c, "cloned");
                    other = Some(d);
                }
            }
            7 => {
                op!(c, "clone dropped");
                other = None;
            }
            _ => {}
        }
        let l = o.level();
        // the object is unaffected
        if !l.refs.is_empty() {
            let m = c.usize(l.refs.len());
            let x = xs(c);
            let got = obs(|| o.shared(0, m, &x));
            ck_eq!(got, obs(|| twin.native(l.refs[m].native, &x)), "{} through {}", l.refs[m].name, l.text);
        }
        if !l.muts.is_empty() && c.bool() {
            let m = c.usize(l.muts.len());
            let x = xs(c);
            let mut some = false;
            let got = obs(|| o.exclusive(0, m, &x).map_or(0, |h| { some = true; h }));
            if some {
                ck_eq!(got, obs(|| twin.native_mut(l.muts[m].native, &x)), "{} through {}", l.muts[m].name, l.text);
            }
        }
        ck!(drops().is_empty(), "the value was dropped early");
        chk::mid()?;
    }
    c.nontrivial = tried > root.types.len();
    let other_first = c.bool();
    if other_first {
        drop(other.take());
    }
    drop(o);
    drop(other);
    let d = drops();
    ck_eq!(d.len(), (kind < 2 && (root.ks)(ty) != 0) as usize, "drops");
    drop(twin);
    if let Some(s) = store {
        (s.free)(s.ptr);
    }
    chk::end()
}
/// Equality and hash of vtables of two objects reached in different ways.
pub fn vtables(c: &mut Case) -> Res {
    let root = &roots()[c.usize(roots().len())];
    chk::begin();
    drops();
    let tys = [c.usize(root.types.len()), c.usize(root.types.len())];
    let kinds = [c.usize(4), c.usize(4)];
    let threads = [c.chance(1, 4), c.chance(1, 4)];
    let mut objs = vec![];
    let mut stores = vec![];
    for i in 0..2 {
        op!(c, "{} of {} as {}", KINDS[kinds[i]], root.types[tys[i]], root.level.text);
        if threads[i] {
            // the vtable's first use may be on another thread
            let (f, t) = (root.live, tys[i]);
            let w = std::thread::spawn(move || f(t)).join().map_err(|_| "panicked".to_string())?;
            ck_eq!(w, (root.words)(t), "vtable words seen from another thread");
        }
        let (o, s) = (root.make)(kinds[i], tys[i], 1);
        ck_eq!(words_of_obj(&*o), (root.words)(tys[i]), "vtable words of the object");
        objs.push(o);
        stores.push(s);
    }
    // the same discards on both
    let mut depth = 0;
    while objs[0].level().ups > 0 && c.bool() {
        let w = c.usize(objs[0].level().ups);
        objs = objs.into_iter().map(|o| o.up(w)).collect();
        op!(c, "both become {}", objs[0].level().text);
        depth += 1;
    }
    let l = objs[0].level();
    let copies: Vec<_> = objs.iter().map(|o| o.vt()).collect();
    let (a, b, eq, hash) = (l.cmp)(&*copies[0], &*copies[1]);
    ck_eq!(eq, a == b, "vtables of {} and {} as {} are equal, words {a:x?} {b:x?}", root.types[tys[0]], root.types[tys[1]], l.text);
    ck!(!eq || hash, "equal vtables hash differently");
    if tys[0] == tys[1] {
        ck!(eq, "vtables of one type differ");
    } else if l.refs.len() + l.muts.len() > 0 {
        ck!(!eq, "vtables of {} and {} as {} are equal", root.types[tys[0]], root.types[tys[1]], l.text);
    }
    c.nontrivial = tys[0] != tys[1] || kinds[0] != kinds[1] || depth > 0;
    drop(objs);
    for s in stores.into_iter().flatten() {
        (s.free)(s.ptr);
    }
    ck_eq!(drops().len(), tys.iter().filter(|t| (root.ks)(**t) != 0).count(), "drops");
    chk::end()
}
fn words_of_obj(o: &dyn Obj) -> Vec<usize> {
    let v = o.vt();
    (o.level().cmp)(&*v, &*v).0
}
/// Several threads asking for the same vtables at once.
pub fn racing(c: &mut Case) -> Res {
    let mut want = vec![];
    for _ in 0..c.range(1, 4) {
        let i = c.usize(roots().len());
        want.push((i, c.usize(roots()[i].types.len())));
    }
    let n = c.range(2, 4) as usize;
    let orders: Vec<Vec<usize>> = (0..n).map(|_| {
        let mut v: Vec<usize> = (0..want.len()).collect();
        for i in (1..v.len()).rev() {
            v.swap(i, c.usize(i + 1));
        }
        v
    }).collect();
    op!(c, "{n} threads ask for (list, type) {want:?} in orders {orders:?}");
    let roots = roots();
    let bar = std::sync::Barrier::new(n);
    let got: Vec<Vec<(usize, Vec<usize>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = orders.iter().map(|o| {
            let (bar, want) = (&bar, &want);
            s.spawn(move || {
                bar.wait();
                o.iter().map(|i| (*i, (roots[want[*i].0].live)(want[*i].1))).collect::<Vec<_>>()
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    c.nontrivial = true;
    for g in &got {
        ck_eq!(g.len(), want.len(), "vtables obtained");
        for (i, w) in g {
            let (r, t) = want[*i];
            ck_eq!(*w, (roots[r].words)(t), "words of the vtable of {} as {}", roots[r].types[t], roots[r].level.text);
        }
    }
    let _ = track::alive();
    Ok(())
}

#[stabby::stabby]
pub trait Probed {
    extern "C" fn probed(&self) -> u64;
}
#[stabby::stabby]
pub struct Ph<T: stabby::IStable> {
    n: u64,
    p: core::marker::PhantomData<T>,
}
impl<T: stabby::IStable> Probed for Ph<T> {
    extern "C" fn probed(&self) -> u64 {
        self.n
    }
}
/// Known finding: `Ph<i8>` is recovered as `Ph<u8>`, since reports of phantom fields omit their type.
pub fn phantom_parameter() -> Res {
    let d: stabby::dynptr!(SBox<dyn Probed + stabby::Any>) = SBox::new(Ph::<i8> { n: 1, p: core::marker::PhantomData }).into();
    ck!(d.stable_downcast_ref::<Ph<i8>, _>().is_some(), "not recovered as its own type");
    ck!(d.stable_downcast_ref::<Ph<u8>, _>().is_none(), "a `struct Ph<T> {{ n: u64, p: PhantomData<T> }}` of T = i8 was recovered as one of T = u8");
    Ok(())
}
