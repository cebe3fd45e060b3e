//! C23: stable closures and iterators behave like native ones.
#![recursion_limit = "1024"]
#![allow(improper_ctypes_definitions)]
use stabby::boxed::Box as SBox;
use stabby::closure::*;
use stabby::abi::iter::Iterator as SIterator;
use stabby::option::Option as SOption;
use stabby::string::String as SString;
use stabby::sync::Arc as SArc;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
use vph::chk;
use vph::track::*;
use vph::*;

/// Counts blocks.
struct Count;
static BLOCKS: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BLOCKS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNT: Count = Count;

/// What happened in a run.
type Obs = Vec<u64>;
thread_local! { static LOG: RefCell<Obs> = const { RefCell::new(vec![]) } }
fn log(x: u64) {
    LOG.with(|l| l.borrow_mut().push(x))
}
fn mix(a: u64, b: u64) -> u64 {
    (a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15)).rotate_left(23).wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ a
}
/// Values to pass and return.
trait V: 'static {
    fn mk(s: u64) -> Self;
    fn h(self) -> u64;
}
macro_rules! int { ($($t:ty)*) => { $(impl V for $t {
    fn mk(s: u64) -> Self { mix(s, 1) as $t }
    fn h(self) -> u64 { self as u64 }
})* } }
int!(u8 i8 i16 u32 u64);
impl V for u128 {
    fn mk(s: u64) -> Self {
        (mix(s, 1) as u128) << 64 | mix(s, 2) as u128
    }
    fn h(self) -> u64 {
        mix(self as u64, (self >> 64) as u64)
    }
}
impl V for f64 {
    fn mk(s: u64) -> Self {
        (s >> 11) as f64 / 7.0
    }
    fn h(self) -> u64 {
        self.to_bits()
    }
}
impl V for f32 {
    fn mk(s: u64) -> Self {
        (s >> 40) as f32 / 3.0
    }
    fn h(self) -> u64 {
        self.to_bits() as u64
    }
}
impl V for bool {
    fn mk(s: u64) -> Self {
        s & 8 != 0
    }
    fn h(self) -> u64 {
        self as u64
    }
}
impl V for char {
    fn mk(s: u64) -> Self {
        char::from_u32((s >> 7) as u32 % 0xD800).unwrap()
    }
    fn h(self) -> u64 {
        self as u64
    }
}
impl V for () {
    fn mk(_: u64) -> Self {}
    fn h(self) -> u64 {
        7
    }
}
impl V for &'static u8 {
    fn mk(s: u64) -> Self {
        static B: [u8; 16] = [9, 8, 7, 6, 5, 4, 3, 2, 1, 10, 11, 12, 13, 14, 15, 16];
        &B[s as usize % 16]
    }
    fn h(self) -> u64 {
        *self as u64
    }
}
macro_rules! el { ($($t:ty)*) => { $(impl V for $t {
    fn mk(s: u64) -> Self { El::new(mix(s, 3) as u32) }
    fn h(self) -> u64 { self.val() as u64 }
})* } }
el!(Tr TrBig TrNiche TrZ Tr16 Tr64);
impl V for SBox<u32> {
    fn mk(s: u64) -> Self {
        SBox::new(s as u32)
    }
    fn h(self) -> u64 {
        *self as u64
    }
}
impl V for SString {
    fn mk(s: u64) -> Self {
        SString::from("éa".repeat(s as usize % 9).as_str())
    }
    fn h(self) -> u64 {
        self.bytes().fold(5, |a, b| mix(a, b as u64))
    }
}
impl V for SOption<u32> {
    fn mk(s: u64) -> Self {
        if s & 4 == 0 { SOption::None() } else { SOption::Some(s as u32) }
    }
    fn h(self) -> u64 {
        self.match_owned(|x| x as u64, || 1 << 40)
    }
}
type STup = stabby::tuple::Tuple3<u8, u64, Tr>;
impl V for STup {
    fn mk(s: u64) -> Self {
        stabby::tuple::Tuple3(s as u8, mix(s, 4), Tr::mk(s))
    }
    fn h(self) -> u64 {
        mix(mix(self.0 as u64, self.1), self.2.h())
    }
}
impl V for A16 {
    fn mk(s: u64) -> Self {
        A16(s)
    }
    fn h(self) -> u64 {
        self.0
    }
}
#[stabby::stabby]
#[derive(Clone, Copy)]
struct Big {
    a: [u64; 9],
    b: u8,
}
impl V for Big {
    fn mk(s: u64) -> Self {
        Big { a: core::array::from_fn(|i| mix(s, i as u64)), b: s as u8 }
    }
    fn h(self) -> u64 {
        self.a.iter().fold(self.b as u64, |a, b| mix(a, *b))
    }
}
const FORMS: [&str; 16] = [
    "Fn natively", "Call", "Dyn<Box> Fn", "Dyn<Arc> Fn", "DynRef Fn", "Dyn<Box> Fn + Send + Sync", "Dyn<Box> Call", "FnMut natively", "CallMut", "Dyn<Box> FnMut", "Dyn<&mut> FnMut", "as_mut of Dyn<Box> FnMut",
    "FnOnce natively", "CallOnce", "Dyn<Box> FnOnce", "Dyn<Box> FnOnce + Send",
];
/// Runs the same calls natively and through a stable callable.
fn both(c: &mut Case, once: bool, f: fn(usize, u64, &[u64]) -> Obs) -> Res {
    chk::begin();
    let seed = c.u64();
    let form: usize = if once { c.range(13, 16) as usize } else { *c.pick(&[1, 2, 3, 4, 5, 6, 8, 9, 10, 11]) };
    let native = if form < 7 { 0 } else if form < 12 { 7 } else { 12 };
    let n = if once { c.usize(4).min(1) } else { c.usize(6) };
    let calls: Vec<u64> = (0..n).map(|_| c.u64()).collect();
    op!(c, "{} against {}, {n} calls", FORMS[form], FORMS[native]);
    c.nontrivial = n > 0;
    let want = f(native, seed, &calls);
    chk::end().map_err(|e| format!("natively: {e}"))?;
    let got = f(form, seed, &calls);
    ck!(got == want, "{} gives {got:x?} instead of {want:x?}", FORMS[form]);
    drop((want, got));
    chk::end()?;
    // once more, to count blocks
    let blocks = BLOCKS.load(Relaxed);
    drop(f(form, seed, &calls));
    ck_eq!(BLOCKS.load(Relaxed), blocks, "{}: blocks", FORMS[form]);
    chk::end()
}
/// Calls `f` with the arguments made from each of `calls`.
fn each<A, R: V>(calls: &[u64], mk: impl Fn(u64) -> A, mut f: impl FnMut(A) -> R) {
    for s in calls {
        log(f(mk(*s)).h());
    }
}
/// The same, at most once.
fn one<A, R: V>(calls: &[u64], mk: impl Fn(u64) -> A, f: impl FnOnce(A) -> R) {
    if let Some(s) = calls.first() {
        log(f(mk(*s)).h());
    }
}
macro_rules! closures {
    ($($name:ident: $s:ty, ($($a:ident: $t:ty),*) -> $r:ty, [$call:ident $mutc:ident $once:ident];)*) => {
        $(mod $name {
            use super::*;
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn run(form: usize, seed: u64, calls: &[u64]) -> Obs {
                LOG.with(|l| *l.borrow_mut() = vec![]);
                // the three kinds of closures, over the same state
                let shared = || {
                    let state = <$s as El>::new(seed as u32);
                    let acc = Cell::new(seed);
                    move |$($a: $t),*| -> $r {
                        let mut x = mix(acc.get(), state.val() as u64);
                        $(x = mix(x, <$t as V>::h($a));)*
                        acc.set(x);
                        log(x);
                        <$r as V>::mk(x)
                    }
                };
                let exclusive = || {
                    let mut state = <$s as El>::new(seed as u32);
                    let mut acc = seed;
                    move |$($a: $t),*| -> $r {
                        let mut x = mix(acc, state.val() as u64);
                        $(x = mix(x, <$t as V>::h($a));)*
                        acc = x;
                        state.set(x as u32);
                        log(x);
                        <$r as V>::mk(x)
                    }
                };
                let single = || {
                    let state = <$s as El>::new(seed as u32);
                    let acc = seed;
                    move |$($a: $t),*| -> $r {
                        let mut x = mix(acc, { let s = state; s.val() } as u64);
                        $(x = mix(x, <$t as V>::h($a));)*
                        log(x);
                        <$r as V>::mk(x)
                    }
                };
                // Sync
                let safe = || {
                    let state = <$s as El>::new(seed as u32);
                    let acc = std::sync::atomic::AtomicU64::new(seed);
                    move |$($a: $t),*| -> $r {
                        let mut x = mix(acc.load(Relaxed), state.val() as u64);
                        $(x = mix(x, <$t as V>::h($a));)*
                        acc.store(x, Relaxed);
                        log(x);
                        <$r as V>::mk(x)
                    }
                };
                let mk = |s: u64| -> ($($t,)*) {
                    let mut k = 0u64;
                    let mut arg = || { k += 1; mix(s, k) };
                    ($(<$t as V>::mk(arg()),)*)
                };
                type Args = ($($t,)*);
                match form {
                    0 => { let f = shared(); each(calls, mk, |($($a,)*): Args| f($($a),*)) }
                    1 => { let f = shared(); each(calls, mk, |($($a,)*): Args| $call::call(&f $(, $a)*)) }
                    2 => { let f: stabby::Dyn<'_, SBox<()>, stabby::vtable!(Fn($($t),*) -> $r)> = SBox::new(shared()).into(); each(calls, mk, |($($a,)*): Args| f.call($($a),*)) }
                    3 => {
                        let f: stabby::Dyn<'_, SArc<()>, stabby::vtable!(Fn($($t),*) -> $r)> = SArc::new(shared()).into();
                        let g = f.clone();
                        let mut i = 0;
                        each(calls, mk, |($($a,)*): Args| { i += 1; if i % 2 == 0 { f.call($($a),*) } else { g.call($($a),*) } })
                    }
                    4 => { let g = shared(); let f: stabby::DynRef<'_, stabby::vtable!(Fn($($t),*) -> $r)> = (&g).into(); each(calls, mk, |($($a,)*): Args| f.call($($a),*)) }
                    5 => { let f: stabby::Dyn<'_, SBox<()>, stabby::vtable!(Fn($($t),*) -> $r + Send + Sync)> = SBox::new(safe()).into(); each(calls, mk, |($($a,)*): Args| f.call($($a),*)) }
                    6 => { let f: stabby::Dyn<'_, SBox<()>, stabby::vtable!($call<$r $(, $t)*>)> = SBox::new(shared()).into(); each(calls, mk, |($($a,)*): Args| f.call($($a),*)) }
                    7 => { let mut f = exclusive(); each(calls, mk, |($($a,)*): Args| f($($a),*)) }
                    8 => { let mut f = exclusive(); each(calls, mk, |($($a,)*): Args| $mutc::call_mut(&mut f $(, $a)*)) }
                    9 => { let mut f: stabby::Dyn<'_, SBox<()>, stabby::vtable!(FnMut($($t),*) -> $r)> = SBox::new(exclusive()).into(); each(calls, mk, |($($a,)*): Args| f.call_mut($($a),*)) }
                    10 => { let mut g = exclusive(); let mut f: stabby::Dyn<'_, &mut (), stabby::vtable!(FnMut($($t),*) -> $r)> = (&mut g).into(); each(calls, mk, |($($a,)*): Args| f.call_mut($($a),*)) }
                    11 => { let mut f: stabby::Dyn<'_, SBox<()>, stabby::vtable!(FnMut($($t),*) -> $r)> = SBox::new(exclusive()).into(); each(calls, mk, |($($a,)*): Args| f.as_mut().call_mut($($a),*)) }
                    12 => { let f = single(); one(calls, mk, |($($a,)*): Args| f($($a),*)) }
                    13 => { let f = single(); one(calls, mk, |($($a,)*): Args| $once::call_once(SBox::new(f) $(, $a)*)) }
                    14 => { let f: stabby::Dyn<'_, SBox<()>, stabby::vtable!(FnOnce($($t),*) -> $r)> = SBox::new(single()).into(); one(calls, mk, |($($a,)*): Args| f.call_once($($a),*)) }
                    _ => { let f: stabby::Dyn<'_, SBox<()>, stabby::vtable!(FnOnce($($t),*) -> $r + Send)> = SBox::new(single()).into(); one(calls, mk, |($($a,)*): Args| f.call_once($($a),*)) }
                }
                LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
            }
            pub fn many(c: &mut Case) -> Res { both(c, false, run) }
            pub fn once(c: &mut Case) -> Res { both(c, true, run) }
        })*
        const MANY: &[(&str, fn(&mut Case) -> Res, fn(&mut Case) -> Res)] = &[$((stringify!($s, ($($t),*) -> $r), $name::many, $name::once)),*];
    };
}
closures! {
    f0_0: TrZ, () -> u32, [Call0 CallMut0 CallOnce0];
    f0_1: Tr, () -> TrNiche, [Call0 CallMut0 CallOnce0];
    f0_2: TrBig, () -> SString, [Call0 CallMut0 CallOnce0];
    f0_3: u8, () -> SBox<u32>, [Call0 CallMut0 CallOnce0];
    f1_0: Tr16, (a0: u32) -> bool, [Call1 CallMut1 CallOnce1];
    f1_1: Tr, (a0: u8) -> Tr, [Call1 CallMut1 CallOnce1];
    f1_2: TrBig, (a0: &'static u8) -> u8, [Call1 CallMut1 CallOnce1];
    f1_3: Tr, (a0: u64) -> (), [Call1 CallMut1 CallOnce1];
    f1_4: Tr, (a0: TrZ) -> Big, [Call1 CallMut1 CallOnce1];
    f2_0: TrZ, (a0: u32, a1: u32) -> i16, [Call2 CallMut2 CallOnce2];
    f2_1: u8, (a0: u8, a1: Tr) -> bool, [Call2 CallMut2 CallOnce2];
    f2_2: TrZ, (a0: TrBig, a1: STup) -> TrNiche, [Call2 CallMut2 CallOnce2];
    f2_3: u8, (a0: Big, a1: Tr) -> u32, [Call2 CallMut2 CallOnce2];
    f2_4: Tr16, (a0: SBox<u32>, a1: f64) -> (), [Call2 CallMut2 CallOnce2];
    f3_0: Tr16, (a0: u32, a1: u32, a2: u32) -> f64, [Call3 CallMut3 CallOnce3];
    f3_1: Tr, (a0: u8, a1: Tr, a2: Tr) -> u64, [Call3 CallMut3 CallOnce3];
    f3_2: TrZ, (a0: TrZ, a1: i16, a2: STup) -> TrBig, [Call3 CallMut3 CallOnce3];
    f3_3: TrZ, (a0: STup, a1: Tr, a2: u64) -> TrNiche, [Call3 CallMut3 CallOnce3];
    f3_4: u8, (a0: SOption<u32>, a1: char, a2: Tr16) -> bool, [Call3 CallMut3 CallOnce3];
    f4_0: Tr, (a0: u32, a1: u32, a2: u32, a3: u32) -> (), [Call4 CallMut4 CallOnce4];
    f4_1: Tr, (a0: Tr, a1: u8, a2: Tr, a3: u8) -> i16, [Call4 CallMut4 CallOnce4];
    f4_2: Tr64, (a0: A16, a1: TrZ, a2: TrNiche, a3: u8) -> Tr, [Call4 CallMut4 CallOnce4];
    f4_3: u8, (a0: Big, a1: u8, a2: bool, a3: i16) -> STup, [Call4 CallMut4 CallOnce4];
    f4_4: TrBig, (a0: u32, a1: TrBig, a2: u8, a3: TrNiche) -> bool, [Call4 CallMut4 CallOnce4];
    f5_0: Tr64, (a0: u32, a1: u32, a2: u32, a3: u32, a4: u32) -> STup, [Call5 CallMut5 CallOnce5];
    f5_1: Tr64, (a0: Tr, a1: Tr, a2: u8, a3: Tr, a4: u8) -> u8, [Call5 CallMut5 CallOnce5];
    f5_2: u8, (a0: Tr16, a1: Tr, a2: Big, a3: TrZ, a4: f64) -> SOption<u32>, [Call5 CallMut5 CallOnce5];
    f5_3: TrBig, (a0: u32, a1: A16, a2: bool, a3: SOption<u32>, a4: char) -> SOption<u32>, [Call5 CallMut5 CallOnce5];
    f5_4: TrZ, (a0: char, a1: SOption<u32>, a2: &'static u8, a3: SOption<u32>, a4: i16) -> u64, [Call5 CallMut5 CallOnce5];
    f6_0: Tr64, (a0: u32, a1: u32, a2: u32, a3: u32, a4: u32, a5: u32) -> f64, [Call6 CallMut6 CallOnce6];
    f6_1: TrBig, (a0: Tr, a1: u8, a2: u8, a3: u8, a4: Tr, a5: u8) -> u8, [Call6 CallMut6 CallOnce6];
    f6_2: Tr16, (a0: u128, a1: TrNiche, a2: f32, a3: Big, a4: u8, a5: f64) -> STup, [Call6 CallMut6 CallOnce6];
    f6_3: Tr16, (a0: TrZ, a1: u32, a2: TrZ, a3: i8, a4: SBox<u32>, a5: &'static u8) -> Tr64, [Call6 CallMut6 CallOnce6];
    f6_4: Tr, (a0: SOption<u32>, a1: f64, a2: SString, a3: SOption<u32>, a4: char, a5: i8) -> Tr, [Call6 CallMut6 CallOnce6];
    f7_0: TrBig, (a0: u32, a1: u32, a2: u32, a3: u32, a4: u32, a5: u32, a6: u32) -> TrNiche, [Call7 CallMut7 CallOnce7];
    f7_1: Tr16, (a0: Tr, a1: u8, a2: Tr, a3: u8, a4: u8, a5: u8, a6: u8) -> u32, [Call7 CallMut7 CallOnce7];
    f7_2: u8, (a0: TrNiche, a1: f32, a2: i8, a3: u128, a4: SString, a5: TrBig, a6: u64) -> STup, [Call7 CallMut7 CallOnce7];
    f7_3: Tr, (a0: u64, a1: i8, a2: STup, a3: Tr16, a4: u8, a5: i16, a6: i8) -> Tr, [Call7 CallMut7 CallOnce7];
    f7_4: Tr64, (a0: STup, a1: A16, a2: SBox<u32>, a3: i16, a4: TrZ, a5: u32, a6: i8) -> SBox<u32>, [Call7 CallMut7 CallOnce7];
    f8_0: Tr16, (a0: u32, a1: u32, a2: u32, a3: u32, a4: u32, a5: u32, a6: u32, a7: u32) -> SBox<u32>, [Call8 CallMut8 CallOnce8];
    f8_1: Tr, (a0: Tr, a1: Tr, a2: Tr, a3: Tr, a4: u8, a5: u8, a6: u8, a7: Tr) -> u64, [Call8 CallMut8 CallOnce8];
    f8_2: TrBig, (a0: Tr, a1: u8, a2: u128, a3: TrBig, a4: u32, a5: f64, a6: f32, a7: f32) -> TrZ, [Call8 CallMut8 CallOnce8];
    f8_3: Tr16, (a0: &'static u8, a1: bool, a2: SOption<u32>, a3: STup, a4: TrZ, a5: Big, a6: TrBig, a7: SOption<u32>) -> Tr, [Call8 CallMut8 CallOnce8];
    f8_4: TrZ, (a0: SOption<u32>, a1: char, a2: Tr16, a3: Big, a4: A16, a5: u128, a6: TrBig, a7: TrNiche) -> i16, [Call8 CallMut8 CallOnce8];
    f9_0: TrBig, (a0: u32, a1: u32, a2: u32, a3: u32, a4: u32, a5: u32, a6: u32, a7: u32, a8: u32) -> SOption<u32>, [Call9 CallMut9 CallOnce9];
    f9_1: Tr, (a0: Tr, a1: u8, a2: Tr, a3: u8, a4: u8, a5: Tr, a6: u8, a7: u8, a8: u8) -> Tr64, [Call9 CallMut9 CallOnce9];
    f9_2: Tr, (a0: &'static u8, a1: A16, a2: TrZ, a3: &'static u8, a4: f64, a5: Tr16, a6: f32, a7: Big, a8: TrZ) -> STup, [Call9 CallMut9 CallOnce9];
    f9_3: TrZ, (a0: u8, a1: TrNiche, a2: A16, a3: TrNiche, a4: i8, a5: i16, a6: i16, a7: TrZ, a8: TrNiche) -> TrBig, [Call9 CallMut9 CallOnce9];
    f9_4: Tr, (a0: f64, a1: u128, a2: &'static u8, a3: u32, a4: STup, a5: SString, a6: Tr16, a7: SOption<u32>, a8: u64) -> SOption<u32>, [Call9 CallMut9 CallOnce9];
}
fn calls(c: &mut Case) -> Res {
    let (what, f, _) = MANY[c.usize(MANY.len())];
    op!(c, "closure of state {what}");
    f(c)
}
fn once(c: &mut Case) -> Res {
    let (what, _, f) = MANY[c.usize(MANY.len())];
    op!(c, "closure of state {what}");
    f(c)
}

// iterators

/// An iterator that follows a script: `None` entries end it for a while.
struct Script<T> {
    items: std::vec::IntoIter<Option<T>>,
    hints: Vec<(usize, Option<usize>)>,
    at: usize,
}
impl<T> Iterator for Script<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.at += 1;
        self.items.next().flatten()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hints[self.at % self.hints.len()]
    }
}
/// The same, only stable.
struct Stable<T>(Script<T>);
impl<T> SIterator for Stable<T>
where
    T: stabby::abi::IDeterminantProvider<()>,
{
    type Item = T;
    extern "C" fn next(&mut self) -> SOption<T> {
        Iterator::next(&mut self.0).into()
    }
    extern "C" fn size_hint(&self) -> stabby::tuple::Tuple2<usize, SOption<usize>> {
        let (a, b) = Iterator::size_hint(&self.0);
        stabby::tuple::Tuple2(a, b.into())
    }
}
type Plan = (Vec<Option<u64>>, Vec<(usize, Option<usize>)>);
fn script<T: V>(p: &Plan) -> Script<T> {
    Script { items: p.0.iter().map(|x| x.map(T::mk)).collect::<Vec<_>>().into_iter(), hints: p.1.clone(), at: 0 }
}
/// Drives an iterator.
fn drive<T: V>(mut it: impl Iterator<Item = T>, ops: &[(u8, usize)]) -> Vec<u64> {
    let mut out = vec![];
    for (op, k) in ops {
        out.push(1000 + *op as u64);
        match op {
            0..=2 => out.push(it.next().map_or(1 << 63, V::h)),
            3 => {
                let (a, b) = it.size_hint();
                out.extend([a as u64, b.map_or(u64::MAX, |b| b as u64)])
            }
            4 => out.push(it.nth(*k).map_or(1 << 63, V::h)),
            5 => out.extend(it.by_ref().take(*k).map(V::h)),
            6 => out.push(it.by_ref().map(V::h).fold(3, mix)),
            7 => out.push(it.by_ref().count() as u64),
            8 => out.push(it.by_ref().last().map_or(1 << 63, V::h)),
            9 => {
                let mut f = it.by_ref().fuse();
                out.push(f.next().map_or(1 << 63, V::h));
                out.push(f.next().map_or(1 << 63, V::h));
            }
            _ => {
                let mut p = it.by_ref().peekable();
                out.push(p.peek().is_some() as u64);
                out.push(p.next().map_or(1 << 63, V::h));
            }
        }
    }
    out
}
/// Drives an iterator that is only known through the stable trait.
fn drive_stable<T: V + stabby::abi::IDeterminantProvider<()>>(mut next: impl FnMut() -> SOption<T>, mut hint: impl FnMut() -> stabby::tuple::Tuple2<usize, SOption<usize>>, ops: &[(u8, usize)]) -> Vec<u64> {
    let mut out = vec![];
    for (op, _) in ops {
        out.push(1000 + *op as u64);
        match op {
            3 => {
                let t = hint();
                out.extend([t.0 as u64, Option::from(t.1).map_or(u64::MAX, |b: usize| b as u64)])
            }
            _ => out.push(next().match_owned(V::h, || 1 << 63)),
        }
    }
    out
}
fn iters<T: V + stabby::abi::IDeterminantProvider<()> + stabby::IStable>(c: &mut Case) -> Res
where
    SOption<T>: stabby::IStable,
{
    chk::begin();
    let n = c.usize(9);
    let unfused = c.chance(1, 3);
    let mut items: Vec<Option<u64>> = (0..n).map(|_| Some(c.u64())).collect();
    if unfused {
        for x in items.iter_mut() {
            if c.chance(1, 3) {
                *x = None
            }
        }
    }
    let hints = (0..c.range(1, 4)).map(|_| (c.edge64(64) as usize, c.bool().then(|| c.edge64(64) as usize))).collect();
    let plan = (items, hints);
    let stable = c.chance(1, 2);
    let ops: Vec<(u8, usize)> = (0..c.range(1, 10)).map(|_| (if stable { c.below(4) as u8 } else { c.below(11) as u8 }, c.usize(4))).collect();
    let form = c.below(8);
    op!(c, "{} items, {}, form {form}, operations {ops:?}", n, if stable { "through the stable trait" } else { "natively" });
    c.nontrivial = n > 0;
    let want = drive::<T>(script::<T>(&plan), &ops);
    chk::end()?;
    let mut native = script::<T>(&plan);
    let mut stab = Stable(script::<T>(&plan));
    type Vt<T> = stabby::vtable!(SIterator<Item = T>);
    let got = if stable {
        macro_rules! ds {
            ($d:expr) => {{
                let d = RefCell::new($d);
                drive_stable::<T>(|| SIteratorDyn::next(&mut *d.borrow_mut()), || SIteratorHint::size_hint(&*d.borrow()), &ops)
            }};
        }
        use stabby::abi::iter::{IteratorDyn as SIteratorHint, IteratorDynMut as SIteratorDyn};
        match form {
            0 | 1 => {
                let d = RefCell::new(&mut native);
                drive_stable::<T>(|| SIterator::next(&mut **d.borrow_mut()), || SIterator::size_hint(&**d.borrow()), &ops)
            }
            2 => ds!(stabby::Dyn::<'_, SBox<()>, Vt<T>>::from(SBox::new(native))),
            3 => ds!(stabby::Dyn::<'_, SBox<()>, Vt<T>>::from(SBox::new(stab))),
            4 => ds!(stabby::Dyn::<'_, &mut (), Vt<T>>::from(&mut native)),
            5 => ds!(stabby::Dyn::<'_, &mut (), Vt<T>>::from(&mut stab)),
            6 => ds!(stabby::Dyn::<'_, SBox<()>, stabby::vtable!(Iterator<Item = T>)>::from(SBox::new(native))),
            _ => ds!(stabby::Dyn::<'_, SBox<()>, stabby::vtable!(Iterator<Item = T> + Send)>::from(SBox::new(SendIt(native)))),
        }
    } else {
        match form {
            0 => drive::<T>(stabby::Dyn::<'_, SBox<()>, Vt<T>>::from(SBox::new(native)), &ops),
            1 => drive::<T>(stabby::Dyn::<'_, SBox<()>, Vt<T>>::from(SBox::new(stab)), &ops),
            2 => drive::<T>(stabby::Dyn::<'_, &mut (), Vt<T>>::from(&mut native), &ops),
            3 => drive::<T>(stabby::Dyn::<'_, &mut (), Vt<T>>::from(&mut stab), &ops),
            4 => {
                let mut d = stabby::Dyn::<'_, SBox<()>, Vt<T>>::from(SBox::new(stab));
                let r = drive::<T>(d.as_mut(), &ops);
                r
            }
            5 => drive::<T>(stabby::Dyn::<'_, SBox<()>, stabby::vtable!(Iterator<Item = T>)>::from(SBox::new(native)), &ops),
            6 => {
                // a stable view of a native view of a stable iterator
                let d = stabby::Dyn::<'_, SBox<()>, Vt<T>>::from(SBox::new(stab));
                drive::<T>(stabby::Dyn::<'_, SBox<()>, Vt<T>>::from(SBox::new(d)), &ops)
            }
            _ => drive::<T>(stabby::Dyn::<'_, &mut (), stabby::vtable!(Iterator<Item = T>)>::from(&mut native), &ops),
        }
    };
    ck!(got == want, "items {got:x?} instead of {want:x?}");
    Ok(())
}
/// Made `Send` whatever it holds.
struct SendIt<T>(T);
unsafe impl<T> Send for SendIt<T> {}
impl<T: Iterator> Iterator for SendIt<T> {
    type Item = T::Item;
    fn next(&mut self) -> Option<T::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
/// `iters`, then everything dropped and released.
fn iters_all<T: V + stabby::abi::IDeterminantProvider<()> + stabby::IStable>(c: &mut Case) -> Res
where
    SOption<T>: stabby::IStable,
{
    iters::<T>(c)?;
    chk::end()
}

fn main() {
    vph::main(
        "C23",
        "closures of arity 0-9 over random states, argument and result types (49 signatures), called through 13 stable forms and natively with the same arguments; iterators (scripted items, gaps and size hints) driven by the same operations natively and through stable trait objects; non-trivial = at least one call, or one item",
        &[
            sub("calls", 2000000, 40000000, calls),
            sub("once", 800000, 16000000, once),
            sub("iter_u8", 150000, 3000000, iters_all::<u8>),
            sub("iter_u64", 150000, 3000000, iters_all::<u64>),
            sub("iter_tr", 150000, 3000000, iters_all::<Tr>),
            sub("iter_big", 150000, 3000000, iters_all::<TrBig>),
            sub("iter_niche", 150000, 3000000, iters_all::<TrNiche>),
            sub("iter_al64", 150000, 3000000, iters_all::<Tr64>),
            sub("iter_zst", 150000, 3000000, iters_all::<TrZ>),
            sub("iter_box", 150000, 3000000, iters_all::<SBox<u32>>),
            sub("iter_string", 150000, 3000000, iters_all::<SString>),
            sub("iter_ref", 150000, 3000000, iters_all::<&'static u8>),
            sub("iter_option", 150000, 3000000, iters_all::<SOption<u32>>),
            sub("iter_tuple", 150000, 3000000, iters_all::<STup>),
            sub("iter_bool", 150000, 3000000, iters_all::<bool>),
            sub("iter_f64", 150000, 3000000, iters_all::<f64>),
        ],
        &[],
    )
}
