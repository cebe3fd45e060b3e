//! C25: accessing a value as its stable (or standard) counterpart exposes and updates the value itself.
#![recursion_limit = "1024"]
use stabby::abi::as_mut::{IGuardMut, IGuardRef};
use stabby::abi::{AccessAs, IDeterminantProvider, IStable};
use stabby::alloc::single_or_vec::SingleOrVec;
use stabby::boxed::{BoxedSlice, BoxedStr};
use stabby::slice::{Slice, SliceMut};
use stabby::str::{Str, StrMut};
use stabby::string::String as SString;
use stabby::time::{Duration as SDuration, Instant as SInstant, SystemTime as SSystemTime};
use stabby::vec::Vec as SVec;
use std::alloc::{GlobalAlloc, Layout, System};
use std::fmt::Debug;
use std::any::TypeId;
use std::cell::Cell;
use std::time::{Duration, Instant, SystemTime};
use vph::chk::{self, Chk, ChkR, ChkZ, TA};
use vph::track::*;
use vph::*;
type SOpt<T> = stabby::option::Option<T>;
type SRes<T, E> = stabby::result::Result<T, E>;

/// Counts the blocks of strings.
struct Count;
thread_local! {
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static FREED: Cell<usize> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() == 1 {
            BLOCKS.set(BLOCKS.get() + 1);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() == 1 {
            BLOCKS.set(BLOCKS.get() - 1);
            FREED.set(FREED.get() + 1);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNT: Count = Count;

/// A value with a model, and random edits of both.
trait V: Sized + 'static {
    type M: Clone + PartialEq + Debug;
    fn mk(c: &mut Case) -> (Self, Self::M);
    fn m(&self) -> Self::M;
    fn edit(&mut self, c: &mut Case, m: &mut Self::M) {
        replace(self, c, m)
    }
    /// Conversions of shared views leave the storage alone (others are listed findings).
    fn sharable<B: 'static>(&self) -> bool {
        true
    }
}
fn replace<T: V>(t: &mut T, c: &mut Case, m: &mut T::M) {
    let (v, n) = T::mk(c);
    if c.bool() {
        *t = v;
    } else {
        drop(core::mem::replace(t, v));
    }
    *m = n;
}
macro_rules! leaf { ($($t:ty)*) => { $(impl V for $t {
    type M = u32;
    fn mk(c: &mut Case) -> (Self, u32) {
        let v = <$t as El>::new(c.range(1, 90) as u32);
        let m = v.val();
        (v, m)
    }
    fn m(&self) -> u32 { self.val() }
    fn edit(&mut self, c: &mut Case, m: &mut u32) {
        if c.bool() { return replace(self, c, m); }
        self.set(c.range(1, 90) as u32);
        *m = self.val();
    }
})* } }
leaf!(Tr TrBig TrNiche Tr16 Tr64 TrZ u8 u16 u128);
macro_rules! copy { ($($t:ty: |$c:ident| $e:expr;)*) => { $(impl V for $t {
    type M = $t;
    fn mk($c: &mut Case) -> (Self, $t) { let v = $e; (v, v) }
    fn m(&self) -> $t { *self }
})* } }
copy! {
    bool: |c| c.bool();
    (): |_c| ();
    core::num::NonZeroU8: |c| core::num::NonZeroU8::new(c.range(1, 255) as u8).unwrap();
    core::num::NonZeroU64: |c| core::num::NonZeroU64::new(c.edge64(64).max(1)).unwrap();
    &'static u32: |c| c.pick(&[&1, &2, &3]);
    Str<'static>: |c| Str::new(*c.pick(&["", "a", "bc"]));
    &'static str: |c| *c.pick(&["", "a", "bc", "dé"]);
    &'static [u16]: |c| *c.pick(&[&[][..], &[1], &[2, 3, 4]]);
    Slice<'static, u16>: |c| Slice::from(*c.pick(&[&[][..], &[1], &[2, 3, 4]]));
}
macro_rules! vecs { ($($n:ident [$($g:tt)*] <$E:ty, $A:ty> ($push:expr))*) => { $(
    impl<$($g)*> V for $n<$E, $A> {
        type M = Vec<u32>;
        fn mk(c: &mut Case) -> (Self, Vec<u32>) {
            let n = *c.pick(&[0usize, 1, 1, 2, 3, 5]);
            let mut v = SVec::<$E, $A>::with_capacity_in(c.usize(4), <$A as TA>::mk(c.below(5) as u32));
            let mut m = vec![];
            for _ in 0..n {
                v.push(<$E as El>::new(c.range(1, 90) as u32));
                m.push(v[v.len() - 1].val());
            }
            // through `Self`'s own conversion, or element by element
            (mkseq!($n, v, c, $A), m)
        }
        fn m(&self) -> Vec<u32> {
            self.as_slice().iter().map(|e| e.val()).collect()
        }
        fn edit(&mut self, c: &mut Case, m: &mut Vec<u32>) {
            match c.below(6) {
                0 => replace(self, c, m),
                1 | 2 => {
                    let e = <$E as El>::new(c.range(1, 90) as u32);
                    let x = e.val();
                    let push: fn(&mut Self, $E) -> bool = $push;
                    if push(self, e) {
                        m.push(x);
                    }
                }
                3 => {
                    seqtrunc!($n, self, m, c);
                }
                _ => {
                    if !m.is_empty() {
                        let i = c.usize(m.len());
                        let e = <$E as El>::new(c.range(1, 90) as u32);
                        m[i] = e.val();
                        self.as_slice_mut()[i] = e;
                    }
                }
            }
        }
        fn sharable<B: 'static>(&self) -> bool {
            sharable!($n, self)
        }
    }
)* } }
macro_rules! mkseq {
    (SVec, $v:ident, $c:ident, $a:ty) => {{
        let _ = &$c;
        $v
    }};
    (BoxedSlice, $v:ident, $c:ident, $a:ty) => {{
        let _ = &$c;
        $v.into()
    }};
    (SingleOrVec, $v:ident, $c:ident, $a:ty) => {
        if $c.bool() {
            $v.into()
        } else {
            let mut s = SingleOrVec::new_in(<$a as TA>::mk($c.below(5) as u32));
            let mut w = $v;
            let mut all = vec![];
            while let Some(e) = w.pop() {
                all.push(e);
            }
            for e in all.into_iter().rev() {
                s.push(e);
            }
            s
        }
    };
}
macro_rules! seqtrunc {
    (BoxedSlice, $s:ident, $m:ident, $c:ident) => {
        if $m.len() > 1 {
            $s.as_slice_mut().reverse();
            $m.reverse();
        }
    };
    ($n:ident, $s:ident, $m:ident, $c:ident) => {{
        let k = $c.usize($m.len() + 1);
        $s.truncate(k);
        $m.truncate(k);
    }};
}
macro_rules! sharable {
    (SingleOrVec, $s:ident) => {
        $s.len() != 1
    };
    ($n:ident, $s:ident) => {
        true
    };
}
vecs! {
    SVec [E: El, A: TA] <E, A> (|v, e| { v.push(e); true })
    BoxedSlice [E: El, A: TA] <E, A> (|v, e| v.try_push(e).is_ok())
    SingleOrVec [] <Tr, Chk> (|v, e| { v.push(e); true })
    SingleOrVec [] <Tr, ChkR> (|v, e| { v.push(e); true })
    SingleOrVec [] <TrZ, ChkZ> (|v, e| { v.push(e); true })
    SingleOrVec [] <TrBig, ChkZ> (|v, e| { v.push(e); true })
}

fn text(c: &mut Case) -> String {
    let n = *c.pick(&[0usize, 1, 2, 5, 17]);
    (0..n).map(|_| *c.pick(&['a', 'B', 'é', '😀', '\0'])).collect()
}
impl V for String {
    type M = String;
    fn mk(c: &mut Case) -> (Self, String) {
        let t = text(c);
        let mut s = String::with_capacity(t.len() + c.usize(9));
        s.push_str(&t);
        (s, t)
    }
    fn m(&self) -> String {
        self.clone()
    }
    fn edit(&mut self, c: &mut Case, m: &mut String) {
        match c.below(4) {
            0 => replace(self, c, m),
            1 => {
                let t = text(c);
                self.push_str(&t);
                m.push_str(&t);
            }
            2 => {
                self.pop();
                m.pop();
            }
            _ => {
                self.make_ascii_uppercase();
                m.make_ascii_uppercase();
            }
        }
    }
    fn sharable<B: 'static>(&self) -> bool {
        false
    }
}
impl<A: TA> V for SString<A> {
    type M = String;
    fn mk(c: &mut Case) -> (Self, String) {
        let t = text(c);
        let mut s = SString::default();
        s += &*t;
        (s, t)
    }
    fn m(&self) -> String {
        self.as_str().into()
    }
    fn edit(&mut self, c: &mut Case, m: &mut String) {
        match c.below(3) {
            0 => replace(self, c, m),
            1 => {
                let t = text(c);
                *self += &*t;
                m.push_str(&t);
            }
            _ => {
                self.as_str_mut().make_ascii_uppercase();
                m.make_ascii_uppercase();
            }
        }
    }
    fn sharable<B: 'static>(&self) -> bool {
        TypeId::of::<B>() != TypeId::of::<String>()
    }
}
impl<A: TA> V for BoxedStr<A> {
    type M = String;
    fn mk(c: &mut Case) -> (Self, String) {
        let (s, t) = SString::mk(c);
        (s.into(), t)
    }
    fn m(&self) -> String {
        self.as_str().into()
    }
    fn edit(&mut self, c: &mut Case, m: &mut String) {
        if c.bool() {
            return replace(self, c, m);
        }
        self.as_str_mut().make_ascii_uppercase();
        m.make_ascii_uppercase();
    }
}
impl V for Duration {
    type M = (u64, u32);
    fn mk(c: &mut Case) -> (Self, Self::M) {
        let (s, n) = (c.edge64(64), *c.pick(&[0u32, 1, 999, 1000, 500_000_000, 999_999_999]));
        (Duration::new(s, n), (s, n))
    }
    fn m(&self) -> Self::M {
        (self.as_secs(), self.subsec_nanos())
    }
}
impl V for SDuration {
    type M = (u64, u32);
    fn mk(c: &mut Case) -> (Self, Self::M) {
        let (_, m) = Duration::mk(c);
        (SDuration::new(m.0, m.1), m)
    }
    fn m(&self) -> Self::M {
        (self.secs, self.nanos)
    }
    fn edit(&mut self, c: &mut Case, m: &mut Self::M) {
        match c.below(3) {
            0 => replace(self, c, m),
            1 => {
                self.secs = c.edge64(64);
                m.0 = self.secs;
            }
            _ => {
                self.nanos = c.below(1_000_000_000) as u32;
                m.1 = self.nanos;
            }
        }
    }
}
fn base() -> Instant {
    static B: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    *B.get_or_init(Instant::now)
}
fn some_time(c: &mut Case) -> Duration {
    Duration::new(c.edge64(62), c.below(1_000_000_000) as u32)
}
impl V for SystemTime {
    type M = Duration;
    fn mk(c: &mut Case) -> (Self, Duration) {
        let d = some_time(c);
        (SystemTime::UNIX_EPOCH + d, d)
    }
    fn m(&self) -> Duration {
        self.duration_since(SystemTime::UNIX_EPOCH).unwrap()
    }
    fn edit(&mut self, c: &mut Case, m: &mut Duration) {
        if c.bool() {
            return replace(self, c, m);
        }
        let d = Duration::new(c.below(9), c.below(1_000_000_000) as u32);
        *self += d;
        *m += d;
    }
}
impl V for SSystemTime {
    type M = Duration;
    fn mk(c: &mut Case) -> (Self, Duration) {
        let (s, m) = SystemTime::mk(c);
        (s.into(), m)
    }
    fn m(&self) -> Duration {
        SystemTime::from(*self).m()
    }
    fn edit(&mut self, c: &mut Case, m: &mut Duration) {
        if c.bool() {
            return replace(self, c, m);
        }
        let d = Duration::new(c.below(9), c.below(1_000_000_000) as u32);
        *self += d.into();
        *m += d;
    }
}
impl V for Instant {
    type M = Duration;
    fn mk(c: &mut Case) -> (Self, Duration) {
        let d = Duration::new(c.edge64(60), c.below(1_000_000_000) as u32);
        (base() + d, d)
    }
    fn m(&self) -> Duration {
        *self - base()
    }
}
impl V for SInstant {
    type M = Duration;
    fn mk(c: &mut Case) -> (Self, Duration) {
        let (s, m) = Instant::mk(c);
        (s.into(), m)
    }
    fn m(&self) -> Duration {
        Instant::from(*self).m()
    }
}
impl<X: V> V for Option<X> {
    type M = Option<X::M>;
    fn mk(c: &mut Case) -> (Self, Self::M) {
        if c.chance(1, 3) {
            return (None, None);
        }
        let (x, m) = X::mk(c);
        (Some(x), Some(m))
    }
    fn m(&self) -> Self::M {
        self.as_ref().map(|x| x.m())
    }
    fn edit(&mut self, c: &mut Case, m: &mut Self::M) {
        match (c.below(5), self.as_mut()) {
            (0, _) => replace(self, c, m),
            (1, _) => {
                let t = self.take();
                assert_eq!(t.map(|t| t.m()), m.take());
            }
            (2, _) => {
                let (x, n) = X::mk(c);
                assert_eq!(self.replace(x).map(|t| t.m()), m.replace(n));
            }
            (_, Some(x)) => x.edit(c, m.as_mut().unwrap()),
            _ => {}
        }
    }
}
impl<X: V + IStable + IDeterminantProvider<()>> V for SOpt<X> {
    type M = Option<X::M>;
    fn mk(c: &mut Case) -> (Self, Self::M) {
        let (v, m) = Option::<X>::mk(c);
        (match v { Some(v) => SOpt::Some(v), None => SOpt::None() }, m)
    }
    fn m(&self) -> Self::M {
        self.match_ref(|x| Some(x.m()), || None)
    }
    fn edit(&mut self, c: &mut Case, m: &mut Self::M) {
        match c.below(4) {
            0 => replace(self, c, m),
            1 => {
                let t = core::mem::take(self);
                assert_eq!(t.m(), m.take());
            }
            _ => {
                if let Some(mut x) = self.as_mut() {
                    x.edit(c, m.as_mut().unwrap())
                }
            }
        }
    }
}
impl<X: V, Y: V> V for Result<X, Y> {
    type M = Result<X::M, Y::M>;
    fn mk(c: &mut Case) -> (Self, Self::M) {
        if c.bool() {
            let (x, m) = X::mk(c);
            return (Ok(x), Ok(m));
        }
        let (x, m) = Y::mk(c);
        (Err(x), Err(m))
    }
    fn m(&self) -> Self::M {
        match self {
            Ok(x) => Ok(x.m()),
            Err(y) => Err(y.m()),
        }
    }
    fn edit(&mut self, c: &mut Case, m: &mut Self::M) {
        if c.chance(1, 3) {
            return replace(self, c, m);
        }
        match (self, m) {
            (Ok(x), Ok(m)) => x.edit(c, m),
            (Err(x), Err(m)) => x.edit(c, m),
            _ => panic!("variants differ"),
        }
    }
}
impl<X: V + IStable + IDeterminantProvider<Y>, Y: V + IStable> V for SRes<X, Y> {
    type M = Result<X::M, Y::M>;
    fn mk(c: &mut Case) -> (Self, Self::M) {
        let (v, m) = Result::<X, Y>::mk(c);
        (match v { Ok(v) => SRes::Ok(v), Err(v) => SRes::Err(v) }, m)
    }
    fn m(&self) -> Self::M {
        self.match_ref(|x| Ok(x.m()), |y| Err(y.m()))
    }
    fn edit(&mut self, c: &mut Case, m: &mut Self::M) {
        if c.chance(1, 3) {
            return replace(self, c, m);
        }
        self.match_mut_ctx((c, m), |(c, m), mut x| x.edit(c, m.as_mut().ok().expect("variants differ")), |(c, m), mut x| x.edit(c, m.as_mut().err().expect("variants differ")))
    }
}

const DEPTH: u32 = 3;
/// What the user does while holding views; may panic.
fn shared<A, B>(a: &A, c: &mut Case, m: &A::M, depth: u32) -> Res
where
    A: V + IGuardRef<B>,
    B: V<M = A::M> + IGuardRef<A>,
{
    ck_eq!(a.m(), *m, "the original, before a shared view");
    if !a.sharable::<B>() {
        return Ok(());
    }
    op!(c, "shared view {}", DEPTH - depth);
    let g = a.ref_as::<B>();
    ck_eq!(g.m(), *m, "through a shared view");
    user(K_CALL);
    let h = a.ref_as::<B>();
    ck_eq!(h.m(), *m, "through a second shared view");
    ck_eq!(a.m(), *m, "the original, under shared views");
    if depth > 0 && c.bool() {
        shared::<B, A>(&g, c, m, depth - 1)?;
    }
    if c.bool() {
        drop(g);
        ck_eq!(h.m(), *m, "through the second shared view after the first ended");
    } else {
        drop(h);
        ck_eq!(g.m(), *m, "through the first shared view after the second ended");
        drop(g);
    }
    user(K_CALL);
    ck_eq!(a.m(), *m, "the original, after shared views");
    Ok(())
}
fn exclusive<A, B>(a: &mut A, c: &mut Case, m: &mut A::M, depth: u32) -> Res
where
    A: V + IGuardMut<B>,
    B: V<M = A::M> + IGuardMut<A>,
{
    op!(c, "mutable view {}", DEPTH - depth);
    let mut g = a.mut_as::<B>();
    ck_eq!(g.m(), *m, "through a fresh mutable view");
    user(K_CALL);
    for _ in 0..c.range(0, 3) {
        match c.below(4) {
            0 if depth > 0 => exclusive::<B, A>(&mut g, c, m, depth - 1)?,
            1 => shared::<B, A>(&g, c, m, depth.min(1))?,
            _ => {
                g.edit(c, m);
                op!(c, "edit to {m:?}");
                user(K_CALL);
            }
        }
        ck_eq!(g.m(), *m, "through a mutable view");
        user(K_CALL);
    }
    Ok(())
}
fn pair<A, B>(c: &mut Case) -> Res
where
    A: V + IGuardMut<B>,
    B: V<M = A::M> + IGuardMut<A>,
{
    if last_panic().is_empty() {
        // buffers that stay
        let _ = catch(|| panic!("warm-up"));
        drop(<Tr as El>::new(1));
    }
    reset();
    chk::begin();
    let (blocks, handles) = (BLOCKS.get(), chk::handles());
    pair_in::<A, B>(c)?;
    ck_eq!(chk::handles() - handles, 0, "allocator handles");
    if !c.verbose {
        ck_eq!(BLOCKS.get() - blocks, 0, "blocks of standard strings left");
    }
    chk::end()?;
    finish()
}
fn pair_in<A, B>(c: &mut Case) -> Res
where
    A: V + IGuardMut<B>,
    B: V<M = A::M> + IGuardMut<A>,
{
    let (mut a, mut m) = A::mk(c);
    op!(c, "start with {m:?}");
    let mut changed = 0;
    for _ in 0..c.range(1, 5) {
        let before = m.clone();
        match c.below(6) {
            0 => shared::<A, B>(&a, c, &m, DEPTH)?,
            1 => {
                a.edit(c, &mut m);
                op!(c, "edit the original to {m:?}");
            }
            n => {
                let inject = n == 2;
                if inject {
                    arm_panic(c.below(9) as i64, K_CALL);
                }
                let r = catch(|| exclusive::<A, B>(&mut a, c, &mut m, DEPTH));
                match r {
                    Ok(r) => {
                        disarm();
                        r?
                    }
                    Err(e) => {
                        ck!(disarm(), "unexpected {e}");
                        op!(c, "panicked");
                    }
                }
                changed += (before != m) as u32;
            }
        }
        check()?;
        ck_eq!(a.m(), m, "the original, after the view");
    }
    c.nontrivial = changed > 0;
    Ok(())
}
/// Borrowed slices: the view is of the same memory.
fn borrowed(c: &mut Case) -> Res {
    let mut v: Vec<u16> = (0..c.range(0, 6)).map(|_| c.below(9) as u16).collect();
    let mut m = v.clone();
    let (p, n) = (v.as_ptr(), v.len());
    let mut t = text(c);
    let mut tm = t.clone();
    op!(c, "{v:?} {t:?}");
    {
        let mut s: &mut [u16] = &mut v;
        let mut done = 0;
        let panics = c.chance(1, 3);
        let r = catch(|| -> Res {
            let mut g = s.mut_as::<SliceMut<u16>>();
            ck_eq!((g.as_ptr(), g.len()), (p, n), "&mut [_] as SliceMut");
            for k in 0..c.range(1, 3) {
                if n > 0 {
                    let (i, x) = (c.usize(n), c.below(9) as u16);
                    g[i] = x;
                    m[i] = x;
                    done += 1;
                }
                if k == 1 && n > 0 {
                    let mut h = (*g).mut_as::<&mut [u16]>();
                    h[0] = 77;
                    m[0] = 77;
                }
                if panics {
                    user_panic();
                }
            }
            Ok(())
        });
        ck_eq!(r.is_err(), panics, "panics");
        if let Ok(r) = r {
            r?;
        }
        ck_eq!((s.as_ptr(), &*s), (p, &m[..]), "the slice, after the view");
        c.nontrivial = done > 0;
        if c.bool() && n > 0 {
            // narrow the borrow itself through the view
            {
                let mut g = s.mut_as::<SliceMut<u16>>();
                g.len = n - 1;
            }
            ck_eq!((s.as_ptr(), s.len()), (p, n - 1), "the slice, narrowed through its view");
        }
    }
    ck_eq!(v, m, "the elements");
    {
        let (p, n) = (t.as_ptr(), t.len());
        let mut s: &mut str = &mut t;
        {
            let mut g = s.mut_as::<StrMut>();
            ck_eq!((g.as_ptr(), g.len()), (p, n), "&mut str as StrMut");
            g.make_ascii_uppercase();
            tm.make_ascii_uppercase();
        }
        ck_eq!((s.as_ptr(), &*s), (p, &*tm), "the text, after the view");
    }
    ck_eq!(t, tm, "the text");
    Ok(())
}
fn user_panic() {
    panic!("injected")
}

/// Listed finding: shared views that convert by moving to other storage.
fn ref_as_std_string() -> Res {
    let s = core::mem::ManuallyDrop::new(String::from("some text"));
    let f = FREED.get();
    let g = (*s).ref_as::<SString>();
    let freed = FREED.get() - f;
    core::mem::forget(g);
    ck_eq!(freed, 0, "blocks freed by taking a shared view of a String as a stable String");
    Ok(())
}
fn ref_as_stable_string() -> Res {
    reset();
    chk::begin();
    let s = core::mem::ManuallyDrop::new(SString::<ChkZ>::from("some text"));
    let g = (*s).ref_as::<String>();
    core::mem::forget(g);
    ck_eq!(chk::live(), 1, "blocks of the stable String left by taking a shared view of it as a String");
    Ok(())
}
fn ref_as_single() -> Res {
    reset();
    chk::begin();
    let mut s = SingleOrVec::<u8, ChkZ>::new_in(ChkZ());
    s.push(1);
    drop(s.ref_as::<SVec<u8, ChkZ>>());
    ck_eq!(chk::live(), 0, "blocks left after a shared view of a SingleOrVec of one element as a Vec");
    Ok(())
}
fn forgotten() -> Res {
    reset();
    chk::begin();
    let mut v = SVec::<u8, ChkZ>::new_in(ChkZ());
    v.push(1);
    let mut o = core::mem::ManuallyDrop::new(Some(v));
    {
        let mut g = (*o).mut_as::<SOpt<SVec<u8, ChkZ>>>();
        *g = SOpt::None();
        core::mem::forget(g);
    }
    let live = o.as_ref().is_none_or(|v| chk::covers(v.as_slice().as_ptr() as usize, 1));
    ck!(live, "after its view was emptied and forgotten, the original refers to released memory");
    Ok(())
}

fn main() {
    let _ = track::alive();
    macro_rules! s { ($k:expr; $($a:ty => $b:ty;)*) => { vec![$(
        sub(stringify!($a as $b), $k * 3, $k * 60, pair::<$a, $b>),
        sub(stringify!($b as $a), $k * 3, $k * 60, pair::<$b, $a>),
    )*] } }
    let mut subs = s! { 20000;
        Option<Tr> => SOpt<Tr>;
        Option<TrNiche> => SOpt<TrNiche>;
        Option<TrBig> => SOpt<TrBig>;
        Option<Tr64> => SOpt<Tr64>;
        Option<TrZ> => SOpt<TrZ>;
        Option<u8> => SOpt<u8>;
        Option<u128> => SOpt<u128>;
        Option<bool> => SOpt<bool>;
        Option<core::num::NonZeroU8> => SOpt<core::num::NonZeroU8>;
        Option<&'static u32> => SOpt<&'static u32>;
        Option<()> => SOpt<()>;
        Option<SVec<Tr, Chk>> => SOpt<SVec<Tr, Chk>>;
        Option<SVec<u16, ChkR>> => SOpt<SVec<u16, ChkR>>;
        Option<SOpt<TrNiche>> => SOpt<SOpt<TrNiche>>;
        Option<SRes<Tr, Str<'static>>> => SOpt<SRes<Tr, Str<'static>>>;
        Option<SString<ChkZ>> => SOpt<SString<ChkZ>>;
        Option<SDuration> => SOpt<SDuration>;
        Result<Tr, TrBig> => SRes<Tr, TrBig>;
        Result<TrNiche, ()> => SRes<TrNiche, ()>;
        Result<(), TrNiche> => SRes<(), TrNiche>;
        Result<u8, core::num::NonZeroU64> => SRes<u8, core::num::NonZeroU64>;
        Result<Tr16, u8> => SRes<Tr16, u8>;
        Result<SVec<Tr, ChkR>, SString<ChkZ>> => SRes<SVec<Tr, ChkR>, SString<ChkZ>>;
        Result<SOpt<Tr>, SRes<bool, TrZ>> => SRes<SOpt<Tr>, SRes<bool, TrZ>>;
        Duration => SDuration;
        SystemTime => SSystemTime;
        Instant => SInstant;
        SVec<Tr, Chk> => BoxedSlice<Tr, Chk>;
        SVec<Tr, ChkR> => BoxedSlice<Tr, ChkR>;
        SVec<TrZ, Chk> => BoxedSlice<TrZ, Chk>;
        SVec<Tr64, ChkZ> => BoxedSlice<Tr64, ChkZ>;
        SVec<Tr, Chk> => SingleOrVec<Tr, Chk>;
        SVec<Tr, ChkR> => SingleOrVec<Tr, ChkR>;
        SVec<TrZ, ChkZ> => SingleOrVec<TrZ, ChkZ>;
        SVec<TrBig, ChkZ> => SingleOrVec<TrBig, ChkZ>;
        SString<Chk> => BoxedStr<Chk>;
        SString<ChkR> => BoxedStr<ChkR>;
        SString<ChkZ> => String;
        SString<ChkR> => String;
    };
    subs.push(sub("Vec as itself", 10000, 200000, pair::<SVec<Tr, ChkR>, SVec<Tr, ChkR>>));
    subs.push(sub("borrowed", 60000, 1200000, borrowed));
    vph::main(
        "C25",
        "random histories (1-5 phases on one value) of shared and mutable views of the value as its counterpart, nested up to 4 deep in alternating representations, edits through the views and directly, and panics injected while views are held; non-trivial = the value was changed through a view",
        &subs,
        &[
            Probe { id: "ref-as-std-string", f: ref_as_std_string },
            Probe { id: "ref-as-stable-string", f: ref_as_stable_string },
            Probe { id: "ref-as-single", f: ref_as_single },
            Probe { id: "forgotten-view", f: forgotten },
        ],
    )
}
