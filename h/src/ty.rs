//! Values of arbitrary stable types: generation, comparison, mutation, and the facts the types publish.
use crate::engine::Case;
use crate::track;
use stabby::abi::enums::IDeterminantProvider;
use stabby::abi::istable::{IBitMask, ISaturatingAdd, NotPod, SaturatingAddValue};
use stabby::abi::typenum2::Bit;
use stabby::abi::Unsigned;
use stabby::IStable;
use std::any::{Any, TypeId};
use std::cell::{RefCell, UnsafeCell};
use std::collections::HashMap;
use std::mem::{ManuallyDrop, MaybeUninit};

/// A stable type whose values the checks can create, compare and edit.
pub trait V: IStable + 'static {
    fn gen(c: &mut Case) -> Self;
    /// Same value, as seen through the type's own interface.
    fn same(&self, o: &Self) -> bool;
    /// An independent value that is `same`.
    fn dup(&self) -> Self;
    /// Edit in place.
    fn put(&mut self, c: &mut Case);
    /// Edit through a shared reference, where the type allows it.
    fn poke(&self, _c: &mut Case) {}
}

thread_local! {
    static UB: RefCell<HashMap<TypeId, &'static [(usize, u8)]>> = RefCell::new(HashMap::new());
}
/// The spare bits that `T` publishes, in order.
pub fn ub<T: IStable + 'static>() -> &'static [(usize, u8)] {
    UB.with(|m| {
        *m.borrow_mut().entry(TypeId::of::<T>()).or_insert_with(|| {
            let s = format!("{:?}", <T::UnusedBits as IBitMask>::TUPLE);
            let nums: Vec<usize> = s
                .split(|c: char| !c.is_ascii_digit())
                .filter(|s| !s.is_empty())
                .map(|s| s.parse().unwrap())
                .collect();
            let v: Vec<(usize, u8)> = nums.chunks(2).map(|c| (c[0], c[1] as u8)).collect();
            for (off, _) in &v {
                if *off >= std::mem::size_of::<T>() {
                    track::error(format!("{} publishes spare bits at byte {off} of its {}", tyname::<T>(), std::mem::size_of::<T>()));
                }
            }
            v.leak()
        })
    })
}
pub fn tyname<T>() -> &'static str {
    std::any::type_name::<T>()
}
pub fn hx<T: IStable>() -> u8 {
    match <T::HasExactlyOneNiche as ISaturatingAdd>::VALUE {
        SaturatingAddValue::B0 => 0,
        SaturatingAddValue::B1 => 1,
        SaturatingAddValue::Saturator => 2,
    }
}
pub fn ind<T: IStable>() -> bool {
    <T::ContainsIndirections as Bit>::BOOL
}
pub fn pub_size<T: IStable>() -> usize {
    T::Size::USIZE
}
pub fn pub_align<T: IStable>() -> usize {
    <T::Align as Unsigned>::USIZE
}

/// Overwrites bits that `T` publishes as unused.
pub fn noise<T: V>(t: &mut T, c: &mut Case) {
    let bits = ub::<T>();
    if bits.is_empty() {
        return;
    }
    let mode = c.below(4);
    let p = t as *mut T as *mut u8;
    for (off, mask) in bits {
        if *off >= std::mem::size_of::<T>() {
            continue;
        }
        let r = match mode {
            0 => 0xFF,
            1 => 0,
            _ => c.below(256) as u8,
        };
        // SAFETY: inside `t`; the bytes may be padding, hence volatile accesses of plain bytes.
        unsafe {
            let q = p.add(*off);
            let old = std::ptr::read_volatile(q);
            std::ptr::write_volatile(q, (old & !mask) | (r & mask));
        }
    }
}
/// A value whose spare bits are arbitrary.
pub fn gen_noisy<T: V>(c: &mut Case) -> T {
    let mut t = T::gen(c);
    noise(&mut t, c);
    t
}
pub fn put_noisy<T: V>(t: &mut T, c: &mut Case) {
    match c.below(4) {
        0 => {
            let n = gen_noisy::<T>(c);
            drop(std::mem::replace(t, n));
        }
        1 => {
            // a bytewise overwrite, spare bits included
            let n = ManuallyDrop::new(gen_noisy::<T>(c));
            unsafe {
                std::ptr::drop_in_place(t);
                std::ptr::copy_nonoverlapping(&n as *const _ as *const u8, t as *mut T as *mut u8, std::mem::size_of::<T>());
            }
        }
        2 => {
            t.put(c);
            noise(t, c);
        }
        _ => t.put(c),
    }
}

/// Object-safe view of a [`V`].
pub trait DynV: Any {
    fn same_dyn(&self, o: &dyn DynV) -> bool;
    fn dup_dyn(&self) -> Box<dyn DynV>;
    fn put_dyn(&mut self, c: &mut Case);
    fn poke_dyn(&self, c: &mut Case);
    fn any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    fn addr(&self) -> usize;
}
impl<T: V> DynV for T {
    fn same_dyn(&self, o: &dyn DynV) -> bool {
        match o.any().downcast_ref::<T>() {
            Some(o) => self.same(o),
            None => false,
        }
    }
    fn dup_dyn(&self) -> Box<dyn DynV> {
        Box::new(self.dup())
    }
    fn put_dyn(&mut self, c: &mut Case) {
        put_noisy(self, c)
    }
    fn poke_dyn(&self, c: &mut Case) {
        self.poke(c)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn addr(&self) -> usize {
        self as *const T as usize
    }
}
pub fn unbox<T: 'static>(b: Box<dyn DynV>) -> T {
    *b.into_any().downcast::<T>().expect("payload type")
}

/// An enum with payloads, in stabby's representation or a native one.
pub trait E: V {
    const N: usize;
    /// Payload types with a value (units are `()`).
    fn gen_payload(i: usize, c: &mut Case) -> Box<dyn DynV>;
    fn make(i: usize, p: Box<dyn DynV>) -> Self;
    fn view<'a>(&'a self) -> (usize, &'a dyn DynV);
    fn view_ctx<'a>(&'a self, k: u64) -> (usize, &'a dyn DynV, u64);
    fn edit(&mut self, f: &mut dyn FnMut(usize, &mut dyn DynV));
    fn edit_ctx(&mut self, f: &mut dyn FnMut(usize, &mut dyn DynV));
    fn take(self) -> (usize, Box<dyn DynV>);
    fn take_ctx(self, k: u64) -> (usize, Box<dyn DynV>, u64);
    /// Discriminant of variant `i`, for natively represented enums.
    fn discr(_i: usize) -> Option<(usize, i128)> {
        None
    }
}
pub static UNIT: () = ();
pub fn e_gen<T: E>(c: &mut Case) -> T {
    let i = c.usize(T::N);
    let p = T::gen_payload(i, c);
    T::make(i, p)
}
pub fn e_same<T: E>(a: &T, b: &T) -> bool {
    let (i, p) = a.view();
    let (j, q) = b.view();
    i == j && p.same_dyn(q)
}
pub fn e_dup<T: E>(a: &T) -> T {
    let (i, p) = a.view();
    T::make(i, p.dup_dyn())
}
pub fn e_put<T: E>(a: &mut T, c: &mut Case) {
    match c.below(4) {
        0 => *a = e_gen(c),
        1 => a.edit(&mut |_, p| p.put_dyn(c)),
        _ => a.edit_ctx(&mut |_, p| p.put_dyn(c)),
    }
}

macro_rules! ints {
    ($($t:ty),*) => { $(impl V for $t {
        fn gen(c: &mut Case) -> Self {
            const B: u32 = <$t>::BITS;
            if B > 64 { c.edge128() as $t } else { c.edge64(B) as $t }
        }
        fn same(&self, o: &Self) -> bool { *self == *o }
        fn dup(&self) -> Self { *self }
        fn put(&mut self, c: &mut Case) { *self = <$t>::gen(c) }
    })* };
}
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
macro_rules! floats {
    ($($t:ty: $u:ty),*) => { $(impl V for $t {
        fn gen(c: &mut Case) -> Self { <$t>::from_bits(<$u>::gen(c)) }
        fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) }
        fn dup(&self) -> Self { *self }
        fn put(&mut self, c: &mut Case) { *self = <$t>::gen(c) }
    })* };
}
floats!(f32: u32, f64: u64);
macro_rules! nz {
    ($($z:ident: $t:ty),*) => { $(impl V for std::num::$z {
        fn gen(c: &mut Case) -> Self {
            Self::new(<$t>::gen(c)).unwrap_or(Self::MAX)
        }
        fn same(&self, o: &Self) -> bool { *self == *o }
        fn dup(&self) -> Self { *self }
        fn put(&mut self, c: &mut Case) { *self = Self::gen(c) }
    })* };
}
nz!(NonZeroU8: u8, NonZeroU16: u16, NonZeroU32: u32, NonZeroU64: u64, NonZeroU128: u128, NonZeroUsize: usize,
    NonZeroI8: i8, NonZeroI16: i16, NonZeroI32: i32, NonZeroI64: i64, NonZeroI128: i128, NonZeroIsize: isize);
macro_rules! nonmax {
    ($($z:ident: $t:ty),*) => { $(impl V for stabby::abi::num::$z {
        fn gen(c: &mut Case) -> Self { Self::new(<$t>::gen(c)).unwrap_or(Self::new(7).unwrap()) }
        fn same(&self, o: &Self) -> bool { self.get() == o.get() }
        fn dup(&self) -> Self { *self }
        fn put(&mut self, c: &mut Case) { *self = Self::gen(c) }
    })* };
}
nonmax!(NonMaxU8: u8, NonMaxU16: u16, NonMaxU32: u32, NonMaxU64: u64, NonMaxU128: u128, NonMaxUsize: usize);
macro_rules! nonx {
    ($($z:ident<$x:literal>: $t:ty),*) => { $(impl V for stabby::abi::num::$z<{ $x }> {
        fn gen(c: &mut Case) -> Self { Self::new(<$t>::gen(c)).unwrap_or(Self::new(7).unwrap()) }
        fn same(&self, o: &Self) -> bool { self.get() == o.get() }
        fn dup(&self) -> Self { *self }
        fn put(&mut self, c: &mut Case) { *self = Self::gen(c) }
    })* };
}
nonx!(NonXU8<255>: u8, NonXU16<513>: u16, NonXU32<4096>: u32, NonXI8< -1>: i8, NonXI64< -5>: i64, NonXI16<0>: i16);
impl V for bool {
    fn gen(c: &mut Case) -> Self {
        c.bool()
    }
    fn same(&self, o: &Self) -> bool {
        *self == *o
    }
    fn dup(&self) -> Self {
        *self
    }
    fn put(&mut self, c: &mut Case) {
        *self = c.bool()
    }
}
impl V for std::cmp::Ordering {
    fn gen(c: &mut Case) -> Self {
        use std::cmp::Ordering::*;
        *c.pick(&[Less, Equal, Greater])
    }
    fn same(&self, o: &Self) -> bool {
        *self == *o
    }
    fn dup(&self) -> Self {
        *self
    }
    fn put(&mut self, c: &mut Case) {
        *self = Self::gen(c)
    }
}
impl V for () {
    fn gen(_: &mut Case) {}
    fn same(&self, _: &Self) -> bool {
        true
    }
    fn dup(&self) {}
    fn put(&mut self, _: &mut Case) {}
}
impl V for std::marker::PhantomPinned {
    fn gen(_: &mut Case) -> Self {
        Self
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
    fn dup(&self) -> Self {
        Self
    }
    fn put(&mut self, _: &mut Case) {}
}
impl<T: 'static> V for std::marker::PhantomData<T> {
    fn gen(_: &mut Case) -> Self {
        Self
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
    fn dup(&self) -> Self {
        Self
    }
    fn put(&mut self, _: &mut Case) {}
}
macro_rules! atomics {
    ($($a:ident: $t:ty),*) => { $(impl V for std::sync::atomic::$a {
        fn gen(c: &mut Case) -> Self { Self::new(<$t>::gen(c)) }
        fn same(&self, o: &Self) -> bool { self.load(std::sync::atomic::Ordering::SeqCst) == o.load(std::sync::atomic::Ordering::SeqCst) }
        fn dup(&self) -> Self { Self::new(self.load(std::sync::atomic::Ordering::SeqCst)) }
        fn put(&mut self, c: &mut Case) { *self.get_mut() = <$t>::gen(c) }
        fn poke(&self, c: &mut Case) { self.store(<$t>::gen(c), std::sync::atomic::Ordering::SeqCst) }
    })* };
}
atomics!(AtomicU8: u8, AtomicU16: u16, AtomicU32: u32, AtomicU64: u64, AtomicUsize: usize, AtomicI8: i8, AtomicI16: i16,
    AtomicI32: i32, AtomicI64: i64, AtomicIsize: isize, AtomicBool: bool);

/// Plain data that references point to.
pub trait Plain: V + Copy {}
impl<T: V + Copy> Plain for T {}
fn leak<T: V>(c: &mut Case) -> &'static mut T {
    Box::leak(Box::new(T::gen(c)))
}
impl<T: Plain> V for &'static T {
    fn gen(c: &mut Case) -> Self {
        pool(c)
    }
    fn same(&self, o: &Self) -> bool {
        std::ptr::eq(*self, *o)
    }
    fn dup(&self) -> Self {
        self
    }
    fn put(&mut self, c: &mut Case) {
        *self = pool(c)
    }
}
/// One shared leaked value per drawn index, so that edits of copies point to the same place.
fn pool<T: Plain>(c: &mut Case) -> &'static T {
    thread_local! {
        static POOL: RefCell<HashMap<(TypeId, u64), usize>> = RefCell::new(HashMap::new());
    }
    let k = c.below(4);
    let p = POOL.with(|m| *m.borrow_mut().entry((TypeId::of::<T>(), k)).or_insert_with(|| leak::<T>(&mut Case::from_seed(k)) as *mut T as usize));
    // SAFETY: leaked
    unsafe { &*(p as *const T) }
}
impl<T: Plain> V for &'static mut T {
    fn gen(c: &mut Case) -> Self {
        leak(c)
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
    fn dup(&self) -> Self {
        Box::leak(Box::new((**self).dup()))
    }
    fn put(&mut self, c: &mut Case) {
        if c.bool() {
            (**self).put(c)
        } else {
            *self = leak(c)
        }
    }
}
macro_rules! ptrs {
    ($($p:ty: $e:expr),*) => { $(impl<T: Plain> V for $p {
        fn gen(c: &mut Case) -> Self {
            #[allow(clippy::redundant_closure_call)]
            ($e)(pool::<T>(c) as *const T as *mut T, c.chance(1, 4))
        }
        fn same(&self, o: &Self) -> bool { *self == *o }
        fn dup(&self) -> Self { *self }
        fn put(&mut self, c: &mut Case) { *self = Self::gen(c) }
    })* };
}
ptrs!(*const T: |p: *mut T, null| if null { std::ptr::null::<T>() } else { p as *const T },
    *mut T: |p: *mut T, null| if null { std::ptr::null_mut::<T>() } else { p },
    std::ptr::NonNull<T>: |p: *mut T, _| std::ptr::NonNull::new(p).unwrap());
impl<T: Plain> V for std::sync::atomic::AtomicPtr<T> {
    fn gen(c: &mut Case) -> Self {
        Self::new(<*mut T>::gen(c))
    }
    fn same(&self, o: &Self) -> bool {
        self.load(std::sync::atomic::Ordering::SeqCst) == o.load(std::sync::atomic::Ordering::SeqCst)
    }
    fn dup(&self) -> Self {
        Self::new(self.load(std::sync::atomic::Ordering::SeqCst))
    }
    fn put(&mut self, c: &mut Case) {
        *self.get_mut() = <*mut T>::gen(c)
    }
    fn poke(&self, c: &mut Case) {
        self.store(<*mut T>::gen(c), std::sync::atomic::Ordering::SeqCst)
    }
}
macro_rules! fnptrs {
    ($($t:ty: $a:expr, $b:expr);*) => { $(impl V for $t {
        fn gen(c: &mut Case) -> Self { if c.bool() { $a } else { $b } }
        fn same(&self, o: &Self) -> bool { *self as usize == *o as usize }
        fn dup(&self) -> Self { *self }
        fn put(&mut self, c: &mut Case) { *self = Self::gen(c) }
    })* };
}
extern "C" fn f0() -> u8 {
    1
}
extern "C" fn f1() -> u8 {
    2
}
extern "C" fn g0(a: u8, b: u64) -> bool {
    a as u64 == b
}
extern "C" fn g1(a: u8, b: u64) -> bool {
    a as u64 != b
}
unsafe extern "C" fn h0(a: u32) -> u32 {
    a
}
unsafe extern "C" fn h1(a: u32) -> u32 {
    !a
}
fnptrs!(extern "C" fn() -> u8: f0, f1; extern "C" fn(u8, u64) -> bool: g0, g1; unsafe extern "C" fn(u32) -> u32: h0, h1);

impl<T: Plain> V for MaybeUninit<T> {
    fn gen(c: &mut Case) -> Self {
        MaybeUninit::new(T::gen(c))
    }
    fn same(&self, o: &Self) -> bool {
        unsafe { self.assume_init_ref().same(o.assume_init_ref()) }
    }
    fn dup(&self) -> Self {
        MaybeUninit::new(unsafe { self.assume_init_ref().dup() })
    }
    fn put(&mut self, c: &mut Case) {
        put_noisy(unsafe { self.assume_init_mut() }, c)
    }
}
impl<T: Plain> V for UnsafeCell<T> {
    fn gen(c: &mut Case) -> Self {
        UnsafeCell::new(T::gen(c))
    }
    fn same(&self, o: &Self) -> bool {
        unsafe { (*self.get()).same(&*o.get()) }
    }
    fn dup(&self) -> Self {
        UnsafeCell::new(unsafe { (*self.get()).dup() })
    }
    fn put(&mut self, c: &mut Case) {
        put_noisy(self.get_mut(), c)
    }
    fn poke(&self, c: &mut Case) {
        put_noisy(unsafe { &mut *self.get() }, c)
    }
}
impl<T: V> V for ManuallyDrop<T>
where
    T: Plain,
{
    fn gen(c: &mut Case) -> Self {
        ManuallyDrop::new(T::gen(c))
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
    fn dup(&self) -> Self {
        ManuallyDrop::new((**self).dup())
    }
    fn put(&mut self, c: &mut Case) {
        put_noisy(&mut **self, c)
    }
}
impl<T: V> V for NotPod<T> {
    fn gen(c: &mut Case) -> Self {
        NotPod(T::gen(c))
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
    fn dup(&self) -> Self {
        NotPod(self.0.dup())
    }
    fn put(&mut self, c: &mut Case) {
        put_noisy(&mut self.0, c)
    }
    fn poke(&self, c: &mut Case) {
        self.0.poke(c)
    }
}
impl<T: Plain> V for std::pin::Pin<&'static T> {
    fn gen(c: &mut Case) -> Self {
        std::pin::Pin::static_ref(pool(c))
    }
    fn same(&self, o: &Self) -> bool {
        std::ptr::eq(&**self, &**o)
    }
    fn dup(&self) -> Self {
        *self
    }
    fn put(&mut self, c: &mut Case) {
        *self = Self::gen(c)
    }
}
impl<T: V, const N: usize> V for [T; N]
where
    [T; N]: IStable,
{
    fn gen(c: &mut Case) -> Self {
        std::array::from_fn(|_| T::gen(c))
    }
    fn same(&self, o: &Self) -> bool {
        self.iter().zip(o).all(|(a, b)| a.same(b))
    }
    fn dup(&self) -> Self {
        std::array::from_fn(|i| self[i].dup())
    }
    fn put(&mut self, c: &mut Case) {
        if N > 0 {
            let i = c.usize(N);
            put_noisy(&mut self[i], c)
        }
    }
    fn poke(&self, c: &mut Case) {
        if N > 0 {
            self[c.usize(N)].poke(c)
        }
    }
}
impl<T: V> V for Option<T>
where
    Option<T>: IStable,
{
    fn gen(c: &mut Case) -> Self {
        if c.chance(2, 3) {
            Some(T::gen(c))
        } else {
            None
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
    fn dup(&self) -> Self {
        self.as_ref().map(|t| t.dup())
    }
    fn put(&mut self, c: &mut Case) {
        match self {
            Some(t) if c.bool() => t.put(c),
            _ => *self = Self::gen(c),
        }
    }
    fn poke(&self, c: &mut Case) {
        if let Some(t) = self {
            t.poke(c)
        }
    }
}
impl<A: V, B: V> V for Result<A, B>
where
    Result<A, B>: IStable,
{
    fn gen(c: &mut Case) -> Self {
        if c.bool() {
            Ok(A::gen(c))
        } else {
            Err(B::gen(c))
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a.same(b),
            _ => false,
        }
    }
    fn dup(&self) -> Self {
        match self {
            Ok(a) => Ok(a.dup()),
            Err(a) => Err(a.dup()),
        }
    }
    fn put(&mut self, c: &mut Case) {
        match self {
            Ok(t) if c.bool() => t.put(c),
            Err(t) if c.bool() => t.put(c),
            _ => *self = Self::gen(c),
        }
    }
    fn poke(&self, c: &mut Case) {
        match self {
            Ok(t) => t.poke(c),
            Err(t) => t.poke(c),
        }
    }
}
impl<A: V> V for Result<A, std::convert::Infallible> {
    fn gen(c: &mut Case) -> Self {
        Ok(A::gen(c))
    }
    fn same(&self, o: &Self) -> bool {
        self.as_ref().unwrap().same(o.as_ref().unwrap())
    }
    fn dup(&self) -> Self {
        Ok(self.as_ref().unwrap().dup())
    }
    fn put(&mut self, c: &mut Case) {
        put_noisy(self.as_mut().unwrap(), c)
    }
    fn poke(&self, c: &mut Case) {
        self.as_ref().unwrap().poke(c)
    }
}
impl<A: V + IDeterminantProvider<B>, B: V> V for stabby::result::Result<A, B> {
    fn gen(c: &mut Case) -> Self {
        if c.bool() {
            Self::Ok(gen_noisy(c))
        } else {
            Self::Err(gen_noisy(c))
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self.as_ref(), o.as_ref()) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a.same(b),
            _ => false,
        }
    }
    fn dup(&self) -> Self {
        self.match_ref(|a| Self::Ok(a.dup()), |b| Self::Err(b.dup()))
    }
    fn put(&mut self, c: &mut Case) {
        match c.below(4) {
            0 => *self = Self::gen(c),
            1 => {
                if let Some(mut g) = self.ok_mut() {
                    put_noisy(&mut *g, c)
                }
                if let Some(mut g) = self.err_mut() {
                    put_noisy(&mut *g, c)
                }
            }
            _ => self.match_mut_ctx(c, |c, mut g| put_noisy(&mut *g, c), |c, mut g| put_noisy(&mut *g, c)),
        }
    }
    fn poke(&self, c: &mut Case) {
        self.match_ref_ctx(c, |c, a| a.poke(c), |c, a| a.poke(c))
    }
}
impl<T: V + IDeterminantProvider<()>> V for stabby::option::Option<T> {
    fn gen(c: &mut Case) -> Self {
        if c.bool() {
            Self::Some(gen_noisy(c))
        } else {
            Self::None()
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self.as_ref(), o.as_ref()) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
    fn dup(&self) -> Self {
        self.match_ref(|a| Self::Some(a.dup()), Self::None)
    }
    fn put(&mut self, c: &mut Case) {
        match c.below(3) {
            0 => *self = Self::gen(c),
            1 => {
                if let Some(mut g) = self.as_mut() {
                    put_noisy(&mut *g, c)
                }
            }
            _ => self.match_mut_ctx(c, |c, mut g| put_noisy(&mut *g, c), |_| ()),
        }
    }
    fn poke(&self, c: &mut Case) {
        self.match_ref_ctx(c, |c, a| a.poke(c), |_| ())
    }
}
/// Implements [`V`] for a structure field by field.
#[macro_export]
macro_rules! vstruct {
    ([$($g:tt)*] $t:ty { $($f:tt),* } [$($w:tt)*]) => {
        impl<$($g)*> $crate::ty::V for $t where $($w)* {
            #[allow(unused)]
            fn gen(c: &mut $crate::engine::Case) -> Self { Self { $($f: $crate::ty::V::gen(c)),* } }
            #[allow(unused)]
            fn same(&self, o: &Self) -> bool { true $(&& $crate::ty::V::same(&self.$f, &o.$f))* }
            fn dup(&self) -> Self { Self { $($f: $crate::ty::V::dup(&self.$f)),* } }
            #[allow(unused)]
            fn put(&mut self, c: &mut $crate::engine::Case) {
                const N: u64 = 0 $(+ { let _ = stringify!($f); 1 })*;
                let mut k = c.below(N.max(1)) as i64;
                $(if k == 0 { $crate::ty::put_noisy(&mut self.$f, c); } k -= 1;)*
            }
            #[allow(unused)]
            fn poke(&self, c: &mut $crate::engine::Case) { $($crate::ty::V::poke(&self.$f, c);)* }
        }
    };
}
use stabby::tuple::*;
vstruct!([] Tuple0 {} []);
vstruct!([A: V] Tuple1<A> { 0 } []);
vstruct!([A: V, B: V] Tuple2<A, B> { 0, 1 } [Tuple2<A, B>: IStable]);
vstruct!([A: V, B: V, C: V] Tuple3<A, B, C> { 0, 1, 2 } [Tuple3<A, B, C>: IStable]);
vstruct!([A: V, B: V, C: V, D: V] Tuple4<A, B, C, D> { 0, 1, 2, 3 } [Tuple4<A, B, C, D>: IStable]);
vstruct!([A: V, B: V, C: V, D: V, F: V] Tuple5<A, B, C, D, F> { 0, 1, 2, 3, 4 } [Tuple5<A, B, C, D, F>: IStable]);

/// Unions of plain integers: every byte up to the largest field is significant.
#[macro_export]
macro_rules! vunion {
    ($t:ty, $n:expr, $($f:ident: $ft:ty),*) => {
        impl $crate::ty::V for $t {
            fn gen(c: &mut $crate::engine::Case) -> Self {
                let mut t: Self = unsafe { std::mem::zeroed() };
                for i in 0..$n { unsafe { *(&mut t as *mut Self as *mut u8).add(i) = c.below(256) as u8 } }
                t
            }
            fn same(&self, o: &Self) -> bool {
                (0..$n).all(|i| unsafe { *(self as *const Self as *const u8).add(i) == *(o as *const Self as *const u8).add(i) })
            }
            fn dup(&self) -> Self {
                let mut t: Self = unsafe { std::mem::zeroed() };
                unsafe { std::ptr::copy_nonoverlapping(self as *const Self as *const u8, &mut t as *mut Self as *mut u8, $n) };
                t
            }
            fn put(&mut self, c: &mut $crate::engine::Case) {
                let mut k = c.below(8) as i64;
                $(if k == 0 { self.$f = <$ft as $crate::ty::V>::gen(c); } k -= 1;)*
                if k >= 0 { *self = Self::gen(c) }
            }
        }
    };
}
/// Implements [`V`] for an [`E`].
#[macro_export]
macro_rules! venum {
    ([$($g:tt)*] $t:ty [$($w:tt)*]) => {
        impl<$($g)*> $crate::ty::V for $t where $($w)* {
            fn gen(c: &mut $crate::engine::Case) -> Self { $crate::ty::e_gen(c) }
            fn same(&self, o: &Self) -> bool { $crate::ty::e_same(self, o) }
            fn dup(&self) -> Self { $crate::ty::e_dup(self) }
            fn put(&mut self, c: &mut $crate::engine::Case) { $crate::ty::e_put(self, c) }
            fn poke(&self, c: &mut $crate::engine::Case) { $crate::ty::E::view(self).1.poke_dyn(c) }
        }
    };
}
macro_rules! tracked {
    ($($t:ty),*) => { $(impl V for $t {
        fn gen(c: &mut Case) -> Self { <$t as track::El>::new(c.below(1000) as u32) }
        fn same(&self, o: &Self) -> bool { track::El::val(self) == track::El::val(o) }
        fn dup(&self) -> Self { <$t as track::El>::new(track::El::val(self)) }
        fn put(&mut self, c: &mut Case) { track::El::set(self, c.below(1000) as u32) }
    })* };
}
tracked!(track::Tr, track::TrBig, track::TrNiche, track::Tr16, track::TrZ);

impl V for stabby::string::String {
    fn gen(c: &mut Case) -> Self {
        let s: String = (0..c.below(6)).map(|_| *c.pick(&['a', 'é', '漢', '🦀'])).collect();
        s.into()
    }
    fn same(&self, o: &Self) -> bool {
        self.as_str() == o.as_str()
    }
    fn dup(&self) -> Self {
        self.as_str().into()
    }
    fn put(&mut self, c: &mut Case) {
        if c.bool() {
            *self += "x";
        } else {
            *self = Self::gen(c)
        }
    }
}
impl<T: V> V for stabby::vec::Vec<T> {
    fn gen(c: &mut Case) -> Self {
        let mut v = Self::new();
        for _ in 0..c.below(4) {
            v.push(T::gen(c));
        }
        v
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.same(b))
    }
    fn dup(&self) -> Self {
        let mut v = Self::new();
        for t in self.iter() {
            v.push(t.dup());
        }
        v
    }
    fn put(&mut self, c: &mut Case) {
        match c.below(4) {
            0 => drop(self.pop()),
            1 if !self.is_empty() => {
                let i = c.usize(self.len());
                put_noisy(&mut self[i], c)
            }
            _ => self.push(T::gen(c)),
        }
    }
    fn poke(&self, c: &mut Case) {
        if !self.is_empty() {
            self[c.usize(self.len())].poke(c)
        }
    }
}
impl<T: V> V for stabby::boxed::Box<T> {
    fn gen(c: &mut Case) -> Self {
        Self::new(T::gen(c))
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
    fn dup(&self) -> Self {
        Self::new((**self).dup())
    }
    fn put(&mut self, c: &mut Case) {
        if c.bool() {
            put_noisy(&mut **self, c)
        } else {
            *self = Self::gen(c)
        }
    }
    fn poke(&self, c: &mut Case) {
        (**self).poke(c)
    }
}
impl<T: V> V for stabby::boxed::BoxedSlice<T> {
    fn gen(c: &mut Case) -> Self {
        stabby::vec::Vec::gen(c).into()
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.same(b))
    }
    fn dup(&self) -> Self {
        let mut v = stabby::vec::Vec::new();
        for t in self.iter() {
            v.push(t.dup());
        }
        v.into()
    }
    fn put(&mut self, c: &mut Case) {
        *self = Self::gen(c)
    }
}
impl<T: V> V for stabby::sync::Arc<T> {
    fn gen(c: &mut Case) -> Self {
        Self::new(T::gen(c))
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
    fn dup(&self) -> Self {
        Self::new((**self).dup())
    }
    fn put(&mut self, c: &mut Case) {
        if let Some(t) = stabby::sync::Arc::get_mut(self) {
            put_noisy(t, c)
        } else {
            *self = Self::gen(c)
        }
    }
    fn poke(&self, c: &mut Case) {
        (**self).poke(c)
    }
}
impl<T: Plain> V for stabby::slice::Slice<'static, T> {
    fn gen(c: &mut Case) -> Self {
        let v: Vec<T> = (0..c.below(4)).map(|_| T::gen(c)).collect();
        let s: &'static [T] = v.leak();
        s.into()
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.same(b))
    }
    fn dup(&self) -> Self {
        *self
    }
    fn put(&mut self, c: &mut Case) {
        *self = Self::gen(c)
    }
}
impl V for stabby::str::Str<'static> {
    fn gen(c: &mut Case) -> Self {
        stabby::str::Str::new(*c.pick(&["", "a", "é漢", "🦀🦀"]))
    }
    fn same(&self, o: &Self) -> bool {
        self.as_str() == o.as_str()
    }
    fn dup(&self) -> Self {
        *self
    }
    fn put(&mut self, c: &mut Case) {
        *self = Self::gen(c)
    }
}
impl V for stabby::time::Duration {
    fn gen(c: &mut Case) -> Self {
        std::time::Duration::new(c.edge64(64), c.below(1_000_000_000) as u32).into()
    }
    fn same(&self, o: &Self) -> bool {
        *self == *o
    }
    fn dup(&self) -> Self {
        *self
    }
    fn put(&mut self, c: &mut Case) {
        *self = Self::gen(c)
    }
}
