// C07: restricted-range integers accept, return, compare, format and compute like the values they hold.
// The lists of types are generated; everything else is below.
#![allow(non_camel_case_types)]
use stabby::abi::num::*;
use stabby::IStable;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Binary, Debug, Display, LowerExp, LowerHex, Octal, UpperExp, UpperHex};
use std::hash::{Hash, Hasher};
use vph::engine::{catch, Case, Res};
use vph::{ck, ck_eq, op};

trait Fmt: Debug + Display + LowerHex + UpperHex + LowerExp + UpperExp + Binary + Octal {}
impl<T: Debug + Display + LowerHex + UpperHex + LowerExp + UpperExp + Binary + Octal> Fmt for T {}
/// The same value, written in every way.
fn render(v: &dyn Fmt, how: u64, w: usize, p: usize) -> String {
    match how {
        0 => format!("{v:?}|{v}|{v:x}|{v:X}|{v:e}|{v:E}|{v:b}|{v:o}"),
        1 => format!("{v:#?}|{v:+}|{v:#x}|{v:#X}|{v:+e}|{v:+E}|{v:#b}|{v:#o}"),
        2 => format!("{v:w$?}|{v:w$}|{v:w$x}|{v:w$X}|{v:w$e}|{v:w$E}|{v:w$b}|{v:w$o}"),
        3 => format!("{v:0w$?}|{v:0w$}|{v:#0w$x}|{v:0w$X}|{v:.p$e}|{v:.p$E}|{v:#0w$b}|{v:0w$o}"),
        4 => format!("{v:<w$?}|{v:^w$}|{v:*>w$x}|{v:*^w$X}|{v:<w$.p$e}|{v:>w$.p$E}|{v:-^w$b}|{v:<w$o}"),
        _ => format!("{v:x?}|{v:X?}|{v:#x?}|{v:+?}"),
    }
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
trait Int: Copy + Ord + Hash + Fmt + 'static {
    const BITS: u32;
    fn of(b: u128) -> Self;
    fn bits(self) -> u128;
    fn next(self) -> Option<Self>;
    fn csub(self, o: Self) -> Option<Self>;
    fn cadd(self, o: Self) -> Option<Self>;
}
macro_rules! int { ($($t:ty)*) => { $(impl Int for $t {
    const BITS: u32 = <$t>::BITS;
    fn of(b: u128) -> Self { b as $t }
    fn bits(self) -> u128 { (self as u128) << (128 - Self::BITS) >> (128 - Self::BITS) }
    fn next(self) -> Option<Self> { self.checked_add(1) }
    fn csub(self, o: Self) -> Option<Self> { self.checked_sub(o) }
    fn cadd(self, o: Self) -> Option<Self> { self.checked_add(o) }
})* } }
int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
/// Any value; for widths beyond 16 bits, often close to a power of two, its negation or the values of interest.
fn draw<B: Int>(c: &mut Case, near: &[B]) -> B {
    let mut v = match c.below(4) {
        0 => c.pick(near).bits(),
        1 => 1u128 << c.below(B::BITS as u64),
        2 => (1u128 << c.below(B::BITS as u64)).wrapping_neg(),
        _ => (c.u64() as u128) << 64 | c.u64() as u128,
    };
    v = v.wrapping_add(c.below(5) as u128).wrapping_sub(2);
    B::of(v)
}
/// The values of one case: a whole block of 256 values for 8 and 16 bits, random ones beyond.
fn values<B: Int>(c: &mut Case, near: &[B]) -> Vec<B> {
    if B::BITS <= 16 {
        let block = c.below(1 << (B::BITS - 8)) as u128;
        (0..256).map(|i| B::of(block << 8 | i)).collect()
    } else {
        (0..24).map(|_| draw(c, near)).collect()
    }
}

// ------------------------------------------------------------------ one excluded value
trait Non<B>: Copy + Ord + Hash + TryFrom<B, Error = IllegalValue> + IStable {
    const NAME: &'static str;
    const FORBIDDEN: B;
    fn new(b: B) -> Option<Self>;
    unsafe fn unchecked(b: B) -> Self;
    fn get(self) -> B;
    fn into_b(self) -> B;
    /// size of its option, and whether the pattern of `None` is published as forbidden
    fn none() -> (usize, bool);
    fn through_option(self) -> Option<B>;
}
macro_rules! non { ($t:ty, $b:ty, $v:expr) => { impl Non<$b> for $t {
    const NAME: &'static str = stringify!($t);
    const FORBIDDEN: $b = $v;
    fn new(b: $b) -> Option<Self> { <$t>::new(b) }
    unsafe fn unchecked(b: $b) -> Self { unsafe { <$t>::new_unchecked(b) } }
    fn get(self) -> $b { <$t>::get(self) }
    fn into_b(self) -> $b { self.into() }
    fn none() -> (usize, bool) {
        let none: stabby::option::Option<Self> = stabby::option::Option::None();
        (size_of_val(&none), unsafe { Self::is_invalid(&none as *const _ as *const u8) })
    }
    fn through_option(self) -> Option<$b> {
        let o = stabby::option::Option::Some(self);
        o.as_ref().map(|x| x.get())
    }
} } }
fn non_case<T: Non<B>, B: Int>(c: &mut Case) -> Res {
    let f = T::FORBIDDEN;
    let near = [f, B::of(0), B::of(u128::MAX)];
    let vs = values(c, &near);
    op!(c, "{} over {:?}..", T::NAME, &vs[..4]);
    ck_eq!(T::size(), size_of::<B>(), "{}: published size", T::NAME);
    ck_eq!(T::align(), align_of::<B>(), "{}: published alignment", T::NAME);
    ck_eq!(size_of::<T>(), size_of::<B>(), "{}: size", T::NAME);
    // the only pattern no value has must be the published one
    ck_eq!(T::none(), (size_of::<B>(), true), "{}: size of its option, `None` is its forbidden pattern", T::NAME);
    let mut last: Option<(B, T)> = None;
    for v in vs.iter().copied() {
        let made = T::new(v);
        ck_eq!(made.is_some(), v != f, "{}: accepts {v}", T::NAME);
        let conv = T::try_from(v);
        ck_eq!(conv.is_ok(), v != f, "{}: try_from accepts {v}", T::NAME);
        let Some(x) = made else {
            c.label("the excluded value");
            ck!(matches!(conv, Err(IllegalValue)), "{}: error", T::NAME);
            continue;
        };
        c.nontrivial = true;
        ck_eq!(x.get(), v, "{}: get", T::NAME);
        ck_eq!(x.into_b(), v, "{}: into", T::NAME);
        ck_eq!(conv.ok().map(|x| x.get()), Some(v), "{}: try_from", T::NAME);
        ck_eq!(unsafe { T::unchecked(v) }.get(), v, "{}: new_unchecked", T::NAME);
        ck_eq!(hash(&x), hash(&v), "{}: hash of {v}", T::NAME);
        ck!(!unsafe { T::is_invalid(&x as *const T as *const u8) }, "{}: {v} has the forbidden pattern", T::NAME);
        ck_eq!(x.through_option(), Some(v), "{}: through its option", T::NAME);
        let (w, y) = last.unwrap_or((v, x));
        ck_eq!(x.cmp(&y), v.cmp(&w), "{}: ordering of {v} and {w}", T::NAME);
        ck_eq!(x.partial_cmp(&y), v.partial_cmp(&w), "{}: partial ordering of {v} and {w}", T::NAME);
        ck_eq!(x == y, v == w, "{}: {v} == {w}", T::NAME);
        ck_eq!((x < y, x <= y, x.max(y).get(), x.min(y).get()), (v < w, v <= w, v.max(w), v.min(w)), "{}: comparing {v} and {w}", T::NAME);
        // the next one is compared with this one or, at times, an older one
        if last.is_none() || c.bool() {
            last = Some((v, x));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ fixed widths
trait Mask<B>: Copy + Ord + Hash + Fmt + Default {
    const NAME: &'static str;
    const N: u32;
    const LO: B;
    const HI: B;
    fn new(b: B) -> Option<Self>;
    fn get(&self) -> B;
    fn max_min() -> (B, B);
    fn raw(b: B) -> Self;
    /// and, and with base, or, and-assign, or-assign
    fn bitops(a: Self, b: Self) -> [B; 6];
    fn bitops_base(a: Self, b: B) -> (B, B, Option<B>);
    fn add(a: Self, b: Self) -> Option<B>;
    fn sub(a: Self, b: Self) -> Option<B>;
    fn sub_base(a: Self, b: B) -> Option<B>;
}
macro_rules! common { ($t:ident, $b:ty, $n:literal) => {
    const NAME: &'static str = stringify!($t);
    const N: u32 = $n;
    fn new(b: $b) -> Option<Self> { <$t>::new(b) }
    fn get(&self) -> $b { <$t>::get(self) }
    fn max_min() -> ($b, $b) { (<$t>::MAX.get(), <$t>::MIN.get()) }
    fn raw(b: $b) -> Self { unsafe { std::mem::transmute(b) } }
    fn bitops(a: Self, b: Self) -> [$b; 6] {
        let (mut x, mut y, mut z) = (a, a, a);
        x &= b;
        y |= b;
        z &= b.get();
        [(a & b).get(), (a & b.get()).get(), (a | b).get(), x.get(), y.get(), z.get()]
    }
} }
macro_rules! umask { ($t:ident, $b:ty, $n:literal) => { impl Mask<$b> for $t {
    const LO: $b = 0;
    const HI: $b = (1 << $n) - 1;
    common!($t, $b, $n);
    fn bitops_base(a: Self, b: $b) -> ($b, $b, Option<$b>) {
        let mut x = a;
        x &= b;
        ((a & b).get(), x.get(), Some(a | b))
    }
    fn add(a: Self, b: Self) -> Option<$b> { Some(a + b) }
    fn sub(a: Self, b: Self) -> Option<$b> { Some((a - b).get()) }
    fn sub_base(a: Self, b: $b) -> Option<$b> { Some((a - b).get()) }
} } }
macro_rules! imask { ($t:ident, $b:ty, $n:literal) => { impl Mask<$b> for $t {
    const LO: $b = -(1 << ($n - 1));
    const HI: $b = (1 << ($n - 1)) - 1;
    common!($t, $b, $n);
    fn bitops_base(a: Self, b: $b) -> ($b, $b, Option<$b>) {
        let mut x = a;
        x &= b;
        ((a & b).get(), x.get(), None)
    }
    fn add(_: Self, _: Self) -> Option<$b> { None }
    fn sub(_: Self, _: Self) -> Option<$b> { None }
    fn sub_base(_: Self, _: $b) -> Option<$b> { None }
} } }
fn mask_case<T: Mask<B>, B: Int>(c: &mut Case) -> Res {
    let name = T::NAME;
    let near = [T::LO, T::HI, B::of(0)];
    let vs = values(c, &near);
    op!(c, "{name} over {:?}..", &vs[..4]);
    ck_eq!(T::max_min(), (T::HI, T::LO), "{name}: MAX and MIN");
    ck_eq!(T::default().get(), B::of(0), "{name}: default");
    ck_eq!((size_of::<T>(), align_of::<T>()), (size_of::<B>(), align_of::<B>()), "{name}: size and alignment");
    let garbage = B::of(!((1u128 << T::N) - 1));
    let mut last: Option<(B, T)> = None;
    for v in vs.iter().copied() {
        let made = T::new(v);
        let fits = v >= T::LO && v <= T::HI;
        ck_eq!(made.is_some(), fits, "{name}: accepts {v}");
        // values that don't fit: look at one that does instead, obtained by dropping the high bits
        let Some(mut x) = made else {
            c.label("a value that does not fit");
            continue;
        };
        c.nontrivial = true;
        ck_eq!(x.get(), v, "{name}: get");
        if c.chance(1, 4) {
            // whatever the unused bits hold, they're not part of the value
            x = T::raw(B::of(v.bits() ^ (c.u64() as u128 * 0x1_0000_0000_0000_0001 & garbage.bits())));
            ck_eq!(x.get(), v, "{name}: get with other unused bits");
            c.label("unused bits overwritten");
        }
        ck_eq!(hash(&x), hash(&v), "{name}: hash of {v}");
        if c.chance(1, 16) {
            let (how, w, p) = (c.below(6), c.usize(150), c.usize(12));
            ck_eq!(render(&x, how, w, p), render(&v, how, w, p), "{name}: formatting of {v}");
        }
        let (w, y) = last.unwrap_or((v, x));
        ck_eq!(x.cmp(&y), v.cmp(&w), "{name}: ordering of {v} and {w}");
        ck_eq!(x.partial_cmp(&y), v.partial_cmp(&w), "{name}: partial ordering of {v} and {w}");
        ck_eq!(x == y, v == w, "{name}: {v} == {w}");
        ck_eq!((x < y, x <= y, x.max(y).get(), x.min(y).get()), (v < w, v <= w, v.max(w), v.min(w)), "{name}: comparing {v} and {w}");
        let (and, or) = (B::of(v.bits() & w.bits()), B::of(v.bits() | w.bits()));
        ck_eq!(T::bitops(x, y), [and, and, or, and, or, and], "{name}: & and | of {v} and {w}");
        let m: B = draw(c, &near);
        // masked by any base integer, the result is still a value of the type: its low bits decide
        let (a, a2, o) = T::bitops_base(x, m);
        let low = T::raw(B::of(v.bits() & m.bits())).get();
        ck_eq!((a, a2), (low, low), "{name}: {v} & base {m}");
        if v.bits() & m.bits() <= T::HI.bits() {
            ck_eq!(a, B::of(v.bits() & m.bits()), "{name}: {v} & base {m}");
        }
        if let Some(o) = o {
            ck_eq!(o, B::of(v.bits() | m.bits()), "{name}: {v} | base {m}");
        }
        if let Some(s) = T::add(x, y) {
            ck_eq!(Some(s), v.cadd(w), "{name}: {v} + {w}");
        }
        if v >= w {
            if let Some(s) = T::sub(x, y) {
                ck_eq!(Some(s), v.csub(w), "{name}: {v} - {w}");
            }
            if let Some(s) = T::sub_base(x, w) {
                ck_eq!(Some(s), v.csub(w), "{name}: {v} - base {w}");
            }
        } else if c.chance(1, 256) && T::add(x, y).is_some() {
            // underflow: a panic (overflow checks are on), like the underlying integer's
            ck!(catch(|| T::sub(x, y)).is_err(), "{name}: {v} - {w} gave a value");
            c.label("underflow");
        }
        if last.is_none() || c.bool() {
            last = Some((v, x));
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ lists of types
non!(NonXU8<0>, u8, 0);
non!(NonXU8<1>, u8, 1);
non!(NonXU8<255>, u8, 255);
non!(NonXU8<72>, u8, 72);
non!(NonXU8<127>, u8, 127);
non!(NonXU8<128>, u8, 128);
non!(NonXU8<90>, u8, 90);
non!(NonXU8<254>, u8, 254);
non!(NonXI8<{ 0 }>, i8, { 0 });
non!(NonXI8<{ 1 }>, i8, { 1 });
non!(NonXI8<{ -1 }>, i8, { -1 });
non!(NonXI8<{ 127 }>, i8, { 127 });
non!(NonXI8<{ i8::MIN }>, i8, { i8::MIN });
non!(NonXI8<{ 72 }>, i8, { 72 });
non!(NonXI8<{ -72 }>, i8, { -72 });
non!(NonXI8<{ -127 }>, i8, { -127 });
non!(NonXU16<0>, u16, 0);
non!(NonXU16<1>, u16, 1);
non!(NonXU16<65535>, u16, 65535);
non!(NonXU16<72>, u16, 72);
non!(NonXU16<32767>, u16, 32767);
non!(NonXU16<32768>, u16, 32768);
non!(NonXU16<90>, u16, 90);
non!(NonXU16<65534>, u16, 65534);
non!(NonXI16<{ 0 }>, i16, { 0 });
non!(NonXI16<{ 1 }>, i16, { 1 });
non!(NonXI16<{ -1 }>, i16, { -1 });
non!(NonXI16<{ 32767 }>, i16, { 32767 });
non!(NonXI16<{ i16::MIN }>, i16, { i16::MIN });
non!(NonXI16<{ 72 }>, i16, { 72 });
non!(NonXI16<{ -72 }>, i16, { -72 });
non!(NonXI16<{ -32767 }>, i16, { -32767 });
non!(NonXU32<0>, u32, 0);
non!(NonXU32<1>, u32, 1);
non!(NonXU32<4294967295>, u32, 4294967295);
non!(NonXU32<72>, u32, 72);
non!(NonXU32<2147483647>, u32, 2147483647);
non!(NonXU32<2147483648>, u32, 2147483648);
non!(NonXU32<90>, u32, 90);
non!(NonXU32<4294967294>, u32, 4294967294);
non!(NonXI32<{ 0 }>, i32, { 0 });
non!(NonXI32<{ 1 }>, i32, { 1 });
non!(NonXI32<{ -1 }>, i32, { -1 });
non!(NonXI32<{ 2147483647 }>, i32, { 2147483647 });
non!(NonXI32<{ i32::MIN }>, i32, { i32::MIN });
non!(NonXI32<{ 72 }>, i32, { 72 });
non!(NonXI32<{ -72 }>, i32, { -72 });
non!(NonXI32<{ -2147483647 }>, i32, { -2147483647 });
non!(NonXU64<0>, u64, 0);
non!(NonXU64<1>, u64, 1);
non!(NonXU64<18446744073709551615>, u64, 18446744073709551615);
non!(NonXU64<72>, u64, 72);
non!(NonXU64<9223372036854775807>, u64, 9223372036854775807);
non!(NonXU64<9223372036854775808>, u64, 9223372036854775808);
non!(NonXU64<90>, u64, 90);
non!(NonXU64<18446744073709551614>, u64, 18446744073709551614);
non!(NonXI64<{ 0 }>, i64, { 0 });
non!(NonXI64<{ 1 }>, i64, { 1 });
non!(NonXI64<{ -1 }>, i64, { -1 });
non!(NonXI64<{ 9223372036854775807 }>, i64, { 9223372036854775807 });
non!(NonXI64<{ i64::MIN }>, i64, { i64::MIN });
non!(NonXI64<{ 72 }>, i64, { 72 });
non!(NonXI64<{ -72 }>, i64, { -72 });
non!(NonXI64<{ -9223372036854775807 }>, i64, { -9223372036854775807 });
non!(NonXU128<0>, u128, 0);
non!(NonXU128<1>, u128, 1);
non!(NonXU128<340282366920938463463374607431768211455>, u128, 340282366920938463463374607431768211455);
non!(NonXU128<72>, u128, 72);
non!(NonXU128<170141183460469231731687303715884105727>, u128, 170141183460469231731687303715884105727);
non!(NonXU128<170141183460469231731687303715884105728>, u128, 170141183460469231731687303715884105728);
non!(NonXU128<90>, u128, 90);
non!(NonXU128<340282366920938463463374607431768211454>, u128, 340282366920938463463374607431768211454);
non!(NonXI128<{ 0 }>, i128, { 0 });
non!(NonXI128<{ 1 }>, i128, { 1 });
non!(NonXI128<{ -1 }>, i128, { -1 });
non!(NonXI128<{ 170141183460469231731687303715884105727 }>, i128, { 170141183460469231731687303715884105727 });
non!(NonXI128<{ i128::MIN }>, i128, { i128::MIN });
non!(NonXI128<{ 72 }>, i128, { 72 });
non!(NonXI128<{ -72 }>, i128, { -72 });
non!(NonXI128<{ -170141183460469231731687303715884105727 }>, i128, { -170141183460469231731687303715884105727 });
non!(NonXUsize<0>, usize, 0);
non!(NonXUsize<1>, usize, 1);
non!(NonXUsize<{ usize::MAX }>, usize, { usize::MAX });
non!(NonXUsize<0x8000_0000_0000_0000>, usize, 0x8000_0000_0000_0000);
non!(NonXUsize<4096>, usize, 4096);
non!(NonXIsize<0>, isize, 0);
non!(NonXIsize<1>, isize, 1);
non!(NonXIsize<{ -1 }>, isize, { -1 });
non!(NonXIsize<{ isize::MIN }>, isize, { isize::MIN });
non!(NonXIsize<{ isize::MAX }>, isize, { isize::MAX });
non!(NonMaxU8, u8, u8::MAX);
non!(NonMaxU16, u16, u16::MAX);
non!(NonMaxU32, u32, u32::MAX);
non!(NonMaxU64, u64, u64::MAX);
non!(NonMaxU128, u128, u128::MAX);
non!(NonMaxUsize, usize, usize::MAX);
umask!(u1, u8, 1);
umask!(u2, u8, 2);
umask!(u3, u8, 3);
umask!(u4, u8, 4);
umask!(u5, u8, 5);
umask!(u6, u8, 6);
umask!(u7, u8, 7);
umask!(u9, u16, 9);
umask!(u10, u16, 10);
umask!(u11, u16, 11);
umask!(u12, u16, 12);
umask!(u13, u16, 13);
umask!(u14, u16, 14);
umask!(u15, u16, 15);
umask!(u17, u32, 17);
umask!(u18, u32, 18);
umask!(u19, u32, 19);
umask!(u20, u32, 20);
umask!(u21, u32, 21);
umask!(u22, u32, 22);
umask!(u23, u32, 23);
umask!(u24, u32, 24);
umask!(u25, u32, 25);
umask!(u26, u32, 26);
umask!(u27, u32, 27);
umask!(u28, u32, 28);
umask!(u29, u32, 29);
umask!(u30, u32, 30);
umask!(u31, u32, 31);
umask!(u33, u64, 33);
umask!(u34, u64, 34);
umask!(u35, u64, 35);
umask!(u36, u64, 36);
umask!(u37, u64, 37);
umask!(u38, u64, 38);
umask!(u39, u64, 39);
umask!(u40, u64, 40);
umask!(u41, u64, 41);
umask!(u42, u64, 42);
umask!(u43, u64, 43);
umask!(u44, u64, 44);
umask!(u45, u64, 45);
umask!(u46, u64, 46);
umask!(u47, u64, 47);
umask!(u48, u64, 48);
umask!(u49, u64, 49);
umask!(u50, u64, 50);
umask!(u51, u64, 51);
umask!(u52, u64, 52);
umask!(u53, u64, 53);
umask!(u54, u64, 54);
umask!(u55, u64, 55);
umask!(u56, u64, 56);
umask!(u57, u64, 57);
umask!(u58, u64, 58);
umask!(u59, u64, 59);
umask!(u60, u64, 60);
umask!(u61, u64, 61);
umask!(u62, u64, 62);
umask!(u63, u64, 63);
umask!(u65, u128, 65);
umask!(u66, u128, 66);
umask!(u67, u128, 67);
umask!(u68, u128, 68);
umask!(u69, u128, 69);
umask!(u70, u128, 70);
umask!(u71, u128, 71);
umask!(u72, u128, 72);
umask!(u73, u128, 73);
umask!(u74, u128, 74);
umask!(u75, u128, 75);
umask!(u76, u128, 76);
umask!(u77, u128, 77);
umask!(u78, u128, 78);
umask!(u79, u128, 79);
umask!(u80, u128, 80);
umask!(u81, u128, 81);
umask!(u82, u128, 82);
umask!(u83, u128, 83);
umask!(u84, u128, 84);
umask!(u85, u128, 85);
umask!(u86, u128, 86);
umask!(u87, u128, 87);
umask!(u88, u128, 88);
umask!(u89, u128, 89);
umask!(u90, u128, 90);
umask!(u91, u128, 91);
umask!(u92, u128, 92);
umask!(u93, u128, 93);
umask!(u94, u128, 94);
umask!(u95, u128, 95);
umask!(u96, u128, 96);
umask!(u97, u128, 97);
umask!(u98, u128, 98);
umask!(u99, u128, 99);
umask!(u100, u128, 100);
umask!(u101, u128, 101);
umask!(u102, u128, 102);
umask!(u103, u128, 103);
umask!(u104, u128, 104);
umask!(u105, u128, 105);
umask!(u106, u128, 106);
umask!(u107, u128, 107);
umask!(u108, u128, 108);
umask!(u109, u128, 109);
umask!(u110, u128, 110);
umask!(u111, u128, 111);
umask!(u112, u128, 112);
umask!(u113, u128, 113);
umask!(u114, u128, 114);
umask!(u115, u128, 115);
umask!(u116, u128, 116);
umask!(u117, u128, 117);
umask!(u118, u128, 118);
umask!(u119, u128, 119);
umask!(u120, u128, 120);
umask!(u121, u128, 121);
umask!(u122, u128, 122);
umask!(u123, u128, 123);
umask!(u124, u128, 124);
umask!(u125, u128, 125);
umask!(u126, u128, 126);
umask!(u127, u128, 127);
imask!(i1, i8, 1);
imask!(i2, i8, 2);
imask!(i3, i8, 3);
imask!(i4, i8, 4);
imask!(i5, i8, 5);
imask!(i6, i8, 6);
imask!(i7, i8, 7);
imask!(i9, i16, 9);
imask!(i10, i16, 10);
imask!(i11, i16, 11);
imask!(i12, i16, 12);
imask!(i13, i16, 13);
imask!(i14, i16, 14);
imask!(i15, i16, 15);
imask!(i17, i32, 17);
imask!(i18, i32, 18);
imask!(i19, i32, 19);
imask!(i20, i32, 20);
imask!(i21, i32, 21);
imask!(i22, i32, 22);
imask!(i23, i32, 23);
imask!(i24, i32, 24);
imask!(i25, i32, 25);
imask!(i26, i32, 26);
imask!(i27, i32, 27);
imask!(i28, i32, 28);
imask!(i29, i32, 29);
imask!(i30, i32, 30);
imask!(i31, i32, 31);
imask!(i33, i64, 33);
imask!(i34, i64, 34);
imask!(i35, i64, 35);
imask!(i36, i64, 36);
imask!(i37, i64, 37);
imask!(i38, i64, 38);
imask!(i39, i64, 39);
imask!(i40, i64, 40);
imask!(i41, i64, 41);
imask!(i42, i64, 42);
imask!(i43, i64, 43);
imask!(i44, i64, 44);
imask!(i45, i64, 45);
imask!(i46, i64, 46);
imask!(i47, i64, 47);
imask!(i48, i64, 48);
imask!(i49, i64, 49);
imask!(i50, i64, 50);
imask!(i51, i64, 51);
imask!(i52, i64, 52);
imask!(i53, i64, 53);
imask!(i54, i64, 54);
imask!(i55, i64, 55);
imask!(i56, i64, 56);
imask!(i57, i64, 57);
imask!(i58, i64, 58);
imask!(i59, i64, 59);
imask!(i60, i64, 60);
imask!(i61, i64, 61);
imask!(i62, i64, 62);
imask!(i63, i64, 63);
imask!(i65, i128, 65);
imask!(i66, i128, 66);
imask!(i67, i128, 67);
imask!(i68, i128, 68);
imask!(i69, i128, 69);
imask!(i70, i128, 70);
imask!(i71, i128, 71);
imask!(i72, i128, 72);
imask!(i73, i128, 73);
imask!(i74, i128, 74);
imask!(i75, i128, 75);
imask!(i76, i128, 76);
imask!(i77, i128, 77);
imask!(i78, i128, 78);
imask!(i79, i128, 79);
imask!(i80, i128, 80);
imask!(i81, i128, 81);
imask!(i82, i128, 82);
imask!(i83, i128, 83);
imask!(i84, i128, 84);
imask!(i85, i128, 85);
imask!(i86, i128, 86);
imask!(i87, i128, 87);
imask!(i88, i128, 88);
imask!(i89, i128, 89);
imask!(i90, i128, 90);
imask!(i91, i128, 91);
imask!(i92, i128, 92);
imask!(i93, i128, 93);
imask!(i94, i128, 94);
imask!(i95, i128, 95);
imask!(i96, i128, 96);
imask!(i97, i128, 97);
imask!(i98, i128, 98);
imask!(i99, i128, 99);
imask!(i100, i128, 100);
imask!(i101, i128, 101);
imask!(i102, i128, 102);
imask!(i103, i128, 103);
imask!(i104, i128, 104);
imask!(i105, i128, 105);
imask!(i106, i128, 106);
imask!(i107, i128, 107);
imask!(i108, i128, 108);
imask!(i109, i128, 109);
imask!(i110, i128, 110);
imask!(i111, i128, 111);
imask!(i112, i128, 112);
imask!(i113, i128, 113);
imask!(i114, i128, 114);
imask!(i115, i128, 115);
imask!(i116, i128, 116);
imask!(i117, i128, 117);
imask!(i118, i128, 118);
imask!(i119, i128, 119);
imask!(i120, i128, 120);
imask!(i121, i128, 121);
imask!(i122, i128, 122);
imask!(i123, i128, 123);
imask!(i124, i128, 124);
imask!(i125, i128, 125);
imask!(i126, i128, 126);
imask!(i127, i128, 127);

type F = fn(&mut Case) -> Res;
#[rustfmt::skip]
const NONS: &[F] = &[non_case::<NonXU8<0>, u8>, non_case::<NonXU8<1>, u8>, non_case::<NonXU8<255>, u8>, non_case::<NonXU8<72>, u8>, non_case::<NonXU8<127>, u8>, non_case::<NonXU8<128>, u8>, non_case::<NonXU8<90>, u8>, non_case::<NonXU8<254>, u8>, non_case::<NonXI8<{ 0 }>, i8>, non_case::<NonXI8<{ 1 }>, i8>, non_case::<NonXI8<{ -1 }>, i8>, non_case::<NonXI8<{ 127 }>, i8>, non_case::<NonXI8<{ i8::MIN }>, i8>, non_case::<NonXI8<{ 72 }>, i8>, non_case::<NonXI8<{ -72 }>, i8>, non_case::<NonXI8<{ -127 }>, i8>, non_case::<NonXU16<0>, u16>, non_case::<NonXU16<1>, u16>, non_case::<NonXU16<65535>, u16>, non_case::<NonXU16<72>, u16>, non_case::<NonXU16<32767>, u16>, non_case::<NonXU16<32768>, u16>, non_case::<NonXU16<90>, u16>, non_case::<NonXU16<65534>, u16>, non_case::<NonXI16<{ 0 }>, i16>, non_case::<NonXI16<{ 1 }>, i16>, non_case::<NonXI16<{ -1 }>, i16>, non_case::<NonXI16<{ 32767 }>, i16>, non_case::<NonXI16<{ i16::MIN }>, i16>, non_case::<NonXI16<{ 72 }>, i16>, non_case::<NonXI16<{ -72 }>, i16>, non_case::<NonXI16<{ -32767 }>, i16>, non_case::<NonXU32<0>, u32>, non_case::<NonXU32<1>, u32>, non_case::<NonXU32<4294967295>, u32>, non_case::<NonXU32<72>, u32>, non_case::<NonXU32<2147483647>, u32>, non_case::<NonXU32<2147483648>, u32>, non_case::<NonXU32<90>, u32>, non_case::<NonXU32<4294967294>, u32>, non_case::<NonXI32<{ 0 }>, i32>, non_case::<NonXI32<{ 1 }>, i32>, non_case::<NonXI32<{ -1 }>, i32>, non_case::<NonXI32<{ 2147483647 }>, i32>, non_case::<NonXI32<{ i32::MIN }>, i32>, non_case::<NonXI32<{ 72 }>, i32>, non_case::<NonXI32<{ -72 }>, i32>, non_case::<NonXI32<{ -2147483647 }>, i32>, non_case::<NonXU64<0>, u64>, non_case::<NonXU64<1>, u64>, non_case::<NonXU64<18446744073709551615>, u64>, non_case::<NonXU64<72>, u64>, non_case::<NonXU64<9223372036854775807>, u64>, non_case::<NonXU64<9223372036854775808>, u64>, non_case::<NonXU64<90>, u64>, non_case::<NonXU64<18446744073709551614>, u64>, non_case::<NonXI64<{ 0 }>, i64>, non_case::<NonXI64<{ 1 }>, i64>, non_case::<NonXI64<{ -1 }>, i64>, non_case::<NonXI64<{ 9223372036854775807 }>, i64>, non_case::<NonXI64<{ i64::MIN }>, i64>, non_case::<NonXI64<{ 72 }>, i64>, non_case::<NonXI64<{ -72 }>, i64>, non_case::<NonXI64<{ -9223372036854775807 }>, i64>, non_case::<NonXU128<0>, u128>, non_case::<NonXU128<1>, u128>, non_case::<NonXU128<340282366920938463463374607431768211455>, u128>, non_case::<NonXU128<72>, u128>, non_case::<NonXU128<170141183460469231731687303715884105727>, u128>, non_case::<NonXU128<170141183460469231731687303715884105728>, u128>, non_case::<NonXU128<90>, u128>, non_case::<NonXU128<340282366920938463463374607431768211454>, u128>, non_case::<NonXI128<{ 0 }>, i128>, non_case::<NonXI128<{ 1 }>, i128>, non_case::<NonXI128<{ -1 }>, i128>, non_case::<NonXI128<{ 170141183460469231731687303715884105727 }>, i128>, non_case::<NonXI128<{ i128::MIN }>, i128>, non_case::<NonXI128<{ 72 }>, i128>, non_case::<NonXI128<{ -72 }>, i128>, non_case::<NonXI128<{ -170141183460469231731687303715884105727 }>, i128>, non_case::<NonXUsize<0>, usize>, non_case::<NonXUsize<1>, usize>, non_case::<NonXUsize<{ usize::MAX }>, usize>, non_case::<NonXUsize<0x8000_0000_0000_0000>, usize>, non_case::<NonXUsize<4096>, usize>, non_case::<NonXIsize<0>, isize>, non_case::<NonXIsize<1>, isize>, non_case::<NonXIsize<{ -1 }>, isize>, non_case::<NonXIsize<{ isize::MIN }>, isize>, non_case::<NonXIsize<{ isize::MAX }>, isize>, non_case::<NonMaxU8, u8>, non_case::<NonMaxU16, u16>, non_case::<NonMaxU32, u32>, non_case::<NonMaxU64, u64>, non_case::<NonMaxU128, u128>, non_case::<NonMaxUsize, usize>];
#[rustfmt::skip]
const MASKS: &[F] = &[mask_case::<u1, u8>, mask_case::<u2, u8>, mask_case::<u3, u8>, mask_case::<u4, u8>, mask_case::<u5, u8>, mask_case::<u6, u8>, mask_case::<u7, u8>, mask_case::<u9, u16>, mask_case::<u10, u16>, mask_case::<u11, u16>, mask_case::<u12, u16>, mask_case::<u13, u16>, mask_case::<u14, u16>, mask_case::<u15, u16>, mask_case::<u17, u32>, mask_case::<u18, u32>, mask_case::<u19, u32>, mask_case::<u20, u32>, mask_case::<u21, u32>, mask_case::<u22, u32>, mask_case::<u23, u32>, mask_case::<u24, u32>, mask_case::<u25, u32>, mask_case::<u26, u32>, mask_case::<u27, u32>, mask_case::<u28, u32>, mask_case::<u29, u32>, mask_case::<u30, u32>, mask_case::<u31, u32>, mask_case::<u33, u64>, mask_case::<u34, u64>, mask_case::<u35, u64>, mask_case::<u36, u64>, mask_case::<u37, u64>, mask_case::<u38, u64>, mask_case::<u39, u64>, mask_case::<u40, u64>, mask_case::<u41, u64>, mask_case::<u42, u64>, mask_case::<u43, u64>, mask_case::<u44, u64>, mask_case::<u45, u64>, mask_case::<u46, u64>, mask_case::<u47, u64>, mask_case::<u48, u64>, mask_case::<u49, u64>, mask_case::<u50, u64>, mask_case::<u51, u64>, mask_case::<u52, u64>, mask_case::<u53, u64>, mask_case::<u54, u64>, mask_case::<u55, u64>, mask_case::<u56, u64>, mask_case::<u57, u64>, mask_case::<u58, u64>, mask_case::<u59, u64>, mask_case::<u60, u64>, mask_case::<u61, u64>, mask_case::<u62, u64>, mask_case::<u63, u64>, mask_case::<u65, u128>, mask_case::<u66, u128>, mask_case::<u67, u128>, mask_case::<u68, u128>, mask_case::<u69, u128>, mask_case::<u70, u128>, mask_case::<u71, u128>, mask_case::<u72, u128>, mask_case::<u73, u128>, mask_case::<u74, u128>, mask_case::<u75, u128>, mask_case::<u76, u128>, mask_case::<u77, u128>, mask_case::<u78, u128>, mask_case::<u79, u128>, mask_case::<u80, u128>, mask_case::<u81, u128>, mask_case::<u82, u128>, mask_case::<u83, u128>, mask_case::<u84, u128>, mask_case::<u85, u128>, mask_case::<u86, u128>, mask_case::<u87, u128>, mask_case::<u88, u128>, mask_case::<u89, u128>, mask_case::<u90, u128>, mask_case::<u91, u128>, mask_case::<u92, u128>, mask_case::<u93, u128>, mask_case::<u94, u128>, mask_case::<u95, u128>, mask_case::<u96, u128>, mask_case::<u97, u128>, mask_case::<u98, u128>, mask_case::<u99, u128>, mask_case::<u100, u128>, mask_case::<u101, u128>, mask_case::<u102, u128>, mask_case::<u103, u128>, mask_case::<u104, u128>, mask_case::<u105, u128>, mask_case::<u106, u128>, mask_case::<u107, u128>, mask_case::<u108, u128>, mask_case::<u109, u128>, mask_case::<u110, u128>, mask_case::<u111, u128>, mask_case::<u112, u128>, mask_case::<u113, u128>, mask_case::<u114, u128>, mask_case::<u115, u128>, mask_case::<u116, u128>, mask_case::<u117, u128>, mask_case::<u118, u128>, mask_case::<u119, u128>, mask_case::<u120, u128>, mask_case::<u121, u128>, mask_case::<u122, u128>, mask_case::<u123, u128>, mask_case::<u124, u128>, mask_case::<u125, u128>, mask_case::<u126, u128>, mask_case::<u127, u128>, mask_case::<i1, i8>, mask_case::<i2, i8>, mask_case::<i3, i8>, mask_case::<i4, i8>, mask_case::<i5, i8>, mask_case::<i6, i8>, mask_case::<i7, i8>, mask_case::<i9, i16>, mask_case::<i10, i16>, mask_case::<i11, i16>, mask_case::<i12, i16>, mask_case::<i13, i16>, mask_case::<i14, i16>, mask_case::<i15, i16>, mask_case::<i17, i32>, mask_case::<i18, i32>, mask_case::<i19, i32>, mask_case::<i20, i32>, mask_case::<i21, i32>, mask_case::<i22, i32>, mask_case::<i23, i32>, mask_case::<i24, i32>, mask_case::<i25, i32>, mask_case::<i26, i32>, mask_case::<i27, i32>, mask_case::<i28, i32>, mask_case::<i29, i32>, mask_case::<i30, i32>, mask_case::<i31, i32>, mask_case::<i33, i64>, mask_case::<i34, i64>, mask_case::<i35, i64>, mask_case::<i36, i64>, mask_case::<i37, i64>, mask_case::<i38, i64>, mask_case::<i39, i64>, mask_case::<i40, i64>, mask_case::<i41, i64>, mask_case::<i42, i64>, mask_case::<i43, i64>, mask_case::<i44, i64>, mask_case::<i45, i64>, mask_case::<i46, i64>, mask_case::<i47, i64>, mask_case::<i48, i64>, mask_case::<i49, i64>, mask_case::<i50, i64>, mask_case::<i51, i64>, mask_case::<i52, i64>, mask_case::<i53, i64>, mask_case::<i54, i64>, mask_case::<i55, i64>, mask_case::<i56, i64>, mask_case::<i57, i64>, mask_case::<i58, i64>, mask_case::<i59, i64>, mask_case::<i60, i64>, mask_case::<i61, i64>, mask_case::<i62, i64>, mask_case::<i63, i64>, mask_case::<i65, i128>, mask_case::<i66, i128>, mask_case::<i67, i128>, mask_case::<i68, i128>, mask_case::<i69, i128>, mask_case::<i70, i128>, mask_case::<i71, i128>, mask_case::<i72, i128>, mask_case::<i73, i128>, mask_case::<i74, i128>, mask_case::<i75, i128>, mask_case::<i76, i128>, mask_case::<i77, i128>, mask_case::<i78, i128>, mask_case::<i79, i128>, mask_case::<i80, i128>, mask_case::<i81, i128>, mask_case::<i82, i128>, mask_case::<i83, i128>, mask_case::<i84, i128>, mask_case::<i85, i128>, mask_case::<i86, i128>, mask_case::<i87, i128>, mask_case::<i88, i128>, mask_case::<i89, i128>, mask_case::<i90, i128>, mask_case::<i91, i128>, mask_case::<i92, i128>, mask_case::<i93, i128>, mask_case::<i94, i128>, mask_case::<i95, i128>, mask_case::<i96, i128>, mask_case::<i97, i128>, mask_case::<i98, i128>, mask_case::<i99, i128>, mask_case::<i100, i128>, mask_case::<i101, i128>, mask_case::<i102, i128>, mask_case::<i103, i128>, mask_case::<i104, i128>, mask_case::<i105, i128>, mask_case::<i106, i128>, mask_case::<i107, i128>, mask_case::<i108, i128>, mask_case::<i109, i128>, mask_case::<i110, i128>, mask_case::<i111, i128>, mask_case::<i112, i128>, mask_case::<i113, i128>, mask_case::<i114, i128>, mask_case::<i115, i128>, mask_case::<i116, i128>, mask_case::<i117, i128>, mask_case::<i118, i128>, mask_case::<i119, i128>, mask_case::<i120, i128>, mask_case::<i121, i128>, mask_case::<i122, i128>, mask_case::<i123, i128>, mask_case::<i124, i128>, mask_case::<i125, i128>, mask_case::<i126, i128>, mask_case::<i127, i128>];
fn non(c: &mut Case) -> Res {
    c.pick(NONS)(c)
}
fn mask(c: &mut Case) -> Res {
    c.pick(MASKS)(c)
}
fn main() {
    vph::main(
        "C07",
        "at least one value was accepted and read back",
        &[vph::sub("one excluded value", 400_000, 40_000_000, non), vph::sub("fixed widths", 400_000, 40_000_000, mask)],
        &[],
    );
}
