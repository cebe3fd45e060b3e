//! Facts computed in the type system by generated programs (C08).
use crate::engine::{Case, Res};
use crate::{ck, ck_eq, op};
use stabby::abi::istable::{Array, End, IBitMask, IForbiddenValues};
use stabby::abi::typenum2::unsigned::{IBitBase, IUnsigned, UInt, UTerm};
use stabby::abi::IStable;
use std::any::TypeId;
use std::cell::RefCell;

pub struct Fact {
    text: &'static str,
    check: Box<dyn Fn(&mut Case, &str) -> Res>,
}
/// Numbers without leading zeros: each value is exactly one type.
pub trait Canon: IUnsigned {
    const ZERO: bool;
    const CANON: bool;
}
impl Canon for UTerm {
    const ZERO: bool = true;
    const CANON: bool = true;
}
impl<M: Canon, B: stabby::abi::typenum2::Bit> Canon for UInt<M, B> {
    const ZERO: bool = M::ZERO && !<B as IBitBase>::_BOOL;
    const CANON: bool = M::CANON && !Self::ZERO;
}
pub fn num<T: Canon>(text: &'static str, want: u128) -> Fact {
    let (got, canon) = (T::U128, T::CANON);
    let words = (T::USIZE, T::U64, T::U32, T::U16, T::U8);
    let check = move |_: &mut Case, t: &str| {
        ck_eq!(got, want, "{t}");
        ck_eq!(words, (want as usize, want as u64, want as u32, want as u16, want as u8), "{t}: truncated constants");
        ck!(canon, "{t}: the result has leading zeros: it isn't the type that represents {want}");
        Ok(())
    };
    Fact { text, check: Box::new(check) }
}
pub fn bit<T: IBitBase>(text: &'static str, want: bool) -> Fact {
    let got = T::_BOOL;
    Fact { text, check: Box::new(move |_, t| Ok(ck_eq!(got, want, "{t}"))) }
}
pub fn same<A: 'static, B: 'static>(text: &'static str) -> Fact {
    let same = TypeId::of::<A>() == TypeId::of::<B>();
    let name = std::any::type_name::<A>();
    Fact { text, check: Box::new(move |_, t| Ok(ck!(same, "{t}: got {name}"))) }
}
/// A type with that size and alignment, published and real.
pub fn shape<T: IStable>(text: &'static str, size: usize, align: usize) -> Fact {
    let got = (size_of::<T>(), align_of::<T>(), T::size(), T::align());
    Fact { text, check: Box::new(move |_, t| Ok(ck_eq!(got, (size, align, size, align), "{t}: real and published size and alignment"))) }
}
pub fn array<T: IStable>(text: &'static str, size: usize, align: usize) -> Fact {
    shape::<T>(text, size, align)
}
pub trait Mask {
    fn list(v: &mut Vec<(usize, u128)>);
}
impl Mask for () {
    fn list(_: &mut Vec<(usize, u128)>) {}
}
impl Mask for End {
    fn list(_: &mut Vec<(usize, u128)>) {}
}
impl<O: IUnsigned, T: IUnsigned, R: Mask> Mask for Array<O, T, R> {
    fn list(v: &mut Vec<(usize, u128)>) {
        v.push((O::USIZE, T::U128));
        R::list(v)
    }
}
fn listed<T: Mask>() -> Vec<(usize, u128)> {
    let mut v = vec![];
    T::list(&mut v);
    v
}
fn sorted(mut v: Vec<(usize, u128)>) -> Vec<(usize, u128)> {
    v.sort();
    v
}
/// Size `n`, alignment 1, every bit unused, default and copyable.
pub fn padding<T: IStable + Default + Copy>(text: &'static str, n: usize) -> Fact
where
    T::UnusedBits: Mask,
{
    let got = (size_of::<T>(), align_of::<T>(), T::size(), T::align());
    let mask = sorted(listed::<T::UnusedBits>());
    let check = move |_: &mut Case, t: &str| {
        let x = T::default();
        std::hint::black_box(x);
        ck_eq!(got, (n, 1, n, 1), "{t}: real and published size and alignment");
        ck_eq!(mask, (0..n).map(|i| (i, 255)).collect::<Vec<_>>(), "{t}: unused bits");
        Ok(())
    };
    Fact { text, check: Box::new(check) }
}
pub trait Tup {
    fn list(&self, v: &mut Vec<(usize, u128)>);
}
impl Tup for () {
    fn list(&self, _: &mut Vec<(usize, u128)>) {}
}
impl<R: Tup> Tup for ((usize, usize), R) {
    fn list(&self, v: &mut Vec<(usize, u128)>) {
        v.push((self.0 .0, self.0 .1 as u128));
        self.1.list(v)
    }
}
/// The mask made of exactly these bits.
pub fn mask<T: IBitMask + Mask>(text: &'static str, want: &[(usize, u128)]) -> Fact
where
    T::Tuple: Tup,
{
    let want = sorted(want.to_vec());
    let got = sorted(listed::<T>());
    let mut tup = vec![];
    T::TUPLE.list(&mut tup);
    let tup = sorted(tup);
    let check = move |_: &mut Case, t: &str| {
        ck_eq!(got, want, "{t}");
        ck_eq!(tup, want, "{t}: at run time");
        Ok(())
    };
    Fact { text, check: Box::new(check) }
}
/// Removing a bit: one bit of the mask is named, and no longer there.
pub fn extract<T: IBitMask>(text: &'static str, want: &[(usize, u128)]) -> Fact
where
    T::ExtractBit: Mask,
    T::ExtractedBitMask: IUnsigned,
{
    let want = sorted(want.to_vec());
    let (at, bit) = (<T::ExtractedBitByteOffset as IUnsigned>::USIZE, <T::ExtractedBitMask as IUnsigned>::U128);
    let left = sorted(listed::<T::ExtractBit>());
    let check = move |_: &mut Case, t: &str| {
        let mut w = want.clone();
        ck!(bit.is_power_of_two(), "{t}: {bit:#x} isn't a bit");
        let Some(i) = w.iter().position(|(o, _)| *o == at) else {
            return Err(format!("{t}: byte {at} isn't in the mask"));
        };
        ck!(w[i].1 & bit != 0, "{t}: bit {bit:#x} of byte {at} isn't in the mask");
        w[i].1 &= !bit;
        w.retain(|x| x.1 != 0);
        ck_eq!(left, w, "{t}: what's left");
        Ok(())
    };
    Fact { text, check: Box::new(check) }
}
/// Sets of forbidden values: alternatives, each a list of (byte, lowest, highest).
type Alts = &'static [&'static [(usize, u8, u8)]];
pub fn forbidden<T: IForbiddenValues + 'static>(text: &'static str, want: Alts) -> Fact {
    let check = move |c: &mut Case, t: &str| {
        for _ in 0..16 {
            let mut b: Vec<u8> = (0..40).map(|_| c.u64() as u8).collect();
            // close to one of the alternatives
            if !want.is_empty() && c.chance(9, 10) {
                for (o, lo, hi) in *c.pick(want) {
                    b[*o] = match c.below(12) {
                        0 => lo.wrapping_sub(1),
                        1 => hi.wrapping_add(1),
                        2 => *hi,
                        3 => c.u64() as u8,
                        _ => *lo + c.below((*hi - *lo) as u64 + 1) as u8,
                    };
                }
            }
            let member = want.iter().any(|a| a.iter().all(|(o, lo, hi)| (*lo..=*hi).contains(&b[*o])));
            c.label(if member { "forbidden bytes" } else { "other bytes" });
            ck_eq!(unsafe { T::is_invalid(b.as_ptr()) }, member, "{t}: forbids {b:02x?}");
        }
        Ok(())
    };
    Fact { text, check: Box::new(check) }
}
fn member(v: &[(usize, u128)], want: Alts) -> bool {
    want.iter().any(|a| a.len() == v.len() && a.iter().all(|(o, lo, hi)| v.iter().any(|(p, x)| p == o && (*lo as u128..=*hi as u128).contains(x))))
}
/// A value of the set, unless it is empty.
/// `end_first`: it's a union that lists an empty set first (see `union_of_empty`).
pub fn select_one<T: Mask>(text: &'static str, want: Alts, end_first: bool) -> Fact {
    let got = listed::<T>();
    let check = move |c: &mut Case, t: &str| {
        if end_first && got.is_empty() && !want.is_empty() {
            c.label("known finding: nothing selected from a union with an empty set");
        } else if want.is_empty() {
            ck!(got.is_empty(), "{t}: {got:?} of an empty set");
        } else {
            ck!(member(&got, want), "{t}: {got:?} isn't in {want:?}");
        }
        Ok(())
    };
    Fact { text, check: Box::new(check) }
}
/// A value of the set that only uses the free bytes, if there is one.
pub fn select_from<T: Mask>(text: &'static str, want: Alts, free: &'static [usize]) -> Fact {
    let got = listed::<T>();
    let check = move |c: &mut Case, t: &str| {
        let fits = want.iter().any(|a| a.iter().all(|x| free.contains(&x.0)));
        c.label(if fits { "a value fits" } else { "no value fits" });
        ck_eq!(!got.is_empty(), fits, "{t}: a value was found");
        if fits {
            ck!(member(&got, want), "{t}: {got:?} isn't in {want:?}");
            ck!(got.iter().all(|x| free.contains(&x.0)), "{t}: {got:?} doesn't fit");
        }
        Ok(())
    };
    Fact { text, check: Box::new(check) }
}

/// Known finding: selecting from the union of an empty set and another one finds nothing.
pub fn union_of_empty() -> Res {
    use stabby::abi::typenum2::{U0, U1};
    type A = Array<U1, U0, End>;
    type Union = <A as IForbiddenValues>::Or<End>;
    ck!(member(&listed::<<Union as IForbiddenValues>::SelectOne>(), &[&[(1, 0, 0)]]), "the union of {{byte 1 is 0}} and the empty set has a member, SelectOne finds none");
    Ok(())
}
thread_local!(static FACTS: RefCell<Vec<Fact>> = const { RefCell::new(vec![]) });
pub fn set(t: Vec<Vec<Fact>>) {
    let empty = t.iter().filter(|x| x.is_empty()).count();
    let n = t.len();
    let all: Vec<Fact> = t.into_iter().flatten().collect();
    crate::engine::note(format!("{} facts computed by the compiler in {n} crates, {empty} of which were empty because rustc took too long on them", all.len()));
    FACTS.with(|x| *x.borrow_mut() = all);
}
pub fn fact(c: &mut Case) -> Res {
    FACTS.with(|f| {
        let f = f.borrow();
        for _ in 0..8 {
            let x = &f[c.usize(f.len())];
            op!(c, "{}", x.text);
            c.nontrivial = true;
            (x.check)(c, x.text)?;
        }
        Ok(())
    })
}
