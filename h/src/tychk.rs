//! Checks over generated types: what a type publishes and how its values behave, against the layout model.
use crate::engine::{Case, Res};
use crate::ty::*;
pub use crate::rep::{Exp, Kind, Rep, Xf};
use crate::{ck, ck_eq, op, track};
use std::mem::{align_of, size_of};

pub enum Fv {
    End,
    Pat(&'static [(usize, u8)]),
    Range(u8, u8, usize),
    Or(&'static Fv, &'static Fv),
}
impl Fv {
    pub fn is_invalid(&self, b: &[u8]) -> bool {
        match self {
            Fv::End => false,
            Fv::Pat(p) => p.iter().all(|(o, v)| b[*o] == *v),
            Fv::Range(lo, hi, o) => (*lo..=*hi).contains(&b[*o]),
            Fv::Or(a, c) => a.is_invalid(b) || c.is_invalid(b),
        }
    }
    fn leaves<'a>(&'a self, out: &mut Vec<&'a Fv>) {
        match self {
            Fv::End => {}
            Fv::Or(a, b) => {
                a.leaves(out);
                b.leaves(out)
            }
            _ => out.push(self),
        }
    }
}
pub enum Det {
    Tag,
    Value(&'static [(usize, u8)]),
    Bit(usize, u8),
}
/// Where a two-variant sum type keeps its payloads and how it tells them apart.
pub struct Sum {
    pub ok_off: usize,
    pub err_off: usize,
    pub not: bool,
    pub det: Det,
}
impl Sum {
    pub fn is_ok(&self, b: &[u8]) -> bool {
        let r = match self.det {
            Det::Tag => b[0] & 1 == 0,
            // (the forbidden value of `ok` marks an error)
            Det::Value(p) => !p.iter().all(|(o, v)| b[*o] == *v),
            Det::Bit(o, m) => b[o] & m == 0,
        };
        r ^ self.not
    }
}
pub struct Model {
    pub size: usize,
    pub align: usize,
    pub ub: &'static [(usize, u8)],
    pub fv: Fv,
    pub hx: u8,
    pub ind: bool,
}
pub type Run = fn(&mut Case, &Ent) -> Res;
pub struct Ent {
    pub name: &'static str,
    pub src: &'static str,
    pub model: &'static Model,
    pub sum: Option<&'static Sum>,
    /// actual and modelled offsets of the fields
    pub fields: &'static [(usize, usize)],
    /// whether the type implements `IPod`, and whether it is `Copy`
    pub pod: Option<(bool, bool)>,
    /// whether `Option<T>` implements `IStable`
    pub opt_stable: Option<bool>,
    pub run: Run,
}

/// Does a type satisfy the bounds? (for types without generics)
#[macro_export]
macro_rules! impls {
    ($t:ty: $($b:tt)+) => {{
        struct P<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No { fn y(&self) -> bool { false } }
        impl<T: ?Sized> No for &P<T> {}
        #[allow(dead_code)]
        trait Yes { fn y(&self) -> bool { true } }
        impl<T: ?Sized + $($b)+> Yes for P<T> {}
        #[allow(unused_imports)]
        (&P::<$t>(std::marker::PhantomData)).y()
    }};
}

fn masks(ub: &[(usize, u8)], size: usize) -> Vec<u8> {
    let mut m = vec![0u8; size];
    for (o, k) in ub {
        if *o < size {
            m[*o] |= k;
        }
    }
    m
}
pub fn bytes<T>(t: &T) -> Vec<u8> {
    let n = size_of::<T>();
    let p = t as *const T as *const u8;
    (0..n).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect()
}
/// A value in a buffer of its own, with arbitrary bytes wherever the value doesn't write.
pub struct Slot<T> {
    p: *mut T,
}
impl<T: V> Slot<T> {
    pub fn new(v: T, c: &mut Case) -> Self {
        let l = std::alloc::Layout::from_size_align(size_of::<T>().max(1), align_of::<T>()).unwrap();
        let p = unsafe { std::alloc::alloc(l) };
        let r = c.u64();
        let mut rng = crate::engine::Rng::new(r);
        for i in 0..size_of::<T>() {
            unsafe { *p.add(i) = if r & 3 == 0 { 0xFF } else { rng.next() as u8 } }
        }
        let p = p as *mut T;
        unsafe { p.write(v) }
        Slot { p }
    }
    pub fn get(&self) -> &T {
        unsafe { &*self.p }
    }
    pub fn get_mut(&mut self) -> &mut T {
        unsafe { &mut *self.p }
    }
    pub fn take(self) -> T {
        let v = unsafe { self.p.read() };
        let l = std::alloc::Layout::from_size_align(size_of::<T>().max(1), align_of::<T>()).unwrap();
        unsafe { std::alloc::dealloc(self.p as *mut u8, l) };
        std::mem::forget(self);
        v
    }
}
impl<T> Drop for Slot<T> {
    fn drop(&mut self) {
        let l = std::alloc::Layout::from_size_align(size_of::<T>().max(1), align_of::<T>()).unwrap();
        unsafe {
            std::ptr::drop_in_place(self.p);
            std::alloc::dealloc(self.p as *mut u8, l);
        }
    }
}

// ---------------------------------------------------------------- C01
pub fn c01<T: V>(c: &mut Case, e: &Ent) -> Res {
    c.nontrivial = size_of::<T>() > 0;
    ck_eq!(pub_size::<T>(), size_of::<T>(), "{}: published size against the compiler's", e.src);
    ck_eq!(pub_align::<T>(), align_of::<T>(), "{}: published alignment against the compiler's", e.src);
    ck_eq!(T::size(), size_of::<T>(), "{}: size()", e.src);
    ck_eq!(T::align(), align_of::<T>(), "{}: align()", e.src);
    // (evaluates the assertions that the definitions carry)
    ck_eq!(T::ID, stabby::abi::report::gen_id(T::REPORT), "{}: identifier", e.src);
    // and a value really occupies no more: its neighbours in an array are unharmed
    let mut a = [T::gen(c), T::gen(c)];
    let keep = a[1].dup();
    put_noisy(&mut a[0], c);
    ck!(a[1].same(&keep), "{}: writing an array element changed its neighbour", e.src);
    drop(a);
    drop(keep);
    track::finish().map_err(|x| format!("{}: {x}", e.src))
}

// ---------------------------------------------------------------- C02
fn valid<T: V>(t: &T, e: &Ent, when: &str) -> Res {
    ck!(!unsafe { T::is_invalid(t as *const T as *const u8) }, "{}: a value {when} has a representation published as forbidden: {:02x?}", e.src, bytes(t));
    Ok(())
}
pub fn c02<T: V>(c: &mut Case, e: &Ent) -> Res {
    track::reset();
    let r = c02_inner::<T>(c, e);
    r?;
    track::finish().map_err(|x| format!("{}: {x}", e.src))
}
fn c02_inner<T: V>(c: &mut Case, e: &Ent) -> Res {
    c.nontrivial = size_of::<T>() > 0;
    let v = T::gen(c);
    let mut model = v.dup();
    let mut s = Slot::new(v, c);
    valid(s.get(), e, "just made")?;
    ck!(s.get().same(&model), "{}: value changed when moved", e.src);
    for _ in 0..1 + c.below(6) {
        let what = match c.below(6) {
            0 | 1 => {
                noise(s.get_mut(), c);
                "after overwriting its unused bits"
            }
            2 => {
                let k = c.u64();
                s.get_mut().put(&mut Case::from_seed(k));
                model.put(&mut Case::from_seed(k));
                "after an edit"
            }
            3 => {
                let k = c.u64();
                s.get().poke(&mut Case::from_seed(k));
                model.poke(&mut Case::from_seed(k));
                "after an edit through a shared reference"
            }
            4 => {
                // moved elsewhere: only meaningful bytes must matter
                let t = s.take();
                s = Slot::new(t, c);
                "after a move"
            }
            _ => {
                let d = s.get().dup();
                let old = std::mem::replace(s.get_mut(), d);
                drop(old);
                "after being replaced by a copy"
            }
        };
        op!(c, "{what}: {:02x?}", bytes(s.get()));
        ck!(s.get().same(&model), "{}: value changed {what}: {:02x?}", e.src, bytes(s.get()));
        valid(s.get(), e, what)?;
        track::check().map_err(|x| format!("{}: {what}: {x}", e.src))?;
    }
    // the compiler's own niches
    let published = hx::<T>() == 1;
    ck!(e.opt_stable.map_or(true, |s| s == published), "Option<{}>: stable although its niche count is {}", e.src, hx::<T>());
    if published {
        c.label("single niche");
        ck_eq!(size_of::<Option<T>>(), size_of::<T>(), "Option<{}> is published as stable: size", e.src);
        let n: Option<T> = None;
        let mut buf = vec![0u8; size_of::<T>() + align_of::<T>()];
        let fill = c.below(256) as u8;
        buf.iter_mut().for_each(|b| *b = fill);
        let off = buf.as_ptr().align_offset(align_of::<T>());
        unsafe {
            let p = buf.as_mut_ptr().add(off);
            (p as *mut Option<T>).write(n);
            ck!(T::is_invalid(p), "None::<{}> isn't represented by the published niche: {:02x?}", e.src, &buf[off..off + size_of::<T>()]);
            std::ptr::drop_in_place(p as *mut Option<T>);
        }
        ck!(size_of::<Option<Option<T>>>() > size_of::<T>(), "{} is published as having a single niche, but has several", e.src);
        let some: Option<T> = Some(s.take());
        ck!(!unsafe { T::is_invalid(&some as *const _ as *const u8) }, "{}: Some(_) looks like a forbidden value", e.src);
        ck!(some.as_ref().map_or(false, |s| s.same(&model)), "{}: Some(_) lost its value", e.src);
    } else {
        drop(s);
    }
    drop(model);
    Ok(())
}

// ---------------------------------------------------------------- C03
pub fn c03<T: V>(c: &mut Case, e: &Ent) -> Res {
    let m = e.model;
    c.nontrivial = m.size > 0;
    ck_eq!(pub_size::<T>(), m.size, "{}: size", e.src);
    ck_eq!(pub_align::<T>(), m.align, "{}: alignment", e.src);
    ck_eq!(hx::<T>(), m.hx, "{}: number of niches Rust may use (saturating)", e.src);
    for (i, (got, want)) in e.fields.iter().enumerate() {
        ck_eq!(got, want, "{}: offset of field {i}", e.src);
    }
    ck_eq!(masks(ub::<T>(), m.size), masks(m.ub, m.size), "{}: unused bits by byte", e.src);
    track::check()?;
    // forbidden values, probed on random and on targeted bytes
    let mut leaves = vec![];
    m.fv.leaves(&mut leaves);
    let mut b = vec![0u64; m.size / 8 + 2];
    for round in 0..4 {
        let b8 = unsafe { std::slice::from_raw_parts_mut(b.as_mut_ptr() as *mut u8, m.size) };
        let style = c.below(4);
        for x in b8.iter_mut() {
            *x = match style {
                0 => 0,
                1 => 0xFF,
                2 => c.below(4) as u8,
                _ => c.below(256) as u8,
            };
        }
        if !leaves.is_empty() && round > 0 {
            let l = leaves[c.usize(leaves.len())];
            match l {
                Fv::Pat(p) => {
                    for (o, v) in p.iter() {
                        b8[*o] = *v;
                    }
                    if c.bool() {
                        let (o, v) = p[c.usize(p.len())];
                        b8[o] = v ^ (1 << c.below(8));
                    }
                }
                Fv::Range(lo, hi, o) => b8[*o] = *c.pick(&[*lo, *hi, lo.wrapping_sub(1), hi.wrapping_add(1), lo + (hi - lo) / 2]),
                _ => {}
            }
        }
        let b8 = &*b8;
        ck_eq!(unsafe { T::is_invalid(b8.as_ptr()) }, m.fv.is_invalid(b8), "{}: is {b8:02x?} published as forbidden", e.src);
    }
    Ok(())
}
/// Placement of the payloads and of the discriminant of a stabby result.
pub fn c03_sum<A: V + stabby::abi::enums::IDeterminantProvider<B>, B: V>(c: &mut Case, e: &Ent) -> Res {
    track::reset();
    c03::<stabby::result::Result<A, B>>(c, e)?;
    let sum = e.sum.unwrap();
    let v = stabby::result::Result::<A, B>::gen(c);
    let mut s = Slot::new(v, c);
    for _ in 0..3 {
        let (off, ok) = match s.get().as_ref() {
            Ok(a) => (a as *const A as usize, true),
            Err(b) => (b as *const B as usize, false),
        };
        let off = off - s.get() as *const _ as usize;
        ck_eq!(off, if ok { sum.ok_off } else { sum.err_off }, "{}: offset of the {} payload", e.src, if ok { "ok" } else { "err" });
        let b = bytes(s.get());
        ck_eq!(sum.is_ok(&b), ok, "{}: {b:02x?} read by the documented rules", e.src);
        // reading must depend on the documented place only: flipping anything published as unused changes nothing
        noise(s.get_mut(), c);
        ck_eq!(s.get().is_ok(), ok, "{}: variant after overwriting unused bits", e.src);
        s.get_mut().put(c);
    }
    drop(s);
    track::finish().map_err(|x| format!("{}: {x}", e.src))
}

// ---------------------------------------------------------------- C29
pub fn c29<T: V>(c: &mut Case, e: &Ent) -> Res {
    c.nontrivial = e.model.ind || size_of::<T>() > 0;
    if e.model.ind {
        c.label("with indirections");
    }
    ck_eq!(ind::<T>(), e.model.ind, "{}: published as containing indirections", e.src);
    if let Some((pod, copy)) = e.pod {
        c.label(if pod { "accepted as plain data" } else { "refused as plain data" });
        ck_eq!(pod, copy && !e.model.ind, "{}: accepted as plain old data", e.src);
    }
    Ok(())
}

// ---------------------------------------------------------------- C05
struct Mirror {
    i: usize,
    p: Box<dyn DynV>,
}
pub fn c05<T: E>(c: &mut Case, e: &Ent) -> Res {
    track::reset();
    c05_inner::<T>(c, e)?;
    track::finish().map_err(|x| format!("{}: {x}", e.src))
}
fn c05_same<T: E>(t: &T, m: &Mirror, e: &Ent, when: &str) -> Res {
    let (i, p) = t.view();
    ck_eq!(i, m.i, "{}: variant matched by reference {when}", e.src);
    ck!(p.same_dyn(&*m.p), "{}: payload of variant {i} matched by reference {when}", e.src);
    let (j, q, k) = t.view_ctx(0xC0FFEE);
    ck_eq!(j, m.i, "{}: variant matched by reference with context {when}", e.src);
    ck!(q.same_dyn(&*m.p), "{}: payload of variant {i} matched by reference with context {when}", e.src);
    ck_eq!(k, 0xC0FFEE, "{}: context {when}", e.src);
    ck!(p.addr() == q.addr(), "{}: different payloads", e.src);
    let a = t as *const T as usize;
    ck!(size_of::<T>() == 0 || size_of_val(p) == 0 || (p.addr() >= a && p.addr() + size_of_val(p) <= a + size_of::<T>()), "{}: payload outside of the value", e.src);
    track::check().map_err(|x| format!("{}: {when}: {x}", e.src))
}
fn size_of_val(p: &dyn DynV) -> usize {
    std::mem::size_of_val(p)
}
fn c05_inner<T: E>(c: &mut Case, e: &Ent) -> Res {
    let i = c.usize(T::N);
    let p = T::gen_payload(i, c);
    let mut m = Mirror { i, p: p.dup_dyn() };
    let mut s = Slot::new(T::make(i, p), c);
    op!(c, "{} variant {i}", e.src);
    c05_same(s.get(), &m, e, "after construction")?;
    if let Some((w, d)) = T::discr(i) {
        c.label("native");
        let off = 0;
        let b = bytes(s.get());
        let mut got = 0u128;
        for k in 0..w {
            got |= (b[off + k] as u128) << (8 * k);
        }
        let want = (d as u128) & (u128::MAX >> (128 - 8 * w));
        ck_eq!(got, want, "{}: discriminant of variant {i}", e.src);
    }
    for _ in 0..c.below(6) {
        let k = c.u64();
        let when = match c.below(7) {
            0 | 1 => {
                let mut n = 0;
                let mut at = usize::MAX;
                let f = &mut |i: usize, p: &mut dyn DynV| {
                    n += 1;
                    at = i;
                    p.put_dyn(&mut Case::from_seed(k));
                };
                let w = if c.bool() {
                    s.get_mut().edit(f);
                    "after an edit through the mutable match"
                } else {
                    s.get_mut().edit_ctx(f);
                    "after an edit through the mutable match with context"
                };
                ck_eq!(n, 1, "{}: handlers called by the mutable match", e.src);
                ck_eq!(at, m.i, "{}: variant matched mutably", e.src);
                m.p.put_dyn(&mut Case::from_seed(k));
                c.nontrivial = true;
                w
            }
            2 => {
                s.get_mut().put(&mut Case::from_seed(k));
                // (may have replaced the value)
                let (i, p) = s.get().view();
                m = Mirror { i, p: p.dup_dyn() };
                "after a replacement"
            }
            3 => {
                noise(s.get_mut(), c);
                "after overwriting unused bits"
            }
            4 => {
                let t = s.take();
                s = Slot::new(t, c);
                "after a move"
            }
            5 => {
                let (_, p) = s.get().view();
                p.poke_dyn(&mut Case::from_seed(k));
                m.p.poke_dyn(&mut Case::from_seed(k));
                "after an edit through a shared reference"
            }
            _ => {
                // taken apart and rebuilt
                let t = s.take();
                let (i, p) = if c.bool() {
                    t.take()
                } else {
                    let (i, p, x) = t.take_ctx(k);
                    ck_eq!(x, k, "{}: context of the owned match", e.src);
                    (i, p)
                };
                ck_eq!(i, m.i, "{}: variant matched by value", e.src);
                ck!(p.same_dyn(&*m.p), "{}: payload of variant {i} matched by value", e.src);
                s = Slot::new(T::make(i, p), c);
                "after being rebuilt from its payload"
            }
        };
        op!(c, "{when}: {:02x?}", bytes(s.get()));
        c05_same(s.get(), &m, e, when)?;
    }
    c.nontrivial |= T::N > 2;
    if c.bool() {
        let (i, p) = s.take().take();
        ck_eq!(i, m.i, "{}: variant matched by value", e.src);
        ck!(p.same_dyn(&*m.p), "{}: payload of variant {i} matched by value", e.src);
    } else {
        drop(s);
    }
    drop(m);
    Ok(())
}

// ---------------------------------------------------------------- C04
use stabby::abi::enums::IDeterminantProvider;
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
fn std_same<A: V, B: V>(a: &Result<A, B>, b: &Result<A, B>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.same(b),
        (Err(a), Err(b)) => a.same(b),
        _ => false,
    }
}
fn std_dup<A: V, B: V>(a: &Result<A, B>) -> Result<A, B> {
    match a {
        Ok(a) => Ok(a.dup()),
        Err(a) => Err(a.dup()),
    }
}
fn std_gen<A: V, B: V>(c: &mut Case) -> Result<A, B> {
    if c.bool() {
        Ok(gen_noisy(c))
    } else {
        Err(gen_noisy(c))
    }
}
fn build<A: V + IDeterminantProvider<B>, B: V>(m: Result<A, B>, c: &mut Case) -> SResult<A, B> {
    if c.bool() {
        m.into()
    } else {
        match m {
            Ok(a) => SResult::Ok(a),
            Err(b) => SResult::Err(b),
        }
    }
}
fn r_same<A: V + IDeterminantProvider<B>, B: V>(r: &SResult<A, B>, m: &Result<A, B>, e: &Ent, when: &str) -> Res {
    ck_eq!(r.is_ok(), m.is_ok(), "{}: is_ok {when} ({:02x?})", e.src, bytes(r));
    ck_eq!(r.is_err(), m.is_err(), "{}: is_err {when}", e.src);
    match (r.as_ref(), m) {
        (Ok(a), Ok(b)) => ck!(a.same(b), "{}: Ok payload {when} ({:02x?})", e.src, bytes(r)),
        (Err(a), Err(b)) => ck!(a.same(b), "{}: Err payload {when} ({:02x?})", e.src, bytes(r)),
        _ => return Err(format!("{}: as_ref's variant {when}", e.src)),
    }
    ck_eq!(r.ok_ref().is_some(), m.is_ok(), "{}: ok_ref {when}", e.src);
    ck_eq!(r.err_ref().is_some(), m.is_err(), "{}: err_ref {when}", e.src);
    if let (Some(a), Ok(b)) = (r.ok_ref(), m) {
        ck!(a.same(b), "{}: ok_ref's payload {when}", e.src);
    }
    if let (Some(a), Err(b)) = (r.err_ref(), m) {
        ck!(a.same(b), "{}: err_ref's payload {when}", e.src);
    }
    let x = r.match_ref(|a| (true, a as *const A as usize), |b| (false, b as *const B as usize));
    let y = r.match_ref_ctx(5u8, |k, a| (k, true, a as *const A as usize), |k, b| (k, false, b as *const B as usize));
    ck_eq!(x.0, m.is_ok(), "{}: match_ref {when}", e.src);
    ck_eq!(y, (5, x.0, x.1), "{}: match_ref_ctx {when}", e.src);
    track::check().map_err(|x| format!("{}: {when}: {x}", e.src))
}
type R2<A, B> = (Slot<SResult<A, B>>, Result<A, B>);
fn c04_step<A: V + IDeterminantProvider<B>, B: V>(r: R2<A, B>, c: &mut Case, e: &Ent) -> Result<R2<A, B>, String> {
    let (mut s, mut m) = r;
    let k = c.u64();
    let g = || Case::from_seed(k);
    let when = match c.below(16) {
        0 => {
            if let Some(mut x) = s.get_mut().ok_mut() {
                put_noisy(&mut *x, &mut g());
                if let Ok(m) = &m {
                    ck!(!m.same(&*x) || true, "");
                }
            }
            if let Ok(m) = &mut m {
                put_noisy(m, &mut g());
            }
            "after an edit through ok_mut"
        }
        1 => {
            if let Some(mut x) = s.get_mut().err_mut() {
                put_noisy(&mut *x, &mut g());
            }
            if let Err(m) = &mut m {
                put_noisy(m, &mut g());
            }
            "after an edit through err_mut"
        }
        2 => {
            let ok = m.is_ok();
            let hit = s.get_mut().match_mut(
                |mut x| {
                    put_noisy(&mut *x, &mut g());
                    true
                },
                |mut x| {
                    put_noisy(&mut *x, &mut g());
                    false
                },
            );
            ck_eq!(hit, ok, "{}: variant matched mutably", e.src);
            match &mut m {
                Ok(m) => put_noisy(m, &mut g()),
                Err(m) => put_noisy(m, &mut g()),
            }
            "after an edit through match_mut"
        }
        3 => {
            let mut ctx = g();
            s.get_mut().match_mut_ctx(&mut ctx, |k, mut x| put_noisy(&mut *x, k), |k, mut x| put_noisy(&mut *x, k));
            match &mut m {
                Ok(m) => put_noisy(m, &mut g()),
                Err(m) => put_noisy(m, &mut g()),
            }
            "after an edit through match_mut_ctx"
        }
        4 => {
            // payloads exchanged between two results through their guards
            let m2 = std_gen::<A, B>(c);
            let mut s2 = build(std_dup(&m2), c);
            let mut m2 = m2;
            {
                let a = s.get_mut().ok_mut();
                let b = s2.ok_mut();
                if let (Some(mut a), Some(mut b)) = (a, b) {
                    std::mem::swap(&mut *a, &mut *b);
                    if c.bool() {
                        drop(a);
                        drop(b);
                    }
                }
            }
            {
                let a = s.get_mut().err_mut();
                let b = s2.err_mut();
                if let (Some(mut a), Some(mut b)) = (a, b) {
                    std::mem::swap(&mut *a, &mut *b);
                }
            }
            if m.is_ok() == m2.is_ok() {
                std::mem::swap(&mut m, &mut m2);
            }
            r_same(&s2, &m2, e, "of the other result after swapping payloads")?;
            "after swapping payloads"
        }
        5 => {
            let n = std_gen::<A, B>(c);
            let d = build(std_dup(&n), c);
            if c.bool() {
                *s.get_mut() = d;
            } else {
                drop(std::mem::replace(s.get_mut(), d));
            }
            m = n;
            "after a replacement"
        }
        6 => {
            let t: Result<A, B> = s.take().into();
            ck!(std_same(&t, &m), "{}: conversion to the standard result", e.src);
            s = Slot::new(build(t, c), c);
            "after a conversion to the standard result and back"
        }
        7 => {
            let t = s.take();
            let t: Result<A, B> = if c.bool() {
                t.match_owned(Ok, Err)
            } else {
                t.match_owned_ctx(Some(()), |k, a| k.map(|_| Ok(a)).unwrap(), |k, b| k.map(|_| Err(b)).unwrap())
            };
            ck!(std_same(&t, &m), "{}: match_owned", e.src);
            s = Slot::new(build(t, c), c);
            "after match_owned"
        }
        8 => {
            let o = s.take().ok();
            ck_eq!(o.is_some(), m.is_ok(), "{}: ok()", e.src);
            if let (Some(a), Ok(b)) = (&o, &m) {
                ck!(a.same(b), "{}: ok()'s payload", e.src);
            }
            drop(o);
            let n = std_gen::<A, B>(c);
            s = Slot::new(build(std_dup(&n), c), c);
            m = n;
            "after ok()"
        }
        9 => {
            let o = s.take().err();
            ck_eq!(o.is_some(), m.is_err(), "{}: err()", e.src);
            if let (Some(a), Err(b)) = (&o, &m) {
                ck!(a.same(b), "{}: err()'s payload", e.src);
            }
            drop(o);
            let n = std_gen::<A, B>(c);
            s = Slot::new(build(std_dup(&n), c), c);
            m = n;
            "after err()"
        }
        10 => {
            let f = |mut a: A| {
                put_noisy(&mut a, &mut g());
                a
            };
            s = Slot::new(s.take().map(f), c);
            m = m.map(f);
            "after map"
        }
        11 => {
            let n = std_gen::<A, B>(c);
            let d = build(std_dup(&n), c);
            s = Slot::new(s.take().and_then(|_| d), c);
            m = m.and_then(|_| n);
            "after and_then"
        }
        12 => {
            let d = A::gen(c);
            let d2 = d.dup();
            let a = s.take().unwrap_or_else(|_| d);
            let b = m.unwrap_or_else(|_| d2);
            ck!(a.same(&b), "{}: unwrap_or_else", e.src);
            s = Slot::new(SResult::Ok(a), c);
            m = Ok(b);
            "after unwrap_or_else"
        }
        13 => {
            let d = B::gen(c);
            let d2 = d.dup();
            let a = s.take().unwrap_err_or_else(|_| d);
            let b = match m {
                Ok(_) => d2,
                Err(b) => b,
            };
            ck!(a.same(&b), "{}: unwrap_err_or_else", e.src);
            s = Slot::new(SResult::Err(a), c);
            m = Err(b);
            "after unwrap_err_or_else"
        }
        14 => {
            let t = s.take();
            s = Slot::new(
                match &m {
                    Ok(_) => SResult::Ok(unsafe { t.unwrap_unchecked() }),
                    Err(_) => SResult::Err(unsafe { t.unwrap_err_unchecked() }),
                },
                c,
            );
            "after an unchecked unwrap"
        }
        _ => {
            s.get().match_ref_ctx(&mut g(), |k, a| a.poke(k), |k, b| b.poke(k));
            match &m {
                Ok(a) => a.poke(&mut g()),
                Err(b) => b.poke(&mut g()),
            }
            noise(s.get_mut(), c);
            "after overwriting unused bits"
        }
    };
    op!(c, "{when}: {:02x?}", bytes(s.get()));
    r_same(s.get(), &m, e, when)?;
    Ok((s, m))
}
pub fn c04<A: V + IDeterminantProvider<B>, B: V>(c: &mut Case, e: &Ent) -> Res {
    track::reset();
    c.nontrivial = size_of::<A>() + size_of::<B>() > 0;
    {
        let m = std_gen::<A, B>(c);
        let mut r = (Slot::new(build(std_dup(&m), c), c), m);
        r_same(r.0.get(), &r.1, e, "after construction")?;
        for _ in 0..c.below(8) {
            r = c04_step(r, c, e)?;
        }
    }
    track::finish().map_err(|x| format!("{}: {x}", e.src))
}
fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
pub trait Full: V + Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}
impl<T: V + Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug> Full for T {}
pub fn c04_full<A: Full + IDeterminantProvider<B>, B: Full>(c: &mut Case, e: &Ent) -> Res {
    if c.below(3) > 0 {
        return c04::<A, B>(c, e);
    }
    track::reset();
    c.nontrivial = size_of::<A>() + size_of::<B>() > 0;
    c.label("clone, compare, hash, format, unwrap");
    {
        let m = std_gen::<A, B>(c);
        let m2 = if c.bool() { m.clone() } else { std_gen::<A, B>(c) };
        let mut r = build(std_dup(&m), c);
        let mut r2 = build(std_dup(&m2), c);
        noise(&mut r, c);
        noise(&mut r2, c);
        ck_eq!(r == r2, m == m2, "{}: equality of {m:?} and {m2:?}", e.src);
        ck_eq!(r2 == r, m == m2, "{}: equality of {m2:?} and {m:?}", e.src);
        if m == m2 {
            ck_eq!(hash_of(&r), hash_of(&r2), "{}: hashes of equal values", e.src);
        }
        if m.is_ok() != m2.is_ok() || hash_of(&m) != hash_of(&m2) {
            ck!(hash_of(&r) != hash_of(&r2), "{}: {m:?} and {m2:?} have the same hash", e.src);
        }
        let d = r.clone();
        r_same(&d, &m, e, "of a clone")?;
        ck!(d == r, "{}: a clone differs", e.src);
        ck_eq!(format!("{r:?}"), format!("{m:?}"), "{}: debug format", e.src);
        ck_eq!(format!("{r:#?}"), format!("{m:#?}"), "{}: alternate debug format", e.src);
        drop(r);
        r_same(&d, &m, e, "of a clone outliving the original")?;
        let ok = m.is_ok();
        if c.bool() {
            let x = crate::catch(|| d.unwrap());
            ck_eq!(x.is_ok(), ok, "{}: unwrap", e.src);
            if let (Ok(x), Ok(m)) = (x, m) {
                ck!(x.same(&m), "{}: unwrap's payload", e.src);
            }
        } else {
            let x = crate::catch(|| d.unwrap_err());
            ck_eq!(x.is_ok(), !ok, "{}: unwrap_err", e.src);
            if let (Ok(x), Err(m)) = (x, m) {
                ck!(x.same(&m), "{}: unwrap_err's payload", e.src);
            }
        }
    }
    track::finish().map_err(|x| format!("{}: {x}", e.src))
}
fn o_same<T: V + IDeterminantProvider<()>>(r: &SOption<T>, m: &Option<T>, e: &Ent, when: &str) -> Res {
    ck_eq!(r.is_some(), m.is_some(), "{}: is_some {when} ({:02x?})", e.src, bytes(r));
    ck_eq!(r.is_none(), m.is_none(), "{}: is_none {when}", e.src);
    match (r.as_ref(), m) {
        (Some(a), Some(b)) => ck!(a.same(b), "{}: payload {when} ({:02x?})", e.src, bytes(r)),
        (None, None) => {}
        _ => return Err(format!("{}: as_ref's variant {when}", e.src)),
    }
    ck_eq!(r.match_ref(|_| 1, || 0), m.is_some() as u8, "{}: match_ref {when}", e.src);
    ck_eq!(r.match_ref_ctx(5, |k, _| k, |k| k + 1), if m.is_some() { 5 } else { 6 }, "{}: match_ref_ctx {when}", e.src);
    track::check().map_err(|x| format!("{}: {when}: {x}", e.src))
}
fn o_gen<T: V>(c: &mut Case) -> Option<T> {
    c.bool().then(|| gen_noisy(c))
}
fn o_build<T: V + IDeterminantProvider<()>>(m: Option<T>, c: &mut Case) -> SOption<T> {
    if c.bool() {
        return m.into();
    }
    match m {
        Some(m) => SOption::Some(m),
        None if c.bool() => Default::default(),
        None => SOption::None(),
    }
}
pub fn c04_opt<T: V + IDeterminantProvider<()>>(c: &mut Case, e: &Ent) -> Res {
    track::reset();
    c.nontrivial = size_of::<T>() > 0;
    c.label("option");
    {
        let mut m = o_gen::<T>(c);
        let mut s = Slot::new(o_build(m.as_ref().map(T::dup), c), c);
        o_same(s.get(), &m, e, "after construction")?;
        for _ in 0..c.below(8) {
            let k = c.u64();
            let g = || Case::from_seed(k);
            let when = match c.below(9) {
                0 => {
                    if let Some(mut x) = s.get_mut().as_mut() {
                        put_noisy(&mut *x, &mut g());
                    }
                    if let Some(m) = &mut m {
                        put_noisy(m, &mut g());
                    }
                    "after an edit through as_mut"
                }
                1 => {
                    s.get_mut().match_mut(|mut x| put_noisy(&mut *x, &mut g()), || ());
                    if let Some(m) = &mut m {
                        put_noisy(m, &mut g());
                    }
                    "after an edit through match_mut"
                }
                2 => {
                    let mut ctx = g();
                    let hit = s.get_mut().match_mut_ctx(
                        &mut ctx,
                        |k, mut x| {
                            put_noisy(&mut *x, k);
                            true
                        },
                        |_| false,
                    );
                    ck_eq!(hit, m.is_some(), "{}: match_mut_ctx", e.src);
                    if let Some(m) = &mut m {
                        put_noisy(m, &mut g());
                    }
                    "after an edit through match_mut_ctx"
                }
                3 => {
                    let t: Option<T> = match c.below(3) {
                        0 => s.take().into(),
                        1 => s.take().match_owned(Some, || None),
                        _ => s.take().match_owned_ctx(Some(()), |k, a| k.map(|_| a), |_| None),
                    };
                    ck!(
                        match (&t, &m) {
                            (Some(a), Some(b)) => a.same(b),
                            (None, None) => true,
                            _ => false,
                        },
                        "{}: conversion to the standard option",
                        e.src
                    );
                    s = Slot::new(o_build(t, c), c);
                    "after a conversion to the standard option and back"
                }
                4 => {
                    let n = o_gen::<T>(c);
                    *s.get_mut() = o_build(n.as_ref().map(T::dup), c);
                    m = n;
                    "after a replacement"
                }
                5 => {
                    // what `take` does
                    let t = std::mem::take(s.get_mut());
                    o_same(&t, &m, e, "after being taken")?;
                    m = None;
                    "after its value was taken"
                }
                6 => {
                    let d = T::gen(c);
                    let d2 = d.dup();
                    let a = if m.is_some() && c.bool() { unsafe { s.take().unwrap_unchecked() } } else { s.take().unwrap_or_else(|| d) };
                    let b = m.unwrap_or_else(|| d2);
                    ck!(a.same(&b), "{}: unwrap_or_else", e.src);
                    s = Slot::new(SOption::Some(a), c);
                    m = Some(b);
                    "after unwrap_or_else"
                }
                7 => {
                    let x = crate::catch(|| s.take().unwrap());
                    ck_eq!(x.is_ok(), m.is_some(), "{}: unwrap", e.src);
                    if let (Ok(x), Some(m)) = (x, &m) {
                        ck!(x.same(m), "{}: unwrap's payload", e.src);
                    }
                    m = None;
                    s = Slot::new(SOption::None(), c);
                    "after unwrap"
                }
                _ => {
                    s.get().match_ref_ctx(&mut g(), |k, a| a.poke(k), |_| ());
                    if let Some(m) = &m {
                        m.poke(&mut g());
                    }
                    noise(s.get_mut(), c);
                    "after overwriting unused bits"
                }
            };
            op!(c, "{when}: {:02x?}", bytes(s.get()));
            o_same(s.get(), &m, e, when)?;
        }
    }
    track::finish().map_err(|x| format!("{}: {x}", e.src))
}
pub fn c04_opt_full<T: Full + IDeterminantProvider<()>>(c: &mut Case, e: &Ent) -> Res {
    if c.below(3) > 0 {
        return c04_opt::<T>(c, e);
    }
    track::reset();
    c.nontrivial = size_of::<T>() > 0;
    {
        let m = o_gen::<T>(c);
        let m2 = if c.bool() { m.clone() } else { o_gen(c) };
        let mut r = o_build(m.clone(), c);
        let mut r2 = o_build(m2.clone(), c);
        noise(&mut r, c);
        noise(&mut r2, c);
        ck_eq!(r == r2, m == m2, "{}: equality of {m:?} and {m2:?}", e.src);
        if m == m2 {
            ck_eq!(hash_of(&r), hash_of(&r2), "{}: hashes of equal values", e.src);
        }
        if m.is_some() != m2.is_some() || hash_of(&m) != hash_of(&m2) {
            ck!(hash_of(&r) != hash_of(&r2), "{}: {m:?} and {m2:?} have the same hash", e.src);
        }
        let d = r.clone();
        drop(r);
        o_same(&d, &m, e, "of a clone")?;
        ck_eq!(format!("{d:?}"), format!("{m:?}"), "{}: debug format", e.src);
    }
    track::finish().map_err(|x| format!("{}: {x}", e.src))
}

// ---------------------------------------------------------------- entry point of the generated binaries
thread_local! {
    static TABLE: std::cell::Cell<&'static [Ent]> = const { std::cell::Cell::new(&[]) };
}
/// One case: draws a type, then runs its check.
pub fn set_table(t: Vec<&'static [Ent]>) {
    let (n, empty) = (t.len(), t.iter().filter(|x| x.is_empty()).count());
    let all: Vec<Ent> = t.into_iter().flat_map(|s| s.iter().map(|e| Ent { ..*e })).collect();
    crate::engine::note(format!("{} generated types in {} crates, {} of which were empty because rustc took too long on them", all.len(), n, empty));
    TABLE.with(|x| x.set(all.leak()));
}
pub fn table() -> &'static [Ent] {
    TABLE.with(|x| x.get())
}
pub fn pick(c: &mut Case) -> Res {
    let t = table();
    let e = &t[c.usize(t.len())];
    op!(c, "type {}: {}", e.name, e.src);
    (e.run)(c, e)
}
