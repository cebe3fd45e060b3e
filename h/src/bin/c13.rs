//! C13: reference counts of shared pointers, sequentially, against an exact count model.
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
use stabby::alloc::{AllocPtr, AllocSlice};
use stabby::string::{ArcStr, String as SString, WeakStr};
use stabby::sync::{Arc as SArc, ArcSlice, Weak as SWeak, WeakSlice};
use stabby::vec::Vec as SVec;
use stabby::Dyn;
use vph::chk::{self, Chk, ChkR, ChkZ, TA};
use vph::track::{self, *};
use vph::*;

#[stabby::stabby]
pub trait Val {
    extern "C" fn get_val(&self) -> u32;
    extern "C" fn set_val(&mut self, v: u32);
}
impl Val for Tr {
    extern "C" fn get_val(&self) -> u32 {
        self.val()
    }
    extern "C" fn set_val(&mut self, v: u32) {
        self.set(v)
    }
}
macro_rules! val { ($($t:ty),*) => { $(impl Val for $t {
    extern "C" fn get_val(&self) -> u32 { self.val() }
    extern "C" fn set_val(&mut self, v: u32) { self.set(v) }
})* } }
val!(TrBig, Tr64, TrZ, TrNiche);
type Vt = stabby::vtable!(Val);
type DArc<A> = Dyn<'static, SArc<(), A>, Vt>;
type DWeak<A> = Dyn<'static, SWeak<(), A>, Vt>;

enum H<E: El + Val, A: TA> {
    A(SArc<E, A>),
    W(SWeak<E, A>),
    S(ArcSlice<E, A>),
    Ws(WeakSlice<E, A>),
    D(DArc<A>),
    Dw(DWeak<A>),
    RawA(AllocPtr<E, A>),
    RawW(AllocPtr<E, A>),
    RawS(AllocSlice<E, A>),
}
impl<E: El + Val, A: TA> H<E, A> {
    fn strong(&self) -> bool {
        matches!(self, H::A(_) | H::S(_) | H::D(_) | H::RawA(_) | H::RawS(_))
    }
    fn drop(self) {
        match self {
            H::RawA(p) => drop(unsafe { SArc::from_raw(p) }),
            H::RawW(p) => drop(unsafe { SWeak::from_raw(p) }),
            H::RawS(p) => drop(unsafe { ArcSlice::from_raw(p) }),
            _ => {}
        }
    }
}
struct Group<E: El + Val, A: TA> {
    v: u32,
    hs: Vec<H<E, A>>,
}
impl<E: El + Val, A: TA> Group<E, A> {
    fn s(&self) -> usize {
        self.hs.iter().filter(|h| h.strong()).count()
    }
    fn w(&self) -> usize {
        self.hs.iter().filter(|h| !h.strong()).count()
    }
}
/// every observable count, value and drop agrees with the model
fn audit<E: El + Val, A: TA>(gs: &[Group<E, A>], at: &str) -> Res {
    let (mut alive, mut blocks) = (0, 0);
    for (gi, g) in gs.iter().enumerate() {
        let (s, w) = (g.s(), g.w());
        alive += (s > 0) as i64;
        blocks += (s + w > 0) as usize;
        for h in &g.hs {
            match h {
                H::A(a) => {
                    ck_eq!((SArc::strong_count(a), SArc::weak_count(a)), (s, w + 1), "{at}: counts of value {gi}");
                    ck_eq!(SArc::is_unique(a), s == 1 && w == 0, "{at}: is_unique");
                    ck_eq!(a.val(), g.v, "{at}: value {gi}");
                }
                H::S(a) => {
                    ck_eq!((ArcSlice::strong_count(a), ArcSlice::weak_count(a)), (s, w + 1), "{at}: counts of slice {gi}");
                    ck_eq!(ArcSlice::is_unique(a), s == 1 && w == 0, "{at}: is_unique");
                    ck_eq!(a.iter().map(|x| x.val()).collect::<Vec<_>>(), vec![g.v], "{at}: slice {gi}");
                }
                H::D(d) => ck_eq!(d.get_val(), g.v, "{at}: value {gi} through its trait object"),
                _ => {}
            }
        }
    }
    ck_eq!(track::alive(), alive, "{at}: values alive");
    if A::CHECKED {
        ck_eq!(chk::live(), blocks, "{at}: blocks allocated");
    }
    chk::mid().map_err(|e| format!("{at}: {e}"))
}
fn run<E: El + Val, A: TA>(c: &mut Case) -> Res {
    chk::begin();
    body::<E, A>(c)?;
    chk::end()
}
fn dweak<A: TA>(d: &DArc<A>) -> DWeak<A> {
    let w: Dyn<'_, SWeak<(), A>, Vt> = d.into();
    unsafe { core::mem::transmute(w) }
}
fn body<E: El + Val, A: TA>(c: &mut Case) -> Res {
    let mut gs: Vec<Group<E, A>> = vec![];
    let mut shared_ops = 0;
    for step in 0..c.range(3, 40) {
        if gs.is_empty() || (gs.len() < 3 && c.chance(1, 8)) {
            let x = c.below(1000) as u32;
            op!(c, "new value #{} = {x}", gs.len());
            let a = if c.bool() {
                SArc::new_in(E::new(x), A::mk(5))
            } else {
                match SArc::try_new_in(E::new(x), A::mk(5)) {
                    Ok(a) => a,
                    Err(_) => return Err("try_new_in failed".into()),
                }
            };
            let v = a.val();
            gs.push(Group { v, hs: vec![H::A(a)] });
        }
        let gi = c.usize(gs.len());
        let nh = gs[gi].hs.len();
        if nh == 0 {
            gs.remove(gi);
            continue;
        }
        let hi = c.usize(nh);
        let (s, w) = (gs[gi].s(), gs[gi].w());
        shared_ops += (s + w > 1) as u32;
        let which = c.below(12);
        let at = format!("step {step} op {which} on value {gi} ({s} strong, {w} weak)");
        let g = &mut gs[gi];
        let mut h = g.hs.swap_remove(hi);
        if which < 3 {
            op!(c, "drop handle of #{gi} ({s}s {w}w)");
            h.drop();
            audit(&gs, &at)?;
            continue;
        }
        let keep = match h {
            H::A(mut a) => {
                op!(c, "arc op {which} on #{gi} ({s}s {w}w)");
                match which {
                    3 => {
                        g.hs.push(H::A(if c.bool() { a.clone() } else { (&a).into() }));
                        H::A(a)
                    }
                    4 => {
                        g.hs.push(H::W(SArc::downgrade(&a)));
                        H::A(a)
                    }
                    5 => match SArc::try_into_inner(a) {
                        Ok(v) => {
                            ck!(s == 1 && w == 0, "{at}: try_into_inner took a shared value");
                            ck_eq!(v.val(), g.v, "{at}: try_into_inner");
                            drop(v);
                            audit(&gs, &at)?;
                            continue;
                        }
                        Err(a) => {
                            ck!(s > 1 || w > 0, "{at}: try_into_inner refused a unique value");
                            H::A(a)
                        }
                    },
                    6 => {
                        let x = c.below(1000) as u32;
                        match SArc::get_mut(&mut a) {
                            Some(v) => {
                                ck!(s == 1 && w == 0, "{at}: get_mut of a shared value");
                                v.set(x);
                                g.v = v.val();
                            }
                            None => ck!(s > 1 || w > 0, "{at}: get_mut refused a unique value"),
                        }
                        H::A(a)
                    }
                    7 => {
                        let x = c.below(1000) as u32;
                        let p = SArc::make_mut(&mut a);
                        ck_eq!(p.val(), g.v, "{at}: make_mut value");
                        p.set(x);
                        let v = p.val();
                        if s == 1 && w == 0 {
                            g.v = v;
                            H::A(a)
                        } else {
                            gs.push(Group { v, hs: vec![H::A(a)] });
                            audit(&gs, &at)?;
                            continue;
                        }
                    }
                    8 => {
                        let p = SArc::into_raw(a);
                        if c.bool() {
                            let prev = unsafe { SArc::<E, A>::increment_strong_count(p.ptr.as_ptr()) };
                            ck_eq!(prev, s, "{at}: increment_strong_count");
                            g.hs.push(H::RawA(p));
                        }
                        H::RawA(p)
                    }
                    9 => {
                        let prev = SArc::increment_weak_count(&a);
                        ck_eq!(prev, w + 1, "{at}: increment_weak_count");
                        g.hs.push(H::RawW(AllocPtr { ptr: core::ptr::NonNull::from(&*a), marker: Default::default() }));
                        H::A(a)
                    }
                    10 => H::S(a.into()),
                    _ => H::D(a.into()),
                }
            }
            H::W(k) => {
                op!(c, "weak op {which} on #{gi} ({s}s {w}w)");
                match which {
                    3..=5 => {
                        match k.upgrade() {
                            Some(a) => {
                                ck!(s > 0, "{at}: upgraded a dropped value");
                                ck_eq!(a.val(), g.v, "{at}: upgraded value");
                                g.hs.push(H::A(a))
                            }
                            None => ck!(s == 0, "{at}: upgrade refused while a strong handle lives"),
                        }
                        H::W(k)
                    }
                    6 | 7 => {
                        g.hs.push(H::W(if c.bool() { k.clone() } else { (&k).into() }));
                        H::W(k)
                    }
                    _ => H::RawW(SWeak::into_raw(k)),
                }
            }
            H::S(mut a) => {
                op!(c, "slice op {which} on #{gi} ({s}s {w}w)");
                match which {
                    3..=5 => {
                        g.hs.push(H::S(a.clone()));
                        H::S(a)
                    }
                    6 | 7 => {
                        g.hs.push(H::Ws((&a).into()));
                        H::S(a)
                    }
                    8 => {
                        match a.as_slice_mut() {
                            Some(x) => {
                                ck!(s == 1 && w == 0, "{at}: mutable access to a shared slice");
                                x[0].set(77);
                                g.v = x[0].val();
                            }
                            None => ck!(s > 1 || w > 0, "{at}: mutable access refused"),
                        }
                        H::S(a)
                    }
                    9 => match SVec::try_from(a) {
                        Ok(v) => {
                            ck!(s == 1 && w == 0, "{at}: shared slice became a vector");
                            ck_eq!(v.iter().map(|x| x.val()).collect::<Vec<_>>(), vec![g.v], "{at}: vector");
                            H::S(v.into())
                        }
                        Err(a) => {
                            ck!(s > 1 || w > 0 || core::mem::size_of::<E>() == 0, "{at}: unique slice refused");
                            H::S(a)
                        }
                    },
                    _ => H::RawS(ArcSlice::into_raw(a)),
                }
            }
            H::Ws(k) => {
                op!(c, "weak slice op {which} on #{gi} ({s}s {w}w)");
                if which < 8 {
                    match k.upgrade() {
                        Some(a) => {
                            ck!(s > 0, "{at}: upgraded a dropped slice");
                            g.hs.push(H::S(a))
                        }
                        None => ck!(s == 0, "{at}: upgrade refused while a strong handle lives"),
                    }
                } else {
                    g.hs.push(H::Ws(if c.bool() { k.clone() } else { (&k).into() }));
                }
                H::Ws(k)
            }
            H::D(mut d) => {
                op!(c, "trait object op {which} on #{gi} ({s}s {w}w)");
                match which {
                    3..=5 => {
                        g.hs.push(H::D(d.clone()));
                        H::D(d)
                    }
                    6 | 7 => {
                        g.hs.push(H::Dw(dweak(&d)));
                        H::D(d)
                    }
                    8 | 9 => {
                        match d.try_as_mut() {
                            Some(mut m) => {
                                ck!(s == 1 && w == 0, "{at}: mutable access to a shared trait object");
                                m.set_val(123);
                                g.v = E::new(123).val();
                            }
                            None => ck!(s > 1 || w > 0, "{at}: mutable access refused"),
                        }
                        H::D(d)
                    }
                    _ => {
                        ck_eq!(d.as_ref().get_val(), g.v, "{at}: borrowed trait object");
                        H::D(d)
                    }
                }
            }
            H::Dw(k) => {
                op!(c, "weak trait object op {which} on #{gi} ({s}s {w}w)");
                if which < 8 {
                    let r: Option<DArc<A>> = k.clone().upgrade().into();
                    match r {
                        Some(d) => {
                            ck!(s > 0, "{at}: upgraded a dropped trait object");
                            ck_eq!(d.get_val(), g.v, "{at}: upgraded trait object");
                            g.hs.push(H::D(d))
                        }
                        None => ck!(s == 0, "{at}: upgrade refused while a strong handle lives"),
                    }
                    H::Dw(k)
                } else if which < 10 {
                    g.hs.push(H::Dw(k.clone()));
                    H::Dw(k)
                } else {
                    // consuming upgrade
                    let r: Option<DArc<A>> = k.upgrade().into();
                    ck_eq!(r.is_some(), s > 0, "{at}: upgrade");
                    match r {
                        Some(d) => H::D(d),
                        None => {
                            audit(&gs, &at)?;
                            continue;
                        }
                    }
                }
            }
            H::RawA(p) => H::A(unsafe { SArc::from_raw(p) }),
            H::RawW(p) => H::W(unsafe { SWeak::from_raw(p) }),
            H::RawS(p) => H::S(unsafe { ArcSlice::from_raw(p) }),
        };
        gs[gi].hs.push(keep);
        audit(&gs, &at)?;
    }
    c.nontrivial = shared_ops >= 4;
    for g in gs {
        for h in g.hs {
            h.drop();
        }
    }
    Ok(())
}

fn strs<A: TA>(c: &mut Case) -> Res {
    chk::begin();
    {
        let n = c.usize(6);
        let t: String = (0..n).map(|_| *c.pick(&['a', 'é', '\u{1F600}', 'z', '\0'])).collect();
        let mut s = SString::new_in(A::mk(5));
        s += &t;
        let mut t = t;
        let mut strong = vec![ArcStr::from(s)];
        let mut weak: Vec<WeakStr<A>> = vec![];
        op!(c, "text {t:?}");
        for step in 0..c.range(2, 20) {
            let which = c.below(8);
            let at = format!("step {step} op {which} ({}s {}w)", strong.len(), weak.len());
            op!(c, "{at}");
            c.nontrivial |= strong.len() + weak.len() > 3;
            let alive = !strong.is_empty();
            match which {
                0 if alive => {
                    let x = strong[0].clone();
                    strong.push(x)
                }
                1 if alive => weak.push((&strong[0]).into()),
                2 if alive => {
                    strong.pop();
                }
                3 => {
                    weak.pop();
                }
                4 if !weak.is_empty() => match weak[0].upgrade() {
                    Some(x) => {
                        ck!(alive, "{at}: upgraded a dropped string");
                        strong.push(x)
                    }
                    None => ck!(!alive, "{at}: upgrade refused"),
                },
                5 if !weak.is_empty() => {
                    let x = weak[0].force_upgrade();
                    ck_eq!(x.as_str(), &t[..], "{at}: force_upgrade");
                    strong.push(x);
                }
                6 if !weak.is_empty() => weak.push(weak[0].clone()),
                7 if alive => {
                    let u = strong.len() == 1 && weak.is_empty();
                    let x = &mut strong[0];
                    ck_eq!(ArcStr::is_unique(x), u, "{at}: is_unique");
                    match x.as_str_mut() {
                        Some(x) => {
                            ck!(u, "{at}: mutable access to a shared string");
                            x.make_ascii_uppercase();
                            t.make_ascii_uppercase();
                        }
                        None => ck!(!u, "{at}: mutable access refused"),
                    }
                    let y = strong.swap_remove(0);
                    match SString::try_from(y) {
                        Ok(y) => {
                            ck!(u, "{at}: shared string became owned");
                            ck_eq!(y.as_str(), &t[..], "{at}: owned string");
                            strong.push(y.into());
                        }
                        Err(y) => {
                            ck!(!u, "{at}: unique string refused");
                            strong.push(y);
                        }
                    }
                }
                _ => {}
            }
            for x in &strong {
                ck_eq!(x.as_str(), &t[..], "{at}: text");
            }
            if A::CHECKED {
                ck_eq!(chk::live(), !(strong.is_empty() && weak.is_empty()) as usize, "{at}: blocks");
            }
            chk::mid()?;
        }
    }
    chk::end()
}

fn main() {
    vph::main(
        "C13",
        "random sequences (3-40 operations) over strong, weak, slice, trait-object and raw handles to up to 3 values, all counts, values, drops and blocks compared with a model after every step; non-trivial = at least 4 operations on a value with several handles (strings: more than 3 handles at once)",
        &[
            sub("tr_chk", 1000000, 20000000, run::<Tr, Chk>),
            sub("tr_chkr", 300000, 6000000, run::<Tr, ChkR>),
            sub("tr_chkz", 600000, 12000000, run::<Tr, ChkZ>),
            sub("big_chkz", 400000, 8000000, run::<TrBig, ChkZ>),
            sub("al64_chk", 600000, 12000000, run::<Tr64, Chk>),
            sub("niche_chk", 400000, 8000000, run::<TrNiche, Chk>),
            sub("zst_chk", 400000, 8000000, run::<TrZ, Chk>),
            sub("tr_rust", 400000, 8000000, run::<Tr, RustAlloc>),
            sub("al64_rust", 200000, 4000000, run::<Tr64, RustAlloc>),
            sub("al64_libc", 200000, 4000000, run::<Tr64, LibcAlloc>),
            sub("str_chk", 400000, 8000000, strs::<Chk>),
            sub("str_chkz", 400000, 8000000, strs::<ChkZ>),
        ],
        &[],
    )
}
