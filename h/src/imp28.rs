//! Loading and importing functions from other libraries (C28): values exchanged with them, and what each access must give.
use crate::engine::{catch, mix, Case, Res};
use crate::{ck, op};
use stabby::abi::checked_import::{CanariedImport, CheckedImport, ReportMismatch};
use stabby::abi::report::TypeReport;
use stabby::libloading::StabbyLibrary;
use stabby::IStable;
use std::ops::Deref;

/// Values that both sides can build and digest.
pub trait V {
    fn make(s: u64) -> Self;
    fn sum(&self) -> u64;
}
pub fn fold(v: &[u64]) -> u64 {
    v.iter().fold(v.len() as u64, |a, b| mix(a, *b))
}
macro_rules! ints { ($($t:ty)*) => { $(impl V for $t { fn make(s: u64) -> Self { s as $t } fn sum(&self) -> u64 { *self as u64 } })* } }
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64);
impl V for () {
    fn make(_: u64) {}
    fn sum(&self) -> u64 {
        7
    }
}
impl V for bool {
    fn make(s: u64) -> Self {
        s & 1 == 1
    }
    fn sum(&self) -> u64 {
        *self as u64
    }
}
impl V for f64 {
    fn make(s: u64) -> Self {
        s as u32 as f64 / 16.
    }
    fn sum(&self) -> u64 {
        self.to_bits()
    }
}
impl V for core::num::NonZeroU16 {
    fn make(s: u64) -> Self {
        core::num::NonZeroU16::new(s as u16 | 1).unwrap()
    }
    fn sum(&self) -> u64 {
        self.get() as u64
    }
}
impl<T: V> V for &'static T {
    fn make(s: u64) -> Self {
        Box::leak(Box::new(T::make(s)))
    }
    fn sum(&self) -> u64 {
        (**self).sum()
    }
}
impl<T: V> V for [T; 3] {
    fn make(s: u64) -> Self {
        [T::make(s), T::make(s + 1), T::make(mix(s, 3))]
    }
    fn sum(&self) -> u64 {
        fold(&[self[0].sum(), self[1].sum(), self[2].sum()])
    }
}
impl<T: V + IStable> V for stabby::option::Option<T>
where
    T: stabby::abi::IDeterminantProvider<()>,
{
    fn make(s: u64) -> Self {
        if s % 3 == 0 {
            Self::None()
        } else {
            Self::Some(T::make(s))
        }
    }
    fn sum(&self) -> u64 {
        self.match_ref(|t| mix(1, t.sum()), || 0)
    }
}
impl<T: V + IStable, E: V + IStable> V for stabby::result::Result<T, E>
where
    T: stabby::abi::IDeterminantProvider<E>,
{
    fn make(s: u64) -> Self {
        if s % 2 == 0 {
            Self::Ok(T::make(mix(s, 1)))
        } else {
            Self::Err(E::make(mix(s, 2)))
        }
    }
    fn sum(&self) -> u64 {
        self.match_ref(|t| mix(1, t.sum()), |t| mix(2, t.sum()))
    }
}
impl<T: V> V for stabby::boxed::Box<T> {
    fn make(s: u64) -> Self {
        Self::new(T::make(s))
    }
    fn sum(&self) -> u64 {
        (**self).sum()
    }
}
impl<T: V> V for stabby::sync::Arc<T> {
    fn make(s: u64) -> Self {
        Self::new(T::make(s))
    }
    fn sum(&self) -> u64 {
        (**self).sum()
    }
}
impl<T: V> V for stabby::vec::Vec<T> {
    fn make(s: u64) -> Self {
        (0..s % 4).map(|i| T::make(mix(s, i))).collect()
    }
    fn sum(&self) -> u64 {
        fold(&self.iter().map(|t| t.sum()).collect::<Vec<_>>())
    }
}
impl<T: V> V for stabby::slice::Slice<'static, T> {
    fn make(s: u64) -> Self {
        (&*(0..s % 4).map(|i| T::make(mix(s, i))).collect::<Vec<_>>().leak()).into()
    }
    fn sum(&self) -> u64 {
        fold(&self.iter().map(|t| t.sum()).collect::<Vec<_>>())
    }
}
impl V for stabby::string::String {
    fn make(s: u64) -> Self {
        format!("{}{}", s % 100, &"éabc"[..2 * (s % 2) as usize]).into()
    }
    fn sum(&self) -> u64 {
        crate::engine::hash_str(self)
    }
}
impl V for stabby::str::Str<'static> {
    fn make(s: u64) -> Self {
        ["", "a", "héllo", "\0"][s as usize % 4].into()
    }
    fn sum(&self) -> u64 {
        crate::engine::hash_str(self)
    }
}
impl<A: V, B: V> V for stabby::tuple::Tuple2<A, B> {
    fn make(s: u64) -> Self {
        stabby::tuple::Tuple2(A::make(mix(s, 1)), B::make(mix(s, 2)))
    }
    fn sum(&self) -> u64 {
        fold(&[self.0.sum(), self.1.sum()])
    }
}
macro_rules! fns { ($($abi:literal $($u:ident)?, $name:ident;)*) => { $(
    $($u)? extern $abi fn $name<const K: u64, A: V, B: V>(a: A) -> B { B::make(mix(K, a.sum())) }
    impl<A: V + 'static, B: V + 'static> V for $($u)? extern $abi fn(A) -> B {
        fn make(s: u64) -> Self { if s % 2 == 0 { $name::<5, A, B> } else { $name::<6, A, B> } }
        #[allow(unused_unsafe)]
        fn sum(&self) -> u64 { fold(&[unsafe { (self)(A::make(77)) }.sum(), unsafe { (self)(A::make(78)) }.sum()]) }
    }
)* } }
fns!("C", fc; "C" unsafe, fuc; "C-unwind", fcu; "C-unwind" unsafe, fucu;);

pub enum Acc {
    /// the function was given; whether each call returned what the exported one must
    Called(Result<(), String>),
    /// the access was refused: what the error says, and whether it holds the right reports
    Refused(String, bool),
    Panicked(String),
}
/// One exported function seen through one signature.
pub struct Imp {
    pub set: usize,
    pub sym: &'static str,
    pub ty: &'static str,
    /// both sides declare the same signature
    pub equal: bool,
    /// the reports' texts: the importing side's, and the exporting one's as its own library prints it
    pub local: &'static TypeReport,
    pub load: fn(&libloading::Library, u64) -> Acc,
    /// the statically linked import: (as_ref or deref, seed)
    pub access: Option<fn(u8, u64) -> Acc>,
}
#[macro_export]
macro_rules! imp28_call { ($f:expr, $s:expr, $id:expr, [$($a:ident: $t:ty),*], $r:ty) => {{
    let s = $s;
    let mut k = 0u64;
    $(k += 1; let $a = <$t as $crate::imp28::V>::make($crate::mix(s, k));)*
    let _ = k;
    let want = <$r as $crate::imp28::V>::make($crate::imp28::fold(&[$id, $($crate::imp28::V::sum(&$a)),*]));
    let want = $crate::imp28::V::sum(&want);
    #[allow(unused_unsafe)]
    let got = $crate::imp28::V::sum(&unsafe { ($f)($($a),*) });
    if want == got { Ok(()) } else { Err(format!("the call returned a value with digest {got:x}, the exported function returns {want:x}")) }
}} }
#[macro_export]
macro_rules! imp28 { ($set:expr, $sym:expr, $equal:expr, $id:expr, ($($q:tt)*), [$($a:ident: $t:ty),*], $r:ty, $access:expr) => {
    $crate::imp28::Imp {
        set: $set,
        sym: $sym,
        ty: stringify!($($q)* fn($($t),*) -> $r),
        equal: $equal,
        local: <$($q)* fn($($t),*) -> $r as stabby::IStable>::REPORT,
        load: |l, s| $crate::imp28::load::<$($q)* fn($($t),*) -> $r>(l, $sym, |f| $crate::imp28_call!(*f, s, $id, [$($a: $t),*], $r)),
        access: $access,
    }
} }
#[macro_export]
macro_rules! imp28_access { ($st:path, $id:expr, ($($q:tt)*), [$($a:ident: $t:ty),*], $r:ty) => {
    Some(|how: u8, s: u64| $crate::imp28::access(&$st, how, <$($q)* fn($($t),*) -> $r as stabby::IStable>::REPORT, |f: &$($q)* fn($($t),*) -> $r| $crate::imp28_call!(*f, s, $id, [$($a: $t),*], $r)))
} }
pub fn load<T: IStable>(l: &libloading::Library, sym: &str, call: impl Fn(&T) -> Result<(), String>) -> Acc {
    match unsafe { l.get_stabbied::<T>(sym.as_bytes()) } {
        Ok(f) => Acc::Called(call(&f).and_then(|()| call(&f))),
        Err(e) => {
            let e = e.to_string();
            // the library tells its own report
            let theirs = unsafe { l.get::<extern "C" fn() -> &'static TypeReport>(format!("{sym}_stabbied_v3_report").as_bytes()) };
            let ok = e.contains(&T::REPORT.to_string()) && theirs.map_or(true, |r| e.contains(&r().to_string()));
            Acc::Refused(e, ok)
        }
    }
}
pub fn access<F>(i: &'static CheckedImport<F>, how: u8, local: &'static TypeReport, call: impl Fn(&F) -> Result<(), String>) -> Acc {
    if how == 0 {
        match i.as_ref() {
            Ok(f) => Acc::Called(call(f)),
            Err(e) => refused(e, local),
        }
    } else {
        match catch(|| call(i.deref())) {
            Ok(r) => Acc::Called(r),
            Err(p) => Acc::Panicked(p),
        }
    }
}
fn refused(e: ReportMismatch, local: &'static TypeReport) -> Acc {
    let text = e.to_string();
    let told = |r: &TypeReport| text.contains(&r.to_string()) || text.contains(&format!("{r:?}")) || text.contains(&format!("{r:#?}"));
    let ok = e.local == local && e.loaded != local && told(e.local) && told(e.loaded);
    Acc::Refused(text, ok)
}
fn judge(i: &Imp, a: Acc, what: &str) -> Res {
    let at = || format!("{what} of {} as {} (the signatures are {})", i.sym, i.ty, if i.equal { "the same" } else { "different" });
    match a {
        Acc::Called(r) => {
            ck!(i.equal, "{}: accepted", at());
            r.map_err(|e| format!("{}: {e}", at()))
        }
        Acc::Refused(e, ok) => {
            ck!(!i.equal, "{}: refused: {e}", at());
            ck!(ok, "{}: the error doesn't describe both signatures: {e}", at());
            Ok(())
        }
        Acc::Panicked(p) => {
            ck!(!i.equal, "{}: panicked: {p}", at());
            Ok(())
        }
    }
}
pub struct World {
    pub imps: Vec<Imp>,
    pub libs: Vec<libloading::Library>,
    pub can: libloading::Library,
    /// masks of canaries that the C library's functions `m<mask>` have
    pub masks: Vec<u32>,
    pub canaried: Vec<Canaried>,
    /// canaried functions of the generated libraries: set, name, call
    pub own: Vec<(usize, &'static str, fn(&libloading::Library, u64) -> Result<Result<(), String>, String>)>,
}
/// A static canaried import of one function of the C library.
pub struct Canaried {
    pub spec: &'static str,
    pub want: u32,
    pub name: &'static str,
    pub index: u32,
    pub fun: &'static CanariedImport<unsafe extern "C" fn(u64) -> u64>,
}
// bits of the masks
pub const HOST: u32 = 1 << 5;
static mut WORLD: Option<World> = None;
pub fn set_world(w: World) {
    unsafe { WORLD = Some(w) }
}
#[allow(static_mut_refs)]
pub fn world() -> &'static World {
    unsafe { WORLD.as_ref().unwrap() }
}
pub fn get_canaried_call<T>(l: &libloading::Library, sym: &str, call: impl Fn(&T) -> Result<(), String>) -> Result<Result<(), String>, String> {
    match unsafe { l.get_canaried::<T>(sym.as_bytes()) } {
        Ok(f) => Ok(call(&f)),
        Err(e) => Err(e.to_string()),
    }
}
/// Loads at run time, in any order.
pub fn loads(c: &mut Case) -> Res {
    let w = world();
    for _ in 0..c.range(1, 6) {
        let i = c.pick(&w.imps);
        let lib = &w.libs[i.set];
        let s = c.u64() >> 8;
        match c.below(16) {
            0 => {
                op!(c, "load a symbol that doesn't exist as {}", i.ty);
                let sym = *c.pick(&["nope", "", "f0", "f0_0_stabbied_v3"]);
                let missing = Imp { sym, ..*i };
                ck!(matches!((load_like(i))(lib, sym), Acc::Refused(..)), "load of {} as {}: found", missing.sym, i.ty);
            }
            1 => {
                let o = c.pick(&w.own);
                op!(c, "load {} (exported without reflection) as {}", o.1, i.ty);
                ck!(matches!((load_like(i))(&w.libs[o.0], o.1), Acc::Refused(..)), "load of {}, exported without a report, as {}: found", o.1, i.ty);
            }
            _ => {
                op!(c, "load {} as {} (equal: {})", i.sym, i.ty, i.equal);
                c.label(if i.equal { "same signature" } else { "different signature" });
                c.nontrivial = true;
                judge(i, (i.load)(lib, s), "load")?;
            }
        }
    }
    Ok(())
}
/// The symbol is absent, so its type doesn't matter.
fn load_like(_: &Imp) -> fn(&libloading::Library, &str) -> Acc {
    |l, s| load::<extern "C" fn(u8) -> u8>(l, s, |_| Ok(()))
}
/// Static imports, accessed in any order, possibly by several threads.
pub fn statics(c: &mut Case) -> Res {
    let all: Vec<&'static Imp> = world().imps.iter().filter(|i| i.access.is_some()).collect();
    let n = c.range(1, 4);
    for _ in 0..n {
        let i: &'static Imp = *c.pick(&all);
        c.label(if i.equal { "same signature" } else { "different signature" });
        let threads = if c.chance(1, 8) { 2 + c.below(2) } else { 1 };
        let hows: Vec<(u8, u64)> = (0..c.range(1, 5)).map(|_| (c.below(2) as u8, c.u64() >> 8)).collect();
        op!(c, "{threads} thread(s): {} as {} (equal: {}): {}", i.sym, i.ty, i.equal, hows.iter().map(|h| if h.0 == 0 { "as_ref" } else { "deref" }).collect::<Vec<_>>().join(", "));
        if threads > 1 || hows.len() > 1 {
            c.nontrivial = true;
        }
        if threads == 1 {
            for (h, s) in &hows {
                judge(i, (i.access.unwrap())(*h, *s), "import")?;
            }
        } else {
            let r: Vec<Res> = std::thread::scope(|sc| {
                let t: Vec<_> = (0..threads)
                    .map(|t| {
                        let hows = &hows;
                        sc.spawn(move || {
                            for (h, s) in hows {
                                judge(i, (i.access.unwrap())(*h, s ^ t), "import")?;
                            }
                            Ok(())
                        })
                    })
                    .collect();
                t.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
            });
            for r in r {
                r?;
            }
        }
    }
    Ok(())
}

// --- cells of their own, whose exporting side is simulated
mod sim {
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
    use stabby::abi::report::TypeReport;
    pub static MADE: AtomicU64 = AtomicU64::new(0);
    pub static DROPPED: AtomicU64 = AtomicU64::new(0);
    pub static CALLS: AtomicU64 = AtomicU64::new(0);
    pub static SAME: AtomicU64 = AtomicU64::new(0);
    pub static ARG: AtomicUsize = AtomicUsize::new(0);
    pub struct Tok(pub u64, pub std::boxed::Box<u64>);
    impl Drop for Tok {
        fn drop(&mut self) {
            self.0 = 0;
            DROPPED.fetch_add(1, SeqCst);
        }
    }
    #[allow(improper_ctypes_definitions)]
    pub unsafe extern "C" fn checker(r: &TypeReport) -> Option<Tok> {
        CALLS.fetch_add(1, SeqCst);
        ARG.store(r as *const _ as usize, SeqCst);
        (SAME.load(SeqCst) == 1).then(|| {
            let n = MADE.fetch_add(1, SeqCst) + 1;
            Tok(n, std::boxed::Box::new(n))
        })
    }
    pub unsafe extern "C" fn theirs() -> &'static TypeReport {
        if SAME.load(SeqCst) == 1 {
            <extern "C" fn(u8) -> u16 as stabby::IStable>::REPORT
        } else {
            <extern "C" fn(u8) -> u32 as stabby::IStable>::REPORT
        }
    }
    pub static CANARY: AtomicU64 = AtomicU64::new(0);
    pub static INSIDE: AtomicU64 = AtomicU64::new(0);
    pub extern "C" fn canary() {
        INSIDE.fetch_add(1, SeqCst);
        std::thread::yield_now();
        CANARY.fetch_add(1, SeqCst);
        INSIDE.fetch_sub(1, SeqCst);
    }
}
pub fn cells(c: &mut Case) -> Res {
    use std::sync::atomic::Ordering::SeqCst;
    for x in [&sim::MADE, &sim::DROPPED, &sim::CALLS, &sim::CANARY] {
        x.store(0, SeqCst);
    }
    if c.chance(1, 5) {
        return canary_cell(c);
    }
    let same = c.bool();
    sim::SAME.store(same as u64, SeqCst);
    let local = <extern "C" fn(u8) -> u16 as IStable>::REPORT;
    let cell = CheckedImport::<sim::Tok>::new(sim::checker, sim::theirs, local);
    let mut cell = Box::new(cell);
    let mut first: Option<u64> = None;
    let one = |cell: &CheckedImport<sim::Tok>, how: u8| -> Result<Option<u64>, String> {
        let tok = |t: &sim::Tok| if t.0 != 0 && t.0 == *t.1 { Ok(Some(t.0)) } else { Err(format!("the function handed out is not the one the library gave: {} {}", t.0, t.1)) };
        if how == 0 {
            match cell.as_ref() {
                Ok(t) => tok(t),
                Err(e) => {
                    ck!(e.local == local && e.loaded == unsafe { sim::theirs() }, "the error holds other reports");
                    Ok(None)
                }
            }
        } else {
            catch(|| tok(cell.deref())).unwrap_or(Ok(None))
        }
    };
    c.label(if same { "same signature" } else { "different signature" });
    let n = c.below(6);
    let mut accesses = 0;
    for _ in 0..n {
        match c.below(8) {
            0 => {
                op!(c, "move it");
                let x = *cell;
                cell = Box::new(x);
            }
            1 | 2 => {
                let t = c.range(2, 3);
                let k = c.range(1, 3);
                let how = c.below(2) as u8;
                op!(c, "{t} threads: {k} accesses each");
                accesses += t * k;
                let (cell, one) = (&*cell, &one);
                let r: Vec<Result<Vec<Option<u64>>, String>> = {
                    let bar = std::sync::Barrier::new(t as usize);
                    let bar = &bar;
                    // the function is behind a raw pointer for the compiler's sake: closures borrow it on every thread
                    struct S<T>(T);
                    unsafe impl<T> Sync for S<T> {}
                    unsafe impl<T> Send for S<T> {}
                    let s = S((cell, one));
                    let s = &s;
                    std::thread::scope(|sc| {
                        let h: Vec<_> = (0..t)
                            .map(|_| {
                                sc.spawn(move || {
                                    let s = s;
                                    bar.wait();
                                    (0..k).map(|_| (s.0 .1)(s.0 .0, how)).collect()
                                })
                            })
                            .collect();
                        h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
                    })
                };
                for r in r {
                    for g in r? {
                        ck!(g.is_some() == same, "an access from a thread was {}", if same { "refused, though the signatures agree" } else { "given a function, though the signatures differ" });
                        if let Some(g) = g {
                            ck!(*first.get_or_insert(g) == g, "accesses gave different functions");
                        }
                    }
                }
            }
            x => {
                let how = (x % 2) as u8;
                op!(c, "{}", if how == 0 { "as_ref" } else { "deref" });
                accesses += 1;
                let g = one(&cell, how)?;
                ck!(g.is_some() == same, "an access was {}", if same { "refused, though the signatures agree" } else { "given a function, though the signatures differ" });
                if let Some(g) = g {
                    ck!(*first.get_or_insert(g) == g, "accesses gave different functions");
                }
            }
        }
    }
    if accesses > 1 {
        c.nontrivial = true;
    }
    if accesses > 0 {
        ck!(sim::ARG.load(SeqCst) == local as *const _ as usize, "the library was asked about another signature");
    }
    op!(c, "drop it");
    drop(cell);
    let (m, d) = (sim::MADE.load(SeqCst), sim::DROPPED.load(SeqCst));
    ck!(m == d, "the library gave {m} functions, {d} of them were dropped");
    Ok(())
}
fn canary_cell(c: &mut Case) -> Res {
    use std::sync::atomic::Ordering::SeqCst;
    c.label("canary");
    let cell = CanariedImport::new(41u64, sim::canary);
    let n = c.range(1, 5);
    for k in 0..n {
        let t = if c.chance(1, 3) { c.range(2, 3) } else { 1 };
        op!(c, "{t} thread(s): deref");
        if k > 0 || t > 1 {
            c.nontrivial = true;
        }
        let cell = &cell;
        let go = move || {
            let v = **cell;
            let n = sim::CANARY.load(SeqCst);
            ck!(v == 41, "another function was given");
            ck!(n > 0, "a function was given before its canaries were called");
            Ok(())
        };
        if t == 1 {
            go()?;
        } else {
            let bar = std::sync::Barrier::new(t as usize);
            let bar = &bar;
            let r: Vec<Res> = std::thread::scope(|sc| {
                let h: Vec<_> = (0..t)
                    .map(|_| {
                        sc.spawn(move || {
                            bar.wait();
                            go()
                        })
                    })
                    .collect();
                h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
            });
            for r in r {
                r?;
            }
        }
    }
    Ok(())
}
/// Canary-checked loads: functions whose library has any subset of the canaries.
pub fn canaried_loads(c: &mut Case) -> Res {
    let w = world();
    if c.chance(1, 3) {
        let o = c.pick(&w.own);
        let s = c.u64() >> 8;
        op!(c, "load {} of a library built with the same compiler", o.1);
        c.label("same compiler");
        return match (o.2)(&w.libs[o.0], s) {
            Ok(r) => r.map_err(|e| format!("{}: {e}", o.1)),
            Err(e) => Err(format!("{}: refused, though its library was built like this program: {e}", o.1)),
        };
    }
    let mask = *c.pick(&w.masks);
    let s = c.u64() >> 8;
    op!(c, "load m{mask}, whose library has the canaries {mask:06b} (host, target, num_jobs, debug, opt_level, rustc)");
    let all = mask | HOST == 0b111111;
    // whether the host's canary is needed isn't specified
    if all && mask & HOST == 0 {
        return Ok(());
    }
    c.nontrivial = !all;
    c.label(if all { "all canaries" } else { "missing canaries" });
    let r = get_canaried_call::<extern "C" fn(u64) -> u64>(&w.can, &format!("m{mask}"), |f| if f(s) == s.wrapping_mul(3).wrapping_add(mask as u64) { Ok(()) } else { Err("another function was called".into()) });
    match r {
        Ok(r) => {
            ck!(all, "m{mask} was found, though its library only has the canaries {mask:06b}");
            r
        }
        Err(e) => {
            ck!(!all, "m{mask} was refused, though its library has all canaries: {e}");
            ck!(!e.is_empty(), "the error is empty");
            Ok(())
        }
    }
}
/// Static canaried imports: the requested canaries, and no other, are called before the first use.
pub fn canaried_statics(c: &mut Case) -> Res {
    let w = world();
    let called = unsafe { w.can.get::<extern "C" fn(u32) -> u32>(b"called") }.map_err(|e| e.to_string())?;
    for _ in 0..c.range(1, 3) {
        let i = c.pick(&w.canaried);
        let s = c.u64() >> 8;
        op!(c, "call {} imported with canaries=\"{}\"", i.name, i.spec);
        c.nontrivial = c.nontrivial || i.want != 0;
        let r = unsafe { (i.fun)(s) };
        ck!(r == s.wrapping_mul(3).wrapping_add(i.index as u64), "the call reached another function");
        let got = called(i.index);
        ck!(got & i.want == i.want, "imported with canaries=\"{}\": called before some of its canaries were (called: {got:06b}, requested: {:06b})", i.spec, i.want);
        ck!(got & !i.want == 0, "imported with canaries=\"{}\": other canaries were called (called: {got:06b}, requested: {:06b})", i.spec, i.want);
    }
    Ok(())
}
