#![recursion_limit = "1024"]
//! C22: scripted futures, run natively and through stable trait objects by an executor that counts everything its wakers are asked.
use stabby::boxed::Box as SBox;
use stabby::future::{MaybeResolved, StableWaker};
use stabby::option::Option as SOption;
use stabby::string::String as SString;
use std::future::Future;
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use vph::chk::{self, Chk, ChkZ};
use vph::engine::{Case, Res};
use vph::track::{self, El, Tr, Tr64, TrBig, TrNiche, TrZ};
use vph::{ck, ck_eq, op, sub};

// ---- the executor
#[derive(Default, Clone, Debug)]
struct Ex {
    live: i64,
    wakes: u64,
    clones: u64,
}
static EX: Mutex<Vec<Ex>> = Mutex::new(vec![]);
fn ex<T>(p: *const (), f: impl FnOnce(&mut Ex) -> T) -> Option<T> {
    let mut v = EX.lock().unwrap_or_else(|e| e.into_inner());
    let i = p as usize;
    match v.get_mut(i.wrapping_sub(1)) {
        Some(x) if x.live > 0 => Some(f(x)),
        Some(_) => {
            track::error(format!("waker {i} of the executor used after it was dropped"));
            None
        }
        None => {
            track::error(format!("not a waker of the executor: {i:#x}"));
            None
        }
    }
}
static VT: RawWakerVTable = RawWakerVTable::new(
    |p| {
        ex(p, |x| {
            x.live += 1;
            x.clones += 1
        });
        RawWaker::new(p, &VT)
    },
    |p| {
        ex(p, |x| {
            x.wakes += 1;
            x.live -= 1
        });
    },
    |p| {
        ex(p, |x| x.wakes += 1);
    },
    |p| {
        ex(p, |x| x.live -= 1);
    },
);
fn executors(n: usize) -> Vec<Waker> {
    *EX.lock().unwrap_or_else(|e| e.into_inner()) = vec![Ex { live: 1, ..Ex::default() }; n];
    (0..n).map(|i| unsafe { Waker::from_raw(RawWaker::new((i + 1) as *const (), &VT)) }).collect()
}
fn wakes() -> Vec<u64> {
    EX.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|x| x.wakes).collect()
}
fn lives() -> Vec<i64> {
    EX.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|x| x.live).collect()
}

// ---- scripts
#[derive(Clone, Copy, Debug)]
enum Act {
    /// these use the waker of the poll
    Wake,
    Keep,
    KeepInto(u32),
    Will(u32),
    /// these use wakers kept earlier
    WakeRef(u32),
    WakeVal(u32),
    Drop(u32),
    Dup(u32),
    Cross(u32, u32),
}
#[derive(Clone, Debug)]
enum Step {
    Poll { ex: usize, acts: Vec<Act> },
    Outside { thread: bool, acts: Vec<Act> },
    DropFuture,
}
#[derive(Default)]
struct World {
    pool: Vec<Waker>,
    will: Vec<bool>,
    acts: Vec<Act>,
}
static W: Mutex<Option<World>> = Mutex::new(None);
fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    f(W.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(World::default))
}
fn act(w: &mut World, acts: &[Act], ctx: Option<&Waker>) {
    for a in acts {
        let n = w.pool.len();
        let at = |i: u32| i as usize % n;
        match (*a, ctx) {
            (Act::Wake, Some(c)) => c.wake_by_ref(),
            (Act::Keep, Some(c)) => w.pool.push(c.clone()),
            (Act::KeepInto(i), Some(c)) if n > 0 => w.pool[at(i)].clone_from(c),
            (Act::Will(i), Some(c)) if n > 0 => {
                let b = w.pool[at(i)].will_wake(c);
                w.will.push(b)
            }
            (Act::WakeRef(i), _) if n > 0 => w.pool[at(i)].wake_by_ref(),
            (Act::WakeVal(i), _) if n > 0 => w.pool.swap_remove(at(i)).wake(),
            (Act::Drop(i), _) if n > 0 => drop(w.pool.swap_remove(at(i))),
            (Act::Dup(i), _) if n > 0 => {
                let k = w.pool[at(i)].clone();
                w.pool.push(k)
            }
            (Act::Cross(i, j), _) if n > 0 => {
                let b = w.pool[at(i)].will_wake(&w.pool[at(j)]);
                w.will.push(b)
            }
            _ => {}
        }
    }
}
/// A future following the script: each poll does what the case put in the world, the `ready`-th poll completes.
pub struct Scripted<O> {
    at: u32,
    ready: u32,
    tr: Tr,
    out: Option<O>,
}
impl<O: Unpin> Scripted<O> {
    fn go(&mut self, c: &mut Context<'_>) -> Poll<O> {
        self.tr.val();
        self.at += 1;
        world(|w| {
            let acts = std::mem::take(&mut w.acts);
            act(w, &acts, Some(c.waker()))
        });
        track::user(track::K_CALL);
        if self.at > self.ready {
            match self.out.take() {
                Some(o) => return Poll::Ready(o),
                None => return Poll::Pending,
            }
        }
        Poll::Pending
    }
}
impl<O: Unpin> Future for Scripted<O> {
    type Output = O;
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<O> {
        self.go(c)
    }
}
fn acts(c: &mut Case, n: usize) -> Vec<Act> {
    (0..c.usize(n))
        .map(|_| {
            let (i, j) = (c.below(4) as u32, c.below(4) as u32);
            match c.below(12) {
                0 => Act::Wake,
                1 | 2 | 3 => Act::Keep,
                4 => Act::KeepInto(i),
                5 => Act::Will(i),
                6 | 7 => Act::WakeRef(i),
                8 => Act::WakeVal(i),
                9 => Act::Drop(i),
                10 => Act::Dup(i),
                _ => Act::Cross(i, j),
            }
        })
        .collect()
}
fn script(c: &mut Case, execs: usize) -> Vec<Step> {
    let n = c.range(1, 8) as usize;
    let mut v = vec![];
    for _ in 0..n {
        v.push(match c.below(6) {
            0..=3 => {
                let ex = if c.chance(3, 4) { 0 } else { c.usize(execs) };
                Step::Poll { ex, acts: acts(c, 5) }
            }
            4 => Step::Outside { thread: c.chance(1, 6), acts: acts(c, 4) },
            _ => {
                if c.chance(1, 3) {
                    Step::DropFuture
                } else {
                    Step::Outside { thread: false, acts: acts(c, 4) }
                }
            }
        });
    }
    v
}
/// What a run showed: for each step the outcome of the poll and the wake-ups received by each executor waker.
#[derive(Default)]
struct Trace {
    steps: Vec<(Option<Option<u32>>, Vec<u64>)>,
    will: Vec<bool>,
    live: Vec<i64>,
    kept: bool,
}
fn outside(thread: bool, acts: &[Act]) {
    if thread {
        std::thread::scope(|s| {
            s.spawn(|| world(|w| act(w, acts, None)));
        });
    } else {
        world(|w| act(w, acts, None));
    }
}
/// `poll` is None once the future is dropped.
fn drive<O: El>(steps: &[Step], execs: usize, again: bool, make: impl FnOnce() -> Box<dyn FnMut(&mut Context<'_>) -> Poll<O>>) -> Trace {
    let ws = executors(execs);
    world(|w| *w = World::default());
    let mut t = Trace::default();
    let mut fut = Some(make());
    for s in steps {
        let mut r = None;
        match s {
            Step::Poll { ex, acts } => {
                if let Some(f) = &mut fut {
                    world(|w| w.acts = acts.clone());
                    let p = f(&mut Context::from_waker(&ws[*ex]));
                    r = Some(match p {
                        Poll::Ready(o) => Some(o.val()),
                        Poll::Pending => None,
                    });
                    if !again && matches!(r, Some(Some(_))) {
                        fut = None;
                    }
                }
            }
            Step::Outside { thread, acts } => outside(*thread, acts),
            Step::DropFuture => fut = None,
        }
        t.kept |= world(|w| w.pool.len() > 0);
        t.steps.push((r, wakes()));
    }
    drop(fut);
    world(|w| {
        t.will = std::mem::take(&mut w.will);
        w.pool.clear();
    });
    t.live = lives();
    drop(ws);
    t
}
fn compare(a: &Trace, b: &Trace, what: &str) -> Res {
    for (i, (x, y)) in a.steps.iter().zip(&b.steps).enumerate() {
        ck_eq!(y.0, x.0, "{what}: outcome of step {i} (not polled / pending / value)");
        ck_eq!(y.1, x.1, "{what}: wake-ups received by each of the executor's wakers after step {i}");
    }
    ck_eq!(b.will.len(), a.will.len(), "{what}: tests of wakers");
    for (i, (x, y)) in a.will.iter().zip(&b.will).enumerate() {
        ck!(!*y || *x, "{what}: test {i}: will_wake is true for wakers of different tasks");
    }
    ck!(b.live.iter().all(|l| *l == 1), "{what}: wakers of the executor still held when all is dropped, beyond its own: {:?}", b.live.iter().map(|l| l - 1).collect::<Vec<_>>());
    Ok(())
}

// ---- by trait object
trait Out: El + Unpin + Send + Sync {}
impl<T: El + Unpin + Send + Sync> Out for T {}
macro_rules! objects {
    ($name:ident, $O:ty) => {
        fn $name(c: &mut Case) -> Res {
            type O = $O;
            type Poller = Box<dyn FnMut(&mut Context<'_>) -> Poll<O>>;
            chk::begin();
            let execs = c.range(1, 3) as usize;
            let steps = script(c, execs);
            let ready = c.below(7) as u32;
            let v = c.below(50) as u32;
            let kind = c.usize(16);
            for s in &steps {
                op!(c, "{s:?}");
            }
            op!(c, "ready at poll {}, wrapper {kind}", ready + 1);
            c.label(["Box", "Box Send", "Box Sync", "Box Send+Sync", "Box Sync+Send", "Box with another trait", "&mut", "as_mut", "Box of Box", "async block in Box", "Box in async block", "other thread", "supertrait", "&mut Send", "DynFuture", "boxed native"][kind]);
            let new = move || Scripted::<O> { at: 0, ready, tr: Tr::new(1), out: Some(O::new(v)) };
            // an async block must not be polled again once complete
            let again = kind != 9 && kind != 10;
            let native = drive::<O>(&steps, execs, again, || {
                let mut f = Box::pin(new());
                Box::new(move |c| f.as_mut().poll(c))
            });
            chk::end()?;
            fn pin<F: Future<Output = O> + 'static>(f: F) -> Poller {
                let mut f = Box::pin(f);
                Box::new(move |c| f.as_mut().poll(c))
            }
            let stable = drive::<O>(&steps, execs, again, || {
                let b = || SBox::new(new());
                match kind {
                    0 => pin::<stabby::dynptr!(SBox<dyn Future<Output = O>>)>(b().into()),
                    1 => pin::<stabby::dynptr!(SBox<dyn Future<Output = O> + Send>)>(b().into()),
                    2 => pin::<stabby::dynptr!(SBox<dyn Future<Output = O> + Sync>)>(b().into()),
                    3 => pin::<stabby::dynptr!(SBox<dyn Future<Output = O> + Send + Sync>)>(b().into()),
                    4 => pin::<stabby::dynptr!(SBox<dyn Future<Output = O> + Sync + Send>)>(b().into()),
                    5 => pin::<stabby::dynptr!(SBox<dyn vph::marks::Alpha + Future<Output = O> + Send>)>(b().into()),
                    6 => {
                        let mut f = Box::new(new());
                        Box::new(move |c| {
                            let mut d: stabby::dynptr!(&mut dyn Future<Output = O>) = (unsafe { &mut *(&mut *f as *mut Scripted<O>) }).into();
                            Pin::new(&mut d).poll(c)
                        })
                    }
                    7 => {
                        let mut f: stabby::dynptr!(SBox<dyn Future<Output = O>>) = b().into();
                        Box::new(move |c| {
                            let mut d = f.as_mut();
                            Pin::new(&mut d).poll(c)
                        })
                    }
                    8 => {
                        let inner: stabby::dynptr!(SBox<dyn Future<Output = O> + Send>) = b().into();
                        pin::<stabby::dynptr!(SBox<dyn Future<Output = O> + Send>)>(SBox::new(inner).into())
                    }
                    9 => {
                        let f = new();
                        pin::<stabby::dynptr!(SBox<dyn Future<Output = O>>)>(SBox::new(async move { f.await }).into())
                    }
                    10 => {
                        let f: stabby::dynptr!(SBox<dyn Future<Output = O>>) = b().into();
                        pin(async move { f.await })
                    }
                    11 => {
                        let mut f: stabby::dynptr!(SBox<dyn Future<Output = O> + Send + Sync>) = b().into();
                        Box::new(move |c| {
                            let w = c.waker();
                            std::thread::scope(|s| s.spawn(|| Pin::new(&mut f).poll(&mut Context::from_waker(w))).join().unwrap())
                        })
                    }
                    12 => {
                        let f: stabby::dynptr!(SBox<dyn Future<Output = O> + vph::marks::Alpha + Send>) = b().into();
                        pin::<stabby::dynptr!(SBox<dyn Future<Output = O> + Send>)>(f.into_super())
                    }
                    13 => {
                        let mut f = Box::new(new());
                        Box::new(move |c| {
                            let mut d: stabby::Dyn<'_, &mut (), stabby::vtable!(Future<Output = O> + Send)> = (unsafe { &mut *(&mut *f as *mut Scripted<O>) }).into();
                            Pin::new(&mut d).poll(c)
                        })
                    }
                    14 => pin::<stabby::future::DynFuture<'static, O>>(b().into()),
                    _ => {
                        let f: Pin<Box<dyn Future<Output = O> + Send>> = Box::pin(new());
                        pin::<stabby::dynptr!(SBox<dyn Future<Output = O> + Send>)>(SBox::new(f).into())
                    }
                }
            });
            c.nontrivial = native.kept && native.steps.iter().filter(|s| s.0.is_some()).count() > 1;
            compare(&native, &stable, "through a trait object")?;
            chk::end()
        }
    };
}
objects!(obj_u32, u32);
objects!(obj_u8, u8);
objects!(obj_u128, u128);
objects!(obj_tr, Tr);
objects!(obj_niche, TrNiche);
objects!(obj_big, TrBig);
objects!(obj_64, Tr64);
objects!(obj_zst, TrZ);

// ---- wakers alone, in any allocator
macro_rules! wakers {
    ($name:ident, $A:ty) => {
        fn $name(c: &mut Case) -> Res {
            chk::begin();
            let execs = c.range(1, 3) as usize;
            let steps = script(c, execs);
            for s in &steps {
                op!(c, "{s:?}");
            }
            // 0: the executor's own waker; 1: through a stable waker; 2: through two layers
            let mut traces = vec![];
            let deep = c.bool();
            for how in 0..2 {
                let ws = executors(execs);
                world(|w| *w = World::default());
                let mut t = Trace::default();
                for s in &steps {
                    match s {
                        Step::Poll { ex, acts } => world(|w| match how {
                            0 => act(w, acts, Some(&ws[*ex])),
                            _ => {
                                let s = StableWaker::<$A>::from(&ws[*ex]);
                                s.with_waker(|k| {
                                    if deep {
                                        let s = StableWaker::<$A>::from(k);
                                        s.with_waker(|k| act(w, acts, Some(k)))
                                    } else {
                                        act(w, acts, Some(k))
                                    }
                                })
                            }
                        }),
                        Step::Outside { thread, acts } => outside(*thread, acts),
                        Step::DropFuture => {}
                    }
                    t.kept |= world(|w| w.pool.len() > 1);
                    t.steps.push((None, wakes()));
                    chk::mid()?;
                    if how == 1 && <$A as vph::chk::TA>::CHECKED && world(|w| w.pool.is_empty()) {
                        ck_eq!(chk::live(), 0, "blocks held without any waker");
                    }
                }
                world(|w| {
                    t.will = std::mem::take(&mut w.will);
                    w.pool.clear();
                });
                t.live = lives();
                traces.push(t);
            }
            c.nontrivial = traces[0].kept;
            compare(&traces[0], &traces[1], "through a stable waker")?;
            chk::end()
        }
    };
}
wakers!(wakers_chk, Chk);
wakers!(wakers_chkz, ChkZ);
wakers!(wakers_rust, stabby::alloc::allocators::RustAlloc);
wakers!(wakers_libc, stabby::alloc::allocators::LibcAlloc);

// ---- futures that may be resolved already
macro_rules! fut {
    ($F:ident, $O:ty, { $($pre:ident : $pt:ty = $pv:expr),* }) => {
        #[stabby::stabby(no_opt)]
        pub struct $F { $($pre: $pt,)* tr: Tr, at: u32, ready: u32, out: u32 }
        impl $F {
            fn mk(ready: u32, out: u32) -> Self { $F { $($pre: $pv,)* tr: Tr::new(5), at: 0, ready, out } }
        }
        impl Future for $F {
            type Output = $O;
            fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<$O> {
                self.tr.val();
                $( if self.$pre != $pv { track::error("future corrupted".into()); } )*
                self.at += 1;
                world(|w| { let acts = std::mem::take(&mut w.acts); act(w, &acts, Some(c.waker())) });
                track::user(track::K_CALL);
                if self.at > self.ready { Poll::Ready(<$O as Val>::mk(self.out)) } else { Poll::Pending }
            }
        }
    };
}
/// output values of any kind, told apart by a number
trait Val {
    fn mk(v: u32) -> Self;
    fn no(&self) -> u32;
}
macro_rules! els { ($($t:ty),*) => { $(impl Val for $t { fn mk(v: u32) -> Self { El::new(v) } fn no(&self) -> u32 { El::val(self) } })* } }
els!(u8, u32, u128, Tr, TrNiche, TrBig, Tr64, TrZ);
impl Val for bool {
    fn mk(v: u32) -> Self {
        v % 2 == 1
    }
    fn no(&self) -> u32 {
        *self as u32
    }
}
impl Val for () {
    fn mk(_: u32) {}
    fn no(&self) -> u32 {
        0
    }
}
impl Val for core::num::NonZeroU32 {
    fn mk(v: u32) -> Self {
        Self::new(v + 1).unwrap()
    }
    fn no(&self) -> u32 {
        self.get()
    }
}
impl Val for SBox<Tr> {
    fn mk(v: u32) -> Self {
        SBox::new(Tr::new(v))
    }
    fn no(&self) -> u32 {
        self.val()
    }
}
impl Val for SString {
    fn mk(v: u32) -> Self {
        SString::from(format!("{v}").as_str())
    }
    fn no(&self) -> u32 {
        self.as_str().parse().unwrap_or(u32::MAX)
    }
}
impl Val for SOption<u16> {
    fn mk(v: u32) -> Self {
        if v % 3 == 0 { SOption::None() } else { SOption::Some(v as u16) }
    }
    fn no(&self) -> u32 {
        self.match_ref(|v| *v as u32, || 1000)
    }
}
macro_rules! maybe {
    ($name:ident, $F:ident, $O:ty, { $($pre:ident : $pt:ty = $pv:expr),* }) => {
        fut!($F, $O, { $($pre: $pt = $pv),* });
        fn $name(c: &mut Case) -> Res {
            type M = MaybeResolved<$O, $F>;
            chk::begin();
            let execs = 2;
            let steps = script(c, execs);
            let start = c.weighted(&[3, 1, 5]);
            let ready = c.below(4) as u32;
            let v = c.below(200) as u32;
            let panic_at = if c.chance(1, 5) { Some(c.below(4) as u32) } else { None };
            op!(c, "starts {}, future ready at poll {}, panics {panic_at:?}", ["resolved", "empty", "pending"][start], ready + 1);
            for s in &steps {
                op!(c, "{s:?}");
            }
            let want = <$O as Val>::mk(v).no();
            let mut m: Option<M> = Some(match start {
                0 => MaybeResolved::Resolved(<$O as Val>::mk(v)),
                1 => MaybeResolved::Empty(),
                _ => MaybeResolved::Pending($F::mk(ready, v)),
            });
            let mut model = start;
            let mut polls = 0;
            let ws = executors(execs);
            world(|w| *w = World::default());
            let before = wakes();
            let mut calls = 0u32;
            for s in &steps {
                match s {
                    Step::Poll { ex, acts } => {
                        let Some(x) = &mut m else { continue };
                        world(|w| w.acts = acts.clone());
                        if model == 2 && panic_at == Some(calls) {
                            track::arm_panic(0, track::K_CALL);
                        }
                        let r = vph::catch(|| Pin::new(&mut *x).poll(&mut Context::from_waker(&ws[*ex])));
                        let fired = track::disarm();
                        let r = match r {
                            Ok(r) => r,
                            Err(e) => {
                                ck!(fired, "poll panicked: {e}");
                                calls += 1;
                                polls += 1;
                                continue;
                            }
                        };
                        let left = world(|w| std::mem::take(&mut w.acts));
                        if model == 2 {
                            calls += 1;
                            polls += 1;
                            ck!(left.is_empty() || acts.is_empty(), "the future wasn't polled");
                            ck_eq!(r.is_ready(), polls > ready, "poll {polls} of the pending future is ready");
                        } else {
                            ck_eq!(r.is_ready(), model == 0, "poll of a {} one is ready", ["resolved", "consumed"][model]);
                        }
                        if let Poll::Ready(o) = r {
                            ck_eq!(o.no(), want, "output");
                            model = 1;
                        }
                    }
                    Step::Outside { thread, acts } => outside(*thread, acts),
                    Step::DropFuture => {
                        if c.bool() {
                            m = None;
                        } else if let Some(x) = &mut m {
                            // taken apart by the user instead
                            let x = std::mem::replace(x, MaybeResolved::Empty());
                            let got = x.match_owned(|o| (0, o.no()), || (1, 0), |_| (2, 0));
                            ck_eq!(got.0, model, "state (resolved, consumed, pending)");
                            if model == 0 {
                                ck_eq!(got.1, want, "value held");
                            }
                            model = 1;
                        }
                    }
                }
                if let Some(x) = &m {
                    let st = x.match_ref(|o| { ck_no(o.no(), want); 0 }, || 1, |f| { f.tr.val(); 2 });
                    ck_eq!(st, model, "state (resolved, consumed, pending)");
                }
                chk::mid()?;
            }
            c.nontrivial = start == 2 && polls > 1 || start == 0;
            let _ = before;
            drop(m);
            world(|w| w.pool.clear());
            ck!(lives().iter().all(|l| *l == 1), "wakers of the executor still held: {:?}", lives());
            chk::end()
        }
    };
}
fn ck_no(a: u32, b: u32) {
    if a != b {
        track::error(format!("value held: {a}, expected {b}"));
    }
}
maybe!(maybe_u32, F1, u32, { });
maybe!(maybe_u8, F2, u8, { pad: u64 = 7 });
maybe!(maybe_nz, F3, core::num::NonZeroU32, { r: &'static u8 = &track::NICHE });
maybe!(maybe_box, F4, SBox<Tr>, { });
maybe!(maybe_box2, F5, SBox<Tr>, { r: &'static u8 = &track::NICHE });
maybe!(maybe_tr, F6, Tr, { b: bool = true });
maybe!(maybe_niche, F7, TrNiche, { b: core::num::NonZeroU16 = core::num::NonZeroU16::MAX });
maybe!(maybe_big, F8, TrBig, { });
maybe!(maybe_zst, F9, TrZ, { b: bool = false });
maybe!(maybe_unit, F10, (), { r: &'static u8 = &track::NICHE });
maybe!(maybe_bool, F11, bool, { b: bool = true });
maybe!(maybe_string, F12, SString, { });
maybe!(maybe_opt, F13, SOption<u16>, { b: bool = true, n: core::num::NonZeroU8 = core::num::NonZeroU8::MIN });
maybe!(maybe_64, F14, Tr64, { });

fn main() {
    vph::main(
        "C22",
        "futures that keep, wake, clone, compare and drop wakers at each poll by a script, polled, woken from outside and abandoned by another one, run natively and through one of 16 kinds of stable object; non-trivial = polled at least twice with a waker kept (wakers alone: two kept at once; maybe-resolved: resolved at first, or polled twice)",
        &[
            sub("objects_u32", 150000, 3000000, obj_u32),
            sub("objects_u8", 100000, 2000000, obj_u8),
            sub("objects_u128", 80000, 1600000, obj_u128),
            sub("objects_tracked", 150000, 3000000, obj_tr),
            sub("objects_niche", 100000, 2000000, obj_niche),
            sub("objects_big", 80000, 1600000, obj_big),
            sub("objects_aligned", 80000, 1600000, obj_64),
            sub("objects_zst", 80000, 1600000, obj_zst),
            sub("wakers_chk", 250000, 5000000, wakers_chk),
            sub("wakers_chkz", 250000, 5000000, wakers_chkz),
            sub("wakers_rust", 100000, 2000000, wakers_rust),
            sub("wakers_libc", 100000, 2000000, wakers_libc),
            sub("maybe_u32", 80000, 1600000, maybe_u32),
            sub("maybe_u8", 80000, 1600000, maybe_u8),
            sub("maybe_nz", 80000, 1600000, maybe_nz),
            sub("maybe_box", 80000, 1600000, maybe_box),
            sub("maybe_box2", 80000, 1600000, maybe_box2),
            sub("maybe_tr", 80000, 1600000, maybe_tr),
            sub("maybe_niche", 80000, 1600000, maybe_niche),
            sub("maybe_big", 80000, 1600000, maybe_big),
            sub("maybe_zst", 80000, 1600000, maybe_zst),
            sub("maybe_unit", 80000, 1600000, maybe_unit),
            sub("maybe_bool", 80000, 1600000, maybe_bool),
            sub("maybe_string", 80000, 1600000, maybe_string),
            sub("maybe_opt", 80000, 1600000, maybe_opt),
            sub("maybe_64", 80000, 1600000, maybe_64),
        ],
        &[],
    )
}
