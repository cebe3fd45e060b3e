//! C21: payloads and allocators with every combination of thread-safety markers, and the comparison of a stable type's markers with those of its standard twin.
#![allow(improper_ctypes_definitions, clippy::missing_safety_doc)]
use crate::engine::{Case, Res};
use crate::{ck, op};
use stabby::alloc::{IAlloc, Layout};
use stabby::IStable;
use std::cell::RefCell;
use std::marker::PhantomData;

macro_rules! payloads {
    ($($p:ident $a:ident),*) => {$(
        #[stabby::stabby]
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
        pub struct $p {
            pub x: u32,
            pub m: PhantomData<*mut u8>,
        }
        #[stabby::stabby]
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
        pub struct $a {
            pub m: PhantomData<*mut u8>,
        }
        impl IAlloc for $a {
            fn alloc(&mut self, layout: Layout) -> *mut () {
                unsafe { libc::memalign(layout.align.max(16), layout.size.max(1)) as *mut () }
            }
            unsafe fn free(&mut self, ptr: *mut ()) {
                libc::free(ptr as *mut _)
            }
        }
        impl Local for $p {
            extern "C" fn local(&self) -> u32 {
                self.x
            }
        }
    )*};
}
payloads!(PNone ANone, PSend ASend, PSync ASync, PBoth ABoth);
unsafe impl Send for PSend {}
unsafe impl Send for ASend {}
unsafe impl Sync for PSync {}
unsafe impl Sync for ASync {}
unsafe impl Send for PBoth {}
unsafe impl Send for ABoth {}
unsafe impl Sync for PBoth {}
unsafe impl Sync for ABoth {}

/// implemented by the payloads only
#[stabby::stabby]
pub trait Local {
    extern "C" fn local(&self) -> u32;
}
/// implemented by everything
#[stabby::stabby]
pub trait Alpha {
    extern "C" fn alpha(&self) -> usize;
}
#[stabby::stabby]
pub trait Beta {
    extern "C" fn beta(&mut self) -> usize;
    extern "C" fn beta2(&self) -> usize;
}
#[stabby::stabby(checked)]
pub trait Gamma {
    extern "C" fn gamma(&self) -> usize;
}
impl<T> Alpha for T {
    extern "C" fn alpha(&self) -> usize {
        size_of::<T>()
    }
}
impl<T> Beta for T {
    extern "C" fn beta(&mut self) -> usize {
        size_of::<T>()
    }
    extern "C" fn beta2(&self) -> usize {
        size_of::<T>()
    }
}
impl<T> Gamma for T {
    extern "C" fn gamma(&self) -> usize {
        size_of::<T>()
    }
}
#[stabby::stabby]
#[repr(C)]
pub struct User<T: IStable> {
    pub a: u8,
    pub t: T,
}
#[stabby::stabby]
#[repr(u8)]
pub enum UserEnum<T> {
    A(T),
    B,
}
#[stabby::stabby]
#[repr(stabby)]
pub enum UserSum<A, B> {
    A(A),
    B(B),
    C(u64),
    D(A),
}
#[stabby::stabby]
pub struct MyFut<T> {
    pub t: T,
}
impl<T> std::future::Future for MyFut<T> {
    type Output = T;
    fn poll(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<T> {
        std::task::Poll::Pending
    }
}
pub struct StdUser<T>(pub u8, pub T);

pub struct Mark {
    pub text: &'static str,
    /// which marker or construction
    pub what: &'static str,
    pub stable: bool,
    pub std: bool,
}
thread_local!(static MARKS: RefCell<Vec<Mark>> = const { RefCell::new(vec![]) });
pub fn set(t: Vec<Vec<Mark>>) {
    let empty = t.iter().filter(|x| x.is_empty()).count();
    let n = t.len();
    let all: Vec<Mark> = t.into_iter().flatten().collect();
    let eq = all.iter().filter(|m| m.stable == m.std).count();
    let no = all.iter().filter(|m| !m.std).count();
    crate::engine::note(format!("{} (type, marker) pairs in {n} crates ({empty} of which rustc took too long on): {no} must be refused; stable and standard agree on {eq}", all.len()));
    if std::env::var_os("VPH_STRICTER").is_some() {
        for m in all.iter().filter(|m| m.stable != m.std) {
            println!("{} {}: stable {} std {}", m.text, m.what, m.stable, m.std);
        }
    }
    MARKS.with(|x| *x.borrow_mut() = all);
}
pub fn mark(c: &mut Case) -> Res {
    MARKS.with(|f| {
        let f = f.borrow();
        for _ in 0..4 {
            let m = &f[c.usize(f.len())];
            op!(c, "{}: {}", m.text, m.what);
            c.label(m.what);
            c.nontrivial |= !m.std;
            ck!(!m.stable || m.std, "{}: {} holds, but not for the equivalent standard type", m.text, m.what);
        }
        Ok(())
    })
}

/// Known finding: a shared trait object needs both markers to be sent or shared, as `Arc<T>` does; one is accepted.
pub fn shared_send() -> Res {
    ck!(!crate::impls!(stabby::dynptr!(stabby::sync::Arc<dyn Alpha + Send>): Send), "`dynptr!(Arc<dyn Alpha + Send>)` is Send, `Arc<dyn Alpha + Send>` isn't: two threads can share a value that isn't Sync");
    Ok(())
}
/// Known finding: see above.
pub fn shared_sync() -> Res {
    ck!(!crate::impls!(stabby::dynptr!(stabby::sync::Arc<dyn Alpha + Sync>): Sync), "`dynptr!(Arc<dyn Alpha + Sync>)` is Sync, `Arc<dyn Alpha + Sync>` isn't: another thread can end up dropping a value that isn't Send");
    Ok(())
}
