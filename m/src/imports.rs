//! C28: racing accesses to checked imports.
use crate::{spawn, Plan, P};
use stabby::abi::checked_import::{CanariedImport, CheckedImport};
use stabby::abi::report::TypeReport;
use stabby::IStable;
use std::cell::UnsafeCell;
use std::ops::Deref;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

static SAME: AtomicBool = AtomicBool::new(false);
#[allow(improper_ctypes_definitions)]
unsafe extern "C" fn checker(r: &TypeReport) -> Option<P> {
    assert!(core::ptr::eq(r, <extern "C" fn(u8) -> u16>::REPORT), "the library was asked about another signature");
    SAME.load(Relaxed).then(|| P::new(7))
}
unsafe extern "C" fn theirs() -> &'static TypeReport {
    if SAME.load(Relaxed) {
        <extern "C" fn(u8) -> u16>::REPORT
    } else {
        <extern "C" fn(u8) -> u32>::REPORT
    }
}
// what the canaries do, in plain memory: whoever gets the function must come after them
struct Plain(UnsafeCell<u64>);
unsafe impl Sync for Plain {}
static CALLED: AtomicBool = AtomicBool::new(false);
extern "C" fn canary() {
    std::thread::yield_now();
    CALLED.store(true, Relaxed);
    std::thread::yield_now();
}
fn threads(p: &Plan, f: impl Fn(&[(u8, u8)])) {
    let f = &f;
    let hs: Vec<_> = (1..p.threads.len())
        .map(|t| {
            let ops = &p.threads[t];
            spawn(move || f(ops))
        })
        .collect();
    f(&p.threads[0]);
    for h in hs {
        h.join();
    }
}
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
pub fn run(p: &Plan) -> Option<isize> {
    match p.kind {
        0 | 1 => {
            let same = p.kind == 0;
            SAME.store(same, Relaxed);
            let cell = Shared(CheckedImport::<P>::new(checker, theirs, <extern "C" fn(u8) -> u16>::REPORT));
            let cell = &cell;
            threads(p, |ops| {
                let mut first = None;
                for (o, _) in ops {
                    match o {
                        0 | 1 => match cell.0.as_ref() {
                            Ok(f) => {
                                assert!(same, "a function was given though the signatures differ");
                                assert_eq!(f.read(), 7);
                                assert_eq!(*first.get_or_insert(f.id), f.id, "accesses gave different functions");
                            }
                            Err(e) => {
                                assert!(!same, "an access was refused though the signatures agree");
                                assert!(e.local != e.loaded, "the error holds other reports");
                            }
                        },
                        2 if same => assert_eq!(cell.0.deref().read(), 7),
                        _ => std::thread::yield_now(),
                    }
                }
            });
        }
        _ => {
            CALLED.store(false, Relaxed);
            let cell = CanariedImport::new(Plain(UnsafeCell::new(5)), canary);
            let cell = &cell;
            threads(p, |ops| {
                for (o, _) in ops {
                    if *o < 3 {
                        assert_eq!(unsafe { *cell.deref().0.get() }, 5);
                        assert!(CALLED.load(Relaxed), "a function was given before its canaries were called");
                    } else {
                        std::thread::yield_now();
                    }
                }
            });
        }
    }
    Some(0)
}
