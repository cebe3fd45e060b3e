//! Random multi-threaded histories, meant to be run by Miri: its scheduler interleaves the threads at random, its weak-memory
//! emulation lets atomics return stale values, and it reports data races, accesses to freed memory and deadlocks.
//! Nothing here adds synchronization: counters are relaxed, and threads only meet when they're joined.
mod cells;
mod imports;
mod sync;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};

/// One case: what is shared, how it is set up, and what each thread does.
pub struct Plan {
    pub kind: usize,
    pub opts: Vec<usize>,
    pub threads: Vec<Vec<(u8, u8)>>,
}
/// Cases come from tools/miri.py, one byte per number: kind, options, and the operations of each thread.
struct Read<'a>(&'a [u8], usize);
impl Read<'_> {
    fn next(&mut self) -> u8 {
        let x = self.0[self.1] - b'0';
        self.1 += 1;
        x
    }
    fn plan(&mut self) -> Plan {
        let kind = self.next() as usize;
        let mut n = self.next();
        let mut opts = vec![];
        while n > 0 {
            opts.push(self.next() as usize);
            n -= 1;
        }
        let mut n = self.next();
        let mut threads = vec![];
        while n > 0 {
            let mut k = self.next();
            let mut t = Vec::with_capacity(k as usize);
            while k > 0 {
                t.push((self.next(), self.next()));
                k -= 1;
            }
            threads.push(t);
            n -= 1;
        }
        Plan { kind, opts, threads }
    }
}
/// A counting allocator for the whole program, without synchronization.
struct G;
pub static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for G {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: G = G;
/// Values made and dropped.
pub static MADE: AtomicU64 = AtomicU64::new(0);
pub static DROPPED: AtomicU64 = AtomicU64::new(0);
const DEAD: u64 = 0xDEAD_DEAD_DEAD;
/// A payload: plain memory, so that unordered accesses are reported, which checks itself.
pub struct P {
    pub id: u64,
    a: u64,
    b: Box<u64>,
}
impl P {
    pub fn new(v: u64) -> P {
        P {
            id: MADE.fetch_add(1, Relaxed) + 1,
            a: v,
            b: Box::new(v),
        }
    }
    pub fn read(&self) -> u64 {
        let a = self.a;
        assert!(a == *self.b && a != DEAD, "a payload was read in the middle of a write, or dead: {a} {}", self.b);
        a
    }
    pub fn write(&mut self, v: u64) {
        self.read();
        self.a = v;
        std::thread::yield_now();
        *self.b = v;
    }
}
impl Clone for P {
    fn clone(&self) -> P {
        P::new(self.read())
    }
}
impl Drop for P {
    fn drop(&mut self) {
        self.read();
        self.a = DEAD;
        DROPPED.fetch_add(1, Relaxed);
    }
}
/// Zero-sized allocator with its own count.
#[derive(Clone, Copy, Default)]
#[stabby::stabby]
pub struct Cnt {
    unit: (),
}
pub static BLOCKS: AtomicIsize = AtomicIsize::new(0);
impl stabby::alloc::IAlloc for Cnt {
    fn alloc(&mut self, l: stabby::alloc::Layout) -> *mut () {
        if l.size == 0 {
            return core::ptr::null_mut();
        }
        BLOCKS.fetch_add(1, Relaxed);
        // the size and alignment are kept in front of the block
        let al = l.align.max(16);
        unsafe {
            let p = std::alloc::alloc(Layout::from_size_align(l.size + al, al).unwrap());
            let q = p.add(al);
            *(q.sub(16) as *mut usize) = l.size;
            *(q.sub(8) as *mut usize) = al;
            q as *mut ()
        }
    }
    unsafe fn free(&mut self, p: *mut ()) {
        BLOCKS.fetch_sub(1, Relaxed);
        let q = p as *mut u8;
        let (size, al) = (*(q.sub(16) as *mut usize), *(q.sub(8) as *mut usize));
        std::alloc::dealloc(q.sub(al), Layout::from_size_align(size + al, al).unwrap());
    }
}
/// Position in the order in which things happened.
static TICK: AtomicU64 = AtomicU64::new(0);
/// Whether taking a tick synchronises with the ticks taken before, so that what happened earlier in this order must be seen.
/// Otherwise, the harness adds no synchronisation, and only each thread's own order counts.
pub static STRICT: AtomicBool = AtomicBool::new(false);
pub fn tick() -> u64 {
    TICK.fetch_add(1, if STRICT.load(Relaxed) { SeqCst } else { Relaxed })
}
fn run(prop: &str, p: &Plan) {
    let live = LIVE.load(Relaxed);
    MADE.store(0, Relaxed);
    DROPPED.store(0, Relaxed);
    BLOCKS.store(0, Relaxed);
    let leaks = match prop {
        "C14" => sync::run(p),
        "C28" => imports::run(p),
        _ => cells::run(p),
    };
    assert_eq!(DROPPED.load(Relaxed), MADE.load(Relaxed), "drops of the values made");
    assert_eq!(BLOCKS.load(Relaxed), 0, "blocks left allocated");
    if let Some(leaks) = leaks {
        assert_eq!(LIVE.load(Relaxed) - live, leaks, "heap blocks left allocated");
    }
}
/// Writes a case's number, at little cost.
fn mark(mut i: u64) {
    let mut b = *b"#0000000\n";
    for k in (1..8).rev() {
        b[k] = b'0' + (i % 10) as u8;
        i /= 10;
    }
    unsafe { libc::write(1, b.as_ptr() as *const libc::c_void, b.len()) };
}
/// Threads that cost Miri less than the standard library's.
pub struct Thread<R>(libc::pthread_t, *mut Task<R>);
struct Task<R>(Option<Box<dyn FnOnce() -> R>>, Option<R>);
pub fn spawn<'a, R: 'a>(f: impl FnOnce() -> R + 'a) -> Thread<R> {
    extern "C" fn start<R>(t: *mut libc::c_void) -> *mut libc::c_void {
        let t = unsafe { &mut *(t as *mut Task<R>) };
        let f = t.0.take().unwrap();
        t.1 = Some(f());
        t as *mut Task<R> as *mut libc::c_void
    }
    let f: Box<dyn FnOnce() -> R + 'a> = Box::new(f);
    // threads are joined before what they borrow goes away
    let f: Box<dyn FnOnce() -> R> = unsafe { std::mem::transmute(f) };
    let t = Box::into_raw(Box::new(Task(Some(f), None)));
    let mut id = 0;
    assert_eq!(unsafe { libc::pthread_create(&mut id, std::ptr::null(), start::<R>, t as *mut libc::c_void) }, 0);
    Thread(id, t)
}
impl<R> Thread<R> {
    pub fn join(self) -> R {
        assert_eq!(unsafe { libc::pthread_join(self.0, std::ptr::null_mut()) }, 0);
        unsafe { Box::from_raw(self.1) }.1.unwrap()
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = &a[1];
    // warm up whatever the standard library allocates once
    spawn(|| ()).join();
    let mut r = Read(a[2].as_bytes(), 0);
    let mut i = 0;
    while r.1 < r.0.len() {
        let p = r.plan();
        mark(i);
        run(prop, &p);
        i += 1;
    }
    println!("done");
}
