//! C09: allocators and raw allocation handles honour layout, content and balance.
//!
//! Both allocators that stabby provides run over instrumented backends: Rust's global allocator is replaced, and so
//! are libc's `posix_memalign`, `realloc` and `free`, to check every call that stabby makes and to refuse some.
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
use stabby::alloc::{AllocPrefix, AllocPtr, IAlloc, IStableAlloc, Layout};
use std::alloc::{GlobalAlloc, System};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use vph::chk::{self, Chk, ChkD, ChkZ, TA};
use vph::track;
use vph::*;

// ------------------------------------------------------------------ backends
thread_local! {
    /// inside a call to the allocator under test
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static FAIL: Cell<u64> = const { Cell::new(0) };
    static REFUSED: Cell<u32> = const { Cell::new(0) };
    static BACK: RefCell<Option<HashMap<usize, (usize, usize, usize)>>> = const { RefCell::new(None) };
}
fn armed() -> bool {
    ARMED.try_with(|a| a.get()).unwrap_or(false)
}
/// While stabby's allocator runs, with the given upcoming refusals.
fn under<T>(arm: bool, fail: u64, f: impl FnOnce() -> T) -> (T, u32) {
    REFUSED.with(|r| r.set(0));
    FAIL.with(|r| r.set(fail));
    chk::fail_mask(fail);
    ARMED.with(|a| a.set(arm));
    let r = f();
    ARMED.with(|a| a.set(false));
    chk::fail_mask(0);
    (r, REFUSED.with(|r| r.get()))
}
/// Instrumentation must not see itself.
fn off<T>(f: impl FnOnce() -> T) -> T {
    let was = ARMED.with(|a| a.replace(false));
    let r = f();
    ARMED.with(|a| a.set(was));
    r
}
fn refuse() -> bool {
    let m = FAIL.with(|f| f.replace(f.get() >> 1));
    if m & 1 == 1 {
        REFUSED.with(|r| r.set(r.get() + 1));
    }
    m & 1 == 1
}
fn back<T>(f: impl FnOnce(&mut HashMap<usize, (usize, usize, usize)>) -> T) -> T {
    BACK.with(|b| f(b.borrow_mut().get_or_insert_with(HashMap::new)))
}
const RZ: usize = 32;
struct G;
unsafe impl GlobalAlloc for G {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if !armed() {
            return System.alloc(l);
        }
        off(|| {
            if l.size() == 0 {
                track::error("the global allocator was asked for 0 bytes".into());
            }
            if l.size() > 1 << 28 || refuse() {
                if l.size() > 1 << 28 {
                    REFUSED.with(|r| r.set(r.get() + 1));
                }
                return std::ptr::null_mut();
            }
            let pre = RZ.max(l.align());
            let total = pre + l.size() + RZ;
            let base = System.alloc(std::alloc::Layout::from_size_align_unchecked(total, l.align()));
            std::ptr::write_bytes(base, 0xFA, total);
            let u = base as usize + pre;
            back(|b| b.insert(u, (l.size(), l.align(), 0)));
            u as *mut u8
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if !armed() {
            return System.dealloc(p, l);
        }
        off(|| {
            let Some((size, align, _)) = back(|b| b.remove(&(p as usize))) else {
                track::error("an address that the global allocator never gave out was returned to it".into());
                return;
            };
            if (size, align) != (l.size(), l.align()) {
                track::error(format!("a block of layout {size}/{align} was returned to the global allocator with layout {}/{}", l.size(), l.align()));
            }
            red(p as usize, size, align);
            let pre = RZ.max(align);
            System.dealloc(p.sub(pre), std::alloc::Layout::from_size_align_unchecked(pre + size + RZ, align));
        })
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, new: usize) -> *mut u8 {
        if !armed() {
            return System.realloc(p, l, new);
        }
        let Some((size, align, _)) = off(|| back(|b| b.get(&(p as usize)).copied())) else {
            off(|| track::error("an address that the global allocator never gave out was resized by it".into()));
            return std::ptr::null_mut();
        };
        if (size, align) != (l.size(), l.align()) {
            off(|| track::error(format!("a block of layout {size}/{align} was resized by the global allocator with layout {}/{}", l.size(), l.align())));
        }
        let q = self.alloc(std::alloc::Layout::from_size_align_unchecked(new, align));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, size.min(new));
            self.dealloc(p, std::alloc::Layout::from_size_align_unchecked(size, align));
        }
        q
    }
}
#[global_allocator]
static GLOBAL: G = G;
fn red(u: usize, size: usize, align: usize) {
    let pre = RZ.max(align);
    let ok = |p: usize, n: usize| unsafe { std::slice::from_raw_parts(p as *const u8, n) }.iter().all(|b| *b == 0xFA);
    if !ok(u - pre, pre) || !ok(u + size, RZ) {
        track::error(format!("write outside a block of {size} bytes (align {align}) of the global allocator"));
    }
}
extern "C" {
    fn __libc_free(p: *mut libc::c_void);
    fn __libc_realloc(p: *mut libc::c_void, n: usize) -> *mut libc::c_void;
    fn __libc_memalign(a: usize, n: usize) -> *mut libc::c_void;
}
/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut libc::c_void) {
    if armed() && !p.is_null() {
        off(|| {
            if back(|b| b.remove(&(p as usize))).is_none() {
                track::error("an address that libc never gave out was returned to it".into());
            } else {
                __libc_free(p)
            }
        })
    } else {
        __libc_free(p)
    }
}
/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut libc::c_void, n: usize) -> *mut libc::c_void {
    if !armed() {
        return __libc_realloc(p, n);
    }
    off(|| {
        if n > 1 << 28 || refuse() {
            return std::ptr::null_mut();
        }
        if !p.is_null() && back(|b| b.remove(&(p as usize))).is_none() {
            track::error("an address that libc never gave out was resized by it".into());
            return std::ptr::null_mut();
        }
        // always moves, which realloc may
        let q = __libc_memalign(16, n.max(1));
        if !p.is_null() {
            let old = libc::malloc_usable_size(p);
            std::ptr::copy_nonoverlapping(p.cast::<u8>(), q.cast::<u8>(), old.min(n));
            std::ptr::write_bytes(p.cast::<u8>(), 0xDD, old);
            __libc_free(p);
        }
        back(|b| b.insert(q as usize, (n, 16, 1)));
        q
    })
}
/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn posix_memalign(out: *mut *mut libc::c_void, align: usize, n: usize) -> libc::c_int {
    if !align.is_power_of_two() || align % 8 != 0 {
        return libc::EINVAL;
    }
    if !armed() {
        let p = __libc_memalign(align, n);
        if p.is_null() {
            return libc::ENOMEM;
        }
        *out = p;
        return 0;
    }
    off(|| {
        if n > 1 << 28 || refuse() {
            return libc::ENOMEM;
        }
        let p = __libc_memalign(align, n);
        std::ptr::write_bytes(p.cast::<u8>(), 0xA5, n);
        back(|b| b.insert(p as usize, (n, align, 1)));
        *out = p;
        0
    })
}

// ------------------------------------------------------------------ allocators
/// The plain interface, or the one that goes through `extern "C"` functions.
trait Raw {
    fn alloc(&mut self, l: Layout) -> *mut ();
    unsafe fn free(&mut self, p: *mut ());
    unsafe fn realloc(&mut self, p: *mut (), prev: Layout, new: usize) -> *mut ();
}
struct Plain<A>(A);
struct Stable<A>(A);
impl<A: IAlloc> Raw for Plain<A> {
    fn alloc(&mut self, l: Layout) -> *mut () {
        IAlloc::alloc(&mut self.0, l)
    }
    unsafe fn free(&mut self, p: *mut ()) {
        IAlloc::free(&mut self.0, p)
    }
    unsafe fn realloc(&mut self, p: *mut (), prev: Layout, new: usize) -> *mut () {
        IAlloc::realloc(&mut self.0, p, prev, new)
    }
}
#[allow(deprecated)]
impl<A: IAlloc> Raw for Stable<A> {
    fn alloc(&mut self, l: Layout) -> *mut () {
        IStableAlloc::alloc(&mut self.0, l)
    }
    unsafe fn free(&mut self, p: *mut ()) {
        IStableAlloc::free(&mut self.0, p)
    }
    unsafe fn realloc(&mut self, p: *mut (), prev: Layout, new: usize) -> *mut () {
        IStableAlloc::realloc(&mut self.0, p, prev, new)
    }
}
struct Live {
    p: usize,
    l: Layout,
    /// how many bytes hold the pattern of `seed`
    seed: u64,
    how: usize,
}
fn byte(seed: u64, i: usize) -> u8 {
    (seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add((i as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93)) >> 56) as u8
}
impl Live {
    fn write(&self) {
        (0..self.l.size).for_each(|i| unsafe { ((self.p + i) as *mut u8).write(byte(self.seed, i)) })
    }
    fn check(&self, n: usize, at: &str) -> Res {
        for i in 0..n.min(self.l.size) {
            let b = unsafe { ((self.p + i) as *const u8).read() };
            ck_eq!(b, byte(self.seed, i), "{at}: byte {i} of a live block of {}/{}", self.l.size, self.l.align);
        }
        Ok(())
    }
}
fn size(c: &mut Case) -> usize {
    match c.below(16) {
        0 => 0,
        1 => *c.pick(&[1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
        2 => c.usize(20_000),
        3 => *c.pick(&[usize::MAX, usize::MAX - 7, usize::MAX - 31, usize::MAX - 64, isize::MAX as usize, isize::MAX as usize - 31, 1 << 62, (isize::MAX as usize) + 1]),
        _ => c.usize(300),
    }
}
fn fails(c: &mut Case) -> u64 {
    *c.pick(&[0, 0, 0, 0, 1, 3, 2, u64::MAX])
}
fn direct(c: &mut Case) -> Res {
    chk::begin();
    back(|b| b.clear());
    let mut name = "";
    // several instances may be in use: they're all alike, a block goes back through any that's the same kind
    let mut allocs: Vec<Box<dyn Raw>> = match c.below(4) {
        0 | 1 => {
            name = "RustAlloc";
            vec![Box::new(Plain(RustAlloc::new())), Box::new(Stable(RustAlloc::new()))]
        }
        2 => {
            name = "LibcAlloc";
            vec![Box::new(Plain(LibcAlloc::new())), Box::new(Stable(LibcAlloc::new()))]
        }
        _ => {
            name = if name.is_empty() { "an allocator with the default `realloc`" } else { name };
            vec![Box::new(Plain(ChkD::mk(1))), Box::new(Stable(ChkD::mk(1)))]
        }
    };
    op!(c, "{name}");
    let r = direct_body(c, &mut allocs, name);
    if r.is_ok() {
        let left = back(|b| b.len());
        ck_eq!(left, 0, "{name}: blocks that never went back");
        return chk::end();
    }
    r
}
fn direct_body(c: &mut Case, allocs: &mut [Box<dyn Raw>], name: &str) -> Res {
    let mut live: Vec<Live> = vec![];
    let arm = name.ends_with("Alloc");
    let (mut resized, mut refused_some) = (false, false);
    for step in 0..c.range(1, 24) {
        let via = c.usize(allocs.len());
        match c.below(8) {
            0..=2 => {
                let bits = *c.pick(&[4, 5, 8, 13]);
                let l = Layout { size: size(c), align: 1 << c.below(bits) };
                let f = fails(c);
                let (p, refused) = under(arm, f, || allocs[via].alloc(l) as usize);
                let at = format!("{name} step {step}: alloc({}, {})", l.size, l.align);
                op!(c, "alloc({}, {}) refusals {f:b} -> {}", l.size, l.align, if p == 0 { "null" } else { "a block" });
                let huge = l.size > 1 << 28;
                if l.size == 0 || huge {
                    ck_eq!(p, 0, "{at}: a pointer");
                    continue;
                }
                refused_some |= refused > 0 || f & 1 == 1;
                if p == 0 {
                    ck!(f != 0, "{at}: failed although nothing refused");
                    continue;
                }
                ck_eq!(p % l.align, 0, "{at}: misaligned");
                for x in &live {
                    ck!(p + l.size <= x.p || x.p + x.l.size <= p, "{at}: overlaps a live block");
                }
                let x = Live { p, l, seed: c.u64(), how: via };
                x.write();
                live.push(x);
            }
            3..=5 if !live.is_empty() => {
                let i = c.usize(live.len());
                let n = match c.below(4) {
                    0 => live[i].l.size,
                    1 => live[i].l.size * 2,
                    _ => size(c),
                };
                let f = fails(c);
                let (p0, l) = (live[i].p, live[i].l);
                let (p, refused) = under(arm, f, || unsafe { allocs[via].realloc(p0 as *mut (), l, n) as usize });
                let at = format!("{name} step {step}: realloc({}, {} -> {n})", l.align, l.size);
                op!(c, "realloc(block {i} of {}/{} to {n}) refusals {f:b} -> {}", l.size, l.align, if p == 0 { "null" } else { "a block" });
                refused_some |= refused > 0 || f & 1 == 1;
                if n == 0 || n > 1 << 28 {
                    ck_eq!(p, 0, "{at}: a pointer");
                }
                if p == 0 {
                    ck!(f != 0 || n == 0 || n > 1 << 28, "{at}: failed although nothing refused");
                    // the old block is still there
                    live[i].check(l.size, &at)?;
                } else {
                    resized = true;
                    live[i].p = p;
                    live[i].l.size = n;
                    live[i].how = via;
                    ck_eq!(p % l.align, 0, "{at}: misaligned");
                    for (j, x) in live.iter().enumerate() {
                        ck!(j == i || p + n <= x.p || x.p + x.l.size <= p, "{at}: overlaps a live block");
                    }
                    live[i].check(l.size, &at)?;
                    live[i].seed = c.u64();
                    live[i].write();
                }
            }
            6 if !live.is_empty() => {
                let x = live.remove(c.usize(live.len()));
                op!(c, "free({}/{})", x.l.size, x.l.align);
                x.check(x.l.size, &format!("{name} step {step}: before free"))?;
                under(arm, 0, || unsafe { allocs[via].free(x.p as *mut ()) });
            }
            _ => {
                for x in &live {
                    x.check(x.l.size, &format!("{name} step {step}"))?;
                }
            }
        }
        chk::mid()?;
    }
    c.nontrivial = resized || refused_some || live.len() > 2;
    if resized {
        c.label("resized");
    }
    if refused_some {
        c.label("refused");
    }
    for x in live {
        x.check(x.l.size, &format!("{name} at the end"))?;
        let via = x.how;
        under(arm, 0, || unsafe { allocs[via].free(x.p as *mut ()) });
    }
    Ok(())
}

// ------------------------------------------------------------------ layouts
struct A64([u8; 192]);
#[repr(align(64))]
struct Al64(#[allow(dead_code)] [u8; 64]);
#[repr(align(32))]
struct Z32;
fn of<T>(c: &mut Case, n: usize) -> (Layout, u128, usize) {
    let l = Layout::array::<T>(n);
    op!(c, "Layout::array::<{}>({n}) = {l:?}", std::any::type_name::<T>());
    (l, size_of::<T>() as u128 * n as u128, align_of::<T>())
}
fn up(n: u128, a: u128) -> u128 {
    n.div_ceil(a) * a
}
fn layouts(c: &mut Case) -> Res {
    ck_eq!(Layout::of::<A64>(), Layout { size: 192, align: 1 }, "Layout::of");
    ck_eq!(Layout::of::<Al64>(), Layout { size: 64, align: 64 }, "Layout::of");
    ck_eq!(Layout::of::<(u32, u8)>(), Layout { size: 8, align: 4 }, "Layout::of");
    let n = match c.below(4) {
        0 => c.edge64(64) as usize,
        1 => usize::MAX / *c.pick(&[1usize, 2, 4, 8, 64, 192]) - c.usize(3),
        _ => c.usize(100),
    };
    let (l, exact, align) = match c.below(6) {
        0 => of::<u8>(c, n),
        1 => of::<u64>(c, n),
        2 => of::<Al64>(c, n),
        3 => of::<Z32>(c, n),
        4 => of::<A64>(c, n),
        _ => of::<(u32, u8)>(c, n),
    };
    let max = usize::MAX as u128;
    ck_eq!((l.size as u128, l.align), (exact.min(max), align), "array");
    let mut a = Layout { size: if c.chance(1, 4) { c.edge64(64) as usize } else { c.usize(200) }, align: 1 << c.below(13) };
    let mut done = 0;
    for _ in 0..c.range(1, 6) {
        let b = if c.chance(1, 4) { l } else { Layout { size: if c.chance(1, 8) { c.edge64(64) as usize } else { c.usize(200) }, align: 1 << c.below(13) } };
        op!(c, "{a:?}.concat({b:?})");
        let want = up(up(a.size as u128, b.align as u128) + b.size as u128, a.align.max(b.align) as u128);
        let got = a.concat(b);
        ck_eq!((got.size as u128, got.align), (want.min(max), a.align.max(b.align)), "{a:?}.concat({b:?})");
        if let (Ok(x), Ok(y)) = (std::alloc::Layout::from_size_align(a.size, a.align), std::alloc::Layout::from_size_align(b.size, b.align)) {
            if let Ok((z, _)) = x.extend(y) {
                let z = z.pad_to_align();
                ck_eq!((got.size, got.align), (z.size(), z.align()), "{a:?}.concat({b:?}) and std's");
                done += 1;
            }
        }
        let na = 1usize << c.below(14);
        let r = a.realign(na);
        ck_eq!((r.size as u128, r.align), (up(a.size as u128, na as u128).min(max), na), "{a:?}.realign({na})");
        // the first address from `p` on with the right alignment
        let block = [0u8; 1];
        let p = (block.as_ptr() as usize).wrapping_add(c.usize(9000)) as *mut u32;
        let q = Layout { size: 0, align: na }.next_matching(p.cast::<u8>()) as usize;
        ck_eq!(q as u128, up(p as usize as u128, na as u128), "next_matching({p:?}) for {na}");
        a = got;
    }
    c.nontrivial = done > 0;
    Ok(())
}

// ------------------------------------------------------------------ handles
/// Calls through to a checking allocator, remembering what it last answered.
struct Spy<A> {
    inner: A,
    last: usize,
    returned: Vec<usize>,
}
impl<A: IAlloc> IAlloc for Spy<A> {
    fn alloc(&mut self, l: Layout) -> *mut () {
        let p = self.inner.alloc(l);
        self.last = p as usize;
        p
    }
    unsafe fn free(&mut self, p: *mut ()) {
        off(|| self.returned.push(p as usize));
        self.inner.free(p)
    }
    unsafe fn realloc(&mut self, p: *mut (), prev: Layout, new: usize) -> *mut () {
        let q = self.inner.realloc(p, prev, new);
        self.last = q as usize;
        q
    }
}
struct Handle<T, A> {
    h: AllocPtr<T, Spy<A>>,
    cap: usize,
    origin: usize,
    seed: u64,
    strong: usize,
    weak: usize,
}
fn bytes<T, A>(h: &Handle<T, A>) -> usize {
    size_of::<T>() * h.cap
}
fn fill<T, A>(h: &Handle<T, A>) {
    (0..bytes(h)).for_each(|i| unsafe { h.h.ptr.as_ptr().cast::<u8>().add(i).write(byte(h.seed, i)) })
}
fn content<T, A>(h: &Handle<T, A>, n: usize, at: &str) -> Res {
    for i in 0..n.min(bytes(h)) {
        ck_eq!(unsafe { h.h.ptr.as_ptr().cast::<u8>().add(i).read() }, byte(h.seed, i), "{at}: byte {i}");
    }
    Ok(())
}
fn handle<T: 'static, A: TA>(h: &Handle<T, A>, at: &str) -> Res {
    use std::sync::atomic::Ordering::Relaxed;
    let p = h.h.ptr.as_ptr() as usize;
    let pre = unsafe { h.h.prefix() };
    let pp = pre as *const AllocPrefix<Spy<A>> as usize;
    ck_eq!(p % align_of::<T>(), 0, "{at}: data misaligned");
    ck_eq!(pp % align_of::<AllocPrefix<Spy<A>>>(), 0, "{at}: prefix misaligned");
    ck_eq!(pp + size_of::<AllocPrefix<Spy<A>>>(), p, "{at}: the prefix doesn't precede the data");
    ck_eq!(pre.origin.as_ptr() as usize, h.origin, "{at}: the origin isn't the address that was allocated");
    ck_eq!(pre.capacity.load(Relaxed), h.cap, "{at}: capacity");
    ck_eq!((pre.strong.load(Relaxed), pre.weak.load(Relaxed)), (h.strong, h.weak), "{at}: counts");
    if A::CHECKED {
        ck!(chk::covers(pp, p - pp + bytes(h)), "{at}: the block doesn't cover the prefix and {} elements", h.cap);
    }
    let off = AllocPrefix::<Spy<A>>::skip_to::<T>();
    ck!(off % align_of::<T>() == 0 && off >= size_of::<AllocPrefix<Spy<A>>>() && off < size_of::<AllocPrefix<Spy<A>>>() + align_of::<T>(), "{at}: skip_to {off}");
    ck_eq!(pp, h.origin + off - size_of::<AllocPrefix<Spy<A>>>(), "{at}: where the prefix starts");
    Ok(())
}
fn handles<T: 'static, A: TA>(c: &mut Case) -> Res {
    chk::begin();
    back(|b| b.clear());
    let mut s = Spy { inner: A::mk(5), last: 0, returned: vec![] };
    let mut hs: Vec<Handle<T, A>> = vec![];
    let name = std::any::type_name::<T>();
    op!(c, "{name} through {}", A::NAME);
    let arm = !A::CHECKED;
    let mut freed = 0;
    for step in 0..c.range(1, 14) {
        match c.below(6) {
            0 | 1 => {
                let cap = match c.below(8) {
                    0 => 1,
                    1 if size_of::<T>() > 0 => usize::MAX / size_of::<T>() - c.usize(2),
                    _ => c.usize(40),
                };
                let f = fails(c);
                let one = cap == 1 && c.bool();
                let (h, _) = under(arm, f, || if one { AllocPtr::<T, Spy<A>>::alloc(&mut s) } else { AllocPtr::<T, Spy<A>>::alloc_array(&mut s, cap) });
                op!(c, "alloc_array({cap}) refusals {f:b} -> {}", h.is_some());
                let at = format!("{} {name} step {step}: alloc_array({cap})", A::NAME);
                let huge = size_of::<T>() as u128 * cap as u128 > 1 << 28;
                let Some(h) = h else {
                    ck!(f != 0 || huge, "{at}: failed although nothing refused");
                    continue;
                };
                ck!(!huge, "{at}: succeeded");
                let h = Handle { h, cap, origin: s.last, seed: c.u64(), strong: 1, weak: 1 };
                handle(&h, &at)?;
                fill(&h);
                hs.push(h);
            }
            2 | 3 if !hs.is_empty() => {
                let i = c.usize(hs.len());
                let prev = hs[i].cap;
                let cap = match c.below(8) {
                    0 => prev * 2,
                    1 if size_of::<T>() > 0 => usize::MAX / size_of::<T>() - c.usize(2),
                    _ => c.usize(60),
                };
                let f = fails(c);
                let old = hs[i].h;
                let (h, _) = under(arm, f, || unsafe { old.realloc(&mut s, prev, cap) });
                op!(c, "realloc(handle {i}, {prev} -> {cap}) refusals {f:b} -> {}", h.is_some());
                let at = format!("{} {name} step {step}: realloc({prev} -> {cap})", A::NAME);
                let huge = size_of::<T>() as u128 * cap as u128 > 1 << 28;
                match h {
                    None => {
                        ck!(f != 0 || huge, "{at}: failed although nothing refused");
                        handle(&hs[i], &at)?;
                        content(&hs[i], usize::MAX, &at)?;
                        c.label("failed to resize");
                    }
                    Some(h) => {
                        ck!(!huge, "{at}: succeeded");
                        let x = &mut hs[i];
                        let n = bytes(x);
                        x.h = h;
                        x.cap = cap;
                        x.origin = s.last;
                        // vectors are unique when they grow
                        (x.strong, x.weak) = (1, 1);
                        handle(x, &at)?;
                        content(x, n, &at)?;
                        x.seed = c.u64();
                        fill(x);
                        c.label("resized");
                    }
                }
            }
            4 if !hs.is_empty() => {
                let i = c.usize(hs.len());
                let x = hs.swap_remove(i);
                op!(c, "free(handle {i})");
                content(&x, usize::MAX, "before free")?;
                let p = if c.bool() { x.h } else { x.h.cast::<u8>().cast::<T>() };
                under(arm, 0, || unsafe { p.free(&mut s) });
                freed += 1;
                ck_eq!(s.returned.last().copied(), Some(x.origin), "the address returned to the allocator");
                ck_eq!(s.returned.len(), freed, "number of blocks returned");
            }
            _ if !hs.is_empty() => {
                let i = c.usize(hs.len());
                let n = c.usize(5);
                unsafe { hs[i].h.prefix_mut() }.strong.store(n, std::sync::atomic::Ordering::Relaxed);
                unsafe { hs[i].h.prefix_mut() }.weak.store(n + 1, std::sync::atomic::Ordering::Relaxed);
                (hs[i].strong, hs[i].weak) = (n, n + 1);
            }
            _ => {}
        }
        // reallocation through the default implementation returns the old block itself
        freed = s.returned.len();
        for h in &hs {
            handle(h, &format!("{} {name} step {step}: another handle", A::NAME))?;
        }
        chk::mid()?;
    }
    c.nontrivial = s.last != 0;
    for h in hs {
        content(&h, usize::MAX, "at the end")?;
        under(arm, 0, || unsafe { h.h.free(&mut s) });
    }
    ck_eq!(back(|b| b.len()), 0, "blocks that never went back");
    chk::end()
}
fn pick_handles(c: &mut Case) -> Res {
    fn a<T: 'static>(c: &mut Case) -> Res {
        match c.below(5) {
            0 => handles::<T, Chk>(c),
            1 => handles::<T, ChkZ>(c),
            2 => handles::<T, ChkD>(c),
            3 => handles::<T, RustAlloc>(c),
            _ => handles::<T, LibcAlloc>(c),
        }
    }
    match c.below(8) {
        0 => a::<u8>(c),
        1 => a::<u32>(c),
        2 => a::<u64>(c),
        3 => a::<u128>(c),
        4 => a::<Al64>(c),
        5 => a::<()>(c),
        6 => a::<Z32>(c),
        _ => a::<[u8; 24]>(c),
    }
}
fn main() {
    vph::main(
        "C09",
        "allocators: a block was resized, a request was refused or more than 2 blocks were live; layouts: std accepts them too; handles: something was allocated",
        &[
            vph::sub("allocators", 120_000, 12_000_000, direct),
            vph::sub("layouts", 200_000, 20_000_000, layouts),
            vph::sub("handles", 120_000, 12_000_000, pick_handles),
        ],
        &[],
    );
}
