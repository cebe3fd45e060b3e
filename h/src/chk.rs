//! A stabby allocator that checks every call and every byte around its blocks, and can be told to fail.
use crate::track;
use stabby::alloc::{IAlloc, Layout};
use std::collections::HashMap;
use std::sync::Mutex;

const RZ: usize = 64;
struct Block {
    base: usize,
    total: usize,
    size: usize,
    align: usize,
    tag: u32,
}
#[derive(Default)]
pub struct State {
    live: HashMap<usize, Block>,
    dead: HashMap<usize, Block>,
    pub allocs: u64,
    pub frees: u64,
    pub reallocs: u64,
    /// bitmask over the next calls that may fail; bit 0 = next
    fail_mask: u64,
    fail_from: bool,
    pub refused: u64,
    pub live_bytes: usize,
}
static ST: Mutex<Option<State>> = Mutex::new(None);
fn with<T>(f: impl FnOnce(&mut State) -> T) -> T {
    let mut g = ST.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(State::default))
}
pub fn reset() {
    with(|s| {
        for (_, b) in s.live.drain().chain(s.dead.drain()) {
            unsafe { libc::free(b.base as *mut _) }
        }
        *s = State::default();
    })
}
pub fn fail_mask(m: u64) {
    with(|s| {
        s.fail_mask = m;
        s.fail_from = false;
    })
}
/// every request fails until switched off
pub fn fail_all(on: bool) {
    with(|s| {
        s.fail_from = on;
        s.fail_mask = 0;
    })
}
pub fn refused() -> u64 {
    with(|s| s.refused)
}
pub fn live() -> usize {
    with(|s| s.live.len())
}
pub fn counts() -> (u64, u64, u64) {
    with(|s| (s.allocs, s.frees, s.reallocs))
}
/// true if `p` (any interior pointer, `len` bytes) lies inside one live block
pub fn covers(p: usize, len: usize) -> bool {
    with(|s| s.live.iter().any(|(a, b)| p >= *a && p + len <= *a + b.size))
}
fn fill(p: usize, n: usize, v: u8) {
    unsafe { core::ptr::write_bytes(p as *mut u8, v, n) }
}
fn all(p: usize, n: usize, v: u8) -> bool {
    unsafe { core::slice::from_raw_parts(p as *const u8, n) }.iter().all(|b| *b == v)
}
impl Block {
    fn user(&self) -> usize {
        // recomputed from the base so that it is stable
        let mut u = (self.base + RZ + self.align - 1) / self.align * self.align;
        if (u / self.align) % 2 == 0 {
            u += self.align;
        }
        u
    }
    fn redzones_ok(&self) -> bool {
        let u = self.user();
        all(self.base, u - self.base, 0xFA) && all(u + self.size, self.base + self.total - u - self.size, 0xFA)
    }
}
fn do_alloc(size: usize, align: usize, tag: u32) -> usize {
    if size == 0 {
        return 0;
    }
    if align == 0 || !align.is_power_of_two() {
        track::error(format!("allocation requested with alignment {align}"));
        return 0;
    }
    if size > 1 << 28 {
        with(|s| s.refused += 1);
        return 0;
    }
    with(|s| {
        let refuse = s.fail_from || s.fail_mask & 1 == 1;
        s.fail_mask >>= 1;
        if refuse {
            s.refused += 1;
            return 0;
        }
        s.allocs += 1;
        let total = size + 2 * align + 2 * RZ;
        let base = unsafe { libc::malloc(total) } as usize;
        assert!(base != 0);
        fill(base, total, 0xFA);
        let b = Block { base, total, size, align, tag };
        let u = b.user();
        fill(u, size, 0xA5);
        s.live_bytes += size;
        s.live.insert(u, b);
        u
    })
}
fn do_free(p: usize, tag: u32) {
    let e = with(|s| match s.live.remove(&p) {
        None => Some(if s.dead.contains_key(&p) { format!("block freed twice") } else { format!("free of an address that was never allocated") }),
        Some(b) => {
            s.frees += 1;
            s.live_bytes -= b.size;
            let mut e = None;
            if !b.redzones_ok() {
                e = Some(format!("write outside a block of {} bytes (align {})", b.size, b.align));
            } else if b.tag != tag {
                e = Some(format!("block allocated by allocator {} freed through allocator {}", b.tag, tag));
            }
            fill(p, b.size, 0xDD);
            s.dead.insert(p, b);
            e
        }
    });
    if let Some(e) = e {
        track::error(e);
    }
}
fn do_realloc(p: usize, prev: Layout, new: usize, tag: u32) -> usize {
    if new == 0 {
        return 0;
    }
    let info = with(|s| s.live.get(&p).map(|b| (b.size, b.align)));
    let Some((size, align)) = info else {
        track::error("realloc of an address that was never allocated".into());
        return 0;
    };
    if prev.size != size || prev.align != align {
        track::error(format!("realloc claims previous layout {}/{} but the block is {}/{}", prev.size, prev.align, size, align));
    }
    let q = do_alloc(new, align, tag);
    if q != 0 {
        unsafe { core::ptr::copy_nonoverlapping(p as *const u8, q as *mut u8, size.min(new)) };
        do_free(p, tag);
        with(|s| s.reallocs += 1);
    }
    q
}
/// Red zones and freed memory still hold their patterns.
pub fn check() -> Result<(), String> {
    with(|s| {
        for b in s.live.values() {
            if !b.redzones_ok() {
                return Err(format!("write outside a live block of {} bytes (align {})", b.size, b.align));
            }
        }
        for b in s.dead.values() {
            if !b.redzones_ok() || !all(b.user(), b.size, 0xDD) {
                return Err(format!("write to a freed block of {} bytes", b.size));
            }
        }
        Ok(())
    })
}
/// `check`, and no block is still live.
pub fn finish() -> Result<(), String> {
    check()?;
    with(|s| {
        if s.live.is_empty() {
            Ok(())
        } else {
            Err(format!("{} block(s) never freed (sizes {:?})", s.live.len(), s.live.values().map(|b| b.size).collect::<Vec<_>>()))
        }
    })
}

/// Zero-sized checking allocator.
#[stabby::stabby]
#[derive(Clone, Copy, Default, Debug)]
pub struct ChkZ();
/// Checking allocator that carries state: blocks must come back through the same tag.
#[stabby::stabby]
#[derive(Clone, Copy, Debug)]
pub struct Chk {
    pub tag: u32,
    pub live: u32,
}
impl Default for Chk {
    fn default() -> Self {
        Chk { tag: 7, live: 0xC0FFEE }
    }
}
impl Chk {
    pub fn new(tag: u32) -> Self {
        Chk { tag, live: 0xC0FFEE }
    }
    fn ok(&self) {
        if self.live != 0xC0FFEE {
            track::error(format!("allocator state corrupted: {:#x}/{:#x}", self.tag, self.live));
        }
    }
}
impl IAlloc for ChkZ {
    fn alloc(&mut self, l: Layout) -> *mut () {
        do_alloc(l.size, l.align, 0) as *mut ()
    }
    unsafe fn free(&mut self, p: *mut ()) {
        do_free(p as usize, 0)
    }
    unsafe fn realloc(&mut self, p: *mut (), prev: Layout, new: usize) -> *mut () {
        do_realloc(p as usize, prev, new, 0) as *mut ()
    }
}
impl IAlloc for Chk {
    fn alloc(&mut self, l: Layout) -> *mut () {
        self.ok();
        do_alloc(l.size, l.align, self.tag) as *mut ()
    }
    unsafe fn free(&mut self, p: *mut ()) {
        self.ok();
        do_free(p as usize, self.tag)
    }
    unsafe fn realloc(&mut self, p: *mut (), prev: Layout, new: usize) -> *mut () {
        self.ok();
        do_realloc(p as usize, prev, new, self.tag) as *mut ()
    }
}
/// Like `Chk`, with the reallocation every allocator gets by default.
#[stabby::stabby]
#[derive(Clone, Copy, Debug)]
pub struct ChkD {
    pub tag: u32,
    pub live: u32,
}
impl Default for ChkD {
    fn default() -> Self {
        ChkD { tag: 9, live: 0xC0FFEE }
    }
}
impl IAlloc for ChkD {
    fn alloc(&mut self, l: Layout) -> *mut () {
        Chk { tag: self.tag, live: self.live }.ok();
        do_alloc(l.size, l.align, self.tag) as *mut ()
    }
    unsafe fn free(&mut self, p: *mut ()) {
        Chk { tag: self.tag, live: self.live }.ok();
        do_free(p as usize, self.tag)
    }
}
impl TA for ChkD {
    const NAME: &'static str = "ChkD";
    const CHECKED: bool = true;
    fn mk(tag: u32) -> Self {
        ChkD { tag, live: 0xC0FFEE }
    }
}
/// Checking allocator that must be dropped exactly as often as it was made.
#[stabby::stabby]
#[derive(Debug)]
pub struct ChkR {
    pub tag: u32,
    pub live: u32,
}
static HANDLES: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
/// Allocators of type `ChkR` made and not dropped yet.
pub fn handles() -> isize {
    HANDLES.load(std::sync::atomic::Ordering::SeqCst)
}
impl Default for ChkR {
    fn default() -> Self {
        <ChkR as TA>::mk(11)
    }
}
impl Clone for ChkR {
    fn clone(&self) -> Self {
        Chk { tag: self.tag, live: self.live }.ok();
        track::user(track::K_ALLOC);
        <ChkR as TA>::mk(self.tag)
    }
}
impl Drop for ChkR {
    fn drop(&mut self) {
        Chk { tag: self.tag, live: self.live }.ok();
        self.live = 0xDEAD;
        HANDLES.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}
impl IAlloc for ChkR {
    fn alloc(&mut self, l: Layout) -> *mut () {
        Chk { tag: self.tag, live: self.live }.alloc(l)
    }
    unsafe fn free(&mut self, p: *mut ()) {
        Chk { tag: self.tag, live: self.live }.free(p)
    }
    unsafe fn realloc(&mut self, p: *mut (), prev: Layout, new: usize) -> *mut () {
        Chk { tag: self.tag, live: self.live }.realloc(p, prev, new)
    }
}
impl TA for ChkR {
    const NAME: &'static str = "ChkR";
    const CHECKED: bool = true;
    fn mk(tag: u32) -> Self {
        HANDLES.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        ChkR { tag, live: 0xC0FFEE }
    }
}
/// Allocators the generic checks run with.
pub trait TA: IAlloc + Clone + stabby::IStable + Default + 'static {
    const NAME: &'static str;
    const CHECKED: bool;
    fn mk(tag: u32) -> Self;
}
impl TA for ChkZ {
    const NAME: &'static str = "ChkZ";
    const CHECKED: bool = true;
    fn mk(_: u32) -> Self {
        ChkZ()
    }
}
impl TA for Chk {
    const NAME: &'static str = "Chk";
    const CHECKED: bool = true;
    fn mk(tag: u32) -> Self {
        Chk::new(tag)
    }
}
impl TA for stabby::alloc::allocators::RustAlloc {
    const NAME: &'static str = "RustAlloc";
    const CHECKED: bool = false;
    fn mk(_: u32) -> Self {
        Self::new()
    }
}
impl TA for stabby::alloc::allocators::LibcAlloc {
    const NAME: &'static str = "LibcAlloc";
    const CHECKED: bool = false;
    fn mk(_: u32) -> Self {
        Self::new()
    }
}
/// start of a case
pub fn begin() {
    track::reset();
    HANDLES.store(0, std::sync::atomic::Ordering::SeqCst);
    reset();
}
/// end of a case: everything dropped, freed and intact
pub fn end() -> Result<(), String> {
    track::finish()?;
    finish()?;
    match handles() {
        0 => Ok(()),
        n if n > 0 => Err(format!("{n} allocator(s) never dropped")),
        n => Err(format!("allocators dropped {} time(s) more than they were made", -n)),
    }
}
/// during a case
pub fn mid() -> Result<(), String> {
    track::check()?;
    check()
}
