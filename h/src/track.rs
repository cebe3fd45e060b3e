//! Payload types whose births, copies, drops and uses are all accounted for.
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

pub struct Reg {
    state: Vec<u8>, // 1 alive, 2 dead
    pub errors: Vec<String>,
    zst_alive: i64,
    /// countdown to an injected panic in user code; negative = off
    pub panic_in: i64,
    pub user_calls: u64,
    pub panic_kinds: u32,
}
pub static REG: Mutex<Reg> = Mutex::new(Reg { state: vec![], errors: vec![], zst_alive: 0, panic_in: -1, user_calls: 0, panic_kinds: !0 });
fn reg() -> std::sync::MutexGuard<'static, Reg> {
    REG.lock().unwrap_or_else(|e| e.into_inner())
}
pub const K_CLONE: u32 = 1;
pub const K_DROP: u32 = 2;
pub const K_CMP: u32 = 4;
pub const K_CALL: u32 = 8;
pub const K_ALLOC: u32 = 16;

pub fn reset() {
    let mut r = reg();
    r.state.clear();
    r.errors.clear();
    r.zst_alive = 0;
    r.panic_in = -1;
    r.user_calls = 0;
    r.panic_kinds = !0;
}
pub fn arm_panic(n: i64, kinds: u32) {
    let mut r = reg();
    r.panic_in = n;
    r.panic_kinds = kinds;
}
pub fn disarm() -> bool {
    let mut r = reg();
    let fired = r.panic_in == -2;
    r.panic_in = -1;
    fired
}
/// A point where user code may panic.
pub fn user(kind: u32) {
    let mut r = reg();
    r.user_calls += 1;
    if r.panic_in >= 0 && r.panic_kinds & kind != 0 && !std::thread::panicking() {
        if r.panic_in == 0 {
            r.panic_in = -2;
            drop(r);
            panic!("injected");
        }
        r.panic_in -= 1;
    }
}
pub fn error(e: String) {
    let mut r = reg();
    if r.errors.len() < 5 {
        r.errors.push(e);
    }
}
pub fn alive() -> i64 {
    let r = reg();
    r.state.iter().filter(|s| **s == 1).count() as i64 + r.zst_alive
}
pub fn born_total() -> usize {
    reg().state.len()
}
/// No accounting error so far.
pub fn check() -> Result<(), String> {
    let r = reg();
    match r.errors.first() {
        Some(e) => Err(e.clone()),
        None => Ok(()),
    }
}
/// No accounting error, and every tracked value has been dropped.
pub fn finish() -> Result<(), String> {
    check()?;
    let a = alive();
    if a != 0 {
        return Err(format!("{a} tracked value(s) never dropped"));
    }
    Ok(())
}
fn birth() -> u32 {
    let mut r = reg();
    r.state.push(1);
    (r.state.len() - 1) as u32
}
fn death(id: u32, what: &str) {
    let mut r = reg();
    let e = match r.state.get(id as usize) {
        Some(1) => {
            r.state[id as usize] = 2;
            None
        }
        Some(_) => Some(format!("value #{id} dropped twice ({what})")),
        None => Some(format!("garbage value dropped, id {id:#x} ({what})")),
    };
    if let Some(e) = e {
        if r.errors.len() < 5 {
            r.errors.push(e);
        }
    }
}
fn used(id: u32) {
    let mut r = reg();
    let e = match r.state.get(id as usize) {
        Some(1) => None,
        Some(_) => Some(format!("value #{id} used after it was dropped")),
        None => Some(format!("garbage value used, id {id:#x}")),
    };
    if let Some(e) = e {
        if r.errors.len() < 5 {
            r.errors.push(e);
        }
    }
}

/// A tracked element type for the model-based checks.
pub trait El: Clone + PartialEq + Eq + PartialOrd + Ord + Hash + std::fmt::Debug + stabby::IStable + 'static {
    const NAME: &'static str;
    const DISTINCT: u32 = u32::MAX;
    fn new(v: u32) -> Self;
    fn val(&self) -> u32;
    fn set(&mut self, v: u32);
}
macro_rules! el {
    ($(#[$m:meta])* $name:ident { $($pre:ident : $pt:ty = $pv:expr),* ; $($post:ident : $qt:ty = $qv:expr),* }) => {
        #[stabby::stabby(no_opt)]
        $(#[$m])*
        pub struct $name { $($pre: $pt,)* id: u32, v: u32, $($post: $qt,)* }
        impl $name {
            #[inline(never)]
            fn chk(&self) {
                if (self as *const Self as usize) % core::mem::align_of::<Self>() != 0 {
                    error(format!(concat!(stringify!($name), " value at misaligned address")));
                }
                used(self.id);
                #[allow(unused)]
                let ok = true $(&& self.$pre == $pv)* $(&& self.$post == $qv)*;
                if !ok { error(format!(concat!(stringify!($name), " #{} corrupted"), self.id)); }
            }
        }
        impl El for $name {
            const NAME: &'static str = stringify!($name);
            fn new(v: u32) -> Self { $name { $($pre: $pv,)* id: birth(), v, $($post: $qv,)* } }
            fn val(&self) -> u32 { self.chk(); self.v }
            fn set(&mut self, v: u32) { self.chk(); self.v = v }
        }
        impl Clone for $name { fn clone(&self) -> Self { self.chk(); user(K_CLONE); Self::new(self.v) } }
        impl Drop for $name { fn drop(&mut self) { death(self.id, stringify!($name)); user(K_DROP); } }
        impl PartialEq for $name { fn eq(&self, o: &Self) -> bool { user(K_CMP); self.val() == o.val() } }
        impl Eq for $name {}
        impl PartialOrd for $name { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
        impl Ord for $name { fn cmp(&self, o: &Self) -> core::cmp::Ordering { user(K_CMP); self.val().cmp(&o.val()) } }
        impl Hash for $name { fn hash<H: Hasher>(&self, h: &mut H) { self.val().hash(h) } }
        impl core::fmt::Debug for $name { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "{}", self.val()) } }
    };
}
el!(Tr { ; });
el!(TrBig { a: u64 = 0x1122334455667788 ; b: u64 = 0x99aabbccddeeff00, c: [u64; 4] = [7; 4] });
el!(TrNiche { r: &'static u8 = &NICHE ; z: core::num::NonZeroU16 = core::num::NonZeroU16::MAX });
pub static NICHE: u8 = 0x5A;
el!(Tr16 { x: A16 = A16(3) ; });
el!(Tr64 { x: A64 = A64(9) ; });

#[stabby::stabby(no_opt)]
#[repr(align(16))]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct A16(pub u64);
#[stabby::stabby(no_opt)]
#[repr(align(64))]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct A64(pub u64);

/// Zero-sized tracked elements.
#[stabby::stabby]
pub struct TrZ();
#[stabby::stabby(no_opt)]
#[repr(align(64))]
pub struct TrZ64();
macro_rules! zel { ($z:ident) => {
impl El for $z {
    const NAME: &'static str = stringify!($z);
    const DISTINCT: u32 = 1;
    fn new(_: u32) -> Self {
        reg().zst_alive += 1;
        $z()
    }
    fn val(&self) -> u32 {
        if (self as *const Self as usize) % core::mem::align_of::<Self>() != 0 {
            error(concat!(stringify!($z), " value at misaligned address").into());
        }
        0
    }
    fn set(&mut self, _: u32) {}
}
impl Clone for $z {
    fn clone(&self) -> Self {
        user(K_CLONE);
        Self::new(0)
    }
}
impl Drop for $z {
    fn drop(&mut self) {
        {
            self.val();
            let mut r = reg();
            r.zst_alive -= 1;
            if r.zst_alive < 0 {
                r.errors.push("zero-sized value dropped more often than created".into());
            }
        }
        user(K_DROP);
    }
}
impl PartialEq for $z {
    fn eq(&self, _: &Self) -> bool {
        user(K_CMP);
        true
    }
}
impl Eq for $z {}
impl PartialOrd for $z {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for $z {
    fn cmp(&self, _: &Self) -> core::cmp::Ordering {
        user(K_CMP);
        core::cmp::Ordering::Equal
    }
}
impl Hash for $z {
    fn hash<H: Hasher>(&self, _: &mut H) {}
}
impl core::fmt::Debug for $z {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "Z")
    }
}

}; }
zel!(TrZ);
zel!(TrZ64);
macro_rules! plain {
    ($($t:ty),*) => { $(impl El for $t {
        const NAME: &'static str = stringify!($t);
        const DISTINCT: u32 = if core::mem::size_of::<$t>() == 1 { 256 } else if core::mem::size_of::<$t>() == 2 { 65536 } else { u32::MAX };
        fn new(v: u32) -> Self { v as $t }
        fn val(&self) -> u32 { *self as u32 }
        fn set(&mut self, v: u32) { *self = v as $t }
    })* };
}
plain!(u8, u16, u32, u64, u128);
