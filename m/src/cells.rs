//! C17: shared cells, sets and registries against their sequential models.
use crate::{tick, Cnt, Plan, P, STRICT};
use stabby::abi::vtable::{VTableRegistry, VtBtree, VtVec};
use stabby::alloc::collections::arc_btree::AtomicArcBTreeSet;
use stabby::alloc::sync::AtomicArc;
use stabby::sync::Arc;
use std::sync::atomic::Ordering;

/// When an operation was called and returned, and what it did.
#[derive(Debug)]
pub struct Event<O> {
    thread: usize,
    from: u64,
    to: u64,
    op: O,
}
/// A sequential object: the state after an operation, if that operation could have had that result.
trait Model {
    type O: std::fmt::Debug;
    type St: Clone + PartialEq + std::fmt::Debug;
    fn step(st: &Self::St, o: &Self::O) -> Option<Self::St>;
}
/// Whether the operations can be ordered, keeping the order of those that didn't overlap, so that each had its result.
fn linearizable<M: Model>(st: &M::St, ev: &[Event<M::O>], done: &mut Vec<bool>, left: usize, dead: &mut Vec<(Vec<bool>, M::St)>) -> bool {
    if left == 0 {
        return true;
    }
    if dead.iter().any(|(d, s)| d == done && s == st) {
        return false;
    }
    // an operation can only come next if no other remaining one returned before it was called
    let strict = STRICT.load(Ordering::Relaxed);
    let next = |e: &Event<M::O>| !ev.iter().zip(done.iter()).any(|(x, d)| !d && x.to < e.from && (strict || x.thread == e.thread || e.thread == END));
    let ready: Vec<usize> = (0..ev.len()).filter(|i| !done[*i] && next(&ev[*i])).collect();
    for i in ready {
        if let Some(next) = M::step(st, &ev[i].op) {
            done[i] = true;
            if linearizable::<M>(&next, ev, done, left - 1, dead) {
                return true;
            }
            done[i] = false;
        }
    }
    dead.push((done.clone(), st.clone()));
    false
}
fn check<M: Model>(st: M::St, ev: Vec<Event<M::O>>) {
    let n = ev.len();
    assert!(
        linearizable::<M>(&st, &ev, &mut vec![false; n], n, &mut vec![]),
        "no sequential order explains these results, from {st:?}: {ev:?}"
    );
}
/// Of what the main thread does once the others are done.
const END: usize = usize::MAX;
pub fn run(p: &Plan) -> Option<isize> {
    STRICT.store(p.opts[p.opts.len() - 1] == 1, Ordering::Relaxed);
    match p.kind {
        0 => {
            cell(p);
            Some(0)
        }
        1 => {
            set::<false>(p);
            Some(0)
        }
        2 => {
            set::<true>(p);
            Some(0)
        }
        3 => Some(registry(p, VtBtree::<5>::new())),
        _ => Some(registry(p, VtVec::new(None))),
    }
}
/// Runs `f(thread, operations)` in one thread per list, the first being the main thread, and gathers the events.
fn threads<E>(p: &Plan, f: impl Fn(usize, &[(u8, u8)]) -> Vec<E>) -> Vec<E> {
    let f = &f;
    let hs: Vec<_> = (1..p.threads.len())
        .map(|t| {
            let ops = &p.threads[t];
            crate::spawn(move || f(t, ops))
        })
        .collect();
    let mut ev = f(0, &p.threads[0]);
    for h in hs {
        ev.extend(h.join());
    }
    ev
}
#[derive(Debug)]
enum C {
    Load(u64),
    Store(u64),
    /// current, new, exchanged, result
    Cas(u64, u64, bool, u64),
    Is(u64, Option<u64>),
}
struct MCell;
impl Model for MCell {
    type O = C;
    type St = u64;
    fn step(st: &u64, o: &C) -> Option<u64> {
        match *o {
            C::Load(x) => (x == *st).then_some(*st),
            C::Store(x) => Some(x),
            C::Cas(cur, new, true, res) => (cur == *st && res == cur).then_some(new),
            C::Cas(cur, _, false, res) => (cur != *st && res == *st).then_some(*st),
            C::Is(cur, None) => (cur == *st).then_some(*st),
            C::Is(cur, Some(res)) => (cur != *st && res == *st).then_some(*st),
        }
    }
}
type A = Arc<P, Cnt>;
fn id(a: &Option<A>) -> u64 {
    a.as_ref().map_or(0, |a| {
        a.read();
        a.id
    })
}
fn cell(p: &Plan) {
    let sc = p.opts[1] == 0;
    let (ld, st, rw) = if sc {
        (Ordering::SeqCst, Ordering::SeqCst, Ordering::SeqCst)
    } else {
        (Ordering::Acquire, Ordering::Release, Ordering::AcqRel)
    };
    let fresh = || Arc::new_in(P::new(3), Cnt::default());
    let first = (p.opts[0] == 1).then(fresh);
    let start = id(&first);
    let cell: AtomicArc<P, Cnt> = AtomicArc::new(first);
    let mut ev = threads(p, |thread, ops| {
        let mut held: Vec<A> = vec![];
        let mut ev = vec![];
        for &(op, arg) in ops {
            let i = arg as usize % held.len().max(1);
            let h = held.get(i).cloned();
            let hid = id(&h);
            match op {
                0 => {
                    let from = tick();
                    let x = cell.load(ld);
                    let to = tick();
                    ev.push(Event {
                        thread,
                        from,
                        to,
                        op: C::Load(id(&x)),
                    });
                    held.extend(x);
                }
                1..=3 => {
                    let x = if op == 1 {
                        Some(fresh())
                    } else if op == 2 {
                        h
                    } else {
                        None
                    };
                    let n = id(&x);
                    if op == 1 && arg == 0 {
                        held.extend(x.clone());
                    }
                    let from = tick();
                    cell.store(x, st);
                    let to = tick();
                    ev.push(Event { thread, from, to, op: C::Store(n) });
                }
                4 | 5 => {
                    let x = if op == 4 {
                        Some(fresh())
                    } else if arg == 0 {
                        None
                    } else {
                        held.last().cloned()
                    };
                    let n = id(&x);
                    let from = tick();
                    let r = cell.compare_exchange(h.as_ref(), x, rw, ld);
                    let to = tick();
                    let (ok, r) = match r {
                        Ok(x) => (true, x),
                        Err(x) => (false, x),
                    };
                    ev.push(Event {
                        thread,
                        from,
                        to,
                        op: C::Cas(hid, n, ok, id(&r)),
                    });
                    held.extend(r);
                }
                6 => {
                    let from = tick();
                    let r = cell.is(h.as_ref(), ld);
                    let to = tick();
                    let r = r.err();
                    ev.push(Event {
                        thread,
                        from,
                        to,
                        op: C::Is(hid, r.as_ref().map(id)),
                    });
                    held.extend(r.flatten());
                }
                7 if !held.is_empty() => {
                    drop(h);
                    drop(held.swap_remove(i))
                }
                8 => held.iter().for_each(|a| {
                    a.read();
                }),
                _ => std::thread::yield_now(),
            }
        }
        ev
    });
    let from = tick();
    let x = cell.load(ld);
    ev.push(Event {
        thread: END,
        from,
        to: tick(),
        op: C::Load(id(&x)),
    });
    check::<MCell>(start, ev);
    if let Some(x) = &x {
        assert_eq!(Arc::strong_count(x), 2, "strong count of the last value");
    }
    drop(cell);
    if let Some(x) = &x {
        assert_eq!(Arc::strong_count(x), 1, "strong count of the last value once the cell is dropped");
    }
}
#[derive(Clone)]
struct It {
    key: u8,
    tag: u64,
    p: P,
}
impl It {
    fn new(key: u8, tag: u64) -> It {
        It { key, tag, p: P::new(tag) }
    }
    fn tag(&self) -> u64 {
        assert_eq!(self.p.read(), self.tag, "an element is intact");
        self.tag
    }
}
impl PartialEq for It {
    fn eq(&self, o: &It) -> bool {
        self.key == o.key
    }
}
impl Eq for It {}
impl PartialOrd for It {
    fn partial_cmp(&self, o: &It) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for It {
    fn cmp(&self, o: &It) -> std::cmp::Ordering {
        self.key.cmp(&o.key)
    }
}
impl PartialEq<u8> for It {
    fn eq(&self, o: &u8) -> bool {
        self.key == *o
    }
}
impl PartialOrd<u8> for It {
    fn partial_cmp(&self, o: &u8) -> Option<std::cmp::Ordering> {
        Some(self.key.cmp(o))
    }
}
const KEYS: usize = 12;
#[derive(Debug)]
enum S {
    /// key, tag, tag returned
    Ins(u8, u64, u64),
    /// key, tag, tag of the element already there
    Absent(u8, u64, u64),
    Get(u8, u64),
    All([u64; KEYS]),
}
struct MSet<const R: bool>;
impl<const R: bool> Model for MSet<R> {
    type O = S;
    type St = [u64; KEYS];
    fn step(st: &[u64; KEYS], o: &S) -> Option<[u64; KEYS]> {
        let mut n = *st;
        match *o {
            S::Ins(k, tag, res) => {
                let old = st[k as usize];
                if old == 0 || R {
                    n[k as usize] = tag;
                }
                let want = if old == 0 {
                    0
                } else if R {
                    old
                } else {
                    tag
                };
                (res == want).then_some(n)
            }
            S::Absent(k, tag, res) => {
                let old = st[k as usize];
                if old == 0 {
                    n[k as usize] = tag;
                }
                (res == old).then_some(n)
            }
            S::Get(k, res) => (res == st[k as usize]).then_some(n),
            S::All(a) => (a == *st).then_some(n),
        }
    }
}
fn set<const R: bool>(p: &Plan) {
    let set: AtomicArcBTreeSet<It, R, 5> = AtomicArcBTreeSet::new();
    let mut start = [0; KEYS];
    for k in 0..p.opts[0] {
        // spread over the keys
        let key = (k * 5 + 2) % KEYS;
        start[key] = 1000 + key as u64;
        set.edit(|mut s| {
            s.insert(It::new(key as u8, 1000 + key as u64));
            s
        });
    }
    let get = |key: u8| {
        let mut r = None;
        set.get(&key, |x| r = Some(x.map_or(0, It::tag)));
        r.expect("get called back")
    };
    let mut ev = threads(p, |thread, ops| {
        let mut ev = vec![];
        for (i, &(op, key)) in ops.iter().enumerate() {
            let tag = (thread * 16 + i + 1) as u64;
            let from = tick();
            let op = match op {
                0 => {
                    let mut r = None;
                    set.edit(|mut s| {
                        r = Some(s.insert(It::new(key, tag)).map_or(0, |x| x.tag()));
                        s
                    });
                    S::Ins(key, tag, r.expect("edit called back"))
                }
                1 => S::Get(key, get(key)),
                2 => {
                    let mut r = None;
                    set.edit(|mut s| {
                        r = Some(s.get(&key).map_or(0, It::tag));
                        if r == Some(0) {
                            assert!(s.insert(It::new(key, tag)).is_none(), "an absent key was there");
                        }
                        s
                    });
                    S::Absent(key, tag, r.expect("edit called back"))
                }
                3 => {
                    set.edit(|s| s);
                    continue;
                }
                _ => {
                    std::thread::yield_now();
                    continue;
                }
            };
            ev.push(Event { thread, from, to: tick(), op });
        }
        ev
    });
    let from = tick();
    let mut all = [0; KEYS];
    for k in 0..KEYS {
        all[k] = get(k as u8);
    }
    ev.push(Event {
        thread: END,
        from,
        to: tick(),
        op: S::All(all),
    });
    check::<MSet<R>>(start, ev);
}
static WORDS: [u8; 64] = [0; 64];
fn registry(p: &Plan, reg: impl VTableRegistry + Sync) -> isize {
    let vt = |a: u8| -> Vec<*const ()> { (0..1 + a as usize % 3).map(|i| &WORDS[(a as usize * 3 + i * 5) % 64] as *const u8 as *const ()).collect() };
    let put = |a: u8| {
        let v = vt(a);
        let r = reg.insert(&v);
        // what was registered outlives whatever it was copied from
        let copy: Vec<*const ()> = (0..v.len()).map(|i| unsafe { *r.as_ptr().add(i) }).collect();
        assert_eq!(copy, v, "contents of the registered table");
        (a, r.as_ptr() as usize)
    };
    let mut all: Vec<(u8, usize)> = (0..p.opts[0]).map(|i| put((i * 3) as u8 % 8)).collect();
    all.extend(threads(p, |_, ops| {
        let mut ev = vec![];
        for &(op, a) in ops {
            ev.push(put(a));
            if op == 1 {
                ev.push(put(a));
            }
        }
        ev
    }));
    for a in 0..8 {
        if all.iter().any(|x| x.0 == a) {
            all.push(put(a));
        }
    }
    for x in &all {
        for y in &all {
            assert_eq!(x.0 == y.0, x.1 == y.1, "tables {} and {} are at {:x} and {:x}", x.0, y.0, x.1, y.1);
        }
    }
    drop(reg);
    // registered tables live forever
    all.sort();
    all.dedup();
    all.len() as isize
}
