"""Thread-safety markers: random compositions of stable types, each beside the standard type it stands for."""
PAY = ['PNone', 'PSend', 'PSync', 'PBoth']
ALL = ['ANone', 'ASend', 'ASync', 'ABoth']
LEAVES = [('u32', 'u32'), ('bool', 'bool'), ('&\'static str', '&\'static str'), ('SStr<\'static>', '&\'static str'), ('SStrMut<\'static>', '&\'static mut str'), ('*const u8', '*const u8'), ('*mut u8', '*mut u8'), ('core::ptr::NonNull<u8>', 'core::ptr::NonNull<u8>'),
    ('core::sync::atomic::AtomicU32', 'core::sync::atomic::AtomicU32'), ('extern "C" fn(u32) -> u32', 'fn(u32) -> u32')]
class G:
    def __init__(self, rng): self.r, self.rows, self.seen = rng, [], set()
    def leaf(self):
        r = self.r
        if r.random() < .75:
            p = r.choice(PAY)
            return p, p
        return r.choice(LEAVES)
    def alloc(self):
        r = self.r
        if r.random() < .5: return 'stabby::alloc::DefaultAllocator', '()'
        a = r.choice(ALL)
        return a, a
    def comp(self, d):
        """(stable, standard)"""
        r = self.r
        if d <= 0 or r.random() < .12: return self.leaf()
        k = r.randrange(39)
        t, s = self.comp(d - 1)
        a, sa = self.alloc()
        own = lambda st, sd: (st, f'({sd}, {sa})')
        shr = lambda st, sd: (st, f'({sd}, std::sync::Arc<{sa}>)')
        if k < 4: return own(f'SBox<{t}, {a}>', f'Box<{s}>')
        if k < 6: return own(f'SBoxSlice<{t}, {a}>', f'Box<[{s}]>')
        if k < 9: return own(f'SVec<{t}, {a}>', f'Vec<{s}>')
        if k < 13: return shr(f'SArc<{t}, {a}>', f'std::sync::Arc<{s}>')
        if k < 15: return shr(f'SWeak<{t}, {a}>', f'std::sync::Weak<{s}>')
        if k < 17: return shr(f'SArcSlice<{t}, {a}>', f'std::sync::Arc<[{s}]>')
        if k < 18: return shr(f'SWeakSlice<{t}, {a}>', f'std::sync::Weak<[{s}]>')
        if k == 18: return shr(f'AtomicArc<{t}, {a}>', f'std::sync::Arc<{s}>')
        if k == 19: return f'SSlice<\'static, {t}>', f'&\'static [{s}]'
        if k == 20: return f'SSliceMut<\'static, {t}>', f'&\'static mut [{s}]'
        if k == 21: return f'&\'static {t}', f'&\'static {s}'
        if k == 22: return f'&\'static mut {t}', f'&\'static mut {s}'
        if k == 23:
            u, su = self.comp(d - 1)
            return f'stabby::abi::Tuple2<{t}, {u}>' if False else f'stabby::tuple::Tuple2<{t}, {u}>', f'({s}, {su})'
        if k == 24: return f'[{t}; 3]', f'[{s}; 3]'
        if k == 25:
            p, sp = self.plain()
            return r.choice([(f'SOption<{p}>', f'Option<{sp}>'), (f'SResult<{p}, u64>', f'Result<{sp}, u64>'), (f'SResult<u32, {p}>', f'Result<u32, {sp}>')])
        if k == 26:
            p, sp = self.plain()
            return own(f'SingleOrVec<{p}, {a}>', f'Vec<{sp}>') if a != 'stabby::alloc::DefaultAllocator' else (f'SingleOrVec<{p}>', f'Vec<{sp}>')
        if k == 27:
            p = r.choice(PAY)
            n = r.choice([3, 5])
            if r.random() < .5: return shr(f'ArcBTreeSet<{p}, {a}, {r.choice(["true", "false"])}, {n}>', f'std::sync::Arc<{p}>')
            q = r.choice(PAY)
            return shr(f'ArcBTreeMap<{q}, {p}, {a}, {n}>', f'std::sync::Arc<({q}, {p})>')
        if k == 28:
            p = r.choice(PAY)
            return f'AtomicArcBTreeSet<{p}, {r.choice(["true", "false"])}, 5>', f'std::sync::Arc<{p}>'
        if k == 29: return r.choice([own(f'stabby::vec::IntoIter<{t}, {a}>', f'std::vec::IntoIter<{s}>'), (f'stabby::vec::Drain<\'static, {t}, {a}>', f'(std::vec::Drain<\'static, {s}>, &\'static mut {sa})'), (f'stabby::vec::DoubleEndedDrain<\'static, {t}, {a}>', f'(std::vec::Drain<\'static, {s}>, &\'static mut {sa})')])
        if k == 30: return r.choice([own(f'SString<{a}>', 'String'), shr(f'ArcStr<{a}>', 'std::sync::Arc<str>'), shr(f'WeakStr<{a}>', 'std::sync::Weak<str>'), own(f'BoxedStr<{a}>', 'Box<str>')])
        if k == 31:
            p, sp = self.plain()
            return r.choice([(f'User<{p}>', f'StdUser<{sp}>'), (f'UserEnum<{p}>', f'Option<{sp}>')])
        if k == 32: return r.choice([(f'core::mem::ManuallyDrop<{t}>', s), (f'core::mem::MaybeUninit<{t}>', s), (f'core::marker::PhantomData<{t}>', s), (f'core::cell::UnsafeCell<{t}>', f'core::cell::UnsafeCell<{s}>'), (f'stabby::abi::StableLike<{t}, usize>', s)])
        if k == 33:
            p, q = r.choice(PAY), r.choice(PAY)
            return r.choice([(f'stabby::result::OkGuard<\'static, {p}, {q}>', f'&\'static mut Result<{p}, {q}>'), (f'stabby::result::ErrGuard<\'static, {p}, {q}>', f'&\'static mut Result<{p}, {q}>'), (f'stabby::option::SomeGuard<\'static, {p}>', f'&\'static mut Option<{p}>')])
        if k in (34, 36, 37):
            p, q = r.choice(PAY), r.choice(PAY)
            return r.choice([(f'stabby::abi::as_mut::MutAs<\'static, {p}, {p}>', f'&\'static mut {p}'), (f'stabby::abi::as_mut::RefAs<\'static, Option<{p}>, {p}>', f'(&\'static Option<{p}>, {p})'), (f'stabby::future::MaybeResolved<{p}, MyFut<{p}>>', p), ('stabby::future::StableWaker<\'static>', 'core::task::Waker'), (f'stabby::abi::borrow::Cow<\'static, {p}>' if False else f'UserSum<{p}, {q}>', f'({p}, {q})'), (f'stabby::abi::checked_import::CheckedImport<{p}>', f'std::sync::LazyLock<{p}>'), (f'stabby::abi::checked_import::CanariedImport<{p}>', p)])
        return self.dyn(d - 1)[:2]
    def plain(self):
        p = self.r.choice(PAY + ['u32'])
        return p, p
    def traits(self):
        r = self.r
        pool = ['Alpha', 'Beta', 'Gamma', 'Local', 'SAny', 'SFuture<Output = u32>', 'SIterator<Item = u32>', 'Fn(u32) -> u32', 'FnMut(u32) -> u32', 'FnOnce(u32) -> u32']
        n = r.choice([1, 1, 2, 2, 3, 4])
        ts = r.sample(pool[:5], min(n, 5)) if r.random() < .7 else r.sample(pool, n)
        ms = [m for m in ('Send', 'Sync') if r.random() < .5]
        for m in ms: ts.insert(r.randrange(len(ts) + 1) if r.random() < .8 else len(ts), m)
        while ts[0] in ('Send', 'Sync') and r.random() < .5: ts.append(ts.pop(0))
        return ts, ms
    def dyn(self, d):
        """(stable, standard, vt, markers, traits)"""
        r = self.r
        ts, ms = self.traits()
        vt = f'stabby::vtable!({" + ".join(ts)})'
        std = f'dyn Twin + {" + ".join(ms)}' if ms else 'dyn Twin'
        a, sa = self.alloc()
        k = r.randrange(9)
        if k < 3: st, sd = f'Dyn<\'static, SBox<(), {a}>, {vt}>', f'(Box<{std}>, {sa})'
        elif k < 5:
            st, sd = f'Dyn<\'static, SArc<(), {a}>, {vt}>', f'(std::sync::Arc<{std}>, std::sync::Arc<{sa}>)'
        elif k < 7: st, sd = f'Dyn<\'static, &\'static mut (), {vt}>', f'&\'static mut ({std})'
        else: st, sd = f'DynRef<\'static, {vt}>', f'&\'static ({std})'
        if 3 <= k < 5 and len(ms) == 1: return self.dyn(d)  # the recorded finding about shared trait objects
        return st, sd, vt, ms, ts
    def row(self, text, what, stable, std):
        key = (text, what)
        if key in self.seen: return
        self.seen.add(key)
        q = text.replace('\\', '\\\\').replace('"', '\\"')
        self.rows.append(f'        Mark {{ text: "{q}", what: "{what}", stable: {stable}, std: {std} }},\n')
    def one(self):
        r = self.r
        if r.random() < .02:
            a = r.choice(ALL)
            self.row(f'stabby::future::StableWaker<\'static, {a}> from &Waker', 'construction', f'vph::impls!(stabby::future::StableWaker<\'static, {a}>: From<&\'static core::task::Waker>)', f'vph::impls!({a}: Send) && vph::impls!({a}: Sync)')
        if r.random() < .3:
            # construction: a trait object that requires a marker (or a trait) from a value of a given type
            t, s = self.comp(r.choice([0, 0, 1]))
            if s is None: return
            ts, ms = self.traits()
            ts = [x for x in ts if x in ('Alpha', 'Beta', 'Gamma', 'Local', 'Send', 'Sync')] or ['Alpha']
            vt = f'stabby::vtable!({" + ".join(ts)})'
            need = [f'vph::impls!({s}: {m})' for m in ms] + (['true' if t in PAY else 'false'] if 'Local' in ts else [])
            p = r.randrange(4)
            src = [f'SBox<{t}>', f'SArc<{t}>', f'&\'static mut {t}', f'&\'static {t}'][p]
            to = [f'Dyn<\'static, SBox<()>, {vt}>', f'Dyn<\'static, SArc<()>, {vt}>', f'Dyn<\'static, &\'static mut (), {vt}>', f'DynRef<\'static, {vt}>'][p]
            self.row(f'{to} from {src}', 'construction', f'vph::impls!({to}: From<{src}>)', ' && '.join(need) or 'true')
            return
        t, s = self.comp(r.choice([1, 1, 2, 2, 3])) if r.random() < .6 else self.dyn(1)[:2]
        if s is None: return
        for m in ('Send', 'Sync'): self.row(t, m, f'vph::impls!({t}: {m})', f'vph::impls!({s}: {m})')
HEAD = """#![allow(warnings)]
#![recursion_limit = "2048"]
use vph::marks::*;
use stabby::{Dyn, DynRef};
use stabby::boxed::{Box as SBox, BoxedSlice as SBoxSlice};
use stabby::sync::{Arc as SArc, Weak as SWeak, ArcSlice as SArcSlice, WeakSlice as SWeakSlice, AtomicArc};
use stabby::vec::Vec as SVec;
use stabby::alloc::single_or_vec::SingleOrVec;
use stabby::string::{String as SString, ArcStr, WeakStr, BoxedStr};
use stabby::slice::{Slice as SSlice, SliceMut as SSliceMut};
use stabby::str::{Str as SStr, StrMut as SStrMut};
use stabby::option::Option as SOption;
use stabby::result::Result as SResult;
use stabby::collections::arc_btree::{ArcBTreeSet, ArcBTreeMap, AtomicArcBTreeSet};
use stabby::Any as SAny;
use stabby::future::Future as SFuture;
use stabby::abi::iter::Iterator as SIterator;

pub trait Twin {}
"""
def crate(rng, k, n):
    g = G(rng)
    while len(g.rows) < n: g.one()
    return HEAD + 'pub fn marks() -> Vec<Mark> {\n    vec![\n' + ''.join(g.rows) + '    ]\n}\n'
