//! C16: persistent ordered sets and maps against std's ordered maps.
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
use stabby::alloc::collections::arc_btree::{ArcBTreeMap, ArcBTreeSet};
use std::collections::BTreeMap;
use vph::chk::{self, Chk, ChkR, ChkD, ChkZ, TA};
use vph::track::{self, *};
use vph::*;

/// number of values that are alive and were ever created
fn births() -> u64 {
    track::born_total() as u64
}
/// nesting depth and leaves of a set's debug output, e.g. `ArcBTreeSet{{1, 2}, 3, {4}}`
fn parse(s: &str) -> Option<(Vec<u32>, usize)> {
    let s = s.strip_prefix("ArcBTreeSet")?;
    let (mut out, mut depth, mut deepest, mut cur) = (vec![], 0usize, 0usize, None::<u32>);
    for ch in s.chars() {
        match ch {
            '0'..='9' => cur = Some(cur.unwrap_or(0) * 10 + ch as u32 - 48),
            _ => {
                out.extend(cur.take());
                match ch {
                    '{' => {
                        depth += 1;
                        deepest = deepest.max(depth);
                    }
                    '}' => depth = depth.checked_sub(1)?,
                    ',' | ' ' => {}
                    _ => return None,
                }
            }
        }
    }
    (depth == 0).then_some((out, deepest))
}
fn depth_bound(len: usize, limit: usize) -> usize {
    // every node but the root holds at least limit/2 entries
    let (mut d, mut reach) = (1, 1usize);
    loop {
        // the least number of elements in a tree of depth d + 1
        let mut least = 1;
        let mut nodes = 2usize;
        for _ in 0..d {
            least += nodes * (limit / 2);
            nodes *= limit / 2 + 1;
        }
        reach = reach.max(least);
        if len < least {
            return d;
        }
        d += 1;
    }
}
fn domain(c: &mut Case) -> u64 {
    *c.pick(&[3, 8, 30, 120, 500])
}
struct Version<S> {
    s: S,
    m: BTreeMap<u32, u32>,
}
fn set_same<E: El, A: TA, const R: bool, const L: usize>(v: &Version<ArcBTreeSet<E, A, R, L>>, full: bool, at: &str) -> Result<usize, String> {
    ck_eq!((v.s.len(), v.s.is_empty()), (v.m.len(), v.m.is_empty()), "{at}: length");
    if !full {
        return Ok(0);
    }
    let d = format!("{:?}", v.s);
    let Some((vals, depth)) = parse(&d) else { return Err(format!("{at}: unexpected debug output {d}")) };
    ck!(vals.iter().eq(v.m.keys()), "{at}: in-order contents {vals:?} instead of {:?}", v.m.keys().collect::<Vec<_>>());
    if !v.m.is_empty() {
        ck!(depth <= depth_bound(v.m.len(), L), "{at}: depth {depth} for {} elements", v.m.len());
    }
    chk::mid().map_err(|e| format!("{at}: {e}"))?;
    Ok(depth)
}
fn set<E: El, A: TA, const R: bool, const L: usize>(c: &mut Case) -> Res {
    chk::begin();
    set_body::<E, A, R, L>(c)?;
    chk::end()
}
fn set_body<E: El, A: TA, const R: bool, const L: usize>(c: &mut Case) -> Res {
    let dom = domain(c).min(E::DISTINCT as u64);
    let steps = c.range(1, if c.thorough { 400 } else { 120 });
    let counted = core::mem::size_of::<E>() > 1 && births() == 0;
    let mut vs: Vec<Version<ArcBTreeSet<E, A, R, L>>> = vec![Version { s: ArcBTreeSet::from_alloc(A::mk(3)), m: BTreeMap::new() }];
    let mode = c.below(4);
    let (mut shared_edit, mut deepest, mut next) = (0, 0, 0u64);
    for step in 0..steps {
        let at = format!("step {step}");
        let i = c.usize(vs.len());
        match c.weighted(&[14, 4, 2, 2, 1]) {
            0 => {
                // runs in ascending, descending or random order reach different splits
                let x = match mode {
                    0 => {
                        next += 1;
                        next % dom
                    }
                    1 => {
                        next += 1;
                        (dom * 1000 - next) % dom
                    }
                    _ => c.below(dom),
                } as u32;
                op!(c, "v{i} insert {x}");
                let n = vs.len();
                let v = &mut vs[i];
                let e = E::new(x);
                let x = e.val();
                let before = births();
                let r = v.s.insert(e);
                let clones = births() - before;
                let had = v.m.insert(x, x).is_some();
                ck_eq!(r.as_ref().map(|e| e.val()), had.then_some(x), "{at}: insert returned");
                if counted {
                    if had && !R {
                        ck_eq!(clones, 0, "{at}: inserting a present value cloned elements");
                    }
                    if n == 1 && shared_edit == 0 {
                        ck_eq!(clones, 0, "{at}: inserting in an unshared set cloned elements");
                    }
                    ck!(clones as usize <= (L - 1) * depth_bound(v.m.len(), L), "{at}: {clones} clones for one path");
                }
                if n > 1 {
                    shared_edit += 1;
                }
            }
            1 => {
                let x = E::new(c.below(dom + 2) as u32);
                let v = &vs[i];
                op!(c, "v{i} get {}", x.val());
                let g = v.s.get(&x);
                ck_eq!(g.map(|e| e.val()), v.m.get(&x.val()).copied(), "{at}: get");
            }
            2 => {
                if vs.len() < 5 {
                    op!(c, "clone v{i}");
                    let before = births();
                    let s = vs[i].s.clone();
                    if counted {
                        ck_eq!(births(), before, "{at}: cloning a set cloned elements");
                    }
                    let m = vs[i].m.clone();
                    vs.push(Version { s, m });
                }
            }
            3 => {
                if vs.len() > 1 {
                    op!(c, "drop v{i}");
                    vs.swap_remove(i);
                }
            }
            _ => {
                for (k, v) in vs.iter().enumerate() {
                    deepest = deepest.max(set_same(v, true, &format!("{at}: v{k}"))?);
                }
            }
        }
        for (k, v) in vs.iter().enumerate() {
            set_same(v, steps < 20, &format!("{at}: v{k}"))?;
        }
    }
    for (k, v) in vs.iter().enumerate() {
        deepest = deepest.max(set_same(v, true, &format!("end: v{k}"))?);
        for x in 0..dom as u32 {
            ck_eq!(v.s.get(&E::new(x)).map(|e| e.val()), v.m.get(&x).copied(), "end: v{k} get {x}");
        }
    }
    while !vs.is_empty() {
        let i = c.usize(vs.len());
        vs.swap_remove(i);
        if let Some(v) = vs.last() {
            set_same(v, true, "while dropping")?;
        }
    }
    c.nontrivial = shared_edit >= 2 && deepest >= 2;
    Ok(())
}
fn map<E: El, A: TA, const L: usize>(c: &mut Case) -> Res {
    chk::begin();
    map_body::<E, A, L>(c)?;
    chk::end()
}
fn map_body<E: El, A: TA, const L: usize>(c: &mut Case) -> Res {
    let dom = domain(c).min(E::DISTINCT as u64);
    let mut vs: Vec<Version<ArcBTreeMap<E, Tr, A, L>>> = vec![Version { s: ArcBTreeMap::from_alloc(A::mk(3)), m: BTreeMap::new() }];
    let (mut shared_edit, mut replaced) = (0, 0);
    for step in 0..c.range(1, if c.thorough { 300 } else { 90 }) {
        let at = format!("step {step}");
        let i = c.usize(vs.len());
        match c.weighted(&[12, 6, 2, 2]) {
            0 => {
                let k = E::new(c.below(dom) as u32);
                let kv = k.val();
                let y = c.below(1000) as u32;
                op!(c, "v{i}[{kv}] = {y}");
                let n = vs.len();
                let v = &mut vs[i];
                let before = births();
                let val = Tr::new(y);
                let r = v.s.insert(k, val);
                let clones = births() - before - 1;
                let w = v.m.insert(kv, y);
                ck_eq!(r.as_ref().map(|e| e.val()), w, "{at}: insert returned");
                replaced += w.is_some() as u32;
                if n == 1 && shared_edit == 0 {
                    ck_eq!(clones, 0, "{at}: inserting in an unshared map cloned entries");
                }
                ck!(clones as usize <= 2 * (L - 1) * depth_bound(v.m.len(), L), "{at}: {clones} clones for one path");
                if n > 1 {
                    shared_edit += 1;
                }
            }
            1 => {
                let k = E::new(c.below(dom + 2) as u32);
                op!(c, "get v{i}[{}]", k.val());
                ck_eq!(vs[i].s.get(&k).map(|e| e.val()), vs[i].m.get(&k.val()).copied(), "{at}: get");
            }
            2 => {
                if vs.len() < 5 {
                    op!(c, "clone v{i}");
                    let v = Version { s: vs[i].s.clone(), m: vs[i].m.clone() };
                    vs.push(v);
                }
            }
            _ => {
                if vs.len() > 1 {
                    op!(c, "drop v{i}");
                    vs.swap_remove(i);
                }
            }
        }
        if step % 8 == 0 {
            chk::mid().map_err(|e| format!("{at}: {e}"))?;
        }
    }
    for (n, v) in vs.iter().enumerate() {
        for k in 0..dom as u32 {
            ck_eq!(v.s.get(&E::new(k)).map(|e| e.val()), v.m.get(&k).copied(), "end: v{n}[{k}]");
        }
    }
    c.nontrivial = shared_edit >= 2 && replaced >= 1;
    Ok(())
}

/// A totally ordered pair looked up by its first half only.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Pair(u32, u32);
impl PartialEq<u32> for Pair {
    fn eq(&self, o: &u32) -> bool {
        self.0 == *o
    }
}
impl PartialOrd<u32> for Pair {
    fn partial_cmp(&self, o: &u32) -> Option<std::cmp::Ordering> {
        Some(self.0.cmp(o))
    }
}
/// lookups by a projection of the order, and default constructors
fn projected(c: &mut Case) -> Res {
    let mut s: ArcBTreeSet<Pair> = if c.bool() { ArcBTreeSet::new() } else { Default::default() };
    let mut r: ArcBTreeMap<Pair, String> = ArcBTreeMap::<Pair, String>::new_in(Default::default());
    let mut m: BTreeMap<Pair, String> = BTreeMap::new();
    for _ in 0..c.range(1, 60) {
        let p = Pair(c.below(40) as u32, c.below(3) as u32);
        let t = format!("{}", c.below(1000));
        op!(c, "insert {p:?} {t}");
        let had = m.insert(p.clone(), t.clone());
        ck_eq!(s.insert(p.clone()), had.is_some().then(|| p.clone()), "set insert");
        ck_eq!(r.insert(p, t), had, "map insert");
    }
    for x in 0..42u32 {
        let any = m.keys().any(|p| p.0 == x);
        let g = s.get(&x);
        ck_eq!(g.is_some(), any, "projected lookup of {x}");
        if let Some(p) = g {
            ck!(p.0 == x && m.contains_key(p), "projected lookup of {x} found {p:?}");
        }
        for y in 0..3 {
            ck_eq!(r.get(&Pair(x, y)), m.get(&Pair(x, y)), "map lookup");
        }
    }
    ck_eq!(s.len(), m.len(), "length");
    c.nontrivial = m.len() > 8;
    Ok(())
}

/// Equal by key only, with a distinguishable payload.
#[derive(Clone, Debug)]
struct Kv(u32, u32);
impl PartialEq for Kv {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Kv {}
impl PartialOrd for Kv {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Kv {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
/// which of two equal values stays in the set and which comes back
fn keyed<const R: bool, const L: usize>(c: &mut Case) -> Res {
    let mut s: ArcBTreeSet<Kv, RustAlloc, R, L> = ArcBTreeSet::from_alloc(RustAlloc::new());
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    let mut old: Option<(ArcBTreeSet<Kv, RustAlloc, R, L>, BTreeMap<u32, u32>)> = None;
    let mut again = 0;
    for tag in 0..c.range(2, 80) as u32 {
        if c.chance(1, 10) {
            op!(c, "keep a copy");
            old = Some((s.clone(), m.clone()));
        }
        let k = c.below(40) as u32;
        op!(c, "insert {k}:{tag}");
        let r = s.insert(Kv(k, tag));
        let want = match m.get(&k).copied() {
            Some(t) => {
                again += 1;
                Some((k, if R { t } else { tag }))
            }
            None => None,
        };
        if R || want.is_none() {
            m.insert(k, tag);
        }
        ck_eq!(r.map(|x| (x.0, x.1)), want, "insert of {k}:{tag} returned");
    }
    for (s, m) in [(&s, &m)].into_iter().chain(old.as_ref().map(|(a, b)| (a, b))) {
        for k in 0..40 {
            ck_eq!(s.get(&Kv(k, 0)).map(|x| x.1), m.get(&k).copied(), "instance kept for {k}");
        }
    }
    c.nontrivial = again > 0 && m.len() > 4;
    Ok(())
}

fn main() {
    let _ = track::alive();
    vph::main(
        "C16",
        "random histories (up to 120 steps, 400 in the thorough tier) of insertions in ascending, descending or random key order, lookups, clones and drops over up to 5 versions of a persistent set or map, each version compared with its own ordered-map model (length, lookups, in-order contents, depth, number of element clones); non-trivial = at least 2 insertions while versions share nodes, on a tree of 2 levels or more (maps: and one replaced value)",
        &[
            sub("set3_tr_chkr", 20000, 300000, set::<Tr, ChkR, false, 3>),
            sub("set3_tr_chk", 30000, 400000, set::<Tr, Chk, false, 3>),
            sub("set5_tr_chk", 30000, 400000, set::<Tr, Chk, false, 5>),
            sub("rset3_tr_chkz", 20000, 300000, set::<Tr, ChkZ, true, 3>),
            sub("rset5_tr_chkd", 20000, 300000, set::<Tr, ChkD, true, 5>),
            sub("set7_big_chkz", 15000, 300000, set::<TrBig, ChkZ, false, 7>),
            sub("set11_tr_chk", 15000, 300000, set::<Tr, Chk, false, 11>),
            sub("rset9_niche_chk", 15000, 300000, set::<TrNiche, Chk, true, 9>),
            sub("set5_al64_chk", 20000, 300000, set::<Tr64, Chk, false, 5>),
            sub("set3_u8_chkz", 15000, 300000, set::<u8, ChkZ, false, 3>),
            sub("set5_u128_rust", 15000, 300000, set::<u128, RustAlloc, false, 5>),
            sub("set5_tr_libc", 15000, 300000, set::<Tr, LibcAlloc, false, 5>),
            sub("map5_tr_chkr", 20000, 300000, map::<Tr, ChkR, 5>),
            sub("map3_tr_chk", 20000, 300000, map::<Tr, Chk, 3>),
            sub("map5_tr_chkz", 20000, 300000, map::<Tr, ChkZ, 5>),
            sub("map5_u16_chk", 20000, 300000, map::<u16, Chk, 5>),
            sub("map7_al16_rust", 15000, 300000, map::<Tr16, RustAlloc, 7>),
            sub("keyed_keep3", 15000, 300000, keyed::<false, 3>),
            sub("keyed_keep5", 15000, 300000, keyed::<false, 5>),
            sub("keyed_replace3", 15000, 300000, keyed::<true, 3>),
            sub("keyed_replace5", 15000, 300000, keyed::<true, 5>),
            sub("projected", 15000, 300000, projected),
        ],
        &[],
    )
}
