//! Reflection reports: comparisons and identifiers against structural equality (C06).
use crate::engine::{Case, Res};
use crate::{ck, ck_eq, op};
use stabby::abi::report::{gen_id, FieldReport, TyTy, TypeReport};
use stabby::abi::StableLike;
use stabby::str::Str;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Struct,
    Union,
    Enum(&'static str),
}
pub enum Xf {
    /// a field whose type has this report
    T(&'static TypeReport),
    /// a report generated within the definition
    R(&'static Exp),
}
/// What a definition must publish.
pub struct Exp {
    pub name: &'static str,
    pub module: &'static str,
    pub version: u32,
    pub kind: Kind,
    pub fields: &'static [(&'static str, Xf)],
}
pub struct Rep {
    pub name: &'static str,
    pub report: &'static TypeReport,
    pub id: u64,
    pub exp: Option<Exp>,
    pub fam: Option<u32>,
    /// no other entry describes the same definition
    pub distinct: bool,
}

/// The structure of a report, read field by field.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct M {
    pub name: String,
    pub module: String,
    pub version: u32,
    pub kind: (u8, String),
    pub fields: Vec<(String, M)>,
}
pub fn read(r: &TypeReport) -> M {
    let mut fields = vec![];
    let mut next: Option<&'static FieldReport> = *r.fields.as_ref();
    while let Some(f) = next {
        fields.push((f.name.as_str().to_string(), read(f.ty)));
        next = *f.next_field.as_ref();
    }
    let kind = match &r.tyty {
        TyTy::Struct => (0, String::new()),
        TyTy::Union => (1, String::new()),
        TyTy::Enum(s) => (2, s.as_str().to_string()),
    };
    M { name: r.name.as_str().into(), module: r.module.as_str().into(), version: r.version, kind, fields }
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Every comparison of the two reports must say `same`.
fn compare(a: &'static TypeReport, b: &'static TypeReport, same: bool, what: &dyn Fn() -> String) -> Res {
    ck_eq!(a.is_compatible(b), same, "{}: is_compatible", what());
    ck_eq!(b.is_compatible(a), same, "{}: is_compatible the other way round", what());
    ck_eq!(a == b, same, "{}: ==", what());
    ck_eq!(b == a, same, "{}: == the other way round", what());
    ck_eq!(gen_id(a) == gen_id(b), same, "{}: equal identifiers", what());
    ck_eq!(a.to_string() == b.to_string() || !same, true, "{}: displayed the same", what());
    if same {
        ck_eq!(hash(a), hash(b), "{}: hashes of equal reports", what());
    }
    Ok(())
}

// ------------------------------------------------------------------ random reports
/// Owns the leaked pieces of a case.
#[derive(Default)]
struct Arena(Vec<*mut TypeReport>, Vec<*mut FieldReport>, Vec<*mut str>);
impl Arena {
    fn str(&mut self, s: &str) -> Str<'static> {
        let p = Box::into_raw(s.to_string().into_boxed_str());
        self.2.push(p);
        Str::new(unsafe { &*p })
    }
    fn build(&mut self, m: &M, share: &mut Vec<(M, &'static TypeReport)>, c: &mut Case, sharing: bool) -> &'static TypeReport {
        if sharing {
            if let Some((_, r)) = share.iter().find(|(k, _)| k == m) {
                return r;
            }
        }
        let mut next: Option<&'static FieldReport> = None;
        for (n, f) in m.fields.iter().rev() {
            let ty = self.build(f, share, c, sharing);
            let name = self.str(n);
            let p = Box::into_raw(Box::new(FieldReport { name, ty, next_field: StableLike::new(next) }));
            self.1.push(p);
            next = Some(unsafe { &*p });
        }
        let tyty = match m.kind.0 {
            0 => TyTy::Struct,
            1 => TyTy::Union,
            _ => TyTy::Enum(self.str(&m.kind.1)),
        };
        let r = TypeReport { name: self.str(&m.name), module: self.str(&m.module), fields: StableLike::new(next), tyty, version: m.version };
        let p = Box::into_raw(Box::new(r));
        self.0.push(p);
        let r: &'static TypeReport = unsafe { &*p };
        share.push((m.clone(), r));
        r
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe {
            self.0.iter().for_each(|p| drop(Box::from_raw(*p)));
            self.1.iter().for_each(|p| drop(Box::from_raw(*p)));
            self.2.iter().for_each(|p| drop(Box::from_raw(*p)));
        }
    }
}
const WORDS: &[&str] = &["", "a", "b", "ab", "ba", "aab", "abc", "c", "u8", "u16", "a\0", "\0", "é", "core", "a::b", "a:", ":b", "inner"];
fn word(c: &mut Case) -> String {
    match c.below(12) {
        0 => (0..c.below(80)).map(|_| 'q').collect(),
        1 => format!("{}{}", c.pick(WORDS), c.pick(WORDS)),
        _ => c.pick(WORDS).to_string(),
    }
}
fn kind(c: &mut Case) -> (u8, String) {
    match c.below(5) {
        0 | 1 => (0, String::new()),
        2 => (1, String::new()),
        _ => (2, c.pick(&["u8", "stabby", "", "a", "C"]).to_string()),
    }
}
fn model(c: &mut Case, depth: u32) -> M {
    let n = if depth == 0 { 0 } else { *c.pick(&[0, 1, 1, 2, 2, 3, 5]) };
    let mut fields: Vec<(String, M)> = vec![];
    for _ in 0..n {
        let m = if !fields.is_empty() && c.chance(1, 4) { fields[c.usize(fields.len())].1.clone() } else { model(c, depth - 1) };
        fields.push((word(c), m));
    }
    M { name: word(c), module: word(c), version: *c.pick(&[0, 0, 1, 2, 256, u32::MAX]), kind: kind(c), fields }
}
/// One edit somewhere in the tree. It may turn out to change nothing.
fn edit(m: &mut M, c: &mut Case) -> &'static str {
    if !m.fields.is_empty() && c.chance(3, 5) {
        let i = c.usize(m.fields.len());
        return edit(&mut m.fields[i].1, c);
    }
    match c.below(13) {
        0 => {
            m.name = word(c);
            "renamed"
        }
        1 => {
            m.module = word(c);
            "moved to another module"
        }
        2 => {
            m.version = *c.pick(&[0, 1, 2, 256, u32::MAX, m.version.wrapping_add(1), m.version ^ 0x100]);
            "version changed"
        }
        3 => {
            m.kind = kind(c);
            "kind changed"
        }
        4 => {
            // move the border between the module and the name
            let all: Vec<char> = format!("{}{}", m.module, m.name).chars().collect();
            let i = c.usize(all.len() + 1);
            m.module = all[..i].iter().collect();
            m.name = all[i..].iter().collect();
            "border between module and name moved"
        }
        5 if !m.fields.is_empty() => {
            let i = c.usize(m.fields.len());
            m.fields[i].0 = word(c);
            "field renamed"
        }
        6 if !m.fields.is_empty() => {
            let i = c.usize(m.fields.len());
            m.fields.remove(i);
            "field removed"
        }
        7 if m.fields.len() > 1 => {
            let (i, j) = (c.usize(m.fields.len()), c.usize(m.fields.len()));
            m.fields.swap(i, j);
            "fields swapped"
        }
        8 if m.fields.len() > 1 => {
            // nest the second field into the first
            let i = c.usize(m.fields.len() - 1);
            let f = m.fields.remove(i + 1);
            m.fields[i].1.fields.push(f);
            "field nested into its predecessor"
        }
        9 if !m.fields.is_empty() => {
            let i = c.usize(m.fields.len());
            if let Some(f) = m.fields[i].1.fields.pop() {
                m.fields.insert(i + 1, f);
            }
            "field pulled out of its parent"
        }
        10 if !m.fields.is_empty() => {
            let i = c.usize(m.fields.len());
            let f = m.fields[i].clone();
            m.fields.push(f);
            "field duplicated"
        }
        11 if !m.fields.is_empty() => {
            let i = c.usize(m.fields.len());
            let all: Vec<char> = format!("{}{}", m.fields[i].0, m.fields[i].1.module).chars().collect();
            let k = c.usize(all.len() + 1);
            m.fields[i].0 = all[..k].iter().collect();
            m.fields[i].1.module = all[k..].iter().collect();
            "border between field name and its module moved"
        }
        _ => {
            let f = (word(c), model(c, 1));
            let i = c.usize(m.fields.len() + 1);
            m.fields.insert(i, f);
            "field added"
        }
    }
}
pub fn random_reports(c: &mut Case) -> Res {
    let depth = c.below(4) as u32;
    let a = model(c, depth);
    let mut ms = vec![a];
    for _ in 0..c.below(4) + 1 {
        let mut m = ms[c.usize(ms.len())].clone();
        let mut how = "copied";
        for _ in 0..*c.pick(&[0, 1, 1, 1, 2, 3]) {
            how = edit(&mut m, c);
        }
        op!(c, "report {}: {how}: {:?}", ms.len(), m);
        ms.push(m);
    }
    let mut arena = Arena::default();
    let mut share = vec![];
    let rs: Vec<_> = ms
        .iter()
        .map(|m| {
            let sharing = c.bool();
            arena.build(m, &mut share, c, sharing)
        })
        .collect();
    c.nontrivial = ms.iter().any(|m| !m.fields.is_empty());
    for (m, r) in ms.iter().zip(&rs) {
        ck!(read(r) == *m, "the harness built another report: {:?} for {m:?}", read(r));
        ck_eq!(r.fields().map(|f| f.name.as_str().to_string()).collect::<Vec<_>>(), m.fields.iter().map(|f| f.0.clone()).collect::<Vec<_>>(), "fields()");
        let mut it = r.fields();
        let mut n = 0;
        while let (next, Some(f)) = it.next_const() {
            it = next;
            ck_eq!(f.name.as_str(), m.fields[n].0, "next_const()");
            n += 1;
        }
        ck_eq!(n, m.fields.len(), "fields seen by next_const()");
    }
    for i in 0..ms.len() {
        for j in i..ms.len() {
            compare(rs[i], rs[j], ms[i] == ms[j], &|| format!("reports {i} {:?} and {j} {:?}", ms[i], ms[j]))?;
            if i != j {
                c.label(if ms[i] == ms[j] { "equal pair" } else { "different pair" });
            }
        }
    }
    drop(arena);
    Ok(())
}

// ------------------------------------------------------------------ generated definitions
thread_local!(static REPS: Cell<&'static [Rep]> = const { Cell::new(&[]) });
pub fn set_reps(t: Vec<&'static [Rep]>) {
    let (n, empty) = (t.len(), t.iter().filter(|x| x.is_empty()).count());
    let all: Vec<&'static Rep> = t.into_iter().flat_map(|s| s.iter()).collect();
    crate::engine::note(format!("{} generated types in {n} crates, {empty} of which were empty because rustc took too long on them", all.len()));
    let all: Vec<Rep> = all.into_iter().map(|r| unsafe { std::ptr::read(r) }).collect();
    REPS.with(|x| x.set(all.leak()));
}
fn check_exp(r: &TypeReport, e: &Exp, what: &str) -> Res {
    let m = read(r);
    ck_eq!(m.name, e.name, "{what}: published name");
    ck_eq!(m.module, e.module, "{what}: published module");
    ck_eq!(m.version, e.version, "{what}: published version");
    let k = match e.kind {
        Kind::Struct => (0, String::new()),
        Kind::Union => (1, String::new()),
        Kind::Enum(s) => (2, s.to_string()),
    };
    ck_eq!(m.kind, k, "{what}: published kind");
    ck_eq!(m.fields.len(), e.fields.len(), "{what}: number of published fields");
    // either direction is an order of the fields
    let mut got: Vec<&'static FieldReport> = r.fields().collect();
    if e.fields.iter().map(|f| f.0).ne(got.iter().map(|f| f.name.as_str())) {
        got.reverse();
    }
    for (f, (n, t)) in got.iter().zip(e.fields) {
        ck_eq!(f.name.as_str(), *n, "{what}: published name of a field");
        match t {
            Xf::T(t) => ck!(read(f.ty) == read(t), "{what}: the report of field {n} is {:?}, its type's is {:?}", read(f.ty), read(t)),
            Xf::R(e) => check_exp(f.ty, e, &format!("{what}, variant {n}"))?,
        }
    }
    Ok(())
}
pub fn generated(c: &mut Case) -> Res {
    let t = REPS.with(|x| x.get());
    let i = c.usize(t.len());
    let a = &t[i];
    op!(c, "type {}: {}", a.name, a.report);
    c.nontrivial = a.report.fields().next().is_some();
    if let Some(e) = &a.exp {
        check_exp(a.report, e, a.name)?;
    }
    ck_eq!(a.id, gen_id(a.report), "{}: ID isn't that of its report", a.name);
    let ma = read(a.report);
    for k in 0..3 {
        let b = match (k, a.fam) {
            // members of the same family differ in one place
            (0, Some(f)) | (1, Some(f)) => {
                let near: Vec<&Rep> = t.iter().filter(|x| x.fam == Some(f)).collect();
                near[c.usize(near.len())]
            }
            _ => &t[c.usize(t.len())],
        };
        op!(c, "against {}: {}", b.name, b.report);
        let same = ma == read(b.report);
        if same && !std::ptr::eq(a, b) {
            c.label("equal pair");
        }
        compare(a.report, b.report, same, &|| format!("{} and {}", a.name, b.name))?;
        ck_eq!(a.id == b.id, same, "IDs of {} and {} coincide", a.name, b.name);
        if a.distinct && b.distinct && !std::ptr::eq(a, b) && a.name != b.name {
            ck!(!same, "{} and {} are different types with the same report {}", a.name, b.name, a.report);
        }
    }
    Ok(())
}
