//! C24: slices and string slices behave like the standard borrows they were made from.
use stabby::slice::{Slice, SliceMut};
use stabby::str::{Str, StrMut};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use vph::track::*;
use vph::*;

/// Records what is fed to it, call by call.
#[derive(Default, PartialEq, Eq, Debug)]
struct Rec(Vec<(u8, u128)>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push((0, b.len() as u128));
        self.0.extend(b.iter().map(|b| (1, *b as u128)));
    }
    fn write_u8(&mut self, i: u8) {
        self.0.push((2, i as u128))
    }
    fn write_u16(&mut self, i: u16) {
        self.0.push((3, i as u128))
    }
    fn write_u32(&mut self, i: u32) {
        self.0.push((4, i as u128))
    }
    fn write_u64(&mut self, i: u64) {
        self.0.push((5, i as u128))
    }
    fn write_u128(&mut self, i: u128) {
        self.0.push((6, i))
    }
    fn write_usize(&mut self, i: usize) {
        self.0.push((7, i as u128))
    }
}
fn rec<T: Hash + ?Sized>(t: &T) -> (Rec, u64) {
    let mut r = Rec::default();
    t.hash(&mut r);
    let mut d = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut d);
    (r, d.finish())
}

trait E: PartialEq + Debug + Clone + stabby::IStable + 'static
{
    fn mk(c: &mut Case) -> Self;
    fn same(&self, o: &Self) -> bool;
}
macro_rules! els { ($($t:ty)*) => { $(impl E for $t {
    fn mk(c: &mut Case) -> Self { <$t as El>::new(c.range(1, 4) as u32) }
    fn same(&self, o: &Self) -> bool { self.val() == o.val() }
})* } }
els!(Tr TrBig TrNiche Tr16 Tr64 TrZ TrZ64 u8 u16 u128);
impl E for f32 {
    fn mk(c: &mut Case) -> Self {
        *c.pick(&[0.0, -0.0, 1.5, f32::NAN, f32::INFINITY, -1.5])
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl E for () {
    fn mk(_: &mut Case) -> Self {}
    fn same(&self, _: &Self) -> bool {
        true
    }
}
impl E for Str<'static> {
    fn mk(c: &mut Case) -> Self {
        Str::new(*c.pick(&["", "a", "b", "é", "a\u{0}"]))
    }
    fn same(&self, o: &Self) -> bool {
        self.as_str() == o.as_str()
    }
}
fn fill<T: E>(c: &mut Case) -> Vec<T> {
    let n = *c.pick(&[0usize, 1, 1, 2, 3, 4, 7, 16, 33]);
    (0..n).map(|_| T::mk(c)).collect()
}
/// A second content: unrelated, or close to the first.
fn near<T: E>(c: &mut Case, a: &[T]) -> Vec<T> {
    let mut b = a.to_vec();
    match c.below(6) {
        0 => return fill(c),
        1 | 2 => {}
        3 => {
            b.pop();
        }
        4 => b.push(T::mk(c)),
        _ => {
            if !b.is_empty() {
                let i = c.usize(b.len());
                b[i] = T::mk(c);
            }
        }
    }
    b
}
fn sub_range(c: &mut Case, n: usize) -> (usize, usize) {
    if c.chance(1, 3) {
        return (0, n);
    }
    let a = c.usize(n + 1);
    let b = c.range(a as u64, n as u64) as usize;
    (a, b)
}
fn reads<T: E>(what: &str, v: &[T], std: &[T]) -> Res {
    ck_eq!((v.as_ptr(), v.len()), (std.as_ptr(), std.len()), "{what}: pointer and length");
    ck_eq!(v.is_empty(), std.is_empty(), "{what}: is_empty");
    ck!(v.iter().zip(std).all(|(a, b)| core::ptr::eq(a, b) && a.same(b)), "{what}: elements");
    ck_eq!(v.iter().rev().count(), std.len(), "{what}: reverse iteration");
    for i in [0, std.len() / 2, std.len().wrapping_sub(1), std.len(), std.len() + 1] {
        ck_eq!(v.get(i).map(|p| p as *const T), std.get(i).map(|p| p as *const T), "{what}: get({i})");
    }
    Ok(())
}
fn debug<A: Debug, B: Debug + ?Sized>(what: &str, a: &A, b: &B) -> Res {
    ck_eq!(format!("{a:?}"), format!("{b:?}"), "{what}: Debug");
    ck_eq!(format!("{a:#?}"), format!("{b:#?}"), "{what}: alternate Debug");
    ck_eq!(format!("{a:04?}|{a:x?}"), format!("{b:04?}|{b:x?}"), "{what}: Debug with options");
    Ok(())
}
fn slices<T: E>(c: &mut Case) -> Res {
    reset();
    slices_in::<T>(c)?;
    finish()
}
fn slices_in<T: E>(c: &mut Case) -> Res {
    let mut a: Vec<T> = fill(c);
    let mut b = near(c, &a);
    let (a0, a1) = sub_range(c, a.len());
    let (b0, b1) = if c.chance(1, 2) && a1 <= b.len() { (a0, a1) } else { sub_range(c, b.len()) };
    op!(c, "a = {a:?}[{a0}..{a1}], b = {b:?}[{b0}..{b1}]");
    {
        let (x, y) = (&a[a0..a1], &b[b0..b1]);
        let (s, t): (Slice<T>, Slice<T>) = (x.into(), Slice::new(y));
        reads("Slice", &s, x)?;
        ck_eq!((s.start.as_ptr() as *const T, s.len), (x.as_ptr(), x.len()), "Slice: fields");
        reads("Slice::as_slice", s.as_slice(), x)?;
        reads("Slice into slice", s.into(), x)?;
        let (copy, clone) = (s, Clone::clone(&s));
        reads("copy of a Slice", &copy, x)?;
        reads("clone of a Slice", &clone, x)?;
        ck_eq!((s == t, s != t, t == s), (x == y, x != y, y == x), "Slice: comparison");
        #[allow(clippy::eq_op)]
        let own = s == s;
        ck_eq!(own, x == x, "Slice: comparison with itself");
        debug("Slice", &s, x)?;
        let (l, r) = (c.bool(), c.usize(2));
        // within other stable and standard types
        let (so, no): (Option<Slice<T>>, Option<Slice<T>>) = (Some(s), None);
        ck_eq!((so == Some(t), no == so), (x == y, false), "Option of a Slice: comparison");
        let st: stabby::option::Option<Slice<T>> = if l { stabby::option::Option::Some(s) } else { stabby::option::Option::None() };
        let back: Option<Slice<T>> = st.into();
        ck_eq!(back.map(|s| (s.as_ptr(), s.len())), l.then_some((x.as_ptr(), x.len())), "through a stable Option");
        let pair = [s, t];
        reads("stored in an array", &pair[r], [x, y][r])?;
        c.nontrivial = !x.is_empty() && !y.is_empty() && (x.len() < a.len() || x == y || x.len() != y.len());
    }
    // writes
    let mut model = a.clone();
    let len = a1 - a0;
    let mut other = b.clone();
    let outside = a.as_ptr();
    {
        let (p, n) = (a[a0..a1].as_ptr(), len);
        let mut s: SliceMut<T> = (&mut a[a0..a1]).into();
        ck_eq!((s.as_ptr(), s.len(), s.start.as_ptr() as *const T, s.len), (p, n, p, n), "SliceMut: pointer and length");
        let mut t: SliceMut<T> = (&mut b[b0..b1]).into();
        let steps = c.range(0, 4);
        for k in 0..steps {
            let at = format!("write {k}");
            match c.below(if len == 0 { 1 } else { 7 }) {
                0 => {
                    let e = T::mk(c);
                    op!(c, "fill with {e:?}");
                    s.fill(e.clone());
                    model[a0..a1].fill(e);
                }
                1 => {
                    let (i, e) = (c.usize(len), T::mk(c));
                    op!(c, "[{i}] = {e:?}");
                    s[i] = e.clone();
                    model[a0 + i] = e;
                }
                2 => {
                    let (i, j) = (c.usize(len), c.usize(len));
                    op!(c, "swap {i} {j}");
                    s.swap(i, j);
                    model.swap(a0 + i, a0 + j);
                }
                3 => {
                    op!(c, "reverse");
                    s.reverse();
                    model[a0..a1].reverse();
                }
                4 => {
                    let k = c.usize(len + 1);
                    op!(c, "rotate {k}");
                    s.rotate_left(k);
                    model[a0..a1].rotate_left(k);
                }
                5 => {
                    let n = len.min(b1 - b0);
                    op!(c, "swap the first {n} with b");
                    s[..n].swap_with_slice(&mut t[..n]);
                    model[a0..a0 + n].swap_with_slice(&mut other[b0..b0 + n]);
                }
                _ => {
                    let (i, e) = (c.usize(len), T::mk(c));
                    op!(c, "iter_mut: [{i}] = {e:?}");
                    for (k, slot) in s.iter_mut().enumerate() {
                        if k == i {
                            *slot = e.clone();
                        }
                    }
                    model[a0 + i] = e;
                }
            }
            ck!(s.len() == len && s.iter().zip(&model[a0..a1]).all(|(x, y)| x.same(y)), "{at}: seen through the view {:?}, expected {:?}", s, &model[a0..a1]);
        }
        ck_eq!((s == t, s != t), (model[a0..a1] == other[b0..b1], model[a0..a1] != other[b0..b1]), "SliceMut: comparison");
        debug("SliceMut", &s, &model[a0..a1])?;
        match c.below(4) {
            0 => {
                let s: Slice<T> = s.into();
                ck_eq!((s.as_ptr(), s.len()), (p, n), "SliceMut into Slice");
            }
            1 => {
                let s: &mut [T] = s.into();
                ck_eq!((s.as_ptr(), s.len()), (p, n), "SliceMut into &mut");
                if let Some(x) = s.last_mut() {
                    let e = T::mk(c);
                    *x = e.clone();
                    model[a1 - 1] = e;
                }
            }
            2 => {
                let s: &[T] = s.into();
                ck_eq!((s.as_ptr(), s.len()), (p, n), "SliceMut into &");
            }
            _ => drop(s),
        }
        let t: Slice<T> = t.into();
        ck!(t.iter().zip(&other[b0..b1]).all(|(x, y)| x.same(y)), "the second view holds {:?}, expected {:?}", t, &other[b0..b1]);
    }
    ck_eq!(a.as_ptr(), outside, "the viewed vector moved");
    ck!(a.len() == model.len() && a.iter().zip(&model).all(|(x, y)| x.same(y)), "after the writes the vector is {a:?}, expected {model:?}");
    ck!(b.len() == other.len() && b.iter().zip(&other).all(|(x, y)| x.same(y)), "after the writes the other vector is {b:?}, expected {other:?}");
    let n = a.len();
    let p = a.as_ptr();
    let s: Slice<T> = (&mut a[..]).into();
    ck_eq!((s.as_ptr(), s.len()), (p, n), "Slice from &mut");
    Ok(())
}
/// Hashes: only for elements that have one.
fn hashes<T: E + Hash + Ord>(c: &mut Case) -> Res {
    reset();
    {
        let mut a: Vec<T> = fill(c);
        let mut b = near(c, &a);
        op!(c, "a = {a:?}, b = {b:?}");
        let (ra, rb) = (rec(&a[..]), rec(&b[..]));
        ck_eq!(rec(&Slice::from(&a[..])), ra, "hash of a Slice (calls made to the hasher)");
        ck_eq!(rec(&SliceMut::from(&mut a[..])), ra, "hash of a SliceMut (calls made to the hasher)");
        ck_eq!(rec(&(Slice::from(&a[..]), Slice::from(&b[..]))), rec(&(&a[..], &b[..])), "hash of a pair of Slices");
        ck_eq!(rec(&[SliceMut::from(&mut b[..])]), rec(&[&b[..]]), "hash of an array of SliceMuts");
        ck_eq!(rec(&Slice::from(&b[..])), rb, "hash of a Slice");
        let (s, t) = (Slice::from(&a[..]), Slice::from(&b[..]));
        ck_eq!((*s).cmp(&*t), a.cmp(&b), "ordering through Deref");
        ck_eq!(s.binary_search(&T::mk(c)).is_ok() || true, true, "binary search");
        c.nontrivial = !a.is_empty() && a.len() + b.len() > 2;
    }
    finish()
}
const CHARS: &[char] = &['a', 'b', 'A', 'Z', '\0', '\n', '"', '\'', '\\', 'é', 'ß', 'İ', '\u{301}', '\u{7f}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}'];
fn text(c: &mut Case) -> String {
    let n = *c.pick(&[0usize, 1, 2, 3, 3, 5, 9, 20]);
    (0..n).map(|_| if c.chance(1, 2) { *c.pick(&['a', 'b', 'A']) } else { *c.pick(CHARS) }).collect()
}
fn near_text(c: &mut Case, a: &str) -> String {
    let mut v: Vec<char> = a.chars().collect();
    match c.below(6) {
        0 => return text(c),
        1 | 2 => {}
        3 => {
            v.pop();
        }
        4 => v.push(*c.pick(CHARS)),
        _ => {
            if !v.is_empty() {
                let i = c.usize(v.len());
                v[i] = *c.pick(CHARS);
            }
        }
    }
    v.into_iter().collect()
}
fn cut(c: &mut Case, s: &str) -> (usize, usize) {
    let at: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
    let (a, b) = sub_range(c, at.len() - 1);
    (at[a], at[b])
}
const FIXED: Str<'static> = Str::new("fixed é");
const FIXED_BACK: &str = FIXED.as_str();
fn strs(c: &mut Case) -> Res {
    let mut a = text(c);
    let b = near_text(c, &a);
    let (a0, a1) = cut(c, &a);
    let (b0, b1) = if c.bool() && b.is_char_boundary(a0) && b.is_char_boundary(a1) { (a0, a1) } else { cut(c, &b) };
    op!(c, "a = {a:?}[{a0}..{a1}], b = {b:?}[{b0}..{b1}]");
    ck_eq!(FIXED_BACK, "fixed é", "constant");
    {
        let (x, y) = (&a[a0..a1], &b[b0..b1]);
        let (s, t): (Str, Str) = (x.into(), Str::new(y));
        let same = |what: &str, r: &str| -> Res {
            ck_eq!((r.as_ptr(), r.len(), r), (x.as_ptr(), x.len(), x), "{what}");
            Ok(())
        };
        same("Deref of Str", &s)?;
        same("Str::as_str", s.as_str())?;
        same("AsRef of Str", s.as_ref())?;
        same("Str into &str", s.into())?;
        let (copy, clone) = (s, Clone::clone(&s));
        same("copy of a Str", copy.as_str())?;
        same("clone of a Str", clone.as_str())?;
        ck_eq!(s.chars().collect::<String>(), x, "Str: chars");
        ck_eq!(s.char_indices().rev().map(|(i, _)| i).collect::<Vec<_>>(), x.char_indices().rev().map(|(i, _)| i).collect::<Vec<_>>(), "Str: char_indices");
        ck_eq!((s == t, s != t, t == s), (x == y, x != y, y == x), "Str: comparison");
        ck_eq!((s.partial_cmp(&t), s < t, s <= t, s > t, s >= t), (x.partial_cmp(y), x < y, x <= y, x > y, x >= y), "Str: ordering");
        debug("Str", &s, x)?;
        ck_eq!(format!("{s}|{s:>7}|{s:-<9.2}|{s:^0$}", 12), format!("{x}|{x:>7}|{x:-<9.2}|{x:^0$}", 12), "Str: Display");
        ck_eq!(s.to_string(), x, "Str: to_string");
        ck_eq!(rec(&s), rec(x), "hash of a Str (calls made to the hasher)");
        ck_eq!(rec(&(s, t)), rec(&(x, y)), "hash of a pair of Strs");
        let st: stabby::option::Option<Str> = stabby::option::Option::Some(s);
        let back: Option<Str> = st.into();
        same("through a stable Option", back.unwrap().as_str())?;
        // the other types that stand for the same text
        let owned: stabby::string::String = x.into();
        let view: Str = owned.as_str().into();
        ck_eq!((view == s, rec(&view)), (true, rec(&owned)), "a Str of a stable String");
        c.nontrivial = !x.is_empty() && !x.is_ascii();
    }
    let mut model = a.clone();
    let n = a1 - a0;
    let p = a[a0..a1].as_ptr();
    {
        let mut s: StrMut = (&mut a[a0..a1]).into();
        ck_eq!((s.as_ptr(), s.len()), (p, n), "StrMut: pointer and length");
        for k in 0..c.range(0, 3) {
            match c.below(3) {
                0 => {
                    op!(c, "uppercase");
                    s.make_ascii_uppercase();
                    model[a0..a1].make_ascii_uppercase();
                }
                1 => {
                    op!(c, "lowercase");
                    s.make_ascii_lowercase();
                    model[a0..a1].make_ascii_lowercase();
                }
                _ => {
                    let (i, j) = cut(c, &s);
                    let new: String = s[i..j].chars().rev().collect();
                    op!(c, "reverse {i}..{j}");
                    for s in [&mut s[i..j], &mut model[a0..a1][i..j]] {
                        // SAFETY: replaces valid UTF-8 with as much valid UTF-8
                        unsafe { s.as_bytes_mut() }.copy_from_slice(new.as_bytes());
                    }
                }
            }
            ck_eq!(&*s, &model[a0..a1], "write {k}: seen through the StrMut");
        }
        ck_eq!(s.as_ref() as &str, &model[a0..a1], "AsRef of StrMut");
        match c.below(4) {
            0 => {
                let s: Str = s.into();
                ck_eq!((s.as_ptr(), s.len(), s.as_str()), (p, n, &model[a0..a1]), "StrMut into Str");
            }
            1 => {
                let s: &mut str = s.into();
                ck_eq!((s.as_ptr(), s.len(), &*s), (p, n, &model[a0..a1]), "StrMut into &mut str");
                s.make_ascii_uppercase();
                model[a0..a1].make_ascii_uppercase();
            }
            2 => {
                let s: &str = s.into();
                ck_eq!((s.as_ptr(), s.len(), s), (p, n, &model[a0..a1]), "StrMut into &str");
            }
            _ => {}
        }
    }
    ck_eq!(a, model, "after the writes");
    let (p, n) = (a.as_ptr(), a.len());
    let s: Str = (&mut a[..]).into();
    ck_eq!((s.as_ptr(), s.len()), (p, n), "Str from &mut str");
    Ok(())
}

fn main() {
    let _ = track::alive();
    macro_rules! s { ($($t:ty, $k:expr;)*) => { vec![$(sub(concat!("slice ", stringify!($t)), $k * 5, $k * 100, slices::<$t>)),*] } }
    macro_rules! h { ($($t:ty, $k:expr;)*) => { vec![$(sub(concat!("hash ", stringify!($t)), $k * 5, $k * 100, hashes::<$t>)),*] } }
    let mut subs = s! { Tr, 40000; TrBig, 20000; TrNiche, 20000; Tr16, 20000; Tr64, 20000; TrZ, 20000; TrZ64, 20000; u8, 60000; u16, 40000; u128, 20000; f32, 60000; (), 10000; Str<'static>, 40000; };
    subs.extend(h! { u8, 60000; u16, 30000; u128, 30000; Tr, 30000; TrZ, 10000; Tr64, 10000; });
    subs.push(sub("str", 750000, 15000000, strs));
    vph::main(
        "C24",
        "two generated contents (lengths 0-33 from small domains, the second often equal to, a prefix of, or one element away from the first; floats with NaN and signed zeros, over-aligned and zero-sized elements, multi-byte text) viewed over random sub-ranges by the stable borrow and the standard one, every read, comparison, hash, format and conversion compared, then random writes through the mutable view and the standard one; non-trivial = both views non-empty and the view is a strict part, or the two are equal, or differ in length (for text: the view holds multi-byte characters)",
        &subs,
        &[],
    )
}
