//! C27: stable values serialise like their standard counterparts, and deserialise from whatever these accept.
use ciborium::Value as Cbor;
use serde::de::value::*;
use serde::de::{DeserializeOwned, Deserializer, IntoDeserializer, SeqAccess, Visitor};
use serde::{Deserialize, Serialize};
use serde_json::Value as Json;
use stabby::abi::num::*;
use stabby::boxed::{BoxedSlice, BoxedStr};
use stabby::slice::{Slice, SliceMut};
use stabby::str::{Str, StrMut};
use stabby::string::{ArcStr, String as SString};
use stabby::sync::ArcSlice;
use stabby::vec::Vec as SVec;
use std::fmt::Debug;
use vph::chk::{self, Chk, ChkR, ChkZ, TA};
use vph::track::*;
use vph::*;
type SOpt<T> = stabby::option::Option<T>;
type SRes<T, E> = stabby::result::Result<T, E>;

/// A stable value and its standard counterpart.
trait S: Serialize + DeserializeOwned {
    type N: Serialize + DeserializeOwned + Debug;
    fn native(c: &mut Case) -> Self::N;
    fn of(n: &Self::N) -> Self;
    fn same(&self, n: &Self::N) -> bool;
}
/// A tracked element that deserialises from small numbers only.
#[derive(Debug)]
#[stabby::stabby(no_opt)]
struct De<E: El + stabby::IStable>(E);
const LIMIT: u32 = 200;
impl<E: El> Serialize for De<E> {
    fn serialize<T: serde::Serializer>(&self, s: T) -> Result<T::Ok, T::Error> {
        self.0.val().serialize(s)
    }
}
impl<'a, E: El> Deserialize<'a> for De<E> {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        let v = u32::deserialize(d)?;
        user(K_CALL);
        if v > LIMIT {
            return Err(serde::de::Error::custom("too large"));
        }
        Ok(De(E::new(v)))
    }
}
impl<E: El> S for De<E> {
    type N = De<E>;
    fn native(c: &mut Case) -> Self {
        De(E::new(c.below(LIMIT as u64 + 1) as u32))
    }
    fn of(n: &Self) -> Self {
        De(E::new(n.0.val()))
    }
    fn same(&self, n: &Self) -> bool {
        self.0.val() == n.0.val()
    }
}
/// Types that stand for themselves.
macro_rules! plain { ($($t:ty: |$c:ident| $e:expr;)*) => { $(impl S for $t {
    type N = $t;
    fn native($c: &mut Case) -> $t { $e }
    fn of(n: &$t) -> $t { n.clone() }
    fn same(&self, n: &$t) -> bool { self == n }
})* } }
plain! {
    u8: |c| c.edge64(8) as u8;
    u16: |c| c.edge64(16) as u16;
    u32: |c| c.edge64(32) as u32;
    u64: |c| c.edge64(64);
    i64: |c| c.edge64(64) as i64;
    bool: |c| c.bool();
    (): |_c| ();
    char: |c| *c.pick(CHARS);
    core::num::NonZeroU8: |c| core::num::NonZeroU8::new(c.range(1, 255) as u8).unwrap();
    String: |c| text(c);
    (u8, String): |c| (c.below(9) as u8, text(c));
}
impl S for f64 {
    type N = f64;
    fn native(c: &mut Case) -> f64 {
        *c.pick(&[0.0, -0.0, 1.5, -1e300, 0.1, f64::MAX, f64::INFINITY, f64::NAN])
    }
    fn of(n: &f64) -> f64 {
        *n
    }
    fn same(&self, n: &f64) -> bool {
        self.to_bits() == n.to_bits() || self.is_nan() && n.is_nan()
    }
}
const CHARS: &[char] = &['a', 'b', '"', '\\', '\n', '\0', '\u{7f}', 'é', '\u{2028}', '😀', '/', '\u{1f}'];
fn text(c: &mut Case) -> String {
    let n = *c.pick(&[0usize, 1, 2, 4, 9, 30]);
    let plain = c.bool();
    (0..n).map(|_| if plain { *c.pick(&['a', 'b', 'é']) } else { *c.pick(CHARS) }).collect()
}
fn list<T: S>(c: &mut Case) -> Vec<T::N> {
    let n = *c.pick(&[0usize, 0, 1, 2, 3, 7, 30]);
    (0..n).map(|_| T::native(c)).collect()
}
fn all_same<T: S>(a: &[T], b: &[T::N]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.same(b))
}
fn svec<T: S, A: TA>(n: &[T::N]) -> SVec<T, A> {
    let mut v = SVec::new_in(A::default());
    for x in n {
        v.push(T::of(x));
    }
    v
}
macro_rules! seqs { ($($n:ident)*) => { $(impl<T: S, A: TA> S for $n<T, A> {
    type N = Vec<T::N>;
    fn native(c: &mut Case) -> Vec<T::N> { list::<T>(c) }
    fn of(n: &Vec<T::N>) -> Self { svec(n).into() }
    fn same(&self, n: &Vec<T::N>) -> bool { all_same(self.as_slice(), n) }
})* } }
seqs!(SVec BoxedSlice ArcSlice);
macro_rules! texts { ($($n:ident)*) => { $(impl<A: TA> S for $n<A> {
    type N = String;
    fn native(c: &mut Case) -> String { text(c) }
    fn of(n: &String) -> Self { SString::<A>::from(n.as_str()).into() }
    fn same(&self, n: &String) -> bool { self.as_str() == n }
})* } }
texts!(SString BoxedStr ArcStr);
impl<T: S + stabby::IStable + stabby::abi::IDeterminantProvider<()>> S for SOpt<T> {
    type N = Option<T::N>;
    fn native(c: &mut Case) -> Self::N {
        if c.chance(1, 3) {
            None
        } else {
            Some(T::native(c))
        }
    }
    fn of(n: &Self::N) -> Self {
        match n {
            Some(n) => SOpt::Some(T::of(n)),
            None => SOpt::None(),
        }
    }
    fn same(&self, n: &Self::N) -> bool {
        match (self.as_ref(), n) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
}
impl<T: S + stabby::IStable + stabby::abi::IDeterminantProvider<E>, E: S + stabby::IStable> S for SRes<T, E> {
    type N = Result<T::N, E::N>;
    fn native(c: &mut Case) -> Self::N {
        if c.bool() {
            Ok(T::native(c))
        } else {
            Err(E::native(c))
        }
    }
    fn of(n: &Self::N) -> Self {
        match n {
            Ok(n) => SRes::Ok(T::of(n)),
            Err(n) => SRes::Err(E::of(n)),
        }
    }
    fn same(&self, n: &Self::N) -> bool {
        match (self.as_ref(), n) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a.same(b),
            _ => false,
        }
    }
}
/// Numbers with one forbidden value: numbers, with that value refused.
macro_rules! restricted { ($($t:ty, $n:ident: $u:ty, $bad:expr;)*) => { $(
    #[derive(Debug, Serialize)]
    struct $n($u);
    impl<'a> Deserialize<'a> for $n {
        fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
            let v = <$u>::deserialize(d)?;
            if v == $bad { return Err(serde::de::Error::custom("forbidden")); }
            Ok($n(v))
        }
    }
    impl S for $t {
        type N = $n;
        fn native(c: &mut Case) -> $n {
            let v = if c.chance(1, 3) { ($bad as $u).wrapping_add(c.pick(&[1, 2, <$u>::MAX, <$u>::MAX - 1]).clone()) } else { c.edge128() as $u };
            $n(if v == $bad { ($bad as $u).wrapping_add(1) } else { v })
        }
        fn of(n: &$n) -> Self { <$t>::new(n.0).unwrap() }
        fn same(&self, n: &$n) -> bool { self.get() == n.0 }
    }
)* } }
restricted! {
    NonMaxU8, Max8: u8, u8::MAX;
    NonMaxU16, Max16: u16, u16::MAX;
    NonMaxU32, Max32: u32, u32::MAX;
    NonMaxU64, Max64: u64, u64::MAX;
    NonMaxUsize, MaxSize: usize, usize::MAX;
    NonMaxU128, Max128: u128, u128::MAX;
    NonXU8<7>, X8: u8, 7;
    NonXU8<0>, X80: u8, 0;
    NonXU16<300>, X16: u16, 300;
    NonXU32<70000>, X32: u32, 70000;
    NonXU64<1>, X64: u64, 1;
    NonXUsize<2>, XSize: usize, 2;
    NonXU128<3>, X128: u128, 3;
}

fn cbor<T: Serialize>(t: &T) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    ciborium::into_writer(t, &mut v).map_err(|e| e.to_string())?;
    Ok(v)
}
fn json<T: Serialize>(t: &T) -> Result<String, String> {
    serde_json::to_string(t).map_err(|e| e.to_string())
}
/// The outcomes of deserialising a stable type and its counterpart agree.
fn agree<T: S>(what: &str, s: Result<Result<T, String>, String>, n: Result<Result<T::N, String>, String>, data: &dyn Debug) -> Res {
    match (s, n) {
        (Err(s), Ok(n)) => Err(format!("{what}: {s}, while the standard type gives {n:?}, from {data:?}")),
        (Ok(Ok(s)), Ok(Ok(n))) => {
            ck!(s.same(&n), "{what}: differs from {n:?}, from {data:?}");
            Ok(())
        }
        (Ok(Err(_)), Ok(Err(_))) => Ok(()),
        (Ok(Ok(_)), Ok(Err(e))) => Err(format!("{what}: accepted, while the standard type fails with {e:?}, from {data:?}")),
        (Ok(Err(e)), Ok(Ok(n))) => Err(format!("{what}: refused ({e}), while the standard type gives {n:?}, from {data:?}")),
        (_, Err(n)) => Err(format!("the standard type: {n}")),
    }
}
macro_rules! both { ($what:expr, $t:ty, $data:expr, |$d:ident| $e:expr) => {{
    fn get<X: DeserializeOwned>($d: &Data) -> Result<X, String> { $e.map_err(|e| e.to_string()) }
    agree::<$t>($what, catch(|| get::<$t>($data)), catch(|| get::<<$t as S>::N>($data)), $data)?;
}} }
#[derive(Debug)]
enum Data {
    Text(String),
    Bytes(Vec<u8>),
    Json(Json),
    Cbor(Cbor),
}
impl Data {
    fn s(&self) -> &str {
        match self {
            Data::Text(s) => s,
            _ => unreachable!(),
        }
    }
    fn b(&self) -> &[u8] {
        match self {
            Data::Bytes(s) => s,
            _ => unreachable!(),
        }
    }
}
/// All ways into a value, for one piece of data.
fn from_text<T: S>(s: String) -> Res {
    let d = &Data::Text(s);
    both!("from JSON text", T, d, |d| serde_json::from_str::<X>(d.s()));
    both!("from a JSON reader", T, d, |d| serde_json::from_reader::<_, X>(d.s().as_bytes()));
    if let Ok(v) = serde_json::from_str::<Json>(d.s()) {
        let d = &Data::Json(v);
        both!("from a JSON value", T, d, |d| match d {
            Data::Json(v) => serde_json::from_value::<X>(v.clone()),
            _ => unreachable!(),
        });
        both!("from a borrowed JSON value", T, d, |d| match d {
            Data::Json(v) => X::deserialize(v),
            _ => unreachable!(),
        });
    }
    Ok(())
}
fn from_bytes<T: S>(b: Vec<u8>) -> Res {
    let d = &Data::Bytes(b);
    both!("from JSON bytes", T, d, |d| serde_json::from_slice::<X>(d.b()));
    both!("from CBOR", T, d, |d| ciborium::from_reader::<X, _>(d.b()));
    if let Ok(v) = ciborium::from_reader::<Cbor, _>(d.b()) {
        from_cbor::<T>(v)?;
    }
    Ok(())
}
fn from_cbor<T: S>(v: Cbor) -> Res {
    let d = &Data::Cbor(v);
    both!("from a CBOR value", T, d, |d| match d {
        Data::Cbor(v) => v.deserialized::<X>(),
        _ => unreachable!(),
    });
    Ok(())
}
fn mutate(c: &mut Case, b: &mut Vec<u8>) {
    for _ in 0..c.range(1, 3) {
        let i = c.usize(b.len() + 1);
        match c.below(6) {
            0 => b.truncate(i),
            1 => b.insert(i, c.u64() as u8),
            2 if i < b.len() => b[i] ^= 1 << c.below(8),
            3 if i < b.len() => b[i] = *c.pick(&[0, 0x18, 0x5b, 0x7b, 0x9b, 0xbb, 0x9f, 0xff, 0xf6, 0x80, 0x60, 0x40, b'"', b'[', b']', b'{', b'n', b'0', b'-']),
            4 if i < b.len() => {
                b.remove(i);
            }
            _ => {
                // a huge length
                let head = *c.pick(&[0x5bu8, 0x7b, 0x9b, 0xbb]);
                let n = *c.pick(&[u64::MAX, 1 << 60, 1 << 40, 1 << 31, (1 << 63) - 1, 100_000]);
                let at = if c.bool() { 0 } else { i };
                let _ = b.splice(at..(at + c.usize(2)).min(b.len()), [head].into_iter().chain(n.to_be_bytes())).count();
            }
        }
    }
}
/// A document of roughly any shape.
fn document(c: &mut Case, depth: u32) -> Json {
    match c.below(if depth == 0 { 6 } else { 9 }) {
        0 => Json::Null,
        1 => Json::Bool(c.bool()),
        2 => Json::from(c.edge64(64)),
        3 => Json::from(c.below(300)),
        4 => Json::from(-(c.below(300) as i64)),
        5 => Json::from(text(c)),
        6 => Json::from(c.below(1000) as f64 / 8.0),
        7 => {
            let n = c.below(4);
            (0..n).map(|_| document(c, depth - 1)).collect()
        }
        _ => {
            let k = *c.pick(&["Ok", "Err", "Some", "inner", ""]);
            Json::Object([(k.to_string(), document(c, depth - 1))].into_iter().collect())
        }
    }
}
fn cbor_document(c: &mut Case, depth: u32) -> Cbor {
    match c.below(if depth == 0 { 6 } else { 9 }) {
        0 => Cbor::Null,
        1 => Cbor::from(c.edge64(64)),
        2 => Cbor::from(text(c)),
        3 => Cbor::Bytes(text(c).into_bytes()),
        4 => Cbor::Bytes(vec![0xff, c.below(256) as u8]),
        5 => Cbor::from(-(c.below(9) as i64)),
        6 | 7 => {
            let n = c.below(4);
            Cbor::Array((0..n).map(|_| cbor_document(c, depth - 1)).collect())
        }
        _ => Cbor::Map(vec![(Cbor::from(*c.pick(&["Ok", "Err", "Some"])), cbor_document(c, depth - 1))]),
    }
}
fn check<T: S>(c: &mut Case) -> Res {
    reset();
    chk::begin();
    let handles = chk::handles();
    body::<T>(c)?;
    ck_eq!(chk::handles() - handles, 0, "allocator handles");
    chk::end()?;
    finish()
}
fn body<T: S>(c: &mut Case) -> Res {
    let n = T::native(c);
    let s = T::of(&n);
    op!(c, "{n:?}");
    let text = json(&n);
    ck_eq!(json(&s), text, "JSON of {n:?}");
    ck_eq!(serde_json::to_string_pretty(&s).ok(), serde_json::to_string_pretty(&n).ok(), "indented JSON of {n:?}");
    ck_eq!(serde_json::to_value(&s).ok(), serde_json::to_value(&n).ok(), "JSON value of {n:?}");
    let bytes = cbor(&n);
    ck_eq!(cbor(&s), bytes, "CBOR of {n:?}");
    drop(s);
    match c.below(5) {
        0 | 1 => {
            if let Ok(t) = text {
                c.nontrivial = t.len() > 4;
                from_bytes::<T>(t.clone().into_bytes())?;
                from_text::<T>(t)?;
            }
            if let Ok(b) = bytes {
                from_bytes::<T>(b)?;
            }
        }
        2 => {
            // damaged
            if let Ok(t) = text {
                let mut b = t.into_bytes();
                mutate(c, &mut b);
                op!(c, "{:?}", String::from_utf8_lossy(&b));
                if let Ok(t) = String::from_utf8(b.clone()) {
                    from_text::<T>(t)?;
                }
                from_bytes::<T>(b)?;
                c.nontrivial = true;
            }
        }
        3 => {
            if let Ok(mut b) = bytes {
                mutate(c, &mut b);
                op!(c, "{b:02x?}");
                from_bytes::<T>(b)?;
                c.nontrivial = true;
            }
        }
        _ => {
            let d = document(c, 3);
            op!(c, "{d}");
            from_text::<T>(d.to_string())?;
            let d = cbor_document(c, 3);
            op!(c, "{d:?}");
            from_cbor::<T>(d)?;
            c.nontrivial = true;
        }
    }
    Ok(())
}
/// Elements that panic while they are read, and sequences that lie about their length.
struct Lying<'a> {
    left: std::slice::Iter<'a, u32>,
    hint: Option<usize>,
}
impl<'a, 'de> SeqAccess<'de> for Lying<'a> {
    type Error = Error;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        match self.left.next() {
            Some(v) => seed.deserialize((*v).into_deserializer()).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
fn lying<T: S, E: El>(c: &mut Case) -> Res
where
    T: S<N = Vec<De<E>>>,
{
    reset();
    chk::begin();
    let handles = chk::handles();
    {
        let n = c.below(9);
        let v: Vec<u32> = (0..n).map(|_| if c.chance(1, 12) { LIMIT + 1 } else { c.below(LIMIT as u64) as u32 }).collect();
        let hint = match c.below(5) {
            0 => None,
            1 => Some(v.len()),
            2 => Some(c.usize(20)),
            3 => Some(usize::MAX),
            _ => Some(1usize << c.range(20, 63)),
        };
        let at = if c.chance(1, 3) { c.below(n + 1) as i64 } else { -1 };
        op!(c, "{v:?}, announced as {hint:?}, panicking at {at}");
        arm_panic(at, K_CALL);
        let s = catch(|| T::deserialize(SeqAccessDeserializer::new(Lying { left: v.iter(), hint })));
        let fired = disarm();
        // the outcome follows from the elements
        let bad = v.iter().position(|v| *v > LIMIT);
        let panics = at >= 0 && (at as usize) < bad.map_or(v.len(), |b| b + 1);
        match &s {
            Err(e) => ck!(panics && fired, "unexpected {e}"),
            Ok(Err(_)) => ck!(!panics && bad.is_some(), "refused"),
            Ok(Ok(s)) => {
                ck!(!panics && bad.is_none(), "accepted");
                let want: Vec<De<E>> = v.iter().map(|v| De(E::new(*v))).collect();
                ck!(s.same(&want), "differs from {want:?}");
            }
        }
        c.nontrivial = n > 1;
        drop(s);
        arm_panic(-1, K_CALL);
    }
    ck_eq!(chk::handles() - handles, 0, "allocator handles");
    chk::end()?;
    finish()
}
/// Every primitive event a format may deliver for a text or some bytes.
fn events<T: S>(c: &mut Case) -> Res {
    reset();
    chk::begin();
    let handles = chk::handles();
    {
        let t = text(c);
        let mut b = t.clone().into_bytes();
        if c.chance(1, 3) {
            b.push(0xff);
        }
        let which = c.below(9);
        op!(c, "event {which} of {t:?} {b:?}");
        fn run<X: DeserializeOwned>(which: u64, t: &str, b: &[u8]) -> Result<X, String> {
            let r: Result<X, Error> = match which {
                0 => X::deserialize(StrDeserializer::new(t)),
                1 => X::deserialize(StringDeserializer::new(t.into())),
                2 => X::deserialize(BorrowedStrDeserializer::new(t)),
                3 => X::deserialize(BytesDeserializer::new(b)),
                4 => X::deserialize(BorrowedBytesDeserializer::new(b)),
                5 => X::deserialize(Owned(b.to_vec())),
                6 => X::deserialize(SeqDeserializer::new(b.iter().copied())),
                7 => X::deserialize(UnitDeserializer::new()),
                _ => X::deserialize(CowStrDeserializer::new(std::borrow::Cow::Borrowed(t))),
            };
            r.map_err(|e| e.to_string())
        }
        agree::<T>(&format!("event {which}"), catch(|| run::<T>(which, &t, &b)), catch(|| run::<T::N>(which, &t, &b)), &(&t, &b))?;
        c.nontrivial = !t.is_empty();
    }
    ck_eq!(chk::handles() - handles, 0, "allocator handles");
    chk::end()?;
    finish()
}
/// A format that hands over its buffer.
struct Owned(Vec<u8>);
impl<'de> Deserializer<'de> for Owned {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_byte_buf(self.0)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// Views: they borrow from the input, exactly when the standard borrows do.
fn borrowed(c: &mut Case) -> Res {
    let t = text(c);
    let mut b = t.clone().into_bytes();
    if c.chance(1, 3) {
        b.push(0xff);
    }
    let j = if c.chance(1, 4) { document(c, 1).to_string() } else { json(&t)? };
    let mut m = t.clone();
    let mut mb = b.clone();
    op!(c, "{t:?} {b:?} {j}");
    ck_eq!((json(&Str::new(&t)), cbor(&Str::new(&t))), (json(&t), cbor(&t)), "Str");
    ck_eq!((json(&StrMut::from(&mut m[..])), cbor(&StrMut::from(&mut m[..]))), (json(&t), cbor(&t)), "StrMut");
    ck_eq!((json(&Slice::from(&b[..])), cbor(&Slice::from(&b[..]))), (json(&b), cbor(&b)), "Slice");
    ck_eq!((json(&SliceMut::from(&mut mb[..])), cbor(&SliceMut::from(&mut mb[..]))), (json(&b), cbor(&b)), "SliceMut");
    let words: Vec<String> = (0..c.below(3)).map(|_| text(c)).collect();
    ck_eq!((json(&Slice::from(&words[..])), cbor(&Slice::from(&words[..]))), (json(&words), cbor(&words)), "Slice of strings");
    macro_rules! pair { ($what:expr, $r:ident => $e:expr, $f:expr) => {
        let s: Result<Str, Error> = { type $r<'a> = Str<'a>; $e };
        let n: Result<&str, Error> = { type $r<'a> = &'a str; $f };
        ck_eq!(s.as_ref().ok().map(|s| (s.as_ptr(), s.len())), n.as_ref().ok().map(|s| (s.as_ptr(), s.len())), "Str from {}", $what);
    } }
    pair!("a transient str", R => R::deserialize(StrDeserializer::new(&t)), R::deserialize(StrDeserializer::new(&t)));
    pair!("a borrowed str", R => R::deserialize(BorrowedStrDeserializer::new(&t)), R::deserialize(BorrowedStrDeserializer::new(&t)));
    pair!("borrowed bytes", R => R::deserialize(BorrowedBytesDeserializer::new(&b)), R::deserialize(BorrowedBytesDeserializer::new(&b)));
    pair!("transient bytes", R => R::deserialize(BytesDeserializer::new(&b)), R::deserialize(BytesDeserializer::new(&b)));
    pair!("an owned string", R => R::deserialize(StringDeserializer::new(t.clone())), R::deserialize(StringDeserializer::new(t.clone())));
    let s = serde_json::from_str::<Str>(&j).ok().map(|s| (s.as_ptr(), s.len()));
    let n = serde_json::from_str::<&str>(&j).ok().map(|s| (s.as_ptr(), s.len()));
    ck_eq!(s, n, "Str from {j}");
    macro_rules! bytes { ($what:expr, $d:expr) => {
        let s = Slice::<u8>::deserialize($d);
        let n = <&[u8]>::deserialize($d);
        ck_eq!(s.map(|s| (s.as_ptr(), s.len())).ok(), n.map(|s| (s.as_ptr(), s.len())).ok(), "Slice from {}", $what);
    } }
    bytes!("a borrowed str", BorrowedStrDeserializer::<Error>::new(&t));
    bytes!("borrowed bytes", BorrowedBytesDeserializer::<Error>::new(&b));
    bytes!("transient bytes", BytesDeserializer::<Error>::new(&b));
    bytes!("a transient str", StrDeserializer::<Error>::new(&t));
    let s = serde_json::from_str::<Slice<u8>>(&j).ok().map(|s| (s.as_ptr(), s.len()));
    let n = serde_json::from_str::<&[u8]>(&j).ok().map(|s| (s.as_ptr(), s.len()));
    ck_eq!(s, n, "Slice from {j}");
    c.nontrivial = !t.is_empty();
    Ok(())
}

fn main() {
    let _ = track::alive();
    macro_rules! s { ($k:expr; $($t:ty;)*) => { vec![$(sub(stringify!($t), $k, $k * 25, check::<$t>)),*] } }
    macro_rules! l { ($k:expr; $($t:ty, $e:ty;)*) => { vec![$(sub(concat!("lying ", stringify!($t)), $k, $k * 25, lying::<$t, $e>)),*] } }
    macro_rules! e { ($k:expr; $($t:ty;)*) => { vec![$(sub(concat!("events ", stringify!($t)), $k, $k * 25, events::<$t>)),*] } }
    let mut subs = s! { 12000;
        SVec<u8, Chk>; SVec<u32, ChkZ>; SVec<i64, Chk>; SVec<(), Chk>; SVec<bool, Chk>; SVec<char, Chk>; SVec<f64, Chk>; SVec<String, Chk>; SVec<(u8, String), ChkZ>;
        SVec<De<Tr>, ChkR>; SVec<De<Tr64>, Chk>; SVec<De<TrZ>, ChkR>; SVec<SVec<De<Tr>, ChkR>, ChkZ>; SVec<SString<ChkZ>, Chk>; SVec<SOpt<u16>, Chk>; SVec<NonMaxU8, Chk>; SVec<SRes<bool, u64>, Chk>;
        BoxedSlice<u8, Chk>; BoxedSlice<De<Tr>, ChkR>; BoxedSlice<SString<Chk>, ChkZ>; BoxedSlice<De<TrZ>, Chk>;
        ArcSlice<u8, Chk>; ArcSlice<De<Tr>, ChkR>; ArcSlice<BoxedStr<Chk>, ChkZ>; ArcSlice<De<TrZ>, Chk>;
        SString<Chk>; SString<ChkR>; BoxedStr<Chk>; BoxedStr<ChkR>; ArcStr<Chk>; ArcStr<ChkR>;
        SOpt<u8>; SOpt<bool>; SOpt<core::num::NonZeroU8>; SOpt<()>; SOpt<SVec<u16, Chk>>; SOpt<SString<ChkR>>; SOpt<SOpt<bool>>; SOpt<SVec<De<Tr>, ChkR>>; SOpt<SRes<u8, SString<Chk>>>;
        SRes<u8, u8>; SRes<(), bool>; SRes<SString<ChkR>, SVec<u32, Chk>>; SRes<SOpt<u8>, SRes<bool, ()>>; SRes<SVec<De<Tr>, ChkR>, core::num::NonZeroU8>;
        NonMaxU8; NonMaxU16; NonMaxU32; NonMaxU64; NonMaxUsize; NonMaxU128; NonXU8<7>; NonXU8<0>; NonXU16<300>; NonXU32<70000>; NonXU64<1>; NonXUsize<2>; NonXU128<3>;
    };
    subs.extend(l! { 20000; SVec<De<Tr>, ChkR>, Tr; SVec<De<Tr64>, ChkZ>, Tr64; SVec<De<TrZ>, ChkR>, TrZ; BoxedSlice<De<Tr>, ChkR>, Tr; ArcSlice<De<TrBig>, ChkR>, TrBig; });
    subs.extend(e! { 20000; SString<ChkR>; BoxedStr<Chk>; ArcStr<ChkR>; SVec<u8, ChkR>; BoxedSlice<u8, Chk>; SOpt<SString<Chk>>; NonMaxU8; });
    subs.push(sub("borrowed", 60000, 1500000, borrowed));
    vph::main(
        "C27",
        "values of 58 stable types and their standard counterparts serialised to JSON (text, indented, value) and CBOR, and deserialised from the counterpart's data, from damaged data (bytes flipped, removed, inserted, huge lengths announced), from random documents, and from every event a format may deliver, with elements that fail or panic midway; outcomes and values compared with the counterpart's; non-trivial = more than 4 bytes of data, or damaged or arbitrary data",
        &subs,
        &[],
    )
}
