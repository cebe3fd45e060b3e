//! C11: strings in every form against the standard ones.
use stabby::alloc::allocators::{LibcAlloc, RustAlloc};
use stabby::alloc::string::{ArcStr, BoxedStr, String as SString, WeakStr};
use stabby::str::{Str, StrMut};
use stabby::vec::Vec as SVec;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use vph::chk::{self, Chk, ChkD, ChkZ, TA};
use vph::*;

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn ch(c: &mut Case) -> char {
    match c.below(8) {
        0..=2 => (b'a' + c.below(6) as u8) as char,
        3 => *c.pick(&['\0', '\n', '"', '\'', '\\', '\u{7f}', ' ', '{', '}']),
        4 => *c.pick(&['\u{80}', '\u{7ff}', 'é', 'ß', '\u{301}', '\u{ad}']),
        5 => *c.pick(&['\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '€', '\u{200d}']),
        6 => *c.pick(&['\u{10000}', '\u{10ffff}', '🦀', '𝄞']),
        _ => char::from_u32(c.below(0x110000) as u32).unwrap_or('x'),
    }
}
fn text(c: &mut Case) -> String {
    let n = match c.below(8) {
        0 => 0,
        7 => c.usize(70),
        _ => c.usize(7),
    };
    (0..n).map(|_| ch(c)).collect()
}
/// A text close to `m`: equal, a prefix, an extension or one character off.
fn near(c: &mut Case, m: &str) -> String {
    let mut v: Vec<char> = m.chars().collect();
    match c.below(5) {
        0 => return text(c),
        1 => {}
        2 => {
            v.pop();
        }
        3 => v.push(ch(c)),
        _ => {
            if !v.is_empty() {
                let i = c.usize(v.len());
                v[i] = ch(c);
            }
        }
    }
    v.into_iter().collect()
}
fn view(s: &str, m: &str, at: &str) -> Res {
    ck_eq!(s.len(), m.len(), "{at}: length");
    ck!(std::str::from_utf8(s.as_bytes()).is_ok(), "{at}: not valid UTF-8: {:?}", s.as_bytes());
    ck!(s == m, "{at}: {s:?} instead of {m:?}");
    Ok(())
}
/// every formatting form agrees with std's
fn shown<T: std::fmt::Display + std::fmt::Debug>(t: &T, m: &str, at: &str) -> Res {
    ck_eq!(format!("{t}"), m, "{at}: Display");
    ck_eq!(format!("{t:?}"), format!("{m:?}"), "{at}: Debug");
    ck_eq!(format!("{t:>9.3}|{t:*^5}|{t:<4?}|{t:#?}"), format!("{m:>9.3}|{m:*^5}|{m:<4?}|{m:#?}"), "{at}: padded");
    Ok(())
}
macro_rules! compared {
    ($a:expr, $b:expr, $m:expr, $o:expr, $at:expr) => {{
        let (a, b, m, o) = (&$a, &$b, &$m, &$o);
        ck_eq!((a == b, a != b), (m == o, m != o), "{}: equality of {m:?} and {o:?}", $at);
        ck_eq!((a.partial_cmp(b), a < b, a <= b), (m.partial_cmp(o), m < o, m <= o), "{}: order of {m:?} and {o:?}", $at);
    }};
}
enum Form<A: TA> {
    S(SString<A>),
    B(BoxedStr<A>),
    A(ArcStr<A>),
    V(SVec<u8, A>),
    Std(String),
}
fn build<A: TA>(c: &mut Case, m: &str) -> SString<A> {
    match c.below(4) {
        0 => SString::from(m),
        1 => SString::from(m.to_string()),
        2 => SString::from(Str::new(m)),
        _ => {
            let mut s = SString::new_in(A::mk(3));
            s += m;
            s
        }
    }
}
fn run<A: TA>(c: &mut Case) -> Res {
    chk::begin();
    body::<A>(c)?;
    chk::fail_mask(0);
    chk::end()
}
fn body<A: TA>(c: &mut Case) -> Res {
    let mut m = if c.bool() { text(c) } else { String::new() };
    op!(c, "start with {m:?}");
    let mut cur: Form<A> = Form::S(if m.is_empty() && c.bool() { SString::new_in(A::mk(3)) } else { build(c, &m) });
    let mut aliases: Vec<(ArcStr<A>, String)> = vec![];
    let mut weaks: Vec<WeakStr<A>> = vec![];
    let mut work = 0;
    for step in 0..c.range(2, 18) {
        let which = c.below(14);
        let at = format!("step {step} op {which}");
        chk::mid().map_err(|e| format!("{at}: {e}"))?;
        for (a, m) in &aliases {
            view(a.as_str(), m, &format!("{at}: alias"))?;
        }
        cur = match cur {
            Form::S(mut s) => {
                view(s.as_str(), &m, &at)?;
                view(&s, &m, &at)?;
                view(s.as_ref(), &m, &at)?;
                match which {
                    0 | 1 => {
                        let t = text(c);
                        op!(c, "append {t:?}");
                        work += 1;
                        match c.below(5) {
                            0 => s += &t,
                            1 => s += t.as_str(),
                            2 => s = s + &t,
                            3 => s += &Str::new(&t),
                            _ => s += &build::<A>(c, &t),
                        }
                        m += &t;
                        Form::S(s)
                    }
                    2 => {
                        let t = text(c);
                        let mask = if A::CHECKED && c.bool() { c.u64() } else { 0 };
                        let refused = chk::refused();
                        chk::fail_mask(mask);
                        let r = s.try_concat(&t);
                        chk::fail_mask(0);
                        op!(c, "try_concat {t:?}: {}", r.is_ok());
                        match r {
                            Ok(()) => m += &t,
                            Err(_) => ck!(chk::refused() > refused, "{at}: try_concat failed without an allocation failure"),
                        }
                        work += 1;
                        Form::S(s)
                    }
                    3 => {
                        op!(c, "upper/lower case in place");
                        work += 1;
                        if c.bool() {
                            s.as_str_mut().make_ascii_uppercase();
                            m.make_ascii_uppercase();
                        } else {
                            s.make_ascii_lowercase();
                            m.make_ascii_lowercase();
                        }
                        Form::S(s)
                    }
                    4 => {
                        let o = near(c, &m);
                        op!(c, "compare with {o:?}");
                        let so: SString<A> = build(c, &o);
                        compared!(s, so, m, o, at);
                        compared!(s, o, m, o, at);
                        compared!(s, o.as_str(), m.as_str(), o.as_str(), at);
                        compared!(s, Str::new(&o), m, o, at);
                        ck_eq!(s.cmp(&so), m.cmp(&o), "{at}: cmp");
                        ck_eq!(hash(&s), hash(m.as_str()), "{at}: hash");
                        shown(&s, &m, &at)?;
                        Form::S(s)
                    }
                    5 => {
                        op!(c, "clone");
                        let d = s.clone();
                        view(&d, &m, &format!("{at}: clone"))?;
                        if c.bool() {
                            drop(d);
                            Form::S(s)
                        } else {
                            drop(s);
                            Form::S(d)
                        }
                    }
                    6 | 7 => {
                        op!(c, "string -> boxed str");
                        work += 1;
                        Form::B(s.into())
                    }
                    8 | 9 => {
                        op!(c, "string -> arc str");
                        work += 1;
                        Form::A(s.into())
                    }
                    10 | 11 => {
                        op!(c, "string -> bytes");
                        Form::V(s.into())
                    }
                    12 => {
                        op!(c, "string -> std");
                        Form::Std(s.into())
                    }
                    _ => {
                        op!(c, "borrowed forms");
                        borrowed(c, &mut m, s.as_str_mut(), &at)?;
                        Form::S(s)
                    }
                }
            }
            Form::B(mut b) => {
                view(b.as_str(), &m, &at)?;
                view(&b, &m, &at)?;
                view(b.as_ref(), &m, &at)?;
                match which {
                    0..=6 => {
                        op!(c, "boxed str -> string");
                        work += 1;
                        Form::S(b.into())
                    }
                    7 | 8 => {
                        op!(c, "boxed edit");
                        b.as_str_mut().make_ascii_uppercase();
                        m.make_ascii_uppercase();
                        Form::B(b)
                    }
                    9 => {
                        borrowed(c, &mut m, b.as_str_mut(), &at)?;
                        Form::B(b)
                    }
                    _ => {
                        let o = near(c, &m);
                        op!(c, "compare boxed with {o:?}");
                        let bo: BoxedStr<A> = build::<A>(c, &o).into();
                        compared!(b, bo, m, o, at);
                        ck_eq!(b.cmp(&bo), m.cmp(&o), "{at}: cmp");
                        ck_eq!(hash(&b), hash(m.as_str()), "{at}: hash");
                        shown(&b, &m, &at)?;
                        Form::B(b)
                    }
                }
            }
            Form::A(mut a) => {
                view(a.as_str(), &m, &at)?;
                view(&a, &m, &at)?;
                view(a.as_ref(), &m, &at)?;
                let unique = aliases.is_empty() && weaks.is_empty();
                ck_eq!(ArcStr::is_unique(&a), unique, "{at}: is_unique");
                match which {
                    0..=3 => {
                        op!(c, "arc str -> string (unique {unique})");
                        match SString::try_from(a) {
                            Ok(s) => {
                                ck!(unique, "{at}: a shared text turned into an owned one");
                                work += 1;
                                Form::S(s)
                            }
                            Err(a) => {
                                ck!(!unique, "{at}: a unique text refused");
                                view(&a, &m, &at)?;
                                Form::A(a)
                            }
                        }
                    }
                    4 => {
                        op!(c, "clone arc");
                        aliases.push((a.clone(), m.clone()));
                        Form::A(a)
                    }
                    5 => {
                        op!(c, "drop alias");
                        if !aliases.is_empty() {
                            let i = c.usize(aliases.len());
                            let (x, xm) = aliases.swap_remove(i);
                            if c.bool() {
                                // keep the alias and drop the current one
                                drop(a);
                                a = x;
                                m = xm;
                            }
                        }
                        Form::A(a)
                    }
                    6 => {
                        op!(c, "downgrade");
                        if c.bool() || weaks.is_empty() {
                            weaks.push(WeakStr::from(&a));
                        } else {
                            let w = weaks[0].clone();
                            weaks.push(w);
                        }
                        Form::A(a)
                    }
                    7 | 8 => {
                        if !weaks.is_empty() {
                            let i = c.usize(weaks.len());
                            let w = weaks.swap_remove(i);
                            // the weak handles always follow the current text here: see `Form::A` exits below
                            let up = w.upgrade();
                            op!(c, "upgrade: {}", up.is_some());
                            match up {
                                Some(x) => {
                                    view(&x, &m, &format!("{at}: upgraded"))?;
                                    if c.bool() {
                                        aliases.push((x, m.clone()));
                                    }
                                }
                                None => ck!(false, "{at}: upgrade failed although the text is alive"),
                            }
                        }
                        Form::A(a)
                    }
                    9 | 10 => {
                        let r = a.as_str_mut();
                        op!(c, "as_str_mut: {}", r.is_some());
                        ck_eq!(r.is_some(), unique, "{at}: mutable access");
                        if let Some(s) = r {
                            s.make_ascii_lowercase();
                            m.make_ascii_lowercase();
                        }
                        Form::A(a)
                    }
                    11 => {
                        op!(c, "drop every alias");
                        aliases.clear();
                        if c.bool() {
                            weaks.clear();
                        }
                        Form::A(a)
                    }
                    _ => {
                        let o = near(c, &m);
                        op!(c, "compare arc with {o:?}");
                        let ao: ArcStr<A> = build::<A>(c, &o).into();
                        compared!(a, ao, m, o, at);
                        ck_eq!(a.cmp(&ao), m.cmp(&o), "{at}: cmp");
                        ck_eq!(hash(&a), hash(m.as_str()), "{at}: hash");
                        shown(&a, &m, &at)?;
                        Form::A(a)
                    }
                }
            }
            Form::V(mut v) => {
                ck_eq!(v.as_slice(), m.as_bytes(), "{at}: bytes");
                // edit the bytes, then come back
                if c.chance(1, 4) {
                    let mut b = m.clone().into_bytes();
                    let k = c.usize(3);
                    for _ in 0..k {
                        match c.below(3) {
                            0 if !b.is_empty() => {
                                let i = c.usize(b.len());
                                let x = *c.pick(&[0u8, 0x80, 0xbf, 0xc0, 0xc2, 0xed, 0xef, 0xf0, 0xf4, 0xff, b'a']);
                                b[i] = x;
                                v[i] = x;
                            }
                            1 if !b.is_empty() => {
                                b.pop();
                                v.pop();
                            }
                            _ => {
                                let x = c.below(256) as u8;
                                b.push(x);
                                v.push(x);
                            }
                        }
                    }
                    op!(c, "bytes edited to {b:?}");
                    ck_eq!(v.as_slice(), &b[..], "{at}: edited bytes");
                    match (SString::try_from(v), String::from_utf8(b)) {
                        (Ok(s), Ok(x)) => {
                            m = x;
                            Form::S(s)
                        }
                        (Err(e), Err(x)) => {
                            c.label("invalid bytes refused");
                            ck_eq!(e, x.utf8_error(), "{at}: error");
                            m = text(c);
                            Form::S(build(c, &m))
                        }
                        (s, x) => return Err(format!("{at}: conversion from bytes gives {:?} instead of {x:?}", s.map(|s| s.as_str().to_string()))),
                    }
                } else {
                    op!(c, "bytes -> string");
                    match SString::try_from(v) {
                        Ok(s) => Form::S(s),
                        Err(e) => return Err(format!("{at}: valid text refused: {e}")),
                    }
                }
            }
            Form::Std(s) => {
                view(&s, &m, &at)?;
                Form::S(if c.bool() { s.into() } else { SString::from(s.as_str()) })
            }
        };
        // weak handles may outlive the text they came from
        let alive = matches!(cur, Form::A(_));
        if !alive && !weaks.is_empty() {
            for w in weaks.drain(..) {
                ck!(w.upgrade().is_none() || !aliases.is_empty(), "{at}: a dead text was upgraded");
            }
        }
    }
    let end = "at the end";
    match &cur {
        Form::S(s) => view(s, &m, end)?,
        Form::B(s) => view(s, &m, end)?,
        Form::A(s) => view(s, &m, end)?,
        Form::V(s) => ck_eq!(s.as_slice(), m.as_bytes(), "{end}"),
        Form::Std(s) => view(s, &m, end)?,
    }
    if let Form::A(a) = cur {
        for w in &weaks {
            if c.bool() {
                drop(w.clone());
            }
        }
        drop(a);
        if aliases.is_empty() {
            for w in &weaks {
                ck!(w.upgrade().is_none(), "{end}: a dead text was upgraded");
            }
        } else {
            let (x, xm) = aliases.pop().unwrap();
            view(&x, &xm, end)?;
            drop(aliases);
            drop(x);
            for w in &weaks {
                ck!(w.upgrade().is_none(), "{end}: a dead text was upgraded");
            }
        }
    }
    c.nontrivial = work >= 2 && m.len() > m.chars().count();
    Ok(())
}
/// `Str` and `StrMut` over the same text
fn borrowed(c: &mut Case, m: &mut String, s: &mut str, at: &str) -> Res {
    let o = near(c, m);
    op!(c, "borrow, compare with {o:?}");
    {
        let v = if c.bool() { Str::new(s) } else { Str::from(&*s) };
        view(&v, m, at)?;
        view(v.as_ref(), m, at)?;
        view(v.as_str(), m, at)?;
        view(<&str>::from(v), m, at)?;
        ck_eq!(v.as_str().as_ptr(), s.as_ptr(), "{at}: the view points elsewhere");
        let w = Str::new(&o);
        compared!(v, w, *m, o, at);
        ck!(v != w || hash(&v) == hash(&w), "{at}: equal views, different hashes");
        let o2 = o.clone();
        ck_eq!(hash(&w), hash(&Str::new(&o2)), "{at}: equal views, different hashes");
        shown(&v, m, at)?;
    }
    let p = s.as_ptr();
    match c.below(4) {
        0 => {
            let mut v = StrMut::from(s);
            view(&v, m, at)?;
            view(v.as_ref(), m, at)?;
            v.make_ascii_uppercase();
            m.make_ascii_uppercase();
            let x: &mut str = v.into();
            view(x, m, at)?;
            x.make_ascii_lowercase();
            m.make_ascii_lowercase();
            view(x, m, at)?;
            ck_eq!(x.as_ptr(), p, "{at}: the view points elsewhere");
        }
        1 => {
            let v: Str = StrMut::from(s).into();
            view(&v, m, at)?;
            ck_eq!(v.as_ptr(), p, "{at}: the view points elsewhere");
        }
        2 => {
            let v: &str = StrMut::from(s).into();
            view(v, m, at)?;
            ck_eq!(v.as_ptr(), p, "{at}: the view points elsewhere");
        }
        _ => {
            let v = Str::from(s);
            view(&v, m, at)?;
            ck_eq!(v.as_ptr(), p, "{at}: the view points elsewhere");
        }
    }
    Ok(())
}
/// `write!` and `format`-like use of the default string
fn written(c: &mut Case) -> Res {
    let mut s = SString::new();
    let mut m = String::new();
    for _ in 0..c.range(1, 10) {
        let t = text(c);
        let n = c.edge64(64);
        op!(c, "write {t:?} {n}");
        match c.below(5) {
            0 => {
                write!(s, "{t}{n:#x}").unwrap();
                write!(m, "{t}{n:#x}").unwrap();
            }
            1 => {
                write!(s, "{t:>12?}-{:e}", n as f64).unwrap();
                write!(m, "{t:>12?}-{:e}", n as f64).unwrap();
            }
            2 => {
                s.write_str(&t).unwrap();
                m.write_str(&t).unwrap();
            }
            3 => {
                let x = ch(c);
                s.write_char(x).unwrap();
                m.write_char(x).unwrap();
            }
            _ => {
                let i = i64::from_ne_bytes(n.to_ne_bytes());
                writeln!(s, "{i:+} {s2}", s2 = SString::<RustAlloc>::from(t.as_str())).unwrap();
                writeln!(m, "{i:+} {t}").unwrap();
            }
        }
        view(&s, &m, "formatted")?;
    }
    c.nontrivial = m.len() > 10;
    Ok(())
}
/// bytes to text: accepted exactly when valid
fn bytes<A: TA>(c: &mut Case) -> Res {
    chk::begin();
    let mut b = vec![];
    for _ in 0..c.usize(6) {
        match c.below(4) {
            0 | 1 => b.extend(ch(c).to_string().bytes()),
            2 => {
                let mut t = ch(c).to_string().into_bytes();
                let k = c.usize(t.len() + 1);
                t.truncate(k);
                b.extend(t)
            }
            _ => b.push(*c.pick(&[0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xe0, 0xa0, 0x9f, 0xed, 0xf0, 0x90, 0x8f, 0xf4, 0xf5, 0xff, 0x00, 0x41])),
        }
    }
    op!(c, "{b:x?}");
    let mut v = SVec::<u8, A>::new_in(A::mk(2));
    v.copy_extend(&b);
    let r = SString::try_from(v);
    match (r, std::str::from_utf8(&b)) {
        (Ok(s), Ok(m)) => {
            view(&s, m, "accepted bytes")?;
            c.nontrivial = m.len() != m.chars().count();
        }
        (Err(e), Err(f)) => {
            ck_eq!(e, f, "error");
            c.nontrivial = true;
        }
        (r, w) => return Err(format!("bytes {b:x?}: accepted {}, std says {w:?}", r.is_ok())),
    }
    chk::end()
}

fn main() {
    vph::main(
        "C11",
        "random texts (all planes, boundary code points) and operation sequences (2-18 steps) over owned, boxed, shared, borrowed, byte and standard forms, compared with std String after every step; random byte strings near valid UTF-8; non-trivial = at least 2 growing, converting or editing steps ending on a text with multi-byte characters (byte strings: multi-byte or invalid)",
        &[
            sub("chk", 150000, 3000000, run::<Chk>),
            sub("chkz", 100000, 2000000, run::<ChkZ>),
            sub("chkd", 50000, 1000000, run::<ChkD>),
            sub("rust", 80000, 1600000, run::<RustAlloc>),
            sub("libc", 80000, 1600000, run::<LibcAlloc>),
            sub("fmt", 60000, 1200000, written),
            sub("bytes_chk", 150000, 3000000, bytes::<Chk>),
            sub("bytes_libc", 50000, 1000000, bytes::<LibcAlloc>),
        ],
        &[],
    )
}
