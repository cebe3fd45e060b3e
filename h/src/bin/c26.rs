//! C26: stable time types convert and compute like the standard ones.
use stabby::time::{AtomicDuration, AtomicInstant, Duration as SD, Instant as SI, Sign, SystemTime as SS};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::atomic::Ordering::{self, *};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};
use vph::*;

fn nanos(c: &mut Case) -> u32 {
    match c.below(3) {
        0 => *c.pick(&[0, 1, 999, 1000, 1001, 999_999, 1_000_000, 500_000_000, 999_999_000, 999_999_999]),
        1 => c.below(1000) as u32 * 1000 + 999_000_000,
        _ => c.below(1_000_000_000) as u32,
    }
}
fn secs(c: &mut Case) -> u64 {
    match c.below(4) {
        0 => c.below(4),
        1 => u64::MAX - c.below(4),
        _ => c.edge64(64),
    }
}
fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
/// A stable duration is the standard one, by every accessor.
fn is(what: &str, s: SD, d: Duration) -> Res {
    ck_eq!((s.secs, s.nanos), (d.as_secs(), d.subsec_nanos()), "{what}: fields");
    ck_eq!(
        (s.as_secs(), s.as_nanos(), s.subsec_nanos(), s.subsec_micros(), s.subsec_millis()),
        (d.as_secs(), d.as_nanos(), d.subsec_nanos(), d.subsec_micros(), d.subsec_millis()),
        "{what}: accessors"
    );
    let (f, g) = (s.as_secs_f64(), d.as_secs_f64());
    ck!((f - g).abs() <= g * 2f64.powi(-51), "{what}: as_secs_f64 gives {f:e}, expected {g:e}");
    let back: Duration = s.into();
    ck_eq!(back, d, "{what}: converted back");
    let again: SD = d.into();
    ck!(again == s && h(&again) == h(&s), "{what}: differs from a converted equal duration");
    Ok(())
}
fn durations(c: &mut Case) -> Res {
    let (s1, n1) = (secs(c), nanos(c));
    let (s2, n2) = match c.below(4) {
        0 => (s1, n1),
        1 => (s1, nanos(c)),
        2 => ((u64::MAX - s1).wrapping_add(c.below(3)).wrapping_sub(1), (1_000_000_000 - n1 + c.below(3) as u32).wrapping_sub(1) % 1_000_000_000),
        _ => (secs(c), nanos(c)),
    };
    op!(c, "{s1}s {n1}ns, {s2}s {n2}ns");
    let (a, b) = (Duration::new(s1, n1), Duration::new(s2, n2));
    let (x, y): (SD, SD) = (a.into(), SD::new(s2, n2));
    is("converted", x, a)?;
    is("constructed", y, b)?;
    ck_eq!((x == y, x < y, x <= y, x > y, x >= y), (a == b, a < b, a <= b, a > b, a >= b), "comparison");
    ck_eq!((x.cmp(&y), x.partial_cmp(&y)), (a.cmp(&b), a.partial_cmp(&b)), "ordering");
    if a == b {
        ck_eq!(h(&x), h(&y), "hashes of equal durations");
    }
    let want = a.checked_add(b);
    let got = catch(|| x + y).ok();
    let mut z = x;
    let assigned = catch(|| z += y).ok().map(|_| z);
    ck_eq!((got.is_some(), assigned.is_some()), (want.is_some(), want.is_some()), "addition succeeds");
    if let (Some(g), Some(s), Some(w)) = (got, assigned, want) {
        is("sum", g, w)?;
        is("assigned sum", s, w)?;
    }
    c.nontrivial = a != b && want.is_some_and(|w| w != a && w != b);
    Ok(())
}
const CONST: SD = SD::from_micros(1_500_001);
fn constructors(c: &mut Case) -> Res {
    is("a constant", CONST, Duration::from_micros(1_500_001))?;
    let v = c.edge64(64);
    op!(c, "{v}");
    is("from_millis", SD::from_millis(v), Duration::from_millis(v))?;
    is("from_micros", SD::from_micros(v), Duration::from_micros(v))?;
    let n = c.edge64(32) as u32;
    let s = secs(c);
    if s <= u64::MAX - 4 {
        op!(c, "new({s}, {n})");
        is("new", SD::new(s, n), Duration::new(s, n))?;
    }
    let f = match c.below(6) {
        0 => *c.pick(&[0.0, -0.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 1e-9, 1e-10, 0.5e-9, 1.5e-9, 0.999999999, 0.9999999995, 0.99999999999, 18446744073709551615.0, 18446744073709549568.0, 1e300]),
        1 => f64::from_bits(c.u64()),
        2 => c.below(4_000_000_000) as f64 / 1e9,
        3 => c.edge64(64) as f64,
        4 => c.below(1 << 40) as f64 / 1e3,
        _ => Duration::new(secs(c) >> 12, nanos(c)).as_secs_f64(),
    };
    op!(c, "from_secs_f64({f:e})");
    let want = Duration::try_from_secs_f64(f).ok();
    let got = catch(|| SD::from_secs_f64(f)).ok();
    ck_eq!(got.is_some(), want.is_some(), "from_secs_f64({f:e}) succeeds");
    if let (Some(g), Some(w)) = (got, want) {
        is("from_secs_f64", g, w)?;
    }
    c.nontrivial = want.is_some_and(|w| w.subsec_nanos() != 0);
    Ok(())
}
fn moment(c: &mut Case) -> Duration {
    let s = match c.below(3) {
        0 => c.below(5),
        1 => (1 << 62) - 1 - c.below(5),
        _ => c.edge64(62),
    };
    Duration::new(s, nanos(c))
}
fn points(c: &mut Case) -> Res {
    let (a, b) = (moment(c), if c.bool() { moment(c) } else { Duration::new(c.below(3), nanos(c)) });
    let (t, u) = (UNIX_EPOCH + a, UNIX_EPOCH + b);
    op!(c, "{a:?} {b:?}");
    let (x, y): (SS, SS) = (t.into(), u.into());
    ck_eq!(SystemTime::from(x), t, "system time, back");
    ck_eq!(SystemTime::from(y), u, "system time, back");
    ck_eq!((x == y, x.cmp(&y), x.partial_cmp(&y)), (t == u, t.cmp(&u), t.partial_cmp(&u)), "system times: comparison");
    if t == u {
        ck_eq!(h(&x), h(&y), "system times: hashes");
    }
    ck_eq!((SystemTime::from(SS::UNIX_EPOCH), SS::from(UNIX_EPOCH) == SS::UNIX_EPOCH), (UNIX_EPOCH, true), "the epoch");
    let (d, sd) = (b, SD::from(b));
    ck_eq!(SystemTime::from(x + sd), t + d, "system time plus a duration");
    let mut z = x;
    z += sd;
    ck_eq!(SystemTime::from(z), t + d, "system time += a duration");
    ck!(SS::UNIX_EPOCH + SD::from(a) == x, "the epoch plus the elapsed time differs");
    // instants, from an arbitrary base
    let base = base();
    if a.as_secs() < 1 << 60 && b.as_secs() < 1 << 60 {
        let (t, u) = (base + a, base + b);
        let (x, y): (SI, SI) = (t.into(), u.into());
        ck_eq!(Instant::from(x), t, "instant, back");
        ck_eq!((x == y, x.cmp(&y), x.partial_cmp(&y)), (t == u, t.cmp(&u), t.partial_cmp(&u)), "instants: comparison");
        if t == u {
            ck_eq!(h(&x), h(&y), "instants: hashes");
        }
        ck_eq!(Instant::from(x + sd), t + d, "instant plus a duration");
        let mut z = x;
        z += sd;
        ck_eq!(Instant::from(z), t + d, "instant += a duration");
        let zero = Instant::from(SI::zero());
        ck!(SI::from(zero) == SI::zero(), "the zero instant, there and back");
        ck!(SI::zero() + SD::from(t - zero) == x, "the zero instant plus the elapsed time differs");
        c.nontrivial = t != u && !d.is_zero();
    }
    Ok(())
}
fn base() -> Instant {
    static B: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    *B.get_or_init(Instant::now)
}
fn clocks(c: &mut Case) -> Res {
    let (i0, s0) = (Instant::now(), SystemTime::now());
    let (x, y) = (SI::now(), SS::now());
    let (i1, s1) = (Instant::now(), SystemTime::now());
    ck!(i0 <= Instant::from(x) && Instant::from(x) <= i1, "the stable instant lies outside the interval it was taken in");
    // (the system clock may be set back at any time)
    ck!(s0 > s1 || (s0 <= SystemTime::from(y) && SystemTime::from(y) <= s1), "the stable system time lies outside the interval it was taken in");
    let a = AtomicInstant::now();
    let i2 = Instant::now();
    let us = |i: Instant| SI::from(i) <= SI::from(i2);
    let got = Instant::from(a.load(SeqCst));
    ck!(us(got) && got + Duration::from_micros(1) > i1, "the atomic instant lies outside the interval it was taken in");
    for _ in 0..c.below(4) {
        let before = a.load(Relaxed);
        let t0 = Instant::now();
        let old = a.update(*c.pick(&[Relaxed, Acquire, Release, AcqRel, SeqCst]));
        let t1 = Instant::now();
        ck!(old == before, "update returned something else than the instant it replaced");
        let now = Instant::from(a.load(Relaxed));
        ck!(now + Duration::from_micros(1) > t0 && now <= t1, "the updated instant lies outside the interval it was taken in");
        c.nontrivial = true;
    }
    Ok(())
}
/// What an atomic duration keeps of a duration.
fn kept(d: Duration, neg: bool) -> (u128, bool) {
    let us = d.as_micros();
    (us, neg && us != 0)
}
fn sign(neg: bool) -> Sign {
    if neg {
        Sign::Negative
    } else {
        Sign::Positive
    }
}
fn storable(c: &mut Case) -> Duration {
    let max = (1u64 << 43) - 1;
    let s = match c.below(4) {
        0 => c.below(3),
        1 => max - c.below(3),
        _ => c.edge64(43),
    };
    Duration::new(s, nanos(c))
}
fn same(what: &str, got: (SD, Sign), want: (u128, bool)) -> Res {
    ck!(got.0.nanos < 1_000_000_000, "{what}: {} ns past the second", got.0.nanos);
    ck_eq!((got.0.as_nanos(), got.1), (want.0 * 1000, sign(want.1)), "{what}");
    Ok(())
}
const LOADS: &[Ordering] = &[Relaxed, Acquire, SeqCst];
const STORES: &[Ordering] = &[Relaxed, Release, SeqCst];
const SWAPS: &[Ordering] = &[Relaxed, Acquire, Release, AcqRel, SeqCst];
fn atomics(c: &mut Case) -> Res {
    ck!(AtomicDuration::RESOLUTION == SD::from_micros(1), "resolution");
    ck_eq!((AtomicDuration::MAX.secs, AtomicDuration::MAX.nanos), ((1u64 << 43) - 1, 999_999_000), "maximum");
    let mut v = (storable(c), c.bool());
    let a = AtomicDuration::new(v.0.into(), sign(v.1));
    let i = AtomicInstant::epoch();
    let mut at = Duration::ZERO;
    op!(c, "new {v:?}");
    let mut neg = v.1;
    for k in 0..c.range(1, 8) {
        let at_step = format!("step {k}");
        match c.below(6) {
            0 | 1 => same(&format!("{at_step}: load"), a.load(*c.pick(LOADS)), kept(v.0, v.1))?,
            2 => {
                v = (storable(c), c.bool());
                op!(c, "store {v:?}");
                a.store(v.0.into(), sign(v.1), *c.pick(STORES));
            }
            3 => {
                let old = v;
                v = (storable(c), c.bool());
                op!(c, "swap {v:?}");
                same(&format!("{at_step}: swap"), a.swap(v.0.into(), sign(v.1), *c.pick(SWAPS)), kept(old.0, old.1))?;
            }
            4 => {
                // what was loaded can be stored again without loss
                let (d, s) = a.load(SeqCst);
                let b = AtomicDuration::new(d, s);
                same(&format!("{at_step}: copy"), b.load(SeqCst), kept(v.0, v.1))?;
            }
            _ => {
                let new = storable(c);
                op!(c, "instant {new:?}");
                let si = SI::zero() + SD::from(new);
                let old = SI::zero() + SD::from(Duration::from_micros(at.as_micros() as u64));
                if c.bool() {
                    ck!(i.swap(si, *c.pick(SWAPS)) == old, "{at_step}: swapped instant");
                } else {
                    ck!(i.load(*c.pick(LOADS)) == old, "{at_step}: loaded instant");
                    i.store(si, *c.pick(STORES));
                }
                at = new;
            }
        }
        neg |= v.1;
    }
    same("at the end", a.load(SeqCst), kept(v.0, v.1))?;
    let last = SI::zero() + SD::from(Duration::from_micros(at.as_micros() as u64));
    ck!(i.load(SeqCst) == last, "the atomic instant at the end");
    c.nontrivial = neg && kept(v.0, v.1).0 != 0;
    Ok(())
}
/// Swaps from several threads: every stored value is replaced exactly once, or is the last.
fn racing(c: &mut Case) -> Res {
    let threads = c.range(2, 4) as usize;
    let each = c.range(1, 12) as usize;
    let plans: Vec<Vec<(Duration, bool)>> = (0..threads)
        .map(|t| {
            (0..each)
                .map(|k| {
                    let id = (t * 64 + k + 1) as u64;
                    // unique in microseconds, or in seconds, or in both
                    let d = match c.below(3) {
                        0 => Duration::from_micros(id),
                        1 => Duration::from_secs(id << 30),
                        _ => Duration::new(id << 34 | id, id as u32 * 1000 + 999),
                    };
                    (d, c.bool())
                })
                .collect()
        })
        .collect();
    let a = AtomicDuration::new(SD::new(0, 0), Sign::Positive);
    let gate = std::sync::Barrier::new(threads);
    let seen: Vec<Vec<(SD, Sign)>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .map(|p| {
                let (a, gate) = (&a, &gate);
                s.spawn(move || {
                    gate.wait();
                    p.iter().map(|(d, n)| a.swap((*d).into(), sign(*n), AcqRel)).collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let key = |(d, s): (SD, Sign)| (d.as_nanos() / 1000, s == Sign::Negative);
    let mut got: Vec<(u128, bool)> = seen.into_iter().flatten().chain([a.load(SeqCst)]).map(key).collect();
    let mut want: Vec<(u128, bool)> = plans.iter().flatten().map(|(d, n)| kept(*d, *n)).chain([(0, false)]).collect();
    got.sort();
    want.sort();
    ck_eq!(got, want, "values given back by the swaps and left at the end");
    c.nontrivial = threads * each > 4;
    Ok(())
}

fn main() {
    vph::main(
        "C26",
        "pairs of durations and points in time (edge-biased seconds and nanoseconds, sums around carries and overflow), floating-point and integer inputs of every constructor, clocks bracketed by the standard ones, random store/load/swap histories on the atomics with signs and orderings, and swaps racing from 2-4 threads; non-trivial = operands differ and the sum is defined (arithmetic), the fraction is not zero (constructors), a negative and a non-zero value were kept (atomics), more than 4 swaps (races)",
        &[
            sub("durations", 400000, 40000000, durations),
            sub("constructors", 400000, 40000000, constructors),
            sub("points", 400000, 20000000, points),
            sub("clocks", 20000, 400000, clocks),
            sub("atomics", 400000, 20000000, atomics),
            sub("racing", 4000, 100000, racing),
        ],
        &[],
    )
}
