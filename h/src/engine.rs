use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

enum Mode {
    Gen(Rng),
    Replay(Vec<u64>, usize),
}
/// One generated test case: every random decision is drawn from here.
pub struct Case {
    mode: Mode,
    rec: Option<std::fs::File>,
    hash: u64,
    pub drawn: u64,
    pub verbose: bool,
    pub log: Vec<String>,
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub thorough: bool,
}
impl Case {
    /// A stream of choices of its own, for applying the same random edit to two values.
    pub fn from_seed(seed: u64) -> Self {
        Case::new(Mode::Gen(Rng::new(seed)))
    }
    fn new(mode: Mode) -> Self {
        Case {
            mode,
            rec: None,
            hash: 0,
            drawn: 0,
            verbose: false,
            log: vec![],
            nontrivial: false,
            labels: BTreeMap::new(),
            thorough: false,
        }
    }
    /// Uniform in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Gen(r) => ((r.next() as u128 * n as u128) >> 64) as u64,
            Mode::Replay(v, p) => {
                let x = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                x % n
            }
        };
        self.note(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match &mut self.mode {
            Mode::Gen(r) => r.next(),
            Mode::Replay(v, p) => {
                let x = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                x
            }
        };
        self.note(v);
        v
    }
    fn note(&mut self, v: u64) {
        self.drawn += 1;
        self.hash = (self.hash ^ v.wrapping_add(0x9E37_79B9))
            .wrapping_mul(0x1000_0000_01b3)
            .rotate_left(23);
        if let Some(f) = &mut self.rec {
            let _ = f.write_all(format!("{v}\n").as_bytes());
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// index drawn with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut x = self.below(t);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    /// interesting 64-bit values: small, boundary, random
    pub fn edge64(&mut self, bits: u32) -> u64 {
        let mask = if bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
        (match self.below(8) {
            0 => self.below(4),
            1 => mask.wrapping_sub(self.below(4)),
            2 => (mask >> 1).wrapping_add(self.below(4)).wrapping_sub(1),
            3 => {
                let s = self.below(bits as u64);
                (1u64 << s).wrapping_add(self.below(3)).wrapping_sub(1)
            }
            4 => self.below(256),
            5 => {
                let b = self.below(256);
                b * 0x0101_0101_0101_0101
            }
            6 => {
                let s = self.below((bits / 8) as u64);
                self.below(256) << (8 * s)
            }
            _ => self.u64(),
        }) & mask
    }
    pub fn edge128(&mut self) -> u128 {
        let a = self.edge64(64) as u128;
        let b = self.edge64(64) as u128;
        a | b << 64
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn op(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            if self.log.len() < 400 {
                self.log.push(s);
            }
        }
    }
}
#[macro_export]
macro_rules! op { ($c:expr, $($t:tt)*) => { if $c.verbose { let s = format!($($t)*); if $c.log.len() < 400 { $c.log.push(s); } } } }
#[macro_export]
macro_rules! ck { ($cond:expr, $($t:tt)*) => { if !($cond) { return Err(format!($($t)*)); } } }
#[macro_export]
macro_rules! ck_eq { ($a:expr, $b:expr, $($t:tt)*) => {{ let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); } }} }

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case) -> Res,
}
pub const fn sub(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Case) -> Res) -> Sub {
    Sub { name, quick, thorough, f }
}
/// A fixed input for a listed known finding: `f` fails while the defect is present.
pub struct Probe {
    pub id: &'static str,
    pub f: fn() -> Res,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
fn quiet_panics(print: bool) {
    std::panic::set_hook(Box::new(move |i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("panic '{msg}' at {loc}");
        if print {
            eprintln!("{m}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}
static NOTE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// Something the evidence should say beyond the counts.
pub fn note(s: String) {
    *NOTE.lock().unwrap() = s;
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            std::mem::forget(p);
            Err(last_panic())
        }
    }
}
fn run_case(f: fn(&mut Case) -> Res, c: &mut Case) -> Res {
    match catch(|| f(c)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected {p}")),
    }
}
fn case_seed(seed: u64, sub: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_str(sub)), idx)
}
pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn env_thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}
/// CPU seconds a single case may use when it runs alone (cases take microseconds to milliseconds).
const CPU_S: u64 = 30;
fn limits(single: bool) {
    unsafe {
        if single {
            let l = libc::rlimit { rlim_cur: CPU_S, rlim_max: CPU_S + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
        }
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        let l = libc::rlimit { rlim_cur: 2 << 30, rlim_max: 2 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Entry point of every check binary.
pub fn main(prop: &str, rule: &str, subs: &[Sub], probes: &[Probe]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let seed = env_seed();
    let thorough = env_thorough();
    match args.get(1).map(|s| s.as_str()) {
        Some("child") => {
            limits(false);
            quiet_panics(false);
            let s = subs.iter().find(|s| s.name == args[2]).unwrap();
            let (start, end): (u64, u64) = (args[3].parse().unwrap(), args[4].parse().unwrap());
            let pos = std::fs::File::create(&args[6]).unwrap();
            let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut hashes: HashSet<u64> = HashSet::new();
            let mut samples: Vec<u64> = vec![];
            let mut ev = 0u64;
            let mut fail = None;
            for i in start..end {
                pos.write_all_at(&i.to_le_bytes(), 0).unwrap();
                let mut c = Case::new(Mode::Gen(Rng::new(case_seed(seed, s.name, i))));
                c.thorough = thorough;
                let r = run_case(s.f, &mut c);
                ev += 1;
                if c.nontrivial {
                    hashes.insert(c.hash);
                    if samples.len() < 1 {
                        samples.push(i);
                    }
                }
                for (k, v) in &c.labels {
                    *labels.entry(k).or_insert(0) += v;
                }
                if let Err(e) = r {
                    fail = Some((i, e));
                    break;
                }
            }
            let mut out = String::new();
            let _ = writeln!(out, "ev {ev}");
            for (k, v) in labels {
                let _ = writeln!(out, "label {v} {k}");
            }
            for i in samples {
                let _ = writeln!(out, "sample {i}");
            }
            // (a lower bound when there are more)
            for h in hashes.into_iter().take(if thorough { 4000 } else { 40000 }) {
                let _ = writeln!(out, "h {h}");
            }
            if let Some((i, e)) = &fail {
                let _ = writeln!(out, "fail {i} {}", e.replace('\n', " | "));
            }
            std::fs::write(&args[5], out).unwrap();
            std::process::exit(if fail.is_some() { 10 } else { 0 })
        }
        Some("one") | Some("replay") => {
            limits(true);
            quiet_panics(true);
            let s = subs.iter().find(|s| s.name == args[2]).expect("unknown sub-check");
            let mut c = if args[1] == "one" {
                let mut c = Case::new(Mode::Gen(Rng::new(case_seed(seed, s.name, args[3].parse().unwrap()))));
                if let Some(f) = args.get(4) {
                    c.rec = Some(std::fs::File::create(f).unwrap());
                }
                c
            } else {
                let t = std::fs::read_to_string(&args[3]).unwrap();
                // replay files carry the choices on lines that are plain numbers
                Case::new(Mode::Replay(t.lines().filter_map(|l| l.trim().parse().ok()).collect(), 0))
            };
            c.thorough = thorough;
            c.verbose = true;
            let r = run_case(s.f, &mut c);
            for l in &c.log {
                println!("  {l}");
            }
            match r {
                Ok(()) => {
                    println!("PASS");
                    std::process::exit(0)
                }
                Err(e) => {
                    println!("FAIL {}", e.replace('\n', " | "));
                    std::process::exit(10)
                }
            }
        }
        Some("probe") => {
            limits(true);
            quiet_panics(true);
            let p = probes.iter().find(|p| p.id == args[2]).expect("unknown probe");
            match catch(p.f).unwrap_or_else(Err) {
                Ok(()) => std::process::exit(0),
                Err(e) => {
                    println!("FAIL {}", e.replace('\n', " | "));
                    std::process::exit(10)
                }
            }
        }
        Some("list") => {
            for s in subs {
                println!("{} {} {}", s.name, s.quick, s.thorough);
            }
            std::process::exit(0)
        }
        _ => parent(prop, rule, subs, probes, seed, thorough),
    }
}

fn exit_desc(st: &std::process::ExitStatus) -> String {
    match st.signal() {
        Some(s) if s == libc::SIGXCPU => format!("did not finish within {CPU_S} s of processor time"),
        Some(s) => format!("killed by signal {s}"),
        None => format!("exit status {}", st.code().unwrap_or(-1)),
    }
}
enum RunOut {
    Ok,
    Fail(String),
    Timeout,
}
fn run_with_timeout(cmd: &mut Command, secs: u64) -> (RunOut, String) {
    let mut ch = cmd.stdout(Stdio::piped()).stderr(Stdio::piped()).stdin(Stdio::null()).spawn().expect("spawn");
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let t2 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break Some(st);
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 20 { 300 } else { 3000 }));
    };
    let (so, se) = (t1.join().unwrap(), t2.join().unwrap());
    match st {
        None => (RunOut::Timeout, so),
        Some(st) if st.code() == Some(0) => (RunOut::Ok, so),
        Some(st) if st.code() == Some(10) => {
            let m = so.lines().rev().find_map(|l| l.strip_prefix("FAIL ")).unwrap_or("?").to_string();
            (RunOut::Fail(m), so)
        }
        Some(st) => {
            let tail: Vec<&str> = se.lines().rev().take(6).collect();
            let tail: Vec<&str> = tail.into_iter().rev().collect();
            (RunOut::Fail(format!("crash: {} ({})", exit_desc(&st), tail.join(" | "))), so)
        }
    }
}

fn shrink(exe: &Path, sub: &str, mut best: Vec<u64>, dir: &Path) -> Vec<u64> {
    let budget = Instant::now();
    let mut runs = 0;
    let f = dir.join("shrink.txt");
    let mut fails = |v: &[u64]| -> bool {
        runs += 1;
        if runs > 1500 || budget.elapsed() > Duration::from_secs(25) {
            return false;
        }
        let s: String = v.iter().map(|x| format!("{x}\n")).collect();
        std::fs::write(&f, s).unwrap();
        matches!(
            run_with_timeout(Command::new(exe).args(["replay", sub]).arg(&f), 10).0,
            RunOut::Fail(_)
        )
    };
    if !fails(&best) {
        return best;
    }
    loop {
        let before = best.clone();
        // cut the tail
        let mut n = best.len();
        while n > 0 {
            let step = (n / 2).max(1);
            let mut cut = false;
            if best.len() > step {
                let c = best[..best.len() - step].to_vec();
                if fails(&c) {
                    best = c;
                    cut = true;
                }
            }
            if !cut {
                n /= 2;
            }
            n = n.min(best.len());
        }
        for k in [64usize, 16, 8, 5, 4, 3, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + k);
                if fails(&c) {
                    best = c;
                } else {
                    i += 1.max(k / 2);
                }
            }
        }
        for i in 0..best.len() {
            for cand in [0, 1, best[i] / 2, best[i].saturating_sub(1)] {
                if cand < best[i] {
                    let mut c = best.clone();
                    c[i] = cand;
                    if fails(&c) {
                        best = c;
                        break;
                    }
                }
            }
        }
        if best == before || budget.elapsed() > Duration::from_secs(25) {
            return best;
        }
    }
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}
/// Lines of known-findings.txt for this property: (kind, id, text) with kind "known" or "fixed".
fn known(prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("").trim_start_matches("property=");
            let id = it.next().unwrap_or("").trim_start_matches("id=");
            let text = it.next().unwrap_or("");
            if p == prop {
                v.push((id.to_string(), text.to_string()));
            }
        }
    }
    v
}

fn parent(prop: &str, rule: &str, subs: &[Sub], probes: &[Probe], seed: u64, thorough: bool) -> ! {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("vph-{prop}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let scale: f64 = std::env::var("VPH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VPH_ONLY").ok();

    // --- known findings
    let kf = known(prop);
    let mut violation: Option<(String, String, Vec<u64>)> = None; // (sub, message, choices)
    let mut probe_n = 0u64;
    for p in probes {
        probe_n += 1;
        let (r, _) = run_with_timeout(Command::new(&exe).args(["probe", p.id]), 60);
        match r {
            RunOut::Ok => {}
            RunOut::Timeout => {
                println!("ERROR: probe {} timed out", p.id);
                std::process::exit(2)
            }
            RunOut::Fail(m) => {
                if let Some((_, text)) = kf.iter().find(|k| k.0 == p.id) {
                    println!("KNOWN-FINDING: property={prop} {} {}", p.id, text);
                } else if violation.is_none() {
                    violation = Some((format!("probe:{}", p.id), m, vec![]));
                }
            }
        }
    }

    // --- generated search
    struct Job {
        sub: usize,
        start: u64,
        end: u64,
    }
    let mut jobs = vec![];
    for (si, s) in subs.iter().enumerate() {
        if only.as_ref().map_or(false, |o| !o.split(',').any(|x| x == s.name)) {
            continue;
        }
        let n = (((if thorough { s.thorough } else { s.quick }) as f64) * scale).ceil() as u64;
        let chunk = (n / 32).max(1).min(20000).max(n / 256);
        let mut a = 0;
        while a < n {
            jobs.push(Job { sub: si, start: a, end: (a + chunk).min(n) });
            a += chunk;
        }
    }
    // interleave sub-checks so that every one starts early
    jobs.sort_by_key(|j| (j.start, j.sub));
    #[derive(Default)]
    struct Acc {
        ev: BTreeMap<usize, u64>,
        labels: BTreeMap<String, u64>,
        hashes: HashSet<u64>,
        samples: Vec<(usize, u64)>,
        fails: Vec<(usize, u64, String)>,
        error: Option<String>,
        hung: Vec<(usize, u64)>,
    }
    let acc = Mutex::new(Acc::default());
    let next = std::sync::atomic::AtomicUsize::new(0);
    let stop = AtomicBool::new(violation.is_some());
    let hang_s: u64 = if thorough { 120 } else { 60 };
    std::thread::scope(|sc| {
        for w in 0..8 {
            let (jobs, acc, next, stop, exe, dir) = (&jobs, &acc, &next, &stop, &exe, &dir);
            sc.spawn(move || loop {
                let j = next.fetch_add(1, Ordering::Relaxed);
                if j >= jobs.len() || stop.load(Ordering::Relaxed) {
                    return;
                }
                let job = &jobs[j];
                let s = &subs[job.sub];
                let out = dir.join(format!("out{w}"));
                let pos = dir.join(format!("pos{w}"));
                let _ = std::fs::remove_file(&out);
                let err = std::fs::File::create(dir.join(format!("err{w}"))).unwrap();
                let mut ch = Command::new(exe)
                    .args(["child", s.name, &job.start.to_string(), &job.end.to_string()])
                    .arg(&out)
                    .arg(&pos)
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(err)
                    .spawn()
                    .expect("spawn");
                let rd = |p: &Path| std::fs::read(p).ok().and_then(|v| v.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())));
                let mut last = (None, Instant::now());
                let mut n = 0u32;
                let st = loop {
                    if let Some(st) = ch.try_wait().unwrap() {
                        break Some(st);
                    }
                    n += 1;
                    std::thread::sleep(Duration::from_millis(if n < 50 { 1 } else { 10 }));
                    if n % 100 == 0 {
                        let p = rd(&pos);
                        if p != last.0 {
                            last = (p, Instant::now());
                        }
                        if last.1.elapsed() > Duration::from_secs(hang_s) {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            break None;
                        }
                        if stop.load(Ordering::Relaxed) {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            return;
                        }
                    }
                };
                let mut a = acc.lock().unwrap();
                let Some(st) = st else {
                    // decided below, by running the case alone under a processor-time limit
                    a.hung.push((job.sub, last.0.unwrap_or(job.start)));
                    stop.store(true, Ordering::Relaxed);
                    return;
                };
                let parse = |a: &mut Acc, txt: &str| {
                    for l in txt.lines() {
                        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
                        match k {
                            "ev" => *a.ev.entry(job.sub).or_insert(0) += r.parse::<u64>().unwrap(),
                            "label" => {
                                let (v, n) = r.split_once(' ').unwrap();
                                *a.labels.entry(format!("{}/{}", s.name, n)).or_insert(0) += v.parse::<u64>().unwrap();
                            }
                            "sample" => a.samples.push((job.sub, r.parse().unwrap())),
                            "h" => {
                                a.hashes.insert(mix(r.parse().unwrap(), job.sub as u64));
                            }
                            "fail" => {
                                let (i, m) = r.split_once(' ').unwrap();
                                a.fails.push((job.sub, i.parse().unwrap(), m.to_string()));
                            }
                            _ => {}
                        }
                    }
                };
                match st.code() {
                    Some(0) | Some(10) => {
                        let txt = std::fs::read_to_string(&out).unwrap();
                        parse(&mut a, &txt);
                        if st.code() == Some(10) {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    _ => {
                        let i = rd(&pos);
                        if st.signal() == Some(libc::SIGKILL) || i.is_none() {
                            a.error = Some(format!("{}: child {}", s.name, exit_desc(&st)));
                        } else {
                            let e = std::fs::read_to_string(dir.join(format!("err{w}"))).unwrap_or_default();
                            a.fails.push((job.sub, i.unwrap(), format!("crash: {} {}", exit_desc(&st), e.replace('\n', " | "))));
                            *a.ev.entry(job.sub).or_insert(0) += i.unwrap() - job.start + 1;
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    let mut a = acc.into_inner().unwrap();
    for (si, idx) in std::mem::take(&mut a.hung) {
        match run_with_timeout(Command::new(&exe).args(["one", subs[si].name, &idx.to_string()]), 120).0 {
            RunOut::Fail(m) => a.fails.push((si, idx, m)),
            _ => a.error = Some(format!("{}: case {idx} was stuck, but not alone", subs[si].name)),
        }
    }
    a.fails.sort();
    let mut fail_log = String::new();
    if violation.is_none() {
        if let Some((si, idx, msg)) = a.fails.first() {
            let s = &subs[*si];
            let rec = dir.join("rec.txt");
            let (r, _) = run_with_timeout(Command::new(&exe).args(["one", s.name, &idx.to_string()]).arg(&rec), 60);
            let choices: Vec<u64> = std::fs::read_to_string(&rec).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();
            let mut msg = msg.clone();
            let mut ch = choices;
            if let RunOut::Fail(_) = r {
                ch = shrink(&exe, s.name, ch, &dir);
            }
            let f = dir.join("final.txt");
            std::fs::write(&f, ch.iter().map(|x| format!("{x}\n")).collect::<String>()).unwrap();
            let (r, so) = run_with_timeout(Command::new(&exe).args(["replay", s.name]).arg(&f), 60);
            if let RunOut::Fail(m) = r {
                msg = m;
                fail_log = so;
            }
            violation = Some((s.name.to_string(), msg, ch));
        }
    }
    if violation.is_none() {
        if let Some(e) = a.error {
            println!("ERROR property={prop}: {e}");
            let _ = std::fs::remove_dir_all(&dir);
            std::process::exit(2);
        }
    }
    // --- samples
    let mut samples = vec![];
    let mut seen = BTreeMap::new();
    a.samples.sort();
    for (si, idx) in &a.samples {
        let n = seen.entry(*si).or_insert(0);
        if *n >= (6 / subs.len()).max(1) || samples.len() >= 12 || violation.is_some() {
            continue;
        }
        *n += 1;
        let (_, so) = run_with_timeout(Command::new(&exe).args(["one", subs[*si].name, &idx.to_string()]), 60);
        let lines: Vec<&str> = so.lines().take(30).map(|l| l.trim()).collect();
        samples.push(format!("{} case {}: {}", subs[*si].name, idx, lines.join("; ").chars().take(1500).collect::<String>()));
    }
    let ev: u64 = a.ev.values().sum::<u64>() + probe_n;
    let per: Vec<String> = a.ev.iter().map(|(i, n)| format!("{}: {}", json_str(subs[*i].name), n)).collect();
    let labels: Vec<String> = a.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let js = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"known_finding_probes\": {},\n  \"per_subcheck\": {{{}}},\n  \"labels\": {{{}}},\n  \"notes\": {},\n  \"samples\": [{}]\n }},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        json_str(prop),
        json_str(if thorough { "thorough" } else { "quick" }),
        seed,
        ev,
        a.hashes.len(),
        json_str(rule),
        probe_n,
        per.join(", "),
        labels.join(", "),
        json_str(&NOTE.lock().unwrap()),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   "),
        t0.elapsed().as_secs_f64(),
        violation.is_some() as u32
    );
    let evd = std::env::var_os("VPH_EVIDENCE").map(PathBuf::from).unwrap_or_else(|| verif_dir().join("evidence").join(format!("{prop}.json")));
    if let Some(p) = evd.parent() {
        let _ = std::fs::create_dir_all(p);
    }
    std::fs::write(&evd, js).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    if let Some((sub, msg, ch)) = violation {
        let rd = verif_dir().join("replays");
        std::fs::create_dir_all(&rd).unwrap();
        let rp = rd.join(format!("{prop}.replay"));
        let mut t = format!("# property {prop}, sub-check {sub}\n# {msg}\n# re-run: {} replay {sub} {}\n# decoded case:\n", exe.display(), rp.display());
        for l in fail_log.lines() {
            let _ = writeln!(t, "#{l}");
        }
        for c in &ch {
            let _ = writeln!(t, "{c}");
        }
        std::fs::write(&rp, t).unwrap();
        println!("{prop}/{sub}: {}", msg.chars().take(600).collect::<String>());
        println!("VIOLATION property={prop} replay={}", rp.display());
        std::process::exit(1);
    }
    println!("{prop}: {} cases, {} distinct non-trivial, {:.1}s, no violation", ev, a.hashes.len(), t0.elapsed().as_secs_f64());
    std::process::exit(0)
}
