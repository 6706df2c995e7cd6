//! Replays inputs against the real code (public API of /repo) and compares it with
//! executable versions of the specifications in /verif/contracts.
//!
//! replay check PROP --seed N --ms N --out FILE   search for a failing input
//! replay run FILE                                run one recorded input
mod dict;
mod misc;
mod pgs;
mod vob;

use std::collections::HashSet;
use std::panic;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A generator of pseudo-random numbers; in its second mode it gives literals of the
/// program text, and values around them, now and then.
pub struct Rng(u64, bool);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03, false);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { (self.next() >> 11) % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn byte(&mut self) -> u8 {
        if self.1 && self.below(16) == 0 {
            if let Some(v) = self.literal(255) {
                return v as u8;
            }
        }
        (self.next() >> 24) as u8
    }
    /// Literals of the program text are mixed in from now on.
    pub fn with_literals(mut self) -> Self {
        self.1 = true;
        self
    }
    /// An integer of the program text, or one next to it.
    pub fn literal(&mut self, max: u64) -> Option<u64> {
        for _ in 0..8 {
            let k = self.next() >> 11;
            match dict::get().pick(k) {
                Some(dict::Lit::Int(v)) => {
                    let v = match self.below(6) {
                        0 => v.wrapping_sub(1),
                        1 => v.wrapping_add(1),
                        _ => *v,
                    };
                    if v <= max {
                        return Some(v);
                    }
                }
                Some(dict::Lit::Text(t)) if t.len() == 1 && u64::from(t[0]) <= max => return Some(u64::from(t[0])),
                _ => {}
            }
        }
        None
    }
    /// Puts a literal somewhere into a case, over what is there or in between.
    pub fn splice(&mut self, case: &mut Vec<u8>) {
        let k = self.next() >> 11;
        let mut b = match dict::get().pick(k) {
            Some(dict::Lit::Text(t)) => t.clone(),
            Some(dict::Lit::Int(v)) if self.below(8) == 0 => v.to_string().into_bytes(),
            Some(dict::Lit::Int(v)) => {
                let v = match self.below(6) {
                    0 => v.wrapping_sub(1),
                    1 => v.wrapping_add(1),
                    _ => *v,
                };
                let least = (8 - v.leading_zeros() as usize / 8).max(1);
                let n = (least + self.below(3) as usize).min(8);
                let mut b = v.to_be_bytes()[8 - n..].to_vec();
                if self.below(4) == 0 {
                    b.reverse();
                }
                b
            }
            None => return,
        };
        let starts: Vec<usize> = (0..case.len()).filter(|i| case[*i] == b'\n').map(|i| i + 1).collect();
        let at = if !starts.is_empty() && self.below(2) == 0 { self.pick(&starts) } else { self.below(case.len() as u64 + 1) as usize };
        if self.below(4) == 0 {
            b.push(b'\n');
        }
        let end = if self.below(2) == 0 { at } else { (at + b.len()).min(case.len()) };
        case.splice(at..end, b);
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    /// small values often, any value sometimes
    pub fn small(&mut self, max: u64) -> u64 {
        if self.1 && self.below(4) == 0 {
            if let Some(v) = self.literal(max) {
                return v;
            }
        }
        match self.below(4) {
            0 => self.below(3.min(max + 1)),
            1 => self.below(10.min(max + 1)),
            2 => self.below(100.min(max + 1)),
            _ => self.below(max + 1),
        }
    }
}

/// Outcome of one case: Ok(true) non-trivial, Ok(false) trivial, Err(what is wrong).
pub type Outcome = Result<bool, String>;

pub trait Prop: Sync + Send {
    /// The i-th case; None: the case space is exhausted.
    fn gen(&self, i: u64, rng: &mut Rng) -> Option<Vec<u8>>;
    fn check(&self, case: &[u8]) -> Outcome;
    fn rule(&self) -> &'static str;
    fn shrink(&self) -> bool {
        true
    }
    /// Long cases, with n repetitions of something where the format leaves room for that many.
    fn large(&self, _n: usize) -> Vec<Vec<u8>> {
        vec![]
    }
}

fn get(prop: &str) -> Option<Box<dyn Prop>> {
    pgs::get(prop).or_else(|| vob::get(prop)).or_else(|| misc::get(prop))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

thread_local!(static LOGGING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

/// A logger that formats everything it is given and throws it away, for one case in eight:
/// the arguments of log macros are code of the program too.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::io::Write as _;
        if LOGGING.with(std::cell::Cell::get) {
            let _ = write!(std::io::sink(), "{}", r.args());
        }
    }
    fn flush(&self) {}
}

pub fn guarded(p: &dyn Prop, case: &[u8]) -> Outcome {
    // a message about a long input can be as long as the input
    LOGGING.with(|l| l.set(h64(case) % 8 == 0 && case.len() < 10_000));
    match panic::catch_unwind(panic::AssertUnwindSafe(|| p.check(case))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn write_replay(out: &str, prop: &str, case: &[u8], msg: &str) {
    let t = format!("property={prop}\ninput={}\nmessage={}\n", hex(case), msg.replace('\n', " | "));
    std::fs::write(out, t).unwrap();
}

fn shrink(p: &dyn Prop, mut case: Vec<u8>, mut msg: String) -> (Vec<u8>, String) {
    let t0 = Instant::now();
    let lim = Duration::from_secs(8);
    let mut chunk = (case.len() / 2).max(1);
    while t0.elapsed() < lim {
        let mut changed = false;
        let mut i = 0;
        while i + chunk <= case.len() && t0.elapsed() < lim {
            let mut c = case.clone();
            c.drain(i..i + chunk);
            if let Err(m) = guarded(p, &c) {
                case = c;
                msg = m;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !changed {
            break;
        }
        if !changed {
            chunk = (chunk / 2).max(1);
        }
    }
    (case, msg)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|_| {}));
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Trace);
    match args.get(1).map(String::as_str) {
        Some("run") => {
            let t = std::fs::read_to_string(&args[2]).unwrap();
            let f = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
            let prop = f("property=");
            let case = unhex(&f("input="));
            let p = get(&prop).expect("property");
            let r = run_limited(p, &case);
            match r {
                Ok(_) => println!("property {prop} holds on this input"),
                Err(m) => {
                    println!("property {prop} fails on this input: {m}");
                    std::process::exit(1);
                }
            }
        }
        Some("check") => {
            let prop = args[2].clone();
            let opt = |k: &str, d: &str| {
                args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string())
            };
            let seed: u64 = opt("--seed", "1").parse().unwrap();
            let ms: u64 = opt("--ms", "10000").parse().unwrap();
            let threads: usize = opt("--threads", "6").parse().unwrap();
            let out = opt("--out", "/dev/null");
            let record = args.iter().any(|a| a == "--record");
            search(&prop, seed, ms, threads, &out, record);
        }
        Some("large") => {
            let p = get(&args[2]).expect("property");
            for c in p.large(args.get(3).map_or(40_000, |n| n.parse().unwrap())) {
                let t0 = Instant::now();
                println!("{} bytes: {:?} in {:?}", c.len(), guarded(&*p, &c), t0.elapsed());
            }
        }
        Some("literals") => print!("{}", dict::listing()),
        _ => {
            eprintln!("usage");
            std::process::exit(2)
        }
    }
}

fn run_limited(p: Box<dyn Prop>, case: &[u8]) -> Outcome {
    let (tx, rx) = std::sync::mpsc::channel();
    let case = case.to_vec();
    std::thread::spawn(move || {
        let _ = tx.send(guarded(&*p, &case));
    });
    rx.recv_timeout(Duration::from_secs(20)).unwrap_or(Err("does not terminate (20 s)".into()))
}

struct Shared {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    fail: Option<(Vec<u8>, String)>,
    current: Vec<Option<(Instant, Vec<u8>)>>,
    next: u64,
    exhausted: bool,
}

fn h64(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= u64::from(*x);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// How a run in a process of its own ended: None if the property holds (or nothing can be said).
fn run_apart(file: &str) -> Option<String> {
    use std::os::unix::process::ExitStatusExt as _;
    let own = std::env::current_exe().ok()?;
    let plain = own.parent()?.parent()?.join("plain/replay");
    let mut c = std::process::Command::new(if plain.exists() { plain } else { own })
        .args(["run", file])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    let st = loop {
        match c.try_wait().ok()? {
            Some(st) => break st,
            None if t0.elapsed() > Duration::from_secs(40) => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            None => std::thread::sleep(Duration::from_millis(10)),
        }
    };
    let mut o = String::new();
    if let Some(mut p) = c.stdout.take() {
        use std::io::Read as _;
        let _ = p.read_to_string(&mut o);
    }
    match (st.code(), st.signal()) {
        (Some(1), _) if !o.contains("does not terminate") => {
            let m = o.split_once("on this input: ").map_or("", |(_, m)| m).trim();
            Some(m.chars().take(500).collect())
        }
        (None, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => Some(format!("the process is killed by signal {s} (stack overflow or abort)")),
        _ => None,
    }
}

/// The kind of a scripted failure: any but those with a meaning of their own to the readers of std.
pub fn kind(n: usize) -> std::io::ErrorKind {
    use std::io::ErrorKind as K;
    [K::Other, K::WouldBlock, K::PermissionDenied, K::TimedOut, K::BrokenPipe, K::NotFound, K::InvalidData, K::InvalidInput, K::ConnectionReset, K::OutOfMemory, K::WriteZero, K::Unsupported, K::AlreadyExists, K::StorageFull][n % 14]
}

/// Long cases, each in a process of its own, on a stack of the size Rust gives a thread.
/// The items as a user gets them other than one by one: an iterator may answer these calls by
/// code of its own, and every one of them stands for the same sequence of items.
pub fn ways<I: Iterator, K: PartialEq + std::fmt::Debug>(
    it: I,
    all: &[K],
    key: impl Fn(I::Item) -> K,
    salt: u64,
) -> Result<(), String> {
    let n = all.len();
    let k = (salt / 16) as usize % (n + 2);
    let at = |k: usize| all.get(k);
    let (what, ok) = match salt % 10 {
        0 => (format!("nth({k})"), { let mut it = it; let g = it.nth(k).map(&key); let h = it.next().map(&key);
            g.as_ref() == at(k) && (k >= n || h.as_ref() == at(k + 1)) }),
        1 => (format!("skip({k})"), it.skip(k).map(&key).collect::<Vec<_>>()[..] == all[k.min(n)..]),
        2 => { let s = 1 + (salt / 16) as usize % 5; (format!("step_by({s})"), it.step_by(s).map(&key).collect::<Vec<_>>().iter().eq(all.iter().step_by(s))) }
        3 => ("count".into(), it.count() == n),
        4 => ("last".into(), it.last().map(&key).as_ref() == all.last()),
        5 => ("fold".into(), { let (m, ok) = it.fold((0, true), |(m, ok), x| (m + 1, ok && at(m) == Some(&key(x)))); ok && m == n }),
        6 => ("collect".into(), it.map(&key).collect::<Vec<_>>() == all),
        7 => ("find".into(), { let mut m = 0; let mut it = it; let mut ok = true;
            let _ = it.find(|_| { m += 1; m > k }).map(|x| ok = at(k) == Some(&key(x))); ok && m == n.min(k + 1) && (k >= n || it.next().map(&key).as_ref() == at(k + 1)) }),
        8 => ("for_each".into(), { let (mut m, mut ok) = (0, true); it.for_each(|x| { ok &= at(m) == Some(&key(x)); m += 1 }); ok && m == n }),
        _ => (format!("take({k})"), { let k = k.min(n); let mut it = it; let a: Vec<K> = it.by_ref().take(k).map(&key).collect(); a[..] == all[..k.min(n)] && it.map(&key).collect::<Vec<_>>()[..] == all[k.min(n)..] }),
    };
    if ok { Ok(()) } else { Err(format!("by `{what}` the items are other than the {n} of one call of next after the other")) }
}
fn search_large(p: &dyn Prop, prop: &str, out: &str) -> (u64, Option<(Vec<u8>, String)>) {
    let mut n = 0;
    let mut sizes = vec![40_000, 70_000];
    sizes.extend(dict::get().new_sizes().map(|v| v + 2));
    let file = format!("{out}.large");
    for s in sizes {
        for case in p.large(s) {
            write_replay(&file, prop, &case, "");
            n += 1;
            if let Some(m) = run_apart(&file) {
                let _ = std::fs::remove_file(&file);
                return (n, Some((case, m)));
            }
        }
    }
    let _ = std::fs::remove_file(&file);
    (n, None)
}

fn search(prop: &str, seed: u64, ms: u64, threads: usize, out: &str, record: bool) {
    let p: Arc<Box<dyn Prop>> = Arc::new(get(prop).expect("unknown property"));
    let t0 = Instant::now();
    let sh = Arc::new(Mutex::new(Shared {
        evals: 0,
        nontrivial: 0,
        distinct: HashSet::new(),
        samples: vec![],
        fail: None,
        current: vec![None; threads],
        next: 0,
        exhausted: false,
    }));
    let mut hs = vec![];
    let large = Arc::new(Mutex::new(0));
    if out != "/dev/null" && !record {
        let (p, sh, large) = (p.clone(), sh.clone(), large.clone());
        let (prop, out) = (prop.to_string(), out.to_string());
        hs.push(std::thread::spawn(move || {
            let (n, fail) = search_large(&**p, &prop, &out);
            *large.lock().unwrap() = n;
            let mut s = sh.lock().unwrap();
            s.evals += n;
            if s.fail.is_none() {
                s.fail = fail;
            }
        }));
    }
    for t in 0..threads {
        let p = p.clone();
        let sh = sh.clone();
        let (prop, out) = (prop.to_string(), out.to_string());
        hs.push(std::thread::spawn(move || loop {
            let lo = {
                let mut s = sh.lock().unwrap();
                if s.fail.is_some() || s.exhausted || t0.elapsed().as_millis() as u64 > ms {
                    return;
                }
                let n = s.next;
                s.next += 64;
                n
            };
            for i in lo..lo + 64 {
                let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
                // one case in eight, or in two if the program has new literals, is built with them
                let lit = i % 8 == 7 || i % 2 == 1 && dict::get().has_new();
                if lit {
                    rng = rng.with_literals();
                }
                let Some(case) = p.gen(i, &mut rng) else {
                    sh.lock().unwrap().exhausted = true;
                    break;
                };
                let mut cases = vec![case];
                if lit && p.shrink() {
                    let mut c = cases[0].clone();
                    for _ in 0..=rng.below(3) {
                        rng.splice(&mut c);
                    }
                    cases.push(c);
                }
                for case in cases {
                if record {
                    write_replay(&format!("{out}.{t}"), &prop, &case, "");
                }
                sh.lock().unwrap().current[t] = Some((Instant::now(), case.clone()));
                let r = guarded(&**p, &case);
                let mut s = sh.lock().unwrap();
                s.current[t] = None;
                s.evals += 1;
                match r {
                    Ok(nt) => {
                        if nt {
                            s.nontrivial += 1;
                            if s.distinct.len() < 4_000_000 {
                                s.distinct.insert(h64(&case));
                            }
                            if s.samples.len() < 5 && (i % 97 == 0 || s.samples.is_empty()) {
                                let mut h = hex(&case);
                                h.truncate(400);
                                s.samples.push(h);
                            }
                        }
                    }
                    Err(m) => {
                        if s.fail.is_none() {
                            s.fail = Some((case, m));
                        }
                        return;
                    }
                }
                }
            }
        }));
    }
    // watchdog
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if hs.iter().all(std::thread::JoinHandle::is_finished) {
            break;
        }
        let s = sh.lock().unwrap();
        let stuck = s
            .current
            .iter()
            .flatten()
            .find(|(t, _)| t.elapsed() > Duration::from_secs(20))
            .map(|(_, c)| c.clone());
        if let Some(c) = stuck {
            let msg = "does not terminate (20 s)";
            write_replay(out, prop, &c, msg);
            println!(
                "{{\"violation\": true, \"message\": \"{msg}\", \"evaluations\": {}, \"distinct\": {}, \"samples\": []}}",
                s.evals,
                s.distinct.len()
            );
            std::process::exit(1);
        }
    }
    let s = sh.lock().unwrap();
    let samples: Vec<String> = s.samples.iter().map(|x| format!("\"{x}\"")).collect();
    let stats = format!(
        "\"large_cases\": {}, \"evaluations\": {}, \"nontrivial\": {}, \"distinct\": {}, \"exhausted\": {}, \"rule\": \"{}\", \"samples\": [{}], \"wall_ms\": {}",
        large.lock().unwrap(),
        s.evals,
        s.nontrivial,
        s.distinct.len(),
        s.exhausted,
        esc(p.rule()),
        samples.join(", "),
        t0.elapsed().as_millis()
    );
    if let Some((c, m)) = s.fail.clone() {
        drop(s);
        write_replay(out, prop, &c, &m);
        let (c, m) = if p.shrink() && !m.contains("terminate") && c.len() < 20_000 { shrink(&**p, c, m) } else { (c, m) };
        write_replay(out, prop, &c, &m);
        println!("{{\"violation\": true, \"message\": \"{}\", {stats}}}", esc(&m));
        std::process::exit(1);
    }
    println!("{{\"violation\": false, {stats}}}");
}
