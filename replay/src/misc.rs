//! C17 .. C24: times, text output, areas, idx files, thresholds, probing, dumping.
use crate::{Outcome, Prop, Rng};
use image::{GrayImage, ImageBuffer, Luma, LumaA, Rgb, Rgba};
use std::fmt::{self, Write as _};
use std::io::{self, BufReader, Read};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use subtile::content::{Area, AreaValues};
use subtile::image::{dump_images, luma_a_to_luma, luma_a_to_luma_convertor, DumpError, ImageArea, ImageSize};
use subtile::srt::{self, TimePointSrt};
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::{self, Index, TimePointIdx, VobSubError};
use subtile::webvtt::{self, TimePointVtt};
use subtile::SubtileError;

pub fn get(p: &str) -> Option<Box<dyn Prop>> {
    Some(match p {
        "C17" => Box::new(C17),
        "C18" => Box::new(C18),
        "C19" => Box::new(C19),
        "C20" => Box::new(C20),
        "C21" => Box::new(C21),
        "C22" => Box::new(C22),
        "C23" => Box::new(C23),
        "C24" => Box::new(C24),
        _ => return None,
    })
}

/// Reads a case; zeros once it is exhausted.
pub struct Cur<'a>(pub &'a [u8], pub usize);
impl<'a> Cur<'a> {
    pub fn new(c: &'a [u8]) -> Self {
        Cur(c, 0)
    }
    pub fn u8(&mut self) -> u8 {
        let r = self.0.get(self.1).copied().unwrap_or(0);
        self.1 += 1;
        r
    }
    pub fn u16(&mut self) -> u16 {
        u16::from_be_bytes([self.u8(), self.u8()])
    }
    pub fn i64(&mut self) -> i64 {
        let mut b = [0; 8];
        for x in &mut b {
            *x = self.u8();
        }
        i64::from_be_bytes(b)
    }
    #[allow(dead_code)]
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        let a = self.1.min(self.0.len());
        let b = (a + n).min(self.0.len());
        self.1 = a + n;
        &self.0[a..b]
    }
    pub fn rest(&mut self) -> &'a [u8] {
        &self.0[self.1.min(self.0.len())..]
    }
    pub fn done(&self) -> bool {
        self.1 >= self.0.len()
    }
}

pub fn show<T: fmt::Debug>(x: T) -> String {
    let mut s = format!("{x:?}");
    if s.len() > 300 {
        let mut n = 300;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("..");
    }
    s
}
#[macro_export]
macro_rules! expect {
    ($what:expr, $got:expr, $want:expr) => {
        match (&$got, &$want) {
            (g, w) => {
                if *g != *w {
                    return Err(format!("{}: got {}, expected {}", $what, show(g), show(w)));
                }
            }
        }
    };
}

static DIRS: AtomicU64 = AtomicU64::new(0);
/// A scratch directory, removed when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let base = if Path::new("/dev/shm").is_dir() && std::fs::metadata("/dev/shm").is_ok_and(|m| !m.permissions().readonly()) {
            PathBuf::from("/dev/shm")
        } else {
            std::env::temp_dir()
        };
        let d = base.join(format!("vx-replay-{}-{}", std::process::id(), DIRS.fetch_add(1, Ordering::Relaxed)));
        if std::fs::create_dir(&d).is_err() {
            let d = std::env::temp_dir().join(d.file_name().unwrap());
            std::fs::create_dir(&d).unwrap();
            return Scratch(d);
        }
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325, |h: u64, x| (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3))
}
/// A file name in `dir`: what a file is called must not matter. `h` selects it.
pub fn name_in(dir: &Path, h: u64) -> PathBuf {
    use std::ffi::OsString;
    use std::os::unix::ffi::OsStringExt;
    const NAMES: [&[u8]; 26] = [
        b"x", b"x.idx", b"x.sub", b"x.sup", b"x.IDX", b"x.SUB", b"X.SUP", b"x.srt", b"x.txt", b"x.bak", b"x.tmp", b"x.gz", b"x.tar.gz", b".x", b"..x", b"x.", b"-x", b"~x",
        b"a b.idx", b"\xc3\xa9\xe6\xbc\xa2.sub", b"x\xff.idx", b"\xe9.sub", b"\xe9t\xe9.sup", b"000000.png", b"x\ny", b"*?[x]",
    ];
    let (h, k) = (h >> 3, h & 7);
    let name = match k {
        0..=2 => b"x.bin".to_vec(),
        3..=5 => NAMES[(h % NAMES.len() as u64) as usize].to_vec(),
        6 => {
            let l = vec![b'n'; 1 + (h % 240) as usize];
            if h % 3 == 0 { [&l[..], b".idx"].concat() } else { l }
        }
        _ => {
            let new = crate::dict::get().new_names();
            if new.is_empty() {
                b"x.subtitle".to_vec()
            } else {
                let n = new[(h % new.len() as u64) as usize];
                match h / 64 % 4 {
                    0 if n != b"." && n != b".." => n.to_vec(),
                    1 => [b"x.", n].concat(),
                    2 => [b"x", n].concat(),
                    _ => [n, b"x"].concat(),
                }
            }
        }
    };
    let name = OsString::from_vec(name);
    match (h >> 20) % 16 {
        0 => dir.join("..").join(dir.file_name().unwrap()).join(name),
        1 => dir.join(".").join(name),
        2 => {
            // through a symbolic link to the folder
            let link = dir.join("link.d");
            let _ = std::os::unix::fs::symlink(dir, &link);
            link.join(name)
        }
        _ => dir.join(name),
    }
}

// ------------------------------------------------------------------ times

const UNITS: [u64; 10] = [1, 10, 100, 1000, 10_000, 60_000, 600_000, 3_600_000, 36_000_000, 360_000_000];
fn gen_ms(i: u64, r: &mut Rng) -> i64 {
    let edge = [i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 0, -1, 1, -999, -1000, -1001];
    if (i as usize) < edge.len() {
        return edge[i as usize];
    }
    let m: i128 = match r.below(6) {
        0 => {
            let u = r.pick(&UNITS);
            i128::from(u) * i128::from(r.small(100)) + i128::from(r.below(5)) - 2
        }
        1 => i128::from(r.below(100 * 3_600_000)),
        2 => i128::from(r.below(1 << 33)),
        3 => i128::from(r.next() >> r.below(64)),
        4 => i128::from(r.small(70)) * 3_600_000 + i128::from(r.small(60)) * 60_000 + i128::from(r.small(60)) * 1000 + i128::from(r.small(999)),
        _ => i128::from(r.next() as i64),
    };
    let m = m.clamp(i128::from(i64::MIN), i128::from(i64::MAX));
    (if r.chance(1, 3) { m.saturating_neg() } else { m }).clamp(i128::from(i64::MIN), i128::from(i64::MAX)) as i64
}
fn time_text(ms: i64, sep: char) -> String {
    let m = ms.unsigned_abs();
    let neg = if ms < 0 { "-" } else { "" };
    format!("{neg}{:02}:{:02}:{:02}{sep}{:03}", m / 3_600_000, m / 60_000 % 60, m / 1000 % 60, m % 1000)
}
const SEPS: [char; 8] = [',', '.', ':', ';', ' ', '0', '\u{20ac}', '\u{1f600}'];
struct Sep(TimePoint, char);
impl fmt::Display for Sep {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt_separator(f, self.1)
    }
}
/// accepts n bytes, then fails
struct Limited(String, usize);
impl fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.chars() {
            if self.0.len() + c.len_utf8() > self.1 {
                return Err(fmt::Error);
            }
            self.0.push(c);
        }
        Ok(())
    }
}

struct C17;
impl Prop for C17 {
    fn rule(&self) -> &'static str {
        "a 64-bit value and a separator, rendered by fmt_separator and by the three Display wrappers, and through a formatter that fails after n bytes; every case is non-trivial"
    }
    fn gen(&self, i: u64, r: &mut Rng) -> Option<Vec<u8>> {
        let mut c = gen_ms(i, r).to_be_bytes().to_vec();
        c.push(r.byte());
        c.push(r.below(24) as u8);
        Some(c)
    }
    fn check(&self, case: &[u8]) -> Outcome {
        let mut c = Cur::new(case);
        let ms = c.i64();
        let sep = SEPS[c.u8() as usize % SEPS.len()];
        let lim = c.u8() as usize;
        let t = TimePoint::from_msecs(ms);
        expect!("msecs", t.msecs(), ms);
        expect!("fmt_separator", format!("{}", Sep(t, sep)), time_text(ms, sep));
        expect!("TimePointSrt", format!("{}", TimePointSrt::from(t)), time_text(ms, ','));
        expect!("TimePointVtt", format!("{}", TimePointVtt::from(t)), time_text(ms, '.'));
        expect!("TimePointIdx", format!("{}", TimePointIdx::from(t)), time_text(ms, ':'));
        if ms != i64::MIN {
            expect!("negation", (-t).msecs(), -ms);
        }
        // exact up to 2^53, relative error 2^-51 above
        let secs = t.to_secs();
        if (secs * 1000.0 - ms as f64).abs() > (ms as f64).abs() / 1e15 {
            return Err(format!("to_secs of {ms} is {secs}"));
        }
        let mut w = Limited(String::new(), lim);
        let r = write!(w, "{}", Sep(t, sep));
        let want = time_text(ms, sep);
        expect!("failing formatter reported", r.is_err(), want.len() > lim);
        if !want.starts_with(&w.0) {
            return Err(format!("failing formatter received {:?} of {want:?}", w.0));
        }
        Ok(true)
    }
}

// ------------------------------------------------------------------ srt / vtt

struct Sink {
    got: Vec<u8>,
    room: usize,
    short: usize,
    tick: usize,
    interrupts: bool,
}
impl Sink {
    fn full(&self) -> io::ErrorKind {
        crate::kind(self.room)
    }
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.tick += 1;
        if self.interrupts && self.tick % 3 == 1 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let room = self.room - self.got.len();
        if room == 0 && !b.is_empty() {
            return match self.full() {
                io::ErrorKind::WriteZero => Ok(0),
                k => Err(io::Error::new(k, "scripted")),
            };
        }
        let k = b.len().min(room).min(if self.short == 0 { usize::MAX } else { 1 + (self.tick * 5) % self.short });
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct C18;
const TEXTS: [&str; 14] = [
    "", "Hello", "two\nlines", "trailing\n", "\n", "{}", "{text}", "a --> b", "1", "\u{e9}t\u{e9} \u{20ac} \u{1f600}", "tab\tand \"quotes\"", "  spaced  ",
    "\r\n", "%s {{}} \\n",
];
impl Prop for C18 {
    fn rule(&self) -> &'static str {
        "0 to 40 subtitles (times, texts with line breaks, unicode, braces), written as SubRip and as WebVTT cues to writers that take everything, take short writes, are interrupted, or fail after n bytes; non-trivial: at least one subtitle"
    }
    fn gen(&self, i: u64, r: &mut Rng) -> Option<Vec<u8>> {
        let n = if i % 50 == 49 { r.below(2500) } else { r.small(40) };
        let mut c = vec![r.below(4) as u8, r.byte(), r.byte(), r.byte()];
        for k in 0..n {
            c.extend(gen_ms(20 + k, r).to_be_bytes());
            c.extend(gen_ms(20 + k, r).to_be_bytes());
            c.push(r.byte());
        }
        Some(c)
    }
    fn large(&self, n: usize) -> Vec<Vec<u8>> {
        let mut r = Rng::new(n as u64);
        let mut c = vec![0; 4];
        for k in 0..n.clamp(70_000, 200_000) as u64 {
            c.extend(gen_ms(20 + k, &mut r).to_be_bytes());
            c.extend(gen_ms(20 + k, &mut r).to_be_bytes());
            c.push((k % 200) as u8);
        }
        vec![c]
    }
    fn check(&self, case: &[u8]) -> Outcome {
        let mut c = Cur::new(case);
        let mode = c.u8();
        let short = c.u8();
        let room = c.u16() as usize;
        let mut subs = vec![];
        while !c.done() {
            let (a, b, t) = (c.i64(), c.i64(), c.u8());
            let mut text = TEXTS[t as usize % TEXTS.len()].to_string();
            if t > 200 {
                text = text.repeat(1 << ((t as usize - 200) / 5));
            }
            subs.push((TimeSpan::new(TimePoint::from_msecs(a), TimePoint::from_msecs(b)), text));
        }
        let mk = || Sink {
            got: vec![],
            room: if mode & 1 == 1 { room } else { usize::MAX },
            short: short as usize % 17,
            tick: 0,
            interrupts: mode & 2 == 2,
        };
        let mut want = String::new();
        for (k, (t, x)) in subs.iter().enumerate() {
            write!(want, "{}\n{} --> {}\n{x}\n\n", k + 1, time_text(t.start.msecs(), ','), time_text(t.end.msecs(), ',')).unwrap();
        }
        let verdict = |what: &str, r: io::Result<()>, w: Sink, want: &str| {
            if r.is_ok() != (want.len() <= w.room) {
                return Err(format!("{what}: result {r:?} with room {} for {} bytes", w.room, want.len()));
            }
            if let Err(e) = &r {
                if e.kind() != w.full() {
                    return Err(format!("{what}: the writer's error is not the one returned: {e:?}"));
                }
            }
            let n = want.len().min(w.room);
            if w.got != want.as_bytes()[..n] {
                return Err(format!(
                    "{what}: wrote {} expected {}",
                    show(String::from_utf8_lossy(&w.got)),
                    show(String::from_utf8_lossy(&want.as_bytes()[..n]))
                ));
            }
            Ok(())
        };
        let mut w = mk();
        let r = srt::write_srt(&mut w, &subs);
        verdict("write_srt", r, w, &want)?;
        for (k, (t, x)) in subs.iter().enumerate().take(20) {
            let idx = if k % 3 == 2 { usize::MAX - k } else { k * 7 };
            let mut w = mk();
            let r = srt::write_line(&mut w, idx, t, x);
            let want = format!("{idx}\n{} --> {}\n{x}\n\n", time_text(t.start.msecs(), ','), time_text(t.end.msecs(), ','));
            verdict("srt::write_line", r, w, &want)?;
            let mut w = mk();
            let r = webvtt::write_line(&mut w, t, x);
            let want = format!("{} --> {}\n{x}\n\n", time_text(t.start.msecs(), '.'), time_text(t.end.msecs(), '.'));
            verdict("webvtt::write_line", r, w, &want)?;
        }
        Ok(!subs.is_empty())
    }
}

// ------------------------------------------------------------------ areas

struct C19;
struct HasArea(Area);
impl ImageArea for HasArea {
    fn area(&self) -> Area {
        self.0
    }
}
impl Prop for C19 {
    fn rule(&self) -> &'static str {
        "four 16-bit coordinates, near each other or near the ends of the range; every case is non-trivial"
    }
    fn gen(&self, _: u64, r: &mut Rng) -> Option<Vec<u8>> {
        let mut c = vec![];
        let mut pair = |c: &mut Vec<u8>| {
            let a = match r.below(4) {
                0 => r.small(300) as u16,
                1 => (65535 - r.small(300)) as u16,
                _ => r.byte() as u16 * 256 + r.byte() as u16,
            };
            let b = match r.below(4) {
                0 => a,
                1 => a.wrapping_add(r.small(4) as u16),
                2 => a.wrapping_sub(r.small(4) as u16),
                _ => r.byte() as u16 * 256 + r.byte() as u16,
            };
            (a, b, c.len())
        };
        let (x1, x2, _) = pair(&mut c);
        let (y1, y2, _) = pair(&mut c);
        for v in [x1, y1, x2, y2] {
            c.extend(v.to_be_bytes());
        }
        Some(c)
    }
    fn check(&self, case: &[u8]) -> Outcome {
        let mut c = Cur::new(case);
        let (x1, y1, x2, y2) = (c.u16(), c.u16(), c.u16(), c.u16());
        let w = i64::from(x2) - i64::from(x1) + 1;
        let h = i64::from(y2) - i64::from(y1) + 1;
        let r = Area::try_from(AreaValues { x1, y1, x2, y2 });
        if w < 2 || h < 2 {
            if r.is_ok() {
                return Err(format!("({x1},{y1})-({x2},{y2}) is accepted"));
            }
            return Ok(true);
        }
        // extents of 65536 do not fit in the type of the geometry: may be rejected
        let Ok(a) = r else {
            if w > 65535 || h > 65535 {
                return Ok(true);
            }
            return Err(format!("({x1},{y1})-({x2},{y2}) is rejected"));
        };
        expect!("left", a.left(), x1);
        expect!("top", a.top(), y1);
        expect!("width", i64::from(a.width()), w);
        expect!("height", i64::from(a.height()), h);
        expect!("size.w", a.size().w as i64, w);
        expect!("size.h", a.size().h as i64, h);
        expect!("ImageSize::width", i64::from(ImageSize::width(&HasArea(a))), w);
        expect!("ImageSize::height", i64::from(ImageSize::height(&HasArea(a))), h);
        Ok(true)
    }
}

// ------------------------------------------------------------------ palette of the idx file

type Pal = [[u8; 3]; 16];
fn ref_palette(t: &[u8]) -> Option<Pal> {
    let mut p = [[0; 3]; 16];
    if t.len() != 16 * 6 + 15 * 2 {
        return None;
    }
    for k in 0..16 {
        let o = k * 8;
        for j in 0..3 {
            let hx = |b: u8| (b as char).to_digit(16);
            p[k][j] = (hx(t[o + 2 * j])? * 16 + hx(t[o + 2 * j + 1])?) as u8;
        }
        if k < 15 && &t[o + 6..o + 8] != b", " {
            return None;
        }
    }
    Some(p)
}
fn gen_palette(r: &mut Rng, mutate: bool) -> Vec<u8> {
    let n = if mutate && r.chance(1, 3) { r.pick(&[0u64, 1, 14, 15, 17, 18, 32]) } else { 16 };
    let mut t = vec![];
    for k in 0..n {
        if k > 0 {
            t.extend(b", ");
        }
        let v = r.next() & 0xff_ffff;
        let up = format!("{v:06X}");
        let lo = format!("{v:06x}");
        match r.below(3) {
            0 => t.extend(up.bytes()),
            1 => t.extend(lo.bytes()),
            _ => t.extend(up.bytes().zip(lo.bytes()).enumerate().map(|(i, (a, b))| if i % 2 == 0 { a } else { b })),
        }
    }
    if mutate {
        for _ in 0..r.below(3) {
            let alphabet = b"0123456789abcdefABCDEF, ,,  gG;:#+-x/@`\t\xff\x00";
            let b = alphabet[r.below(alphabet.len() as u64) as usize];
            let at = r.below(t.len() as u64 + 1) as usize;
            match r.below(4) {
                0 if at < t.len() => t[at] = b,
                1 => t.insert(at, b),
                2 if at < t.len() => {
                    t.remove(at);
                }
                _ if at < t.len() && r.chance(1, 4) => {
                    // mis-shaped separator or colour, overall length kept
                    t.remove(at);
                    t.push(b);
                }
                _ => {}
            }
        }
        if r.chance(1, 12) {
            let k = r.pick(&[1u64, 2, 6, 8]) as usize;
            t.extend(b", 0a1b2c, "[..].iter().take(k));
        }
    }
    t
}
fn to_pal(p: &[Rgb<u8>]) -> Vec<[u8; 3]> {
    p.iter().map(|c| c.0).collect()
}
struct C20;
impl Prop for C20 {
    fn rule(&self) -> &'static str {
        "a palette text, valid or with another number of colours, altered, missing or added characters; parsed directly and through an idx line; non-trivial: at least 100 bytes long"
    }
    fn gen(&self, i: u64, r: &mut Rng) -> Option<Vec<u8>> {
        Some(gen_palette(r, i % 4 != 0))
    }
    fn large(&self, n: usize) -> Vec<Vec<u8>> {
        let n = n.min(100_000);
        let mut a = b"0a1b2c".to_vec();
        a.extend(b", 0a1b2c".repeat(n));
        let mut b = b"0a1b2c".to_vec();
        b.extend(b", 0a1b2c".repeat(15));
        let mut d = b.clone();
        d.extend(b" ".repeat(n));
        d.push(b'x');
        vec![a, d, b]
    }
    fn check(&self, t: &[u8]) -> Outcome {
        let want = ref_palette(t);
        let got = vobsub::palette(t).ok().filter(|(rest, _)| rest.is_empty()).map(|(_, p)| to_pal(&p));
        expect!(format!("palette of {}", show(String::from_utf8_lossy(t))), got, want.map(|p| p.to_vec()));
        if !t.contains(&b'\n') && std::str::from_utf8(t).is_ok_and(|s| !s.trim_end().is_empty() && s.trim_end() == s) {
            let mut line = b"palette: ".to_vec();
            line.extend(t);
            let mk = |source| VobSubError::Io { source, path: PathBuf::new() };
            let got = Index::read_index(BufReader::new(&line[..]), &mk).ok().map(|i| to_pal(i.palette()));
            expect!("palette of an idx line", got, want.map(|p| p.to_vec()));
        }
        Ok(t.len() >= 100)
    }
}

// ------------------------------------------------------------------ idx files

const DEFAULT: Pal = [
    [0x00, 0x00, 0x00], [0xf0, 0xf0, 0xf0], [0xcc, 0xcc, 0xcc], [0x99, 0x99, 0x99],
    [0x33, 0x33, 0xfa], [0x11, 0x11, 0xbb], [0xfa, 0x33, 0x33], [0xbb, 0x11, 0x11],
    [0x33, 0xfa, 0x33], [0x11, 0xbb, 0x11], [0xfa, 0xfa, 0x33], [0xbb, 0xbb, 0x11],
    [0xfa, 0x33, 0xfa], [0xbb, 0x11, 0xbb], [0x33, 0xfa, 0xfa], [0x11, 0xbb, 0xbb],
];
struct Slow {
    d: Vec<u8>,
    p: usize,
    n: usize,
    fail: Option<usize>,
    int: bool,
}
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.int = !self.int;
        if self.n % 2 == 1 && self.int {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.fail.is_some_and(|f| self.p >= f) {
            return Err(io::Error::new(crate::kind(self.p + self.d.len()), "scripted"));
        }
        let mut k = b.len().min(self.d.len() - self.p).min(self.n.max(1));
        if let Some(f) = self.fail {
            k = k.min(f - self.p);
        }
        b[..k].copy_from_slice(&self.d[self.p..self.p + k]);
        self.p += k;
        Ok(k)
    }
}
fn ref_index(t: &[u8], fail: Option<usize>) -> Option<(Vec<[u8; 3]>, Option<String>)> {
    if fail.is_some_and(|f| f <= t.len()) {
        return None;
    }
    let t = std::str::from_utf8(t).ok()?;
    let mut pal = None;
    let mut lang = None;
    for line in t.split('\n') {
        let line = line.trim_end();
        let Some(k) = line.find(':') else { continue };
        let (key, val) = line.split_at(k);
        let Some(val) = val.strip_prefix(": ") else { continue };
        if key.is_empty() || !key.bytes().all(|c| c.is_ascii_alphabetic() || c == b'/' || c == b' ') {
            continue;
        }
        if key == "palette" {
            pal = Some(ref_palette(val.as_bytes())?);
        } else if key == "id" {
            let n = val.bytes().take_while(u8::is_ascii_lowercase).count();
            lang = (n > 0 && val[n..].starts_with(", index: ")).then(|| val[..n].to_string());
        }
    }
    Some((pal.unwrap_or(DEFAULT).to_vec(), lang))
}
struct C21;
impl Prop for C21 {
    fn rule(&self) -> &'static str {
        "0 to 15 lines out of palette lines (mostly valid), id lines, other keys, comments, near-miss keys, junk, in any order, with LF or CRLF ends or none at the end of the file, read in chunks, with io errors or invalid UTF-8 now and then; non-trivial: the reference sees a palette or id line"
    }
    fn gen(&self, _: u64, r: &mut Rng) -> Option<Vec<u8>> {
        let mut c = vec![r.byte(), 0, 0, r.byte()];
        let mut t: Vec<u8> = vec![];
        let n = r.small(15);
        let bad = r.chance(1, 8);
        for k in 0..n {
            match r.below(14) {
                0 | 1 => {
                    t.extend(b"palette: ");
                    let b = bad && r.chance(1, 2);
                    t.extend(gen_palette(r, b));
                }
                2 | 3 => {
                    let id = r.pick(&["en", "fr", "de", "x", "zz", "eng"]);
                    t.extend(format!("id: {id}, index: {}", r.below(5)).bytes());
                }
                4 => t.extend(
                    r.pick(&["id: EN, index: 0", "id: en, index:", "id: , index: 0", "id: en index: 1", "id: en", "id: --, index: 2", "id: e1, index: 0", "id: en,  index: 1", "id:  en, index: 0"])
                        .bytes(),
                ),
                5 => t.extend(r.pick(&["size: 1920x1080", "org: 0, 0", "langidx: 0", "forced subs: OFF", "custom colors: OFF, tridx: 1000, colors: 000000", "time offset: 0"]).bytes()),
                6 => t.extend(r.pick(&["# VobSub index file, v7 (do not modify this line!)", "", "#", "# palette: 000000", "#id: xx, index: 3"]).bytes()),
                7 => t.extend(format!("timestamp: 00:00:{:02}:285, filepos: {:09x}", r.below(60), r.below(4096)).bytes()),
                8 => {
                    t.extend(r.pick(&[" palette: ", "Palette: ", "palettes: ", "palette : ", "palette:", "palette=", "x/palette: ", "pal: ", "palette1: "]).bytes());
                    t.extend(gen_palette(r, false));
                }
                9 => t.extend(r.pick(&[" id: de, index: 3", "ID: de, index: 3", "id : de, index: 0", "id:de, index: 0", "xid: de, index: 0", "alt: id: de, index: 0"]).bytes()),
                10 => t.extend(r.pick(&["alt: English: id", ":", ": ", ": id: fr, index: 0", "\u{e9}: palette", "id", "palette", "palette: "]).bytes()),
                11 => {
                    let n = r.small(600) as usize;
                    t.extend(std::iter::repeat(b'a').take(n));
                }
                12 => {
                    let n = r.below(12);
                    for _ in 0..n {
                        t.push(r.pick(b"abi d:,palet\r\t/#0"));
                    }
                }
                _ => t.extend(b"id: en, index: 0"),
            }
            if r.chance(1, 300) {
                t.push(0xff);
            }
            if r.chance(1, 5) {
                t.extend(r.pick(&[&b" "[..], b"\t", b"  \t ", b"\x0b", b"\xc2\xa0", b"\xe3\x80\x80"]));
            }
            if k + 1 < n || r.chance(2, 3) {
                t.extend(if r.chance(1, 3) { &b"\r\n"[..] } else { &b"\n"[..] });
            }
        }
        if r.chance(1, 12) {
            let f = r.below(t.len() as u64 + 2) as u16 + 1;
            c[1..3].copy_from_slice(&f.to_be_bytes());
        }
        c.extend(t);
        Some(c)
    }
    fn large(&self, n: usize) -> Vec<Vec<u8>> {
        let n = n.min(100_000);
        let mut keys = b"id: fr, index: 0\npalette: 0a1b2c".to_vec();
        keys.extend(b", 0a1b2c".repeat(14));
        keys.extend(b", 010203\n");
        let mut v = vec![];
        let id = b"id: en, index: 1\n".to_vec();
        for line in ["\n", "timestamp: 00:00:01:285, filepos: 000000000\n", "# noise\n", "id: en, index: 0\n", "x\r\n"] {
            v.push([line.as_bytes().repeat(n), keys.clone()].concat());
        }
        let mut pal = keys[17..].to_vec();
        pal.splice(9..15, b"ffeedd".iter().copied());
        v.push([pal.repeat(n.min(2000)), keys.clone()].concat());
        // long lines
        v.push([id.clone(), vec![b'a'; n], b": b\n".to_vec(), keys.clone()].concat());
        v.push([id.clone(), b"x: ".to_vec(), vec![b'a'; n], b"\n".to_vec(), keys.clone()].concat());
        v.push([keys.clone(), b"id: ".to_vec(), vec![b'a'; n], b", index: 0\n".to_vec()].concat());
        v.push([keys.clone(), vec![b' '; n], b"id: en, index: 0".to_vec()].concat());
        let n = keys.len() - 1;
        v.push([id, keys[..n].to_vec(), vec![b' '; 5000], b"\r\n".to_vec()].concat());
        v.into_iter().map(|t| [vec![254, 0, 0, 200], t].concat()).collect()
    }
    fn check(&self, case: &[u8]) -> Outcome {
        let mut c = Cur::new(case);
        let n = c.u8() as usize;
        let fail = c.u16() as usize;
        let fail = if fail == 0 { None } else { Some(fail - 1) };
        let cap = 1 + c.u8() as usize * 2;
        let t = c.rest().to_vec();
        let want = ref_index(&t, fail);
        let nontrivial = want.as_ref().is_none_or(|(p, l)| p[..] != DEFAULT[..] || l.is_some());
        let mk = |source| VobSubError::Io { source, path: PathBuf::from("x.idx") };
        let rd = BufReader::with_capacity(cap, Slow { d: t.clone(), p: 0, n, fail, int: false });
        let h = hash(case);
        let got = if fail.is_none() && h % 8 == 0 {
            // through a real file
            let d = Scratch::new();
            let f = name_in(&d.0, h >> 3);
            if h % 256 == 8 {
                expect!("index of a missing file is read", Index::open(&f).is_ok(), false);
            }
            std::fs::write(&f, &t).map_err(|e| format!("scratch file: {e}"))?;
            Index::open(&f)
        } else {
            Index::read_index(rd, &mk)
        };
        let got = got.ok().map(|i| (to_pal(i.palette()), i.lang().as_ref().map(|l| l.lang().to_string())));
        expect!(format!("index of {}", show(String::from_utf8_lossy(&t))), got, want);
        Ok(nontrivial)
    }
}

// ------------------------------------------------------------------ thresholds

struct C22;
macro_rules! consts {
    ($i:expr, $px:expr, $P:ty; $(($a:literal, $l:literal)),*) => {{
        let mut k = 0usize;
        let mut out = None;
        $(
            if k == $i {
                let own: Luma<$P> = luma_a_to_luma::<LumaA<$P>, $P, $a, $l>($px);
                let rf: Luma<$P> = luma_a_to_luma::<&LumaA<$P>, $P, $a, $l>(&$px);
                out = Some(($a as u8, $l as u8, own.0[0], rf.0[0]));
            }
            k += 1;
        )*
        let _ = k;
        out.unwrap()
    }};
}
macro_rules! all_consts {
    ($i:expr, $px:expr, $P:ty) => {
        consts!($i, $px, $P; (0,0),(0,1),(1,0),(1,1),(0,255),(255,0),(255,255),(128,128),(127,129),(1,255),(255,1),(254,254),(30,200),(200,30),(100,0),(0,100))
    };
}
const NCONST: usize = 16;
impl Prop for C22 {
    fn rule(&self) -> &'static str {
        "a pixel type (u8 to u64, usize, i16 to i64, f32, f64: with fractions, negative values, infinities and NaN), a luminance-alpha pixel and thresholds (16 pairs at compile time, any at run time), mostly equal to or next to the thresholds; every case is non-trivial"
    }
    fn gen(&self, i: u64, r: &mut Rng) -> Option<Vec<u8>> {
        let mut c = vec![(i % 10) as u8, r.below(NCONST as u64) as u8, r.below(3) as u8];
        for _ in 0..4 {
            match r.below(8) {
                0 => c.extend(f64::from(r.byte() as i8).to_be_bytes()),
                1 => c.extend([f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 0.5, f64::MIN_POSITIVE, f64::MAX][r.below(8) as usize].to_be_bytes()),
                2 => c.extend(r.below(256).to_be_bytes()),
                3 => c.extend(r.below(65536).to_be_bytes()),
                _ => c.extend(r.bytes(8)),
            }
        }
        c.push(r.below(4) as u8);
        c.push(r.below(4) as u8);
        Some(c)
    }
    fn check(&self, case: &[u8]) -> Outcome {
        macro_rules! run {
            ($P:ty, $conv:expr, $any:expr, $one:expr, $min:expr, $max:expr, $c:expr) => {{
                let any = $any;
                let mut c = $c;
                let k = c.u8() as usize % NCONST;
                let wide = c.u8() == 0;
                let conv = $conv;
                let raw = [any(c.i64() as u64), any(c.i64() as u64), any(c.i64() as u64), any(c.i64() as u64)];
                let (da, dl) = (c.u8(), c.u8());
                let low = da.wrapping_mul(31).wrapping_add(dl.wrapping_mul(77)).wrapping_add(k as u8 * 16);
                let near = |t: $P, d: u8, v: $P| -> $P {
                    let one: $P = $one;
                    match d {
                        0 => t,
                        1 if t < $max => t + one,
                        2 if t > $min => t - one,
                        _ => v,
                    }
                };
                // compile-time thresholds
                let probe = LumaA::<$P>([raw[0], raw[1]]);
                let (a, l, ..) = all_consts!(k, probe, $P);
                let px = LumaA::<$P>([
                    near(conv(u16::from(l)), dl, if wide { raw[0] } else { conv(u16::from(low)) }),
                    near(conv(u16::from(a)), da, if wide { raw[1] } else { conv(u16::from(!low)) }),
                ]);
                let (a, l, own, rf) = all_consts!(k, px, $P);
                let (at, lt) = (conv(u16::from(a)), conv(u16::from(l)));
                let want = if px[1] >= at && px[0] >= lt { $min } else { $max };
                expect!(format!("luma_a_to_luma::<{a}, {l}>({:?})", px), own, want);
                expect!(format!("luma_a_to_luma::<{a}, {l}>(&{:?})", px), rf, want);
                let f = luma_a_to_luma_convertor::<$P, LumaA<$P>>(at, lt);
                expect!("run-time variant with the same thresholds", f(px).0[0], want);
                // run-time thresholds
                let (at, lt) = (raw[2], raw[3]);
                let px = LumaA::<$P>([near(lt, dl, raw[0]), near(at, da, raw[1])]);
                let want = if px[1] >= at && px[0] >= lt { $min } else { $max };
                let f = luma_a_to_luma_convertor::<$P, LumaA<$P>>(at, lt);
                expect!(format!("convertor({at:?}, {lt:?})({:?})", px), f(px).0[0], want);
                expect!("second call", f(px).0[0], want);
                let f = luma_a_to_luma_convertor::<$P, &LumaA<$P>>(at, lt);
                expect!("by reference", f(&px).0[0], want);
                Ok(true)
            }};
        }
        let mut c = Cur::new(case);
        match c.u8() % 10 {
            0 => run!(u8, |v: u16| v as u8, |v: u64| v as u8, 1, u8::MIN, u8::MAX, c),
            1 => run!(u16, |v: u16| v, |v: u64| v as u16, 1, u16::MIN, u16::MAX, c),
            2 => run!(u32, u32::from, |v: u64| v as u32, 1, u32::MIN, u32::MAX, c),
            3 => run!(u64, u64::from, |v: u64| v, 1, u64::MIN, u64::MAX, c),
            4 => run!(usize, usize::from, |v: u64| v as usize, 1, usize::MIN, usize::MAX, c),
            5 => run!(i16, |v: u16| v as i16, |v: u64| v as i16, 1, i16::MIN, i16::MAX, c),
            6 => run!(i32, i32::from, |v: u64| v as i32, 1, i32::MIN, i32::MAX, c),
            7 => run!(i64, i64::from, |v: u64| v as i64, 1, i64::MIN, i64::MAX, c),
            8 => run!(f32, f32::from, |v: u64| f64::from_bits(v) as f32, 1.0, 0.0f32, 1.0f32, c),
            _ => run!(f64, f64::from, f64::from_bits, 1.0, 0.0f64, 1.0f64, c),
        }
    }
}

// ------------------------------------------------------------------ probing

const MAGIC_IDX: &[u8] = b"# VobSub index file";
const MAGIC_SUB: &[u8] = &[0, 0, 1, 0xba];
struct C23;
impl Prop for C23 {
    fn rule(&self) -> &'static str {
        "a file with one of the two magics, altered, shortened, extended or moved, or random bytes, or a directory or a missing file; every case is non-trivial"
    }
    fn gen(&self, _: u64, r: &mut Rng) -> Option<Vec<u8>> {
        let mut c = vec![if r.chance(1, 40) { r.below(3) as u8 } else { 0 }];
        let mut t = match r.below(6) {
            0 | 1 => MAGIC_IDX.to_vec(),
            2 | 3 => MAGIC_SUB.to_vec(),
            4 => {
                let n = r.small(40) as usize;
                r.bytes(n)
            }
            _ => {
                let n = r.small(3) as usize;
                let mut v = r.bytes(n);
                v.extend(if r.chance(1, 2) { MAGIC_IDX } else { MAGIC_SUB });
                v
            }
        };
        match r.below(5) {
            0 if !t.is_empty() => {
                let k = r.below(t.len() as u64) as usize;
                t[k] ^= 1 << r.below(8);
            }
            1 => {
                let k = r.below(t.len() as u64 + 1) as usize;
                t.truncate(k);
            }
            2 | 3 => {
                let n = r.small(40) as usize;
                t.extend(r.bytes(n));
            }
            _ => {}
        }
        c.extend(t);
        Some(c)
    }
    fn check(&self, case: &[u8]) -> Outcome {
        let mut c = Cur::new(case);
        let kind = c.u8();
        let t = c.rest();
        let d = Scratch::new();
        let f = name_in(&d.0, hash(case));
        match kind {
            1 => std::fs::create_dir(&f).unwrap(),
            2 => {}
            _ => std::fs::write(&f, t).unwrap(),
        }
        for (what, magic, got) in [
            ("is_idx_file", MAGIC_IDX, vobsub::is_idx_file(&f).ok()),
            ("is_sub_file", MAGIC_SUB, vobsub::is_sub_file(&f).ok()),
        ] {
            let want = if kind == 1 || kind == 2 || t.len() < magic.len() { None } else { Some(t.starts_with(magic)) };
            expect!(format!("{what} (kind {kind}) of {}", show(t)), got, want);
        }
        Ok(true)
    }
}

// ------------------------------------------------------------------ dumping

struct C24;
impl Prop for C24 {
    fn rule(&self) -> &'static str {
        "0 to 14, now and then up to 134, small images (grey, rgb or rgba), from lists and from iterators of unknown length, dumped in a fresh, nested or existing scratch folder, in which the k-th file may be impossible to create; read back and compared; non-trivial: at least one image"
    }
    fn gen(&self, _: u64, r: &mut Rng) -> Option<Vec<u8>> {
        let n = if r.chance(1, 20) { 15 + r.below(120) as u8 } else { r.below(15) as u8 };
        Some(vec![r.below(3) as u8, r.below(5) as u8, 0, n, 0, r.below(u64::from(n) + 4) as u8, r.byte(), r.byte()])
    }
    fn shrink(&self) -> bool {
        false
    }
    fn large(&self, n: usize) -> Vec<Vec<u8>> {
        let n = if n == 40_000 { 10_005 } else { n };
        if n > 20_000 {
            return vec![];
        }
        vec![vec![0, 2, (n >> 8) as u8, n as u8, 255, 254, 1, 2]]
    }
    fn check(&self, case: &[u8]) -> Outcome {
        let mut c = Cur::new(case);
        let (fmt, place, n, bad, a, b) = (c.u8(), c.u8(), c.u16() as usize, c.u16() as usize, c.u8(), c.u8());
        let mut r = Rng::new(u64::from(a) * 256 + u64::from(b));
        let sizes: Vec<(u32, u32)> = (0..n).map(|_| (1 + r.below(9) as u32, 1 + r.below(7) as u32)).collect();
        match fmt {
            0 => go(place, bad, sizes.iter().map(|&(w, h)| GrayImage::from_fn(w, h, |_, _| Luma([r.byte()]))).collect(), |i| i.to_luma8(), 1),
            1 => go(place, bad, sizes.iter().map(|&(w, h)| ImageBuffer::<Rgb<u8>, _>::from_fn(w, h, |_, _| Rgb([r.byte(), r.byte(), r.byte()]))).collect(), |i| i.to_rgb8(), 3),
            _ => go(place, bad, sizes.iter().map(|&(w, h)| ImageBuffer::<Rgba<u8>, _>::from_fn(w, h, |_, _| Rgba([r.byte(), r.byte(), r.byte(), r.byte()]))).collect(), |i| i.to_rgba8(), 4),
        }
    }
}
fn go<P>(place: u8, bad: usize, imgs: Vec<ImageBuffer<P, Vec<u8>>>, conv: fn(image::DynamicImage) -> ImageBuffer<P, Vec<u8>>, channels: u8) -> Outcome
where
    P: image::Pixel<Subpixel = u8> + image::PixelWithColorType + PartialEq + fmt::Debug,
{
    let s = Scratch::new();
    let dir = match place {
        0 => s.0.clone(),
        1 => {
            let d = name_in(&s.0, hash(&[place, bad as u8, imgs.len() as u8, imgs.first().map_or(0, |i| i.width() as u8)]));
            if d.to_str().is_some() { d } else { s.0.join("out") }
        }
        2 => s.0.join("a/b c/d"),
        _ => s.0.join("x"),
    };
    if place == 4 {
        std::fs::write(&dir, b"a file").unwrap();
    }
    let file = |k: usize| dir.join(format!("{k:06}.png"));
    let blocked = place == 3 && bad < imgs.len();
    if place == 3 {
        std::fs::create_dir(&dir).unwrap();
        std::fs::write(dir.join("other.txt"), b"kept").unwrap();
        std::fs::write(file(0), b"old").unwrap();
        if blocked {
            let _ = std::fs::remove_file(file(bad));
            std::fs::create_dir(file(bad)).unwrap();
        }
    }
    let to = dir.to_str().unwrap();
    // from a list, and from iterators that do not know how many they give
    let r = match (bad + imgs.len()) % 4 {
        0 => dump_images(to, imgs.iter()),
        1 => dump_images(to, imgs.clone()),
        2 => dump_images(to, imgs.iter().filter(|i| i.width() > 0)),
        _ => {
            let mut it = imgs.iter();
            dump_images(to, std::iter::from_fn(move || it.next()))
        }
    };
    if place == 4 {
        return match r {
            Err(SubtileError::ImageDump(DumpError::Folder { path, .. })) if path == dir => Ok(true),
            r => Err(format!("dump in a folder that cannot be created: {r:?}")),
        };
    }
    let done = if blocked { bad } else { imgs.len() };
    match (&r, blocked) {
        (Ok(()), false) => {}
        (Err(SubtileError::ImageDump(DumpError::DumpImage { filename, .. })), true) if *filename == file(bad) => {}
        _ => return Err(format!("dump of {} images, {} impossible: {r:?}", imgs.len(), if blocked { bad.to_string() } else { "none".into() })),
    }
    for (k, i) in imgs.iter().enumerate().take(done) {
        let got = image::open(file(k)).map_err(|e| format!("image {k}: {e}"))?;
        expect!(format!("channels of image {k}"), got.color().channel_count(), channels);
        let got = conv(got);
        if got != *i {
            return Err(format!("image {k} ({}x{}) is not the one dumped ({}x{})", got.width(), got.height(), i.width(), i.height()));
        }
    }
    let mut names: Vec<String> = std::fs::read_dir(&dir).map_err(|e| format!("folder: {e}"))?.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
    names.sort();
    let mut want: Vec<String> = (0..if blocked { done + 1 } else { done }).map(|k| format!("{k:06}.png")).collect();
    if place == 3 {
        want.push("other.txt".into());
        if imgs.is_empty() {
            want.push("000000.png".into());
        }
        if imgs.is_empty() && want.len() > 1 {
            want.sort();
        }
    }
    want.sort();
    expect!("files", names, want);
    Ok(!imgs.is_empty())
}
