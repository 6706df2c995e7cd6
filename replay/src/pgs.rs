//! PGS properties C01..C08.
//!
//! case = [mode, reader kind, reader parameter, stream...]
use crate::{Outcome, Prop, Rng};
use image::{Luma, LumaA, Rgb, Rgba};
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom};
use subtile::image::{ImageSize, ToImage, ToOcrImage, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsError, RleEncodedImage, RleToImage, SupParser};
use subtile::time::TimeSpan;

pub fn get(p: &str) -> Option<Box<dyn Prop>> {
    Some(match p {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" => Box::new(Pgs(p.to_string())),
        _ => return None,
    })
}

struct Pgs(String);

// ------------------------------------------------------------------ readers

/// A reader whose buffer holds at most `n` bytes at a time, in uneven chunks, and which
/// fails with an io error at `fail` if it is set.
struct Chunky {
    data: Vec<u8>,
    pos: u64,
    n: usize,
    fail: Option<u64>,
    interrupt: bool,
    noseek: bool,
}
impl Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.n % 2 == 1 && !self.interrupt {
            self.interrupt = true;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.interrupt = false;
        let b = self.fill_buf()?;
        let k = b.len().min(buf.len());
        buf[..k].copy_from_slice(&b[..k]);
        self.consume(k);
        Ok(k)
    }
}
impl BufRead for Chunky {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let p = (self.pos as usize).min(self.data.len());
        let mut e = (p + 1 + (p * 7 + 3) % self.n).min(self.data.len());
        if let Some(f) = self.fail {
            let f = f as usize;
            if p >= f {
                return Err(io::Error::new(crate::kind(f + self.data.len()), "scripted failure"));
            }
            e = e.min(f);
        }
        Ok(&self.data[p..e])
    }
    fn consume(&mut self, k: usize) {
        self.pos += k as u64;
    }
}
impl Seek for Chunky {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        if self.noseek {
            return Err(io::Error::new(crate::kind(self.pos as usize + self.data.len()), "scripted failure of seek"));
        }
        let n = match s {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::End(x) => self.data.len() as i64 + x,
            SeekFrom::Current(x) => self.pos as i64 + x,
        };
        if n < 0 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

// ------------------------------------------------------------------ reference

#[derive(Debug, Clone, PartialEq)]
enum E {
    Header, // bad magic or type
    MissingImage,
    MissingPalette,
    Ods,
    Pds,
    Other, // truncated content, io error
}
#[derive(Debug, Clone, PartialEq)]
struct Img {
    w: u16,
    h: u16,
    entries: Vec<[u8; 5]>,
    data: Vec<u8>,
}
type Item<T> = Result<T, E>;

struct Rd<'a> {
    d: &'a [u8],
    p: usize,
    fail: Option<usize>,
}
enum Hdr {
    End,
    Bad,
    Io,
    Seg(u32, u8, u16),
}
impl Rd<'_> {
    fn lim(&self) -> usize {
        self.fail.map_or(self.d.len(), |f| f.min(self.d.len()))
    }
    fn header(&mut self) -> Hdr {
        if self.p + 13 > self.lim() {
            if self.fail.is_some_and(|f| f < self.p + 13 && (f <= self.d.len())) {
                return Hdr::Io;
            }
            return Hdr::End;
        }
        let h = &self.d[self.p..self.p + 13];
        self.p += 13;
        if h[0] != 0x50 || h[1] != 0x47 || ![0x14, 0x15, 0x16, 0x17, 0x80].contains(&h[10]) {
            return Hdr::Bad;
        }
        let pts = u32::from_be_bytes([h[2], h[3], h[4], h[5]]);
        Hdr::Seg(pts, h[10], u16::from_be_bytes([h[11], h[12]]))
    }
}

/// `exact` is false from the point where the outcome is not specified any more.
struct Ref<T> {
    items: Vec<Item<T>>,
    exact: bool,
}

fn ref_time(d: &[u8], fail: Option<usize>) -> Ref<(i64, i64)> {
    let mut r = Rd { d, p: 0, fail };
    let mut items = vec![];
    let mut start = None;
    loop {
        match r.header() {
            Hdr::End => return Ref { items, exact: true },
            Hdr::Bad => {
                items.push(Err(E::Header));
                return Ref { items, exact: false };
            }
            Hdr::Io => {
                items.push(Err(E::Other));
                return Ref { items, exact: false };
            }
            Hdr::Seg(pts, 0x80, _) => {
                let t = i64::from(pts / 90);
                match start.take() {
                    None => start = Some(t),
                    Some(s) => items.push(Ok((s, t))),
                }
            }
            Hdr::Seg(_, _, n) => {
                if r.p + n as usize > r.lim() {
                    return Ref { items, exact: false }; // skipping beyond the end
                }
                r.p += n as usize;
            }
        }
    }
}

fn ref_image(d: &[u8]) -> Ref<(i64, i64, Img)> {
    let mut r = Rd { d, p: 0, fail: None };
    let mut items = vec![];
    macro_rules! bail {
        ($e:expr) => {{
            items.push(Err($e));
            return Ref { items, exact: false };
        }};
    }
    'sub: loop {
        let (mut start, mut pal, mut img): (Option<i64>, Option<Vec<[u8; 5]>>, Option<Img>) = (None, None, None);
        let mut part: Option<(u16, u16, Vec<u8>, usize)> = None;
        loop {
            match r.header() {
                Hdr::End => return Ref { items, exact: true },
                Hdr::Bad => bail!(E::Header),
                Hdr::Io => bail!(E::Other),
                Hdr::Seg(pts, 0x80, _) => {
                    let t = i64::from(pts / 90);
                    match start {
                        None => start = Some(t),
                        Some(s) => {
                            match img.take() {
                                None => items.push(Err(E::MissingImage)),
                                Some(i) => items.push(Ok((s, t, i))),
                            }
                            continue 'sub;
                        }
                    }
                }
                Hdr::Seg(_, ty, n) => {
                    let n = n as usize;
                    if r.p + n > d.len() {
                        if ty == 0x14 || ty == 0x15 {
                            bail!(E::Other)
                        }
                        return Ref { items, exact: false };
                    }
                    let s = &d[r.p..r.p + n];
                    r.p += n;
                    match ty {
                        0x14 => {
                            if n < 2 || (n - 2) % 5 != 0 {
                                bail!(E::Pds)
                            }
                            pal = Some(s[2..].chunks(5).map(|c| [c[0], c[1], c[2], c[3], c[4]]).collect());
                        }
                        0x15 => {
                            if n < 4 {
                                bail!(E::Ods)
                            }
                            let done;
                            match part.take() {
                                None => {
                                    if s[3] != 0x80 && s[3] != 0xc0 || n < 11 {
                                        bail!(E::Ods)
                                    }
                                    let len = (s[4] as usize) << 16 | (s[5] as usize) << 8 | s[6] as usize;
                                    let w = u16::from_be_bytes([s[7], s[8]]);
                                    let h = u16::from_be_bytes([s[9], s[10]]);
                                    let body = s[11..].to_vec();
                                    if len < 4 || body.len() > len - 4 || s[3] == 0xc0 && body.len() != len - 4 {
                                        bail!(E::Ods)
                                    }
                                    if s[3] == 0xc0 {
                                        done = Some((w, h, body));
                                    } else {
                                        part = Some((w, h, body, len - 4));
                                        done = None;
                                    }
                                }
                                Some((w, h, mut body, len)) => {
                                    if s[3] != 0x40 || body.len() + (n - 4) != len {
                                        bail!(E::Ods)
                                    }
                                    body.extend_from_slice(&s[4..]);
                                    done = Some((w, h, body));
                                }
                            }
                            if let Some((w, h, data)) = done {
                                match pal.take() {
                                    None => {
                                        items.push(Err(E::MissingPalette));
                                        continue 'sub;
                                    }
                                    Some(entries) => img = Some(Img { w, h, entries, data }),
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
}

fn ref_pixels(i: &Img) -> Vec<[u8; 2]> {
    let d = &i.data;
    let look = |c: u8| i.entries.iter().find(|e| e[0] == c).map_or([255, 0], |e| [e[1], e[4]]);
    let mut out = vec![];
    let mut p = 0;
    while p < d.len() {
        let b = d[p];
        p += 1;
        let (n, c) = if b != 0 {
            (1usize, b)
        } else {
            let Some(&f) = d.get(p) else { break };
            p += 1;
            if f == 0 {
                continue;
            }
            let mut n = (f & 0x3f) as usize;
            if f & 0x40 != 0 {
                let Some(&l) = d.get(p) else { break };
                p += 1;
                n = n << 8 | l as usize;
            }
            let mut c = 0;
            if f & 0x80 != 0 {
                let Some(&x) = d.get(p) else { break };
                p += 1;
                c = x;
            }
            (n, c)
        };
        for _ in 0..n {
            out.push(look(c));
        }
    }
    out
}

// ------------------------------------------------------------------ running the code

fn kind(e: &PgsError) -> E {
    match e {
        PgsError::SegmentPGMissing | PgsError::SegmentInvalidTypeCode { .. } => E::Header,
        PgsError::MissingImage => E::MissingImage,
        PgsError::MissingPalette => E::MissingPalette,
        PgsError::ODSParse(_) => E::Ods,
        PgsError::PDSParse(_) => E::Pds,
        _ => E::Other,
    }
}

fn run_time(d: &[u8], rk: u8, rp: u8, fail: Option<usize>) -> Result<Vec<Item<(i64, i64)>>, String> {
    let lim = d.len() + 2;
    fn go<R: BufRead + Seek>(p: SupParser<R, DecodeTimeOnly>, lim: usize) -> Result<Vec<Item<(i64, i64)>>, String> {
        let mut v = vec![];
        for i in p {
            v.push(i.map(|s: TimeSpan| (s.start.msecs(), s.end.msecs())).map_err(|e| kind(&e)));
            if v.len() > lim {
                return Err(format!("more than {lim} items from {} bytes", lim - 2));
            }
        }
        Ok(v)
    }
    if let Some(f) = fail {
        // after an io error the reader fails for ever: only look at the first items
        let mut v = vec![];
        let p: SupParser<_, DecodeTimeOnly> = SupParser::new(Chunky {
            data: d.to_vec(),
            pos: 0,
            n: 2 + rp as usize % 9,
            fail: Some(f as u64),
            interrupt: false,
            noseek: false,
        });
        for i in p {
            let bad = i.is_err();
            v.push(i.map(|s: TimeSpan| (s.start.msecs(), s.end.msecs())).map_err(|e| kind(&e)));
            if bad {
                break;
            }
        }
        return Ok(v);
    }
    match if rk >= 252 { 3 } else { rk % 3 } {
        3 => {
            // through a real file
            let s = crate::misc::Scratch::new();
            let p = crate::misc::name_in(&s.0, crate::misc::hash(d));
            std::fs::write(&p, d).map_err(|e| format!("scratch file: {e}"))?;
            let p = SupParser::<BufReader<std::fs::File>, _>::from_file(&p).map_err(|e| format!("from_file: {e:?}"))?;
            go(p, lim)
        }
        0 => go(SupParser::new(Cursor::new(d.to_vec())), lim),
        1 => go(SupParser::new(BufReader::with_capacity(1 + rp as usize, Cursor::new(d.to_vec()))), lim),
        _ => go(
            SupParser::new(Chunky { data: d.to_vec(), pos: 0, n: 1 + rp as usize % 40, fail: None, interrupt: false, noseek: false }),
            lim,
        ),
    }
}
fn run_image(d: &[u8], rk: u8, rp: u8) -> Result<Vec<Item<(i64, i64, RleEncodedImage)>>, String> {
    fn go<R: BufRead + Seek>(
        p: SupParser<R, DecodeTimeImage>,
        lim: usize,
    ) -> Result<Vec<Item<(i64, i64, RleEncodedImage)>>, String> {
        let mut v = vec![];
        for i in p {
            v.push(i.map(|(s, i)| (s.start.msecs(), s.end.msecs(), i)).map_err(|e| kind(&e)));
            if v.len() > lim {
                return Err(format!("more than {lim} items from {} bytes", lim - 2));
            }
        }
        Ok(v)
    }
    let lim = d.len() + 2;
    match if rk >= 252 { 3 } else { rk % 3 } {
        3 => {
            // through a real file
            let s = crate::misc::Scratch::new();
            let p = crate::misc::name_in(&s.0, crate::misc::hash(d));
            std::fs::write(&p, d).map_err(|e| format!("scratch file: {e}"))?;
            let p = SupParser::<BufReader<std::fs::File>, _>::from_file(&p).map_err(|e| format!("from_file: {e:?}"))?;
            go(p, lim)
        }
        0 => go(SupParser::new(Cursor::new(d.to_vec())), lim),
        1 => go(SupParser::new(BufReader::with_capacity(1 + rp as usize, Cursor::new(d.to_vec()))), lim),
        _ => go(
            SupParser::new(Chunky { data: d.to_vec(), pos: 0, n: 1 + rp as usize % 40, fail: None, interrupt: false, noseek: false }),
            lim,
        ),
    }
}

fn broken(d: &[u8], rp: u8, fail: Option<usize>) -> Chunky {
    Chunky {
        data: d.to_vec(),
        pos: 0,
        n: 2 + rp as usize % 9,
        fail: fail.map(|f| f as u64),
        interrupt: false,
        noseek: fail.is_none(),
    }
}

/// The items from a reader that fails at byte `fail` and beyond, or whose seek always fails:
/// what comes out is what a sound reader gives, up to the point of failure, then an error.
fn faulty<T: std::fmt::Debug, U>(
    want: &Ref<T>,
    got: impl Iterator<Item = Result<U, PgsError>>,
    must_fail: bool,
    same: impl Fn(&T, &U) -> Result<(), String>,
) -> Result<bool, String> {
    for (k, g) in got.enumerate() {
        match (want.items.get(k), g) {
            (Some(Ok(a)), Ok(b)) => same(a, &b).map_err(|m| format!("failing reader: item {k}: {m}"))?,
            (Some(Err(x)), Ok(_)) => return Err(format!("failing reader: item {k}: expected error {x:?}, got a subtitle")),
            (None, Ok(_)) if must_fail || want.exact => {
                return Err(format!("failing reader: item {k} is a subtitle after the point of failure"))
            }
            (Some(Ok(a)), Err(e)) if must_fail => {
                return Err(format!("failing reader: item {k}: got error {e:?} before the point of failure, expected {a:?}"))
            }
            (Some(Err(x @ (E::MissingImage | E::MissingPalette))), Err(e)) if kind(&e) == *x => {}
            _ => return Ok(true), // the failure, or nothing specified beyond
        }
    }
    if must_fail && (want.exact || !matches!(want.items.last(), Some(Err(_)))) {
        return Err("failing reader: the stream ends as if nothing had failed".into());
    }
    Ok(true)
}

fn compare<T: std::fmt::Debug, U>(
    r: &Ref<T>,
    got: &[Item<U>],
    same: impl Fn(&T, &U) -> Result<(), String>,
) -> Result<bool, String> {
    for (k, e) in r.items.iter().enumerate() {
        match (e, got.get(k)) {
            (e, None) => return Err(format!("item {k}: expected {}, got the end", show(e))),
            (Ok(a), Some(Ok(b))) => same(a, b).map_err(|m| format!("item {k}: {m}"))?,
            (Ok(_), Some(Err(x))) => return Err(format!("item {k}: expected a subtitle, got error {x:?}")),
            (Err(x), Some(Ok(_))) => return Err(format!("item {k}: expected error {x:?}, got a subtitle")),
            (Err(x), Some(Err(y))) => {
                let specific = [E::MissingImage, E::MissingPalette];
                if (specific.contains(x) || specific.contains(y)) && x != y {
                    return Err(format!("item {k}: expected error {x:?}, got error {y:?}"));
                }
            }
        }
    }
    if r.exact && got.len() > r.items.len() {
        return Err(format!("{} items, expected {}", got.len(), r.items.len()));
    }
    Ok(r.items.iter().any(Result::is_ok))
}
fn show<T: std::fmt::Debug>(e: &Item<T>) -> String {
    let mut s = format!("{e:?}");
    s.truncate(200);
    s
}

fn same_image(a: &(i64, i64, Img), b: &(i64, i64, RleEncodedImage)) -> Result<(), String> {
    if (a.0, a.1) != (b.0, b.1) {
        return Err(format!("times {:?}, expected {:?}", (b.0, b.1), (a.0, a.1)));
    }
    let i = &a.2;
    if (b.2.width(), b.2.height()) != (u32::from(i.w), u32::from(i.h)) {
        return Err(format!("size {}x{}, expected {}x{}", b.2.width(), b.2.height(), i.w, i.h));
    }
    let want = ref_pixels(i);
    let mut it = b.2.iter();
    for (k, w) in want.iter().enumerate() {
        match it.next() {
            None => return Err(format!("pixels end at {k}, expected {}", want.len())),
            Some(p) if p.0 != *w => return Err(format!("pixel {k} is {:?}, expected {w:?}", p.0)),
            _ => {}
        }
    }
    if it.next().is_some() {
        return Err(format!("more than the expected {} pixels", want.len()));
    }
    // once more, and in another way
    let salt = want.iter().take(40).fold(want.len() as u64, |h, p| h.wrapping_mul(31) + u64::from(p[0]));
    if want.len() < 5000 {
        crate::ways(b.2.iter(), &want, |p| p.0, salt)?;
    }
    Ok(())
}

fn conv_luma(p: LumaA<u8>) -> Luma<u8> {
    Luma([p.0[0] ^ p.0[1].rotate_left(3)])
}

fn render(a: &(i64, i64, Img), b: &(i64, i64, RleEncodedImage), rp: u8) -> Result<(), String> {
    let want = ref_pixels(&a.2);
    let (w, h) = (a.2.w as u32, a.2.h as u32);
    if want.len() as u64 != u64::from(w) * u64::from(h) {
        return Ok(());
    }
    macro_rules! check {
        ($f:expr, $what:expr) => {{
            let f = $f;
            let im = RleToImage::new(&b.2, f).to_image();
            if im.dimensions() != (w, h) {
                return Err(format!("{}: image of {:?}, expected {:?}", $what, im.dimensions(), (w, h)));
            }
            for y in 0..h {
                for x in 0..w {
                    let e = f(LumaA(want[(y * w + x) as usize]));
                    if *im.get_pixel(x, y) != e {
                        return Err(format!("{}: pixel ({x},{y}) is {:?}, expected {e:?}", $what, im.get_pixel(x, y)));
                    }
                }
            }
        }};
    }
    check!(conv_luma, "luma");
    check!(|p: LumaA<u8>| p, "luma+alpha");
    check!(|p: LumaA<u8>| Rgb([p.0[0], p.0[1], p.0[0] ^ 0x55]), "rgb");
    check!(|p: LumaA<u8>| Rgba([p.0[0], p.0[1], p.0[0] ^ 0x55, 7]), "rgba");
    let d = ToOcrImageOpt::default();
    if (d.border, d.text_color, d.background_color) != (5, Luma([0]), Luma([255])) {
        return Err(format!("default options: {} {:?} {:?}", d.border, d.text_color, d.background_color));
    }
    let border = u32::from(rp % 7);
    let bg = Luma([rp.wrapping_mul(37)]);
    let opt = ToOcrImageOpt { border, text_color: Luma([1]), background_color: bg };
    let im = ToOcrImage::image(&RleToImage::new(&b.2, conv_luma), &opt);
    if im.dimensions() != (w + 2 * border, h + 2 * border) {
        return Err(format!("ocr: image of {:?} for {w}x{h} with border {border}", im.dimensions()));
    }
    for y in 0..h + 2 * border {
        for x in 0..w + 2 * border {
            let e = if x < border || y < border || x >= w + border || y >= h + border {
                bg
            } else {
                conv_luma(LumaA(want[((y - border) * w + x - border) as usize]))
            };
            if *im.get_pixel(x, y) != e {
                return Err(format!("ocr: pixel ({x},{y}) is {:?}, expected {e:?} (border {border})", im.get_pixel(x, y)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ generators

fn seg(pts: u32, ty: u8, body: &[u8]) -> Vec<u8> {
    seg_n(pts, ty, body, body.len() as u16)
}
fn seg_n(pts: u32, ty: u8, body: &[u8], n: u16) -> Vec<u8> {
    let mut v = vec![0x50, 0x47];
    v.extend(pts.to_be_bytes());
    v.extend([0xd1, 0xd2, 0xd3, 0xd4]);
    v.push(ty);
    v.extend(n.to_be_bytes());
    v.extend(body);
    v
}
fn pts(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => r.pick(&[0, 1, 89, 90, 91, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0x0102_0304, 0xff00_0000, 0x0100_0000]),
        1 => r.below(100_000) as u32,
        _ => r.next() as u32,
    }
}
fn pds(r: &mut Rng, ids: &[u8]) -> Vec<u8> {
    let mut v = vec![r.byte(), r.byte()];
    for i in ids {
        v.extend([*i, r.byte(), r.byte(), r.byte(), r.byte()]);
    }
    v
}
fn ids(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(5) {
        0 => 0,
        1 => r.below(4),
        2 => r.below(20),
        3 => r.below(256),
        _ => 256,
    };
    let mut v: Vec<u8> = (0..=255).collect();
    match r.below(4) {
        0 => {}
        1 => v.reverse(),
        2 => {
            let k = r.below(256) as usize;
            v.rotate_left(k);
        }
        _ => {
            for i in (1..v.len()).rev() {
                let j = r.below(i as u64 + 1) as usize;
                v.swap(i, j);
            }
        }
    }
    v.truncate(n as usize);
    v
}
/// object segments for data (one or two), with the given declared length
fn ods(r: &mut Rng, w: u16, h: u16, data: &[u8], split: bool) -> Vec<Vec<u8>> {
    let len = (data.len() + 4) as u32;
    let head = |r: &mut Rng, flag: u8| vec![r.byte(), r.byte(), r.byte(), flag];
    let fields = |v: &mut Vec<u8>| {
        v.extend(&len.to_be_bytes()[1..]);
        v.extend(w.to_be_bytes());
        v.extend(h.to_be_bytes());
    };
    if split {
        let k = match r.below(4) {
            0 => 0,
            1 => data.len(),
            _ => r.below(data.len() as u64 + 1) as usize,
        };
        let mut a = head(r, 0x80);
        fields(&mut a);
        a.extend(&data[..k]);
        let mut b = head(r, 0x40);
        b.extend(&data[k..]);
        vec![a, b]
    } else {
        let mut a = head(r, 0xc0);
        fields(&mut a);
        a.extend(data);
        vec![a]
    }
}
fn code(r: &mut Rng, n: u64, c: u8) -> Vec<u8> {
    // a run of n pixels of colour c
    let long = n > 63 || r.chance(1, 5);
    let mut f = (n >> if long { 8 } else { 0 }) as u8 & 0x3f;
    let mut v = vec![0];
    if long {
        f |= 0x40;
    }
    if c != 0 || r.chance(1, 5) {
        f |= 0x80;
    }
    v.push(f);
    if long {
        v.push(n as u8);
    }
    if f & 0x80 != 0 {
        v.push(c);
    }
    v
}
fn rle(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..r.below(12) {
        match r.below(7) {
            0 => v.extend([0, 0]),
            1 => {
                let c = r.byte();
                let n = r.pick(&[0, 1, 2, 62, 63]);
                v.extend(code(r, n, c));
            }
            2 => {
                let c = r.byte();
                let n = r.pick(&[0, 1, 64, 255, 256, 257, 300, 4095, 16383]);
                v.extend(code(r, n, c));
            }
            3 => {
                let n = r.below(64);
                v.extend(code(r, n, 0));
            }
            4 => v.extend([0, r.byte(), r.byte(), r.byte()]),
            _ => v.push(r.byte()),
        }
    }
    if r.chance(1, 4) && !v.is_empty() {
        let k = r.below(v.len() as u64) as usize;
        v.truncate(k);
    }
    v
}
/// run-length data of exactly n pixels
fn exact(r: &mut Rng, mut n: u64, w: u64, cols: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut x = 0;
    while n > 0 {
        let c = if cols.is_empty() || r.chance(1, 8) { r.byte() } else { r.pick(cols) };
        let k = (1 + r.small(w.max(3) * 2)).min(n).min(16383);
        if k == 1 && c != 0 {
            v.push(c);
        } else {
            v.extend(code(r, k, c));
        }
        n -= k;
        x += k;
        if w > 0 && x % w == 0 && r.chance(3, 4) {
            v.extend([0, 0]);
        }
    }
    v
}
fn filler(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => r.below(4),
        2 => 60 + r.below(10),
        _ => r.small(300),
    } as usize;
    let mut b = if r.chance(1, 2) {
        r.bytes(n)
    } else {
        // content that looks like a header
        seg(r.next() as u32, r.pick(&[0x80u8, 0x14, 0x16]), &[]).into_iter().cycle().take(n).collect()
    };
    if r.chance(1, 10) {
        b.iter_mut().for_each(|x| *x = 0);
    }
    seg(pts(r), r.pick(&[0x16u8, 0x17]), &b)
}
fn end(r: &mut Rng) -> Vec<u8> {
    let p = pts(r);
    if r.chance(1, 200) {
        return seg_n(p, 0x80, &[], 0);
    }
    seg(p, 0x80, &[])
}
fn distinct_data(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| 1 + (r.below(255)) as u8).collect()
}

impl Pgs {
    fn stream(&self, i: u64, r: &mut Rng) -> Vec<u8> {
        let mut v = vec![];
        match self.0.as_str() {
            "C01" => {
                if i < 256 {
                    // every type code
                    let b = r.bytes(3);
                    v.extend(end(r));
                    v.extend(seg(pts(r), i as u8, if i == 0x80 { &[] } else { &b }));
                    v.extend(end(r));
                    v.extend(end(r));
                } else if i < 768 {
                    // every magic byte
                    let mut s = end(r);
                    s[(i as usize / 256) - 1] = i as u8;
                    v.extend(end(r));
                    v.extend(s);
                } else if i < 768 + 27 {
                    v.extend(end(r));
                    v.extend(end(r));
                    v.truncate(i as usize - 768);
                } else if i < 768 + 27 + 64 {
                    let b = (i - 768 - 27) as u32;
                    let p = if b < 32 { 1 << b } else { !(1 << (b - 32)) };
                    v.extend(seg(p, 0x80, &[]));
                    v.extend(seg(!p, 0x80, &[]));
                } else {
                    for _ in 0..r.range(1, 6) {
                        match r.below(4) {
                            0 => v.extend(filler(r)),
                            1 => {
                                let n = r.small(70_000).min(65535) as usize;
                                let b = r.bytes(n);
                                v.extend(seg(pts(r), r.pick(&[0x14u8, 0x15, 0x16, 0x17]), &b));
                            }
                            _ => v.extend(end(r)),
                        }
                    }
                    if r.chance(1, 6) {
                        let k = r.below(v.len() as u64 + 1) as usize;
                        v.truncate(k);
                    }
                    if r.chance(1, 6) && !v.is_empty() {
                        let k = r.below(v.len() as u64) as usize;
                        v[k] = r.byte();
                    }
                }
            }
            "C02" => {
                for _ in 0..r.range(1, 14) {
                    match r.below(5) {
                        0 => v.extend(filler(r)),
                        1 => {
                            let n = if r.chance(1, 10) { r.below(65536) } else { r.small(400) } as usize;
                            let b = if r.chance(1, 3) {
                                seg(r.next() as u32, 0x80, &[]).into_iter().cycle().take(n).collect()
                            } else {
                                r.bytes(n)
                            };
                            v.extend(seg(pts(r), r.pick(&[0x14u8, 0x15, 0x16, 0x17]), &b));
                        }
                        _ => v.extend(end(r)),
                    }
                }
                if r.chance(1, 8) {
                    let k = r.below(v.len() as u64 + 1) as usize;
                    v.truncate(k);
                }
            }
            "C05" => {
                let id = ids(r);
                let p = pds(r, &id);
                let p = if r.chance(1, 6) {
                    let n = r.below(p.len() as u64 + 1) as usize;
                    let mut q = p.clone();
                    if r.chance(1, 2) {
                        q.truncate(n);
                    } else {
                        q.extend(r.bytes(n % 5));
                    }
                    q
                } else {
                    p
                };
                let mut d: Vec<u8> = (1..=255).collect();
                d.extend([0, 1]); // one pixel of colour 0
                v.extend(end(r));
                if r.chance(1, 3) {
                    let id = ids(r);
                    let q = pds(r, &id);
                    v.extend(seg(0, 0x14, &q));
                }
                v.extend(seg(0, 0x14, &p));
                for o in ods(r, 16, 16, &d, false) {
                    v.extend(seg(0, 0x15, &o));
                }
                v.extend(end(r));
                if r.chance(1, 3) {
                    v.extend(self.one(r));
                }
            }
            "C06" => {
                let id = ids(r);
                let data = if i < 65536 / 16 {
                    // all 2-byte and many 3/4-byte codes, 16 codes per image
                    let mut d = vec![];
                    for k in 0..16 {
                        let c = (i * 16 + k) as u16;
                        if c & 0xff == 0 || c >> 8 == 0 {
                            d.extend([0, c as u8, (c >> 8) as u8, r.byte()]);
                        } else {
                            d.extend([0, c as u8 & 0xbf, (c >> 8) as u8]);
                        }
                    }
                    d
                } else {
                    rle(r)
                };
                v.extend(end(r));
                let p = pds(r, &id);
                v.extend(seg(0, 0x14, &p));
                for o in ods(r, 4, 4, &data, false) {
                    v.extend(seg(0, 0x15, &o));
                }
                v.extend(end(r));
            }
            "C07" => {
                let id = if r.chance(1, 2) { (0..=255).collect() } else { ids(r) };
                let (w, h) = match r.below(10) {
                    0 => (0, r.below(3)),
                    1 => (r.below(4), 0),
                    2 => (1, r.below(20)),
                    3 => (r.below(20), 1),
                    4 => (256 + r.below(10), 1 + r.below(3)),
                    5 => (1 + r.below(3), 256 + r.below(10)),
                    _ => (1 + r.below(12), 1 + r.below(12)),
                };
                let d = exact(r, w * h, w, &id);
                v.extend(end(r));
                let p = pds(r, &id);
                v.extend(seg(0, 0x14, &p));
                for o in ods(r, w as u16, h as u16, &d, false) {
                    v.extend(seg(0, 0x15, &o));
                }
                v.extend(end(r));
            }
            "C04" => {
                let n = match r.below(8) {
                    0 => 0,
                    1 => r.below(5),
                    2 => r.range(65_500, 65_535 - 11),
                    3 => r.range(65_530, 120_000),
                    4 => r.below(600),
                    _ => r.below(60),
                } as usize;
                let d = distinct_data(r, n);
                let split = n > 65_524 || r.chance(1, 2);
                let mut os = ods(r, r.clone_u16(), r.clone_u16(), &d, split);
                if n > 65_524 {
                    let a = 60_000.min(n);
                    os = {
                        let mut x = ods(r, 300, 300, &d, false).remove(0);
                        let tail = x.split_off(11 + a);
                        x[3] = 0x80;
                        let mut y = vec![1, 2, 3, 0x40];
                        y.extend(tail);
                        vec![x, y]
                    };
                }
                // inconsistencies
                match r.below(10) {
                    0 => {
                        let k = r.below(os.len() as u64) as usize;
                        os[k][3] = r.pick(&[0x00u8, 0x40, 0x80, 0xc0, 0x20, 0xff, 0x41]);
                    }
                    1 => {
                        let k = r.below(os.len() as u64) as usize;
                        let x = os[k].len();
                        let y = r.below(x as u64 + 1) as usize;
                        os[k].truncate(y);
                    }
                    2 => {
                        let k = r.below(os.len() as u64) as usize;
                        let x = 1 + r.below(3) as usize;
                        let t = distinct_data(r, x);
                        os[k].extend(t);
                    }
                    3 => {
                        let k = r.range(4, 6) as usize;
                        let d = r.pick(&[1u8, 2, 255, 254, 16]);
                        if os[0].len() > k {
                            os[0][k] = os[0][k].wrapping_add(d);
                        }
                    }
                    4 if os.len() > 1 => {
                        let _ = os.swap_remove(0);
                    }
                    5 if os.len() > 1 => {
                        os.swap(0, 1);
                    }
                    _ => {}
                }
                v.extend(end(r));
                let id: Vec<u8> = (0..=255).collect();
                let mut p = vec![0, 0];
                for i in id {
                    p.extend([i, i, 0, 0, 255 - i]);
                }
                v.extend(seg(0, 0x14, &p));
                let odd = if r.chance(1, 8) { r.below(os.len() as u64) as usize } else { 9 };
                for (k, mut o) in os.into_iter().enumerate() {
                    if o.len() <= 65535 {
                        if r.chance(1, 10) {
                            v.extend(filler(r));
                        }
                        if k == odd {
                            // the declared size is not that of the content
                            if r.chance(1, 2) {
                                o.truncate(4 + r.below(9) as usize);
                            }
                            let n = if r.chance(1, 2) {
                                r.below(14) as usize
                            } else {
                                (o.len() + r.below(7) as usize).saturating_sub(3)
                            };
                            v.extend(seg_n(0, 0x15, &o, n as u16));
                            continue;
                        }
                        v.extend(seg(0, 0x15, &o));
                    }
                }
                v.extend(end(r));
                if r.chance(1, 4) {
                    v.extend(self.one(r));
                }
            }
            "C03" => {
                for _ in 0..r.range(1, 4) {
                    v.extend(self.one(r));
                }
            }
            _ => {
                // C08: anything
                for _ in 0..r.range(1, 4) {
                    v.extend(self.one(r));
                }
                match r.below(5) {
                    0 => {
                        for _ in 0..r.range(1, 4) {
                            if v.is_empty() {
                                break;
                            }
                            let k = r.below(v.len() as u64) as usize;
                            v[k] = r.pick(&[0, 1, 0x40, 0x80, 0xc0, 0xff, 0x14, 0x15]);
                        }
                    }
                    1 => {
                        let k = r.below(v.len() as u64 + 1) as usize;
                        v.truncate(k);
                    }
                    2 => {
                        let n = r.small(60) as usize;
                        let ty = r.pick(&[0x14u8, 0x15]);
                        let mut b = r.bytes(n);
                        if n > 10 && ty == 0x15 {
                            b[3] = r.pick(&[0x40u8, 0x80, 0xc0, 0]);
                            b[4] = 0;
                            b[5] = 0;
                            b[6] = (n as u64 - 11 + 4 + r.below(3)).wrapping_sub(1) as u8;
                        }
                        let s = seg(1, ty, &b);
                        let mut x = s;
                        x.extend(&v);
                        v = x;
                    }
                    3 => {
                        for _ in 0..r.range(1, 4) {
                            let k = r.below(v.len() as u64 + 1) as usize;
                            let n = r.below(4) as usize;
                            if r.chance(1, 2) {
                                let b = r.bytes(n);
                                v.splice(k..k, b);
                            } else {
                                let e = (k + n).min(v.len());
                                v.drain(k..e);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        v
    }
    /// segments of roughly one subtitle
    fn one(&self, r: &mut Rng) -> Vec<u8> {
        let mut v = vec![];
        let n = r.range(0, 5);
        let mut parts: Vec<Vec<u8>> = vec![];
        for _ in 0..n {
            match r.below(6) {
                0 => parts.push(filler(r)),
                1 => {
                    let id = ids(r);
                    let p = pds(r, &id);
                    parts.push(seg(pts(r), 0x14, &p));
                }
                _ => {
                    let d = if r.chance(1, 2) { rle(r) } else { let n = r.below(8) as usize; distinct_data(r, n) };
                    if r.chance(7, 8) {
                        let id = ids(r);
                        let p = pds(r, &id);
                        parts.push(seg(pts(r), 0x14, &p));
                    }
                    let (w, h) = (r.small(400) as u16, r.small(400) as u16);
                    let split = r.chance(1, 3);
                    for o in ods(r, w, h, &d, split) {
                        if r.chance(19, 20) {
                            parts.push(seg(pts(r), 0x15, &o));
                        }
                        if r.chance(1, 8) {
                            parts.push(filler(r));
                        }
                    }
                }
            }
        }
        let k = r.below(parts.len() as u64 + 1) as usize;
        let k = if r.chance(3, 4) { 0 } else { k };
        for (i, p) in parts.iter().enumerate() {
            if i == k {
                v.extend(end(r));
            }
            v.extend(p);
        }
        if k >= parts.len() {
            v.extend(end(r));
        }
        if r.chance(9, 10) {
            v.extend(end(r));
        }
        v
    }
}
impl Rng {
    fn clone_u16(&self) -> u16 {
        (self.0 >> 20) as u16
    }
}

impl Prop for Pgs {
    fn gen(&self, i: u64, r: &mut Rng) -> Option<Vec<u8>> {
        let s = self.stream(i, r);
        let mode = r.below(8) as u8;
        let mut v = vec![mode, r.byte(), r.pick(&[0u8, 1, 2, 3, 7, 12, 13, 14, 63, 200, 255])];
        v.extend(s);
        Some(v)
    }
    fn large(&self, n: usize) -> Vec<Vec<u8>> {
        let e = |ms: u32| seg(ms * 90, 0x80, &[]);
        let p = seg(0, 0x14, &[0, 0, 7, 20, 0, 0, 200, 9, 30, 0, 0, 100]);
        let mut r = Rng::new(n as u64);
        let sub = |r: &mut Rng, w: u16, h: u16, d: &[u8]| {
            let mut v = [e(1), p.clone()].concat();
            let split = d.len() > 60_000;
            let mut r2 = Rng::new(r.next());
            let parts = if split {
                let len = (d.len() + 4) as u32;
                let mut a = vec![0, 0, 0, 0x80];
                a.extend(&len.to_be_bytes()[1..]);
                a.extend(w.to_be_bytes());
                a.extend(h.to_be_bytes());
                a.extend(&d[..60_000]);
                let mut b = vec![0, 0, 0, 0x40];
                b.extend(&d[60_000..]);
                vec![a, b]
            } else {
                ods(&mut r2, w, h, d, false)
            };
            for o in parts {
                v.extend(seg(0, 0x15, &o));
            }
            v.extend(e(2));
            v
        };
        let one = sub(&mut r, 1, 1, &[7]);
        let mut s: Vec<Vec<u8>> = vec![];
        let k = n.min(100_000);
        // segments of no interest between the ENDs
        let mut v = e(1);
        (0..k).for_each(|i| v.extend(seg(i as u32, 0x16 + (i % 2) as u8, &[])));
        v.extend(&one[e(1).len()..]);
        v.extend(&one);
        s.push(v);
        // palettes
        let mut v = e(1);
        (0..k).for_each(|_| v.extend(seg(0, 0x14, &[0, 0, 7, 99, 0, 0, 255])));
        v.extend(&one[e(1).len()..]);
        s.push(v);
        // subtitles, and pairs without image
        let mut v = vec![];
        (0..k.min(20_000)).for_each(|_| v.extend(&one));
        s.push(v);
        let mut v = vec![];
        (0..k).for_each(|i| v.extend(e(i as u32)));
        v.extend(&one);
        s.push(v);
        // long payloads
        let mut v = e(1);
        (0..9).for_each(|i| v.extend(seg(0, 0x17, &vec![i; 65535 - i as usize])));
        v.extend(&one[e(1).len()..]);
        s.push(v);
        // run-length data: end of line codes, empty runs, single pixels, runs
        for c in [&[0u8, 0][..], &[0, 0x40, 0], &[0, 0x80, 7], &[7, 9, 8], &[0, 0xc0, 0, 7], &[0, 0x01]] {
            let m = k.min(120_000 / c.len());
            let mut d = c.repeat(m);
            d.extend([0, 0x81, 7]);
            let px = match c[..] {
                [7, ..] => 3 * m + 1,
                [0, 1] => m + 1,
                _ => 1,
            };
            let (w, h) = if px < 65536 { (px as u16, 1) } else { (1, 1) };
            s.push(sub(&mut r, w, h, &d));
        }
        // wide, high and square images
        for (w, h) in [(16000u16, 3u16), (3, 9000), (300, 300), (1, 257), (257, 1)] {
            let d = exact(&mut r, u64::from(w) * u64::from(h), u64::from(w), &[7, 9, 0, 5]);
            if d.len() < 120_000 {
                s.push(sub(&mut r, w, h, &d));
            }
        }
        // many entries
        let mut b = vec![0, 0];
        (0..k.min(13_000)).for_each(|i| b.extend([(i % 251) as u8, (i % 241) as u8, 1, 2, (i % 239) as u8]));
        let mut v = [e(1), seg(0, 0x14, &b)].concat();
        v.extend(&one[e(1).len() + p.len()..]);
        s.push(v);
        s.into_iter()
            .enumerate()
            .map(|(i, s)| {
                let mut v = vec![0, (i % 2) as u8, 99];
                v.extend(s);
                v
            })
            .collect()
    }
    fn check(&self, c: &[u8]) -> Outcome {
        if c.len() < 3 {
            return Ok(false);
        }
        let (mode, rk, rp, d) = (c[0], c[1], c[2], &c[3..]);
        match self.0.as_str() {
            "C01" | "C02" => {
                if mode == 6 {
                    let p: SupParser<_, DecodeTimeOnly> = SupParser::new(broken(d, rp, None));
                    let got = p.take(d.len() + 2).map(|i| i.map(|s: TimeSpan| (s.start.msecs(), s.end.msecs())));
                    return faulty(&ref_time(d, None), got, false, |a, b| {
                        if a == b { Ok(()) } else { Err(format!("times {b:?}, expected {a:?}")) }
                    });
                }
                let fail = (mode == 7 && !d.is_empty()).then(|| (rk as usize * 251 + rp as usize) % d.len());
                let got = run_time(d, rk, rp, fail)?;
                let r = ref_time(d, fail);
                if fail.is_none() && d.len() < 20_000 && self.0 == "C02" {
                    let it = SupParser::<_, DecodeTimeOnly>::new(Cursor::new(d.to_vec()));
                    crate::ways(it, &got, |i| i.map(|s: TimeSpan| (s.start.msecs(), s.end.msecs())).map_err(|e| kind(&e)), crate::misc::hash(d))?;
                }
                compare(&r, &got, |a, b| {
                    if a == b { Ok(()) } else { Err(format!("times {b:?}, expected {a:?}")) }
                })
            }
            "C08" => {
                let got = run_image(d, rk, rp)?;
                for i in got.iter().flatten() {
                    let lim = d.len() * 16384;
                    if i.2.iter().take(lim + 1).count() > lim {
                        return Err(format!("more than {lim} pixels"));
                    }
                    let _ = i.2.iter().size_hint();
                    let _ = i.2.pixels::<u8>(|_| LumaA([0, 0])).take(lim).count();
                }
                let g = run_time(d, rk, rp, None)?;
                Ok(!got.is_empty() || !g.is_empty())
            }
            p => {
                if mode >= 6 && p != "C07" {
                    let f = (mode == 7).then(|| (rk as usize * 251 + rp as usize) % d.len().max(1));
                    let p: SupParser<_, DecodeTimeImage> = SupParser::new(broken(d, rp, f));
                    let got = p.take(d.len() + 2).map(|i| i.map(|(s, i)| (s.start.msecs(), s.end.msecs(), i)));
                    return match f {
                        Some(f) => faulty(&ref_image(&d[..f.min(d.len())]), got, true, same_image),
                        None => faulty(&ref_image(d), got, false, same_image),
                    };
                }
                let got = run_image(d, rk, rp)?;
                let r = ref_image(d);
                if p == "C03" && d.len() < 20_000 {
                    let it = SupParser::<_, DecodeTimeImage>::new(Cursor::new(d.to_vec()));
                    let key = |i: &Item<(i64, i64, RleEncodedImage)>| {
                        i.as_ref().map(|i| (i.0, i.1, i.2.width(), i.2.height(), i.2.iter().take(2000).collect::<Vec<_>>())).map_err(Clone::clone)
                    };
                    let all: Vec<_> = got.iter().map(key).collect();
                    crate::ways(it, &all, |i| key(&i.map(|(s, i)| (s.start.msecs(), s.end.msecs(), i)).map_err(|e| kind(&e))), crate::misc::hash(d))?;
                }
                if p == "C07" {
                    compare(&r, &got, |a, b| render(a, b, rp))
                } else {
                    compare(&r, &got, same_image)
                }
            }
        }
    }
    fn rule(&self) -> &'static str {
        "streams of generated PGS segments (all type codes, magic bytes, PTS bit patterns, palettes in any order, split objects, all two-byte run codes, then random ones with mutations) read through three kinds of readers and from real files; non-trivial: at least one subtitle is decoded and compared"
    }
}
