//! VobSub properties C09..C16.
//!
//! The reference reader below is written from the format alone; streams are read through
//! `Sub::open` and the public iterator.
use crate::expect;
use crate::misc::{show, Cur, Scratch};
use crate::{Outcome, Prop, Rng};
use image::{Luma, LumaA, Rgb, Rgba};
use std::cell::RefCell;
use subtile::content::{Area, AreaValues};
use subtile::image::{ImageArea, ImageSize, ToImage, ToOcrImage, ToOcrImageOpt};
use subtile::time::TimeSpan;
use subtile::vobsub::{conv_to_rgba, palette_rgb_to_luminance, Sub, VobSubError, VobSubIndexedImage, VobSubOcrImage, VobSubToImage};

pub fn get(p: &str) -> Option<Box<dyn Prop>> {
    Some(match p {
        "C09" | "C11" | "C16" => Box::new(Stream(p.to_string())),
        "C10" => Box::new(Stamp),
        "C12" | "C13" | "C14" => Box::new(Data(p.to_string())),
        "C15" => Box::new(Render),
        _ => return None,
    })
}

// ------------------------------------------------------------------ the real code

type Item = Result<(TimeSpan, VobSubIndexedImage), VobSubError>;
thread_local! { static DIR: RefCell<Option<Scratch>> = const { RefCell::new(None) }; }
/// All items of a stream; an error if there are more of them than bytes.
fn read(stream: &[u8]) -> Result<Vec<Item>, String> {
    let path = DIR.with(|d| crate::misc::name_in(&d.borrow_mut().get_or_insert_with(Scratch::new).0, crate::misc::hash(&stream[..stream.len().min(200)])));
    std::fs::write(&path, stream).unwrap();
    let sub = Sub::open(&path).map_err(|e| format!("open: {e}"))?;
    let mut v = vec![];
    for item in sub.subtitles::<(TimeSpan, VobSubIndexedImage)>() {
        v.push(item);
        if v.len() > stream.len() {
            return Err(format!("more than {} items from {} bytes", stream.len(), stream.len()));
        }
    }
    Ok(v)
}
type Key = Option<(i64, i64, Area, [u8; 4], [u8; 4], Vec<u8>)>;
fn key(i: &Item) -> Key {
    i.as_ref().ok().map(|x| (x.0.start.msecs(), x.0.end.msecs(), x.1.area(), *x.1.palette(), *x.1.alpha(), x.1.raw_image().to_vec()))
}
/// The same subtitles again, in another way.
fn again(stream: &[u8], got: &[Item]) -> Result<(), String> {
    if got.len() > 2000 || stream.len() > 100_000 {
        return Ok(());
    }
    let salt = crate::misc::hash(stream);
    let path = DIR.with(|d| crate::misc::name_in(&d.borrow_mut().get_or_insert_with(Scratch::new).0, crate::misc::hash(&stream[..stream.len().min(200)])));
    std::fs::write(&path, stream).unwrap();
    let sub = Sub::open(&path).map_err(|e| format!("open: {e}"))?;
    let all: Vec<Key> = got.iter().map(key).collect();
    crate::ways(sub.subtitles::<(TimeSpan, VobSubIndexedImage)>(), &all, |i| key(&i), salt)
}

// ------------------------------------------------------------------ reference reader

#[derive(Clone, Debug, PartialEq)]
struct Pk {
    ssid: u8,
    pts: Option<u64>,
    data: Vec<u8>,
}
enum Step {
    Pk(Pk, usize),
    Bad,
    Short,
}
fn bit(b: &[u8], k: usize) -> u64 {
    u64::from(b[k / 8] >> (7 - k % 8) & 1)
}
fn field(b: &[u8], k: usize, n: usize) -> u64 {
    (k..k + n).fold(0, |a, j| 2 * a + bit(b, j))
}
fn be16(b: &[u8], k: usize) -> usize {
    usize::from(b[k]) * 256 + usize::from(b[k + 1])
}
/// 33 bits in three groups, each followed by a marker bit
fn stamp(b: &[u8], k: usize) -> Option<u64> {
    (bit(b, k + 3) == 1 && bit(b, k + 19) == 1 && bit(b, k + 35) == 1)
        .then(|| field(b, k, 3) << 30 | field(b, k + 4, 15) << 15 | field(b, k + 20, 15))
}
fn pts(h: &[u8], flags: u64) -> Option<Option<u64>> {
    let one = |k: usize| {
        if h.len() * 8 >= k + 40 && field(h, k, 4) == 2 {
            stamp(h, k + 4)
        } else {
            None
        }
    };
    match flags {
        0 => Some(None),
        2 => one(0).map(Some),
        3 => one(0).and_then(|t| one(40).map(|_| Some(t))),
        _ => None,
    }
}
fn pack(s: &[u8]) -> Step {
    if s.len() < 14 || s[..4] != [0, 0, 1, 0xba] {
        return Step::Bad;
    }
    if field(s, 32, 2) != 1 || stamp(s, 34).is_none() || bit(s, 79) != 1 || field(s, 102, 2) != 3 {
        return Step::Bad;
    }
    let n = 14 + field(s, 109, 3) as usize;
    if s.len() < n + 6 || s[n..n + 4] != [0, 0, 1, 0xbd] {
        return Step::Bad;
    }
    let len = be16(s, n + 4);
    if s.len() < n + 6 + len {
        return Step::Short;
    }
    let b = &s[n + 6..n + 6 + len];
    if len < 3 || field(b, 0, 2) != 2 {
        return Step::Bad;
    }
    let h = 3 + usize::from(b[2]);
    if len < h + 1 {
        return Step::Bad;
    }
    match pts(&b[3..h], field(b, 8, 2)) {
        None => Step::Bad,
        Some(t) => Step::Pk(Pk { ssid: b[h], pts: t, data: b[h + 1..].to_vec() }, n + 6 + len),
    }
}
/// the next packet from `at` on; Err: a truncated one
fn next_pk(s: &[u8], at: &mut usize) -> Option<Result<Pk, ()>> {
    while *at + 4 <= s.len() {
        if s[*at..*at + 4] != [0, 0, 1, 0xba] {
            *at += 1;
            continue;
        }
        match pack(&s[*at..]) {
            Step::Pk(p, n) => {
                *at += n;
                return Some(Ok(p));
            }
            Step::Bad => *at += 4,
            Step::Short => {
                *at = s.len();
                return Some(Err(()));
            }
        }
    }
    *at = s.len();
    None
}
/// what a stream contains: errors, and subtitles' data with their base time
type Want = Result<(u64, Vec<u8>), &'static str>;
fn next_data(s: &[u8], at: &mut usize) -> Option<Want> {
    let p = match next_pk(s, at)? {
        Ok(p) => p,
        Err(()) => return Some(Err("truncated packet")),
    };
    let Some(t) = p.pts else { return Some(Err("no time stamp")) };
    if p.data.len() < 2 {
        return Some(Err("packet too short"));
    }
    let size = be16(&p.data, 0);
    let mut d = p.data;
    while d.len() < size {
        match next_pk(s, at)? {
            Ok(q) => {
                if q.ssid == p.ssid {
                    d.extend(q.data);
                }
            }
            Err(()) => return Some(Err("truncated packet")),
        }
    }
    d.truncate(size);
    Some(Ok((t, d)))
}

#[derive(Clone, Debug, PartialEq)]
enum Cmd {
    Force,
    Start,
    Stop,
    Palette([u8; 4]),
    Alpha([u8; 4]),
    Coords(u16, u16, u16, u16),
    Offs(usize, usize),
    Unsupported,
}
fn sequence(s: &[u8]) -> Option<(u64, usize, Vec<Cmd>)> {
    if s.len() < 4 {
        return None;
    }
    let (date, next) = (be16(s, 0) as u64, be16(s, 2));
    let mut v = vec![];
    let mut k = 4;
    loop {
        let r = &s[k.min(s.len())..];
        let nib = |r: &[u8]| [r[1] >> 4, r[1] & 15, r[2] >> 4, r[2] & 15];
        let (c, n) = match r.first()? {
            0xff => return Some((date, next, v)),
            0 => (Cmd::Force, 1),
            1 => (Cmd::Start, 1),
            2 => (Cmd::Stop, 1),
            3 if r.len() >= 3 => (Cmd::Palette(nib(r)), 3),
            4 if r.len() >= 3 => (Cmd::Alpha(nib(r)), 3),
            5 if r.len() >= 7 => {
                let c = |j: usize| field(r, 8 + 12 * j, 12) as u16;
                (Cmd::Coords(c(0), c(1), c(2), c(3)), 7)
            }
            6 if r.len() >= 5 => (Cmd::Offs(be16(r, 1), be16(r, 3)), 5),
            _ => (Cmd::Unsupported, r.iter().position(|b| *b == 0xff)?),
        };
        v.push(c);
        k += n;
    }
}
#[derive(Default, Debug)]
struct Told {
    start: Option<u64>,
    stop: Option<u64>,
    palette: Option<[u8; 4]>,
    alpha: Option<[u8; 4]>,
    area: Option<[u16; 4]>,
    offs: Option<(usize, usize)>,
}
struct Want13 {
    start: u64,
    end: u64,
    palette: [u8; 4],
    alpha: [u8; 4],
    area: [u16; 4], // x1 x2 y1 y2
    pixels: Option<Vec<u8>>,
}
fn subtitle(d: &[u8], base: u64) -> Result<Want13, &'static str> {
    if d.len() < 4 {
        return Err("too short");
    }
    let ctrl = be16(d, 2);
    let mut o = ctrl;
    let mut t = Told::default();
    loop {
        if o >= d.len() {
            return Err("offset out of range");
        }
        let (date, next, cmds) = sequence(&d[o..]).ok_or("control sequence")?;
        for c in cmds {
            match c {
                Cmd::Force | Cmd::Unsupported => {}
                Cmd::Start => t.start = t.start.or(Some(base + 900 * date)),
                Cmd::Stop => t.stop = t.stop.or(Some(base + 900 * date)),
                Cmd::Palette(p) => t.palette = t.palette.or(Some(p)),
                Cmd::Alpha(p) => t.alpha = t.alpha.or(Some(p)),
                Cmd::Coords(a, b, c, d) => {
                    if b <= a || d <= c {
                        return Err("area");
                    }
                    t.area = t.area.or(Some([a, b, c, d]));
                }
                Cmd::Offs(a, b) => t.offs = Some((a, b)),
            }
        }
        if next < o {
            return Err("backwards");
        }
        if next == o {
            break;
        }
        o = next;
    }
    let rev = |p: [u8; 4]| [p[3], p[2], p[1], p[0]];
    let (Some(start), Some(area), Some(p), Some(a), Some((o0, o1))) = (t.start, t.area, t.palette, t.alpha, t.offs) else {
        return Err("missing command");
    };
    let end = ctrl + 2;
    if o0 > o1 || o1 > end {
        return Err("data offsets");
    }
    let pixels = rows([&d[o0..end], &d[o1..end]], usize::from(area[1] - area[0]) + 1, usize::from(area[3] - area[2]) + 1);
    Ok(Want13 { start, end: t.stop.unwrap_or(start + 450_000), palette: rev(p), alpha: rev(a), area, pixels })
}
/// run length, colour, bits used, at bit k
fn code(s: &[u8], k: usize) -> Option<(usize, u8, usize)> {
    let left = 8 * s.len() - k;
    let (n, used) = if left >= 14 && field(s, k, 6) == 0 {
        (field(s, k + 6, 8), 14)
    } else if left >= 10 && field(s, k, 4) == 0 {
        (field(s, k + 4, 6), 10)
    } else if left >= 6 && field(s, k, 2) == 0 {
        (field(s, k + 2, 4), 6)
    } else if left >= 2 {
        (field(s, k, 2), 2)
    } else {
        return None;
    };
    (left >= used + 2).then(|| (n as usize, field(s, k + used, 2) as u8, used + 2))
}
fn rows(d: [&[u8]; 2], w: usize, h: usize) -> Option<Vec<u8>> {
    let mut at = [0, 0];
    let mut out = vec![];
    for y in 0..h {
        let s = &d[y % 2][at[y % 2]..];
        let (mut x, mut k) = (0, 0);
        while x < w {
            let (n, v, used) = code(s, k)?;
            let n = if n == 0 { w - x } else { n };
            if x + n > w {
                return None;
            }
            out.extend(std::iter::repeat_n(v, n));
            x += n;
            k += used;
        }
        at[y % 2] += k.div_ceil(8);
    }
    Some(out)
}

// ------------------------------------------------------------------ writing streams

fn put_stamp(prefix: u8, t: u64) -> [u8; 5] {
    [
        prefix << 4 | ((t >> 30 & 7) << 1) as u8 | 1,
        (t >> 22) as u8,
        ((t >> 15 & 127) << 1) as u8 | 1,
        (t >> 7) as u8,
        ((t & 127) << 1) as u8 | 1,
    ]
}
fn put_pack(stuffing: usize) -> Vec<u8> {
    let mut v = vec![0, 0, 1, 0xba, 0x44, 0x02, 0xc4, 0x82, 0x04, 0xa9, 0x01, 0x89, 0xc3, 0xf8 | stuffing as u8];
    v.extend(std::iter::repeat_n(0xff, stuffing));
    v
}
fn put_pes(flags: u8, head: &[u8], ssid: u8, data: &[u8]) -> Vec<u8> {
    let n = 3 + head.len() + 1 + data.len();
    let mut v = vec![0, 0, 1, 0xbd, (n >> 8) as u8, n as u8, 0x81, flags << 6, head.len() as u8];
    v.extend(head);
    v.push(ssid);
    v.extend(data);
    v
}
fn plain(t: u64, data: &[u8]) -> Vec<u8> {
    let mut v = put_pack(0);
    v.extend(put_pes(2, &put_stamp(2, t), 0x20, data));
    v
}
fn put_cmd(c: &Cmd, v: &mut Vec<u8>) {
    let nib = |p: &[u8; 4]| [p[0] << 4 | p[1], p[2] << 4 | p[3]];
    match c {
        Cmd::Force => v.push(0),
        Cmd::Start => v.push(1),
        Cmd::Stop => v.push(2),
        Cmd::Palette(p) => {
            v.push(3);
            v.extend(nib(p));
        }
        Cmd::Alpha(p) => {
            v.push(4);
            v.extend(nib(p));
        }
        Cmd::Coords(a, b, c, d) => {
            v.push(5);
            let x = u64::from(*a) << 36 | u64::from(*b) << 24 | u64::from(*c) << 12 | u64::from(*d);
            v.extend(&x.to_be_bytes()[2..]);
        }
        Cmd::Offs(a, b) => {
            v.push(6);
            v.extend((*a as u16).to_be_bytes());
            v.extend((*b as u16).to_be_bytes());
        }
        Cmd::Unsupported => v.extend([7, 0xa5, 0x5a]),
    }
}
struct Bits(Vec<u8>, usize);
impl Bits {
    fn put(&mut self, v: u64, n: usize) {
        for j in (0..n).rev() {
            if self.1 % 8 == 0 {
                self.0.push(0);
            }
            let l = self.0.len() - 1;
            self.0[l] |= ((v >> j & 1) as u8) << (7 - self.1 % 8);
            self.1 += 1;
        }
    }
    fn code(&mut self, n: usize, v: u64, form: usize) {
        let n = n as u64;
        let form = form.max(match n {
            0 => 4,
            1..=3 => 1,
            4..=15 => 2,
            16..=63 => 3,
            _ => 4,
        });
        match form {
            1 => self.put(n, 2),
            2 => self.put(n, 6),
            3 => self.put(n, 10),
            _ => self.put(n, 14),
        }
        self.put(v, 2);
    }
}
/// the two fields of a random image, mostly well-formed
fn gen_fields(r: &mut Rng, w: usize, h: usize, wild: bool) -> [Vec<u8>; 2] {
    let mut d = [vec![], vec![]];
    for y in 0..h {
        let mut b = Bits(vec![], 0);
        let mut x = 0;
        while x < w {
            let to_end = r.chance(1, 5);
            let mut n = 1 + r.small((w - x - 1).min(254) as u64) as usize;
            if wild && r.chance(1, 40) {
                n = r.below(256) as usize;
            }
            // forms of 2, 3 nibbles cannot say a length that makes a longer zero prefix
            b.code(if to_end { 0 } else { n }, r.below(4), 1);
            x = if to_end { w } else { x + n };
        }
        if wild && r.chance(1, 30) {
            b.0.push(r.byte());
        }
        d[y % 2].extend(b.0);
    }
    if wild && r.chance(1, 6) {
        let f = r.below(2) as usize;
        let n = d[f].len();
        match r.below(3) {
            0 => d[f].truncate(r.below(n as u64 + 1) as usize),
            1 if n > 0 => {
                let k = r.below(n as u64) as usize;
                d[f][k] = r.byte();
            }
            _ => d[f] = r.bytes(n),
        }
    }
    d
}
fn gen_coords(r: &mut Rng, big: bool) -> (u16, u16, u16, u16) {
    let m = if big { 300 } else { 12 };
    let (w, h) = (1 + r.small(m) as u16, 1 + r.small(if big { 40 } else { 8 }) as u16);
    let (x, y) = (r.below(4096 - u64::from(w)) as u16, r.below(4096 - u64::from(h)) as u16);
    (x, x + w, y, y + h)
}
fn nibs(r: &mut Rng) -> [u8; 4] {
    let b = r.bytes(4);
    [b[0] & 15, b[1] & 15, b[2] & 15, b[3] & 15]
}
/// data of a subtitle: header, fields, control sequences
fn gen_data(r: &mut Rng, what: &str) -> Vec<u8> {
    let a = gen_coords(r, what == "C14");
    let (w, h) = (usize::from(a.1 - a.0) + 1, usize::from(a.3 - a.2) + 1);
    let f = if what == "C14" || r.chance(1, 10) {
        gen_fields(r, w, h, what == "C14")
    } else {
        // every row filled to its end
        let mut f = [vec![], vec![]];
        for y in 0..h {
            f[y % 2].extend([0, r.below(4) as u8]);
        }
        f
    };
    let mut d = vec![0, 0, 0, 0];
    let gap = if r.chance(1, 4) { r.below(5) as usize } else { 0 };
    d.extend(r.bytes(gap));
    let o0 = d.len();
    d.extend(&f[0]);
    let mut o1 = d.len();
    d.extend(&f[1]);
    if r.chance(1, 20) {
        o1 = o0;
    }
    let gap = if r.chance(1, 4) { r.below(5) as usize } else { 0 };
    d.extend(r.bytes(gap));
    let ctrl = d.len();
    d[2] = (ctrl >> 8) as u8;
    d[3] = ctrl as u8;
    let mut need = vec![
        Cmd::Start,
        Cmd::Palette(nibs(r)),
        Cmd::Alpha(nibs(r)),
        Cmd::Coords(a.0, a.1, a.2, a.3),
        Cmd::Offs(o0, o1),
    ];
    if r.chance(1, 3) {
        need.push(Cmd::Force);
    }
    if r.chance(1, 2) {
        need.push(Cmd::Stop);
    }
    let nseq = match what {
        "C13" => 1 + r.below(4) as usize,
        "C12" => 1 + r.below(2) as usize,
        _ => 1,
    };
    if what == "C13" {
        // repeated and missing commands
        for _ in 0..r.below(4) {
            let c = match r.below(6) {
                0 => Cmd::Start,
                1 => Cmd::Stop,
                2 => Cmd::Palette(nibs(r)),
                3 => Cmd::Alpha(nibs(r)),
                4 => {
                    let mut b = gen_coords(r, false);
                    match r.below(8) {
                        0 => b.1 = b.0,
                        1 => b.3 = b.2,
                        2 => std::mem::swap(&mut b.0, &mut b.1),
                        3..=5 => b = (b.0, b.0 + (a.1 - a.0).min(4095 - b.0).max(1), b.2, b.2 + (a.3 - a.2).min(4095 - b.2).max(1)),
                        _ => {}
                    }
                    Cmd::Coords(b.0, b.1, b.2, b.3)
                }
                _ => Cmd::Offs(o0 + r.below(3) as usize, o1 + r.below(3) as usize),
            };
            need.push(c);
        }
        if r.chance(1, 6) {
            let k = r.below(need.len() as u64) as usize;
            need.remove(k);
        }
    }
    for k in (1..need.len()).rev() {
        need.swap(k, r.below(k as u64 + 1) as usize);
    }
    let mut pos = vec![];
    let per = need.len().div_ceil(nseq);
    let mut it = need.chunks(per);
    let mut seqs: Vec<Vec<u8>> = vec![];
    for _ in 0..nseq {
        let mut s = vec![];
        for c in it.next().unwrap_or(&[]) {
            put_cmd(c, &mut s);
        }
        if r.chance(1, 8) {
            let k = r.below(6) as usize;
            s.push(r.range(7, 254) as u8);
            s.extend(r.bytes(k).iter().map(|b| b & 0x7f));
        }
        s.push(0xff);
        seqs.push(s);
    }
    for s in &seqs {
        pos.push(d.len());
        let date = if r.chance(1, 4) { r.below(65536) } else { r.small(1000) };
        d.extend((date as u16).to_be_bytes());
        d.extend([0, 0]);
        d.extend(s);
        if what == "C13" && r.chance(1, 5) {
            let k = r.below(6) as usize;
            d.extend(r.bytes(k));
        }
    }
    for k in 0..pos.len() {
        let mut n = if k + 1 < pos.len() { pos[k + 1] } else { pos[k] };
        if what == "C13" && r.chance(1, 25) {
            n = match r.below(5) {
                0 => pos[k] - 1,
                1 => 0,
                2 => d.len(),
                3 => r.below(d.len() as u64 + 4) as usize,
                _ => 65535,
            };
        }
        d[pos[k] + 2] = (n >> 8) as u8;
        d[pos[k] + 3] = n as u8;
    }
    if what != "C14" && r.chance(1, 12) {
        // damage
        match r.below(3) {
            0 => {
                let n = d.len() as u64;
                d.truncate(r.below(n) as usize);
            }
            1 => {
                let k = ctrl + r.below((d.len() - ctrl) as u64) as usize;
                d[k] = r.byte();
            }
            _ => {
                let k = r.below(d.len() as u64) as usize;
                d[k] ^= 1 << r.below(8);
            }
        }
    }
    let n = d.len();
    if n >= 2 {
        d[0] = (n >> 8) as u8;
        d[1] = n as u8;
    }
    d
}
fn gen_stamp(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => r.pick(&[0, 1, (1 << 33) - 1, 1 << 32, 1 << 30, 1 << 15, (1 << 30) - 1, (1 << 15) - 1, 90000, 89999]),
        1 => r.below(1 << 33),
        2 => r.below(1 << 30),
        3 => 1 << r.below(33),
        _ => 90 * r.below(100_000_000) % (1 << 33),
    }
}

// ------------------------------------------------------------------ C09, C11, C16: streams

struct Stream(String);
fn same(k: usize, got: &Item, want: &Item) -> Result<(), String> {
    match (got, want) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(g), Ok(w)) => {
            let f = |x: &(TimeSpan, VobSubIndexedImage)| {
                (x.0.start.msecs(), x.0.end.msecs(), x.1.area(), *x.1.palette(), *x.1.alpha(), x.1.raw_image().to_vec())
            };
            if f(g) == f(w) {
                Ok(())
            } else {
                Err(format!("item {k} is {}, expected {}", show(f(g)), show(f(w))))
            }
        }
        (Ok(g), Err(w)) => Err(format!("item {k} is {}, expected an error like {w}", show(g))),
        (Err(g), Ok(w)) => Err(format!("item {k} is the error {g}, expected {}", show(w))),
    }
}
impl Stream {
    fn packet(&self, r: &mut Rng, flags: u8, t: u64, ssid: u8, data: &[u8]) -> Vec<u8> {
        let mut head = vec![];
        if flags >= 2 {
            head.extend(put_stamp(2, t));
        }
        if flags == 3 {
            let t = gen_stamp(r);
            head.extend(put_stamp(2, t));
        }
        if r.chance(1, 5) {
            let n = r.below(8) as usize;
            head.extend(r.bytes(n));
        }
        let stuffing = if r.chance(1, 2) { r.below(8) as usize } else { 0 };
        let mut v = put_pack(stuffing);
        let pes = put_pes(flags, &head, ssid, data);
        // the other bits of the flags do not matter
        let p = v.len();
        v.extend(pes);
        if r.chance(1, 4) {
            v[p + 6] |= r.byte() & 0x3f;
            v[p + 7] |= r.byte() & 0x3f;
        }
        v
    }
}
impl Prop for Stream {
    fn rule(&self) -> &'static str {
        "a stream of packs (stuffing, header extensions, split over packets, several sub-streams), garbage, false start codes, damaged and truncated packs; compared item by item with a reference reader, whose data are decoded alone; non-trivial: at least one packet"
    }
    fn gen(&self, _i: u64, r: &mut Rng) -> Option<Vec<u8>> {
        if self.0 == "C16" && r.chance(1, 4) {
            let what = r.pick(&["C12", "C13", "C14"]);
            let t = gen_stamp(r);
            let mut d = gen_data(r, what);
            for _ in 0..r.below(6) {
                if !d.is_empty() {
                    let k = r.below(d.len() as u64) as usize;
                    d[k] = r.pick(&[0, 0xff, 1, 5, 6, 0x80, d[k].wrapping_add(1), d[k].wrapping_sub(1)]);
                }
            }
            return Some(plain(t, &d));
        }
        let mut s = vec![];
        for _ in 0..1 + r.below(4) {
            let what = r.pick(&["C09", "C12", "C09", "C13"]);
            let mut d = gen_data(r, what);
            if r.chance(1, 12) {
                // an inner start code
                let k = r.below(d.len() as u64 + 1) as usize;
                let mut p = plain(77, &[0, 4, 0, 0]);
                let n = p.len() as u64;
                p.truncate(r.range(4, n) as usize);
                let e = d.split_off(k);
                d.extend(p);
                d.extend(e);
                if d.len() >= 2 {
                    d[0] = (d.len() >> 8) as u8;
                    d[1] = d.len() as u8;
                }
            }
            if r.chance(1, 10) && d.len() >= 2 {
                // another size than the one delivered
                let n = (d.len() as u64 + r.below(12)).saturating_sub(6);
                d[0] = (n >> 8) as u8;
                d[1] = n as u8;
            }
            let t = gen_stamp(r);
            let ssid = r.pick(&[0x20, 0x20, 0x21, 0x3f, 0x80]);
            let parts = if r.chance(if self.0 == "C11" { 3 } else { 1 }, 4) { 1 + r.below(4) } else { 1 };
            let mut rest = &d[..];
            for p in 0..parts {
                let n = if p + 1 == parts { rest.len() } else { r.below(rest.len() as u64 + 1) as usize };
                let flags = if p == 0 {
                    if r.chance(1, 15) { 0 } else { r.pick(&[2, 2, 3]) }
                } else {
                    r.pick(&[0, 0, 2, 3])
                };
                if p > 0 && r.chance(1, 4) {
                    let k = r.below(12) as usize;
                    let other = r.bytes(k);
                    let q = self.packet(r, flags, 5, ssid ^ 1, &other);
                    s.extend(q);
                }
                let mut q = self.packet(r, flags, if p == 0 { t } else { 9 }, ssid, &rest[..n]);
                rest = &rest[n..];
                if r.chance(1, 8) {
                    // damage in the headers
                    let k = r.below(q.len().min(30) as u64) as usize;
                    q[k] ^= 1 << r.below(8);
                }
                s.extend(q);
                if r.chance(1, 6) {
                    let g = match r.below(6) {
                        0 => vec![0, 0, 1],
                        1 => vec![0, 0, 1, 0xba],
                        2 => vec![0, 0],
                        3 => put_pack(r.below(8) as usize),
                        4 => {
                            let k = r.below(9) as usize;
                            r.bytes(k)
                        }
                        _ => vec![0, 0, 1, 0xbb, 0, 3, 1, 2, 3],
                    };
                    s.extend(g);
                }
            }
        }
        if r.chance(1, 5) {
            let n = s.len() as u64;
            s.truncate(n.saturating_sub(r.small(60)) as usize);
        }
        Some(s)
    }
    fn large(&self, n: usize) -> Vec<Vec<u8>> {
        let one = plain(90_000, &simple());
        let k = n.min(100_000);
        let mut s: Vec<Vec<u8>> = vec![];
        // start codes that start nothing, garbage, other packets
        for c in [&[0u8, 0, 1, 0xba][..], &[0, 0, 1, 0xba, 0x44], &[0, 0, 1], &[0x55]] {
            s.push([one.clone(), c.repeat(k), one.clone()].concat());
        }
        if n == 40_000 {
            s.push([one.clone(), vec![0xaa; 1_100_000], one.clone()].concat());
        }
        let other = {
            let mut v = put_pack(0);
            v.extend([0, 0, 1, 0xbe, 0, 2, 0xff, 0xff]);
            v
        };
        s.push([one.clone(), other.repeat(k), one.clone()].concat());
        // many subtitles
        s.push(one.repeat(k.min(3000)));
        // a subtitle in many packets, among those of another sub-stream
        let bit = |ssid: u8, d: &[u8]| {
            let mut v = put_pack(0);
            v.extend(put_pes(0, &[], ssid, d));
            v
        };
        for mixed in [false, true] {
            let m = k.min(20_000);
            let mut d = simple();
            d.resize(d.len() + 3 * m, 0x11);
            let total = d.len();
            d[0] = (total >> 8) as u8;
            d[1] = total as u8;
            let mut v = plain(90_000, &d[..10]);
            for c in d[10..].chunks(3) {
                if mixed {
                    v.extend(bit(0x21, &[9]));
                }
                v.extend(bit(0x20, c));
            }
            v.extend(&one);
            s.push(v);
        }
        // what the data of one subtitle can hold many of
        for c in (Data("C13".into())).large(n) {
            s.push(plain(90_000, &c[5..]));
        }
        s
    }
    fn check(&self, s: &[u8]) -> Outcome {
        let got = read(s)?;
        if self.0 == "C16" {
            return Ok(!got.is_empty());
        }
        if self.0 == "C11" {
            again(s, &got)?;
        }
        let mut at = 0;
        let mut n = 0;
        let mut rest = got.iter();
        while let Some(w) = next_data(s, &mut at) {
            let Some(g) = rest.next() else {
                return Err(format!("only {n} items, expected {}", show(w)));
            };
            match w {
                Err(m) => {
                    if let Ok(g) = g {
                        return Err(format!("item {n} is {}, expected an error: {m}", show(g)));
                    }
                }
                Ok((t, d)) => {
                    if d.len() < 2 {
                        if g.is_ok() {
                            return Err(format!("item {n} is {}, expected an error: {} bytes of data", show(g), d.len()));
                        }
                    } else if d.len() < 65000 {
                        // the same data alone in one packet
                        let alone = read(&plain(t, &d))?;
                        let [w] = &alone[..] else {
                            return Err(format!("{} items from one plain packet", alone.len()));
                        };
                        same(n, g, w)?;
                    }
                }
            }
            n += 1;
        }
        if let Some(g) = rest.next() {
            return Err(format!("item {n} is {}, expected the end of the stream", show(g)));
        }
        Ok(n > 0)
    }
}

// ------------------------------------------------------------------ C10: time stamps

/// a simple subtitle
fn simple() -> Vec<u8> {
    vec![
        0, 34, 0, 8, 0, 1, 0, 2, // header, two rows
        0, 0, 0, 8, 1, 3, 0x32, 0x10, 4, 0xff, 0xff, 5, 0, 0, 1, 0, 0, 1, 6, 0, 4, 0, 6, 0xff, 0, 0, 0, 0,
    ][..34]
        .to_vec()
}
struct Stamp;
impl Prop for Stamp {
    fn rule(&self) -> &'static str {
        "time stamp flags, header length and 5 to 10 header bytes, in a packet that holds a simple subtitle; non-trivial: the packet is accepted with a time stamp"
    }
    fn gen(&self, _i: u64, r: &mut Rng) -> Option<Vec<u8>> {
        let flags = r.pick(&[2, 2, 3, 3, 0, 1]);
        let mut h = put_stamp(2, gen_stamp(r)).to_vec();
        if flags == 3 || r.chance(1, 4) {
            h.extend(put_stamp(2, gen_stamp(r)));
        }
        match r.below(8) {
            0 => {
                let k = r.below(h.len() as u64) as usize;
                h[k] ^= 1 << r.below(8);
            }
            1 => h[0] = h[0] & 15 | (r.byte() & 0xf0),
            2 => {
                let n = h.len() as u64;
                h.truncate(r.below(n + 1) as usize);
            }
            3 => {
                let n = r.below(4) as usize;
                h.extend(r.bytes(n));
            }
            _ => {}
        }
        let mut c = vec![flags, r.byte()];
        c.extend(h);
        Some(c)
    }
    fn check(&self, case: &[u8]) -> Outcome {
        let mut c = Cur::new(case);
        let flags = c.u8() & 3;
        let low = c.u8();
        let h = c.rest();
        if h.len() > 200 {
            return Ok(false);
        }
        let mut s = put_pack(0);
        let mut p = put_pes(flags, h, 0x20, &simple());
        p[7] |= low & 0x3f;
        s.extend(p);
        let got = read(&s)?;
        let want = pts(h, u64::from(flags));
        let got1 = got.first();
        match (want, got1) {
            (None, None) => Ok(false),
            (None, Some(g)) => Err(format!("the packet's time stamp is malformed, but it gave {}", show(g))),
            (Some(_), None) => Err("the packet was dropped".into()),
            (Some(None), Some(Err(VobSubError::MissingTimingForSubtitle))) => Ok(true),
            (Some(None), Some(g)) => Err(format!("no time stamp, but it gave {}", show(g))),
            (Some(Some(_)), Some(Err(e))) => match e {
                VobSubError::MissingTimingForSubtitle => Err("the announced time stamp is missing".into()),
                _ => Ok(false),
            },
            (Some(Some(t)), Some(Ok(g))) => {
                let d = 90 * i128::from(g.0.start.msecs()) - i128::from(t);
                if (-90..=90).contains(&d) {
                    Ok(true)
                } else {
                    Err(format!("start is {} ms, the time stamp {t} is {} ms", g.0.start.msecs(), t / 90))
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C12, C13, C14: data

struct Data(String);
impl Prop for Data {
    fn rule(&self) -> &'static str {
        "the data of a subtitle: run-length data, one to four control sequences with repeated, missing, damaged and unsupported commands and bad offsets, in one plain packet, compared with a reference decoder; non-trivial: the subtitle is complete"
    }
    fn gen(&self, _i: u64, r: &mut Rng) -> Option<Vec<u8>> {
        let mut c = gen_stamp(r).to_be_bytes()[3..].to_vec();
        let mut d = gen_data(r, &self.0);
        if self.0 == "C13" && r.chance(1, 50) && d.len() >= 2 {
            d[0] = 0;
            d[1] = r.below(4) as u8;
        }
        c.extend(d);
        Some(c)
    }
    fn large(&self, n: usize) -> Vec<Vec<u8>> {
        let wrap = |mut d: Vec<u8>| {
            let len = d.len();
            d[0] = (len >> 8) as u8;
            d[1] = len as u8;
            let mut v = vec![0, 0, 1, 0x5f, 0x90];
            v.extend(d);
            v
        };
        let cmds = |a: (u16, u16, u16, u16), o: (usize, usize)| {
            let mut v = vec![];
            for c in [Cmd::Start, Cmd::Palette([3, 2, 1, 0]), Cmd::Alpha([15, 15, 15, 0]), Cmd::Coords(a.0, a.1, a.2, a.3), Cmd::Offs(o.0, o.1)] {
                put_cmd(&c, &mut v);
            }
            v
        };
        let mut s = vec![];
        // many linked sequences
        let k = n.min(10_000);
        let mut d = vec![0, 0, 0, 8, 0, 1, 0, 2];
        for i in 0..k {
            let next = d.len() + 5;
            d.extend([(i >> 8) as u8, i as u8, (next >> 8) as u8, next as u8, 0xff]);
        }
        let at = d.len();
        d.extend([0, 9, (at >> 8) as u8, at as u8]);
        d.extend(cmds((0, 1, 0, 1), (4, 6)));
        d.push(0xff);
        s.push(wrap(d));
        // many commands in one sequence, and a long unsupported one
        for (c, m) in [(&[0u8][..], n.min(50_000)), (&[3, 0x12, 0x34], n.min(18_000)), (&[2, 1], n.min(25_000)), (&[5, 0, 0, 1, 0, 0, 1], n.min(8_000))] {
            for first in [true, false] {
                let mut d = vec![0, 0, 0, 8, 0, 1, 0, 2, 0, 0, 0, 8];
                if first {
                    d.extend(cmds((0, 1, 0, 1), (4, 6)));
                }
                d.extend(c.repeat(m));
                if !first {
                    d.extend(cmds((0, 1, 0, 1), (4, 6)));
                }
                d.push(0xff);
                s.push(wrap(d));
            }
        }
        let mut d = vec![0, 0, 0, 8, 0, 1, 0, 2, 0, 0, 0, 8];
        d.extend(cmds((0, 1, 0, 1), (4, 6)));
        d.push(7);
        d.extend(vec![0x22; n.min(50_000)]);
        d.push(0xff);
        s.push(wrap(d));
        // wide and high images
        for (w, h, run) in [(4095u16, 400u16, 0u64), (2, 4095, 0), (4000, 2, 3), (300, 300, 7), (255, 257, 255), (700, 60, 63), (1000, 1000, 0)] {
            let mut f = [vec![], vec![]];
            for y in 0..h {
                let mut b = Bits(vec![], 0);
                let mut x = 0;
                while x < u64::from(w) {
                    let left = u64::from(w) - x;
                    let m = if run == 0 { 0 } else { run.min(left) };
                    b.code(m as usize, (x + u64::from(y)) % 4, 1);
                    x += if m == 0 { left } else { m };
                }
                f[usize::from(y % 2)].extend(b.0);
            }
            let (o0, o1) = (4, 4 + f[0].len());
            let ctl = o1 + f[1].len();
            let mut d = vec![0, 0, (ctl >> 8) as u8, ctl as u8];
            d.extend(f.concat());
            d.extend([0, 0, (ctl >> 8) as u8, ctl as u8]);
            d.extend(cmds((0, w - 1, 0, h - 1), (o0, o1)));
            d.push(0xff);
            if d.len() < 59_000 {
                s.push(wrap(d));
            }
        }
        s
    }
    fn check(&self, case: &[u8]) -> Outcome {
        if case.len() < 7 || case.len() > 60000 {
            return Ok(false);
        }
        let t = case[..5].iter().fold(0u64, |a, b| a << 8 | u64::from(*b)) & ((1 << 33) - 1);
        let mut d = case[5..].to_vec();
        // the declared size is the size, except when it is too small for a header
        let n = if self.0 == "C13" && d[0] == 0 && d[1] < 4 && d.len() >= 4 { usize::from(d[1]) } else { d.len() };
        d[0] = (n >> 8) as u8;
        d[1] = n as u8;
        let want = subtitle(&d[..n.min(d.len())], t);
        if let Ok(w) = &want {
            let area = (usize::from(w.area[1] - w.area[0]) + 1) * (usize::from(w.area[3] - w.area[2]) + 1);
            if area > 2_000_000 {
                return Ok(false);
            }
        }
        let got = read(&plain(t, &d))?;
        let [got] = &got[..] else {
            return Err(format!("{} items from one plain packet", got.len()));
        };
        if self.0 == "C14" {
            let Ok(w) = want else { return Ok(false) };
            return match (got, w.pixels) {
                (Err(_), None) => Ok(false),
                (Ok(g), None) => Err(format!("malformed rows, but decoded to {}", show(g.1.raw_image()))),
                (Err(e), Some(_)) => Err(format!("error {e} for well-formed rows")),
                (Ok(g), Some(p)) => {
                    expect!("pixels", g.1.raw_image(), &p[..]);
                    Ok(true)
                }
            };
        }
        match (got, want) {
            (Err(_), Err(_)) => Ok(false),
            (Ok(g), Err(m)) => Err(format!("{}, expected an error: {m}", show(g))),
            (Err(_), Ok(w)) if w.pixels.is_none() => Ok(false),
            (Err(e), Ok(_)) => Err(format!("error {e} for a well-formed subtitle")),
            (Ok(g), Ok(w)) => {
                let a = g.1.area();
                expect!(
                    "area left top width height",
                    (a.left(), a.top(), a.width(), a.height()),
                    (w.area[0], w.area[2], w.area[1] - w.area[0] + 1, w.area[3] - w.area[2] + 1)
                );
                expect!("palette", *g.1.palette(), w.palette);
                expect!("alpha", *g.1.alpha(), w.alpha);
                for (n, got, want) in [("start", g.0.start.msecs(), w.start), ("end", g.0.end.msecs(), w.end)] {
                    let d = 90 * i128::from(got) - i128::from(want);
                    if !(-90..=90).contains(&d) {
                        return Err(format!("{n} is {got} ms, expected {} / 90 ms", want));
                    }
                }
                Ok(true)
            }
        }
    }
}

// ------------------------------------------------------------------ C15: rendering

struct Render;
fn odd_conv(i: [u8; 2], a: u8) -> LumaA<u8> {
    LumaA([i[0].wrapping_mul(3) ^ a, i[1].wrapping_sub(a)])
}
impl Prop for Render {
    fn rule(&self) -> &'static str {
        "a decoded image of 2..9 x 2..9 pixels with palette and alpha, sixteen colours, colours and border of the OCR options; every pixel of the three renderings is compared; every case is non-trivial"
    }
    fn gen(&self, _i: u64, r: &mut Rng) -> Option<Vec<u8>> {
        let mut c = r.bytes(140);
        for k in 20..72 {
            if r.chance(1, 4) {
                c[k] = 0;
            }
        }
        Some(c)
    }
    fn large(&self, n: usize) -> Vec<Vec<u8>> {
        let m = n.clamp(300, 4000) as u16;
        let mut v = vec![];
        for (w, h) in [(2, m), (m, 2), (m.min(700), m.min(500))] {
            let mut c = Rng::new(u64::from(w)).bytes(140);
            c.resize(200, 0xb1);
            c.extend([w, h].map(u16::to_be_bytes).concat());
            v.push(c);
        }
        v
    }
    fn check(&self, case: &[u8]) -> Outcome {
        let mut c = Cur::new(case);
        let (mut w, mut h) = (2 + u16::from(c.u8() % 8), 2 + u16::from(c.u8() % 8));
        let big = case.len() == 204 && case[140..200] == [0xb1; 60];
        if big {
            w = u16::from_be_bytes([case[200], case[201]]).clamp(2, 4000);
            h = u16::from_be_bytes([case[202], case[203]]).clamp(2, 4000);
            if u32::from(w) * u32::from(h) > 1_000_000 {
                return Ok(false);
            }
        }
        let (x, y) = (c.u16() % 4000, c.u16() % 4000);
        let (x, y) = (x.min(4096 - w), y.min(4096 - h));
        let area = Area::try_from(AreaValues { x1: x, y1: y, x2: x + w - 1, y2: y + h - 1 }).map_err(|e| format!("area: {e}"))?;
        let border = u32::from(c.u8() % 6);
        let (text, back) = (Luma([c.u8()]), Luma([c.u8()]));
        let mut n4 = || [c.u8() & 15, c.u8() & 15, c.u8() & 15, c.u8() & 15];
        let (pal, alpha) = (n4(), n4());
        let mut p16 = [[0u8; 3]; 16];
        for p in &mut p16 {
            *p = [c.u8(), c.u8(), c.u8()];
        }
        let raw: Vec<u8> = if big {
            let mut r = Rng::new(7);
            (0..u32::from(w) * u32::from(h)).map(|_| r.byte() & 3).collect()
        } else {
            (0..u32::from(w) * u32::from(h)).map(|_| c.u8() & 3).collect()
        };
        let img = VobSubIndexedImage::new(area, pal, alpha, raw.clone());
        expect!("size", (img.width(), img.height()), (u32::from(w), u32::from(h)));
        let at = |x: u32, y: u32| usize::from(raw[(y * u32::from(w) + x) as usize]);
        let rgb = p16.map(Rgb);
        let a = VobSubToImage::new(&img, &rgb, conv_to_rgba).to_image();
        expect!("rendered size", a.dimensions(), (u32::from(w), u32::from(h)));
        let two = p16.map(|p| [p[0], p[1]]);
        let b = VobSubToImage::new(&img, &two, odd_conv).to_image();
        expect!("rendered size", b.dimensions(), (u32::from(w), u32::from(h)));
        for y in 0..u32::from(h) {
            for x in 0..u32::from(w) {
                let i = at(x, y);
                let q = p16[usize::from(pal[i])];
                expect!(format!("pixel {x} {y}"), *a.get_pixel(x, y), Rgba([q[0], q[1], q[2], alpha[i]]));
                expect!(format!("pixel {x} {y}"), *b.get_pixel(x, y), odd_conv([q[0], q[1]], alpha[i]));
            }
        }
        let tone = palette_rgb_to_luminance(&rgb);
        for (k, p) in p16.iter().enumerate() {
            let want = (2126 * u32::from(p[0]) + 7152 * u32::from(p[1]) + 722 * u32::from(p[2])) / 10000;
            expect!(format!("luminance {k}"), u32::from(tone[k].0[0]), want);
        }
        let d = ToOcrImageOpt::default();
        expect!("default options", (d.border, d.text_color, d.background_color), (5, Luma([0]), Luma([255])));
        let luma = p16.map(|p| Luma([p[2]]));
        let o = VobSubOcrImage::new(&img, &luma).image(&ToOcrImageOpt { border, text_color: text, background_color: back });
        expect!("ocr size", o.dimensions(), (u32::from(w) + 2 * border, u32::from(h) + 2 * border));
        for y in 0..o.height() {
            for x in 0..o.width() {
                let inside = x >= border && x < u32::from(w) + border && y >= border && y < u32::from(h) + border;
                let want = if inside {
                    let i = at(x - border, y - border);
                    if alpha[i] > 0 && luma[usize::from(pal[i])].0[0] > 0 { text } else { back }
                } else {
                    back
                };
                expect!(format!("ocr pixel {x} {y}"), *o.get_pixel(x, y), want);
            }
        }
        Ok(true)
    }
}
