// src/vobsub/img.rs
// ------------------------------------------------------------------ run-length encoded images
pub mod img {
use vstd::prelude::*;
broadcast use super::base::bit_values;
use super::base::*;
use super::io_model::*;
use super::std_model::*;
use super::nom::{*, self, Parser as _};
use super::nom::bits_complete::{tag as tag_bits, take as take_bits};
use super::nom::bits as bitv;
use super::vobsub::{NomError, VobSubError};
use super::vobsub::img::Error;
use super::content::*;
use super::imgarea::*;
use super::image::{mul_le, sizes};
use super::to_result::*;
@type src/vobsub/img.rs VobSubRleImage
@type src/vobsub/img.rs VobSubRleImageData
@type src/vobsub/img.rs Rle
@type src/vobsub/img.rs VobSubIndexedImage derive=Debug
// C14: the length of the run encoded at bit k, and how many bits it takes
pub open spec fn length(s: Seq<u8>, k: int) -> Option<(int, int)> {
    let left = 8 * s.len() - k;
    if left >= 14 && bitv(s, k, 14) == 0 { Some((0, 14)) }
    else if left >= 14 && bitv(s, k, 6) == 0 { Some((bitv(s, k + 6, 8), 14)) }
    else if left >= 10 && bitv(s, k, 4) == 0 { Some((bitv(s, k + 4, 6), 10)) }
    else if left >= 6 && bitv(s, k, 2) == 0 { Some((bitv(s, k + 2, 4), 6)) }
    else if left >= 2 { Some((bitv(s, k, 2), 2)) }
    else { None }
}
// the run: length, 2-bit colour, number of bits
pub open spec fn code(s: Seq<u8>, k: int) -> Option<(int, int, int)> {
    match length(s, k) {
        None => None,
        Some((c, n)) => if k + n + 2 > 8 * s.len() { None } else { Some((c, bitv(s, k + n, 2), n + 2)) },
    }
}
pub open spec fn run_of(v: int, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| v as u8) }
// the rest of a row from pixel x on, and the bit after it
pub open spec fn line(s: Seq<u8>, k: int, x: int, w: int) -> Option<(Seq<u8>, int)> decreases w - x {
    if x >= w { Some((seq![], k)) } else {
        match code(s, k) {
            None => None,
            Some((c, v, n)) => {
                let c = if c == 0 { w - x } else { c };
                if c <= 0 || x + c > w { None } else {
                    match line(s, k + n, x + c, w) { None => None, Some((p, e)) => Some((run_of(v, c) + p, e)) }
                }
            },
        }
    }
}
// a row and its size in bytes
pub open spec fn row(s: Seq<u8>, w: int) -> Option<(Seq<u8>, int)> {
    match line(s, 0, 0, w) { None => None, Some((p, e)) => Some((p, (e + 7) / 8)) }
}
// rows y.. of an image: the even ones from offset a of d0, the odd ones from offset b of d1
pub open spec fn rows(d0: Seq<u8>, d1: Seq<u8>, a: int, b: int, y: int, w: int, h: int) -> Option<Seq<u8>> decreases h - y {
    if y >= h { Some(seq![]) } else {
        match (if y % 2 == 0 { row(d0.skip(a), w) } else { row(d1.skip(b), w) }) {
            None => None,
            Some((p, n)) => match (if y % 2 == 0 { rows(d0, d1, a + n, b, y + 1, w, h) } else { rows(d0, d1, a, b + n, y + 1, w, h) }) {
                None => None, Some(q) => Some(p + q),
            },
        }
    }
}
@fn src/vobsub/img.rs VobSubRleImage::new : C13 C14
@ret r
@spec
    ensures r.area == area, r.palette == palette, r.alpha == alpha, r.image_data == image_data
@endfn
@fn src/vobsub/img.rs VobSubRleImage::size : C14
@ret r
@spec
    requires valid(self.area.0),
    ensures r.w == self.area.0.x2 - self.area.0.x1 + 1, r.h == self.area.0.y2 - self.area.0.y1 + 1
@endfn
@fn src/vobsub/img.rs VobSubRleImage::palette : C13
@ret r
@spec
    ensures *r == self.palette
@endfn
@fn src/vobsub/img.rs VobSubRleImage::alpha : C13
@ret r
@spec
    ensures *r == self.alpha
@endfn
@fn src/vobsub/img.rs VobSubRleImage::raw_data : C14
@ret r
@spec
    ensures *r == self.image_data
@endfn
@fn src/vobsub/img.rs <ImageArea for VobSubRleImage<'_>>::area : C13 C19
@opt traitimpl
@opt implextra=open spec fn place(&self) -> Area { self.area }
@endfn
@fn src/vobsub/img.rs <ImageArea for VobSubIndexedImage>::area : C13 C19
@opt traitimpl
@opt implextra=open spec fn place(&self) -> Area { self.area }
@endfn
// C13: where the even and the odd rows are
pub open spec fn fields(s: Seq<u8>, o0: int, o1: int, end: int) -> Option<(Seq<u8>, Seq<u8>)> {
    if o0 <= o1 <= end { Some((s.subrange(o0, end), s.subrange(o1, end))) } else { None }
}
@fn src/vobsub/img.rs VobSubRleImageData::new : C13 C16
@ret r
@spec
    requires end <= raw_data@.len(),
    ensures match r {
        Ok(d) => fields(raw_data@, rle_offsets[0] as int, rle_offsets[1] as int, end as int) == Some((d.data[0]@, d.data[1]@)), //#C13
        Err(_) => fields(raw_data@, rle_offsets[0] as int, rle_offsets[1] as int, end as int) is None, //#C13
    }
@endfn
@fn src/vobsub/img.rs count : C14
@ret r
@spec
    requires input.ok(),
    ensures match r {
        Ok((m, v)) => length(input.0@, input.1 as int) matches Some((c, n)) && v == c && adv(input, n, m) && m.ok(), //#C14
        Err(e) => e is Error && length(input.0@, input.1 as int) is None, //#C14
    }
@start
    broadcast use bitpos;
    reveal(at);
@endfn
@fn src/vobsub/img.rs rle : C14
@ret r
@spec
    requires input.ok(),
    ensures match r {
        Ok((m, v)) => code(input.0@, input.1 as int) matches Some((c, p, n)) && v.cnt == c && v.val == p && adv(input, n, m), //#C14
        Err(e) => code(input.0@, input.1 as int) is None, //#C14
    }
@start
    broadcast use bitpos;
    reveal(at);
@endfn
pub proof fn line_more(s: Seq<u8>, k: int, x: int, w: int)
    ensures line(s, k, x, w) matches Some((p, e)) ==> p.len() == (if x < w { w - x } else { 0 }) && k <= e && (x < w ==> e <= 8 * s.len())
    decreases w - x
{
    if x < w {
        match code(s, k) {
            None => {}
            Some((c, v, n)) => { bits_bound(s, k, 2); bits_bound(s, k + 2, 4); bits_bound(s, k + 4, 6); bits_bound(s, k + 6, 8); let c = if c == 0 { w - x } else { c }; if 0 < c && x + c <= w { line_more(s, k + n, x + c, w); } }
        }
    }
}
@eta Error::ScanLineParsing (NomError) -> Error
@fn src/vobsub/img.rs scan_line : C14 C16
@ret r
@spec
    requires old(output)@.len() <= 65535,
    ensures match r {
        Ok(n) => row(input@, old(output)@.len() as int) == Some((final(output)@, n as int)) && n <= input@.len(), //#C14
        Err(_) => row(input@, old(output)@.len() as int) is None, //#C14
    }, final(output)@.len() == old(output)@.len()
@start
    let ghost i0 = (input, 0usize);
    let ghost mut k: int = 0;
    broadcast use bitpos;
    proof { line_more(input@, 0, 0, output@.len() as int); }
@beforeloop 0
    proof { reveal(adv); }
    let ghost w0 = width as int;
    let ghost l0 = line(input@, 0, 0, w0);
    assert(output@.take(0) =~= seq![]);
    assert(l0 matches Some((p, e)) ==> output@.take(0) + p =~= p);
@loop 0 : while x < width
    invariant
        adv(i0, k, pos), i0 == (input, 0usize), x <= width, width <= 65535, width == output@.len(), width == old(output)@.len(),
        l0 == line(input@, 0, 0, width as int),
        match line(input@, k, x as int, width as int) { None => l0 is None, Some((p, e)) => l0 == Some((output@.take(x as int) + p, e)) },
    decreases width - x
@loopstart 0
    broadcast use bitpos;
    let ghost g = output@;
    let ghost gx = x as int;
    proof { code_at(i0, k, pos); if code(input@, k) is None { assert(line(input@, k, x as int, width as int) is None); } }
@after rle 0
    proof {
        let cd = code(input@, k)->0;
        assert(adv(pos, cd.2, new_pos) && adv(i0, k + cd.2, new_pos));
        bits_bound(input@, k + cd.2 - 2, 2);
        assert(p2(2) == 4) by(compute);
    }
@loopend 0
    proof {
        let cd = code(input@, k)->0;
        let c = x - gx;
        assert(output@.take(gx) =~= g.take(gx));
        assert(output@.take(x as int) =~= g.take(gx) + run_of(cd.1, c));
        match line(input@, k + cd.2, x as int, width as int) {
            None => {},
            Some((p, e)) => { assert(g.take(gx) + (run_of(cd.1, c) + p) =~= output@.take(x as int) + p); }
        }
        k = k + cd.2;
    }
@afterloop 0
    assert(output@.take(x as int) =~= output@);
    assert(output@ + Seq::<u8>::empty() =~= output@);
    proof { reveal(adv); }
@endfn
// C14: all pixels are there, and each is a 2-bit index
pub proof fn rows_size(d0: Seq<u8>, d1: Seq<u8>, a: int, b: int, y: int, w: int, h: int)
    requires y <= h, 0 <= w,
    ensures rows(d0, d1, a, b, y, w, h) matches Some(q) ==> q.len() == (h - y) * w && forall|i: int| 0 <= i < q.len() ==> q[i] < 4 //#C14
    decreases h - y
{
    if y < h {
        let d = if y % 2 == 0 { d0.skip(a) } else { d1.skip(b) };
        line_more(d, 0, 0, w);
        line_bits(d, 0, 0, w);
        assert((h - y) * w == w + (h - y - 1) * w) by(nonlinear_arith);
        match row(d, w) {
            None => {}
            Some((p, n)) => {
                assert(p.len() == w);
                if y % 2 == 0 { rows_size(d0, d1, a + n, b, y + 1, w, h); } else { rows_size(d0, d1, a, b + n, y + 1, w, h); }
            }
        }
    } else { assert((h - y) * w == 0) by(nonlinear_arith) requires h == y; }
}
pub proof fn line_bits(s: Seq<u8>, k: int, x: int, w: int)
    requires 0 <= k,
    ensures line(s, k, x, w) matches Some((p, e)) ==> forall|i: int| 0 <= i < p.len() ==> p[i] < 4
    decreases w - x
{
    if x < w {
        match code(s, k) {
            None => {}
            Some((c, v, n)) => {
                bits_bound(s, k + n - 2, 2);
                assert(p2(2) == 4) by(compute);
                let c = if c == 0 { w - x } else { c };
                if 0 < c && x + c <= w { line_bits(s, k + n, x + c, w); }
            }
        }
    }
}
@fn src/vobsub/img.rs decompress : C14 C16
@ret r
@spec
    requires size.w <= 65535, size.h <= 65535,
    ensures match r {
        Ok(p) => rows(data.data[0]@, data.data[1]@, 0, 0, 0, size.w as int, size.h as int) == Some(p@), //#C14
        Err(_) => rows(data.data[0]@, data.data[1]@, 0, 0, 0, size.w as int, size.h as int) is None, //#C14
    },
        r matches Ok(p) ==> p@.len() == size.w * size.h && forall|i: int| 0 <= i < p@.len() ==> p@[i] < 4, //#C14
@start
    proof { rows_size(data.data[0]@, data.data[1]@, 0, 0, 0, size.w as int, size.h as int); }
    broadcast use sizes;
    assert(size.w * size.h <= 0xfffe0001);
@beforeloop 0
    let ghost all = rows(data.data[0]@, data.data[1]@, 0, 0, 0, size.w as int, size.h as int);
    assert(all matches Some(q) ==> img@.take(0) + q =~= q);
    assert(0 * size.w == 0) by(nonlinear_arith);
    assert(offsets@ =~= seq![0usize, 0usize]);
    assert(rows(data.data[0]@, data.data[1]@, offsets[0] as int, offsets[1] as int, 0, size.w as int, size.h as int) == all);
@loop 0 : for y in 0..size.h
    invariant
        size.w <= 65535, size.h <= 65535, img@.len() == size.w * size.h,
        offsets[0] <= data.data[0]@.len(), offsets[1] <= data.data[1]@.len(),
        match rows(data.data[0]@, data.data[1]@, offsets[0] as int, offsets[1] as int, y as int, size.w as int, size.h as int) {
            None => all is None, Some(q) => all == Some(img@.take(y * size.w) + q)
        },
        all == rows(data.data[0]@, data.data[1]@, 0, 0, 0, size.w as int, size.h as int),
@loopstart 0
    broadcast use sizes;
    let ghost g = img@;
    let ghost go = offsets@;
    let ghost lo = y * size.w;
    let ghost hi = (y + 1) * size.w;
    proof {
        mul_le(y as int, size.w as int, 65535, 65535);
        assert(hi == lo + size.w) by(nonlinear_arith) requires hi == (y + 1) * size.w, lo == y * size.w;
        assert(hi <= img@.len()) by(nonlinear_arith) requires hi == (y + 1) * size.w, img@.len() == size.w * size.h, y + 1 <= size.h;
        mul_le(y as int + 1, size.w as int, 65535, 65535);
        assert(data.data[0].len() == data.data[0]@.len() && data.data[1].len() == data.data[1]@.len());
    }
@loopend 0
    assert(img@.take(hi) =~= g.take(lo) + img@.subrange(lo, hi));
    proof {
        match rows(data.data[0]@, data.data[1]@, offsets[0] as int, offsets[1] as int, y + 1, size.w as int, size.h as int) {
            None => {},
            Some(q) => { assert(g.take(lo) + (img@.subrange(lo, hi) + q) =~= img@.take(hi) + q); }
        }
    }
@afterloop 0
    proof {
        assert(img@.take(img@.len() as int) =~= img@);
        assert(img@ + Seq::<u8>::empty() =~= img@);
        assert(size.h * size.w == size.w * size.h) by(nonlinear_arith);
    }
@endfn
@fn src/vobsub/img.rs VobSubIndexedImage::new : C13 C14
@ret r
@spec
    ensures r.area == area, r.palette == palette, r.alpha == alpha, r.raw_image@ == raw_image@
@endfn
@fn src/vobsub/img.rs VobSubIndexedImage::palette : C13 C15
@ret r
@spec
    ensures *r == self.palette
@endfn
@fn src/vobsub/img.rs VobSubIndexedImage::alpha : C13 C15
@ret r
@spec
    ensures *r == self.alpha
@endfn
@fn src/vobsub/img.rs VobSubIndexedImage::raw_image : C14 C15
@ret r
@spec
    ensures r@ == self.raw_image@
@endfn
pub open spec fn wide(i: VobSubIndexedImage) -> int { i.area.0.x2 - i.area.0.x1 + 1 }
pub open spec fn high(i: VobSubIndexedImage) -> int { i.area.0.y2 - i.area.0.y1 + 1 }
// what decoding gives (C13, C14), and rendering needs (C15)
pub open spec fn decoded(i: VobSubIndexedImage) -> bool {
    &&& valid(i.area.0)
    &&& i.raw_image@.len() == wide(i) * high(i)
    &&& forall|k: int| 0 <= k < i.raw_image@.len() ==> #[trigger] i.raw_image@[k] < 4
    &&& forall|k: int| 0 <= k < 4 ==> #[trigger] i.palette[k] < 16
}
// what is decoded from run-length encoded data
pub open spec fn pixels(i: VobSubRleImage) -> Option<Seq<u8>> {
    rows(i.image_data.data[0]@, i.image_data.data[1]@, 0, 0, 0, i.area.0.x2 - i.area.0.x1 + 1, i.area.0.y2 - i.area.0.y1 + 1)
}
@fn src/vobsub/img.rs <TryFrom for VobSubIndexedImage>::try_from : C13 C14
@opt inherent
@ret r
@spec
    requires valid(rle_image.area.0),
    ensures match r {
        Ok(i) => pixels(rle_image) == Some(i.raw_image@) && i.area == rle_image.area && i.palette == rle_image.palette && i.alpha == rle_image.alpha, //#C13 C14
        Err(_) => pixels(rle_image) is None, //#C13 C14
    }
@endfn
pub proof fn code_at<'a>(i: (&'a [u8], usize), k: int, m: (&'a [u8], usize))
    requires adv(i, k, m), i.1 == 0,
    ensures code(m.0@, m.1 as int) == code(i.0@, k)
{
    reveal(adv);
    broadcast use bits_skip;
}
}

