// Unit vobimg: C14, C15
@include vobcommon.vc
@include img.vc

// ------------------------------------------------------------------ rendering
// a function pointer `fn(A, B) -> R`
pub mod fnptr {
use vstd::prelude::*;
#[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)] #[verifier::reject_recursive_types(R)]
pub struct VxFn2<A, B, R> { f: fn(A, B) -> R }
impl<A, B, R> Copy for VxFn2<A, B, R> {}
impl<A, B, R> Clone for VxFn2<A, B, R> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<A, B, R> VxFn2<A, B, R> {
    pub uninterp spec fn pre(&self, a: A, b: B) -> bool;
    pub uninterp spec fn post(&self, a: A, b: B, r: R) -> bool;
    #[verifier::external_body]
    pub fn call(&self, a: A, b: B) -> (r: R) requires self.pre(a, b), ensures self.post(a, b, r) { (self.f)(a, b) }
}
// comparison of arrays: lexicographic
#[verifier::external_body]
pub fn vx_array_gt(a: [u8; 1], b: [u8; 1]) -> (r: bool) ensures r == (a[0] > b[0]) { a > b }
}
pub mod conv {
use vstd::prelude::*;
use super::base::*;
use super::fnptr::*;
use super::image::*;
use super::imgarea::*;
use super::iter_fixed::*;
use super::content::*;
use super::img::*;
#[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(P)]
@type src/vobsub/img.rs VobSubToImage
@type src/vobsub/img.rs VobSubOcrImage
@type src/vobsub/palette.rs PaletteLuma
@type src/vobsub/palette.rs Palette
@fn src/vobsub/palette.rs palette_rgb_to_luminance : C15
@ret r
@spec
    ensures forall|k: int| 0 <= k < 16 ==> #[trigger] r@[k].0[0] == luma_of(palette@[k]), //#C15
@closure 0 (Rgb<u8>) -> (r: Luma<u8>)
    ensures r.0[0] == luma_of(rgb)
@endfn
@type src/image/mod.rs ToOcrImageOpt derive=Copy,Clone
@fn src/image/mod.rs <Default for ToOcrImageOpt>::default : C15
@opt inherent
@ret r
@spec
    ensures r.border == 5, r.text_color == Luma([0u8]), r.background_color == Luma([255u8]), //#C15
@endfn
pub open spec fn offset_of(x: int, y: int, w: int) -> int { y * w + x }
pub proof fn offsets(w: int, h: int)
    requires 0 <= w <= 65535, 0 <= h <= 65535,
    ensures forall|x: int, y: int| 0 <= x < w && 0 <= y < h ==> 0 <= #[trigger] offset_of(x, y, w) < w * h && 0 <= y * w <= w * h && w * h <= 0xfffe0001
{
    mul_le(w, h, 65535, 65535);
    assert forall|x: int, y: int| 0 <= x < w && 0 <= y < h implies 0 <= #[trigger] offset_of(x, y, w) < w * h && 0 <= y * w <= w * h by {
        assert(0 <= y * w <= (h - 1) * w) by(nonlinear_arith) requires 0 <= y <= h - 1, 0 <= w;
        assert((h - 1) * w + w == w * h) by(nonlinear_arith);
    }
}
@fn src/vobsub/img.rs conv_to_rgba : C15
@ret r
@spec
    ensures r.0@ == seq![color.0[0], color.0[1], color.0[2], alpha], //#C15
@endfn
impl<I, P: Pixel<Subpixel = u8>> VobSubToImage<'_, I, P> {
    // p is a conversion of the colour and the alpha that the 2-bit index k selects
    pub open spec fn colour(&self, conv: VxFn2<I, u8, P>, k: int, p: P) -> bool where I: Clone {
        exists|c: I| cloned(self.palette[self.indexed_img.palette[k] as int], c) && #[trigger] conv.post(c, self.indexed_img.alpha[k], p)
    }
}
@fn src/vobsub/img.rs VobSubToImage::new : C15
@ret r
@spec
    ensures r.indexed_img == img, r.palette == palette, r.conv_fn == conv_fn //#C15
@endfn
@fn src/vobsub/img.rs VobSubToImage::compute_palette_color : C15
@ret r
@spec
    requires decoded(*self.indexed_img), forall|c: I, a: u8| #[trigger] conv.pre(c, a),
    ensures forall|k: int| 0 <= k < 4 ==> self.colour(conv, k, #[trigger] r[k]), //#C15
@closure 0 ((&u8, &u8)) -> (r: (I, u8))
    requires *$0.0 < 16
    ensures cloned(self.palette[*$0.0 as int], r.0), r.1 == *$0.1
@closure 1 ((I, u8)) -> (r: P)
    requires forall|c: I, a: u8| #[trigger] conv.pre(c, a),
    ensures conv.post($0.0, $0.1, r)
@endfn
@fn src/vobsub/img.rs <ToImage for VobSubToImage>::to_image : C15
@opt impl=impl<I: Clone, P: Pixel<Subpixel = u8>> VobSubToImage<'_, I, P>
@ret r
@spec
    requires decoded(*self.indexed_img), forall|c: I, a: u8| #[trigger] self.conv_fn.pre(c, a),
    ensures
        r.w() == wide(*self.indexed_img), r.h() == high(*self.indexed_img), //#C15
        forall|x: int, y: int| 0 <= x < r.w() && 0 <= y < r.h() ==> self.colour(self.conv_fn, self.indexed_img.raw_image@[offset_of(x, y, r.w())] as int, #[trigger] r.at(x, y)), //#C15
@start
    proof { offsets(wide(*self.indexed_img), high(*self.indexed_img)); }
    broadcast use sizes;
@closure 0 (u32, u32) -> (r: P)
    requires $0 < width, $1 < height
    ensures self.colour(self.conv_fn, self.indexed_img.raw_image@[offset_of($0 as int, $1 as int, width as int)] as int, r)
    ---
    assert(0 <= offset_of($0 as int, $1 as int, width as int) < width * height);
@endfn
@fn src/vobsub/img.rs VobSubOcrImage::new : C15
@ret r
@spec
    ensures r.indexed_img == indexed_img, r.palette == palette //#C15
@endfn
impl VobSubOcrImage<'_> {
    // the colour of the 2-bit index k
    pub open spec fn colour(&self, opt: ToOcrImageOpt, k: int) -> Luma<u8> {
        if self.indexed_img.alpha[k] != 0 && self.palette[self.indexed_img.palette[k] as int].0[0] != 0 { opt.text_color } else { opt.background_color }
    }
    // the colour of pixel (x, y) of the OCR image
    pub open spec fn shown(&self, opt: ToOcrImageOpt, x: int, y: int) -> Luma<u8> {
        let (w, h, b) = (wide(*self.indexed_img), high(*self.indexed_img), opt.border as int);
        if x < b || x >= w + b || y < b || y >= h + b { opt.background_color }
        else { self.colour(opt, self.indexed_img.raw_image@[offset_of(x - b, y - b, w)] as int) }
    }
}
@fn src/vobsub/img.rs VobSubOcrImage::compute_palette_color : C15
@opt rule=__a > LUMA_BLACK => vx_array_gt(__a, LUMA_BLACK)
@ret r
@spec
    requires decoded(*self.indexed_img),
    ensures forall|k: int| 0 <= k < 4 ==> #[trigger] r[k] == self.colour(opt, k), //#C15
@closure 0 ((&u8, &u8)) -> (r: (Luma<u8>, u8))
    requires *$0.0 < 16
    ensures r.0 == self.palette[*$0.0 as int], r.1 == *$0.1
@closure 1 ((Luma<u8>, u8)) -> (r: Luma<u8>)
    ensures r == (if $0.1 != 0 && $0.0.0[0] != 0 { opt.text_color } else { opt.background_color })
@endfn
@fn src/vobsub/img.rs <ToOcrImage for VobSubOcrImage>::image : C15
@opt impl=impl VobSubOcrImage<'_>
@ret r
@spec
    requires decoded(*self.indexed_img),
        wide(*self.indexed_img) + opt.border * 2 <= u32::MAX, high(*self.indexed_img) + opt.border * 2 <= u32::MAX,
    ensures
        r.w() == wide(*self.indexed_img) + opt.border * 2, r.h() == high(*self.indexed_img) + opt.border * 2, //#C15
        forall|x: int, y: int| 0 <= x < r.w() && 0 <= y < r.h() ==> #[trigger] r.at(x, y) == self.shown(*opt, x, y), //#C15
@start
    proof { offsets(wide(*self.indexed_img), high(*self.indexed_img)); }
    broadcast use sizes;
@closure 0 (u32, u32) -> (r: Luma<u8>)
    requires $0 < width + border * 2, $1 < height + border * 2
    ensures r == self.shown(*opt, $0 as int, $1 as int)
    ---
    proof {
        if $0 >= border && $1 >= border && $0 - border < width && $1 - border < height {
            assert(0 <= offset_of($0 - border, $1 - border, width as int) < width * height);
        }
    }
@endfn
}
} // verus!
fn main() {}
