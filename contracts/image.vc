// ------------------------------------------------------------------ stand-ins for the image crate
pub mod image {
use vstd::prelude::*;
pub proof fn mul_le(a: int, b: int, m: int, n: int)
    requires 0 <= a <= m, 0 <= b <= n,
    ensures 0 <= a * b <= m * n
{ assert(0 <= a * b <= m * n) by(nonlinear_arith) requires 0 <= a <= m, 0 <= b <= n; }
// products of sizes do not overflow, however the product is written
pub broadcast proof fn mul_u16(a: int, b: int)
    requires 0 <= a <= 65535, 0 <= b <= 65535,
    ensures 0 <= #[trigger] (a * b) <= 0xfffe0001
{ mul_le(a, b, 65535, 65535); }
pub broadcast proof fn mul_u32(a: int, b: int)
    requires 0 <= a <= 0xffffffff, 0 <= b <= 0xffffffff,
    ensures 0 <= #[trigger] (a * b) <= 0xfffffffe00000001
{ mul_le(a, b, 0xffffffff, 0xffffffff); }
pub broadcast group sizes { mul_u16, mul_u32 }
pub struct LumaA<T>(pub [T; 2]);
impl Copy for LumaA<u8> {}
impl Clone for LumaA<u8> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub struct Luma<T>(pub [T; 1]);
impl Copy for Luma<u8> {}
impl Clone for Luma<u8> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub trait Pixel: Copy {
    type Subpixel;
    spec fn count() -> nat;
    spec fn chan(&self) -> Seq<u8>;
    proof fn count_bound() ensures Self::count() <= 4;
    fn channel_count() -> (r: u8) ensures r == Self::count();
    fn channels(&self) -> (r: &[u8]) ensures r@ == self.chan(), r@.len() == Self::count();
}
pub struct Rgb<T>(pub [T; 3]);
impl Copy for Rgb<u8> {}
impl Clone for Rgb<u8> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
// ITU-R BT.709 luma in integers, as the image crate computes it
pub open spec fn luma_of(c: Rgb<u8>) -> int { (2126 * c.0[0] + 7152 * c.0[1] + 722 * c.0[2]) / 10000 }
impl Rgb<u8> {
    #[verifier::external_body]
    pub fn to_luma(&self) -> (r: Luma<u8>) ensures r.0[0] == luma_of(*self) { unimplemented!() }
}
impl Rgb<u8> { pub fn channels(&self) -> (r: &[u8]) ensures r@ == self.0@ { self.0.as_slice() } }
pub struct Rgba<T>(pub [T; 4]);
impl Pixel for Luma<u8> {
    type Subpixel = u8;
    open spec fn count() -> nat { 1 }
    open spec fn chan(&self) -> Seq<u8> { self.0@ }
    proof fn count_bound() {}
    fn channel_count() -> (r: u8) { 1 }
    fn channels(&self) -> (r: &[u8]) { self.0.as_slice() }
}
// image::ImageBuffer<P, Vec<u8>>: rows from top to bottom, pixels from left to right
#[verifier::external_body] #[verifier::accept_recursive_types(P)]
pub struct ImageBuffer<P> { p: Vec<P> }
pub type GrayImage = ImageBuffer<Luma<u8>>;
impl<P> ImageBuffer<P> {
    pub uninterp spec fn w(&self) -> int;
    pub uninterp spec fn h(&self) -> int;
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self, x: int, y: int) -> P;
    #[verifier::external_body]
    pub fn from_fn<F: Fn(u32, u32) -> P>(w: u32, h: u32, f: F) -> (r: Self)
        requires forall|x: u32, y: u32| x < w && y < h ==> #[trigger] f.requires((x, y)),
        ensures r.w() == w, r.h() == h, forall|x: u32, y: u32| #![trigger r.at(x as int, y as int)] x < w && y < h ==> f.ensures((x, y), r.at(x as int, y as int)),
    { unimplemented!() }
}
impl<P: Pixel> ImageBuffer<P> {
    #[verifier::external_body]
    pub fn from_vec(w: u32, h: u32, buf: Vec<u8>) -> (r: Option<Self>)
        ensures r is Some <==> buf@.len() >= w * h * P::count(),
            r matches Some(i) ==> i.w() == w && i.h() == h && i.bytes() == buf@,
    { unimplemented!() }
    // the channels of the k-th pixel
    pub open spec fn px(&self, k: int) -> Seq<u8> { self.bytes().subrange(k * P::count(), (k + 1) * P::count()) }
}
}
@rule <u8 as Primitive>::DEFAULT_MIN_VALUE => 0u8
@rule <u8 as Primitive>::DEFAULT_MAX_VALUE => 255u8
@path ImageBuffer::<P, Vec<u8>>::from_vec => ImageBuffer::<P>::from_vec
@path ImageBuffer<P, Vec<u8>> => ImageBuffer<P>
@path image::GrayImage => GrayImage
