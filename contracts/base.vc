// ------------------------------------------------------------------ base prelude
#![allow(unused, non_snake_case, non_camel_case_types, dead_code)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod base {
use vstd::prelude::*;
use core::fmt;
pub use super::strs::*;
pub use super::std_ops::*;

// panic!/assert! of the code: reaching them must be impossible
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }
pub fn vx_assert(b: bool) requires b {}

// an argument of a log macro
#[verifier::external_body]
pub fn vx_log<T: ?Sized>(x: &T) {}

// text of a format!(..): left unspecified
#[verifier::external_body]
pub fn vx_format() -> String { String::new() }

// i64::from(x), for the integers vstd does not cover
pub trait VxToI64: Sized {
    spec fn val(&self) -> int;
    fn to_i64(self) -> (r: i64) ensures r == self.val();
}
impl VxToI64 for u8 { open spec fn val(&self) -> int { *self as int } fn to_i64(self) -> (r: i64) { self as i64 } }
impl VxToI64 for u16 { open spec fn val(&self) -> int { *self as int } fn to_i64(self) -> (r: i64) { self as i64 } }
impl VxToI64 for u32 { open spec fn val(&self) -> int { *self as int } fn to_i64(self) -> (r: i64) { self as i64 } }
impl VxToI64 for i32 { open spec fn val(&self) -> int { *self as int } fn to_i64(self) -> (r: i64) { self as i64 } }
pub fn vx_i64_from<T: VxToI64>(x: T) -> (r: i64) ensures r == x.val() { x.to_i64() }

// shifts and masks by their values, however they are combined
pub broadcast proof fn shl8_u16(a: u16)
    requires a < 0x100,
    ensures #[trigger] (a << 8) == a * 0x100,
{ assert((a << 8) == a * 0x100) by(bit_vector) requires a < 0x100, ; }
pub broadcast proof fn or8_u16(a: u16, b: u16)
    requires a % 0x100 == 0, b < 0x100,
    ensures #[trigger] (a | b) == a + b,
{ assert((a | b) == a + b) by(bit_vector) requires a % 0x100 == 0, b < 0x100, ; }
pub broadcast proof fn shr8_u16(a: u16)
    requires true,
    ensures #[trigger] (a >> 8) == a / 0x100,
{ assert((a >> 8) == a / 0x100) by(bit_vector) requires true, ; }
pub broadcast proof fn low8_u16(a: u16)
    requires true,
    ensures #[trigger] (a & 0xff) == a % 0x100,
{ assert((a & 0xff) == a % 0x100) by(bit_vector) requires true, ; }
pub broadcast proof fn shl8_u32(a: u32)
    requires a < 0x1000000,
    ensures #[trigger] (a << 8) == a * 0x100,
{ assert((a << 8) == a * 0x100) by(bit_vector) requires a < 0x1000000, ; }
pub broadcast proof fn or8_u32(a: u32, b: u32)
    requires a % 0x100 == 0, b < 0x100,
    ensures #[trigger] (a | b) == a + b,
{ assert((a | b) == a + b) by(bit_vector) requires a % 0x100 == 0, b < 0x100, ; }
pub broadcast proof fn shl16_u32(a: u32)
    requires a < 0x10000,
    ensures #[trigger] (a << 16) == a * 0x10000,
{ assert((a << 16) == a * 0x10000) by(bit_vector) requires a < 0x10000, ; }
pub broadcast proof fn or16_u32(a: u32, b: u32)
    requires a % 0x10000 == 0, b < 0x10000,
    ensures #[trigger] (a | b) == a + b,
{ assert((a | b) == a + b) by(bit_vector) requires a % 0x10000 == 0, b < 0x10000, ; }
pub broadcast proof fn shl24_u32(a: u32)
    requires a < 0x100,
    ensures #[trigger] (a << 24) == a * 0x1000000,
{ assert((a << 24) == a * 0x1000000) by(bit_vector) requires a < 0x100, ; }
pub broadcast proof fn or24_u32(a: u32, b: u32)
    requires a % 0x1000000 == 0, b < 0x1000000,
    ensures #[trigger] (a | b) == a + b,
{ assert((a | b) == a + b) by(bit_vector) requires a % 0x1000000 == 0, b < 0x1000000, ; }
pub broadcast proof fn shr8_u32(a: u32)
    requires true,
    ensures #[trigger] (a >> 8) == a / 0x100,
{ assert((a >> 8) == a / 0x100) by(bit_vector) requires true, ; }
pub broadcast proof fn low8_u32(a: u32)
    requires true,
    ensures #[trigger] (a & 0xff) == a % 0x100,
{ assert((a & 0xff) == a % 0x100) by(bit_vector) requires true, ; }
pub broadcast proof fn shl8_u64(a: u64)
    requires a < 0x100000000000000,
    ensures #[trigger] (a << 8) == a * 0x100,
{ assert((a << 8) == a * 0x100) by(bit_vector) requires a < 0x100000000000000, ; }
pub broadcast proof fn or8_u64(a: u64, b: u64)
    requires a % 0x100 == 0, b < 0x100,
    ensures #[trigger] (a | b) == a + b,
{ assert((a | b) == a + b) by(bit_vector) requires a % 0x100 == 0, b < 0x100, ; }
pub broadcast proof fn shl16_u64(a: u64)
    requires a < 0x1000000000000,
    ensures #[trigger] (a << 16) == a * 0x10000,
{ assert((a << 16) == a * 0x10000) by(bit_vector) requires a < 0x1000000000000, ; }
pub broadcast proof fn or16_u64(a: u64, b: u64)
    requires a % 0x10000 == 0, b < 0x10000,
    ensures #[trigger] (a | b) == a + b,
{ assert((a | b) == a + b) by(bit_vector) requires a % 0x10000 == 0, b < 0x10000, ; }
pub broadcast proof fn shl24_u64(a: u64)
    requires a < 0x10000000000,
    ensures #[trigger] (a << 24) == a * 0x1000000,
{ assert((a << 24) == a * 0x1000000) by(bit_vector) requires a < 0x10000000000, ; }
pub broadcast proof fn or24_u64(a: u64, b: u64)
    requires a % 0x1000000 == 0, b < 0x1000000,
    ensures #[trigger] (a | b) == a + b,
{ assert((a | b) == a + b) by(bit_vector) requires a % 0x1000000 == 0, b < 0x1000000, ; }
pub broadcast proof fn shr8_u64(a: u64)
    requires true,
    ensures #[trigger] (a >> 8) == a / 0x100,
{ assert((a >> 8) == a / 0x100) by(bit_vector) requires true, ; }
pub broadcast proof fn low8_u64(a: u64)
    requires true,
    ensures #[trigger] (a & 0xff) == a % 0x100,
{ assert((a & 0xff) == a % 0x100) by(bit_vector) requires true, ; }
pub broadcast proof fn shl8_usize(a: usize)
    requires a < 0x100000000000000,
    ensures #[trigger] (a << 8) == a * 0x100,
{ assert((a << 8) == a * 0x100) by(bit_vector) requires a < 0x100000000000000, ; }
pub broadcast proof fn or8_usize(a: usize, b: usize)
    requires a % 0x100 == 0, b < 0x100,
    ensures #[trigger] (a | b) == a + b,
{ assert((a | b) == a + b) by(bit_vector) requires a % 0x100 == 0, b < 0x100, ; }
pub broadcast proof fn shl16_usize(a: usize)
    requires a < 0x1000000000000,
    ensures #[trigger] (a << 16) == a * 0x10000,
{ assert((a << 16) == a * 0x10000) by(bit_vector) requires a < 0x1000000000000, ; }
pub broadcast proof fn or16_usize(a: usize, b: usize)
    requires a % 0x10000 == 0, b < 0x10000,
    ensures #[trigger] (a | b) == a + b,
{ assert((a | b) == a + b) by(bit_vector) requires a % 0x10000 == 0, b < 0x10000, ; }
pub broadcast proof fn shl24_usize(a: usize)
    requires a < 0x10000000000,
    ensures #[trigger] (a << 24) == a * 0x1000000,
{ assert((a << 24) == a * 0x1000000) by(bit_vector) requires a < 0x10000000000, ; }
pub broadcast proof fn or24_usize(a: usize, b: usize)
    requires a % 0x1000000 == 0, b < 0x1000000,
    ensures #[trigger] (a | b) == a + b,
{ assert((a | b) == a + b) by(bit_vector) requires a % 0x1000000 == 0, b < 0x1000000, ; }
pub broadcast proof fn shr8_usize(a: usize)
    requires true,
    ensures #[trigger] (a >> 8) == a / 0x100,
{ assert((a >> 8) == a / 0x100) by(bit_vector) requires true, ; }
pub broadcast proof fn low8_usize(a: usize)
    requires true,
    ensures #[trigger] (a & 0xff) == a % 0x100,
{ assert((a & 0xff) == a % 0x100) by(bit_vector) requires true, ; }
pub broadcast proof fn shr1_u8(a: u8)
    requires true,
    ensures #[trigger] (a >> 1) == a / 2,
{ assert((a >> 1) == a / 2) by(bit_vector) requires true, ; }
pub broadcast proof fn shr4_u8(a: u8)
    requires true,
    ensures #[trigger] (a >> 4) == a / 16,
{ assert((a >> 4) == a / 16) by(bit_vector) requires true, ; }
pub broadcast proof fn shr5_u8(a: u8)
    requires true,
    ensures #[trigger] (a >> 5) == a / 32,
{ assert((a >> 5) == a / 32) by(bit_vector) requires true, ; }
pub broadcast proof fn shr6_u8(a: u8)
    requires true,
    ensures #[trigger] (a >> 6) == a / 64,
{ assert((a >> 6) == a / 64) by(bit_vector) requires true, ; }
pub broadcast proof fn shr7_u8(a: u8)
    requires true,
    ensures #[trigger] (a >> 7) == a / 128,
{ assert((a >> 7) == a / 128) by(bit_vector) requires true, ; }
pub broadcast proof fn low1_u8(a: u8)
    requires true,
    ensures #[trigger] (a & 0x1) == a % 2,
{ assert((a & 0x1) == a % 2) by(bit_vector) requires true, ; }
pub broadcast proof fn low2_u8(a: u8)
    requires true,
    ensures #[trigger] (a & 0x3) == a % 4,
{ assert((a & 0x3) == a % 4) by(bit_vector) requires true, ; }
pub broadcast proof fn low4_u8(a: u8)
    requires true,
    ensures #[trigger] (a & 0xf) == a % 16,
{ assert((a & 0xf) == a % 16) by(bit_vector) requires true, ; }
pub broadcast proof fn low6_u8(a: u8)
    requires true,
    ensures #[trigger] (a & 0x3f) == a % 64,
{ assert((a & 0x3f) == a % 64) by(bit_vector) requires true, ; }
pub broadcast proof fn low7_u8(a: u8)
    requires true,
    ensures #[trigger] (a & 0x7f) == a % 128,
{ assert((a & 0x7f) == a % 128) by(bit_vector) requires true, ; }
pub broadcast proof fn odd_usize(a: usize)
    requires true,
    ensures #[trigger] (a & 1) == a % 2,
{ assert((a & 1) == a % 2) by(bit_vector) requires true, ; }
pub broadcast proof fn odd_u32(a: u32)
    requires true,
    ensures #[trigger] (a & 1) == a % 2,
{ assert((a & 1) == a % 2) by(bit_vector) requires true, ; }
pub broadcast proof fn shl9_u64(a: u64)
    requires a < 0x80000000000000,
    ensures #[trigger] (a << 9) == a * 0x200,
{ assert((a << 9) == a * 0x200) by(bit_vector) requires a < 0x80000000000000 ; }
pub broadcast proof fn or9_u64(a: u64, b: u64)
    requires a % 0x200 == 0, b < 0x200,
    ensures #[trigger] (a | b) == a + b,
{ assert((a | b) == a + b) by(bit_vector) requires a % 0x200 == 0, b < 0x200 ; }
pub broadcast proof fn shl15_u64(a: u64)
    requires a < 0x2000000000000,
    ensures #[trigger] (a << 15) == a * 0x8000,
{ assert((a << 15) == a * 0x8000) by(bit_vector) requires a < 0x2000000000000 ; }
pub broadcast proof fn or15_u64(a: u64, b: u64)
    requires a % 0x8000 == 0, b < 0x8000,
    ensures #[trigger] (a | b) == a + b,
{ assert((a | b) == a + b) by(bit_vector) requires a % 0x8000 == 0, b < 0x8000 ; }
pub broadcast proof fn shl30_u64(a: u64)
    requires a < 0x400000000,
    ensures #[trigger] (a << 30) == a * 0x40000000,
{ assert((a << 30) == a * 0x40000000) by(bit_vector) requires a < 0x400000000 ; }
pub broadcast proof fn or30_u64(a: u64, b: u64)
    requires a % 0x40000000 == 0, b < 0x40000000,
    ensures #[trigger] (a | b) == a + b,
{ assert((a | b) == a + b) by(bit_vector) requires a % 0x40000000 == 0, b < 0x40000000 ; }
// no allocation is larger than isize::MAX bytes
pub broadcast axiom fn bool_usize_o() ensures #[trigger] <usize as vstd::std_specs::convert::FromSpec<bool>>::obeys_from_spec();
pub broadcast axiom fn bool_usize(b: bool) ensures #[trigger] <usize as vstd::std_specs::convert::FromSpec<bool>>::from_spec(b) == (if b { 1usize } else { 0usize });
pub broadcast axiom fn slice_max(s: &[u8]) ensures #[trigger] s@.len() <= 0x7fff_ffff_ffff_ffff;
pub broadcast axiom fn vec_max(s: Vec<u8>) ensures #[trigger] s@.len() <= 0x7fff_ffff_ffff_ffff;
pub broadcast group bit_values { bool_usize_o, bool_usize, slice_max, vec_max, shl9_u64, or9_u64, shl15_u64, or15_u64, shl30_u64, or30_u64, shl8_u16, or8_u16, shr8_u16, low8_u16, shl8_u32, or8_u32, shl16_u32, or16_u32, shl24_u32, or24_u32, shr8_u32, low8_u32, shl8_u64, or8_u64, shl16_u64, or16_u64, shl24_u64, or24_u64, shr8_u64, low8_u64, shl8_usize, or8_usize, shl16_usize, or16_usize, shl24_usize, or24_usize, shr8_usize, low8_usize, shr1_u8, shr4_u8, shr5_u8, shr6_u8, shr7_u8, low1_u8, low2_u8, low4_u8, low6_u8, low7_u8, odd_usize, odd_u32 }
// all the elements, to be changed (&mut v[range])
pub trait VxMut<T> {
    spec fn all(&self) -> Seq<T>;
    fn vx_mut(&mut self) -> (r: &mut [T]) ensures r@ == old(self).all(), final(self).all() == final(r)@;
}
impl<T> VxMut<T> for Vec<T> {
    open spec fn all(&self) -> Seq<T> { self@ }
    fn vx_mut(&mut self) -> (r: &mut [T]) { self.as_mut_slice() }
}
impl<T> VxMut<T> for [T] {
    open spec fn all(&self) -> Seq<T> { self@ }
    fn vx_mut(&mut self) -> (r: &mut [T]) { self }
}
// vec![e; n]
pub fn vx_vec_from_elem<T: Copy>(e: T, n: usize) -> (r: Vec<T>)
    requires n <= 0x7fff_ffff_ffff_ffff,
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == e
{
    let mut r: Vec<T> = Vec::new();
    while r.len() < n
        invariant r@.len() <= n, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == e,
        decreases n - r@.len()
    {
        r.push(e);
    }
    r
}

// decimal representation of a number
pub open spec fn digit(d: int) -> char { ('0' as u32 + d) as u32 as char }
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit(n as int)] } else { dec(n / 10).push(digit((n % 10) as int)) }
}
// left padding with zeros up to a width
pub open spec fn zeros(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| '0') }
pub open spec fn zpad(n: nat, w: int) -> Seq<char> { zeros(w - dec(n).len()) + dec(n) }

// what `{}` prints for a value (core::fmt::Display)
pub trait Shown {
    spec fn shown(&self) -> Seq<char>;
}
impl Shown for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } }
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl Shown for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl Shown for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl Shown for u16 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl Shown for i64 { open spec fn shown(&self) -> Seq<char> {
    if *self < 0 { seq!['-'] + dec((-*self) as nat) } else { dec(*self as nat) } } }
impl<T: Shown + ?Sized> Shown for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }

// what `{:0w}` prints for a value
pub trait ShownPad {
    spec fn shown_zpad(&self, w: int) -> Seq<char>;
}
impl ShownPad for u64 { open spec fn shown_zpad(&self, w: int) -> Seq<char> { zpad(*self as nat, w) } }
impl ShownPad for u32 { open spec fn shown_zpad(&self, w: int) -> Seq<char> { zpad(*self as nat, w) } }
impl ShownPad for usize { open spec fn shown_zpad(&self, w: int) -> Seq<char> { zpad(*self as nat, w) } }
impl ShownPad for i64 { open spec fn shown_zpad(&self, w: int) -> Seq<char> {
    if *self < 0 { seq!['-'] + zpad((-*self) as nat, w - 1) } else { zpad(*self as nat, w) } } }

// text of a format!(..)
#[verifier::external_body]
pub fn vx_text() -> (r: String) ensures r@.len() == 0 { String::new() }
#[verifier::external_body]
pub fn vx_text_lit(t: String, s: &str) -> (r: String) ensures r@ == t@ + s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_text_show<T: Shown>(t: String, v: &T) -> (r: String) ensures r@ == t@ + v.shown() { unimplemented!() }
#[verifier::external_body]
pub fn vx_text_zpad<T: ShownPad>(t: String, v: &T, w: u32) -> (r: String) ensures r@ == t@ + v.shown_zpad(w as int) { unimplemented!() }

// x is a prefix of y (opaque: used through the lemmas below)
#[verifier::opaque]
pub open spec fn pfx(x: Seq<char>, y: Seq<char>) -> bool { x.len() <= y.len() && x == y.take(x.len() as int) }
pub broadcast proof fn pfx_sum(x: Seq<char>, y: Seq<char>) ensures pfx(x, #[trigger] (x + y)) { reveal(pfx); assert(x =~= (x + y).take(x.len() as int)); }
pub broadcast proof fn pfx_trans(x: Seq<char>, y: Seq<char>, z: Seq<char>)
    requires #[trigger] pfx(x, y), #[trigger] pfx(y, z) ensures pfx(x, z)
{ reveal(pfx); assert(x =~= z.take(x.len() as int)); }
pub broadcast proof fn sum_assoc(x: Seq<char>, y: Seq<char>, z: Seq<char>)
    ensures #[trigger] (x + (y + z)) == (x + y) + z { assert(x + (y + z) =~= (x + y) + z); }
pub broadcast proof fn sum_empty(x: Seq<char>)
    ensures #[trigger] (x + Seq::<char>::empty()) == x { assert(x + Seq::<char>::empty() =~= x); }
pub broadcast group text_lemmas { pfx_sum, pfx_trans, sum_assoc, sum_empty }
// after a failed write of s, only a prefix of s has been written
pub open spec fn partial(old_t: Seq<char>, new_t: Seq<char>, s: Seq<char>) -> bool {
    pfx(old_t, new_t) && pfx(new_t, old_t + s)
}
}
@path i64::from => vx_i64_from
@include text.vc
@include std.vc
