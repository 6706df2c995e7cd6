// ------------------------------------------------------------------ f64 (IEEE 754 double precision, round to nearest)
pub mod float {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
pub uninterp spec fn rv(x: f64) -> real;
pub uninterp spec fn fin(x: f64) -> bool;
pub open spec fn abs(x: real) -> real { if x < 0real { -x } else { x } }
// the result of an operation whose exact result is e: relative error of at most 2^-53 (2^-53 is added for subnormal results)
pub open spec fn rounds(r: f64, e: real) -> bool { fin(r) && 9007199254740992real * abs(rv(r) - e) <= abs(e) + 1real }
pub open spec fn small(e: real) -> bool { abs(e) < 1000000000000000000000real }
#[verifier::opaque] pub open spec fn prod(x: real, y: real) -> real { x * y }
#[verifier::opaque] pub open spec fn quot(x: real, y: real) -> real { x / y }
pub broadcast proof fn f_prod(x: real) ensures #[trigger] prod(x, 1000real) == x * 1000real { reveal(prod); }
pub broadcast proof fn f_prod2(x: real) ensures #[trigger] prod(1000real, x) == x * 1000real { reveal(prod); assert(1000real * x == x * 1000real) by(nonlinear_arith); }
pub broadcast proof fn f_quot(x: real)
    ensures #[trigger] quot(x, 90000real) == x / 90000real { reveal(quot); }
pub broadcast proof fn f_quot2(x: real)
    ensures #[trigger] quot(x, 300real) == x / 300real { reveal(quot); }
pub broadcast proof fn f_quot3(x: real)
    ensures #[trigger] quot(x, 100real) == x / 100real { reveal(quot); }
pub broadcast axiom fn f_add(a: f64, b: f64, r: f64)
    requires #[trigger] add_ensures(a, b, r), fin(a), fin(b), small(rv(a) + rv(b)), ensures rounds(r, rv(a) + rv(b));
pub broadcast axiom fn f_mul(a: f64, b: f64, r: f64)
    requires #[trigger] mul_ensures(a, b, r), fin(a), fin(b), small(prod(rv(a), rv(b))), ensures rounds(r, prod(rv(a), rv(b)));
pub broadcast axiom fn f_div(a: f64, b: f64, r: f64)
    requires #[trigger] div_ensures(a, b, r), fin(a), fin(b), rv(b) != 0real, small(quot(rv(a), rv(b))), ensures rounds(r, quot(rv(a), rv(b)));
pub broadcast axiom fn f_add_req(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn f_mul_req(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn f_div_req(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub axiom fn f_lits()
    ensures fin(300.0f64), rv(300.0f64) == 300real, fin(90000.0f64), rv(90000.0f64) == 90000real, fin(100.0f64), rv(100.0f64) == 100real,
        fin(1000.0f64), rv(1000.0f64) == 1000real, fin(5.0f64), rv(5.0f64) == 5real;
pub broadcast group float_ops { f_add_req, f_mul_req, f_div_req }
pub broadcast group floats { f_prod, f_prod2, f_quot, f_quot2, f_quot3, f_add, f_mul, f_div, f_add_req, f_mul_req, f_div_req }
// integers up to 2^53 in magnitude are represented exactly
pub trait VxAsF64: Sized { spec fn int_value(self) -> int; fn vx_as_f64(self) -> (r: f64) ensures -0x20_0000_0000_0000 <= self.int_value() <= 0x20_0000_0000_0000 ==> fin(r) && rv(r) == self.int_value() as real; }
impl VxAsF64 for u64 { open spec fn int_value(self) -> int { self as int } #[verifier::external_body] fn vx_as_f64(self) -> (r: f64) { self as f64 } }
impl VxAsF64 for i64 { open spec fn int_value(self) -> int { self as int } #[verifier::external_body] fn vx_as_f64(self) -> (r: f64) { self as f64 } }
pub fn vx_as_f64<T: VxAsF64>(x: T) -> (r: f64) ensures -0x20_0000_0000_0000 <= x.int_value() <= 0x20_0000_0000_0000 ==> fin(r) && rv(r) == x.int_value() as real { x.vx_as_f64() }
#[verifier::external_body]
pub fn vx_f64_from(x: u16) -> (r: f64) ensures num(r, x as int) { x.into() }
#[verifier::opaque] pub open spec fn num(x: f64, n: int) -> bool { fin(x) && rv(x) == n as real }
pub proof fn f_hundred() ensures num(100.0f64, 100) { reveal(num); f_lits(); }
#[derive(Debug)] pub struct CastError {}
// cast::i64: truncates towards zero
#[verifier::external_body]
pub fn vx_cast_i64(x: f64) -> (r: Result<i64, CastError>)
    ensures fin(x) && abs(rv(x)) < 9000000000000000000real ==> (r matches Ok(v) && trunc(rv(x), v as int))
{ unimplemented!() }
pub open spec fn trunc(x: real, v: int) -> bool {
    if x < 0real { v <= 0 && v as real - 1real < x && x <= v as real } else { v >= 0 && v as real <= x && x < v as real + 1real }
}
// x is n/90000, within k/10000 ticks of the 90 kHz clock
#[verifier::opaque]
pub open spec fn near(x: f64, n: int, k: int) -> bool { fin(x) && abs(90000real * rv(x) - n as real) <= k as real / 10000real }
}
@rule __x as f64 => vx_as_f64(__x)
@path f64::from => vx_f64_from
@path cast::i64 => vx_cast_i64

