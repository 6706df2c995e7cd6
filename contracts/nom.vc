// ------------------------------------------------------------------ nom (parser combinators)
// Contracts assumed for the nom 8.0 combinators the code uses; those with a body are checked against it.
pub mod nom {
use vstd::prelude::*;
use std::marker::PhantomData;
pub mod error {
    use vstd::prelude::*;
    pub enum ErrorKind { Tag, TagBits, TakeUntil, TakeWhileMN, Many0, ManyTill, SeparatedList, Count, Complete, Eof, MapRes }
    pub struct Error<I> { pub input: I, pub code: ErrorKind }
}
pub enum Needed { Unknown, Size(usize) }
pub enum Err<E> { Incomplete(Needed), Error(E), Failure(E) }
pub type IResult<I, O> = Result<(I, O), Err<error::Error<I>>>;

// bit k of a byte string (most significant first), and the number made of n bits
pub open spec fn bit(s: Seq<u8>, k: int) -> int { (s[k / 8] as int / p2(7 - k % 8)) % 2 }
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
#[verifier::opaque]
pub open spec fn bits(s: Seq<u8>, k: int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { 2 * bits(s, k, n - 1) + bit(s, k + n - 1) }
}
pub broadcast proof fn bits_skip(s: Seq<u8>, a: int, k: int, n: int)
    requires 0 <= a, 0 <= k, 0 <= n, 8 * a + k + n <= 8 * s.len(),
    ensures #[trigger] bits(s.skip(a), k, n) == bits(s, 8 * a + k, n)
    decreases n
{
    reveal(bits);
    if n > 0 {
        bits_skip(s, a, k, n - 1);
        let j = k + n - 1;
        assert(s.skip(a)[j / 8] == s[a + j / 8]);
        assert((8 * a + j) / 8 == a + j / 8 && (8 * a + j) % 8 == j % 8);
    }
}
pub broadcast proof fn skip_zero(s: Seq<u8>) ensures #[trigger] s.skip(0) == s { assert(s.skip(0) =~= s); }
// a whole byte
pub proof fn bits_byte(s: Seq<u8>, a: int)
    requires 0 <= a < s.len(),
    ensures bits(s, 8 * a, 8) == s[a]
{
    reveal_with_fuel(bits, 9);
    reveal_with_fuel(p2, 9);
    let x = s[a];
    assert forall|j: int| 0 <= j < 8 implies #[trigger] bit(s, 8 * a + j) == (s[a] as int / p2(7 - j)) % 2 by {
        assert((8 * a + j) / 8 == a && (8 * a + j) % 8 == j);
    }
    assert(x == ((x / 128) % 2) * 128 + ((x / 64) % 2) * 64 + ((x / 32) % 2) * 32 + ((x / 16) % 2) * 16
        + ((x / 8) % 2) * 8 + ((x / 4) % 2) * 4 + ((x / 2) % 2) * 2 + (x % 2)) by(bit_vector);
}
// n + m bits are n bits followed by m bits
pub proof fn bits_cat(s: Seq<u8>, k: int, n: int, m: int)
    requires 0 <= n, 0 <= m,
    ensures bits(s, k, n + m) == bits(s, k, n) * p2(m) + bits(s, k + n, m)
    decreases m
{
    reveal(bits);
    if m > 0 {
        bits_cat(s, k, n, m - 1);
        assert(bits(s, k, n + m) == 2 * bits(s, k, n + m - 1) + bit(s, k + n + m - 1));
        assert(2 * (bits(s, k, n) * p2(m - 1)) == bits(s, k, n) * p2(m)) by(nonlinear_arith) requires p2(m) == 2 * p2(m - 1);
    } else { assert(bits(s, k, n) * 1 == bits(s, k, n)); }
}
// whole bytes
pub broadcast proof fn bits8(s: Seq<u8>, k: int)
    requires 0 <= k, k % 8 == 0, k / 8 < s.len(),
    ensures #[trigger] bits(s, k, 8) == s[k / 8]
{ bits_byte(s, k / 8); }
pub broadcast proof fn bits16(s: Seq<u8>, k: int)
    requires 0 <= k, k % 8 == 0, k / 8 + 1 < s.len(),
    ensures #[trigger] bits(s, k, 16) == s[k / 8] * 0x100 + s[k / 8 + 1]
{
    bits_cat(s, k, 8, 8); bits_byte(s, k / 8); bits_byte(s, k / 8 + 1);
    reveal_with_fuel(p2, 9);
}
pub broadcast group bytes_of_bits { bits8, bits16 }
pub proof fn bits_bound(s: Seq<u8>, k: int, n: int)
    requires 0 <= n, ensures 0 <= bits(s, k, n) < p2(n) decreases n
{ reveal(bits); if n > 0 { bits_bound(s, k, n - 1); } }

// ---- inputs: bytes, or bytes with a bit offset
pub trait In: Sized { spec fn ok(&self) -> bool; fn dup(&self) -> (r: Self) ensures r == *self; }
impl<'a> In for &'a [u8] { open spec fn ok(&self) -> bool { true } fn dup(&self) -> (r: Self) { *self } }
impl<'a> In for (&'a [u8], usize) { open spec fn ok(&self) -> bool { self.1 < 8 && self.1 <= 8 * self.0@.len() } fn dup(&self) -> (r: Self) { *self } }

pub trait Parser<I: In>: Sized {
    type Output;
    // how a result relates to the input
    spec fn sp(&self, i: I, r: IResult<I, Self::Output>) -> bool;
    // defined for every input
    spec fn total(&self) -> bool;
    fn parse(&self, i: I) -> (r: IResult<I, Self::Output>) requires self.total(), i.ok(), ensures self.sp(i, r), r matches Ok(x) ==> x.0.ok();
}
impl<I: In, O, F: Fn(I) -> IResult<I, O>> Parser<I> for F {
    type Output = O;
    open spec fn sp(&self, i: I, r: IResult<I, O>) -> bool { call_ensures(*self, (i,), r) }
    open spec fn total(&self) -> bool {
        &&& forall|i: I| i.ok() ==> #[trigger] call_requires(*self, (i,))
        &&& forall|i: I, r: IResult<I, O>| i.ok() && #[trigger] call_ensures(*self, (i,), r) && r is Ok ==> r->Ok_0.0.ok()
    }
    fn parse(&self, i: I) -> (r: IResult<I, O>) { self(i) }
}

// ---- numbers of bits
pub trait VxBits: Sized { spec fn val(&self) -> int; spec fn width() -> int; }
impl VxBits for u8 { open spec fn val(&self) -> int { *self as int } open spec fn width() -> int { 8 } }
impl VxBits for u16 { open spec fn val(&self) -> int { *self as int } open spec fn width() -> int { 16 } }
impl VxBits for u32 { open spec fn val(&self) -> int { *self as int } open spec fn width() -> int { 32 } }
impl VxBits for u64 { open spec fn val(&self) -> int { *self as int } open spec fn width() -> int { 64 } }
impl VxBits for usize { open spec fn val(&self) -> int { *self as int } open spec fn width() -> int { 64 } }
impl VxBits for i32 { open spec fn val(&self) -> int { *self as int } open spec fn width() -> int { 31 } }
pub trait ToUsize: Sized { spec fn us(&self) -> int; fn to_usize(self) -> (r: usize) ensures r == self.us(); }
impl ToUsize for u8 { open spec fn us(&self) -> int { *self as int } fn to_usize(self) -> (r: usize) { self as usize } }
impl ToUsize for u16 { open spec fn us(&self) -> int { *self as int } fn to_usize(self) -> (r: usize) { self as usize } }
impl ToUsize for u32 { open spec fn us(&self) -> int { *self as int } fn to_usize(self) -> (r: usize) { self as usize } }
impl ToUsize for usize { open spec fn us(&self) -> int { *self as int } fn to_usize(self) -> (r: usize) { self } }

// m is what follows n bits of i
#[verifier::opaque]
pub open spec fn adv<'a>(i: (&'a [u8], usize), n: int, m: (&'a [u8], usize)) -> bool {
    0 <= n && i.1 + n <= 8 * i.0@.len() && m.0@ == (if i.1 + n < 8 { i.0@ } else { i.0@.skip((i.1 + n) / 8) }) && m.1 == (i.1 + n) % 8
}
// the number made of n bits, a bits after position k
#[verifier::opaque]
pub open spec fn at(s: Seq<u8>, k: int, a: int, n: int) -> int { bits(s, k + a, n) }
pub broadcast proof fn adv_left<'a>(i: (&'a [u8], usize), n: int, m: (&'a [u8], usize))
    requires #[trigger] adv(i, n, m), i.1 < 8,
    ensures m.1 < 8, m.1 <= 8 * m.0@.len(), 8 * m.0@.len() - m.1 == 8 * i.0@.len() - i.1 - n, n >= 0, i.1 + n <= 8 * i.0@.len(), m.1 == (i.1 + n) % 8
{ reveal(adv); }
pub broadcast proof fn adv_at<'a>(i: (&'a [u8], usize), n: int, m: (&'a [u8], usize), a: int, k: int)
    requires #[trigger] adv(i, n, m), i.1 < 8, 0 <= a, 0 <= k, m.1 + a + k <= 8 * m.0@.len(),
    ensures #[trigger] at(m.0@, m.1 as int, a, k) == at(i.0@, i.1 as int, n + a, k)
{
    reveal(adv); reveal(at);
    if i.1 + n >= 8 { bits_skip(i.0@, (i.1 + n) / 8, (i.1 + n) % 8 + a, k); }
}
pub broadcast proof fn adv_adv<'a>(i: (&'a [u8], usize), n: int, m: (&'a [u8], usize), k: int, o: (&'a [u8], usize))
    requires #[trigger] adv(i, n, m), #[trigger] adv(m, k, o), i.1 < 8,
    ensures adv(i, n + k, o)
{ reveal(adv); broadcast use super::io_model::skip_skip; }
pub broadcast proof fn at_zero(s: Seq<u8>, k: int, n: int)
    ensures #[trigger] at(s, k, 0, n) == bits(s, k, n)
{ reveal(at); }
pub broadcast group bitpos { adv_left, adv_at, adv_adv }
pub open spec fn take_sp<'a, O: VxBits>(n: int, i: (&'a [u8], usize), r: IResult<(&'a [u8], usize), O>) -> bool {
    match r {
        Ok((m, v)) => adv(i, n, m) && v.val() == at(i.0@, i.1 as int, 0, n),
        Err(e) => e is Error && i.1 + n > 8 * i.0@.len(),
    }
}
pub struct BitTake<I, O, E> { pub n: usize, pub p: PhantomData<(I, O, E)> }
impl<'a, O: VxBits> Parser<(&'a [u8], usize)> for BitTake<&'a [u8], O, error::Error<(&'a [u8], usize)>> {
    type Output = O;
    open spec fn sp(&self, i: (&'a [u8], usize), r: IResult<(&'a [u8], usize), O>) -> bool { take_sp(self.n as int, i, r) }
    open spec fn total(&self) -> bool { self.n <= O::width() }
    #[verifier::external_body]
    fn parse(&self, i: (&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), O>) { unimplemented!() }
}
pub struct BitTag<I, O, E> { pub v: O, pub n: usize, pub p: PhantomData<(I, E)> }
impl<'a, O: VxBits> Parser<(&'a [u8], usize)> for BitTag<&'a [u8], O, error::Error<(&'a [u8], usize)>> {
    type Output = O;
    open spec fn sp(&self, i: (&'a [u8], usize), r: IResult<(&'a [u8], usize), O>) -> bool { 
        match r {
            Ok((m, v)) => v == self.v && take_sp(self.n as int, i, r),
            Err(e) => e is Error && (i.1 + self.n > 8 * i.0@.len() || self.v.val() != at(i.0@, i.1 as int, 0, self.n as int)),
        }
    }
    open spec fn total(&self) -> bool { self.n <= O::width() }
    #[verifier::external_body]
    fn parse(&self, i: (&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), O>) { unimplemented!() }
}
impl<'a, 'b, O: VxBits> Parser<(&'a [u8], usize)> for &'b BitTag<&'a [u8], O, error::Error<(&'a [u8], usize)>> {
    type Output = O;
    open spec fn sp(&self, i: (&'a [u8], usize), r: IResult<(&'a [u8], usize), O>) -> bool { (**self).sp(i, r) }
    open spec fn total(&self) -> bool { (**self).total() }
    fn parse(&self, i: (&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), O>) { (**self).parse(i) }
}
impl<'a, 'b, O: VxBits> Parser<(&'a [u8], usize)> for &'b BitTake<&'a [u8], O, error::Error<(&'a [u8], usize)>> {
    type Output = O;
    open spec fn sp(&self, i: (&'a [u8], usize), r: IResult<(&'a [u8], usize), O>) -> bool { (**self).sp(i, r) }
    open spec fn total(&self) -> bool { (**self).total() }
    fn parse(&self, i: (&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), O>) { (**self).parse(i) }
}
pub mod bits_complete {
    use vstd::prelude::*;
    use super::*;
    pub fn take<I, O, C: ToUsize, E>(n: C) -> (r: BitTake<I, O, E>) ensures r.n == n.us() { BitTake { n: n.to_usize(), p: PhantomData } }
    pub fn tag<I, O, C: ToUsize, E>(v: O, n: C) -> (r: BitTag<I, O, E>) ensures r.n == n.us(), r.v == v { BitTag { v, n: n.to_usize(), p: PhantomData } }
}
// ---- bit parser run on bytes; a partly consumed byte is dropped
pub struct Bits<P> { pub p: P }
pub fn bits_p<P>(p: P) -> (r: Bits<P>) ensures r.p == p { Bits { p } }
pub open spec fn up(m: (&[u8], usize)) -> Seq<u8> { if m.1 > 0 { m.0@.skip(1) } else { m.0@ } }
pub open spec fn bits_sp<'a, P: Parser<(&'a [u8], usize)>>(p: P, i: &'a [u8], r: IResult<&'a [u8], P::Output>) -> bool {
    match r {
        Ok((o, v)) => exists|m: (&'a [u8], usize)| #[trigger] p.sp((i, 0), Ok((m, v))) && o@ == up(m),
        Err(Err::Error(_)) => exists|e: error::Error<(&'a [u8], usize)>| #[trigger] p.sp((i, 0), Err(Err::Error(e))),
        Err(Err::Failure(_)) => exists|e: error::Error<(&'a [u8], usize)>| #[trigger] p.sp((i, 0), Err(Err::Failure(e))),
        Err(Err::Incomplete(_)) => exists|e: Needed| #[trigger] p.sp((i, 0), Err(Err::Incomplete(e))),
    }
}
impl<'a, P: Parser<(&'a [u8], usize)>> Parser<&'a [u8]> for Bits<P> {
    type Output = P::Output;
    open spec fn sp(&self, i: &'a [u8], r: IResult<&'a [u8], P::Output>) -> bool { bits_sp(self.p, i, r) }
    open spec fn total(&self) -> bool { self.p.total() }
    #[verifier::external_body]
    fn parse(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], P::Output>) { unimplemented!() }
}
// ---- sequences
impl<I: In, A: Parser<I>, B: Parser<I>> Parser<I> for (A, B) {
    type Output = (A::Output, B::Output);
    open spec fn sp(&self, i: I, r: IResult<I, Self::Output>) -> bool {
        match r {
            Ok((m, (v0, v1))) => exists|m1: I| #[trigger] self.0.sp(i, Ok((m1, v0))) && self.1.sp(m1, Ok((m, v1))),
            Err(e) => self.0.sp(i, Err(e))
                || (exists|m1: I, v0: A::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && self.1.sp(m1, Err(e))),
        }
    }
    open spec fn total(&self) -> bool { self.0.total() && self.1.total() }
    fn parse(&self, i: I) -> (r: IResult<I, Self::Output>) {
        let (m1, v0) = match self.0.parse(i) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.0.sp(i, Ok((m1, v0))));
        let (m, v1) = match self.1.parse(m1) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.1.sp(m1, Ok((m, v1))));
        let r: IResult<I, Self::Output> = Ok((m, (v0, v1)));
        assert(r->Ok_0.1.0 == v0 && r->Ok_0.1.1 == v1 && r->Ok_0.0 == m);
        assert(self.sp(i, r));
        r
    }
}
impl<I: In, A: Parser<I>, B: Parser<I>, C: Parser<I>> Parser<I> for (A, B, C) {
    type Output = (A::Output, B::Output, C::Output);
    open spec fn sp(&self, i: I, r: IResult<I, Self::Output>) -> bool {
        match r {
            Ok((m, (v0, v1, v2))) => exists|m1: I, m2: I| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && self.2.sp(m2, Ok((m, v2))),
            Err(e) => self.0.sp(i, Err(e))
                || (exists|m1: I, v0: A::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && self.1.sp(m1, Err(e)))
                || (exists|m1: I, v0: A::Output, m2: I, v1: B::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && self.2.sp(m2, Err(e))),
        }
    }
    open spec fn total(&self) -> bool { self.0.total() && self.1.total() && self.2.total() }
    fn parse(&self, i: I) -> (r: IResult<I, Self::Output>) {
        let (m1, v0) = match self.0.parse(i) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.0.sp(i, Ok((m1, v0))));
        let (m2, v1) = match self.1.parse(m1) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.1.sp(m1, Ok((m2, v1))));
        let (m, v2) = match self.2.parse(m2) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.2.sp(m2, Ok((m, v2))));
        let r: IResult<I, Self::Output> = Ok((m, (v0, v1, v2)));
        assert(r->Ok_0.1.0 == v0 && r->Ok_0.1.1 == v1 && r->Ok_0.1.2 == v2 && r->Ok_0.0 == m);
        assert(self.sp(i, r));
        r
    }
}
impl<I: In, A: Parser<I>, B: Parser<I>, C: Parser<I>, D: Parser<I>> Parser<I> for (A, B, C, D) {
    type Output = (A::Output, B::Output, C::Output, D::Output);
    open spec fn sp(&self, i: I, r: IResult<I, Self::Output>) -> bool {
        match r {
            Ok((m, (v0, v1, v2, v3))) => exists|m1: I, m2: I, m3: I| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && #[trigger] self.2.sp(m2, Ok((m3, v2))) && self.3.sp(m3, Ok((m, v3))),
            Err(e) => self.0.sp(i, Err(e))
                || (exists|m1: I, v0: A::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && self.1.sp(m1, Err(e)))
                || (exists|m1: I, v0: A::Output, m2: I, v1: B::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && self.2.sp(m2, Err(e)))
                || (exists|m1: I, v0: A::Output, m2: I, v1: B::Output, m3: I, v2: C::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && #[trigger] self.2.sp(m2, Ok((m3, v2))) && self.3.sp(m3, Err(e))),
        }
    }
    open spec fn total(&self) -> bool { self.0.total() && self.1.total() && self.2.total() && self.3.total() }
    fn parse(&self, i: I) -> (r: IResult<I, Self::Output>) {
        let (m1, v0) = match self.0.parse(i) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.0.sp(i, Ok((m1, v0))));
        let (m2, v1) = match self.1.parse(m1) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.1.sp(m1, Ok((m2, v1))));
        let (m3, v2) = match self.2.parse(m2) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.2.sp(m2, Ok((m3, v2))));
        let (m, v3) = match self.3.parse(m3) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.3.sp(m3, Ok((m, v3))));
        let r: IResult<I, Self::Output> = Ok((m, (v0, v1, v2, v3)));
        assert(r->Ok_0.1.0 == v0 && r->Ok_0.1.1 == v1 && r->Ok_0.1.2 == v2 && r->Ok_0.1.3 == v3 && r->Ok_0.0 == m);
        assert(self.sp(i, r));
        r
    }
}
impl<I: In, A: Parser<I>, B: Parser<I>, C: Parser<I>, D: Parser<I>, E: Parser<I>, F: Parser<I>> Parser<I> for (A, B, C, D, E, F) {
    type Output = (A::Output, B::Output, C::Output, D::Output, E::Output, F::Output);
    open spec fn sp(&self, i: I, r: IResult<I, Self::Output>) -> bool {
        match r {
            Ok((m, (v0, v1, v2, v3, v4, v5))) => exists|m1: I, m2: I, m3: I, m4: I, m5: I| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && #[trigger] self.2.sp(m2, Ok((m3, v2))) && #[trigger] self.3.sp(m3, Ok((m4, v3))) && #[trigger] self.4.sp(m4, Ok((m5, v4))) && self.5.sp(m5, Ok((m, v5))),
            Err(e) => self.0.sp(i, Err(e))
                || (exists|m1: I, v0: A::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && self.1.sp(m1, Err(e)))
                || (exists|m1: I, v0: A::Output, m2: I, v1: B::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && self.2.sp(m2, Err(e)))
                || (exists|m1: I, v0: A::Output, m2: I, v1: B::Output, m3: I, v2: C::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && #[trigger] self.2.sp(m2, Ok((m3, v2))) && self.3.sp(m3, Err(e)))
                || (exists|m1: I, v0: A::Output, m2: I, v1: B::Output, m3: I, v2: C::Output, m4: I, v3: D::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && #[trigger] self.2.sp(m2, Ok((m3, v2))) && #[trigger] self.3.sp(m3, Ok((m4, v3))) && self.4.sp(m4, Err(e)))
                || (exists|m1: I, v0: A::Output, m2: I, v1: B::Output, m3: I, v2: C::Output, m4: I, v3: D::Output, m5: I, v4: E::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && #[trigger] self.2.sp(m2, Ok((m3, v2))) && #[trigger] self.3.sp(m3, Ok((m4, v3))) && #[trigger] self.4.sp(m4, Ok((m5, v4))) && self.5.sp(m5, Err(e))),
        }
    }
    open spec fn total(&self) -> bool { self.0.total() && self.1.total() && self.2.total() && self.3.total() && self.4.total() && self.5.total() }
    fn parse(&self, i: I) -> (r: IResult<I, Self::Output>) {
        let (m1, v0) = match self.0.parse(i) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.0.sp(i, Ok((m1, v0))));
        let (m2, v1) = match self.1.parse(m1) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.1.sp(m1, Ok((m2, v1))));
        let (m3, v2) = match self.2.parse(m2) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.2.sp(m2, Ok((m3, v2))));
        let (m4, v3) = match self.3.parse(m3) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.3.sp(m3, Ok((m4, v3))));
        let (m5, v4) = match self.4.parse(m4) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.4.sp(m4, Ok((m5, v4))));
        let (m, v5) = match self.5.parse(m5) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.5.sp(m5, Ok((m, v5))));
        let r: IResult<I, Self::Output> = Ok((m, (v0, v1, v2, v3, v4, v5)));
        assert(r->Ok_0.1.0 == v0 && r->Ok_0.1.1 == v1 && r->Ok_0.1.2 == v2 && r->Ok_0.1.3 == v3 && r->Ok_0.1.4 == v4 && r->Ok_0.1.5 == v5 && r->Ok_0.0 == m);
        assert(self.sp(i, r));
        r
    }
}
impl<I: In, A: Parser<I>, B: Parser<I>, C: Parser<I>, D: Parser<I>, E: Parser<I>, F: Parser<I>, G: Parser<I>> Parser<I> for (A, B, C, D, E, F, G) {
    type Output = (A::Output, B::Output, C::Output, D::Output, E::Output, F::Output, G::Output);
    open spec fn sp(&self, i: I, r: IResult<I, Self::Output>) -> bool {
        match r {
            Ok((m, (v0, v1, v2, v3, v4, v5, v6))) => exists|m1: I, m2: I, m3: I, m4: I, m5: I, m6: I| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && #[trigger] self.2.sp(m2, Ok((m3, v2))) && #[trigger] self.3.sp(m3, Ok((m4, v3))) && #[trigger] self.4.sp(m4, Ok((m5, v4))) && #[trigger] self.5.sp(m5, Ok((m6, v5))) && self.6.sp(m6, Ok((m, v6))),
            Err(e) => self.0.sp(i, Err(e))
                || (exists|m1: I, v0: A::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && self.1.sp(m1, Err(e)))
                || (exists|m1: I, v0: A::Output, m2: I, v1: B::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && self.2.sp(m2, Err(e)))
                || (exists|m1: I, v0: A::Output, m2: I, v1: B::Output, m3: I, v2: C::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && #[trigger] self.2.sp(m2, Ok((m3, v2))) && self.3.sp(m3, Err(e)))
                || (exists|m1: I, v0: A::Output, m2: I, v1: B::Output, m3: I, v2: C::Output, m4: I, v3: D::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && #[trigger] self.2.sp(m2, Ok((m3, v2))) && #[trigger] self.3.sp(m3, Ok((m4, v3))) && self.4.sp(m4, Err(e)))
                || (exists|m1: I, v0: A::Output, m2: I, v1: B::Output, m3: I, v2: C::Output, m4: I, v3: D::Output, m5: I, v4: E::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && #[trigger] self.2.sp(m2, Ok((m3, v2))) && #[trigger] self.3.sp(m3, Ok((m4, v3))) && #[trigger] self.4.sp(m4, Ok((m5, v4))) && self.5.sp(m5, Err(e)))
                || (exists|m1: I, v0: A::Output, m2: I, v1: B::Output, m3: I, v2: C::Output, m4: I, v3: D::Output, m5: I, v4: E::Output, m6: I, v5: F::Output| #[trigger] self.0.sp(i, Ok((m1, v0))) && #[trigger] self.1.sp(m1, Ok((m2, v1))) && #[trigger] self.2.sp(m2, Ok((m3, v2))) && #[trigger] self.3.sp(m3, Ok((m4, v3))) && #[trigger] self.4.sp(m4, Ok((m5, v4))) && #[trigger] self.5.sp(m5, Ok((m6, v5))) && self.6.sp(m6, Err(e))),
        }
    }
    open spec fn total(&self) -> bool { self.0.total() && self.1.total() && self.2.total() && self.3.total() && self.4.total() && self.5.total() && self.6.total() }
    fn parse(&self, i: I) -> (r: IResult<I, Self::Output>) {
        let (m1, v0) = match self.0.parse(i) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.0.sp(i, Ok((m1, v0))));
        let (m2, v1) = match self.1.parse(m1) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.1.sp(m1, Ok((m2, v1))));
        let (m3, v2) = match self.2.parse(m2) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.2.sp(m2, Ok((m3, v2))));
        let (m4, v3) = match self.3.parse(m3) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.3.sp(m3, Ok((m4, v3))));
        let (m5, v4) = match self.4.parse(m4) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.4.sp(m4, Ok((m5, v4))));
        let (m6, v5) = match self.5.parse(m5) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.5.sp(m5, Ok((m6, v5))));
        let (m, v6) = match self.6.parse(m6) { Ok(x) => x, Err(e) => return Err(e) };
        assert(self.6.sp(m6, Ok((m, v6))));
        let r: IResult<I, Self::Output> = Ok((m, (v0, v1, v2, v3, v4, v5, v6)));
        assert(r->Ok_0.1.0 == v0 && r->Ok_0.1.1 == v1 && r->Ok_0.1.2 == v2 && r->Ok_0.1.3 == v3 && r->Ok_0.1.4 == v4 && r->Ok_0.1.5 == v5 && r->Ok_0.1.6 == v6 && r->Ok_0.0 == m);
        assert(self.sp(i, r));
        r
    }
}
// ---- end of sequences
// ---- bytes
pub struct ByteTag<T> { pub t: T }
pub fn tag_p<T>(t: T) -> (r: ByteTag<T>) ensures r.t == t { ByteTag { t } }
pub open spec fn starts(s: Seq<u8>, t: Seq<u8>) -> bool { t.len() <= s.len() && s.take(t.len() as int) == t }
pub open spec fn tag_sp<'a>(t: Seq<u8>, i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool {
    match r {
        Ok((m, v)) => starts(i@, t) && v@ == t && m@ == i@.skip(t.len() as int),
        Err(e) => e is Error && !starts(i@, t),
    }
}
impl<'a, 'b> Parser<&'a [u8]> for ByteTag<&'b [u8]> {
    type Output = &'a [u8];
    open spec fn sp(&self, i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool { tag_sp(self.t@, i, r) }
    open spec fn total(&self) -> bool { true }
    #[verifier::external_body]
    fn parse(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>) { unimplemented!() }
}
pub struct TakeUntil<T> { pub t: T }
pub fn take_until<T>(t: T) -> (r: TakeUntil<T>) ensures r.t == t { TakeUntil { t } }
pub open spec fn take_until_sp<'a>(t: Seq<u8>, i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool {
    match r {
        Ok((m, v)) => {
            &&& v@.len() <= i@.len() && v@ == i@.take(v@.len() as int) && m@ == i@.skip(v@.len() as int) && starts(m@, t)
            &&& forall|k: int| 0 <= k < v@.len() ==> !#[trigger] starts(i@.skip(k), t)
        },
        Err(e) => e is Error && forall|k: int| 0 <= k <= i@.len() ==> !#[trigger] starts(i@.skip(k), t),
    }
}
impl<'a, 'b> Parser<&'a [u8]> for TakeUntil<&'b [u8]> {
    type Output = &'a [u8];
    open spec fn sp(&self, i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool { take_until_sp(self.t@, i, r) }
    open spec fn total(&self) -> bool { true }
    #[verifier::external_body]
    fn parse(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>) { unimplemented!() }
}
#[verifier::external_body]
pub fn be_u8<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u8>)
    ensures match r { Ok((m, v)) => i@.len() >= 1 && m@ == i@.skip(1) && v == i@[0], Err(e) => e is Error && i@.len() < 1 }
{ unimplemented!() }
#[verifier::external_body]
pub fn be_u16<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u16>)
    ensures match r { Ok((m, v)) => i@.len() >= 2 && m@ == i@.skip(2) && v == super::io_model::be16(i@, 0), Err(e) => e is Error && i@.len() < 2 }
{ unimplemented!() }
// ---- the streaming variants: Incomplete where the input is too short to tell
pub open spec fn take_streaming_sp<'a, O: VxBits>(n: int, i: (&'a [u8], usize), r: IResult<(&'a [u8], usize), O>) -> bool {
    match r {
        Ok((m, v)) => adv(i, n, m) && v.val() == at(i.0@, i.1 as int, 0, n),
        Err(e) => e is Incomplete && i.1 + n > 8 * i.0@.len(),
    }
}
pub struct BitTakeStreaming<I, O, E> { pub n: usize, pub p: PhantomData<(I, O, E)> }
pub fn bits_take_streaming<I, O, C: ToUsize, E>(n: C) -> (r: BitTakeStreaming<I, O, E>) ensures r.n == n.us() { BitTakeStreaming { n: n.to_usize(), p: PhantomData } }
impl<'a, O: VxBits> Parser<(&'a [u8], usize)> for BitTakeStreaming<&'a [u8], O, error::Error<(&'a [u8], usize)>> {
    type Output = O;
    open spec fn sp(&self, i: (&'a [u8], usize), r: IResult<(&'a [u8], usize), O>) -> bool { take_streaming_sp(self.n as int, i, r) }
    open spec fn total(&self) -> bool { self.n <= O::width() }
    #[verifier::external_body]
    fn parse(&self, i: (&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), O>) { unimplemented!() }
}
pub struct BitTagStreaming<I, O, E> { pub v: O, pub n: usize, pub p: PhantomData<(I, E)> }
pub fn bits_tag_streaming<I, O, C: ToUsize, E>(v: O, n: C) -> (r: BitTagStreaming<I, O, E>) ensures r.n == n.us(), r.v == v { BitTagStreaming { v, n: n.to_usize(), p: PhantomData } }
impl<'a, O: VxBits> Parser<(&'a [u8], usize)> for BitTagStreaming<&'a [u8], O, error::Error<(&'a [u8], usize)>> {
    type Output = O;
    open spec fn sp(&self, i: (&'a [u8], usize), r: IResult<(&'a [u8], usize), O>) -> bool {
        match r {
            Ok((m, v)) => v == self.v && take_streaming_sp(self.n as int, i, r),
            Err(e) => if i.1 + self.n > 8 * i.0@.len() { e is Incomplete } else { e is Error && self.v.val() != at(i.0@, i.1 as int, 0, self.n as int) },
        }
    }
    open spec fn total(&self) -> bool { self.n <= O::width() }
    #[verifier::external_body]
    fn parse(&self, i: (&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), O>) { unimplemented!() }
}
impl<'a, 'b, O: VxBits> Parser<(&'a [u8], usize)> for &'b BitTagStreaming<&'a [u8], O, error::Error<(&'a [u8], usize)>> {
    type Output = O;
    open spec fn sp(&self, i: (&'a [u8], usize), r: IResult<(&'a [u8], usize), O>) -> bool { (**self).sp(i, r) }
    open spec fn total(&self) -> bool { (**self).total() }
    fn parse(&self, i: (&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), O>) { (**self).parse(i) }
}
impl<'a, 'b, O: VxBits> Parser<(&'a [u8], usize)> for &'b BitTakeStreaming<&'a [u8], O, error::Error<(&'a [u8], usize)>> {
    type Output = O;
    open spec fn sp(&self, i: (&'a [u8], usize), r: IResult<(&'a [u8], usize), O>) -> bool { (**self).sp(i, r) }
    open spec fn total(&self) -> bool { (**self).total() }
    fn parse(&self, i: (&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), O>) { (**self).parse(i) }
}
pub struct ByteTagStreaming<T> { pub t: T }
pub fn bytes_tag_streaming<T>(t: T) -> (r: ByteTagStreaming<T>) ensures r.t == t { ByteTagStreaming { t } }
impl<'a, 'b> Parser<&'a [u8]> for ByteTagStreaming<&'b [u8]> {
    type Output = &'a [u8];
    open spec fn sp(&self, i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool {
        match r {
            Ok((m, v)) => starts(i@, self.t@) && v@ == self.t@ && m@ == i@.skip(self.t@.len() as int),
            Err(e) => !starts(i@, self.t@) && (e is Incomplete) == (i@.len() < self.t@.len() && i@ == self.t@.take(i@.len() as int)) && !(e is Failure),
        }
    }
    open spec fn total(&self) -> bool { true }
    #[verifier::external_body]
    fn parse(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>) { unimplemented!() }
}
pub struct TakeUntilStreaming<T> { pub t: T }
pub fn take_until_streaming<T>(t: T) -> (r: TakeUntilStreaming<T>) ensures r.t == t { TakeUntilStreaming { t } }
impl<'a, 'b> Parser<&'a [u8]> for TakeUntilStreaming<&'b [u8]> {
    type Output = &'a [u8];
    open spec fn sp(&self, i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool {
        match r {
            Ok(_) => take_until_sp(self.t@, i, r),
            Err(e) => e is Incomplete && forall|k: int| 0 <= k <= i@.len() ==> !#[trigger] starts(i@.skip(k), self.t@),
        }
    }
    open spec fn total(&self) -> bool { true }
    #[verifier::external_body]
    fn parse(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>) { unimplemented!() }
}
#[verifier::external_body]
pub fn be_u8_streaming<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u8>)
    ensures match r { Ok((m, v)) => i@.len() >= 1 && m@ == i@.skip(1) && v == i@[0], Err(e) => e is Incomplete && i@.len() < 1 }
{ unimplemented!() }
#[verifier::external_body]
pub fn be_u16_streaming<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u16>)
    ensures match r { Ok((m, v)) => i@.len() >= 2 && m@ == i@.skip(2) && v == super::io_model::be16(i@, 0), Err(e) => e is Incomplete && i@.len() < 2 }
{ unimplemented!() }
#[verifier::external_body]
pub fn le_u16<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u16>)
    ensures match r { Ok((m, v)) => i@.len() >= 2 && m@ == i@.skip(2) && v == i@[0] + 256 * i@[1], Err(e) => e is Error && i@.len() < 2 }
{ unimplemented!() }
#[verifier::external_body]
pub fn rest<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>)
    ensures r matches Ok((m, v)) && m@.len() == 0 && v@ == i@
{ unimplemented!() }
// a length, then a parser on that many bytes; what it leaves of them is dropped
pub struct LengthValue<P, Q> { pub p: P, pub q: Q }
pub fn length_value<P, Q>(p: P, q: Q) -> (r: LengthValue<P, Q>) ensures r.p == p, r.q == q { LengthValue { p, q } }
pub open spec fn length_value_sp<'a, P: Parser<&'a [u8]>, Q: Parser<&'a [u8]>>(p: P, q: Q, i: &'a [u8], r: IResult<&'a [u8], Q::Output>) -> bool where P::Output: ToUsize {
    match r {
        Ok((m, v)) => exists|j: &'a [u8], n: P::Output, w: &'a [u8], k: &'a [u8]|
            #[trigger] p.sp(i, Ok((j, n))) && n.us() <= j@.len() && w@ == j@.take(n.us()) && m@ == j@.skip(n.us())
            && #[trigger] q.sp(w, Ok((k, v))),
        Err(e) => p.sp(i, Err(e))
            || (exists|j: &'a [u8], n: P::Output| #[trigger] p.sp(i, Ok((j, n))) && j@.len() < n.us() && e is Incomplete)
            || (exists|j: &'a [u8], n: P::Output, w: &'a [u8], f: Err<error::Error<&'a [u8]>>|
                #[trigger] p.sp(i, Ok((j, n))) && n.us() <= j@.len() && w@ == j@.take(n.us())
                && #[trigger] q.sp(w, Err(f)) && (if f is Incomplete { e is Error } else { e == f })),
    }
}
impl<'a, P: Parser<&'a [u8]>, Q: Parser<&'a [u8]>> Parser<&'a [u8]> for LengthValue<P, Q> where P::Output: ToUsize {
    type Output = Q::Output;
    open spec fn sp(&self, i: &'a [u8], r: IResult<&'a [u8], Q::Output>) -> bool { length_value_sp(self.p, self.q, i, r) }
    open spec fn total(&self) -> bool { self.p.total() && self.q.total() }
    #[verifier::external_body]
    fn parse(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], Q::Output>) { unimplemented!() }
}
// ---- combinators
pub struct Value<O, P> { pub v: O, pub p: P }
pub fn value<O, P>(v: O, p: P) -> (r: Value<O, P>) ensures r.v == v, r.p == p { Value { v, p } }
pub open spec fn value_sp<I: In, O: Clone, P: Parser<I>>(v0: O, p: P, i: I, r: IResult<I, O>) -> bool {
    match r {
        Ok((m, v)) => cloned(v0, v) && exists|o: P::Output| #[trigger] p.sp(i, Ok((m, o))),
        Err(e) => p.sp(i, Err(e)),
    }
}
impl<I: In, O: Clone, P: Parser<I>> Parser<I> for Value<O, P> {
    type Output = O;
    open spec fn sp(&self, i: I, r: IResult<I, O>) -> bool { value_sp(self.v, self.p, i, r) }
    open spec fn total(&self) -> bool { self.p.total() }
    #[verifier::external_body]
    fn parse(&self, i: I) -> (r: IResult<I, O>) { unimplemented!() }
}
pub struct Map<P, F> { pub p: P, pub f: F }
pub fn map<P, F>(p: P, f: F) -> (r: Map<P, F>) ensures r.p == p, r.f == f { Map { p, f } }
pub open spec fn map_sp<I: In, O, P: Parser<I>, F: Fn(P::Output) -> O>(p: P, f: F, i: I, r: IResult<I, O>) -> bool {
    match r {
        Ok((m, v)) => exists|o: P::Output| #[trigger] p.sp(i, Ok((m, o))) && call_ensures(f, (o,), v),
        Err(e) => p.sp(i, Err(e)),
    }
}
impl<I: In, O, P: Parser<I>, F: Fn(P::Output) -> O> Parser<I> for Map<P, F> {
    type Output = O;
    open spec fn sp(&self, i: I, r: IResult<I, O>) -> bool { map_sp(self.p, self.f, i, r) }
    open spec fn total(&self) -> bool { self.p.total() && forall|i: I, m: I, o: P::Output| i.ok() && #[trigger] self.p.sp(i, Ok((m, o))) ==> call_requires(self.f, (o,)) }
    fn parse(&self, i: I) -> (r: IResult<I, O>) {
        match self.p.parse(i) { Ok((m, o)) => { assert(self.p.sp(i, Ok((m, o)))); let v = (self.f)(o); let r: IResult<I, O> = Ok((m, v)); assert(r->Ok_0.1 == v && r->Ok_0.0 == m); assert(self.sp(i, r)); r }, Err(e) => Err(e) }
    }
}
pub struct Preceded<P, Q> { pub p: P, pub q: Q }
pub fn preceded<P, Q>(p: P, q: Q) -> (r: Preceded<P, Q>) ensures r.p == p, r.q == q { Preceded { p, q } }
pub open spec fn preceded_sp<I: In, P: Parser<I>, Q: Parser<I>>(p: P, q: Q, i: I, r: IResult<I, Q::Output>) -> bool {
    match r {
        Ok((m, v)) => exists|j: I, o: P::Output| #[trigger] p.sp(i, Ok((j, o))) && q.sp(j, Ok((m, v))),
        Err(e) => p.sp(i, Err(e)) || exists|j: I, o: P::Output| #[trigger] p.sp(i, Ok((j, o))) && q.sp(j, Err(e)),
    }
}
impl<I: In, P: Parser<I>, Q: Parser<I>> Parser<I> for Preceded<P, Q> {
    type Output = Q::Output;
    open spec fn sp(&self, i: I, r: IResult<I, Q::Output>) -> bool { preceded_sp(self.p, self.q, i, r) }
    open spec fn total(&self) -> bool { self.p.total() && self.q.total() }
    fn parse(&self, i: I) -> (r: IResult<I, Q::Output>) {
        match self.p.parse(i) { Ok((j, o)) => self.q.parse(j), Err(e) => Err(e) }
    }
}
// a number of repetitions
pub struct Count<P> { pub p: P, pub n: usize }
pub fn count<P>(p: P, n: usize) -> (r: Count<P>) ensures r.p == p, r.n == n { Count { p, n } }
pub open spec fn rep<I: In, P: Parser<I>>(p: P, i: I, v: Seq<P::Output>, m: I) -> bool decreases v.len() {
    if v.len() == 0 { m == i } else { exists|j: I| #[trigger] p.sp(i, Ok((j, v[0]))) && rep(p, j, v.skip(1), m) }
}
pub open spec fn count_sp<I: In, P: Parser<I>>(p: P, n: int, i: I, r: IResult<I, Vec<P::Output>>) -> bool {
    match r {
        Ok((m, v)) => v@.len() == n && rep(p, i, v@, m),
        Err(e) => exists|v: Seq<P::Output>, j: I| v.len() < n && #[trigger] rep(p, i, v, j) && p.sp(j, Err(e)),
    }
}
impl<I: In, P: Parser<I>> Parser<I> for Count<P> {
    type Output = Vec<P::Output>;
    open spec fn sp(&self, i: I, r: IResult<I, Vec<P::Output>>) -> bool { count_sp(self.p, self.n as int, i, r) }
    open spec fn total(&self) -> bool { self.p.total() }
    #[verifier::external_body]
    fn parse(&self, i: I) -> (r: IResult<I, Vec<P::Output>>) { unimplemented!() }
}
// repetitions of p up to the first q
pub struct ManyTill<P, Q> { pub p: P, pub q: Q }
pub fn many_till<P, Q>(p: P, q: Q) -> (r: ManyTill<P, Q>) ensures r.p == p, r.q == q { ManyTill { p, q } }
pub open spec fn fails<I: In, P: Parser<I>>(p: P, i: I) -> bool { exists|e: error::Error<I>| #[trigger] p.sp(i, Err(Err::Error(e))) }
pub open spec fn run<'a, P: Parser<&'a [u8]>, Q: Parser<&'a [u8]>>(p: P, q: Q, i: &'a [u8], v: Seq<P::Output>, m: &'a [u8]) -> bool decreases v.len() {
    if v.len() == 0 { m == i } else {
        fails(q, i) && exists|j: &'a [u8]| #[trigger] p.sp(i, Ok((j, v[0]))) && j@.len() != i@.len() && run(p, q, j, v.skip(1), m)
    }
}
pub open spec fn many_till_sp<'a, P: Parser<&'a [u8]>, Q: Parser<&'a [u8]>>(p: P, q: Q, i: &'a [u8], r: IResult<&'a [u8], (Vec<P::Output>, Q::Output)>) -> bool {
    match r {
        Ok((m, (v, o))) => exists|j: &'a [u8]| #[trigger] run(p, q, i, v@, j) && q.sp(j, Ok((m, o))),
        Err(Err::Error(_)) => exists|v: Seq<P::Output>, j: &'a [u8]| #[trigger] run(p, q, i, v, j) && fails(q, j)
            && (fails(p, j) || exists|k: &'a [u8], o: P::Output| #[trigger] p.sp(j, Ok((k, o))) && k@.len() == j@.len()),
        Err(e) => exists|v: Seq<P::Output>, j: &'a [u8]| #[trigger] run(p, q, i, v, j)
            && (q.sp(j, Err(e)) || (fails(q, j) && p.sp(j, Err(e)))),
    }
}
impl<'a, P: Parser<&'a [u8]>, Q: Parser<&'a [u8]>> Parser<&'a [u8]> for ManyTill<P, Q> {
    type Output = (Vec<P::Output>, Q::Output);
    open spec fn sp(&self, i: &'a [u8], r: IResult<&'a [u8], (Vec<P::Output>, Q::Output)>) -> bool { many_till_sp(self.p, self.q, i, r) }
    open spec fn total(&self) -> bool { self.p.total() && self.q.total() }
    #[verifier::external_body]
    fn parse(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], (Vec<P::Output>, Q::Output)>) { unimplemented!() }
}
// the first that succeeds
pub struct Alt<P> { pub p: P }
pub fn alt<P>(p: P) -> (r: Alt<P>) ensures r.p == p { Alt { p } }
impl<I: In, A: Parser<I>, B: Parser<I, Output = A::Output>, C: Parser<I, Output = A::Output>> Parser<I> for Alt<(A, B, C)> {
    type Output = A::Output;
    open spec fn sp(&self, i: I, r: IResult<I, A::Output>) -> bool {
        ||| self.p.0.sp(i, r) && !(r matches Err(Err::Error(_)))
        ||| (exists|e: error::Error<I>| #[trigger] self.p.0.sp(i, Err(Err::Error(e)))) && self.p.1.sp(i, r) && !(r matches Err(Err::Error(_)))
        ||| (exists|e: error::Error<I>| #[trigger] self.p.0.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.1.sp(i, Err(Err::Error(e)))) && self.p.2.sp(i, r)
    }
    open spec fn total(&self) -> bool { self.p.0.total() && self.p.1.total() && self.p.2.total() }
    fn parse(&self, i: I) -> (r: IResult<I, A::Output>) {
        let ghost g = i;
        match self.p.0.parse(i.dup()) { Err(Err::Error(e)) => { assert(self.p.0.sp(g, Err(Err::Error(e)))); }, r => return r }
        match self.p.1.parse(i.dup()) { Err(Err::Error(e)) => { assert(self.p.1.sp(g, Err(Err::Error(e)))); }, r => return r }
        self.p.2.parse(i)
    }
}
impl<I: In, A: Parser<I>, B: Parser<I, Output = A::Output>, C: Parser<I, Output = A::Output>, D: Parser<I, Output = A::Output>, E: Parser<I, Output = A::Output>> Parser<I> for Alt<(A, B, C, D, E)> {
    type Output = A::Output;
    open spec fn sp(&self, i: I, r: IResult<I, A::Output>) -> bool {
        ||| self.p.0.sp(i, r) && !(r matches Err(Err::Error(_)))
        ||| (exists|e: error::Error<I>| #[trigger] self.p.0.sp(i, Err(Err::Error(e)))) && self.p.1.sp(i, r) && !(r matches Err(Err::Error(_)))
        ||| (exists|e: error::Error<I>| #[trigger] self.p.0.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.1.sp(i, Err(Err::Error(e)))) && self.p.2.sp(i, r) && !(r matches Err(Err::Error(_)))
        ||| (exists|e: error::Error<I>| #[trigger] self.p.0.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.1.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.2.sp(i, Err(Err::Error(e)))) && self.p.3.sp(i, r) && !(r matches Err(Err::Error(_)))
        ||| (exists|e: error::Error<I>| #[trigger] self.p.0.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.1.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.2.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.3.sp(i, Err(Err::Error(e)))) && self.p.4.sp(i, r)
    }
    open spec fn total(&self) -> bool { self.p.0.total() && self.p.1.total() && self.p.2.total() && self.p.3.total() && self.p.4.total() }
    fn parse(&self, i: I) -> (r: IResult<I, A::Output>) {
        let ghost g = i;
        match self.p.0.parse(i.dup()) { Err(Err::Error(e)) => { assert(self.p.0.sp(g, Err(Err::Error(e)))); }, r => return r }
        match self.p.1.parse(i.dup()) { Err(Err::Error(e)) => { assert(self.p.1.sp(g, Err(Err::Error(e)))); }, r => return r }
        match self.p.2.parse(i.dup()) { Err(Err::Error(e)) => { assert(self.p.2.sp(g, Err(Err::Error(e)))); }, r => return r }
        match self.p.3.parse(i.dup()) { Err(Err::Error(e)) => { assert(self.p.3.sp(g, Err(Err::Error(e)))); }, r => return r }
        self.p.4.parse(i)
    }
}
impl<I: In, A: Parser<I>, B: Parser<I, Output = A::Output>, C: Parser<I, Output = A::Output>, D: Parser<I, Output = A::Output>, E: Parser<I, Output = A::Output>, F: Parser<I, Output = A::Output>, G: Parser<I, Output = A::Output>, H: Parser<I, Output = A::Output>> Parser<I> for Alt<(A, B, C, D, E, F, G, H)> {
    type Output = A::Output;
    open spec fn sp(&self, i: I, r: IResult<I, A::Output>) -> bool {
        ||| self.p.0.sp(i, r) && !(r matches Err(Err::Error(_)))
        ||| (exists|e: error::Error<I>| #[trigger] self.p.0.sp(i, Err(Err::Error(e)))) && self.p.1.sp(i, r) && !(r matches Err(Err::Error(_)))
        ||| (exists|e: error::Error<I>| #[trigger] self.p.0.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.1.sp(i, Err(Err::Error(e)))) && self.p.2.sp(i, r) && !(r matches Err(Err::Error(_)))
        ||| (exists|e: error::Error<I>| #[trigger] self.p.0.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.1.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.2.sp(i, Err(Err::Error(e)))) && self.p.3.sp(i, r) && !(r matches Err(Err::Error(_)))
        ||| (exists|e: error::Error<I>| #[trigger] self.p.0.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.1.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.2.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.3.sp(i, Err(Err::Error(e)))) && self.p.4.sp(i, r) && !(r matches Err(Err::Error(_)))
        ||| (exists|e: error::Error<I>| #[trigger] self.p.0.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.1.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.2.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.3.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.4.sp(i, Err(Err::Error(e)))) && self.p.5.sp(i, r) && !(r matches Err(Err::Error(_)))
        ||| (exists|e: error::Error<I>| #[trigger] self.p.0.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.1.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.2.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.3.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.4.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.5.sp(i, Err(Err::Error(e)))) && self.p.6.sp(i, r) && !(r matches Err(Err::Error(_)))
        ||| (exists|e: error::Error<I>| #[trigger] self.p.0.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.1.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.2.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.3.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.4.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.5.sp(i, Err(Err::Error(e)))) && (exists|e: error::Error<I>| #[trigger] self.p.6.sp(i, Err(Err::Error(e)))) && self.p.7.sp(i, r)
    }
    open spec fn total(&self) -> bool { self.p.0.total() && self.p.1.total() && self.p.2.total() && self.p.3.total() && self.p.4.total() && self.p.5.total() && self.p.6.total() && self.p.7.total() }
    fn parse(&self, i: I) -> (r: IResult<I, A::Output>) {
        let ghost g = i;
        match self.p.0.parse(i.dup()) { Err(Err::Error(e)) => { assert(self.p.0.sp(g, Err(Err::Error(e)))); }, r => return r }
        match self.p.1.parse(i.dup()) { Err(Err::Error(e)) => { assert(self.p.1.sp(g, Err(Err::Error(e)))); }, r => return r }
        match self.p.2.parse(i.dup()) { Err(Err::Error(e)) => { assert(self.p.2.sp(g, Err(Err::Error(e)))); }, r => return r }
        match self.p.3.parse(i.dup()) { Err(Err::Error(e)) => { assert(self.p.3.sp(g, Err(Err::Error(e)))); }, r => return r }
        match self.p.4.parse(i.dup()) { Err(Err::Error(e)) => { assert(self.p.4.sp(g, Err(Err::Error(e)))); }, r => return r }
        match self.p.5.parse(i.dup()) { Err(Err::Error(e)) => { assert(self.p.5.sp(g, Err(Err::Error(e)))); }, r => return r }
        match self.p.6.parse(i.dup()) { Err(Err::Error(e)) => { assert(self.p.6.sp(g, Err(Err::Error(e)))); }, r => return r }
        self.p.7.parse(i)
    }
}
}
@alias nom::bits::streaming::take => bits_take_streaming
@alias nom::bits::streaming::tag => bits_tag_streaming
@path bits::streaming::take => bits_take_streaming
@path bits::streaming::tag => bits_tag_streaming
@alias nom::bytes::streaming::tag => bytes_tag_streaming
@alias nom::bytes::streaming::take_until => take_until_streaming
@alias nom::number::streaming::be_u8 => be_u8_streaming
@alias nom::number::streaming::be_u16 => be_u16_streaming
@alias nom::number::complete::le_u16 => le_u16
