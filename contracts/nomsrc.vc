// Unit nomsrc: the source of nom, against the contracts nom.vc and nomlist.vc assume for it.
// Read in the `Emit` output and error mode and the complete (not streaming) mode.
@include base.vc
@include io.vc
@include nom.vc
@include nomlist.vc
@rule OM::Output::bind(crate::lib::std::vec::Vec::new) => Vec::new()
@rule OM::Output::bind(|| __e) => __e
@rule OM::Error::bind(|| __e) => __e
@rule OM::Output::combine(__a, __b, |__x, __y| __e) => { let __x = __a; let __y = __b; __e }
@rule OM::Output::map(__a, |__x| __e) => { let __x = __a; __e }
@rule OM::Error::map(__a, |__x| __e) => { let __x = __a; __e }
@rule OM::Incomplete::is_streaming() => false
@rule __p.process(__i) => vx_parse(&__p, __i)
@rule __i.clone() => __i.dup()
@rule Ok((__m, __v)) => ({ let vx_m = __m; let vx_v = __v; @@each ok@@ vx_ok(vx_m, vx_v) })
@rule Err(__e) => { let vx_e = __e; @@each err@@ vx_err(vx_e) }
@rule (self.predicate)(__x) => vx_call(&self_.predicate, __x)
@rule __a.checked_sub(__b).and_then(NonZeroUsize::new) => vx_excess(__a, __b)
@rule MAX_INITIAL_CAPACITY_BYTES / __x => 0usize
@rule __a.min(max_initial_capacity) => 0usize
@rule make_error(__a, __b) => Error::from_error_kind(__a, __b)
@rule __i.iter_elements().take(__n) => vx_prefix(__i, __n)
@rule self.iter().zip(t.iter()).position(|(a, b)| a != b) => vx_differ(self, t)
@rule memchr::memchr(__a, __b) => vx_memchr(__a, __b)
@rule &self[__a..][..__b] => &vx_from(self, __a)[..__b]
@path crate::lib::std::vec::Vec::with_capacity => Vec::with_capacity
@path E::append => Error::append
@path E::from_error_kind => Error::from_error_kind
@path Error::from_error_kind => Error::from_error_kind
@rule <F as Parser<I>>::Error::append(__a, __b, __c) => Error::append(__a, __b, __c)
@rule <F as Parser<I>>::Error::from_external_error(__a, __b, __c) => Error::from_external_error(__a, __b, __c)

pub mod nom_src {
use vstd::prelude::*;
use std::marker::PhantomData;
use super::base::*;
use super::io_model::*;
use super::nom::*;
use super::nom::error::{Error, ErrorKind};
use super::nom_list::*;

impl Needed { pub fn new(n: usize) -> Needed { if n == 0 { Needed::Unknown } else { Needed::Size(n) } } }
// a parser in any mode
pub fn vx_parse<I: In, P: Parser<I>>(p: &P, i: I) -> (r: IResult<I, P::Output>)
    requires p.total(), i.ok(),
    ensures p.sp(i, r), match r {
        Ok((m, v)) => p.sp(i, Ok((m, v))) && m.ok(),
        Err(Err::Error(e)) => p.sp(i, Err(Err::Error(e))),
        Err(Err::Failure(e)) => p.sp(i, Err(Err::Failure(e))),
        Err(Err::Incomplete(e)) => p.sp(i, Err(Err::Incomplete(e))),
    },
{ p.parse(i) }
pub fn vx_call<F: Fn(u8) -> bool>(f: &F, x: u8) -> (r: bool) requires call_requires(*f, (x,)), ensures call_ensures(*f, (x,), r) { f(x) }
pub fn vx_call1<A, B, F: Fn(A) -> B>(f: &F, x: A) -> (r: B) requires call_requires(*f, (x,)), ensures call_ensures(*f, (x,), r) { f(x) }
pub fn vx_excess(a: usize, b: usize) -> (r: Option<usize>) ensures r == (if a > b { Some((a - b) as usize) } else { None }) { if a > b { Some(a - b) } else { None } }
// what the iterator chains over bytes mean, written out: the first n bytes, one by one
pub fn vx_prefix(s: &[u8], n: usize) -> (r: Vec<u8>) ensures r@ == (if n <= s@.len() { s@.take(n as int) } else { s@ })
{
    let mut r: Vec<u8> = Vec::new();
    let l = s.len();
    while r.len() < n && r.len() < l
        invariant l == s@.len(), r@.len() <= n, r@.len() <= l, r@ == s@.take(r@.len() as int),
        decreases l - r@.len()
    {
        let k = r.len();
        r.push(s[k]);
        proof { assert(r@ =~= s@.take(r@.len() as int)); }
    }
    proof { assert(r@ =~= (if n <= s@.len() { s@.take(n as int) } else { s@ })); }
    r
}
// the bytes with their positions, counted twice
pub fn vx_indexed(s: &[u8]) -> (r: Vec<(usize, (usize, u8))>) ensures r@ == Seq::new(s@.len(), |k: int| (k as usize, (k as usize, s@[k])))
{
    let mut r: Vec<(usize, (usize, u8))> = Vec::new();
    let l = s.len();
    while r.len() < l
        invariant l == s@.len(), r@.len() <= l, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (k as usize, (k as usize, s@[k])),
        decreases l - r@.len()
    {
        let k = r.len();
        r.push((k, (k, s[k])));
    }
    proof { assert(r@ =~= Seq::new(s@.len(), |k: int| (k as usize, (k as usize, s@[k])))); }
    r
}
// the first position where two byte strings differ
pub fn vx_differ(s: &[u8], t: &[u8]) -> (r: Option<usize>)
    ensures match r {
        Some(k) => k < s@.len() && k < t@.len() && s@[k as int] != t@[k as int],
        None => forall|k: int| 0 <= k < s@.len() && k < t@.len() ==> s@[k] == t@[k],
    }
{
    let (l, m) = (s.len(), t.len());
    let mut k: usize = 0;
    while k < l && k < m
        invariant l == s@.len(), m == t@.len(), k <= l, forall|j: int| 0 <= j < k && j < l && j < m ==> s@[j] == t@[j],
        decreases l - k
    {
        if s[k] != t[k] { return Some(k); }
        k = k + 1;
    }
    None
}
// memchr::memchr: the first position of a byte
#[verifier::external_body]
pub fn vx_memchr(c: u8, s: &[u8]) -> (r: Option<usize>)
    ensures match r {
        Some(k) => k < s@.len() && s@[k as int] == c && forall|j: int| 0 <= j < k ==> s@[j] != c,
        None => forall|j: int| 0 <= j < s@.len() ==> s@[j] != c,
    }
{ unimplemented!() }
pub fn vx_from(s: &[u8], a: usize) -> (r: &[u8]) requires a <= s@.len(), ensures r@ == s@.skip(a as int) { &s[a..] }
pub fn vx_ok<I, O>(m: I, v: O) -> (r: IResult<I, O>) ensures r == Ok::<(I, O), Err<Error<I>>>((m, v)), r->Ok_0.0 == m, r->Ok_0.1 == v { Ok((m, v)) }
pub fn vx_err<I, O>(e: Err<Error<I>>) -> (r: IResult<I, O>) ensures r == Err::<(I, O), Err<Error<I>>>(e), r->Err_0 == e { Err(e) }
// ---- errors
@fn cargo:nom/src/error.rs <ParseError for Error>::from_error_kind
@opt impl=impl<I> Error<I>
@ret r
@spec
    ensures r.input == input, r.code == kind
@endfn
@fn cargo:nom/src/error.rs <ParseError for Error>::append
@opt impl=impl<I> Error<I>
@ret r
@spec
    ensures r == other
@endfn
@fn cargo:nom/src/error.rs <FromExternalError for Error>::from_external_error
@opt impl=impl<I> Error<I>
@opt generics=E
@ret r
@spec
    ensures r.input == input, r.code == kind
@endfn
// ---- input
pub trait InputLen { fn input_len(&self) -> (r: usize) ensures r == self.all().len(); spec fn all(&self) -> Seq<u8>; }
@fn cargo:nom/src/traits.rs <Input for &'a [u8]>::input_len
@opt impl=impl<'a> InputLen for &'a [u8]
@opt traitimpl
@opt notypes
@opt implextra=open spec fn all(&self) -> Seq<u8> { self@ }
@endfn

pub trait InputTake<'a> { fn take(&self, index: usize) -> (r: &'a [u8]) requires index <= self.all().len(), ensures r@ == self.all().take(index as int); spec fn all(&self) -> Seq<u8>; }
@fn cargo:nom/src/traits.rs <Input for &'a [u8]>::take
@opt impl=impl<'a> InputTake<'a> for &'a [u8]
@opt path=Self => &'a [u8]
@opt traitimpl
@opt notypes
@opt implextra=open spec fn all(&self) -> Seq<u8> { self@ }
@endfn
pub trait InputTakeFrom<'a> { fn take_from(&self, index: usize) -> (r: &'a [u8]) requires index <= self.all().len(), ensures r@ == self.all().skip(index as int); spec fn all(&self) -> Seq<u8>; }
@fn cargo:nom/src/traits.rs <Input for &'a [u8]>::take_from
@opt impl=impl<'a> InputTakeFrom<'a> for &'a [u8]
@opt path=Self => &'a [u8]
@opt traitimpl
@opt notypes
@opt implextra=open spec fn all(&self) -> Seq<u8> { self@ }
@endfn
pub trait InputSplit<'a> { fn take_split(&self, index: usize) -> (r: (&'a [u8], &'a [u8])) requires index <= self.all().len(), ensures r.0@ == self.all().skip(index as int), r.1@ == self.all().take(index as int); spec fn all(&self) -> Seq<u8>; }
@fn cargo:nom/src/traits.rs <Input for &'a [u8]>::take_split
@opt impl=impl<'a> InputSplit<'a> for &'a [u8]
@opt path=Self => &'a [u8]
@opt traitimpl
@opt notypes
@opt implextra=open spec fn all(&self) -> Seq<u8> { self@ }
@endfn
@fn cargo:nom/src/combinator/mod.rs rest
@opt generics='a
@opt path=T => &'a [u8]
@opt retty=IResult<&'a [u8], &'a [u8]>
@ret r
@spec
    ensures r matches Ok((m, v)) && m@.len() == 0 && v@ == input@
@endfn

// ---- preceded, map_res
@type cargo:nom/src/sequence/mod.rs Preceded as=PrecededS
@fn cargo:nom/src/sequence/mod.rs <Parser for Preceded>::process
@opt free=
@opt name=preceded_process
@opt generics=I: In, F: Parser<I>, G: Parser<I>
@opt selfty=&PrecededS<F, G>
@opt retty=IResult<I, G::Output>
@ret r
@spec
    requires self_.f.total(), self_.g.total(), i.ok(),
    ensures preceded_sp(self_.f, self_.g, i, r)
@start
    let ghost i0 = i;
@before process 1
    let ghost i1 = i;
    assert(exists|o: F::Output| #[trigger] self_.f.sp(i0, Ok((i1, o))));
@each ok
    assert(self_.g.sp(i1, Ok((vx_m, vx_v))));
    assert(preceded_sp(self_.f, self_.g, i0, Ok((vx_m, vx_v))));
@endfn
@type cargo:nom/src/internal.rs MapRes as=MapResS
@fn cargo:nom/src/internal.rs <Parser for MapRes>::process
@opt free=
@opt name=map_res_process
@opt generics=I: In, O2, E2, F: Parser<I>, G: Fn(F::Output) -> Result<O2, E2>
@opt selfty=&MapResS<F, G>
@opt retty=IResult<I, O2>
@ret r
@spec
    requires (MapRes { p: self_.f, f: self_.g }).total(), i.ok(),
    ensures map_res_sp(self_.f, self_.g, i, r)
@endfn

pub proof fn map_ok<I: In, O, P: Parser<I>, F: Fn(P::Output) -> O>(p: P, f: F, i: I, m: I, o: P::Output, v: O)
    requires p.sp(i, Ok((m, o))), call_ensures(f, (o,), v), ensures map_sp(p, f, i, Ok((m, v)))
{
    let r: IResult<I, O> = Ok((m, v));
    assert(r->Ok_0.0 == m && r->Ok_0.1 == v);
    assert(map_sp(p, f, i, r));
}
@rule (self.g)(__o) => vx_call1(&self_.g, __o)
@type cargo:nom/src/internal.rs Map as=MapS
@fn cargo:nom/src/internal.rs <Parser for Map>::process
@opt free=
@opt name=map_process
@opt generics=I: In, O2, F: Parser<I>, G: Fn(F::Output) -> O2
@opt selfty=&MapS<F, G>
@opt retty=IResult<I, O2>
@ret r
@spec
    requires (super::nom::Map { p: self_.f, f: self_.g }).total(), i.ok(),
    ensures map_sp(self_.f, self_.g, i, r)
@start
    let ghost i0 = i;
@each ok
    assert(self_.f.sp(i0, Ok((i, o))));
    assert(call_ensures(self_.g, (o,), vx_v));
    proof { map_ok(self_.f, self_.g, i0, vx_m, o, vx_v); }
@endfn

// ---- value: a parser mapped to the value
@rule parser.map(__f) => super::nom::map(parser, __f)
pub fn vx_clone<T: Clone>(t: &T) -> (r: T) ensures cloned(*t, r) { t.clone() }
@fn cargo:nom/src/combinator/mod.rs value
@opt rule=val.clone() => vx_clone(&val)
@opt generics=I: In, O1: Clone, F: Parser<I>
@opt retty=super::nom::Map<F, impl Fn(F::Output) -> O1>
@ret r
@spec
    ensures r.p == parser, forall|o: F::Output| #[trigger] call_requires(r.f, (o,)),
        forall|o: F::Output, v: O1| #[trigger] call_ensures(r.f, (o,), v) ==> cloned(val, v),
@closure 0 (F::Output) -> (r: O1)
    ensures cloned(*&val, r)
@endfn
pub proof fn value_is_map<I: In, O1: Clone, F: Parser<I>, G: Fn(F::Output) -> O1>(val: O1, parser: F, q: super::nom::Map<F, G>, i: I, r: IResult<I, O1>)
    requires q.p == parser, forall|o: F::Output, v: O1| #[trigger] call_ensures(q.f, (o,), v) ==> cloned(val, v), map_sp(q.p, q.f, i, r),
    ensures value_sp(val, parser, i, r)
{ }

// ---- length_value
@type cargo:nom/src/multi/mod.rs LengthValue as=LengthValueS
@fn cargo:nom/src/multi/mod.rs <Parser for LengthValue>::process
@opt free=
@opt name=length_value_process
@opt generics='a, N: ToUsize, F: Parser<&'a [u8], Output = N>, G: Parser<&'a [u8]>
@opt selfty=&LengthValueS<F, G, Error<&'a [u8]>>
@opt path=I => &'a [u8]
@opt retty=IResult<&'a [u8], G::Output>
@ret r
@spec
    requires self_.length.total(), self_.parser.total(),
    ensures length_value_sp(self_.length, self_.parser, input, r)
@endfn

// ---- count
@type cargo:nom/src/multi/mod.rs Count as=CountS
pub proof fn rep_push<I: In, P: Parser<I>>(p: P, i: I, v: Seq<P::Output>, j: I, o: P::Output, k: I)
    requires rep(p, i, v, j), p.sp(j, Ok((k, o))),
    ensures rep(p, i, v.push(o), k)
    decreases v.len()
{
    if v.len() == 0 {
        assert(v.push(o).skip(1) =~= Seq::<P::Output>::empty());
        assert(rep(p, k, v.push(o).skip(1), k));
        assert(v.push(o)[0] == o);
    } else {
        let m = choose|m: I| #[trigger] p.sp(i, Ok((m, v[0]))) && rep(p, m, v.skip(1), j);
        rep_push(p, m, v.skip(1), j, o, k);
        assert(v.push(o).skip(1) =~= v.skip(1).push(o));
        assert(v.push(o)[0] == v[0]);
    }
}
pub proof fn count_err<I: In, P: Parser<I>>(p: P, n: int, i: I, v: Seq<P::Output>, j: I, e: Err<Error<I>>)
    requires v.len() < n, rep(p, i, v, j), p.sp(j, Err(e)),
    ensures count_sp(p, n, i, Err(e))
{
    let r: IResult<I, Vec<P::Output>> = Err(e);
    assert(r->Err_0 == e);
    assert(p.sp(j, Err(r->Err_0)));
    assert(count_sp(p, n, i, r));
}
@fn cargo:nom/src/multi/mod.rs <Parser for Count>::process
@opt free=
@opt name=count_process
@opt generics=I: In, F: Parser<I>
@opt selfty=&CountS<F>
@opt retty=IResult<I, Vec<F::Output>>
@opt attr=#[verifier::loop_isolation(false)]
@ret r
@spec
    requires self_.parser.total(), i.ok(),
    ensures count_sp(self_.parser, self_.count as int, i, r)
@start
    let ghost i0 = i;
@loop 0 : for _ in 0..self.count
    invariant res@.len() == vx_it.index@, rep(self_.parser, i, res@, input), input.ok(),
@loopstart 0
    let ghost v = res@;
    let ghost j = input;
@each err
    proof { assert(v.len() < self_.count && rep(self_.parser, i0, v, j)); count_err(self_.parser, self_.count as int, i0, v, j, vx_e); }
@before combine 0
    proof { rep_push(self_.parser, i0, v, j, o, i); }
@endfn

// ---- many_till
@type cargo:nom/src/multi/mod.rs ManyTill as=ManyTillS
pub proof fn run_push<'a, P: Parser<&'a [u8]>, Q: Parser<&'a [u8]>>(p: P, q: Q, i: &'a [u8], v: Seq<P::Output>, j: &'a [u8], o: P::Output, k: &'a [u8])
    requires run(p, q, i, v, j), fails(q, j), p.sp(j, Ok((k, o))), k@.len() != j@.len(),
    ensures run(p, q, i, v.push(o), k)
    decreases v.len()
{
    if v.len() == 0 {
        assert(v.push(o).skip(1) =~= Seq::<P::Output>::empty());
        assert(run(p, q, k, v.push(o).skip(1), k));
        assert(v.push(o)[0] == o);
    } else {
        let m = choose|m: &'a [u8]| #[trigger] p.sp(i, Ok((m, v[0]))) && m@.len() != i@.len() && run(p, q, m, v.skip(1), j);
        run_push(p, q, m, v.skip(1), j, o, k);
        assert(v.push(o).skip(1) =~= v.skip(1).push(o));
        assert(v.push(o)[0] == v[0]);
    }
}
pub proof fn many_till_ok<'a, P: Parser<&'a [u8]>, Q: Parser<&'a [u8]>>(p: P, q: Q, i: &'a [u8], w: (Vec<P::Output>, Q::Output), j: &'a [u8], m: &'a [u8])
    requires run(p, q, i, w.0@, j), q.sp(j, Ok((m, w.1))),
    ensures many_till_sp(p, q, i, Ok((m, w)))
{
    let r: IResult<&'a [u8], (Vec<P::Output>, Q::Output)> = Ok((m, w));
    assert(r->Ok_0.0 == m && r->Ok_0.1 == w);
    assert(many_till_sp(p, q, i, r));
}
pub proof fn many_till_err<'a, P: Parser<&'a [u8]>, Q: Parser<&'a [u8]>>(p: P, q: Q, i: &'a [u8], v: Seq<P::Output>, j: &'a [u8], e: Err<Error<&'a [u8]>>)
    requires run(p, q, i, v, j), match e {
        Err::Error(_) => fails(q, j) && (fails(p, j) || exists|k: &'a [u8], o: P::Output| #[trigger] p.sp(j, Ok((k, o))) && k@.len() == j@.len()),
        _ => q.sp(j, Err(e)) || (fails(q, j) && p.sp(j, Err(e))),
    },
    ensures many_till_sp(p, q, i, Err(e))
{
    let r: IResult<&'a [u8], (Vec<P::Output>, Q::Output)> = Err(e);
    assert(r->Err_0 == e);
    if !(e is Error) {
        assert(exists|v: Seq<P::Output>, j: &'a [u8]| #[trigger] run(p, q, i, v, j)
                && (q.sp(j, Err(r->Err_0)) || (fails(q, j) && p.sp(j, Err(r->Err_0)))));
    }
    assert(many_till_sp(p, q, i, r));
}
@fn cargo:nom/src/multi/mod.rs <Parser for ManyTill>::process
@opt free=
@opt name=many_till_process
@opt generics='a, F: Parser<&'a [u8]>, G: Parser<&'a [u8]>
@opt selfty=&ManyTillS<F, G, Error<&'a [u8]>>
@opt path=I => &'a [u8]
@opt retty=IResult<&'a [u8], (Vec<F::Output>, G::Output)>
@opt attr=#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
@ret r
@spec
    requires self_.f.total(), self_.g.total(),
    ensures many_till_sp(self_.f, self_.g, i, r)
@start
    let ghost i0 = i;
    proof { assert(run(self_.f, self_.g, i, Seq::<F::Output>::empty(), i)); }
@loop 0 : loop
    invariant run(self_.f, self_.g, i0, res@, i), self_.f.total(), self_.g.total(),
@loopstart 0
    let ghost v = res@;
    let ghost j = i;
@each ok
    proof { many_till_ok(self_.f, self_.g, i0, vx_v, j, vx_m); }
@each err
    proof { many_till_err(self_.f, self_.g, i0, v, j, vx_e); }
@before combine 1
    proof { run_push(self_.f, self_.g, i0, v, j, o, i); }
@endfn

// ---- be_u8, be_u16
@type cargo:nom/src/number/mod.rs BeUint as=BeUintS
@fn cargo:nom/src/number/mod.rs <Parser for BeUint>::process
@opt free=
@opt name=be_u8_process
@opt generics='a
@opt selfty=&BeUintS<u8, Error<&'a [u8]>>
@opt path=I => &'a [u8]
@opt path=Uint::default => u8_zero
@opt rule=byte.into() => byte
@opt retty=IResult<&'a [u8], u8>
@opt attr=#[verifier::loop_isolation(false)]
@ret r
@spec
    requires self_.bound == 1,
    ensures match r {
        Ok((m, v)) => input@.len() >= 1 && v == input@[0] && m@ == input@.skip(1),
        Err(e) => e is Error && input@.len() < 1,
    }
@loop 0 : for byte in input.iter_elements().take(self.bound)
    invariant false,
@loop 1 : for byte in input.iter_elements().take(self.bound)
    invariant vx_it.index@ > 0 ==> res == input@[vx_it.index@ - 1],
@endfn
pub fn u8_zero() -> (r: u8) ensures r == 0 { 0 }
pub fn u16_zero() -> (r: u16) ensures r == 0 { 0 }
@fn cargo:nom/src/number/mod.rs <Parser for BeUint>::process
@opt free=
@opt name=be_u16_process
@opt generics='a
@opt selfty=&BeUintS<u16, Error<&'a [u8]>>
@opt path=I => &'a [u8]
@opt path=Uint::default => u16_zero
@opt rule=byte.into() => u16::from(byte)
@opt retty=IResult<&'a [u8], u16>
@opt attr=#[verifier::loop_isolation(false)]
@ret r
@spec
    requires self_.bound == 2,
    ensures match r {
        Ok((m, v)) => input@.len() >= 2 && v == be16(input@, 0) && m@ == input@.skip(2),
        Err(e) => e is Error && input@.len() < 2,
    }
@loop 0 : for byte in input.iter_elements().take(self.bound)
    invariant vx_it.index@ == 0 ==> res == 0, vx_it.index@ == 1 ==> res == input@[0], vx_it.index@ == 2 ==> res == be16(input@, 0),
@loopstart 0
    assert(res < 256 ==> (res << 8) == res * 256) by(bit_vector);
@loop 1 : for byte in input.iter_elements().take(self.bound)
    invariant false,
@endfn

// ---- tag
@type cargo:nom/src/traits.rs CompareResult
pub proof fn starts_each(s: Seq<u8>, t: Seq<u8>)
    ensures starts(s, t) == (t.len() <= s.len() && forall|k: int| 0 <= k < t.len() ==> #[trigger] s[k] == t[k])
{
    if t.len() <= s.len() {
        if forall|k: int| 0 <= k < t.len() ==> #[trigger] s[k] == t[k] { assert(s.take(t.len() as int) =~= t); }
        else { let k = choose|k: int| 0 <= k < t.len() && #[trigger] s[k] != t[k]; assert(s.take(t.len() as int)[k] != t[k]); }
    }
}
pub proof fn starts_first(s: Seq<u8>, t: Seq<u8>)
    ensures forall|j: int| 0 <= j <= s.len() ==> #[trigger] starts(s.skip(j), t)
        == (j + t.len() <= s.len() && (t.len() == 0 || (s[j] == t[0] && (t.len() == 1 || s.skip(j + 1).take(t.len() - 1) == t.skip(1)))))
{
    assert forall|j: int| 0 <= j <= s.len() implies #[trigger] starts(s.skip(j), t)
        == (j + t.len() <= s.len() && (t.len() == 0 || (s[j] == t[0] && (t.len() == 1 || s.skip(j + 1).take(t.len() - 1) == t.skip(1))))) by {
        let n = t.len() as int;
        if j + n <= s.len() {
            if n == 0 { assert(s.skip(j).take(0) =~= t); }
            else {
                assert(s.skip(j).take(n)[0] == s[j]);
                assert(s.skip(j).take(n).skip(1) =~= s.skip(j + 1).take(n - 1));
                if s[j] == t[0] && (n == 1 || s.skip(j + 1).take(n - 1) == t.skip(1)) {
                    assert forall|k: int| 0 <= k < n implies #[trigger] s.skip(j).take(n)[k] == t[k] by {
                        if k > 0 { assert(s.skip(j + 1).take(n - 1)[k - 1] == t.skip(1)[k - 1]); }
                    }
                    assert(s.skip(j).take(n) =~= t);
                }
            }
        }
    }
}
pub trait InputCompare<'b> { fn compare(&self, t: &'b [u8]) -> (r: CompareResult) ensures r is Ok == starts(self.all(), t@); spec fn all(&self) -> Seq<u8>; }
@fn cargo:nom/src/traits.rs <Compare for &'a [u8]>::compare
@opt nth=0
@opt impl=impl<'a, 'b> InputCompare<'b> for &'a [u8]
@opt traitimpl
@opt notypes
@opt implextra=open spec fn all(&self) -> Seq<u8> { self@ }
@start
    proof { starts_each(self@, t@); }
@endfn
@type cargo:nom/src/bytes/mod.rs Tag as=TagS
@fn cargo:nom/src/bytes/mod.rs <Parser for Tag>::process
@opt free=
@opt name=tag_process
@opt generics='a, 'b
@opt selfty=&TagS<&'b [u8], Error<&'a [u8]>>
@opt path=I => &'a [u8]
@opt retty=IResult<&'a [u8], &'a [u8]>
@ret r
@spec
    ensures tag_sp(self_.tag@, i, r)
@endfn

// ---- take_until
pub trait InputFind<'b> { fn find_substring(&self, substr: &'b [u8]) -> (r: Option<usize>) ensures match r {
        Some(k) => k + substr@.len() <= self.all().len() && starts(self.all().skip(k as int), substr@) && forall|j: int| 0 <= j < k ==> !#[trigger] starts(self.all().skip(j), substr@),
        None => forall|j: int| 0 <= j <= self.all().len() ==> !#[trigger] starts(self.all().skip(j), substr@),
    }; spec fn all(&self) -> Seq<u8>; }
@fn cargo:nom/src/traits.rs <FindSubstring for &'a [u8]>::find_substring
@opt nth=0
@opt attr=#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@opt impl=impl<'a, 'b> InputFind<'b> for &'a [u8]
@opt traitimpl
@opt notypes
@opt implextra=open spec fn all(&self) -> Seq<u8> { self@ }
@start
    broadcast use bytes_eq;
    let ghost s = self@;
    let ghost t = substr@;
    proof { starts_first(s, t); }
@loop 0 : while let Some(position) = memchr::memchr(substr_first, &haystack[offset..])
    invariant offset <= haystack@.len(), forall|j: int| 0 <= j < offset ==> !#[trigger] starts(s.skip(j), t),
    ensures forall|j: int| 0 <= j < haystack@.len() - offset ==> #[trigger] haystack@.skip(offset as int)[j] != t[0],
    decreases haystack@.len() - offset
@loopstart 0
    broadcast use bytes_eq;
    let ghost o = offset as int;
    assert(forall|j: int| 0 <= j < position ==> haystack@.skip(o)[j] == s[o + j]);
    assert forall|j: int| o <= j < o + position implies !#[trigger] starts(s.skip(j), t) by { assert(haystack@.skip(o)[j - o] != t[0]); }
@afterloop 0
    assert forall|j: int| 0 <= j <= s.len() implies !#[trigger] starts(s.skip(j), t) by {
        if offset <= j < haystack@.len() { assert(haystack@.skip(offset as int)[j - offset] != t[0]); }
    }
@endfn
@type cargo:nom/src/bytes/mod.rs TakeUntil as=TakeUntilS
@fn cargo:nom/src/bytes/mod.rs <Parser for TakeUntil>::process
@opt free=
@opt name=take_until_process
@opt generics='a, 'b
@opt selfty=&TakeUntilS<&'b [u8], Error<&'a [u8]>>
@opt path=I => &'a [u8]
@opt retty=IResult<&'a [u8], &'a [u8]>
@ret r
@spec
    ensures take_until_sp(self_.tag@, i, r)
@endfn

// ---- take_while_m_n
@type cargo:nom/src/bytes/mod.rs TakeWhileMN as=TakeWhileMNS
@fn cargo:nom/src/bytes/mod.rs <Parser for TakeWhileMN>::process
@opt free=
@opt name=take_while_m_n_process
@opt generics='a, F: Fn(u8) -> bool
@opt selfty=&TakeWhileMNS<F, Error<&'a [u8]>>
@opt path=I => &'a [u8]
@opt rule=input.iter_indices().enumerate() => vx_indexed(input)
@opt retty=IResult<&'a [u8], &'a [u8]>
@ret r
@spec
    requires self_.m <= self_.n, forall|c: u8| #[trigger] call_requires(self_.predicate, (c,)),
    ensures take_while_m_n_sp(self_.predicate, self_.m as int, self_.n as int, input, r)
@loop 0 : for (i, (index, item)) in input.iter_indices().enumerate()
    invariant
        self_.m <= self_.n, forall|c: u8| #[trigger] call_requires(self_.predicate, (c,)), count == vx_it.index@, vx_it.index@ <= self_.n,
        vx_it.index@ <= input@.len(), vx_it.seq() == Seq::new(input@.len(), |k: int| (k as usize, (k as usize, input@[k]))),
        forall|k: int| 0 <= k < vx_it.index@ ==> call_ensures(self_.predicate, (#[trigger] input@[k],), true),
@endfn

// ---- separated_list0
@type cargo:nom/src/multi/mod.rs SeparatedList0 as=SeparatedList0S
pub proof fn more_push<'a, Q: Parser<&'a [u8]>, P: Parser<&'a [u8]>>(q: Q, p: P, i: &'a [u8], v: Seq<P::Output>, m: &'a [u8], k: &'a [u8], o: Q::Output, l: &'a [u8], x: P::Output)
    requires more(q, p, i, v, m), q.sp(m, Ok((k, o))), p.sp(k, Ok((l, x))), l@.len() != m@.len(),
    ensures more(q, p, i, v.push(x), l)
    decreases v.len()
{
    if v.len() == 0 {
        assert(v.push(x).skip(1) =~= Seq::<P::Output>::empty());
        assert(more(q, p, l, v.push(x).skip(1), l));
        assert(v.push(x)[0] == x);
    } else {
        let (k1, o1, l1) = choose|k: &'a [u8], o: Q::Output, l: &'a [u8]| #[trigger] q.sp(i, Ok((k, o))) && #[trigger] p.sp(k, Ok((l, v[0]))) && l@.len() != i@.len() && more(q, p, l, v.skip(1), m);
        more_push(q, p, l1, v.skip(1), m, k, o, l, x);
        assert(v.push(x).skip(1) =~= v.skip(1).push(x));
        assert(v.push(x)[0] == v[0]);
    }
}
pub proof fn separated_ok<'a, Q: Parser<&'a [u8]>, P: Parser<&'a [u8]>>(q: Q, p: P, i: &'a [u8], j: &'a [u8], w: Vec<P::Output>, m: &'a [u8])
    requires w@.len() > 0, p.sp(i, Ok((j, w@[0]))), more(q, p, j, w@.skip(1), m), no_more(q, p, m),
    ensures separated_list0_sp(q, p, i, Ok((m, w)))
{
    let r: IResult<&'a [u8], Vec<P::Output>> = Ok((m, w));
    assert(r->Ok_0.0 == m && r->Ok_0.1 == w);
    assert(separated_list0_sp(q, p, i, r));
}
pub proof fn separated_none<'a, Q: Parser<&'a [u8]>, P: Parser<&'a [u8]>>(q: Q, p: P, w: Vec<P::Output>, m: &'a [u8])
    requires w@.len() == 0, fails(p, m),
    ensures separated_list0_sp(q, p, m, Ok((m, w)))
{
    let r: IResult<&'a [u8], Vec<P::Output>> = Ok((m, w));
    assert(r->Ok_0.0 == m && r->Ok_0.1 == w);
    assert(separated_list0_sp(q, p, m, r));
}
pub proof fn separated_bad<'a, Q: Parser<&'a [u8]>, P: Parser<&'a [u8]>>(q: Q, p: P, i: &'a [u8], e: Err<Error<&'a [u8]>>)
    requires p.sp(i, Err(e)), !(e is Error),
    ensures separated_list0_sp(q, p, i, Err(e))
{
    let r: IResult<&'a [u8], Vec<P::Output>> = Err(e);
    assert(r->Err_0 == e);
    assert(separated_list0_sp(q, p, i, r));
}
pub proof fn separated_err<'a, Q: Parser<&'a [u8]>, P: Parser<&'a [u8]>>(q: Q, p: P, i: &'a [u8], j: &'a [u8], o: P::Output, v: Seq<P::Output>, m: &'a [u8], e: Err<Error<&'a [u8]>>)
    requires p.sp(i, Ok((j, o))), more(q, p, j, v, m), {
        ||| q.sp(m, Err(e)) && !(e is Error)
        ||| exists|k: &'a [u8], w: Q::Output| #[trigger] q.sp(m, Ok((k, w))) && p.sp(k, Err(e)) && !(e is Error)
        ||| exists|k: &'a [u8], w: Q::Output, l: &'a [u8], x: P::Output| #[trigger] q.sp(m, Ok((k, w))) && #[trigger] p.sp(k, Ok((l, x))) && l@.len() == m@.len()
    },
    ensures separated_list0_sp(q, p, i, Err(e))
{
    let r: IResult<&'a [u8], Vec<P::Output>> = Err(e);
    assert(r->Err_0 == e);
    assert(separated_list0_sp(q, p, i, r));
}
@fn cargo:nom/src/multi/mod.rs <Parser for SeparatedList0>::process
@opt free=
@opt name=separated_list0_process
@opt generics='a, F: Parser<&'a [u8]>, G: Parser<&'a [u8]>
@opt selfty=&SeparatedList0S<F, G>
@opt path=I => &'a [u8]
@opt rule=<F as Parser<I>>::Error::from_error_kind(__a, __b) => Error::from_error_kind(__a, __b)
@opt retty=IResult<&'a [u8], Vec<F::Output>>
@opt attr=#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
@ret r
@spec
    requires self_.parser.total(), self_.separator.total(),
    ensures separated_list0_sp(self_.separator, self_.parser, i, r)
@start
    let ghost i0 = i;
    let ghost mut j0 = i;
@before combine 0
    proof { j0 = i1; }
@beforeloop 0
    assert(res@.skip(1) =~= Seq::<F::Output>::empty());
@loop 0 : loop
    invariant res@.len() > 0, self_.parser.sp(i0, Ok((j0, res@[0]))), more(self_.separator, self_.parser, j0, res@.skip(1), i),
@loopstart 0
    let ghost g = res@;
    let ghost j = i;
@each ok
    proof { if vx_v@.len() > 0 { separated_ok(self_.separator, self_.parser, i0, j0, vx_v, vx_m); } else { separated_none(self_.separator, self_.parser, vx_v, vx_m); } }
@each err
    proof { if res@.len() > 0 { separated_err(self_.separator, self_.parser, i0, j0, res@[0], res@.skip(1), i, vx_e); } else { separated_bad(self_.separator, self_.parser, i0, vx_e); } }
@before combine 1
    proof {
        more_push(self_.separator, self_.parser, j0, g.skip(1), j, i1, choose|w: G::Output| self_.separator.sp(j, Ok((i1, w))), i2, o);
        assert(g.push(o).skip(1) =~= g.skip(1).push(o));
    }
@endfn

// ---- bits
pub fn vx_needed_bytes(n: Needed) -> (r: Needed) { match n { Needed::Unknown => Needed::Unknown, Needed::Size(u) => Needed::Size(u / 8 + 1) } }
@path error::Error => Error
@fn cargo:nom/src/traits.rs <ErrorConvert for Error>::convert
@opt nth=0
@opt impl=impl<I> Error<(I, usize)>
@opt retty=Error<I>
@endfn
pub proof fn bits_ok<'a, P: Parser<(&'a [u8], usize)>>(p: P, i: &'a [u8], m: (&'a [u8], usize), o: &'a [u8], v: P::Output)
    requires p.sp((i, 0), Ok((m, v))), o@ == up(m),
    ensures bits_sp(p, i, Ok((o, v)))
{
    let r: IResult<&'a [u8], P::Output> = Ok((o, v));
    assert(r->Ok_0.0 == o && r->Ok_0.1 == v);
    assert(bits_sp(p, i, r));
}
@fn cargo:nom/src/bits/mod.rs bits
@opt uncurry
@opt name=bits_run
@opt generics='a, O, P: Parser<(&'a [u8], usize), Output = O>
@opt path=I => &'a [u8]
@opt rule=parser.parse(__i) => vx_parse(&parser, __i)
@opt rule=n.map(|u| u.get() / 8 + 1) => vx_needed_bytes(n)
@opt retty=IResult<&'a [u8], O>
@ret r
@spec
    requires parser.total(),
    ensures bits_sp(parser, __c0, r)
@each ok
    proof {
        assert(rest@.skip(0) =~= rest@);
        assert(offset < 8 ==> offset / 8 == 0 && (offset % 8 == 0 <==> offset == 0));
        bits_ok(parser, input, (rest, offset), vx_m, vx_v);
    }
@endfn

// ---- bits::complete::take and tag, for the numbers the crate reads
pub proof fn p2_add(a: int, b: int) requires 0 <= a, 0 <= b, ensures p2(a + b) == p2(a) * p2(b), p2(a) >= 1, p2(b) >= 1 decreases b
{
    if b > 0 {
        p2_add(a, b - 1);
        assert(p2(a) * (2 * p2(b - 1)) == 2 * (p2(a) * p2(b - 1))) by(nonlinear_arith);
    } else { p2_pos(a); assert(p2(a) * 1 == p2(a)); }
}
pub proof fn p2_pos(a: int) ensures p2(a) >= 1 decreases a { if a > 0 { p2_pos(a - 1); } }
pub proof fn p2_le(a: int, b: int) requires 0 <= a <= b, ensures p2(a) <= p2(b) { p2_add(a, b - a); assert(p2(a) * p2(b - a) >= p2(a) * 1) by(nonlinear_arith) requires p2(a) >= 1, p2(b - a) >= 1; }
pub proof fn p2_const()
    ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64, p2(7) == 128, p2(8) == 256
{ reveal_with_fuel(p2, 9); }
// the operations of a number type that `take` asks for; sums and shifts do not overflow
pub trait VxNum: VxBits + Copy {
    fn same(self, o: Self) -> (r: bool) ensures r == (self == o), r == (self.val() == o.val());
    fn of(x: u8) -> (r: Self) ensures r.val() == x;
    fn shl(self, n: usize) -> (r: Self) requires self.val() >= 0, n < Self::width(), self.val() * p2(n as int) < p2(Self::width()), ensures r.val() == self.val() * p2(n as int);
    fn shr(self, n: usize) -> (r: Self) requires self.val() >= 0, n < Self::width(), n < 8, ensures r.val() == self.val() / p2(n as int);
    fn add(self, o: Self) -> (r: Self) requires self.val() >= 0, o.val() >= 0, self.val() + o.val() < p2(Self::width()), ensures r.val() == self.val() + o.val();
}

impl VxNum for u8 {
    fn same(self, o: u8) -> (r: bool) { self == o }
    fn of(x: u8) -> (r: u8) { x as u8 }
    fn shl(self, n: usize) -> (r: u8) {
        proof { shl_u8(self, n as u8); assert(self << n == self << (n as u8)) by(bit_vector) requires n < 8; }
        self << n
    }
    fn shr(self, n: usize) -> (r: u8) {
        proof { p2_const(); assert(self >> n == (if n == 0 { self } else if n == 1 { self / 2 } else if n == 2 { self / 4 } else if n == 3 { self / 8 } else if n == 4 { self / 16 } else if n == 5 { self / 32 } else if n == 6 { self / 64 } else { self / 128 })) by(bit_vector) requires n < 8; }
        self >> n
    }
    fn add(self, o: u8) -> (r: u8) { proof { p2_u8(); } self + o }
}
pub proof fn p2_u8() ensures p2(8) == 0x100 { reveal_with_fuel(p2, 9); }
pub proof fn shl_u8(x: u8, n: u8)
    requires n < 8, x * p2(n as int) < p2(8),
    ensures (x << n) == x * p2(n as int)
    decreases n
{
    p2_u8(); p2_pos(n as int);
    if n > 0 {
        assert(p2(n as int) == 2 * p2(n - 1));
        p2_pos(n - 1);
        assert(x * p2(n as int) == 2 * (x * p2(n - 1))) by(nonlinear_arith) requires p2(n as int) == 2 * p2(n - 1);
        assert(x * p2(n - 1) >= 0) by(nonlinear_arith) requires x >= 0, p2(n - 1) >= 1;
        let m = (n - 1) as u8;
        shl_u8(x, m);
        let y = x << m;
        assert((x << n) == (y << 1)) by(bit_vector) requires 0 < n < 8, m == n - 1, y == x << m;
        assert(y < 0x80 ==> (y << 1) == 2 * y) by(bit_vector);
    } else {
        assert(x << 0 == x) by(bit_vector);
        assert(x * 1 == x);
    }
}

impl VxNum for u16 {
    fn same(self, o: u16) -> (r: bool) { self == o }
    fn of(x: u8) -> (r: u16) { x as u16 }
    fn shl(self, n: usize) -> (r: u16) {
        proof { shl_u16(self, n as u16); assert(self << n == self << (n as u16)) by(bit_vector) requires n < 16; }
        self << n
    }
    fn shr(self, n: usize) -> (r: u16) {
        proof { p2_const(); assert(self >> n == (if n == 0 { self } else if n == 1 { self / 2 } else if n == 2 { self / 4 } else if n == 3 { self / 8 } else if n == 4 { self / 16 } else if n == 5 { self / 32 } else if n == 6 { self / 64 } else { self / 128 })) by(bit_vector) requires n < 8; }
        self >> n
    }
    fn add(self, o: u16) -> (r: u16) { proof { p2_u16(); } self + o }
}
pub proof fn p2_u16() ensures p2(16) == 0x10000 { reveal_with_fuel(p2, 17); }
pub proof fn shl_u16(x: u16, n: u16)
    requires n < 16, x * p2(n as int) < p2(16),
    ensures (x << n) == x * p2(n as int)
    decreases n
{
    p2_u16(); p2_pos(n as int);
    if n > 0 {
        assert(p2(n as int) == 2 * p2(n - 1));
        p2_pos(n - 1);
        assert(x * p2(n as int) == 2 * (x * p2(n - 1))) by(nonlinear_arith) requires p2(n as int) == 2 * p2(n - 1);
        assert(x * p2(n - 1) >= 0) by(nonlinear_arith) requires x >= 0, p2(n - 1) >= 1;
        let m = (n - 1) as u16;
        shl_u16(x, m);
        let y = x << m;
        assert((x << n) == (y << 1)) by(bit_vector) requires 0 < n < 16, m == n - 1, y == x << m;
        assert(y < 0x8000 ==> (y << 1) == 2 * y) by(bit_vector);
    } else {
        assert(x << 0 == x) by(bit_vector);
        assert(x * 1 == x);
    }
}

impl VxNum for u32 {
    fn same(self, o: u32) -> (r: bool) { self == o }
    fn of(x: u8) -> (r: u32) { x as u32 }
    fn shl(self, n: usize) -> (r: u32) {
        proof { shl_u32(self, n as u32); assert(self << n == self << (n as u32)) by(bit_vector) requires n < 32; }
        self << n
    }
    fn shr(self, n: usize) -> (r: u32) {
        proof { p2_const(); assert(self >> n == (if n == 0 { self } else if n == 1 { self / 2 } else if n == 2 { self / 4 } else if n == 3 { self / 8 } else if n == 4 { self / 16 } else if n == 5 { self / 32 } else if n == 6 { self / 64 } else { self / 128 })) by(bit_vector) requires n < 8; }
        self >> n
    }
    fn add(self, o: u32) -> (r: u32) { proof { p2_u32(); } self + o }
}
pub proof fn p2_u32() ensures p2(32) == 0x100000000 { reveal_with_fuel(p2, 33); }
pub proof fn shl_u32(x: u32, n: u32)
    requires n < 32, x * p2(n as int) < p2(32),
    ensures (x << n) == x * p2(n as int)
    decreases n
{
    p2_u32(); p2_pos(n as int);
    if n > 0 {
        assert(p2(n as int) == 2 * p2(n - 1));
        p2_pos(n - 1);
        assert(x * p2(n as int) == 2 * (x * p2(n - 1))) by(nonlinear_arith) requires p2(n as int) == 2 * p2(n - 1);
        assert(x * p2(n - 1) >= 0) by(nonlinear_arith) requires x >= 0, p2(n - 1) >= 1;
        let m = (n - 1) as u32;
        shl_u32(x, m);
        let y = x << m;
        assert((x << n) == (y << 1)) by(bit_vector) requires 0 < n < 32, m == n - 1, y == x << m;
        assert(y < 0x8000_0000 ==> (y << 1) == 2 * y) by(bit_vector);
    } else {
        assert(x << 0 == x) by(bit_vector);
        assert(x * 1 == x);
    }
}

impl VxNum for i32 {
    fn same(self, o: i32) -> (r: bool) { self == o }
    fn of(x: u8) -> (r: i32) { x as i32 }
    fn shl(self, n: usize) -> (r: i32) {
        proof {
            let g = self as u32;
            p2_u32(); p2_i32();
            shl_u32(g, n as u32);
            assert(g << n == g << (n as u32)) by(bit_vector) requires n < 32;
            assert((g << n) < 0x80000000);
            assert((self << n) == ((self as u32) << n) as i32) by(bit_vector) requires 0 <= self, n < 32, ((self as u32) << n) < 0x80000000u32;
        }
        self << n
    }
    fn shr(self, n: usize) -> (r: i32) {
        proof {
            p2_const();
            let g = self as u32;
            assert(g >> n == (if n == 0 { g } else if n == 1 { g / 2 } else if n == 2 { g / 4 } else if n == 3 { g / 8 } else if n == 4 { g / 16 } else if n == 5 { g / 32 } else if n == 6 { g / 64 } else { g / 128 })) by(bit_vector) requires n < 8;
            assert((self >> n) == ((self as u32) >> n) as i32) by(bit_vector) requires 0 <= self, n < 8;
        }
        self >> n
    }
    fn add(self, o: i32) -> (r: i32) { proof { p2_i32(); } self + o }
}
pub proof fn p2_i32() ensures p2(31) == 0x80000000 { reveal_with_fuel(p2, 32); }

impl VxNum for u64 {
    fn same(self, o: u64) -> (r: bool) { self == o }
    fn of(x: u8) -> (r: u64) { x as u64 }
    fn shl(self, n: usize) -> (r: u64) {
        proof { shl_u64(self, n as u64); assert(self << n == self << (n as u64)) by(bit_vector) requires n < 64; }
        self << n
    }
    fn shr(self, n: usize) -> (r: u64) {
        proof { p2_const(); assert(self >> n == (if n == 0 { self } else if n == 1 { self / 2 } else if n == 2 { self / 4 } else if n == 3 { self / 8 } else if n == 4 { self / 16 } else if n == 5 { self / 32 } else if n == 6 { self / 64 } else { self / 128 })) by(bit_vector) requires n < 8; }
        self >> n
    }
    fn add(self, o: u64) -> (r: u64) { proof { p2_u64(); } self + o }
}
pub proof fn p2_u64() ensures p2(64) == 0x10000000000000000 { reveal_with_fuel(p2, 65); }
pub proof fn shl_u64(x: u64, n: u64)
    requires n < 64, x * p2(n as int) < p2(64),
    ensures (x << n) == x * p2(n as int)
    decreases n
{
    p2_u64(); p2_pos(n as int);
    if n > 0 {
        assert(p2(n as int) == 2 * p2(n - 1));
        p2_pos(n - 1);
        assert(x * p2(n as int) == 2 * (x * p2(n - 1))) by(nonlinear_arith) requires p2(n as int) == 2 * p2(n - 1);
        assert(x * p2(n - 1) >= 0) by(nonlinear_arith) requires x >= 0, p2(n - 1) >= 1;
        let m = (n - 1) as u64;
        shl_u64(x, m);
        let y = x << m;
        assert((x << n) == (y << 1)) by(bit_vector) requires 0 < n < 64, m == n - 1, y == x << m;
        assert(y < 0x8000000000000000 ==> (y << 1) == 2 * y) by(bit_vector);
    } else {
        assert(x << 0 == x) by(bit_vector);
        assert(x * 1 == x);
    }
}

// the bits of a byte from bit o on
pub proof fn byte_tail(s: Seq<u8>, k: int, o: int)
    requires 0 <= k < s.len(), 0 <= o < 8,
    ensures bits(s, 8 * k + o, 8 - o) == s[k] as int % p2(8 - o), p2(8 - o) >= 1
{
    bits_byte(s, k); bits_cat(s, 8 * k, o, 8 - o); bits_bound(s, 8 * k + o, 8 - o); bits_bound(s, 8 * k, o); p2_pos(8 - o);
    let (q, d, r) = (bits(s, 8 * k, o), p2(8 - o), bits(s, 8 * k + o, 8 - o));
    assert(q * d + r == d * q + r) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, r, d);
    vstd::arithmetic::div_mod::lemma_small_mod(r as nat, d as nat);
}
pub proof fn chop(b: u8, o: usize)
    requires o < 8, ensures ((b << o) >> o) as int == b as int % p2(8 - o)
{
    p2_const();
    assert(((b << o) >> o) == (if o == 0 { b } else if o == 1 { b % 128 } else if o == 2 { b % 64 } else if o == 3 { b % 32 } else if o == 4 { b % 16 } else if o == 5 { b % 8 } else if o == 6 { b % 4 } else { b % 2 })) by(bit_vector) requires o < 8;
}
// the last, partial byte
pub proof fn last_step(s: Seq<u8>, b: int, c: int, k: int, o: int, rem: int)
    requires 0 <= k < s.len(), 0 <= o < 8, 0 < rem < 8 - o, 0 <= b, 0 <= c, b + c == 8 * k + o,
    ensures bits(s, b, c) * p2(rem) + (s[k] as int % p2(8 - o)) / p2(8 - o - rem) == bits(s, b, c + rem)
{
    byte_tail(s, k, o);
    bits_cat(s, b + c, rem, 8 - o - rem); bits_bound(s, b + c + rem, 8 - o - rem); p2_pos(8 - o - rem);
    let (q, d, r) = (bits(s, b + c, rem), p2(8 - o - rem), bits(s, b + c + rem, 8 - o - rem));
    assert((q * d + r) / d == q) by(nonlinear_arith) requires 0 <= r < d;
    bits_cat(s, b, c, rem);
}
// a byte that is used to its end
pub proof fn full_step(s: Seq<u8>, b: int, c: int, k: int, o: int, rem: int)
    requires 0 <= k < s.len(), 0 <= o < 8, rem >= 8 - o, 0 <= b, 0 <= c, b + c == 8 * k + o,
    ensures bits(s, b, c) * p2(rem) + (s[k] as int % p2(8 - o)) * p2(rem - (8 - o)) == bits(s, b, c + 8 - o) * p2(rem - (8 - o)),
        0 <= bits(s, b, c) * p2(rem), 0 <= (s[k] as int % p2(8 - o)) * p2(rem - (8 - o)), bits(s, b, c + 8 - o) * p2(rem - (8 - o)) < p2(c + rem),
{
    byte_tail(s, k, o);
    bits_cat(s, b, c, 8 - o); p2_add(8 - o, rem - (8 - o)); bits_bound(s, b, c); bits_bound(s, b, c + 8 - o); p2_add(c + 8 - o, rem - (8 - o)); p2_pos(rem);
    let (x, y, u, v) = (bits(s, b, c), bits(s, b + c, 8 - o), p2(8 - o), p2(rem - (8 - o)));
    assert(x * (u * v) + y * v == (x * u + y) * v) by(nonlinear_arith);
    assert(0 <= x * (u * v)) by(nonlinear_arith) requires x >= 0, u >= 1, v >= 1;
    assert(0 <= y * v) by(nonlinear_arith) requires y >= 0, v >= 1;
    let (z, w) = (bits(s, b, c + 8 - o), p2(c + 8 - o));
    assert(z * v < w * v) by(nonlinear_arith) requires z < w, v >= 1;
}
@path count.to_usize => count.to_usize
@rule __x.into() => O::of(__x)
@rule __a.div(8) => (__a) / 8
@rule acc += __x => acc = acc.add(__x)
@rule val >> __x => val.shr(__x)
@rule val << __x => val.shl(__x)
@fn cargo:nom/src/bits/complete.rs take
@opt uncurry
@opt name=bit_take
@opt generics='a, O: VxNum, C: ToUsize
@opt path=I => &'a [u8]
@opt path=E::from_error_kind => Error::from_error_kind
@opt retty=IResult<(&'a [u8], usize), O>
@opt attr=#[verifier::loop_isolation(false)]
@ret r
@spec
    requires 0 <= count.us() <= O::width(), 8 <= O::width() <= 64, __c0.ok(), __c0.0@.len() < 0x1000_0000_0000_0000,
    ensures take_sp(count.us(), __c0, r)
@loop 0 : for byte in input.iter_elements().take(cnt + 1)
    invariant_except_break
        bit_offset + (count - remaining) == 8 * vx_it.index@ + offset, offset == (if vx_it.index@ == 0 { bit_offset } else { 0usize }),
        acc.val() == bits(input@, bit_offset as int, count - remaining) * p2(remaining as int),
        end_offset == 0, remaining <= count,
    ensures
        acc.val() == bits(input@, bit_offset as int, count as int),
        end_offset == (bit_offset + count) % 8,
@beforeloop 0
    proof { reveal(bits); assert(bits(input@, bit_offset as int, 0) * p2(remaining as int) == 0); }
@loopstart 0
    let ghost k = vx_it.index@;
    let ghost c = count - remaining;
    proof {
        assert(byte == input@[k]);
        chop(byte, offset);
        p2_const();
        p2_le(count as int, O::width());
        p2_pos(remaining as int);
        bits_bound(input@, bit_offset as int, count as int);
        bits_bound(input@, bit_offset as int, c);
        if remaining == 0 { }
        else if remaining < 8 - offset {
            last_step(input@, bit_offset as int, c, k, offset as int, remaining as int);
        } else {
            full_step(input@, bit_offset as int, c, k, offset as int, remaining as int);
        }
    }
@each ok
    proof {
        reveal(adv); reveal(at); reveal(bits);
        assert(input@.skip(0) =~= input@);
        assert(adv(__c0, count as int, vx_m));
        assert(at(input@, bit_offset as int, 0, count as int) == bits(input@, bit_offset as int, count as int));
        assert(count == 0 ==> bits(input@, bit_offset as int, count as int) == 0);
        assert(vx_v.val() == at(input@, bit_offset as int, 0, count as int));
    }
@endfn
@rule take(__c)(__x).and_then(|(__i, __o)| __b) => match bit_take(__c, __x) { Ok((__i, __o)) => __b, Err(vx_x) => { let vx_e = vx_x; @@each err@@ vx_err(vx_e) } }
@rule pattern == __o => pattern.same(__o)
macro_rules! error_position { ($i:expr, $c:expr) => { Error::from_error_kind($i, $c) } }
@fn cargo:nom/src/bits/complete.rs tag
@opt uncurry
@opt name=bit_tag
@opt generics='a, O: VxNum, C: ToUsize
@opt path=I => &'a [u8]
@opt retty=IResult<(&'a [u8], usize), O>
@ret r
@spec
    requires 0 <= count.us() <= O::width(), 8 <= O::width() <= 64, __c0.ok(), __c0.0@.len() < 0x1000_0000_0000_0000,
    ensures match r {
        Ok((m, v)) => v == pattern && take_sp(count.us(), __c0, r),
        Err(e) => e is Error && (__c0.1 + count.us() > 8 * __c0.0@.len() || pattern.val() != at(__c0.0@, __c0.1 as int, 0, count.us())),
    }
@endfn
}
fn main() {}
}
