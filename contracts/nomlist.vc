// ------------------------------------------------------------------ more combinators of nom
pub mod nom_list {
use vstd::prelude::*;
use super::nom::{*, self};
// the longest prefix of at most n bytes satisfying f, of at least m bytes
pub struct TakeWhileMN<F> { pub m: usize, pub n: usize, pub f: F }
pub fn take_while_m_n<F>(m: usize, n: usize, f: F) -> (r: TakeWhileMN<F>) ensures r.m == m, r.n == n, r.f == f { TakeWhileMN { m, n, f } }
pub open spec fn take_while_m_n_sp<'a, F: Fn(u8) -> bool>(f: F, min: int, max: int, i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool {
    match r {
        Ok((m, v)) => {
            &&& min <= v@.len() <= max && v@.len() <= i@.len() && v@ == i@.take(v@.len() as int) && m@ == i@.skip(v@.len() as int)
            &&& forall|k: int| 0 <= k < v@.len() ==> call_ensures(f, (#[trigger] i@[k],), true)
            &&& v@.len() == max || v@.len() == i@.len() || call_ensures(f, (i@[v@.len() as int],), false)
        },
        Err(e) => e is Error && (i@.len() < min || exists|k: int| 0 <= k < min && k < i@.len() && #[trigger] call_ensures(f, (i@[k],), false)),
    }
}
impl<'a, F: Fn(u8) -> bool> Parser<&'a [u8]> for TakeWhileMN<F> {
    type Output = &'a [u8];
    open spec fn sp(&self, i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool { take_while_m_n_sp(self.f, self.m as int, self.n as int, i, r) }
    open spec fn total(&self) -> bool { self.m <= self.n && forall|c: u8| #[trigger] call_requires(self.f, (c,)) }
    #[verifier::external_body]
    fn parse(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>) { unimplemented!() }
}
// a parser and a function that may fail
pub struct MapRes<P, F> { pub p: P, pub f: F }
pub fn map_res<P, F>(p: P, f: F) -> (r: MapRes<P, F>) ensures r.p == p, r.f == f { MapRes { p, f } }
pub open spec fn map_res_sp<I: In, O, E, P: Parser<I>, F: Fn(P::Output) -> Result<O, E>>(p: P, f: F, i: I, r: IResult<I, O>) -> bool {
    match r {
        Ok((m, v)) => exists|o: P::Output| #[trigger] p.sp(i, Ok((m, o))) && call_ensures(f, (o,), Ok(v)),
        Err(e) => p.sp(i, Err(e))
            || (e is Error && exists|m: I, o: P::Output, x: E| #[trigger] p.sp(i, Ok((m, o))) && #[trigger] call_ensures(f, (o,), Err(x))),
    }
}
impl<I: In, O, E, P: Parser<I>, F: Fn(P::Output) -> Result<O, E>> Parser<I> for MapRes<P, F> {
    type Output = O;
    open spec fn sp(&self, i: I, r: IResult<I, O>) -> bool { map_res_sp(self.p, self.f, i, r) }
    open spec fn total(&self) -> bool { self.p.total() && forall|i: I, m: I, o: P::Output| i.ok() && #[trigger] self.p.sp(i, Ok((m, o))) ==> call_requires(self.f, (o,)) }
    #[verifier::external_body]
    fn parse(&self, i: I) -> (r: IResult<I, O>) { unimplemented!() }
}
// elements separated by q, as many as there are
pub struct SeparatedList0<Q, P> { pub q: Q, pub p: P }
pub fn separated_list0<Q, P>(q: Q, p: P) -> (r: SeparatedList0<Q, P>) ensures r.p == p, r.q == q { SeparatedList0 { q, p } }
// v follow an element, each after a separator
pub open spec fn more<'a, Q: Parser<&'a [u8]>, P: Parser<&'a [u8]>>(q: Q, p: P, i: &'a [u8], v: Seq<P::Output>, m: &'a [u8]) -> bool decreases v.len() {
    if v.len() == 0 { m == i } else {
        exists|k: &'a [u8], o: Q::Output, l: &'a [u8]| #[trigger] q.sp(i, Ok((k, o))) && #[trigger] p.sp(k, Ok((l, v[0]))) && l@.len() != i@.len() && more(q, p, l, v.skip(1), m)
    }
}
pub open spec fn no_more<'a, Q: Parser<&'a [u8]>, P: Parser<&'a [u8]>>(q: Q, p: P, m: &'a [u8]) -> bool {
    fails(q, m) || exists|k: &'a [u8], o: Q::Output| #[trigger] q.sp(m, Ok((k, o))) && fails(p, k)
}
pub open spec fn separated_list0_sp<'a, Q: Parser<&'a [u8]>, P: Parser<&'a [u8]>>(q: Q, p: P, i: &'a [u8], r: IResult<&'a [u8], Vec<P::Output>>) -> bool {
    match r {
        Ok((m, v)) => {
            ||| v@.len() == 0 && m == i && fails(p, i)
            ||| v@.len() > 0 && (exists|j: &'a [u8]| #[trigger] p.sp(i, Ok((j, v@[0]))) && more(q, p, j, v@.skip(1), m)) && no_more(q, p, m)
        },
        Err(e) => {
            ||| p.sp(i, Err(e)) && !(e is Error)
            ||| exists|j: &'a [u8], o: P::Output, v: Seq<P::Output>, m: &'a [u8]| #[trigger] p.sp(i, Ok((j, o))) && #[trigger] more(q, p, j, v, m) && {
                ||| q.sp(m, Err(e)) && !(e is Error)
                ||| exists|k: &'a [u8], w: Q::Output| #[trigger] q.sp(m, Ok((k, w))) && p.sp(k, Err(e)) && !(e is Error)
                ||| exists|k: &'a [u8], w: Q::Output, l: &'a [u8], x: P::Output| #[trigger] q.sp(m, Ok((k, w))) && #[trigger] p.sp(k, Ok((l, x))) && l@.len() == m@.len()
            }
        },
    }
}
impl<'a, Q: Parser<&'a [u8]>, P: Parser<&'a [u8]>> Parser<&'a [u8]> for SeparatedList0<Q, P> {
    type Output = Vec<P::Output>;
    open spec fn sp(&self, i: &'a [u8], r: IResult<&'a [u8], Vec<P::Output>>) -> bool { separated_list0_sp(self.q, self.p, i, r) }
    open spec fn total(&self) -> bool { self.p.total() && self.q.total() }
    #[verifier::external_body]
    fn parse(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], Vec<P::Output>>) { unimplemented!() }
}
}

