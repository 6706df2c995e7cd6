// shared by the units vobsub and vobimg
@include base.vc
@include io.vc
@include files.vc
@include nom.vc
@include content.vc
@include image.vc
@include imgarea.vc
@rule __f(__a)(__b) => __f(__a).parse(__b)
@path bits::complete::take => take

// ------------------------------------------------------------------ std
pub mod std_model {
use vstd::prelude::*;
pub assume_specification<T, const N: usize, F: FnMut(T) -> U, U> [<[T; N]>::map] (a: [T; N], f: F) -> (r: [U; N])
    requires forall|k: int| 0 <= k < N ==> call_requires(f, (#[trigger] a@[k],)),
    ensures forall|k: int| 0 <= k < N ==> call_ensures(f, (a@[k],), #[trigger] r@[k]);
pub assume_specification<T> [core::slice::from_ref] (x: &T) -> (r: &[T])
    ensures r@ == seq![*x];
pub assume_specification<T: Clone> [<[T]>::clone_from_slice] (s: &mut [T], x: &[T])
    requires old(s)@.len() == x@.len(),
    ensures final(s)@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> cloned(x@[i], #[trigger] final(s)@[i]);
pub assume_specification<T: Clone> [<[T]>::fill] (s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> #[trigger] final(s)@[i] == v;
}
// ------------------------------------------------------------------ iter_fixed: iteration over arrays
pub mod iter_fixed {
use vstd::prelude::*;
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct IteratorFixed<T, const N: usize> { p: Vec<T> }
pub trait IntoIteratorFixed<const N: usize>: Sized {
    type Item;
    spec fn elems(&self) -> Seq<Self::Item>;
    fn into_iter_fixed(self) -> (r: IteratorFixed<Self::Item, N>) ensures r@ == self.elems();
}
impl<T, const N: usize> IntoIteratorFixed<N> for [T; N] {
    type Item = T;
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_iter_fixed(self) -> (r: IteratorFixed<T, N>) { unimplemented!() }
}
impl<'a, T, const N: usize> IntoIteratorFixed<N> for &'a [T; N] {
    type Item = &'a T;
    open spec fn elems(&self) -> Seq<&'a T> { refs(*self) }
    #[verifier::external_body]
    fn into_iter_fixed(self) -> (r: IteratorFixed<&'a T, N>) { unimplemented!() }
}
pub open spec fn refs<'a, T, const N: usize>(a: &'a [T; N]) -> Seq<&'a T> { Seq::new(N as nat, |i: int| &a[i]) }
impl<T, const N: usize> IteratorFixed<T, N> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn rev(self) -> (r: Self) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: [T; N]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<J: IntoIteratorFixed<N>>(self, o: J) -> (r: IteratorFixed<(T, J::Item), N>)
        ensures r@.len() == N, self@.len() == N, forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == (self@[i], o.elems()[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: IteratorFixed<U, N>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == N, self@.len() == N, forall|i: int| 0 <= i < N ==> call_ensures(f, (self@[i],), #[trigger] r@[i]) { unimplemented!() }
}
}
// ------------------------------------------------------------------ errors
pub mod vobsub {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use super::base::*;
use super::io_model::*;
use super::nom::{self, IResult, Needed};
use super::content::ContentError;
pub use super::files::VxPathBuf;
use std::io;
pub mod img {
use vstd::prelude::*;
use super::NomError;
@type src/vobsub/img.rs Error
}
@type src/vobsub/mod.rs VobSubError
@type src/vobsub/mod.rs NomError
@type src/vobsub/sub.rs ErrorMissing
// generated by thiserror
impl From<ContentError> for VobSubError { fn from(e: ContentError) -> (r: Self) { VobSubError::Content(e) } }
impl FromSpecImpl<ContentError> for VobSubError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ContentError) -> Self { VobSubError::Content(e) } }
impl From<ErrorMissing> for VobSubError { fn from(e: ErrorMissing) -> (r: Self) { VobSubError::MissingSubtitleParsing(e) } }
impl FromSpecImpl<ErrorMissing> for VobSubError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ErrorMissing) -> Self { VobSubError::MissingSubtitleParsing(e) } }
impl From<img::Error> for VobSubError { fn from(e: img::Error) -> (r: Self) { VobSubError::Image(e) } }
impl FromSpecImpl<img::Error> for VobSubError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: img::Error) -> Self { VobSubError::Image(e) } }
}

// ------------------------------------------------------------------ results of parsers
pub mod to_result {
use vstd::prelude::*;
use super::base::*;
use super::nom::{self, IResult};
use super::vobsub::NomError;
pub trait IResultExt<I, O>: Sized {
    spec fn res(&self) -> IResult<I, O>;
    fn to_result(self) -> (r: Result<(I, O), NomError>) ensures match r { Ok(x) => self.res() == Ok::<(I, O), nom::Err<nom::error::Error<I>>>(x), Err(_) => self.res() is Err };
}
@fn src/vobsub/mod.rs <IResultExt<I, O, E> for IResult<I, O, E>>::to_result : C12 C13 C14
@opt traitimpl
@opt impl=impl<I, O> IResultExt<I, O> for IResult<I, O>
@opt implextra=open spec fn res(&self) -> IResult<I, O> { *self }
@endfn
}

