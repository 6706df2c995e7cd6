// ------------------------------------------------------------------ readers
pub mod io_model {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::utf8::*;
use std::io::{self, BufRead, ErrorKind, Read, Seek};
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExIoError(io::Error);
#[verifier::external_type_specification]
pub struct ExErrorKind(ErrorKind);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);
pub uninterp spec fn kind_of(e: io::Error) -> ErrorKind;
pub assume_specification[ io::Error::kind ](e: &io::Error) -> (r: ErrorKind) ensures r == kind_of(*e);
pub assume_specification[ <ErrorKind as PartialEq>::eq ](a: &ErrorKind, b: &ErrorKind) -> (r: bool) ensures r == (*a == *b);

// length of the first line, with its end
pub open spec fn line_len(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == 10 { 1 } else { 1 + line_len(s.skip(1)) }
}
// bytes left after skipping n (none if there are fewer)
pub open spec fn drop(s: Seq<u8>, n: int) -> Seq<u8> { if n <= s.len() { s.skip(n) } else { seq![] } }
pub broadcast proof fn skip_skip(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub open spec fn be16(s: Seq<u8>, i: int) -> int { s[i] * 0x100 + s[i + 1] }
pub open spec fn be24(s: Seq<u8>, i: int) -> int { s[i] * 0x10000 + s[i + 1] * 0x100 + s[i + 2] }
pub open spec fn be32(s: Seq<u8>, i: int) -> int { s[i] * 0x1000000 + s[i + 1] * 0x10000 + s[i + 2] * 0x100 + s[i + 3] }

pub open spec fn kept<R: Read>(a: R, b: R) -> bool { b.reliable() == a.reliable() && b.rest().len() <= a.rest().len() }

// a reader over a finite stream: `rest` is what has not been consumed yet
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ReadSpec via ReadSpecImpl)]
pub trait ExRead {
    type ExternalTraitSpecificationFor: io::Read;
    spec fn rest(&self) -> Seq<u8>;
    // reads never fail, except at the end of the stream
    spec fn reliable(&self) -> bool;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: io::Result<()>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> old(buf)@.len() <= (*old(self)).rest().len()
                && final(buf)@ == (*old(self)).rest().take(old(buf)@.len() as int)
                && (*final(self)).rest() == (*old(self)).rest().skip(old(buf)@.len() as int),
            r matches Err(e) && kind_of(e) == ErrorKind::UnexpectedEof ==> (*old(self)).rest().len() < old(buf)@.len(),
            (*final(self)).reliable() == (*old(self)).reliable(),
            (*old(self)).reliable() ==> (r is Ok <==> old(buf)@.len() <= (*old(self)).rest().len()),
            (*old(self)).reliable() ==> (r matches Err(e) ==> kind_of(e) == ErrorKind::UnexpectedEof),
            (*final(self)).rest().len() <= (*old(self)).rest().len(),
    ;
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r matches Ok(n) ==> n <= old(buf)@.len() && n <= (*old(self)).rest().len()
                && (n == 0 ==> old(buf)@.len() == 0 || (*old(self)).rest().len() == 0)
                && final(buf)@.take(n as int) == (*old(self)).rest().take(n as int)
                && (*final(self)).rest() == (*old(self)).rest().skip(n as int),
            (*final(self)).reliable() == (*old(self)).reliable(), (*old(self)).reliable() ==> r is Ok,
            (*final(self)).rest().len() <= (*old(self)).rest().len(),
    ;
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        ensures
            r matches Ok(n) ==> n == (*old(self)).rest().len() && final(buf)@ == old(buf)@ + (*old(self)).rest() && (*final(self)).rest().len() == 0,
            (*final(self)).reliable() == (*old(self)).reliable(), (*old(self)).reliable() ==> r is Ok,
            (*final(self)).rest().len() <= (*old(self)).rest().len(),
    ;
}
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct ExTake<T>(io::Take<T>);
impl<T: Read> ReadSpecImpl for io::Take<T> {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn reliable(&self) -> bool;
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(BufReadSpec via BufReadSpecImpl)]
pub trait ExBufRead: Read {
    type ExternalTraitSpecificationFor: io::BufRead;
    spec fn buffered(&self) -> nat;
    fn fill_buf(&mut self) -> (r: io::Result<&[u8]>)
        ensures r matches Ok(b) ==> b@.len() <= (*old(self)).rest().len() && b@ == (*old(self)).rest().take(b@.len() as int)
            && (*final(self)).rest() == (*old(self)).rest() && (*final(self)).buffered() == b@.len(),
            (*final(self)).reliable() == (*old(self)).reliable(), (*old(self)).reliable() ==> r is Ok,
            (*final(self)).rest().len() <= (*old(self)).rest().len(),
    ;
    fn consume(&mut self, amt: usize)
        requires amt <= (*old(self)).buffered(),
        ensures (*final(self)).rest() == drop((*old(self)).rest(), amt as int), (*final(self)).reliable() == (*old(self)).reliable(),
    ;
    fn read_line(&mut self, buf: &mut String) -> (r: io::Result<usize>)
        ensures r matches Ok(n) ==> n == line_len((*old(self)).rest()) && valid_utf8((*old(self)).rest().take(n as int))
                && final(buf)@ == old(buf)@ + decode_utf8((*old(self)).rest().take(n as int)) && (*final(self)).rest() == (*old(self)).rest().skip(n as int),
            (*final(self)).reliable() == (*old(self)).reliable(),
            (*old(self)).reliable() ==> (r is Ok <==> valid_utf8((*old(self)).rest().take(line_len((*old(self)).rest())))),
            (*final(self)).rest().len() <= (*old(self)).rest().len(),
    ;
}
pub assume_specification [ <io::Error as From<ErrorKind>>::from ](k: ErrorKind) -> (r: io::Error) ensures kind_of(r) == k;
#[verifier::external_trait_specification]
pub trait ExSeek { type ExternalTraitSpecificationFor: io::Seek; }
#[verifier::external_body]
pub fn vx_seek_relative<R: Read + Seek>(r: &mut R, n: i64) -> (res: io::Result<()>)
    requires n >= 0,
    ensures res is Ok ==> (*final(r)).rest() == drop((*old(r)).rest(), n as int),
        (*final(r)).reliable() == (*old(r)).reliable(), (*old(r)).reliable() ==> res is Ok,
        (*final(r)).rest().len() <= (*old(r)).rest().len(),
{ r.seek_relative(n) }
#[verifier::external_body]
pub fn vx_seek_current<R: Read + Seek>(r: &mut R, n: i64) -> (res: io::Result<u64>)
    requires n >= 0,
    ensures res is Ok ==> (*final(r)).rest() == drop((*old(r)).rest(), n as int),
        (*final(r)).reliable() == (*old(r)).reliable(), (*old(r)).reliable() ==> res is Ok,
        (*final(r)).rest().len() <= (*old(r)).rest().len(),
{ r.seek(io::SeekFrom::Current(n)) }
#[verifier::external_body]
pub fn vx_take<R: Read>(r: R, limit: u64) -> (t: io::Take<R>)
    ensures ReadSpec::rest(&t) == (if limit <= r.rest().len() { r.rest().take(limit as int) } else { r.rest() }), ReadSpec::reliable(&t) == r.reliable(),
{ r.take(limit) }
// <&[u8] as Read>::read_exact
#[verifier::external_body]
pub fn vx_slice_read_exact(s: &mut &[u8], buf: &mut [u8]) -> (r: io::Result<()>)
    ensures
        final(buf)@.len() == old(buf)@.len(),
        r is Ok <==> old(buf)@.len() <= (*old(s))@.len(),
        r is Ok ==> final(buf)@ == (*old(s))@.take(old(buf)@.len() as int) && (*final(s))@ == (*old(s))@.skip(old(buf)@.len() as int),
        r matches Err(e) ==> kind_of(e) == ErrorKind::UnexpectedEof && (*final(s))@.len() == 0,
{ s.read_exact(buf) }

#[verifier::external_body]
pub fn vx_arr<const N: usize>(b: &[u8]) -> (r: Result<[u8; N], std::array::TryFromSliceError>)
    ensures r is Ok <==> b@.len() == N, r matches Ok(x) ==> x@ == b@
{ b.try_into() }
// == on byte strings
use vstd::std_specs::cmp::PartialEqSpec;
pub broadcast axiom fn eq_slice_o() ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn eq_slice(a: &[u8], b: &[u8]) ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn eq_slice_vec_o() ensures #[trigger] <[u8] as PartialEqSpec<Vec<u8>>>::obeys_eq_spec();
pub broadcast axiom fn eq_slice_vec(a: &[u8], b: &Vec<u8>) ensures #[trigger] <[u8] as PartialEqSpec<Vec<u8>>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn eq_vec_slice_o() ensures #[trigger] <Vec<u8> as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn eq_vec_slice(a: &Vec<u8>, b: &[u8]) ensures #[trigger] <Vec<u8> as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn eq_slice_array_o<const N: usize>() ensures #[trigger] <[u8] as PartialEqSpec<[u8; N]>>::obeys_eq_spec();
pub broadcast axiom fn eq_slice_array<const N: usize>(a: &[u8], b: &[u8; N]) ensures #[trigger] <[u8] as PartialEqSpec<[u8; N]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn eq_ref_array_o<'a, const N: usize>() ensures #[trigger] <&'a [u8] as PartialEqSpec<[u8; N]>>::obeys_eq_spec();
pub broadcast axiom fn eq_ref_array<'a, const N: usize>(a: &&'a [u8], b: &[u8; N]) ensures #[trigger] <&'a [u8] as PartialEqSpec<[u8; N]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn eq_vec_ref_o<'a>() ensures #[trigger] <Vec<u8> as PartialEqSpec<&'a [u8]>>::obeys_eq_spec();
pub broadcast axiom fn eq_vec_ref<'a>(a: &Vec<u8>, b: &&'a [u8]) ensures #[trigger] <Vec<u8> as PartialEqSpec<&'a [u8]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn eq_ref_vec_o<'a>() ensures #[trigger] <&'a [u8] as PartialEqSpec<Vec<u8>>>::obeys_eq_spec();
pub broadcast axiom fn eq_ref_vec<'a>(a: &&'a [u8], b: &Vec<u8>) ensures #[trigger] <&'a [u8] as PartialEqSpec<Vec<u8>>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn eq_array_slice_o<const N: usize>() ensures #[trigger] <[u8; N] as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn eq_array_slice<const N: usize>(a: &[u8; N], b: &[u8]) ensures #[trigger] <[u8; N] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast group bytes_eq { eq_vec_ref_o, eq_vec_ref, eq_ref_vec_o, eq_ref_vec, eq_array_slice_o, eq_array_slice, eq_slice_o, eq_slice, eq_slice_vec_o, eq_slice_vec, eq_vec_slice_o, eq_vec_slice, eq_slice_array_o, eq_slice_array, eq_ref_array_o, eq_ref_array }
pub fn vx_u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r == be16(b@, 0)
{ (b[0] as u16) * 0x100 + (b[1] as u16) }
pub fn vx_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == be32(b@, 0)
{ (b[0] as u32) * 0x1000000 + (b[1] as u32) * 0x10000 + (b[2] as u32) * 0x100 + (b[3] as u32) }
}
@path io::Read::take => vx_take
@path Read::take => vx_take
@path std::io::Read::take => vx_take
@path u16::from_be_bytes => vx_u16_from_be_bytes
@path u32::from_be_bytes => vx_u32_from_be_bytes
@rule __x[__a..__b].try_into() => vx_arr(&__x[__a..__b])
@rule <&[u8] as TryInto<[u8; 3]>>::try_into(__x) => vx_arr::<3>(__x)
@rule __s.seek_relative(__n) => vx_seek_relative(__s, __n)
@rule __s.seek(SeekFrom::Current(__n)) => vx_seek_current(__s, __n)
@rule __s.seek(io::SeekFrom::Current(__n)) => vx_seek_current(__s, __n)
@rule __s.seek(std::io::SeekFrom::Current(__n)) => vx_seek_current(__s, __n)
