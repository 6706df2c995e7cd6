// ------------------------------------------------------------------ operations of std that vstd does not know
pub mod std_ops {
use vstd::prelude::*;
pub assume_specification [u8::abs_diff] (a: u8, b: u8) -> (r: u8) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [u8::div_ceil] (a: u8, b: u8) -> (r: u8) requires b != 0, ensures r == (a as int + b - 1) / (b as int);
pub assume_specification [u16::abs_diff] (a: u16, b: u16) -> (r: u16) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [u16::div_ceil] (a: u16, b: u16) -> (r: u16) requires b != 0, ensures r == (a as int + b - 1) / (b as int);
pub assume_specification [u32::abs_diff] (a: u32, b: u32) -> (r: u32) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [u32::div_ceil] (a: u32, b: u32) -> (r: u32) requires b != 0, ensures r == (a as int + b - 1) / (b as int);
pub assume_specification [u64::abs_diff] (a: u64, b: u64) -> (r: u64) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64) requires b != 0, ensures r == (a as int + b - 1) / (b as int);
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b != 0, ensures r == (a as int + b - 1) / (b as int);
pub assume_specification [i32::abs] (a: i32) -> (r: i32) requires a > -0x8000_0000, ensures r == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification [i32::unsigned_abs] (a: i32) -> (r: u32) ensures r == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification [i32::signum] (a: i32) -> (r: i32) ensures r == (if a < 0 { -1int } else if a > 0 { 1int } else { 0int });
pub assume_specification [i32::is_negative] (a: i32) -> (r: bool) ensures r == (a < 0);
pub assume_specification [i32::is_positive] (a: i32) -> (r: bool) ensures r == (a > 0);
pub assume_specification [i32::rem_euclid] (a: i32, b: i32) -> (r: i32) requires b > 0, ensures r == a as int % (b as int);
pub assume_specification [i32::div_euclid] (a: i32, b: i32) -> (r: i32) requires b > 0, ensures r == a as int / (b as int);
pub assume_specification [i32::wrapping_neg] (a: i32) -> (r: i32) ensures r == (if a == -0x8000_0000 { a as int } else { -(a as int) });
pub assume_specification [i64::abs] (a: i64) -> (r: i64) requires a > -0x8000_0000_0000_0000, ensures r == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification [i64::unsigned_abs] (a: i64) -> (r: u64) ensures r == (if a < 0 { -(a as int) } else { a as int });
pub assume_specification [i64::signum] (a: i64) -> (r: i64) ensures r == (if a < 0 { -1int } else if a > 0 { 1int } else { 0int });
pub assume_specification [i64::is_negative] (a: i64) -> (r: bool) ensures r == (a < 0);
pub assume_specification [i64::is_positive] (a: i64) -> (r: bool) ensures r == (a > 0);
pub assume_specification [i64::rem_euclid] (a: i64, b: i64) -> (r: i64) requires b > 0, ensures r == a as int % (b as int);
pub assume_specification [i64::div_euclid] (a: i64, b: i64) -> (r: i64) requires b > 0, ensures r == a as int / (b as int);
pub assume_specification [i64::wrapping_neg] (a: i64) -> (r: i64) ensures r == (if a == -0x8000_0000_0000_0000 { a as int } else { -(a as int) });
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>) ensures *final(o) == Some(v), r == *old(o);
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T, U>[ Option::<T>::and ](a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if a is Some { b } else { None });
pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T, U>[ Option::<T>::zip ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](a: Option<&'a T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](a: Result<T, E>, d: T) -> (r: T) ensures r == (match a { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, F>[ Result::<T, E>::or ](a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>) ensures r == (match a { Ok(x) => Ok::<T, F>(x), Err(_) => b });
pub assume_specification<T, E, U>[ Result::<T, E>::and ](a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>) ensures r == (match a { Ok(_) => b, Err(e) => Err::<U, E>(e) });
pub assume_specification<T>[ bool::then_some ](b: bool, v: T) -> (r: Option<T>) ensures r == (if b { Some(v) } else { None });
pub assume_specification<T>[ core::mem::replace ](x: &mut T, v: T) -> (r: T) ensures r == *old(x), *final(x) == v;
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> #[trigger] final(s)@[i] == old(s)@[old(s)@.len() - 1 - i];
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]);
pub assume_specification [u8::is_ascii] (c: &u8) -> (r: bool) ensures r == (*c < 128);
pub assume_specification [u8::is_ascii_control] (c: &u8) -> (r: bool) ensures r == (*c < 32 || *c == 127);
pub assume_specification [u8::is_ascii_graphic] (c: &u8) -> (r: bool) ensures r == (33 <= *c <= 126);
pub assume_specification [u8::is_ascii_punctuation] (c: &u8) -> (r: bool) ensures r == (33 <= *c <= 47 || 58 <= *c <= 64 || 91 <= *c <= 96 || 123 <= *c <= 126);
pub assume_specification [u8::is_ascii_whitespace] (c: &u8) -> (r: bool) ensures r == (*c == 9 || *c == 10 || *c == 12 || *c == 13 || *c == 32);
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c <= '9');
pub assume_specification [char::is_ascii_hexdigit] (c: &char) -> (r: bool) ensures r == ('0' <= *c <= '9' || 'a' <= *c <= 'f' || 'A' <= *c <= 'F');
pub assume_specification [u16::swap_bytes] (a: u16) -> (r: u16) ensures r == a % 0x100 * 0x100 + a / 0x100;
pub assume_specification [usize::next_multiple_of] (a: usize, b: usize) -> (r: usize) requires b != 0, (a as int + b - 1) / (b as int) * b <= usize::MAX, ensures r == (a as int + b - 1) / (b as int) * b;
pub assume_specification [i32::abs_diff] (a: i32, b: i32) -> (r: u32) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [i64::abs_diff] (a: i64, b: i64) -> (r: u64) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [i64::checked_abs] (a: i64) -> (r: Option<i64>) ensures r == (if a == i64::MIN { None::<i64> } else if a < 0 { Some((-(a as int)) as i64) } else { Some(a) });
pub assume_specification [i64::checked_neg] (a: i64) -> (r: Option<i64>) ensures r == (if a == i64::MIN { None::<i64> } else { Some((-(a as int)) as i64) });
pub assume_specification [i64::wrapping_abs] (a: i64) -> (r: i64) ensures r == (if a == i64::MIN { a as int } else if a < 0 { -(a as int) } else { a as int });
pub assume_specification [i64::saturating_add] (a: i64, b: i64) -> (r: i64) ensures r == (if a + b > i64::MAX { i64::MAX as int } else if a + b < i64::MIN { i64::MIN as int } else { a + b });
pub assume_specification [i64::saturating_sub] (a: i64, b: i64) -> (r: i64) ensures r == (if a - b > i64::MAX { i64::MAX as int } else if a - b < i64::MIN { i64::MIN as int } else { a - b });
pub assume_specification [i64::saturating_neg] (a: i64) -> (r: i64) ensures r == (if a == i64::MIN { i64::MAX as int } else { -(a as int) });
pub assume_specification<T>[ <[T]>::split_last ](s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures r is Some <==> s@.len() > 0, r matches Some((x, h)) ==> *x == s@.last() && h@ == s@.drop_last();
pub assume_specification<T, const N: usize>[ <[T]>::first_chunk::<N> ](s: &[T]) -> (r: Option<&[T; N]>)
    ensures r is Some <==> s@.len() >= N, r matches Some(c) ==> c@ == s@.take(N as int);
pub assume_specification [String::capacity] (s: &String) -> (r: usize);
pub assume_specification<T: Default>[ core::mem::take ](x: &mut T) -> (r: T) ensures r == *old(x), call_ensures(T::default, (), *final(x));
pub assume_specification<T>[ Option::<Option<T>>::flatten ](a: Option<Option<T>>) -> (r: Option<T>) ensures r == (match a { Some(x) => x, None => None::<T> });
pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](a: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match a { Some(Ok(x)) => Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) });
pub assume_specification<T, E>[ Result::<Option<T>, E>::transpose ](a: Result<Option<T>, E>) -> (r: Option<Result<T, E>>)
    ensures r == (match a { Ok(Some(x)) => Some(Ok::<T, E>(x)), Ok(None) => None, Err(e) => Some(Err(e)) });
pub assume_specification [u8::is_ascii_digit] (c: &u8) -> (r: bool) ensures r == (48 <= *c <= 57);
pub assume_specification [u8::is_ascii_lowercase] (c: &u8) -> (r: bool) ensures r == (97 <= *c <= 122);
pub assume_specification [u8::is_ascii_uppercase] (c: &u8) -> (r: bool) ensures r == (65 <= *c <= 90);
pub assume_specification [u8::is_ascii_alphabetic] (c: &u8) -> (r: bool) ensures r == (65 <= *c <= 90 || 97 <= *c <= 122);
pub assume_specification [u8::is_ascii_alphanumeric] (c: &u8) -> (r: bool) ensures r == (48 <= *c <= 57 || 65 <= *c <= 90 || 97 <= *c <= 122);
pub assume_specification [u8::to_ascii_lowercase] (c: &u8) -> (r: u8) ensures r == (if 65 <= *c <= 90 { (*c + 32) as u8 } else { *c });
pub assume_specification [u8::to_ascii_uppercase] (c: &u8) -> (r: u8) ensures r == (if 97 <= *c <= 122 { (*c - 32) as u8 } else { *c });
pub trait VxOrd: Sized { spec fn less(&self, o: Self) -> bool; fn vx_min(a: Self, b: Self) -> (r: Self) ensures r == (if b.less(a) { b } else { a }); fn vx_max(a: Self, b: Self) -> (r: Self) ensures r == (if b.less(a) { a } else { b }); }
impl VxOrd for u8 { open spec fn less(&self, o: Self) -> bool { *self < o } fn vx_min(a: Self, b: Self) -> Self { if b < a { b } else { a } } fn vx_max(a: Self, b: Self) -> Self { if b < a { a } else { b } } }
impl VxOrd for u16 { open spec fn less(&self, o: Self) -> bool { *self < o } fn vx_min(a: Self, b: Self) -> Self { if b < a { b } else { a } } fn vx_max(a: Self, b: Self) -> Self { if b < a { a } else { b } } }
impl VxOrd for u32 { open spec fn less(&self, o: Self) -> bool { *self < o } fn vx_min(a: Self, b: Self) -> Self { if b < a { b } else { a } } fn vx_max(a: Self, b: Self) -> Self { if b < a { a } else { b } } }
impl VxOrd for u64 { open spec fn less(&self, o: Self) -> bool { *self < o } fn vx_min(a: Self, b: Self) -> Self { if b < a { b } else { a } } fn vx_max(a: Self, b: Self) -> Self { if b < a { a } else { b } } }
impl VxOrd for usize { open spec fn less(&self, o: Self) -> bool { *self < o } fn vx_min(a: Self, b: Self) -> Self { if b < a { b } else { a } } fn vx_max(a: Self, b: Self) -> Self { if b < a { a } else { b } } }
impl VxOrd for i32 { open spec fn less(&self, o: Self) -> bool { *self < o } fn vx_min(a: Self, b: Self) -> Self { if b < a { b } else { a } } fn vx_max(a: Self, b: Self) -> Self { if b < a { a } else { b } } }
impl VxOrd for i64 { open spec fn less(&self, o: Self) -> bool { *self < o } fn vx_min(a: Self, b: Self) -> Self { if b < a { b } else { a } } fn vx_max(a: Self, b: Self) -> Self { if b < a { a } else { b } } }
pub fn vx_cmp_min<T: VxOrd>(a: T, b: T) -> (r: T) ensures r == (if b.less(a) { b } else { a }) { T::vx_min(a, b) }
pub fn vx_cmp_max<T: VxOrd>(a: T, b: T) -> (r: T) ensures r == (if b.less(a) { a } else { b }) { T::vx_max(a, b) }
#[verifier::external_body] pub fn vx_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == b@[0] * 0x1 + b@[1] * 0x100 { u16::from_le_bytes(b) }
#[verifier::external_body] pub fn vx_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == b@[0] * 0x1 + b@[1] * 0x100 + b@[2] * 0x10000 + b@[3] * 0x1000000 { u32::from_le_bytes(b) }
// closures of Option and Result are written out in terms of this view of both
pub trait VxOpen: Sized { type O; type K; spec fn opened(self) -> Self::O; fn vx_open(self) -> (r: (Self::O, Self::K)) ensures r.0 == self.opened(); }
pub struct VxOptK;
pub struct VxResK;
impl<T> VxOpen for Option<T> {
    type O = Result<T, ()>; type K = VxOptK;
    open spec fn opened(self) -> Result<T, ()> { match self { Some(x) => Ok(x), None => Err(()) } }
    fn vx_open(self) -> (Result<T, ()>, VxOptK) { (match self { Some(x) => Ok(x), None => Err(()) }, VxOptK) }
}
impl<T, E> VxOpen for Result<T, E> {
    type O = Result<T, E>; type K = VxResK;
    open spec fn opened(self) -> Result<T, E> { self }
    fn vx_open(self) -> (Result<T, E>, VxResK) { (self, VxResK) }
}
impl VxOptK {
    pub fn vx_map<U>(self, r: Result<U, ()>) -> (o: Option<U>) ensures o == (match r { Ok(x) => Some(x), Err(_) => None::<U> }) { match r { Ok(x) => Some(x), Err(_) => None } }
    pub fn vx_bind<U>(self, r: Result<Option<U>, ()>) -> (o: Option<U>) ensures o == (match r { Ok(x) => x, Err(_) => None::<U> }) { match r { Ok(x) => x, Err(_) => None } }
}
impl VxResK {
    pub fn vx_map<U, E>(self, r: Result<U, E>) -> (o: Result<U, E>) ensures o == r { r }
    pub fn vx_bind<U, E>(self, r: Result<Result<U, E>, E>) -> (o: Result<U, E>) ensures o == (match r { Ok(x) => x, Err(e) => Err(e) }) { match r { Ok(x) => x, Err(e) => Err(e) } }
}
}
@path std::cmp::min => vx_cmp_min
@path cmp::min => vx_cmp_min
@path std::cmp::max => vx_cmp_max
@path cmp::max => vx_cmp_max
@path u16::from_le_bytes => vx_u16_from_le_bytes
@path u32::from_le_bytes => vx_u32_from_le_bytes
