// Unit misc: time points (C17), SRT / WebVTT (C18), areas (C19)
@include base.vc
@include content.vc
@include image.vc
@include imgarea.vc
@include float.vc

pub mod time {
use vstd::prelude::*;
use vstd::prelude::*;
use super::base::*;
use core::fmt;
use super::float::*;

// characters received by a formatter so far
pub uninterp spec fn out(f: &fmt::Formatter<'_>) -> Seq<char>;

#[verifier::external_body]
pub fn vx_lit(f: &mut fmt::Formatter<'_>, s: &str) -> (r: fmt::Result)
    ensures r is Ok ==> out(final(f)) == out(old(f)) + s@,
            r is Err ==> partial(out(old(f)), out(final(f)), s@)
{ f.write_str(s) }
#[verifier::external_body]
pub fn vx_fmt<T: Shown>(f: &mut fmt::Formatter<'_>, v: &T) -> (r: fmt::Result)
    ensures r is Ok ==> out(final(f)) == out(old(f)) + v.shown(),
            r is Err ==> partial(out(old(f)), out(final(f)), v.shown())
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt_zpad<T: ShownPad>(f: &mut fmt::Formatter<'_>, v: &T, w: u32) -> (r: fmt::Result)
    ensures r is Ok ==> out(final(f)) == out(old(f)) + v.shown_zpad(w as int),
            r is Err ==> partial(out(old(f)), out(final(f)), v.shown_zpad(w as int))
{ unimplemented!() }


@type src/time/time_point.rs TimePoint derive=Copy,Clone
@type src/time/time_span.rs TimeSpan derive=Copy,Clone

// C17: the rendering of a number of milliseconds
pub open spec fn mag(ms: int) -> nat { if ms < 0 { (-ms) as nat } else { ms as nat } }
pub open spec fn time_text(ms: int, sep: char) -> Seq<char> {
    (if ms < 0 { seq!['-'] } else { Seq::<char>::empty() })
    + zpad(mag(ms) / 3600000, 2) + seq![':'] + zpad(mag(ms) / 60000 % 60, 2) + seq![':']
    + zpad(mag(ms) / 1000 % 60, 2) + seq![sep] + zpad(mag(ms) % 1000, 3)
}
// the components recombine to the value and are in range
pub proof fn time_components(ms: int)
    ensures ({ let m = mag(ms); &&& m / 60000 % 60 < 60 &&& m / 1000 % 60 < 60 &&& m % 1000 < 1000
        &&& (m / 3600000) * 3600000 + (m / 60000 % 60) * 60000 + (m / 1000 % 60) * 1000 + m % 1000 == m }) //#C17
{
    let m = mag(ms);
    let (a, b) = (m / 1000, m / 60000);
    assert(m == 1000 * a + m % 1000);
    assert(b == a / 60);
    assert(a == 60 * b + a % 60);
    assert(m / 3600000 == b / 60);
    assert(b == 60 * (b / 60) + b % 60);
}
// two digits below 60, three below 1000
pub proof fn two_digits(n: nat) requires n < 100 ensures zpad(n, 2).len() == 2 //#C17
{ reveal_with_fuel(dec, 3); }
pub proof fn three_digits(n: nat) requires n < 1000 ensures zpad(n, 3).len() == 3 //#C17
{ reveal_with_fuel(dec, 4); }

@fn src/time/time_point.rs TimePoint::from_msecs : C17 C02 C03
@ret r
@spec
    ensures r.0 == time
@endfn
@fn src/time/time_point.rs TimePoint::msecs : C17
@ret r
@spec
    ensures r == self.0
@endfn
// the time in seconds, to the precision of an f64
@fn src/time/time_point.rs TimePoint::to_secs : C17
@ret r
@spec
    ensures -9007199254740992 <= self.0 <= 9007199254740992 ==> rounds(r, self.0 as real / 1000real) //#C17
@start
    broadcast use floats;
    proof { f_lits(); reveal(quot); }
@endfn
@fn src/time/time_point.rs <Neg for TimePoint>::neg : C17
@opt inherent
@ret r
@spec
    requires self.0 != i64::MIN,
    ensures r.0 == -self.0 //#C17
@endfn
@fn src/time/time_point.rs TimePoint::secs : C17
@ret r
@spec
    ensures r == (if self.0 < 0 { -((mag(self.0 as int) / 1000) as int) } else { (mag(self.0 as int) / 1000) as int })
@endfn
@fn src/time/time_point.rs TimePoint::mins : C17
@ret r
@spec
    ensures r == (if self.0 < 0 { -((mag(self.0 as int) / 60000) as int) } else { (mag(self.0 as int) / 60000) as int })
@endfn
@fn src/time/time_point.rs TimePoint::hours : C17
@ret r
@spec
    ensures r == (if self.0 < 0 { -((mag(self.0 as int) / 3600000) as int) } else { (mag(self.0 as int) / 3600000) as int })
@endfn
@fn src/time/time_point.rs TimePoint::mins_comp : C17
@ret r
@spec
    ensures r == (if self.0 < 0 { -((mag(self.0 as int) / 60000 % 60) as int) } else { (mag(self.0 as int) / 60000 % 60) as int })
@endfn
@fn src/time/time_point.rs TimePoint::secs_comp : C17
@ret r
@spec
    ensures r == (if self.0 < 0 { -((mag(self.0 as int) / 1000 % 60) as int) } else { (mag(self.0 as int) / 1000 % 60) as int })
@endfn
@fn src/time/time_point.rs TimePoint::msecs_comp : C17
@ret r
@spec
    ensures r == (if self.0 < 0 { -((mag(self.0 as int) % 1000) as int) } else { (mag(self.0 as int) % 1000) as int })
@endfn
@fn src/time/time_point.rs TimePoint::fmt_separator : C17
@ret r
@spec
    ensures
        r is Ok ==> out(final(f)) == out(old(f)) + time_text(self.0 as int, separator),
        r is Err ==> partial(out(old(f)), out(final(f)), time_text(self.0 as int, separator)),
@start
    broadcast use text_lemmas;
    proof { reveal_strlit("-"); reveal_strlit(""); reveal_strlit(":"); vstd::seq_lib::assert_seqs_equal!(""@, Seq::<char>::empty()); vstd::seq_lib::assert_seqs_equal!(":"@, seq![':']); vstd::seq_lib::assert_seqs_equal!("-"@, seq!['-']); }
@endfn
@fn src/time/time_span.rs TimeSpan::new : C02 C03 C13
@ret r
@spec
    ensures r.start == start, r.end == end
@endfn
}

@rule __s.iter().enumerate().try_for_each(|(__i, __x)| __b) => { let mut __k: usize = 0; let mut __res: Result<(), io::Error> = Ok(()); while __k < __s.len() @@loop each@@ { let __i = __k; let __x = &__s[__k]; @@each start@@ match __b { Ok(()) => {}, Err(__e) => { __res = Err(__e); @@each break@@ break; } } __k = __k + 1; } @@each end@@ __res }
pub mod io_model {
use vstd::prelude::*;
use super::base::*;
use std::io;
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExIoError(io::Error);
#[verifier::external_type_specification]
pub struct ExErrorKind(io::ErrorKind);
pub uninterp spec fn kind_of(e: io::Error) -> io::ErrorKind;
pub assume_specification[ io::Error::kind ](e: &io::Error) -> (r: io::ErrorKind) ensures r == kind_of(*e);
pub assume_specification[ <io::ErrorKind as PartialEq>::eq ](a: &io::ErrorKind, b: &io::ErrorKind) -> (r: bool) ensures r == (*a == *b);
#[verifier::external_trait_specification]
pub trait ExWrite { type ExternalTraitSpecificationFor: io::Write; }
// characters accepted by a writer so far
pub uninterp spec fn written<W: ?Sized>(w: &W) -> Seq<char>;
#[verifier::external_body]
pub fn vx_lit<W: io::Write>(w: &mut W, s: &str) -> (r: Result<(), io::Error>)
    ensures r is Ok ==> written(final(w)) == written(old(w)) + s@,
            r is Err ==> partial(written(old(w)), written(final(w)), s@)
{ w.write_all(s.as_bytes()) }
#[verifier::external_body]
pub fn vx_fmt<W: io::Write, T: Shown>(w: &mut W, v: &T) -> (r: Result<(), io::Error>)
    ensures r is Ok ==> written(final(w)) == written(old(w)) + v.shown(),
            r is Err ==> partial(written(old(w)), written(final(w)), v.shown())
{ unimplemented!() }
}
pub mod srt {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use super::base::*;
use super::io_model::*;
use super::time::{TimePoint, TimeSpan, time_text, out};
use std::{fmt, io};
@type src/srt.rs TimePointSrt
impl Shown for TimePointSrt { open spec fn shown(&self) -> Seq<char> { time_text(self.0.0 as int, ',') } }

impl FromSpecImpl<TimePoint> for TimePointSrt { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(t: TimePoint) -> Self { TimePointSrt(t) } }
@fn src/srt.rs <From<TimePoint> for TimePointSrt>::from : C17 C18
@opt traitimpl
@ret r
@endfn
@fn src/srt.rs <Display for TimePointSrt>::fmt : C17 C18
@ret r
@spec
    ensures r is Ok ==> out(final(f)) == out(old(f)) + self.shown()
@endfn

pub open spec fn cue_text(t: TimeSpan, text: Seq<char>, sep: char) -> Seq<char> {
    time_text(t.start.0 as int, sep) + " --> "@ + time_text(t.end.0 as int, sep) + "\n"@ + text + "\n\n"@
}
// C18: the text of one numbered subtitle, of the first n subtitles
pub open spec fn line_text(n: nat, t: TimeSpan, text: Seq<char>) -> Seq<char> {
    dec(n) + "\n"@ + cue_text(t, text, ',')
}
pub open spec fn srt_text(subs: Seq<(TimeSpan, String)>, n: nat) -> Seq<char> decreases n {
    if n == 0 { seq![] } else { srt_text(subs, (n - 1) as nat) + line_text(n, subs[n - 1].0, subs[n - 1].1@) }
}
@fn src/srt.rs write_line : C18
@ret r
@spec
    ensures r is Ok ==> written(final(writer)) == written(old(writer)) + line_text(line_idx as nat, *time, text@),
        r is Err ==> partial(written(old(writer)), written(final(writer)), line_text(line_idx as nat, *time, text@)),
@start
    broadcast use text_lemmas;
    proof { reveal_strlit("\n"); reveal_strlit(" --> "); reveal_strlit("\n\n"); assert("\n\n"@ =~= "\n"@ + "\n"@); }
@endfn

@fn src/srt.rs write_srt : C18
@ret r
@spec
    requires subtitles@.len() < usize::MAX,
    ensures
        r is Ok ==> written(final(writer)) == written(old(writer)) + srt_text(subtitles@, subtitles@.len()),
        r is Err ==> exists|n: int| 0 <= n < subtitles@.len() && #[trigger] partial(
            written(old(writer)) + srt_text(subtitles@, n as nat), written(final(writer)),
            line_text((n + 1) as nat, subtitles@[n].0, subtitles@[n].1@)),
@loop each
    invariant_except_break
        written(writer) == written(old(writer)) + srt_text(subtitles@, __k as nat), __res is Ok,
    invariant
        __k <= subtitles@.len(), subtitles@.len() < usize::MAX,
    ensures
        __res is Ok ==> __k == subtitles@.len() && written(writer) == written(old(writer)) + srt_text(subtitles@, subtitles@.len()),
        __res is Err ==> __k < subtitles@.len() && partial(written(old(writer)) + srt_text(subtitles@, __k as nat), written(writer),
            line_text((__k + 1) as nat, subtitles@[__k as int].0, subtitles@[__k as int].1@)),
    decreases subtitles@.len() - __k
@each end
    proof { if __res is Err { let n = __k as int; assert(partial(written(old(writer)) + srt_text(subtitles@, n as nat), written(writer),
        line_text((n + 1) as nat, subtitles@[n].0, subtitles@[n].1@))); } }
@endfn
}

pub mod webvtt {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use super::base::*;
use super::io_model::*;
use super::srt::cue_text;
use super::time::{TimePoint, TimeSpan, time_text, out};
use std::{fmt, io};
@type src/webvtt.rs TimePointVtt
impl Shown for TimePointVtt { open spec fn shown(&self) -> Seq<char> { time_text(self.0.0 as int, '.') } }
impl FromSpecImpl<TimePoint> for TimePointVtt { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(t: TimePoint) -> Self { TimePointVtt(t) } }
@fn src/webvtt.rs <From<TimePoint> for TimePointVtt>::from : C17 C18
@opt traitimpl
@ret r
@endfn
@fn src/webvtt.rs <Display for TimePointVtt>::fmt : C17 C18
@ret r
@spec
    ensures r is Ok ==> out(final(f)) == out(old(f)) + self.shown()
@endfn
@fn src/webvtt.rs write_line : C18
@ret r
@spec
    ensures
        r is Ok ==> written(final(writer)) == written(old(writer)) + cue_text(*time, text@, '.'),
        r is Err ==> partial(written(old(writer)), written(final(writer)), cue_text(*time, text@, '.')),
@start
    broadcast use text_lemmas;
    proof { reveal_strlit("\n"); reveal_strlit(" --> "); reveal_strlit("\n\n"); assert("\n\n"@ =~= "\n"@ + "\n"@); }
@endfn
}

pub mod idx_time {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use super::base::*;
use super::time::{TimePoint, time_text, out};
use std::fmt;
@type src/vobsub/idx.rs TimePointIdx
impl Shown for TimePointIdx { open spec fn shown(&self) -> Seq<char> { time_text(self.0.0 as int, ':') } }
impl FromSpecImpl<TimePoint> for TimePointIdx { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(t: TimePoint) -> Self { TimePointIdx(t) } }
@fn src/vobsub/idx.rs <From<TimePoint> for TimePointIdx>::from : C17
@opt traitimpl
@ret r
@endfn
@fn src/vobsub/idx.rs <Display for TimePointIdx>::fmt : C17
@ret r
@spec
    ensures r is Ok ==> out(final(f)) == out(old(f)) + self.shown()
@endfn
}

// ------------------------------------------------------------------ OCR thresholds
pub mod pixels {
use vstd::prelude::*;
use core::cmp::Ordering;
use super::base::*;
use super::image::{Luma, LumaA};
// image::Primitive
pub trait Primitive: Sized + Copy {
    spec fn order(a: Self, b: Self) -> Option<Ordering>;
    spec fn least() -> Self;
    spec fn greatest() -> Self;
    spec fn of(x: u8) -> Option<Self>;
    fn vx_cmp(a: Self, b: Self) -> (r: Option<Ordering>) ensures r == Self::order(a, b);
    fn vx_min() -> (r: Self) ensures r == Self::least();
    fn vx_max() -> (r: Self) ensures r == Self::greatest();
    fn from(x: u8) -> (r: Option<Self>) ensures r == Self::of(x);
}
pub open spec fn ge<P: Primitive>(a: P, b: P) -> bool { P::order(a, b) == Some(Ordering::Greater) || P::order(a, b) == Some(Ordering::Equal) }
pub fn vx_ge<P: Primitive>(a: P, b: P) -> (r: bool) ensures r == ge(a, b) { matches!(P::vx_cmp(a, b), Some(Ordering::Greater | Ordering::Equal)) }
pub fn vx_gt<P: Primitive>(a: P, b: P) -> (r: bool) ensures r == (P::order(a, b) == Some(Ordering::Greater)) { matches!(P::vx_cmp(a, b), Some(Ordering::Greater)) }
pub fn vx_lt<P: Primitive>(a: P, b: P) -> (r: bool) ensures r == (P::order(a, b) == Some(Ordering::Less)) { matches!(P::vx_cmp(a, b), Some(Ordering::Less)) }
pub fn vx_le<P: Primitive>(a: P, b: P) -> (r: bool) ensures r == (P::order(a, b) == Some(Ordering::Less) || P::order(a, b) == Some(Ordering::Equal)) { matches!(P::vx_cmp(a, b), Some(Ordering::Less | Ordering::Equal)) }
// Borrow
pub trait VxBorrow<T> {
    spec fn target(&self) -> &T;
    fn borrow(&self) -> (r: &T) ensures r == self.target();
}
pub fn vx_channel<T: Copy>(p: &LumaA<T>, i: usize) -> (r: T) requires i < 2, ensures r == p.0[i as int] { p.0[i] }
// C22: black where both thresholds are reached, white elsewhere
pub open spec fn thresholded<P: Primitive>(p: LumaA<P>, alpha_t: P, luma_t: P) -> P {
    if ge(p.0[1], alpha_t) && ge(p.0[0], luma_t) { P::least() } else { P::greatest() }
}
@fn src/image/pixels.rs luma_a_to_luma : C22
@opt rule=__a[__i] => vx_channel(__a, __i)
@opt rule=__a >= __b => vx_ge(__a, __b)
@opt rule=__a > __b => vx_gt(__a, __b)
@opt rule=__a < __b => vx_lt(__a, __b)
@opt rule=__a <= __b => vx_le(__a, __b)
@opt path=P::DEFAULT_MIN_VALUE => P::vx_min()
@opt path=P::DEFAULT_MAX_VALUE => P::vx_max()
@opt path=Borrow<LumaA<P>> => VxBorrow<LumaA<P>>
@ret r
@spec
    requires P::of(A) is Some, P::of(L) is Some,
    ensures r.0@ =~= seq![thresholded(*luma.target(), P::of(A)->Some_0, P::of(L)->Some_0)], //#C22
@endfn
@fn src/image/pixels.rs luma_a_to_luma_convertor : C22
@opt rule=__a[__i] => vx_channel(__a, __i)
@opt rule=__a >= __b => vx_ge(__a, __b)
@opt rule=__a > __b => vx_gt(__a, __b)
@opt rule=__a < __b => vx_lt(__a, __b)
@opt rule=__a <= __b => vx_le(__a, __b)
@opt path=P::DEFAULT_MIN_VALUE => P::vx_min()
@opt path=P::DEFAULT_MAX_VALUE => P::vx_max()
@opt path=Borrow<LumaA<P>> => VxBorrow<LumaA<P>>
@ret r
@spec
    ensures
        forall|p: In| #[trigger] call_requires(r, (p,)), //#C22
        forall|p: In, q: Luma<P>| #[trigger] call_ensures(r, (p,), q) ==> q.0@ == seq![thresholded(*p.target(), alpha_t, luma_t)], //#C22
@closure 0 (In) -> (r: Luma<P>)
    ensures r.0@ =~= seq![thresholded(*luma.target(), alpha_t, luma_t)]
@endfn
}
} // verus!
fn main() {}
