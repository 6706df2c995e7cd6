// Unit vobsub: C09..C13, C16
@include vobcommon.vc
@include float.vc
// ------------------------------------------------------------------ what log lines print (C16: printing does not panic either)
pub mod diag {
use vstd::prelude::*;
use core::fmt;
use super::base::*;
use super::img::VobSubIndexedImage;
use super::time::TimeSpan;
use super::pes::Packet;
#[verifier::external_body]
pub fn vx_out(f: &mut fmt::Formatter<'_>) -> (r: fmt::Result) { unimplemented!() }
pub struct VxDebug {}
#[verifier::external_body]
pub fn vx_debug_struct(f: &mut fmt::Formatter<'_>) -> (r: VxDebug) { unimplemented!() }
impl VxDebug {
    pub fn field<T>(self, name: &str, v: &T) -> (r: VxDebug) { self }
    #[verifier::external_body]
    pub fn finish(self) -> (r: fmt::Result) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish_non_exhaustive(self) -> (r: fmt::Result) { unimplemented!() }
}
// the first n bytes
pub fn vx_take<'a>(s: &'a [u8], n: usize) -> (r: &'a [u8]) ensures r@ == s@.take(if n <= s@.len() { n as int } else { s@.len() as int })
{ if n <= s.len() { vstd::slice::slice_subrange(s, 0, n) } else { assert(s@.take(s@.len() as int) =~= s@); s } }
@rule __f.debug_struct(__n) => vx_debug_struct(__f)
@rule __x.iter().take(__n) => vx_take(__x, __n)
@type src/util.rs BytesFormatter
@fn src/util.rs <Debug for BytesFormatter>::fmt : C16
@opt inherent
@opt diag
@ret r
@loop 0 : for byte in bytes.iter().take(16)
    invariant true,
@endfn
@fn src/vobsub/img.rs <Debug for VobSubIndexedImage>::fmt : C16
@opt inherent
@opt diag
@endfn
@fn src/vobsub/mpeg2/pes.rs <Debug for Packet>::fmt : C16
@opt inherent
@opt diag
@endfn
}
// ------------------------------------------------------------------ times
pub mod time {
use vstd::prelude::*;
use super::base::*;
use super::float::*;
@type src/time/time_point.rs TimePoint derive=Debug,Copy,Clone
@type src/time/time_span.rs TimeSpan derive=Debug,Copy,Clone
// C10: v milliseconds are n ticks of the 90 kHz clock, at most 1 ms off
pub open spec fn on_time(v: int, n: int) -> bool { -90 <= 90 * v - n <= 90 }
@fn src/time/time_point.rs TimePoint::from_secs : C10 C13 C16
@ret r
@spec
    requires exists|n: int| near(seconds, n, 10) && 0 <= n < 0x4_0000_0000,
    ensures forall|n: int| #[trigger] near(seconds, n, 10) && 0 <= n < 0x4_0000_0000 ==> on_time(r.0 as int, n) //#C10 C13
@start
    broadcast use floats;
    proof { f_lits(); reveal(near); }
@endfn
@fn src/time/time_span.rs TimeSpan::new : C13
@ret r
@spec
    ensures r.start == start, r.end == end //#C13
@endfn
}

// ------------------------------------------------------------------ clocks
pub mod clock {
use vstd::prelude::*;
broadcast use super::base::bit_values;
use super::float::*;
use super::base::*;
use super::io_model::*;
use super::nom::{*, self};
use super::nom::bits_complete::{tag, take};
@type src/vobsub/mpeg2/clock.rs Clock derive=Copy,Clone
// C10: a 33-bit time stamp with its three marker bits, from bit k on
pub open spec fn stamp_ok(s: Seq<u8>, k: int) -> bool {
    k + 36 <= 8 * s.len() && bits(s, k + 3, 1) == 1 && bits(s, k + 19, 1) == 1 && bits(s, k + 35, 1) == 1
}
pub open spec fn stamp(s: Seq<u8>, k: int) -> int {
    bits(s, k, 3) * 0x4000_0000 + bits(s, k + 4, 15) * 0x8000 + bits(s, k + 20, 15)
}
pub proof fn stamp_skip(s: Seq<u8>, a: int, k: int)
    requires 0 <= a, 0 <= k, 8 * a + k + 36 <= 8 * s.len(),
    ensures stamp(s.skip(a), k) == stamp(s, 8 * a + k), stamp_ok(s.skip(a), k) == stamp_ok(s, 8 * a + k)
{ broadcast use bits_skip; }
pub broadcast proof fn stamp_adv<'a>(i: (&'a [u8], usize), n: int, m: (&'a [u8], usize))
    requires #[trigger] adv(i, n, m), i.1 < 8,
    ensures #[trigger] stamp_ok(m.0@, m.1 as int) == stamp_ok(i.0@, i.1 + n), stamp_ok(m.0@, m.1 as int) ==> stamp(m.0@, m.1 as int) == stamp(i.0@, i.1 + n)
{
    reveal(adv);
    if i.1 + n >= 8 && m.1 + 36 <= 8 * m.0@.len() { stamp_skip(i.0@, (i.1 + n) / 8, (i.1 + n) % 8); }
}
// shifts are products, and an `or` of numbers without a common bit is a sum
pub broadcast proof fn shl15(x: u64) requires x < 0x2_0000_0000, ensures #[trigger] (x << 15) == x * 0x8000
{ assert(x << 15 == x * 0x8000) by(bit_vector) requires x < 0x2_0000_0000; }
pub broadcast proof fn shl30(x: u64) requires x < 0x2_0000_0000, ensures #[trigger] (x << 30) == x * 0x4000_0000
{ assert(x << 30 == x * 0x4000_0000) by(bit_vector) requires x < 0x2_0000_0000; }
pub broadcast proof fn or_sum(a: u64, b: u64)
    requires (a % 0x8000 == 0 && b < 0x8000) || (a % 0x4000_0000 == 0 && b < 0x4000_0000) || (b % 0x8000 == 0 && a < 0x8000) || (b % 0x4000_0000 == 0 && a < 0x4000_0000),
    ensures #[trigger] (a | b) == a + b
{
    if a % 0x8000 == 0 && b < 0x8000 { assert(a | b == a + b) by(bit_vector) requires a % 0x8000 == 0, b < 0x8000; }
    else if a % 0x4000_0000 == 0 && b < 0x4000_0000 { assert(a | b == a + b) by(bit_vector) requires a % 0x4000_0000 == 0, b < 0x4000_0000; }
    else if b % 0x8000 == 0 && a < 0x8000 { assert(a | b == a + b) by(bit_vector) requires b % 0x8000 == 0, a < 0x8000; }
    else { assert(a | b == a + b) by(bit_vector) requires b % 0x4000_0000 == 0, a < 0x4000_0000; }
}
pub broadcast group three { shl15, shl30, or_sum }
@fn src/vobsub/mpeg2/clock.rs Clock::base : C10
@ret r
@spec
    requires stc < 0x2_0000_0000,
    ensures r.value == 512 * stc //#C10
@start
    assert(stc << 9 == 512 * stc) by(bit_vector) requires stc < 0x2_0000_0000u64;
@endfn
@fn src/vobsub/mpeg2/clock.rs Clock::with_ext : C09
@endfn
@fn src/vobsub/mpeg2/clock.rs Clock::as_seconds : C10
@ret r
@spec
    requires self.value % 512 == 0, self.value < 512 * 0x2_0000_0000,
    ensures near(r, self.value as int / 512, 1) //#C10
@start
    broadcast use floats;
    proof {
        f_lits(); reveal(near);
        let v = self.value;
        assert(v >> 9 == v / 512 && v & 0x1f == 0) by(bit_vector) requires v % 512 == 0u64;
    }
@endfn
@fn src/vobsub/mpeg2/clock.rs clock : C10
@ret r
@spec
    requires i.ok(),
    ensures match r {
        Ok((m, c)) => stamp_ok(i.0@, i.1 as int) && adv(i, 36, m) && c.value == 512 * stamp(i.0@, i.1 as int), //#C10
        Err(e) => e is Error && !stamp_ok(i.0@, i.1 as int), //#C10
    }
@start
    broadcast use bitpos, three;
    reveal(at);
    proof {
        bits_bound(i.0@, i.1 as int, 3); bits_bound(i.0@, i.1 + 4, 15); bits_bound(i.0@, i.1 + 20, 15);
        assert(p2(3) == 8 && p2(15) == 0x8000) by(compute);
    }
@endfn
@fn src/vobsub/mpeg2/clock.rs clock_and_ext : C09
@ret r
@spec
    requires input.ok(),
    ensures match r {
        Ok((m, c)) => stamp_ok(input.0@, input.1 as int) && bits(input.0@, input.1 + 45, 1) == 1 && adv(input, 46, m), //#C09
        Err(e) => e is Error && !(stamp_ok(input.0@, input.1 as int) && input.1 + 46 <= 8 * input.0@.len() && bits(input.0@, input.1 + 45, 1) == 1), //#C09
    }
@start
    broadcast use bitpos, stamp_adv;
    reveal(at);
@endfn
}

// ------------------------------------------------------------------ elementary stream packets
pub mod pes {
use vstd::prelude::*;
use super::base::*;
use super::io_model::*;
use super::nom::{*, self, Parser as _, bits_p as bits, tag_p as tag_bytes};
use super::nom::bits_complete::{tag as tag_bits, take};
use super::clock::{Clock, clock, stamp, stamp_ok, stamp_skip, stamp_adv};
use super::nom::bits as bitv;
@type src/vobsub/mpeg2/pes.rs PtsDtsFlags derive=Copy,Clone
@type src/vobsub/mpeg2/pes.rs PtsDts
@type src/vobsub/mpeg2/pes.rs HeaderDataFlags
@type src/vobsub/mpeg2/pes.rs HeaderData
@type src/vobsub/mpeg2/pes.rs Header
@type src/vobsub/mpeg2/pes.rs Packet

// C10: the announced time stamps
pub open spec fn flags_of(n: int) -> Option<PtsDtsFlags> {
    if n == 0 { Some(PtsDtsFlags::None) } else if n == 2 { Some(PtsDtsFlags::Pts) } else if n == 3 { Some(PtsDtsFlags::PtsDts) } else { None }
}
pub open spec fn prefixed(s: Seq<u8>, k: int) -> bool { k + 40 <= 8 * s.len() && bitv(s, k, 4) == 2 && stamp_ok(s, k + 4) }
pub open spec fn times_ok(s: Seq<u8>, f: PtsDtsFlags) -> bool {
    match f { PtsDtsFlags::None => true, PtsDtsFlags::Pts => prefixed(s, 0), PtsDtsFlags::PtsDts => prefixed(s, 0) && prefixed(s, 40) }
}
// the presentation time stamp as stored (shifted by 9 bits)
pub open spec fn time_of(s: Seq<u8>, f: PtsDtsFlags) -> Option<int> {
    if f is None { None } else { Some(512 * stamp(s, 4)) }
}
pub open spec fn pts_view(p: Option<PtsDts>) -> Option<int> { match p { None => None, Some(p) => Some(p.pts.value as int) } }

// C09: the content of a packet
pub struct Pk { pub ssid: u8, pub pts: Option<int>, pub data: Seq<u8> }
pub enum PRes { Pk(Pk, int), Bad, Short }
pub open spec fn pk_view(p: Packet) -> Pk { Pk { ssid: p.substream_id, pts: pts_view(p.header_data.pts_dts), data: p.data@ } }
pub open spec fn hdata(b: Seq<u8>) -> Option<Option<int>> {
    if b.len() < 2 { None } else {
        match flags_of(bitv(b, 0, 2)) {
            None => None,
            Some(f) => if b.len() < 2 + b[1] || !times_ok(b.subrange(2, 2 + b[1]), f) { None } else { Some(time_of(b.subrange(2, 2 + b[1]), f)) },
        }
    }
}
pub open spec fn body(b: Seq<u8>) -> Option<Pk> {
    if b.len() < 3 || bitv(b, 0, 2) != 2 { None } else {
        match flags_of(bitv(b, 8, 2)) {
            None => None,
            Some(f) => if b.len() < 4 + b[2] || !times_ok(b.subrange(3, 3 + b[2]), f) { None } else {
                Some(Pk { ssid: b[3 + b[2]], pts: time_of(b.subrange(3, 3 + b[2]), f), data: b.skip(4 + b[2]) })
            },
        }
    }
}
pub open spec fn pes(s: Seq<u8>) -> PRes {
    if !starts(s, seq![0u8, 0, 1, 0xbd]) || s.len() < 6 { PRes::Bad }
    else if s.len() < 6 + be16(s, 4) { PRes::Short }
    else { match body(s.subrange(6, 6 + be16(s, 4))) { None => PRes::Bad, Some(p) => PRes::Pk(p, 6 + be16(s, 4)) } }
}

@fn src/vobsub/mpeg2/pes.rs pts_dts_flags : C10
@ret r
@spec
    requires input.ok(),
    ensures match r {
        Ok((m, f)) => flags_of(bitv(input.0@, input.1 as int, 2)) == Some(f) && adv(input, 2, m) && input.1 + 2 <= 8 * input.0@.len(), //#C10
        Err(e) => e is Error && (input.1 + 2 > 8 * input.0@.len() || flags_of(bitv(input.0@, input.1 as int, 2)) is None), //#C10
    }
@start
    broadcast use bitpos, stamp_adv;
    reveal(at);
@endfn
@fn src/vobsub/mpeg2/pes.rs pts_only : C10
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, p)) => times_ok(input@, PtsDtsFlags::Pts) && pts_view(Some(p)) == time_of(input@, PtsDtsFlags::Pts), //#C10
        Err(e) => e is Error && !times_ok(input@, PtsDtsFlags::Pts), //#C10
    }
@closure 0 ((&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), PtsDts>)
    requires input.ok(),
    ensures match r {
        Ok((m, p)) => m.ok() && (input.1 == 0 ==> times_ok(input.0@, PtsDtsFlags::Pts) && pts_view(Some(p)) == time_of(input.0@, PtsDtsFlags::Pts)),
        Err(e) => e is Error && (input.1 == 0 ==> !times_ok(input.0@, PtsDtsFlags::Pts)),
    }
---
    broadcast use bitpos, stamp_adv;
    reveal(at);
@endfn
@fn src/vobsub/mpeg2/pes.rs pts_and_dts : C10
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, p)) => times_ok(input@, PtsDtsFlags::PtsDts) && pts_view(Some(p)) == time_of(input@, PtsDtsFlags::PtsDts), //#C10
        Err(e) => e is Error && !times_ok(input@, PtsDtsFlags::PtsDts), //#C10
    }
@closure 0 ((&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), PtsDts>)
    requires input.ok(),
    ensures match r {
        Ok((m, p)) => m.ok() && (input.1 == 0 ==> times_ok(input.0@, PtsDtsFlags::PtsDts) && pts_view(Some(p)) == time_of(input.0@, PtsDtsFlags::PtsDts)),
        Err(e) => e is Error && (input.1 == 0 ==> !times_ok(input.0@, PtsDtsFlags::PtsDts)),
    }
---
    broadcast use bitpos, stamp_adv;
    reveal(at);
@endfn
@fn src/vobsub/mpeg2/pes.rs pts_dts : C10
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, p)) => times_ok(i@, flags) && pts_view(p) == time_of(i@, flags), //#C10
        Err(e) => e is Error && !times_ok(i@, flags), //#C10
    }
@closure 0 ((&'a [u8], PtsDts)) -> (r: (&'a [u8], Option<PtsDts>))
    ensures r.1 == Some($0.1)
@closure 1 ((&'a [u8], PtsDts)) -> (r: (&'a [u8], Option<PtsDts>))
    ensures r.1 == Some($0.1)
@endfn
@fn src/vobsub/mpeg2/pes.rs bool_flag : C09
@opt lt=a
@ret r
@spec
    requires input.ok(),
    ensures match r {
        Ok((m, b)) => adv(input, 1, m) && input.1 + 1 <= 8 * input.0@.len(),
        Err(e) => e is Error && input.1 + 1 > 8 * input.0@.len(), //#C09
    }
@closure 0 ((&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), u8>)
    requires input.ok(),
    ensures take_sp(1, input, r)
@closure 1 (u8) -> (r: bool)
    ensures true
@start
    broadcast use bitpos;
@endfn
@fn src/vobsub/mpeg2/pes.rs header_data_flags : C09 C10
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, f)) => input@.len() >= 1 && flags_of(bitv(input@, 0, 2)) == Some(f.pts_dts_flags) && m@ == input@.skip(1), //#C09 C10
        Err(e) => e is Error && (input@.len() < 1 || flags_of(bitv(input@, 0, 2)) is None), //#C09 C10
    }
@closure 0 ((&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), HeaderDataFlags>)
    requires input.ok(),
    ensures match r {
        Ok((m, f)) => m.ok() && (input.1 == 0 ==> input.0@.len() >= 1 && flags_of(bitv(input.0@, 0, 2)) == Some(f.pts_dts_flags) && adv(input, 8, m)),
        Err(e) => e is Error && (input.1 == 0 ==> input.0@.len() < 1 || flags_of(bitv(input.0@, 0, 2)) is None),
    }
---
    broadcast use bitpos, stamp_adv;
    reveal(at);
@start
    reveal(adv);
@endfn
@fn src/vobsub/mpeg2/pes.rs header_data : C09 C10
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, h)) => hdata(input@) == Some(pts_view(h.pts_dts)) && m@ == input@.skip(2 + input@[1]), //#C09 C10
        Err(e) => !(e is Failure) && hdata(input@) is None, //#C09 C10
    }
@closure 0 (&'a [u8]) -> (r: IResult<&'a [u8], Option<PtsDts>>)
    ensures match r {
        Ok((m, p)) => times_ok(input@, flags.pts_dts_flags) && pts_view(p) == time_of(input@, flags.pts_dts_flags),
        Err(e) => e is Error && !times_ok(input@, flags.pts_dts_flags),
    }
@start
    broadcast use skip_skip;
    let ghost gi = input@;
    assert(gi.len() >= 2 + gi[1] && gi.len() >= 2 ==> gi.skip(1).skip(1).take(gi[1] as int) =~= gi.subrange(2, 2 + gi[1]));
@endfn
@fn src/vobsub/mpeg2/pes.rs header : C09
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, h)) => input@.len() >= 1 && bitv(input@, 0, 2) == 2 && m@ == input@.skip(1), //#C09
        Err(e) => e is Error && (input@.len() < 1 || bitv(input@, 0, 2) != 2), //#C09
    }
@closure 0 ((&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), Header>)
    requires input.ok(),
    ensures match r {
        Ok((m, f)) => m.ok() && (input.1 == 0 ==> input.0@.len() >= 1 && bitv(input.0@, 0, 2) == 2 && adv(input, 8, m)),
        Err(e) => e is Error && (input.1 == 0 ==> input.0@.len() < 1 || bitv(input.0@, 0, 2) != 2),
    }
---
    broadcast use bitpos, stamp_adv;
    reveal(at);
@start
    reveal(adv);
@endfn
@fn src/vobsub/mpeg2/pes.rs packet_helper : C09 C10
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, p)) => body(input@) == Some(pk_view(p)), //#C09 C10
        Err(e) => !(e is Failure) && body(input@) is None, //#C09 C10
    }
@start
    broadcast use bits_skip, skip_skip;
    assert(input@.len() >= 3 + input@[2] && input@.len() >= 3 ==> input@.skip(1).subrange(2, 2 + input@[2]) =~= input@.subrange(3, 3 + input@[2]));
@endfn
@fn src/vobsub/mpeg2/pes.rs packet : C09 C10
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, p)) => pes(input@) == PRes::Pk(pk_view(p), input@.len() - m@.len()) && m@ == input@.skip(input@.len() - m@.len()), //#C09 C10
        Err(e) => !(e is Failure) && (if e is Incomplete { pes(input@) is Short } else { pes(input@) is Bad }), //#C09 C10
    }
@start
    broadcast use skip_skip;
    let ghost s = input@;
    assert(s.len() >= 6 ==> be16(s.skip(4), 0) == be16(s, 4));
    assert(s.len() >= 6 && s.len() >= 6 + be16(s, 4) ==> s.skip(6).take(be16(s, 4)) =~= s.subrange(6, 6 + be16(s, 4)));
@before tag_bytes 0
    assert(PACKET_TAG@ =~= seq![0u8, 0, 1, 0xbd]);
@endfn
}

// ------------------------------------------------------------------ program stream
pub mod ps {
use vstd::prelude::*;
use super::base::*;
use super::io_model::*;
use super::nom::{*, self, Parser as _, bits_p as bits, tag_p as tag_bytes};
use super::nom::bits_complete::{tag as tag_bits, take as take_bits};
use super::nom::bits as bitv;
use super::clock::{Clock, clock_and_ext, stamp, stamp_ok, stamp_skip, stamp_adv};
use super::pes::{self, Pk, PRes, pk_view};
use super::vobsub::{NomError, VobSubError};
@type src/vobsub/mpeg2/ps.rs Header
@type src/vobsub/mpeg2/ps.rs PesPacket
@type src/vobsub/mpeg2/ps.rs PesPackets
// what is left after the pack header's fields (from after the start code)
pub open spec fn hdr10(s: Seq<u8>) -> Option<int> {
    if s.len() >= 10 && bitv(s, 0, 2) == 1 && stamp_ok(s, 2) && bitv(s, 47, 1) == 1 && bitv(s, 70, 2) == 3
        && s.len() >= 10 + bitv(s, 77, 3) { Some(s.len() - 10 - bitv(s, 77, 3)) } else { None }
}
// C09: size of a pack header
pub open spec fn pack_hdr(s: Seq<u8>) -> Option<int> {
    if starts(s, seq![0u8, 0, 1, 0xba]) && s.len() >= 14 && bitv(s, 32, 2) == 1 && stamp_ok(s, 34) && bitv(s, 79, 1) == 1
        && bitv(s, 102, 2) == 3 && s.len() >= 14 + bitv(s, 109, 3) { Some(14 + bitv(s, 109, 3)) } else { None }
}
pub proof fn pack_hdr10(s: Seq<u8>)
    ensures
        pack_hdr(s) is Some == (starts(s, seq![0u8, 0, 1, 0xba]) && hdr10(s.skip(4)) is Some),
        hdr10(s.skip(4)) is Some && s.len() >= 4 ==> 0 <= hdr10(s.skip(4))->0 <= s.len() - 14,
        pack_hdr(s) is Some ==> pack_hdr(s)->0 == s.len() - hdr10(s.skip(4))->0
            && s.skip(4).skip(s.len() - 4 - hdr10(s.skip(4))->0) == s.skip(pack_hdr(s)->0),
{
    broadcast use bits_skip;
    if s.len() >= 14 {
        stamp_skip(s, 4, 2);
        bits_bound(s, 109, 3);
        assert(bitv(s.skip(4), 77, 3) == bitv(s, 109, 3));
        if pack_hdr(s) is Some { assert(s.skip(4).skip(s.len() - 4 - hdr10(s.skip(4))->0) =~= s.skip(pack_hdr(s)->0)); }
    }
}
// a pack header followed by a packet of private stream 1
pub open spec fn pack(s: Seq<u8>) -> PRes {
    match pack_hdr(s) {
        None => PRes::Bad,
        Some(n) => match pes::pes(s.skip(n)) { PRes::Pk(p, k) => PRes::Pk(p, n + k), r => r },
    }
}
@fn src/vobsub/mpeg2/ps.rs header : C09
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, h)) => pack_hdr(input@) == Some(input@.len() - m@.len()) && m@ == input@.skip(input@.len() - m@.len()), //#C09
        Err(e) => e is Error && pack_hdr(input@) is None, //#C09
    }
@closure 0 ((&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), Header>)
    requires input.ok(),
    ensures match r {
        Ok((m, h)) => m.ok() && (input.1 == 0 ==> hdr10(input.0@) == Some(m.0@.len() as int) && m.1 == 0 && m.0@ == input.0@.skip(input.0@.len() - m.0@.len())),
        Err(e) => e is Error && (input.1 == 0 ==> hdr10(input.0@) is None),
    }
---
    broadcast use bitpos, stamp_adv;
    reveal(at);
    proof {
        bits_bound(input.0@, input.1 + 77, 3); assert(p2(3) == 8) by(compute);
        if input.1 == 0 { reveal(adv); }
    }
@before tag_bytes 0
    assert(PS_HEADER_TAG@ =~= seq![0u8, 0, 1, 0xba]);
    proof { pack_hdr10(input@); }
@endfn

// the position of the first (last) window that satisfies f: what `windows(n).position(f)` and its kin mean
pub open spec fn says<F: Fn(&[u8]) -> bool>(f: F, t: Seq<u8>, b: bool) -> bool { exists|w: &[u8]| #[trigger] call_ensures(f, (w,), b) && w@ == t }
pub fn vx_window_position<F: Fn(&[u8]) -> bool>(s: &[u8], n: usize, f: F) -> (r: Option<usize>)
    requires n > 0, forall|w: &[u8]| w@.len() == n ==> #[trigger] call_requires(f, (w,)),
    ensures match r {
        None => forall|k: int| 0 <= k <= s@.len() - n ==> says(f, #[trigger] s@.subrange(k, k + n), false),
        Some(i) => i + n <= s@.len() && says(f, s@.subrange(i as int, i + n), true)
            && forall|k: int| 0 <= k < i ==> says(f, #[trigger] s@.subrange(k, k + n), false),
    }
{ let m = s.len(); vx_window_position_within(s, n, m, f) }
pub fn vx_window_position_within<F: Fn(&[u8]) -> bool>(s: &[u8], n: usize, m: usize, f: F) -> (r: Option<usize>)
    requires n > 0, forall|w: &[u8]| w@.len() == n ==> #[trigger] call_requires(f, (w,)),
    ensures match r {
        None => forall|k: int| 0 <= k <= s@.len() - n && k < m ==> says(f, #[trigger] s@.subrange(k, k + n), false),
        Some(i) => i < m && i + n <= s@.len() && says(f, s@.subrange(i as int, i + n), true)
            && forall|k: int| 0 <= k < i ==> says(f, #[trigger] s@.subrange(k, k + n), false),
    }
{
    if n > s.len() { return None; }
    let l = s.len();
    let last = l - n;
    let mut i: usize = 0;
    while i <= last && i < m
        invariant n > 0, l == s@.len(), last == l - n, n <= l, i <= last + 1, i <= m, forall|w: &[u8]| w@.len() == n ==> #[trigger] call_requires(f, (w,)),
            forall|k: int| 0 <= k < i ==> says(f, #[trigger] s@.subrange(k, k + n), false),
        decreases last + 1 - i
    {
        let w = &s[i..i + n];
        let b = f(w);
        assert(says(f, s@.subrange(i as int, i + n), b));
        if b { return Some(i); }
        i = i + 1;
    }
    None
}
pub fn vx_window_rposition<F: Fn(&[u8]) -> bool>(s: &[u8], n: usize, f: F) -> (r: Option<usize>)
    requires n > 0, forall|w: &[u8]| w@.len() == n ==> #[trigger] call_requires(f, (w,)),
    ensures match r {
        None => forall|k: int| 0 <= k <= s@.len() - n ==> says(f, #[trigger] s@.subrange(k, k + n), false),
        Some(i) => i + n <= s@.len() && says(f, s@.subrange(i as int, i + n), true)
            && forall|k: int| i < k <= s@.len() - n ==> says(f, #[trigger] s@.subrange(k, k + n), false),
    }
{
    if n > s.len() { return None; }
    let l = s.len();
    let mut i: usize = l - n + 1;
    while i > 0
        invariant n > 0, l == s@.len(), n <= l, i + n <= l + 1, forall|w: &[u8]| w@.len() == n ==> #[trigger] call_requires(f, (w,)),
            forall|k: int| i <= k <= s@.len() - n ==> says(f, #[trigger] s@.subrange(k, k + n), false),
        decreases i
    {
        i = i - 1;
        let w = &s[i..i + n];
        let b = f(w);
        assert(says(f, s@.subrange(i as int, i + n), b));
        if b { return Some(i); }
    }
    None
}

pub open spec fn start_at(s: Seq<u8>, k: int) -> bool { 0 <= k && k + 4 <= s.len() && s.subrange(k, k + 4) == seq![0u8, 0, 1, 0xba] }
pub open spec fn first_start(s: Seq<u8>, k: int) -> bool { start_at(s, k) && forall|j: int| 0 <= j < k ==> !start_at(s, j) }
// C09: the next packet of a stream, and what follows it
pub enum Next { Pk(Pk, Seq<u8>), Short, End }
pub open spec fn next_pk(s: Seq<u8>) -> Next decreases s.len() {
    if exists|k: int| first_start(s, k) {
        let k = choose|k: int| first_start(s, k);
        match pack(s.skip(k)) {
            PRes::Pk(p, n) => Next::Pk(p, s.skip(k).skip(n)),
            PRes::Short => Next::Short,
            PRes::Bad => next_pk(s.skip(k).skip(4)),
        }
    } else { Next::End }
}
pub proof fn first_start_unique(s: Seq<u8>, a: int, b: int)
    requires first_start(s, a), first_start(s, b), ensures a == b
{ if a < b { assert(!start_at(s, a)); } if b < a { assert(!start_at(s, b)); } }
pub proof fn no_start(s: Seq<u8>)
    requires forall|k: int| 0 <= k <= s.len() - 4 ==> (#[trigger] s.subrange(k, k + 4)) != seq![0u8, 0, 1, 0xba],
    ensures next_pk(s) is End
{
    assert forall|k: int| !first_start(s, k) by { if start_at(s, k) { assert(s.subrange(k, k + 4) != seq![0u8, 0, 1, 0xba]); } }
}
pub proof fn at_start(s: Seq<u8>, k: int)
    requires k + 4 <= s.len(), 0 <= k, s.subrange(k, k + 4) == seq![0u8, 0, 1, 0xba],
        forall|j: int| 0 <= j < k ==> (#[trigger] s.subrange(j, j + 4)) != seq![0u8, 0, 1, 0xba],
    ensures next_pk(s) == (match pack(s.skip(k)) {
        PRes::Pk(p, n) => Next::Pk(p, s.skip(k).skip(n)),
        PRes::Short => Next::Short,
        PRes::Bad => next_pk(s.skip(k).skip(4)),
    })
{
    assert forall|j: int| 0 <= j < k implies !start_at(s, j) by { assert(s.subrange(j, j + 4) != seq![0u8, 0, 1, 0xba]); }
    assert(first_start(s, k));
    first_start_unique(s, k, choose|k: int| first_start(s, k));
}
pub proof fn stamp_bound(s: Seq<u8>, k: int)
    ensures 0 <= stamp(s, k) < 0x2_0000_0000
{
    bits_bound(s, k, 3); bits_bound(s, k + 4, 15); bits_bound(s, k + 20, 15);
    assert(p2(3) == 8 && p2(15) == 0x8000) by(compute);
}
// C09 C16: a packet makes the stream shorter; C10: its time stamp has 33 bits
pub proof fn next_pk_shrinks(s: Seq<u8>)
    ensures next_pk(s) matches Next::Pk(p, r) ==> r.len() < s.len() && (p.pts matches Some(t) ==> t % 512 == 0 && 0 <= t < 512 * 0x2_0000_0000)
    decreases s.len()
{
    if exists|k: int| first_start(s, k) {
        let k = choose|k: int| first_start(s, k);
        match pack(s.skip(k)) {
            PRes::Pk(p, n) => {
                let h = pack_hdr(s.skip(k))->0;
                bits_bound(s.skip(k), 109, 3);
                let b = s.skip(k).skip(h);
                let d = b.subrange(6, 6 + be16(b, 4));
                stamp_bound(d.subrange(3, 3 + d[2]), 4);
            }
            PRes::Short => {}
            PRes::Bad => { next_pk_shrinks(s.skip(k).skip(4)); }
        }
    }
}
@fn src/vobsub/mpeg2/ps.rs pes_packet : C09
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, p)) => pack(input@) == PRes::Pk(pk_view(p.pes_packet), input@.len() - m@.len()) && m@ == input@.skip(input@.len() - m@.len()), //#C09
        Err(e) => !(e is Failure) && (if e is Incomplete { pack(input@) is Short } else { pack(input@) is Bad }), //#C09
    }
@start
    let ghost s = input@;
    proof {
        bits_bound(s, 109, 3);
        assert forall|n: int, k: int| 0 <= n <= s.len() && 0 <= k <= s.len() - n implies #[trigger] s.skip(n).skip(k) == s.skip(n + k) by { assert(s.skip(n).skip(k) =~= s.skip(n + k)); }
    }
@endfn
@fn src/vobsub/mpeg2/ps.rs <Iterator for PesPackets>::next : C09 C16
@opt impl=impl<'a> PesPackets<'a>
@opt rule=__s.windows(__n).position(__f) => vx_window_position(__s, __n, __f)
@opt rule=__s.windows(__n).take(__m).position(__f) => vx_window_position_within(__s, __n, __m, __f)
@opt rule=__s.windows(__n).rposition(__f) => vx_window_rposition(__s, __n, __f)
@ret r
@spec
    ensures match next_pk((*old(self)).remaining@) {
        Next::Pk(p, rest) => r matches Some(Ok(q)) && pk_view(q.pes_packet) == p && (*final(self)).remaining@ == rest, //#C09
        Next::Short => r matches Some(Err(_)) && (*final(self)).remaining@.len() == 0, //#C09
        Next::End => r is None && (*final(self)).remaining@.len() == 0, //#C09
    },
        r is Some ==> (*final(self)).remaining@.len() < (*old(self)).remaining@.len(), //#C16
@start
    proof { next_pk_shrinks((*old(self)).remaining@); }
@loop 0 : loop
    invariant
        next_pk((*old(self)).remaining@) matches Next::Pk(p, q) ==> q.len() < (*old(self)).remaining@.len(),
        next_pk(self.remaining@) == next_pk((*old(self)).remaining@),
        self.remaining@.len() <= (*old(self)).remaining@.len(),
    decreases self.remaining@.len()
@closure 0 (&[u8]) -> (r: bool)
    ensures r == ($0@ == seq![0u8, 0, 1, 0xba])
    ---
    broadcast use bytes_eq;
    assert(needle@ =~= seq![0u8, 0, 1, 0xba]);
@after let start
    let ghost s0 = self.remaining@;
    assert(needle@ =~= seq![0u8, 0, 1, 0xba]);
    proof {
        match start { None => { no_start(s0); } Some(k) => { at_start(s0, k as int); } }
    }
@endfn
@fn src/vobsub/mpeg2/ps.rs pes_packets : C09
@ret r
@spec
    ensures r.remaining@ == input@ //#C09
@endfn
}
@include img.vc assumed
// ------------------------------------------------------------------ what a subtitle becomes
pub mod decoder {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use super::base::*;
use super::float::*;
use super::time::*;
use super::content::*;
use super::img::*;
use super::vobsub::VobSubError;
@const src/vobsub/decoder.rs DEFAULT_SUBTITLE_LENGTH
// x is (about) n ticks after zero
pub open spec fn tick(x: f64, n: int) -> bool { near(x, n, 5) && 0 <= n < 0x3_0000_0000 }
// C13: the end of a subtitle from start to end
pub open spec fn until(start: int, end: Option<int>) -> int { match end { Some(e) => e, None => start + 450000 } }
pub trait VobSubDecoder<'a> {
    type Output;
    spec fn made(start: int, end: Option<int>, image: VobSubRleImage<'a>, r: Result<Self::Output, VobSubError>) -> bool;
    fn from_data(start_time: f64, end_time: Option<f64>, force: bool, image: VobSubRleImage<'a>) -> (r: Result<Self::Output, VobSubError>)
        requires exists|n: int| tick(start_time, n), end_time matches Some(e) ==> exists|n: int| tick(e, n), valid(image.area.0),
        ensures forall|n: int| #[trigger] tick(start_time, n) && end_time is None ==> Self::made(n, None, image, r),
            forall|n: int, m: int| #[trigger] tick(start_time, n) && end_time is Some && #[trigger] tick(end_time->0, m) ==> Self::made(n, Some(m), image, r);
}
pub broadcast proof fn later(x: f64, n: int, f: f64, y: f64)
    requires #[trigger] tick(x, n), #[trigger] add_ensures(x, f, y), fin(f), rv(f) == 5real,
    ensures near(y, n + 450000, 10)
{ broadcast use floats; reveal(near); }
pub broadcast proof fn tick_near(x: f64, n: int)
    requires #[trigger] tick(x, n),
    ensures near(x, n, 10)
{ reveal(near); }
@fn src/vobsub/decoder.rs <VobSubDecoder for (TimeSpan, VobSubIndexedImage)>::from_data : C13
@opt traitimpl
@opt implextra=open spec fn made(start: int, end: Option<int>, image: VobSubRleImage<'a>, r: Result<(TimeSpan, VobSubIndexedImage), VobSubError>) -> bool {
@opt implextra=    match pixels(image) {
@opt implextra=        None => r is Err,
@opt implextra=        Some(p) => r matches Ok(x) && on_time(x.0.start.0 as int, start) && on_time(x.0.end.0 as int, until(start, end))
@opt implextra=            && x.1.raw_image@ == p && x.1.area == image.area && x.1.palette == image.palette && x.1.alpha == image.alpha,
@opt implextra=    }
@opt implextra=}
@ret r
@start
    broadcast use floats, later, tick_near;
    proof { f_lits(); }
@endfn
@fn src/vobsub/decoder.rs <VobSubDecoder for TimeSpan>::from_data : C13
@opt traitimpl
@opt implextra=open spec fn made(start: int, end: Option<int>, image: VobSubRleImage<'a>, r: Result<TimeSpan, VobSubError>) -> bool {
@opt implextra=    r matches Ok(x) && on_time(x.start.0 as int, start) && on_time(x.end.0 as int, until(start, end))
@opt implextra=}
@ret r
@start
    broadcast use floats, later, tick_near;
    proof { f_lits(); }
@endfn
}

// ------------------------------------------------------------------ subtitles
pub mod sub {
use vstd::prelude::*;
broadcast use super::base::bit_values;
use std::io;
use super::files::*;
use vstd::std_specs::ops::*;
use super::base::*;
use super::io_model::*;
use super::float::*;
use super::nom::{*, self, Parser as _, bits_p as bits, tag_p as tag_bytes};
use super::nom::bits_complete::{take as take_bits};
use super::nom::bits as bitv;
use super::vobsub::{NomError, VobSubError, ErrorMissing};
use super::ps::{self, PesPacket, PesPackets, Next, next_pk, next_pk_shrinks};
use super::pes::{pk_view, Pk, Packet, PtsDts, HeaderData, Header};
use super::clock::Clock;
use super::time::*;
use super::content::*;
use std::marker::PhantomData;
use core::slice::from_ref;
use std::cmp::Ordering;
use super::std_model::*;
use super::iter_fixed::*;
use super::to_result::*;
use super::img::{VobSubRleImage, VobSubRleImageData, VobSubIndexedImage, fields, pixels, decoded, rows_size};
use std::fmt::Debug;
use super::decoder::*;
@type src/vobsub/sub.rs VobsubParser
@type src/vobsub/sub.rs ControlCommand
@type src/vobsub/sub.rs ControlCommandTag derive=Copy,Clone
@type src/vobsub/sub.rs ControlSequence
// C11: the data of the next subtitle, its time stamp, and what follows
pub enum NextSub { End, Bad(Seq<u8>), Data(int, Seq<u8>, Seq<u8>) }
pub open spec fn next_sub(s: Seq<u8>) -> NextSub {
    match next_pk(s) {
        Next::End => NextSub::End,
        Next::Short => NextSub::Bad(seq![]),
        Next::Pk(p, r) => match p.pts {
            None => NextSub::Bad(r),
            Some(t) => if p.data.len() < 2 { NextSub::Bad(r) } else { collect(p.data, be16(p.data, 0), p.ssid, t / 512, r) },
        },
    }
}
pub open spec fn collect(acc: Seq<u8>, size: int, ssid: u8, t: int, s: Seq<u8>) -> NextSub decreases s.len() {
    if acc.len() >= size { NextSub::Data(t, acc.take(size), s) }
    else {
        match next_pk(s) {
            Next::End => NextSub::End,
            Next::Short => NextSub::Bad(seq![]),
            Next::Pk(p, r) => if r.len() >= s.len() { NextSub::End } else if p.ssid != ssid { collect(acc, size, ssid, t, r) } else { collect(acc + p.data, size, ssid, t, r) },
        }
    }
}
pub broadcast proof fn two_bytes(a: usize, b: usize)
    requires a < 256, b < 256,
    ensures #[trigger] ((a << 8) | b) == a * 256 + b
{ assert(((a << 8) | b) == a * 256 + b) by(bit_vector) requires a < 256, b < 256; }
@fn src/vobsub/sub.rs VobsubParser::new : C09 C11
@ret r
@spec
    ensures r.pes_packets.remaining@ == input@ //#C09 C11
@endfn
@fn src/vobsub/sub.rs VobsubParser::next_sub_packet : C11 C16
@ret r
@spec
    ensures match next_sub((*old(self)).pes_packets.remaining@) {
        NextSub::End => r is None && (*final(self)).pes_packets.remaining@.len() == 0, //#C11 C16
        NextSub::Bad(rest) => r matches Some(Err(_)) && (*final(self)).pes_packets.remaining@ =~= rest, //#C11
        NextSub::Data(t, d, rest) => r matches Some(Ok(x)) && near(x.0, t, 1) && x.1@ == d && 0 <= t < 0x2_0000_0000 && (*final(self)).pes_packets.remaining@ == rest, //#C11
    },
        r is Some ==> (*final(self)).pes_packets.remaining@.len() < (*old(self)).pes_packets.remaining@.len(), //#C16
@start
    broadcast use two_bytes;
    let ghost s0 = (*old(self)).pes_packets.remaining@;
    proof { next_pk_shrinks(s0); }
@before let wanted
    let ghost d0 = first.pes_packet.data@;
    let ghost t0 = next_pk(s0)->Pk_0.pts->0 / 512;
    proof { assert(d0.len() >= 2 ==> next_sub(s0) == collect(d0, be16(d0, 0), substream_id, t0, self.pes_packets.remaining@)); }
@beforeloop 0
    assert(sub_packet@ =~= d0);
@loop 0 : while sub_packet.len() < wanted
    invariant
        self.pes_packets.remaining@.len() < s0.len(), s0 == (*old(self)).pes_packets.remaining@, wanted < 65536,
        next_sub(s0) == collect(sub_packet@, wanted as int, substream_id, t0, self.pes_packets.remaining@),
        near(base_time, t0, 1), 0 <= t0 < 0x2_0000_0000,
    decreases self.pes_packets.remaining@.len()
@loopstart 0
    let ghost acc = sub_packet@;
    proof { next_pk_shrinks(self.pes_packets.remaining@); }
@loopend 0
    proof { if next.pes_packet.substream_id == substream_id { assert(sub_packet@ =~= acc + next.pes_packet.data@); } }
@endfn

// ---- C12: control sequences
pub enum Cmd { Force, Start, Stop, Palette(Seq<int>), Alpha(Seq<int>), Coords(AreaValues), Offs(int, int), Unsupported(Seq<u8>) }
pub open spec fn nibbles(s: Seq<u8>, k: int) -> Seq<int> { seq![bitv(s, k, 4), bitv(s, k + 4, 4), bitv(s, k + 8, 4), bitv(s, k + 12, 4)] }
pub open spec fn coords(s: Seq<u8>, k: int) -> AreaValues {
    AreaValues { x1: bitv(s, k, 12) as u16, x2: bitv(s, k + 12, 12) as u16, y1: bitv(s, k + 24, 12) as u16, y2: bitv(s, k + 36, 12) as u16 }
}
pub open spec fn tagged(s: Seq<u8>, t: u8, n: int) -> bool { s.len() >= n && s.len() >= 1 && s[0] == t }
pub open spec fn end_at(s: Seq<u8>, k: int) -> bool { 0 <= k < s.len() && s[k] == 0xff && forall|j: int| 0 <= j < k ==> s[j] != 0xff }
// the command at the start of s, and its size
pub open spec fn cmd(s: Seq<u8>) -> Option<(Cmd, int)> {
    if tagged(s, 0, 1) { Some((Cmd::Force, 1)) }
    else if tagged(s, 1, 1) { Some((Cmd::Start, 1)) }
    else if tagged(s, 2, 1) { Some((Cmd::Stop, 1)) }
    else if tagged(s, 3, 3) { Some((Cmd::Palette(nibbles(s, 8)), 3)) }
    else if tagged(s, 4, 3) { Some((Cmd::Alpha(nibbles(s, 8)), 3)) }
    else if tagged(s, 5, 7) { Some((Cmd::Coords(coords(s, 8)), 7)) }
    else if tagged(s, 6, 5) { Some((Cmd::Offs(bitv(s, 8, 16), bitv(s, 24, 16)), 5)) }
    else if exists|k: int| end_at(s, k) { let k = choose|k: int| end_at(s, k); Some((Cmd::Unsupported(s.take(k)), k)) }
    else { None }
}
pub open spec fn cmds(s: Seq<u8>) -> Option<Seq<Cmd>> decreases s.len() {
    if tagged(s, 0xff, 1) { Some(seq![]) } else {
        match cmd(s) {
            None => None,
            Some((c, n)) => if n <= 0 || n > s.len() { None } else {
                match cmds(s.skip(n)) { None => None, Some(v) => Some(seq![c] + v) }
            },
        }
    }
}
// date, offset of the next sequence, commands
pub open spec fn sequence(s: Seq<u8>) -> Option<(int, int, Seq<Cmd>)> {
    if s.len() < 4 { None } else { match cmds(s.skip(4)) { None => None, Some(v) => Some((be16(s, 0), be16(s, 2), v)) } }
}
pub open spec fn ints(a: Seq<u8>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i] as int) }
pub open spec fn cv(c: ControlCommand) -> Cmd {
    match c {
        ControlCommand::Force => Cmd::Force, ControlCommand::StartDate => Cmd::Start, ControlCommand::StopDate => Cmd::Stop,
        ControlCommand::Palette(p) => Cmd::Palette(ints(p@)), ControlCommand::Alpha(p) => Cmd::Alpha(ints(p@)),
        ControlCommand::Coordinates(a) => Cmd::Coords(a), ControlCommand::RleOffsets(o) => Cmd::Offs(o[0] as int, o[1] as int),
        ControlCommand::Unsupported(b) => Cmd::Unsupported(b@),
    }
}
pub open spec fn cvs(v: Seq<ControlCommand>) -> Seq<Cmd> { Seq::new(v.len(), |i: int| cv(v[i])) }
// a repetition of numbers of n bits
pub broadcast proof fn rep_bits<'a, O: VxBits>(p: BitTake<&'a [u8], O, error::Error<(&'a [u8], usize)>>, i: (&'a [u8], usize), v: Seq<O>, m: (&'a [u8], usize))
    requires #[trigger] rep(p, i, v, m), i.1 < 8,
    ensures v.len() == 0 ==> m == i, v.len() > 0 ==> adv(i, p.n * v.len(), m), forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).val() == bitv(i.0@, i.1 + p.n * k, p.n as int)
    decreases v.len()
{
    broadcast use bitpos;
    reveal(at);
    if v.len() > 0 {
        let j = choose|j: (&'a [u8], usize)| #[trigger] p.sp(i, Ok((j, v[0]))) && rep(p, j, v.skip(1), m);
        rep_bits(p, j, v.skip(1), m);
        let n = p.n as int;
        assert(n + n * (v.len() - 1) == n * v.len()) by(nonlinear_arith);
        if v.len() == 1 { assert(n * v.len() == n) by(nonlinear_arith) requires v.len() == 1; }
        assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).val() == bitv(i.0@, i.1 + p.n * k, p.n as int) by {
            if k > 0 {
                assert(v[k] == v.skip(1)[k - 1]);
                assert(n + n * (k - 1) == n * k) by(nonlinear_arith);
                assert(n * (k - 1) + n <= n * (v.len() - 1)) by(nonlinear_arith) requires k <= v.len() - 1, n >= 0;
                assert(n * (k - 1) >= 0) by(nonlinear_arith) requires k >= 1, n >= 0;
                assert(at(j.0@, j.1 as int, n * (k - 1), n) == at(i.0@, i.1 as int, n + n * (k - 1), n));
            } else { assert(n * 0 == 0); }
        }
    }
}
@fn src/vobsub/sub.rs palette_entries : C12 C16
@opt rule=<[u8; 4] as AsMut<_>>::as_mut(&mut __a).clone_from_slice(__b) => __a.clone_from_slice(__b)
@ret r
@spec
    ensures match r {
        Ok((m, p)) => input@.len() >= 2 && ints(p@) =~= nibbles(input@, 0) && m@ == input@.skip(2), //#C12
        Err(e) => e is Error && input@.len() < 2, //#C12
    }
@start
    broadcast use bitpos, rep_bits;
    reveal(adv);
@endfn
@fn src/vobsub/sub.rs coordinate : C12
@ret r
@spec
    requires input.ok(),
    ensures take_sp(12, input, r) //#C12
@endfn
@fn src/vobsub/sub.rs area : C12
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, a)) => input@.len() >= 6 && a == coords(input@, 0) && m@ == input@.skip(6), //#C12
        Err(e) => e is Error && input@.len() < 6, //#C12
    }
@closure 0 ((&'a [u8], usize)) -> (r: IResult<(&'a [u8], usize), AreaValues>)
    requires input.ok(),
    ensures match r {
        Ok((m, a)) => m.ok() && adv(input, 48, m) && (input.1 == 0 ==> a == coords(input.0@, 0)),
        Err(e) => e is Error && input.1 + 48 > 8 * input.0@.len(),
    }
---
    broadcast use bitpos;
    reveal(at);
@start
    reveal(adv);
@endfn
@fn src/vobsub/sub.rs rle_offsets : C12 C16
@ret r
@spec
    ensures match r {
        Ok((m, p)) => input@.len() >= 4 && p[0] == bitv(input@, 0, 16) && p[1] == bitv(input@, 16, 16) && m@ == input@.skip(4), //#C12
        Err(e) => e is Error && input@.len() < 4, //#C12
    }
@start
    broadcast use bitpos, rep_bits, bytes_of_bits;
    reveal(adv);
@endfn

@fn src/vobsub/sub.rs ControlCommandTag::as_static_ref : C12
@ret r
@spec
    ensures *r == tag_of(*self) //#C12
@endfn
@fn src/vobsub/sub.rs ControlCommandTag::as_slice : C12
@ret r
@spec
    ensures r@ == seq![tag_of(*self)] //#C12
@endfn
pub open spec fn tag_of(t: ControlCommandTag) -> u8 {
    match t {
        ControlCommandTag::Force => 0, ControlCommandTag::StartDate => 1, ControlCommandTag::StopDate => 2, ControlCommandTag::Palette => 3,
        ControlCommandTag::Alpha => 4, ControlCommandTag::Coordinates => 5, ControlCommandTag::RleOffsets => 6, ControlCommandTag::End => 0xff,
    }
}
pub broadcast proof fn starts_one(s: Seq<u8>, t: u8)
    ensures #[trigger] starts(s, seq![t]) == tagged(s, t, 1)
{ if s.len() >= 1 { assert(s.take(1) =~= seq![s[0]]); assert(seq![t][0] == t); } }
pub proof fn end_unique(s: Seq<u8>, a: int, b: int)
    requires end_at(s, a), end_at(s, b), ensures a == b
{}
// how far unsupported data goes
pub proof fn until_end(s: Seq<u8>)
    ensures forall|k: int| 0 <= k < s.len() ==> starts(s.skip(k), seq![0xffu8]) == (#[trigger] s[k] == 0xff),
        forall|k: int| #[trigger] end_at(s, k) ==> (exists|k: int| end_at(s, k)) && k == choose|k: int| end_at(s, k),
        forall|k: int| #![trigger s.take(k)] 0 <= k < s.len() && s[k] == 0xff && (forall|j: int| 0 <= j < k ==> s[j] != 0xff) ==> end_at(s, k),
{
    assert forall|k: int| 0 <= k < s.len() implies starts(s.skip(k), seq![0xffu8]) == (#[trigger] s[k] == 0xff) by { starts_one(s.skip(k), 0xff); }
    assert forall|k: int| #[trigger] end_at(s, k) implies k == choose|k: int| end_at(s, k) by { end_unique(s, k, choose|k: int| end_at(s, k)); }
}
pub open spec fn is_cmd(s: Seq<u8>, r: IResult<&[u8], ControlCommand>) -> bool {
    match r {
        Ok((m, c)) => cmd(s) matches Some((d, n)) && d == cv(c) && 0 <= n <= s.len() && m@ == s.skip(n) && (n == 0 ==> tagged(s, 0xff, 1)),
        Err(e) => e is Error && cmd(s) is None,
    }
}
@eta ControlCommand::Palette ([u8; 4]) -> ControlCommand
@eta ControlCommand::Alpha ([u8; 4]) -> ControlCommand
@eta ControlCommand::Coordinates (AreaValues) -> ControlCommand
@eta ControlCommand::RleOffsets ([u16; 2]) -> ControlCommand
@eta ControlCommand::Unsupported (&'a [u8]) -> ControlCommand<'a>
@fn src/vobsub/sub.rs control_command : C12
@opt lt=a
@ret r
@spec
    ensures is_cmd(input@, r) //#C12
@start
    broadcast use starts_one, bits_skip, skip_skip;
    proof { until_end(input@); }
@endfn
@fn src/vobsub/sub.rs control_command_end : C12
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, _)) => tagged(input@, 0xff, 1) && m@ == input@.skip(1), //#C12
        Err(e) => e is Error && !tagged(input@, 0xff, 1), //#C12
    }
@start
    broadcast use starts_one;
@endfn

pub open spec fn cmd_parser<'a, P: Parser<&'a [u8], Output = ControlCommand<'a>>>(p: P) -> bool {
    forall|i: &'a [u8], r: IResult<&'a [u8], ControlCommand<'a>>| #[trigger] p.sp(i, r) ==> is_cmd(i@, r)
}
pub open spec fn end_parser<'a, Q: Parser<&'a [u8], Output = &'a [u8]>>(q: Q) -> bool {
    forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] q.sp(i, r) ==> (match r { Ok((m, _)) => tagged(i@, 0xff, 1), Err(e) => e is Error && !tagged(i@, 0xff, 1) })
}
// commands followed by more of them
pub broadcast proof fn run_cmds<'a, P: Parser<&'a [u8], Output = ControlCommand<'a>>, Q: Parser<&'a [u8], Output = &'a [u8]>>(p: P, q: Q, i: &'a [u8], v: Seq<ControlCommand<'a>>, j: &'a [u8])
    requires #[trigger] run(p, q, i, v, j), cmd_parser(p), end_parser(q),
    ensures cmds(j@) is None ==> cmds(i@) is None, cmds(j@) matches Some(w) ==> cmds(i@) == Some(cvs(v) + w)
    decreases v.len()
{
    if v.len() == 0 {
        assert(cmds(j@) matches Some(w) ==> cvs(v) + w =~= w);
    } else {
        let k = choose|k: &'a [u8]| #[trigger] p.sp(i, Ok((k, v[0]))) && k@.len() != i@.len() && run(p, q, k, v.skip(1), j);
        run_cmds(p, q, k, v.skip(1), j);
        assert(is_cmd(i@, Ok((k, v[0]))));
        assert(cmds(j@) matches Some(w) ==> seq![cv(v[0])] + (cvs(v.skip(1)) + w) =~= cvs(v) + w);
    }
}
@fn src/vobsub/sub.rs control_sequence : C12
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, c)) => sequence(input@) == Some((c.date as int, c.next as int, cvs(c.commands@))), //#C12
        Err(e) => sequence(input@) is None, //#C12
    }
@start
    broadcast use run_cmds, skip_skip;
    assert(input@.len() >= 4 ==> be16(input@.skip(2), 0) == be16(input@, 2));
@endfn
@fn src/vobsub/sub.rs parse_be_u16_as_usize : C13 C16
@opt lt=a
@ret r
@spec
    ensures match r {
        Ok((m, v)) => buff@.len() >= 2 && v == be16(buff@, 0) && m@ == buff@.skip(2), //#C13
        Err(e) => buff@.len() < 2, //#C13
    }
@start
    broadcast use two_bytes;
@endfn

// ---- C13: what the control sequences of a subtitle say
pub struct Told { pub start: Option<int>, pub end: Option<int>, pub area: Option<AreaValues>, pub palette: Option<Seq<int>>, pub alpha: Option<Seq<int>>, pub offs: Option<(int, int)> }
pub open spec fn untold() -> Told { Told { start: None, end: None, area: None, palette: None, alpha: None, offs: None } }
pub open spec fn first<T>(a: Option<T>, b: T) -> Option<T> { if a is Some { a } else { Some(b) } }
// a command at time t
pub open spec fn step(m: Told, c: Cmd, t: int) -> Option<Told> {
    match c {
        Cmd::Start => Some(Told { start: first(m.start, t), ..m }),
        Cmd::Stop => Some(Told { end: first(m.end, t), ..m }),
        Cmd::Palette(p) => Some(Told { palette: first(m.palette, p), ..m }),
        Cmd::Alpha(p) => Some(Told { alpha: first(m.alpha, p), ..m }),
        Cmd::Coords(a) => if valid(a) { Some(Told { area: first(m.area, a), ..m }) } else { None },
        Cmd::Offs(a, b) => Some(Told { offs: Some((a, b)), ..m }),
        Cmd::Force => Some(m),
        Cmd::Unsupported(_) => Some(m),
    }
}
pub open spec fn steps(m: Told, c: Seq<Cmd>, t: int) -> Option<Told> decreases c.len() {
    if c.len() == 0 { Some(m) } else { match steps(m, c.drop_last(), t) { None => None, Some(n) => step(n, c.last(), t) } }
}
pub proof fn steps_take(m: Told, c: Seq<Cmd>, t: int, k: int)
    requires 0 <= k <= c.len(), steps(m, c.take(k), t) is None,
    ensures steps(m, c, t) is None
    decreases c.len()
{
    if k < c.len() { assert(c.drop_last().take(k) =~= c.take(k)); steps_take(m, c.drop_last(), t, k); } else { assert(c.take(k) =~= c); }
}
// the sequences from offset o on; dates are hundredths of a second (900 ticks) after the base time
pub open spec fn walk(d: Seq<u8>, o: int, base: int, m: Told) -> Option<Told> decreases if d.len() > o { d.len() - o } else { 0 } {
    if o >= d.len() { None } else {
        match sequence(d.skip(o)) {
            None => None,
            Some((date, next, c)) => match steps(m, c, base + 900 * date) {
                None => None,
                Some(n) => if next < o { None } else if next == o { Some(n) } else { walk(d, next, base, n) },
            },
        }
    }
}
#[verifier::opaque]
pub open spec fn all_told(d: Seq<u8>, base: int) -> Option<Told> { if d.len() < 4 { None } else { walk(d, be16(d, 2), base, untold()) } }
// C13: the subtitle of the data d
pub struct Made<'a> { pub start: int, pub end: Option<int>, pub image: VobSubRleImage<'a> }
pub open spec fn is_image(i: VobSubRleImage, d: Seq<u8>, m: Told) -> bool {
    &&& i.area.0 == m.area->0
    &&& ints(i.palette@) =~= m.palette->0.reverse()
    &&& ints(i.alpha@) =~= m.alpha->0.reverse()
    &&& fields(d, (m.offs->0).0, (m.offs->0).1, be16(d, 2) + 2) == Some((i.image_data.data[0]@, i.image_data.data[1]@))
}
pub open spec fn complete(d: Seq<u8>, m: Told) -> bool {
    m.start is Some && m.area is Some && m.palette is Some && m.alpha is Some && m.offs is Some
    && fields(d, (m.offs->0).0, (m.offs->0).1, be16(d, 2) + 2) is Some
}
#[verifier::opaque]
pub open spec fn is_subtitle<'a, D: VobSubDecoder<'a>>(d: Seq<u8>, base: int, r: Result<D::Output, VobSubError>) -> bool {
    match all_told(d, base) {
        None => r is Err,
        Some(m) => if !complete(d, m) { r is Err } else { exists|i: VobSubRleImage<'a>| is_image(i, d, m) && #[trigger] D::made(m.start->0, m.end, i, r) },
    }
}
pub proof fn no_subtitle<'a, D: VobSubDecoder<'a>>(d: Seq<u8>, base: int)
    ensures forall|r: Result<D::Output, VobSubError>| r is Err && all_told(d, base) is None ==> #[trigger] is_subtitle::<D>(d, base, r)
{ reveal(is_subtitle); }
// a date after the base time
pub broadcast proof fn dated(x: f64, n: int, k: int, h: f64, f: f64, q: f64, y: f64)
    requires #[trigger] near(x, n, 1), 0 <= n < 0x2_0000_0000, #[trigger] num(f, k), 0 <= k < 65536, num(h, 100),
        #[trigger] div_ensures(f, h, q), #[trigger] add_ensures(x, q, y),
    ensures tick(y, n + 900 * k)
{
    broadcast use floats;
    reveal(near); reveal(num);
}
pub proof fn near_unique(x: f64, n: int)
    requires near(x, n, 1), ensures forall|m: int| #[trigger] near(x, m, 1) ==> m == n
{ reveal(near); }
pub open spec fn timed(x: Option<f64>, n: Option<int>) -> bool { match x { None => n is None, Some(x) => n is Some && tick(x, n->0) } }
pub open spec fn told(start: Option<f64>, end: Option<f64>, area: Option<Area>, palette: Option<[u8; 4]>, alpha: Option<[u8; 4]>, offs: Option<[u16; 2]>, m: Told) -> bool {
    &&& timed(start, m.start) && timed(end, m.end)
    &&& match area { None => m.area is None, Some(a) => m.area == Some(a.0) && valid(a.0) }
    &&& match palette { None => m.palette is None, Some(p) => m.palette == Some(ints(p@)) }
    &&& match alpha { None => m.alpha is None, Some(p) => m.alpha == Some(ints(p@)) }
    &&& match offs { None => m.offs is None, Some(o) => m.offs == Some((o[0] as int, o[1] as int)) }
}
@eta VobSubError::ControlSequence (NomError) -> VobSubError
@fn src/vobsub/sub.rs subtitle : C13 C16
@ret r
@spec
    requires exists|n: int| near(base_time, n, 1) && 0 <= n < 0x2_0000_0000,
    ensures forall|n: int| #[trigger] near(base_time, n, 1) && 0 <= n < 0x2_0000_0000 ==> is_subtitle::<D>(raw_data@, n, r) //#C13
@start
    let ghost n0 = choose|n: int| near(base_time, n, 1) && 0 <= n < 0x2_0000_0000;
    let ghost mut gm = untold();
    proof { reveal(all_told); reveal(is_subtitle); near_unique(base_time, n0); assert(raw_data@.len() >= 4 ==> be16(raw_data@.skip(2), 0) == be16(raw_data@, 2)); }
@loop 0 : loop
    invariant_except_break
        all_told(raw_data@, n0) == walk(raw_data@, control_offset as int, n0, gm),
    invariant
        near(base_time, n0, 1), 0 <= n0 < 0x2_0000_0000, forall|m: int| #[trigger] near(base_time, m, 1) ==> m == n0,
        raw_data@.len() >= 4, initial_control_offset == be16(raw_data@, 2),
        told(start_time, end_time, area, palette, alpha, rle_offsets, gm),
        control_offset == initial_control_offset || initial_control_offset + 4 <= raw_data@.len(),
    ensures
        all_told(raw_data@, n0) == Some(gm), initial_control_offset + 4 <= raw_data@.len(),
    decreases if raw_data@.len() > control_offset { raw_data@.len() - control_offset } else { 0 }
@loopstart 0
    broadcast use float_ops;
    proof { no_subtitle::<D>(raw_data@, n0); }
@after let time
    let ghost cs = cvs(control.commands@);
    let ghost t = n0 + 900 * control.date;
    let ghost m0 = gm;
    proof { assert(tick(time, t)) by { broadcast use dated; f_hundred(); } assert(cs.take(0) =~= seq![]); }
@loop 1 : for command in control.commands
    invariant
        vx_it.seq().len() == cs.len(), forall|k: int| 0 <= k < cs.len() ==> cs[k] == cv(#[trigger] vx_it.seq()[k]),
        tick(time, t), forall|m: int| #[trigger] near(base_time, m, 1) ==> m == n0,
        steps(gm, cs.take(vx_it.index@), t) is Some,
        told(start_time, end_time, area, palette, alpha, rle_offsets, steps(gm, cs.take(vx_it.index@), t)->0),
        steps(gm, cs, t) is None ==> all_told(raw_data@, n0) is None,
@loopstart 1
    let ghost k = vx_it.index@;
    proof {
        assert(cs.take(k + 1).drop_last() =~= cs.take(k));
        assert(cs.take(k + 1).last() == cv(command));
        if steps(gm, cs.take(k + 1), t) is None { steps_take(gm, cs, t, k + 1); no_subtitle::<D>(raw_data@, n0); }
    }
@afterloop 1
    assert(cs.take(cs.len() as int) =~= cs);
    proof { gm = steps(gm, cs, t)->0; }
@before let end
    proof { assert(ints(palette@.reverse()) =~= ints(palette@).reverse()); assert(ints(alpha@.reverse()) =~= ints(alpha@).reverse()); }
@endfn
@fn src/vobsub/sub.rs <Iterator for VobsubParser>::next : C11 C13 C16
@opt impl=impl<'a, D> VobsubParser<'a, D>
@ret r
@spec
    ensures match next_sub((*old(self)).pes_packets.remaining@) {
        NextSub::End => r is None && (*final(self)).pes_packets.remaining@.len() == 0, //#C11 C16
        NextSub::Bad(rest) => r matches Some(Err(_)) && (*final(self)).pes_packets.remaining@ =~= rest, //#C11
        NextSub::Data(t, d, rest) => r matches Some(x) && is_subtitle::<(TimeSpan, VobSubIndexedImage)>(d, t, x) && (*final(self)).pes_packets.remaining@ == rest, //#C11 C13
    },
        r is Some ==> (*final(self)).pes_packets.remaining@.len() < (*old(self)).pes_packets.remaining@.len(), //#C16
@endfn
// ---- every subtitle that is decoded can be rendered (C15)
pub open spec fn small(p: Seq<int>) -> bool { p.len() == 4 && forall|i: int| 0 <= i < 4 ==> 0 <= #[trigger] p[i] < 16 }
pub open spec fn mild(c: Cmd) -> bool { match c { Cmd::Palette(p) => small(p), Cmd::Alpha(p) => small(p), _ => true } }
pub open spec fn sane(m: Told) -> bool {
    (m.palette matches Some(p) ==> small(p)) && (m.alpha matches Some(p) ==> small(p)) && (m.area matches Some(a) ==> valid(a))
}
pub proof fn cmds_mild(s: Seq<u8>)
    ensures cmds(s) matches Some(v) ==> forall|i: int| 0 <= i < v.len() ==> mild(#[trigger] v[i])
    decreases s.len()
{
    if let Some((c, n)) = cmd(s) {
        assert(p2(4) == 16) by(compute);
        bits_bound(s, 8, 4); bits_bound(s, 12, 4); bits_bound(s, 16, 4); bits_bound(s, 20, 4);
        assert(mild(c));
        if 0 < n <= s.len() { cmds_mild(s.skip(n)); }
    }
}
pub proof fn steps_sane(m: Told, c: Seq<Cmd>, t: int)
    requires sane(m), forall|i: int| 0 <= i < c.len() ==> mild(#[trigger] c[i]),
    ensures steps(m, c, t) matches Some(n) ==> sane(n)
    decreases c.len()
{
    if c.len() > 0 {
        assert forall|i: int| 0 <= i < c.drop_last().len() implies mild(#[trigger] c.drop_last()[i]) by { assert(c.drop_last()[i] == c[i]); }
        steps_sane(m, c.drop_last(), t);
        assert(mild(c[c.len() - 1]));
    }
}
pub proof fn walk_sane(d: Seq<u8>, o: int, base: int, m: Told)
    requires sane(m), 0 <= o,
    ensures walk(d, o, base, m) matches Some(n) ==> sane(n)
    decreases if d.len() > o { d.len() - o } else { 0 }
{
    if o < d.len() {
        if let Some((date, next, c)) = sequence(d.skip(o)) {
            cmds_mild(d.skip(o).skip(4));
            steps_sane(m, c, base + 900 * date);
            if let Some(n) = steps(m, c, base + 900 * date) { if next > o { walk_sane(d, next, base, n); } }
        }
    }
}
pub proof fn subtitles_render(d: Seq<u8>, base: int, x: (TimeSpan, VobSubIndexedImage))
    requires is_subtitle::<(TimeSpan, VobSubIndexedImage)>(d, base, Ok(x)),
    ensures decoded(x.1), forall|k: int| 0 <= k < 4 ==> #[trigger] x.1.alpha[k] < 16 //#C13 C14 C15
{
    reveal(is_subtitle); reveal(all_told);
    if d.len() >= 4 { walk_sane(d, be16(d, 2), base, untold()); }
    let m = all_told(d, base)->0;
    let i = choose|i: VobSubRleImage| is_image(i, d, m) && #[trigger] <(TimeSpan, VobSubIndexedImage) as VobSubDecoder>::made(m.start->0, m.end, i, Ok(x));
    assert(valid(i.area.0));
    rows_size(i.image_data.data[0]@, i.image_data.data[1]@, 0, 0, 0, i.area.0.x2 - i.area.0.x1 + 1, i.area.0.y2 - i.area.0.y1 + 1);
    let h = i.area.0.y2 - i.area.0.y1 + 1;
    let w = i.area.0.x2 - i.area.0.x1 + 1;
    assert((h - 0) * w == w * h) by(nonlinear_arith);
    assert forall|k: int| 0 <= k < 4 implies #[trigger] x.1.palette[k] < 16 by {
        assert(ints(i.palette@)[k] == m.palette->0.reverse()[k]); assert(m.palette->0[3 - k] < 16);
    }
    assert forall|k: int| 0 <= k < 4 implies #[trigger] x.1.alpha[k] < 16 by {
        assert(ints(i.alpha@)[k] == m.alpha->0.reverse()[k]); assert(m.alpha->0[3 - k] < 16);
    }
}
@type src/vobsub/sub.rs Sub
@fn src/vobsub/sub.rs Sub::open : C11
@opt rule=__r.take(__n) => vx_take(__r, __n)
@ret r
@spec
    ensures
        r matches Ok(s) ==> s.data@ == content(path.target()), //#C11
        readable(path.target()) ==> r is Ok, //#C11
@closure 0 (io::Error) -> (r: VobSubError)
    ensures true
@endfn
@fn src/vobsub/sub.rs Sub::subtitles : C11
@ret r
@spec
    ensures r.pes_packets.remaining@ == self.data@ //#C11
@endfn
}
} // verus!
fn main() {}
