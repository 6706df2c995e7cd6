// Unit pgs: C01..C08
@include base.vc
@include io.vc
@include files.vc
pub mod time {
use vstd::prelude::*;
@type src/time/time_point.rs TimePoint derive=Copy,Clone
@type src/time/time_span.rs TimeSpan derive=Copy,Clone
@fn src/time/time_point.rs TimePoint::from_msecs : C02 C03
@ret r
@spec
    ensures r.0 == time
@endfn
@fn src/time/time_span.rs TimeSpan::new : C02 C03
@ret r
@spec
    ensures r.start == start, r.end == end
@endfn
}

// ------------------------------------------------------------------ errors
pub mod pgs {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use super::base::*;
use super::io_model::*;
use super::segment::SegmentTypeCode;
use super::{pds, ods};
use std::{io::{self, BufRead, Seek, Read}, num::TryFromIntError};
pub use super::files::VxPathBuf;
@type src/pgs/mod.rs PgsError
@type src/pgs/mod.rs ReadError
// thiserror: #[from]
impl FromSpecImpl<ods::Error> for PgsError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ods::Error) -> Self { PgsError::ODSParse(e) } }
impl FromSpecImpl<pds::Error> for PgsError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: pds::Error) -> Self { PgsError::PDSParse(e) } }
impl From<ods::Error> for PgsError { fn from(e: ods::Error) -> (r: PgsError) ensures r == PgsError::ODSParse(e) { PgsError::ODSParse(e) } }
impl From<pds::Error> for PgsError { fn from(e: pds::Error) -> (r: PgsError) ensures r == PgsError::PDSParse(e) { PgsError::PDSParse(e) } }

@eta ReadError::FailedFillBuf (io::Error) -> ReadError
@eta ReadError::FailedSeek (io::Error) -> ReadError
@fn src/pgs/mod.rs ReadExt::read_buffer : C08
@opt free=BufRead + Seek
@ret r
@spec
    ensures
        final(to_read)@.len() == old(to_read)@.len(),
        r is Ok ==> old(to_read)@.len() <= (*old(self_)).rest().len()
            && final(to_read)@ == (*old(self_)).rest().take(old(to_read)@.len() as int)
            && (*final(self_)).rest() == (*old(self_)).rest().skip(old(to_read)@.len() as int),
        kept(*old(self_), *final(self_)), (*old(self_)).reliable() ==> (r is Ok <==> old(to_read)@.len() <= (*old(self_)).rest().len()),
@closure 0 (io::Error) -> (r: ReadError)
    ensures r is FailedReadBuffer
@endfn
@fn src/pgs/mod.rs ReadExt::skip_data : C02 C03 C04 C08
@opt free=BufRead + Seek
@ret r
@spec
    ensures
        r is Ok ==> (*final(self_)).rest() == drop((*old(self_)).rest(), to_skip as int),
        kept(*old(self_), *final(self_)), (*old(self_)).reliable() && to_skip <= i64::MAX ==> r is Ok,
@closure 0 (std::num::TryFromIntError) -> (r: ReadError)
@endfn
@rule __r.skip_data(__n) => super::pgs::skip_data(__r, __n)
}

// ------------------------------------------------------------------ segments
pub mod segment {
use vstd::prelude::*;
broadcast use super::base::bit_values;
use super::base::*;
use super::io_model::*;
use super::pgs::{PgsError, ReadError, skip_data};
use std::io::{self, BufRead, ErrorKind, Seek};
@const src/pgs/segment.rs MAGIC_NUMBER
@type src/pgs/segment.rs SegmentTypeCode derive=Copy,Clone
@type src/pgs/segment.rs SegmentHeader
@const src/pgs/segment.rs HEADER_LEN

// C01: what the first bytes of a stream denote
pub enum Hdr { End, Bad, Seg { pts: int, code: SegmentTypeCode, size: int } }
pub open spec fn code_of(b: u8) -> Option<SegmentTypeCode> {
    if b == 0x14 { Some(SegmentTypeCode::Pds) } else if b == 0x15 { Some(SegmentTypeCode::Ods) }
    else if b == 0x16 { Some(SegmentTypeCode::Pcs) } else if b == 0x17 { Some(SegmentTypeCode::Wds) }
    else if b == 0x80 { Some(SegmentTypeCode::End) } else { None }
}
pub open spec fn hdr(s: Seq<u8>) -> Hdr {
    if s.len() < 13 { Hdr::End }
    else if s[0] != 0x50 || s[1] != 0x47 { Hdr::Bad }
    else { match code_of(s[10]) {
        None => Hdr::Bad,
        Some(code) => Hdr::Seg { pts: be32(s, 2), code, size: be16(s, 11) },
    } }
}
pub open spec fn view(h: SegmentHeader) -> Hdr { Hdr::Seg { pts: h.pts as int, code: h.type_code, size: h.size as int } }

@fn src/pgs/segment.rs <TryFrom<u8> for SegmentTypeCode>::try_from : C01 C02 C03
@ret r
@spec
    ensures r matches Ok(c) ==> code_of(value) == Some(c), r is Err ==> code_of(value) is None
@endfn
@fn src/pgs/segment.rs SegmentHeader::presentation_time : C01 C02 C03
@ret r
@spec
    ensures r == self.pts / 90
@endfn
@fn src/pgs/segment.rs SegmentHeader::type_code : C01 C02 C03
@ret r
@spec
    ensures r == self.type_code
@endfn
@fn src/pgs/segment.rs SegmentHeader::size : C01 C02 C03
@ret r
@spec
    ensures r == self.size
@endfn
@fn src/pgs/segment.rs parse_segment_header : C01 C02 C03 C08
@ret r
@spec
    ensures
        r matches Ok(o) ==> (o matches Some(h) && hdr(buffer@) == view(h)),
        r is Err ==> hdr(buffer@) is Bad,
@start
    proof {
        let m = buffer@.subrange(0, 2);
        assert(m[0] == buffer@[0] && m[1] == buffer@[1]);
        assert(m =~= seq![0x50u8, 0x47u8] <==> m[0] == 0x50 && m[1] == 0x47);
        assert(MAGIC_NUMBER@ =~= seq![0x50u8, 0x47u8]);
    }
@endfn
@fn src/pgs/segment.rs read_header : C01 C02 C03 C08
@ret r
@spec
    ensures
        r matches Ok(Some(h)) ==> hdr((*old(reader)).rest()) == view(h) && (*final(reader)).rest() == (*old(reader)).rest().skip(13),
        r matches Ok(None) ==> hdr((*old(reader)).rest()) is End,
        r matches Err(e) ==> !(*old(reader)).reliable()
            || (hdr((*old(reader)).rest()) is Bad && (*final(reader)).rest() == (*old(reader)).rest().skip(13)),
        kept(*old(reader), *final(reader)),
@endfn
@fn src/pgs/segment.rs skip_segment : C02 C03 C08
@ret r
@spec
    ensures
        r is Ok ==> (*final(reader)).rest() == drop((*old(reader)).rest(), header.size as int),
        r is Err ==> !(*old(reader)).reliable(),
        kept(*old(reader), *final(reader)),
@closure 0 (ReadError) -> (r: PgsError)
@endfn
}

// ------------------------------------------------------------------ palettes
pub mod pds {
use vstd::prelude::*;
broadcast use super::base::bit_values;
use super::base::*;
use super::io_model::*;
use std::io::{self, Read};
@type src/pgs/pds.rs Error
@type src/pgs/pds.rs Palette
@type src/pgs/pds.rs PaletteEntry
@type src/pgs/pds.rs PaletteDefinitionSegment

// C05: the k-th entry of a palette segment
pub open spec fn entry_at(s: Seq<u8>, k: int) -> PaletteEntry {
    PaletteEntry { entry_id: s[2 + 5 * k], luminance: s[3 + 5 * k], _color_difference_red: s[4 + 5 * k],
        _color_difference_blue: s[5 + 5 * k], transparency: s[6 + 5 * k] }
}
pub open spec fn pds_ok(size: int) -> bool { size >= 2 && (size - 2) % 5 == 0 }
pub open spec fn entries(s: Seq<u8>, size: int) -> Seq<PaletteEntry> {
    Seq::new(((size - 2) / 5) as nat, |k: int| entry_at(s, k))
}
// the entry declared with an id
pub open spec fn lookup(es: Seq<PaletteEntry>, id: u8) -> Option<PaletteEntry> decreases es.len() {
    if es.len() == 0 { None } else if es[0].entry_id == id { Some(es[0]) } else { lookup(es.skip(1), id) }
}
pub proof fn lookup_from(es: Seq<PaletteEntry>, id: u8, k: int)
    requires 0 <= k <= es.len(), forall|j: int| 0 <= j < k ==> es[j].entry_id != id,
    ensures lookup(es, id) == lookup(es.skip(k), id) //#C05
    decreases k
{
    if k == 0 { assert(es.skip(0) =~= es); }
    else { lookup_from(es, id, k - 1); assert(es.skip(k - 1).skip(1) =~= es.skip(k)); }
}
// whatever the order and the gaps: an id that is declared gives an entry declared with it, any other id gives none
pub proof fn lookup_id(es: Seq<PaletteEntry>, id: u8)
    ensures
        lookup(es, id) matches Some(e) ==> e.entry_id == id && es.contains(e), //#C05
        lookup(es, id) is None ==> forall|k: int| 0 <= k < es.len() ==> es[k].entry_id != id, //#C05
    decreases es.len()
{
    if es.len() > 0 && es[0].entry_id != id {
        lookup_id(es.skip(1), id);
        assert forall|k: int| lookup(es, id) is None && 0 <= k < es.len() implies es[k].entry_id != id by {
            if k > 0 { assert(es.skip(1)[k - 1] == es[k]); }
        }
        if let Some(e) = lookup(es, id) {
            let k = choose|k: int| 0 <= k < es.skip(1).len() && es.skip(1)[k] == e;
            assert(es[k + 1] == e);
        }
    } else if es.len() > 0 { assert(es[0] == es[0]); }
}

@eta Error::BufferParse (io::Error) -> Error
@rule __v.iter().find(|__x| __b) => { let mut vk: usize = 0; let mut vr: Option<@@each ty@@> = None; while vk < __v.len() @@loop each@@ { let __x = &__v[vk]; if __b { vr = Some(__x); @@each break@@ break; } vk = vk + 1; @@each next@@ } @@each end@@ vr }
@rule __r.map(|__i| __b).collect() => { let vrng = __r; let mut vk = vrng.start; let mut vv = Vec::new(); while vk < vrng.end @@loop each@@ { let __i = vk; @@each start@@ vv.push(__b); vk = vk + 1; } @@each end@@ vv }
@fn src/pgs/pds.rs Palette::new : C05
@ret r
@spec
    ensures r.entries == entries
@endfn
@fn src/pgs/pds.rs Palette::get : C05 C08
@ret r
@spec
    ensures
        r matches Some(e) ==> lookup(self.entries@, id) == Some(*e),
        r is None ==> lookup(self.entries@, id) is None,
@each ty
&PaletteEntry
@loop each
    invariant_except_break
        vr is None, lookup(self.entries@, id) == lookup(self.entries@.skip(vk as int), id),
    invariant vk <= self.entries@.len(),
    ensures
        vr matches Some(e) ==> lookup(self.entries@, id) == Some(*e),
        vr is None ==> lookup(self.entries@, id) is None,
    decreases self.entries@.len() - vk
@each next
    proof { assert(self.entries@.skip(vk as int) =~= self.entries@.skip(vk - 1).skip(1)); }
@start
    proof { assert(self.entries@.skip(0) =~= self.entries@); }
@endfn
@fn src/pgs/pds.rs read : C05 C08
@ret r
@spec
    requires segments_size <= 0xffff,
    ensures
        r matches Ok(p) ==> segments_size <= (*old(reader)).rest().len() && pds_ok(segments_size as int)
            && p.palette.entries@ == entries((*old(reader)).rest(), segments_size as int)
            && (*final(reader)).rest() == (*old(reader)).rest().skip(segments_size as int),
        r is Err ==> !(*old(reader)).reliable() || !pds_ok(segments_size as int) || segments_size > (*old(reader)).rest().len(),
        kept(*old(reader), *final(reader)),
@loop each
    invariant
        vrng.start == 0, vrng.end == (segments_size - 2) / 5, pds_ok(segments_size as int), vk <= vrng.end,
        segments_size <= (*old(reader)).rest().len(), pds_buf@ == (*old(reader)).rest().take(segments_size as int),
        vv@.len() == vk, forall|j: int| 0 <= j < vk ==> #[trigger] vv@[j] == entry_at((*old(reader)).rest(), j),
    decreases vrng.end - vk
@each end
    proof { assert(vv@ =~= entries((*old(reader)).rest(), segments_size as int)); }
@endfn
}

// ------------------------------------------------------------------ objects
@path u24 => U24
@path u24::from => U24::from
pub mod u24 {
use vstd::prelude::*;
broadcast use super::base::bit_values;
use super::io_model::*;
@type src/pgs/u24.rs u24 as=U24 derive=Copy,Clone
@fn src/pgs/u24.rs u24::to_u32 : C04
@opt impl=impl U24
@ret r
@spec
    ensures r == be24(self.0@, 0)
@endfn
@fn src/pgs/u24.rs <From<[u8; 3]> for u24>::from : C04
@opt impl=impl U24
@ret r
@spec
    ensures r.0 == value
@endfn
}
pub mod ods {
use vstd::prelude::*;
broadcast use super::base::bit_values;
use vstd::std_specs::cmp::*;
use super::base::*;
use super::io_model::*;
use super::u24::U24;
use super::pgs::ReadError;
use std::io::{self, BufRead, Seek, Read};
@type src/pgs/ods.rs Error
@type src/pgs/ods.rs LastInSequenceFlag derive=Copy,Clone
@type src/pgs/ods.rs ObjectDefinitionSegment
@type src/pgs/ods.rs ObjectDefinitionSegmentData
// C04: an object: its declared size, the declared length of its data, the data got so far
pub struct Obj { pub w: int, pub h: int, pub total: int, pub data: Seq<u8> }
pub enum OdsRes { Bad, Partial(Obj, Seq<u8>), Complete(Obj, Seq<u8>) }
// one object segment of `size` bytes read from s, with the object started before
pub open spec fn ods_step(s: Seq<u8>, size: int, prev: Option<Obj>) -> OdsRes {
    let s = drop(s, 3);
    if s.len() < 1 { OdsRes::Bad }
    else if s[0] != 0x40 && s[0] != 0x80 && s[0] != 0xc0 { OdsRes::Bad }
    else { match prev {
        None =>
            if s[0] == 0x40 || s.len() < 8 { OdsRes::Bad }
            else {
                let o = Obj { w: be16(s, 4), h: be16(s, 6), total: be24(s, 1) - 4, data: s.subrange(8, 8 + (size - 11)) };
                if o.total < 0 || size < 11 || s.len() < 8 + (size - 11) || size - 11 > o.total { OdsRes::Bad }
                else if s[0] == 0x80 { OdsRes::Partial(o, s.skip(8 + (size - 11))) }
                else if size - 11 != o.total { OdsRes::Bad }
                else { OdsRes::Complete(o, s.skip(8 + (size - 11))) }
            },
        Some(p) =>
            if s[0] != 0x40 || size < 4 || size - 4 != p.total - p.data.len() || s.len() < 1 + (size - 4) { OdsRes::Bad }
            else { OdsRes::Complete(Obj { data: p.data + s.subrange(1, 1 + (size - 4)), ..p }, s.skip(1 + (size - 4))) },
    } }
}
// a delivered object has exactly the declared length
pub proof fn complete_len(s: Seq<u8>, size: int, prev: Option<Obj>)
    ensures ods_step(s, size, prev) matches OdsRes::Complete(o, r) ==> o.data.len() == o.total, //#C04
        ods_step(s, size, prev) matches OdsRes::Complete(o, r) ==> (prev matches Some(p) ==> p.data == o.data.take(p.data.len() as int)), //#C04
{
    if let OdsRes::Complete(o, r) = ods_step(s, size, prev) {
        if let Some(p) = prev { assert(o.data.take(p.data.len() as int) =~= p.data); }
    }
}
pub open spec fn obj(o: Option<ObjectDefinitionSegment>) -> Option<Obj> {
    match o {
        Some(ObjectDefinitionSegment::Partial { data, amount_of_data_read }) =>
            Some(Obj { w: data.width as int, h: data.height as int, total: data.object_data@.len() as int, data: data.object_data@.take(amount_of_data_read as int) }),
        _ => None,
    }
}
// invariant of an object that waits for its last segment
pub open spec fn pending(o: Option<ObjectDefinitionSegment>) -> bool {
    match o {
        Some(ObjectDefinitionSegment::Partial { data, amount_of_data_read }) => amount_of_data_read <= data.object_data@.len() < 0x100_0000,
        Some(_) => false,
        None => true,
    }
}

@eta Error::LastInSequenceFlagReadData (io::Error) -> Error
@eta Error::SkipObjectIdAndVerNum (ReadError) -> Error
@eta Error::ReadObjectDataLength (io::Error) -> Error
@eta Error::ReadWidth (io::Error) -> Error
@eta Error::ReadHeight (io::Error) -> Error
@fn src/pgs/ods.rs <TryFrom<u8> for LastInSequenceFlag>::try_from : C04 C08
@ret r
@spec
    ensures
        r matches Ok(f) ==> (value == 0x40 && f == LastInSequenceFlag::Last || value == 0x80 && f == LastInSequenceFlag::First || value == 0xc0 && f == LastInSequenceFlag::FirstAndLast),
        r is Err ==> value != 0x40 && value != 0x80 && value != 0xc0,
@endfn
@fn src/pgs/ods.rs LastInSequenceFlag::read : C04 C08
@ret r
@spec
    ensures
        r matches Ok(f) ==> (*old(reader)).rest().len() >= 1 && (*final(reader)).rest() == (*old(reader)).rest().skip(1) && ({
            let value = (*old(reader)).rest()[0];
            value == 0x40 && f == LastInSequenceFlag::Last || value == 0x80 && f == LastInSequenceFlag::First || value == 0xc0 && f == LastInSequenceFlag::FirstAndLast }),
        kept(*old(reader), *final(reader)),
        r is Err ==> !(*old(reader)).reliable() || (*old(reader)).rest().len() == 0 || (({
            let value = (*old(reader)).rest()[0]; value != 0x40 && value != 0x80 && value != 0xc0 })),
@endfn
@fn src/pgs/ods.rs handle_object_fields : C04 C08
@ret r
@spec
    ensures
        r is Ok ==> (*final(reader)).rest() == drop((*old(reader)).rest(), 3),
        r is Err ==> !(*old(reader)).reliable(),
        kept(*old(reader), *final(reader)),
@endfn
@fn src/pgs/ods.rs read_obj_data_length : C04 C08
@ret r
@spec
    ensures
        r matches Ok(n) ==> (*old(reader)).rest().len() >= 3 && n == be24((*old(reader)).rest(), 0) && (*final(reader)).rest() == (*old(reader)).rest().skip(3),
        r is Err ==> !(*old(reader)).reliable() || (*old(reader)).rest().len() < 3,
        kept(*old(reader), *final(reader)),
@endfn
@fn src/pgs/ods.rs read_img_size : C04 C08
@ret r
@spec
    ensures
        r matches Ok(wh) ==> (*old(reader)).rest().len() >= 4 && wh.0 == be16((*old(reader)).rest(), 0) && wh.1 == be16((*old(reader)).rest(), 2) && (*final(reader)).rest() == (*old(reader)).rest().skip(4),
        r is Err ==> !(*old(reader)).reliable() || (*old(reader)).rest().len() < 4,
        kept(*old(reader), *final(reader)),
@endfn
@fn src/pgs/ods.rs read_object_data : C04 C08
@opt rule=__r.take(__n) => vx_take(__r, __n)
@ret r
@spec
    ensures
        final(data_buff)@.len() == old(data_buff)@.len(),
        r is Ok ==> old(data_buff)@.len() <= (*old(reader)).rest().len() && final(data_buff)@ == (*old(reader)).rest().take(old(data_buff)@.len() as int)
            && (*final(reader)).rest() == (*old(reader)).rest().skip(old(data_buff)@.len() as int),
        r is Err ==> !(*old(reader)).reliable() || (*old(reader)).rest().len() < old(data_buff)@.len(),
        kept(*old(reader), *final(reader)),
@closure 0 (io::Error) -> (r: Error)
@endfn
@fn src/pgs/ods.rs read : C04 C08
@ret r
@spec
    requires pending(current_ods), segments_size <= 0xffff,
    ensures
        r matches Ok(ObjectDefinitionSegment::Complete(d)) ==> (ods_step((*old(reader)).rest(), segments_size as int, obj(current_ods)) matches OdsRes::Complete(o, rest)
            && o.w == d.width && o.h == d.height && o.data == d.object_data@ && rest == (*final(reader)).rest()),
        r matches Ok(p) ==> p is Complete || (ods_step((*old(reader)).rest(), segments_size as int, obj(current_ods)) matches OdsRes::Partial(o, rest)
            && obj(Some(p)) == Some(o) && pending(Some(p)) && rest == (*final(reader)).rest()),
        r is Err ==> !(*old(reader)).reliable() || ods_step((*old(reader)).rest(), segments_size as int, obj(current_ods)) is Bad,
        kept(*old(reader), *final(reader)),
@after let data
    proof {
        let n = segments_size - 11;
        let s = drop((*old(reader)).rest(), 3);
        assert(data.object_data@.take(n) =~= s.subrange(8, 8 + n));
    }
@endfn
}

// ------------------------------------------------------------------ subtitles
@include image.vc
@path P::CHANNEL_COUNT => P::channel_count()
@path u8::from_be => vx_u8_from_be
@path PixelConversion<C> => VxFn<C>

pub mod pgs_image {
use vstd::prelude::*;
broadcast use super::base::bit_values;
use super::base::*;
use super::io_model::*;
use super::image::*;
use super::pds::{Palette, PaletteEntry, lookup};
use std::io::{self, ErrorKind};
#[verifier::external_body] #[verifier::accept_recursive_types(C)]
pub struct VxFn<C> { f: fn(&PaletteEntry) -> C }
impl<C> VxFn<C> {
    pub uninterp spec fn val(&self, e: PaletteEntry) -> C;
    #[verifier::external_body]
    pub fn call(&self, e: &PaletteEntry) -> (r: C) ensures r == self.val(*e) { (self.f)(e) }
}
pub fn vx_u8_from_be(x: u8) -> (r: u8) ensures r == x { x }
@rule (self.convert)(__x) => self.convert.call(__x)
@rule self.raw_data.read_exact(__b) => vx_slice_read_exact(&mut self.raw_data, __b)

@type src/pgs/pgs_image.rs RleEncodedImage
@type src/pgs/pgs_image.rs RlePixelIterator
@type src/pgs/pgs_image.rs ColorMarker
@type src/pgs/pgs_image.rs CountMarker

// C06: the first run of some run-length data: colour, length, what follows
pub open spec fn next_run(s: Seq<u8>) -> Option<(u8, int, Seq<u8>)> decreases s.len() {
    if s.len() == 0 { None }
    else if s[0] != 0 { Some((s[0], 1, s.skip(1))) }
    else if s.len() == 1 { None }
    else if s[1] == 0 { next_run(s.skip(2)) }
    else {
        let long = (s[1] & 0x40) != 0;
        let coloured = (s[1] & 0x80) != 0;
        let size = 2 + (if long { 1int } else { 0 }) + (if coloured { 1int } else { 0 });
        if s.len() < size { None }
        else {
            let n = if long { (s[1] & 0x3f) * 256 + s[2] } else { (s[1] & 0x3f) as int };
            if n == 0 { next_run(s.skip(size)) } else { Some((if coloured { s[size - 1] } else { 0u8 }, n, s.skip(size))) }
        }
    }
}
pub proof fn run_shrinks(s: Seq<u8>)
    ensures next_run(s) matches Some((c, n, r)) ==> r.len() < s.len() && n > 0 //#C06 C08
    decreases s.len()
{
    if s.len() >= 2 && s[0] == 0 && s[1] == 0 { run_shrinks(s.skip(2)); }
    else if s.len() >= 2 && s[0] == 0 {
        let size = 2 + (if (s[1] & 0x40) != 0 { 1int } else { 0 }) + (if (s[1] & 0x80) != 0 { 1int } else { 0 });
        if s.len() >= size { run_shrinks(s.skip(size)); }
    }
}
// the colour ids of all pixels
pub open spec fn ids(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    match next_run(s) {
        None => seq![],
        Some((c, n, r)) => if r.len() < s.len() { Seq::new(n as nat, |i: int| c) + ids(r) } else { seq![] },
    }
}
impl<'a, C> RlePixelIterator<'a, C> {
    // the pixel of a colour id
    pub open spec fn pixel(&self, id: u8) -> C {
        match lookup(self.rle_image.palette.entries@, id) { Some(e) => self.convert.val(e), None => self.default_color }
    }
    // the pixels that have not been given yet
    pub open spec fn todo(&self) -> Seq<C> {
        Seq::new(self.nb_remaining_pixels as nat, |i: int| self.current_color) + ids(self.raw_data@).map_values(|id: u8| self.pixel(id))
    }
    pub open spec fn same_image(&self, o: &Self) -> bool {
        self.rle_image == o.rle_image && self.default_color == o.default_color && self.convert == o.convert
    }
}
// C06 for an image: its pixels in order
pub open spec fn luma_a(p: Seq<PaletteEntry>, id: u8) -> LumaA<u8> {
    match lookup(p, id) { Some(e) => LumaA([e.luminance, e.transparency]), None => LumaA([255u8, 0u8]) }
}
pub open spec fn pixels_of(i: RleEncodedImage) -> Seq<LumaA<u8>> {
    ids(i.raw@).map_values(|id: u8| luma_a(i.palette.entries@, id))
}

@fn src/pgs/pgs_image.rs RleEncodedImage::new : C03 C07
@ret r
@spec
    ensures r.width == width, r.height == height, r.palette == palette, r.raw == raw
@endfn
@fn src/pgs/pgs_image.rs <ImageSize for RleEncodedImage>::width : C07
@opt impl=impl RleEncodedImage
@ret r
@spec
    ensures r == self.width
@endfn
@fn src/pgs/pgs_image.rs <ImageSize for RleEncodedImage>::height : C07
@opt impl=impl RleEncodedImage
@ret r
@spec
    ensures r == self.height
@endfn
@fn src/pgs/pgs_image.rs <From<u8> for ColorMarker>::from : C06
@opt impl=impl ColorMarker
@ret r
@spec
    ensures r is ColorN <==> (value & 0x80) != 0
@start
    assert((value & 0x80) == 0 || (value & 0x80) == 0x80) by(bit_vector);
    assert(((value & 0x80) != 0) <==> value >= 0x80) by(bit_vector);
    assert(((value & 0x80) != 0) <==> (value >> 7) == 1) by(bit_vector);
    assert(((value & 0x80) != 0) <==> (value >> 7) & 1 == 1) by(bit_vector);
@endfn
@fn src/pgs/pgs_image.rs <From<u8> for CountMarker>::from : C06
@opt impl=impl CountMarker
@ret r
@spec
    ensures r is Long <==> (value & 0x40) != 0
@start
    assert((value & 0x40) == 0 || (value & 0x40) == 0x40) by(bit_vector);
    assert(((value & 0x40) != 0) <==> (value >> 6) & 1 == 1) by(bit_vector);
@endfn
@fn src/pgs/pgs_image.rs RlePixelIterator::read_next_pixel : C06 C08
@ret r
@spec
    ensures
        final(self).same_image(old(self)), final(self).current_color == old(self).current_color,
        final(self).nb_remaining_pixels == old(self).nb_remaining_pixels,
        final(self).raw_data@.len() <= old(self).raw_data@.len(),
        r matches Some((c, n)) ==> next_run(old(self).raw_data@) == Some((c, n as int, final(self).raw_data@)) && n > 0
            && final(self).raw_data@.len() < old(self).raw_data@.len(),
        r is None ==> next_run(old(self).raw_data@) is None && final(self).raw_data@.len() == 0,
@loop 0 : loop
    invariant
        self.same_image(old(self)), self.current_color == old(self).current_color, self.nb_remaining_pixels == old(self).nb_remaining_pixels,
        next_run(self.raw_data@) == next_run(old(self).raw_data@), self.raw_data@.len() <= old(self).raw_data@.len(),
    decreases self.raw_data@.len()
@start
    broadcast use skip_skip;
@loopstart 0
    let ghost g = self.raw_data@;
@loopend 0
    assert(g.len() >= 2 && g[0] == 0);
    assert(g[1] == 0 ==> self.raw_data@ == g.skip(2));
    assert(g[1] != 0 ==> g.len() >= 2 + (if (g[1] & 0x40) != 0 { 1int } else { 0 }) + (if (g[1] & 0x80) != 0 { 1int } else { 0 }));
    assert(g[1] != 0 ==> self.raw_data@ == g.skip(2 + (if (g[1] & 0x40) != 0 { 1int } else { 0 }) + (if (g[1] & 0x80) != 0 { 1int } else { 0 })));
@endfn
@fn src/pgs/pgs_image.rs <Iterator for RlePixelIterator>::next : C06 C08 C07
@opt impl=impl<Pix: Copy> RlePixelIterator<'_, Pix>
@ret r
@spec
    ensures
        final(self).same_image(old(self)),
        r matches Some(p) ==> old(self).todo().len() > 0 && old(self).todo()[0] == p && final(self).todo() == old(self).todo().skip(1),
        r is None ==> old(self).todo().len() == 0 && final(self).todo().len() == 0,
        // C08: finitely many pixels
        final(self).raw_data@.len() <= old(self).raw_data@.len(), //#C08
        r is Some ==> final(self).raw_data@.len() < old(self).raw_data@.len() || final(self).nb_remaining_pixels < old(self).nb_remaining_pixels, //#C08
@end
@endfn

@fn src/pgs/pgs_image.rs <Iterator for RlePixelIterator>::size_hint : C08
@opt impl=impl<Pix: Copy> RlePixelIterator<'_, Pix>
@start
    broadcast use sizes;
@endfn
// ---- iteration over an image
pub open spec fn fresh(it: RlePixelIterator<LumaA<u8>>, i: RleEncodedImage) -> bool {
    *it.rle_image == i && it.raw_data@ == i.raw@ && it.nb_remaining_pixels == 0 && it.default_color == LumaA([255u8, 0u8])
}
// the function pe_to_luma_a::<u8> as a value
#[verifier::external_body]
pub fn vx_pe_to_luma_a() -> (r: VxFn<LumaA<u8>>) ensures forall|e: PaletteEntry| #[trigger] r.val(e) == LumaA([e.luminance, e.transparency])
{ unimplemented!() }
pub proof fn fresh_todo(it: RlePixelIterator<LumaA<u8>>, i: RleEncodedImage)
    requires fresh(it, i), forall|e: PaletteEntry| #[trigger] it.convert.val(e) == LumaA([e.luminance, e.transparency])
    ensures it.todo() == pixels_of(i) //#C06
{
    assert(it.todo() =~= pixels_of(i));
}
@fn src/pgs/pgs_image.rs pe_to_luma_a : C05 C06
@opt generics=
@opt path=P => u8
@opt rule=P::from(__x).unwrap() => __x
@ret r
@spec
    ensures r == LumaA([input.luminance, input.transparency])
@endfn
@fn src/pgs/pgs_image.rs RleEncodedImage::pixels : C05 C06
@opt generics=
@opt path=PixelConversion<LumaA<D>> => VxFn<LumaA<u8>>
@opt path=LumaA<D> => LumaA<u8>
@opt rule=D::DEFAULT_MIN_VALUE => 0u8
@opt rule=D::DEFAULT_MAX_VALUE => 255u8
@ret r
@spec
    ensures fresh(r, *self), r.convert == convert,
        r.todo() == ids(self.raw@).map_values(|id: u8| match lookup(self.palette.entries@, id) { Some(e) => convert.val(e), None => LumaA([255u8, 0u8]) }),
@endfn
@fn src/pgs/pgs_image.rs <IntoIterator for &RleEncodedImage>::into_iter : C05 C06 C07
@opt free=
@opt selfty=&'a RleEncodedImage
@opt generics='a
@opt path=Self::IntoIter => RlePixelIterator<'a, LumaA<u8>>
@opt rule=pe_to_luma_a => vx_pe_to_luma_a()
@ret r
@spec
    ensures fresh(r, *self_), r.todo() == pixels_of(*self_)
@end
@endfn
@fn src/pgs/pgs_image.rs RleEncodedImage::iter : C06 C07
@opt rule=self.into_iter() => into_iter(self)
@ret r
@spec
    ensures fresh(r, *self), r.todo() == pixels_of(*self)
@endfn

// ---- rendering
@rule __it.map(|__p| __b).for_each(|__q| __c) => { let mut vit = __it; loop @@loop each@@ { @@each start@@ match vit.next() { Some(__p) => { let ghost vp = __p; let __q = __b; let ghost vq = __q; __c; @@each next@@ } None => { break; } } } @@each end@@ }
@rule __x.rle_image.into_iter() => into_iter(__x.rle_image)
@rule __x.collect::<Vec<_>>() => { let mut vit = __x; let mut vc = Vec::new(); loop @@collect each@@ { @@collect start@@ match vit.next() { Some(vx) => { vc.push(vx); @@collect next@@ } None => { break; } } } vc }
#[verifier::reject_recursive_types(P)] #[verifier::reject_recursive_types(C)]
@type src/pgs/pgs_image.rs RleToImage
@type src/image/mod.rs ToOcrImageOpt derive=Copy,Clone
@fn src/image/mod.rs <Default for ToOcrImageOpt>::default : C07
@opt inherent
@ret r
@spec
    ensures r.border == 5, r.text_color == Luma([0u8]), r.background_color == Luma([255u8]), //#C07
@endfn
@fn src/pgs/pgs_image.rs RleToImage::new : C07
@ret r
@spec
    ensures r.rle_image == rle_image, r.conv_fn == conv_fn
@endfn
// q is what the conversion may give for p
pub open spec fn conv_to<P: Pixel<Subpixel = u8>, C: Fn(LumaA<u8>) -> P>(f: C, p: LumaA<u8>, chan: Seq<u8>) -> bool {
    exists|q: P| f.ensures((p,), q) && q.chan() == chan
}
@fn src/pgs/pgs_image.rs <ToImage for RleToImage>::to_image : C07
@ret r
@spec
    requires
        pixels_of(*self.rle_image).len() >= self.rle_image.width * self.rle_image.height,
        forall|p: LumaA<u8>| #[trigger] self.conv_fn.requires((p,)),
    ensures
        r.w() == self.rle_image.width, r.h() == self.rle_image.height,
        forall|k: int| 0 <= k < self.rle_image.width * self.rle_image.height ==> conv_to::<P, C>(self.conv_fn, pixels_of(*self.rle_image)[k], #[trigger] r.px(k)),
@loop each
    invariant
        forall|p: LumaA<u8>| #[trigger] self.conv_fn.requires((p,)),
        vit.todo() == pixels_of(*self.rle_image).skip(n), 0 <= n <= pixels_of(*self.rle_image).len(),
        buf@.len() == n * P::count(),
        forall|k: int| 0 <= k < n ==> conv_to::<P, C>(self.conv_fn, pixels_of(*self.rle_image)[k], #[trigger] buf@.subrange(k * P::count(), (k + 1) * P::count())),
    ensures n == pixels_of(*self.rle_image).len(),
    decreases vit.todo().len()
@each start
    let ghost b0 = buf@;
    let ghost t0 = vit.todo();
@each next
    proof {
        assert((n + 1) * P::count() == n * P::count() + P::count()) by(nonlinear_arith);
        assert forall|k: int| 0 <= k < n + 1 implies conv_to::<P, C>(self.conv_fn, pixels_of(*self.rle_image)[k], #[trigger] buf@.subrange(k * P::count(), (k + 1) * P::count())) by {
            if k == n {
                assert(buf@.subrange(k * P::count(), (k + 1) * P::count()) =~= vq.chan());
                assert(vp == pixels_of(*self.rle_image)[k]);
            } else {
                assert((k + 1) * P::count() <= n * P::count()) by(nonlinear_arith) requires k + 1 <= n;
                assert(0 <= k * P::count() <= (k + 1) * P::count()) by(nonlinear_arith) requires 0 <= k;
                assert(buf@.subrange(k * P::count(), (k + 1) * P::count()) =~= b0.subrange(k * P::count(), (k + 1) * P::count()));
            }
        }
        n = n + 1;
    }
@each end
    proof { mul_le(self.rle_image.width * self.rle_image.height, P::count() as int, n, P::count() as int); }
@before let buf
    let ghost mut n: int = 0;
@start
    proof {
        P::count_bound();
    }
    broadcast use sizes;
@endfn

@fn src/pgs/pgs_image.rs <ToOcrImage for RleToImage>::image : C07
@ret r
@spec
    requires
        pixels_of(*self.rle_image).len() >= self.rle_image.width * self.rle_image.height,
        forall|p: LumaA<u8>| #[trigger] self.conv_fn.requires((p,)),
        self.rle_image.width + opt.border * 2 <= u32::MAX, self.rle_image.height + opt.border * 2 <= u32::MAX,
    ensures
        r.w() == self.rle_image.width + opt.border * 2, r.h() == self.rle_image.height + opt.border * 2,
        forall|x: int, y: int| 0 <= x < r.w() && 0 <= y < r.h() ==> self.shows(*opt, x, y, #[trigger] r.at(x, y)),
@collect each
    invariant
        vit.todo() == pixels_of(*self.rle_image).skip(vc@.len() as int), vc@.len() <= pixels_of(*self.rle_image).len(),
        vc@ == pixels_of(*self.rle_image).take(vc@.len() as int),
    ensures vc@ == pixels_of(*self.rle_image),
    decreases vit.todo().len()
@collect next
    proof { assert(vc@ =~= pixels_of(*self.rle_image).take(vc@.len() as int)); }
@closure 0 (u32, u32) -> (r: Luma<u8>)
    requires $0 < width + border * 2, $1 < height + border * 2
    ensures self.shows(*opt, $0 as int, $1 as int, r)
    ---
    broadcast use sizes;
    proof {
        if $0 >= border && $1 >= border && $0 - border < width && $1 - border < height {
            assert(0 <= ocr_off($0 - border, $1 - border, width as int) < width * height);
        }
    }
@after let raw_pixels
    proof {
        assert forall|x: int, y: int| 0 <= x < width && 0 <= y < height implies 0 <= #[trigger] ocr_off(x, y, width as int) < width * height && 0 <= y * width <= width * height by {
            assert(0 <= y * width <= (height - 1) * width) by(nonlinear_arith) requires 0 <= y <= height - 1, 0 <= width;
            assert((height - 1) * width + width == width * height) by(nonlinear_arith);
        }
    }
@start
    broadcast use sizes;
@endfn
pub open spec fn ocr_off(x: int, y: int, w: int) -> int { y * w + x }
impl<C: Fn(LumaA<u8>) -> Luma<u8>> RleToImage<'_, Luma<u8>, C> {
    // the OCR image shows p at (x, y)
    pub open spec fn shows(&self, opt: ToOcrImageOpt, x: int, y: int, p: Luma<u8>) -> bool {
        let (w, h, b) = (self.rle_image.width as int, self.rle_image.height as int, opt.border as int);
        if x < b || x >= w + b || y < b || y >= h + b { p == opt.background_color }
        else { self.conv_fn.ensures((pixels_of(*self.rle_image)[ocr_off(x - b, y - b, w)],), p) }
    }
}
}
pub mod decoder {
use vstd::prelude::*;
use super::base::*;
use super::io_model::*;
use super::time::*;
use super::segment::*;
use super::pgs::PgsError;
use super::pgs_image::RleEncodedImage;
use super::{pds, ods};
use super::ods::{ObjectDefinitionSegment, Obj, OdsRes, ods_step, obj, pending};
use std::io::{self, BufRead, Seek};

// C02: the next subtitle of a stream: the times of two END segments, and what follows the second one
pub enum TRes { End, Bad, Sub(int, int, Seq<u8>) }
pub open spec fn time_only(s: Seq<u8>, start: Option<int>) -> TRes decreases s.len() {
    match hdr(s) {
        Hdr::End => TRes::End,
        Hdr::Bad => TRes::Bad,
        Hdr::Seg { pts, code: SegmentTypeCode::End, size } => match start {
            None => time_only(s.skip(13), Some(pts / 90)),
            Some(a) => TRes::Sub(a, pts / 90, s.skip(13)),
        },
        Hdr::Seg { pts, code, size } => time_only(drop(s.skip(13), size), start),
    }
}
// C03: what has been read for the next subtitle
pub struct Img { pub w: int, pub h: int, pub pal: Seq<pds::PaletteEntry>, pub data: Seq<u8> }
pub struct St { pub start: Option<int>, pub pal: Option<Seq<pds::PaletteEntry>>, pub img: Option<Img>, pub prev: Option<Obj> }
pub enum IRes { End, Bad, NoImage, NoPalette, Sub(int, int, Img, Seq<u8>) }
pub open spec fn nothing() -> St { St { start: None, pal: None, img: None, prev: None } }
pub open spec fn img_sub(s: Seq<u8>, st: St) -> IRes decreases s.len() {
    match hdr(s) {
        Hdr::End => IRes::End,
        Hdr::Bad => IRes::Bad,
        Hdr::Seg { pts, code, size } => {
            let p = s.skip(13);
            match code {
                SegmentTypeCode::End => match st.start {
                    None => img_sub(p, St { start: Some(pts / 90), ..st }),
                    Some(a) => match st.img {
                        None => IRes::NoImage,
                        Some(i) => IRes::Sub(a, pts / 90, i, p),
                    },
                },
                SegmentTypeCode::Pds =>
                    if !pds::pds_ok(size) || size > p.len() { IRes::Bad }
                    else { img_sub(p.skip(size), St { pal: Some(pds::entries(p, size)), ..st }) },
                SegmentTypeCode::Ods => match ods_step(p, size, st.prev) {
                    OdsRes::Bad => IRes::Bad,
                    OdsRes::Partial(o, r) => img_sub(r, St { prev: Some(o), ..st }),
                    OdsRes::Complete(o, r) => match st.pal {
                        None => IRes::NoPalette,
                        Some(pal) => img_sub(r, St { pal: None, img: Some(Img { w: o.w, h: o.h, pal, data: o.data }), prev: None, ..st }),
                    },
                },
                _ => img_sub(drop(p, size), st),
            }
        },
    }
}
pub open spec fn img(i: RleEncodedImage) -> Img { Img { w: i.width as int, h: i.height as int, pal: i.palette.entries@, data: i.raw@ } }
pub open spec fn msecs(t: Option<TimePoint>) -> Option<int> { match t { Some(t) => Some(t.0 as int), None => None } }
pub open spec fn st(start: Option<TimePoint>, pal: Option<pds::Palette>, image: Option<RleEncodedImage>, prev: Option<ObjectDefinitionSegment>) -> St {
    St {
        start: msecs(start),
        pal: match pal { Some(p) => Some(p.entries@), None => None },
        img: match image { Some(i) => Some(img(i)), None => None },
        prev: obj(prev),
    }
}
// what has been found so far in a stream s, r being what is left
pub open spec fn got_times(x: Option<TimeSpan>, s: Seq<u8>, r: Seq<u8>) -> bool {
    x matches Some(t) ==> time_only(s, None) == TRes::Sub(t.start.0 as int, t.end.0 as int, r) && r.len() < s.len()
}
pub open spec fn got_image(x: Option<(TimeSpan, RleEncodedImage)>, s: Seq<u8>, r: Seq<u8>) -> bool {
    x matches Some((t, i)) ==> img_sub(s, nothing()) == IRes::Sub(t.start.0 as int, t.end.0 as int, img(i), r) && r.len() < s.len()
}

pub trait PgsDecoder: Sized {
    type Output;
    // what the result for a stream has to be, and what it leaves
    spec fn decoded(s: Seq<u8>, r: Result<Option<Self::Output>, PgsError>, rest: Seq<u8>, reliable: bool) -> bool;
    fn parse_next<R>(reader: &mut R) -> (r: Result<Option<Self::Output>, PgsError>)
        where R: BufRead + Seek,
        ensures
            Self::decoded((*old(reader)).rest(), r, (*final(reader)).rest(), (*old(reader)).reliable()), //#C02 C03
            kept(*old(reader), *final(reader)), //#C08
            (r matches Ok(Some(_)) || (r is Err && (*old(reader)).reliable())) ==> (*final(reader)).rest().len() < (*old(reader)).rest().len(), //#C08
    ;
}
@type src/pgs/decoder.rs DecodeTimeOnly
@type src/pgs/decoder.rs DecodeTimeImage
@fn src/pgs/decoder.rs <PgsDecoder for DecodeTimeOnly>::parse_next : C02 C08
@opt traitimpl
@opt implextra=open spec fn decoded(s: Seq<u8>, r: Result<Option<TimeSpan>, PgsError>, rest: Seq<u8>, reliable: bool) -> bool {
@opt implextra=    match r {
@opt implextra=        Ok(Some(t)) => time_only(s, None) == TRes::Sub(t.start.0 as int, t.end.0 as int, rest),
@opt implextra=        Ok(None) => time_only(s, None) is End,
@opt implextra=        Err(_) => !reliable || time_only(s, None) is Bad,
@opt implextra=    }
@opt implextra=}
@ret r
@loop 0 : while let Some(seg_header) = { if subtitle.is_some() { None } else { read_header(reader)? } }
    invariant
        kept(*old(reader), *reader),
        got_times(subtitle, (*old(reader)).rest(), (*reader).rest()),
        subtitle is None ==> time_only((*old(reader)).rest(), None) == time_only((*reader).rest(), msecs(start_time)),
    ensures
        subtitle is None ==> time_only((*old(reader)).rest(), None) is End,
    decreases (*reader).rest().len() + (if subtitle is None { 1int } else { 0 })
@endfn
@fn src/pgs/decoder.rs <PgsDecoder for DecodeTimeImage>::parse_next : C03 C08
@opt traitimpl
@opt implextra=open spec fn decoded(s: Seq<u8>, r: Result<Option<(TimeSpan, RleEncodedImage)>, PgsError>, rest: Seq<u8>, reliable: bool) -> bool {
@opt implextra=    match r {
@opt implextra=        Ok(Some((t, i))) => img_sub(s, nothing()) == IRes::Sub(t.start.0 as int, t.end.0 as int, img(i), rest),
@opt implextra=        Ok(None) => img_sub(s, nothing()) is End,
@opt implextra=        Err(e) => !reliable || img_sub(s, nothing()) is Bad || (img_sub(s, nothing()) is NoImage && e is MissingImage) || (img_sub(s, nothing()) is NoPalette && e is MissingPalette),
@opt implextra=    }
@opt implextra=}
@ret r
@loop 0 : while let Some(seg_header) = { if subtitle.is_some() { None } else { read_header(reader)? } }
    invariant
        kept(*old(reader), *reader), pending(prev_ods),
        got_image(subtitle, (*old(reader)).rest(), (*reader).rest()),
        subtitle is None ==> img_sub((*old(reader)).rest(), nothing()) == img_sub((*reader).rest(), st(start_time, palette, image, prev_ods)),
    ensures
        subtitle is None ==> img_sub((*old(reader)).rest(), nothing()) is End,
    decreases (*reader).rest().len() + (if subtitle is None { 1int } else { 0 })
@endfn
}

// ------------------------------------------------------------------ the parser
pub mod sup {
use vstd::prelude::*;
use super::base::*;
use super::io_model::*;
use super::decoder::PgsDecoder;
use super::pgs::PgsError;
use super::files::*;
use std::io::{self, BufRead, BufReader, Seek};
use std::fs::File;
use std::marker::PhantomData;
// Result<Option<T>, E>::transpose
pub open spec fn flip<T, E>(r: Option<Result<T, E>>) -> Result<Option<T>, E> {
    match r { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) }
}
pub fn vx_transpose<T, E>(x: Result<Option<T>, E>) -> (r: Option<Result<T, E>>) ensures flip(r) == x
{ match x { Ok(None) => None, Ok(Some(x)) => Some(Ok(x)), Err(e) => Some(Err(e)) } }
@type src/pgs/sup.rs SupParser
@fn src/pgs/sup.rs SupParser::new : C02 C03
@ret r
@spec
    ensures r.reader == reader
@endfn
@fn src/pgs/sup.rs SupParser::from_file : C02 C03
@ret r
@spec
    ensures
        r matches Ok(p) ==> ReadSpec::rest(&p.reader) == content(path.target()) && (readable(path.target()) ==> ReadSpec::reliable(&p.reader)), //#C02 C03
        readable(path.target()) ==> r is Ok, //#C02 C03
@closure 0 (io::Error) -> (r: PgsError)
    ensures true
@endfn
@fn src/pgs/sup.rs <Iterator for SupParser>::next : C02 C03 C08
@opt rule=__x.transpose() => vx_transpose(__x)
@ret r
@spec
    ensures
        Decoder::decoded((*old(self)).reader.rest(), flip(r), (*final(self)).reader.rest(), (*old(self)).reader.reliable()), //#C02 C03
        kept((*old(self)).reader, (*final(self)).reader), //#C08
        // C08: every item consumes something
        r is Some && (*old(self)).reader.reliable() ==> (*final(self)).reader.rest().len() < (*old(self)).reader.rest().len(), //#C08
@endfn
@fn src/pgs/sup.rs <Iterator for SupParser>::size_hint : C08
@endfn
}
} // verus!
fn main() {}
