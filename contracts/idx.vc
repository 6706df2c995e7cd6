// Unit idx: palettes (C20), idx files (C21), probing of files (C23)
@include vobcommon.vc
@rule Regex::new("^([A-Za-z/ ]+): (.*)").unwrap() => Regex::Key
@rule Regex::new("^([a-z]+), index: (.*)").unwrap() => Regex::Lang

@include nomlist.vc
// ------------------------------------------------------------------ text
pub mod text_model {
use vstd::prelude::*;
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < 128 }
pub assume_specification<'a> [std::str::from_utf8] (s: &'a [u8]) -> (r: Result<&'a str, std::str::Utf8Error>)
    ensures ascii(s@) ==> (r matches Ok(t) && t@.len() == s@.len() && forall|k: int| 0 <= k < s@.len() ==> #[trigger] t@[k] == s@[k] as char);
// the value of a digit, -1 for another character
pub open spec fn digit_of(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'z' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'Z' { c as int - 'A' as int + 10 } else { -1 }
}
pub open spec fn digits_in(s: Seq<char>, radix: int) -> bool { forall|k: int| 0 <= k < s.len() ==> 0 <= digit_of(#[trigger] s[k]) < radix }
pub open spec fn number(s: Seq<char>, radix: int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { number(s.drop_last(), radix) * radix + digit_of(s.last()) }
}
pub open spec fn unsign(s: Seq<char>) -> Seq<char> { if s.len() > 1 && s[0] == '+' { s.skip(1) } else { s } }
pub assume_specification [u8::from_str_radix] (s: &str, radix: u32) -> (r: Result<u8, std::num::ParseIntError>)
    requires 2 <= radix <= 36,
    ensures ({ let t = unsign(s@); match r {
        Ok(v) => t.len() > 0 && digits_in(t, radix as int) && v == number(t, radix as int),
        Err(_) => !(t.len() > 0 && digits_in(t, radix as int) && number(t, radix as int) <= 255),
    } });
pub open spec fn is_hex(c: u8) -> bool { 48 <= c <= 57 || 65 <= c <= 70 || 97 <= c <= 102 }
pub assume_specification [u8::is_ascii_hexdigit] (c: &u8) -> (r: bool)
    ensures r == is_hex(*c);
}

// ------------------------------------------------------------------ palettes
pub mod palette {
use vstd::prelude::*;
broadcast use super::base::bit_values;
use super::base::*;
use super::nom::{*, self};
use super::nom::tag_p as tag;
use super::nom_list::*;
use super::text_model::*;
use super::image::*;
use super::io_model::*;
use super::vobsub::VobSubError;
@type src/vobsub/palette.rs Palette
pub fn vx_arr3(c: (u8, u8, u8)) -> (r: [u8; 3]) ensures r == [c.0, c.1, c.2] { [c.0, c.1, c.2] }
pub fn vx_copy_into<T: Copy, const N: usize>(a: &mut [T; N], s: &[T])
    requires s@.len() == N,
    ensures final(a)@ == s@
{
    let mut i: usize = 0;
    while i < N
        invariant s@.len() == N, i <= N, forall|k: int| 0 <= k < i ==> a@[k] == s@[k],
        decreases N - i
    {
        a[i] = s[i];
        i = i + 1;
    }
    proof { assert(a@ =~= s@); }
}

// C20: the text of a palette
pub open spec fn hexv(c: u8) -> int { if c <= 57 { c - 48 } else if c <= 70 { c - 55 } else { c - 87 } }
pub open spec fn hex2(s: Seq<u8>, k: int) -> bool { k + 2 <= s.len() && is_hex(s[k]) && is_hex(s[k + 1]) }
pub open spec fn byte_of(s: Seq<u8>, k: int) -> u8 { (hexv(s[k]) * 16 + hexv(s[k + 1])) as u8 }
pub open spec fn hex6(s: Seq<u8>, k: int) -> bool { hex2(s, k) && hex2(s, k + 2) && hex2(s, k + 4) }
pub open spec fn colour_of(s: Seq<u8>, k: int) -> Rgb<u8> { Rgb([byte_of(s, k), byte_of(s, k + 2), byte_of(s, k + 4)]) }
// the n-th colour (from 0) of a list, eight bytes after the previous one, follows ", "
pub open spec fn entry(s: Seq<u8>, n: int) -> bool { hex6(s, 8 * n) && (n > 0 ==> s[8 * n - 2] == 44 && s[8 * n - 1] == 32) }
// s starts with a list of exactly n colours
pub open spec fn colours(s: Seq<u8>, n: int) -> bool { (forall|k: int| 0 <= k < n ==> #[trigger] entry(s, k)) && !entry(s, n) }
pub open spec fn list_end(n: int) -> int { if n == 0 { 0 } else { 8 * n - 2 } }

pub proof fn one_count(s: Seq<u8>, n: int, m: int)
    requires 0 <= n, 0 <= m, colours(s, n), colours(s, m)
    ensures n == m
{ if n < m { assert(entry(s, n)); } else if m < n { assert(entry(s, m)); } }

// what hex_rgb gives
pub open spec fn rgb_sp(i: Seq<u8>, r: IResult<&[u8], Rgb<u8>>) -> bool {
    match r {
        Ok((m, v)) => hex6(i, 0) && v == colour_of(i, 0) && m@ == i.skip(6),
        Err(e) => e is Error && !hex6(i, 0),
    }
}
pub open spec fn is_rgb<'a, P: Parser<&'a [u8], Output = Rgb<u8>>>(p: P) -> bool {
    forall|i: &'a [u8], r: IResult<&'a [u8], Rgb<u8>>| #[trigger] p.sp(i, r) ==> rgb_sp(i@, r)
}
pub proof fn hex6_skip(s: Seq<u8>, a: int)
    requires 0 <= a <= s.len(),
    ensures hex6(s.skip(a), 0) == hex6(s, a), hex6(s, a) ==> colour_of(s.skip(a), 0) == colour_of(s, a)
{ }
pub proof fn more_colours<'a, P: Parser<&'a [u8], Output = Rgb<u8>>>(q: ByteTag<&'a [u8]>, p: P, s: Seq<u8>, n: int, i: &'a [u8], v: Seq<Rgb<u8>>, m: &'a [u8])
    requires more(q, p, i, v, m), is_rgb(p), q.t@ == seq![44u8, 32u8], n > 0, 8 * n - 2 <= s.len(), i@ == s.skip(8 * n - 2),
    ensures m@ == s.skip(8 * (n + v.len()) - 2), 8 * (n + v.len()) - 2 <= s.len(),
        forall|k: int| 0 <= k < v.len() ==> #[trigger] entry(s, n + k) && v[k] == colour_of(s, 8 * (n + k)),
    decreases v.len()
{
    broadcast use skip_skip;
    if v.len() > 0 {
        let (k, o, l) = choose|k: &'a [u8], o: &'a [u8], l: &'a [u8]| #[trigger] q.sp(i, Ok((k, o))) && #[trigger] p.sp(k, Ok((l, v[0]))) && l@.len() != i@.len() && more(q, p, l, v.skip(1), m);
        assert(rgb_sp(k@, Ok((l, v[0]))));
        assert(k@ == s.skip(8 * n));
        assert(i@.take(2)[0] == s[8 * n - 2] && i@.take(2)[1] == s[8 * n - 1]);
        hex6_skip(s, 8 * n);
        assert(entry(s, n));
        assert(l@ == s.skip(8 * (n + 1) - 2));
        more_colours(q, p, s, n + 1, l, v.skip(1), m);
        assert forall|k: int| 0 <= k < v.len() implies #[trigger] entry(s, n + k) && v[k] == colour_of(s, 8 * (n + k)) by {
            if k > 0 { assert(entry(s, n + 1 + (k - 1)) && v.skip(1)[k - 1] == v[k]); }
        }
    }
}
pub proof fn no_more_colours<'a, P: Parser<&'a [u8], Output = Rgb<u8>>>(q: ByteTag<&'a [u8]>, p: P, s: Seq<u8>, n: int, m: &'a [u8])
    requires no_more(q, p, m), is_rgb(p), q.t@ == seq![44u8, 32u8], n > 0, 8 * n - 2 <= s.len(), m@ == s.skip(8 * n - 2),
    ensures !entry(s, n)
{
    broadcast use skip_skip;
    if entry(s, n) {
        assert(m@.take(2) =~= seq![44u8, 32u8]);
        assert(starts(m@, q.t@));
        let (k, o) = choose|k: &'a [u8], o: &'a [u8]| #[trigger] q.sp(m, Ok((k, o))) && fails(p, k);
        let e = choose|e: nom::error::Error<&'a [u8]>| #[trigger] p.sp(k, Err(nom::Err::Error(e)));
        assert(rgb_sp(k@, Err(nom::Err::Error(e))));
        assert(k@ == s.skip(8 * n));
        hex6_skip(s, 8 * n);
    }
}
// the list of colours at the start of i
pub broadcast proof fn list_of_colours<'a, P: Parser<&'a [u8], Output = Rgb<u8>>>(x: SeparatedList0<ByteTag<&'a [u8]>, P>, i: &'a [u8], r: IResult<&'a [u8], Vec<Rgb<u8>>>)
    requires #[trigger] x.sp(i, r), is_rgb(x.p), x.q.t@ == seq![44u8, 32u8],
    ensures r matches Ok((m, v)) && colours(i@, v@.len() as int) && m@ == i@.skip(list_end(v@.len() as int))
        && forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == colour_of(i@, 8 * k)
{
    broadcast use skip_skip;
    let s = i@;
    match r {
        Ok((m, v)) => {
            if v@.len() == 0 {
                let e = choose|e: nom::error::Error<&'a [u8]>| #[trigger] x.p.sp(i, Err(nom::Err::Error(e)));
                assert(rgb_sp(s, Err(nom::Err::Error(e))));
                assert(s.skip(0) =~= s);
            } else {
                let j = choose|j: &'a [u8]| #[trigger] x.p.sp(i, Ok((j, v@[0]))) && more(x.q, x.p, j, v@.skip(1), m);
                assert(rgb_sp(s, Ok((j, v@[0]))));
                more_colours(x.q, x.p, s, 1, j, v@.skip(1), m);
                no_more_colours(x.q, x.p, s, v@.len() as int, m);
                assert forall|k: int| 0 <= k < v@.len() implies #[trigger] entry(s, k) by { if k > 0 { assert(entry(s, 1 + (k - 1))); } }
                assert forall|k: int| 0 <= k < v@.len() implies #[trigger] v@[k] == colour_of(s, 8 * k) by {
                    if k > 0 { assert(entry(s, 1 + (k - 1)) && v@.skip(1)[k - 1] == v@[k]); }
                }
            }
        }
        Err(e) => {
            if !(x.p.sp(i, Err(e)) && !(e is Error)) {
                let (j, o, v, m) = choose|j: &'a [u8], o: Rgb<u8>, v: Seq<Rgb<u8>>, m: &'a [u8]| #[trigger] x.p.sp(i, Ok((j, o))) && #[trigger] more(x.q, x.p, j, v, m) && {
                    ||| x.q.sp(m, Err(e)) && !(e is Error)
                    ||| exists|k: &'a [u8], w: &'a [u8]| #[trigger] x.q.sp(m, Ok((k, w))) && x.p.sp(k, Err(e)) && !(e is Error)
                    ||| exists|k: &'a [u8], w: &'a [u8], l: &'a [u8], c: Rgb<u8>| #[trigger] x.q.sp(m, Ok((k, w))) && #[trigger] x.p.sp(k, Ok((l, c))) && l@.len() == m@.len()
                };
                if exists|k: &'a [u8], w: &'a [u8], l: &'a [u8], c: Rgb<u8>| #[trigger] x.q.sp(m, Ok((k, w))) && #[trigger] x.p.sp(k, Ok((l, c))) && l@.len() == m@.len() {
                    let (k, w, l, c) = choose|k: &'a [u8], w: &'a [u8], l: &'a [u8], c: Rgb<u8>| #[trigger] x.q.sp(m, Ok((k, w))) && #[trigger] x.p.sp(k, Ok((l, c))) && l@.len() == m@.len();
                    assert(rgb_sp(k@, Ok((l, c))));
                    assert(false);
                } else {
                    let (k, w) = choose|k: &'a [u8], w: &'a [u8]| #[trigger] x.q.sp(m, Ok((k, w))) && x.p.sp(k, Err(e)) && !(e is Error);
                    assert(rgb_sp(k@, Err::<(&'a [u8], Rgb<u8>), _>(e)));
                    assert(false);
                }
            } else { assert(rgb_sp(s, Err::<(&'a [u8], Rgb<u8>), _>(e))); assert(false); }
        }
    }
}

@fn src/vobsub/palette.rs from_hex : C20
@ret r
@spec
    requires hex2(input@, 0), input@.len() == 2,
    ensures r matches Ok(v) && v == byte_of(input@, 0) //#C20
@start
    proof { reveal_with_fuel(number, 3); }
@endfn
@fn src/vobsub/palette.rs hex_primary : C20
@ret r
@spec
    ensures match r {
        Ok((m, v)) => hex2(input@, 0) && v == byte_of(input@, 0) && m@ == input@.skip(2),
        Err(e) => e is Error && !hex2(input@, 0),
    } //#C20
@closure 0 (u8) -> (r: bool)
    ensures r == is_hex(c)
@endfn
@fn src/vobsub/palette.rs hex_rgb : C20
@opt rule=__a.into() => vx_arr3(__a)
@ret r
@spec
    ensures match r {
        Ok((m, v)) => hex6(input@, 0) && v == colour_of(input@, 0) && m@ == input@.skip(6),
        Err(e) => e is Error && !hex6(input@, 0),
    } //#C20
@endfn
@fn src/vobsub/palette.rs palette : C20 C21
@opt rule=<[Rgb<u8>; 16] as AsMut<_>>::as_mut(&mut __a).clone_from_slice(__b) => vx_copy_into(&mut __a, __b)
@ret r
@spec
    ensures match r {
        Ok((m, v)) => colours(input@, 16) && input@.len() >= 126 && m@ == input@.skip(126) && forall|k: int| 0 <= k < 16 ==> #[trigger] v@[k] == colour_of(input@, 8 * k),
        Err(e) => e is Error && !colours(input@, 16),
    } //#C20
@start
    broadcast use list_of_colours;
    proof { assert forall|n: int| #[trigger] colours(input@, n) && colours(input@, 16) && n >= 0 implies n == 16 by { one_count(input@, n, 16); }
        assert(colours(input@, 16) ==> entry(input@, 15)); }
@closure 0 (Vec<Rgb<u8>>) -> (r: Result<Palette, VobSubError>)
    ensures match r { Ok(p) => vec@.len() == 16 && p@ =~= vec@, Err(_) => vec@.len() != 16 }
@endfn
}

// ------------------------------------------------------------------ text of idx files
pub mod idx_model {
use vstd::prelude::*;
use vstd::utf8::*;
use std::io::{self, BufReader, Read};
use super::io_model::*;
use super::strs::*;
use super::palette::*;
use super::image::*;
use super::vobsub::VobSubError;
pub broadcast axiom fn str_ext(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@.len() == 0;
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o matches Some(x) ==> call_requires(f, (x,)),
    ensures o is None ==> r == d, o matches Some(x) ==> call_ensures(f, (x,), r);
// r.map_err(f) for a borrowed f
pub fn vx_map_err_ref<T, E, U, F: Fn(E) -> U>(r: Result<T, E>, f: &F) -> (x: Result<T, U>)
    requires r matches Err(e) ==> call_requires(*f, (e,)),
    ensures match r { Ok(v) => x == Ok::<T, U>(v), Err(e) => x matches Err(u) && call_ensures(*f, (e,), u) }
{ match r { Ok(v) => Ok(v), Err(e) => Err(f(e)) } }

// a small string
#[verifier::external_body] pub struct CompactString { p: String }
impl CompactString { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vx_compact(s: &str) -> (r: CompactString) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_compact_str(s: &CompactString) -> (r: &str) ensures r@ == s@ { unimplemented!() }

// length of the longest prefix of characters in a class
pub open spec fn run_len(s: Seq<char>, c: spec_fn(char) -> bool) -> int decreases s.len() {
    if s.len() > 0 && c(s[0]) { 1 + run_len(s.skip(1), c) } else { 0 }
}
pub open spec fn before_newline(s: Seq<char>) -> Seq<char> { s.take(run_len(s, |c: char| c != '\n')) }
// the two groups of `^([class]+)sep(.*)`, when no character of sep is in the class
pub open spec fn two_groups(s: Seq<char>, c: spec_fn(char) -> bool, sep: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let n = run_len(s, c);
    if n > 0 && n + sep.len() <= s.len() && s.subrange(n, n + sep.len()) == sep {
        Some((s.take(n), before_newline(s.skip(n + sep.len()))))
    } else { None }
}
pub open spec fn key_char(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '/' || c == ' ' }
pub open spec fn lang_char(c: char) -> bool { 'a' <= c <= 'z' }
// regular expressions the code uses
pub enum Regex { Key, Lang }
pub open spec fn groups(p: Regex, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match p {
        Regex::Key => two_groups(s, |c: char| key_char(c), ": "@),
        Regex::Lang => two_groups(s, |c: char| lang_char(c), ", index: "@),
    }
}
#[verifier::external_body] pub struct Captures<'t> { p: Vec<&'t str> }
pub struct Match<'t> { pub s: &'t str }
impl Regex {
    #[verifier::external_body]
    pub fn captures<'t>(&self, t: &'t str) -> (r: Option<Captures<'t>>)
        ensures match r { Some(c) => groups(*self, t@) == Some(c@), None => groups(*self, t@) is None }
    { unimplemented!() }
}
impl<'t> Captures<'t> {
    pub uninterp spec fn view(&self) -> (Seq<char>, Seq<char>);
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<Match<'t>>)
        ensures i == 1 ==> (r matches Some(m) && m.s@ == self@.0), i == 2 ==> (r matches Some(m) && m.s@ == self@.1), i > 2 ==> r is None
    { unimplemented!() }
}
impl<'t> Match<'t> { pub fn as_str(&self) -> (r: &'t str) ensures r == self.s { self.s } }

// C21: what the lines of an idx file say
pub open spec fn default_palette() -> Palette { [
    Rgb([0x00u8, 0x00u8, 0x00u8]), Rgb([0xf0u8, 0xf0u8, 0xf0u8]), Rgb([0xccu8, 0xccu8, 0xccu8]), Rgb([0x99u8, 0x99u8, 0x99u8]),
    Rgb([0x33u8, 0x33u8, 0xfau8]), Rgb([0x11u8, 0x11u8, 0xbbu8]), Rgb([0xfau8, 0x33u8, 0x33u8]), Rgb([0xbbu8, 0x11u8, 0x11u8]),
    Rgb([0x33u8, 0xfau8, 0x33u8]), Rgb([0x11u8, 0xbbu8, 0x11u8]), Rgb([0xfau8, 0xfau8, 0x33u8]), Rgb([0xbbu8, 0xbbu8, 0x11u8]),
    Rgb([0xfau8, 0x33u8, 0xfau8]), Rgb([0xbbu8, 0x11u8, 0xbbu8]), Rgb([0x33u8, 0xfau8, 0xfau8]), Rgb([0x11u8, 0xbbu8, 0xbbu8]),
] }
// a palette value: 16 colours and nothing else
pub open spec fn palette_ok(v: Seq<u8>) -> bool { colours(v, 16) && v.len() == 126 }
pub open spec fn is_palette(p: Palette, v: Seq<u8>) -> bool { palette_ok(v) && forall|k: int| 0 <= k < 16 ==> #[trigger] p@[k] == colour_of(v, 8 * k) }
// what has been read so far: the value of the last palette line, and the language of the last id line
pub struct Keys { pub pal: Option<Seq<u8>>, pub lang: Option<Seq<char>> }
pub open spec fn lang_of(v: Seq<char>) -> Option<Seq<char>> { match groups(Regex::Lang, v) { Some((l, _)) => Some(l), None => None } }
// one line; None: an invalid palette
pub open spec fn read_one(line: Seq<char>, k: Keys) -> Option<Keys> {
    match groups(Regex::Key, trim_end_of(line)) {
        Some((key, val)) => {
            if key == "palette"@ { if palette_ok(encode_utf8(val)) { Some(Keys { pal: Some(encode_utf8(val)), ..k }) } else { None } }
            else if key == "id"@ { Some(Keys { lang: lang_of(val), ..k }) }
            else { Some(k) }
        }
        None => Some(k),
    }
}
// all lines; None: an invalid palette, or a line that is not UTF-8
pub open spec fn read_all(s: Seq<u8>, k: Keys) -> Option<Keys> decreases s.len() {
    if s.len() == 0 { Some(k) } else {
        let l = s.take(line_len(s));
        if !valid_utf8(l) { None } else {
            match read_one(decode_utf8(l), k) { Some(k2) => if 0 < line_len(s) <= s.len() { read_all(s.skip(line_len(s)), k2) } else { None }, None => None }
        }
    }
}
pub open spec fn no_keys() -> Keys { Keys { pal: None, lang: None } }
}

// ------------------------------------------------------------------ results of parsers, with nothing left
pub mod to_result_no_rest {
use vstd::prelude::*;
use super::base::*;
use super::nom::{self, IResult};
use super::vobsub::NomError;
// Default and Eq, for an input
pub trait VxDefault: Sized { spec fn empty(&self) -> bool; fn is_default(&self) -> (r: bool) ensures r == self.empty(); }
impl<'a> VxDefault for &'a [u8] { open spec fn empty(&self) -> bool { self@.len() == 0 } fn is_default(&self) -> (r: bool) { self.len() == 0 } }
pub trait IResultNoRest<I: VxDefault, O>: Sized {
    spec fn res(&self) -> IResult<I, O>;
    fn to_result_no_rest(self) -> (r: Result<O, NomError>)
        ensures match r { Ok(v) => self.res() matches Ok((m, x)) && x == v && m.empty(), Err(_) => self.res() matches Ok((m, _)) ==> !m.empty() };
}
@fn src/vobsub/mod.rs <IResultExt<I, O, E> for IResult<I, O, E>>::to_result_no_rest : C21
@opt traitimpl
@opt impl=impl<I: VxDefault, O> IResultNoRest<I, O> for IResult<I, O>
@opt implextra=open spec fn res(&self) -> IResult<I, O> { *self }
@opt rule=__a == I::default() => __a.is_default()
@opt rule=I::default() == __a => __a.is_default()
@opt rule=__a != I::default() => !__a.is_default()
@opt rule=I::default() != __a => !__a.is_default()
@endfn
}

// ------------------------------------------------------------------ idx files
@eta VobSubError::PaletteError (NomError) -> VobSubError
pub mod idx {
use vstd::prelude::*;
broadcast use super::base::bit_values;
use vstd::utf8::*;
use std::io::{self, BufReader, Read, BufRead};
use super::base::*;
use super::io_model::{ReadSpec, line_len};
use super::nom::{self, *};
use super::text_model::*;
use super::image::*;
use super::palette::*;
use super::to_result_no_rest::*;
use super::idx_model::*;
use super::vobsub::{VobSubError, NomError};
@const src/vobsub/palette.rs DEFAULT_PALETTE
@const src/vobsub/idx.rs PALETTE_KEY
@const src/vobsub/idx.rs LANG_KEY
@type src/vobsub/idx.rs Lang
@type src/vobsub/idx.rs Index
// C21: the language, if any
pub open spec fn lang_text(l: Option<Lang>) -> Option<Seq<char>> { match l { Some(x) => Some(x.0@), None => None } }
// C21: an index holds what its lines say
pub open spec fn holds(x: Index, k: Keys) -> bool {
    &&& lang_text(x.lang) == k.lang
    &&& match k.pal { Some(v) => is_palette(x.palette, v), None => x.palette == default_palette() }
}
pub proof fn nothing_left(s: Seq<u8>)
    ensures s.len() == 0 ==> valid_utf8(s.take(0)), 0 <= line_len(s) <= s.len(), s.len() > 0 ==> line_len(s) > 0,
    decreases s.len()
{ if s.len() > 0 { nothing_left(s.skip(1)); } }
@fn src/vobsub/idx.rs Lang::lang : C21
@opt rule=&self.0 => vx_compact_str(&self.0)
@ret r
@spec
    ensures r@ == self.0@ //#C21
@endfn
@fn src/vobsub/idx.rs <TryFrom<&str> for Lang>::try_from : C21
@opt rule=__a.into() => vx_compact(__a)
@ret r
@spec
    ensures match r { Ok(l) => lang_of(value@) == Some(l.0@), Err(_) => lang_of(value@) is None } //#C21
@closure 1 (Captures<'_>) -> (r: Result<Lang, VobSubError>)
    ensures r matches Ok(l) && l.0@ == cap@.0
@endfn
@fn src/vobsub/idx.rs Index::read_index : C21
@opt attr=#[verifier::loop_isolation(false)]
@opt rule=__a.map_err(mkerr) => vx_map_err_ref(__a, mkerr)
@ret r
@spec
    requires forall|e: io::Error| #[trigger] call_requires(*mkerr, (e,)),
    ensures
        r matches Ok(x) ==> (read_all(input.rest(), no_keys()) matches Some(k) && holds(x, k)), //#C21
        r is Err && input.reliable() ==> read_all(input.rest(), no_keys()) is None, //#C21
@start
    broadcast use str_ext;
    let ghost all = input.rest();
    let ghost sound = input.reliable();
    let ghost mut cur = all;
    let ghost mut k = no_keys();
    proof { nothing_left(cur); }
@loop 0 : while input.read_line(&mut buf).map_err(mkerr)? > 0
    invariant
        buf@.len() == 0, input.rest() == cur, input.reliable() == sound,
        cur.len() == 0 ==> valid_utf8(cur.take(0)), cur.len() > 0 ==> line_len(cur) > 0,
        read_all(all, no_keys()) == read_all(cur, k),
        lang_text(lang) == k.lang,
        match k.pal { Some(v) => palette_val matches Some(p) && is_palette(p, v), None => palette_val is None },
        forall|e: io::Error| #[trigger] call_requires(*mkerr, (e,)),
    decreases cur.len()
@loopstart 0
    broadcast use str_ext;
    proof {
        nothing_left(cur);
        assert(buf@ =~= decode_utf8(cur.take(line_len(cur))));
        cur = input.rest();
        nothing_left(cur);
    }
    let ghost l = buf@;
@loopend 0
    proof { k = read_one(l, k)->Some_0; }
@endfn
@fn src/vobsub/idx.rs Index::init : C21
@ret r
@spec
    ensures r.palette == palette, r.lang == lang //#C21
@endfn
@fn src/vobsub/idx.rs Index::palette : C21
@ret r
@spec
    ensures *r == self.palette //#C21
@endfn
@fn src/vobsub/idx.rs Index::lang : C21
@ret r
@spec
    ensures *r == self.lang //#C21
@endfn
}


// ------------------------------------------------------------------ opening an idx file
pub mod idx_open {
use vstd::prelude::*;
use std::io::{self, BufReader, Read, BufRead};
use std::path::Path;
use super::base::*;
use super::io_model::ReadSpec;
use super::files::*;
use super::idx_model::*;
use super::idx::*;
use super::vobsub::VobSubError;
@fn src/vobsub/idx.rs Index::open : C21
@ret r
@spec
    ensures
        r matches Ok(x) ==> (read_all(content(path.target()), no_keys()) matches Some(k) && holds(x, k)), //#C21
        r is Err && readable(path.target()) ==> read_all(content(path.target()), no_keys()) is None, //#C21
@closure 0 (io::Error) -> (r: VobSubError)
    ensures true
@endfn
}

// ------------------------------------------------------------------ probing
pub mod probe {
use vstd::prelude::*;
broadcast use super::base::bit_values;
use std::io::{self, Read};
use std::path::Path;
use super::base::*;
use super::io_model::*;
use super::files::*;
use super::vobsub::VobSubError;
// C23: what a probe answers
pub broadcast proof fn whole(s: Seq<u8>) ensures #[trigger] s.subrange(0, s.len() as int) == s { assert(s.subrange(0, s.len() as int) =~= s); }
pub open spec fn probed(p: &VxPath, magic: Seq<u8>, r: Result<bool, VobSubError>) -> bool {
    match r {
        Ok(b) => content(p).len() >= magic.len() && b == (content(p).take(magic.len() as int) == magic),
        Err(_) => content(p).len() < magic.len() || !readable(p),
    }
}
@fn src/vobsub/probe.rs has_magic : C23
@ret r
@spec
    ensures probed(path, magic@, r), //#C23
@start
    broadcast use whole, bytes_eq;
@closure 0 (io::Error) -> (r: VobSubError)
    ensures true
@endfn
// "# VobSub index file"
pub open spec fn idx_magic() -> Seq<u8> { seq![35u8, 32, 86, 111, 98, 83, 117, 98, 32, 105, 110, 100, 101, 120, 32, 102, 105, 108, 101] }
pub open spec fn sub_magic() -> Seq<u8> { seq![0x00u8, 0x00, 0x01, 0xba] }
@fn src/vobsub/probe.rs is_idx_file : C23
@ret r
@spec
    ensures probed(path.target(), idx_magic(), r), //#C23
@endfn
@fn src/vobsub/probe.rs is_sub_file : C23
@ret r
@spec
    ensures probed(path.target(), sub_magic(), r), //#C23
@endfn
}
} // verus!
fn main() {}
