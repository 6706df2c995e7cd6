// ------------------------------------------------------------------ texts and byte strings
pub mod strs {
use vstd::prelude::*;
// white space at the end
pub open spec fn is_ws(c: char) -> bool {
    let n = c as u32;
    9 <= n <= 13 || n == 32 || n == 0x85 || n == 0xa0 || n == 0x1680 || 0x2000 <= n <= 0x200a || n == 0x2028 || n == 0x2029 || n == 0x202f || n == 0x205f || n == 0x3000
}
pub open spec fn trim_end_of(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && is_ws(s.last()) { trim_end_of(s.drop_last()) } else { s }
}
pub open spec fn trim_start_of(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && is_ws(s[0]) { trim_start_of(s.skip(1)) } else { s }
}
pub assume_specification<'a> [str::trim_end] (s: &'a str) -> (r: &'a str) ensures r@ == trim_end_of(s@);
pub assume_specification<'a> [str::trim_start] (s: &'a str) -> (r: &'a str) ensures r@ == trim_start_of(s@);
pub assume_specification<'a> [str::trim] (s: &'a str) -> (r: &'a str) ensures r@ == trim_start_of(trim_end_of(s@));

// a text or a byte string, searched for a character or a part
pub trait VxText<P> {
    spec fn begins(&self, p: P) -> bool;
    spec fn finishes(&self, p: P) -> bool;
    fn vx_starts_with(&self, p: P) -> (r: bool) ensures r == self.begins(p);
    fn vx_ends_with(&self, p: P) -> (r: bool) ensures r == self.finishes(p);
}
pub trait VxHolds<P> {
    spec fn holds(&self, p: P) -> bool;
    fn vx_contains(&self, p: P) -> (r: bool) ensures r == self.holds(p);
}
pub open spec fn suffix<T>(p: Seq<T>, s: Seq<T>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub open spec fn within<T>(p: Seq<T>, s: Seq<T>) -> bool { exists|k: int| 0 <= k && k + p.len() <= s.len() && #[trigger] s.subrange(k, k + p.len()) == p }
impl VxText<char> for str {
    open spec fn begins(&self, p: char) -> bool { self@.len() > 0 && self@[0] == p }
    open spec fn finishes(&self, p: char) -> bool { self@.len() > 0 && self@.last() == p }
    #[verifier::external_body] fn vx_starts_with(&self, p: char) -> bool { self.starts_with(p) }
    #[verifier::external_body] fn vx_ends_with(&self, p: char) -> bool { self.ends_with(p) }
}
impl<'a> VxText<&'a str> for str {
    open spec fn begins(&self, p: &'a str) -> bool { p@.is_prefix_of(self@) }
    open spec fn finishes(&self, p: &'a str) -> bool { suffix(p@, self@) }
    #[verifier::external_body] fn vx_starts_with(&self, p: &'a str) -> bool { self.starts_with(p) }
    #[verifier::external_body] fn vx_ends_with(&self, p: &'a str) -> bool { self.ends_with(p) }
}
impl<'a> VxText<&'a [u8]> for [u8] {
    open spec fn begins(&self, p: &'a [u8]) -> bool { p@.is_prefix_of(self@) }
    open spec fn finishes(&self, p: &'a [u8]) -> bool { suffix(p@, self@) }
    #[verifier::external_body] fn vx_starts_with(&self, p: &'a [u8]) -> bool { self.starts_with(p) }
    #[verifier::external_body] fn vx_ends_with(&self, p: &'a [u8]) -> bool { self.ends_with(p) }
}
impl VxHolds<char> for str {
    open spec fn holds(&self, p: char) -> bool { self@.contains(p) }
    #[verifier::external_body] fn vx_contains(&self, p: char) -> bool { self.contains(p) }
}
impl<'a> VxHolds<&'a str> for str {
    open spec fn holds(&self, p: &'a str) -> bool { within(p@, self@) }
    #[verifier::external_body] fn vx_contains(&self, p: &'a str) -> bool { self.contains(p) }
}
}
@rule __x.starts_with(__p) => (__x).vx_starts_with(__p)
@rule __x.ends_with(__p) => (__x).vx_ends_with(__p)
@rule __x.contains(__lit_p) => (__x).vx_contains(__lit_p)
