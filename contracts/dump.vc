// Unit dump: dumping images (C24)
@include base.vc
@include image.vc
@alias std::fs::create_dir => vx_create_dir
@alias std::fs::create_dir_all => create_dir_all
@path PathBuf => VxPathBuf
@path PathBuf::from => VxPathBuf::from
@path image::ImageError => ImageError
@path image::ImageBuffer<P, Container> => ImageBuffer<P>
@path image::ImageBuffer<Pix, Container> => ImageBuffer<Pix>
@path AsRef<Path> => VxAsRef<VxPath>
@path AsRef<str> => VxAsRef<VxPath>
// ------------------------------------------------------------------ paths, folders and files
pub mod files {
use vstd::prelude::*;
use super::base::*;
use super::image::*;
use std::io;
// A path is its text. PathBuf and Path
#[verifier::external_body] pub struct VxPathBuf { p: std::path::PathBuf }
#[verifier::external_body] pub struct VxPath { p: std::path::Path }
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExIoError(io::Error);
#[verifier::external_body] pub struct ImageError { p: u8 }
// the text of a file name put below a folder
pub uninterp spec fn below(folder: Seq<char>, name: Seq<char>) -> Seq<char>;
// ---- history: what has happened to the file system since the call; facts are only ever learned
// from the outcome of the operations, so that a fact in a postcondition has been established by them
pub uninterp spec fn folder_ready(p: Seq<char>) -> bool;
pub uninterp spec fn folder_refused(p: Seq<char>) -> bool;
pub uninterp spec fn level_refused(p: Seq<char>) -> bool;
pub uninterp spec fn something_at(p: Seq<char>) -> bool;
pub uninterp spec fn saved<P>(p: Seq<char>, i: ImageBuffer<P>) -> bool;
pub uninterp spec fn refused<P>(p: Seq<char>, i: ImageBuffer<P>) -> bool;
// ---- permissions: what the caller allows to be done
pub uninterp spec fn may_create(p: Seq<char>) -> bool;
pub uninterp spec fn may_save<P>(p: Seq<char>, i: ImageBuffer<P>) -> bool;
// AsRef<Path>
pub trait VxAsRef<T: ?Sized> {
    spec fn text(&self) -> Seq<char>;
}
impl VxAsRef<VxPath> for VxPathBuf { open spec fn text(&self) -> Seq<char> { self@ } }
impl VxAsRef<VxPath> for VxPath { open spec fn text(&self) -> Seq<char> { self@ } }
impl VxAsRef<VxPath> for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl VxAsRef<VxPath> for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl<A: VxAsRef<VxPath> + ?Sized> VxAsRef<VxPath> for &A { open spec fn text(&self) -> Seq<char> { (**self).text() } }
impl VxPath {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) ensures r == something_at(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r ==> something_at(self@) && !folder_ready(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r ==> folder_ready(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn join<A: VxAsRef<VxPath>>(&self, name: A) -> (r: VxPathBuf) ensures r@ == below(self@, name.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: VxPathBuf) ensures r@ == self@ { unimplemented!() }
}
impl VxPathBuf {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) ensures r == something_at(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r ==> something_at(self@) && !folder_ready(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from<A: VxAsRef<VxPath>>(s: A) -> (r: VxPathBuf) ensures r@ == s.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn push<A: VxAsRef<VxPath>>(&mut self, name: A) ensures final(self)@ == below(old(self)@, name.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &VxPath) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r ==> folder_ready(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn join<A: VxAsRef<VxPath>>(&self, name: A) -> (r: VxPathBuf) ensures r@ == below(self@, name.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: VxPathBuf) ensures r@ == self@ { unimplemented!() }
}
impl Clone for VxPathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: VxPathBuf) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn create_dir_all<A: VxAsRef<VxPath>>(p: A) -> (r: io::Result<()>)
    requires may_create(p.text()),
    ensures r is Ok ==> folder_ready(p.text()), r is Err ==> folder_refused(p.text())
{ unimplemented!() }
// one level only: its refusal says nothing about a folder whose parent is missing
#[verifier::external_body]
pub fn vx_create_dir<A: VxAsRef<VxPath>>(p: A) -> (r: io::Result<()>)
    requires may_create(p.text()),
    ensures r is Ok ==> folder_ready(p.text()), r is Err ==> level_refused(p.text())
{ unimplemented!() }
impl<P> ImageBuffer<P> {
    #[verifier::external_body]
    pub fn save<A: VxAsRef<VxPath>>(&self, p: A) -> (r: Result<(), ImageError>)
        requires may_save(p.text(), *self),
        ensures r is Ok ==> saved(p.text(), *self), r is Err ==> refused(p.text(), *self)
    { unimplemented!() }
}
}
// ------------------------------------------------------------------ iteration over a finite sequence
pub mod iter_model {
use vstd::prelude::*;
// IntoIterator
pub trait VxIntoIter: Sized {
    type Item;
    spec fn items(&self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: VxIter<Self::Item>) ensures r@ == self.items(), r@.len() <= usize::MAX;
}
#[verifier::accept_recursive_types(T)]
pub struct VxIter<T> { p: Vec<T> }
#[verifier::accept_recursive_types(T)]
pub struct VxEnum<T> { p: Vec<T> }
impl<T> VxIter<T> {
    pub closed spec fn view(&self) -> Seq<T> { self.p@ }
    pub fn enumerate(self) -> (r: VxEnum<T>) ensures r@ == self@ { VxEnum { p: self.p } }
}
// f has been called on the first k elements, and has succeeded
pub open spec fn called<T, E, F: Fn((usize, T)) -> Result<(), E>>(f: F, s: Seq<T>, k: int) -> bool {
    forall|j: int| 0 <= j < k ==> call_ensures(f, ((j as usize, #[trigger] s[j]),), Ok(()))
}
impl<T> VxEnum<T> {
    pub closed spec fn view(&self) -> Seq<T> { self.p@ }
    pub fn try_for_each<E, F: Fn((usize, T)) -> Result<(), E>>(self, f: F) -> (r: Result<(), E>)
        requires forall|k: int| 0 <= k < self@.len() && called(f, self@, k) ==> call_requires(f, ((k as usize, #[trigger] self@[k]),)),
        ensures
            r is Ok ==> called(f, self@, self@.len() as int),
            r matches Err(e) ==> exists|k: int| 0 <= k < self@.len() && called(f, self@, k) && call_ensures(f, ((k as usize, #[trigger] self@[k]),), Err(e)),
    {
        let ghost s = self@;
        let mut p = self.p;
        let n = p.len();
        let mut i: usize = 0;
        while i < n
            invariant s == self@, n == s.len(), i <= n, p@ == s.skip(i as int), called(f, s, i as int),
                forall|k: int| 0 <= k < s.len() && called(f, s, k) ==> call_requires(f, ((k as usize, #[trigger] s[k]),)),
            decreases n - i
        {
            let x = p.remove(0);
            assert(x == s[i as int]);
            let ghost k = i as int;
            let res = f((i, x));
            assert(call_ensures(f, ((k as usize, s[k]),), res));
            match res {
                Ok(u) => { assert(res == Ok::<(), E>(())); }
                Err(e) => { assert(res == Err::<(), E>(e)); return Err(e); }
            }
            i = i + 1;
            assert(called(f, s, i as int));
            assert(p@ =~= s.skip(i as int));
        }
        Ok(())
    }
}
// Borrow
pub trait VxBorrow<T> {
    spec fn target(&self) -> &T;
    fn borrow(&self) -> (r: &T) ensures r == self.target();
}
}
// ------------------------------------------------------------------ dumping
pub mod dump {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use std::io;
use super::base::*;
use super::image::*;
use super::files::*;
use super::iter_model::*;
#[verifier::external_body] pub struct VobSubError { p: u8 }
@path crate::vobsub::VobSubError => VobSubError
@path crate::image::DumpError => DumpError
@type src/image/utils.rs DumpError
@type src/errors.rs SubtileError
// generated by thiserror
impl From<DumpError> for SubtileError { fn from(e: DumpError) -> (r: Self) ensures r == SubtileError::ImageDump(e) { SubtileError::ImageDump(e) } }
impl FromSpecImpl<DumpError> for SubtileError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: DumpError) -> Self { SubtileError::ImageDump(e) } }
// `?` converts errors with From::from
pub broadcast axiom fn question_mark_dump(e: DumpError, r: SubtileError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<SubtileError, DumpError>(e, r) ==> r == SubtileError::ImageDump(e);

// C24: the name of the k-th file
pub open spec fn file_name(folder: Seq<char>, k: int) -> Seq<char> { below(folder, zpad(k as nat, 6) + ".png"@) }
// the first k images are in their files
pub open spec fn dumped<P, Img: VxBorrow<ImageBuffer<P>>>(folder: Seq<char>, s: Seq<Img>, k: int) -> bool {
    forall|j: int| 0 <= j < k ==> saved(file_name(folder, j), *(#[trigger] s[j]).target())
}
// the only permissions: creating the folder, and writing the k-th image in its file once the folder
// is there and all the images before it are in theirs
pub open spec fn permitted<P, Img: VxBorrow<ImageBuffer<P>>>(folder: Seq<char>, s: Seq<Img>) -> bool {
    &&& may_create(folder)
    &&& forall|k: int| 0 <= k < s.len() && folder_ready(folder) && dumped(folder, s, k) ==> may_save(file_name(folder, k), *(#[trigger] s[k]).target())
}
@fn src/image/utils.rs dump_image : C24
@opt generics=P: VxAsRef<VxPath>, Pix
@ret r
@spec
    requires may_save(filename.text(), *image), //#C24
    ensures r is Ok ==> saved(filename.text(), *image), r is Err ==> refused(filename.text(), *image), //#C24
@endfn
@fn src/image/utils.rs dump_images : C24
@opt text
@opt generics='a, Iter: VxIntoIter<Item = Img>, Img: VxBorrow<ImageBuffer<P>>, P
@ret r
@spec
    requires permitted(path@, images.items()),
    ensures match r {
        Ok(_) => folder_ready(path@) && dumped(path@, images.items(), images.items().len() as int),
        Err(SubtileError::ImageDump(DumpError::Folder { path: p, .. })) => p@ == path@ && folder_refused(path@),
        Err(SubtileError::ImageDump(DumpError::DumpImage { filename, .. })) => exists|k: int| 0 <= k < images.items().len() && dumped(path@, images.items(), k)
            && filename@ == file_name(path@, k) && refused(filename@, *(#[trigger] images.items()[k]).target()),
        Err(_) => false,
    }, //#C24
@start
    broadcast use question_mark_dump;
@closure 0 (io::Error) -> (r: DumpError)
    ensures r matches DumpError::Folder { path: p, .. } && p@ == folder_path@
@closure 1 ((usize, Img)) -> (r: Result<(), DumpError>)
    requires may_save(file_name(folder_path@, __p0.0 as int), *__p0.1.target()),
    ensures
        r is Ok ==> saved(file_name(folder_path@, __p0.0 as int), *__p0.1.target()),
        r matches Err(e) ==> (e matches DumpError::DumpImage { filename, .. } && filename@ == file_name(folder_path@, __p0.0 as int) && refused(filename@, *__p0.1.target())),
@closure 2 (ImageError) -> (r: DumpError)
    ensures r matches DumpError::DumpImage { filename, .. } && filename@ == filepath@
@endfn
}
} // verus!
fn main() {}
