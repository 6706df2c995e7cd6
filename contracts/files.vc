// ------------------------------------------------------------------ files (needs io.vc)
pub mod files {
use vstd::prelude::*;
use std::fs::File;
use std::io::{self, BufReader, Read};
use super::io_model::*;
// Path and PathBuf
#[verifier::external_body] pub struct VxPath { p: std::path::Path }
#[verifier::external_body] pub struct VxPathBuf { p: std::path::PathBuf }
impl VxPath {
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: VxPathBuf) { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) ensures readable(self) ==> r { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: io::Result<VxMetadata>) ensures readable(self) ==> r is Ok, r matches Ok(m) ==> m.size() == content(self).len() { unimplemented!() }
}
#[verifier::external_body] pub struct VxMetadata { p: std::fs::Metadata }
impl VxMetadata {
    pub uninterp spec fn size(&self) -> nat;
    #[verifier::external_body]
    pub fn len(&self) -> (r: u64) ensures r == self.size() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_metadata(p: &VxPath) -> (r: io::Result<VxMetadata>) ensures readable(p) ==> r is Ok, r matches Ok(m) ==> m.size() == content(p).len() { unimplemented!() }
#[verifier::external_body]
pub fn vx_pathbuf(p: &VxPath) -> (r: VxPathBuf) { unimplemented!() }
// AsRef
pub trait VxAsRef<T: ?Sized> {
    spec fn target(&self) -> &T;
    fn as_ref(&self) -> (r: &T) ensures r == self.target();
}
// what the file of that name holds; whether it can be opened and read without failure
pub uninterp spec fn content(p: &VxPath) -> Seq<u8>;
pub uninterp spec fn readable(p: &VxPath) -> bool;
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExFile(File);
impl ReadSpecImpl for File {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn reliable(&self) -> bool;
}
#[verifier::external_body]
pub fn vx_open(p: &VxPath) -> (r: io::Result<File>)
    ensures readable(p) ==> r is Ok, r matches Ok(f) ==> ReadSpec::rest(&f) == content(p) && (readable(p) ==> ReadSpec::reliable(&f))
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_read(p: &VxPath) -> (r: io::Result<Vec<u8>>)
    ensures readable(p) ==> r is Ok, r matches Ok(d) ==> d@ == content(p)
{ unimplemented!() }
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(R)]
pub struct ExBufReader<R: ?Sized>(BufReader<R>);
impl<R: Read + ?Sized> ReadSpecImpl for BufReader<R> {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn reliable(&self) -> bool;
}
impl<R: Read + ?Sized> BufReadSpecImpl for BufReader<R> { uninterp spec fn buffered(&self) -> nat; }
#[verifier::external_body]
pub fn vx_buf_reader<R: Read>(r: R) -> (b: BufReader<R>)
    ensures ReadSpec::rest(&b) == r.rest(), ReadSpec::reliable(&b) == r.reliable()
{ BufReader::new(r) }
}
@path fs::File::open => vx_open
@path fs::read => vx_fs_read
@path fs::metadata => vx_metadata
@path std::fs::metadata => vx_metadata
@path AsRef<Path> => VxAsRef<VxPath>
@path Path => VxPath
@path std::fs::File::open => vx_open
@path std::fs::read => vx_fs_read
@path File::open => vx_open
@path BufReader::new => vx_buf_reader
@path io::BufReader::new => vx_buf_reader
@path PathBuf => VxPathBuf
@rule path.into() => vx_pathbuf(path)
