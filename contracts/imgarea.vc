// ------------------------------------------------------------------ images that have an area
pub mod imgarea {
use vstd::prelude::*;
use super::content::*;
pub trait ImageArea {
    spec fn place(&self) -> Area;
    fn area(&self) -> (r: Area) ensures r == self.place();
}
// the two methods of ImageSize, which every type with an area has
pub trait ImageWidth: ImageArea {
    fn width(&self) -> (r: u32) requires valid(self.place().0) ensures r == self.place().0.x2 - self.place().0.x1 + 1;
}
pub trait ImageHeight: ImageArea {
    fn height(&self) -> (r: u32) requires valid(self.place().0) ensures r == self.place().0.y2 - self.place().0.y1 + 1;
}
@fn src/image/mod.rs <ImageSize for U>::width : C15 C19
@opt traitimpl
@opt impl=impl<U: ImageArea> ImageWidth for U
@endfn
@fn src/image/mod.rs <ImageSize for U>::height : C15 C19
@opt traitimpl
@opt impl=impl<U: ImageArea> ImageHeight for U
@endfn
}
