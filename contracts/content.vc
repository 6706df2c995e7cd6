// ------------------------------------------------------------------ areas
pub mod content {
use vstd::prelude::*;
@type src/content/mod.rs ContentError
@type src/content/area.rs AreaValues derive=Debug,Copy,Clone
@type src/content/area.rs Area derive=Debug,Copy,Clone
@type src/content/size.rs Size

// C19: a valid area: strictly ordered edges, extents that fit in their type
pub open spec fn valid(v: AreaValues) -> bool {
    v.x1 < v.x2 && v.y1 < v.y2 && v.x2 - v.x1 < 65535 && v.y2 - v.y1 < 65535
}

@fn src/content/area.rs Area::left : C19 C16
@ret r
@spec
    ensures r == self.0.x1
@endfn
@fn src/content/area.rs Area::top : C19 C16
@ret r
@spec
    ensures r == self.0.y1
@endfn
@fn src/content/area.rs Area::width : C19 C16
@ret r
@spec
    requires valid(self.0),
    ensures r == self.0.x2 - self.0.x1 + 1
@endfn
@fn src/content/area.rs Area::height : C19 C16
@ret r
@spec
    requires valid(self.0),
    ensures r == self.0.y2 - self.0.y1 + 1
@endfn
@fn src/content/area.rs Area::size : C19 C16
@ret r
@spec
    requires valid(self.0),
    ensures r.w == self.0.x2 - self.0.x1 + 1, r.h == self.0.y2 - self.0.y1 + 1
@endfn
@fn src/content/area.rs <TryFrom<AreaValues> for Area>::try_from : C19 C16
@ret r
@spec
    ensures
        r is Ok <==> valid(coords_value),
        r matches Ok(a) ==> a.0 == coords_value,
@endfn
}
