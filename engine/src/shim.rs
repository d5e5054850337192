//! What the re-typed geometry code needs besides nalgebra itself.
use crate::sym::*;
pub type Vec2 = nalgebra_glm::TVec2<Sym>;
pub type Vec3 = nalgebra_glm::TVec3<Sym>;
pub fn vec2(x: Sym, y: Sym) -> Vec2 {
    Vec2::new(x, y)
}
pub fn vec3(x: Sym, y: Sym, z: Sym) -> Vec3 {
    Vec3::new(x, y, z)
}
pub trait ToSym {
    fn to_sym(self) -> Sym;
}
macro_rules! ts { ($($t:ty),*) => {$( impl ToSym for $t { fn to_sym(self) -> Sym { Sym::rat(self as i128, 1) } } )*} }
ts!(usize, u8, u16, u32, u64, isize, i8, i16, i32, i64);
impl ToSym for Sym {
    fn to_sym(self) -> Sym {
        self
    }
}
impl ToSym for bool {
    fn to_sym(self) -> Sym {
        Sym::int(self as i64)
    }
}
impl std::ops::Mul<Vec2> for Sym {
    type Output = Vec2;
    fn mul(self, v: Vec2) -> Vec2 {
        v * self
    }
}
impl<'a> std::ops::Mul<&'a Vec2> for Sym {
    type Output = Vec2;
    fn mul(self, v: &'a Vec2) -> Vec2 {
        v * self
    }
}
