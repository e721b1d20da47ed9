//! Host types as the simulator sees them: how to build one from component bit
//! patterns, how to take it apart again, and which GLSL type it stands for.
//! Everything goes through public fields, constructors and indexing of the math
//! libraries, never through crevice.

use crate::model::{Layout, Scalar, Ty};
use std::sync::Arc;

pub struct Reader<'a> {
    pub leaves: &'a [u64],
    pub pos: usize,
}

impl<'a> Reader<'a> {
    pub fn new(leaves: &'a [u64]) -> Self {
        Reader { leaves, pos: 0 }
    }
    pub fn next(&mut self) -> u64 {
        let v = self.leaves[self.pos];
        self.pos += 1;
        v
    }
}

pub trait SimTy: Sized + Send + Sync + 'static {
    fn ty() -> Ty;
    fn read(r: &mut Reader) -> Self;
    fn put(&self, out: &mut Vec<u64>);

    fn from_leaves(leaves: &[u64]) -> Self {
        Self::read(&mut Reader::new(leaves))
    }
    fn dup(&self) -> Self {
        Self::from_leaves(&self.leaves())
    }
    /// What the layout struct's own `as_bytes` gives, if it has one.
    fn own_bytes(&self, _: Layout) -> Option<Vec<u8>> {
        None
    }
    fn leaves(&self) -> Vec<u64> {
        let mut v = Vec::new();
        self.put(&mut v);
        v
    }
}

pub trait Leaf: SimTy + Copy {
    const S: Scalar;
}

macro_rules! leaf {
    ($t:ty, $s:ident, $from:expr, $to:expr) => {
        impl SimTy for $t {
            fn ty() -> Ty {
                Ty::Scalar(Scalar::$s)
            }
            fn read(r: &mut Reader) -> Self {
                #[allow(clippy::redundant_closure_call)]
                ($from)(r.next())
            }
            fn put(&self, out: &mut Vec<u64>) {
                #[allow(clippy::redundant_closure_call)]
                out.push(($to)(*self))
            }
        }
        impl Leaf for $t {
            const S: Scalar = Scalar::$s;
        }
    };
}

leaf!(f32, F32, |b| f32::from_bits(b as u32), |v: f32| v.to_bits() as u64);
leaf!(f64, F64, f64::from_bits, |v: f64| v.to_bits());
leaf!(i32, I32, |b| b as u32 as i32, |v: i32| v as u32 as u64);
leaf!(u32, U32, |b| b as u32, |v: u32| v as u64);
leaf!(bool, Bool, |b| b != 0, |v: bool| v as u64);
leaf!(
    crevice::std140::Bool,
    Bool,
    |b: u64| bytemuck::cast::<u32, crevice::std140::Bool>((b != 0) as u32),
    |v: crevice::std140::Bool| (bytemuck::cast::<crevice::std140::Bool, u32>(v) != 0) as u64
);

/// Vector-like generics with named fields.
macro_rules! field_vecs {
    ($( $t:ident :: $n:ident [ $k:literal ] { $($f:ident),* } )*) => { $(
        impl<T: Leaf> SimTy for $t::$n<T> {
            fn ty() -> Ty { Ty::Vec(T::S, $k) }
            fn read(r: &mut Reader) -> Self { $( let $f = T::read(r); )* $t::$n { $($f),* } }
            fn put(&self, out: &mut Vec<u64>) { $( self.$f.put(out); )* }
        }
    )* };
}

field_vecs! {
    mint::Vector2[2] { x, y }
    mint::Vector3[3] { x, y, z }
    mint::Vector4[4] { x, y, z, w }
    mint::Point2[2] { x, y }
    mint::Point3[3] { x, y, z }
    cgmath::Vector2[2] { x, y }
    cgmath::Vector3[3] { x, y, z }
    cgmath::Vector4[4] { x, y, z, w }
    cgmath::Point2[2] { x, y }
    cgmath::Point3[3] { x, y, z }
}

/// Column-major matrices made of named column vectors.
macro_rules! field_mats {
    ($( $t:ident :: $n:ident [ $k:literal ] $v:ident { $($f:ident),* } )*) => { $(
        impl<T: Leaf> SimTy for $t::$n<T> {
            fn ty() -> Ty { Ty::Mat(T::S, $k) }
            fn read(r: &mut Reader) -> Self {
                $( let $f = <$t::$v<T>>::read(r); )*
                $t::$n { $($f),* }
            }
            fn put(&self, out: &mut Vec<u64>) { $( self.$f.put(out); )* }
        }
    )* };
}

field_mats! {
    mint::ColumnMatrix2[2] Vector2 { x, y }
    mint::ColumnMatrix3[3] Vector3 { x, y, z }
    mint::ColumnMatrix4[4] Vector4 { x, y, z, w }
    cgmath::Matrix2[2] Vector2 { x, y }
    cgmath::Matrix3[3] Vector3 { x, y, z }
    cgmath::Matrix4[4] Vector4 { x, y, z, w }
}

macro_rules! glam_vecs {
    ($( $n:ident<$s:ty>[$k:literal] )*) => { $(
        impl SimTy for glam::$n {
            fn ty() -> Ty { Ty::Vec(<$s as Leaf>::S, $k) }
            fn read(r: &mut Reader) -> Self {
                let mut a = [<$s>::default(); $k];
                for e in a.iter_mut() { *e = <$s>::read(r); }
                glam::$n::from_array(a)
            }
            fn put(&self, out: &mut Vec<u64>) { for e in self.to_array() { e.put(out) } }
        }
    )* };
}

glam_vecs! {
    Vec2<f32>[2] Vec3<f32>[3] Vec4<f32>[4]
    IVec2<i32>[2] IVec3<i32>[3] IVec4<i32>[4]
    UVec2<u32>[2] UVec3<u32>[3] UVec4<u32>[4]
    DVec2<f64>[2] DVec3<f64>[3] DVec4<f64>[4]
}

macro_rules! glam_mats {
    ($( $n:ident<$s:ty>[$k:literal] )*) => { $(
        impl SimTy for glam::$n {
            fn ty() -> Ty { Ty::Mat(<$s as Leaf>::S, $k) }
            fn read(r: &mut Reader) -> Self {
                let mut a = [<$s>::default(); $k * $k];
                for e in a.iter_mut() { *e = <$s>::read(r); }
                glam::$n::from_cols_array(&a)
            }
            fn put(&self, out: &mut Vec<u64>) { for e in self.to_cols_array() { e.put(out) } }
        }
    )* };
}

glam_mats! {
    Mat2<f32>[2] Mat3<f32>[3] Mat4<f32>[4]
    DMat2<f64>[2] DMat3<f64>[3] DMat4<f64>[4]
}

macro_rules! na_scalars {
    ($($s:ty),*) => { $(
        na_vec!(Vector2, $s, 2); na_vec!(Vector3, $s, 3); na_vec!(Vector4, $s, 4);
        na_point!(Point2, $s, 2); na_point!(Point3, $s, 3);
    )* };
}
macro_rules! na_vec {
    ($n:ident, $s:ty, $k:literal) => {
        impl SimTy for nalgebra::$n<$s> {
            fn ty() -> Ty {
                Ty::Vec(<$s as Leaf>::S, $k)
            }
            fn read(r: &mut Reader) -> Self {
                nalgebra::$n::<$s>::from_fn(|_, _| <$s>::read(r))
            }
            fn put(&self, out: &mut Vec<u64>) {
                (0..$k).for_each(|i| self[(i, 0)].put(out))
            }
        }
    };
}
macro_rules! na_point {
    ($n:ident, $s:ty, $k:literal) => {
        impl SimTy for nalgebra::$n<$s> {
            fn ty() -> Ty {
                Ty::Vec(<$s as Leaf>::S, $k)
            }
            fn read(r: &mut Reader) -> Self {
                nalgebra::$n::<$s> {
                    coords: nalgebra::SMatrix::<$s, $k, 1>::from_fn(|_, _| <$s>::read(r)),
                }
            }
            fn put(&self, out: &mut Vec<u64>) {
                (0..$k).for_each(|i| self[i].put(out))
            }
        }
    };
}
na_scalars!(f32, f64, i32, u32, bool);

macro_rules! na_mats {
    ($( $n:ident<$s:ty>[$k:literal] )*) => { $(
        impl SimTy for nalgebra::$n<$s> {
            fn ty() -> Ty { Ty::Mat(<$s as Leaf>::S, $k) }
            fn read(r: &mut Reader) -> Self {
                let mut m = nalgebra::$n::<$s>::zeros();
                for c in 0..$k { for row in 0..$k { m[(row, c)] = <$s>::read(r); } }
                m
            }
            fn put(&self, out: &mut Vec<u64>) {
                for c in 0..$k { for row in 0..$k { self[(row, c)].put(out); } }
            }
        }
    )* };
}
na_mats! {
    Matrix2<f32>[2] Matrix3<f32>[3] Matrix4<f32>[4]
    Matrix2<f64>[2] Matrix3<f64>[3] Matrix4<f64>[4]
}

/// The layout types themselves, used as host values.
macro_rules! layout_vecs {
    ($m:ident: $( $n:ident<$s:ty>[$k:literal] { $($f:ident),* } )*) => { $(
        impl SimTy for crevice::$m::$n {
            fn ty() -> Ty { Ty::Vec(<$s as Leaf>::S, $k) }
            fn read(r: &mut Reader) -> Self {
                $( let $f = <$s>::read(r); )*
                crevice::$m::$n { $($f),* }
            }
            fn put(&self, out: &mut Vec<u64>) { $( self.$f.put(out); )* }
        }
    )* };
}
macro_rules! layout_mats {
    ($m:ident: $( $n:ident<$s:ty>[$k:literal] $v:ident { $($f:ident),* } )*) => { $(
        impl SimTy for crevice::$m::$n {
            fn ty() -> Ty { Ty::Mat(<$s as Leaf>::S, $k) }
            fn read(r: &mut Reader) -> Self {
                let mut m: Self = bytemuck::Zeroable::zeroed();
                $( m.$f = crevice::$m::$v::read(r); )*
                m
            }
            fn put(&self, out: &mut Vec<u64>) { $( self.$f.put(out); )* }
        }
    )* };
}
macro_rules! layout_types {
    ($($m:ident)*) => { $(
        layout_vecs! { $m:
            Vec2<f32>[2] { x, y } Vec3<f32>[3] { x, y, z } Vec4<f32>[4] { x, y, z, w }
            IVec2<i32>[2] { x, y } IVec3<i32>[3] { x, y, z } IVec4<i32>[4] { x, y, z, w }
            UVec2<u32>[2] { x, y } UVec3<u32>[3] { x, y, z } UVec4<u32>[4] { x, y, z, w }
            BVec2<crevice::std140::Bool>[2] { x, y } BVec3<crevice::std140::Bool>[3] { x, y, z }
            BVec4<crevice::std140::Bool>[4] { x, y, z, w }
            DVec2<f64>[2] { x, y } DVec3<f64>[3] { x, y, z } DVec4<f64>[4] { x, y, z, w }
        }
        layout_mats! { $m:
            Mat2<f32>[2] Vec2 { x, y } Mat3<f32>[3] Vec3 { x, y, z } Mat4<f32>[4] Vec4 { x, y, z, w }
            DMat2<f64>[2] DVec2 { x, y } DMat3<f64>[3] DVec3 { x, y, z }
            DMat4<f64>[4] DVec4 { x, y, z, w }
        }
    )* };
}
layout_types!(std140 std430);

/// The wrapper that aligns to 256 bytes.
impl<T: SimTy> SimTy for crevice::std140::DynamicUniform<T> {
    fn ty() -> Ty {
        Ty::Dyn(Arc::new(T::ty()))
    }
    fn read(r: &mut Reader) -> Self {
        crevice::std140::DynamicUniform(T::read(r))
    }
    fn put(&self, out: &mut Vec<u64>) {
        self.0.put(out)
    }
}
