//! Stand-in for `bounded-static` (the real crate cannot be fetched in this sandbox).
#![allow(mismatched_lifetime_syntaxes)]
use std::{
    borrow::{Cow, ToOwned},
    collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque},
    hash::Hash,
    num::{NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8},
};

pub use bounded_static_derive::ToStatic;

pub trait ToBoundedStatic {
    type Static: 'static;
    fn to_static(&self) -> Self::Static;
}

pub trait IntoBoundedStatic {
    type Static: 'static;
    fn into_static(self) -> Self::Static;
}

macro_rules! copy_impl {
    ($($t:ty),* $(,)?) => {$(
        impl ToBoundedStatic for $t { type Static = $t; fn to_static(&self) -> $t { *self } }
        impl IntoBoundedStatic for $t { type Static = $t; fn into_static(self) -> $t { self } }
    )*};
}
copy_impl!(
    bool, char, f32, f64, usize, u8, u16, u32, u64, u128, isize, i8, i16, i32, i64, i128, (),
    NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64
);

impl ToBoundedStatic for String {
    type Static = String;
    fn to_static(&self) -> String {
        self.clone()
    }
}
impl IntoBoundedStatic for String {
    type Static = String;
    fn into_static(self) -> String {
        self
    }
}

impl<T> ToBoundedStatic for Cow<'_, T>
where
    T: 'static + ToOwned + ?Sized,
{
    type Static = Cow<'static, T>;
    fn to_static(&self) -> Self::Static {
        Cow::Owned(self.clone().into_owned())
    }
}
impl<T> IntoBoundedStatic for Cow<'_, T>
where
    T: 'static + ToOwned + ?Sized,
{
    type Static = Cow<'static, T>;
    fn into_static(self) -> Self::Static {
        Cow::Owned(self.into_owned())
    }
}

impl<T: ToBoundedStatic> ToBoundedStatic for Option<T> {
    type Static = Option<T::Static>;
    fn to_static(&self) -> Self::Static {
        self.as_ref().map(ToBoundedStatic::to_static)
    }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for Option<T> {
    type Static = Option<T::Static>;
    fn into_static(self) -> Self::Static {
        self.map(IntoBoundedStatic::into_static)
    }
}
impl<T: ToBoundedStatic, E: ToBoundedStatic> ToBoundedStatic for Result<T, E> {
    type Static = Result<T::Static, E::Static>;
    fn to_static(&self) -> Self::Static {
        match self {
            Ok(v) => Ok(v.to_static()),
            Err(e) => Err(e.to_static()),
        }
    }
}
impl<T: IntoBoundedStatic, E: IntoBoundedStatic> IntoBoundedStatic for Result<T, E> {
    type Static = Result<T::Static, E::Static>;
    fn into_static(self) -> Self::Static {
        self.map(IntoBoundedStatic::into_static)
            .map_err(IntoBoundedStatic::into_static)
    }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Box<T> {
    type Static = Box<T::Static>;
    fn to_static(&self) -> Self::Static {
        Box::new((**self).to_static())
    }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for Box<T> {
    type Static = Box<T::Static>;
    fn into_static(self) -> Self::Static {
        Box::new((*self).into_static())
    }
}
macro_rules! seq_impl {
    ($($c:ident),*) => {$(
        impl<T: ToBoundedStatic> ToBoundedStatic for $c<T> {
            type Static = $c<T::Static>;
            fn to_static(&self) -> Self::Static { self.iter().map(ToBoundedStatic::to_static).collect() }
        }
        impl<T: IntoBoundedStatic> IntoBoundedStatic for $c<T> {
            type Static = $c<T::Static>;
            fn into_static(self) -> Self::Static { self.into_iter().map(IntoBoundedStatic::into_static).collect() }
        }
    )*};
}
seq_impl!(Vec, VecDeque);
impl<T: IntoBoundedStatic> IntoBoundedStatic for BTreeSet<T>
where
    T::Static: Ord,
{
    type Static = BTreeSet<T::Static>;
    fn into_static(self) -> Self::Static {
        self.into_iter().map(IntoBoundedStatic::into_static).collect()
    }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for HashSet<T>
where
    T::Static: Eq + Hash,
{
    type Static = HashSet<T::Static>;
    fn into_static(self) -> Self::Static {
        self.into_iter().map(IntoBoundedStatic::into_static).collect()
    }
}
impl<K: IntoBoundedStatic, V: IntoBoundedStatic> IntoBoundedStatic for HashMap<K, V>
where
    K::Static: Eq + Hash,
{
    type Static = HashMap<K::Static, V::Static>;
    fn into_static(self) -> Self::Static {
        self.into_iter()
            .map(|(k, v)| (k.into_static(), v.into_static()))
            .collect()
    }
}
impl<K: IntoBoundedStatic, V: IntoBoundedStatic> IntoBoundedStatic for BTreeMap<K, V>
where
    K::Static: Ord,
{
    type Static = BTreeMap<K::Static, V::Static>;
    fn into_static(self) -> Self::Static {
        self.into_iter()
            .map(|(k, v)| (k.into_static(), v.into_static()))
            .collect()
    }
}
impl<T: 'static + Clone> ToBoundedStatic for Box<[T]> {
    type Static = Box<[T]>;
    fn to_static(&self) -> Self::Static {
        self.clone()
    }
}
impl<T: 'static> IntoBoundedStatic for Box<[T]> {
    type Static = Box<[T]>;
    fn into_static(self) -> Self::Static {
        self
    }
}
impl<A: ToBoundedStatic, B: ToBoundedStatic> ToBoundedStatic for (A, B) {
    type Static = (A::Static, B::Static);
    fn to_static(&self) -> Self::Static {
        (self.0.to_static(), self.1.to_static())
    }
}
impl<A: IntoBoundedStatic, B: IntoBoundedStatic> IntoBoundedStatic for (A, B) {
    type Static = (A::Static, B::Static);
    fn into_static(self) -> Self::Static {
        (self.0.into_static(), self.1.into_static())
    }
}
