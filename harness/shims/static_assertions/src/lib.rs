//! Host stand-in for `static_assertions` (only what mango-v4 uses).
#![no_std]
#[macro_export]
macro_rules! const_assert {
    ($x:expr $(,)?) => {
        #[allow(unknown_lints, clippy::eq_op)]
        const _: () = assert!($x);
    };
}
#[macro_export]
macro_rules! const_assert_eq {
    ($x:expr, $y:expr $(,)?) => {
        const _: () = assert!($x == $y);
    };
}
#[macro_export]
macro_rules! const_assert_ne {
    ($x:expr, $y:expr $(,)?) => {
        const _: () = assert!($x != $y);
    };
}
#[macro_export]
macro_rules! assert_eq_size {
    ($x:ty, $($xs:ty),+ $(,)?) => {
        const _: () = { $( assert!(core::mem::size_of::<$x>() == core::mem::size_of::<$xs>()); )+ };
    };
}
#[macro_export]
macro_rules! assert_impl_all {
    ($type:ty: $($trait:path),+ $(,)?) => {
        const _: fn() = || { fn assert_impl_all<T: ?Sized $(+ $trait)+>() {} assert_impl_all::<$type>(); };
    };
}
