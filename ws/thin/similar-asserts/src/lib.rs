#![allow(unused_imports)]
#[macro_export] macro_rules! assert_eq { ($($t:tt)*) => { ::std::assert_eq!($($t)*) } }
