//! The calls the simulator makes.  A crate of its own, compiled like the code under test (edge callbacks, its
//! optimisation level), because generic code of the library is compiled where it is used.
use pbrtrs::parser::Parser;
use pbrtrs::Matrix4;
use std::fmt::{Debug, Display};

/// How an outcome is shown: 'O' and the value, or 'E' and the message.
pub trait Render {
    fn render(&self) -> (char, String);
}
impl<T: Debug, E: Display> Render for Result<T, E> {
    fn render(&self) -> (char, String) {
        match self {
            Ok(v) => ('O', format!("{:?}", v)),
            Err(e) => ('E', e.to_string()),
        }
    }
}

pub fn parse(text: &str) -> impl Render {
    Parser::parse(text)
}

macro_rules! matrix {
    ($inv:ident, $mul:ident, $add:ident, $tr:ident, $t:ty) => {
        #[inline(never)]
        pub fn $inv(a: Matrix4<$t>) -> impl Debug {
            a.inverse()
        }
        #[inline(never)]
        pub fn $mul(a: Matrix4<$t>, b: Matrix4<$t>) -> Matrix4<$t> {
            a * b
        }
        #[inline(never)]
        pub fn $add(a: Matrix4<$t>, b: Matrix4<$t>) -> Matrix4<$t> {
            a + b
        }
        #[inline(never)]
        pub fn $tr(a: Matrix4<$t>) -> Matrix4<$t> {
            a.transpose()
        }
    };
}
#[cfg(feature = "f64")]
pub type Float = f64;
#[cfg(not(feature = "f64"))]
pub type Float = f32;
matrix!(inverse_i, mul_i, add_i, transpose_i, i64);
matrix!(inverse_f, mul_f, add_f, transpose_f, Float);
