use crate::Meta;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod selftest;
pub mod util;

pub fn all() -> Vec<Meta> {
    vec![c01::META, c02::META, c03::META, c04::META, c05::META, c06::META, c07::META, c08::META, c09::META, c10::META, c11::META, c12::META, c13::META, c14::META, c15::META, c16::META, c17::META, c18::META, c19::META, c20::META, c21::META, c22::META, c23::META, c24::META, c25::META, c26::META]
}
