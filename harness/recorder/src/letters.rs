//! How letters of each type are written in scenarios and records. Conversions
//! use the standard library only, never the conversions under test.
use huff_coding::prelude::{HuffLetter, HuffLetterAsBytes};

pub trait Rec: HuffLetter + Send + Sync + 'static {
    fn parse(bytes: &[u8]) -> Self;
    fn bytes(&self) -> Vec<u8>;
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Rec for $t {
            fn parse(b: &[u8]) -> Self {
                let mut a = [0; std::mem::size_of::<$t>()];
                a.copy_from_slice(b);
                <$t>::from_be_bytes(a)
            }
            fn bytes(&self) -> Vec<u8> { self.to_be_bytes().to_vec() }
        }
    )*};
}
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

impl Rec for char {
    fn parse(b: &[u8]) -> Self { std::str::from_utf8(b).unwrap().chars().next().unwrap() }
    fn bytes(&self) -> Vec<u8> { self.to_string().into_bytes() }
}
impl Rec for String {
    fn parse(b: &[u8]) -> Self { String::from_utf8(b.to_vec()).unwrap() }
    fn bytes(&self) -> Vec<u8> { self.clone().into_bytes() }
}
impl Rec for &'static str {
    fn parse(b: &[u8]) -> Self { Box::leak(String::from_utf8(b.to_vec()).unwrap().into_boxed_str()) }
    fn bytes(&self) -> Vec<u8> { self.as_bytes().to_vec() }
}

/// A one-byte letter for which only the values below 240 are valid
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Fallible(u8);
/// A letter of no bytes at all: its tree's binary form is just the shape
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Unit;
/// A letter whose size is not a power of two
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Tri([u8; 3]);

#[derive(Debug)]
struct Bad;
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "bad letter") }
}
impl std::error::Error for Bad {}

impl HuffLetter for Fallible {}
impl HuffLetterAsBytes for Fallible {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> {
        if b.len() != 1 || b[0] >= 240 { return Err(Box::new(Bad)) }
        Ok(Fallible(b[0]))
    }
    fn as_be_bytes(&self) -> Box<[u8]> { Box::new([self.0]) }
}
impl Rec for Fallible {
    fn parse(b: &[u8]) -> Self { Fallible(b[0]) }
    fn bytes(&self) -> Vec<u8> { vec![self.0] }
}
impl HuffLetter for Unit {}
impl HuffLetterAsBytes for Unit {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> {
        if !b.is_empty() { return Err(Box::new(Bad)) }
        Ok(Unit)
    }
    fn as_be_bytes(&self) -> Box<[u8]> { Box::new([]) }
}
impl Rec for Unit {
    fn parse(_: &[u8]) -> Self { Unit }
    fn bytes(&self) -> Vec<u8> { vec![] }
}
impl HuffLetter for Tri {}
impl HuffLetterAsBytes for Tri {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> {
        if b.len() != 3 { return Err(Box::new(Bad)) }
        Ok(Tri([b[0], b[1], b[2]]))
    }
    fn as_be_bytes(&self) -> Box<[u8]> { Box::new(self.0) }
}
impl Rec for Tri {
    fn parse(b: &[u8]) -> Self { Tri([b[0], b[1], b[2]]) }
    fn bytes(&self) -> Vec<u8> { self.0.to_vec() }
}
