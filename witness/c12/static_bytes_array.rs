// Array::from_bytes(a).unwrap() is used as if it were never dropped
//~ error: lifetime
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f<'x>(a: &'x [u8]) -> &'x Array { //~ good
pub fn f<'x>(a: &'x [u8]) -> &'static Array { //~ bad
    Array::from_bytes(a).unwrap()
}
