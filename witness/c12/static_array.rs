// a.as_array().unwrap() is used as if it were never dropped
//~ error: lifetime
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f<'x>(a: &'x Value) -> &'x Array { //~ good
pub fn f<'x>(a: &'x Value) -> &'static Array { //~ bad
    a.as_array().unwrap()
}
