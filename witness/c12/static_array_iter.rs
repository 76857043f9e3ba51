// a.iter().next().unwrap() is used as if it were never dropped
//~ error: lifetime
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f<'x>(a: &'x Array) -> &'x Value { //~ good
pub fn f<'x>(a: &'x Array) -> &'static Value { //~ bad
    a.iter().next().unwrap()
}
