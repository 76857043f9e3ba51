// a.first().unwrap().1 is used as if it were never dropped
//~ error: lifetime
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f<'x>(a: &'x Dict) -> &'x Value { //~ good
pub fn f<'x>(a: &'x Dict) -> &'static Value { //~ bad
    a.first().unwrap().1
}
