// a.as_dict().unwrap() is used as if it were never dropped
//~ error: lifetime
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f<'x>(a: &'x Value) -> &'x Dict { //~ good
pub fn f<'x>(a: &'x Value) -> &'static Dict { //~ bad
    a.as_dict().unwrap()
}
