// a.to_str() is used as if it were never dropped
//~ error: lifetime
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f<'x>(a: &'x Value) -> &'x str { //~ good
pub fn f<'x>(a: &'x Value) -> &'static str { //~ bad
    a.to_str()
}
