// a.get("k").unwrap() is used as if it were never dropped
//~ error: lifetime
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f<'x>(a: &'x Dict) -> &'x Value { //~ good
pub fn f<'x>(a: &'x Dict) -> &'static Value { //~ bad
    a.get("k").unwrap()
}
