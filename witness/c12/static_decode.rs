// a.decode(0).unwrap() is used as if it were never dropped
//~ error: lifetime
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f<'x>(a: &'x SharedKeys) -> &'x str { //~ good
pub fn f<'x>(a: &'x SharedKeys) -> &'static str { //~ bad
    a.decode(0).unwrap()
}
