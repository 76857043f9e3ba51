// a.iter().next().unwrap().0 is used as if it were never dropped
//~ error: lifetime
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f<'x>(a: &'x MutableDict) -> &'x str { //~ good
pub fn f<'x>(a: &'x MutableDict) -> &'static str { //~ bad
    a.iter().next().unwrap().0
}
