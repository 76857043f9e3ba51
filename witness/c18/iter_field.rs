// an iterator is moved on by hand
//~ error: E0616
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &Array) {
    let mut i = a.iter();
    i.index = 0; //~ bad
}
