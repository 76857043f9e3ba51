// the bytes are taken from an owner
//~ error: E0616
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: AllocedValue) {
    let b = a.buf; //~ bad
}
