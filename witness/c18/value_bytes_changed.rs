// the bytes of a value are changed
//~ error: E0616 E0594
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &mut Value) {
    a.bytes[0] = 1; //~ bad
}
