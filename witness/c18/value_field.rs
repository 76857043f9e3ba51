// the bytes of a value are reached
//~ error: E0616 E0609 E0610
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &Value) {
    let v = &a.bytes; //~ bad
}
