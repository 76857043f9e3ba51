// two Values are exchanged
//~ error: E0277
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &mut Value, b: &mut Value) {
    std::mem::swap(a, b); //~ bad
}
