// two Arrays are exchanged
//~ error: E0277
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &mut Array, b: &mut Array) {
    std::mem::swap(a, b); //~ bad
}
