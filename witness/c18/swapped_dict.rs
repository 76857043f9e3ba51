// two Dicts are exchanged
//~ error: E0277
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &mut Dict, b: &mut Dict) {
    std::mem::swap(a, b); //~ bad
}
