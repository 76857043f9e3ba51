// a Array is made of nothing
//~ error: E0277 E0599
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f() {
    let b: Box<Array> = Default::default(); //~ bad
}
