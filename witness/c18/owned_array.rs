// a Array is made an owned Array
//~ error: E0277 E0599 E0308
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &Array) {
    let b: Box<Array> = a.into(); //~ bad
    let b: &Array = a.into(); //~ good
}
