// a Dict is copied into a box
//~ error: E0277 E0507 E0161 E0599
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &Dict) {
    let b = Box::new(*a); //~ bad
    let b = Box::new(a); //~ good
}
