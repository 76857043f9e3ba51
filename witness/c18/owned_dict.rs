// a Dict is made an owned Dict
//~ error: E0277 E0599 E0308
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &Dict) {
    let b: Box<Dict> = a.into(); //~ bad
    let b: &Dict = a.into(); //~ good
}
