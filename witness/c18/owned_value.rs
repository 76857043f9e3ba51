// a Value is made an owned Value
//~ error: E0277 E0599 E0308
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &Value) {
    let b: Box<Value> = a.into(); //~ bad
    let b: &Value = a.into(); //~ good
}
