// a Value is moved away from its bytes
//~ error: E0277 E0507 E0161 E0508
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &Value) {
    let v = *a; //~ bad
    let v = a; //~ good
}
