// a.get(0).unwrap() is returned while its owner stays behind
//~ error: E0515 E0505 E0597
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &AllocedArray) -> &Value {
    let a = a.clone(); //~ bad
    a.get(0).unwrap()
}
