// a.value() is returned while its owner stays behind
//~ error: E0515 E0505 E0597
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &AllocedValue) -> &Value {
    let a = a.clone(); //~ bad
    a.value()
}
