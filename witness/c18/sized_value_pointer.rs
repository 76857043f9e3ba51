// a pointer is made by hand
//~ error: E0624 E0599
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
use fleece::value::SizedValue;
pub fn f() {
    let s = SizedValue::new_pointer(100, true); //~ bad
}
