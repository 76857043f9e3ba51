// a sized value is made of given bytes
//~ error: E0624 E0599
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
use fleece::value::SizedValue;
pub fn f() {
    let s = SizedValue::from_narrow([0x80, 4]); //~ bad
}
