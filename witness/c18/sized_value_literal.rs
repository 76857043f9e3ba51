// a sized value is made by hand
//~ error: E0451 E0423 E0063 E0603
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
use fleece::value::SizedValue;
pub fn f() {
    let s = SizedValue { bytes: [0xff; 4] }; //~ bad
}
