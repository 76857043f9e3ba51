// a value is made of the rest of a document
//~ error: E0624 E0599
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &[u8]) {
    let v = Value::_from_raw_unchecked(a); //~ bad
}
