// a char is stored, which the format does not have
//~ error: E0277
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(e: &mut Encoder) {
    let m: char = 'a';
    e.write_value(&m); //~ bad
    e.write_value(&1u8); //~ good
}
