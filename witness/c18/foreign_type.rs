// a type of a program is stored
//~ error: E0277
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub struct Mine;
pub fn f(e: &mut Encoder, m: Mine) {
    e.write_value(&m); //~ bad
    e.write_value(&1u8); //~ good
}
