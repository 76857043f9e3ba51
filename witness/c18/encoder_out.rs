// the bytes which the encoder wrote are changed
//~ error: E0616
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(e: &mut Encoder) {
    e.out.push(1); //~ bad
}
