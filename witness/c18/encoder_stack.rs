// the collections which the encoder has open are changed
//~ error: E0616
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(e: &mut Encoder) {
    e.collection_stack = Default::default(); //~ bad
}
