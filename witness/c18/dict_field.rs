// a dict is taken apart
//~ error: E0616
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &Dict) {
    let v = &a.array; //~ bad
}
