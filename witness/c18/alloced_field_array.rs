// what an owner points to is changed
//~ error: E0616
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(mut a: AllocedArray, p: *const Array) {
    a.value = p; //~ bad
}
