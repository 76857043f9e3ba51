// the owner of a Array is made by hand
//~ error: E0451 E0423 E0063 E0603
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(b: Arc<[u8]>, p: *const Array) {
    let a: AllocedArray = Alloced { buf: b, value: p }; //~ bad
}
