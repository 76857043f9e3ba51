// the owner of a Value is made by hand
//~ error: E0451 E0423 E0063 E0603
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(b: Arc<[u8]>, p: *const Value) {
    let a: AllocedValue = Alloced { buf: b, value: p }; //~ bad
}
