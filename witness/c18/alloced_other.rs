// a value is given another owner
//~ error: E0616
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(mut a: AllocedValue, b: AllocedValue) {
    a.buf = b.buf.clone(); //~ bad
}
