// a.to_str() is returned while its owner stays behind
//~ error: E0515 E0505 E0597
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &AllocedValue) -> &str {
    let a = a.clone(); //~ bad
    a.to_str()
}
