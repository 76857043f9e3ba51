// a.get("k").unwrap() is returned while its owner stays behind
//~ error: E0515 E0505 E0597
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &AllocedDict) -> &Value {
    let a = a.clone(); //~ bad
    a.get("k").unwrap()
}
