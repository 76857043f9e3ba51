// &a["k"] is used after its owner was changed, moved or dropped
//~ error: E0505 E0502 E0506 E0499
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
fn keep<T>(_: T) {}
pub fn f(a: AllocedDict) {
    let r = &a["k"];
    drop(a); //~ bad
    keep(r);
}
