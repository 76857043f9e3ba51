// a.get("k") is used after its owner was changed, moved or dropped
//~ error: E0505 E0502 E0506 E0499
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
fn keep<T>(_: T) {}
pub fn f(mut a: MutableDict) {
    let r = a.get("k");
    a.insert("k", 1u8); //~ bad
    keep(r);
}
