// a.decode(0) is used after its owner was changed, moved or dropped
//~ error: E0505 E0502 E0506 E0499
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
fn keep<T>(_: T) {}
pub fn f(mut a: SharedKeys) {
    let r = a.decode(0);
    a.encode_and_insert("k"); //~ bad
    keep(r);
}
