// a.get_array_mut(0) is used after its owner was changed, moved or dropped
//~ error: E0505 E0502 E0506 E0499
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
fn keep<T>(_: T) {}
pub fn f(mut a: MutableArray) {
    let r = a.get_array_mut(0);
    a.remove(0); //~ bad
    keep(r);
}
