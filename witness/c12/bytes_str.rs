// Value::from_bytes(&a).unwrap().to_str() is used after its owner was changed, moved or dropped
//~ error: E0505 E0502 E0506 E0499
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
fn keep<T>(_: T) {}
pub fn f(a: Vec<u8>) {
    let r = Value::from_bytes(&a).unwrap().to_str();
    drop(a); //~ bad
    keep(r);
}
