// what a dict gives is not bound to the key, and the key may be dropped
//~ error: E0505 E0425
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
fn keep<T>(_: T) {}
pub fn f(a: &Dict, k: String, m: &MutableDict) {
    let r = a.get(k.as_str());
    let s = m.get(k.as_str());
    let b: &str = &k; //~ bad
    drop(k);
    keep((r, s));
    keep(b); //~ bad
}
