// a.get_with_shared_keys("k", &k) is used after its owner was changed, moved or dropped
//~ error: E0505 E0502 E0506 E0499
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
fn keep<T>(_: T) {}
pub fn f((a, k): (AllocedDict, Arc<SharedKeys>)) {
    let r = a.get_with_shared_keys("k", &k);
    drop(a); //~ bad
    keep(r);
}
