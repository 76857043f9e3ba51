// a document is read by another thread, but not changed by it meanwhile
//~ error: E0502 E0499
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
fn send<T: Send + ?Sized>() {}
fn sync<T: Sync + ?Sized>() {}
pub fn f(mut a: MutableDict) {
    std::thread::scope(|s| {
        s.spawn(|| { a.get("k").map(|v| v.to_int()) });
        a.insert("k", 1u8); //~ bad
        a.get("k"); //~ good
    });
}
