// shared keys which others read cannot be changed
//~ error: E0596
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
fn send<T: Send + ?Sized>() {}
fn sync<T: Sync + ?Sized>() {}
pub fn f(k: &mut Arc<SharedKeys>) {
    k.encode_and_insert("k"); //~ bad
    k.encode("k"); //~ good
}
