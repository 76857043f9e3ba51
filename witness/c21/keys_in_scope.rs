// the shared keys of a scope cannot be changed
//~ error: E0596
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
fn send<T: Send + ?Sized>() {}
fn sync<T: Sync + ?Sized>() {}
pub fn f(s: &Arc<Scope>) {
    s.shared_keys().unwrap().encode_and_insert("k"); //~ bad
    s.shared_keys().unwrap().encode("k"); //~ good
}
