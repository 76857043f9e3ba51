// AllocedValue crosses threads, and a cell does not
//~ error: E0277
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
fn send<T: Send + ?Sized>() {}
fn sync<T: Sync + ?Sized>() {}
pub fn f() {
    send::<AllocedValue>();
    sync::<AllocedValue>();
    sync::<Cell<u8>>(); //~ bad
}
