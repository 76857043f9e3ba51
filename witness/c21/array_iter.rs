// an iterator over an array crosses threads, and one with thread-bound state does not
//~ error: E0277
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
fn send<T: Send + ?Sized>() {}
fn sync<T: Sync + ?Sized>() {}
fn same<T: Send>(_: T) {}
pub fn f(d: &Array, r: Rc<u8>) {
    same(d.iter());
    same((d.iter(), r)); //~ bad
}
