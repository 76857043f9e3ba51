// an iterator over a dict does not make thread-bound state Send
//~ error: E0277
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
fn send<T: Send + ?Sized>() {}
fn sync<T: Sync + ?Sized>() {}
fn same<T: Send>(_: T) {}
pub fn f(d: &Dict, r: Rc<u8>) {
    let i = d.iter();
    same(move || { let _i = i; let _r = &r; }); //~ bad
}
