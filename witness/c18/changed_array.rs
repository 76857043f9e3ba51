// an owned Array is changed
//~ error: E0596 E0594
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
fn change(_: &mut Array) {}
fn look(_: &Array) {}
pub fn f(mut a: AllocedArray) {
    change(&mut *a); //~ bad
    look(&*a); //~ good
}
