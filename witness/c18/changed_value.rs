// an owned Value is changed
//~ error: E0596 E0594
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
fn change(_: &mut Value) {}
fn look(_: &Value) {}
pub fn f(mut a: AllocedValue) {
    change(&mut *a); //~ bad
    look(&*a); //~ good
}
