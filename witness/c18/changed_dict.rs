// an owned Dict is changed
//~ error: E0596 E0594
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
fn change(_: &mut Dict) {}
fn look(_: &Dict) {}
pub fn f(mut a: AllocedDict) {
    change(&mut *a); //~ bad
    look(&*a); //~ good
}
