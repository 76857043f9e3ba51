// the root of a scope is changed
//~ error: E0616
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &mut Scope) {
    a.root = None; //~ bad
}
