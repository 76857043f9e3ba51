// the bytes of a scope are changed
//~ error: E0616
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &mut Scope) {
    a.strong_data = None; //~ bad
}
