// a reference to the root of a scope, which outlives the owner of the root
//~ error: E0515 E0716
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &Arc<Scope>) -> &Value {
    &a.root().unwrap() //~ bad
    Value::null() //~ good
}
