// the owner of something which is not a value is made from an owned value
//~ error: E0277 E0599 E0308 E0605
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: AllocedValue) {
    let b: Alloced<str> = a.into(); //~ bad
    let b: AllocedValue = a.into(); //~ good
}
