// a type of a program is put into a mutable collection
//~ error: E0277
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub struct Mine;
pub fn f(a: &mut MutableDict) {
    a.insert("k", Mine); //~ bad
    a.insert("k", 1u8); //~ good
}
