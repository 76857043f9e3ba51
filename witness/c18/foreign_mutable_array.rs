// a type of a program is put into a mutable collection
//~ error: E0277
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub struct Mine;
pub fn f(a: &mut MutableArray) {
    a.push(&Mine); //~ bad
    a.push(&1u8); //~ good
}
