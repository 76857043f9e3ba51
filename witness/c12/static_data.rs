// a.to_data() is used as if it were never dropped
//~ error: lifetime
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f<'x>(a: &'x Value) -> &'x [u8] { //~ good
pub fn f<'x>(a: &'x Value) -> &'static [u8] { //~ bad
    a.to_data()
}
