// a.value() is used as if it were never dropped
//~ error: lifetime
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f<'x>(a: &'x AllocedValue) -> &'x Value { //~ good
pub fn f<'x>(a: &'x AllocedValue) -> &'static Value { //~ bad
    a.value()
}
