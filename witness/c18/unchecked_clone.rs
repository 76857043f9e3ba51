// owned values of unvalidated bytes without unsafe
//~ error: E0133
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f(a: &[u8]) -> AllocedValue {
    Value::clone_from_bytes_unchecked(a) //~ bad
    unsafe { Value::clone_from_bytes_unchecked(a) } //~ good
}
