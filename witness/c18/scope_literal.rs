// a scope is made by hand
//~ error: E0451 E0063
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
pub fn f() -> Option<Scope> {
    Some(Scope { shared_keys: None }) //~ bad
    None //~ good
}
