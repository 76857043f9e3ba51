//! C07: calls in and out of turn
use crate::calls::Calls;
use crate::vp;
use fleece::Encoder;

fn calls(first: &[u8], n: usize) {
    let mut c = Calls::new(Encoder::new(), false);
    for op in first {
        c.op(*op);
    }
    let mut i = 0;
    while i < n {
        c.any();
        i += 1;
    }
    c.finish();
}

macro_rules! after {
    ($($n:ident, $t:ident: $f:expr;)*) => { $(
        pub fn $n() {
            calls(&$f, 3);
        }
        pub fn $t() {
            calls(&$f, 4);
        }
    )* };
}
after!(
    // From the beginning
    h_c07_start, h_c07_t_start: [];
    // Within each kind of collection
    h_c07_array, h_c07_t_array: [0, 6];
    h_c07_dict, h_c07_t_dict: [1];
    h_c07_dict_filled, h_c07_t_dict_filled: [1, 4, 7];
    h_c07_key, h_c07_t_key: [1, 5];
    h_c07_short_key, h_c07_t_short_key: [1, 4];
    h_c07_array_in_array, h_c07_t_array_in_array: [0, 0, 7];
    h_c07_array_in_dict, h_c07_t_array_in_dict: [1, 4, 0];
    h_c07_dict_in_array, h_c07_t_dict_in_array: [0, 1];
    h_c07_dict_in_dict, h_c07_t_dict_in_dict: [1, 5, 1, 4];
    h_c07_deep, h_c07_t_deep: [0, 1, 5, 0, 1];
    // After the end
    h_c07_after_array, h_c07_t_after_array: [0, 7, 2];
    h_c07_after_dict, h_c07_t_after_dict: [1, 5, 7, 3];
    h_c07_after_written, h_c07_t_after_written: [8];
    // After a collection in another one
    h_c07_inner, h_c07_t_inner: [1, 5, 0, 7, 2];
);
pub fn h_c07_longer() {
    calls(&[], 4);
}
pub fn h_c07_longer_dict() {
    calls(&[1], 4);
}
pub fn h_c07_t_longest() {
    calls(&[], 5);
}
pub fn h_c07_t_longest_dict() {
    calls(&[1], 5);
}
pub fn h_c07_t_longest_after() {
    calls(&[0, 2], 5);
}
