//! C08: whatever was begun is finished
use crate::calls::Calls;
use crate::vp;
use fleece::Encoder;

fn calls(first: &[u8], n: usize) {
    from(Encoder::new(), first, n, 0);
}
fn from(e: Encoder, first: &[u8], n: usize, how: u8) {
    let mut c = Calls::new(e, true);
    for op in first {
        c.op(*op);
    }
    let mut i = 0;
    while i < n {
        c.any();
        i += 1;
    }
    match how {
        0 => c.finish(),
        1 => c.finish_owned(),
        _ => c.finish_scoped(),
    }
}

pub fn h_c08_1() {
    calls(&[], 1);
}
pub fn h_c08_2() {
    calls(&[], 2);
}
pub fn h_c08_3() {
    calls(&[], 3);
}
pub fn h_c08_4() {
    calls(&[], 4);
}
pub fn h_c08_5() {
    calls(&[], 5);
}
pub fn h_c08_6() {
    calls(&[], 6);
}
pub fn h_c08_t_7_array() {
    calls(&[0], 6);
}
pub fn h_c08_t_7_dict() {
    calls(&[1], 6);
}
pub fn h_c08_owned() {
    from(Encoder::new(), &[], 4, 1);
}
pub fn h_c08_scoped() {
    from(Encoder::new(), &[], 3, 2);
}
/// Deeper
pub fn h_c08_deep() {
    calls(&[0, 1, 5, 0, 1, 4], 4);
}
pub fn h_c08_deep_array() {
    calls(&[1, 4, 0, 6, 0, 7], 4);
}
/// Several entries, which have to be sorted
pub fn h_c08_entries() {
    calls(&[1, 5, 7, 4, 6, 5], 4);
}
/// Behind what is there already, of even or odd length
pub fn h_c08_behind() {
    let v = if vp::any_bool() { vec![1u8, 2, 3] } else { vec![1u8, 2] };
    from(Encoder::new_to_vec(v), &[0], 3, 0);
}
