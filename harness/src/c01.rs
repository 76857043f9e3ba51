//! C01: any bytes are accepted or rejected
use crate::common::*;
use crate::vp;
use fleece::{Array, Dict, Value};

/// Nothing else but an answer is asked for: a panic, an overflow or a stray read on the way is what is looked for
fn open(b: &[u8]) {
    match Value::from_bytes(b) {
        Ok(v) => {
            let at = v as *const Value as *const u8 as usize;
            let start = b.as_ptr() as usize;
            vp::check(at >= start && at + v.len() <= start + b.len(), "the root lies in the bytes which were given");
        }
        Err(_) => vp::reached("rejected"),
    }
}

macro_rules! fixed {
    ($($n:ident: $l:literal;)*) => { $(
        pub fn $n() {
            open(&arbitrary::<$l>());
        }
    )* };
}
fixed!(
    h_c01_0: 0; h_c01_1: 1; h_c01_2: 2; h_c01_3: 3; h_c01_4: 4; h_c01_5: 5; h_c01_6: 6; h_c01_7: 7;
    h_c01_8: 8; h_c01_9: 9; h_c01_10: 10; h_c01_t_12: 12;
);

/// A collection with a count of any size, and room for very few elements
pub fn h_c01_count() {
    let mut b = [0u8; 18];
    b[0] = vp::any_u8();
    vp::assume(b[0] & 0xE7 == 0x67);
    b[1] = 0xFF;
    let n = vp::any_usize();
    vp::assume(n < 11);
    let mut i = 0;
    while i < n {
        b[2 + i] = vp::any_u8() | 0x80;
        i += 1;
    }
    b[2 + i] = vp::any_u8();
    b[16] = 0x80;
    b[17] = 0x08;
    open(&b);
}
pub fn h_c01_count_short() {
    let mut b = arbitrary::<6>();
    vp::assume(b[0] & 0xE7 == 0x67);
    b[1] = 0xFF;
    b[4] = 0x80;
    b[5] = 0x02;
    open(&b);
}
/// A string or data with a size of any size
pub fn h_c01_size() {
    let mut b = arbitrary::<16>();
    vp::assume(b[0] & 0xEF == 0x4F);
    b[14] = 0x80;
    b[15] = 0x07;
    open(&b);
}
/// The same, as an element of an array and behind a pointer
pub fn h_c01_size_elem() {
    let mut b = arbitrary::<6>();
    b[0] = 0x60;
    b[1] = 0x01;
    vp::assume(b[2] & 0xEF == 0x4F || b[2] >= 0x80);
    b[4] = 0x80;
    b[5] = 0x02;
    open(&b);
}
pub fn h_c01_size_pointed() {
    let mut b = arbitrary::<18>();
    vp::assume(b[0] & 0xEF == 0x4F);
    b[12] = 0x60;
    b[13] = 0x01;
    b[14] = 0x80;
    b[15] = 0x06 + 1;
    b[16] = 0x80;
    b[17] = 0x02;
    open(&b);
}
/// Wide slots
pub fn h_c01_wide() {
    let mut b = arbitrary::<12>();
    b[0] = 0x68;
    b[1] = 0x02;
    b[10] = 0x80;
    b[11] = 0x05;
    open(&b);
}
pub fn h_c01_wide_dict() {
    let mut b = arbitrary::<14>();
    b[2] = 0x78;
    b[3] = 0x01;
    b[12] = 0x80;
    b[13] = 0x05;
    vp::assume(b[0] < 0x60 || b[0] >= 0x80);
    open(&b);
}
/// A pointer to a pointer
pub fn h_c01_chain() {
    let mut b = arbitrary::<10>();
    b[0] = 0x20;
    b[1] = 0x01;
    vp::assume(b[2] >= 0x80);
    vp::assume(b[6] >= 0x80);
    open(&b);
}
/// Collections in collections
pub fn h_c01_nested() {
    let mut b = arbitrary::<12>();
    vp::assume(b[0] & 0xE0 == 0x60);
    b[1] = 0x01;
    vp::assume(b[4] & 0xE0 == 0x60);
    b[5] = 0x01;
    b[10] = 0x80;
    open(&b);
}
pub fn h_c01_typed() {
    let b = arbitrary::<6>();
    match (Array::from_bytes(&b), Dict::from_bytes(&b)) {
        (Ok(_), Ok(_)) => vp::check(false, "nothing is both an array and a dict"),
        (Ok(_), _) => vp::reached("array"),
        (_, Ok(_)) => vp::reached("dict"),
        _ => vp::reached("neither"),
    }
}

// Bytes of any length up to 2^28
pub fn h_c01_any_scalar() {
    any_scalar(open)
}
pub fn h_c01_any_rest() {
    let b = vp::any_bytes();
    if root_at(b).is_none() {
        open(b);
    }
}
macro_rules! collections {
    ($($n:ident: $d:expr, $w:expr, $k:literal;)*) => { $(
        pub fn $n() {
            any_collection($d, $w, $k, open)
        }
    )* };
}
collections!(
    h_c01_any_array_0: false, false, 0; h_c01_any_array_1: false, false, 1; h_c01_any_array_2: false, false, 2;
    h_c01_any_array_5: false, false, 5; h_c01_any_wide_0: false, true, 0; h_c01_any_wide_1: false, true, 1;
    h_c01_any_wide_3: false, true, 3; h_c01_any_dict_0: true, false, 0; h_c01_any_dict_1: true, false, 1;
    h_c01_any_dict_3: true, false, 3; h_c01_any_wide_dict_1: true, true, 1; h_c01_any_wide_dict_2: true, true, 2;
);
macro_rules! nested {
    ($($n:ident: $o:expr, $i:expr;)*) => { $(
        pub fn $n() {
            any_nested($o, $i, open)
        }
    )* };
}
nested!(
    h_c01_any_nested: false, false; h_c01_any_nested_wide: false, true; h_c01_any_wide_nested: true, false;
    h_c01_any_wide_nested_wide: true, true;
);
/// Collections of many slots
macro_rules! many {
    ($($n:ident: $k:literal, $w:expr, $d:expr, $o:literal;)*) => { $(
        pub fn $n() {
            open(&many($k, $w, $d, $o))
        }
    )* };
}
many!(
    h_c01_many_20: 20, false, false, 3; h_c01_many_wide_5: 5, true, false, 2; h_c01_many_70: 70, false, false, 999; h_c01_many_300: 300, false, false, 1000;
    h_c01_many_2046: 2046, false, false, 9999; h_c01_many_2047: 2047, false, false, 9999;
    h_c01_many_3000: 3000, false, false, 9999; h_c01_many_wide_70: 70, true, false, 999;
    h_c01_many_wide_300: 300, true, false, 9999; h_c01_many_dict_70: 70, false, true, 138;
    h_c01_many_dict_300: 300, false, true, 9999; h_c01_many_wide_dict_100: 100, true, true, 9999;
    h_c01_many_wide_2100: 2100, true, false, 9999; h_c01_many_dict_1500: 1500, false, true, 9999;
    h_c01_t_many_15000: 15000, false, false, 99999;
);
