//! C23: a document which is laid out as the format prescribes is accepted, however it is opened
use crate::common::*;
use crate::format::*;
use crate::vp;
use fleece::{Array, Dict, Value, ValueType};

fn open(b: &[u8]) {
    let Some(at) = root(b) else { return };
    vp::reached("well-formed");
    match Value::from_bytes(b) {
        Ok(v) => {
            vp::check(v as *const Value as *const u8 as usize == b.as_ptr() as usize + at, "the root is where the reference at the end leads");
            vp::check(v.value_type() == kind(b[at]), "the root is of the kind which is written there");
            let u = unsafe { Value::from_bytes_unchecked(b) };
            vp::check(core::ptr::addr_eq(u, v) && u.len() == v.len(), "opening it unchecked gives the same root");
        }
        Err(_) => vp::check(false, "what is laid out as the format prescribes is accepted"),
    }
}

/// The other ways
fn others(b: &[u8]) {
    let Some(at) = root(b) else { return };
    vp::reached("well-formed");
    let k = kind(b[at]);
    match Value::clone_from_bytes(b) {
        Ok(v) => {
            vp::check(v.value_type() == k, "an owned copy is of the kind which is written there");
            let u = unsafe { Value::clone_from_bytes_unchecked(b) };
            vp::check(u.value_type() == k && u.len() == v.len(), "an unchecked owned copy has the same root");
        }
        Err(_) => vp::check(false, "an owned copy of what the format prescribes is accepted"),
    }
    match Array::from_bytes(b) {
        Ok(v) => {
            vp::check(k == ValueType::Array, "what opens as an array is one");
            vp::check(v as *const Array as *const u8 as usize == b.as_ptr() as usize + at, "opening an array gives the root");
        }
        Err(_) => vp::check(k != ValueType::Array, "an array opens as an array"),
    }
    match Dict::from_bytes(b) {
        Ok(v) => {
            vp::check(k == ValueType::Dict, "what opens as a dict is one");
            vp::check(v as *const Dict as *const u8 as usize == b.as_ptr() as usize + at, "opening a dict gives the root");
        }
        Err(_) => vp::check(k != ValueType::Dict, "a dict opens as a dict"),
    }
    vp::check(Array::clone_from_bytes(b).is_ok() == (k == ValueType::Array), "an owned copy opens as an array exactly if it is one");
    vp::check(Dict::clone_from_bytes(b).is_ok() == (k == ValueType::Dict), "an owned copy opens as a dict exactly if it is one");
}

macro_rules! fixed {
    ($($n:ident: $l:literal, $f:expr;)*) => { $(
        pub fn $n() {
            $f(&arbitrary::<$l>());
        }
    )* };
}
fixed!(
    h_c23_2: 2, open; h_c23_4: 4, open; h_c23_6: 6, open; h_c23_8: 8, open; h_c23_t_10: 10, open;
    h_c23_others_2: 2, others; h_c23_others_4: 4, others; h_c23_others_6: 6, others; h_c23_t_others_8: 8, others;
);
/// Wide slots
pub fn h_c23_wide() {
    let mut b = arbitrary::<12>();
    b[0] = 0x68;
    b[1] = 0x02;
    b[10] = 0x80;
    b[11] = 0x05;
    open(&b);
}
pub fn h_c23_wide_dict() {
    let mut b = arbitrary::<14>();
    b[2] = 0x78;
    b[3] = 0x01;
    b[12] = 0x80;
    b[13] = 0x05;
    vp::assume(b[0] < 0x60);
    open(&b);
}
pub fn h_c23_dict() {
    let mut b = arbitrary::<12>();
    b[0] = 0x70;
    b[1] = 0x02;
    b[10] = 0x80;
    b[11] = 0x05;
    open(&b);
}
/// A root behind two references, and an element behind two
pub fn h_c23_root_chain() {
    let mut b = arbitrary::<10>();
    vp::assume(b[4] >= 0x80);
    b[8] = 0x80;
    b[9] = 0x02;
    open(&b);
}
pub fn h_c23_chain() {
    let mut b = arbitrary::<12>();
    b[0] = 0x00;
    vp::assume(b[2] >= 0x80);
    b[6] = 0x60;
    b[7] = 0x01;
    b[10] = 0x80;
    b[11] = 0x02;
    open(&b);
}
/// A double, a long string and a long number ahead of the array that refers to them
pub fn h_c23_long() {
    let mut b = [0u8; 26];
    b[0] = vp::any_u8();
    b[1] = vp::any_u8();
    let mut i = 18;
    while i < 24 {
        b[i] = vp::any_u8();
        i += 1;
    }
    vp::assume(b[0] == 0x4F || b[0] == 0x5F || b[0] == 0x28 || b[0] & 0xF0 == 0x10);
    b[18] = 0x60;
    b[19] = 0x02;
    b[24] = 0x80;
    b[25] = 0x03;
    open(&b);
}
/// Collections in collections
pub fn h_c23_nested() {
    let mut b = arbitrary::<12>();
    vp::assume(b[0] & 0xE0 == 0x60);
    b[1] = 0x01;
    vp::assume(b[4] & 0xE0 == 0x60);
    b[5] = 0x01;
    b[10] = 0x80;
    open(&b);
}

// Bytes of any length up to 2^28
pub fn h_c23_any_scalar() {
    any_scalar(open)
}
macro_rules! collections {
    ($($n:ident: $d:expr, $w:expr, $k:literal;)*) => { $(
        pub fn $n() {
            any_collection($d, $w, $k, open)
        }
    )* };
}
collections!(
    h_c23_any_array_0: false, false, 0; h_c23_any_array_1: false, false, 1; h_c23_any_array_3: false, false, 3;
    h_c23_any_wide_0: false, true, 0; h_c23_any_wide_1: false, true, 1; h_c23_any_wide_2: false, true, 2;
    h_c23_any_dict_0: true, false, 0; h_c23_any_dict_1: true, false, 1; h_c23_any_dict_2: true, false, 2;
    h_c23_any_wide_dict_1: true, true, 1;
);
macro_rules! nested {
    ($($n:ident: $o:expr, $i:expr;)*) => { $(
        pub fn $n() {
            any_nested($o, $i, open)
        }
    )* };
}
nested!(
    h_c23_any_nested: false, false; h_c23_any_nested_wide: false, true; h_c23_any_wide_nested: true, false;
    h_c23_any_wide_nested_wide: true, true;
);
/// Collections of many slots
macro_rules! many {
    ($($n:ident: $k:literal, $w:expr, $d:expr, $o:literal;)*) => { $(
        pub fn $n() {
            open(&many($k, $w, $d, $o))
        }
    )* };
}
many!(
    h_c23_many_20: 20, false, false, 3; h_c23_many_wide_5: 5, true, false, 2; h_c23_many_300: 300, false, false, 9999;
    h_c23_many_2046: 2046, false, false, 9999; h_c23_many_2047: 2047, false, false, 9999;
    h_c23_many_2100: 2100, false, false, 9999; h_c23_many_wide_70: 70, true, false, 9999;
    h_c23_many_dict_70: 70, false, true, 9999; h_c23_many_wide_dict_100: 100, true, true, 9999;
    h_c23_t_many_5000: 5000, false, false, 9999;
);
