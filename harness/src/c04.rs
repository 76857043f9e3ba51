//! C04: strings and data come back byte for byte, whatever their length
use crate::common::*;
use crate::vp;
use fleece::{Array, Dict, Encoder, Value, ValueType};

fn same_str(x: &Value, s: &str) {
    vp::check(x.value_type() == ValueType::String, "it is a string");
    vp::check(x.to_str().len() == s.len(), "the string has the length which was written");
    vp::check(x.to_str() == s, "the string is the one which was written");
    vp::check(x.to_data() == s.as_bytes(), "the string has the bytes which were written");
    vp::reached("end");
}

fn same_data(x: &Value, s: &[u8]) {
    vp::check(x.value_type() == ValueType::Data, "it is data");
    vp::check(x.to_data().len() == s.len(), "the data has the length which was written");
    vp::check(x.to_data() == s, "the data is the one which was written");
    vp::reached("end");
}

pub fn h_c04_str() {
    let s = vp::any_str();
    in_array(s, |x| same_str(x, s));
}
pub fn h_c04_data() {
    let s = vp::any_bytes();
    in_array(s, |x| same_data(x, s));
}
pub fn h_c04_dict_str() {
    let s = vp::any_str();
    in_dict("key", s, |x| same_str(x, s));
}
pub fn h_c04_dict_data() {
    let s = vp::any_bytes();
    in_dict("key", s, |x| same_data(x, s));
}
pub fn h_c04_option() {
    let s = vp::any_str();
    in_array(Some(s), |x| same_str(x, s));
}

/// Something of any size is followed by something which has to be aligned
pub fn h_c04_after() {
    let s = vp::any_bytes();
    let i = 0x0102_0304_0506_0708i64;
    let mut e = Encoder::new();
    vp::check(e.begin_array(2).is_ok(), "begin_array is accepted");
    vp::check(e.write_value(s).is_ok(), "write_value is accepted");
    vp::check(e.write_value(i).is_ok(), "write_value is accepted");
    vp::check(e.end_array().is_ok(), "end_array is accepted");
    let out = e.finish();
    let Ok(a) = Array::from_bytes(&out) else {
        vp::check(false, "the document is accepted");
        return;
    };
    vp::check(a.len() == 2, "the array has its two elements");
    match (a.get(0), a.get(1)) {
        (Some(x), Some(y)) => {
            same_data(x, s);
            vp::check(y.to_int() == i, "the integer after it is intact");
        }
        _ => vp::check(false, "the elements are found"),
    }
}

/// In a wide collection
pub fn h_c04_wide() {
    let s = vp::any_str();
    let mut e = Encoder::new();
    vp::check(e.begin_array(3).is_ok(), "begin_array is accepted");
    vp::check(e.write_value(s).is_ok(), "write_value is accepted");
    vp::check(e.write_value(0x10000u32).is_ok(), "write_value is accepted");
    vp::check(e.write_value([0u8; 0x8000].as_slice()).is_ok(), "write_value is accepted");
    vp::check(e.end_array().is_ok(), "end_array is accepted");
    let out = e.finish();
    let Ok(a) = Array::from_bytes(&out) else {
        vp::check(false, "the document is accepted");
        return;
    };
    vp::check(a.len() == 3, "the array has its elements");
    match a.get(0) {
        Some(x) => same_str(x, s),
        None => vp::check(false, "the element is found"),
    }
}

/// Two of any size
pub fn h_c04_t_two() {
    let s = vp::any_str();
    let t = vp::any_bytes();
    let mut e = Encoder::new();
    vp::check(e.begin_array(2).is_ok(), "begin_array is accepted");
    vp::check(e.write_value(s).is_ok(), "write_value is accepted");
    vp::check(e.write_value(t).is_ok(), "write_value is accepted");
    vp::check(e.end_array().is_ok(), "end_array is accepted");
    let out = e.finish();
    let Ok(a) = Array::from_bytes(&out) else {
        vp::check(false, "the document is accepted");
        return;
    };
    vp::check(a.len() == 2, "the array has its two elements");
    match (a.get(0), a.get(1)) {
        (Some(x), Some(y)) => {
            same_str(x, s);
            same_data(y, t);
        }
        _ => vp::check(false, "the elements are found"),
    }
}

pub fn h_c04_t_wide() {
    let s = vp::any_str();
    let d = vp::any_bytes();
    let t = vp::any_bytes();
    vp::assume(t.len() >= 0x8000);
    let mut e = Encoder::new();
    vp::check(e.begin_array(4).is_ok(), "begin_array is accepted");
    vp::check(e.write_value(s).is_ok(), "write_value is accepted");
    vp::check(e.write_value(d).is_ok(), "write_value is accepted");
    vp::check(e.write_value(0x10000u32).is_ok(), "write_value is accepted");
    vp::check(e.write_value(t).is_ok(), "write_value is accepted");
    vp::check(e.end_array().is_ok(), "end_array is accepted");
    let out = e.finish();
    let Ok(a) = Array::from_bytes(&out) else {
        vp::check(false, "the document is accepted");
        return;
    };
    vp::check(a.len() == 4, "the array has its four elements");
    match (a.get(0), a.get(1), a.get(2), a.get(3)) {
        (Some(x), Some(y), Some(i), Some(z)) => {
            same_str(x, s);
            same_data(y, d);
            vp::check(i.to_int() == 0x10000, "the element between is intact");
            same_data(z, t);
        }
        _ => vp::check(false, "the elements are found"),
    }
}

/// As a key
pub fn h_c04_key() {
    let s = vp::any_str();
    let mut e = Encoder::new();
    vp::check(e.begin_dict().is_ok(), "begin_dict is accepted");
    vp::check(e.write_key(s).is_ok(), "write_key is accepted");
    vp::check(e.write_value(7u8).is_ok(), "write_value is accepted");
    vp::check(e.end_dict().is_ok(), "end_dict is accepted");
    let out = e.finish();
    let Ok(d) = Dict::from_bytes(&out) else {
        vp::check(false, "the document is accepted");
        return;
    };
    vp::check(d.len() == 1, "the dict has its entry");
    match d.get(s) {
        Some(x) => vp::check(x.to_int() == 7, "the key leads to its value"),
        None => vp::check(false, "the key is found"),
    }
    match d.first() {
        Some((k, _)) => same_str(k, s),
        None => vp::check(false, "the key is there"),
    }
}
