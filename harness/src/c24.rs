//! C24: a value of a document which is written to an encoder reads back as it was
use crate::common::*;
use crate::vp;
use fleece::encoder::Encodable;
use fleece::{Array, Dict, Encoder, SharedKeys, Value, ValueType};

/// Values of one kind have a type with the same number
fn kind(v: &Value) -> u8 {
    match v.value_type() {
        ValueType::Null => 0,
        ValueType::Undefined => 1,
        ValueType::False => 2,
        ValueType::True => 3,
        ValueType::Short | ValueType::Int | ValueType::UnsignedInt => 4,
        ValueType::Float | ValueType::Double32 | ValueType::Double64 => 5,
        ValueType::String => 6,
        ValueType::Data => 7,
        ValueType::Array => 8,
        ValueType::Dict => 9,
        ValueType::Pointer => 10,
    }
}
/// `b` is a copy of `a`
fn same(a: &Value, b: &Value) {
    vp::check(kind(a) == kind(b), "a copied value is of the kind of its source");
    match kind(a) {
        // (a number below 2^11 may be stored as a short one)
        4 => {
            let x = a.to_int();
            let u = a.value_type() == ValueType::UnsignedInt;
            vp::check(x == b.to_int(), "a copied number is equal to its source");
            vp::check(x >= -0x800 && x < 0x800 || u == (b.value_type() == ValueType::UnsignedInt), "a copied number has the sign of its source");
        }
        5 => {
            let (x, y) = (a.to_double(), b.to_double());
            vp::check(x.to_bits() == y.to_bits() || x != x && y != y, "a copied number is equal to its source");
        }
        6 => vp::check(a.to_str().as_bytes() == b.to_str().as_bytes(), "a copied string is equal to its source"),
        7 => vp::check(a.to_data() == b.to_data(), "copied data is equal to its source"),
        8 => {
            if let (Some(x), Some(y)) = (a.as_array(), b.as_array()) {
                vp::check(x.len() == y.len(), "a copied array has as many elements as its source");
                let mut of = y.iter();
                for v in x {
                    match of.next() {
                        Some(w) => same(v, w),
                        None => vp::check(false, "a copied array has every element of its source"),
                    }
                }
            }
        }
        9 => {
            if let (Some(x), Some(y)) = (a.as_dict(), b.as_dict()) {
                let mut n = 0;
                for (k, v) in x {
                    match y.get(k) {
                        Some(w) => same(v, w),
                        None => vp::check(false, "a copied dict has every entry of its source"),
                    }
                    n += 1;
                }
                vp::check(y.len() == n, "a copied dict has as many entries as its source");
            }
        }
        _ => {}
    }
}

/// As an element, between others
fn element(v: &Value) {
    let mut e = Encoder::new();
    let _ = e.begin_array(3);
    let _ = e.write_value(true);
    vp::check(e.write_fleece(v).is_ok(), "a value is copied into an array");
    vp::check(e.write_value(77u16).is_ok(), "and the array is still open");
    vp::check(e.end_array().is_ok(), "and can be ended");
    let out = e.finish();
    match Array::from_bytes(&out) {
        Ok(a) => {
            vp::check(a.len() == 3, "a copied value is one element");
            match (a.get(0), a.get(1), a.get(2)) {
                (Some(x), Some(y), Some(z)) => {
                    vp::check(x.value_type() == ValueType::True && z.to_int() == 77, "the other elements are what was written");
                    same(v, y);
                    vp::reached("copied");
                }
                _ => vp::check(false, "every element is found"),
            }
        }
        Err(_) => vp::check(false, "the document with the copy is accepted"),
    }
}
/// As an entry, between others
fn entry(v: &Value) {
    let mut e = Encoder::new();
    let _ = e.begin_dict();
    let _ = e.write_key("second");
    let _ = e.write_value(true);
    let _ = e.write_key("third");
    vp::check(e.write_fleece(v).is_ok(), "a value is copied into a dict");
    vp::check(e.write_key("first").is_ok(), "and the dict is still open");
    let _ = e.write_value(77u16);
    vp::check(e.end_dict().is_ok(), "and can be ended");
    let out = e.finish();
    match Dict::from_bytes(&out) {
        Ok(d) => {
            vp::check(d.len() == 3, "a copied value is one entry");
            match (d.get("first"), d.get("second"), d.get("third")) {
                (Some(x), Some(y), Some(z)) => {
                    vp::check(y.value_type() == ValueType::True && x.to_int() == 77, "the other entries are what was written");
                    same(v, z);
                    vp::reached("copied");
                }
                _ => vp::check(false, "every entry is found"),
            }
        }
        Err(_) => vp::check(false, "the document with the copy is accepted"),
    }
}
/// As a document of its own
fn whole(v: &Value) {
    let mut e = Encoder::new();
    let done = e.write_fleece(v).is_ok();
    vp::check(done == matches!(v.value_type(), ValueType::Array | ValueType::Dict), "exactly a collection can be a document of its own");
    if done {
        vp::check(e.write_fleece(v).is_err(), "and only one of them");
    } else {
        let _ = e.begin_array(1);
        vp::check(e.write_fleece(v).is_ok() && e.end_array().is_ok(), "what is refused does no harm");
    }
    let out = e.finish();
    match Value::from_bytes(&out) {
        Ok(r) if done => {
            same(v, r);
            vp::reached("copied");
        }
        Ok(r) => {
            match r.as_array() {
                Some(a) => {
                    vp::check(a.len() == 1, "what is refused leaves nothing behind");
                    if let Some(x) = a.get(0) {
                        same(v, x);
                    }
                }
                None => vp::check(false, "the array is the root"),
            }
        }
        Err(_) => vp::check(false, "the document with the copy is accepted"),
    }
}
/// Into a document with shared keys
fn scoped(v: &Value) {
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    let _ = e.begin_dict();
    let _ = e.write_key("other");
    let _ = e.write_value(true);
    let _ = e.write_key("copy");
    vp::check(e.write_fleece(v).is_ok(), "a value is copied into a document with shared keys");
    vp::check(e.end_dict().is_ok(), "and the dict can be ended");
    let s = e.finish_scoped();
    match s.root() {
        Some(r) => match r.as_dict() {
            Some(d) => {
                vp::check(d.len() == 2, "a copied value is one entry");
                match d.get("copy") {
                    Some(x) => {
                        same(v, x);
                        vp::reached("copied");
                    }
                    None => vp::check(false, "the entry is found"),
                }
            }
            None => vp::check(false, "the root is the dict"),
        },
        None => vp::check(false, "there is a root"),
    }
}

/// No dict of it has keys which are numbers: without shared keys they cannot be read
fn named(v: &Value) -> bool {
    if let Some(a) = v.as_array() {
        a.iter().all(named)
    } else if let Some(d) = v.as_dict() {
        d.iter().count() == d.len() && d.iter().all(|(_, x)| named(x))
    } else {
        true
    }
}
macro_rules! fixed {
    ($($n:ident: $l:literal, $f:expr;)*) => { $(
        pub fn $n() {
            let b = arbitrary::<$l>();
            if let Ok(v) = Value::from_bytes(&b) {
                if named(v) {
                    $f(v)
                }
            }
        }
    )* };
}
fixed!(
    h_c24_element_2: 2, element; h_c24_element_4: 4, element; h_c24_element_6: 6, element; h_c24_t_element_8: 8, element;
    h_c24_entry_2: 2, entry; h_c24_entry_4: 4, entry; h_c24_entry_6: 6, entry;
    h_c24_whole_2: 2, whole; h_c24_whole_4: 4, whole; h_c24_whole_6: 6, whole; h_c24_t_whole_8: 8, whole;
    h_c24_scoped_4: 4, scoped; h_c24_scoped_6: 6, scoped;
);
fn layout(b: &[u8], f: impl FnOnce(&Value)) {
    if let Ok(v) = Value::from_bytes(b) {
        if named(v) {
            f(v)
        }
    }
}
pub fn h_c24_wide() {
    let mut b = arbitrary::<10>();
    b[2] = 0x68;
    b[3] = 0x01;
    vp::assume(b[0] < 0x60);
    b[8] = 0x80;
    b[9] = 0x03;
    layout(&b, element);
}
pub fn h_c24_wide_dict() {
    let mut b = arbitrary::<14>();
    b[0] = 0x18;
    b[1] = 0xFF;
    b[2] = 0x78;
    b[3] = 0x01;
    vp::assume(b[4] == 0x43);
    vp::assume(b[5] < 0x80 && b[6] < 0x80 && b[7] < 0x80);
    b[12] = 0x80;
    b[13] = 0x05;
    layout(&b, whole);
}
pub fn h_c24_double() {
    let mut b = arbitrary::<12>();
    vp::assume(b[0] & 0xF0 == 0x20);
    b[10] = 0x80;
    b[11] = 0x05;
    layout(&b, element);
}
pub fn h_c24_long() {
    let mut b = arbitrary::<12>();
    vp::assume(b[0] & 0xF0 == 0x10);
    b[10] = 0x80;
    b[11] = 0x05;
    layout(&b, entry);
}
/// An array of an array, or of a dict, with anything in it
pub fn h_c24_nested() {
    let mut b = arbitrary::<12>();
    b[0] = 0x60;
    b[1] = 0x01;
    vp::assume(b[2] < 0x60);
    b[4] = 0x60;
    b[5] = 0x02;
    vp::assume(b[6] >= 0x80);
    b[10] = 0x80;
    b[11] = 0x03;
    layout(&b, whole);
}

// What an encoder wrote, of every length
fn written<T: Encodable>(x: T, f: impl FnOnce(&Value)) {
    let mut e = Encoder::new();
    let _ = e.begin_array(1);
    let _ = e.write_value(x);
    let _ = e.end_array();
    let doc = e.finish();
    if let Ok(v) = Value::from_bytes(&doc) {
        if let Some(a) = v.as_array() {
            if let Some(x) = a.get(0) {
                f(x);
            }
        }
    }
}
fn entries(k: &str, x: &str, keys: bool, f: impl FnOnce(&Value)) {
    let mut e = Encoder::new();
    if keys {
        e.set_shared_keys(SharedKeys::new());
    }
    let _ = e.begin_dict();
    let _ = e.write_key(k);
    let _ = e.write_value(x);
    let _ = e.end_dict();
    if keys {
        let s = e.finish_scoped();
        if let Some(r) = s.root() {
            f(&r);
        }
    } else {
        let doc = e.finish();
        if let Ok(v) = Value::from_bytes(&doc) {
            f(v);
        }
    }
}
pub fn h_c24_str() {
    written(vp::any_str(), element)
}
pub fn h_c24_data() {
    written(vp::any_bytes(), element)
}
pub fn h_c24_int() {
    written(vp::any_i64(), element)
}
pub fn h_c24_uint() {
    written(vp::any_u64(), element)
}
pub fn h_c24_f64() {
    written(vp::any_f64(), element)
}
pub fn h_c24_int_entry() {
    written(vp::any_i64(), entry)
}
pub fn h_c24_t_str_entry() {
    written(vp::any_str(), entry)
}
pub fn h_c24_dict_value() {
    entries("", vp::any_str(), false, whole)
}
pub fn h_c24_dict_key() {
    entries(vp::any_str(), "text", false, whole)
}
pub fn h_c24_keys() {
    entries("another", "text", true, element)
}
pub fn h_c24_keys_whole() {
    entries("an", "text", true, whole)
}
pub fn h_c24_keys_keys() {
    entries("other", "text", true, scoped)
}
pub fn h_c24_keys_long() {
    entries("this is no key that is shared", "text", true, scoped)
}
/// Collections of many slots
macro_rules! many {
    ($($n:ident: $k:literal, $w:expr, $d:expr, $f:expr;)*) => { $(
        pub fn $n() {
            layout(&many($k, $w, $d, 99999), $f)
        }
    )* };
}
many!(
    h_c24_many_20: 20, false, false, element; h_c24_many_wide_20: 20, true, false, ends;
);
/// As long as the longest length that is written in the header, and about it
macro_rules! numbers {
    ($($n:ident: $k:literal, $f:expr;)*) => { $(
        pub fn $n() {
            let at = if $k < 0x7FF { 2 } else { 4 };
            let mut b = vec![0x38u8; at + 2 * $k + 2];
            b[0] = 0x67;
            b[1] = $k as u8;
            if $k >= 0x7FF {
                b[1] = 0xFF;
                b[2] = $k as u8 & 0x7F | 0x80;
                b[3] = ($k >> 7) as u8;
            }
            let end = at + 2 * $k;
            b[end - 2] = vp::any_u8();
            b[end - 1] = vp::any_u8();
            vp::assume(b[end - 2] < 0x10 || b[end - 2] & 0xF0 == 0x30);
            b[end] = 0x80 | (end >> 9) as u8;
            b[end + 1] = (end >> 1) as u8;
            vp::check(Value::from_bytes(&b).is_ok_and(|v| v.as_array().is_some_and(|a| a.len() == $k)), "the document is one");
            if let Ok(v) = Value::from_bytes(&b) {
                $f(v)
            }
        }
    )* };
}
fn ends(v: &Value) {
    let mut e = Encoder::new();
    vp::check(e.write_fleece(v).is_ok(), "an array of any length is copied");
    let out = e.finish();
    if let (Ok(r), Some(a)) = (Value::from_bytes(&out), v.as_array()) {
        match r.as_array() {
            Some(b) => {
                vp::check(a.len() == b.len(), "a copied array has as many elements as its source");
                if let (Some(x), Some(y)) = (a.get(a.len() - 1), b.get(a.len() - 1)) {
                    same(x, y);
                    vp::reached("copied");
                }
            }
            None => vp::check(false, "a copied array is an array"),
        }
    }
}
numbers!(
    h_c24_numbers_2046: 2046, ends; h_c24_numbers_2047: 2047, ends; h_c24_numbers_2048: 2048, ends;
);
