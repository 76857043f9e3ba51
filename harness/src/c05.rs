//! C05: collections of every size, with values at every distance
use crate::vp;
use fleece::{Array, Dict, Encoder, Value, ValueType};

fn is_int(v: Option<&Value>, x: i64, id: &'static str) {
    match v {
        Some(v) => vp::check(v.to_int() == x, id),
        None => vp::check(false, id),
    }
}
fn small(i: usize) -> i16 {
    (i % 2048) as i16
}

/// An array of `n` small numbers, one of which is any number
fn array(n: usize, at: usize) {
    let x = vp::any_u8();
    let mut e = Encoder::new();
    vp::check(e.begin_array(n).is_ok(), "begin_array is accepted");
    let mut i = 0;
    while i < n {
        let r = if i == at { e.write_value(x) } else { e.write_value(small(i)) };
        vp::check(r.is_ok(), "write_value is accepted");
        i += 1;
    }
    vp::check(e.end_array().is_ok(), "end_array is accepted");
    let out = e.finish();
    let Ok(a) = Array::from_bytes(&out) else {
        vp::check(false, "the array is read");
        return;
    };
    vp::check(a.len() == n, "an array has as many elements as were written");
    let mut i = 0;
    while i < n {
        let want = if i == at { i64::from(x) } else { i64::from(small(i)) };
        is_int(a.get(i), want, "each element of an array is in its slot");
        i += 1;
    }
    let mut i = 0;
    for v in a.iter() {
        let want = if i == at { i64::from(x) } else { i64::from(small(i)) };
        vp::check(v.to_int() == want, "iteration finds each element of an array in its slot");
        i += 1;
    }
    vp::check(i == n, "iteration finds as many elements as were written");
    vp::check(a.get(n).is_none(), "there is nothing after the last element");
    vp::reached("end");
}
pub fn h_c05_few() {
    let mut n = 0;
    while n <= 20 {
        array(n, n / 2);
        n += 1;
    }
}
macro_rules! sizes {
    ($($n:ident: $c:literal;)*) => { $(
        pub fn $n() {
            array($c, $c - 1);
        }
    )* };
}
sizes!(
    h_c05_127: 127; h_c05_128: 128; h_c05_255: 255; h_c05_256: 256; h_c05_1023: 1023; h_c05_1024: 1024;
    h_c05_2046: 2046; h_c05_2047: 2047; h_c05_2048: 2048; h_c05_2049: 2049; h_c05_4096: 4096; h_c05_5000: 5000;
    h_c05_16383: 16383; h_c05_16384: 16384; h_c05_t_16385: 16385; h_c05_t_40000: 40000;
);

/// The same with wide slots: there are values which are stored elsewhere
fn wide(n: usize, each: usize) {
    let mut e = Encoder::new();
    vp::check(e.begin_array(n).is_ok(), "begin_array is accepted");
    let mut i = 0;
    while i < n {
        let r = if i % each == 0 { e.write_value(100_000 + i as i64) } else { e.write_value(small(i)) };
        vp::check(r.is_ok(), "write_value is accepted");
        i += 1;
    }
    vp::check(e.end_array().is_ok(), "end_array is accepted");
    let out = e.finish();
    let Ok(a) = Array::from_bytes(&out) else {
        vp::check(false, "the array is read");
        return;
    };
    vp::check(a.len() == n, "an array has as many elements as were written");
    let mut i = 0;
    for v in a.iter() {
        let want = if i % each == 0 { 100_000 + i as i64 } else { i64::from(small(i)) };
        vp::check(v.to_int() == want, "iteration finds each element of an array in its slot");
        is_int(a.get(i), want, "each element of an array is in its slot");
        i += 1;
    }
    vp::check(i == n, "iteration finds as many elements as were written");
    vp::reached("end");
}
pub fn h_c05_wide_7() {
    wide(7, 2);
}
pub fn h_c05_wide_2046() {
    wide(2046, 1);
}
pub fn h_c05_wide_2047() {
    wide(2047, 3);
}
pub fn h_c05_wide_2048() {
    wide(2048, 1);
}
pub fn h_c05_wide_6000() {
    wide(6000, 2);
}
pub fn h_c05_t_wide_16384() {
    wide(16384, 5);
}

/// Dicts: the keys are numbers in text, all of the same length, or not
fn name(i: usize, long: bool) -> String {
    let mut s = String::new();
    let mut k = 10000 + i;
    while k > 0 {
        s.push((b'0' + (k % 10) as u8) as char);
        k /= 10;
    }
    if long && i % 3 == 0 {
        s.push_str(" and a few more");
    }
    s
}
fn dict(n: usize, at: usize, long: bool) {
    let x = vp::any_u8();
    let mut e = Encoder::new();
    vp::check(e.begin_dict().is_ok(), "begin_dict is accepted");
    let mut i = 0;
    while i < n {
        vp::check(e.write_key(&name(i, long)).is_ok(), "write_key is accepted");
        let r = if i == at { e.write_value(x) } else { e.write_value(small(i)) };
        vp::check(r.is_ok(), "write_value is accepted");
        i += 1;
    }
    vp::check(e.end_dict().is_ok(), "end_dict is accepted");
    let out = e.finish();
    let Ok(d) = Dict::from_bytes(&out) else {
        vp::check(false, "the dict is read");
        return;
    };
    vp::check(d.len() == n, "a dict has as many entries as were written");
    let mut i = 0;
    while i < n {
        let want = if i == at { i64::from(x) } else { i64::from(small(i)) };
        is_int(d.get(name(i, long).as_str()), want, "each value of a dict is under its key");
        i += 1;
    }
    let mut k = 0;
    for _ in d.iter() {
        k += 1;
    }
    vp::check(k == n, "iteration finds as many entries as were written");
    vp::reached("end");
}
pub fn h_c05_dict_few() {
    let mut n = 0;
    while n <= 12 {
        dict(n, n / 2, n % 2 == 0);
        n += 1;
    }
}
pub fn h_c05_dict_100() {
    dict(100, 50, true);
}
pub fn h_c05_dict_1023() {
    dict(1023, 1000, false);
}
pub fn h_c05_dict_2046() {
    dict(2046, 5, false);
}
pub fn h_c05_dict_2047() {
    dict(2047, 2040, false);
}
pub fn h_c05_t_dict_2048() {
    dict(2048, 1, true);
}

// ---- Distances
/// `[s, v, w]` with a string of any length between each value and the slot which refers to it
pub fn h_c05_distance() {
    let s = vp::any_str();
    vp::assume(s.len() < 1 << 29);
    let mut e = Encoder::new();
    let _ = e.begin_array(4);
    let _ = e.write_value(100_001);
    let _ = e.write_value(s);
    let _ = e.write_value(-100_002);
    let _ = e.write_value(true);
    let _ = e.end_array();
    let out = e.finish();
    let Ok(a) = Array::from_bytes(&out) else {
        vp::check(false, "the array is read");
        return;
    };
    vp::check(a.len() == 4, "an array has as many elements as were written");
    is_int(a.get(0), 100_001, "a value before the string");
    is_int(a.get(2), -100_002, "a value behind the string");
    match a.get(1) {
        Some(v) => vp::check(v.to_str().len() == s.len(), "the string"),
        None => vp::check(false, "the string"),
    }
    match a.get(3) {
        Some(v) => vp::check(v.value_type() == ValueType::True, "a value in its slot"),
        None => vp::check(false, "a value in its slot"),
    }
    vp::reached("end");
}
/// The distance to a collection within another one
pub fn h_c05_distance_inner() {
    let s = vp::any_str();
    vp::assume(s.len() < 1 << 29);
    let mut e = Encoder::new();
    let _ = e.begin_dict();
    let _ = e.write_key("inner");
    let _ = e.begin_array(2);
    let _ = e.write_value(100_001);
    let _ = e.write_value(7);
    let _ = e.end_array();
    let _ = e.write_key("a string");
    let _ = e.write_value(s);
    let _ = e.write_key("x");
    let _ = e.write_value(5);
    let _ = e.end_dict();
    let out = e.finish();
    let Ok(d) = Dict::from_bytes(&out) else {
        vp::check(false, "the dict is read");
        return;
    };
    vp::check(d.len() == 3, "a dict has as many entries as were written");
    is_int(d.get("x"), 5, "a value in its slot");
    match d.get("a string") {
        Some(v) => vp::check(v.to_str().len() == s.len(), "the string"),
        None => vp::check(false, "the string"),
    }
    match d.get("inner").and_then(Value::as_array) {
        Some(a) => {
            vp::check(a.len() == 2, "the inner array");
            is_int(a.get(0), 100_001, "an element of the inner array");
            is_int(a.get(1), 7, "an element of the inner array");
        }
        None => vp::check(false, "the inner array is found"),
    }
    vp::reached("end");
}
/// A string within the inner collection, so that the distances there and the one to it differ
fn both(n: usize) {
    let s = vp::any_str();
    vp::assume(s.len() == n);
    let t = vp::any_str();
    vp::assume(t.len() < 1 << 28);
    let mut e = Encoder::new();
    let _ = e.begin_array(3);
    let _ = e.begin_array(2);
    let _ = e.write_value(100_001);
    let _ = e.write_value(s);
    let _ = e.end_array();
    let _ = e.write_value(t);
    let _ = e.end_array();
    let out = e.finish();
    let Ok(a) = Array::from_bytes(&out) else {
        vp::check(false, "the array is read");
        return;
    };
    vp::check(a.len() == 2, "an array has as many elements as were written");
    match a.get(1) {
        Some(v) => vp::check(v.to_str().len() == t.len(), "the outer string"),
        None => vp::check(false, "the outer string"),
    }
    match a.get(0).and_then(Value::as_array) {
        Some(a) => {
            vp::check(a.len() == 2, "the inner array");
            is_int(a.get(0), 100_001, "an element of the inner array");
            match a.get(1) {
                Some(v) => vp::check(v.to_str().len() == s.len(), "the inner string"),
                None => vp::check(false, "the inner string"),
            }
        }
        None => vp::check(false, "the inner array is found"),
    }
    vp::reached("end");
}

pub fn h_c05_distance_40() {
    both(40);
}
pub fn h_c05_distance_32700() {
    both(32700);
}
pub fn h_c05_distance_65530() {
    both(65530);
}
pub fn h_c05_distance_131080() {
    both(131_080);
}
// ---- The reader, for any number of elements of any content
fn slot(header: &[u8], n: usize, dict: bool, is_wide: bool, first: usize) {
    let body = vp::any_bytes();
    let width = if is_wide { 4 } else { 2 };
    let slots = if dict { 2 * n } else { n };
    vp::assume(body.len() == slots * width);
    let mut b: Vec<u8> = Vec::new();
    b.extend_from_slice(header);
    b.extend_from_slice(body);
    let v: &Value = unsafe { &*(core::ptr::from_ref::<[u8]>(&b) as *const Value) };
    if dict {
        match v.as_dict() {
            Some(d) => {
                vp::check(d.len() == n, "the length of a dict of any size");
                vp::check(d.is_wide() == is_wide && usize::from(d.width()) == width, "the width of a dict");
                vp::check(d.is_empty() == (n == 0), "a dict without entries");
                if n == 0 {
                    vp::check(d.first().is_none(), "no first entry");
                } else {
                    // The first entry is (a short number, a short number)
                    vp::assume(body[0] == 0);
                    vp::assume(body[width] == 0);
                    match d.first() {
                        Some((k, v)) => {
                            vp::check(k.to_unsigned_short() == u16::from(body[1]), "the first key");
                            vp::check(v.to_unsigned_short() == u16::from(body[width + 1]), "the first value");
                        }
                        None => vp::check(false, "the first entry"),
                    }
                }
            }
            None => vp::check(false, "a dict"),
        }
    } else {
        match v.as_array() {
            Some(a) => {
                vp::check(a.len() == n, "the length of an array of any size");
                vp::check(a.is_wide() == is_wide && usize::from(a.width()) == width, "the width of an array");
                let mut it = a.iter();
                vp::check(it.len() == n, "the iterator of an array of any size");
                vp::check(a.is_empty() == (n == 0), "an array without elements");
                let i = vp::any_usize();
                if i < n {
                    // That element is a short number
                    vp::assume(body[i * width] == 0);
                    match a.get(i) {
                        Some(v) => vp::check(
                            v.to_int() == i64::from(body[i * width + 1]),
                            "an element of an array of any size",
                        ),
                        None => vp::check(false, "an element of an array of any size is found"),
                    }
                    if i == 0 {
                        match it.next() {
                            Some(v) => vp::check(v.to_int() == i64::from(body[1]), "the first element"),
                            None => vp::check(false, "the first element"),
                        }
                        vp::check(it.len() == n - 1, "the elements that remain");
                    }
                } else {
                    vp::check(a.get(i).is_none(), "nothing is found beyond the elements");
                }
            }
            None => vp::check(false, "an array"),
        }
    }
    vp::reached("end");
    let _ = first;
}
fn header(n: usize, kind: u8, is_wide: bool) {
    let w = if is_wide { 8 } else { 0 };
    let dict = kind == 0x70;
    if n < 0x7FF {
        let h = [kind | w | (n >> 8) as u8, n as u8];
        slot(&h, n, dict, is_wide, 2);
    } else if n < 1 << 14 {
        let h = [kind | w | 7, 0xFF, n as u8 | 0x80, (n >> 7) as u8];
        slot(&h, n, dict, is_wide, 4);
    } else if n < 1 << 21 {
        let h = [kind | w | 7, 0xFF, n as u8 | 0x80, (n >> 7) as u8 | 0x80, (n >> 14) as u8, 0];
        slot(&h, n, dict, is_wide, 6);
    } else {
        let h = [kind | w | 7, 0xFF, n as u8 | 0x80, (n >> 7) as u8 | 0x80, (n >> 14) as u8 | 0x80, (n >> 21) as u8];
        slot(&h, n, dict, is_wide, 6);
    }
}
macro_rules! headers {
    ($($n:ident: $k:literal, $w:literal;)*) => { $(
        pub fn $n() {
            let n = vp::any_usize();
            vp::assume(n < 1 << 28);
            header(n, $k, $w);
        }
    )* };
}
headers!(
    h_c05_header_array: 0x60, false;
    h_c05_header_array_wide: 0x60, true;
    h_c05_header_dict: 0x70, false;
    h_c05_header_dict_wide: 0x70, true;
);
