//! C26: what is written has the layout which the format prescribes, and says there what was written
use crate::common::*;
use crate::format::*;
use crate::vp;
use fleece::encoder::{Encodable, NullValue, UndefinedValue};
use fleece::{Encoder, SharedKeys};

/// The slots of the collection at the root
fn top(b: &[u8], first: u8, n: usize) -> Option<(usize, bool)> {
    match root(b) {
        Some(at) => {
            vp::check(b[at] >> 4 == first, "the root is the collection which was written");
            match slots(b, at, b.len()) {
                Some((from, m, wide)) => {
                    vp::check(m == n, "a collection is as long as it was written");
                    Some((from, wide))
                }
                None => None,
            }
        }
        None => {
            vp::check(false, "what is written is laid out as the format prescribes");
            None
        }
    }
}
/// What is in or behind slot `i`
fn at(b: &[u8], from: usize, wide: bool, i: usize) -> Option<(usize, usize)> {
    let p = held(b, from + i * if wide { 4 } else { 2 }, wide);
    vp::check(p.is_some(), "every slot holds a value or refers to one");
    p
}
fn special(b: &[u8], p: Option<(usize, usize)>, which: u8) {
    if let Some((p, _)) = p {
        vp::check(b[p] & 0xFC == 0x30 | which << 2, "a special value has its number");
    }
}
fn whole(b: &[u8], p: Option<(usize, usize)>, x: u64, signed: bool) {
    if let Some((p, _)) = p {
        match integer(b, p) {
            Some((y, s)) => {
                vp::check(x == y, "a number is written in two's complement, from its lowest byte on");
                vp::check(s == signed || x >> 63 == 0, "a number is marked by whether it has a sign");
                vp::reached("told");
            }
            None => vp::check(false, "a whole number is written as one"),
        }
    }
}
fn text(b: &[u8], p: Option<(usize, usize)>, first: u8, x: &[u8]) {
    if let Some((p, end)) = p {
        vp::check(b[p] >> 4 == first, "a string is a string and data is data");
        vp::check(content(b, p, end) == Some(x), "a string or data is written byte for byte");
        vp::reached("told");
    }
}

fn one<T: Encodable>(x: T, f: impl FnOnce(&[u8], Option<(usize, usize)>)) {
    let mut e = Encoder::new();
    let _ = e.begin_array(2);
    let _ = e.write_value(x);
    let _ = e.write_value(true);
    let _ = e.end_array();
    let b = e.finish();
    if let Some((from, wide)) = top(&b, 6, 2) {
        special(&b, at(&b, from, wide, 1), 2);
        f(&b, at(&b, from, wide, 0));
    }
}
macro_rules! signed {
    ($($n:ident: $a:ident;)*) => { $( pub fn $n() { let x = vp::$a(); one(x, |b, p| whole(b, p, x as i64 as u64, true)) } )* };
}
macro_rules! unsigned {
    ($($n:ident: $a:ident;)*) => { $( pub fn $n() { let x = vp::$a(); one(x, |b, p| whole(b, p, x as u64, false)) } )* };
}
signed!(h_c26_i8: any_i8; h_c26_i16: any_i16; h_c26_i32: any_i32; h_c26_i64: any_i64;);
unsigned!(h_c26_u8: any_u8; h_c26_u16: any_u16; h_c26_u32: any_u32; h_c26_u64: any_u64;);
pub fn h_c26_f32() {
    let x = vp::any_f32();
    one(x, |b, p| {
        if let Some((p, _)) = p {
            vp::check(b[p] & 0xF8 == 0x20, "a single is marked as one");
            let y = u32::from_le_bytes([b[p + 2], b[p + 3], b[p + 4], b[p + 5]]);
            vp::check(y == x.to_bits(), "a single is written from its lowest byte on");
            vp::reached("told");
        }
    })
}
pub fn h_c26_f64() {
    let x = vp::any_f64();
    one(x, |b, p| {
        if let Some((p, _)) = p {
            match b[p] >> 4 {
                2 if b[p] & 8 != 0 => {
                    let y = u64::from_le_bytes([b[p + 2], b[p + 3], b[p + 4], b[p + 5], b[p + 6], b[p + 7], b[p + 8], b[p + 9]]);
                    vp::check(y == x.to_bits(), "a double is written from its lowest byte on");
                }
                2 => {
                    let y = f32::from_le_bytes([b[p + 2], b[p + 3], b[p + 4], b[p + 5]]);
                    vp::check(f64::from(y).to_bits() == x.to_bits() || x != x && y != y, "what is written in single precision needs no more");
                }
                _ => match integer(b, p) {
                    Some((y, _)) => vp::check(y as i64 as f64 == x, "what is written as a whole number is one"),
                    None => vp::check(false, "a number is written as one"),
                },
            }
            vp::reached("told");
        }
    })
}
pub fn h_c26_special() {
    one(false, |b, p| special(b, p, 1));
    one(true, |b, p| special(b, p, 2));
    one(NullValue, |b, p| special(b, p, 0));
    one(UndefinedValue, |b, p| special(b, p, 3));
    vp::reached("told");
}
pub fn h_c26_str() {
    let x = vp::any_str();
    one(x, |b, p| text(b, p, 4, x.as_bytes()))
}
pub fn h_c26_data() {
    let x = vp::any_bytes();
    one(x, |b, p| text(b, p, 5, x))
}

// ---- dicts
fn lines(keys: [&str; 4], x: &str) -> Vec<u8> {
    let mut e = Encoder::new();
    let _ = e.begin_dict();
    for k in keys {
        let _ = e.write_key(k);
        let _ = e.write_value(k);
    }
    let _ = e.write_key(x);
    let _ = e.write_value(x);
    let _ = e.end_dict();
    e.finish()
}
/// The keys are in the order of their bytes, each with its value behind it
fn sorted(b: &[u8], keys: [&str; 5]) {
    if let Some((from, wide)) = top(b, 7, 5) {
        for i in 0..5 {
            text(b, at(b, from, wide, 2 * i), 4, keys[i].as_bytes());
            text(b, at(b, from, wide, 2 * i + 1), 4, keys[i].as_bytes());
        }
    }
}
pub fn h_c26_dict() {
    sorted(&lines(["b", "name of some", "another", "names"], ""), ["", "another", "b", "name of some", "names"]);
}
pub fn h_c26_dict_prefixes() {
    sorted(&lines(["abcd", "abc", "ab", "abcde"], "a"), ["a", "ab", "abc", "abcd", "abcde"]);
}
pub fn h_c26_dict_bytes() {
    sorted(&lines(["\u{e9}", "zz", "Z", "~~~"], "\u{20ac}uro"), ["Z", "zz", "~~~", "\u{e9}", "\u{20ac}uro"]);
}
/// Any key is before or behind another as its bytes are
pub fn h_c26_dict_any() {
    let x = vp::any_str();
    vp::assume(x != "key");
    let mut e = Encoder::new();
    let _ = e.begin_dict();
    let _ = e.write_key("key");
    let _ = e.write_value(1);
    let _ = e.write_key(x);
    let _ = e.write_value(2);
    let _ = e.end_dict();
    let b = e.finish();
    if let Some((from, wide)) = top(&b, 7, 2) {
        let i = usize::from(x < "key");
        text(&b, at(&b, from, wide, 2 * i), 4, b"key");
        whole(&b, at(&b, from, wide, 2 * i + 1), 1, true);
        text(&b, at(&b, from, wide, 2 - 2 * i), 4, x.as_bytes());
        whole(&b, at(&b, from, wide, 3 - 2 * i), 2, true);
    }
}
/// Keys which are shared are numbers in the order in which they came, and before all others
pub fn h_c26_shared() {
    let x = vp::any_i64();
    let mut keys = SharedKeys::new();
    let _ = keys.encode_and_insert("zero");
    let _ = keys.encode_and_insert("one");
    let mut e = Encoder::new();
    e.set_shared_keys(keys);
    let _ = e.begin_dict();
    for (k, v) in [("two", 2i64), ("not a key which is shared", 9), ("one", x), ("a", 8), ("zero", 0)] {
        let _ = e.write_key(k);
        let _ = e.write_value(v);
    }
    let _ = e.end_dict();
    let b = e.finish();
    if let Some((from, wide)) = top(&b, 7, 5) {
        whole(&b, at(&b, from, wide, 0), 0, true);
        whole(&b, at(&b, from, wide, 1), 0, true);
        whole(&b, at(&b, from, wide, 2), 1, true);
        whole(&b, at(&b, from, wide, 3), x as u64, true);
        whole(&b, at(&b, from, wide, 4), 2, true);
        whole(&b, at(&b, from, wide, 5), 2, true);
        text(&b, at(&b, from, wide, 6), 4, b"a");
        whole(&b, at(&b, from, wide, 7), 8, true);
        text(&b, at(&b, from, wide, 8), 4, b"not a key which is shared");
        whole(&b, at(&b, from, wide, 9), 9, true);
    }
}
/// The state of shared keys is the array of them
pub fn h_c26_state() {
    let mut keys = SharedKeys::new();
    let _ = keys.encode_and_insert("zero");
    let _ = keys.encode_and_insert("a_key");
    let _ = keys.encode_and_insert("-");
    let b = keys.get_state_bytes();
    if let Some((from, wide)) = top(&b, 6, 3) {
        text(&b, at(&b, from, wide, 0), 4, b"zero");
        text(&b, at(&b, from, wide, 1), 4, b"a_key");
        text(&b, at(&b, from, wide, 2), 4, b"-");
    }
}
// ---- nested, long and far
pub fn h_c26_nested() {
    let x = vp::any_i64();
    let mut e = Encoder::new();
    let _ = e.begin_dict();
    let _ = e.write_key("inner");
    let _ = e.begin_array(2);
    let _ = e.write_value(x);
    let _ = e.begin_array(0);
    let _ = e.end_array();
    let _ = e.end_array();
    let _ = e.write_key("empty");
    let _ = e.begin_dict();
    let _ = e.end_dict();
    let _ = e.end_dict();
    let b = e.finish();
    if let Some((from, wide)) = top(&b, 7, 2) {
        text(&b, at(&b, from, wide, 0), 4, b"empty");
        text(&b, at(&b, from, wide, 2), 4, b"inner");
        if let Some((p, end)) = at(&b, from, wide, 1) {
            vp::check(b[p] >> 4 == 7 && slots(&b, p, end).is_some_and(|s| s.1 == 0), "an empty dict is one");
        }
        if let Some((p, end)) = at(&b, from, wide, 3) {
            vp::check(b[p] >> 4 == 6, "an array is one");
            if let Some((from, n, wide)) = slots(&b, p, end) {
                vp::check(n == 2, "a collection is as long as it was written");
                whole(&b, at(&b, from, wide, 0), x as u64, true);
                if let Some((p, end)) = at(&b, from, wide, 1) {
                    vp::check(b[p] >> 4 == 6 && slots(&b, p, end).is_some_and(|s| s.1 == 0), "an empty array is one");
                }
            }
        }
    }
}
macro_rules! long {
    ($($n:ident: $k:literal;)*) => { $(
        pub fn $n() {
            let x = -12345678i64;
            let mut e = Encoder::new();
            let _ = e.begin_array($k);
            let _ = e.write_value(x);
            let mut i = 1;
            while i < $k {
                let _ = e.write_value(true);
                i += 1;
            }
            let _ = e.end_array();
            let b = e.finish();
            if let Some((from, wide)) = top(&b, 6, $k) {
                whole(&b, at(&b, from, wide, 0), x as u64, true);
                special(&b, at(&b, from, wide, $k - 1), 2);
            }
        }
    )* };
}
long!(h_c26_long_20: 20; h_c26_long_2046: 2046; h_c26_long_2047: 2047; h_c26_long_2048: 2048; h_c26_long_9000: 9000; h_c26_long_20000: 20000;);
/// Over any distance
pub fn h_c26_far() {
    let x = -12345678i64;
    let s = vp::any_bytes();
    let mut e = Encoder::new();
    let _ = e.begin_array(3);
    let _ = e.write_value(x);
    let _ = e.write_value(s);
    let _ = e.write_value(false);
    let _ = e.end_array();
    let b = e.finish();
    if let Some((from, wide)) = top(&b, 6, 3) {
        whole(&b, at(&b, from, wide, 0), x as u64, true);
        special(&b, at(&b, from, wide, 2), 1);
    }
}
