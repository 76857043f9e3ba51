//! Shared by the entry points
use crate::vp;
use fleece::encoder::{Encodable, NullValue, UndefinedValue};
use fleece::{Encoder, Value, ValueType};

/// The document which holds `[true, v, 42]`
pub fn doc_array<T: Encodable>(v: T) -> Vec<u8> {
    let mut e = Encoder::new();
    vp::check(e.begin_array(3).is_ok(), "begin_array is accepted");
    vp::check(e.write_value(true).is_ok(), "write_value is accepted");
    vp::check(e.write_value(v).is_ok(), "write_value is accepted");
    vp::check(e.write_value(42u8).is_ok(), "write_value is accepted");
    vp::check(e.end_array().is_ok(), "end_array is accepted");
    e.finish()
}

/// Calls `f` with the second element of the document made by `doc_array`
pub fn in_array<T: Encodable>(v: T, f: impl FnOnce(&Value)) {
    let out = doc_array(v);
    let Ok(root) = Value::from_bytes(&out) else {
        vp::check(false, "the document is accepted");
        return;
    };
    let Some(arr) = root.as_array() else {
        vp::check(false, "the root is the array");
        return;
    };
    vp::check(arr.len() == 3, "the array has its three elements");
    match arr.get(0) {
        Some(x) => vp::check(x.value_type() == ValueType::True, "the element before is intact"),
        None => vp::check(false, "the element before is found"),
    }
    match arr.get(2) {
        Some(x) => vp::check(x.to_int() == 42, "the element after is intact"),
        None => vp::check(false, "the element after is found"),
    }
    match arr.get(1) {
        Some(x) => f(x),
        None => vp::check(false, "the element is found"),
    }
}

/// Calls `f` with the value under a key, `v` being written next to another value
pub fn in_dict<T: Encodable>(key: &str, v: T, f: impl FnOnce(&Value)) {
    let mut e = Encoder::new();
    vp::check(e.begin_dict().is_ok(), "begin_dict is accepted");
    vp::check(e.write_key("z").is_ok(), "write_key is accepted");
    vp::check(e.write_value(true).is_ok(), "write_value is accepted");
    vp::check(e.write_key(key).is_ok(), "write_key is accepted");
    vp::check(e.write_value(v).is_ok(), "write_value is accepted");
    vp::check(e.end_dict().is_ok(), "end_dict is accepted");
    let out = e.finish();
    let Ok(root) = Value::from_bytes(&out) else {
        vp::check(false, "the document is accepted");
        return;
    };
    let Some(d) = root.as_dict() else {
        vp::check(false, "the root is the dict");
        return;
    };
    vp::check(d.len() == 2, "the dict has its two entries");
    match d.get("z") {
        Some(x) => vp::check(x.value_type() == ValueType::True, "the other entry is intact"),
        None => vp::check(false, "the other entry is found"),
    }
    match d.get(key) {
        Some(x) => f(x),
        None => vp::check(false, "the entry is found"),
    }
}

/// Any bytes
pub fn arbitrary<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N {
        b[i] = vp::any_u8();
        i += 1;
    }
    b
}

/// The place of the root of bytes of any length and content, if it is elsewhere in them than at their end
pub fn root_at(b: &[u8]) -> Option<usize> {
    let n = b.len();
    if n < 2 || n % 2 != 0 || b[n - 2] & 0x80 == 0 {
        return None;
    }
    let off = 2 * (((b[n - 2] as usize & 0x3F) << 8) | b[n - 1] as usize);
    (off > 0 && off <= n - 2).then(|| n - 2 - off)
}
/// Where the slot at `i` refers to, if that lies in the bytes
pub fn target(b: &[u8], i: usize, wide: bool) -> Option<usize> {
    let mut off = 2 * (((b[i] as usize & 0x3F) << 8) | b[i + 1] as usize);
    if wide {
        if i + 4 > b.len() {
            return None;
        }
        off = 2 * (((b[i] as usize & 0x3F) << 24) | ((b[i + 1] as usize) << 16) | ((b[i + 2] as usize) << 8) | b[i + 3] as usize);
    }
    (off > 0 && off <= i).then(|| i - off)
}
/// Restricts the slot at `i` to values whose first byte is below the given one, and to references to those
pub fn plain(b: &[u8], i: usize, wide: bool, below: u8) {
    if i < b.len() {
        if b[i] < 0x80 {
            vp::assume(b[i] < below);
        } else if i + 1 < b.len() {
            if let Some(t) = target(b, i, wide) {
                vp::assume(b[t] < below);
            }
        }
    }
}
/// Bytes of any length and content, with a root that is neither a collection nor a reference
pub fn any_scalar(f: impl FnOnce(&[u8])) {
    let b = vp::any_bytes();
    if let Some(at) = root_at(b) {
        vp::assume(b[at] < 0x60);
        f(b);
    }
}
/// With a collection there of so many slots, the last of which is `plain`, the others numbers of two bytes
pub fn any_collection(dict: bool, wide: bool, n: u8, f: impl FnOnce(&[u8])) {
    any_collection_below(dict, wide, n, 0x60, f)
}
pub fn any_collection_below(dict: bool, wide: bool, n: u8, below: u8, f: impl FnOnce(&[u8])) {
    let b = vp::any_bytes();
    if let Some(at) = root_at(b) {
        vp::assume(b[at] == if dict { 0x70 } else { 0x60 } + if wide { 8 } else { 0 });
        vp::assume(b[at + 1] == n);
        let w = if wide { 4 } else { 2 };
        let m = if dict { 2 * n } else { n };
        let mut i = at + 2;
        let mut k = 0;
        while k + 1 < m {
            if i < b.len() {
                vp::assume(b[i] == 0);
            }
            i += w;
            k += 1;
        }
        plain(b, i, wide, below);
        f(b);
    }
}
/// With an array of one reference to an array of one number
pub fn any_nested(outer_wide: bool, inner_wide: bool, f: impl FnOnce(&[u8])) {
    let b = vp::any_bytes();
    if let Some(at) = root_at(b) {
        vp::assume(b[at] == if outer_wide { 0x68 } else { 0x60 });
        vp::assume(b[at + 1] == 1);
        if at + 4 <= b.len() && b[at + 2] >= 0x80 {
            if let Some(t) = target(b, at + 2, outer_wide) {
                vp::assume(b[t] == if inner_wide { 0x68 } else { 0x60 });
                vp::assume(b[t + 1] == 1);
                if t + 2 < b.len() {
                    vp::assume(b[t + 2] < 0x20);
                }
                f(b);
            }
        }
    }
}
/// An array of so many numbers in two or four bytes, behind two other bytes, with one slot of any content at its end
/// and one at `other`
pub fn many(n: usize, wide: bool, dict: bool, other: usize) -> Vec<u8> {
    let slots = if dict { 2 * n } else { n };
    let mut b: Vec<u8> = Vec::with_capacity(4 * slots + 16);
    b.push(vp::any_u8());
    b.push(vp::any_u8());
    b.push(if dict { 0x70 } else { 0x60 } | if wide { 8 } else { 0 } | if n < 0x7FF { (n >> 8) as u8 } else { 7 });
    if n < 0x7FF {
        b.push(n as u8);
    } else {
        let mut k = n;
        b.push(0xFF);
        while k >= 0x80 {
            b.push(k as u8 | 0x80);
            k >>= 7;
        }
        b.push(k as u8);
        if b.len() % 2 == 1 {
            b.push(0);
        }
    }
    let mut i = 0;
    while i < slots {
        let free = i == slots - 1 || i == other;
        b.push(if free { vp::any_u8() } else { 0 });
        b.push(if free && !(wide && slots > 1000) { vp::any_u8() } else { usize::from(!free) as u8 });
        if wide {
            b.push(if free { vp::any_u8() } else { 0 });
            b.push(if free { vp::any_u8() } else { 0 });
        }
        if free && slots > 100 {
            // A reference to next to it, or to next to the beginning, or to elsewhere
            let p = b.len() - if wide { 4 } else { 2 };
            let off = if wide {
                2 * (((b[p] as usize & 0x3F) << 24) | ((b[p + 1] as usize) << 16) | ((b[p + 2] as usize) << 8) | b[p + 3] as usize)
            } else {
                2 * (((b[p] as usize & 0x3F) << 8) | b[p + 1] as usize)
            };
            vp::assume(b[p] < 0x80 || off < 12 || off > p - 12);
        }
        i += 1;
    }
    let at = b.len() - 2;
    b.push(0x80 | (at >> 9) as u8);
    b.push((at >> 1) as u8);
    b
}
