//! C25: the `fleece!` macro makes the document which its text describes
use crate::common::*;
use crate::vp;
use fleece::alloced::{AllocedArray, AllocedDict};
use fleece::encoder::{NullValue, UndefinedValue};
use fleece::{fleece, Array, Dict, Encoder, Value, ValueType};

fn int(v: Option<&Value>, x: i64) {
    match v {
        Some(v) => vp::check(matches!(v.value_type(), ValueType::Short | ValueType::Int | ValueType::UnsignedInt) && v.to_int() == x, "a number is where its text is"),
        None => vp::check(false, "a number is found"),
    }
}
fn text(v: Option<&Value>, x: &str) {
    match v {
        Some(v) => vp::check(v.value_type() == ValueType::String && v.to_str().as_bytes() == x.as_bytes(), "a string is where its text is"),
        None => vp::check(false, "a string is found"),
    }
}
fn array(v: Option<&Value>, n: usize) -> Option<&Array> {
    let a = v.and_then(|v| v.as_array());
    vp::check(a.is_some_and(|a| a.len() == n), "an array is where its text is, and as long");
    a
}
fn dict(v: Option<&Value>, n: usize) -> Option<&Dict> {
    let d = v.and_then(|v| v.as_dict());
    vp::check(d.is_some_and(|d| d.len() == n), "a dict is where its text is, and as long");
    d
}

pub fn h_c25_dict() {
    let x = vp::any_i64();
    let t = vp::any_bool();
    let d: AllocedDict = fleece! { "number": x, "flag": t, "text": "the text", "s": (x < 0), "last": 7 };
    vp::check(d.len() == 5, "a dict has an entry for each in its text");
    int(d.get("number"), x);
    int(d.get("last"), 7);
    text(d.get("text"), "the text");
    match (d.get("flag"), d.get("s")) {
        (Some(f), Some(s)) => {
            vp::check(f.value_type() == if t { ValueType::True } else { ValueType::False }, "a flag is where its text is");
            vp::check(s.to_bool() == (x < 0), "an expression is evaluated");
            vp::reached("read");
        }
        _ => vp::check(false, "a flag is found"),
    }
    vp::check(d.get("other").is_none() && d.get("").is_none(), "a dict has no entry besides");
}
pub fn h_c25_array() {
    let x = vp::any_i64();
    let f = vp::any_f64();
    let a: AllocedArray = fleece![x, "text", f, true, (UndefinedValue), (NullValue),];
    vp::check(a.len() == 6, "an array has an element for each in its text");
    int(a.get(0), x);
    text(a.get(1), "text");
    match (a.get(2), a.get(3), a.get(4), a.get(5)) {
        (Some(y), Some(t), Some(u), Some(n)) => {
            vp::check(y.to_double().to_bits() == f.to_bits() || f != f && y.to_double() != y.to_double(), "a number is where its text is");
            vp::check(t.value_type() == ValueType::True, "a flag is where its text is");
            vp::check(u.value_type() == ValueType::Undefined && n.value_type() == ValueType::Null, "nothing is where its text is");
            vp::reached("read");
        }
        _ => vp::check(false, "every element is found"),
    }
}
pub fn h_c25_text() {
    let s = vp::any_str();
    let d: AllocedDict = fleece! { "some text": s, "z": 1 };
    vp::check(d.len() == 2, "a dict has an entry for each in its text");
    text(d.get("some text"), s);
    int(d.get("z"), 1);
    vp::reached("read");
}
pub fn h_c25_data() {
    let b = vp::any_bytes();
    let a: AllocedArray = fleece![b, [1]];
    vp::check(a.len() == 2, "an array has an element for each in its text");
    vp::check(a.get(0).is_some_and(|v| v.value_type() == ValueType::Data && v.to_data() == b), "data is where its text is");
    if let Some(i) = array(a.get(1), 1) {
        int(i.get(0), 1);
        vp::reached("read");
    }
}
pub fn h_c25_dict_in_dict() {
    let x = vp::any_i64();
    let d: AllocedDict = fleece! { "before": 1, "inner": { "x": x, "name": "n", "none": {} }, "after": 2 };
    vp::check(d.len() == 3, "a dict has an entry for each in its text");
    int(d.get("before"), 1);
    int(d.get("after"), 2);
    if let Some(i) = dict(d.get("inner"), 3) {
        int(i.get("x"), x);
        text(i.get("name"), "n");
        dict(i.get("none"), 0);
        vp::reached("read");
    }
}
pub fn h_c25_array_in_dict() {
    let x = vp::any_i64();
    let d: AllocedDict = fleece! { "before": 1, "inner": [x, "n", []], "after": 2, };
    vp::check(d.len() == 3, "a dict has an entry for each in its text");
    int(d.get("before"), 1);
    int(d.get("after"), 2);
    if let Some(i) = array(d.get("inner"), 3) {
        int(i.get(0), x);
        text(i.get(1), "n");
        array(i.get(2), 0);
        vp::reached("read");
    }
}
pub fn h_c25_dict_in_array() {
    let x = vp::any_i64();
    let a: AllocedArray = fleece![1, { "x": x, "name": "n", "none": {}, }, 2];
    vp::check(a.len() == 3, "an array has an element for each in its text");
    int(a.get(0), 1);
    int(a.get(2), 2);
    if let Some(i) = dict(a.get(1), 3) {
        int(i.get("x"), x);
        text(i.get("name"), "n");
        dict(i.get("none"), 0);
        vp::reached("read");
    }
}
pub fn h_c25_array_in_array() {
    let x = vp::any_i64();
    let a: AllocedArray = fleece![1, [x, "n", [], [2, 3]], 4];
    vp::check(a.len() == 3, "an array has an element for each in its text");
    int(a.get(0), 1);
    int(a.get(2), 4);
    if let Some(i) = array(a.get(1), 4) {
        int(i.get(0), x);
        text(i.get(1), "n");
        array(i.get(2), 0);
        if let Some(j) = array(i.get(3), 2) {
            int(j.get(0), 2);
            int(j.get(1), 3);
            vp::reached("read");
        }
    }
}
/// Every kind of collection in every other
pub fn h_c25_deep() {
    let x = vp::any_i64();
    let d: AllocedDict = fleece! {
        "people": [{ "name": "Jo", "of": [{ "x": x }, [x, { "y": x }]] }, { "name": "Al", "of": [] }],
        "more": { "list": [1, 2], "deep": { "deeper": { "deepest": [[x]] } } }
    };
    if let Some(p) = array(d.get("people"), 2) {
        if let (Some(jo), Some(al)) = (dict(p.get(0), 2), dict(p.get(1), 2)) {
            text(jo.get("name"), "Jo");
            text(al.get("name"), "Al");
            array(al.get("of"), 0);
            if let Some(of) = array(jo.get("of"), 2) {
                if let (Some(e), Some(f)) = (dict(of.get(0), 1), array(of.get(1), 2)) {
                    int(e.get("x"), x);
                    int(f.get(0), x);
                    if let Some(g) = dict(f.get(1), 1) {
                        int(g.get("y"), x);
                    }
                }
            }
        }
    }
    if let Some(m) = dict(d.get("more"), 2) {
        if let Some(l) = array(m.get("list"), 2) {
            int(l.get(0), 1);
            int(l.get(1), 2);
        }
        if let Some(d) = dict(m.get("deep"), 1) {
            if let Some(d) = dict(d.get("deeper"), 1) {
                if let Some(a) = array(d.get("deepest"), 1) {
                    if let Some(a) = array(a.get(0), 1) {
                        int(a.get(0), x);
                        vp::reached("read");
                    }
                }
            }
        }
    }
}
/// More than what room is made for at first
pub fn h_c25_long() {
    let x = vp::any_i64();
    let a: AllocedArray = fleece![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, x, "text"];
    vp::check(a.len() == 14, "an array has an element for each in its text");
    int(a.get(11), 12);
    int(a.get(12), x);
    text(a.get(13), "text");
    let d: AllocedDict = fleece! { "list": [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, x, "text"], "z": x };
    int(d.get("z"), x);
    if let Some(a) = array(d.get("list"), 14) {
        int(a.get(9), 10);
        int(a.get(12), x);
        text(a.get(13), "text");
        vp::reached("read");
    }
}
pub fn h_c25_none() {
    let d: AllocedDict = fleece! {};
    vp::check(d.len() == 0 && d.is_empty(), "a dict of nothing is empty");
    let a: AllocedArray = fleece![{}];
    vp::check(a.len() == 1, "an empty dict is an element");
    vp::check(dict(a.get(0), 0).is_some(), "an empty dict is empty");
    vp::reached("read");
}
