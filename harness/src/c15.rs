//! C15: mutable copies of documents
use crate::common::*;
use crate::vp;
use fleece::encoder::{Encodable, NullValue, UndefinedValue};
use fleece::{Array, Dict, Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value, ValueType};
use std::sync::Arc;

/// Values of one kind have a type with the same number
fn kind(v: &Value) -> u8 {
    match v.value_type() {
        ValueType::Null => 0,
        ValueType::Undefined => 1,
        ValueType::False => 2,
        ValueType::True => 3,
        ValueType::Short | ValueType::Int | ValueType::UnsignedInt => 4,
        ValueType::Float | ValueType::Double32 | ValueType::Double64 => 5,
        ValueType::String => 6,
        ValueType::Data => 7,
        ValueType::Array => 8,
        ValueType::Dict => 9,
        ValueType::Pointer => 10,
    }
}
fn unsigned(v: &Value) -> bool {
    matches!(v.value_type(), ValueType::UnsignedInt)
}
fn equal(a: &Value, b: &Value) -> bool {
    if kind(a) != kind(b) {
        return false;
    }
    match kind(a) {
        // (a number below 2^11 may be stored as a short one)
        4 => {
            let x = a.to_int();
            x == b.to_int() && (x >= -0x800 && x < 0x800 || unsigned(a) == unsigned(b))
        }
        5 => {
            let (x, y) = (a.to_double(), b.to_double());
            x.to_bits() == y.to_bits() || x != x
        }
        6 => a.to_str().as_bytes() == b.to_str().as_bytes(),
        7 => a.to_data() == b.to_data(),
        _ => true,
    }
}
/// The copy `m` holds what `a` holds
fn same_array(a: &Array, m: &MutableArray) {
    vp::check(m.len() == a.len(), "a mutable copy of an array has as many elements");
    let mut it = m.iter();
    let mut i = 0;
    while i < a.len() {
        let r = it.next();
        match (a.get(i), r) {
            (Some(v), Some(r)) => {
                if let Some(w) = v.as_array() {
                    vp::check(r.is_array() && !r.is_dict() && !r.is_value(), "an array is copied as an array");
                    match m.get_array(i) {
                        Some(x) => same_array(w, x),
                        None => vp::check(false, "an array is copied as an array"),
                    }
                } else if let Some(w) = v.as_dict() {
                    vp::check(r.is_dict() && !r.is_array() && !r.is_value(), "a dict is copied as a dict");
                    match m.get_dict(i) {
                        Some(x) => same_dict(w, x),
                        None => vp::check(false, "a dict is copied as a dict"),
                    }
                } else {
                    vp::check(r.is_value() && r.value().is_some(), "a value is copied as a value");
                    match m.get(i) {
                        Some(x) => vp::check(equal(v, x), "an element is copied as it is"),
                        None => vp::check(false, "a value is copied as a value"),
                    }
                }
            }
            _ => vp::check(false, "every element is copied"),
        }
        i += 1;
    }
    vp::check(it.next().is_none(), "nothing but the elements is copied");
}
fn same_dict(d: &Dict, m: &MutableDict) {
    let mut n = 0;
    for (k, v) in d {
        vp::check(m.contains_key(k), "every entry is copied");
        if let Some(w) = v.as_array() {
            match m.get_array(k) {
                Some(x) => same_array(w, x),
                None => vp::check(false, "an array is copied as an array"),
            }
        } else if let Some(w) = v.as_dict() {
            match m.get_dict(k) {
                Some(x) => same_dict(w, x),
                None => vp::check(false, "a dict is copied as a dict"),
            }
        } else {
            match m.get(k) {
                Some(x) => vp::check(equal(v, x), "an entry is copied as it is"),
                None => vp::check(false, "a value is copied as a value"),
            }
        }
        n += 1;
    }
    vp::check(m.len() == n, "a mutable copy of a dict has as many entries");
    vp::check(m.is_empty() == (n == 0), "is_empty of a mutable dict");
    let mut i = 0;
    for (k, _) in m {
        vp::check(d.contains_key(k), "nothing but the entries is copied");
        i += 1;
    }
    vp::check(i == n, "iteration of a mutable copy gives all its entries");
}

// ---- One value of any kind
fn one<T: Encodable + Copy>(v: T) {
    let mut e = Encoder::new();
    let _ = e.begin_array(2);
    let _ = e.write_value(true);
    let _ = e.write_value(v);
    let _ = e.end_array();
    let doc = e.finish();
    let Ok(a) = Array::from_bytes(&doc) else {
        vp::check(false, "the document is accepted");
        return;
    };
    let mut m = MutableArray::clone_from(a);
    same_array(a, &m);
    let c = m.clone();
    same_array(a, &c);
    m.push(&v);
    m.set(0, v);
    match (a.get(1), m.get(0), m.get(2)) {
        (Some(x), Some(y), Some(z)) => {
            vp::check(equal(x, y), "a value which was set is read back");
            vp::check(equal(x, z), "a value which was pushed is read back");
        }
        _ => vp::check(false, "a value is stored as a value"),
    }
    same_array(a, &c);
    vp::reached("array");
}
fn one_fleece<T: Encodable + Copy>(v: T) {
    let mut e = Encoder::new();
    let _ = e.begin_dict();
    let _ = e.write_key("k");
    let _ = e.write_value(v);
    let _ = e.write_key("z");
    let _ = e.write_value(7);
    let _ = e.end_dict();
    let doc = e.finish();
    let Ok(d) = Dict::from_bytes(&doc) else {
        vp::check(false, "the document is accepted");
        return;
    };
    let mut m = MutableDict::clone_from(d);
    same_dict(d, &m);
    let c = m.clone();
    same_dict(d, &c);
    m.insert("z", v);
    m.insert("n", v);
    let mut l = MutableArray::new();
    if let Some(x) = d.get("k") {
        l.push_fleece(x);
        l.push(&true);
        l.set_fleece(1, x);
        match (m.get("z"), m.get("n"), m.get("k"), l.get(0), l.get(1)) {
            (Some(y), Some(z), Some(u), Some(s), Some(t)) => {
                vp::check(equal(x, y) && equal(x, z), "a value which was inserted is read back");
                vp::check(equal(x, u), "another entry is left as it was");
                vp::check(equal(x, s) && equal(x, t), "a value of a document is taken over");
            }
            _ => vp::check(false, "a value is stored as a value"),
        }
    } else {
        vp::check(false, "the value is found");
    }
    vp::check(m.len() == 3 && l.len() == 2, "the length");
    same_dict(d, &c);
    vp::reached("dict");
}
macro_rules! kinds {
    ($($name:ident $dict:ident: $v:expr;)*) => { $(
        pub fn $name() {
            one($v);
        }
        pub fn $dict() {
            one_fleece($v);
        }
    )* };
}
kinds!(
    h_c15_null h_c15_null_d: &NullValue;
    h_c15_undefined h_c15_undefined_d: &UndefinedValue;
    h_c15_bool h_c15_bool_d: vp::any_bool();
    h_c15_i16 h_c15_i16_d: vp::any_i16();
    h_c15_u16 h_c15_u16_d: vp::any_u16();
    h_c15_i64 h_c15_i64_d: vp::any_i64();
    h_c15_u64 h_c15_u64_d: vp::any_u64();
    h_c15_f32 h_c15_f32_d: vp::any_f32();
    h_c15_f64 h_c15_f64_d: vp::any_f64();
    h_c15_str h_c15_str_d: short(vp::any_str());
    h_c15_data h_c15_data_d: short_data(vp::any_bytes());
);
fn short(s: &str) -> &str {
    vp::assume(s.len() < 1 << 28);
    s
}
fn short_data(s: &[u8]) -> &[u8] {
    vp::assume(s.len() < 1 << 28);
    s
}

// ---- Every document
fn copies(a: Option<&Array>, d: Option<&Dict>) {
    if let Some(a) = a {
        let m = MutableArray::clone_from(a);
        same_array(a, &m);
        let c = m.clone();
        same_array(a, &c);
        drop(m);
        same_array(a, &c);
    }
    if let Some(d) = d {
        let m = MutableDict::clone_from(d);
        // Keys are distinct in documents which the library writes
        let mut last: Option<&str> = None;
        for (k, _) in d {
            if let Some(l) = last {
                vp::assume(l < k);
            }
            last = Some(k);
        }
        same_dict(d, &m);
        let c = m.clone();
        drop(m);
        same_dict(d, &c);
    }
    vp::reached("copy");
}
fn bytes<const N: usize>() {
    let b = arbitrary::<N>();
    if let Ok(v) = Value::from_bytes(&b) {
        copies(v.as_array(), v.as_dict());
    }
}
pub fn h_c15_bytes_2() {
    bytes::<2>();
}
pub fn h_c15_bytes_4() {
    bytes::<4>();
}
pub fn h_c15_bytes_6() {
    bytes::<6>();
}
pub fn h_c15_t_bytes_8() {
    bytes::<8>();
}

// ---- Collections in collections
fn deep(shared: bool) -> Encoder {
    let mut e = Encoder::new();
    if shared {
        e.set_shared_keys(SharedKeys::new());
    }
    let x = vp::any_u8();
    let _ = e.begin_dict();
    let _ = e.write_key("list");
    let _ = e.begin_array(3);
    let _ = e.write_value(x);
    let _ = e.begin_dict();
    let _ = e.write_key("list");
    let _ = e.write_value("something longer than it");
    let _ = e.write_key("inner key which is not shared");
    let _ = e.begin_array(0);
    let _ = e.end_array();
    let _ = e.end_dict();
    let _ = e.begin_array(1);
    let _ = e.write_value(i64::from(x) * -1000);
    let _ = e.end_array();
    let _ = e.end_array();
    let _ = e.write_key("map");
    let _ = e.begin_dict();
    let _ = e.write_key("map");
    let _ = e.write_value(&[1u8, 2, 3][..]);
    let _ = e.end_dict();
    let _ = e.write_key("n");
    let _ = e.write_value(x);
    let _ = e.end_dict();
    e
}
/// Changes of the copy, at every depth
fn change(m: &mut MutableDict) {
    if let Some(a) = m.get_array_mut("list") {
        if let Some(d) = a.get_dict_mut(1) {
            d.insert("list", 1);
            d.remove("inner key which is not shared");
            d.insert("new", true);
        }
        if let Some(b) = a.get_array_mut(2) {
            b.set(0, "other");
            b.push(&2);
        }
        a.set(0, 300);
        a.push(&NullValue);
    }
    if let Some(d) = m.get_dict_mut("map") {
        d.remove("map");
    }
    m.insert("n", "text");
    m.remove("nothing");
}
fn changed(m: &MutableDict) {
    vp::check(m.len() == 3, "the changes are seen");
    match m.get_array("list") {
        Some(a) => {
            vp::check(a.len() == 4, "the changes are seen");
            vp::check(a.get(0).is_some_and(|v| v.to_int() == 300), "the changes are seen");
            vp::check(a.get(3).is_some_and(|v| v.value_type() == ValueType::Null), "the changes are seen");
            match (a.get_dict(1), a.get_array(2)) {
                (Some(d), Some(b)) => {
                    vp::check(d.len() == 2, "the changes are seen");
                    vp::check(d.get("list").is_some_and(|v| v.to_int() == 1), "the changes are seen");
                    vp::check(d.get("new").is_some_and(|v| v.to_bool()), "the changes are seen");
                    vp::check(!d.contains_key("inner key which is not shared"), "the changes are seen");
                    vp::check(b.len() == 2 && b.get(0).is_some_and(|v| v.to_str() == "other"), "the changes are seen");
                    vp::check(b.get(1).is_some_and(|v| v.to_int() == 2), "the changes are seen");
                }
                _ => vp::check(false, "what was not changed is still there"),
            }
        }
        None => vp::check(false, "what was not changed is still there"),
    }
    vp::check(m.get_dict("map").is_some_and(|d| d.is_empty()), "the changes are seen");
    vp::check(m.get("n").is_some_and(|v| v.to_str() == "text"), "the changes are seen");
}
fn independent(d: &Dict, mut m: MutableDict) {
    same_dict(d, &m);
    let c = m.clone();
    let mut c2 = c.clone();
    change(&mut m);
    changed(&m);
    same_dict(d, &c);
    change(&mut c2);
    let _ = m.get_dict_mut("map").map(|x| x.insert("more", 9));
    changed(&c2);
    drop(m);
    same_dict(d, &c);
    drop(c);
    changed(&c2);
    vp::reached("copies");
}
pub fn h_c15_deep() {
    let doc = deep(false).finish();
    let before = doc.clone();
    if let Ok(d) = Dict::from_bytes(&doc) {
        independent(d, MutableDict::clone_from(d));
    }
    vp::check(doc == before, "the source is left as it was");
}
pub fn h_c15_deep_alloced() {
    let doc = deep(false).finish_value();
    let (Some(d), Some(e)) = (doc.clone().to_dict(), doc.to_dict()) else {
        vp::check(false, "the root is a dict");
        return;
    };
    independent(&d, MutableDict::from(e));
}
pub fn h_c15_deep_scope() {
    let doc = deep(true).finish_scoped();
    let Some(d) = doc.root().and_then(|r| r.to_dict()) else {
        vp::check(false, "the root is a dict");
        return;
    };
    let Some(m) = MutableDict::from_scope(&doc) else {
        vp::check(false, "the root is copied");
        return;
    };
    independent(&d, m);
    let Ok(m) = MutableDict::try_from(&*doc) else {
        vp::check(false, "the root is copied");
        return;
    };
    independent(&d, m);
    independent(&d, MutableDict::clone_from(&d));
    if let Some(e) = doc.root().and_then(|r| r.to_dict()) {
        independent(&d, MutableDict::from(e));
    }
    vp::check(MutableArray::from_scope(&doc).is_none(), "a dict is no array");
    vp::check(MutableArray::try_from(&*doc).is_err(), "a dict is no array");
}
pub fn h_c15_deep_scope_array() {
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    let x = vp::any_u8();
    let _ = e.begin_array(2);
    let _ = e.begin_dict();
    let _ = e.write_key("first");
    let _ = e.write_value(x);
    let _ = e.write_key("second one");
    let _ = e.write_value("x");
    let _ = e.end_dict();
    let _ = e.write_value(x);
    let _ = e.end_array();
    let doc = e.finish_scoped();
    let Some(a) = doc.root().and_then(|r| r.to_array()) else {
        vp::check(false, "the root is an array");
        return;
    };
    let (Some(m), Ok(n)) = (MutableArray::from_scope(&doc), MutableArray::try_from(&*doc)) else {
        vp::check(false, "the root is copied");
        return;
    };
    same_array(&a, &m);
    same_array(&a, &n);
    same_array(&a, &MutableArray::clone_from(&a));
    same_array(&a, &MutableArray::from(&*a));
    same_array(&a, &MutableArray::from(a.clone()));
    vp::check(MutableDict::from_scope(&doc).is_none(), "an array is no dict");
    vp::check(MutableDict::try_from(&*doc).is_err(), "an array is no dict");
    // What was copied stays when the source is gone
    drop(a);
    drop(doc);
    vp::check(m.get(1).is_some_and(|v| v.to_int() == i64::from(x)), "a copy outlives its source");
    match m.get_dict(0) {
        Some(d) => {
            vp::check(d.get("first").is_some_and(|v| v.to_int() == i64::from(x)), "a copy outlives its source");
            vp::check(d.get("second one").is_some_and(|v| v.to_str() == "x"), "a copy outlives its source");
        }
        None => vp::check(false, "a copy outlives its source"),
    }
    vp::reached("end");
}
/// A wide collection, and elements after which a pointer is needed
pub fn h_c15_wide() {
    let s = vp::any_str();
    vp::assume(s.len() > 60_000 && s.len() < 70_000);
    let x = vp::any_u8();
    let mut e = Encoder::new();
    let _ = e.begin_array(3);
    let _ = e.write_value(x);
    let _ = e.write_value(s);
    let _ = e.begin_array(1);
    let _ = e.write_value(1.5);
    let _ = e.end_array();
    let _ = e.end_array();
    let doc = e.finish();
    let Ok(a) = Array::from_bytes(&doc) else {
        vp::check(false, "the document is accepted");
        return;
    };
    let m = MutableArray::clone_from(a);
    same_array(a, &m);
    same_array(a, &m.clone());
    vp::reached("end");
}

// ---- Series of changes, next to what they should give
#[derive(Clone, Copy, PartialEq)]
enum Item {
    None,
    Int(i64),
    Long,
    Array(usize),
    Dict(usize),
}
const LONG: &str = "a string which is kept elsewhere";
fn is(m: &MutableArray, i: usize, x: Item) -> bool {
    match x {
        Item::None => m.get(i).is_none() && m.get_array(i).is_none() && m.get_dict(i).is_none(),
        Item::Int(n) => m.get(i).is_some_and(|v| kind(v) == 4 && v.to_int() == n) && m.get_array(i).is_none() && m.get_dict(i).is_none(),
        Item::Long => m.get(i).is_some_and(|v| kind(v) == 6 && v.to_str() == LONG),
        Item::Array(n) => m.get_array(i).is_some_and(|a| a.len() == n) && m.get(i).is_none() && m.get_dict(i).is_none(),
        Item::Dict(n) => m.get_dict(i).is_some_and(|a| a.len() == n) && m.get(i).is_none() && m.get_array(i).is_none(),
    }
}
struct Model {
    items: [Item; 12],
    n: usize,
}
impl Model {
    fn check(&self, m: &MutableArray) {
        vp::check(m.len() == self.n, "the length after the changes");
        vp::check(m.is_empty() == (self.n == 0), "is_empty after the changes");
        let mut i = 0;
        while i < 12 {
            vp::check(is(m, i, if i < self.n { self.items[i] } else { Item::None }), "every element after the changes");
            i += 1;
        }
    }
    fn push(&mut self, x: Item) {
        self.items[self.n] = x;
        self.n += 1;
    }
    fn step(&mut self, m: &mut MutableArray, src: &Value) {
        let op = vp::any_u8();
        let at = usize::from(vp::any_u8());
        match op {
            0 => {
                let x = vp::any_i16();
                m.push(&x);
                self.push(Item::Int(x.into()));
            }
            1 => {
                m.push(LONG);
                self.push(Item::Long);
            }
            2 => {
                m.push_fleece(src);
                self.push(Item::Array(2));
            }
            3 => {
                vp::assume(at < self.n);
                m.set(at, 77);
                self.items[at] = Item::Int(77);
            }
            4 => {
                vp::assume(at < self.n);
                m.set_array(at, MutableArray::new());
                self.items[at] = Item::Array(0);
            }
            5 => {
                vp::assume(at < self.n);
                let mut d = MutableDict::new();
                d.insert("k", 1);
                m.set_dict(at, d);
                self.items[at] = Item::Dict(1);
            }
            6 => {
                vp::assume(at <= self.n);
                m.remove(at);
                if at < self.n {
                    let mut i = at;
                    while i + 1 < self.n {
                        self.items[i] = self.items[i + 1];
                        i += 1;
                    }
                    self.n -= 1;
                }
            }
            7 => {
                vp::assume(at < self.n);
                m.set_fleece(at, src);
                self.items[at] = Item::Array(2);
            }
            8 => {
                vp::assume(at < self.n);
                if let Some(a) = m.get_array_mut(at) {
                    a.push(&1);
                    match self.items[at] {
                        Item::Array(n) => self.items[at] = Item::Array(n + 1),
                        _ => vp::check(false, "only an array is changed as an array"),
                    }
                } else {
                    vp::check(!matches!(self.items[at], Item::Array(_)), "an array can be changed");
                }
                if let Some(a) = m.get_dict_mut(at) {
                    a.remove("k");
                    match self.items[at] {
                        Item::Dict(_) => self.items[at] = Item::Dict(0),
                        _ => vp::check(false, "only a dict is changed as a dict"),
                    }
                } else {
                    vp::check(!matches!(self.items[at], Item::Dict(_)), "a dict can be changed");
                }
            }
            _ => vp::assume(false),
        }
    }
}
fn series(steps: usize) {
    let mut e = Encoder::new();
    let _ = e.begin_array(2);
    let _ = e.write_value(1);
    let _ = e.begin_array(2);
    let _ = e.write_value(2);
    let _ = e.write_value(3);
    let _ = e.end_array();
    let _ = e.end_array();
    let doc = e.finish();
    let Ok(a) = Array::from_bytes(&doc) else {
        vp::check(false, "the document is accepted");
        return;
    };
    let Some(src) = a.get(1) else {
        vp::check(false, "the element is found");
        return;
    };
    let first = MutableArray::clone_from(a);
    let mut m = first.clone();
    let mut model = Model { items: [Item::None; 12], n: 2 };
    model.items[0] = Item::Int(1);
    model.items[1] = Item::Array(2);
    model.check(&m);
    let mut i = 0;
    while i < steps {
        model.step(&mut m, src);
        i += 1;
    }
    model.check(&m);
    let c = m.clone();
    m.push(&1);
    m.remove(0);
    model.check(&c);
    drop(m);
    model.check(&c);
    same_array(a, &first);
    vp::reached("end");
}
pub fn h_c15_series_2() {
    series(2);
}
pub fn h_c15_t_series_3() {
    series(3);
}

const KEYS: [&str; 4] = ["k", "key two", "a key which cannot be shared", ""];
fn is_entry(m: &MutableDict, k: &str, x: Item) -> bool {
    m.contains_key(k) == (x != Item::None)
        && match x {
            Item::None => m.get(k).is_none() && m.get_array(k).is_none() && m.get_dict(k).is_none(),
            Item::Int(n) => m.get(k).is_some_and(|v| kind(v) == 4 && v.to_int() == n) && m.get_array(k).is_none() && m.get_dict(k).is_none(),
            Item::Long => m.get(k).is_some_and(|v| kind(v) == 6 && v.to_str() == LONG),
            Item::Array(n) => m.get_array(k).is_some_and(|a| a.len() == n) && m.get(k).is_none() && m.get_dict(k).is_none(),
            Item::Dict(n) => m.get_dict(k).is_some_and(|a| a.len() == n) && m.get(k).is_none() && m.get_array(k).is_none(),
        }
}
fn check_dict(m: &MutableDict, model: &[Item; 4]) {
    let mut n = 0;
    let mut i = 0;
    while i < 4 {
        vp::check(is_entry(m, KEYS[i], model[i]), "every entry after the changes");
        if model[i] != Item::None {
            n += 1;
        }
        i += 1;
    }
    vp::check(m.len() == n, "the length after the changes");
    let mut seen = [false; 4];
    for (k, r) in m {
        let mut i = 0;
        while i < 4 {
            if KEYS[i] == k {
                vp::check(!seen[i], "iteration gives each entry once");
                vp::check(model[i] != Item::None, "iteration gives no other entry");
                vp::check(r.is_array() == matches!(model[i], Item::Array(_)), "iteration gives the entry as it is");
                vp::check(r.is_dict() == matches!(model[i], Item::Dict(_)), "iteration gives the entry as it is");
                if let (Item::Int(x), Some(v)) = (model[i], r.value()) {
                    vp::check(v.to_int() == x, "iteration gives the entry as it is");
                }
                seen[i] = true;
            }
            i += 1;
        }
        n -= 1;
    }
    vp::check(n == 0, "iteration gives all entries");
}
fn step_dict(m: &mut MutableDict, model: &mut [Item; 4], keys: usize) {
    let op = vp::any_u8();
    let i = usize::from(vp::any_u8());
    vp::assume(i < keys);
    let k = KEYS[i];
    match op {
        0 => {
            let x = vp::any_i16();
            m.insert(k, x);
            model[i] = Item::Int(x.into());
        }
        1 => {
            m.insert(k, LONG);
            model[i] = Item::Long;
        }
        2 => {
            m.insert_array(k, MutableArray::new());
            model[i] = Item::Array(0);
        }
        3 => {
            m.insert_dict(k, MutableDict::new());
            model[i] = Item::Dict(0);
        }
        4 => {
            m.remove(k);
            model[i] = Item::None;
        }
        5 => {
            if let Some(a) = m.get_array_mut(k) {
                a.push(&1);
                match model[i] {
                    Item::Array(n) => model[i] = Item::Array(n + 1),
                    _ => vp::check(false, "only an array is changed as an array"),
                }
            } else {
                vp::check(!matches!(model[i], Item::Array(_)), "an array can be changed");
            }
            if let Some(a) = m.get_dict_mut(k) {
                a.insert("new", 1);
                match model[i] {
                    Item::Dict(_) => model[i] = Item::Dict(1),
                    _ => vp::check(false, "only a dict is changed as a dict"),
                }
            } else {
                vp::check(!matches!(model[i], Item::Dict(_)), "a dict can be changed");
            }
        }
        _ => vp::assume(false),
    }
}
fn series_dict(steps: usize, shared: bool, keys: usize) {
    let mut e = Encoder::new();
    if shared {
        e.set_shared_keys(SharedKeys::new());
    }
    let _ = e.begin_dict();
    let _ = e.write_key(KEYS[0]);
    let _ = e.write_value(5);
    let _ = e.write_key(KEYS[1]);
    let _ = e.begin_dict();
    let _ = e.end_dict();
    let _ = e.end_dict();
    let doc = e.finish_scoped();
    let Some(first) = MutableDict::from_scope(&doc) else {
        vp::check(false, "the root is copied");
        return;
    };
    let start = [Item::Int(5), Item::Dict(0), Item::None, Item::None];
    let mut model = start;
    let mut m = first.clone();
    check_dict(&m, &model);
    let mut i = 0;
    while i < steps {
        step_dict(&mut m, &mut model, keys);
        i += 1;
    }
    check_dict(&m, &model);
    let c = m.clone();
    m.insert("k", 1);
    m.remove("key two");
    check_dict(&c, &model);
    drop(m);
    check_dict(&c, &model);
    check_dict(&first, &start);
    vp::reached("end");
}
pub fn h_c15_series_dict_1() {
    series_dict(1, false, 4);
}
pub fn h_c15_series_dict_2() {
    series_dict(2, false, 2);
}
pub fn h_c15_series_shared_1() {
    series_dict(1, true, 4);
}
pub fn h_c15_t_series_dict_2() {
    series_dict(2, false, 4);
}
pub fn h_c15_t_series_shared_2() {
    series_dict(2, true, 4);
}
/// Many entries
fn many(n: u16, dict: bool) {
    let mut e = Encoder::new();
    let _ = if dict { e.begin_dict() } else { e.begin_array(3) };
    let mut s = String::new();
    let mut i = 0;
    while i < n {
        if dict {
            s.clear();
            s.push('k');
            s.push((b'0' + (i / 10 % 10) as u8) as char);
            s.push((b'0' + (i % 10) as u8) as char);
            let _ = e.write_key(&s);
        }
        let _ = e.write_value(i64::from(i) * 40);
        i += 1;
    }
    let _ = if dict { e.end_dict() } else { e.end_array() };
    let doc = e.finish();
    let Ok(v) = Value::from_bytes(&doc) else {
        vp::check(false, "the document is accepted");
        return;
    };
    copies(v.as_array(), v.as_dict());
}
pub fn h_c15_many_array() {
    many(400, false);
    many(2060, false);
}
pub fn h_c15_many_dict() {
    many(70, true);
}

// ---- Documents of any length up to 2^28
fn opened(b: &[u8]) {
    if let Ok(v) = Value::from_bytes(b) {
        copies(v.as_array(), v.as_dict());
    }
}
pub fn h_c15_any_array_0() {
    any_collection(false, false, 0, opened);
}
pub fn h_c15_any_array_1() {
    any_collection_below(false, false, 1, 0x40, opened);
}
pub fn h_c15_any_array_2() {
    any_collection_below(false, false, 2, 0x40, opened);
}
pub fn h_c15_any_wide() {
    any_collection_below(false, true, 2, 0x40, opened);
}
pub fn h_c15_any_nested() {
    any_nested(false, true, opened);
}
