//! C06: narrow and wide collections
use crate::vp;
use fleece::{Array, Dict, Encoder, SharedKeys, Value, ValueType};

const BIG: i64 = 100_001;

fn is_int(v: Option<&Value>, x: i64, id: &'static str) {
    match v {
        Some(v) => vp::check(v.to_int() == x && v.value_type() != ValueType::Pointer, id),
        None => vp::check(false, id),
    }
}
fn is_str(v: Option<&Value>, len: usize, id: &'static str) {
    match v {
        Some(v) => {
            vp::check(v.value_type() == ValueType::String, id);
            vp::check(v.to_str().len() == len, id);
        }
        None => vp::check(false, id),
    }
}

/// What an element is
#[derive(Clone, Copy)]
enum El {
    /// A number in its slot
    Small,
    /// A number which a slot refers to
    Big,
    /// The string of any length
    Str,
    True,
    Null,
    Undefined,
    Short,
    Bytes,
    Empty,
    List,
    Map,
}
use El::*;

fn put(e: &mut Encoder, el: El, i: usize, s: &str) {
    let ok = match el {
        Small => e.write_value(i as i16).is_ok(),
        Big => e.write_value(BIG + i as i64).is_ok(),
        Str => e.write_value(s).is_ok(),
        True => e.write_value(true).is_ok(),
        Null => e.write_value(fleece::encoder::NullValue).is_ok(),
        Undefined => e.write_value(fleece::encoder::UndefinedValue).is_ok(),
        Short => e.write_value("x").is_ok(),
        Bytes => e.write_value(&[7u8][..]).is_ok(),
        Empty => e.write_value("").is_ok(),
        List => e.begin_array(1).is_ok() && e.write_value(BIG + i as i64).is_ok() && e.end_array().is_ok(),
        Map => {
            e.begin_dict().is_ok()
                && e.write_key("inner").is_ok()
                && e.write_value(BIG + i as i64).is_ok()
                && e.end_dict().is_ok()
        }
    };
    vp::check(ok, "the call is accepted");
}
fn is(v: Option<&Value>, el: El, i: usize, n: usize) {
    let Some(v) = v else {
        vp::check(false, "each element is found");
        return;
    };
    match el {
        Small => is_int(Some(v), i as i64, "a number in its slot"),
        Big => is_int(Some(v), BIG + i as i64, "a number which a slot refers to"),
        Str => is_str(Some(v), n, "the string of any length"),
        True => vp::check(v.value_type() == ValueType::True, "a boolean"),
        Null => vp::check(v.value_type() == ValueType::Null, "null"),
        Undefined => vp::check(v.value_type() == ValueType::Undefined, "undefined"),
        Short => vp::check(v.value_type() == ValueType::String && v.to_str() == "x", "a short string"),
        Bytes => vp::check(v.value_type() == ValueType::Data && v.to_data() == [7u8], "a piece of data"),
        Empty => vp::check(v.value_type() == ValueType::String && v.to_str().is_empty(), "an empty string"),
        List => match v.as_array() {
            Some(a) => {
                vp::check(a.len() == 1, "an inner array");
                is_int(a.get(0), BIG + i as i64, "an element of an inner array");
            }
            None => vp::check(false, "an inner array"),
        },
        Map => match v.as_dict() {
            Some(d) => {
                vp::check(d.len() == 1, "an inner dict");
                is_int(d.get("inner"), BIG + i as i64, "an element of an inner dict");
            }
            None => vp::check(false, "an inner dict"),
        },
    }
}

fn array(els: &[El]) {
    let s = vp::any_str();
    vp::assume(s.len() < 1 << 20);
    let mut e = Encoder::new();
    let _ = e.begin_array(0);
    let mut i = 0;
    while i < els.len() {
        put(&mut e, els[i], i, s);
        i += 1;
    }
    let _ = e.end_array();
    let out = e.finish();
    let Ok(a) = Array::from_bytes(&out) else {
        vp::check(false, "the array is read");
        return;
    };
    vp::check(a.len() == els.len(), "an array has as many elements as were written");
    let mut i = 0;
    while i < els.len() {
        is(a.get(i), els[i], i, s.len());
        i += 1;
    }
    let mut i = 0;
    for v in a.iter() {
        is(Some(v), els[i], i, s.len());
        i += 1;
    }
    vp::reached("end");
}
macro_rules! arrays {
    ($($n:ident: $($e:ident)*;)*) => { $(
        pub fn $n() {
            array(&[$($e),*]);
        }
    )* };
}
arrays!(
    h_c06_array_before: Str Small Small;
    h_c06_array_behind: Small Small Small Str;
    h_c06_array_between: Big Str Big;
    h_c06_array_two: Small Big Small Str Small Big;
    h_c06_array_small: Big Str True Null Undefined Short Bytes Empty Small;
    h_c06_array_inner: List Str Map;
    h_c06_array_inner_map: Map Str;
);

fn dict(keys: &[&'static str], els: &[El], shared: bool) {
    let s = vp::any_str();
    vp::assume(s.len() < 1 << 20);
    let mut e = Encoder::new();
    if shared {
        e.set_shared_keys(SharedKeys::new());
    }
    let _ = e.begin_dict();
    let mut i = 0;
    while i < els.len() {
        vp::check(e.write_key(keys[i]).is_ok(), "the key is accepted");
        put(&mut e, els[i], i, s);
        i += 1;
    }
    let _ = e.end_dict();
    if shared {
        let sc = e.finish_scoped();
        match sc.root().as_deref().and_then(Value::as_dict) {
            Some(d) => entries(d, keys, els, s.len()),
            None => vp::check(false, "the dict is read"),
        }
    } else {
        let out = e.finish();
        match Dict::from_bytes(&out) {
            Ok(d) => entries(d, keys, els, s.len()),
            Err(_) => vp::check(false, "the dict is read"),
        }
    }
    vp::reached("end");
}
fn entries(d: &Dict, keys: &[&'static str], els: &[El], n: usize) {
    vp::check(d.len() == els.len(), "a dict has as many entries as were written");
    let mut i = 0;
    while i < els.len() {
        is(d.get(keys[i]), els[i], i, n);
        i += 1;
    }
    let mut seen = 0;
    for (k, _) in d {
        let mut i = 0;
        while i < keys.len() {
            if k == keys[i] {
                seen |= 1 << i;
            }
            i += 1;
        }
    }
    vp::check(seen == (1 << keys.len()) - 1, "iteration gives every key");
}
macro_rules! dicts {
    ($($n:ident, $s:literal: $($k:literal $e:ident)*;)*) => { $(
        pub fn $n() {
            dict(&[$($k),*], &[$($e),*], $s);
        }
    )* };
}
dicts!(
    h_c06_dict_before, false: "s" Str "b" Small "c" Small;
    h_c06_dict_behind, false: "a" Small "b" Small "s" Str;
    h_c06_dict_key_first, false: "zzzz" Small "s" Str;
    h_c06_dict_key_last, false: "a" Small "b" Small "cc" Small "zzzz" Str;
    h_c06_dict_key_sorted_last, false: "zzzz" True "yyyy" Str "a" Null "b" Empty;
    h_c06_dict_key_sorted_first, false: "aaaa" True "b" Str "c" Short "d" Bytes;
    h_c06_dict_value_sorted_last, false: "z" Big "y" Str "a" Small "b" Undefined;
    h_c06_dict_value_sorted_first, false: "a" Big "y" Str "b" Small;
    h_c06_dict_inner, false: "list" List "s" Str "map" Map;
    h_c06_dict_shared, true: "list" List "s" Str "map" Map;
    h_c06_dict_shared_sorted, true: "zzzz" Big "yyyy" Str "a" Small "not shared!" Big;
);

/// A wide collection within a narrow one, and the other way round
fn nested(inner_dict: bool, outer_dict: bool, before: bool) {
    let s = vp::any_str();
    vp::assume(s.len() < 1 << 20);
    let mut e = Encoder::new();
    let key = |e: &mut Encoder, k: &str| {
        if outer_dict {
            vp::check(e.write_key(k).is_ok(), "the key is accepted");
        }
    };
    let r = if outer_dict { e.begin_dict() } else { e.begin_array(3) };
    vp::check(r.is_ok(), "the outer collection begins");
    key(&mut e, "big");
    put(&mut e, Big, 0, s);
    if before {
        key(&mut e, "str");
        put(&mut e, Str, 1, s);
    }
    key(&mut e, "in");
    if inner_dict {
        let _ = e.begin_dict();
        let _ = e.write_key("a");
        put(&mut e, Big, 0, s);
        if !before {
            let _ = e.write_key("b");
            put(&mut e, Str, 1, s);
        }
        let _ = e.write_key("c");
        put(&mut e, Small, 2, s);
        let _ = e.end_dict();
    } else {
        let _ = e.begin_array(3);
        put(&mut e, Big, 0, s);
        if !before {
            put(&mut e, Str, 1, s);
        }
        put(&mut e, Small, 2, s);
        let _ = e.end_array();
    }
    key(&mut e, "tr");
    put(&mut e, True, 3, s);
    let _ = if outer_dict { e.end_dict() } else { e.end_array() };
    let out = e.finish();
    let Ok(v) = Value::from_bytes(&out) else {
        vp::check(false, "the document is read");
        return;
    };
    let n = s.len();
    let m = usize::from(before);
    let get = |i: usize, k: &str| {
        if outer_dict {
            v.as_dict().and_then(|d| d.get(k))
        } else {
            v.as_array().and_then(|a| a.get(i))
        }
    };
    is(get(0, "big"), Big, 0, n);
    if before {
        is(get(1, "str"), Str, 1, n);
    }
    is(get(2 + m, "tr"), True, 3, n);
    let Some(inner) = get(1 + m, "in") else {
        vp::check(false, "the inner collection is found");
        return;
    };
    let m = usize::from(!before);
    let get = |i: usize, k: &str| {
        if inner_dict {
            inner.as_dict().and_then(|d| d.get(k))
        } else {
            inner.as_array().and_then(|a| a.get(i))
        }
    };
    is(get(0, "a"), Big, 0, n);
    if !before {
        is(get(1, "b"), Str, 1, n);
    }
    is(get(1 + m, "c"), Small, 2, n);
    vp::reached("end");
}
macro_rules! nests {
    ($($n:ident: $a:literal $b:literal $c:literal;)*) => { $(
        pub fn $n() {
            nested($a, $b, $c);
        }
    )* };
}
nests!(
    h_c06_array_in_array: false false true;
    h_c06_array_in_dict: false true true;
    h_c06_dict_in_array: true false true;
    h_c06_dict_in_dict: true true true;
    h_c06_wide_array_in_array: false false false;
    h_c06_wide_array_in_dict: false true false;
    h_c06_wide_dict_in_array: true false false;
    h_c06_wide_dict_in_dict: true true false;
);

/// The distance to the root, which is that over its own slots
fn root(n: usize, wide: bool) {
    let x = vp::any_u8();
    let mut e = Encoder::new();
    let _ = e.begin_array(n);
    let mut i = 0;
    if wide {
        // A string too far away for a narrow slot
        let b = vp::any_bytes();
        vp::assume(b.len() == 40000);
        let _ = e.write_value(b);
        i += 1;
    }
    while i < n {
        let _ = e.write_value(x);
        i += 1;
    }
    let _ = e.end_array();
    let out = e.finish();
    match Value::from_bytes(&out).ok().and_then(Value::as_array) {
        Some(a) => {
            vp::check(a.len() == n, "the root is as long as what was written");
            is_int(a.get(1), i64::from(x), "the second element");
            is_int(a.get(n - 1), i64::from(x), "the last element");
        }
        None => vp::check(false, "the root is found"),
    }
    vp::reached("end");
}
pub fn h_c06_root_near() {
    let mut n = 8189;
    while n < 8195 {
        root(n, false);
        n += 1;
    }
}
pub fn h_c06_root_far() {
    root(16381, false);
    root(16384, false);
    root(16387, false);
}
pub fn h_c06_root_wide() {
    root(9000, true);
}
pub fn h_c06_root_farther() {
    root(16400, true);
}
pub fn h_c06_root_farthest() {
    root(32800, true);
}
pub fn h_c06_t_root_mega() {
    root(140000, true);
}
