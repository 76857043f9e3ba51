//! C18: every way to a value accepts what `Value::from_bytes` accepts, and nothing else
use crate::common::*;
use crate::vp;
use fleece::{Array, Dict, Scope, SharedKeys, Value, ValueType};

/// Where the root lies, how long it is and what it is
fn at(v: &Value, b: *const u8) -> (usize, usize, ValueType) {
    ((v as *const Value as *const u8 as usize).wrapping_sub(b as usize), v.len(), v.value_type())
}
fn root(b: &[u8]) -> Option<(usize, usize, ValueType)> {
    match Value::from_bytes(b) {
        Ok(v) => Some(at(v, b.as_ptr())),
        Err(_) => None,
    }
}
fn same(a: &Value, b: *const u8, n: usize) {
    let x = a as *const Value as *const u8 as usize;
    vp::check(x == b as usize && core::mem::size_of_val(a) == n, "it is the value which validation gives");
}
fn array(b: &[u8]) {
    let v = Value::from_bytes(b);
    let a = Array::from_bytes(b);
    match &v {
        Ok(v) if v.value_type() == ValueType::Array => {
            vp::reached("an array");
            vp::check(a.is_ok(), "the bytes of an array are an array");
            let a = a.unwrap();
            same(v, a as *const Array as *const u8, core::mem::size_of_val(a));
        }
        _ => vp::check(a.is_err(), "an array comes from valid bytes whose root is an array"),
    }
}
fn dict(b: &[u8]) {
    let v = Value::from_bytes(b);
    let a = Dict::from_bytes(b);
    match &v {
        Ok(v) if v.value_type() == ValueType::Dict => {
            vp::reached("a dict");
            vp::check(a.is_ok(), "the bytes of a dict are a dict");
            let a = a.unwrap();
            same(v, a as *const Dict as *const u8, core::mem::size_of_val(a));
        }
        _ => vp::check(a.is_err(), "a dict comes from valid bytes whose root is a dict"),
    }
}
fn cloned(b: &[u8]) {
    let r = root(b);
    match Value::clone_from_bytes(b) {
        Ok(a) => {
            vp::reached("a copy");
            vp::check(r.is_some(), "an owned value comes from valid bytes");
            let (_, n, t) = r.unwrap();
            vp::check(a.value().len() == n && a.value().value_type() == t, "the copy is of the value which validation gives");
        }
        Err(_) => vp::check(r.is_none(), "valid bytes can be copied"),
    }
}
fn cloned_array(b: &[u8]) {
    let r = matches!(root(b), Some((_, _, ValueType::Array)));
    let a = Array::clone_from_bytes(b);
    vp::check(a.is_ok() == r, "an owned array comes from valid bytes whose root is an array");
    if a.is_ok() {
        vp::reached("a copy");
    }
}
fn cloned_dict(b: &[u8]) {
    let r = matches!(root(b), Some((_, _, ValueType::Dict)));
    let a = Dict::clone_from_bytes(b);
    vp::check(a.is_ok() == r, "an owned dict comes from valid bytes whose root is a dict");
    if a.is_ok() {
        vp::reached("a copy");
    }
}
fn scope(b: &[u8]) {
    vp::collide();
    let r = root(b);
    let s = Scope::new(b, None);
    match s.root() {
        Some(a) => {
            vp::reached("a root");
            vp::check(r.is_some(), "the root of a scope comes from valid bytes");
            let (i, n, t) = r.unwrap();
            let d = s.data().unwrap();
            vp::check(at(a.value(), d.as_ptr()) == (i, n, t), "the root is the value which validation gives");
        }
        None => vp::check(r.is_none(), "the root of valid bytes is there"),
    }
}
fn serde(b: &[u8]) {
    let r = root(b);
    match fleece::from_bytes::<::serde::de::IgnoredAny>(b) {
        Ok(_) => {
            vp::reached("deserialized");
            vp::check(r.is_some(), "only valid bytes are deserialized");
        }
        Err(_) => {}
    }
}
fn keys(b: &[u8]) {
    vp::collide();
    let r = matches!(root(b), Some((_, _, ValueType::Array)));
    if SharedKeys::from_state_bytes(b).is_some() {
        vp::reached("shared keys");
        vp::check(r, "shared keys come from valid bytes whose root is an array");
    }
}

macro_rules! sized {
    ($($f:ident: $($n:ident $l:literal)*;)*) => { $( $(
        pub fn $n() {
            $f(&arbitrary::<$l>());
        }
    )* )* };
}
sized! {
    array: h_c18_array_2 2 h_c18_array_4 4 h_c18_array_6 6 h_c18_array_8 8 h_c18_t_array_10 10;
    dict: h_c18_dict_2 2 h_c18_dict_4 4 h_c18_dict_6 6 h_c18_dict_8 8 h_c18_t_dict_10 10;
    cloned: h_c18_clone_2 2 h_c18_clone_4 4 h_c18_clone_6 6 h_c18_clone_8 8 h_c18_t_clone_10 10;
    cloned_array: h_c18_clone_array_2 2 h_c18_clone_array_4 4 h_c18_clone_array_6 6 h_c18_clone_array_8 8 h_c18_t_clone_array_10 10;
    cloned_dict: h_c18_clone_dict_2 2 h_c18_clone_dict_4 4 h_c18_clone_dict_6 6 h_c18_clone_dict_8 8 h_c18_t_clone_dict_10 10;
    scope: h_c18_scope_2 2 h_c18_scope_4 4 h_c18_scope_6 6 h_c18_scope_8 8 h_c18_t_scope_10 10;
    serde: h_c18_serde_2 2 h_c18_serde_4 4 h_c18_serde_6 6 h_c18_serde_8 8 h_c18_t_serde_10 10;
    keys: h_c18_keys_2 2 h_c18_keys_4 4 h_c18_keys_6 6 h_c18_keys_8 8 h_c18_t_keys_10 10;
}
// Bytes of any length up to 2^28
fn large(n: usize, wide: bool, dict: bool, f: impl FnOnce(&[u8])) {
    f(&many(n, wide, dict, 9999))
}
macro_rules! texts {
    ($($f:ident: $a:ident $b:ident $c:ident $d:ident $e:ident $g:ident $h:ident;)*) => { $(
        pub fn $a() {
            any_scalar($f);
        }
        pub fn $b() {
            any_collection(false, false, 2, $f);
        }
        pub fn $c() {
            any_collection(false, true, 1, $f);
        }
        pub fn $d() {
            any_collection(true, false, 1, $f);
        }
        pub fn $e() {
            any_nested(true, false, $f);
        }
        pub fn $g() {
            large(300, false, false, $f);
        }
        pub fn $h() {
            large(100, true, true, $f);
        }
    )* };
}
texts! {
    array: h_c18_any_array_scalar h_c18_any_array h_c18_any_array_wide h_c18_any_array_dict h_c18_any_array_nested h_c18_many_array h_c18_many_array_dict;
    dict: h_c18_any_dict_scalar h_c18_any_dict_array h_c18_any_dict_wide h_c18_any_dict h_c18_any_dict_nested h_c18_many_dict h_c18_many_dict_dict;
    cloned: h_c18_any_clone_scalar h_c18_any_clone_array h_c18_any_clone_wide h_c18_any_clone_dict h_c18_any_clone_nested h_c18_many_clone h_c18_many_clone_dict;
    scope: h_c18_any_scope_scalar h_c18_any_scope_array h_c18_any_scope_wide h_c18_any_scope_dict h_c18_any_scope_nested h_c18_many_scope h_c18_many_scope_dict;
}
