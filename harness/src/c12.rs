//! C12: what was obtained from an owner is read after the others are gone, in every order
use crate::common::*;
use crate::vp;
use fleece::alloced::{AllocedArray, AllocedDict, AllocedValue};
use fleece::{Array, Dict, Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value, ValueType};
use std::sync::Arc;

/// `["text", x, {"k": "value", "n": x}]`
fn write(e: &mut Encoder, x: i16) {
    let ok = e.begin_array(3).is_ok()
        && e.write_value("text").is_ok()
        && e.write_value(x).is_ok()
        && e.begin_dict().is_ok()
        && e.write_key("kk").is_ok()
        && e.write_value("value").is_ok()
        && e.write_key("nn").is_ok()
        && e.write_value(x).is_ok()
        && e.end_dict().is_ok()
        && e.end_array().is_ok();
    vp::check(ok, "the document is written");
}
fn any() -> i16 {
    let x = vp::any_i16();
    vp::assume(x >= 0 && x <= 2047);
    x
}
fn text(v: Option<&Value>, s: &str) {
    vp::check(v.is_some_and(|v| v.to_str().as_bytes() == s.as_bytes()), "the text is still there");
}
fn number(v: Option<&Value>, x: i16) {
    vp::check(v.is_some_and(|v| v.to_int() == i64::from(x)), "the number is still there");
}
fn dict(d: &Dict, x: i16) {
    vp::check(d.len() == 2, "the dict is still there");
    text(d.get("kk"), "value");
    number(d.get("nn"), x);
}
fn array(a: &Array, x: i16) {
    vp::check(a.len() == 3, "the array is still there");
    text(a.get(0), "text");
    number(a.get(1), x);
    match a.get(2).and_then(Value::as_dict) {
        Some(d) => dict(d, x),
        None => vp::check(false, "the dict is still there"),
    }
}
fn value(v: &Value, x: i16) {
    match v.as_array() {
        Some(a) => array(a, x),
        None => vp::check(false, "the array is still there"),
    }
}
fn bytes(x: i16) -> Vec<u8> {
    let mut e = Encoder::new();
    write(&mut e, x);
    e.finish()
}
fn pick(n: u8) -> u8 {
    let k = vp::any_u8();
    vp::assume(k < n);
    k
}
/// Drops any one of the owners, reads what the others hold, drops all of them but one, and reads that one
macro_rules! drop_all_but {
    ($($o:ident => $read:expr),* $(,)?) => {{
        let k = vp::any_u8();
        let mut i = 0u8;
        $(
            if k == i { drop($o.take()); }
            i += 1;
        )*
        vp::assume(k < i);
        $( if let Some(o) = &$o { ($read)(o); } )*
        let k = vp::any_u8();
        let mut i = 0u8;
        $(
            if k != i { drop($o.take()); }
            i += 1;
        )*
        vp::assume(k < i);
        $( if let Some(o) = &$o { ($read)(o); } )*
    }};
}

/// A copy of bytes, its clones and what it is turned into
pub fn h_c12_clones() {
    let x = any();
    let b = bytes(x);
    let Ok(v) = Value::clone_from_bytes(&b) else {
        vp::check(false, "the document is accepted");
        return;
    };
    drop(b);
    value(&v, x);
    let mut c = Some(v.clone());
    let mut a = v.clone().to_array();
    let mut v = Some(v);
    vp::check(a.is_some(), "the root is an array");
    drop_all_but!(v => |o: &AllocedValue| value(o, x), c => |o: &AllocedValue| value(o.value(), x), a => |o: &AllocedArray| array(o, x));
    vp::reached("the last owner");
}
/// A value which is not of the kind is given back or dropped, and nothing is read of it
pub fn h_c12_not_that() {
    let x = any();
    let b = bytes(x);
    let v = Value::clone_from_bytes(&b).ok().unwrap();
    let c = v.clone();
    vp::check(v.to_dict().is_none(), "an array is not a dict");
    value(&c, x);
}
pub fn h_c12_copies_of_collections() {
    let x = any();
    let b = bytes(x);
    let (a, d) = (Array::clone_from_bytes(&b), Dict::clone_from_bytes(&b));
    drop(b);
    vp::check(d.is_err(), "an array is not a dict");
    let a = a.ok().unwrap();
    array(&a, x);
    let c = a.clone();
    if vp::any_bool() {
        drop(a);
        array(&c, x);
    } else {
        drop(c);
        array(&a, x);
    }
}
pub fn h_c12_copy_of_dict() {
    let x = any();
    let mut e = Encoder::new();
    let ok = e.begin_dict().is_ok() && e.write_key("kk").is_ok() && e.write_value("value").is_ok() && e.write_key("nn").is_ok() && e.write_value(x).is_ok();
    vp::check(ok, "the document is written");
    let b = e.finish();
    let d = Dict::clone_from_bytes(&b).ok().unwrap();
    let v = Value::clone_from_bytes(&b).ok().unwrap();
    drop(b);
    let w = v.clone().to_dict();
    drop(v);
    dict(&d, x);
    drop(d);
    match &w {
        Some(w) => dict(w, x),
        None => vp::check(false, "the root is a dict"),
    }
}
pub fn h_c12_empty() {
    let (a, d) = (AllocedArray::empty(), AllocedDict::empty());
    let (b, e) = (a.clone(), d.clone());
    drop(a);
    drop(d);
    vp::check(b.len() == 0 && b.get(0).is_none() && b.iter().next().is_none(), "an empty array");
    vp::check(e.len() == 0 && e.get("k").is_none() && e.iter().next().is_none(), "an empty dict");
    drop(b);
    drop(e);
    vp::check(AllocedArray::empty().len() == 0 && AllocedDict::empty().len() == 0, "empty collections, again");
}
/// What the encoder gives
pub fn h_c12_finish_value() {
    let x = any();
    let mut e = Encoder::new();
    write(&mut e, x);
    let v = e.finish_value();
    value(&v, x);
    let a = v.to_array();
    match &a {
        Some(a) => array(a, x),
        None => vp::check(false, "the root is an array"),
    }
}
/// The encoder copies what is written
pub fn h_c12_written() {
    let x = any();
    let b = bytes(x);
    let mut e = Encoder::new();
    let _ = e.begin_array(1);
    if vp::any_bool() {
        let v = Value::clone_from_bytes(&b).ok().unwrap();
        vp::check(e.write_fleece(&v).is_ok(), "a value is written");
        drop(v);
    } else {
        let v = Value::from_bytes(&b).ok().unwrap();
        vp::check(e.write_fleece(v).is_ok(), "a value is written");
    }
    drop(b);
    let v = e.finish_value();
    match v.as_array().and_then(|a| a.get(0)) {
        Some(v) => value(v, x),
        None => vp::check(false, "the value is there"),
    }
}
/// The scope, its data, its root and the parts of it
pub fn h_c12_scope() {
    vp::collide();
    let x = any();
    let s = Scope::new(bytes(x), None);
    let mut root = s.root();
    let mut data = s.data();
    let mut a = s.root().and_then(AllocedValue::to_array);
    let mut s = Some(s);
    vp::check(root.is_some() && data.is_some() && a.is_some(), "the scope has its data");
    drop_all_but!(
        s => |o: &Arc<Scope>| match o.root() { Some(v) => value(&v, x), None => vp::check(false, "a live scope has a root") },
        root => |o: &AllocedValue| value(o, x),
        data => |o: &Arc<[u8]>| match Value::from_bytes(o) { Ok(v) => value(v, x), Err(_) => vp::check(false, "the data is still there") },
        a => |o: &AllocedArray| array(o, x),
    );
}
pub fn h_c12_scope_removed() {
    vp::collide();
    let x = any();
    let s = Scope::new(bytes(x), None);
    let root = s.root();
    let at = s.range().unwrap().start as *const u8;
    let found = Scope::containing(at);
    vp::check(found.is_some(), "the scope is found");
    let k = pick(3);
    if k == 0 {
        s.remove();
    }
    if k == 1 {
        drop(found);
        drop(s);
        value(root.as_ref().unwrap(), x);
        vp::check(Scope::containing(at).is_none(), "the scope is gone");
        value(root.as_ref().unwrap(), x);
        return;
    }
    drop(s);
    let found = found.unwrap();
    value(&found.root().unwrap(), x);
    drop(found);
    value(root.as_ref().unwrap(), x);
}
/// Two scopes at once, one after another
pub fn h_c12_scopes() {
    vp::collide();
    let x = any();
    let s = Scope::new(bytes(x), None);
    let root = s.root().unwrap();
    drop(s);
    let y = any();
    let t = Scope::new(bytes(y), None);
    value(&root, x);
    let other = t.root().unwrap();
    drop(root);
    drop(t);
    value(&other, y);
}
/// The scope shares the bytes with its owner
pub fn h_c12_shared_bytes() {
    vp::collide();
    let x = any();
    let b: Arc<[u8]> = bytes(x).into();
    let s = Scope::new(b.clone(), None);
    let root = s.root().unwrap();
    match pick(3) {
        0 => {
            drop(b);
            drop(s);
            value(&root, x);
        }
        1 => {
            drop(s);
            drop(root);
            value(Value::from_bytes(&b).ok().unwrap(), x);
        }
        _ => {
            drop(root);
            drop(b);
            value(&s.root().unwrap(), x);
        }
    }
}
fn shared() -> (Arc<Scope>, i16) {
    let x = any();
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    write(&mut e, x);
    (e.finish_scoped(), x)
}
/// Shared keys outlive their scope if they are held
pub fn h_c12_shared_keys() {
    vp::collide();
    let (s, x) = shared();
    let keys = s.shared_keys().cloned();
    let root = s.root().unwrap();
    vp::check(keys.is_some(), "the scope has shared keys");
    let found = Scope::find_shared_keys(s.range().unwrap().start as *const u8);
    vp::check(found.is_some(), "the shared keys are found");
    value(&root, x);
    let k = pick(2);
    if k == 0 {
        s.remove();
    }
    drop(s);
    let keys = keys.unwrap();
    let a = root.as_array().unwrap();
    let d = a.get(2).and_then(Value::as_dict).unwrap();
    // They cannot be found any more
    vp::check(d.get("kk").is_none(), "the keys are not found without their scope");
    text(d.get_with_shared_keys("kk", &keys), "value");
    drop(keys);
    let found = found.unwrap();
    number(d.get_with_shared_keys("nn", &found), x);
    drop(root);
    vp::check(found.decode(0).is_some_and(|k| k.as_bytes() == b"kk"), "the shared keys are still there");
}
/// An iterator holds the shared keys
pub fn h_c12_iteration() {
    vp::collide();
    let (s, x) = shared();
    let root = s.root().unwrap();
    let d = root.as_array().unwrap().get(2).and_then(Value::as_dict).unwrap();
    let mut i = d.iter();
    let at = pick(2);
    if at == 0 {
        drop(s);
        let (k, v) = i.next().unwrap();
        vp::check(k.as_bytes() == b"kk", "the key is still there");
        text(Some(v), "value");
        let (k, v) = i.next().unwrap();
        vp::check(k.as_bytes() == b"nn", "the key is still there");
        number(Some(v), x);
    } else {
        let (k, v) = i.next().unwrap();
        drop(s);
        vp::check(k.as_bytes() == b"kk", "the key is still there");
        text(Some(v), "value");
        let (k, v) = i.next().unwrap();
        vp::check(k.as_bytes() == b"nn", "the key is still there");
        number(Some(v), x);
    }
    vp::check(i.next().is_none(), "the iteration ends");
}
/// The values which an iterator gave, after the iterator and the scope
pub fn h_c12_after_iteration() {
    vp::collide();
    let (s, x) = shared();
    let root = s.root().unwrap();
    let d = root.as_array().unwrap().get(2).and_then(Value::as_dict).unwrap();
    let mut i = d.iter();
    let (_, v) = i.next().unwrap();
    let (_, w) = i.next().unwrap();
    drop(i);
    drop(s);
    text(Some(v), "value");
    number(Some(w), x);
}
/// The keys which an iterator gave, after the iterator and the scope
pub fn h_c12_keys_after_iteration() {
    vp::collide();
    let (s, _) = shared();
    let root = s.root().unwrap();
    let d = root.as_array().unwrap().get(2).and_then(Value::as_dict).unwrap();
    let mut i = d.iter();
    let (k, _) = i.next().unwrap();
    drop(i);
    drop(s);
    vp::check(k.as_bytes() == b"kk", "the key is still there");
}
/// The same without shared keys
pub fn h_c12_plain_keys_after_iteration() {
    vp::collide();
    let x = any();
    let s = Scope::new(bytes(x), None);
    let root = s.root().unwrap();
    let d = root.as_array().unwrap().get(2).and_then(Value::as_dict).unwrap();
    let mut i = d.iter();
    let (k, _) = i.next().unwrap();
    drop(i);
    drop(s);
    vp::check(k.as_bytes() == b"kk", "the key is still there");
}

fn in_mutable(m: &MutableArray, x: i16) {
    vp::check(m.len() == 3, "the mutable array is still there");
    text(m.get(0), "text");
    number(m.get(1), x);
    match m.get_dict(2) {
        Some(d) => {
            text(d.get("kk"), "value");
            number(d.get("nn"), x);
        }
        None => vp::check(false, "the dict is still there"),
    }
}
/// A mutable copy does not need what it was made of
pub fn h_c12_mutable() {
    let x = any();
    let b = bytes(x);
    let m = match pick(3) {
        0 => Array::from_bytes(&b).ok().unwrap().to_mutable(),
        1 => {
            let a = Array::clone_from_bytes(&b).ok().unwrap();
            MutableArray::clone_from(&a)
        }
        _ => {
            let v = Value::from_bytes(&b).ok().unwrap();
            let mut m = MutableArray::new();
            m.push_fleece(v);
            let n = m.get_array(0).unwrap().clone();
            n
        }
    };
    drop(b);
    in_mutable(&m, x);
    let c = m.clone();
    if vp::any_bool() {
        drop(m);
        in_mutable(&c, x);
    } else {
        drop(c);
        in_mutable(&m, x);
    }
}
pub fn h_c12_mutable_from_scope() {
    vp::collide();
    let (s, x) = shared();
    let m = MutableArray::from_scope(&s).unwrap();
    if vp::any_bool() {
        s.remove();
    }
    drop(s);
    in_mutable(&m, x);
}
pub fn h_c12_mutable_dict_from_scope() {
    vp::collide();
    let x = any();
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    let ok = e.begin_dict().is_ok() && e.write_key("kk").is_ok() && e.write_value("value").is_ok() && e.write_key("nn").is_ok() && e.write_value(x).is_ok();
    vp::check(ok, "the document is written");
    let s = e.finish_scoped();
    let m = match pick(2) {
        0 => MutableDict::from_scope(&s).unwrap(),
        _ => s.root().unwrap().as_dict().unwrap().to_mutable(),
    };
    drop(s);
    text(m.get("kk"), "value");
    number(m.get("nn"), x);
    let (k, v) = m.iter().next().unwrap();
    vp::check(k.as_bytes() == b"kk" && v.is_value(), "the entry is still there");
    text(v.value(), "value");
}
/// A slot that is set again gives back what was in it, and nothing of it is read any more
pub fn h_c12_set_again() {
    let x = any();
    let mut m = MutableArray::new();
    m.push("some text");
    m.push(&x);
    match pick(4) {
        0 => m.set(0, x),
        1 => m.set_dict(0, MutableDict::new()),
        2 => m.set_array(0, MutableArray::new()),
        _ => {
            m.remove(0);
            number(m.get(0), x);
            m.push("other");
            text(m.get(1), "other");
            return;
        }
    }
    number(m.get(1), x);
    vp::check(m.get(0).is_none() || m.get(0).unwrap().to_int() == i64::from(x), "the slot has its new value");
    m.set(0, "text");
    text(m.get(0), "text");
}
pub fn h_c12_insert_again() {
    let x = any();
    let mut m = MutableDict::new();
    m.insert("kk", "some text");
    m.insert("nn", x);
    match pick(4) {
        0 => m.insert("kk", x),
        1 => m.insert_dict("kk", MutableDict::new()),
        2 => m.insert_array("kk", MutableArray::new()),
        _ => m.remove("kk"),
    }
    number(m.get("nn"), x);
    m.insert("kk", "value");
    text(m.get("kk"), "value");
    number(m.get("nn"), x);
    let c = m.clone();
    drop(m);
    text(c.get("kk"), "value");
}
/// Deserialized data does not need its bytes
pub fn h_c12_deserialized() {
    let x = any();
    let mut e = Encoder::new();
    let _ = e.begin_array(2);
    let _ = e.write_value("text");
    let _ = e.write_value(x);
    let b = e.finish();
    let r = fleece::from_bytes::<(String, i16)>(&b);
    drop(b);
    match r {
        Ok((s, y)) => vp::check(s.as_bytes() == b"text" && x == y, "what was deserialized is still there"),
        Err(_) => vp::check(false, "the document is deserialized"),
    }
}
/// A document with its keys, from a serializer
pub fn h_c12_serialized() {
    vp::collide();
    let x = any();
    let s = fleece::to_bytes_with_shared_keys(&("text", x));
    let Ok(s) = s else {
        vp::check(false, "it is serialized");
        return;
    };
    let root = s.root();
    drop(s);
    match root.as_ref().and_then(|r| r.as_array()) {
        Some(a) => {
            text(a.get(0), "text");
            number(a.get(1), x);
        }
        None => vp::check(false, "the document is still there"),
    }
}
/// The keys of shared keys, when more are added
pub fn h_c12_keys() {
    vp::collide();
    let mut k = SharedKeys::new();
    let _ = k.encode_and_insert("kk");
    let b = k.get_state_bytes();
    let c = SharedKeys::from_state_bytes(&b);
    drop(b);
    let _ = k.encode_and_insert("nn");
    let d = k.clone();
    drop(k);
    vp::check(d.decode(1).is_some_and(|x| x.as_bytes() == b"nn"), "the keys are still there");
    drop(d);
    vp::check(c.is_some_and(|c| c.decode(0).is_some_and(|x| x.as_bytes() == b"kk")), "the keys are still there");
}

fn twin_array(a: &Array, w: &Value, depth: u8) {
    let Some(b) = w.as_array() else { return };
    vp::check(a.len() == b.len(), "the array is still there");
    if depth > 0 {
        let mut i = 0;
        while i < b.len() {
            match (a.get(i), b.get(i)) {
                (Some(x), Some(y)) => twin(x, y, depth - 1),
                (x, y) => vp::check(x.is_none() && y.is_none(), "the elements are still there"),
            }
            i += 1;
        }
    }
}
fn twin_dict(a: &Dict, w: &Value, depth: u8) {
    let Some(b) = w.as_dict() else { return };
    vp::check(a.len() == b.len(), "the dict is still there");
    if depth > 0 {
        let (mut i, mut j) = (a.iter(), b.iter());
        loop {
            match (i.next(), j.next()) {
                (Some((k, x)), Some((l, y))) => {
                    vp::check(k.as_bytes() == l.as_bytes(), "the keys are still there");
                    twin(x, y, depth - 1);
                }
                (x, y) => {
                    vp::check(x.is_none() && y.is_none(), "the entries are still there");
                    break;
                }
            }
        }
    }
}
/// `v` is what `w`, of another copy of the bytes, is
fn twin(v: &Value, w: &Value, depth: u8) {
    let t = w.value_type();
    vp::check(v.value_type() == t, "the kind is still the same");
    match t {
        ValueType::Array => {
            if let Some(a) = v.as_array() {
                twin_array(a, w, depth);
            }
        }
        ValueType::Dict => {
            if let Some(a) = v.as_dict() {
                twin_dict(a, w, depth);
            }
        }
        ValueType::String => vp::check(v.to_str().as_bytes() == w.to_str().as_bytes(), "the text is still there"),
        ValueType::Data => vp::check(v.to_data() == w.to_data(), "the data is still there"),
        ValueType::Float | ValueType::Double32 | ValueType::Double64 => {
            vp::check(v.to_double().to_bits() == w.to_double().to_bits(), "the number is still there")
        }
        _ => vp::check(v.to_int() == w.to_int(), "the number is still there"),
    }
}
/// Owners of copies of `b`, which lives on to compare with
fn owned(b: &[u8]) {
    let Ok(w) = Value::from_bytes(b) else { return };
    let Ok(v) = Value::clone_from_bytes(b) else { return };
    vp::reached("an owner");
    let t = w.value_type();
    match vp::any_u8() {
        0 => {
            let c = v.clone();
            drop(v);
            twin(&c, w, 2);
        }
        1 => {
            if let Some(a) = v.to_array() {
                vp::check(t == ValueType::Array, "only an array is an array");
                let c = a.clone();
                drop(a);
                twin_array(&c, w, 2);
            } else {
                vp::check(t != ValueType::Array, "an array is an array");
            }
        }
        2 => {
            if let Some(a) = v.to_dict() {
                vp::check(t == ValueType::Dict, "only a dict is a dict");
                let c = a.clone();
                drop(a);
                twin_dict(&c, w, 2);
            } else {
                vp::check(t != ValueType::Dict, "a dict is a dict");
            }
        }
        3 => {
            drop(v);
            if let Ok(a) = Array::clone_from_bytes(b) {
                let c = a.clone();
                drop(a);
                twin_array(&c, w, 2);
            }
        }
        _ => {
            drop(v);
            if let Ok(d) = Dict::clone_from_bytes(b) {
                let c = d.clone();
                drop(d);
                twin_dict(&c, w, 2);
            }
        }
    }
}
/// Scopes of copies of `b`
fn scoped(b: &[u8]) {
    vp::collide();
    let Ok(w) = Value::from_bytes(b) else { return };
    let keys = if vp::any_bool() { Some(Arc::new(SharedKeys::new())) } else { None };
    let s = Scope::new(b, keys);
    let (r, d) = (s.root(), s.data());
    let (Some(r), Some(d)) = (r, d) else {
        vp::check(false, "a scope has what it was made of");
        return;
    };
    vp::reached("a scope");
    match vp::any_u8() {
        0 => {
            drop(s);
            drop(d);
            twin(&r, w, 2);
        }
        1 => {
            s.remove();
            drop(r);
            drop(s);
            if let Ok(v) = Value::from_bytes(&d) {
                twin(v, w, 2);
            } else {
                vp::check(false, "the bytes of a scope are still there");
            }
        }
        2 => {
            drop(r);
            drop(d);
            if let Some(r) = s.root() {
                twin(&r, w, 2);
            } else {
                vp::check(false, "the root of a scope is still there");
            }
        }
        _ => {
            let c = Arc::clone(&s);
            drop(s);
            drop(d);
            let a = r.to_array();
            if let Some(a) = &a {
                drop(c);
                twin_array(a, w, 2);
            }
        }
    }
}
macro_rules! texts {
    ($($f:ident: $b4:ident $b6:ident $t8:ident $scalar:ident $array:ident $wide:ident $dict:ident $nested:ident;)*) => { $(
        pub fn $b4() {
            $f(&arbitrary::<4>());
        }
        pub fn $b6() {
            $f(&arbitrary::<6>());
        }
        pub fn $t8() {
            $f(&arbitrary::<8>());
        }
        pub fn $scalar() {
            any_scalar($f);
        }
        pub fn $array() {
            any_collection(false, false, 2, $f);
        }
        pub fn $wide() {
            any_collection(false, true, 1, $f);
        }
        pub fn $dict() {
            any_collection(true, false, 1, $f);
        }
        pub fn $nested() {
            any_nested(true, false, $f);
        }
    )* };
}
texts!(
    owned: h_c12_owned_4 h_c12_owned_6 h_c12_t_owned_8 h_c12_any_owned_scalar h_c12_any_owned_array h_c12_any_owned_wide h_c12_any_owned_dict h_c12_any_owned_nested;
    scoped: h_c12_scoped_4 h_c12_scoped_6 h_c12_t_scoped_8 h_c12_any_scoped_scalar h_c12_t_any_scoped_array h_c12_t_any_scoped_wide h_c12_any_scoped_dict h_c12_any_scoped_nested;
);
