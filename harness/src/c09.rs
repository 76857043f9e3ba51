//! C09: looking up keys
use crate::vp;
use fleece::{Dict, Encoder, Scope, SharedKeys, Value};
use std::sync::Arc;

fn same(a: &str, b: &str) -> bool {
    a.as_bytes() == b.as_bytes()
}
fn text(n: usize) -> &'static str {
    let s = vp::any_str();
    vp::assume(s.len() == n);
    let b = s.as_bytes();
    let mut i = 0;
    while i < n {
        vp::assume(b[i] < 128);
        i += 1;
    }
    s
}

enum Doc {
    Bytes(Vec<u8>),
    Scope(Arc<Scope>),
}
impl Doc {
    fn with(&self, f: impl FnOnce(&Dict)) {
        match self {
            Doc::Bytes(b) => match Dict::from_bytes(b) {
                Ok(d) => f(d),
                Err(_) => vp::check(false, "the dict is read"),
            },
            Doc::Scope(s) => match s.root() {
                Some(r) => match r.as_dict() {
                    Some(d) => f(d),
                    None => vp::check(false, "the dict is read"),
                },
                None => vp::check(false, "the dict is read"),
            },
        }
    }
    fn keys(&self) -> Option<&SharedKeys> {
        match self {
            Doc::Bytes(_) => None,
            Doc::Scope(s) => s.shared_keys().map(|k| &**k),
        }
    }
}
fn write(keys: &[&str], shared: bool) -> Doc {
    let mut e = Encoder::new();
    if shared {
        e.set_shared_keys(SharedKeys::new());
    }
    let _ = e.begin_dict();
    let mut i = 0;
    while i < keys.len() {
        vp::check(e.write_key(keys[i]).is_ok(), "a key is accepted");
        vp::check(e.write_value(value(i)).is_ok(), "a value is accepted");
        i += 1;
    }
    vp::check(e.end_dict().is_ok(), "the end is accepted");
    if shared {
        Doc::Scope(e.finish_scoped())
    } else {
        Doc::Bytes(e.finish())
    }
}
fn value(i: usize) -> i64 {
    if i % 3 == 0 {
        100_000 + i as i64
    } else {
        i as i64
    }
}
/// That it finds all keys, once each
fn finds(doc: &Doc, keys: &[&str]) {
    doc.with(|d| {
        vp::check(d.len() == keys.len(), "a dict has as many entries as were written");
        let mut i = 0;
        while i < keys.len() {
            vp::check(d.get(keys[i]).is_some_and(|v| v.to_int() == value(i)), "a key which was written is found, with its value");
            vp::check(d.contains_key(keys[i]), "a key which was written is contained");
            if let Some(k) = doc.keys() {
                vp::check(
                    d.get_with_shared_keys(keys[i], k).is_some_and(|v| v.to_int() == value(i)),
                    "a key which was written is found with the shared keys given",
                );
                vp::check(d.contains_key_with_shared_keys(keys[i], k), "a key which was written is contained with the shared keys given");
            }
            let mut n = 0;
            for (k, v) in d {
                if same(k, keys[i]) {
                    n += 1;
                    vp::check(v.to_int() == value(i), "iteration gives the value with its key");
                }
            }
            vp::check(n == 1, "iteration gives each entry once");
            i += 1;
        }
        let mut n = 0;
        for _ in d.iter() {
            n += 1;
        }
        vp::check(n == keys.len(), "iteration gives as many entries as were written");
    });
}
/// That it does not find another string
fn misses(doc: &Doc, keys: &[&str], other: &str) {
    let mut i = 0;
    while i < keys.len() {
        if same(keys[i], other) {
            return;
        }
        i += 1;
    }
    doc.with(|d| {
        vp::check(d.get(other).is_none(), "a key which was not written is not found");
        vp::check(!d.contains_key(other), "a key which was not written is not contained");
        if let Some(k) = doc.keys() {
            vp::check(d.get_with_shared_keys(other, k).is_none(), "a key which was not written is not found with the shared keys given");
        }
    });
}

// ---- Two keys of any content
fn two(n: usize, m: usize, o: usize, shared: bool) {
    vp::collide();
    let (s, t, u) = (text(n), text(m), text(o));
    vp::assume(!same(s, t));
    let doc = write(&[s, t], shared);
    finds(&doc, &[s, t]);
    misses(&doc, &[s, t], u);
    vp::reached("end");
}
macro_rules! twos {
    ($($name:ident: $n:literal $m:literal $o:literal $s:literal;)*) => { $(
        pub fn $name() {
            two($n, $m, $o, $s);
        }
    )* };
}
twos!(
    h_c09_two_0_1_1: 0 1 1 false;
    h_c09_two_1_1_1: 1 1 1 false;
    h_c09_two_1_2_1: 1 2 1 false;
    h_c09_two_2_1_2: 2 1 2 false;
    h_c09_two_2_2_1: 2 2 1 false;
    h_c09_two_3_1_1: 3 1 1 false;
    h_c09_shared_0_1_1: 0 1 1 true;
    h_c09_shared_1_1_1: 1 1 1 true;
    h_c09_shared_1_2_1: 1 2 1 true;
    h_c09_t_shared_2_1_2: 2 1 2 true;
    h_c09_t_shared_2_2_2: 2 2 2 true;
    h_c09_t_two_3_3_2: 3 3 2 false;
    h_c09_t_two_3_2_3: 3 2 3 false;
    h_c09_t_shared_2_3_2: 2 3 2 true;
);
/// A third one
fn three(shared: bool) {
    vp::collide();
    let (s, t, u) = (text(1), text(2), text(1));
    let keys = ["k", s, t];
    vp::assume(!same(s, "k"));
    let doc = write(&keys, shared);
    finds(&doc, &keys);
    misses(&doc, &keys, u);
    vp::reached("end");
}
pub fn h_c09_three() {
    three(false);
}
pub fn h_c09_three_shared() {
    three(true);
}
/// A letter at any place of keys which are alike otherwise
fn place(n: usize, shared: bool) {
    vp::collide();
    let at = usize::from(vp::any_u8());
    vp::assume(at < n);
    let (x, y) = (text(1), text(1));
    vp::assume(!same(x, y));
    let make = |z: &str| {
        let mut a = String::new();
        let mut i = 0;
        while i < n {
            a.push_str(if i == at { z } else { "k" });
            i += 1;
        }
        a
    };
    let (a, b) = (make(x), make(y));
    let keys = [a.as_str(), b.as_str(), "k"];
    let doc = write(&keys, shared);
    finds(&doc, &keys);
    misses(&doc, &keys, &a[..n - 1]);
    misses(&doc, &keys, "kkk");
    vp::reached("end");
}
pub fn h_c09_place() {
    place(4, false);
}
pub fn h_c09_place_shared() {
    place(4, true);
}

// ---- Many keys, in every order
const KEYS: [&str; 12] = [
    "", "a", "b", "aa", "ab", "a.", "abc", "abcdefghijklmnop", "abcdefghijklmnopq", "\u{e9}", "\u{1f600}", "Z",
];
/// `n` of them, in any order, from `from` on
fn order(from: usize, n: usize, shared: bool) {
    let mut keys = [""; 12];
    let mut used = [false; 12];
    let mut i = 0;
    while i < n {
        let k = usize::from(vp::any_u8());
        vp::assume(k < n);
        vp::assume(!used[k]);
        used[k] = true;
        keys[i] = KEYS[from + k];
        i += 1;
    }
    let doc = write(&keys[..n], shared);
    finds(&doc, &keys[..n]);
    let mut i = 0;
    while i < KEYS.len() {
        misses(&doc, &keys[..n], KEYS[i]);
        i += 1;
    }
    misses(&doc, &keys[..n], "zz");
    misses(&doc, &keys[..n], "abd");
    vp::reached("end");
}
pub fn h_c09_order_0() {
    order(0, 4, false);
}
pub fn h_c09_order_4() {
    order(4, 4, false);
}
pub fn h_c09_order_8() {
    order(8, 4, false);
}
pub fn h_c09_order_shared_0() {
    order(0, 4, true);
}
pub fn h_c09_order_shared_4() {
    order(3, 4, true);
}
pub fn h_c09_order_shared_8() {
    order(7, 4, true);
}
pub fn h_c09_t_order() {
    order(2, 6, false);
}
pub fn h_c09_t_order_shared() {
    order(2, 6, true);
}
/// All of them, forwards and backwards
fn every(shared: bool) {
    let mut keys = KEYS;
    let doc = write(&keys, shared);
    finds(&doc, &keys);
    keys.reverse();
    let doc = write(&keys, shared);
    finds(&doc, &keys);
    misses(&doc, &keys, "zz");
    misses(&doc, &keys, "ac");
    misses(&doc, &keys, "A");
    vp::reached("end");
}
pub fn h_c09_every() {
    every(false);
}
pub fn h_c09_every_shared() {
    every(true);
}

fn name(i: usize, buf: &mut String) {
    buf.clear();
    buf.push('k');
    let mut d = 1000;
    while d > 0 {
        buf.push((b'0' + (i / d % 10) as u8) as char);
        d /= 10;
    }
}
/// `n` keys, in an order of their own
fn many(n: usize, step: usize, shared: bool) {
    let mut e = Encoder::new();
    if shared {
        e.set_shared_keys(SharedKeys::new());
    }
    let mut s = String::new();
    let _ = e.begin_dict();
    let mut i = 0;
    while i < n {
        let k = i * step % n;
        name(k, &mut s);
        vp::check(e.write_key(&s).is_ok(), "a key is accepted");
        vp::check(e.write_value(k as i64).is_ok(), "a value is accepted");
        i += 1;
    }
    let _ = e.end_dict();
    let doc = if shared { Doc::Scope(e.finish_scoped()) } else { Doc::Bytes(e.finish()) };
    doc.with(|d| {
        vp::check(d.len() == n, "a dict has as many entries as were written");
        let mut i = 0;
        while i < n {
            name(i, &mut s);
            let v = match doc.keys() {
                Some(k) => d.get_with_shared_keys(s.as_str(), k),
                None => d.get(s.as_str()),
            };
            vp::check(v.is_some_and(|v| v.to_int() == i as i64), "a key which was written is found, with its value");
            i += 1;
        }
        name(n, &mut s);
        vp::check(d.get(s.as_str()).is_none(), "a key which was not written is not found");
        vp::check(d.get("k").is_none() && d.get("k00000").is_none(), "a key which was not written is not found");
        let mut seen = 0;
        for (_, v) in d {
            seen += v.to_int() as usize + 1;
        }
        vp::check(seen == n * (n + 1) / 2, "iteration gives each entry once");
    });
    vp::reached("end");
}
pub fn h_c09_many_100() {
    many(100, 37, false);
}
pub fn h_c09_many_1000() {
    many(1000, 997, false);
}
pub fn h_c09_many_shared() {
    many(300, 7, true);
}
/// More keys than can be shared
pub fn h_c09_many_more() {
    many(2100, 11, true);
}

/// Shared keys which were there before, with other numbers than the order of this dict
pub fn h_c09_shared_before() {
    let mut k = SharedKeys::new();
    let before = ["zz", "yy", "mm", "aa", "q1"];
    let mut i = 0;
    while i < before.len() {
        let _ = k.encode_and_insert(before[i]);
        i += 1;
    }
    let mut e = Encoder::new();
    e.set_shared_keys(k);
    let _ = e.begin_dict();
    let keys = ["aa", "bb", "not shared!", "mm", "x", "zz"];
    let mut i = 0;
    while i < keys.len() {
        vp::check(e.write_key(keys[i]).is_ok(), "a key is accepted");
        vp::check(e.write_value(value(i)).is_ok(), "a value is accepted");
        i += 1;
    }
    let _ = e.end_dict();
    let doc = Doc::Scope(e.finish_scoped());
    finds(&doc, &keys);
    misses(&doc, &keys, "yy");
    misses(&doc, &keys, "q1");
    misses(&doc, &keys, "cc");
    misses(&doc, &keys, "y");
    vp::reached("end");
}
/// A dict within another one, which shares its keys
fn inner(shared: bool) {
    let mut e = Encoder::new();
    if shared {
        e.set_shared_keys(SharedKeys::new());
    }
    let x = vp::any_u8();
    let _ = e.begin_dict();
    let _ = e.write_key("other");
    let _ = e.begin_dict();
    let _ = e.write_key("outer");
    let _ = e.write_value(x);
    let _ = e.write_key("third");
    let _ = e.write_value(3);
    let _ = e.end_dict();
    let _ = e.write_key("outer");
    let _ = e.begin_dict();
    let _ = e.write_key("other");
    let _ = e.write_value(4);
    let _ = e.end_dict();
    let _ = e.end_dict();
    let doc = if shared { Doc::Scope(e.finish_scoped()) } else { Doc::Bytes(e.finish()) };
    doc.with(|d| {
        let get = |k: &str, l: &str| d.get(k).and_then(Value::as_dict).and_then(|d| d.get(l)).map(Value::to_int);
        vp::check(get("other", "outer") == Some(i64::from(x)), "a key of an inner dict");
        vp::check(get("other", "third") == Some(3), "a key of an inner dict");
        vp::check(get("outer", "other") == Some(4), "a key of an inner dict");
        vp::check(get("outer", "third").is_none(), "a key of another inner dict");
        vp::check(get("other", "other").is_none(), "a key of another dict");
        vp::check(d.get("third").is_none(), "a key of an inner dict is none of the outer one");
    });
    vp::reached("end");
}
pub fn h_c09_inner() {
    inner(false);
}
pub fn h_c09_inner_shared() {
    inner(true);
}
/// Two long keys
fn long(n: usize, m: usize) {
    let (s, t) = (vp::any_str(), vp::any_str());
    vp::assume(s.len() == n && t.len() == m);
    vp::assume(!same(s, t));
    let doc = write(&[s, t], false);
    finds(&doc, &[s, t]);
    misses(&doc, &[s, t], "kkk");
    vp::reached("end");
}
pub fn h_c09_long_20_20() {
    long(20, 20);
}
pub fn h_c09_long_20_21() {
    long(20, 21);
}
pub fn h_c09_long_300_15() {
    long(300, 15);
}
pub fn h_c09_long_14_40000() {
    long(14, 40_000);
}
