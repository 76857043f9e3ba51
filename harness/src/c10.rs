//! C10: shared keys
use crate::vp;
use fleece::{Array, Encoder, SharedKeys, Value, ValueType};

fn text(n: usize) -> &'static str {
    let s = vp::any_str();
    vp::assume(s.len() == n);
    s
}
/// By its documentation: letters, digits, underscore and minus
fn qualifies(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if !(c >= b'a' && c <= b'z' || c >= b'A' && c <= b'Z' || c >= b'0' && c <= b'9' || c == b'_' || c == b'-') {
            return false;
        }
        i += 1;
    }
    true
}
fn ascii(s: &str) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        vp::assume(b[i] < 128);
        i += 1;
    }
}
fn same(a: &str, b: &str) -> bool {
    a.as_bytes() == b.as_bytes()
}

/// The numbers, strings and the number of entries of a set with these keys
fn holds(k: &SharedKeys, keys: &[&str]) {
    vp::check(usize::from(k.len()) == keys.len(), "the number of shared keys");
    vp::check(k.is_empty() == keys.is_empty(), "whether there are shared keys");
    let mut i = 0;
    while i < keys.len() {
        vp::check(k.encode(keys[i]) == Some(i as u16), "a shared key has the number it was given");
        match k.decode(i as u16) {
            Some(s) => vp::check(same(s, keys[i]), "a number stands for the string it was given for"),
            None => vp::check(false, "a number stands for the string it was given for"),
        }
        i += 1;
    }
    vp::check(k.decode(keys.len() as u16).is_none(), "a number which was not given stands for nothing");
    let mut i = 0;
    for (s, n) in k {
        vp::check(i < keys.len() && same(s, keys[i]) && usize::from(n) == i, "iteration gives each shared key and its number");
        i += 1;
    }
    vp::check(i == keys.len(), "iteration gives every shared key");
}

/// One key of any content
fn one(n: usize) {
    vp::collide();
    let s = text(n);
    ascii(s);
    let mut k = SharedKeys::new();
    vp::check(k.encode(s).is_none() && k.decode(0).is_none(), "an empty set has no keys");
    vp::check(k.can_add(s) == qualifies(s), "can_add tells which keys qualify");
    let r = k.encode_and_insert(s);
    vp::check(r.is_some() == qualifies(s), "exactly the keys which qualify are taken");
    if r.is_some() {
        vp::check(r == Some(0), "the first number");
        vp::check(k.encode_and_insert(s) == Some(0), "the same string has the same number");
        holds(&k, &[s]);
    } else {
        vp::check(k.encode(s).is_none(), "a key which was refused is not there");
        holds(&k, &[]);
    }
    vp::reached("end");
}
pub fn h_c10_any_0() {
    one(0);
}
pub fn h_c10_any_1() {
    one(1);
}
pub fn h_c10_any_2() {
    one(2);
}
pub fn h_c10_t_any_3() {
    one(3);
}

/// Two keys of any content
fn two(n: usize, m: usize) {
    vp::collide();
    let (s, t) = (text(n), text(m));
    ascii(s);
    ascii(t);
    vp::assume(qualifies(s));
    vp::assume(qualifies(t));
    let mut k = SharedKeys::new();
    let a = k.encode_and_insert(s);
    vp::check(k.encode(t).is_some() == same(s, t), "only a string which was inserted is there");
    let b = k.encode_and_insert(t);
    vp::check(a == Some(0) && b.is_some(), "keys which qualify are taken");
    vp::check((a == b) == same(s, t), "different strings have different numbers, and the same string the same");
    if same(s, t) {
        holds(&k, &[s]);
    } else {
        holds(&k, &[s, t]);
    }
    vp::reached("end");
}
pub fn h_c10_two_1_1() {
    two(1, 1);
}
pub fn h_c10_two_1_2() {
    two(1, 2);
}
pub fn h_c10_t_two_2_2() {
    two(2, 2);
}
/// Keys which differ at one place, up to the longest ones
pub fn h_c10_differ() {
    vp::collide();
    let n = usize::from(vp::any_u8());
    vp::assume(n >= 1 && n <= 16);
    let at = usize::from(vp::any_u8());
    vp::assume(at < n);
    let (x, y) = (text(1), text(1));
    ascii(x);
    ascii(y);
    vp::assume(qualifies(x));
    vp::assume(qualifies(y));
    let mut a = String::new();
    let mut b = String::new();
    let mut i = 0;
    while i < n {
        a.push_str(if i == at { x } else { "k" });
        b.push_str(if i == at { y } else { "k" });
        i += 1;
    }
    let mut k = SharedKeys::new();
    let p = k.encode_and_insert(&a);
    let q = k.encode_and_insert(&b);
    vp::check(p == Some(0) && q.is_some(), "keys which qualify are taken");
    vp::check((p == q) == same(x, y), "different strings have different numbers, and the same string the same");
    vp::check(k.decode(0).is_some_and(|s| same(s, &a)), "a number stands for the string it was given for");
    if let Some(q) = q {
        vp::check(k.decode(q).is_some_and(|s| same(s, &b)), "a number stands for the string it was given for");
    }
    vp::reached("end");
}
/// A key of each length, of which one byte is any one
pub fn h_c10_length() {
    vp::collide();
    let n = usize::from(vp::any_u8());
    vp::assume(n >= 1 && n <= 20);
    let at = usize::from(vp::any_u8());
    vp::assume(at < n);
    let x = text(1);
    let mut a = String::new();
    let mut i = 0;
    while i < n {
        a.push_str(if i == at { x } else { "k" });
        i += 1;
    }
    let want = n <= 16 && qualifies(x);
    let mut k = SharedKeys::new();
    vp::check(k.can_add(&a) == want, "can_add tells which keys qualify");
    vp::check(k.encode_and_insert(&a).is_some() == want, "exactly the keys which qualify are taken");
    vp::check(k.encode(&a).is_some() == want, "exactly the keys which qualify are there");
    vp::check(k.len() == u16::from(want), "the number of shared keys");
    // one which only a shorter or longer one agrees with
    let mut b = String::from(&a[..n - 1]);
    vp::check(k.encode(&b).is_none(), "a string which is the beginning of a key is not there");
    b.push_str(&a[n - 1..]);
    b.push('k');
    vp::check(k.encode(&b).is_none(), "a string which begins with a key is not there");
    vp::reached("end");
}
/// Letters beyond ASCII are taken and given back, by their number of bytes
pub fn h_c10_letters() {
    let mut k = SharedKeys::new();
    let yes = ["\u{e9}", "stra\u{df}e", "\u{416}\u{43e}\u{43f}", "\u{4e2d}\u{6587}", "\u{661}\u{662}", "\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}"];
    let no = ["\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}", "\u{2014}", "\u{1f600}", "a b", "\u{a0}", "a.b", "a/b", "\u{20ac}"];
    let mut i = 0;
    while i < yes.len() {
        vp::check(k.encode_and_insert(yes[i]) == Some(i as u16), "letters of every script are taken");
        i += 1;
    }
    let mut i = 0;
    while i < no.len() {
        vp::check(k.encode_and_insert(no[i]).is_none(), "anything but letters is refused");
        vp::check(k.encode(no[i]).is_none(), "a key which was refused is not there");
        i += 1;
    }
    holds(&k, &yes);
    vp::reached("end");
}

// ---- Many keys
fn name(i: usize, buf: &mut String) {
    buf.clear();
    buf.push('k');
    let mut d = 1000;
    while d > 0 {
        buf.push((b'0' + (i / d % 10) as u8) as char);
        d /= 10;
    }
}
fn filled(n: usize) -> SharedKeys {
    let mut k = SharedKeys::new();
    let mut s = String::new();
    let mut i = 0;
    while i < n {
        name(i, &mut s);
        vp::check(k.encode_and_insert(&s) == Some(i as u16), "each new key has the next number");
        i += 1;
    }
    k
}
fn all(k: &SharedKeys, n: usize) {
    vp::check(usize::from(k.len()) == n, "the number of shared keys");
    let mut s = String::new();
    let mut i = 0;
    while i < n {
        name(i, &mut s);
        vp::check(k.encode(&s) == Some(i as u16), "a shared key has the number it was given");
        vp::check(k.decode(i as u16) == Some(s.as_str()), "a number stands for the string it was given for");
        i += 1;
    }
    vp::check(k.decode(n as u16).is_none() && k.decode(u16::MAX).is_none(), "a number which was not given stands for nothing");
}
pub fn h_c10_most() {
    let mut k = filled(2047);
    vp::check(k.can_add("last"), "there is room for the last key");
    vp::check(k.encode_and_insert("last") == Some(2047), "the last key is taken");
    vp::check(!k.can_add("more"), "there is no room for more");
    vp::check(k.encode_and_insert("more").is_none(), "no more keys are taken");
    vp::check(k.encode("more").is_none(), "a key which was refused is not there");
    vp::check(k.encode_and_insert("k0000") == Some(0), "the keys which are there are still found");
    vp::check(k.encode_and_insert("last") == Some(2047), "the keys which are there are still found");
    vp::check(k.decode(2047) == Some("last"), "the last number");
    vp::check(k.decode(2048).is_none(), "there is no further number");
    vp::check(k.len() == 2048, "the number of shared keys");
    vp::reached("end");
}
pub fn h_c10_many() {
    let k = filled(300);
    all(&k, 300);
    all(&k.clone(), 300);
    vp::reached("end");
}

// ---- Saving and loading
fn saved(k: &SharedKeys, n: usize) {
    let bytes = k.get_state_bytes();
    match SharedKeys::from_state_bytes(&bytes) {
        Some(l) => all(&l, n),
        None => vp::check(false, "what was saved is loaded"),
    }
}
pub fn h_c10_state_few() {
    let mut n = 0;
    while n < 6 {
        saved(&filled(n), n);
        n += 1;
    }
    vp::reached("end");
}
pub fn h_c10_state_300() {
    saved(&filled(300), 300);
    vp::reached("end");
}
pub fn h_c10_state_most() {
    saved(&filled(2048), 2048);
    vp::reached("end");
}
/// Keys of any content
fn state_any(n: usize, m: usize) {
    vp::collide();
    let (s, t) = (text(n), text(m));
    ascii(s);
    ascii(t);
    let mut k = SharedKeys::new();
    vp::assume(k.encode_and_insert(s) == Some(0));
    vp::assume(k.encode_and_insert(t) == Some(1));
    holds(&k.clone(), &[s, t]);
    let bytes = k.get_state_bytes();
    match SharedKeys::from_state_bytes(&bytes) {
        Some(l) => holds(&l, &[s, t]),
        None => vp::check(false, "what was saved is loaded"),
    }
    // and as a value among others
    let mut e = Encoder::new();
    let _ = e.begin_array(2);
    let _ = e.write_value(5);
    vp::check(k.write_state(&mut e).is_some(), "the state is written");
    let _ = e.end_array();
    let out = e.finish();
    match Array::from_bytes(&out).ok().and_then(|a| a.get(1)).and_then(SharedKeys::from_state_value) {
        Some(l) => holds(&l, &[s, t]),
        None => vp::check(false, "what was saved is loaded"),
    }
    vp::reached("end");
}
pub fn h_c10_state_any_0_1() {
    state_any(0, 1);
}
pub fn h_c10_state_any_1_1() {
    state_any(1, 1);
}
pub fn h_c10_t_state_any_2_1() {
    state_any(2, 1);
}

/// Whatever is loaded: what comes out is what the document says, or nothing
fn load<const N: usize>() {
    vp::collide();
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N {
        b[i] = vp::any_u8();
        i += 1;
    }
    let b = &b[..];
    let Ok(v) = Value::from_bytes(b) else {
        vp::check(SharedKeys::from_state_bytes(b).is_none(), "nothing is loaded from an invalid document");
        return;
    };
    let k = SharedKeys::from_state_bytes(b);
    let Some(a) = v.as_array() else {
        vp::check(k.is_none(), "nothing is loaded from anything but an array");
        return;
    };
    match k {
        Some(k) => {
            vp::check(usize::from(k.len()) == a.len(), "as many shared keys are loaded as there are");
            let mut i = 0;
            while i < a.len() {
                match a.get(i) {
                    Some(v) => {
                        vp::check(v.value_type() == ValueType::String, "only strings are loaded");
                        vp::check(k.decode(i as u16) == Some(v.to_str()), "a number stands for the string at its place");
                        vp::check(k.encode(v.to_str()) == Some(i as u16), "a string has the number of its place");
                    }
                    None => vp::check(false, "each shared key is an element"),
                }
                i += 1;
            }
        }
        None => {
            // there has to be a reason
            let mut bad = false;
            let mut i = 0;
            while i < a.len() {
                if let Some(v) = a.get(i) {
                    if v.value_type() != ValueType::String || !qualifies(v.to_str()) {
                        bad = true;
                    }
                    let mut j = 0;
                    while j < i {
                        if let Some(w) = a.get(j) {
                            if w.value_type() == ValueType::String && same(w.to_str(), v.to_str()) {
                                bad = true;
                            }
                        }
                        j += 1;
                    }
                }
                i += 1;
            }
            vp::check(bad, "what qualifies is loaded");
        }
    }
    vp::reached("end");
}
pub fn h_c10_load_4() {
    load::<4>();
}
pub fn h_c10_load_6() {
    load::<6>();
}
pub fn h_c10_load_8() {
    load::<8>();
}

/// Through an encoder
pub fn h_c10_encoder() {
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    let keys = ["aa", "bb", "not shared!", "aa", "cc_-9", "0123456789abcdef", "0123456789abcdefg"];
    let _ = e.begin_array(keys.len());
    let mut i = 0;
    while i < keys.len() {
        let _ = e.begin_dict();
        vp::check(e.write_key(keys[i]).is_ok(), "a key is accepted");
        let _ = e.write_value(i as i64);
        let _ = e.end_dict();
        i += 1;
    }
    let _ = e.end_array();
    let s = e.finish_scoped();
    match s.shared_keys() {
        Some(k) => holds(k, &["aa", "bb", "cc_-9", "0123456789abcdef"]),
        None => vp::check(false, "the shared keys are kept"),
    }
    vp::reached("end");
}
