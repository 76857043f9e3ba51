//! C16: iterators, lengths and indices
use crate::common::*;
use crate::vp;

use fleece::{Array, Dict, Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value, ValueType};

/// At every step: the announced length, the item, and the index
fn steps(a: &Array) {
    let n = a.len();
    vp::check(a.is_empty() == (n == 0), "is_empty");
    let mut it = a.iter();
    let mut i = 0;
    loop {
        vp::check(it.len() == n - i, "the iterator of an array announces how many elements are left");
        vp::check(it.size_hint() == (n - i, Some(n - i)), "the bounds of the iterator of an array are exact");
        match (it.next(), a.get(i)) {
            (Some(x), Some(y)) => {
                vp::check(i < n, "the iterator of an array yields no more elements than announced");
                vp::check(core::ptr::eq(x, y), "the iterator of an array and its indices lead to the same elements");
            }
            (None, None) => {
                vp::check(i == n, "the iterator of an array yields as many elements as announced");
                break;
            }
            _ => {
                vp::check(false, "the iterator of an array ends where its indices end");
                return;
            }
        }
        i += 1;
    }
    vp::check(it.next().is_none(), "the iterator of an array yields nothing after its end");
    vp::check(it.len() == 0 && it.size_hint() == (0, Some(0)), "nothing is announced after the end of an array");
    vp::check(it.next().is_none(), "the iterator of an array yields nothing after its end");
    let far = vp::any_usize();
    vp::assume(far >= n);
    vp::check(a.get(far).is_none(), "an index at or beyond the length of an array gives nothing");
    vp::reached("array");
}

fn dict_steps(d: &Dict, decodable: bool) {
    let n = d.len();
    vp::check(d.is_empty() == (n == 0), "is_empty");
    vp::check(d.first().is_some() == (n > 0), "the first entry is there unless the dict is empty");
    let mut it = d.iter();
    let mut hints = [(0usize, Some(0usize)); 12];
    let mut i = 0;
    loop {
        hints[i] = it.size_hint();
        match it.next() {
            Some((k, x)) => {
                vp::check(i < n, "the iterator of a dict yields no more entries than its length");
                if decodable {
                    match d.get(k) {
                        Some(y) => vp::check(core::ptr::eq(x, y), "iteration and lookup lead to the same entry"),
                        None => vp::check(false, "the keys of a dict are found in it"),
                    }
                }
                if i == 0 {
                    match d.first() {
                        Some((_, y)) => vp::check(core::ptr::eq(x, y), "the first entry is what iteration begins with"),
                        None => vp::check(false, "the first entry is there"),
                    }
                }
            }
            None => break,
        }
        i += 1;
    }
    if decodable {
        vp::check(i == n, "the iterator of a dict yields as many entries as its length");
    }
    let mut j = 0;
    while j <= i {
        let (lo, hi) = hints[j];
        vp::check(lo <= i - j, "the lower bound of the iterator of a dict is right");
        if let Some(hi) = hi {
            vp::check(hi >= i - j, "the upper bound of the iterator of a dict is right");
        }
        j += 1;
    }
    vp::check(it.next().is_none(), "the iterator of a dict yields nothing after its end");
    vp::check(it.size_hint().0 == 0, "nothing is announced after the end of a dict");
    vp::reached("dict");
}

/// Whatever skips elements ends where single steps do
fn strides<T, I: Iterator<Item = T>>(mk: impl Fn() -> I, at: impl Fn(&T) -> *const u8) {
    let mut k = 0;
    while k < 4 {
        let mut it = mk();
        let mut slow = mk();
        loop {
            let mut want = slow.next();
            let mut j = 0;
            while j < k && want.is_some() {
                want = slow.next();
                j += 1;
            }
            match (it.nth(k), want) {
                (Some(x), Some(y)) => {
                    vp::check(core::ptr::addr_eq(at(&x), at(&y)), "skipping leads to what single steps lead to");
                    let (lo, hi) = it.size_hint();
                    vp::check(hi.is_none() || hi >= Some(lo), "the bounds are in order");
                }
                (None, None) => break,
                _ => {
                    vp::check(false, "skipping ends where single steps end");
                    return;
                }
            }
        }
        vp::check(it.next().is_none(), "nothing follows when skipping has reached the end");
        k += 1;
    }
    let mut slow = mk();
    let mut n = 0;
    let mut last = None;
    while let Some(x) = slow.next() {
        last = Some(x);
        n += 1;
    }
    vp::check(mk().count() == n, "the number of steps");
    match (mk().last(), last) {
        (Some(x), Some(y)) => vp::check(core::ptr::addr_eq(at(&x), at(&y)), "the last step"),
        (None, None) => {}
        _ => vp::check(false, "the last step"),
    }
    let mut m = 0;
    for _ in mk() {
        m += 1;
    }
    vp::check(m == n, "a loop takes every step");
    vp::check(mk().fold(0, |k, _| k + 1) == n, "a fold takes every step");
    vp::reached("strides");
}
fn array_strides(n: usize, wide: bool) {
    let d = doc(n, wide);
    match Array::from_bytes(&d) {
        Ok(a) => {
            strides(|| a.iter(), |x| core::ptr::from_ref::<Value>(*x).cast());
            // What is announced after elements were skipped
            let mut k = 0;
            while k <= n + 1 {
                let mut it = a.iter();
                match (it.nth(k), a.get(k)) {
                    (Some(x), Some(y)) => {
                        vp::check(core::ptr::eq(x, y), "skipping leads to the element of that index");
                        vp::check(it.len() == n - k - 1, "what is announced after elements were skipped");
                    }
                    (None, None) => vp::check(it.len() == 0, "nothing is announced when everything was skipped"),
                    _ => vp::check(false, "skipping leads to the element of that index"),
                }
                k += 1;
            }
        }
        Err(_) => vp::check(false, "the array is read"),
    }
}
pub fn h_c16_strides() {
    let mut n = 0;
    while n <= 7 {
        array_strides(n, n % 2 == 1);
        n += 1;
    }
}
pub fn h_c16_strides_dict() {
    let mut n = 0;
    while n <= 8 {
        let d = dict(n);
        match Dict::from_bytes(&d) {
            Ok(d) => strides(|| d.iter(), |x| core::ptr::from_ref::<Value>(x.1).cast()),
            Err(_) => vp::check(false, "the dict is read"),
        }
        n += 3;
    }
}
pub fn h_c16_strides_shared() {
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    let _ = e.begin_dict();
    let mut i = 0;
    while i < 7 {
        let _ = e.write_key(KEYS[i]);
        let _ = e.write_value(vp::any_u8());
        i += 1;
    }
    let _ = e.end_dict();
    let s = e.finish_scoped();
    match s.root() {
        Some(r) => match r.as_dict() {
            Some(d) => strides(|| d.iter(), |x| core::ptr::from_ref::<Value>(x.1).cast()),
            None => vp::check(false, "the dict is read"),
        },
        None => vp::check(false, "the dict is read"),
    }
}
pub fn h_c16_strides_mutable() {
    let mut n = 0;
    while n <= 7 {
        let mut m = MutableArray::new();
        let mut d = MutableDict::new();
        let mut i = 0;
        while i < n {
            let x = vp::any_u8();
            m.push(&x);
            d.insert(KEYS[i], &x);
            i += 1;
        }
        let none = core::ptr::null::<u8>();
        strides(|| m.iter(), |x| x.value().map_or(none, |v| core::ptr::from_ref::<Value>(v).cast()));
        strides(|| d.iter(), |x| x.1.value().map_or(none, |v| core::ptr::from_ref::<Value>(v).cast()));
        n += 3;
    }
}

fn bytes<const N: usize>() {
    let b = arbitrary::<N>();
    if let Ok(v) = Value::from_bytes(&b) {
        if let Some(a) = v.as_array() {
            steps(a);
        }
    }
}
pub fn h_c16_bytes_4() {
    bytes::<4>();
}
pub fn h_c16_bytes_6() {
    bytes::<6>();
}
pub fn h_c16_bytes_8() {
    bytes::<8>();
}
pub fn h_c16_t_bytes_10() {
    bytes::<10>();
}
/// Wide arrays, with pointers in them
pub fn h_c16_wide() {
    let mut b = arbitrary::<12>();
    b[0] = 0x68;
    b[1] = 2;
    b[10] = 0x80;
    b[11] = 0x05;
    let b: &[u8] = &b;
    if let Ok(v) = Value::from_bytes(b) {
        if let Some(a) = v.as_array() {
            steps(a);
        }
    }
}
fn dict_bytes<const N: usize>() {
    let b = arbitrary::<N>();
    if let Ok(v) = Value::from_bytes(&b) {
        if let Some(d) = v.as_dict() {
            dict_steps(d, false);
        }
    }
}
pub fn h_c16_dict_bytes_6() {
    dict_bytes::<6>();
}
pub fn h_c16_dict_bytes_8() {
    dict_bytes::<8>();
}
pub fn h_c16_t_dict_bytes_10() {
    dict_bytes::<10>();
}

fn doc(n: usize, wide: bool) -> Vec<u8> {
    let mut e = Encoder::new();
    let _ = e.begin_array(n);
    let mut i = 0;
    while i < n {
        if i % 3 == 0 && wide {
            let _ = e.write_value((1u32 << 24) + i as u32);
        } else {
            let _ = if i == n / 2 { e.write_value(vp::any_u8()) } else { e.write_value(i as u8) };
        }
        i += 1;
    }
    let _ = e.end_array();
    e.finish()
}
fn many(n: usize, wide: bool) {
    let d = doc(n, wide);
    match Array::from_bytes(&d) {
        Ok(a) => {
            vp::check(a.len() == n, "the length");
            steps(a);
        }
        Err(_) => vp::check(false, "the array is read"),
    }
}
pub fn h_c16_many() {
    many(40, true);
}
pub fn h_c16_2047() {
    many(2047, false);
}
pub fn h_c16_2046() {
    many(2046, false);
}
pub fn h_c16_empty() {
    steps(Array::empty());
    dict_steps(Dict::empty(), true);
    many(0, false);
}

const KEYS: [&str; 8] = ["x", "cat", "a", "wasp and a few more", "", "b2", "bee", "z"];
fn dict(n: usize) -> Vec<u8> {
    let mut e = Encoder::new();
    let _ = e.begin_dict();
    let mut i = 0;
    while i < n {
        let v = vp::any_u8();
        let _ = e.write_key(KEYS[i]);
        let _ = e.write_value(v);
        i += 1;
    }
    let _ = e.end_dict();
    e.finish()
}
pub fn h_c16_dict() {
    let mut n = 0;
    while n <= 8 {
        let d = dict(n);
        match Dict::from_bytes(&d) {
            Ok(d) => {
                vp::check(d.len() == n, "the length");
                dict_steps(d, true);
            }
            Err(_) => vp::check(false, "the dict is read"),
        }
        n += 1;
    }
}
pub fn h_c16_dict_shared() {
    let mut n = 0;
    while n <= 8 {
        let mut e = Encoder::new();
        e.set_shared_keys(SharedKeys::new());
        let _ = e.begin_dict();
        let mut i = 0;
        while i < n {
            let _ = e.write_key(KEYS[i]);
            let _ = e.write_value(vp::any_u8());
            i += 1;
        }
        let _ = e.end_dict();
        let s = e.finish_scoped();
        match s.root() {
            Some(r) => match r.as_dict() {
                Some(d) => {
                    vp::check(d.len() == n, "the length");
                    dict_steps(d, true);
                }
                None => vp::check(false, "the dict is read"),
            },
            None => vp::check(false, "the dict is read"),
        }
        n += 1;
    }
}

fn mutable_steps(m: &MutableArray) {
    let n = m.len();
    vp::check(m.is_empty() == (n == 0), "is_empty of a mutable array");
    let mut it = m.iter();
    let mut i = 0;
    loop {
        vp::check(it.size_hint() == (n - i, Some(n - i)), "the bounds of the iterator of a mutable array are exact");
        match it.next() {
            Some(x) => {
                vp::check(i < n, "the iterator of a mutable array yields no more elements than announced");
                match (x.value(), m.get(i)) {
                    (Some(x), Some(y)) => {
                        vp::check(core::ptr::eq(x, y), "iteration and indices of a mutable array agree")
                    }
                    (None, None) => {}
                    _ => vp::check(false, "iteration and indices of a mutable array agree"),
                }
                match (x.array(), m.get_array(i)) {
                    (Some(x), Some(y)) => {
                        vp::check(core::ptr::eq(x, y), "iteration and indices of a mutable array agree")
                    }
                    (None, None) => {}
                    _ => vp::check(false, "iteration and indices of a mutable array agree"),
                }
                match (x.dict(), m.get_dict(i)) {
                    (Some(x), Some(y)) => {
                        vp::check(core::ptr::eq(x, y), "iteration and indices of a mutable array agree")
                    }
                    (None, None) => {}
                    _ => vp::check(false, "iteration and indices of a mutable array agree"),
                }
                let kinds = u8::from(x.is_value()) + u8::from(x.is_array()) + u8::from(x.is_dict());
                vp::check(kinds == 1, "an element of a mutable array has one kind");
                vp::check(x.is_value() == x.value().is_some(), "a value is one");
                vp::check(x.is_array() == x.array().is_some(), "an array is one");
                vp::check(x.is_dict() == x.dict().is_some(), "a dict is one");
            }
            None => {
                vp::check(i == n, "the iterator of a mutable array yields as many elements as announced");
                break;
            }
        }
        i += 1;
    }
    vp::check(it.next().is_none(), "the iterator of a mutable array yields nothing after its end");
    vp::check(it.size_hint() == (0, Some(0)), "nothing is announced after the end of a mutable array");
    vp::check(it.next().is_none(), "the iterator of a mutable array yields nothing after its end");
    vp::check(it.size_hint() == (0, Some(0)), "nothing is announced after the end of a mutable array");
    let far = vp::any_usize();
    vp::assume(far >= n);
    vp::check(m.get(far).is_none(), "an index at or beyond the length of a mutable array gives nothing");
    vp::check(m.get_array(far).is_none(), "an index at or beyond the length of a mutable array gives nothing");
    vp::check(m.get_dict(far).is_none(), "an index at or beyond the length of a mutable array gives nothing");
    vp::reached("mutable array");
}
pub fn h_c16_mutable_array() {
    let mut n = 0;
    while n <= 6 {
        let mut m = MutableArray::new();
        let mut i = 0;
        while i < n {
            if i == 2 {
                let x: i32 = 1;
                m.push(&x);
                m.set_array(i, MutableArray::new());
            } else if i == 4 {
                let x: i32 = 1;
                m.push(&x);
                m.set_dict(i, MutableDict::new());
            } else {
                let x = vp::any_u8();
                m.push(&x);
            }
            i += 1;
        }
        vp::check(m.len() == n, "the length");
        mutable_steps(&m);
        let k = n / 2;
        if k < n {
            m.remove(k);
            vp::check(m.len() == n - 1, "the length");
            mutable_steps(&m);
        }
        m.remove(n + 3);
        mutable_steps(&m);
        n += 1;
    }
}
/// More elements than one byte or two can count
fn mutable_many(n: usize) {
    let mut m = MutableArray::new();
    let x = vp::any_u8();
    let mut i = 0;
    while i < n {
        m.push(&x);
        i += 1;
    }
    vp::check(m.len() == n, "the length");
    mutable_steps(&m);
}
pub fn h_c16_mutable_many() {
    mutable_many(300);
}
pub fn h_c16_mutable_mega() {
    mutable_many(65600);
}
/// A string which does not fit in place
pub fn h_c16_mutable_string() {
    let mut m = MutableArray::new();
    let s = "wasp and a few more";
    m.push(s);
    m.push(s);
    mutable_steps(&m);
}

fn mutable_dict_steps(m: &MutableDict) {
    let n = m.len();
    vp::check(m.is_empty() == (n == 0), "is_empty of a mutable dict");
    let mut it = m.iter();
    let mut i = 0;
    loop {
        let (lo, hi) = it.size_hint();
        vp::check(lo <= n - i, "the lower bound of the iterator of a mutable dict is right");
        if let Some(hi) = hi {
            vp::check(hi >= n - i, "the upper bound of the iterator of a mutable dict is right");
        }
        match it.next() {
            Some((k, x)) => {
                vp::check(i < n, "the iterator of a mutable dict yields no more entries than its length");
                vp::check(m.contains_key(k), "the keys of a mutable dict are found in it");
                match (x.value(), m.get(k)) {
                    (Some(x), Some(y)) => {
                        vp::check(core::ptr::eq(x, y), "iteration and lookup of a mutable dict agree")
                    }
                    (None, None) => {}
                    _ => vp::check(false, "iteration and lookup of a mutable dict agree"),
                }
                match (x.array(), m.get_array(k)) {
                    (Some(x), Some(y)) => {
                        vp::check(core::ptr::eq(x, y), "iteration and lookup of a mutable dict agree")
                    }
                    (None, None) => {}
                    _ => vp::check(false, "iteration and lookup of a mutable dict agree"),
                }
                match (x.dict(), m.get_dict(k)) {
                    (Some(x), Some(y)) => {
                        vp::check(core::ptr::eq(x, y), "iteration and lookup of a mutable dict agree")
                    }
                    (None, None) => {}
                    _ => vp::check(false, "iteration and lookup of a mutable dict agree"),
                }
                let kinds = u8::from(x.is_value()) + u8::from(x.is_array()) + u8::from(x.is_dict());
                vp::check(kinds == 1, "an entry of a mutable dict has one kind");
            }
            None => {
                vp::check(i == n, "the iterator of a mutable dict yields as many entries as its length");
                break;
            }
        }
        i += 1;
    }
    vp::check(it.next().is_none(), "the iterator of a mutable dict yields nothing after its end");
    vp::check(it.size_hint().0 == 0, "nothing is announced after the end of a mutable dict");
    vp::reached("mutable dict");
}
fn mutable_dict(mut m: MutableDict, n: usize) {
    let mut i = 0;
    while i < n {
        if i == 2 {
            m.insert_array(KEYS[i], MutableArray::new());
        } else if i == 4 {
            m.insert_dict(KEYS[i], MutableDict::new());
        } else {
            m.insert(KEYS[i], vp::any_u8());
        }
        i += 1;
    }
    vp::check(m.len() == n, "the length");
    mutable_dict_steps(&m);
    m.remove("nothing");
    if n > 0 {
        m.remove(KEYS[n / 2]);
        vp::check(m.len() == n - 1, "the length");
    }
    mutable_dict_steps(&m);
}
pub fn h_c16_mutable_dict() {
    let mut n = 0;
    while n <= 6 {
        mutable_dict(MutableDict::new(), n);
        n += 1;
    }
}
/// More than one node of the tree
pub fn h_c16_mutable_dict_many() {
    let mut m = MutableDict::new();
    let letters = "abcdefghijklmnopqrstuvwxyz";
    let mut i = 0;
    while i < 26 {
        let j = i * 7 % 26;
        m.insert(&letters[j..j + 1], i as i64);
        i += 1;
    }
    vp::check(m.len() == 26, "the length");
    mutable_dict_steps(&m);
}
pub fn h_c16_mutable_dict_300() {
    let mut m = MutableDict::new();
    let letters = "abcdefghijklmnopqrstuvwxyz";
    let mut i = 0;
    while i < 300 {
        let (j, k) = (i * 7 % 26, i * 7 / 26 % 26);
        let mut s = String::from(&letters[j..j + 1]);
        s.push_str(&letters[k..k + 1]);
        m.insert(&s, i as i64);
        i += 1;
    }
    vp::check(m.len() == 300, "the length");
    mutable_dict_steps(&m);
}
pub fn h_c16_mutable_dict_shared() {
    let mut sk = SharedKeys::new();
    let mut i = 0;
    while i < 8 {
        let _ = sk.encode_and_insert(KEYS[i]);
        i += 2;
    }
    let sk = std::sync::Arc::new(sk);
    let mut n = 0;
    while n <= 6 {
        mutable_dict(MutableDict::new_with_shared_keys(sk.clone()), n);
        n += 1;
    }
}
pub fn h_c16_shared_keys() {
    let mut sk = SharedKeys::new();
    let mut n: u16 = 0;
    while n < 8 {
        let mut i: u16 = 0;
        let mut it = sk.iter();
        loop {
            let (lo, hi) = it.size_hint();
            vp::check(lo <= usize::from(n - i), "the lower bound of the iterator of shared keys is right");
            if let Some(hi) = hi {
                vp::check(hi >= usize::from(n - i), "the upper bound of the iterator of shared keys is right");
            }
            match it.next() {
                Some((k, v)) => {
                    vp::check(i < n, "the iterator of shared keys yields no more than there are");
                    vp::check(sk.encode(k) == Some(v), "the iterator of shared keys yields each with its number");
                }
                None => break,
            }
            i += 1;
        }
        vp::check(i == n && sk.len() == n, "the iterator of shared keys yields all");
        vp::check(it.next().is_none(), "the iterator of shared keys yields nothing after its end");
        vp::check(sk.decode(n).is_none(), "there is no key beyond the length");
        let names = ["x", "cat", "a", "", "b2", "bee", "z", "y-y"];
        let _ = sk.encode_and_insert(names[n as usize]);
        n += 1;
    }
    vp::reached("shared keys");
}

// Documents of any length up to 2^28
fn opened(b: &[u8]) {
    if let Ok(v) = Value::from_bytes(b) {
        if let Some(a) = v.as_array() {
            steps(a);
        } else if let Some(d) = v.as_dict() {
            dict_steps(d, false);
        }
    }
}
pub fn h_c16_any_array_0() {
    any_collection(false, false, 0, opened);
}
pub fn h_c16_any_array_1() {
    any_collection(false, false, 1, opened);
}
pub fn h_c16_any_array_3() {
    any_collection(false, false, 3, opened);
}
pub fn h_c16_any_wide() {
    any_collection(false, true, 2, opened);
}
pub fn h_c16_any_dict() {
    any_collection(true, false, 1, opened);
}
pub fn h_c16_any_wide_dict() {
    any_collection(true, true, 1, opened);
}
