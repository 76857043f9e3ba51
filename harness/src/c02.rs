//! C02: every accessor on every value of an accepted document
use crate::common::*;
use crate::vp;
use fleece::{Array, Value};

fn scalars(v: &Value) {
    let _ = v.value_type();
    let _ = v.to_bool();
    let _ = v.to_int();
    let _ = v.to_unsigned_int();
    let _ = v.to_short();
    let _ = v.to_unsigned_short();
    let _ = v.to_float();
    let _ = v.to_double();
    let _ = v.to_str();
    let d = v.to_data();
    // The bytes are there
    if d.len() > 0 {
        let _ = d[0];
        let _ = d[d.len() - 1];
    }
    let _ = v.required_size();
    let _ = v.is_mutable();
}

/// Every value that can be reached in `deep` steps
fn walk(v: &Value, deep: usize) {
    scalars(v);
    if let Some(a) = v.as_array() {
        let n = a.len();
        vp::check(a.get(n).is_none(), "there is nothing past the end of an array");
        let mut i = 0;
        while i < n {
            match a.get(i) {
                Some(x) => {
                    if deep > 0 {
                        walk(x, deep - 1)
                    }
                }
                None => vp::check(false, "every index below the length has an element"),
            }
            i += 1;
        }
    } else if let Some(d) = v.as_dict() {
        let _ = d.len();
        let _ = d.is_empty();
        let _ = d.get("");
        let _ = d.get("ab");
        if let Some((k, x)) = d.first() {
            scalars(k);
            if deep > 0 {
                walk(x, deep - 1);
            }
        }
    }
}

fn each(v: &Value) {
    if let Some(a) = v.as_array() {
        let mut n = 0;
        for x in a.iter() {
            let _ = x.to_int();
            n += 1;
        }
        vp::check(n == a.len(), "iteration yields as many elements as there are");
        vp::reached("array");
    }
}
fn each_entry(v: &Value) {
    if let Some(d) = v.as_dict() {
        let mut n = 0;
        for (k, x) in d.iter() {
            let _ = k.len();
            let _ = x.to_int();
            n += 1;
        }
        vp::check(n <= d.len(), "iteration yields no more entries than there are");
        vp::reached("dict");
    }
}
fn each_wide(v: &Value) {
    each(v);
    each_entry(v);
}

macro_rules! fixed {
    ($($n:ident: $l:literal, $f:expr;)*) => { $(
        pub fn $n() {
            let b = arbitrary::<$l>();
            if let Ok(v) = Value::from_bytes(&b) {
                vp::reached("accepted");
                $f(v);
            }
        }
    )* };
}
fixed!(
    h_c02_2: 2, scalars;
    h_c02_4: 4, |v| walk(v, 2);
    h_c02_6: 6, |v| walk(v, 2);
    h_c02_8: 8, |v| walk(v, 2);
    h_c02_t_10: 10, |v| walk(v, 2);
    h_c02_iter_4: 4, each;
    h_c02_iter_6: 6, each;
    h_c02_iter_8: 8, each;
    h_c02_entries_8: 8, each_entry;
    h_c02_t_entries_10: 10, each_entry;
);

fn with(b: &[u8], f: impl FnOnce(&Value)) {
    if let Ok(v) = Value::from_bytes(b) {
        vp::reached("accepted");
        f(v);
    }
}

/// A string or data with a size of any size
pub fn h_c02_size() {
    let mut b = arbitrary::<16>();
    vp::assume(b[0] & 0xEF == 0x4F);
    b[14] = 0x80;
    b[15] = 0x07;
    with(&b, scalars);
}
/// The same as the only element of an array, and behind a pointer
pub fn h_c02_size_elem() {
    let mut b = arbitrary::<6>();
    b[0] = 0x60;
    b[1] = 0x01;
    vp::assume(b[2] & 0xEF == 0x4F || b[2] >= 0x80);
    b[4] = 0x80;
    b[5] = 0x02;
    with(&b, |v| walk(v, 1));
}
pub fn h_c02_size_pointed() {
    let mut b = arbitrary::<18>();
    vp::assume(b[0] & 0xEF == 0x4F);
    b[12] = 0x60;
    b[13] = 0x01;
    b[14] = 0x80;
    b[15] = 0x07;
    b[16] = 0x80;
    b[17] = 0x02;
    with(&b, |v| walk(v, 1));
}
/// Wide slots
pub fn h_c02_wide() {
    let mut b = arbitrary::<12>();
    b[0] = 0x68;
    b[1] = 0x02;
    b[10] = 0x80;
    b[11] = 0x05;
    with(&b, |v| walk(v, 1));
}
pub fn h_c02_wide_iter() {
    let mut b = arbitrary::<12>();
    vp::assume(b[0] & 0xEF == 0x68);
    b[1] = 0x01;
    b[10] = 0x80;
    b[11] = 0x05;
    with(&b, each_wide);
}
pub fn h_c02_wide_dict() {
    let mut b = arbitrary::<14>();
    b[2] = 0x78;
    b[3] = 0x01;
    b[12] = 0x80;
    b[13] = 0x05;
    vp::assume(b[0] < 0x60 || b[0] >= 0x80);
    with(&b, |v| walk(v, 1));
}
/// A dict with two keys: the search has to choose
pub fn h_c02_dict_search() {
    let mut b = arbitrary::<12>();
    b[0] = 0x70;
    b[1] = 0x02;
    vp::assume(b[2] & 0xF0 == 0x40);
    vp::assume(b[6] & 0xF0 == 0x40);
    b[4] = 0;
    b[8] = 0;
    b[10] = 0x80;
    b[11] = 0x05;
    with(&b, |v| {
        if let Some(d) = v.as_dict() {
            let _ = d.get("");
            let _ = d.get("a");
            let _ = d.get("zz");
            let _ = d.contains_key("b");
        }
    });
}
/// Pointers to pointers
pub fn h_c02_chain() {
    let mut b = arbitrary::<10>();
    b[0] = 0x20;
    b[1] = 0x01;
    vp::assume(b[2] >= 0x80);
    vp::assume(b[6] >= 0x80);
    with(&b, |v| walk(v, 2));
}
/// Collections in collections
pub fn h_c02_nested() {
    let mut b = arbitrary::<12>();
    vp::assume(b[0] & 0xE0 == 0x60);
    b[1] = 0x01;
    vp::assume(b[4] & 0xE0 == 0x60);
    b[5] = 0x01;
    b[10] = 0x80;
    with(&b, |v| walk(v, 2));
}
/// The owned and the typed ways of opening
pub fn h_c02_typed() {
    let b = arbitrary::<4>();
    if let Ok(a) = Array::from_bytes(&b) {
        let _ = a.len();
        let _ = a.get(0).map(scalars);
        vp::reached("array");
    }
}

// Bytes of any length up to 2^28
pub fn h_c02_any_scalar() {
    any_scalar(|b| with(b, scalars))
}
macro_rules! collections {
    (true, $v:expr) => { each_entry($v) };
    (false, $v:expr) => { each($v) };
    ($($n:ident: $d:tt, $w:expr, $k:literal;)*) => { $(
        pub fn $n() {
            any_collection($d, $w, $k, |b| with(b, |v| {
                walk(v, 1);
                collections!($d, v)
            }))
        }
    )* };
}
collections!(
    h_c02_any_array_0: false, false, 0; h_c02_any_array_1: false, false, 1; h_c02_any_array_3: false, false, 3;
    h_c02_any_wide_0: false, true, 0; h_c02_any_wide_1: false, true, 1; h_c02_any_wide_2: false, true, 2;
    h_c02_any_dict_0: true, false, 0; h_c02_any_dict_1: true, false, 1; h_c02_any_dict_2: true, false, 2;
    h_c02_any_wide_dict_1: true, true, 1;
);
macro_rules! nested {
    ($($n:ident: $o:expr, $i:expr;)*) => { $(
        pub fn $n() {
            any_nested($o, $i, |b| with(b, |v| walk(v, 2)))
        }
    )* };
}
nested!(
    h_c02_any_nested: false, false; h_c02_any_nested_wide: false, true; h_c02_any_wide_nested: true, false;
    h_c02_any_wide_nested_wide: true, true;
);
/// Collections of many slots: their ends
fn ends(v: &Value, all: bool) {
    if let Some(a) = v.as_array() {
        let n = a.len();
        vp::check(a.get(n).is_none(), "there is nothing past the end of an array");
        match a.get(n - 1) {
            Some(x) => scalars(x),
            None => vp::check(false, "there is a last element"),
        }
        if all {
            match a.iter().last() {
                Some(x) => scalars(x),
                None => vp::check(false, "iteration gives the last element"),
            }
        }
    } else if let Some(d) = v.as_dict() {
        let _ = d.get("ab");
        if let Some((k, x)) = d.iter().last() {
            let _ = k.len();
            scalars(x);
        }
    }
}
macro_rules! many {
    ($($n:ident: $k:literal, $w:expr, $d:expr, $o:literal;)*) => { $(
        pub fn $n() {
            with(&many($k, $w, $d, $o), |v| ends(v, $k < 100))
        }
    )* };
}
many!(
    h_c02_many_20: 20, false, false, 100; h_c02_many_70: 70, false, false, 999; h_c02_many_300: 300, false, false, 1000;
    h_c02_many_2046: 2046, false, false, 9999; h_c02_many_2047: 2047, false, false, 9999;
    h_c02_many_wide_70: 70, true, false, 999; h_c02_many_wide_300: 300, true, false, 9999;
    h_c02_many_dict_70: 70, false, true, 999; h_c02_many_dict_300: 300, false, true, 9999;
    h_c02_many_wide_dict_100: 100, true, true, 9999;
    h_c02_many_2060: 2060, false, false, 9999; h_c02_many_5000: 5000, false, false, 9999;
    h_c02_many_wide_2100: 2100, true, false, 9999; h_c02_many_dict_1500: 1500, false, true, 9999; h_c02_t_many_15000: 15000, false, false, 99999;
);
