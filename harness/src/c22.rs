//! C22: what an encodable value says of itself is what it writes, into any buffer
use crate::vp;
use core::num::NonZeroUsize;
use fleece::encoder::{Encodable, NullValue, UndefinedValue};

const ROOM: usize = 12;

fn contract<T: Encodable + ?Sized>(v: &T) {
    let wide = vp::any_bool();
    let size = v.fleece_size();
    vp::check(size >= 2 && size <= ROOM, "the size of a scalar");
    // What fits in a slot takes all of a wide one
    let need = if wide && size == 2 { 4 } else { size };
    let len = vp::any_usize();
    vp::assume(len <= ROOM);
    let mut buf = [0xEEu8; ROOM];
    let written = v.write_fleece_to(&mut buf[..len], wide);
    match written {
        Some(n) => {
            vp::check(n.get() == need, "the number of bytes written is what the value needs");
            vp::check(len >= need, "nothing is written where there is no room");
            let mut i = need;
            while i < ROOM {
                vp::check(buf[i] == 0xEE, "nothing is written behind the value");
                i += 1;
            }
        }
        None => vp::check(len < need, "a value is written where there is room for it"),
    }
    let s = v.to_sized_value();
    vp::check(s.is_some() == (size == 2), "exactly the values of two bytes fit in a slot");
    if let Some(s) = s {
        vp::check(s.fleece_size() == 2, "a value which fits in a slot has the size of the slot");
        let mut other = [0xEEu8; ROOM];
        let w = s.write_fleece_to(&mut other[..len], wide);
        vp::check(w == written, "the slot takes as much as the value");
        if written.is_some() {
            let mut i = 0;
            while i < 4 {
                vp::check(other[i] == buf[i], "the slot has the bytes of the value");
                i += 1;
            }
        }
        match s.to_sized_value() {
            Some(t) => vp::check(t.fleece_size() == 2, "a slot fits in a slot"),
            None => vp::check(false, "a slot fits in a slot"),
        }
    }
}
macro_rules! scalar {
    ($($n:ident $e:expr;)*) => { $( pub fn $n() { contract(&$e); } )* };
}
scalar! {
    h_c22_u8 vp::any_u8(); h_c22_u16 vp::any_u16(); h_c22_u32 vp::any_u32(); h_c22_u64 vp::any_u64(); h_c22_usize vp::any_usize();
    h_c22_i8 vp::any_i8(); h_c22_i16 vp::any_i16(); h_c22_i32 vp::any_i32(); h_c22_i64 vp::any_i64(); h_c22_isize vp::any_isize();
    h_c22_bool vp::any_bool(); h_c22_null NullValue; h_c22_undefined UndefinedValue;
    h_c22_ref &&vp::any_i32();
    h_c22_option if vp::any_bool() { Some(vp::any_i64()) } else { None };
    h_c22_option_option if vp::any_bool() { Some(if vp::any_bool() { Some(vp::any_u16()) } else { None }) } else { None };
}
fn float<T: Encodable>(v: T, size: usize) {
    vp::check(v.fleece_size() == size && v.to_sized_value().is_none(), "the size of a float");
    let len = vp::any_usize();
    vp::assume(len <= ROOM);
    let mut buf = [0xEEu8; ROOM];
    match v.write_fleece_to(&mut buf[..len], vp::any_bool()) {
        Some(n) => {
            vp::check(n.get() == size && len >= size, "a float is written where there is room");
            let mut i = size;
            while i < ROOM {
                vp::check(buf[i] == 0xEE, "nothing is written behind the value");
                i += 1;
            }
        }
        None => vp::check(len < size, "a float is written where there is room"),
    }
}
pub fn h_c22_f32() {
    float(vp::any_f32(), 6);
}
pub fn h_c22_f64() {
    float(vp::any_f64(), 10);
}

/// A string of `n` bytes, in a buffer of any size
fn bytes<T: Encodable + ?Sized>(v: &T, n: usize, header: usize) {
    let size = v.fleece_size();
    vp::check(size == if n < 2 { 2 } else { header + n }, "the size of text and data");
    if n < 2 {
        return contract(v);
    }
    vp::check(v.to_sized_value().is_none(), "exactly the values of two bytes fit in a slot");
    let room = size + 2;
    let mut buf = vec![0xEEu8; room];
    let len = vp::any_usize();
    vp::assume(len <= room);
    match v.write_fleece_to(&mut buf[..len], vp::any_bool()) {
        Some(k) => {
            vp::check(k.get() == size && len >= size, "text is written where there is room");
            vp::check(buf[size] == 0xEE && buf[size + 1] == 0xEE, "nothing is written behind the value");
        }
        None => vp::check(len < size, "text is written where there is room"),
    }
}
macro_rules! sizes {
    ($($s:ident $d:ident $n:literal $h:literal;)*) => { $(
        pub fn $s() {
            let s = vp::any_str();
            vp::assume(s.len() == $n);
            bytes(s, $n, $h);
            bytes(&Some(s), $n, $h);
        }
        pub fn $d() {
            let s = vp::any_bytes();
            vp::assume(s.len() == $n);
            bytes(s, $n, $h);
        }
    )* };
}
sizes! {
    h_c22_str_0 h_c22_data_0 0 1; h_c22_str_1 h_c22_data_1 1 1; h_c22_str_2 h_c22_data_2 2 1; h_c22_str_3 h_c22_data_3 3 1;
    h_c22_str_13 h_c22_data_13 13 1; h_c22_str_14 h_c22_data_14 14 1; h_c22_str_15 h_c22_data_15 15 2; h_c22_str_16 h_c22_data_16 16 2;
    h_c22_str_127 h_c22_data_127 127 2; h_c22_str_128 h_c22_data_128 128 3; h_c22_str_16383 h_c22_data_16383 16383 3;
    h_c22_str_16384 h_c22_data_16384 16384 4; h_c22_str_2097151 h_c22_data_2097151 2097151 4; h_c22_str_2097152 h_c22_data_2097152 2097152 5;
}
/// Of any length, where there is exactly enough room or one byte less
pub fn h_c22_str_any() {
    let s = vp::any_str();
    vp::assume(s.len() > 1 && s.len() < 1 << 30);
    let size = s.fleece_size();
    let n = s.len();
    let h = if n < 15 { 1 } else if n < 1 << 7 { 2 } else if n < 1 << 14 { 3 } else if n < 1 << 21 { 4 } else if n < 1 << 28 { 5 } else { 6 };
    vp::check(size == n + h, "the size of text");
    let short = vp::any_bool();
    let mut buf = vec![0u8; if short { size - 1 } else { size }];
    let w = s.write_fleece_to(&mut buf, vp::any_bool());
    vp::check(w == if short { None } else { NonZeroUsize::new(size) }, "text is written where there is room");
}
pub fn h_c22_data_any() {
    let s = vp::any_bytes();
    vp::assume(s.len() > 1 && s.len() < 1 << 30);
    let size = s.fleece_size();
    let short = vp::any_bool();
    let mut buf = vec![0u8; if short { size - 1 } else { size }];
    let w = s.write_fleece_to(&mut buf, vp::any_bool());
    vp::check(w == if short { None } else { NonZeroUsize::new(size) }, "data is written where there is room");
}
