//! C17: every conversion of every kind of value
use crate::common::{arbitrary, in_array, in_dict};
use crate::vp;
use fleece::encoder::{NullValue, UndefinedValue};
use fleece::{Encoder, Value, ValueType};

struct Row {
    b: bool,
    short: i16,
    ushort: u16,
    int: i64,
    uint: u64,
    double: f64,
    float: f32,
}
const ZERO: Row = Row { b: true, short: 0, ushort: 0, int: 0, uint: 0, double: 0.0, float: 0.0 };

fn numbers(v: &Value, r: &Row) {
    vp::check(v.to_bool() == r.b, "to_bool");
    vp::check(v.to_short() == r.short, "to_short");
    vp::check(v.to_unsigned_short() == r.ushort, "to_unsigned_short");
    vp::check(v.to_int() == r.int, "to_int");
    vp::check(v.to_unsigned_int() == r.uint, "to_unsigned_int");
    vp::check(v.to_double().to_bits() == r.double.to_bits(), "to_double");
    vp::check(v.to_float().to_bits() == r.float.to_bits(), "to_float");
}
fn no_text(v: &Value) {
    vp::check(v.to_str().is_empty(), "nothing but a string gives a string");
    vp::check(v.to_data().is_empty(), "nothing but a string or data gives data");
}
fn no_collection(v: &Value) {
    vp::check(v.as_array().is_none(), "nothing but an array gives an array");
    vp::check(v.as_dict().is_none(), "nothing but a dict gives a dict");
}
fn is(v: &Value, kinds: &[ValueType], r: &Row) {
    let t = v.value_type();
    let mut ok = false;
    for k in kinds {
        ok |= t == *k;
    }
    vp::check(ok, "value_type");
    numbers(v, r);
    no_text(v);
    no_collection(v);
}
const TRUE: Row = Row { b: true, short: 1, ushort: 1, int: 1, uint: 1, double: 1.0, float: 1.0 };
const FALSE: Row = Row { b: false, short: 0, ushort: 0, int: 0, uint: 0, double: 0.0, float: 0.0 };
fn int(i: i64) -> Row {
    Row { b: i != 0, short: i as i16, ushort: i as u16, int: i, uint: i as u64, double: i as f64, float: i as f64 as f32 }
}

pub fn h_c17_bool() {
    let b = vp::any_bool();
    let (t, r) = if b { ([ValueType::True], TRUE) } else { ([ValueType::False], FALSE) };
    in_array(b, |v| is(v, &t, &r));
    is(Value::bool(b), &t, &r);
}
pub fn h_c17_null() {
    in_array(NullValue, |v| is(v, &[ValueType::Null], &ZERO));
    in_dict("k", NullValue, |v| is(v, &[ValueType::Null], &ZERO));
    is(Value::null(), &[ValueType::Null], &ZERO);
}
pub fn h_c17_undefined() {
    in_array(UndefinedValue, |v| is(v, &[ValueType::Undefined], &ZERO));
    in_dict("k", UndefinedValue, |v| is(v, &[ValueType::Undefined], &ZERO));
    is(Value::undefined(), &[ValueType::Undefined], &ZERO);
}
const INTS: [ValueType; 3] = [ValueType::Short, ValueType::Int, ValueType::UnsignedInt];
/// Twelve bits are stored in the slot. A negative number has no unsigned short.
pub fn h_c17_short() {
    let i = vp::any_i16();
    vp::assume(i >= -2048 && i <= 2047);
    in_array(i, |v| {
        let mut r = int(i64::from(i));
        if i < 0 {
            r.ushort = v.to_unsigned_short();
        }
        is(v, &INTS, &r)
    });
}
pub fn h_c17_int() {
    let i = vp::any_i64();
    vp::assume(i < -2048 || i > 2047);
    in_array(i, |v| is(v, &INTS, &int(i)));
}
pub fn h_c17_uint() {
    let i = vp::any_u64();
    vp::assume(i > 2047);
    in_dict("k", i, |v| {
        vp::check(v.to_unsigned_int() == i, "to_unsigned_int");
        vp::check(v.to_bool(), "to_bool");
        vp::check(v.to_short() == i as i16, "to_short");
        vp::check(v.to_unsigned_short() == i as u16, "to_unsigned_short");
        if i <= i64::MAX as u64 {
            is(v, &INTS, &int(i as i64));
        }
        no_text(v);
        no_collection(v);
    });
}
const FLOATS: [ValueType; 3] = [ValueType::Float, ValueType::Double32, ValueType::Double64];
fn float(d: f64) -> Row {
    Row {
        b: d as i64 != 0,
        short: d as i16,
        ushort: d as u16,
        int: d as i64,
        uint: d as i64 as u64,
        double: d,
        float: d as f32,
    }
}
/// A number below one may count as false or as true
fn real(v: &Value, d: f64) {
    let mut r = float(d);
    if !r.b && d != 0.0 {
        r.b = v.to_bool();
    }
    is(v, &FLOATS, &r);
}
pub fn h_c17_f64() {
    let d = vp::any_f64();
    vp::assume(d == d);
    in_array(d, |v| real(v, d));
}
pub fn h_c17_f32() {
    let d = vp::any_f32();
    vp::assume(d == d);
    in_array(d, |v| {
        vp::check(v.to_float().to_bits() == d.to_bits(), "to_float");
        let mut r = float(f64::from(d));
        r.float = d;
        if !r.b && d != 0.0 {
            r.b = v.to_bool();
        }
        is(v, &FLOATS, &r);
    });
}
pub fn h_c17_nan() {
    in_array(f64::NAN, |v| {
        vp::check(v.to_double() != v.to_double(), "to_double");
        vp::check(v.to_float() != v.to_float(), "to_float");
        let _ = (v.to_bool(), v.to_int(), v.to_short(), v.to_unsigned_short(), v.to_unsigned_int());
        no_text(v);
        no_collection(v);
    });
}
/// The same kinds, as others write them
pub fn h_c17_raw_float() {
    let mut b = arbitrary::<8>();
    vp::assume(b[0] & 0xF0 == 0x20);
    b[1] = 0;
    b[6] = 0x80;
    b[7] = 0x03;
    let Ok(v) = Value::from_bytes(&b) else { return };
    if v.value_type() != ValueType::Double64 {
        let f = f32::from_bits(u32::from_le_bytes([b[2], b[3], b[4], b[5]]));
        vp::assume(f == f);
        real(v, f64::from(f));
        vp::reached("four bytes");
    }
}
pub fn h_c17_raw_double() {
    let mut b = arbitrary::<12>();
    vp::assume(b[0] & 0xF0 == 0x20);
    b[1] = 0;
    b[10] = 0x80;
    b[11] = 0x05;
    let Ok(v) = Value::from_bytes(&b) else { return };
    if v.value_type() == ValueType::Double64 {
        let f = f64::from_bits(u64::from_le_bytes([b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9]]));
        vp::assume(f == f);
        real(v, f);
        vp::reached("eight bytes");
    }
}
/// Integers of every width, which may be wider than they need to be
pub fn h_c17_raw_int() {
    let mut b = arbitrary::<12>();
    vp::assume(b[0] & 0xF0 == 0x10);
    b[10] = 0x80;
    b[11] = 0x05;
    let Ok(v) = Value::from_bytes(&b) else { return };
    let n = (b[0] & 7) as usize + 1;
    let signed = b[0] & 8 == 0;
    let mut w = [if signed && b[n] >= 0x80 { 0xFF } else { 0u8 }; 8];
    let mut i = 0;
    while i < n {
        w[i] = b[1 + i];
        i += 1;
    }
    let x = i64::from_le_bytes(w);
    vp::check(v.value_type() == if signed { ValueType::Int } else { ValueType::UnsignedInt }, "value_type");
    vp::check(v.to_int() == x, "to_int");
    vp::check(v.to_unsigned_int() == x as u64, "to_unsigned_int");
    vp::check(v.to_short() == x as i16, "to_short");
    vp::check(v.to_unsigned_short() == x as u16, "to_unsigned_short");
    vp::check(v.to_bool() == (x != 0), "to_bool");
    vp::reached("read");
}
pub fn h_c17_str() {
    let s = vp::any_str();
    vp::assume(s.len() < 1 << 28);
    in_array(s, |v| {
        vp::check(v.value_type() == ValueType::String, "value_type");
        numbers(v, &ZERO);
        no_collection(v);
        vp::check(v.to_str().len() == s.len(), "to_str");
        vp::check(v.to_data().len() == s.len(), "to_data");
    });
}
pub fn h_c17_data() {
    let s = vp::any_bytes();
    vp::assume(s.len() < 1 << 28);
    in_array(s, |v| {
        vp::check(v.value_type() == ValueType::Data, "value_type");
        numbers(v, &ZERO);
        no_collection(v);
        vp::check(v.to_str().is_empty(), "to_str");
        vp::check(v.to_data().len() == s.len(), "to_data");
    });
}
pub fn h_c17_array() {
    let mut e = Encoder::new();
    vp::check(e.begin_array(1).is_ok(), "begin_array is accepted");
    if vp::any_bool() {
        vp::check(e.write_value(vp::any_u8()).is_ok(), "write_value is accepted");
    }
    vp::check(e.end_array().is_ok(), "end_array is accepted");
    let out = e.finish();
    let Ok(v) = Value::from_bytes(&out) else {
        vp::check(false, "the document is accepted");
        return;
    };
    vp::check(v.value_type() == ValueType::Array, "value_type");
    numbers(v, &ZERO);
    no_text(v);
    vp::check(v.as_array().is_some(), "as_array");
    vp::check(v.as_dict().is_none(), "as_dict");
}
pub fn h_c17_dict() {
    let mut e = Encoder::new();
    vp::check(e.begin_dict().is_ok(), "begin_dict is accepted");
    if vp::any_bool() {
        vp::check(e.write_key("k").is_ok(), "write_key is accepted");
        vp::check(e.write_value(vp::any_u8()).is_ok(), "write_value is accepted");
    }
    vp::check(e.end_dict().is_ok(), "end_dict is accepted");
    let out = e.finish();
    let Ok(v) = Value::from_bytes(&out) else {
        vp::check(false, "the document is accepted");
        return;
    };
    vp::check(v.value_type() == ValueType::Dict, "value_type");
    numbers(v, &ZERO);
    no_text(v);
    vp::check(v.as_array().is_none(), "as_array");
    vp::check(v.as_dict().is_some(), "as_dict");
}
