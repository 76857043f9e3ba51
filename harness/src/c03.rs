//! C03: scalars come back as they were written. Floats which are not numbers are left out, as they compare to nothing.
use crate::common::*;
use crate::vp;
use fleece::encoder::{NullValue, UndefinedValue};
use fleece::{Value, ValueType};

fn signed(x: &Value, v: i64) {
    vp::check(matches!(x.value_type(), ValueType::Short | ValueType::Int), "it is a signed integer");
    vp::check(x.to_int() == v, "the integer has the value which was written");
    vp::reached("end");
}

fn unsigned(x: &Value, v: u64) {
    vp::check(matches!(x.value_type(), ValueType::Short | ValueType::UnsignedInt), "it is an unsigned integer or a short");
    vp::check(x.to_unsigned_int() == v, "the unsigned integer has the value which was written");
    if v <= i64::MAX as u64 {
        vp::check(x.to_int() == v as i64, "the unsigned integer has the value which was written, read as signed");
    }
    vp::reached("end");
}

fn double(x: &Value, v: f64) {
    vp::check(matches!(x.value_type(), ValueType::Double32 | ValueType::Double64), "it is a double");
    vp::check(x.to_double() == v, "the double has the value which was written");
    vp::reached("end");
}

fn float(x: &Value, v: f32) {
    vp::check(x.value_type() == ValueType::Float, "it is a float");
    vp::check(x.to_float() == v, "the float has the value which was written");
    vp::check(x.to_double() == f64::from(v), "the float has the value which was written, read as double");
    vp::reached("end");
}

fn boolean(x: &Value, v: bool) {
    vp::check(x.value_type() == if v { ValueType::True } else { ValueType::False }, "it is the boolean");
    vp::check(x.to_bool() == v, "the boolean has the value which was written");
    vp::reached("end");
}

pub fn h_c03_i8() {
    let v = vp::any_i8();
    in_array(v, |x| signed(x, v as i64));
}
pub fn h_c03_dict_i8() {
    let v = vp::any_i8();
    in_dict("key", v, |x| signed(x, v as i64));
}
pub fn h_c03_i16() {
    let v = vp::any_i16();
    in_array(v, |x| signed(x, v as i64));
}
pub fn h_c03_dict_i16() {
    let v = vp::any_i16();
    in_dict("key", v, |x| signed(x, v as i64));
}
pub fn h_c03_i32() {
    let v = vp::any_i32();
    in_array(v, |x| signed(x, v as i64));
}
pub fn h_c03_dict_i32() {
    let v = vp::any_i32();
    in_dict("key", v, |x| signed(x, v as i64));
}
pub fn h_c03_i64() {
    let v = vp::any_i64();
    in_array(v, |x| signed(x, v as i64));
}
pub fn h_c03_dict_i64() {
    let v = vp::any_i64();
    in_dict("key", v, |x| signed(x, v as i64));
}
pub fn h_c03_isize() {
    let v = vp::any_isize();
    in_array(v, |x| signed(x, v as i64));
}
pub fn h_c03_dict_isize() {
    let v = vp::any_isize();
    in_dict("key", v, |x| signed(x, v as i64));
}
pub fn h_c03_u8() {
    let v = vp::any_u8();
    in_array(v, |x| unsigned(x, v as u64));
}
pub fn h_c03_dict_u8() {
    let v = vp::any_u8();
    in_dict("key", v, |x| unsigned(x, v as u64));
}
pub fn h_c03_u16() {
    let v = vp::any_u16();
    in_array(v, |x| unsigned(x, v as u64));
}
pub fn h_c03_dict_u16() {
    let v = vp::any_u16();
    in_dict("key", v, |x| unsigned(x, v as u64));
}
pub fn h_c03_u32() {
    let v = vp::any_u32();
    in_array(v, |x| unsigned(x, v as u64));
}
pub fn h_c03_dict_u32() {
    let v = vp::any_u32();
    in_dict("key", v, |x| unsigned(x, v as u64));
}
pub fn h_c03_u64() {
    let v = vp::any_u64();
    in_array(v, |x| unsigned(x, v as u64));
}
pub fn h_c03_dict_u64() {
    let v = vp::any_u64();
    in_dict("key", v, |x| unsigned(x, v as u64));
}
pub fn h_c03_usize() {
    let v = vp::any_usize();
    in_array(v, |x| unsigned(x, v as u64));
}
pub fn h_c03_dict_usize() {
    let v = vp::any_usize();
    in_dict("key", v, |x| unsigned(x, v as u64));
}
pub fn h_c03_f64() {
    let v = vp::any_f64();
    vp::assume(v == v);
    in_array(v, |x| double(x, v));
}
pub fn h_c03_dict_f64() {
    let v = vp::any_f64();
    vp::assume(v == v);
    in_dict("k", v, |x| double(x, v));
}
pub fn h_c03_f32() {
    let v = vp::any_f32();
    vp::assume(v == v);
    in_array(v, |x| float(x, v));
}
pub fn h_c03_dict_f32() {
    let v = vp::any_f32();
    vp::assume(v == v);
    in_dict("k", v, |x| float(x, v));
}
pub fn h_c03_bool() {
    let v = vp::any_bool();
    in_array(v, |x| boolean(x, v));
}
pub fn h_c03_dict_bool() {
    let v = vp::any_bool();
    in_dict("k", v, |x| boolean(x, v));
}
pub fn h_c03_null() {
    in_array(NullValue, |x| {
        vp::check(x.value_type() == ValueType::Null, "it is null");
        vp::reached("end");
    });
}
pub fn h_c03_dict_null() {
    in_dict("a longer key", NullValue, |x| {
        vp::check(x.value_type() == ValueType::Null, "it is null");
        vp::reached("end");
    });
}
pub fn h_c03_undefined() {
    in_array(UndefinedValue, |x| {
        vp::check(x.value_type() == ValueType::Undefined, "it is undefined");
        vp::reached("end");
    });
}
pub fn h_c03_dict_undefined() {
    in_dict("a longer key", UndefinedValue, |x| {
        vp::check(x.value_type() == ValueType::Undefined, "it is undefined");
        vp::reached("end");
    });
}
