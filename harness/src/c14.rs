//! C14: what has no representation is refused
use crate::common::*;
use crate::vp;
use fleece::Error;
use serde::de::DeserializeOwned;
use serde::ser::{Error as _, SerializeMap, SerializeSeq, SerializeStruct};
use serde::{Deserialize, Serialize, Serializer};
use std::collections::BTreeMap;

fn refused<T: Serialize>(t: T) {
    vp::check(fleece::to_bytes(&t).is_err(), "what has no representation is refused");
    vp::reached("refused");
}
fn refused_shared<T: Serialize>(t: T) {
    vp::check(
        fleece::to_bytes_with_shared_keys(&t).is_err(),
        "what has no representation is refused with shared keys",
    );
}
fn accepted<T: Serialize>(t: T) {
    vp::check(fleece::to_bytes(&t).is_ok(), "what has a representation is accepted");
}

// ---- Keys
/// A map with one entry under the key `K`
struct Map<K>(K);
impl<K: Serialize> Serialize for Map<K> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(1))?;
        m.serialize_entry(&self.0, &true)?;
        m.end()
    }
}
/// A good entry before and behind the bad one
struct Among<K>(K);
impl<K: Serialize> Serialize for Among<K> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(None)?;
        m.serialize_entry("a", &1)?;
        m.serialize_key(&self.0)?;
        m.serialize_value("something longer")?;
        m.serialize_entry("z", &2)?;
        m.end()
    }
}
fn key<K: Serialize>(k: K) {
    refused(Map(&k));
    refused(Among(&k));
    refused((1, Map(&k)));
    refused(Map2("m", Map(&k)));
    refused_shared(Among(&k));
}
struct Map2<V>(&'static str, V);
impl<V: Serialize> Serialize for Map2<V> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(None)?;
        m.serialize_entry(self.0, &self.1)?;
        m.end()
    }
}
macro_rules! keys {
    ($($n:ident: $k:expr;)*) => { $(
        pub fn $n() {
            key($k);
        }
    )* };
}
#[derive(Serialize)]
struct Unit;
#[derive(Serialize)]
struct New<T>(T);
#[derive(Serialize)]
struct Tup(u8, u8);
#[derive(Serialize)]
struct Rec {
    a: u8,
}
#[derive(Serialize)]
enum E {
    U,
    N(u8),
    T(u8, u8),
    S { a: u8 },
}
struct Raw(&'static [u8]);
impl Serialize for Raw {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}
keys!(
    h_c14_key_bool: vp::any_bool();
    h_c14_key_u8: vp::any_u8();
    h_c14_key_u16: vp::any_u16();
    h_c14_key_u32: vp::any_u32();
    h_c14_key_u64: vp::any_u64();
    h_c14_key_i8: vp::any_i8();
    h_c14_key_i16: vp::any_i16();
    h_c14_key_i32: vp::any_i32();
    h_c14_key_i64: vp::any_i64();
    h_c14_key_u128: 1u128;
    h_c14_key_i128: 1i128;
    h_c14_key_f32: vp::any_f32();
    h_c14_key_f64: vp::any_f64();
    h_c14_key_bytes: Raw(b"a");
    h_c14_key_none: None::<&str>;
    h_c14_key_some: Some(vp::any_u8());
    h_c14_key_unit: ();
    h_c14_key_unit_struct: Unit;
    h_c14_key_newtype: New(1u8);
    h_c14_key_tuple: ("a", "b");
    h_c14_key_tuple_struct: Tup(1, 2);
    h_c14_key_struct: Rec { a: 1 };
    h_c14_key_seq: &["a"] as &[&str];
    h_c14_key_map: Map("a");
    h_c14_key_unit_variant: E::U;
    h_c14_key_newtype_variant: E::N(1);
    h_c14_key_tuple_variant: E::T(1, 2);
    h_c14_key_struct_variant: E::S { a: 1 };
);
/// Keys that are strings in the end
pub fn h_c14_key_good() {
    accepted(Map("a"));
    accepted(Map('c'));
    accepted(Map(New("a")));
    accepted(Map(Some("a")));
    accepted(Map(New(Some(New('x')))));
    accepted(Map(String::from("something longer")));
    let m: BTreeMap<String, u8> = BTreeMap::new();
    accepted(m);
    vp::reached("end");
}
pub fn h_c14_key_std_map() {
    let mut m: BTreeMap<u8, u8> = BTreeMap::new();
    m.insert(vp::any_u8(), 1);
    refused(&m);
    refused((1, &m));
    let mut m: BTreeMap<(), u8> = BTreeMap::new();
    m.insert((), 1);
    refused(m);
}

// ---- Values
pub fn h_c14_value_128() {
    refused([1u128]);
    refused([1i128]);
    refused((1, vp::any_u64() as u128));
    refused((1, vp::any_i64() as i128));
    refused(Map2("a", 1u128));
    refused(New([1i128]));
    refused(vec![Some(1u128)]);
}
/// Nothing but a collection can be a document
fn scalar<T: Serialize>(t: T) {
    match fleece::to_bytes(&t) {
        Ok(_) => vp::check(false, "a document is a collection"),
        Err(Error::Serialize(fleece::error::SerializeError::ValueNotCollection)) => vp::reached("refused"),
        Err(_) => vp::check(false, "the error says that it is no collection"),
    }
    refused_shared(&t);
    refused_shared(Some(t));
}
pub fn h_c14_scalar() {
    scalar(vp::any_bool());
    scalar(1u8);
    scalar(1u16);
    scalar(vp::any_u32());
    scalar(vp::any_u64());
    scalar(1i8);
    scalar(1i16);
    scalar(1i32);
    scalar(vp::any_i64());
    scalar(1f32);
    scalar(1f64);
    scalar('a');
    scalar("a");
    scalar("something longer");
    scalar(Raw(b"abcdef"));
    scalar(());
    scalar(Unit);
    scalar(None::<u8>);
    scalar(Some(1));
    scalar(New(1));
    scalar(New("something longer"));
}

// ---- Errors of the data itself
struct Bad;
impl Serialize for Bad {
    fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(S::Error::custom("no"))
    }
}
fn reported<T: Serialize>(t: T) {
    match fleece::to_bytes(&t) {
        Ok(_) => vp::check(false, "an error of the data is passed on"),
        Err(Error::Message(m)) => {
            vp::check(m == "no", "the error of the data is the one passed on");
            vp::reached("passed on");
        }
        Err(_) => vp::check(false, "an error of the data is passed on as it is"),
    }
    match fleece::to_bytes_with_shared_keys(&t) {
        Ok(_) => vp::check(false, "an error of the data is passed on with shared keys"),
        Err(Error::Message(m)) => vp::check(m == "no", "the error of the data is the one passed on"),
        Err(_) => vp::check(false, "an error of the data is passed on as it is"),
    }
}
#[derive(Serialize)]
struct Field {
    a: u8,
    b: Bad,
    c: u8,
}
#[derive(Serialize)]
enum V {
    N(Bad),
    T(u8, Bad),
    S { a: Bad, b: u8 },
}
pub fn h_c14_error() {
    reported(Bad);
    reported(Some(Bad));
    reported(New(Bad));
    reported((1, Bad));
    reported((Bad, 1));
    reported([Bad]);
    reported(vec![(1, Bad)]);
    reported(Map2("a", Bad));
    reported(Map(Bad));
    reported(Among(Bad));
    reported(Field { a: 1, b: Bad, c: 2 });
    reported(V::N(Bad));
    reported(V::T(1, Bad));
    reported(V::S { a: Bad, b: 1 });
    reported((1, V::S { a: Bad, b: 1 }, 2));
    reported(vec![Some(New(Map2("a", V::T(1, Bad))))]);
}
/// The data fails somewhere in between
struct Halfway(usize);
impl Serialize for Halfway {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(None)?;
        let mut i = 0;
        while i < self.0 {
            q.serialize_element(&i)?;
            i += 1;
        }
        Err(S::Error::custom("no"))
    }
}
pub fn h_c14_halfway() {
    reported(Halfway(0));
    reported(Halfway(3));
    reported((1, Halfway(1), 2));
    reported(Map2("a", Halfway(1)));
}

// ---- Types that do not match
fn mismatch<T: DeserializeOwned>(b: &[u8]) {
    vp::check(fleece::from_bytes::<T>(b).is_err(), "a type which does not match is refused");
    vp::reached("refused");
}
fn written<T: Serialize>(t: T) -> Vec<u8> {
    match fleece::to_bytes(t) {
        Ok(b) => b,
        Err(_) => {
            vp::check(false, "the data is written");
            Vec::new()
        }
    }
}
#[derive(Deserialize)]
struct WantRec {
    a: u8,
    b: u8,
}
#[derive(Deserialize)]
enum Want {
    A,
    B(u8),
    C(u8, u8),
    D { x: u8 },
}
#[derive(Deserialize)]
struct WantUnit;
fn none_of<T: Serialize>(t: T, number: bool, text: bool, seq: bool, map: bool, boolean: bool, unit: bool, null: bool) {
    let b = written((t,));
    if !number {
        mismatch::<(u8,)>(&b);
        mismatch::<(i64,)>(&b);
        mismatch::<(u64,)>(&b);
        mismatch::<(f64,)>(&b);
        mismatch::<(f32,)>(&b);
    }
    if !text {
        mismatch::<(String,)>(&b);
        mismatch::<(char,)>(&b);
    }
    if !seq {
        mismatch::<(Vec<bool>,)>(&b);
        mismatch::<((u8, u8),)>(&b);
        mismatch::<(Want,)>(&b);
    }
    if !map {
        mismatch::<(BTreeMap<String, u8>,)>(&b);
        mismatch::<(WantRec,)>(&b);
    }
    if !boolean {
        mismatch::<(bool,)>(&b);
    }
    if !unit {
        mismatch::<((),)>(&b);
        mismatch::<(WantUnit,)>(&b);
    }
    let _ = null;
}
pub fn h_c14_mismatch_bool() {
    none_of(vp::any_bool(), false, false, false, false, true, false, false);
}
pub fn h_c14_mismatch_small() {
    none_of(vp::any_u8(), true, false, false, false, false, false, false);
}
pub fn h_c14_mismatch_int() {
    none_of(i64::MIN, true, false, false, false, false, false, false);
    none_of(u64::MAX, true, false, false, false, false, false, false);
    none_of(70000u32, true, false, false, false, false, false, false);
}
pub fn h_c14_mismatch_float() {
    none_of(1.5f64, true, false, false, false, false, false, false);
    none_of(1.5f32, true, false, false, false, false, false, false);
}
pub fn h_c14_mismatch_text() {
    none_of("x", false, true, false, false, false, false, false);
    none_of("something longer", false, true, false, false, false, false, false);
}
pub fn h_c14_mismatch_seq() {
    none_of((1u8, 2u8, 3u8), false, false, true, false, false, false, false);
    let b = written(((1u8, 2u8, 3u8),));
    mismatch::<(Vec<bool>,)>(&b);
    mismatch::<((u8, bool, u8),)>(&b);
    mismatch::<(Want,)>(&b);
    let b = written(((1u8,),));
    mismatch::<((u8, u8),)>(&b);
}
pub fn h_c14_mismatch_map() {
    none_of(Map("a"), false, false, false, true, false, false, false);
    let b = written((Map("a"),));
    mismatch::<(WantRec,)>(&b);
    mismatch::<(BTreeMap<String, u8>,)>(&b);
    // A key is missing
    let b = written((Map2("a", 1u8),));
    mismatch::<(WantRec,)>(&b);
}
pub fn h_c14_mismatch_unit() {
    none_of((), false, false, false, false, false, true, false);
}
pub fn h_c14_mismatch_none() {
    none_of(None::<u8>, false, false, false, false, false, false, true);
}
/// Numbers which are too large for the type
pub fn h_c14_range() {
    let x = vp::any_u32();
    vp::assume(x >= 1 << 24 && x < 1 << 25);
    let b = written((x,));
    mismatch::<(u8,)>(&b);
    mismatch::<(i8,)>(&b);
    mismatch::<(u16,)>(&b);
    mismatch::<(i16,)>(&b);
    let x = vp::any_i16();
    vp::assume(x < 0 && x >= -2048);
    let b = written((x,));
    mismatch::<(u8,)>(&b);
    mismatch::<(u16,)>(&b);
    mismatch::<(u64,)>(&b);
    let x = vp::any_i16();
    vp::assume(x > 255 && x < 2048);
    let b = written((x,));
    mismatch::<(u8,)>(&b);
    mismatch::<(i8,)>(&b);
    let x = vp::any_u64();
    vp::assume(x >= 1 << 63);
    let b = written((x,));
    mismatch::<(i64,)>(&b);
    mismatch::<(u32,)>(&b);
    let x = vp::any_i64();
    vp::assume(x < -(1 << 60));
    let b = written((x,));
    mismatch::<(u64,)>(&b);
    mismatch::<(i32,)>(&b);
}
/// Enums
pub fn h_c14_variants() {
    mismatch::<(Want,)>(&written((("nothing",),)));
    mismatch::<(Want,)>(&written((Vec::<u8>::new(),)));
    mismatch::<(Want,)>(&written((("A", 1),)));
    mismatch::<(Want,)>(&written((("B",),)));
    mismatch::<(Want,)>(&written((("B", "x"),)));
    mismatch::<(Want,)>(&written((("C", 1),)));
    mismatch::<(Want,)>(&written((("C", (1,)),)));
    mismatch::<(Want,)>(&written((("C", (1, 2, 3)),)));
    mismatch::<(Want,)>(&written((("C", (1, true)),)));
    mismatch::<(Want,)>(&written((("D", 1),)));
    mismatch::<(Want,)>(&written((("D", Map2("y", 1)),)));
    mismatch::<(Want,)>(&written((("D", Map2("x", "z")),)));
    mismatch::<(Want,)>(&written(((true, 1),)));
}
/// Documents which are none
pub fn h_c14_bytes() {
    mismatch::<(u8,)>(&[]);
    mismatch::<(u8,)>(&[1]);
    mismatch::<Vec<u8>>(&[0xff, 0xff]);
    mismatch::<u8>(&[0x60, 0x01, 0x00]);
}

/// Whatever the document: an answer, and no panic
fn any_doc<const N: usize, T: DeserializeOwned>() {
    let b = arbitrary::<N>();
    let _ = fleece::from_bytes::<T>(&b);
}
macro_rules! docs {
    ($($n:ident, $m:ident: $t:ty;)*) => { $(
        pub fn $n() {
            any_doc::<8, $t>();
        }
        pub fn $m() {
            any_doc::<10, $t>();
        }
    )* };
}
docs!(
    h_c14_any_seq, h_c14_t_any_seq: Vec<u16>;
    h_c14_any_tuple, h_c14_t_any_tuple: (i8, Option<bool>);
    h_c14_any_text, h_c14_t_any_text: (String,);
    h_c14_any_char, h_c14_t_any_char: Vec<char>;
    h_c14_any_map, h_c14_t_any_map: BTreeMap<String, i64>;
    h_c14_any_rec, h_c14_t_any_rec: WantRec;
    h_c14_any_enum, h_c14_t_any_enum: Want;
    h_c14_any_float, h_c14_t_any_float: (f32, f64);
);
pub fn h_c14_any_two() {
    let mut b = arbitrary::<12>();
    b[0] = 0x70;
    b[1] = 2;
    b[2] = 0x41;
    b[6] = 0x41;
    b[10] = 0x80;
    b[11] = 5;
    match fleece::from_bytes::<WantRec>(&b) {
        Ok(_) => vp::reached("read"),
        Err(_) => vp::reached("refused"),
    }
    if fleece::from_bytes::<BTreeMap<String, Option<bool>>>(&b).is_ok() {
        vp::reached("read as a map");
    }
}

// Documents of any length up to 2^28
fn any_text<T: DeserializeOwned>(dict: bool) {
    if dict {
        any_collection(true, false, 1, |b| {
            let _ = fleece::from_bytes::<T>(b);
        });
    } else {
        any_collection(false, false, 1, |b| {
            let _ = fleece::from_bytes::<T>(b);
        });
    }
}
macro_rules! texts {
    ($($n:ident: $t:ty, $d:expr;)*) => { $(
        pub fn $n() {
            any_text::<$t>($d);
        }
    )* };
}
texts!(
    h_c14_long_seq: Vec<u16>, false; h_c14_long_tuple: (Option<bool>,), false; h_c14_long_text: (String,), false;
    h_c14_long_map: BTreeMap<String, i64>, true; h_c14_long_rec: WantRec, true;
    h_c14_long_enum: Vec<Want>, false; h_c14_long_variant: Want, true; h_c14_long_float: (f32,), false;
);
