//! C19: a failure of the data, or of what reads it, comes out at the public interface
use crate::vp;
use fleece::{Encoder, Error};
use serde::de::{DeserializeOwned, Error as _, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt;

/// A number below 100, on the side which reads it
#[derive(Serialize)]
struct Small(u8);
impl<'de> Deserialize<'de> for Small {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let n = u8::deserialize(d)?;
        if n < 100 {
            Ok(Small(n))
        } else {
            Err(D::Error::custom("no"))
        }
    }
}
/// What has `t` in it is read if and only if all of `good`, and otherwise the error is the reader's
fn read<T: Serialize + DeserializeOwned>(t: T, good: bool) {
    let Ok(b) = fleece::to_bytes(&t) else {
        vp::check(false, "the data is written");
        return;
    };
    match fleece::from_bytes::<T>(&b) {
        Ok(_) => {
            vp::check(good, "what the reader refuses is refused");
            vp::reached("read");
        }
        Err(Error::Message(m)) => {
            vp::check(!good, "what the reader takes is read");
            vp::check(m == "no", "the reader's error is the one passed on");
            vp::reached("refused");
        }
        Err(_) => vp::check(false, "the reader's error is passed on as it is"),
    }
}
fn small() -> (Small, bool) {
    let n = vp::any_u8();
    (Small(n), n < 100)
}
#[derive(Serialize, Deserialize)]
struct New<T>(T);
#[derive(Serialize, Deserialize)]
struct Field<T> {
    a: u8,
    b: T,
    c: u8,
}
#[derive(Serialize, Deserialize)]
struct Perhaps<T> {
    a: Option<T>,
}
#[derive(Serialize, Deserialize)]
enum V<T> {
    U,
    N(T),
    T(u8, T),
    S { a: T, b: u8 },
}
fn map<T>(t: T) -> BTreeMap<String, T> {
    let mut m = BTreeMap::new();
    m.insert(String::from("k"), t);
    m
}
macro_rules! places {
    ($($n:ident $s:ident $e:expr;)*) => { $(
        pub fn $n() {
            let ($s, good) = small();
            read($e, good);
        }
    )* };
}
places! {
    h_c19_first s (s, 1u8);
    h_c19_last s (1u8, s);
    h_c19_seq s vec![s];
    h_c19_array s [s];
    h_c19_new s (New(s), 1u8);
    h_c19_some s (Some(s), 1u8);
    h_c19_map s map(s);
    h_c19_field s Field { a: 1, b: s, c: 2 };
    h_c19_field_option s Perhaps { a: Some(s) };
    h_c19_variant_new s V::N(s);
    h_c19_variant_tuple s V::T(1, s);
    h_c19_variant_struct s V::S { a: s, b: 1 };
    h_c19_nested_variant s (1u8, V::S { a: s, b: 1 }, 2u8);
    h_c19_nested_seq s vec![vec![s]];
    h_c19_nested_map s map(map(s));
    h_c19_nested_field s Field { a: 1, b: vec![Field { a: 1, b: s, c: 2 }], c: 2 };
    h_c19_deep s vec![Some(New(map(V::T(1, s))))];
}
pub fn h_c19_two() {
    let (a, x) = small();
    let (b, y) = small();
    read((a, 1u8, b), x && y);
}
pub fn h_c19_two_entries() {
    let (a, x) = small();
    let (b, y) = small();
    let mut m = map(a);
    m.insert(String::from("other"), b);
    read(m, x && y);
}

// ---- Visitors which fail by themselves
/// Takes nothing, whatever it is shown
struct Refuses;
macro_rules! refuses {
    ($($method:ident $ty:ty;)*) => { $(
        fn $method<E: serde::de::Error>(self, _: $ty) -> Result<(), E> {
            Err(E::custom("no"))
        }
    )* };
}
impl<'de> Visitor<'de> for Refuses {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("nothing")
    }
    refuses! {
        visit_bool bool;
        visit_i64 i64;
        visit_u64 u64;
        visit_f32 f32;
        visit_f64 f64;
        visit_char char;
        visit_str &str;
        visit_bytes &[u8];
    }
}
macro_rules! fails {
    ($($name:ident $call:ident;)*) => { $(
        struct $name;
        impl<'de> Deserialize<'de> for $name {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                d.$call(Refuses)?;
                Ok($name)
            }
        }
    )* };
}
fails! {
    NoBool deserialize_bool;
    NoInt deserialize_i64;
    NoUnsigned deserialize_u64;
    NoTiny deserialize_i8;
    NoByte deserialize_u8;
    NoFloat deserialize_f32;
    NoDouble deserialize_f64;
    NoChar deserialize_char;
    NoText deserialize_str;
    NoString deserialize_string;
    NoBytes deserialize_bytes;
    NoAny deserialize_any;
}

fn refused<S: Serialize, T: DeserializeOwned>(s: S) {
    let Ok(b) = fleece::to_bytes(&(1u8, s)) else {
        vp::check(false, "the data is written");
        return;
    };
    match fleece::from_bytes::<(u8, T)>(&b) {
        Ok(_) => vp::check(false, "what the reader refuses is refused"),
        Err(Error::Message(m)) => {
            vp::check(m == "no", "the reader's error is the one passed on");
            vp::reached("refused");
        }
        Err(_) => vp::check(false, "the reader's error is passed on as it is"),
    }
}
pub fn h_c19_no_bool() {
    refused::<_, NoBool>(vp::any_bool());
}
pub fn h_c19_no_any() {
    refused::<_, NoAny>(vp::any_bool());
}
pub fn h_c19_no_int() {
    refused::<_, NoInt>(vp::any_i64());
}
pub fn h_c19_no_unsigned() {
    refused::<_, NoUnsigned>(vp::any_u64());
}
pub fn h_c19_no_float() {
    refused::<_, NoFloat>(1.5f32);
}
pub fn h_c19_no_double() {
    refused::<_, NoDouble>(0.1f64);
}
pub fn h_c19_no_char() {
    refused::<_, NoChar>('x');
}
pub fn h_c19_no_text() {
    refused::<_, NoText>("some text");
    refused::<_, NoString>("x");
}
pub fn h_c19_no_small() {
    refused::<_, NoTiny>(vp::any_u8() as i8);
    refused::<_, NoByte>(vp::any_u8());
}
struct Raw<'a>(&'a [u8]);
impl Serialize for Raw<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}
pub fn h_c19_no_bytes() {
    refused::<_, NoBytes>(Raw(&[1, 2, 3]));
}
pub fn h_c19_no_any_other() {
    refused::<_, NoAny>(vp::any_i64());
    refused::<_, NoAny>("some text");
    refused::<_, NoAny>(0.1f64);
}
/// Fails after some elements
struct Some2(u8);
struct Elements;
impl<'de> Visitor<'de> for Elements {
    type Value = Some2;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("nothing")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Some2, A::Error> {
        let mut n = 0;
        while a.next_element::<IgnoredAny>()?.is_some() {
            n += 1;
            if n == 2 {
                return Err(A::Error::custom("no"));
            }
        }
        Ok(Some2(n))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Some2, A::Error> {
        let mut n = 0;
        while a.next_key::<IgnoredAny>()?.is_some() {
            n += 1;
            if n == 2 {
                return Err(A::Error::custom("no"));
            }
            a.next_value::<IgnoredAny>()?;
        }
        Ok(Some2(n))
    }
}
impl<'de> Deserialize<'de> for Some2 {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(Elements)
    }
}
fn counted<S: Serialize>(s: S, n: u8) {
    let Ok(b) = fleece::to_bytes(&s) else {
        vp::check(false, "the data is written");
        return;
    };
    match fleece::from_bytes::<Some2>(&b) {
        Ok(x) => vp::check(n < 2 && x.0 == n, "what the reader takes is read"),
        Err(Error::Message(m)) => vp::check(n >= 2 && m == "no", "the reader's error is the one passed on"),
        Err(_) => vp::check(false, "the reader's error is passed on as it is"),
    }
}
pub fn h_c19_halfway() {
    counted(Vec::<u8>::new(), 0);
    counted(vec![1u8], 1);
    counted(vec![1u8, 2, 3], 3);
    counted(BTreeMap::<String, u8>::new(), 0);
    counted(map(1u8), 1);
    let mut m = map(1u8);
    m.insert(String::from("other"), 2);
    counted(m, 2);
}

// ---- An encoder which has nothing
pub fn h_c19_finish_empty() {
    let _ = Encoder::new().finish_value();
}
