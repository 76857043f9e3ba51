//! C13: what serde writes, serde reads
use crate::vp;
use serde::de::{DeserializeOwned, Visitor};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt;

fn same<T: Serialize + DeserializeOwned + PartialEq>(t: T) {
    match fleece::to_bytes(&t) {
        Ok(b) => match fleece::from_bytes::<T>(&b) {
            Ok(u) => {
                vp::check(t == u, "the same data is read back");
                vp::reached("read back");
            }
            Err(_) => vp::check(false, "what was written is read"),
        },
        Err(_) => vp::check(false, "the data is written"),
    }
}
fn shared<T: Serialize + DeserializeOwned + PartialEq>(t: T) {
    match fleece::to_bytes_with_shared_keys(&t) {
        Ok(s) => match s.root() {
            Some(_) => {
                let Some(b) = s.data() else {
                    vp::check(false, "the scope has its data");
                    return;
                };
                match fleece::from_bytes::<T>(&b) {
                    Ok(u) => {
                        vp::check(t == u, "the same data is read back");
                        vp::reached("read back");
                    }
                    Err(_) => vp::check(false, "what was written is read"),
                }
            }
            None => vp::check(false, "the document is accepted"),
        },
        Err(_) => vp::check(false, "the data is written"),
    }
}
/// Any string
fn text() -> String {
    let s = vp::any_str();
    vp::assume(s.len() < 1 << 28);
    String::from(s)
}
fn word() -> String {
    String::from(if vp::any_bool() { "a few words" } else { "x" })
}

/// One scalar among others
fn among<T: Serialize + DeserializeOwned + PartialEq>(t: T) {
    same((1u8, t, true));
}
macro_rules! scalars {
    ($($n:ident: $any:ident;)*) => { $(
        pub fn $n() {
            among(vp::$any());
        }
    )* };
}
scalars!(
    h_c13_u8: any_u8; h_c13_u16: any_u16; h_c13_u32: any_u32; h_c13_u64: any_u64;
    h_c13_i8: any_i8; h_c13_i16: any_i16; h_c13_i32: any_i32; h_c13_i64: any_i64;
    h_c13_bool: any_bool; h_c13_char: any_char; h_c13_usize: any_usize; h_c13_isize: any_isize;
);
#[derive(Serialize, Deserialize)]
struct F64(f64);
impl PartialEq for F64 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
#[derive(Serialize, Deserialize)]
struct F32(f32);
impl PartialEq for F32 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
pub fn h_c13_f64() {
    let f = vp::any_f64();
    vp::assume(f == f);
    among(F64(f));
}
pub fn h_c13_f32() {
    let f = vp::any_f32();
    vp::assume(f == f);
    among(F32(f));
}
pub fn h_c13_string() {
    among(text());
}
#[derive(PartialEq)]
struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
struct BytesVisitor;
impl<'de> Visitor<'de> for BytesVisitor {
    type Value = Bytes;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Bytes, E> {
        Ok(Bytes(v.to_vec()))
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_bytes(BytesVisitor)
    }
}
pub fn h_c13_bytes() {
    let b = vp::any_bytes();
    vp::assume(b.len() < 1 << 28);
    among(Bytes(b.to_vec()));
}

pub fn h_c13_unit() {
    among(());
}
pub fn h_c13_option() {
    among(if vp::any_bool() { Some(vp::any_u32()) } else { None });
}
pub fn h_c13_option_string() {
    among(if vp::any_bool() { Some(word()) } else { None });
}
fn some<T>(f: impl Fn() -> T, most: usize) -> Vec<T> {
    let mut v = Vec::new();
    let n = vp::any_usize();
    vp::assume(n <= most);
    while v.len() < n {
        v.push(f());
    }
    v
}
pub fn h_c13_seq() {
    same(some(vp::any_u8, 3));
}
pub fn h_c13_seq_strings() {
    same(some(word, 2));
}
pub fn h_c13_seq_in_seq() {
    same(some(|| some(vp::any_u8, 1), 2));
}
pub fn h_c13_seq_wide() {
    same(some(vp::any_u64, 1));
}
pub fn h_c13_tuples() {
    same(((vp::any_u8(), true), (word(), vp::any_i8()), ((), (vp::any_u8(),))));
}
fn map<T>(f: impl Fn() -> T) -> BTreeMap<String, T> {
    let mut m = BTreeMap::new();
    if vp::any_bool() {
        m.insert(String::from("alpha"), f());
    }
    if vp::any_bool() {
        m.insert(String::from("b"), f());
    }
    if vp::any_bool() {
        m.insert(String::from("gamma and delta"), f());
    }
    m
}
pub fn h_c13_map() {
    same(map(vp::any_u8));
}
pub fn h_c13_map_strings() {
    same(map(|| String::from("some text")));
}
pub fn h_c13_map_key() {
    let mut m = BTreeMap::new();
    m.insert(text(), vp::any_u8());
    same(m);
}
pub fn h_c13_map_in_map() {
    let mut m = BTreeMap::new();
    m.insert(String::from("one"), map(vp::any_u8));
    m.insert(String::from("2"), BTreeMap::new());
    same(m);
}

#[derive(Serialize, Deserialize, PartialEq, Default)]
struct Unit;
#[derive(Serialize, Deserialize, PartialEq)]
struct New(u32);
#[derive(Serialize, Deserialize, PartialEq)]
struct Pair(u8, String);
#[derive(Serialize, Deserialize, PartialEq)]
struct Inner {
    id: u8,
    name: String,
}
#[derive(Serialize, Deserialize, PartialEq)]
struct Outer {
    unit: Unit,
    new: New,
    pair: Pair,
    inner: Inner,
    list: Vec<Inner>,
    maybe: Option<Box<Inner>>,
    x: bool,
    #[serde(rename = "a name which is longer than the others")]
    renamed: i8,
}
fn inner() -> Inner {
    Inner { id: vp::any_u8(), name: word() }
}
pub fn h_c13_struct() {
    same(inner());
}
pub fn h_c13_struct_string() {
    same(Inner { id: 1, name: text() });
}
pub fn h_c13_structs() {
    same(Outer {
        unit: Unit,
        new: New(7),
        pair: Pair(vp::any_u8(), String::from("second")),
        inner: Inner { id: 3, name: String::from("n") },
        list: some(|| Inner { id: vp::any_u8(), name: String::from("in a list") }, 2),
        maybe: if vp::any_bool() { Some(Box::new(inner())) } else { None },
        x: vp::any_bool(),
        renamed: -1,
    });
}
#[derive(Serialize, Deserialize, PartialEq)]
enum Kind {
    A,
    Second,
    New(u32),
    Text(String),
    List(Vec<u8>),
    Pair(u8, bool),
    Triple(u8, String, Option<u8>),
    Struct { id: u8, name: String },
    One { only: u16 },
    Nested(Box<Kind>),
}
fn flat() -> Kind {
    let n = vp::any_u8();
    match n {
        0 => Kind::A,
        1 => Kind::Second,
        2 => Kind::New(vp::any_u32()),
        3 => Kind::Text(word()),
        4 => Kind::List(some(vp::any_u8, 2)),
        5 => Kind::Pair(vp::any_u8(), vp::any_bool()),
        6 => Kind::Triple(vp::any_u8(), word(), if vp::any_bool() { Some(vp::any_u8()) } else { None }),
        7 => Kind::Struct { id: vp::any_u8(), name: word() },
        _ => Kind::One { only: vp::any_u16() },
    }
}
pub fn h_c13_enum() {
    same(flat());
}
pub fn h_c13_enum_nested() {
    same(Kind::Nested(Box::new(flat())));
}
pub fn h_c13_enum_list() {
    same(vec![flat(), Kind::Second]);
}
#[derive(Serialize, Deserialize, PartialEq)]
struct Holder {
    before: u8,
    kind: Kind,
    kinds: BTreeMap<String, Kind>,
}
pub fn h_c13_enum_in_struct() {
    let mut kinds = BTreeMap::new();
    kinds.insert(String::from("the first"), flat());
    kinds.insert(String::from("z"), Kind::A);
    same(Holder { before: 1, kind: Kind::Struct { id: 4, name: String::from("with a name") }, kinds });
}
pub fn h_c13_newtype() {
    same((New(vp::any_u32()), Unit));
}
pub fn h_c13_enum_map() {
    let mut m = BTreeMap::new();
    m.insert(String::from("nested"), Kind::Nested(Box::new(Kind::Nested(Box::new(flat())))));
    same(m);
}
/// With shared keys
pub fn h_c13_shared_struct() {
    shared(inner());
}
pub fn h_c13_shared_enum() {
    shared(flat());
}
pub fn h_c13_shared_map() {
    shared(map(vp::any_u8));
}
