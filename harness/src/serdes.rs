//! What serde sees: a recording serializer, a recording visitor, and the
//! serde-edits round trip through CBOR.

use std::fmt;

use nondestructive::yaml::{self, Any, Document, Value};
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize};
use serde_json::{json, Value as J};

use crate::enc;
use crate::views::{f32s, f64s, node};

fn leaf(k: &str, v: String) -> J {
    node(k, v, vec![], vec![])
}

#[derive(Debug)]
pub struct E(String);

impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for E {}

impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

struct S;

struct Seq {
    want: Option<usize>,
    c: Vec<J>,
}

struct Map {
    want: Option<usize>,
    ks: Vec<String>,
    c: Vec<J>,
}

macro_rules! prim {
    ($($f:ident $t:ty, $k:literal;)*) => {
        $(fn $f(self, v: $t) -> Result<J, E> { Ok(leaf($k, v.to_string())) })*
    };
}

impl ser::Serializer for S {
    type Ok = J;
    type Error = E;
    type SerializeSeq = Seq;
    type SerializeTuple = ser::Impossible<J, E>;
    type SerializeTupleStruct = ser::Impossible<J, E>;
    type SerializeTupleVariant = ser::Impossible<J, E>;
    type SerializeMap = Map;
    type SerializeStruct = ser::Impossible<J, E>;
    type SerializeStructVariant = ser::Impossible<J, E>;

    prim! {
        serialize_bool bool, "bool";
        serialize_i8 i8, "i8"; serialize_i16 i16, "i16"; serialize_i32 i32, "i32"; serialize_i64 i64, "i64"; serialize_i128 i128, "i128";
        serialize_u8 u8, "u8"; serialize_u16 u16, "u16"; serialize_u32 u32, "u32"; serialize_u64 u64, "u64"; serialize_u128 u128, "u128";
        serialize_char char, "char";
    }
    fn serialize_f32(self, v: f32) -> Result<J, E> {
        Ok(leaf("f32", f32s(v)))
    }
    fn serialize_f64(self, v: f64) -> Result<J, E> {
        Ok(leaf("f64", f64s(v)))
    }
    fn serialize_str(self, v: &str) -> Result<J, E> {
        Ok(leaf("str", enc(v.as_bytes())))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<J, E> {
        Ok(leaf("bytes", enc(v)))
    }
    fn serialize_none(self) -> Result<J, E> {
        Ok(leaf("null", String::new()))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<J, E> {
        v.serialize(S)
    }
    fn serialize_unit(self) -> Result<J, E> {
        Ok(leaf("null", String::new()))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<J, E> {
        Err(E("unit struct".into()))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<J, E> {
        Err(E("variant".into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<J, E> {
        v.serialize(S)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<J, E> {
        Err(E("variant".into()))
    }
    fn serialize_seq(self, want: Option<usize>) -> Result<Seq, E> {
        Ok(Seq { want, c: vec![] })
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E("tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E("variant".into()))
    }
    fn serialize_map(self, want: Option<usize>) -> Result<Map, E> {
        Ok(Map { want, ks: vec![], c: vec![] })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
        Err(E("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E("variant".into()))
    }
}

impl ser::SerializeSeq for Seq {
    type Ok = J;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.c.push(v.serialize(S)?);
        Ok(())
    }
    fn end(self) -> Result<J, E> {
        if self.want.is_some_and(|n| n != self.c.len()) {
            return Err(E("announced length differs".into()));
        }
        Ok(node("seq", String::new(), vec![], self.c))
    }
}

impl ser::SerializeMap for Map {
    type Ok = J;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), E> {
        let k = k.serialize(S)?;
        match k["k"].as_str() {
            Some("str" | "bytes") => self.ks.push(k["v"].as_str().unwrap().to_owned()),
            _ => return Err(E("key is not a string".into())),
        }
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.c.push(v.serialize(S)?);
        Ok(())
    }
    fn end(self) -> Result<J, E> {
        if self.want.is_some_and(|n| n != self.c.len()) {
            return Err(E("announced length differs".into()));
        }
        Ok(node("map", String::new(), self.ks, self.c))
    }
}

pub fn ser(doc: &Document) -> J {
    let v = doc.as_ref();
    match v.serialize(S) {
        Ok(j) => j,
        Err(e) => leaf("err", enc(e.0.as_bytes())),
    }
}

struct Seed(&'static str);

/// Records what it is given; keys are asked for under the hint it has.
#[derive(Clone, Copy)]
struct Rec(&'static str);

macro_rules! visit {
    ($($f:ident $t:ty, $k:literal;)*) => {
        $(fn $f<X: de::Error>(self, v: $t) -> Result<J, X> { Ok(leaf($k, v.to_string())) })*
    };
}

impl<'de> Visitor<'de> for Rec {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("anything")
    }
    visit! {
        visit_bool bool, "bool";
        visit_i8 i8, "i8"; visit_i16 i16, "i16"; visit_i32 i32, "i32"; visit_i64 i64, "i64"; visit_i128 i128, "i128";
        visit_u8 u8, "u8"; visit_u16 u16, "u16"; visit_u32 u32, "u32"; visit_u64 u64, "u64"; visit_u128 u128, "u128";
        visit_char char, "char";
    }
    fn visit_f32<X>(self, v: f32) -> Result<J, X> {
        Ok(leaf("f32", f32s(v)))
    }
    fn visit_f64<X>(self, v: f64) -> Result<J, X> {
        Ok(leaf("f64", f64s(v)))
    }
    fn visit_str<X>(self, v: &str) -> Result<J, X> {
        Ok(leaf("copied str", enc(v.as_bytes())))
    }
    fn visit_borrowed_str<X>(self, v: &'de str) -> Result<J, X> {
        Ok(leaf("str", enc(v.as_bytes())))
    }
    fn visit_bytes<X>(self, v: &[u8]) -> Result<J, X> {
        Ok(leaf("copied bytes", enc(v)))
    }
    fn visit_borrowed_bytes<X>(self, v: &'de [u8]) -> Result<J, X> {
        Ok(leaf("bytes", enc(v)))
    }
    fn visit_none<X>(self) -> Result<J, X> {
        Ok(leaf("null", String::new()))
    }
    fn visit_unit<X>(self) -> Result<J, X> {
        Ok(leaf("null", String::new()))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        let v = d.deserialize_any(self)?;
        Ok(node("some", String::new(), vec![], vec![v]))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        d.deserialize_any(self)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut c = vec![];
        while let Some(v) = a.next_element_seed(Seed("any"))? {
            c.push(v);
        }
        Ok(node("seq", String::new(), vec![], c))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut ks = vec![];
        let mut c = vec![];
        while let Some(k) = a.next_key_seed(Seed(self.0))? {
            ks.push(k["v"].as_str().unwrap_or("not a key").to_owned());
            c.push(a.next_value_seed(Seed("any"))?);
        }
        Ok(node("map", String::new(), ks, c))
    }
}

impl<'de> DeserializeSeed<'de> for Seed {
    type Value = J;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        let rec = Rec(match self.0 {
            "map" => "string",
            "seq" => "str",
            "unit" => "any",
            "option" => "bytes",
            "newtype" => "byte_buf",
            _ => "identifier",
        });
        match self.0 {
            "any" => d.deserialize_any(rec),
            "bool" => d.deserialize_bool(rec),
            "i8" => d.deserialize_i8(rec),
            "i16" => d.deserialize_i16(rec),
            "i32" => d.deserialize_i32(rec),
            "i64" => d.deserialize_i64(rec),
            "i128" => d.deserialize_i128(rec),
            "u8" => d.deserialize_u8(rec),
            "u16" => d.deserialize_u16(rec),
            "u32" => d.deserialize_u32(rec),
            "u64" => d.deserialize_u64(rec),
            "u128" => d.deserialize_u128(rec),
            "f32" => d.deserialize_f32(rec),
            "f64" => d.deserialize_f64(rec),
            "char" => d.deserialize_char(rec),
            "str" => d.deserialize_str(rec),
            "string" => d.deserialize_string(rec),
            "bytes" => d.deserialize_bytes(rec),
            "byte_buf" => d.deserialize_byte_buf(rec),
            "option" => d.deserialize_option(rec),
            "seq" => d.deserialize_seq(rec),
            "tuple" => d.deserialize_tuple(2, rec),
            "map" => d.deserialize_map(rec),
            "struct" => d.deserialize_struct("S", &["a"], rec),
            "identifier" => d.deserialize_identifier(rec),
            "unit" => d.deserialize_unit(rec),
            "newtype" => d.deserialize_newtype_struct("N", rec),
            "tuplestruct" => d.deserialize_tuple_struct("T", 2, rec),
            "ignored" => d.deserialize_ignored_any(rec),
            o => panic!("harness: hint {o}"),
        }
    }
}

const HINTS: &[&str] = &[
    "any", "bool", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "f32", "f64", "char", "str",
    "string", "bytes", "byte_buf", "option", "seq", "tuple", "map", "struct", "identifier", "ignored",
    "unit", "newtype", "tuplestruct",
];

fn through(v: Value<'_>, hint: &'static str) -> J {
    match Seed(hint).deserialize(v) {
        Ok(j) => j,
        Err(e) => leaf("err", enc(e.to_string().as_bytes())),
    }
}

pub fn de(doc: &Document) -> J {
    use serde::de::IntoDeserializer;
    match Seed("any").deserialize(doc.into_deserializer()) {
        Ok(j) => j,
        Err(e) => leaf("err", enc(e.to_string().as_bytes())),
    }
}

/// Every value in preorder, deserialized under every hint.
pub fn dety(doc: &Document) -> J {
    fn go(doc: &Document, v: Value<'_>, out: &mut Vec<J>) {
        let id = v.id();
        let mut m = serde_json::Map::new();
        for h in HINTS {
            m.insert((*h).to_owned(), through(doc.value(id), h));
        }
        out.push(J::Object(m));
        match v.as_any() {
            Any::Mapping(m) => m.iter().for_each(|(_, c)| go(doc, c, out)),
            Any::Sequence(s) => s.iter().for_each(|c| go(doc, c, out)),
            _ => {}
        }
    }
    let mut out = vec![];
    go(doc, doc.as_ref(), &mut out);
    json!(out)
}

/// Persist a document and read it back.
///
/// The format has to describe itself, and to allow for any kind of key.
pub fn persist(doc: &Document) -> Result<Document, String> {
    let mut buf = Vec::new();
    ciborium::into_writer(doc, &mut buf).map_err(|e| format!("encode: {e}"))?;
    ciborium::from_reader(buf.as_slice()).map_err(|e| format!("decode: {e}"))
}

/// Whether an identifier is the same one after it was persisted.
pub fn same_id(id: yaml::Id) -> bool {
    let mut buf = Vec::new();
    ciborium::into_writer(&id, &mut buf).unwrap();
    let a: yaml::Id = ciborium::from_reader(buf.as_slice()).unwrap();
    let b: yaml::Id = serde_json::from_str(&serde_json::to_string(&id).unwrap()).unwrap();
    a == id && b == id
}
