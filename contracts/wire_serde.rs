//! A serializer that keeps one byte string and a deserializer that gives one out: what bendy
//! does with the compact encodings.
use serde::de::{self, Visitor};
use serde::ser::{self, Impossible};

#[derive(Debug)]
pub struct Refused;
impl std::fmt::Display for Refused { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Refused {}
impl de::Error for Refused {
    fn custom<T: std::fmt::Display>(_: T) -> Self { Refused }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { Refused }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { Refused }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { Refused }
}
impl ser::Error for Refused { fn custom<T: std::fmt::Display>(_: T) -> Self { Refused } }

pub const ROOM: usize = 256;
pub struct Out { pub b: [u8; ROOM], pub n: usize, pub calls: usize }
impl Out { pub fn new() -> Self { Out { b: [0; ROOM], n: 0, calls: 0 } } }
macro_rules! refuse { ($($f:ident($($a:ty),*);)*) => { $( fn $f(self $(, _: $a)*) -> Result<(), Refused> { Err(Refused) } )* } }
impl<'a> ser::Serializer for &'a mut Out {
    type Ok = ();
    type Error = Refused;
    type SerializeSeq = Impossible<(), Refused>;
    type SerializeTuple = Impossible<(), Refused>;
    type SerializeTupleStruct = Impossible<(), Refused>;
    type SerializeTupleVariant = Impossible<(), Refused>;
    type SerializeMap = Impossible<(), Refused>;
    type SerializeStruct = Impossible<(), Refused>;
    type SerializeStructVariant = Impossible<(), Refused>;
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Refused> {
        if v.len() > ROOM { panic!("vp-model: more bytes than the serializer of the model keeps"); }
        unsafe { core::ptr::copy_nonoverlapping(v.as_ptr(), self.b.as_mut_ptr(), v.len()); }
        self.n = v.len();
        self.calls += 1;
        Ok(())
    }
    fn serialize_str(self, v: &str) -> Result<(), Refused> { self.serialize_bytes(v.as_bytes()) }
    refuse! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64);
        serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<(), Refused> { Err(Refused) }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, _: &T) -> Result<(), Refused> { Err(Refused) }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Refused> { Err(Refused) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Refused> { Err(Refused) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Refused> { Err(Refused) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Refused> { Err(Refused) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Refused> { Err(Refused) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Refused> { Err(Refused) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Refused> { Err(Refused) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Refused> { Err(Refused) }
}

pub struct In<'a>(pub &'a [u8]);
impl<'de, 'a> de::Deserializer<'de> for In<'a> {
    type Error = Refused;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Refused> { v.visit_bytes(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// Encodes; a value of the protocol is one byte string.
pub fn encode<T: serde::Serialize>(t: &T) -> Out {
    let mut o = Out::new();
    let r = t.serialize(&mut o);
    assert!(r.is_ok() && o.calls == 1, "the encoding is one byte string");
    o
}
pub fn decode<T: for<'de> serde::Deserialize<'de>>(b: &[u8]) -> Option<T> { T::deserialize(In(b)).ok() }
