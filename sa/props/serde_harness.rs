use ::serde::{de, ser, Serialize, Deserialize, Serializer, Deserializer};
#[derive(Debug)] pub struct SE;
impl core::fmt::Display for SE { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl ser::StdError for SE {}
impl ser::Error for SE { fn custom<T: core::fmt::Display>(_: T) -> Self { SE } }
impl de::Error for SE {
    fn custom<T: core::fmt::Display>(_: T) -> Self { SE }
    fn invalid_type(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self { SE }
    fn invalid_value(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self { SE }
}
/// What the serializer was given.
pub enum Ev { Bool, I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), F32, F64(f64), Char, Str, Bytes, None, Unit, Other }
pub struct Ser<'a> { pub human: bool, pub somes: &'a mut u32 }
#[inline(never)] pub fn rec_str(_s: &str) {}
impl<'a> Serializer for Ser<'a> {
    type Ok = Ev; type Error = SE;
    type SerializeSeq = ser::Impossible<Ev, SE>; type SerializeTuple = ser::Impossible<Ev, SE>; type SerializeTupleStruct = ser::Impossible<Ev, SE>;
    type SerializeTupleVariant = ser::Impossible<Ev, SE>; type SerializeMap = ser::Impossible<Ev, SE>; type SerializeStruct = ser::Impossible<Ev, SE>; type SerializeStructVariant = ser::Impossible<Ev, SE>;
    fn is_human_readable(&self) -> bool { self.human }
    fn serialize_bool(self, _: bool) -> Result<Ev, SE> { Ok(Ev::Bool) }
    fn serialize_i8(self, v: i8) -> Result<Ev, SE> { Ok(Ev::I8(v)) }
    fn serialize_i16(self, v: i16) -> Result<Ev, SE> { Ok(Ev::I16(v)) }
    fn serialize_i32(self, v: i32) -> Result<Ev, SE> { Ok(Ev::I32(v)) }
    fn serialize_i64(self, v: i64) -> Result<Ev, SE> { Ok(Ev::I64(v)) }
    fn serialize_i128(self, v: i128) -> Result<Ev, SE> { Ok(Ev::I128(v)) }
    fn serialize_u8(self, v: u8) -> Result<Ev, SE> { Ok(Ev::U8(v)) }
    fn serialize_u16(self, v: u16) -> Result<Ev, SE> { Ok(Ev::U16(v)) }
    fn serialize_u32(self, v: u32) -> Result<Ev, SE> { Ok(Ev::U32(v)) }
    fn serialize_u64(self, v: u64) -> Result<Ev, SE> { Ok(Ev::U64(v)) }
    fn serialize_u128(self, v: u128) -> Result<Ev, SE> { Ok(Ev::U128(v)) }
    fn serialize_f32(self, _: f32) -> Result<Ev, SE> { Ok(Ev::F32) }
    fn serialize_f64(self, v: f64) -> Result<Ev, SE> { Ok(Ev::F64(v)) }
    fn serialize_char(self, _: char) -> Result<Ev, SE> { Ok(Ev::Char) }
    fn serialize_str(self, v: &str) -> Result<Ev, SE> { rec_str(v); Ok(Ev::Str) }
    fn collect_str<T: ?Sized + core::fmt::Display>(self, v: &T) -> Result<Ev, SE> { struct W; impl core::fmt::Write for W { fn write_str(&mut self, s: &str) -> core::fmt::Result { rec_str(s); Ok(()) } } use core::fmt::Write; write!(W, "{}", v).map_err(|_| SE)?; Ok(Ev::Str) }
    fn serialize_bytes(self, _: &[u8]) -> Result<Ev, SE> { Ok(Ev::Bytes) }
    fn serialize_none(self) -> Result<Ev, SE> { Ok(Ev::None) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Ev, SE> { *self.somes += 1; v.serialize(self) }
    fn serialize_unit(self) -> Result<Ev, SE> { Ok(Ev::Unit) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Ev, SE> { Ok(Ev::Other) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Ev, SE> { Ok(Ev::Other) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Ev, SE> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Ev, SE> { Ok(Ev::Other) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, SE> { Err(SE) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, SE> { Err(SE) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, SE> { Err(SE) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, SE> { Err(SE) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, SE> { Err(SE) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, SE> { Err(SE) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, SE> { Err(SE) }
}
/// What the deserializer finds in its input.
#[derive(Clone, Copy)]
pub enum In<'de> { Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), F64(f64), Str(&'de str), Borrowed(&'de str), Char(char), Bytes(&'de [u8]), Unit }
/// some: the input is an option; a Unit input is then None.
#[derive(Clone, Copy)]
pub struct De<'de> { pub human: bool, pub input: In<'de> }
impl<'de> De<'de> {
    #[inline(always)]
    fn go<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, SE> {
        match self.input {
            In::Bool(x) => v.visit_bool(x), In::I8(x) => v.visit_i8(x), In::I16(x) => v.visit_i16(x), In::I32(x) => v.visit_i32(x), In::I64(x) => v.visit_i64(x), In::I128(x) => v.visit_i128(x),
            In::U8(x) => v.visit_u8(x), In::U16(x) => v.visit_u16(x), In::U32(x) => v.visit_u32(x), In::U64(x) => v.visit_u64(x), In::U128(x) => v.visit_u128(x), In::F64(x) => v.visit_f64(x),
            In::Str(x) => v.visit_str(x), In::Borrowed(x) => v.visit_borrowed_str(x), In::Char(x) => v.visit_char(x), In::Bytes(x) => v.visit_bytes(x), In::Unit => v.visit_unit(),
        }
    }
}
macro_rules! fwd { ($($n:ident)*) => { $(fn $n<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, SE> { self.go(v) })* } }
impl<'de> Deserializer<'de> for De<'de> {
    type Error = SE;
    fn is_human_readable(&self) -> bool { self.human }
    // a binary format does not know what it contains
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, SE> { if self.human { self.go(v) } else { Err(SE) } }
    fwd! { deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128
        deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, SE> { if let In::Unit = self.input { v.visit_none() } else { v.visit_some(self) } }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, SE> { self.go(v) }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, SE> { v.visit_newtype_struct(self) }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, SE> { self.go(v) }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, SE> { self.go(v) }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, SE> { self.go(v) }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, SE> { Err(SE) }
}
/// A user's wrapper type.
#[derive(Clone)]
pub struct Wrap<I, P>(pub FixedPoint<I, P>);
impl<I, P> From<FixedPoint<I, P>> for Wrap<I, P> { fn from(x: FixedPoint<I, P>) -> Self { Wrap(x) } }
impl<I, P> From<Wrap<I, P>> for FixedPoint<I, P> { fn from(x: Wrap<I, P>) -> Self { x.0 } }
