//! A serializer and a deserializer without a format: the analysis of the serde implementations of the tree follows what is
//! asked of them.  Never run.
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::fmt::{Debug, Display, Formatter};

pub struct Ser;
pub struct De;
#[derive(Debug)]
pub struct Bad;

impl Display for Bad {
    fn fmt(&self, _: &mut Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: Display>(_: T) -> Self {
        Bad
    }
}
impl de::Error for Bad {
    fn custom<T: Display>(_: T) -> Self {
        Bad
    }
}

macro_rules! scalars {
    ($($name:ident: $t:ty),*) => {
        $(fn $name(self, _: $t) -> Result<(), Bad> { Ok(()) })*
    };
}

impl Serializer for Ser {
    type Ok = ();
    type Error = Bad;
    type SerializeSeq = Ser;
    type SerializeTuple = Ser;
    type SerializeTupleStruct = Ser;
    type SerializeTupleVariant = Ser;
    type SerializeMap = Ser;
    type SerializeStruct = Ser;
    type SerializeStructVariant = Ser;

    scalars!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64,
        serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32,
        serialize_f64: f64, serialize_char: char, serialize_str: &str, serialize_bytes: &[u8]);

    fn serialize_none(self) -> Result<(), Bad> {
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<(), Bad> {
        value.serialize(Ser)
    }
    fn serialize_unit(self) -> Result<(), Bad> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Bad> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Bad> {
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, value: &T) -> Result<(), Bad> {
        value.serialize(Ser)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, value: &T) -> Result<(), Bad> {
        value.serialize(Ser)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Ser, Bad> {
        Ok(Ser)
    }
    fn serialize_tuple(self, _: usize) -> Result<Ser, Bad> {
        Ok(Ser)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Ser, Bad> {
        Ok(Ser)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Ser, Bad> {
        Ok(Ser)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Ser, Bad> {
        Ok(Ser)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Ser, Bad> {
        Ok(Ser)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Ser, Bad> {
        Ok(Ser)
    }
}

macro_rules! parts {
    ($($t:ident $name:ident),*) => {
        $(impl ser::$t for Ser {
            type Ok = ();
            type Error = Bad;
            fn $name<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Bad> {
                value.serialize(Ser)
            }
            fn end(self) -> Result<(), Bad> { Ok(()) }
        })*
    };
}
parts!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

macro_rules! fields {
    ($($t:ident),*) => {
        $(impl ser::$t for Ser {
            type Ok = ();
            type Error = Bad;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, value: &T) -> Result<(), Bad> {
                value.serialize(Ser)
            }
            fn end(self) -> Result<(), Bad> { Ok(()) }
        })*
    };
}
fields!(SerializeStruct, SerializeStructVariant);

impl ser::SerializeMap for Ser {
    type Ok = ();
    type Error = Bad;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Bad> {
        value.serialize(Ser)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Bad> {
        value.serialize(Ser)
    }
    fn end(self) -> Result<(), Bad> {
        Ok(())
    }
}

// What the document is; the analysis answers.
pub fn by_name() -> bool {
    std::env::args().len() == 0
}
pub fn more() -> bool {
    std::env::args().len() == 0
}
pub fn key() -> &'static str {
    ""
}
pub fn index() -> u64 {
    0
}
pub fn content() -> &'static str {
    ""
}

macro_rules! unasked {
    ($($name:ident)*) => {
        $(fn $name<V: Visitor<'static>>(self, _: V) -> Result<V::Value, Bad> { Err(Bad) })*
    };
}

impl Deserializer<'static> for De {
    type Error = Bad;

    unasked!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char
        deserialize_bytes deserialize_byte_buf deserialize_ignored_any deserialize_map);

    fn deserialize_str<V: Visitor<'static>>(self, visitor: V) -> Result<V::Value, Bad> {
        visitor.visit_str(content())
    }
    fn deserialize_string<V: Visitor<'static>>(self, visitor: V) -> Result<V::Value, Bad> {
        visitor.visit_str(content())
    }
    fn deserialize_option<V: Visitor<'static>>(self, visitor: V) -> Result<V::Value, Bad> {
        visitor.visit_some(De)
    }
    fn deserialize_unit<V: Visitor<'static>>(self, visitor: V) -> Result<V::Value, Bad> {
        visitor.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'static>>(self, _: &'static str, visitor: V) -> Result<V::Value, Bad> {
        visitor.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'static>>(self, _: &'static str, visitor: V) -> Result<V::Value, Bad> {
        visitor.visit_newtype_struct(De)
    }
    fn deserialize_seq<V: Visitor<'static>>(self, visitor: V) -> Result<V::Value, Bad> {
        visitor.visit_seq(De)
    }
    fn deserialize_tuple<V: Visitor<'static>>(self, _: usize, visitor: V) -> Result<V::Value, Bad> {
        visitor.visit_seq(De)
    }
    fn deserialize_tuple_struct<V: Visitor<'static>>(self, _: &'static str, _: usize, visitor: V) -> Result<V::Value, Bad> {
        visitor.visit_seq(De)
    }
    fn deserialize_struct<V: Visitor<'static>>(self, _: &'static str, _: &'static [&'static str], visitor: V) -> Result<V::Value, Bad> {
        if by_name() {
            visitor.visit_map(De)
        } else {
            visitor.visit_seq(De)
        }
    }
    fn deserialize_enum<V: Visitor<'static>>(self, _: &'static str, _: &'static [&'static str], visitor: V) -> Result<V::Value, Bad> {
        visitor.visit_enum(De)
    }
    fn deserialize_identifier<V: Visitor<'static>>(self, visitor: V) -> Result<V::Value, Bad> {
        if by_name() {
            visitor.visit_str(key())
        } else {
            visitor.visit_u64(index())
        }
    }
}

impl MapAccess<'static> for De {
    type Error = Bad;
    fn next_key_seed<K: DeserializeSeed<'static>>(&mut self, seed: K) -> Result<Option<K::Value>, Bad> {
        if more() {
            Ok(Some(seed.deserialize(De)?))
        } else {
            Ok(None)
        }
    }
    fn next_value_seed<V: DeserializeSeed<'static>>(&mut self, seed: V) -> Result<V::Value, Bad> {
        seed.deserialize(De)
    }
}

impl SeqAccess<'static> for De {
    type Error = Bad;
    fn next_element_seed<T: DeserializeSeed<'static>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        Ok(Some(seed.deserialize(De)?))
    }
}

impl EnumAccess<'static> for De {
    type Error = Bad;
    type Variant = De;
    fn variant_seed<V: DeserializeSeed<'static>>(self, seed: V) -> Result<(V::Value, De), Bad> {
        Ok((seed.deserialize(De)?, De))
    }
}

impl VariantAccess<'static> for De {
    type Error = Bad;
    fn unit_variant(self) -> Result<(), Bad> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'static>>(self, seed: T) -> Result<T::Value, Bad> {
        seed.deserialize(De)
    }
    fn tuple_variant<V: Visitor<'static>>(self, _: usize, visitor: V) -> Result<V::Value, Bad> {
        visitor.visit_seq(De)
    }
    fn struct_variant<V: Visitor<'static>>(self, _: &'static [&'static str], visitor: V) -> Result<V::Value, Bad> {
        if by_name() {
            visitor.visit_map(De)
        } else {
            visitor.visit_seq(De)
        }
    }
}

pub fn write<T: Serialize>(value: &T) -> Result<(), Bad> {
    value.serialize(Ser)
}

pub fn read<T: de::DeserializeOwned>() -> Result<T, Bad> {
    T::deserialize(De)
}
