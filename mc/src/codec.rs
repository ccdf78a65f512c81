//! A minimal positional binary serde format. Unlike JSON it stores no field names and cannot skip or
//! guess, so a derive that drops, reorders or conditionally omits a field does not survive it.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::Display;

#[derive(Debug)]
pub struct E(String);
impl Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: Display>(m: T) -> E {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: Display>(m: T) -> E {
        E(m.to_string())
    }
}
pub struct Out(Vec<u8>);
impl Out {
    fn n(&mut self, x: u64) {
        self.0.extend(x.to_le_bytes());
    }
}
pub fn to_bytes<T: Serialize>(t: &T) -> Result<Vec<u8>, E> {
    let mut o = Out(vec![]);
    t.serialize(&mut o)?;
    Ok(o.0)
}
macro_rules! nums { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), E> { self.n(v as u64); Ok(()) })* } }
impl ser::Serializer for &mut Out {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    nums!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_f32(self, v: f32) -> Result<(), E> {
        self.n(v.to_bits() as u64);
        Ok(())
    }
    fn serialize_f64(self, v: f64) -> Result<(), E> {
        self.n(v.to_bits());
        Ok(())
    }
    fn serialize_char(self, v: char) -> Result<(), E> {
        self.n(v as u64);
        Ok(())
    }
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        self.n(v.len() as u64);
        self.0.extend(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), E> {
        self.n(0);
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> {
        self.n(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> {
        self.n(i as u64);
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), E> {
        self.n(i as u64);
        v.serialize(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Self, E> {
        self.n(len.ok_or_else(|| E("sequence without a length".into()))? as u64);
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.n(i as u64);
        Ok(self)
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Self, E> {
        self.serialize_seq(len)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.n(i as u64);
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
macro_rules! compound { ($($t:ident $f:ident),*) => { $(impl ser::$t for &mut Out {
    type Ok = ();
    type Error = E;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), E> { Ok(()) }
})* } }
compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! named { ($($t:ident),*) => { $(impl ser::$t for &mut Out {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), E> { Ok(()) }
})* } }
named!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for &mut Out {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}

pub struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn n(&mut self) -> Result<u64, E> {
        let (a, b) = self.0.split_at_checked(8).ok_or_else(|| E("input ends early".into()))?;
        self.0 = b;
        Ok(u64::from_le_bytes(a.try_into().unwrap()))
    }
    fn bytes(&mut self) -> Result<&'a [u8], E> {
        let n = self.n()? as usize;
        let (a, b) = self.0.split_at_checked(n).ok_or_else(|| E("input ends early".into()))?;
        self.0 = b;
        Ok(a)
    }
}
pub fn from_bytes<T: de::DeserializeOwned>(b: &[u8]) -> Result<T, E> {
    let mut i = In(b);
    let t = T::deserialize(&mut i)?;
    if i.0.is_empty() { Ok(t) } else { Err(E(format!("{} bytes left over", i.0.len()))) }
}
struct Items<'b, 'a>(&'b mut In<'a>, usize);
impl<'de> de::SeqAccess<'de> for Items<'_, 'de> {
    type Error = E;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.1)
    }
}
impl<'de> de::MapAccess<'de> for Items<'_, 'de> {
    type Error = E;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        de::SeqAccess::next_element_seed(self, s)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, E> {
        s.deserialize(&mut *self.0)
    }
}
impl<'de> de::EnumAccess<'de> for &mut In<'de> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Self), E> {
        let i = self.n()? as u32;
        Ok((s.deserialize(i.into_deserializer())?, self))
    }
}
impl<'de> de::VariantAccess<'de> for &mut In<'de> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, E> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Items(self, n))
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Items(self, f.len()))
    }
}
macro_rules! dnums { ($($f:ident $v:ident $t:ty),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let n = self.n()?; v.$v(n as $t) })* } }
impl<'de> de::Deserializer<'de> for &mut In<'de> {
    type Error = E;
    dnums!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64);
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("this format is not self-describing".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("this format is not self-describing".into()))
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.n()?;
        v.visit_bool(n == 1)
    }
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.n()?;
        v.visit_f32(f32::from_bits(n as u32))
    }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.n()?;
        v.visit_f64(f64::from_bits(n))
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.n()?;
        v.visit_char(char::from_u32(n as u32).ok_or_else(|| E("bad char".into()))?)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let b = self.bytes()?;
        v.visit_str(std::str::from_utf8(b).map_err(|e| E(e.to_string()))?)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let b = self.bytes()?;
        v.visit_bytes(b)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.n()? {
            0 => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.n()? as usize;
        v.visit_seq(Items(self, n))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Items(self, n))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Items(self, n))
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.n()? as usize;
        v.visit_map(Items(self, n))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Items(self, f.len()))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_enum(self)
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.n()?;
        v.visit_u64(n)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
