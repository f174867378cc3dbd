//! Minimal binary serde format: no field names, no type tags, exact floats.
use serde::{de, ser};

#[derive(Debug)]
pub struct E(pub String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

pub fn to_bytes<T: serde::Serialize>(v: &T) -> Result<Vec<u8>, E> {
    let mut s = S { o: Vec::new(), room: usize::MAX };
    v.serialize(&mut s)?;
    Ok(s.o)
}

/// Writes into a medium that takes this many bytes
pub fn to_bounded<T: serde::Serialize + ?Sized>(v: &T, room: usize) -> (Result<(), E>, Vec<u8>) {
    let mut s = S { o: Vec::new(), room };
    let r = v.serialize(&mut s);
    (r, s.o)
}

pub fn from_bytes<T: de::DeserializeOwned>(b: &[u8]) -> Result<T, E> {
    let mut d = D { b };
    let v = T::deserialize(&mut d)?;
    if d.b.is_empty() {
        Ok(v)
    } else {
        Err(E("trailing bytes".into()))
    }
}

struct S {
    o: Vec<u8>,
    room: usize,
}

impl S {
    fn put(&mut self, b: &[u8]) -> Result<(), E> {
        let n = b.len().min(self.room - self.o.len());
        self.o.extend_from_slice(&b[..n]);
        if n < b.len() {
            return Err(E("full".into()));
        }
        Ok(())
    }
}

macro_rules! num {
    ($($f:ident $t:ty),*) => {$(fn $f(self, v: $t) -> Result<(), E> { self.put(&v.to_le_bytes()) })*};
}

impl<'a> ser::Serializer for &'a mut S {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64);
    fn is_human_readable(&self) -> bool {
        true
    }
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.put(&[v as u8])
    }
    fn serialize_char(self, v: char) -> Result<(), E> {
        self.serialize_u32(v as u32)
    }
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        self.put(&(v.len() as u64).to_le_bytes())?;
        self.put(v)
    }
    fn serialize_none(self) -> Result<(), E> {
        self.put(&[0])
    }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, v: &T) -> Result<(), E> {
        self.put(&[1])?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), E> {
        self.serialize_u32(i)?;
        v.serialize(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Self, E> {
        let n = len.ok_or_else(|| E("unknown length".into()))?;
        self.serialize_u64(n as u64)?;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.serialize_u32(i)?;
        Ok(self)
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Self, E> {
        self.serialize_seq(len)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.serialize_u32(i)?;
        Ok(self)
    }
}
macro_rules! compound {
    ($t:ident, $f:ident) => {
        impl<'a> ser::$t for &'a mut S {
            type Ok = ();
            type Error = E;
            fn $f<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), E> {
                v.serialize(&mut **self)
            }
            fn end(self) -> Result<(), E> {
                Ok(())
            }
        }
    };
}
compound!(SerializeSeq, serialize_element);
compound!(SerializeTuple, serialize_element);
compound!(SerializeTupleStruct, serialize_field);
compound!(SerializeTupleVariant, serialize_field);
impl<'a> ser::SerializeMap for &'a mut S {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
// A skipped field must stay recoverable: like every format without field names, this one writes
// one entry per field and relies on the implementation serialising the fields it declares.
impl<'a> ser::SerializeStruct for &'a mut S {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
impl<'a> ser::SerializeStructVariant for &'a mut S {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}

struct D<'b> {
    b: &'b [u8],
}
impl<'b> D<'b> {
    fn take(&mut self, n: usize) -> Result<&'b [u8], E> {
        if self.b.len() < n {
            return Err(E("end of input".into()));
        }
        let (a, b) = self.b.split_at(n);
        self.b = b;
        Ok(a)
    }
    fn u64(&mut self) -> Result<u64, E> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> Result<u32, E> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn string(&mut self) -> Result<String, E> {
        let n = self.u64()?;
        if n > self.b.len() as u64 {
            return Err(E("end of input".into()));
        }
        String::from_utf8(self.take(n as usize)?.to_vec()).map_err(|e| E(e.to_string()))
    }
}
macro_rules! denum {
    ($($f:ident $v:ident $t:ty),*) => {$(fn $f<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let b = self.take(std::mem::size_of::<$t>())?;
        v.$v(<$t>::from_le_bytes(b.try_into().unwrap()))
    })*};
}
impl<'de, 'a> de::Deserializer<'de> for &'a mut D<'de> {
    type Error = E;
    denum!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64, deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64);
    fn is_human_readable(&self) -> bool {
        true
    }
    fn deserialize_any<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("not self-describing".into()))
    }
    fn deserialize_ignored_any<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("not self-describing".into()))
    }
    fn deserialize_bool<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.take(1)?[0] {
            0 => v.visit_bool(false),
            1 => v.visit_bool(true),
            _ => Err(E("bad bool".into())),
        }
    }
    fn deserialize_char<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let c = self.u32()?;
        v.visit_char(char::from_u32(c).ok_or_else(|| E("bad char".into()))?)
    }
    fn deserialize_str<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_string(self.string()?)
    }
    fn deserialize_string<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_string(self.string()?)
    }
    fn deserialize_bytes<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.u64()?;
        if n > self.b.len() as u64 {
            return Err(E("end of input".into()));
        }
        v.visit_bytes(self.take(n as usize)?)
    }
    fn deserialize_byte_buf<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.take(1)?[0] {
            0 => v.visit_none(),
            1 => v.visit_some(self),
            _ => Err(E("bad option".into())),
        }
    }
    fn deserialize_unit<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.u64()? as usize;
        v.visit_seq(Seq { d: self, n })
    }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq { d: self, n })
    }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq { d: self, n })
    }
    fn deserialize_map<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.u64()? as usize;
        v.visit_map(Seq { d: self, n })
    }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq { d: self, n: f.len() })
    }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_enum(self)
    }
    fn deserialize_identifier<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let i = self.u32()?;
        v.visit_u32(i)
    }
}
struct Seq<'a, 'de> {
    d: &'a mut D<'de>,
    n: usize,
}
impl<'de, 'a> de::SeqAccess<'de> for Seq<'a, 'de> {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        s.deserialize(&mut *self.d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.n)
    }
}
impl<'de, 'a> de::MapAccess<'de> for Seq<'a, 'de> {
    type Error = E;
    fn next_key_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        s.deserialize(&mut *self.d).map(Some)
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(&mut *self.d)
    }
}
impl<'de, 'a> de::EnumAccess<'de> for &'a mut D<'de> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<T: de::DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), E> {
        let v = s.deserialize(&mut *self)?;
        Ok((v, self))
    }
}
impl<'de, 'a> de::VariantAccess<'de> for &'a mut D<'de> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        s.deserialize(self)
    }
    fn tuple_variant<V: de::Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq { d: self, n })
    }
    fn struct_variant<V: de::Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq { d: self, n: f.len() })
    }
}
