// See witness.rs.
#![allow(missing_docs, dead_code, unused, clippy::all)]
use crate::{Date, Interval, Time, Timestamp};
use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

#[derive(Debug)]
pub struct Fault;
impl fmt::Display for Fault {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Fault {}
impl ser::Error for Fault {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Fault
    }
}
impl de::Error for Fault {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Fault
    }
}

pub enum Val {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    Text(String),
    Group(Fields),
    Nothing,
}

pub enum Leaf {
    None,
    I32(i32),
    I64(i64),
    Other,
}

pub struct Fields {
    pub n: usize,
    pub k: [&'static str; 4],
    pub a: Leaf,
    pub b: Leaf,
    pub c: Leaf,
    pub named: bool,
}

pub struct Out {
    pub hr: bool,
}
pub struct OutGroup {
    pub hr: bool,
    pub f: Fields,
}

impl OutGroup {
    fn put(&mut self, key: &'static str, v: Val) -> Result<(), Fault> {
        let l = match v {
            Val::I32(x) => Leaf::I32(x),
            Val::I64(x) => Leaf::I64(x),
            _ => Leaf::Other,
        };
        self.f.k[self.f.n] = key;
        match self.f.n {
            0 => self.f.a = l,
            1 => self.f.b = l,
            2 => self.f.c = l,
            _ => return Err(Fault),
        }
        self.f.n += 1;
        Ok(())
    }
    fn new(hr: bool, named: bool) -> Self {
        OutGroup { hr, f: Fields { n: 0, k: [""; 4], a: Leaf::None, b: Leaf::None, c: Leaf::None, named } }
    }
}
impl ser::SerializeStruct for OutGroup {
    type Ok = Val;
    type Error = Fault;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> Result<(), Fault> {
        let v = value.serialize(Out { hr: self.hr })?;
        self.put(key, v)
    }
    fn end(self) -> Result<Val, Fault> {
        Ok(Val::Group(self.f))
    }
}
impl ser::SerializeTuple for OutGroup {
    type Ok = Val;
    type Error = Fault;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Fault> {
        let v = value.serialize(Out { hr: self.hr })?;
        self.put("", v)
    }
    fn end(self) -> Result<Val, Fault> {
        Ok(Val::Group(self.f))
    }
}
impl ser::SerializeTupleStruct for OutGroup {
    type Ok = Val;
    type Error = Fault;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Fault> {
        let v = value.serialize(Out { hr: self.hr })?;
        self.put("", v)
    }
    fn end(self) -> Result<Val, Fault> {
        Ok(Val::Group(self.f))
    }
}

type No = ser::Impossible<Val, Fault>;
impl Serializer for Out {
    type Ok = Val;
    type Error = Fault;
    type SerializeSeq = No;
    type SerializeTuple = OutGroup;
    type SerializeTupleStruct = OutGroup;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = OutGroup;
    type SerializeStructVariant = No;
    fn is_human_readable(&self) -> bool {
        self.hr
    }
    fn serialize_bool(self, v: bool) -> Result<Val, Fault> {
        Ok(Val::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Val, Fault> {
        Ok(Val::I8(v))
    }
    fn serialize_i16(self, v: i16) -> Result<Val, Fault> {
        Ok(Val::I16(v))
    }
    fn serialize_i32(self, v: i32) -> Result<Val, Fault> {
        Ok(Val::I32(v))
    }
    fn serialize_i64(self, v: i64) -> Result<Val, Fault> {
        Ok(Val::I64(v))
    }
    fn serialize_i128(self, v: i128) -> Result<Val, Fault> {
        Ok(Val::I128(v))
    }
    fn serialize_u8(self, v: u8) -> Result<Val, Fault> {
        Ok(Val::U8(v))
    }
    fn serialize_u16(self, v: u16) -> Result<Val, Fault> {
        Ok(Val::U16(v))
    }
    fn serialize_u32(self, v: u32) -> Result<Val, Fault> {
        Ok(Val::U32(v))
    }
    fn serialize_u64(self, v: u64) -> Result<Val, Fault> {
        Ok(Val::U64(v))
    }
    fn serialize_u128(self, v: u128) -> Result<Val, Fault> {
        Ok(Val::U128(v))
    }
    fn serialize_f32(self, _: f32) -> Result<Val, Fault> {
        Ok(Val::Nothing)
    }
    fn serialize_f64(self, _: f64) -> Result<Val, Fault> {
        Ok(Val::Nothing)
    }
    fn serialize_char(self, _: char) -> Result<Val, Fault> {
        Ok(Val::Nothing)
    }
    fn serialize_str(self, v: &str) -> Result<Val, Fault> {
        Ok(Val::Text(v.to_string()))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<Val, Fault> {
        Ok(Val::Nothing)
    }
    fn serialize_none(self) -> Result<Val, Fault> {
        Ok(Val::Nothing)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Val, Fault> {
        Ok(Val::Nothing)
    }
    fn serialize_unit(self) -> Result<Val, Fault> {
        Ok(Val::Nothing)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val, Fault> {
        Ok(Val::Nothing)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Val, Fault> {
        Ok(Val::Nothing)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Val, Fault> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Val, Fault> {
        Ok(Val::Nothing)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<No, Fault> {
        Err(Fault)
    }
    fn serialize_tuple(self, _: usize) -> Result<OutGroup, Fault> {
        Ok(OutGroup::new(self.hr, false))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<OutGroup, Fault> {
        Ok(OutGroup::new(self.hr, false))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Fault> {
        Err(Fault)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Fault> {
        Err(Fault)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<OutGroup, Fault> {
        Ok(OutGroup::new(self.hr, true))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Fault> {
        Err(Fault)
    }
}

/// reads what was written: the bytes of a compact format have the type the reader asks for, which
/// must be the one written; `by`: 0 = as a sequence, 1..6 = as a map with its entries in any order
pub struct In {
    pub hr: bool,
    pub v: Val,
    pub by: u8,
}

macro_rules! same {
    ($f:ident, $v:ident, $k:ident) => {
        fn $f<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Fault> {
            match self.v {
                Val::$k(x) => v.$v(x),
                _ => Err(Fault),
            }
        }
    };
}
macro_rules! never {
    ($($f:ident)*) => {
        $(fn $f<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Fault> {
            Err(Fault)
        })*
    };
}

impl In {
    fn group<'de, V: de::Visitor<'de>>(self, v: V, named: bool) -> Result<V::Value, Fault> {
        match self.v {
            Val::Group(f) => {
                if f.named != named {
                    return Err(Fault);
                }
                if self.by == 0 {
                    v.visit_seq(Items { hr: self.hr, f, i: 0 })
                } else {
                    v.visit_map(Entries { hr: self.hr, f, i: 0, by: self.by })
                }
            }
            _ => Err(Fault),
        }
    }
}

impl<'de> Deserializer<'de> for In {
    type Error = Fault;
    fn is_human_readable(&self) -> bool {
        self.hr
    }
    same!(deserialize_bool, visit_bool, Bool);
    same!(deserialize_i8, visit_i8, I8);
    same!(deserialize_i16, visit_i16, I16);
    same!(deserialize_i32, visit_i32, I32);
    same!(deserialize_i64, visit_i64, I64);
    same!(deserialize_i128, visit_i128, I128);
    same!(deserialize_u8, visit_u8, U8);
    same!(deserialize_u16, visit_u16, U16);
    same!(deserialize_u32, visit_u32, U32);
    same!(deserialize_u64, visit_u64, U64);
    same!(deserialize_u128, visit_u128, U128);
    fn deserialize_str<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Fault> {
        match self.v {
            Val::Text(s) => v.visit_str(&s),
            _ => Err(Fault),
        }
    }
    fn deserialize_string<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Fault> {
        match self.v {
            Val::Text(s) => v.visit_str(&s),
            _ => Err(Fault),
        }
    }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Fault> {
        self.group(v, true)
    }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Fault> {
        self.group(v, false)
    }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Fault> {
        self.group(v, false)
    }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Fault> {
        v.visit_newtype_struct(self)
    }
    never!(deserialize_any deserialize_f32 deserialize_f64 deserialize_char deserialize_bytes deserialize_byte_buf
        deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any);
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Fault> {
        Err(Fault)
    }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Fault> {
        Err(Fault)
    }
}

impl Fields {
    fn take(&self, i: usize) -> Val {
        let l = match i {
            0 => &self.a,
            1 => &self.b,
            2 => &self.c,
            _ => &Leaf::Other,
        };
        match l {
            Leaf::I32(x) => Val::I32(*x),
            Leaf::I64(x) => Val::I64(*x),
            _ => Val::Nothing,
        }
    }
}

pub struct Items {
    pub hr: bool,
    pub f: Fields,
    pub i: usize,
}
impl<'de> de::SeqAccess<'de> for Items {
    type Error = Fault;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Fault> {
        if self.i >= self.f.n {
            return Ok(None);
        }
        let v = self.f.take(self.i);
        self.i += 1;
        let x = seed.deserialize(In { hr: self.hr, v, by: 0 })?;
        Ok(Some(x))
    }
}

pub struct Entries {
    pub hr: bool,
    pub f: Fields,
    pub i: usize,
    pub by: u8,
}
impl Entries {
    fn at(&self) -> usize {
        match (self.by, self.i) {
            (1, i) => i,
            (2, 0) => 0,
            (2, 1) => 2,
            (2, _) => 1,
            (3, 0) => 1,
            (3, 1) => 0,
            (3, _) => 2,
            (4, 0) => 1,
            (4, 1) => 2,
            (4, _) => 0,
            (5, 0) => 2,
            (5, 1) => 0,
            (5, _) => 1,
            (_, 0) => 2,
            (_, 1) => 1,
            (_, _) => 0,
        }
    }
}
pub struct Key(&'static str);
impl<'de> Deserializer<'de> for Key {
    type Error = Fault;
    fn deserialize_identifier<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Fault> {
        v.visit_str(self.0)
    }
    fn deserialize_str<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Fault> {
        v.visit_str(self.0)
    }
    never!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8
        deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char
        deserialize_string deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq
        deserialize_map deserialize_ignored_any);
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Fault> {
        Err(Fault)
    }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Fault> {
        Err(Fault)
    }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Fault> {
        Err(Fault)
    }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, Fault> {
        Err(Fault)
    }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Fault> {
        Err(Fault)
    }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Fault> {
        Err(Fault)
    }
}
impl<'de> de::MapAccess<'de> for Entries {
    type Error = Fault;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Fault> {
        if self.i >= self.f.n {
            return Ok(None);
        }
        let k = self.f.k[self.at()];
        let x = seed.deserialize(Key(k))?;
        Ok(Some(x))
    }
    fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Fault> {
        let v = self.f.take(self.at());
        self.i += 1;
        seed.deserialize(In { hr: self.hr, v, by: 0 })
    }
}

macro_rules! both {
    ($m:ident, $t:ty) => {
        pub fn $m(v: $t, hr: bool, by: u8) -> Result<$t, Fault> {
            let w = v.serialize(Out { hr })?;
            <$t as Deserialize>::deserialize(In { hr, v: w, by })
        }
    };
}
both!(date, Date);
both!(time, Time);
both!(timestamp, Timestamp);
both!(interval, Interval);
