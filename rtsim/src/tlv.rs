//! A binary self-describing serde format of our own: what the format crates in use here never do to a visitor
//! (borrowed strings, not human readable, other number types) it does.
use serde::de::{self, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;
use std::io::{Read, Write};

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        crate::seams::seam(6);
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        crate::seams::seam(5);
        Error(m.to_string())
    }
}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error(e.to_string())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Content {
    Bool(bool),
    I(i64),
    U(u64),
    D(f64),
    F(f32),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Content>),
    Seq(Vec<Content>),
    Map(Vec<(Content, Content)>),
}
impl Content {
    pub fn put(&self, o: &mut Vec<u8>) {
        let len = |o: &mut Vec<u8>, t: u8, n: usize| {
            o.push(t);
            o.extend((n as u32).to_le_bytes());
        };
        match self {
            Content::Bool(b) => o.extend([b'b', *b as u8]),
            Content::I(x) => {
                o.push(b'i');
                o.extend(x.to_le_bytes())
            }
            Content::U(x) => {
                o.push(b'u');
                o.extend(x.to_le_bytes())
            }
            Content::D(x) => {
                o.push(b'd');
                o.extend(x.to_le_bytes())
            }
            Content::F(x) => {
                o.push(b'f');
                o.extend(x.to_le_bytes())
            }
            Content::Char(c) => {
                o.push(b'c');
                o.extend((*c as u32).to_le_bytes())
            }
            Content::Str(s) => {
                len(o, b's', s.len());
                o.extend(s.as_bytes())
            }
            Content::Bytes(s) => {
                len(o, b'y', s.len());
                o.extend(s)
            }
            Content::Unit => o.push(b'n'),
            Content::None => o.push(b'o'),
            Content::Some(c) => {
                o.push(b'O');
                c.put(o)
            }
            Content::Seq(v) => {
                len(o, b'q', v.len());
                v.iter().for_each(|c| c.put(o))
            }
            Content::Map(v) => {
                len(o, b'm', v.len());
                v.iter().for_each(|(k, c)| {
                    k.put(o);
                    c.put(o)
                })
            }
        }
    }
    pub fn get(r: &mut dyn Read, depth: usize) -> Result<Content, Error> {
        if depth > 16 {
            return Err(Error("too deep".into()));
        }
        fn arr<const N: usize>(r: &mut dyn Read) -> Result<[u8; N], Error> {
            let mut b = [0; N];
            r.read_exact(&mut b)?;
            Ok(b)
        }
        fn bytes(r: &mut dyn Read) -> Result<Vec<u8>, Error> {
            let n = u32::from_le_bytes(arr(r)?) as usize;
            if n > 1 << 20 {
                return Err(Error("too long".into()));
            }
            let mut v = vec![0; n];
            r.read_exact(&mut v)?;
            Ok(v)
        }
        Ok(match arr::<1>(r)?[0] {
            b'b' => Content::Bool(arr::<1>(r)?[0] != 0),
            b'i' => Content::I(i64::from_le_bytes(arr(r)?)),
            b'u' => Content::U(u64::from_le_bytes(arr(r)?)),
            b'd' => Content::D(f64::from_le_bytes(arr(r)?)),
            b'f' => Content::F(f32::from_le_bytes(arr(r)?)),
            b'c' => Content::Char(char::from_u32(u32::from_le_bytes(arr(r)?)).ok_or(Error("not a char".into()))?),
            b's' => Content::Str(String::from_utf8(bytes(r)?).map_err(|e| Error(e.to_string()))?),
            b'y' => Content::Bytes(bytes(r)?),
            b'n' => Content::Unit,
            b'o' => Content::None,
            b'O' => Content::Some(Box::new(Self::get(r, depth + 1)?)),
            b'q' => {
                let n = u32::from_le_bytes(arr(r)?);
                if n > 64 {
                    return Err(Error("too long".into()));
                }
                Content::Seq((0..n).map(|_| Self::get(r, depth + 1)).collect::<Result<_, _>>()?)
            }
            b'm' => {
                let n = u32::from_le_bytes(arr(r)?);
                if n > 64 {
                    return Err(Error("too long".into()));
                }
                Content::Map((0..n).map(|_| Ok((Self::get(r, depth + 1)?, Self::get(r, depth + 1)?))).collect::<Result<_, Error>>()?)
            }
            t => return Err(Error(format!("unknown tag {t}"))),
        })
    }
}

/// Builds the content of a value.
#[derive(Clone, Copy)]
pub struct Builder {
    pub human: bool,
}
pub struct Many(Builder, Vec<Content>);
pub struct Pairs(Builder, Vec<(Content, Content)>, Option<Content>);
impl ser::Serializer for Builder {
    type Ok = Content;
    type Error = Error;
    type SerializeSeq = Many;
    type SerializeTuple = Many;
    type SerializeTupleStruct = Many;
    type SerializeTupleVariant = Many;
    type SerializeMap = Pairs;
    type SerializeStruct = Pairs;
    type SerializeStructVariant = Pairs;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn serialize_bool(self, v: bool) -> Result<Content, Error> {
        Ok(Content::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Content, Error> {
        Ok(Content::I(v as i64))
    }
    fn serialize_i16(self, v: i16) -> Result<Content, Error> {
        Ok(Content::I(v as i64))
    }
    fn serialize_i32(self, v: i32) -> Result<Content, Error> {
        Ok(Content::I(v as i64))
    }
    fn serialize_i64(self, v: i64) -> Result<Content, Error> {
        Ok(Content::I(v))
    }
    fn serialize_u8(self, v: u8) -> Result<Content, Error> {
        Ok(Content::U(v as u64))
    }
    fn serialize_u16(self, v: u16) -> Result<Content, Error> {
        Ok(Content::U(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<Content, Error> {
        Ok(Content::U(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<Content, Error> {
        Ok(Content::U(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Content, Error> {
        Ok(Content::F(v))
    }
    fn serialize_f64(self, v: f64) -> Result<Content, Error> {
        Ok(Content::D(v))
    }
    fn serialize_char(self, v: char) -> Result<Content, Error> {
        Ok(Content::Char(v))
    }
    fn serialize_str(self, v: &str) -> Result<Content, Error> {
        crate::seams::seam(7);
        Ok(Content::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Content, Error> {
        Ok(Content::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<Content, Error> {
        Ok(Content::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Content, Error> {
        Ok(Content::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<Content, Error> {
        Ok(Content::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Content, Error> {
        Ok(Content::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Content, Error> {
        Ok(Content::Str(v.into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Content, Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Content, Error> {
        Ok(Content::Map(vec![(Content::Str(n.into()), v.serialize(self)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Many, Error> {
        Ok(Many(self, vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<Many, Error> {
        Ok(Many(self, vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Many, Error> {
        Ok(Many(self, vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Many, Error> {
        Err(Error("unsupported".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Pairs, Error> {
        Ok(Pairs(self, vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Pairs, Error> {
        Ok(Pairs(self, vec![], None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Pairs, Error> {
        Err(Error("unsupported".into()))
    }
}
macro_rules! many {
    ($($t:ident $f:ident),*) => {$(
        impl ser::$t for Many {
            type Ok = Content;
            type Error = Error;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
                self.1.push(v.serialize(self.0)?);
                Ok(())
            }
            fn end(self) -> Result<Content, Error> {
                Ok(Content::Seq(self.1))
            }
        }
    )*};
}
many!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! pairs {
    ($($t:ident),*) => {$(
        impl ser::$t for Pairs {
            type Ok = Content;
            type Error = Error;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
                self.1.push((Content::Str(k.into()), v.serialize(self.0)?));
                Ok(())
            }
            fn end(self) -> Result<Content, Error> {
                Ok(Content::Map(self.1))
            }
        }
    )*};
}
pairs!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Pairs {
    type Ok = Content;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        self.2 = Some(k.serialize(self.0)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.2.take().ok_or(Error("no key".into()))?;
        self.1.push((k, v.serialize(self.0)?));
        Ok(())
    }
    fn end(self) -> Result<Content, Error> {
        Ok(Content::Map(self.1))
    }
}
pub fn write<T: Serialize>(w: &mut dyn Write, v: &T, human: bool) -> Result<(), Error> {
    let mut o = vec![];
    v.serialize(Builder { human })?.put(&mut o);
    // In pieces, so that errors can come in between.
    let k = o.len() / 2;
    w.write_all(&o[..k])?;
    w.write_all(&o[k..])?;
    Ok(())
}

/// Bit 0: not human readable. Bits 1-2: how strings are handed over (str, borrowed, String, through Content).
pub struct Source<'a> {
    pub r: &'a mut dyn Read,
    pub mode: u8,
}
struct Handed {
    c: Content,
    mode: u8,
}
impl<'a> de::Deserializer<'static> for &mut Source<'a> {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        self.mode & 1 == 0
    }
    fn deserialize_any<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        let c = Content::get(self.r, 0)?;
        Handed { c, mode: self.mode }.deserialize_any(v)
    }
    fn deserialize_option<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        let c = Content::get(self.r, 0)?;
        Handed { c, mode: self.mode }.deserialize_option(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'static>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        <V: Visitor<'static>>
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
impl IntoDeserializer<'static, Error> for Handed {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}
impl de::Deserializer<'static> for Handed {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        self.mode & 1 == 0
    }
    fn deserialize_any<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        let mode = self.mode;
        match self.c {
            Content::Bool(b) => v.visit_bool(b),
            Content::I(x) => v.visit_i64(x),
            Content::U(x) => v.visit_u64(x),
            Content::D(x) => v.visit_f64(x),
            Content::F(x) => v.visit_f32(x),
            Content::Char(c) => v.visit_char(c),
            Content::Str(s) => match mode >> 1 & 3 {
                0 => v.visit_str(&s),
                1 => v.visit_borrowed_str(Box::leak(s.into_boxed_str())),
                _ => v.visit_string(s),
            },
            Content::Bytes(b) => v.visit_bytes(&b),
            Content::Unit => v.visit_unit(),
            Content::None => v.visit_none(),
            Content::Some(c) => v.visit_some(Handed { c: *c, mode }),
            Content::Seq(s) => v.visit_seq(de::value::SeqDeserializer::new(s.into_iter().map(|c| Handed { c, mode }))),
            Content::Map(s) => v.visit_map(de::value::MapDeserializer::new(s.into_iter().map(|(k, c)| (Handed { c: k, mode }, Handed { c, mode })))),
        }
    }
    fn deserialize_option<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        match self.c {
            Content::None | Content::Unit => v.visit_none(),
            Content::Some(c) => v.visit_some(Handed { c: *c, mode: self.mode }),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'static>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        <V: Visitor<'static>>
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
