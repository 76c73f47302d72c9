//! Verification-only codec (not part of upstream cosmwasm-std).
//!
//! A self-describing, injective binary encoding of the serde data model with the same shape
//! conventions as the JSON codec it stands in for (externally tagged enums, transparent options
//! and newtypes, structs as maps, unknown fields skippable). Scalars are fixed width so that
//! symbolic values survive a round trip through bytes.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

const T_NULL: u8 = 0;
const T_BOOL: u8 = 1;
const T_U64: u8 = 2;
const T_I64: u8 = 3;
const T_U128: u8 = 4;
const T_I128: u8 = 5;
const T_STR: u8 = 6;
const T_BYTES: u8 = 7;
const T_SEQ: u8 = 8;
const T_MAP: u8 = 9;

#[derive(Debug)]
pub struct Error(&'static str);

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(_msg: T) -> Self {
        Error("custom")
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(_msg: T) -> Self {
        Error("custom")
    }
    fn invalid_type(_u: de::Unexpected, _e: &dyn de::Expected) -> Self {
        Error("invalid type")
    }
    fn invalid_value(_u: de::Unexpected, _e: &dyn de::Expected) -> Self {
        Error("invalid value")
    }
    fn invalid_length(_l: usize, _e: &dyn de::Expected) -> Self {
        Error("invalid length")
    }
    fn unknown_variant(_v: &str, _e: &'static [&'static str]) -> Self {
        Error("unknown variant")
    }
    fn unknown_field(_v: &str, _e: &'static [&'static str]) -> Self {
        Error("unknown field")
    }
    fn missing_field(_v: &'static str) -> Self {
        Error("missing field")
    }
    fn duplicate_field(_v: &'static str) -> Self {
        Error("duplicate field")
    }
}

pub struct Ser {
    out: Vec<u8>,
}

pub fn to_vec<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>, Error> {
    let mut s = Ser {
        out: Vec::with_capacity(256),
    };
    v.serialize(&mut s)?;
    Ok(s.out)
}

impl Ser {
    #[inline(never)]
    fn tag(&mut self, t: u8) {
        self.out.push(t)
    }
    #[inline(never)]
    fn raw(&mut self, b: &[u8]) {
        self.out.extend_from_slice(b)
    }
    #[inline(never)]
    fn len(&mut self, n: usize) {
        self.out.extend_from_slice(&(n as u32).to_le_bytes())
    }
    #[inline(never)]
    fn put_str(&mut self, s: &str) {
        self.tag(T_STR);
        self.len(s.len());
        self.raw(s.as_bytes());
    }
    #[inline(never)]
    fn put_u64(&mut self, v: u64) {
        self.tag(T_U64);
        self.raw(&v.to_le_bytes());
    }
    #[inline(never)]
    fn put_i64(&mut self, v: i64) {
        self.tag(T_I64);
        self.raw(&v.to_le_bytes());
    }
    fn patch(&mut self, at: usize, n: u32) {
        self.out[at..at + 4].copy_from_slice(&n.to_le_bytes());
    }
}

pub struct Comp<'a> {
    s: &'a mut Ser,
    at: usize,
    n: u32,
}

impl<'a> Comp<'a> {
    fn new(s: &'a mut Ser, tag: u8) -> Self {
        s.tag(tag);
        let at = s.out.len();
        s.len(0);
        Comp { s, at, n: 0 }
    }
    fn done(self) -> Result<(), Error> {
        let (at, n) = (self.at, self.n);
        self.s.patch(at, n);
        Ok(())
    }
}

impl<'a> ser::Serializer for &'a mut Ser {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Comp<'a>;
    type SerializeTuple = Comp<'a>;
    type SerializeTupleStruct = Comp<'a>;
    type SerializeTupleVariant = Comp<'a>;
    type SerializeMap = Comp<'a>;
    type SerializeStruct = Comp<'a>;
    type SerializeStructVariant = Comp<'a>;

    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, v: bool) -> Result<(), Error> {
        self.tag(T_BOOL);
        self.out.push(v as u8);
        Ok(())
    }
    fn serialize_i8(self, v: i8) -> Result<(), Error> {
        self.put_i64(v as i64);
        Ok(())
    }
    fn serialize_i16(self, v: i16) -> Result<(), Error> {
        self.put_i64(v as i64);
        Ok(())
    }
    fn serialize_i32(self, v: i32) -> Result<(), Error> {
        self.put_i64(v as i64);
        Ok(())
    }
    fn serialize_i64(self, v: i64) -> Result<(), Error> {
        self.put_i64(v);
        Ok(())
    }
    fn serialize_u8(self, v: u8) -> Result<(), Error> {
        self.put_u64(v as u64);
        Ok(())
    }
    fn serialize_u16(self, v: u16) -> Result<(), Error> {
        self.put_u64(v as u64);
        Ok(())
    }
    fn serialize_u32(self, v: u32) -> Result<(), Error> {
        self.put_u64(v as u64);
        Ok(())
    }
    fn serialize_u64(self, v: u64) -> Result<(), Error> {
        self.put_u64(v);
        Ok(())
    }
    fn serialize_u128(self, v: u128) -> Result<(), Error> {
        self.tag(T_U128);
        self.raw(&v.to_le_bytes());
        Ok(())
    }
    fn serialize_i128(self, v: i128) -> Result<(), Error> {
        self.tag(T_I128);
        self.raw(&v.to_le_bytes());
        Ok(())
    }
    fn serialize_f32(self, _v: f32) -> Result<(), Error> {
        Err(Error("float"))
    }
    fn serialize_f64(self, _v: f64) -> Result<(), Error> {
        Err(Error("float"))
    }
    fn serialize_char(self, v: char) -> Result<(), Error> {
        let mut b = [0u8; 4];
        let s = v.encode_utf8(&mut b);
        self.put_str(s);
        Ok(())
    }
    fn serialize_str(self, v: &str) -> Result<(), Error> {
        self.put_str(v);
        Ok(())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Error> {
        self.tag(T_BYTES);
        self.len(v.len());
        self.raw(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), Error> {
        self.tag(T_NULL);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Error> {
        self.tag(T_NULL);
        Ok(())
    }
    fn serialize_unit_struct(self, _n: &'static str) -> Result<(), Error> {
        self.tag(T_NULL);
        Ok(())
    }
    fn serialize_unit_variant(self, _n: &'static str, _i: u32, v: &'static str) -> Result<(), Error> {
        self.put_str(v);
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _n: &'static str, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _n: &'static str,
        _i: u32,
        variant: &'static str,
        v: &T,
    ) -> Result<(), Error> {
        self.tag(T_MAP);
        self.len(1);
        self.put_str(variant);
        v.serialize(self)
    }
    fn serialize_seq(self, _l: Option<usize>) -> Result<Comp<'a>, Error> {
        Ok(Comp::new(self, T_SEQ))
    }
    fn serialize_tuple(self, _l: usize) -> Result<Comp<'a>, Error> {
        Ok(Comp::new(self, T_SEQ))
    }
    fn serialize_tuple_struct(self, _n: &'static str, _l: usize) -> Result<Comp<'a>, Error> {
        Ok(Comp::new(self, T_SEQ))
    }
    fn serialize_tuple_variant(self, _n: &'static str, _i: u32, v: &'static str, _l: usize) -> Result<Comp<'a>, Error> {
        self.tag(T_MAP);
        self.len(1);
        self.put_str(v);
        Ok(Comp::new(self, T_SEQ))
    }
    fn serialize_map(self, _l: Option<usize>) -> Result<Comp<'a>, Error> {
        Ok(Comp::new(self, T_MAP))
    }
    fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<Comp<'a>, Error> {
        Ok(Comp::new(self, T_MAP))
    }
    fn serialize_struct_variant(self, _n: &'static str, _i: u32, v: &'static str, _l: usize) -> Result<Comp<'a>, Error> {
        self.tag(T_MAP);
        self.len(1);
        self.put_str(v);
        Ok(Comp::new(self, T_MAP))
    }
}

impl ser::SerializeSeq for Comp<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.n += 1;
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.done()
    }
}
impl ser::SerializeTuple for Comp<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.n += 1;
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.done()
    }
}
impl ser::SerializeTupleStruct for Comp<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.n += 1;
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.done()
    }
}
impl ser::SerializeTupleVariant for Comp<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.n += 1;
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.done()
    }
}
impl ser::SerializeMap for Comp<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.n += 1;
        v.serialize(&mut *self.s)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.done()
    }
}
impl ser::SerializeStruct for Comp<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.n += 1;
        self.s.put_str(k);
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.done()
    }
}
impl ser::SerializeStructVariant for Comp<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.n += 1;
        self.s.put_str(k);
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.done()
    }
}

pub struct De<'de> {
    b: &'de [u8],
    p: usize,
}

pub fn from_slice<T: de::DeserializeOwned>(b: &[u8]) -> Result<T, Error> {
    let mut d = De { b, p: 0 };
    let v = T::deserialize(&mut d)?;
    if d.p != b.len() {
        return Err(Error("trailing bytes"));
    }
    Ok(v)
}

const EOF: Error = Error("eof");

impl<'de> De<'de> {
    #[inline(never)]
    fn take(&mut self, n: usize) -> Result<&'de [u8], Error> {
        if self.b.len() - self.p < n {
            return Err(EOF);
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    #[inline(never)]
    fn tag(&mut self) -> Result<u8, Error> {
        Ok(self.take(1)?[0])
    }
    fn peek(&self) -> Result<u8, Error> {
        if self.p < self.b.len() {
            Ok(self.b[self.p])
        } else {
            Err(EOF)
        }
    }
    #[inline(never)]
    fn len(&mut self) -> Result<usize, Error> {
        let mut a = [0u8; 4];
        a.copy_from_slice(self.take(4)?);
        Ok(u32::from_le_bytes(a) as usize)
    }
    #[inline(never)]
    fn get_str(&mut self) -> Result<&'de str, Error> {
        if self.tag()? != T_STR {
            return Err(Error("expected string"));
        }
        self.str_body()
    }
    #[inline(never)]
    fn str_body(&mut self) -> Result<&'de str, Error> {
        let n = self.len()?;
        let b = self.take(n)?;
        // SAFETY: only produced by Ser from a &str
        Ok(unsafe { std::str::from_utf8_unchecked(b) })
    }
    #[inline(never)]
    fn u64_body(&mut self) -> Result<u64, Error> {
        let mut a = [0u8; 8];
        a.copy_from_slice(self.take(8)?);
        Ok(u64::from_le_bytes(a))
    }
    #[inline(never)]
    fn u128_body(&mut self) -> Result<u128, Error> {
        let mut a = [0u8; 16];
        a.copy_from_slice(self.take(16)?);
        Ok(u128::from_le_bytes(a))
    }
    #[inline(never)]
    fn skip(&mut self) -> Result<(), Error> {
        match self.tag()? {
            T_NULL => {}
            T_BOOL => {
                self.take(1)?;
            }
            T_U64 | T_I64 => {
                self.take(8)?;
            }
            T_U128 | T_I128 => {
                self.take(16)?;
            }
            T_STR | T_BYTES => {
                let n = self.len()?;
                self.take(n)?;
            }
            T_SEQ => {
                let n = self.len()?;
                for _ in 0..n {
                    self.skip()?;
                }
            }
            T_MAP => {
                let n = self.len()?;
                for _ in 0..2 * n {
                    self.skip()?;
                }
            }
            _ => return Err(Error("bad tag")),
        }
        Ok(())
    }
}

struct Acc<'a, 'de> {
    d: &'a mut De<'de>,
    left: usize,
}

impl<'de> de::SeqAccess<'de> for Acc<'_, 'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(&mut *self.d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}
impl<'de> de::MapAccess<'de> for Acc<'_, 'de> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Error> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(&mut *self.d).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, Error> {
        s.deserialize(&mut *self.d)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}

struct EnumAcc<'a, 'de> {
    d: &'a mut De<'de>,
}
impl<'a, 'de> de::EnumAccess<'de> for EnumAcc<'a, 'de> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, Self), Error> {
        let v = s.deserialize(&mut *self.d)?;
        Ok((v, self))
    }
}
impl<'de> de::VariantAccess<'de> for EnumAcc<'_, 'de> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        // `{"variant": {}}` / null body for a unit variant
        if self.d.peek()? == T_NULL {
            self.d.p += 1;
            Ok(())
        } else {
            Err(Error("expected unit variant"))
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, Error> {
        s.deserialize(self.d)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _l: usize, v: V) -> Result<V::Value, Error> {
        de::Deserializer::deserialize_seq(self.d, v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _f: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        de::Deserializer::deserialize_map(self.d, v)
    }
}

macro_rules! de_int {
    ($($f:ident)*) => { $(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            match self.tag()? {
                T_U64 => { let x = self.u64_body()?; v.visit_u64(x) }
                T_I64 => { let x = self.u64_body()?; v.visit_i64(x as i64) }
                T_U128 => { let x = self.u128_body()?; v.visit_u128(x) }
                T_I128 => { let x = self.u128_body()?; v.visit_i128(x as i128) }
                _ => Err(Error("expected integer")),
            }
        }
    )* }
}

impl<'de> de::Deserializer<'de> for &mut De<'de> {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.peek()? {
            T_NULL => {
                self.p += 1;
                v.visit_unit()
            }
            T_BOOL => self.deserialize_bool(v),
            T_U64 | T_I64 | T_U128 | T_I128 => self.deserialize_u64(v),
            T_STR => self.deserialize_str(v),
            T_BYTES => self.deserialize_bytes(v),
            T_SEQ => self.deserialize_seq(v),
            T_MAP => self.deserialize_map(v),
            _ => Err(Error("bad tag")),
        }
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.tag()? != T_BOOL {
            return Err(Error("expected bool"));
        }
        let b = self.take(1)?[0];
        v.visit_bool(b != 0)
    }
    de_int!(deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128
            deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128);
    fn deserialize_f32<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> {
        Err(Error("float"))
    }
    fn deserialize_f64<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> {
        Err(Error("float"))
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let s = self.get_str()?;
        v.visit_str(s)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let s = self.get_str()?;
        v.visit_str(s)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let s = self.get_str()?;
        v.visit_str(s)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.tag()? != T_BYTES {
            return Err(Error("expected bytes"));
        }
        let n = self.len()?;
        let b = self.take(n)?;
        v.visit_bytes(b)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.peek()? == T_NULL {
            self.p += 1;
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.tag()? != T_NULL {
            return Err(Error("expected null"));
        }
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, Error> {
        self.deserialize_unit(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.tag()? != T_SEQ {
            return Err(Error("expected seq"));
        }
        let left = self.len()?;
        v.visit_seq(Acc { d: self, left })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _l: usize, v: V) -> Result<V::Value, Error> {
        self.deserialize_seq(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _n: &'static str, _l: usize, v: V) -> Result<V::Value, Error> {
        self.deserialize_seq(v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.tag()? != T_MAP {
            return Err(Error("expected map"));
        }
        let left = self.len()?;
        v.visit_map(Acc { d: self, left })
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _n: &'static str,
        _f: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Error> {
        self.deserialize_map(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _n: &'static str,
        _vs: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Error> {
        match self.peek()? {
            T_STR => {
                let s = self.get_str()?;
                v.visit_enum(s.into_deserializer())
            }
            T_MAP => {
                self.p += 1;
                if self.len()? != 1 {
                    return Err(Error("expected one variant"));
                }
                v.visit_enum(EnumAcc { d: self })
            }
            _ => Err(Error("expected enum")),
        }
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let s = self.get_str()?;
        v.visit_str(s)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.skip()?;
        v.visit_unit()
    }
}
