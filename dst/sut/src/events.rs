//! A serializer that reports every call as an event and may be told to fail at any of them.
use serde::ser::*;
use std::fmt;

pub trait EvSink {
    /// false: the call fails
    fn ev(&mut self, kind: &'static str, text: &str) -> bool;
}

#[derive(Debug, Clone, PartialEq)]
pub struct EvError {
    pub custom: Option<String>,
}
impl fmt::Display for EvError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "event sink failure {:?}", self.custom)
    }
}
impl std::error::Error for EvError {}
impl serde::ser::Error for EvError {
    fn custom<T: fmt::Display>(msg: T) -> Self {
        EvError { custom: Some(msg.to_string()) }
    }
}

pub struct Ev<'a>(pub &'a mut dyn EvSink);
type R = Result<(), EvError>;

impl<'a> Ev<'a> {
    fn e(&mut self, k: &'static str, t: &str) -> R {
        if self.0.ev(k, t) {
            Ok(())
        } else {
            Err(EvError { custom: None })
        }
    }
}

macro_rules! prim {
    ($($f:ident : $t:ty),*) => { $( fn $f(mut self, v: $t) -> R { self.e(stringify!($f), &format!("{:?}", v)) } )* }
}

impl<'a> Serializer for Ev<'a> {
    type Ok = ();
    type Error = EvError;
    type SerializeSeq = Ev<'a>;
    type SerializeTuple = Ev<'a>;
    type SerializeTupleStruct = Ev<'a>;
    type SerializeTupleVariant = Ev<'a>;
    type SerializeMap = Ev<'a>;
    type SerializeStruct = Ev<'a>;
    type SerializeStructVariant = Ev<'a>;
    prim!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64,
          serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32,
          serialize_f64: f64, serialize_char: char);
    fn serialize_str(mut self, v: &str) -> R {
        self.e("str", v)
    }
    fn serialize_bytes(mut self, v: &[u8]) -> R {
        self.e("bytes", &format!("{:?}", v))
    }
    fn serialize_none(mut self) -> R {
        self.e("none", "")
    }
    fn serialize_some<T: ?Sized + Serialize>(mut self, v: &T) -> R {
        self.e("some", "")?;
        v.serialize(Ev(self.0))
    }
    fn serialize_unit(mut self) -> R {
        self.e("unit", "")
    }
    fn serialize_unit_struct(mut self, n: &'static str) -> R {
        self.e("unit_struct", n)
    }
    fn serialize_unit_variant(mut self, n: &'static str, _: u32, v: &'static str) -> R {
        self.e("unit_variant", n)?;
        self.e("variant", v)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(mut self, n: &'static str, v: &T) -> R {
        self.e("newtype", n)?;
        v.serialize(Ev(self.0))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(mut self, n: &'static str, _: u32, v: &'static str, x: &T) -> R {
        self.e("newtype_variant", n)?;
        self.e("variant", v)?;
        x.serialize(Ev(self.0))
    }
    fn serialize_seq(mut self, _: Option<usize>) -> Result<Ev<'a>, EvError> {
        self.e("seq", "")?;
        Ok(self)
    }
    fn serialize_tuple(mut self, _: usize) -> Result<Ev<'a>, EvError> {
        self.e("tuple", "")?;
        Ok(self)
    }
    fn serialize_tuple_struct(mut self, n: &'static str, _: usize) -> Result<Ev<'a>, EvError> {
        self.e("tuple_struct", n)?;
        Ok(self)
    }
    fn serialize_tuple_variant(mut self, n: &'static str, _: u32, _: &'static str, _: usize) -> Result<Ev<'a>, EvError> {
        self.e("tuple_variant", n)?;
        Ok(self)
    }
    fn serialize_map(mut self, _: Option<usize>) -> Result<Ev<'a>, EvError> {
        self.e("map", "")?;
        Ok(self)
    }
    fn serialize_struct(mut self, n: &'static str, _: usize) -> Result<Ev<'a>, EvError> {
        self.e("struct", n)?;
        Ok(self)
    }
    fn serialize_struct_variant(mut self, n: &'static str, _: u32, _: &'static str, _: usize) -> Result<Ev<'a>, EvError> {
        self.e("struct_variant", n)?;
        Ok(self)
    }
}
impl<'a> SerializeSeq for Ev<'a> {
    type Ok = ();
    type Error = EvError;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.e("element", "")?;
        v.serialize(Ev(&mut *self.0))
    }
    fn end(mut self) -> R {
        self.e("end_seq", "")
    }
}
impl<'a> SerializeTuple for Ev<'a> {
    type Ok = ();
    type Error = EvError;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.e("element", "")?;
        v.serialize(Ev(&mut *self.0))
    }
    fn end(mut self) -> R {
        self.e("end_tuple", "")
    }
}
impl<'a> SerializeTupleStruct for Ev<'a> {
    type Ok = ();
    type Error = EvError;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.e("field", "")?;
        v.serialize(Ev(&mut *self.0))
    }
    fn end(mut self) -> R {
        self.e("end_tuple_struct", "")
    }
}
impl<'a> SerializeTupleVariant for Ev<'a> {
    type Ok = ();
    type Error = EvError;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.e("field", "")?;
        v.serialize(Ev(&mut *self.0))
    }
    fn end(mut self) -> R {
        self.e("end_tuple_variant", "")
    }
}
impl<'a> SerializeMap for Ev<'a> {
    type Ok = ();
    type Error = EvError;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.e("key", "")?;
        v.serialize(Ev(&mut *self.0))
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.e("value", "")?;
        v.serialize(Ev(&mut *self.0))
    }
    fn end(mut self) -> R {
        self.e("end_map", "")
    }
}
impl<'a> SerializeStruct for Ev<'a> {
    type Ok = ();
    type Error = EvError;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> R {
        self.e("field", k)?;
        v.serialize(Ev(&mut *self.0))
    }
    fn end(mut self) -> R {
        self.e("end_struct", "")
    }
}
impl<'a> SerializeStructVariant for Ev<'a> {
    type Ok = ();
    type Error = EvError;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> R {
        self.e("field", k)?;
        v.serialize(Ev(&mut *self.0))
    }
    fn end(mut self) -> R {
        self.e("end_struct_variant", "")
    }
}

#[inline(never)]
pub fn serialize_events(m: &crate::Mod, sink: &mut dyn EvSink) -> R {
    m.serialize(Ev(sink))
}
