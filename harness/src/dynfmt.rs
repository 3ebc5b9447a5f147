//! A data format of its own: records what is serialized, and feeds a reference
//! tree into a deserializer by every method of the visitors.
use crate::{core::*, model::*};
use serde::{
    de::{self, value::Error, DeserializeSeed, MapAccess, SeqAccess, Visitor},
    forward_to_deserialize_any,
    ser::{self, Serialize, Serializer},
};
use std::cell::{Cell, RefCell};

// ------------------------------------------------------------------ recorder

/// Serializes into the reference tree, the lengths have to be right.
pub struct Rec;

pub struct RecSeq(Option<usize>, Vec<N>, &'static str);
pub struct RecMap(Option<usize>, Vec<(N, N)>, Option<N>, &'static str);

fn err<T>(s: impl std::fmt::Display) -> Result<T, Error> {
    Err(ser::Error::custom(s))
}

fn named(name: &'static str, n: N) -> N {
    match name {
        "" => n,
        _ => V::Map(vec![(N::str(name), n)]).into(),
    }
}

macro_rules! ints {
    ($($m:ident($t:ty))+) => {$(
        fn $m(self, v: $t) -> Result<N, Error> {
            match i128::try_from(v) {
                Ok(i) => Ok(V::Int(i).into()),
                Err(_) => err("beyond the reference"),
            }
        }
    )+};
}

impl Serializer for Rec {
    type Ok = N;
    type Error = Error;
    type SerializeSeq = RecSeq;
    type SerializeTuple = RecSeq;
    type SerializeTupleStruct = RecSeq;
    type SerializeTupleVariant = RecSeq;
    type SerializeMap = RecMap;
    type SerializeStruct = RecMap;
    type SerializeStructVariant = RecMap;

    ints! {
        serialize_i8(i8)
        serialize_i16(i16)
        serialize_i32(i32)
        serialize_i64(i64)
        serialize_i128(i128)
        serialize_u8(u8)
        serialize_u16(u16)
        serialize_u32(u32)
        serialize_u64(u64)
        serialize_u128(u128)
    }
    fn serialize_bool(self, v: bool) -> Result<N, Error> {
        Ok(V::Bool(v).into())
    }
    fn serialize_f32(self, v: f32) -> Result<N, Error> {
        Ok(V::Float(v as f64).into())
    }
    fn serialize_f64(self, v: f64) -> Result<N, Error> {
        Ok(V::Float(v).into())
    }
    fn serialize_char(self, v: char) -> Result<N, Error> {
        Ok(N::str(&v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<N, Error> {
        Ok(N::str(v))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<N, Error> {
        err("bytes")
    }
    fn serialize_none(self) -> Result<N, Error> {
        Ok(V::Null.into())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<N, Error> {
        v.serialize(Rec)
    }
    fn serialize_unit(self) -> Result<N, Error> {
        Ok(V::Null.into())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<N, Error> {
        Ok(V::Null.into())
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<N, Error> {
        Ok(N::str(v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<N, Error> {
        v.serialize(Rec)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<N, Error> {
        Ok(named(n, v.serialize(Rec)?))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<RecSeq, Error> {
        Ok(RecSeq(n, vec![], ""))
    }
    fn serialize_tuple(self, n: usize) -> Result<RecSeq, Error> {
        Ok(RecSeq(Some(n), vec![], ""))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<RecSeq, Error> {
        Ok(RecSeq(Some(n), vec![], ""))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, n: usize) -> Result<RecSeq, Error> {
        Ok(RecSeq(Some(n), vec![], v))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<RecMap, Error> {
        Ok(RecMap(n, vec![], None, ""))
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<RecMap, Error> {
        Ok(RecMap(Some(n), vec![], None, ""))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, n: usize) -> Result<RecMap, Error> {
        Ok(RecMap(Some(n), vec![], None, v))
    }
}

macro_rules! seqs {
    ($($t:ident $m:ident)+) => {$(
        impl ser::$t for RecSeq {
            type Ok = N;
            type Error = Error;
            fn $m<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
                self.1.push(v.serialize(Rec)?);
                Ok(())
            }
            fn end(self) -> Result<N, Error> {
                match self.0 {
                    Some(n) if n != self.1.len() => err(format!("announced {n} items instead of {}", self.1.len())),
                    _ => Ok(named(self.2, V::Seq(self.1).into())),
                }
            }
        }
    )+};
}
seqs! {
    SerializeSeq serialize_element
    SerializeTuple serialize_element
    SerializeTupleStruct serialize_field
    SerializeTupleVariant serialize_field
}

impl RecMap {
    fn done(self) -> Result<N, Error> {
        match self.0 {
            _ if self.2.is_some() => err("key without a value"),
            Some(n) if n != self.1.len() => err(format!("announced {n} entries instead of {}", self.1.len())),
            _ => Ok(named(self.3, V::Map(self.1).into())),
        }
    }
}
impl ser::SerializeMap for RecMap {
    type Ok = N;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        if self.2.is_some() {
            return err("key without a value");
        }
        self.2 = Some(k.serialize(Rec)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let Some(k) = self.2.take() else { return err("value without a key") };
        self.1.push((k, v.serialize(Rec)?));
        Ok(())
    }
    fn end(self) -> Result<N, Error> {
        self.done()
    }
}
macro_rules! structs {
    ($($t:ident)+) => {$(
        impl ser::$t for RecMap {
            type Ok = N;
            type Error = Error;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
                self.1.push((N::str(k), v.serialize(Rec)?));
                Ok(())
            }
            fn end(self) -> Result<N, Error> {
                self.done()
            }
        }
    )+};
}
structs!(SerializeStruct SerializeStructVariant);

// ------------------------------------------------------------------ feeder

/// The choices of the feeder, and what it did.
pub struct Plan {
    pub r: RefCell<Rng>,
    /// Fail at this call of a visitor.
    pub fail: Option<usize>,
    pub calls: Cell<usize>,
    pub repeat: bool,
    pub repeated: Cell<usize>,
}

impl Plan {
    pub fn new(r: &mut Rng, fail: Option<usize>, repeat: bool) -> Self {
        Self { r: RefCell::new(Rng::new(r.next())), fail, calls: Cell::new(0), repeat, repeated: Cell::new(0) }
    }
    fn below(&self, n: usize) -> usize {
        self.r.borrow_mut().below(n)
    }
    fn hint(&self, n: usize) -> Option<usize> {
        [None, Some(n), Some(n), Some(0), Some(usize::MAX)][self.below(5)]
    }
    fn step(&self) -> Result<(), Error> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.fail == Some(n) {
            Err(de::Error::custom("planned failure"))
        } else {
            Ok(())
        }
    }
}

pub struct Feed<'a>(pub &'a N, pub &'a Plan);

impl<'a> de::Deserializer<'a> for Feed<'a> {
    type Error = Error;

    fn deserialize_any<X: Visitor<'a>>(self, v: X) -> Result<X::Value, Error> {
        let p = self.1;
        p.step()?;
        if p.below(9) == 0 {
            return v.visit_some(Feed(self.0, p));
        }
        match &self.0.v {
            V::Null => match p.below(2) {
                0 => v.visit_none(),
                _ => v.visit_unit(),
            },
            V::Bool(b) => v.visit_bool(*b),
            V::Int(i) => loop {
                macro_rules! width {
                    ($($n:literal $m:ident $t:ty)+) => {
                        match p.below(10) {
                            $(#[allow(irrefutable_let_patterns)] $n => if let Ok(i) = <$t>::try_from(*i) {
                                return v.$m(i);
                            })+
                            _ => {}
                        }
                    };
                }
                width! {
                    0 visit_i8 i8
                    1 visit_i16 i16
                    2 visit_i32 i32
                    3 visit_i64 i64
                    4 visit_i128 i128
                    5 visit_u8 u8
                    6 visit_u16 u16
                    7 visit_u32 u32
                    8 visit_u64 u64
                    9 visit_u128 u128
                }
            },
            V::Float(f) => {
                if (*f as f32 as f64).to_bits() == f.to_bits() && p.below(2) == 0 {
                    v.visit_f32(*f as f32)
                } else {
                    v.visit_f64(*f)
                }
            }
            V::Str(s) => match p.below(4) {
                0 => v.visit_str(s),
                1 => v.visit_string(s.clone()),
                2 => match (s.chars().next(), s.chars().nth(1)) {
                    (Some(c), None) => v.visit_char(c),
                    _ => v.visit_str(s),
                },
                _ => v.visit_borrowed_str(s),
            },
            V::Seq(s) => v.visit_seq(Items(s, p)),
            V::Map(m) => v.visit_map(Pairs(m, None, false, p)),
            V::Alias(_) => err("alias"),
        }
    }

    forward_to_deserialize_any! {
        <X: Visitor<'a>>
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

struct Items<'a>(&'a [N], &'a Plan);

impl<'a> SeqAccess<'a> for Items<'a> {
    type Error = Error;
    fn next_element_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        self.1.step()?;
        let Some((n, rest)) = self.0.split_first() else { return Ok(None) };
        self.0 = rest;
        s.deserialize(Feed(n, self.1)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.1.hint(self.0.len())
    }
}

static STALE: N = N { v: V::Bool(false), tag: None, pos: None, anchor: None };

/// The entries; some of them with another value in front of the last one.
struct Pairs<'a>(&'a [(N, N)], Option<&'a N>, bool, &'a Plan);

impl<'a> MapAccess<'a> for Pairs<'a> {
    type Error = Error;
    fn next_key_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        self.3.step()?;
        let Some(((k, v), rest)) = self.0.split_first() else { return Ok(None) };
        if self.3.repeat && !self.2 && self.3.below(3) == 0 {
            self.3.repeated.set(self.3.repeated.get() + 1);
            (self.1, self.2) = (Some(&STALE), true);
        } else {
            (self.0, self.1, self.2) = (rest, Some(v), false);
        }
        s.deserialize(Feed(k, self.3)).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<S::Value, Error> {
        self.3.step()?;
        let Some(v) = self.1.take() else { return err("value without a key") };
        s.deserialize(Feed(v, self.3))
    }
    fn size_hint(&self) -> Option<usize> {
        self.3.hint(self.0.len())
    }
}
