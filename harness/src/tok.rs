//! A deserializer over an in-memory tree, human-readable or compact, that can
//! also misbehave: report errors, panic, or lie about lengths.
use serde::de::{self, DeserializeSeed, MapAccess, SeqAccess, Visitor};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    U(u64),
    I(i64),
    F(f64),
    Bool(bool),
    Str(String),
    Unit,
    Seq(Vec<V>),
    /// a sequence announcing this many elements
    Lie(usize, Vec<V>),
    Map(Vec<(V, V)>),
    Fail,
    Panic,
}
#[derive(Debug)]
pub struct Err(pub String);
impl fmt::Display for Err {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Err {}
impl de::Error for Err {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Err(m.to_string())
    }
}

pub struct De<'a> {
    pub v: &'a V,
    pub human: bool,
}
impl<'de, 'a> de::Deserializer<'de> for De<'a> {
    type Error = Err;
    fn deserialize_any<X: Visitor<'de>>(self, x: X) -> Result<X::Value, Err> {
        match self.v {
            V::U(u) => x.visit_u64(*u),
            V::I(i) => x.visit_i64(*i),
            V::F(f) => x.visit_f64(*f),
            V::Bool(b) => x.visit_bool(*b),
            V::Str(s) => x.visit_str(s),
            V::Unit => x.visit_unit(),
            V::Seq(s) => x.visit_seq(Acc { it: s.iter(), human: self.human, hint: Some(s.len()) }),
            V::Lie(n, s) => x.visit_seq(Acc { it: s.iter(), human: self.human, hint: Some(*n) }),
            V::Map(m) => x.visit_map(MAcc { it: m.iter(), val: None, human: self.human }),
            V::Fail => Result::Err(Err("injected failure".into())),
            V::Panic => panic!("injected: decoder fails"),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
    // as formats that rely on the announced shape: a pair is asked for as a
    // pair, a struct has no other fields than the announced ones
    fn deserialize_tuple<X: Visitor<'de>>(self, n: usize, x: X) -> Result<X::Value, Err> {
        match self.v {
            V::Seq(s) if s.len() == 2 && n != 2 => Result::Err(Err(format!("{} elements where a tuple of {} is asked for", s.len(), n))),
            _ => self.deserialize_any(x),
        }
    }
    fn deserialize_struct<X: Visitor<'de>>(self, _: &'static str, fields: &'static [&'static str], x: X) -> Result<X::Value, Err> {
        match self.v {
            V::Map(m) if m.iter().any(|e| matches!(&e.0, V::Str(s) if (s == "width" || s == "digits") && !fields.contains(&&s[..]))) => {
                Result::Err(Err("a field that the struct does not announce".into()))
            }
            _ => self.deserialize_any(x),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple_struct map enum identifier ignored_any
    }
}
struct Acc<'a> {
    it: std::slice::Iter<'a, V>,
    human: bool,
    hint: Option<usize>,
}
impl<'de, 'a> SeqAccess<'de> for Acc<'a> {
    type Error = Err;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Err> {
        match self.it.next() {
            Some(v) => s.deserialize(De { v, human: self.human }).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
struct MAcc<'a> {
    it: std::slice::Iter<'a, (V, V)>,
    val: Option<&'a V>,
    human: bool,
}
impl<'de, 'a> MapAccess<'de> for MAcc<'a> {
    type Error = Err;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Err> {
        match self.it.next() {
            Some((k, v)) => {
                self.val = Some(v);
                s.deserialize(De { v: k, human: self.human }).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Err> {
        match self.val.take() {
            Some(v) => s.deserialize(De { v, human: self.human }),
            None => Result::Err(Err("value before key".into())),
        }
    }
}
