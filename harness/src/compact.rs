//! A serde format that uses the freedom formats have: fields in reverse order, field names as bytes or borrowed strings,
//! sequences without known lengths, integers in the smallest type that holds them (maybe signed).
use serde::de::{DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde_json::Value;

type Error = serde::de::value::Error;

#[derive(Clone, Copy)]
pub struct Compact<'a>(pub &'a Value);

impl<'de> Deserializer<'de> for Compact<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Value::Null => v.visit_unit(),
            Value::Bool(b) => v.visit_bool(*b),
            Value::String(s) => v.visit_borrowed_str(s),
            Value::Number(n) => match n.as_u64() {
                Some(x) if x < 100 => v.visit_i8(x as i8),
                Some(x) if x < 1 << 8 => v.visit_u8(x as u8),
                Some(x) if x < 1 << 15 => v.visit_i16(x as i16),
                Some(x) if x < 1 << 16 => v.visit_u16(x as u16),
                Some(x) if x < 1 << 32 => v.visit_u32(x as u32),
                Some(x) if x < 1 << 40 => v.visit_i64(x as i64),
                Some(x) => v.visit_u64(x),
                None => match n.as_i64() {
                    Some(x) => v.visit_i64(x),
                    None => v.visit_f64(n.as_f64().unwrap()),
                },
            },
            Value::Array(a) => v.visit_seq(Items(a.iter())),
            Value::Object(o) => v.visit_map(Fields(o.iter().rev().collect(), 0)),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Value::Null => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        name: &'static str,
        variants: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Error> {
        self.0.deserialize_enum(name, variants, v).map_err(|e| serde::de::Error::custom(e))
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct identifier ignored_any
    }
}

struct Items<'a>(std::slice::Iter<'a, Value>);
impl<'de> SeqAccess<'de> for Items<'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        self.0.next().map(|x| seed.deserialize(Compact(x))).transpose()
    }
    // no size_hint
}

struct Fields<'a>(Vec<(&'a String, &'a Value)>, usize);
impl<'de> MapAccess<'de> for Fields<'de> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        let Some((k, _)) = self.0.get(self.1) else { return Ok(None) };
        self.1 += 1;
        let r = if self.1 % 2 == 0 {
            seed.deserialize(Name(k.as_bytes()))
        } else {
            seed.deserialize(serde::de::value::BorrowedStrDeserializer::new(k.as_str()))
        };
        r.map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Error> {
        seed.deserialize(Compact(self.0[self.1 - 1].1))
    }
}

/// a field name as bytes
struct Name<'a>(&'a [u8]);
impl<'de> Deserializer<'de> for Name<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_borrowed_bytes(self.0)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        std::str::from_utf8(self.0).unwrap().into_deserializer().deserialize_any(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_str(v)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct identifier ignored_any option newtype_struct enum
    }
}
