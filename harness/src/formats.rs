//! Reading from serde formats other than YAML: C32.

use compose_spec::{Compose, ItemOrList, ShortOrLong, YamlValue};
use indexmap::IndexMap;
use proptest::prelude::*;
use serde::{
    de::{self, DeserializeOwned, DeserializeSeed, IntoDeserializer, MapAccess, SeqAccess, Visitor},
    Deserializer,
};
use serde_yaml::mapping;

use crate::{
    docgen::{self, choices, extra, Choices, Extra, Src},
    ensure, ensure_eq, fail,
    fw::{sub, Cov, Property, Res},
    lists, panics,
    whole::shown,
};

type Error = de::value::Error;

/// How a format hands over what it read.
#[derive(Clone, Copy, Debug)]
struct Style {
    text: Text,
    /// Integers come in the smallest type that holds them, rather than in 64 bits.
    narrow: bool,
    /// Integers come signed where a signed type holds them.
    signed: bool,
    /// Nothing comes as an absent option, rather than as a unit.
    option: bool,
    /// The number of entries is known up front.
    sized: bool,
    /// The whole value comes wrapped up, which not every type takes.
    wrap: Wrap,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Wrap {
    No,
    Some,
    Newtype,
}

impl Style {
    /// Values may be rejected which are not when they come in another way.
    fn picky(&self, v: &YamlValue) -> bool {
        (self.signed && holds(v, &|v| v.is_u64())) || (matches!(self.text, Text::Bytes(_)) && holds(v, &YamlValue::is_string)) || self.wrap != Wrap::No
    }
}

#[derive(Clone, Copy, Debug)]
enum Text {
    Borrowed,
    Copied,
    Owned,
    /// As bytes, in one of these three ways, which not every setting takes.
    Bytes(u8),
}

fn style(s: &mut Src) -> Style {
    Style { text: [Text::Borrowed, Text::Copied, Text::Owned][s.n(3)], wrap: Wrap::No, narrow: s.chance(50), signed: s.chance(20), option: s.chance(50), sized: s.chance(50) }
}

/// A style which may also be one that not every type takes.
fn odd_style(s: &mut Src) -> Style {
    let mut style = style(s);
    if s.chance(30) {
        style.text = Text::Bytes(s.n(3) as u8);
    }
    if s.chance(20) {
        style.wrap = [Wrap::Some, Wrap::Newtype][s.n(2)];
    }
    style
}

/// A self-describing format with the same data model as YAML.
#[derive(Clone, Copy)]
struct Tree<'de> {
    v: &'de YamlValue,
    style: Style,
}

impl<'de> Tree<'de> {
    fn with(self, v: &'de YamlValue) -> Self {
        Self { v, ..self }
    }

    fn no<T>(self, wanted: &str) -> Result<T, Error> {
        Err(de::Error::custom(format!("{:?} is not {wanted}", self.v)))
    }
}

fn text<'de, V: Visitor<'de>>(s: &'de str, how: Text, visitor: V) -> Result<V::Value, Error> {
    match how {
        Text::Borrowed => visitor.visit_borrowed_str(s),
        Text::Copied => visitor.visit_str(&s.to_owned()),
        Text::Owned => visitor.visit_string(s.to_owned()),
        Text::Bytes(0) => visitor.visit_borrowed_bytes(s.as_bytes()),
        Text::Bytes(1) => visitor.visit_bytes(&s.as_bytes().to_owned()),
        Text::Bytes(_) => visitor.visit_byte_buf(s.as_bytes().to_owned()),
    }
}

fn int<'de, V: Visitor<'de>>(n: &serde_yaml::Number, narrow: bool, signed: bool, visitor: V) -> Result<V::Value, Error> {
    if let Some(u) = n.as_u64().filter(|u| !signed || i64::try_from(*u).is_err()) {
        return match u {
            _ if !narrow => visitor.visit_u64(u),
            0..=0xff => visitor.visit_u8(u as u8),
            0..=0xffff => visitor.visit_u16(u as u16),
            0..=0xffff_ffff => visitor.visit_u32(u as u32),
            _ => visitor.visit_u64(u),
        };
    }
    if let Some(i) = n.as_i64() {
        return match i {
            _ if !narrow => visitor.visit_i64(i),
            -0x80..=0x7f => visitor.visit_i8(i as i8),
            -0x8000..=0x7fff => visitor.visit_i16(i as i16),
            -0x8000_0000..=0x7fff_ffff => visitor.visit_i32(i as i32),
            _ => visitor.visit_i64(i),
        };
    }
    visitor.visit_f64(n.as_f64().unwrap_or_default())
}

/// Methods which take only one kind of value.
macro_rules! kinds {
    ($($Kind:ident: $($f:ident)*;)*) => {
        $($(fn $f<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
            match self.v {
                YamlValue::$Kind(_) => self.deserialize_any(visitor),
                _ => self.no(stringify!($Kind)),
            }
        })*)*
    };
}

impl<'de> Deserializer<'de> for Tree<'de> {
    type Error = Error;

    fn deserialize_any<V: Visitor<'de>>(mut self, visitor: V) -> Result<V::Value, Error> {
        match std::mem::replace(&mut self.style.wrap, Wrap::No) {
            Wrap::No => {}
            Wrap::Some => return visitor.visit_some(self),
            Wrap::Newtype => return visitor.visit_newtype_struct(self),
        }
        match self.v {
            YamlValue::Null if self.style.option => visitor.visit_none(),
            YamlValue::Null => visitor.visit_unit(),
            YamlValue::Bool(b) => visitor.visit_bool(*b),
            YamlValue::Number(n) => int(n, self.style.narrow, self.style.signed, visitor),
            YamlValue::String(s) => text(s, self.style.text, visitor),
            YamlValue::Sequence(items) => {
                let mut seq = Items { of: self, left: items.iter() };
                let v = visitor.visit_seq(&mut seq)?;
                seq.left.next().map_or(Ok(v), |_| Err(de::Error::custom("items left over")))
            }
            YamlValue::Mapping(m) => {
                let mut map = Entries { of: self, left: Some(m.iter()), value: None };
                let v = visitor.visit_map(&mut map)?;
                map.next().map_or(Ok(v), |_| Err(de::Error::custom("entries left over")))
            }
            YamlValue::Tagged(_) => Err(de::Error::custom("no tags")),
        }
    }

    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.v {
            YamlValue::Null => visitor.visit_none(),
            _ => visitor.visit_some(self),
        }
    }

    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, visitor: V) -> Result<V::Value, Error> {
        visitor.visit_newtype_struct(self)
    }

    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], visitor: V) -> Result<V::Value, Error> {
        match self.v {
            YamlValue::String(s) => visitor.visit_enum(IntoDeserializer::<Error>::into_deserializer(s.as_str())),
            _ => Err(de::Error::custom("not a variant")),
        }
    }

    fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.v {
            YamlValue::Null => visitor.visit_seq(Items { of: self, left: [].iter() }),
            YamlValue::Sequence(_) => self.deserialize_any(visitor),
            _ => self.no("a list"),
        }
    }

    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, visitor: V) -> Result<V::Value, Error> {
        self.deserialize_seq(visitor)
    }

    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, visitor: V) -> Result<V::Value, Error> {
        self.deserialize_seq(visitor)
    }

    fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.v {
            YamlValue::Null => visitor.visit_map(Entries { of: self, left: None, value: None }),
            YamlValue::Mapping(_) => self.deserialize_any(visitor),
            _ => self.no("a map"),
        }
    }

    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], visitor: V) -> Result<V::Value, Error> {
        self.deserialize_map(visitor)
    }

    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, visitor: V) -> Result<V::Value, Error> {
        self.deserialize_unit(visitor)
    }

    fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        visitor.visit_unit()
    }

    kinds! {
        Bool: deserialize_bool;
        Number: deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64;
        String: deserialize_char deserialize_str deserialize_string deserialize_identifier deserialize_bytes deserialize_byte_buf;
    }

    fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.v {
            YamlValue::Null => visitor.visit_unit(),
            _ => self.no("nothing"),
        }
    }
}

struct Items<'de> {
    of: Tree<'de>,
    left: std::slice::Iter<'de, YamlValue>,
}

impl<'de> SeqAccess<'de> for Items<'de> {
    type Error = Error;

    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        self.left.next().map(|v| seed.deserialize(self.of.with(v))).transpose()
    }

    fn size_hint(&self) -> Option<usize> {
        self.of.style.sized.then_some(self.left.len())
    }
}

struct Entries<'de> {
    of: Tree<'de>,
    left: Option<mapping::Iter<'de>>,
    value: Option<&'de YamlValue>,
}

impl<'de> Entries<'de> {
    fn next(&mut self) -> Option<(&'de YamlValue, &'de YamlValue)> {
        self.left.as_mut()?.next()
    }
}

impl<'de> MapAccess<'de> for Entries<'de> {
    type Error = Error;

    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        let Some((k, v)) = self.next() else { return Ok(None) };
        self.value = Some(v);
        seed.deserialize(self.of.with(k)).map(Some)
    }

    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        let v = self.value.take().ok_or_else(|| de::Error::custom("a value before its key"))?;
        seed.deserialize(self.of.with(v))
    }

    fn size_hint(&self) -> Option<usize> {
        self.of.style.sized.then_some(self.left.as_ref().map_or(0, |l| l.len()))
    }
}

fn tagged(v: &YamlValue) -> bool {
    matches!(v, YamlValue::Tagged(_))
}

/// Whether `is` holds for any scalar in the tree, keys included.
fn holds(v: &YamlValue, is: &dyn Fn(&YamlValue) -> bool) -> bool {
    match v {
        YamlValue::Sequence(s) => s.iter().any(|v| holds(v, is)),
        YamlValue::Mapping(m) => m.iter().any(|(k, v)| holds(k, is) || holds(v, is)),
        _ => is(v),
    }
}

/// The tree reads the same from YAML and from the other format; whether it is a valid `T`.
fn alike<T: DeserializeOwned + std::fmt::Debug>(v: &YamlValue, style: Style) -> Result<bool, String> {
    let yaml: serde_yaml::Result<T> = serde_yaml::from_value(v.clone());
    let other = T::deserialize(Tree { v, style });
    let name = std::any::type_name::<T>();
    match (yaml, other) {
        (Err(_), Err(_)) => Ok(false),
        (Ok(a), Ok(b)) => {
            let (mut a, mut b) = (format!("{a:?}"), format!("{b:?}"));
            if style.signed {
                // a number of no fixed type is kept as the format has it
                (a, b) = (a.replace("UnsignedInt(", "SignedInt("), b.replace("UnsignedInt(", "SignedInt("));
            }
            ensure_eq!(b, a, "{name}, read through a format which is {style:?} and through YAML, from\n{}", shown(v));
            Ok(true)
        }
        // some settings take no signed integers, or no bytes
        (Ok(_), Err(_)) if style.picky(v) => Ok(false),
        (Ok(_), Err(e)) => fail!("{name}: read from YAML, rejected ({e}) through a format which is {style:?}\n{}", shown(v)),
        // some settings cannot be nothing in YAML, but are optional where nothing is an absent option
        (Err(_), Ok(_)) if style.option && holds(v, &YamlValue::is_null) => Ok(false),
        (Err(e), Ok(_)) => fail!("{name}: rejected ({e}) from YAML, read through a format which is {style:?}\n{}", shown(v)),
    }
}

fn check_documents((c, e): &(Choices, Extra), cov: &mut Cov) -> Res {
    let doc = docgen::document(&mut Src::new(&c.0));
    let mut s = Src::new(e);
    let mut v = doc.input();
    let kind = s.n(4);
    match kind {
        0 | 1 => {}
        2 => lists::disturb(&mut v, &doc, &mut s),
        _ => panics::mutate(&mut s, &mut v),
    }
    if holds(&v, &tagged) || panics::has_wide_cpuset(&v) {
        return Ok(());
    }
    let style = style(&mut s);
    let valid = alike::<Compose>(&v, style)?;
    ensure!(valid || kind > 1 || style.picky(&v), "rejected\n{}", shown(&v));
    cov.nontrivial_if(valid);
    cov.label(if valid { "valid" } else { "invalid" });
    Ok(())
}

fn check_values(data: &Vec<u32>, cov: &mut Cov) -> Res {
    let s = &mut Src::new(data);
    let style = odd_style(s);
    every_type(&panics::tree(s), style, cov)
}

fn check_scalars(data: &Vec<u32>, cov: &mut Cov) -> Res {
    let s = &mut Src::new(data);
    let style = odd_style(s);
    let v = panics::scalar(s);
    every_type(&if s.chance(10) { vec![v].into() } else { v }, style, cov)
}

fn every_type(v: &YamlValue, style: Style, cov: &mut Cov) -> Res {
    if holds(v, &tagged) || panics::has_wide_cpuset(v) {
        return Ok(());
    }
    let wide = v.as_str().is_some_and(panics::wide);
    let mut n = 0;
    macro_rules! each {
        ($($T:ty),* $(,)?) => {
            $(if !(wide && std::any::type_name::<$T>().ends_with("CpuSet")) && alike::<$T>(v, style)? {
                n += 1;
            })*
        };
    }
    panics::public_types!(each);
    // of what neither syntax nor one item takes, or both do
    each!(ShortOrLong<(), ()>, ShortOrLong<String, IndexMap<String, Option<u8>>>, ItemOrList<u8>);
    if style.wrap == Wrap::No {
        each!(ShortOrLong<Option<u8>, Vec<u8>>, ItemOrList<Option<u8>>);
    }
    cov.nontrivial_if(n > 0);
    Ok(())
}

pub fn c32() -> Property {
    Property {
        id: "C32",
        subs: vec![
            sub("documents", "documents, half of them with edits, read from YAML and through another format; non-trivial: the document is valid", 6_000, || (choices(250), extra(60)).boxed(), check_documents),
            sub("values", "settings with edits, or arbitrary trees, read as every type from YAML and through another format; non-trivial: some type takes it", 20_000, || prop::collection::vec(any::<u32>(), 0..60).boxed(), check_values),
            sub("scalars", "scalars at most a few edits from valid ones, read as every type from YAML and through another format; non-trivial: some type takes it", 20_000, || prop::collection::vec(any::<u32>(), 0..30).boxed(), check_scalars),
        ],
        known: vec![],
        assumptions: &["the other format is the harness's own: it has YAML's data model without tags", "a number of no fixed type (environment values and the like) that comes as a signed integer may be kept as a signed one, and a setting may take no signed integers, bytes or wrapped up values at all"],
    }
}
