//! A serializer and a deserializer under the simulator's control: every call is logged, and any
//! of them may fail.
use crate::json::J;
use serde::de::{self, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};
use std::cell::RefCell;
use std::fmt::{self, Display};

#[derive(Debug, Clone, PartialEq)]
pub enum SimErr {
    /// the fault that was injected
    Injected(usize),
    /// raised by the code under test
    Custom(String),
}
impl Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            SimErr::Injected(n) => write!(f, "simulated failure {n}"),
            SimErr::Custom(s) => f.write_str(s),
        }
    }
}
impl std::error::Error for SimErr {}
impl ser::Error for SimErr {
    fn custom<T: Display>(m: T) -> Self {
        SimErr::Custom(m.to_string())
    }
}
impl de::Error for SimErr {
    fn custom<T: Display>(m: T) -> Self {
        SimErr::Custom(m.to_string())
    }
}

// ---------------------------------------------------------------- serializer

#[derive(Default)]
pub struct SerLog {
    pub events: Vec<String>,
    pub fail_at: Option<usize>,
    /// fails only once
    pub once: bool,
    pub failed: usize,
    pub after: usize,
    /// a declared length that did not hold, or a call out of order
    pub odd: Option<String>,
    pub human: bool,
}
pub struct SimSer<'a> {
    pub log: &'a RefCell<SerLog>,
    key: bool,
}
impl<'a> SimSer<'a> {
    pub fn new(log: &'a RefCell<SerLog>) -> Self {
        SimSer { log, key: false }
    }
    fn ev(&self, s: String) -> Result<(), SimErr> {
        let mut l = self.log.borrow_mut();
        if l.failed > 0 {
            l.after += 1;
        }
        if l.fail_at == Some(l.events.len()) && !(l.once && l.failed > 0) {
            l.failed += 1;
            return Err(SimErr::Injected(l.events.len()));
        }
        if self.key && !s.starts_with("str ") {
            let e = format!("map key is {s}");
            l.odd.get_or_insert(e);
        }
        l.events.push(s);
        Ok(())
    }
    fn comp(self, what: &str, len: Option<usize>) -> Result<Comp<'a>, SimErr> {
        self.ev(format!("{what} {len:?}"))?;
        Ok(Comp { log: self.log, len, n: 0, key: false })
    }
}
pub struct Comp<'a> {
    log: &'a RefCell<SerLog>,
    len: Option<usize>,
    n: usize,
    key: bool,
}
impl Comp<'_> {
    fn odd(&self, s: String) {
        self.log.borrow_mut().odd.get_or_insert(s);
    }
    fn item<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> {
        self.n += 1;
        v.serialize(SimSer { log: self.log, key: false })
    }
    fn finish(self) -> Result<(), SimErr> {
        if self.len.is_some_and(|l| l != self.n) {
            self.odd(format!("declared {:?} items, gave {}", self.len, self.n));
        }
        if self.key {
            self.odd("a key without a value".into());
        }
        SimSer { log: self.log, key: false }.ev("end".into())
    }
}
macro_rules! scalar {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), SimErr> { self.ev(format!("{} {v:?}", &stringify!($f)[10..])) })* };
}
impl<'a> ser::Serializer for SimSer<'a> {
    type Ok = ();
    type Error = SimErr;
    type SerializeSeq = Comp<'a>;
    type SerializeTuple = Comp<'a>;
    type SerializeTupleStruct = Comp<'a>;
    type SerializeTupleVariant = Comp<'a>;
    type SerializeMap = Comp<'a>;
    type SerializeStruct = Comp<'a>;
    type SerializeStructVariant = Comp<'a>;
    scalar!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
        serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8]);
    fn serialize_none(self) -> Result<(), SimErr> {
        self.ev("none".into())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), SimErr> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), SimErr> {
        self.ev("unit".into())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), SimErr> {
        self.ev("unit".into())
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), SimErr> {
        self.ev(format!("str {v:?}"))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), SimErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<(), SimErr> {
        v.serialize(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Comp<'a>, SimErr> {
        self.comp("seq", len)
    }
    fn serialize_tuple(self, len: usize) -> Result<Comp<'a>, SimErr> {
        self.comp("seq", Some(len))
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<Comp<'a>, SimErr> {
        self.comp("seq", Some(len))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, len: usize) -> Result<Comp<'a>, SimErr> {
        self.comp("seq", Some(len))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Comp<'a>, SimErr> {
        self.comp("map", len)
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<Comp<'a>, SimErr> {
        self.comp("map", Some(len))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, len: usize) -> Result<Comp<'a>, SimErr> {
        self.comp("map", Some(len))
    }
    fn is_human_readable(&self) -> bool {
        self.log.borrow().human
    }
}
macro_rules! seqs {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for Comp<'_> {
        type Ok = ();
        type Error = SimErr;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> { self.item(v) }
        fn end(self) -> Result<(), SimErr> { self.finish() }
    })* };
}
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! structs {
    ($($t:ident),*) => { $(impl ser::$t for Comp<'_> {
        type Ok = ();
        type Error = SimErr;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), SimErr> {
            SimSer { log: self.log, key: true }.ev(format!("str {k:?}"))?;
            self.item(v)
        }
        fn end(self) -> Result<(), SimErr> { self.finish() }
    })* };
}
structs!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Comp<'_> {
    type Ok = ();
    type Error = SimErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), SimErr> {
        if self.key {
            self.odd("two keys in a row".into());
        }
        self.key = true;
        k.serialize(SimSer { log: self.log, key: true })
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> {
        if !self.key {
            self.odd("a value without a key".into());
        }
        self.key = false;
        self.item(v)
    }
    fn end(self) -> Result<(), SimErr> {
        self.finish()
    }
}

// ---------------------------------------------------------------- deserializer

pub struct DeState {
    /// how strings and numbers are handed over, cycled through
    pub modes: Vec<u8>,
    pub calls: usize,
    pub fail_at: Option<usize>,
    pub fired: bool,
    /// fails only once
    pub once: bool,
    /// whether lengths are announced
    pub hints: bool,
}
impl DeState {
    pub fn new(modes: Vec<u8>, hints: bool, fail_at: Option<usize>) -> RefCell<DeState> {
        RefCell::new(DeState { modes, calls: 0, fail_at, fired: false, once: false, hints })
    }
}
pub struct SimDe<'de, 'a> {
    pub j: &'de J,
    pub st: &'a RefCell<DeState>,
}
fn step(st: &RefCell<DeState>) -> Result<u8, SimErr> {
    let mut s = st.borrow_mut();
    let n = s.calls;
    s.calls += 1;
    if s.fail_at.is_some_and(|k| n >= k) && !(s.once && s.fired) {
        s.fired = true;
        return Err(SimErr::Injected(n));
    }
    Ok(s.modes[n % s.modes.len()])
}
fn put_str<'de, V: Visitor<'de>>(s: &'de str, mode: u8, v: V) -> Result<V::Value, SimErr> {
    match mode % 3 {
        0 => v.visit_borrowed_str(s),
        1 => v.visit_str(&s.to_string()),
        _ => v.visit_string(s.to_string()),
    }
}
impl<'de> de::Deserializer<'de> for SimDe<'de, '_> {
    type Error = SimErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        let mode = step(self.st)?;
        match self.j {
            J::Null => v.visit_unit(),
            J::Bool(b) => v.visit_bool(*b),
            J::Num(n) => {
                // negative zero is a float
                if n == "-0" {
                    return v.visit_f64(-0.0);
                }
                if let Ok(x) = n.parse::<u64>() {
                    // a source may hold small numbers in either form
                    return match mode % 2 {
                        1 if x <= i64::MAX as u64 => v.visit_i64(x as i64),
                        _ => v.visit_u64(x),
                    };
                }
                if let Ok(x) = n.parse::<i64>() {
                    return v.visit_i64(x);
                }
                match n.parse::<f64>() {
                    Ok(x) if x.is_finite() => v.visit_f64(x),
                    _ => Err(SimErr::Custom("number out of range".into())),
                }
            }
            J::Str(s) => put_str(s, mode, v),
            J::Arr(l) => {
                let mut a = Items { l, at: 0, st: self.st };
                let r = v.visit_seq(&mut a)?;
                if a.at < l.len() {
                    return Err(SimErr::Custom("trailing items".into()));
                }
                Ok(r)
            }
            J::Obj(l) => {
                let mut a = Members { l, at: 0, st: self.st };
                let r = v.visit_map(&mut a)?;
                if a.at < l.len() {
                    return Err(SimErr::Custom("trailing members".into()));
                }
                Ok(r)
            }
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        match self.j {
            J::Null => {
                step(self.st)?;
                v.visit_none()
            }
            _ => v.visit_some(self),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
struct Items<'de, 'a> {
    l: &'de [J],
    at: usize,
    st: &'a RefCell<DeState>,
}
impl<'de> de::SeqAccess<'de> for &mut Items<'de, '_> {
    type Error = SimErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SimErr> {
        step(self.st)?;
        let Some(j) = self.l.get(self.at) else { return Ok(None) };
        self.at += 1;
        seed.deserialize(SimDe { j, st: self.st }).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.st.borrow().hints.then_some(self.l.len() - self.at)
    }
}
struct Members<'de, 'a> {
    l: &'de [(String, J)],
    at: usize,
    st: &'a RefCell<DeState>,
}
struct Key<'de, 'a>(&'de str, &'a RefCell<DeState>);
impl<'de> de::Deserializer<'de> for Key<'de, '_> {
    type Error = SimErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        let mode = step(self.1)?;
        put_str(self.0, mode, v)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> de::MapAccess<'de> for &mut Members<'de, '_> {
    type Error = SimErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, SimErr> {
        step(self.st)?;
        match self.l.get(self.at) {
            None => Ok(None),
            Some((k, _)) => seed.deserialize(Key(k, self.st)).map(Some),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, SimErr> {
        step(self.st)?;
        let j = &self.l[self.at].1;
        self.at += 1;
        seed.deserialize(SimDe { j, st: self.st })
    }
    fn size_hint(&self) -> Option<usize> {
        self.st.borrow().hints.then_some(self.l.len() - self.at)
    }
}
