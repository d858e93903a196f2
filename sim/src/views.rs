//! A value read through every accessor it has.

use prost_reflect::{Kind, MapKey, Value};

use crate::{core::*, dut::*, ensure};

/// The accessor of a value's own type gives the value, every other one gives nothing.
pub fn value_views(v: &Value) -> R {
    let want = value_of(v);
    let got: [Option<Value>; 13] = [
        v.as_bool().map(Value::Bool),
        v.as_i32().map(Value::I32),
        v.as_i64().map(Value::I64),
        v.as_u32().map(Value::U32),
        v.as_u64().map(Value::U64),
        v.as_f32().map(Value::F32),
        v.as_f64().map(Value::F64),
        v.as_str().map(|x| Value::String(x.into())),
        v.as_bytes().map(|x| Value::Bytes(x.clone())),
        v.as_enum_number().map(Value::EnumNumber),
        v.as_message().map(|x| Value::Message(x.clone())),
        v.as_list().map(|x| Value::List(x.to_vec())),
        v.as_map().map(|x| Value::Map(x.clone())),
    ];
    let got: Vec<Value> = got.into_iter().flatten().collect();
    ensure!(got.len() == 1 && value_of(&got[0]) == want, "views:value", "reading {v:?} gives {got:?}");
    let mut c = v.clone();
    let mut got: Vec<Value> = Vec::new();
    got.extend(c.as_bool_mut().map(|x| Value::Bool(*x)));
    got.extend(c.as_i32_mut().map(|x| Value::I32(*x)));
    got.extend(c.as_i64_mut().map(|x| Value::I64(*x)));
    got.extend(c.as_u32_mut().map(|x| Value::U32(*x)));
    got.extend(c.as_u64_mut().map(|x| Value::U64(*x)));
    got.extend(c.as_f32_mut().map(|x| Value::F32(*x)));
    got.extend(c.as_f64_mut().map(|x| Value::F64(*x)));
    got.extend(c.as_string_mut().map(|x| Value::String(x.clone())));
    got.extend(c.as_bytes_mut().map(|x| Value::Bytes(x.clone())));
    got.extend(c.as_enum_number_mut().map(|x| Value::EnumNumber(*x)));
    got.extend(c.as_message_mut().map(|x| Value::Message(x.clone())));
    got.extend(c.as_list_mut().map(|x| Value::List(x.clone())));
    got.extend(c.as_map_mut().map(|x| Value::Map(x.clone())));
    ensure!(got.len() == 1 && value_of(&got[0]) == want, "views:value-mut", "opening {v:?} gives {got:?}");
    let key = matches!(v, Value::Bool(_) | Value::I32(_) | Value::I64(_) | Value::U32(_) | Value::U64(_) | Value::String(_));
    let k = v.clone().into_map_key();
    ensure!(k.is_some() == key, "views:key", "{v:?} as a map key is {k:?}");
    if let Some(k) = k {
        let back = Value::from(k.clone());
        ensure!(value_of(&back) == want, "views:key", "{v:?} as a map key and back is {back:?}");
        key_views(&k)?;
    }
    match v {
        Value::List(l) => l.iter().take(3).try_for_each(value_views),
        Value::Map(m) => m.iter().take(3).try_for_each(|(k, v)| {
            key_views(k)?;
            value_views(v)
        }),
        _ => Ok(()),
    }
}

pub fn key_views(k: &MapKey) -> R {
    let want = key_of(k);
    let got: [Option<MapKey>; 6] = [
        k.as_bool().map(MapKey::Bool),
        k.as_i32().map(MapKey::I32),
        k.as_i64().map(MapKey::I64),
        k.as_u32().map(MapKey::U32),
        k.as_u64().map(MapKey::U64),
        k.as_str().map(|x| MapKey::String(x.into())),
    ];
    let got: Vec<MapKey> = got.into_iter().flatten().collect();
    ensure!(got.len() == 1 && key_of(&got[0]) == want, "views:key", "reading the key {k:?} gives {got:?}");
    let mut c = k.clone();
    let mut got: Vec<MapKey> = Vec::new();
    got.extend(c.as_bool_mut().map(|x| MapKey::Bool(*x)));
    got.extend(c.as_i32_mut().map(|x| MapKey::I32(*x)));
    got.extend(c.as_i64_mut().map(|x| MapKey::I64(*x)));
    got.extend(c.as_u32_mut().map(|x| MapKey::U32(*x)));
    got.extend(c.as_u64_mut().map(|x| MapKey::U64(*x)));
    got.extend(c.as_string_mut().map(|x| MapKey::String(x.clone())));
    ensure!(got.len() == 1 && key_of(&got[0]) == want, "views:key-mut", "opening the key {k:?} gives {got:?}");
    Ok(())
}

/// Whether a value can be written as a kind.
pub fn fits(v: &Value, k: &Kind) -> bool {
    match k {
        Kind::Double => matches!(v, Value::F64(_)),
        Kind::Float => matches!(v, Value::F32(_)),
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => matches!(v, Value::I32(_)),
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => matches!(v, Value::I64(_)),
        Kind::Uint32 | Kind::Fixed32 => matches!(v, Value::U32(_)),
        Kind::Uint64 | Kind::Fixed64 => matches!(v, Value::U64(_)),
        Kind::Bool => matches!(v, Value::Bool(_)),
        Kind::String => matches!(v, Value::String(_)),
        Kind::Bytes => matches!(v, Value::Bytes(_)),
        Kind::Message(_) => matches!(v, Value::Message(_)),
        Kind::Enum(_) => matches!(v, Value::EnumNumber(_)),
    }
}

/// A single value of a kind against what the kind says of it.
pub fn kind_views(v: &Value, kind: &Kind) -> R {
    // messages of any type are taken, which is documented
    ensure!(v.is_valid(kind) == fits(v, kind), "views:kind", "{v:?} valid for {kind:?} is {}", v.is_valid(kind));
    let zero = kind.default_value();
    ensure!(value_of(&zero) == value_of(&Value::default_value(kind)), "views:kind", "the defaults of {kind:?} differ");
    ensure!(zero.is_valid(kind) && zero.is_default(kind), "views:kind", "the default {zero:?} of {kind:?} is refused");
    if !matches!(v, Value::Message(_) | Value::List(_) | Value::Map(_)) {
        ensure!(v.is_default(kind) == (value_of(v) == value_of(&zero)), "views:kind", "{v:?} default for {kind:?} is {}", v.is_default(kind));
    }
    if let (Some(k), Kind::Bool | Kind::String | Kind::Int32 | Kind::Int64 | Kind::Uint32 | Kind::Uint64) = (v.clone().into_map_key(), kind) {
        let zero = MapKey::default_value(kind);
        ensure!(k.is_valid(kind) == fits(v, kind) && zero.is_valid(kind) && zero.is_default(kind), "views:key-kind", "{k:?} valid for {kind:?} is {}", k.is_valid(kind));
        ensure!(k.is_default(kind) == (key_of(&k) == key_of(&zero)), "views:key-kind", "{k:?} default for {kind:?} is {}", k.is_default(kind));
        ensure!(value_of(&Value::from(zero)) == value_of(&Value::default_value(kind)), "views:key-kind", "the default key of {kind:?} differs");
    }
    Ok(())
}
