//! Operation histories on messages, with saves and restarts: C17.
use super::*;
use crate::io::*;
use crate::views::*;
use crate::wire;
use crate::{ensure, viol};
use prost::Message as _;
use prost_reflect::{DynamicMessage, ExtensionDescriptor, FieldDescriptor, Kind, ReflectMessage, SetFieldError, Value};
use std::collections::BTreeMap;

pub const C17: Prop = Prop {
    id: "C17",
    run: c17,
    quick: 350_000,
    thorough: 5_000_000,
    fork: false,
    rule: "a run applies a random sequence of operations to several messages, through every kind of handle, with copies, merges, saves, crashes and restarts, and compares every answer with a record after every step; non-trivial when at least three operations were applied, distinct by event log",
    real: &["prost-reflect DynamicMessage, Value, descriptors"],
    stub: &["durable store (bytes of saved messages)", "clients issuing operations", "schemas and values (generated)"],
    assumptions: &[
        "the harness's record model and wire codec are correct",
        "values placed through mutable references are of the declared type; message values are of the declared message type",
        "which fields remain after dropping an unfinished draining iterator is unspecified",
    ],
};

/// A field or an extension.
#[derive(Clone)]
enum H {
    F(FieldDescriptor),
    E(ExtensionDescriptor),
}
impl H {
    fn kind(&self) -> Kind {
        match self {
            H::F(f) => f.kind(),
            H::E(e) => e.kind(),
        }
    }
}

struct Node {
    mid: usize,
    dm: DynamicMessage,
    model: MMsg,
}

const HOW: [&str; 4] = ["desc", "number", "name", "json"];

fn handle(s: &Schema, d: &MessageDescriptor, n: u32, how: usize) -> R<H> {
    let mid = s.find_msg(d.full_name()).expect("harness: message");
    let sl = s.slot(mid, n).expect("harness: slot");
    let name = s.slot_name(&sl);
    let json = s.slot_json(&sl);
    let lost = || viol!("handle", "{} {n} cannot be found by {}", d.full_name(), HOW[how]);
    match sl.ext {
        None => {
            let f = match how {
                0 => d.fields().find(|f| f.number() == n),
                1 => d.get_field(n),
                2 => d.get_field_by_name(&name),
                _ => d.get_field_by_json_name(&json),
            };
            let f = f.ok_or_else(lost)?;
            ensure!(f.number() == n, "handle", "{} {n} by {} is field {}", d.full_name(), HOW[how], f.number());
            Ok(H::F(f))
        }
        Some(e) => {
            let full = &s.exts[e].full;
            let f = match how {
                0 => d.extensions().find(|f| f.number() == n),
                1 => d.get_extension(n),
                2 => d.get_extension_by_full_name(full),
                _ => d.get_extension_by_json_name(&json),
            };
            let f = f.ok_or_else(lost)?;
            ensure!(f.number() == n, "handle", "{} {n} by {} is extension {}", d.full_name(), HOW[how], f.number());
            Ok(H::E(f))
        }
    }
}

/// What reading an absent field gives.
fn absent(s: &Schema, sl: &Slot) -> MVal {
    s.default_of(sl)
}

/// Every answer of the message against the record.
fn check(s: &Schema, mid: usize, dm: &DynamicMessage, m: &MMsg, what: &str) -> R {
    same(dm, m, what)?;
    let m = canon_msg(m);
    let d = dm.descriptor();
    let mut names = 0;
    for sl in s.slots(mid) {
        let n = sl.f.num;
        let has = m.fields.contains_key(&n);
        let want = m.fields.get(&n).cloned().unwrap_or_else(|| canon(&absent(s, &sl)));
        match handle(s, &d, n, 1)? {
            H::F(f) => {
                let name = f.name();
                let h = [dm.has_field(&f), dm.has_field_by_number(n), dm.has_field_by_name(name)];
                ensure!(h == [has; 3], "record:has", "{what}: {} {name} has by descriptor, number, name is {h:?} instead of {has}", d.full_name());
                let g = [Some(dm.get_field(&f)), dm.get_field_by_number(n), dm.get_field_by_name(name)];
                for (i, g) in g.into_iter().enumerate() {
                    let Some(g) = g else { return Err(viol!("record:get", "{what}: {} {name} by {} is missing", d.full_name(), HOW[i])) };
                    let got = value_of(&g);
                    ensure!(got == want, "record:get", "{what}: {} {name} by {} is {got:?} instead of {want:?}", d.full_name(), HOW[i]);
                    if i == 0 {
                        let zero = Value::default_value_for_field(&f);
                        ensure!(
                            g.is_valid_for_field(&f) && zero.is_valid_for_field(&f) && zero.is_default_for_field(&f),
                            "record:valid",
                            "{what}: {name} refuses its own {g:?} or default {zero:?}"
                        );
                        let empty = canon(&absent(s, &sl));
                        ensure!(value_of(&zero) == empty, "record:default", "{what}: the default of {name} is {zero:?} instead of {empty:?}");
                        if !matches!(*g, Value::Message(_)) {
                            ensure!(g.is_default_for_field(&f) == (want == empty), "record:default", "{what}: {g:?} is the default of {name}: {}", want != empty);
                        }
                        look(&g, &f.kind())?;
                    }
                    if let (false, Value::Message(x)) = (has, &*g) {
                        ensure!(x.descriptor() == *f.kind().as_message().unwrap(), "record:default-type", "{what}: default of {name} is a {}", x.descriptor().full_name());
                    }
                }
            }
            H::E(f) => {
                ensure!(dm.has_extension(&f) == has, "record:has", "{what}: {} has_extension is {}", f.full_name(), !has);
                let g = dm.get_extension(&f);
                let got = value_of(&g);
                ensure!(got == want, "record:get", "{what}: {} is {got:?} instead of {want:?}", f.full_name());
                let zero = Value::default_value_for_extension(&f);
                ensure!(
                    g.is_valid_for_extension(&f) && zero.is_valid_for_extension(&f) && zero.is_default_for_extension(&f),
                    "record:valid",
                    "{what}: {} refuses its own {g:?} or default {zero:?}",
                    f.full_name()
                );
                let empty = canon(&absent(s, &sl));
                ensure!(value_of(&zero) == empty, "record:default", "{what}: the default of {} is {zero:?} instead of {empty:?}", f.full_name());
                if !matches!(*g, Value::Message(_)) {
                    ensure!(g.is_default_for_extension(&f) == (want == empty), "record:default", "{what}: {g:?} is the default of {}: {}", f.full_name(), want != empty);
                }
                look(&g, &f.kind())?;
            }
        }
        names += 1;
    }
    let order: Vec<u32> = dm.fields().map(|x| x.0.number()).collect();
    let want: Vec<u32> = m.fields.keys().copied().filter(|n| s.slot(mid, *n).is_some_and(|x| x.ext.is_none())).collect();
    ensure!(order == want, "record:fields", "{what}: fields() of {} yields {order:?} instead of {want:?}", d.full_name());
    let order: Vec<u32> = dm.extensions().map(|x| x.0.number()).collect();
    let want: Vec<u32> = m.fields.keys().copied().filter(|n| s.slot(mid, *n).is_some_and(|x| x.ext.is_some())).collect();
    ensure!(order == want, "record:extensions", "{what}: extensions() of {} yields {order:?} instead of {want:?}", d.full_name());
    // oneofs name exactly the fields the record may hold one of
    for o in d.oneofs() {
        let set: Vec<u32> = o.fields().filter(|f| dm.has_field(f)).map(|f| f.number()).collect();
        ensure!(set.len() <= 1, "record:oneof", "{what}: {} holds {set:?}", o.full_name());
    }
    let _ = names;
    Ok(())
}

/// A field's value through the accessors of values and kinds.
fn look(v: &Value, kind: &Kind) -> R {
    value_views(v)?;
    match (v, kind) {
        (Value::List(l), _) => l.iter().take(2).try_for_each(|v| kind_views(v, kind)),
        (Value::Map(m), Kind::Message(e)) if e.is_map_entry() => m.iter().take(2).try_for_each(|(k, v)| {
            kind_views(&Value::from(k.clone()), &e.map_entry_key_field().kind())?;
            kind_views(v, &e.map_entry_value_field().kind())
        }),
        _ => {
            kind_views(v, kind)?;
            // and as something else
            ensure!(!v.is_valid(&if matches!(v, Value::Bool(_)) { Kind::String } else { Kind::Bool }), "views:kind", "{v:?} is valid for another kind");
            Ok(())
        }
    }
}

/// The record's own rule for oneofs.
fn others_out(s: &Schema, mid: usize, m: &mut MMsg, n: u32) {
    let sl = s.slot(mid, n).unwrap();
    if let (Some(o), None) = (sl.f.oneof, sl.ext) {
        for g in &s.msgs[mid].fields {
            if g.oneof == Some(o) && g.num != n {
                m.fields.remove(&g.num);
            }
        }
    }
}

fn set(dm: &mut DynamicMessage, h: &H, how: usize, tr: bool, v: Value) -> Result<(), SetFieldError> {
    match h {
        H::E(e) => {
            dm.set_extension(e, v);
            Ok(())
        }
        H::F(f) => match (how, tr) {
            (1, true) => dm.try_set_field_by_number(f.number(), v),
            (1, false) => {
                dm.set_field_by_number(f.number(), v);
                Ok(())
            }
            (2, true) => dm.try_set_field_by_name(f.name(), v),
            (2, false) => {
                dm.set_field_by_name(f.name(), v);
                Ok(())
            }
            (_, true) => dm.try_set_field(f, v),
            (_, false) => {
                dm.set_field(f, v);
                Ok(())
            }
        },
    }
}
fn clear(dm: &mut DynamicMessage, h: &H, how: usize) {
    match (h, how) {
        (H::E(e), _) => dm.clear_extension(e),
        (H::F(f), 1) => dm.clear_field_by_number(f.number()),
        (H::F(f), 2) => dm.clear_field_by_name(f.name()),
        (H::F(f), _) => dm.clear_field(f),
    }
}
fn take(dm: &mut DynamicMessage, h: &H, how: usize) -> Option<Value> {
    match (h, how) {
        (H::E(e), _) => dm.take_extension(e),
        (H::F(f), 1) => dm.take_field_by_number(f.number()),
        (H::F(f), 2) => dm.take_field_by_name(f.name()),
        (H::F(f), _) => dm.take_field(f),
    }
}
fn get_mut<'a>(dm: &'a mut DynamicMessage, h: &H, how: usize) -> &'a mut Value {
    match (h, how) {
        (H::E(e), _) => dm.get_extension_mut(e),
        (H::F(f), 1) => dm.get_field_by_number_mut(f.number()).expect("field by number"),
        (H::F(f), 2) => dm.get_field_by_name_mut(f.name()).expect("field by name"),
        (H::F(f), _) => dm.get_field_mut(f),
    }
}

/// Changes a value in place.
fn mutate(ctx: &mut Ctx, s: &Schema, f: &Field, kind: &Kind, v: &mut Value, m: &mut MVal, depth: usize) -> R {
    let vals = Vals { width: 2, ..Vals::default() };
    if let (Some((kf, vf)), MVal::Map(mm)) = (s.entry(f), &mut *m) {
        let vk = kind.as_message().unwrap().map_entry_value_field().kind();
        let map = v.as_map_mut().ok_or_else(|| viol!("mut-type", "get_mut of a map gave something else"))?;
        match ctx.src.below(4) {
            0 => {
                let Ty::S(sc) = kf.ty else { unreachable!() };
                let k = gen::scalar(&mut ctx.src, sc, true).key();
                let x = gen::value(&mut ctx.src, s, vf.ty, 1, &vals);
                map.insert(to_key(&k), to_value(s, &vk, vf.ty, &x));
                mm.insert(k, x);
            }
            1 if !mm.is_empty() => {
                let k = mm.keys().nth(ctx.src.below(mm.len())).unwrap().clone();
                let old = map.remove(&to_key(&k)).map(|v| canon(&value_of(&v)));
                let want = mm.remove(&k).map(|v| canon(&v));
                ensure!(old == want, "mut-map-remove", "removing {k:?} from a map gave {old:?} instead of {want:?}");
            }
            2 if !mm.is_empty() => {
                let k = mm.keys().nth(ctx.src.below(mm.len())).unwrap().clone();
                let x = map.get_mut(&to_key(&k)).ok_or_else(|| viol!("mut-map-get", "key {k:?} is missing"))?;
                mutate(ctx, s, &vf, &vk, x, mm.get_mut(&k).unwrap(), depth)?;
            }
            _ => {
                map.clear();
                mm.clear();
            }
        }
        return Ok(());
    }
    if let (true, MVal::List(l)) = (f.rep(), &mut *m) {
        let list = v.as_list_mut().ok_or_else(|| viol!("mut-type", "get_mut of a list gave something else"))?;
        ensure!(list.len() == l.len(), "mut-list-len", "list of {} instead of {}", list.len(), l.len());
        let single = Field { label: Label::Optional, ..f.clone() };
        match ctx.src.below(5) {
            0 => {
                let x = gen::value(&mut ctx.src, s, f.ty, 1, &vals);
                list.push(to_value(s, kind, f.ty, &x));
                l.push(x);
            }
            1 if !l.is_empty() => {
                let i = ctx.src.below(l.len());
                let a = canon(&value_of(&list.remove(i)));
                let b = canon(&l.remove(i));
                ensure!(a == b, "mut-list-remove", "element {i} was {a:?} instead of {b:?}");
            }
            2 if !l.is_empty() => {
                let i = ctx.src.below(l.len());
                mutate(ctx, s, &single, kind, &mut list[i], &mut l[i], depth)?;
            }
            3 if !l.is_empty() => {
                let x = gen::value(&mut ctx.src, s, f.ty, 1, &vals);
                let i = ctx.src.below(l.len() + 1);
                list.insert(i, to_value(s, kind, f.ty, &x));
                l.insert(i, x);
            }
            _ => {
                list.clear();
                l.clear();
            }
        }
        return Ok(());
    }
    if let (Some(sub), MVal::Msg(x)) = (f.ty.msg(), &mut *m) {
        if depth > 0 && ctx.src.chance(5, 6) {
            let inner = v.as_message_mut().ok_or_else(|| viol!("mut-type", "get_mut of a message gave something else"))?;
            let k = ctx.src.range(1, 2);
            for _ in 0..k {
                op(ctx, s, sub, inner, x, depth - 1)?;
            }
            return Ok(());
        }
    }
    let x = gen::value(&mut ctx.src, s, f.ty, 1, &vals);
    *v = to_value(s, kind, f.ty, &x);
    *m = x;
    Ok(())
}

/// A value the field must refuse.
fn wrong(ctx: &mut Ctx, s: &Schema, f: &Field, kind: &Kind, parent: &MessageDescriptor) -> Value {
    let other = |t: &Kind, pick: usize| -> Value {
        // a scalar of another type
        let all = [Value::I32(1), Value::String("w".into()), Value::Bool(true), Value::F64(1.5), Value::U64(7), Value::EnumNumber(0), Value::Bytes(vec![1u8].into()), Value::I64(1), Value::U32(1), Value::F32(0.5)];
        let fits = |v: &Value| {
            matches!(
                (v, t),
                (Value::I32(_), Kind::Int32 | Kind::Sint32 | Kind::Sfixed32)
                    | (Value::String(_), Kind::String)
                    | (Value::Bool(_), Kind::Bool)
                    | (Value::F64(_), Kind::Double)
                    | (Value::I64(_), Kind::Int64 | Kind::Sint64 | Kind::Sfixed64)
                    | (Value::U32(_), Kind::Uint32 | Kind::Fixed32)
                    | (Value::F32(_), Kind::Float)
                    | (Value::U64(_), Kind::Uint64 | Kind::Fixed64)
                    | (Value::EnumNumber(_), Kind::Enum(_))
                    | (Value::Bytes(_), Kind::Bytes)
            )
        };
        all.into_iter().filter(|v| !fits(v)).nth(pick).unwrap()
    };
    let vals = Vals { width: 1, unknown: false, ..Vals::default() };
    let pick = ctx.src.below(9);
    if let Some((kf, vf)) = s.entry(f) {
        let e = kind.as_message().unwrap();
        let (kk, vk) = (e.map_entry_key_field().kind(), e.map_entry_value_field().kind());
        let good = gen::value(&mut ctx.src, s, vf.ty, 0, &vals);
        let Ty::S(sc) = kf.ty else { unreachable!() };
        let key = to_key(&gen::scalar(&mut ctx.src, sc, true).key());
        match ctx.src.below(5) {
            0 => other(&kk, pick),
            1 => Value::List(vec![]),
            2 => Value::Map([(key, other(&vk, pick))].into()),
            3 => {
                // the key's type is wrong
                let k = match other(&kk, pick).into_map_key() {
                    Some(k) => k,
                    None => return Value::Bool(true),
                };
                Value::Map([(k, to_value(s, &vk, vf.ty, &good))].into())
            }
            _ => Value::Message(DynamicMessage::new(e.clone())),
        }
    } else if f.rep() {
        let good = gen::value(&mut ctx.src, s, f.ty, 0, &vals);
        match ctx.src.below(5) {
            0 => to_value(s, kind, f.ty, &good),
            1 => Value::List(vec![to_value(s, kind, f.ty, &good), other(kind, pick)]),
            2 => Value::Map(Default::default()),
            3 => Value::List(vec![Value::List(vec![to_value(s, kind, f.ty, &good)])]),
            _ => other(kind, pick),
        }
    } else {
        match ctx.src.below(5) {
            4 if f.ty.msg().is_none() => Value::Message(DynamicMessage::new(parent.clone())),
            0 => {
                let good = gen::value(&mut ctx.src, s, f.ty, 0, &vals);
                Value::List(vec![to_value(s, kind, f.ty, &good)])
            }
            1 => Value::List(vec![]),
            2 => Value::Map(Default::default()),
            _ => other(kind, pick),
        }
    }
}

/// Applies one operation to a message and to its record.
fn op(ctx: &mut Ctx, s: &Schema, mid: usize, dm: &mut DynamicMessage, m: &mut MMsg, depth: usize) -> R {
    let d = dm.descriptor();
    let slots = s.slots(mid);
    let vals = Vals { width: 2, ..Vals::default() };
    let which = ctx.src.weighted(&[6, 6, 3, 3, 3, 2, 1, 1, 1, 1]);
    if slots.is_empty() && which < 5 {
        return Ok(());
    }
    // prefer members of oneofs, where fields depend on each other
    let sl = if slots.is_empty() {
        None
    } else {
        let one: Vec<Slot> = slots.iter().copied().filter(|x| x.f.oneof.is_some()).collect();
        Some(match ctx.src.below(6) {
            0 | 1 if !one.is_empty() => *ctx.src.pick(&one),
            // the same few fields again and again
            2 | 3 => slots[(s.msgs[mid].full.len() + ctx.src.below(2)) % slots.len()],
            _ => *ctx.src.pick(&slots),
        })
    };
    let how = ctx.src.below(4);
    match which {
        0 => {
            let sl = sl.unwrap();
            let n = sl.f.num;
            let h = handle(s, &d, n, how)?;
            let x = if ctx.src.chance(1, 5) {
                ctx.probe("set-default");
                absent(s, &sl)
            } else {
                gen::field_value(&mut ctx.src, s, sl.f, depth.min(2), &vals)
            };
            let tr = ctx.src.chance(1, 2);
            ctx.step(format_args!("set {} {} by {} to {x:?}", d.full_name(), s.slot_name(&sl), HOW[how]));
            ctx.count("op", "set");
            let v = to_value(s, &h.kind(), sl.f.ty, &x);
            set(dm, &h, how, tr, v).map_err(|e| viol!("set-refused", "a value of the declared type was refused: {e}"))?;
            others_out(s, mid, m, n);
            m.fields.insert(n, x);
        }
        1 => {
            let sl = sl.unwrap();
            let n = sl.f.num;
            let h = handle(s, &d, n, how)?;
            ctx.step(format_args!("mutate {} {} by {}", d.full_name(), s.slot_name(&sl), HOW[how]));
            ctx.count("op", "mutate");
            let kind = h.kind();
            let v = get_mut(dm, &h, how);
            others_out(s, mid, m, n);
            let mut x = m.fields.remove(&n).unwrap_or_else(|| absent(s, &sl));
            let got = canon(&value_of(v));
            ensure!(got == canon(&x), "mut-start", "get_mut gave {got:?} instead of {x:?}");
            if ctx.src.chance(1, 6) {
                ctx.probe("get-mut-only");
            } else {
                mutate(ctx, s, sl.f, &kind, v, &mut x, depth)?;
            }
            m.fields.insert(n, x);
        }
        2 => {
            let sl = sl.unwrap();
            let n = sl.f.num;
            let h = handle(s, &d, n, how)?;
            ctx.step(format_args!("clear {} {} by {}", d.full_name(), s.slot_name(&sl), HOW[how]));
            ctx.count("op", "clear");
            clear(dm, &h, how);
            m.fields.remove(&n);
        }
        3 => {
            let sl = sl.unwrap();
            let n = sl.f.num;
            let h = handle(s, &d, n, how)?;
            ctx.step(format_args!("take {} {} by {}", d.full_name(), s.slot_name(&sl), HOW[how]));
            ctx.count("op", "take");
            let got = take(dm, &h, how).map(|v| canon(&value_of(&v)));
            let want = m.fields.remove(&n).map(|v| canon(&v));
            ensure!(got == want, "take", "take of {} {} gave {got:?} instead of {want:?}", d.full_name(), s.slot_name(&sl));
        }
        4 => {
            let sl = sl.unwrap();
            let n = sl.f.num;
            let h = handle(s, &d, n, how)?;
            let bad = wrong(ctx, s, sl.f, &h.kind(), &d);
            ctx.step(format_args!("refuse {} {} by {} {:?}", d.full_name(), s.slot_name(&sl), HOW[how], value_of(&bad)));
            ctx.fault("invalid-value");
            match &h {
                H::E(e) => {
                    ensure!(!bad.is_valid_for_extension(e), "refuse-ext", "{bad:?} is said to be valid for {}", e.full_name());
                }
                H::F(f) => {
                    ensure!(!bad.is_valid_for_field(f), "refuse-valid", "{bad:?} is said to be valid for {}", f.full_name());
                    match set(dm, &h, how, true, bad.clone()) {
                        Err(e @ SetFieldError::InvalidType { .. }) => {
                            let text = e.to_string();
                            let SetFieldError::InvalidType { field, value } = e else { unreachable!() };
                            ensure!(field == *f && value_of(&value) == value_of(&bad) && !text.is_empty(), "refuse-error", "the error names {field:?} and {value:?}");
                        }
                        r => return Err(viol!("refuse", "setting {} to {bad:?} gave {r:?}", f.full_name())),
                    }
                }
            }
        }
        5 => {
            // in place over everything set
            ctx.step(format_args!("mutate all of {}", d.full_name()));
            ctx.count("op", "fields-mut");
            let ext = ctx.src.chance(1, 3);
            let mut seen = Vec::new();
            let mut go = |ctx: &mut Ctx, n: u32, kind: Kind, v: &mut Value, m: &mut MMsg| -> R {
                seen.push(n);
                let sl = s.slot(mid, n).ok_or_else(|| viol!("fields-mut", "fields_mut yields {n}"))?;
                let Some(mut x) = m.fields.remove(&n) else { return Err(viol!("fields-mut", "fields_mut yields the unset field {n}")) };
                let got = canon(&value_of(v));
                ensure!(got == canon(&x), "fields-mut", "fields_mut yields {got:?} for {n} instead of {x:?}");
                if ctx.src.chance(1, 2) {
                    mutate(ctx, s, sl.f, &kind, v, &mut x, depth.min(1))?;
                }
                m.fields.insert(n, x);
                Ok(())
            };
            let mut want: Vec<u32> = m.fields.keys().copied().collect();
            want.retain(|n| s.slot(mid, *n).is_some_and(|x| x.ext.is_some() == ext));
            if ext {
                for (f, v) in dm.extensions_mut() {
                    go(ctx, f.number(), f.kind(), v, m)?;
                }
            } else {
                for (f, v) in dm.fields_mut() {
                    go(ctx, f.number(), f.kind(), v, m)?;
                }
            }
            ensure!(seen == want, "fields-mut", "fields_mut yields {seen:?} instead of {want:?}");
        }
        6 => {
            ctx.step(format_args!("take fields of {}", d.full_name()));
            ctx.count("op", "take-fields");
            let ext = ctx.src.chance(1, 3);
            let got: Vec<(u32, MVal)> = if ext {
                dm.take_extensions().map(|(f, v)| (f.number(), canon(&value_of(&v)))).collect()
            } else {
                dm.take_fields().map(|(f, v)| (f.number(), canon(&value_of(&v)))).collect()
            };
            let mut want = Vec::new();
            let nums: Vec<u32> = m.fields.keys().copied().collect();
            for n in nums {
                if s.slot(mid, n).is_some_and(|x| x.ext.is_some() == ext) {
                    want.push((n, canon(&m.fields.remove(&n).unwrap())));
                }
            }
            ensure!(got == want, "take-fields", "draining gave {got:?} instead of {want:?}");
        }
        7 => {
            ctx.step(format_args!("take unknown of {}", d.full_name()));
            ctx.count("op", "take-unknown");
            let mut got: BTreeMap<u32, Vec<Unk>> = BTreeMap::new();
            for u in dm.take_unknown_fields() {
                let (n, x) = unk_of(&u);
                got.entry(n).or_default().push(x);
            }
            let want = std::mem::take(&mut m.unk);
            ensure!(got == want, "take-unknown", "draining unknown fields gave {got:?} instead of {want:?}");
            if ctx.src.chance(1, 2) {
                // and they arrive again
                let b = wire::encode(s, mid, &MMsg { fields: BTreeMap::new(), unk: want });
                ctx.step(format_args!("again {}", hex(&b)));
                dm.merge(SimBuf::random(&mut ctx.src, &b)).map_err(|e| viol!("merge-refused", "valid bytes refused: {e}"))?;
                wire::merge(s, mid, m, &b).map_err(|e| viol!("harness", "harness: {e:?}"))?;
            }
        }
        8 => {
            // names and numbers that do not exist
            ctx.step(format_args!("address missing fields of {}", d.full_name()));
            ctx.fault("unknown-field-addressed");
            let n = gen::unknown_number(&mut ctx.src, s, mid);
            let name = *ctx.src.pick(&["", "no_such_field", ".", "a.b", "[p.x]", "é"]);
            ensure!(!dm.has_field_by_number(n) && !dm.has_field_by_name(name), "missing-has", "a missing field is present");
            ensure!(
                dm.get_field_by_number(n).is_none()
                    && dm.get_field_by_name(name).is_none()
                    && dm.get_field_by_number_mut(n).is_none()
                    && dm.get_field_by_name_mut(name).is_none()
                    && dm.take_field_by_number(n).is_none()
                    && dm.take_field_by_name(name).is_none(),
                "missing-get",
                "a missing field has a value"
            );
            ensure!(
                dm.try_set_field_by_number(n, Value::I32(1)) == Err(SetFieldError::NotFound)
                    && dm.try_set_field_by_name(name, Value::I32(1)) == Err(SetFieldError::NotFound),
                "missing-set",
                "setting a missing field is not refused"
            );
            dm.set_field_by_number(n, Value::I32(1));
            dm.set_field_by_name(name, Value::I32(1));
            dm.clear_field_by_number(n);
            dm.clear_field_by_name(name);
        }
        _ => {
            // bytes of another writer
            let x = gen::message(&mut ctx.src, s, mid, 1, &vals);
            let b = wire::encode(s, mid, &x);
            ctx.step(format_args!("merge into {} {}", d.full_name(), hex(&b)));
            ctx.count("op", "merge-bytes");
            dm.merge(SimBuf::random(&mut ctx.src, &b)).map_err(|e| viol!("merge-refused", "valid bytes refused: {e}"))?;
            wire::merge(s, mid, m, &b).map_err(|e| viol!("harness", "harness: {e:?}"))?;
        }
    }
    s.normalise(mid, m);
    Ok(())
}

fn c17(ctx: &mut Ctx) -> R {
    let c = Cfg {
        files: (1, 2),
        msgs: 1 + ctx.src.below(3),
        fields: 3 + ctx.src.below(6),
        relative: false,
        ..Cfg::default()
    };
    let w = World::new(ctx, c)?;
    let s = &w.s;
    let mid = gen::root(&mut ctx.src, s);
    let n = 1 + ctx.src.below(3);
    let mut nodes: Vec<Node> = Vec::new();
    for _ in 0..n {
        let mid = if ctx.src.chance(1, 6) { gen::root(&mut ctx.src, s) } else { mid };
        nodes.push(Node { mid, dm: DynamicMessage::new(w.desc(mid)), model: MMsg::default() });
    }
    // what survives a crash
    let mut saved: Vec<(Vec<u8>, MMsg)> = nodes.iter().map(|_| (Vec::new(), MMsg::default())).collect();
    let steps = ctx.src.range(3, 14);
    for _ in 0..steps {
        let i = ctx.src.below(nodes.len());
        let kind = ctx.src.weighted(&[14, 2, 2, 1, 2, 1, 1, 1]);
        match kind {
            0 => {
                let node = &mut nodes[i];
                op(ctx, s, node.mid, &mut node.dm, &mut node.model, 2)?;
            }
            1 => {
                // save, and continue from what was saved or not
                let node = &mut nodes[i];
                let b = if ctx.src.chance(1, 2) { node.dm.encode_to_vec() } else { node.dm.encode_length_delimited_to_vec() };
                let b = if b.len() == node.dm.encoded_len() { b } else { node.dm.encode_to_vec() };
                ctx.step(format_args!("save {i} {}", hex(&b)));
                saved[i] = (b, node.model.clone());
                if ctx.src.chance(1, 2) {
                    restore(ctx, &w, node, &saved[i])?;
                }
            }
            2 => {
                ctx.fault("crash");
                ctx.step(format_args!("crash {i}"));
                restore(ctx, &w, &mut nodes[i], &saved[i])?;
            }
            3 => {
                let node = &mut nodes[i];
                ctx.step(format_args!("reset {i}"));
                ctx.count("op", "reset");
                node.dm.clear();
                node.model = MMsg::default();
            }
            4 => {
                // another holder of the message, by copy or by its bytes
                let j = ctx.src.below(nodes.len());
                if nodes[i].mid == nodes[j].mid {
                    let from = nodes[j].dm.clone();
                    let model = nodes[j].model.clone();
                    let mid = nodes[i].mid;
                    let node = &mut nodes[i];
                    match ctx.src.below(3) {
                        0 => {
                            ctx.step(format_args!("copy {j} over {i}"));
                            ctx.count("op", "copy");
                            node.dm = from;
                            node.model = model;
                        }
                        1 => {
                            ctx.step(format_args!("transcode {j} into {i}"));
                            ctx.count("op", "transcode");
                            node.dm.transcode_from(&from).map_err(|e| viol!("transcode", "transcode_from failed: {e}"))?;
                            wire::merge(s, mid, &mut node.model, &wire::encode(s, mid, &model)).map_err(|e| viol!("harness", "harness: {e:?}"))?;
                        }
                        _ => {
                            ctx.step(format_args!("transcode {j} over {i}"));
                            ctx.count("op", "transcode-dynamic");
                            node.dm = from.transcode_to_dynamic();
                            node.model = model;
                        }
                    }
                }
            }
            5 => {
                // one field's value from another holder
                let j = ctx.src.below(nodes.len());
                if nodes[i].mid == nodes[j].mid && !s.slots(nodes[i].mid).is_empty() {
                    let mid = nodes[i].mid;
                    let slots = s.slots(mid);
                    let sl = *ctx.src.pick(&slots);
                    let n = sl.f.num;
                    ctx.step(format_args!("value of {} from {j} to {i}", s.slot_name(&sl)));
                    ctx.count("op", "copy-value");
                    let d = nodes[i].dm.descriptor();
                    let h = handle(s, &d, n, 0)?;
                    let v = match &h {
                        H::F(f) => nodes[j].dm.get_field(f).into_owned(),
                        H::E(f) => nodes[j].dm.get_extension(f).into_owned(),
                    };
                    let x = nodes[j].model.fields.get(&n).cloned().unwrap_or_else(|| absent(s, &sl));
                    let node = &mut nodes[i];
                    set(&mut node.dm, &h, 0, true, v).map_err(|e| viol!("set-refused", "a value read from a message is refused: {e}"))?;
                    others_out(s, mid, &mut node.model, n);
                    node.model.fields.insert(n, x);
                    s.normalise(mid, &mut node.model);
                }
            }
            6 => {
                // a copy changes on its own
                let node = &nodes[i];
                let (mut dm, mut m) = (node.dm.clone(), node.model.clone());
                ctx.step(format_args!("branch off {i}"));
                ctx.count("op", "branch");
                op(ctx, s, node.mid, &mut dm, &mut m, 2)?;
                check(s, node.mid, &dm, &m, "branch")?;
            }
            _ => {
                // all fields moved into a new message
                let node = &mut nodes[i];
                ctx.step(format_args!("move the fields of {i}"));
                ctx.count("op", "move");
                let d = node.dm.descriptor();
                let mut to = DynamicMessage::new(d);
                for (f, v) in node.dm.take_fields() {
                    to.try_set_field(&f, v).map_err(|e| viol!("set-refused", "a value taken from a message is refused: {e}"))?;
                }
                for (f, v) in node.dm.take_extensions() {
                    to.set_extension(&f, v);
                }
                let mut rest = MMsg { fields: BTreeMap::new(), unk: node.model.unk.clone() };
                check(s, node.mid, &node.dm, &rest, "moved-from")?;
                rest.unk.clear();
                node.model.unk.clear();
                node.dm = to;
            }
        }
        for (j, node) in nodes.iter().enumerate() {
            // one message's operations leave the others alone
            if j == i || ctx.src.chance(1, 3) {
                check(s, node.mid, &node.dm, &node.model, if j == i { "record" } else { "bystander" })?;
            }
        }
    }
    for node in &nodes {
        well_typed(&node.dm)?;
        let b = node.dm.encode_to_vec();
        ensure!(b.len() == node.dm.encoded_len(), "encoded-len", "encoded_len {} but {} bytes", node.dm.encoded_len(), b.len());
        let back = wire::decode(s, node.mid, &b).map_err(|e| viol!("encoded-bad", "encoding is malformed: {e:?}: {}", hex(&b)))?;
        ensure!(canon_msg(&back) == canon_msg(&node.model), "encoded-differs", "encoding carries {} instead of {}", back.to_s(), node.model.to_s());
        ctx.note(format_args!("end {}", node.model.to_s()));
    }
    Ok(())
}

fn restore(ctx: &mut Ctx, w: &World, node: &mut Node, from: &(Vec<u8>, MMsg)) -> R {
    ctx.fault("restart");
    node.dm = DynamicMessage::decode(w.desc(node.mid), SimBuf::random(&mut ctx.src, &from.0))
        .map_err(|e| viol!("restore-refused", "saved bytes refused: {e}: {}", hex(&from.0)))?;
    node.model = from.1.clone();
    check(&w.s, node.mid, &node.dm, &node.model, "restored")
}
