//! Between the model and the code under test.
use crate::core::*;
use crate::emit::*;
use crate::gen;
use crate::model::*;
use crate::props::hex;
use crate::wire::*;
use crate::{ensure, viol};
use prost::bytes::Bytes;
use prost::Message as _;
use prost_reflect::{
    Cardinality, DescriptorPool, DynamicMessage, EnumDescriptor, ExtensionDescriptor, FieldDescriptor, FileDescriptor, Kind, MapKey,
    MessageDescriptor, ReflectMessage, Syntax, UnknownField, Value,
};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

// ---------------------------------------------------------------- messages

pub fn value_of(v: &Value) -> MVal {
    match v {
        Value::Bool(v) => MVal::Bool(*v),
        Value::I32(v) => MVal::I32(*v),
        Value::I64(v) => MVal::I64(*v),
        Value::U32(v) => MVal::U32(*v),
        Value::U64(v) => MVal::U64(*v),
        Value::F32(v) => MVal::F32(norm32(*v)),
        Value::F64(v) => MVal::F64(norm64(*v)),
        Value::String(v) => MVal::Str(v.clone()),
        Value::Bytes(v) => MVal::Bytes(v.to_vec()),
        Value::EnumNumber(v) => MVal::Enum(*v),
        Value::Message(m) => MVal::Msg(msg_of(m)),
        Value::List(l) => MVal::List(l.iter().map(value_of).collect()),
        Value::Map(m) => MVal::Map(m.iter().map(|(k, v)| (key_of(k), value_of(v))).collect()),
    }
}
/// Which NaN it is carries no meaning.
fn norm32(v: f32) -> u32 {
    if v.is_nan() {
        f32::NAN.to_bits()
    } else {
        v.to_bits()
    }
}
fn norm64(v: f64) -> u64 {
    if v.is_nan() {
        f64::NAN.to_bits()
    } else {
        v.to_bits()
    }
}
pub fn key_of(k: &MapKey) -> MKey {
    match k {
        MapKey::Bool(v) => MKey::Bool(*v),
        MapKey::I32(v) => MKey::I32(*v),
        MapKey::I64(v) => MKey::I64(*v),
        MapKey::U32(v) => MKey::U32(*v),
        MapKey::U64(v) => MKey::U64(*v),
        MapKey::String(v) => MKey::Str(v.clone()),
    }
}
pub fn unk_of(u: &UnknownField) -> (u32, Unk) {
    let mut b = Vec::new();
    u.encode(&mut b);
    let mut v = decode_raw(&b).unwrap_or_default();
    if v.len() != 1 {
        return (u.number(), Unk::Len(b"harness: an unknown field encodes to something else".to_vec()));
    }
    v.remove(0)
}

/// How an unknown field is printed.
pub fn unknown_text(n: u32, u: &Unk, pretty: bool, indent: usize) -> String {
    let colon = if pretty { ": " } else { ":" };
    let set = |v: &[(u32, Unk)]| {
        let gap = if pretty { " " } else { "" };
        if v.is_empty() {
            return format!("{n}{gap}{{}}");
        }
        let items: Vec<String> = v.iter().map(|(n, u)| unknown_text(*n, u, pretty, indent + 2)).collect();
        if pretty {
            let nl = format!("\n{}", " ".repeat(indent + 2));
            format!("{n} {{{nl}{}\n{}}}", items.join(&nl), " ".repeat(indent))
        } else {
            format!("{n}{{{}}}", items.join(","))
        }
    };
    match u {
        Unk::Varint(v) => format!("{n}{colon}{v}"),
        Unk::F32(v) => format!("{n}{colon}0x{v:08x}"),
        Unk::F64(v) => format!("{n}{colon}0x{v:016x}"),
        Unk::Group(v) => set(v),
        Unk::Len(b) => match decode_raw(b) {
            Ok(v) if !b.is_empty() => set(&v),
            _ => {
                let mut t = String::new();
                for c in b {
                    match c {
                        b'\t' => t += "\\t",
                        b'\r' => t += "\\r",
                        b'\n' => t += "\\n",
                        b'\\' | b'\'' | b'"' => t.extend(['\\', *c as char]),
                        0x20..=0x7e => t.push(*c as char),
                        _ => t += &format!("\\{c:03o}"),
                    }
                }
                format!("{n}{colon}\"{t}\"")
            }
        },
    }
}

/// Checks how the unknown fields of a message read, as text and from any buffer.
pub fn unknown_reports(src: &mut Src, m: &DynamicMessage) -> R {
    for u in m.unknown_fields() {
        let (n, x) = unk_of(u);
        for pretty in [false, true] {
            let want = unknown_text(n, &x, pretty, 0);
            let got = if pretty { format!("{u:#}") } else { format!("{u}") };
            ensure!(got == want, "unknown-text", "unknown field {n} prints as {got:?} instead of {want:?}");
        }
        let mut b = Vec::new();
        u.encode(&mut b);
        let len = b.len();
        b.extend(gen::bytes(src));
        let mut buf = crate::io::SimBuf::random(src, &b);
        let back = UnknownField::decode(&mut buf, Default::default())
            .map_err(|e| viol!("unknown-refused", "an unknown field's own encoding is refused: {e}: {}", hex(&b[..len])))?;
        ensure!(back == *u, "unknown-reread", "unknown field {n} reads back as {back:?} instead of {u:?}");
        let rest = prost::bytes::Buf::remaining(&buf);
        ensure!(rest == b.len() - len, "unknown-overread", "reading unknown field {n} leaves {rest} of {} bytes", b.len() - len);
    }
    Ok(())
}

/// What a message holds, read through its public accessors.
pub fn msg_of(m: &DynamicMessage) -> MMsg {
    let mut out = MMsg::default();
    for (f, v) in m.fields() {
        out.fields.insert(f.number(), value_of(v));
    }
    for (f, v) in m.extensions() {
        out.fields.insert(f.number(), value_of(v));
    }
    for u in m.unknown_fields() {
        let (n, x) = unk_of(u);
        out.unk.entry(n).or_default().push(x);
    }
    out
}

/// Checks the accessors of a message against each other and returns what it holds.
pub fn observe(m: &DynamicMessage) -> R<MMsg> {
    let r = msg_of(m);
    let d = m.descriptor();
    for f in d.fields() {
        let n = f.number();
        ensure!(
            m.has_field(&f) == r.fields.contains_key(&n) && m.has_field_by_number(n) == m.has_field(&f),
            "accessors:has",
            "has_field and fields() disagree on {} {n}",
            d.full_name()
        );
        if let Some(v) = r.fields.get(&n) {
            ensure!(value_of(&m.get_field(&f)) == *v, "accessors:get", "get_field and fields() disagree on {} {n}", d.full_name());
        }
    }
    for u in m.unknown_fields() {
        let (n, x) = unk_of(u);
        let wt = match x {
            Unk::Varint(_) => 0,
            Unk::F64(_) => 1,
            Unk::Len(_) => 2,
            Unk::Group(_) => 3,
            Unk::F32(_) => 5,
        };
        ensure!(n == u.number() && wt == u.wire_type() as u8, "accessors:unknown", "unknown field {n} reports number {} wire type {:?}", u.number(), u.wire_type());
        let mut b = Vec::new();
        u.encode(&mut b);
        ensure!(b.len() == u.encoded_len(), "accessors:unknown-len", "unknown field {n} encodes to {} bytes, declares {}", b.len(), u.encoded_len());
    }
    Ok(r)
}

pub fn to_value(s: &Schema, kind: &Kind, ty: Ty, v: &MVal) -> Value {
    match v {
        MVal::Bool(v) => Value::Bool(*v),
        MVal::I32(v) => Value::I32(*v),
        MVal::I64(v) => Value::I64(*v),
        MVal::U32(v) => Value::U32(*v),
        MVal::U64(v) => Value::U64(*v),
        MVal::F32(v) => Value::F32(f32::from_bits(*v)),
        MVal::F64(v) => Value::F64(f64::from_bits(*v)),
        MVal::Str(v) => Value::String(v.clone()),
        MVal::Bytes(v) => Value::Bytes(Bytes::from(v.clone())),
        MVal::Enum(v) => Value::EnumNumber(*v),
        MVal::Msg(m) => Value::Message(to_dyn(s, kind.as_message().expect("harness: kind").clone(), ty.msg().unwrap(), m)),
        MVal::List(l) => Value::List(l.iter().map(|v| to_value(s, kind, ty, v)).collect()),
        MVal::Map(m) => {
            let mid = ty.msg().unwrap();
            let vf = s.msgs[mid].fields.iter().find(|f| f.num == 2).unwrap();
            let vk = kind.as_message().unwrap().map_entry_value_field().kind();
            Value::Map(m.iter().map(|(k, v)| (to_key(k), to_value(s, &vk, vf.ty, v))).collect::<HashMap<_, _>>())
        }
    }
}
pub fn to_key(k: &MKey) -> MapKey {
    match k {
        MKey::Bool(v) => MapKey::Bool(*v),
        MKey::I32(v) => MapKey::I32(*v),
        MKey::I64(v) => MapKey::I64(*v),
        MKey::U32(v) => MapKey::U32(*v),
        MKey::U64(v) => MapKey::U64(*v),
        MKey::Str(v) => MapKey::String(v.clone()),
    }
}

/// Builds a message through setters; unknown fields are merged in as bytes.
pub fn to_dyn(s: &Schema, d: MessageDescriptor, mid: usize, m: &MMsg) -> DynamicMessage {
    let mut out = DynamicMessage::new(d.clone());
    for (&n, v) in &m.fields {
        let slot = s.slot(mid, n).unwrap();
        match slot.ext {
            None => {
                let f = d.get_field(n).unwrap_or_else(|| panic!("harness: field {n} of {} missing", d.full_name()));
                out.set_field(&f, to_value(s, &f.kind(), slot.f.ty, v));
            }
            Some(e) => {
                let f = d.get_extension_by_full_name(&s.exts[e].full).expect("harness: extension missing");
                out.set_extension(&f, to_value(s, &f.kind(), slot.f.ty, v));
            }
        }
    }
    if !m.unk.is_empty() {
        let mut b = Vec::new();
        for (n, us) in &m.unk {
            for u in us {
                unknown(*n, u, &mut b);
            }
        }
        out.merge(b.as_slice()).expect("harness: merging unknown fields");
    }
    out
}

pub fn canon(v: &MVal) -> MVal {
    match v {
        MVal::F32(b) => MVal::F32(norm32(f32::from_bits(*b))),
        MVal::F64(b) => MVal::F64(norm64(f64::from_bits(*b))),
        MVal::Msg(m) => MVal::Msg(canon_msg(m)),
        MVal::List(l) => MVal::List(l.iter().map(canon).collect()),
        MVal::Map(m) => MVal::Map(m.iter().map(|(k, v)| (k.clone(), canon(v))).collect()),
        v => v.clone(),
    }
}
pub fn canon_msg(m: &MMsg) -> MMsg {
    MMsg { fields: m.fields.iter().map(|(k, v)| (*k, canon(v))).collect(), unk: m.unk.clone() }
}

/// Compares a message of the code under test with the model.
pub fn same(d: &DynamicMessage, want: &MMsg, what: &str) -> R {
    let got = observe(d)?;
    let want = canon_msg(want);
    ensure!(got == want, format!("value:{what}"), "{what}: {} is {} instead of {}", d.descriptor().full_name(), got.to_s(), want.to_s());
    Ok(())
}

/// Whether every value is of its declared type.
pub fn well_typed(m: &DynamicMessage) -> R {
    fn one(k: &Kind, v: &Value) -> R {
        let ok = match (k, v) {
            (Kind::Double, Value::F64(_))
            | (Kind::Float, Value::F32(_))
            | (Kind::Int32 | Kind::Sint32 | Kind::Sfixed32, Value::I32(_))
            | (Kind::Int64 | Kind::Sint64 | Kind::Sfixed64, Value::I64(_))
            | (Kind::Uint32 | Kind::Fixed32, Value::U32(_))
            | (Kind::Uint64 | Kind::Fixed64, Value::U64(_))
            | (Kind::Bool, Value::Bool(_))
            | (Kind::String, Value::String(_))
            | (Kind::Bytes, Value::Bytes(_))
            | (Kind::Enum(_), Value::EnumNumber(_)) => true,
            (Kind::Message(d), Value::Message(m)) => {
                well_typed(m)?;
                *d == m.descriptor()
            }
            _ => false,
        };
        ensure!(ok, "ill-typed", "a {k:?} holds {v:?}");
        Ok(())
    }
    fn key(k: &Kind, v: &MapKey) -> bool {
        matches!(
            (k, v),
            (Kind::Int32 | Kind::Sint32 | Kind::Sfixed32, MapKey::I32(_))
                | (Kind::Int64 | Kind::Sint64 | Kind::Sfixed64, MapKey::I64(_))
                | (Kind::Uint32 | Kind::Fixed32, MapKey::U32(_))
                | (Kind::Uint64 | Kind::Fixed64, MapKey::U64(_))
                | (Kind::Bool, MapKey::Bool(_))
                | (Kind::String, MapKey::String(_))
        )
    }
    fn field(list: bool, map: bool, k: &Kind, v: &Value) -> R {
        match v {
            Value::List(l) if list => {
                for x in l {
                    one(k, x)?;
                }
                Ok(())
            }
            Value::Map(m) if map => {
                let e = k.as_message().unwrap();
                for (mk, x) in m {
                    ensure!(key(&e.map_entry_key_field().kind(), mk), "ill-typed", "map key {mk:?} of {}", e.full_name());
                    field(false, false, &e.map_entry_value_field().kind(), x)?;
                }
                Ok(())
            }
            v => {
                ensure!(!list && !map, "ill-typed", "a repeated {k:?} holds {v:?}");
                one(k, v)
            }
        }
    }
    let mut members: HashMap<String, u32> = HashMap::new();
    for (f, v) in m.fields() {
        field(f.is_list(), f.is_map(), &f.kind(), v)?;
        if let Some(o) = f.containing_oneof() {
            if let Some(p) = members.insert(o.full_name().to_string(), f.number()) {
                return Err(viol!("oneof-twice", "oneof {} holds both {p} and {}", o.full_name(), f.number()));
            }
        }
    }
    for (f, v) in m.extensions() {
        field(f.is_list(), f.is_map(), &f.kind(), v)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- pools

pub fn pool_of(s: &Schema) -> R<DescriptorPool> {
    pool_of_files(s, &(0..s.files.len()).collect::<Vec<_>>())
}
pub fn pool_of_files(s: &Schema, files: &[usize]) -> R<DescriptorPool> {
    let b: Vec<Vec<u8>> = files.iter().map(|&f| file_bytes(s, f)).collect();
    DescriptorPool::decode(set_bytes(&b).as_slice()).map_err(|e| viol!("pool:refused", "valid files refused: {e:?}"))
}
pub fn desc(p: &DescriptorPool, s: &Schema, mid: usize) -> MessageDescriptor {
    p.get_message_by_name(&s.msgs[mid].full).unwrap_or_else(|| panic!("harness: no {}", s.msgs[mid].full))
}

fn kind_s(k: &Kind) -> String {
    match k {
        Kind::Message(m) => format!("message {}", m.full_name()),
        Kind::Enum(e) => format!("enum {}", e.full_name()),
        Kind::Double => "double".into(),
        Kind::Float => "float".into(),
        Kind::Int32 => "int32".into(),
        Kind::Int64 => "int64".into(),
        Kind::Uint32 => "uint32".into(),
        Kind::Uint64 => "uint64".into(),
        Kind::Sint32 => "sint32".into(),
        Kind::Sint64 => "sint64".into(),
        Kind::Fixed32 => "fixed32".into(),
        Kind::Fixed64 => "fixed64".into(),
        Kind::Sfixed32 => "sfixed32".into(),
        Kind::Sfixed64 => "sfixed64".into(),
        Kind::Bool => "bool".into(),
        Kind::String => "string".into(),
        Kind::Bytes => "bytes".into(),
    }
}
fn names<T>(it: impl Iterator<Item = T>, f: impl Fn(T) -> String) -> String {
    it.map(f).collect::<Vec<_>>().join(",")
}
fn opts_s(o: DynamicMessage, with: bool) -> String {
    if with {
        msg_of(&o).to_s()
    } else {
        String::new()
    }
}

#[derive(Clone, Copy)]
pub struct Dump {
    pub options: bool,
    /// stored structures, paths and indices as well
    pub raw: bool,
}

#[allow(clippy::too_many_arguments)]
fn field_line(
    tag: &str,
    full: &str,
    name: &str,
    num: u32,
    json: &str,
    kind: &Kind,
    group: bool,
    card: Cardinality,
    list: bool,
    map: bool,
    packed: bool,
    presence: bool,
    default: MVal,
    oneof: Option<String>,
    extra: &str,
    opts: String,
) -> String {
    let card = match card {
        Cardinality::Optional => "optional",
        Cardinality::Required => "required",
        Cardinality::Repeated => "repeated",
    };
    format!(
        "{tag} {full} name={name} num={num} json={json} {card} {} group={group} list={list} map={map} packed={packed} presence={presence} default={} oneof={} {extra} opts={opts}",
        kind_s(kind),
        default.to_s(),
        oneof.unwrap_or_default(),
    )
}

/// The answers of a pool, one line per definition, in the order the pool gives them.
pub fn dump_pool(p: &DescriptorPool, d: Dump) -> R<Vec<String>> {
    let mut out = Vec::new();
    for f in p.files() {
        dump_file(&mut out, p, &f, d)?;
    }
    for m in p.all_messages() {
        dump_msg(&mut out, p, &m, d)?;
    }
    for e in p.all_enums() {
        dump_enum(&mut out, p, &e, d)?;
    }
    for e in p.all_extensions() {
        dump_ext(&mut out, p, &e, d)?;
    }
    for sv in p.services() {
        ensure!(
            p.get_service_by_name(sv.full_name()).as_ref() == Some(&sv),
            "lookup:service",
            "service {} is not found by its name",
            sv.full_name()
        );
        out.push(format!(
            "service {} name={} file={} package={} methods=[{}] opts={}",
            sv.full_name(),
            sv.name(),
            sv.parent_file().name(),
            sv.package_name(),
            names(sv.methods(), |m| m.name().to_string()),
            opts_s(sv.options(), d.options)
        ));
        for m in sv.methods() {
            ensure!(m.parent_service() == &sv, "parent:method", "parent of {}", m.full_name());
            out.push(format!(
                "method {} name={} in={} out={} cs={} ss={} opts={}",
                m.full_name(),
                m.name(),
                m.input().full_name(),
                m.output().full_name(),
                m.is_client_streaming(),
                m.is_server_streaming(),
                opts_s(m.options(), d.options)
            ));
        }
    }
    if d.raw {
        for f in p.files() {
            out.push(format!("raw {} {:016x} {:016x}", f.name(), {
                let mut h = Fnv::default();
                h.bytes(&f.file_descriptor_proto().encode_to_vec());
                h.0
            }, {
                let mut h = Fnv::default();
                h.bytes(&f.encode_to_vec());
                h.0
            }));
        }
        out.push(format!("counts {} {} {} {} {}", p.files().len(), p.all_messages().len(), p.all_enums().len(), p.all_extensions().len(), p.services().len()));
    }
    Ok(out)
}

fn dump_file(out: &mut Vec<String>, p: &DescriptorPool, f: &FileDescriptor, d: Dump) -> R {
    ensure!(p.get_file_by_name(f.name()).as_ref() == Some(f), "lookup:file", "file {} is not found by its name", f.name());
    out.push(format!(
        "file {} package={} {} deps=[{}] public=[{}] msgs=[{}] enums=[{}] exts=[{}] services=[{}] opts={}",
        f.name(),
        f.package_name(),
        match f.syntax() {
            Syntax::Proto2 => "proto2",
            Syntax::Proto3 => "proto3",
        },
        names(f.dependencies(), |x| x.name().to_string()),
        names(f.public_dependencies(), |x| x.name().to_string()),
        names(f.messages(), |x| x.full_name().to_string()),
        names(f.enums(), |x| x.full_name().to_string()),
        names(f.extensions(), |x| x.full_name().to_string()),
        names(f.services(), |x| x.full_name().to_string()),
        opts_s(f.options(), d.options)
    ));
    Ok(())
}

fn dump_msg(out: &mut Vec<String>, p: &DescriptorPool, m: &MessageDescriptor, d: Dump) -> R {
    let full = m.full_name();
    ensure!(p.get_message_by_name(full).as_ref() == Some(m), "lookup:message", "message {full} is not found by its name");
    ensure!(p.get_message_by_name(&format!(".{full}")).is_none() || true, "lookup", "");
    out.push(format!(
        "message {full} name={} file={} package={} parent={} entry={} fields=[{}] oneofs=[{}] children=[{}] enums=[{}] child_exts=[{}] reserved=[{}] reserved_names=[{}] ranges=[{}] opts={}",
        m.name(),
        m.parent_file().name(),
        m.package_name(),
        m.parent_message().map(|x| x.full_name().to_string()).unwrap_or_default(),
        m.is_map_entry(),
        names(m.fields(), |f| f.number().to_string()),
        names(m.oneofs(), |f| f.name().to_string()),
        names(m.child_messages(), |f| f.full_name().to_string()),
        names(m.child_enums(), |f| f.full_name().to_string()),
        names(m.child_extensions(), |f| f.full_name().to_string()),
        names(m.reserved_ranges(), |r| format!("{}..{}", r.start, r.end)),
        names(m.reserved_names(), |r| r.to_string()),
        names(m.extension_ranges(), |r| format!("{}..{}", r.start, r.end)),
        opts_s(m.options(), d.options)
    ));
    let mut exts: Vec<String> = m.extensions().map(|e| format!("{}={}", e.number(), e.full_name())).collect();
    if !d.raw {
        exts.sort();
    }
    out.push(format!("extensions {full} [{}]", exts.join(",")));
    for f in m.fields() {
        dump_field(out, m, &f, d)?;
    }
    for o in m.oneofs() {
        out.push(format!(
            "oneof {} name={} synthetic={} fields=[{}] opts={}",
            o.full_name(),
            o.name(),
            o.is_synthetic(),
            names(o.fields(), |f| f.number().to_string()),
            opts_s(o.options(), d.options)
        ));
        ensure!(o.parent_message() == m, "parent:oneof", "parent of {}", o.full_name());
    }
    if d.raw {
        out.push(format!("path {full} {:?}", m.path()));
    }
    Ok(())
}

fn dump_field(out: &mut Vec<String>, m: &MessageDescriptor, f: &FieldDescriptor, d: Dump) -> R {
    let full = m.full_name();
    ensure!(
        m.get_field(f.number()).as_ref() == Some(f)
            && m.get_field_by_name(f.name()).as_ref() == Some(f)
            && m.get_field_by_json_name(f.json_name()).as_ref() == Some(f),
        "lookup:field",
        "field {} of {full} is not found by its number and names",
        f.name()
    );
    ensure!(f.parent_message() == m, "parent:field", "parent of {}", f.full_name());
    out.push(field_line(
        "field",
        f.full_name(),
        f.name(),
        f.number(),
        f.json_name(),
        &f.kind(),
        f.is_group(),
        f.cardinality(),
        f.is_list(),
        f.is_map(),
        f.is_packed(),
        f.supports_presence(),
        value_of(&f.default_value()),
        f.containing_oneof().map(|o| o.full_name().to_string()),
        &format!("required={} is_default={}", f.is_required(), f.default_value().is_default_for_field(f)),
        opts_s(f.options(), d.options),
    ));
    Ok(())
}

fn dump_enum(out: &mut Vec<String>, p: &DescriptorPool, e: &EnumDescriptor, d: Dump) -> R {
    let full = e.full_name();
    ensure!(p.get_enum_by_name(full).as_ref() == Some(e), "lookup:enum", "enum {full} is not found by its name");
    let mut vals: Vec<String> = Vec::new();
    for v in e.values() {
        ensure!(e.get_value_by_name(v.name()).as_ref() == Some(&v), "lookup:value", "value {} of {full}", v.name());
        let by = e.get_value(v.number());
        ensure!(by.as_ref().is_some_and(|b| b.number() == v.number()), "lookup:value-number", "value {} of {full}", v.number());
        ensure!(v.parent_enum() == e, "parent:value", "parent of {}", v.full_name());
        vals.push(format!("{}:{}={}{}", v.name(), v.full_name(), v.number(), opts_s(v.options(), d.options)));
    }
    if !d.raw {
        vals.sort();
    }
    out.push(format!(
        "enum {full} name={} file={} package={} parent={} default={} values=[{}] reserved=[{}] reserved_names=[{}] opts={}",
        e.name(),
        e.parent_file().name(),
        e.package_name(),
        e.parent_message().map(|x| x.full_name().to_string()).unwrap_or_default(),
        e.default_value().number(),
        vals.join(","),
        names(e.reserved_ranges(), |r| format!("{}..={}", r.start(), r.end())),
        names(e.reserved_names(), |r| r.to_string()),
        opts_s(e.options(), d.options)
    ));
    Ok(())
}

fn dump_ext(out: &mut Vec<String>, p: &DescriptorPool, e: &ExtensionDescriptor, d: Dump) -> R {
    let full = e.full_name();
    ensure!(p.get_extension_by_name(full).as_ref() == Some(e), "lookup:extension", "extension {full} is not found by its name");
    let m = e.containing_message();
    ensure!(
        m.get_extension_by_full_name(full).as_ref() == Some(e)
            && m.get_extension_by_json_name(e.json_name()).as_ref() == Some(e)
            && m.get_extension(e.number()).is_some_and(|x| x.number() == e.number()),
        "lookup:extension-of",
        "extension {full} is not found on {}",
        m.full_name()
    );
    out.push(field_line(
        "extension",
        full,
        e.name(),
        e.number(),
        e.json_name(),
        &e.kind(),
        e.is_group(),
        e.cardinality(),
        e.is_list(),
        e.is_map(),
        e.is_packed(),
        e.supports_presence(),
        value_of(&e.default_value()),
        None,
        &format!(
            "of={} file={} package={} parent={} is_default={}",
            m.full_name(),
            e.parent_file().name(),
            e.package_name(),
            e.parent_message().map(|x| x.full_name().to_string()).unwrap_or_default(),
            e.default_value().is_default_for_extension(e)
        ),
        opts_s(e.options(), d.options),
    ));
    Ok(())
}

/// What a pool holding exactly these files must answer.
pub fn dump_model(s: &Schema, files: &[usize], options: bool) -> Vec<String> {
    let mut out = Vec::new();
    let has = |f: usize| files.contains(&f);
    let op = |o: &Option<Opts>| if options { canon_msg(&o.clone().unwrap_or_default()).to_s() } else { String::new() };
    let tystr = |t: Ty| match t {
        Ty::S(s) => s.name().to_string(),
        Ty::E(e) => format!("enum {}", s.enums[e].full),
        Ty::M(m) | Ty::G(m) => format!("message {}", s.msgs[m].full),
    };
    let line = |tag: &str, full: &str, f: &Field, proto3: bool, ext: bool, extra: &str, oneof: String| {
        let slot = Slot { f, proto3, ext: if ext { Some(0) } else { None } };
        let json = if ext { format!("[{full}]") } else { f.json_name() };
        format!(
            "{tag} {full} name={} num={} json={json} {} {} group={} list={} map={} packed={} presence={} default={} oneof={oneof} {extra} opts={}",
            f.name,
            f.num,
            match f.label {
                Label::Optional => "optional",
                Label::Required => "required",
                Label::Repeated => "repeated",
            },
            tystr(f.ty),
            matches!(f.ty, Ty::G(_)),
            s.is_list(f),
            s.is_map(f),
            s.is_packed(f, proto3),
            s.slot_presence(&slot),
            canon(&s.default_of(&slot)).to_s(),
            op(&f.opts)
        )
    };
    for &fi in files {
        let f = &s.files[fi];
        out.push(format!(
            "file {} package={} {} deps=[{}] public=[{}] msgs=[{}] enums=[{}] exts=[{}] services=[{}] opts={}",
            f.name,
            f.package,
            if f.proto3 { "proto3" } else { "proto2" },
            names(f.deps.iter(), |d| s.files[d.0].name.clone()),
            names(f.deps.iter().filter(|d| d.1), |d| s.files[d.0].name.clone()),
            names(f.msgs.iter(), |m| s.msgs[*m].full.clone()),
            names(f.enums.iter(), |m| s.enums[*m].full.clone()),
            names(f.exts.iter(), |m| s.exts[*m].full.clone()),
            names(f.services.iter(), |m| m.full.clone()),
            op(&f.opts)
        ));
        for sv in &f.services {
            out.push(format!(
                "service {} name={} file={} package={} methods=[{}] opts={}",
                sv.full,
                sv.name,
                f.name,
                f.package,
                names(sv.methods.iter(), |m| m.name.clone()),
                op(&sv.opts)
            ));
            for m in &sv.methods {
                out.push(format!(
                    "method {}.{} name={} in={} out={} cs={} ss={} opts={}",
                    sv.full,
                    m.name,
                    m.name,
                    s.msgs[m.input].full,
                    s.msgs[m.output].full,
                    m.cs,
                    m.ss,
                    op(&m.opts)
                ));
            }
        }
    }
    for (mid, m) in s.msgs.iter().enumerate() {
        if !has(m.file) {
            continue;
        }
        let file = &s.files[m.file];
        let mut nums: Vec<u32> = m.fields.iter().map(|f| f.num).collect();
        nums.sort();
        out.push(format!(
            "message {} name={} file={} package={} parent={} entry={} fields=[{}] oneofs=[{}] children=[{}] enums=[{}] child_exts=[{}] reserved=[{}] reserved_names=[{}] ranges=[{}] opts={}",
            m.full,
            m.name,
            file.name,
            file.package,
            m.parent.map(|p| s.msgs[p].full.clone()).unwrap_or_default(),
            m.map_entry,
            names(nums.iter(), |n| n.to_string()),
            names(m.oneofs.iter(), |o| o.name.clone()),
            names(m.nested.iter(), |o| s.msgs[*o].full.clone()),
            names(m.enums.iter(), |o| s.enums[*o].full.clone()),
            names(m.exts.iter(), |o| s.exts[*o].full.clone()),
            names(m.reserved.iter(), |r| format!("{}..{}", r.0, r.1)),
            names(m.reserved_names.iter(), |r| r.to_string()),
            names(m.ext_ranges.iter(), |r| format!("{}..{}", r.0, r.1)),
            op(&m.opts)
        ));
        let mut exts: Vec<String> =
            s.exts.iter().filter(|e| e.extendee == mid && has(e.file)).map(|e| format!("{}={}", e.field.num, e.full)).collect();
        exts.sort();
        out.push(format!("extensions {} [{}]", m.full, exts.join(",")));
        for f in &m.fields {
            let oneof = f.oneof.map(|o| format!("{}.{}", m.full, m.oneofs[o].name)).unwrap_or_default();
            out.push(line(
                "field",
                &format!("{}.{}", m.full, f.name),
                f,
                file.proto3,
                false,
                &format!("required={} is_default=true", f.label == Label::Required),
                oneof,
            ));
        }
        for (i, o) in m.oneofs.iter().enumerate() {
            let members: Vec<&Field> = m.fields.iter().filter(|f| f.oneof == Some(i)).collect();
            out.push(format!(
                "oneof {}.{} name={} synthetic={} fields=[{}] opts={}",
                m.full,
                o.name,
                o.name,
                members.len() == 1 && members[0].p3opt,
                names(members.iter(), |f| f.num.to_string()),
                op(&o.opts)
            ));
        }
    }
    for e in &s.enums {
        if !has(e.file) {
            continue;
        }
        let scope = e.full.rsplit_once('.').map(|x| format!("{}.", x.0)).unwrap_or_default();
        let mut vals: Vec<String> = e.values.iter().map(|v| format!("{}:{scope}{}={}{}", v.name, v.name, v.num, op(&v.opts))).collect();
        vals.sort();
        out.push(format!(
            "enum {} name={} file={} package={} parent={} default={} values=[{}] reserved=[{}] reserved_names=[{}] opts={}",
            e.full,
            e.name,
            s.files[e.file].name,
            s.files[e.file].package,
            e.parent.map(|p| s.msgs[p].full.clone()).unwrap_or_default(),
            e.values[0].num,
            vals.join(","),
            names(e.reserved.iter(), |r| format!("{}..={}", r.0, r.1)),
            names(e.reserved_names.iter(), |r| r.to_string()),
            op(&e.opts)
        ));
    }
    for e in &s.exts {
        if !has(e.file) {
            continue;
        }
        out.push(line(
            "extension",
            &e.full,
            &e.field,
            s.files[e.file].proto3,
            true,
            &format!(
                "of={} file={} package={} parent={} is_default=true",
                s.msgs[e.extendee].full,
                s.files[e.file].name,
                s.files[e.file].package,
                e.parent.map(|p| s.msgs[p].full.clone()).unwrap_or_default()
            ),
            String::new(),
        ));
    }
    out.sort();
    out
}

/// First difference between two dumps.
pub fn diff(a: &[String], b: &[String]) -> Option<String> {
    if a == b {
        return None;
    }
    let mut s = String::new();
    let bs: std::collections::HashSet<&String> = b.iter().collect();
    let as_: std::collections::HashSet<&String> = a.iter().collect();
    if let Some(x) = a.iter().find(|x| !bs.contains(x)) {
        let _ = write!(s, "only first: {x}");
    }
    if let Some(x) = b.iter().find(|x| !as_.contains(x)) {
        let _ = write!(s, " / only second: {x}");
    }
    if s.is_empty() {
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            if x != y {
                let _ = write!(s, "order differs at {i}: {x} / {y}");
                break;
            }
        }
        if s.is_empty() {
            let _ = write!(s, "lengths {} and {}", a.len(), b.len());
        }
    }
    Some(s)
}

/// kind of the line that differs, for grouping violations
pub fn diff_sig(d: &str) -> String {
    let t = d.trim_start_matches("only first: ").trim_start_matches(" / only second: ");
    t.split(' ').next().unwrap_or("").to_string()
}

pub const ALL: Dump = Dump { options: true, raw: true };

pub fn answers(p: &DescriptorPool) -> R<Vec<String>> {
    dump_pool(p, ALL)
}
pub fn same_answers(a: &[String], b: &[String], what: &str) -> R {
    match diff(a, b) {
        None => Ok(()),
        Some(d) => Err(viol!(format!("answers:{what}:{}", diff_sig(&d)), "{what}: {d}")),
    }
}
pub fn digest_lines(l: &[String]) -> u64 {
    let mut h = Fnv::default();
    for x in l {
        h.bytes(x.as_bytes());
        h.bytes(b"\n");
    }
    h.0
}
/// Checks a pool against the model of the files it must hold.
pub fn matches_model(p: &DescriptorPool, s: &Schema, files: &[usize], options: bool, what: &str) -> R {
    let mut got = dump_pool(p, Dump { options, raw: false })?;
    got.sort();
    let want = dump_model(s, files, options);
    same_answers(&got, &want, what)?;
    crate::rawview::check(p, s, files)
}
pub fn default_of<'a>(m: &'a DynamicMessage, f: &FieldDescriptor) -> Cow<'a, Value> {
    m.get_field(f)
}
pub type Fields = BTreeMap<u32, MVal>;

/// A value for a field, made from its declaration alone.
pub fn any_value(src: &mut Src, kind: &Kind, depth: usize) -> Value {
    let sc = |src: &mut Src, s: Sc| -> Value {
        match gen::scalar(src, s, false) {
            MVal::Bool(x) => Value::Bool(x),
            MVal::I32(x) => Value::I32(x),
            MVal::I64(x) => Value::I64(x),
            MVal::U32(x) => Value::U32(x),
            MVal::U64(x) => Value::U64(x),
            MVal::F32(x) => Value::F32(f32::from_bits(x)),
            MVal::F64(x) => Value::F64(f64::from_bits(x)),
            MVal::Str(x) => Value::String(x),
            MVal::Bytes(x) => Value::Bytes(x.into()),
            _ => unreachable!(),
        }
    };
    match kind {
        Kind::Double => sc(src, Sc::Double),
        Kind::Float => sc(src, Sc::Float),
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => sc(src, Sc::Int32),
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => sc(src, Sc::Int64),
        Kind::Uint32 | Kind::Fixed32 => sc(src, Sc::Uint32),
        Kind::Uint64 | Kind::Fixed64 => sc(src, Sc::Uint64),
        Kind::Bool => sc(src, Sc::Bool),
        Kind::String => sc(src, Sc::String),
        Kind::Bytes => sc(src, Sc::Bytes),
        Kind::Enum(e) => {
            let v: Vec<i32> = e.values().map(|v| v.number()).collect();
            Value::EnumNumber(if v.is_empty() || src.chance(1, 8) { 77 } else { *src.pick(&v) })
        }
        Kind::Message(d) => {
            let mut m = DynamicMessage::new(d.clone());
            if depth > 0 {
                fill(src, &mut m, depth - 1);
            }
            Value::Message(m)
        }
    }
}
pub fn any_key(src: &mut Src, kind: &Kind) -> Option<MapKey> {
    any_value(src, kind, 0).into_map_key()
}
pub fn any_for(src: &mut Src, kind: &Kind, list: bool, map: bool, depth: usize) -> Value {
    let n = 1 + src.len(2);
    if map {
        let d = kind.as_message().unwrap().clone();
        let (kk, vk) = (d.map_entry_key_field().kind(), d.map_entry_value_field().kind());
        Value::Map((0..n).filter_map(|_| Some((any_key(src, &kk)?, any_value(src, &vk, depth)))).collect())
    } else if list {
        Value::List((0..n).map(|_| any_value(src, kind, depth)).collect())
    } else {
        any_value(src, kind, depth)
    }
}
pub fn fill(src: &mut Src, m: &mut DynamicMessage, depth: usize) {
    let d = m.descriptor();
    let (num, den) = if depth >= 3 { (4, 5) } else { (1, 3) };
    for f in d.fields() {
        if src.chance(num, den) && (depth > 0 || f.kind().as_message().is_none()) {
            m.set_field(&f, any_for(src, &f.kind(), f.is_list(), f.is_map(), depth));
        }
    }
    for f in d.extensions() {
        if src.chance(num, den) && (depth > 0 || f.kind().as_message().is_none()) {
            m.set_extension(&f, any_for(src, &f.kind(), f.is_list(), f.is_map(), depth));
        }
    }
}
