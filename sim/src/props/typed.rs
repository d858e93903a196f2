//! Typed and dynamic nodes exchange messages: C18.
use super::pools::ASSUME;
use super::*;
use crate::emit::{load_set, Emit};
use crate::engine::catch;
use crate::json::{check as check_json, expressible, valid};
use crate::wire::{self, norm_any};
use crate::{ensure, viol};
use prost::Message;
use prost_reflect::{DynamicMessage, ReflectMessage};
use std::any::Any;
use std::sync::OnceLock;

pub const C18: Prop = Prop {
    id: "C18",
    run: c18,
    quick: 600_000,
    thorough: 5_000_000,
    fork: false,
    rule: "a run takes a value of one of the library's or of 26 derived types through a chain of nodes that hold it typed, dynamic (in the process-wide, the type's own, another or an older pool), as JSON, as text or as bytes, with stale targets, incompatible types and damaged bytes in between, and compares every form with the model; non-trivial when at least two conversions were made, distinct by event log",
    real: &["ReflectMessage impls of prost-types, derived ReflectMessage impls, DynamicMessage transcode_*, encode, decode, JSON, text, DescriptorPool::global"],
    stub: &["links between nodes", "messages (generated)", "derived types (generated once from fixed .proto files)"],
    assumptions: ASSUME,
};

/// A message held by a node that knows its Rust type.
pub trait Held {
    fn bytes(&self) -> Vec<u8>;
    fn descriptor(&self) -> MessageDescriptor;
    fn to_dynamic(&self, how: usize) -> DynamicMessage;
    fn put(&self, d: &mut DynamicMessage) -> Result<(), prost::DecodeError>;
    fn equals(&self, o: &dyn Held) -> bool;
    fn any(&self) -> &dyn Any;
}
impl<T: ReflectMessage + Default + PartialEq + Clone + 'static> Held for T {
    fn bytes(&self) -> Vec<u8> {
        self.encode_to_vec()
    }
    fn descriptor(&self) -> MessageDescriptor {
        ReflectMessage::descriptor(self)
    }
    fn to_dynamic(&self, how: usize) -> DynamicMessage {
        match how {
            0 => self.transcode_to_dynamic(),
            1 => Box::new(self.clone()).transcode_to_dynamic(),
            _ => {
                let mut d = DynamicMessage::new(ReflectMessage::descriptor(&Box::new(self.clone())));
                d.transcode_from(self).expect("transcode_from into a message of the value's own type");
                d
            }
        }
    }
    fn put(&self, d: &mut DynamicMessage) -> Result<(), prost::DecodeError> {
        d.transcode_from(self)
    }
    fn equals(&self, o: &dyn Held) -> bool {
        o.any().downcast_ref::<T>().is_some_and(|o| o == self)
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

type H = Box<dyn Held>;

pub struct Type {
    pub name: &'static str,
    decode: fn(&[u8]) -> Result<H, prost::DecodeError>,
    from_dynamic: fn(&DynamicMessage) -> Result<H, prost::DecodeError>,
    pub descriptor: fn() -> MessageDescriptor,
}

fn entry<T: ReflectMessage + Default + PartialEq + Clone + 'static>(name: &'static str) -> Type {
    Type {
        name,
        decode: |b| T::decode(b).map(|x| Box::new(x) as H),
        from_dynamic: |d| d.transcode_to::<T>().map(|x| Box::new(x) as H),
        descriptor: || ReflectMessage::descriptor(&T::default()),
    }
}

macro_rules! types {
    ($($ty:ty => $name:literal;)*) => { vec![$(entry::<$ty>($name)),*] };
}

pub fn derived() -> Vec<Type> {
    use simtypes::bare;
    use simtypes::old::sim::old::v1 as old;
    use simtypes::pooled::sim::pooled;
    use simtypes::shop::sim::shop;
    types! {
        shop::Money => "sim.shop.Money";
        shop::Scalars => "sim.shop.Scalars";
        shop::Lists => "sim.shop.Lists";
        shop::Opt => "sim.shop.Opt";
        shop::Maps => "sim.shop.Maps";
        shop::Choice => "sim.shop.Choice";
        shop::Tree => "sim.shop.Tree";
        shop::Outer => "sim.shop.Outer";
        shop::outer::Inner => "sim.shop.Outer.Inner";
        shop::outer::inner::Deep => "sim.shop.Outer.Inner.Deep";
        shop::Empty => "sim.shop.Empty";
        shop::Known => "sim.shop.Known";
        old::Legacy => "sim.old.v1.Legacy";
        old::legacy::Knot => "sim.old.v1.Legacy.Knot";
        old::legacy::Row => "sim.old.v1.Legacy.Row";
        old::legacy::Wg => "sim.old.v1.Legacy.Wg";
        old::legacy::M => "sim.old.v1.Legacy.M";
        old::Strict => "sim.old.v1.Strict";
        bare::Bare => "Bare";
        bare::bare::Hold => "Bare.Hold";
        pooled::Direct => "sim.pooled.Direct";
        pooled::direct::Nest => "sim.pooled.Direct.Nest";
    }
}

fn library() -> Vec<Type> {
    types! {
        () => "google.protobuf.Empty";
        bool => "google.protobuf.BoolValue";
        f32 => "google.protobuf.FloatValue";
        f64 => "google.protobuf.DoubleValue";
        i32 => "google.protobuf.Int32Value";
        i64 => "google.protobuf.Int64Value";
        String => "google.protobuf.StringValue";
        u32 => "google.protobuf.UInt32Value";
        u64 => "google.protobuf.UInt64Value";
        Vec<u8> => "google.protobuf.BytesValue";
        prost::bytes::Bytes => "google.protobuf.BytesValue";
        prost_types::Any => "google.protobuf.Any";
        prost_types::Api => "google.protobuf.Api";
        prost_types::compiler::CodeGeneratorRequest => "google.protobuf.compiler.CodeGeneratorRequest";
        prost_types::compiler::CodeGeneratorResponse => "google.protobuf.compiler.CodeGeneratorResponse";
        prost_types::compiler::code_generator_response::File => "google.protobuf.compiler.CodeGeneratorResponse.File";
        prost_types::compiler::Version => "google.protobuf.compiler.Version";
        prost_types::DescriptorProto => "google.protobuf.DescriptorProto";
        prost_types::descriptor_proto::ExtensionRange => "google.protobuf.DescriptorProto.ExtensionRange";
        prost_types::descriptor_proto::ReservedRange => "google.protobuf.DescriptorProto.ReservedRange";
        prost_types::Duration => "google.protobuf.Duration";
        prost_types::Enum => "google.protobuf.Enum";
        prost_types::EnumDescriptorProto => "google.protobuf.EnumDescriptorProto";
        prost_types::enum_descriptor_proto::EnumReservedRange => "google.protobuf.EnumDescriptorProto.EnumReservedRange";
        prost_types::EnumOptions => "google.protobuf.EnumOptions";
        prost_types::EnumValue => "google.protobuf.EnumValue";
        prost_types::EnumValueDescriptorProto => "google.protobuf.EnumValueDescriptorProto";
        prost_types::EnumValueOptions => "google.protobuf.EnumValueOptions";
        prost_types::ExtensionRangeOptions => "google.protobuf.ExtensionRangeOptions";
        prost_types::Field => "google.protobuf.Field";
        prost_types::FieldDescriptorProto => "google.protobuf.FieldDescriptorProto";
        prost_types::FieldMask => "google.protobuf.FieldMask";
        prost_types::FieldOptions => "google.protobuf.FieldOptions";
        prost_types::FileDescriptorProto => "google.protobuf.FileDescriptorProto";
        prost_types::FileDescriptorSet => "google.protobuf.FileDescriptorSet";
        prost_types::FileOptions => "google.protobuf.FileOptions";
        prost_types::GeneratedCodeInfo => "google.protobuf.GeneratedCodeInfo";
        prost_types::generated_code_info::Annotation => "google.protobuf.GeneratedCodeInfo.Annotation";
        prost_types::ListValue => "google.protobuf.ListValue";
        prost_types::MessageOptions => "google.protobuf.MessageOptions";
        prost_types::Method => "google.protobuf.Method";
        prost_types::MethodDescriptorProto => "google.protobuf.MethodDescriptorProto";
        prost_types::MethodOptions => "google.protobuf.MethodOptions";
        prost_types::Mixin => "google.protobuf.Mixin";
        prost_types::OneofDescriptorProto => "google.protobuf.OneofDescriptorProto";
        prost_types::OneofOptions => "google.protobuf.OneofOptions";
        prost_types::Option => "google.protobuf.Option";
        prost_types::ServiceDescriptorProto => "google.protobuf.ServiceDescriptorProto";
        prost_types::ServiceOptions => "google.protobuf.ServiceOptions";
        prost_types::SourceCodeInfo => "google.protobuf.SourceCodeInfo";
        prost_types::source_code_info::Location => "google.protobuf.SourceCodeInfo.Location";
        prost_types::SourceContext => "google.protobuf.SourceContext";
        prost_types::Struct => "google.protobuf.Struct";
        prost_types::Timestamp => "google.protobuf.Timestamp";
        prost_types::Type => "google.protobuf.Type";
        prost_types::UninterpretedOption => "google.protobuf.UninterpretedOption";
        prost_types::uninterpreted_option::NamePart => "google.protobuf.UninterpretedOption.NamePart";
        prost_types::Value => "google.protobuf.Value";
    }
}

struct Fixed {
    types: Vec<Type>,
    derived: usize,
    s: Schema,
    /// a pool of everything, loaded from the files as protoc wrote them
    full: DescriptorPool,
    vals: Vals,
}
// the function pointers are plain functions
unsafe impl Sync for Fixed {}
unsafe impl Send for Fixed {}

pub static SET: &[u8] = include_bytes!("../../types.bin");

fn fixed() -> R<&'static Fixed> {
    static F: OnceLock<Result<Fixed, Viol>> = OnceLock::new();
    F.get_or_init(|| {
        catch(|| {
            let s = load_set(SET, None, None);
            let full = DescriptorPool::decode(SET).map_err(|e| viol!("valid-refused", "the files of the types are refused: {e}"))?;
            let mut types = derived();
            let derived = types.len();
            types.extend(library());
            let any = (0..s.msgs.len()).filter(|&m| !s.msgs[m].map_entry && !s.msgs[m].full.starts_with("sim.pooled")).collect();
            // self-registering types register before the first run
            for t in &types {
                let _ = catch(|| (t.descriptor)());
            }
            Ok(Fixed { types, derived, s, full, vals: Vals { any, unknown: false, ..Vals::default() } })
        })?
    })
    .as_ref()
    .map_err(Clone::clone)
}

pub fn warm_up() {
    let _ = fixed();
}

/// Zeros have one sign: prost takes negative zero for the default. Also inside Any.
fn unsign(v: &mut MVal) {
    match v {
        MVal::F32(b) if *b == (-0.0f32).to_bits() => *b = 0,
        MVal::F64(b) if *b == (-0.0f64).to_bits() => *b = 0,
        MVal::List(l) => l.iter_mut().for_each(unsign),
        MVal::Map(m) => m.values_mut().for_each(unsign),
        MVal::Msg(m) => m.fields.values_mut().for_each(unsign),
        _ => {}
    }
}
fn unsign_any(s: &Schema, mid: usize, m: &mut MMsg) {
    if s.msgs[mid].full == "google.protobuf.Any" {
        if let (Some(MVal::Str(url)), Some(MVal::Bytes(b))) = (m.fields.get(&1), m.fields.get(&2)) {
            if let Some(t) = url.rsplit('/').next().and_then(|n| s.find_msg(n)) {
                if let Ok(mut x) = wire::decode(s, t, b) {
                    unsign_any(s, t, &mut x);
                    let mut x = MVal::Msg(x);
                    unsign(&mut x);
                    m.fields.insert(2, MVal::Bytes(wire::encode(s, t, x.msg())));
                }
            }
        }
        return;
    }
    for (n, v) in m.fields.iter_mut() {
        let f = s.slot(mid, *n).expect("harness: field").f;
        let Some(t) = s.entry(f).map_or(f.ty, |x| x.1.ty).msg() else { continue };
        let one = |v: &mut MVal| {
            if let MVal::Msg(x) = v {
                unsign_any(s, t, x)
            }
        };
        match v {
            MVal::List(l) => l.iter_mut().for_each(one),
            MVal::Map(m) => m.values_mut().for_each(one),
            v => one(v),
        }
    }
}

/// How the values of a descriptor's fields are declared, against the model.
fn check_descriptor(s: &Schema, mid: usize, d: &MessageDescriptor) -> R {
    let m = &s.msgs[mid];
    ensure!(d.full_name() == m.full && d.name() == m.name, "descriptor-name", "the descriptor of {} is {} ({})", m.full, d.full_name(), d.name());
    let p = d.parent_pool();
    ensure!(p.get_message_by_name(&m.full).as_ref() == Some(d), "descriptor-pool", "the pool of {} answers another descriptor for its name", m.full);
    let proto3 = s.files[m.file].proto3;
    for f in d.fields() {
        let Some(want) = m.fields.iter().find(|g| g.num == f.number()) else { continue };
        let slot = Slot { f: want, proto3, ext: None };
        let kind = match (want.ty, f.kind()) {
            (Ty::S(sc), k) => format!("{k:?}") == sc.name(),
            (Ty::E(e), prost_reflect::Kind::Enum(k)) => {
                s.enums[e].full == k.full_name() && s.enums[e].values.iter().all(|v| k.get_value(v.num).is_none_or(|x| x.name() == v.name))
            }
            (Ty::M(x) | Ty::G(x), prost_reflect::Kind::Message(k)) => s.msgs[x].full == k.full_name(),
            _ => false,
        };
        ensure!(
            kind && f.name() == want.name
                && f.json_name() == want.json_name()
                && f.is_list() == s.is_list(want)
                && f.is_map() == s.is_map(want)
                && f.is_group() == matches!(want.ty, Ty::G(_))
                && f.supports_presence() == s.slot_presence(&slot)
                && f.is_packed() == s.is_packed(want, proto3)
                && value_of(&f.default_value()) == s.default_of(&slot),
            "descriptor-field",
            "field {} of {} is {f:?}, kind {:?}, instead of {want:?}",
            f.number(),
            m.full,
            f.kind()
        );
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Home {
    /// the pool the type reports
    Own,
    Full,
    Global,
    /// a pool of an older version that lacks fields
    Old,
}

enum Form {
    Typed(H),
    Dyn(DynamicMessage, Home),
    Bytes(Vec<u8>),
}

fn want_norm(s: &Schema, mid: usize, m: &MMsg) -> MMsg {
    canon_msg(&norm_any(s, mid, m, |_| true))
}

fn same_as(s: &Schema, mid: usize, got: &MMsg, want: &MMsg, what: &str) -> R {
    let (g, w) = (want_norm(s, mid, got), want_norm(s, mid, want));
    ensure!(g == w, format!("lost:{what}"), "{what}: {} is {} instead of {}", s.msgs[mid].full, g.to_s(), w.to_s());
    Ok(())
}

/// The same files with some fields not yet invented.
fn older(ctx: &mut Ctx, s: &Schema, mid: usize) -> Option<DescriptorPool> {
    let mut o = s.clone();
    let files = s.closure(s.msgs[mid].file);
    let mut gone = 0;
    for m in &mut o.msgs {
        if m.map_entry || !files.contains(&m.file) || !m.full.starts_with("sim.") && m.full != "Bare" {
            continue;
        }
        let n = m.fields.len();
        m.fields.retain(|f| f.oneof.is_some() || !ctx.src.chance(1, 3));
        gone += n - m.fields.len();
    }
    if gone == 0 {
        return None;
    }
    let spell = crate::emit::Spell::default();
    let mut p = DescriptorPool::new();
    for f in files {
        if !o.files[f].name.starts_with("google/") {
            o.files[f].raw = None;
        }
        let b = Emit { s: &o, spell: &spell }.file(f);
        if let Err(e) = p.decode_file_descriptor_proto(b.as_slice()) {
            panic!("harness: older version of {} refused: {e}", o.files[f].name);
        }
    }
    Some(p)
}

fn c18(ctx: &mut Ctx) -> R {
    let fx = fixed()?;
    let s = &fx.s;
    let t = if ctx.src.chance(2, 3) { &fx.types[ctx.src.below(fx.derived)] } else { &fx.types[fx.derived + ctx.src.below(fx.types.len() - fx.derived)] };
    let mid = s.find_msg(t.name).expect("harness: type");
    let d = catch(|| (t.descriptor)())?;
    check_descriptor(s, mid, &d)?;
    ctx.step(format_args!("type {}", t.name));
    let json = ctx.src.chance(1, 2);
    let vals = Vals { json, ..fx.vals.clone() };
    let draw = |ctx: &mut Ctx, mid: usize, dec: fn(&[u8]) -> Result<H, prost::DecodeError>| -> R<(H, MMsg)> {
        let mut m = gen::message(&mut ctx.src, s, mid, 3, &vals);
        unsign_any(s, mid, &mut m);
        let mut v = MVal::Msg(m);
        unsign(&mut v);
        let bytes = wire::encode(s, mid, v.msg());
        let held = dec(&bytes).unwrap_or_else(|e| panic!("harness: prost refuses {} {}: {e}", s.msgs[mid].full, v.to_s()));
        // what the type can hold
        let m = wire::decode(s, mid, &held.bytes()).expect("harness: prost's own bytes");
        Ok((held, m))
    };
    let (first, want) = draw(ctx, mid, t.decode)?;
    ctx.step(format_args!("value {}", want.to_s()));
    // NaN equals nothing, and what Any holds is written anew by JSON and text
    let nan = want.to_s().contains("NaN") || want_norm(s, mid, &want) != canon_msg(&want) || want.to_s().contains('/');
    let global = DescriptorPool::global();
    let types: Vec<(Home, MessageDescriptor)> = [(Home::Own, Some(d.clone())), (Home::Full, fx.full.get_message_by_name(t.name)), (Home::Global, global.get_message_by_name(t.name))]
        .into_iter()
        .filter_map(|(h, d)| Some((h, d?)))
        .collect();
    let original = (t.decode)(&first.bytes()).expect("harness");
    let mut now = Form::Typed(first);
    let mut old: Option<DescriptorPool> = None;
    let hops = 2 + ctx.src.len(6);
    for _ in 0..hops {
        now = match now {
            Form::Typed(h) => match ctx.src.below(6) {
                0..=2 => {
                    let how = ctx.src.below(3);
                    ctx.step(format_args!("to dynamic {how}"));
                    let m = catch(|| h.to_dynamic(how))?;
                    ensure!(m.descriptor() == d, "descriptor-of-dynamic", "{} becomes a {}", t.name, m.descriptor().full_name());
                    Form::Dyn(m, Home::Own)
                }
                3 => {
                    let (home, dd) = &types[ctx.src.below(types.len())];
                    ctx.step(format_args!("into a new message of {home:?}"));
                    let mut m = DynamicMessage::new(dd.clone());
                    catch(|| h.put(&mut m))?.map_err(|e| viol!("refused:from-typed", "{}: {e}", t.name))?;
                    Form::Dyn(m, *home)
                }
                4 => {
                    if old.is_none() {
                        old = older(ctx, s, mid);
                    }
                    match old.as_ref().and_then(|p| p.get_message_by_name(t.name)) {
                        Some(dd) => {
                            ctx.fault("older-node");
                            ctx.step(format_args!("into a message of an older version"));
                            let mut m = DynamicMessage::new(dd);
                            catch(|| h.put(&mut m))?.map_err(|e| viol!("refused:older", "{}: {e}", t.name))?;
                            Form::Dyn(m, Home::Old)
                        }
                        None => Form::Bytes(h.bytes()),
                    }
                }
                _ => Form::Bytes(h.bytes()),
            },
            Form::Bytes(b) => {
                if ctx.src.chance(1, 2) {
                    ctx.step(format_args!("bytes to typed"));
                    Form::Typed((t.decode)(&b).map_err(|e| viol!("refused:bytes-typed", "{}: {e}", t.name))?)
                } else {
                    let (home, dd) = &types[ctx.src.below(types.len())];
                    ctx.step(format_args!("bytes to dynamic of {home:?}"));
                    let m = catch(|| DynamicMessage::decode(dd.clone(), b.as_slice()))?.map_err(|e| viol!("refused:bytes-dynamic", "{}: {e}", t.name))?;
                    Form::Dyn(m, *home)
                }
            }
            Form::Dyn(m, home) => match ctx.src.below(if home == Home::Old { 4 } else { 7 }) {
                0 | 1 => {
                    ctx.step(format_args!("to typed"));
                    let h = catch(|| (t.from_dynamic)(&m))?.map_err(|e| viol!("refused:to-typed", "{}: {e}", t.name))?;
                    ensure!(nan || h.equals(original.as_ref()), "typed-differs", "{} came back as another value: {}", t.name, m);
                    Form::Typed(h)
                }
                2 => {
                    let (h2, dd) = &types[ctx.src.below(types.len())];
                    ctx.step(format_args!("dynamic to dynamic of {h2:?}"));
                    let mut n = DynamicMessage::new(dd.clone());
                    catch(|| n.transcode_from(&m))?.map_err(|e| viol!("refused:dynamic-dynamic", "{}: {e}", t.name))?;
                    Form::Dyn(n, *h2)
                }
                3 => {
                    ctx.step(format_args!("dynamic to bytes"));
                    let b = m.encode_to_vec();
                    ensure!(b.len() == m.encoded_len(), "encoded-len", "{} of {} bytes announces {}", t.name, b.len(), m.encoded_len());
                    Form::Bytes(b)
                }
                4 => {
                    ctx.step(format_args!("dynamic as it is"));
                    let n = catch(|| m.transcode_to_dynamic())?;
                    ensure!(n == m || nan, "dynamic-differs", "transcode_to_dynamic of a dynamic message gives another one");
                    Form::Dyn(n, home)
                }
                _ if d.full_name().starts_with("sim.pooled") && home != Home::Full => Form::Dyn(m, home),
                5 => {
                    let ok = expressible(s, mid, &want);
                    let mut o = super::json::options(&mut ctx.src);
                    // the library's descriptor.proto is newer than the reference one
                    o.skip_default |= !t.name.starts_with("sim.") || want.to_s().contains("google.protobuf.");
                    let mut buf = Vec::new();
                    let r = catch(|| m.serialize_with_options(&mut serde_json::Serializer::new(&mut buf), &super::json::real(o)).map(|_| ()))?;
                    if !ok {
                        Form::Dyn(m, home)
                    } else {
                        r.map_err(|e| viol!("refused:to-json", "{} {}: {e}", t.name, want.to_s()))?;
                        let text = String::from_utf8(buf).map_err(|_| viol!("json-utf8", "JSON is not UTF-8"))?;
                        ctx.step(format_args!("JSON {}", text.chars().take(300).collect::<String>()));
                        check_json(s, mid, &want, o, &valid(&text)?)?;
                        let n = catch(|| DynamicMessage::deserialize(m.descriptor(), &mut serde_json::Deserializer::from_str(&text)))?
                            .map_err(|e| viol!("refused:from-json", "{}: {e}: {text}", t.name))?;
                        Form::Dyn(n, home)
                    }
                }
                _ => {
                    let o = super::text::Opt::random(&mut ctx.src);
                    let text = catch(|| m.to_text_format_with_options(&o.real_skipping()))?;
                    ctx.step(format_args!("text {}", text.chars().take(300).collect::<String>()));
                    let n = catch(|| DynamicMessage::parse_text_format(m.descriptor(), &text))?
                        .map_err(|e| viol!("refused:from-text", "{}: {e}: {text}", t.name))?;
                    Form::Dyn(n, home)
                }
            },
        };
        // every form holds the value
        match &now {
            Form::Typed(h) => {
                let m = wire::decode(s, mid, &h.bytes()).expect("harness: prost's own bytes");
                same_as(s, mid, &m, &want, "typed")?;
                ensure!(h.descriptor() == d, "descriptor-of-value", "{} reports another descriptor than its default value", t.name);
            }
            Form::Dyn(m, home) => {
                ensure!(m.descriptor().full_name() == t.name, "descriptor-name", "a {} turned into a {}", t.name, m.descriptor().full_name());
                if *home != Home::Old {
                    same_as(s, mid, &observe(m)?, &want, "dynamic")?;
                    well_typed(m)?;
                }
            }
            Form::Bytes(b) => {
                let m = wire::decode(s, mid, b).map_err(|_| viol!("bad-bytes", "{} encodes to bytes that cannot be decoded", t.name))?;
                same_as(s, mid, &m, &want, "bytes")?;
            }
        }
        // something goes wrong on the side
        match ctx.src.below(8) {
            // a stale target
            1 => {
                let (other, om) = draw(ctx, mid, t.decode)?;
                let (home, dd) = &types[ctx.src.below(types.len())];
                ctx.fault("stale-target");
                ctx.step(format_args!("onto {} {home:?}", om.to_s()));
                let mut target = DynamicMessage::new(dd.clone());
                let source = original.as_ref();
                catch(|| other.put(&mut target))?.map_err(|e| viol!("refused:stale", "{}: {e}", t.name))?;
                catch(|| source.put(&mut target))?.map_err(|e| viol!("refused:stale", "{}: {e}", t.name))?;
                let mut both = wire::decode(s, mid, &other.bytes()).expect("harness");
                wire::merge(s, mid, &mut both, &source.bytes()).expect("harness");
                s.normalise(mid, &mut both);
                let got = canon_msg(&observe(&target)?);
                ensure!(got == canon_msg(&both), "lost:merge", "{}: {} onto {} gives {} instead of {}", t.name, want.to_s(), om.to_s(), got.to_s(), both.to_s());
            }
            // a receiver of another type
            2 | 3 => {
                let u = &fx.types[ctx.src.below(fx.types.len())];
                let um = s.find_msg(u.name).unwrap();
                ctx.fault("incompatible");
                let bytes = original.bytes();
                let dynamic = catch(|| original.to_dynamic(0))?;
                // what prost makes of the bytes
                let direct = (u.decode)(&bytes);
                // maps are written in any order, but that order cannot matter unless they are lists there
                let maps = has_map(&want);
                let r = catch(|| (u.from_dynamic)(&dynamic))?;
                ctx.step(format_args!("{} as {}: {}", t.name, u.name, r.is_ok()));
                if !maps {
                    match (&direct, &r) {
                        (Ok(a), Ok(b)) => {
                            let (a, b) = (wire::decode(s, um, &a.bytes()).expect("harness"), wire::decode(s, um, &b.bytes()).expect("harness"));
                            ensure!(canon_msg(&a) == canon_msg(&b), "foreign-value", "{} as {} is {} instead of {}", t.name, u.name, b.to_s(), a.to_s());
                        }
                        (Err(_), Err(_)) => ctx.probe("incompatible-refused"),
                        _ => return Err(viol!("foreign-verdict", "{} as {}: {:?} instead of {:?}", t.name, u.name, r.as_ref().err(), direct.as_ref().err())),
                    }
                }
                // a dynamic receiver of another type
                let Some(ud) = fx.full.get_message_by_name(u.name) else { continue };
                let mut x = DynamicMessage::new(ud.clone());
                let mut y = DynamicMessage::new(ud);
                let (rx, ry) = (catch(|| original.put(&mut x))?, catch(|| y.transcode_from(&dynamic))?);
                let model = wire::decode(s, um, &bytes);
                ensure!(maps || rx.is_ok() == ry.is_ok(), "foreign-dynamic", "{} into a {}: typed {:?}, dynamic {:?}", t.name, u.name, rx.err(), ry.err());
                if !maps {
                    ensure!(model.is_ok() == rx.is_ok(), "foreign-dynamic-verdict", "{} into a {}: {:?} although the bytes are {}", t.name, u.name, rx.err(), if model.is_ok() { "valid" } else { "invalid" });
                }
                if let (Ok(()), Ok(m), false) = (&rx, &model, maps) {
                    let mut m = m.clone();
                    s.normalise(um, &mut m);
                    let got = canon_msg(&observe(&x)?);
                    ensure!(got == canon_msg(&m), "foreign-dynamic-value", "{} into a {} gives {} instead of {}", t.name, u.name, got.to_s(), m.to_s());
                }
                well_typed(&x)?;
            }
            // damaged in transit
            4 => {
                let mut b = original.bytes();
                let other = b.clone();
                super::links::damage(ctx, &mut b, &other);
                let typed = (t.decode)(&b);
                let r = catch(|| DynamicMessage::decode(d.clone(), b.as_slice()))?;
                if let (Ok(h), Ok(m)) = (&typed, &r) {
                    // what survived is the same for both
                    let back = catch(|| (t.from_dynamic)(m))?.map_err(|e| viol!("refused:damaged", "{}: {e}", t.name))?;
                    let (mut a, mut b) = (MVal::Msg(wire::decode(s, mid, &h.bytes()).expect("harness")), MVal::Msg(wire::decode(s, mid, &back.bytes()).expect("harness")));
                    unsign(&mut a);
                    unsign(&mut b);
                    let (mut a, mut b) = (a.msg().clone(), b.msg().clone());
                    s.normalise(mid, &mut a);
                    s.normalise(mid, &mut b);
                    ensure!(canon_msg(&a) == canon_msg(&b), "damaged-differs", "{}: typed {} dynamic {}", t.name, a.to_s(), b.to_s());
                }
                ctx.step(format_args!("damaged: {} {}", typed.is_ok(), r.is_ok()));
            }
            _ => {}
        }
    }
    Ok(())
}

fn has_map(m: &MMsg) -> bool {
    fn v(x: &MVal) -> bool {
        match x {
            MVal::Map(m) => !m.is_empty(),
            MVal::List(l) => l.iter().any(v),
            MVal::Msg(m) => has_map(m),
            _ => false,
        }
    }
    m.fields.values().any(v)
}
