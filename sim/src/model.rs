//! Abstract schema and message values, independent of the code under test.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Sc {
    Double,
    Float,
    Int32,
    Int64,
    Uint32,
    Uint64,
    Sint32,
    Sint64,
    Fixed32,
    Fixed64,
    Sfixed32,
    Sfixed64,
    Bool,
    String,
    Bytes,
}
pub const SCALARS: [Sc; 15] = [
    Sc::Int32,
    Sc::String,
    Sc::Bool,
    Sc::Int64,
    Sc::Uint32,
    Sc::Uint64,
    Sc::Sint32,
    Sc::Sint64,
    Sc::Double,
    Sc::Float,
    Sc::Bytes,
    Sc::Fixed32,
    Sc::Fixed64,
    Sc::Sfixed32,
    Sc::Sfixed64,
];
impl Sc {
    pub fn proto_type(self) -> u64 {
        match self {
            Sc::Double => 1,
            Sc::Float => 2,
            Sc::Int64 => 3,
            Sc::Uint64 => 4,
            Sc::Int32 => 5,
            Sc::Fixed64 => 6,
            Sc::Fixed32 => 7,
            Sc::Bool => 8,
            Sc::String => 9,
            Sc::Bytes => 12,
            Sc::Uint32 => 13,
            Sc::Sfixed32 => 15,
            Sc::Sfixed64 => 16,
            Sc::Sint32 => 17,
            Sc::Sint64 => 18,
        }
    }
    pub fn from_proto(t: u64) -> Option<Sc> {
        SCALARS.iter().copied().find(|s| s.proto_type() == t)
    }
    pub fn name(self) -> &'static str {
        match self {
            Sc::Double => "double",
            Sc::Float => "float",
            Sc::Int64 => "int64",
            Sc::Uint64 => "uint64",
            Sc::Int32 => "int32",
            Sc::Fixed64 => "fixed64",
            Sc::Fixed32 => "fixed32",
            Sc::Bool => "bool",
            Sc::String => "string",
            Sc::Bytes => "bytes",
            Sc::Uint32 => "uint32",
            Sc::Sfixed32 => "sfixed32",
            Sc::Sfixed64 => "sfixed64",
            Sc::Sint32 => "sint32",
            Sc::Sint64 => "sint64",
        }
    }
    pub fn packable(self) -> bool {
        !matches!(self, Sc::String | Sc::Bytes)
    }
    pub fn key_ok(self) -> bool {
        !matches!(self, Sc::Double | Sc::Float | Sc::Bytes)
    }
    /// 0 varint, 1 fixed64, 2 length, 5 fixed32
    pub fn wire(self) -> u8 {
        match self {
            Sc::Double | Sc::Fixed64 | Sc::Sfixed64 => 1,
            Sc::Float | Sc::Fixed32 | Sc::Sfixed32 => 5,
            Sc::String | Sc::Bytes => 2,
            _ => 0,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    S(Sc),
    E(usize),
    M(usize),
    G(usize),
}
impl Ty {
    pub fn packable(self) -> bool {
        match self {
            Ty::S(s) => s.packable(),
            Ty::E(_) => true,
            _ => false,
        }
    }
    pub fn msg(self) -> Option<usize> {
        match self {
            Ty::M(m) | Ty::G(m) => Some(m),
            _ => None,
        }
    }
    pub fn wire(self) -> u8 {
        match self {
            Ty::S(s) => s.wire(),
            Ty::E(_) => 0,
            Ty::M(_) => 2,
            Ty::G(_) => 3,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Label {
    Optional,
    Required,
    Repeated,
}

pub type Opts = MMsg;

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub json: Option<String>,
    pub num: u32,
    pub ty: Ty,
    pub label: Label,
    /// index into oneofs (real or synthetic)
    pub oneof: Option<usize>,
    pub p3opt: bool,
    pub default: Option<MVal>,
    pub opts: Option<Opts>,
}

#[derive(Clone, Debug)]
pub struct Oneof {
    pub name: String,
    pub opts: Option<Opts>,
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub name: String,
    pub full: String,
    pub file: usize,
    pub parent: Option<usize>,
    pub map_entry: bool,
    pub fields: Vec<Field>,
    pub oneofs: Vec<Oneof>,
    pub nested: Vec<usize>,
    pub enums: Vec<usize>,
    pub exts: Vec<usize>,
    pub ext_ranges: Vec<(u32, u32, Option<Opts>)>,
    pub reserved: Vec<(u32, u32)>,
    pub reserved_names: Vec<String>,
    pub opts: Option<Opts>,
}

#[derive(Clone, Debug)]
pub struct EnumVal {
    pub name: String,
    pub num: i32,
    pub opts: Option<Opts>,
}
#[derive(Clone, Debug)]
pub struct Enum {
    pub name: String,
    pub full: String,
    pub file: usize,
    pub parent: Option<usize>,
    pub values: Vec<EnumVal>,
    pub reserved: Vec<(i32, i32)>,
    pub reserved_names: Vec<String>,
    pub opts: Option<Opts>,
}
#[derive(Clone, Debug)]
pub struct Ext {
    pub field: Field,
    pub full: String,
    pub extendee: usize,
    pub file: usize,
    pub parent: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct Method {
    pub name: String,
    pub input: usize,
    pub output: usize,
    pub cs: bool,
    pub ss: bool,
    pub opts: Option<Opts>,
}
#[derive(Clone, Debug)]
pub struct Service {
    pub name: String,
    pub full: String,
    pub methods: Vec<Method>,
    pub opts: Option<Opts>,
}
#[derive(Clone, Debug)]
pub struct File {
    pub name: String,
    pub package: String,
    pub proto3: bool,
    /// whether a proto2 file spells its syntax
    pub syntax_field: bool,
    pub deps: Vec<(usize, bool)>,
    pub msgs: Vec<usize>,
    pub enums: Vec<usize>,
    pub exts: Vec<usize>,
    pub services: Vec<Service>,
    pub opts: Option<Opts>,
    /// bytes of a file that is not generated
    pub raw: Option<Vec<u8>>,
}

#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub files: Vec<File>,
    pub msgs: Vec<Msg>,
    pub enums: Vec<Enum>,
    pub exts: Vec<Ext>,
    pub by_name: HashMap<String, usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MVal {
    Bool(bool),
    I32(i32),
    I64(i64),
    U32(u32),
    U64(u64),
    F32(u32),
    F64(u64),
    Str(String),
    Bytes(Vec<u8>),
    Enum(i32),
    Msg(MMsg),
    List(Vec<MVal>),
    Map(BTreeMap<MKey, MVal>),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum MKey {
    Bool(bool),
    I32(i32),
    I64(i64),
    U32(u32),
    U64(u64),
    Str(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Unk {
    Varint(u64),
    F32(u32),
    F64(u64),
    Len(Vec<u8>),
    Group(Vec<(u32, Unk)>),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct MMsg {
    pub fields: BTreeMap<u32, MVal>,
    pub unk: BTreeMap<u32, Vec<Unk>>,
}

impl MKey {
    pub fn val(&self) -> MVal {
        match self {
            MKey::Bool(b) => MVal::Bool(*b),
            MKey::I32(v) => MVal::I32(*v),
            MKey::I64(v) => MVal::I64(*v),
            MKey::U32(v) => MVal::U32(*v),
            MKey::U64(v) => MVal::U64(*v),
            MKey::Str(v) => MVal::Str(v.clone()),
        }
    }
}
impl MVal {
    pub fn key(&self) -> MKey {
        match self {
            MVal::Bool(b) => MKey::Bool(*b),
            MVal::I32(v) => MKey::I32(*v),
            MVal::I64(v) => MKey::I64(*v),
            MVal::U32(v) => MKey::U32(*v),
            MVal::U64(v) => MKey::U64(*v),
            MVal::Str(v) => MKey::Str(v.clone()),
            v => panic!("harness: not a key {v:?}"),
        }
    }
    pub fn msg(&self) -> &MMsg {
        match self {
            MVal::Msg(m) => m,
            v => panic!("harness: not a message {v:?}"),
        }
    }
    pub fn show(&self, out: &mut String) {
        match self {
            MVal::Bool(v) => write!(out, "{v}"),
            MVal::I32(v) => write!(out, "{v}i"),
            MVal::I64(v) => write!(out, "{v}l"),
            MVal::U32(v) => write!(out, "{v}u"),
            MVal::U64(v) => write!(out, "{v}U"),
            MVal::F32(v) => write!(out, "{:?}f", canon32(*v)),
            MVal::F64(v) => write!(out, "{:?}d", canon64(*v)),
            MVal::Str(v) => write!(out, "{v:?}"),
            MVal::Bytes(v) => write!(out, "b\"{}\"", v.escape_ascii()),
            MVal::Enum(v) => write!(out, "#{v}"),
            MVal::Msg(m) => {
                m.show(out);
                Ok(())
            }
            MVal::List(l) => {
                out.push('[');
                for (i, v) in l.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    v.show(out);
                }
                out.push(']');
                Ok(())
            }
            MVal::Map(m) => {
                out.push('<');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    k.val().show(out);
                    out.push_str("=>");
                    v.show(out);
                }
                out.push('>');
                Ok(())
            }
        }
        .unwrap()
    }
    pub fn to_s(&self) -> String {
        let mut s = String::new();
        self.show(&mut s);
        s
    }
}
fn canon32(b: u32) -> f32 {
    f32::from_bits(b)
}
fn canon64(b: u64) -> f64 {
    f64::from_bits(b)
}
impl Unk {
    pub fn show(&self, out: &mut String) {
        match self {
            Unk::Varint(v) => write!(out, "v{v}").unwrap(),
            Unk::F32(v) => write!(out, "w{v:08x}").unwrap(),
            Unk::F64(v) => write!(out, "x{v:016x}").unwrap(),
            Unk::Len(v) => write!(out, "L\"{}\"", v.escape_ascii()).unwrap(),
            Unk::Group(g) => {
                out.push('(');
                for (n, u) in g {
                    write!(out, "{n}:").unwrap();
                    u.show(out);
                    out.push(' ');
                }
                out.push(')');
            }
        }
    }
}
impl MMsg {
    pub fn show(&self, out: &mut String) {
        out.push('{');
        for (n, v) in &self.fields {
            write!(out, "{n}:").unwrap();
            v.show(out);
            out.push(' ');
        }
        for (n, us) in &self.unk {
            for u in us {
                write!(out, "?{n}:").unwrap();
                u.show(out);
                out.push(' ');
            }
        }
        out.push('}');
    }
    pub fn to_s(&self) -> String {
        let mut s = String::new();
        self.show(&mut s);
        s
    }
    pub fn set(mut self, n: u32, v: MVal) -> MMsg {
        self.fields.insert(n, v);
        self
    }
    pub fn without_unknown(&self) -> MMsg {
        fn val(v: &MVal) -> MVal {
            match v {
                MVal::Msg(m) => MVal::Msg(m.without_unknown()),
                MVal::List(l) => MVal::List(l.iter().map(val).collect()),
                MVal::Map(m) => MVal::Map(m.iter().map(|(k, v)| (k.clone(), val(v))).collect()),
                v => v.clone(),
            }
        }
        MMsg { fields: self.fields.iter().map(|(k, v)| (*k, val(v))).collect(), unk: BTreeMap::new() }
    }
    pub fn has_unknown(&self) -> bool {
        fn val(v: &MVal) -> bool {
            match v {
                MVal::Msg(m) => m.has_unknown(),
                MVal::List(l) => l.iter().any(val),
                MVal::Map(m) => m.values().any(val),
                _ => false,
            }
        }
        !self.unk.is_empty() || self.fields.values().any(val)
    }
}

pub fn camel_key(name: &str) -> String {
    name.chars().filter(|c| *c != '_').map(|c| c.to_ascii_lowercase()).collect()
}
pub fn json_name(name: &str) -> String {
    let mut out = String::new();
    let mut up = false;
    for c in name.chars() {
        if c == '_' {
            up = true;
        } else {
            out.push(if up { c.to_ascii_uppercase() } else { c });
            up = false;
        }
    }
    out
}

impl Field {
    pub fn json_name(&self) -> String {
        self.json.clone().unwrap_or_else(|| json_name(&self.name))
    }
    pub fn rep(&self) -> bool {
        self.label == Label::Repeated
    }
    pub fn packed_opt(&self) -> Option<bool> {
        match self.opts.as_ref()?.fields.get(&2) {
            Some(MVal::Bool(b)) => Some(*b),
            _ => None,
        }
    }
}

impl Schema {
    pub fn is_map(&self, f: &Field) -> bool {
        f.rep() && matches!(f.ty, Ty::M(m) if self.msgs[m].map_entry)
    }
    pub fn is_list(&self, f: &Field) -> bool {
        f.rep() && !self.is_map(f)
    }
    pub fn is_packed(&self, f: &Field, proto3: bool) -> bool {
        f.rep() && f.ty.packable() && f.packed_opt().unwrap_or(proto3)
    }
    /// key and value fields of a map field
    pub fn entry(&self, f: &Field) -> Option<(Field, Field)> {
        if !self.is_map(f) {
            return None;
        }
        let m = &self.msgs[f.ty.msg().unwrap()];
        let k = m.fields.iter().find(|f| f.num == 1).unwrap().clone();
        let v = m.fields.iter().find(|f| f.num == 2).unwrap().clone();
        Some((k, v))
    }
    pub fn presence(&self, f: &Field, proto3: bool) -> bool {
        !f.rep() && (f.p3opt || f.oneof.is_some() || f.ty.msg().is_some() || !proto3)
    }
    /// fields and extensions of a message: (field, declared in proto3 file, extension index)
    pub fn slot(&self, mid: usize, num: u32) -> Option<Slot<'_>> {
        let m = &self.msgs[mid];
        if let Some(f) = m.fields.iter().find(|f| f.num == num) {
            return Some(Slot { f, proto3: self.files[m.file].proto3, ext: None });
        }
        self.exts
            .iter()
            .enumerate()
            .find(|(_, e)| e.extendee == mid && e.field.num == num)
            .map(|(i, e)| Slot { f: &e.field, proto3: self.files[e.file].proto3, ext: Some(i) })
    }
    pub fn slots(&self, mid: usize) -> Vec<Slot<'_>> {
        let m = &self.msgs[mid];
        let mut v: Vec<Slot> = m.fields.iter().map(|f| Slot { f, proto3: self.files[m.file].proto3, ext: None }).collect();
        for (i, e) in self.exts.iter().enumerate() {
            if e.extendee == mid {
                v.push(Slot { f: &e.field, proto3: self.files[e.file].proto3, ext: Some(i) });
            }
        }
        v
    }
    pub fn slot_presence(&self, s: &Slot) -> bool {
        if s.ext.is_some() {
            !s.f.rep()
        } else {
            self.presence(s.f, s.proto3)
        }
    }
    pub fn slot_name(&self, s: &Slot) -> String {
        match s.ext {
            Some(i) => format!("[{}]", self.exts[i].full),
            None => s.f.name.clone(),
        }
    }
    pub fn slot_json(&self, s: &Slot) -> String {
        match s.ext {
            Some(i) => format!("[{}]", self.exts[i].full),
            None => s.f.json_name(),
        }
    }
    pub fn zero(&self, ty: Ty) -> MVal {
        match ty {
            Ty::S(s) => zero(s),
            Ty::E(e) => MVal::Enum(self.enums[e].values[0].num),
            Ty::M(_) | Ty::G(_) => MVal::Msg(MMsg::default()),
        }
    }
    pub fn default_of(&self, s: &Slot) -> MVal {
        if self.is_map(s.f) {
            MVal::Map(BTreeMap::new())
        } else if s.f.rep() {
            MVal::List(Vec::new())
        } else if let Some(d) = &s.f.default {
            d.clone()
        } else {
            self.zero(s.f.ty)
        }
    }
    /// Whether a value counts as absent in a field without presence.
    pub fn is_absent(&self, s: &Slot, v: &MVal) -> bool {
        if self.slot_presence(s) {
            return false;
        }
        match v {
            MVal::List(l) => l.is_empty(),
            MVal::Map(m) => m.is_empty(),
            v => *v == self.zero(s.f.ty),
        }
    }
    /// Removes values that cannot be told from absence, at every level.
    pub fn normalise(&self, mid: usize, m: &mut MMsg) {
        let nums: Vec<u32> = m.fields.keys().copied().collect();
        for n in nums {
            let Some(s) = self.slot(mid, n) else { continue };
            let v = m.fields.get_mut(&n).unwrap();
            if let Some(sub) = s.f.ty.msg() {
                if let Some((_, vf)) = self.entry(s.f) {
                    if let (MVal::Map(mm), Some(vm)) = (&mut *v, vf.ty.msg()) {
                        for x in mm.values_mut() {
                            if let MVal::Msg(x) = x {
                                self.normalise(vm, x);
                            }
                        }
                    }
                } else {
                    match v {
                        MVal::Msg(x) => self.normalise(sub, x),
                        MVal::List(l) => {
                            for x in l {
                                if let MVal::Msg(x) = x {
                                    self.normalise(sub, x);
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            if self.is_absent(&s, &m.fields[&n]) {
                m.fields.remove(&n);
            }
        }
        m.unk.retain(|_, v| !v.is_empty());
    }
    pub fn find_msg(&self, full: &str) -> Option<usize> {
        self.by_name.get(full).copied()
    }
    pub fn index(&mut self) {
        self.by_name = self.msgs.iter().enumerate().map(|(i, m)| (m.full.clone(), i)).collect();
    }
    /// files visible from a file: itself, its imports, and what those import publicly
    pub fn visible(&self, file: usize) -> BTreeSet<usize> {
        fn public(s: &Schema, f: usize, out: &mut BTreeSet<usize>) {
            for &(d, p) in &s.files[f].deps {
                if p && out.insert(d) {
                    public(s, d, out);
                }
            }
        }
        let mut out = BTreeSet::new();
        out.insert(file);
        for &(d, _) in &self.files[file].deps {
            out.insert(d);
            public(self, d, &mut out);
        }
        out
    }
    /// all files a file needs to be loadable, itself last
    pub fn closure(&self, file: usize) -> Vec<usize> {
        fn go(s: &Schema, f: usize, out: &mut Vec<usize>) {
            if out.contains(&f) {
                return;
            }
            for &(d, _) in &s.files[f].deps {
                go(s, d, out);
            }
            if !out.contains(&f) {
                out.push(f);
            }
        }
        let mut out = Vec::new();
        go(self, file, &mut out);
        out
    }
}

#[derive(Clone, Copy)]
pub struct Slot<'a> {
    pub f: &'a Field,
    pub proto3: bool,
    pub ext: Option<usize>,
}

pub fn zero(s: Sc) -> MVal {
    match s {
        Sc::Double => MVal::F64(0),
        Sc::Float => MVal::F32(0),
        Sc::Int64 | Sc::Sint64 | Sc::Sfixed64 => MVal::I64(0),
        Sc::Uint64 | Sc::Fixed64 => MVal::U64(0),
        Sc::Int32 | Sc::Sint32 | Sc::Sfixed32 => MVal::I32(0),
        Sc::Uint32 | Sc::Fixed32 => MVal::U32(0),
        Sc::Bool => MVal::Bool(false),
        Sc::String => MVal::Str(String::new()),
        Sc::Bytes => MVal::Bytes(Vec::new()),
    }
}
