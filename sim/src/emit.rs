//! Writes a model schema as descriptor bytes, and reads descriptor bytes into a model.
use crate::model::*;
use crate::wire::*;
use std::collections::{BTreeMap, HashMap, HashSet};

/// How references are spelled and which redundant parts are written.
#[derive(Clone, Default)]
pub struct Spell {
    /// spelling of a reference, by (scope full name, target full name)
    pub rel: HashMap<(String, String), String>,
    /// whether json names are written out
    pub json_names: bool,
    /// element options written as uninterpreted options instead, by element full name
    pub uninterpreted: HashMap<String, Vec<Vec<u8>>>,
    /// the options of such an element that are written interpreted all the same
    pub rest: HashMap<String, MMsg>,
    /// source code info of a file
    pub info: HashMap<usize, Vec<u8>>,
    /// whether references omit the type number
    pub no_type: bool,
}

struct W(Vec<u8>);
impl W {
    fn s(&mut self, n: u32, v: &str) {
        put_key(n, 2, &mut self.0);
        put_len(v.as_bytes(), &mut self.0);
    }
    fn b(&mut self, n: u32, v: &[u8]) {
        put_key(n, 2, &mut self.0);
        put_len(v, &mut self.0);
    }
    fn i(&mut self, n: u32, v: i64) {
        put_key(n, 0, &mut self.0);
        put_varint(v as u64, &mut self.0);
    }
}

pub struct Emit<'a> {
    pub s: &'a Schema,
    pub spell: &'a Spell,
}

pub const OPT_FILE: &str = "google.protobuf.FileOptions";
pub const OPT_MSG: &str = "google.protobuf.MessageOptions";
pub const OPT_FIELD: &str = "google.protobuf.FieldOptions";
pub const OPT_ONEOF: &str = "google.protobuf.OneofOptions";
pub const OPT_ENUM: &str = "google.protobuf.EnumOptions";
pub const OPT_VALUE: &str = "google.protobuf.EnumValueOptions";
pub const OPT_SERVICE: &str = "google.protobuf.ServiceOptions";
pub const OPT_METHOD: &str = "google.protobuf.MethodOptions";
pub const OPT_RANGE: &str = "google.protobuf.ExtensionRangeOptions";

impl Emit<'_> {
    fn name_ref(&self, scope: &str, target: &str) -> String {
        self.spell
            .rel
            .get(&(scope.to_string(), target.to_string()))
            .cloned()
            .unwrap_or_else(|| format!(".{target}"))
    }
    /// Encoded options of an element, `None` if it has no options field at all.
    fn opts(&self, ty: &str, key: &str, o: &Option<Opts>) -> Option<Vec<u8>> {
        let un = self.spell.uninterpreted.get(key);
        let mut b = Vec::new();
        match (un, o) {
            (None, None) => return None,
            (Some(us), _) => {
                if let Some(r) = self.spell.rest.get(key) {
                    b = self.interpreted(ty, r);
                }
                for u in us {
                    put_key(999, 2, &mut b);
                    put_len(u, &mut b);
                }
            }
            (None, Some(o)) => b = self.interpreted(ty, o),
        }
        Some(b)
    }
    fn interpreted(&self, ty: &str, o: &MMsg) -> Vec<u8> {
        if let Some(m) = self.s.find_msg(ty) {
            return encode(self.s, m, o);
        }
        let mut b = Vec::new();
        for (n, v) in &o.fields {
            match v {
                MVal::Bool(v) => {
                    put_key(*n, 0, &mut b);
                    b.push(*v as u8);
                }
                MVal::Str(v) => {
                    put_key(*n, 2, &mut b);
                    put_len(v.as_bytes(), &mut b);
                }
                MVal::Enum(v) => {
                    put_key(*n, 0, &mut b);
                    put_varint(*v as i64 as u64, &mut b);
                }
                v => panic!("harness: option {v:?}"),
            }
        }
        b
    }
    fn field(&self, f: &Field, scope: &str, extendee: Option<usize>) -> Vec<u8> {
        let full = format!("{scope}.{}", f.name);
        let full = full.trim_start_matches('.').to_string();
        let mut w = W(Vec::new());
        w.s(1, &f.name);
        if let Some(e) = extendee {
            w.s(2, &self.name_ref(&full, &self.s.msgs[e].full));
        }
        w.i(3, f.num as i64);
        w.i(4, match f.label {
            Label::Optional => 1,
            Label::Required => 2,
            Label::Repeated => 3,
        });
        match f.ty {
            Ty::S(s) => w.i(5, s.proto_type() as i64),
            Ty::E(e) => {
                if !self.spell.no_type {
                    w.i(5, 14);
                }
                w.s(6, &self.name_ref(&full, &self.s.enums[e].full));
            }
            Ty::M(m) => {
                if !self.spell.no_type {
                    w.i(5, 11);
                }
                w.s(6, &self.name_ref(&full, &self.s.msgs[m].full));
            }
            Ty::G(m) => {
                w.i(5, 10);
                w.s(6, &self.name_ref(&full, &self.s.msgs[m].full));
            }
        }
        if let Some(d) = &f.default {
            w.s(7, &default_text(self.s, f.ty, d));
        }
        if let Some(o) = self.opts(OPT_FIELD, &full, &f.opts) {
            w.b(8, &o);
        }
        if let Some(o) = f.oneof {
            w.i(9, o as i64);
        }
        match &f.json {
            Some(j) => w.s(10, j),
            None if self.spell.json_names => w.s(10, &json_name(&f.name)),
            None => {}
        }
        if f.p3opt {
            w.i(17, 1);
        }
        w.0
    }
    fn enum_(&self, e: usize) -> Vec<u8> {
        let e = &self.s.enums[e];
        let mut w = W(Vec::new());
        w.s(1, &e.name);
        for v in &e.values {
            let mut x = W(Vec::new());
            x.s(1, &v.name);
            x.i(2, v.num as i64);
            if let Some(o) = self.opts(OPT_VALUE, &format!("{}/{}", e.full, v.name), &v.opts) {
                x.b(3, &o);
            }
            w.b(2, &x.0);
        }
        if let Some(o) = self.opts(OPT_ENUM, &e.full, &e.opts) {
            w.b(3, &o);
        }
        for (a, b) in &e.reserved {
            let mut x = W(Vec::new());
            x.i(1, *a as i64);
            x.i(2, *b as i64);
            w.b(4, &x.0);
        }
        for n in &e.reserved_names {
            w.s(5, n);
        }
        w.0
    }
    fn msg(&self, m: usize) -> Vec<u8> {
        let m = &self.s.msgs[m];
        let mut w = W(Vec::new());
        w.s(1, &m.name);
        for f in &m.fields {
            w.b(2, &self.field(f, &m.full, None));
        }
        for &n in &m.nested {
            w.b(3, &self.msg(n));
        }
        for &e in &m.enums {
            w.b(4, &self.enum_(e));
        }
        for (i, (a, b, o)) in m.ext_ranges.iter().enumerate() {
            let mut x = W(Vec::new());
            x.i(1, *a as i64);
            x.i(2, *b as i64);
            if let Some(o) = self.opts(OPT_RANGE, &format!("{}/range{i}", m.full), o) {
                x.b(3, &o);
            }
            w.b(5, &x.0);
        }
        for &e in &m.exts {
            let e = &self.s.exts[e];
            w.b(6, &self.field(&e.field, &m.full, Some(e.extendee)));
        }
        if let Some(o) = self.opts(OPT_MSG, &m.full, &m.opts) {
            w.b(7, &o);
        }
        for o in &m.oneofs {
            let mut x = W(Vec::new());
            x.s(1, &o.name);
            if let Some(b) = self.opts(OPT_ONEOF, &format!("{}.{}", m.full, o.name), &o.opts) {
                x.b(2, &b);
            }
            w.b(8, &x.0);
        }
        for (a, b) in &m.reserved {
            let mut x = W(Vec::new());
            x.i(1, *a as i64);
            x.i(2, *b as i64);
            w.b(9, &x.0);
        }
        for n in &m.reserved_names {
            w.s(10, n);
        }
        w.0
    }
    pub fn file(&self, i: usize) -> Vec<u8> {
        let f = &self.s.files[i];
        if let Some(r) = &f.raw {
            return r.clone();
        }
        let mut w = W(Vec::new());
        w.s(1, &f.name);
        if !f.package.is_empty() {
            w.s(2, &f.package);
        }
        for (d, _) in &f.deps {
            w.s(3, &self.s.files[*d].name);
        }
        for &m in &f.msgs {
            w.b(4, &self.msg(m));
        }
        for &e in &f.enums {
            w.b(5, &self.enum_(e));
        }
        for s in &f.services {
            let mut x = W(Vec::new());
            x.s(1, &s.name);
            for m in &s.methods {
                let mut y = W(Vec::new());
                let full = format!("{}.{}", s.full, m.name);
                y.s(1, &m.name);
                y.s(2, &self.name_ref(&full, &self.s.msgs[m.input].full));
                y.s(3, &self.name_ref(&full, &self.s.msgs[m.output].full));
                if let Some(o) = self.opts(OPT_METHOD, &full, &m.opts) {
                    y.b(4, &o);
                }
                if m.cs {
                    y.i(5, 1);
                }
                if m.ss {
                    y.i(6, 1);
                }
                x.b(2, &y.0);
            }
            if let Some(o) = self.opts(OPT_SERVICE, &s.full, &s.opts) {
                x.b(3, &o);
            }
            w.b(6, &x.0);
        }
        for &e in &f.exts {
            let e = &self.s.exts[e];
            w.b(7, &self.field(&e.field, &f.package, Some(e.extendee)));
        }
        if let Some(o) = self.opts(OPT_FILE, &format!("file:{}", f.name), &f.opts) {
            w.b(8, &o);
        }
        if let Some(info) = self.spell.info.get(&i) {
            w.b(9, info);
        }
        for (i, (_, p)) in f.deps.iter().enumerate() {
            if *p {
                w.i(10, i as i64);
            }
        }
        if f.proto3 {
            w.s(12, "proto3");
        } else if f.syntax_field {
            w.s(12, "proto2");
        }
        w.0
    }
}

pub fn file_bytes(s: &Schema, i: usize) -> Vec<u8> {
    let spell = Spell { json_names: true, ..Default::default() };
    Emit { s, spell: &spell }.file(i)
}
pub fn set_bytes(files: &[Vec<u8>]) -> Vec<u8> {
    let mut out = Vec::new();
    for f in files {
        put_key(1, 2, &mut out);
        put_len(f, &mut out);
    }
    out
}

pub fn default_text(s: &Schema, ty: Ty, v: &MVal) -> String {
    match v {
        MVal::Bool(v) => v.to_string(),
        MVal::I32(v) => v.to_string(),
        MVal::I64(v) => v.to_string(),
        MVal::U32(v) => v.to_string(),
        MVal::U64(v) => v.to_string(),
        MVal::F32(b) => {
            let v = f32::from_bits(*b);
            if v.is_nan() {
                "nan".into()
            } else {
                format!("{v:?}")
            }
        }
        MVal::F64(b) => {
            let v = f64::from_bits(*b);
            if v.is_nan() {
                "nan".into()
            } else {
                format!("{v:?}")
            }
        }
        MVal::Str(v) => v.clone(),
        MVal::Bytes(v) => {
            let mut o = String::new();
            for &b in v {
                match b {
                    b'\n' => o.push_str("\\n"),
                    b'\r' => o.push_str("\\r"),
                    b'\t' => o.push_str("\\t"),
                    b'"' => o.push_str("\\\""),
                    b'\'' => o.push_str("\\'"),
                    b'\\' => o.push_str("\\\\"),
                    0x20..=0x7e => o.push(b as char),
                    _ => o.push_str(&format!("\\{b:03o}")),
                }
            }
            o
        }
        MVal::Enum(n) => {
            let Ty::E(e) = ty else { panic!("harness: enum default") };
            s.enums[e].values.iter().find(|v| v.num == *n).unwrap().name.clone()
        }
        v => panic!("harness: default {v:?}"),
    }
}

// ---------------------------------------------------------------- loading

struct T(Vec<(u32, Unk)>);
impl T {
    fn new(b: &[u8]) -> T {
        T(decode_raw(b).expect("harness: descriptor bytes"))
    }
    fn s(&self, n: u32) -> Option<String> {
        self.0.iter().rev().find_map(|(m, u)| match u {
            Unk::Len(b) if *m == n => Some(String::from_utf8(b.clone()).unwrap()),
            _ => None,
        })
    }
    fn ss(&self, n: u32) -> Vec<String> {
        self.bs(n).into_iter().map(|b| String::from_utf8(b).unwrap()).collect()
    }
    fn bs(&self, n: u32) -> Vec<Vec<u8>> {
        self.0
            .iter()
            .filter_map(|(m, u)| match u {
                Unk::Len(b) if *m == n => Some(b.clone()),
                _ => None,
            })
            .collect()
    }
    fn i(&self, n: u32) -> Option<i64> {
        self.0.iter().rev().find_map(|(m, u)| match u {
            Unk::Varint(v) if *m == n => Some(*v as i64),
            _ => None,
        })
    }
    fn is(&self, n: u32) -> Vec<i64> {
        self.0
            .iter()
            .filter_map(|(m, u)| match u {
                Unk::Varint(v) if *m == n => Some(*v as i64),
                _ => None,
            })
            .collect()
    }
}

/// Reads complete, fully qualified files (as written by protoc) into a model.
pub fn load_set(set: &[u8], want: Option<&HashSet<String>>, od: Option<&Schema>) -> Schema {
    let mut s = Schema::default();
    let files: Vec<(Vec<u8>, T)> = T::new(set).bs(1).into_iter().map(|b| (b.clone(), T::new(&b))).collect();
    let files: Vec<(Vec<u8>, T)> =
        files.into_iter().filter(|(_, t)| want.is_none_or(|w| w.contains(&t.s(1).unwrap()))).collect();
    let mut enum_names: HashMap<String, usize> = HashMap::new();
    // declarations first, so that references can be resolved afterwards
    struct Todo {
        mid: usize,
        raw: Vec<u8>,
    }
    let mut todo: Vec<Todo> = Vec::new();
    fn opts_of(od: Option<&Schema>, ty: &str, b: Option<&Vec<u8>>) -> Option<Opts> {
        let b = b?;
        if let Some(d) = od {
            return Some(decode(d, d.find_msg(ty).expect("harness: options type"), b).expect("harness: options"));
        }
        let mut m = MMsg::default();
        for (n, u) in decode_raw(b).unwrap() {
            if let Unk::Varint(v) = u {
                m.fields.insert(n, MVal::Bool(v != 0));
            }
        }
        Some(m)
    }
    fn add_enum(
        s: &mut Schema,
        od: Option<&Schema>,
        names: &mut HashMap<String, usize>,
        b: &[u8],
        scope: &str,
        file: usize,
        parent: Option<usize>,
    ) -> usize {
        let t = T::new(b);
        let name = t.s(1).unwrap();
        let full = if scope.is_empty() { name.clone() } else { format!("{scope}.{name}") };
        let values = t
            .bs(2)
            .iter()
            .map(|v| {
                let v = T::new(v);
                EnumVal { name: v.s(1).unwrap(), num: v.i(2).unwrap_or(0) as i32, opts: opts_of(od, OPT_VALUE, v.bs(3).first()) }
            })
            .collect();
        let reserved = t
            .bs(4)
            .iter()
            .map(|v| {
                let v = T::new(v);
                (v.i(1).unwrap_or(0) as i32, v.i(2).unwrap_or(0) as i32)
            })
            .collect();
        let i = s.enums.len();
        s.enums.push(Enum { name, full: full.clone(), file, parent, values, reserved, reserved_names: t.ss(5), opts: opts_of(od, OPT_ENUM, t.bs(3).first()) });
        names.insert(full, i);
        i
    }
    fn add_msg(
        s: &mut Schema,
        od: Option<&Schema>,
        names: &mut HashMap<String, usize>,
        todo: &mut Vec<Todo>,
        b: &[u8],
        scope: &str,
        file: usize,
        parent: Option<usize>,
    ) -> usize {
        let t = T::new(b);
        let name = t.s(1).unwrap();
        let full = if scope.is_empty() { name.clone() } else { format!("{scope}.{name}") };
        let i = s.msgs.len();
        let opts = opts_of(od, OPT_MSG, t.bs(7).first());
        let map_entry = opts.as_ref().is_some_and(|o| o.fields.get(&7) == Some(&MVal::Bool(true)));
        s.msgs.push(Msg {
            name,
            full: full.clone(),
            file,
            parent,
            map_entry,
            fields: vec![],
            oneofs: t.bs(8).iter().map(|o| Oneof { name: T::new(o).s(1).unwrap(), opts: opts_of(od, OPT_ONEOF, T::new(o).bs(2).first()) }).collect(),
            nested: vec![],
            enums: vec![],
            exts: vec![],
            ext_ranges: t
                .bs(5)
                .iter()
                .map(|r| {
                    let r = T::new(r);
                    (r.i(1).unwrap() as u32, r.i(2).unwrap() as u32, opts_of(od, OPT_RANGE, r.bs(3).first()))
                })
                .collect(),
            reserved: t
                .bs(9)
                .iter()
                .map(|r| {
                    let r = T::new(r);
                    (r.i(1).unwrap() as u32, r.i(2).unwrap() as u32)
                })
                .collect(),
            reserved_names: t.ss(10),
            opts,
        });
        let nested = t.bs(3).iter().map(|m| add_msg(s, od, names, todo, m, &full, file, Some(i))).collect();
        let enums = t.bs(4).iter().map(|e| add_enum(s, od, names, e, &full, file, Some(i))).collect();
        s.msgs[i].nested = nested;
        s.msgs[i].enums = enums;
        todo.push(Todo { mid: i, raw: b.to_vec() });
        i
    }
    let file_index: HashMap<String, usize> = files.iter().enumerate().map(|(i, (_, t))| (t.s(1).unwrap(), i)).collect();
    for (i, (b, t)) in files.iter().enumerate() {
        let package = t.s(2).unwrap_or_default();
        let public: Vec<i64> = t.is(10);
        let deps = t
            .ss(3)
            .iter()
            .enumerate()
            .map(|(k, d)| (file_index[d], public.contains(&(k as i64))))
            .collect();
        s.files.push(File {
            name: t.s(1).unwrap(),
            package: package.clone(),
            proto3: t.s(12).as_deref() == Some("proto3"),
            syntax_field: t.s(12).is_some(),
            deps,
            msgs: vec![],
            enums: vec![],
            exts: vec![],
            services: vec![],
            opts: opts_of(od, OPT_FILE, t.bs(8).first()),
            raw: Some(b.clone()),
        });
        let msgs = t.bs(4).iter().map(|m| add_msg(&mut s, od, &mut enum_names, &mut todo, m, &package, i, None)).collect();
        let enums = t.bs(5).iter().map(|e| add_enum(&mut s, od, &mut enum_names, e, &package, i, None)).collect();
        s.files[i].msgs = msgs;
        s.files[i].enums = enums;
    }
    s.index();
    for td in todo {
        let t = T::new(&td.raw);
        let mut fields = Vec::new();
        for f in t.bs(2) {
            let f = T::new(&f);
            let tn = f.s(6).map(|n| n.trim_start_matches('.').to_string());
            let ty = match (f.i(5).unwrap(), tn) {
                (10, Some(n)) => Ty::G(s.by_name[&n]),
                (11, Some(n)) => Ty::M(s.by_name[&n]),
                (14, Some(n)) => Ty::E(enum_names[&n]),
                (t, _) => Ty::S(Sc::from_proto(t as u64).unwrap()),
            };
            let default = f.s(7).map(|d| match ty {
                Ty::E(e) => MVal::Enum(s.enums[e].values.iter().find(|v| v.name == d).unwrap().num),
                Ty::S(Sc::Bool) => MVal::Bool(d == "true"),
                Ty::S(Sc::String) => MVal::Str(d),
                Ty::S(Sc::Int32) => MVal::I32(d.parse().unwrap()),
                ty => panic!("harness: default of {ty:?}"),
            });
            fields.push(Field {
                name: f.s(1).unwrap(),
                json: f.s(10),
                num: f.i(3).unwrap() as u32,
                ty,
                label: match f.i(4).unwrap() {
                    1 => Label::Optional,
                    2 => Label::Required,
                    _ => Label::Repeated,
                },
                oneof: f.i(9).map(|x| x as usize),
                p3opt: f.i(17) == Some(1),
                default,
                opts: opts_of(od, OPT_FIELD, f.bs(8).first()),
            });
        }
        s.msgs[td.mid].fields = fields;
    }
    s
}

pub static WKT: &[u8] = include_bytes!("../wkt.bin");

/// descriptor.proto itself
pub fn descriptor_schema() -> &'static Schema {
    static D: std::sync::OnceLock<Schema> = std::sync::OnceLock::new();
    D.get_or_init(|| load_set(WKT, Some(&["google/protobuf/descriptor.proto".to_string()].into()), None))
}

/// The well-known types, optionally with descriptor.proto.
pub fn wkt_schema(names: &[&str]) -> Schema {
    let want: HashSet<String> = names.iter().map(|n| format!("google/protobuf/{n}.proto")).collect();
    load_set(WKT, Some(&want), Some(descriptor_schema()))
}

pub fn all_bytes(s: &Schema) -> BTreeMap<usize, Vec<u8>> {
    (0..s.files.len()).map(|i| (i, file_bytes(s, i))).collect()
}
