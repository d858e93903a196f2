//! Random schemas and messages.
use crate::core::Src;
use crate::emit::*;
use crate::model::*;
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone)]
pub struct Cfg {
    pub files: (usize, usize),
    pub msgs: usize,
    pub fields: usize,
    pub proto2: bool,
    pub proto3: bool,
    pub exts: bool,
    pub groups: bool,
    pub services: bool,
    /// 0 none, 1 built-in options, 2 also custom options (needs descriptor.proto)
    pub opts: u8,
    pub wkt: &'static [&'static str],
    pub custom_json: bool,
    pub relative: bool,
    pub required: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            files: (1, 3),
            msgs: 3,
            fields: 7,
            proto2: true,
            proto3: true,
            exts: true,
            groups: true,
            services: false,
            opts: 0,
            wkt: &[],
            custom_json: true,
            relative: true,
            required: true,
        }
    }
}

const PACKAGES: [&str; 11] = ["p", "", "p.q", "p.q.r", "s", "q", "s.p", "a_b.c1", "pq", "p.qr", "s.pq.r"];
const FIELD_NAMES: [&str; 30] = [
    "a", "b", "c", "d", "foo", "bar_baz", "x1", "n_2", "q", "p", "value", "key", "type", "long_field_name_here",
    "fooBar", "Caps", "UPPER_CASE", "e", "f_", "g__h", "r", "s", "name", "id", "items", "data", "kind", "self_ref", "null_v", "inf",
];
const MSG_NAMES: [&str; 22] = [
    "M", "A", "B", "Foo", "Node", "Outer", "Inner", "T1", "Type_x", "Item", "Group", "K", "Zed", "lower",
    // named like what the compiler or the library treats specially elsewhere
    "LogEntry", "Entry", "Any", "Value", "Timestamp", "Struct", "FieldMask", "StringValue",
];
const ENUM_NAMES: [&str; 9] = ["E", "Color", "Kind", "Status", "Mode", "Bits", "En2", "Level", "NullValue"];

pub struct Gen<'a> {
    pub src: &'a mut Src,
    pub s: Schema,
    pub cfg: Cfg,
    used: HashSet<String>,
    packages: HashSet<String>,
    /// field numbers taken by extensions, by extendee
    ext_nums: HashMap<usize, HashSet<u32>>,
    first_gen: usize,
}

fn join(a: &str, b: &str) -> String {
    if a.is_empty() {
        b.to_string()
    } else {
        format!("{a}.{b}")
    }
}

impl<'a> Gen<'a> {
    pub fn new(src: &'a mut Src, cfg: Cfg) -> Gen<'a> {
        let s = if cfg.wkt.is_empty() { Schema::default() } else { wkt_schema(cfg.wkt) };
        let mut used = HashSet::new();
        for m in &s.msgs {
            used.insert(m.full.clone());
        }
        for e in &s.enums {
            used.insert(e.full.clone());
        }
        let first_gen = s.files.len();
        let packages = s.files.iter().map(|f| f.package.clone()).collect();
        Gen { src, s, cfg, used, packages, ext_nums: HashMap::new(), first_gen }
    }

    fn fresh(&mut self, scope: &str, base: &str) -> String {
        let mut name = base.to_string();
        let mut i = 1;
        loop {
            let full = join(scope, &name);
            if !self.used.contains(&full) && !self.packages.contains(&full) && !PACKAGES.contains(&full.as_str()) {
                self.used.insert(full);
                return name;
            }
            i += 1;
            name = format!("{base}{i}");
        }
    }

    pub fn schema(mut self) -> Schema {
        let n = self.src.range(self.cfg.files.0, self.cfg.files.1);
        for i in 0..n {
            self.file(i, n);
        }
        if self.cfg.opts > 0 {
            self.options();
        }
        self.s.index();
        self.s
    }

    fn file(&mut self, i: usize, _n: usize) {
        let proto3 = match (self.cfg.proto2, self.cfg.proto3) {
            (true, true) => self.src.chance(1, 2),
            (_, p3) => p3,
        };
        let package = PACKAGES[self.src.below(PACKAGES.len())].to_string();
        let fi = self.s.files.len();
        let mut deps: Vec<(usize, bool)> = Vec::new();
        let earlier: Vec<usize> = (self.first_gen..fi).collect();
        for &e in &earlier {
            if self.src.chance(2, 3) {
                deps.push((e, self.src.chance(1, 3)));
            }
        }
        for w in 0..self.first_gen {
            let descr = self.s.files[w].name.ends_with("descriptor.proto");
            if descr && self.cfg.opts == 2 && i == 0 {
                deps.push((w, self.src.chance(1, 4)));
            } else if !descr && self.src.chance(2, 3) {
                deps.push((w, self.src.chance(1, 5)));
            }
        }
        if self.src.chance(1, 4) {
            self.src.shuffle(&mut deps);
        }
        let dir = ["", "dir/", "x/y/"][self.src.weighted(&[4, 1, 1])];
        self.s.files.push(File {
            name: format!("{dir}f{i}.proto"),
            package: package.clone(),
            proto3,
            syntax_field: self.src.chance(1, 2),
            deps,
            msgs: vec![],
            enums: vec![],
            exts: vec![],
            services: vec![],
            opts: None,
            raw: None,
        });
        self.packages.insert(package.clone());
        // shells
        let ne = self.src.len(2);
        for _ in 0..ne {
            let e = self.enum_(fi, &package, None);
            self.s.files[fi].enums.push(e);
        }
        let nm = self.src.range(1, self.cfg.msgs);
        for _ in 0..nm {
            let m = self.msg_shell(fi, &package, None, 0);
            self.s.files[fi].msgs.push(m);
        }
        // fields, once every type of the file exists
        let first = self.s.msgs.iter().position(|m| m.file == fi).unwrap();
        let last = self.s.msgs.len();
        for m in first..last {
            self.fields(m);
        }
        if self.cfg.exts {
            let ne = self.src.len(3);
            for _ in 0..ne {
                let parent = if self.src.chance(1, 3) {
                    let ms: Vec<usize> = (first..last).filter(|m| !self.s.msgs[*m].map_entry).collect();
                    Some(*self.src.pick(&ms))
                } else {
                    None
                };
                self.ext(fi, parent);
            }
        }
        if self.cfg.opts == 2 && i == 0 {
            self.option_exts(fi);
        }
        if self.cfg.services {
            let ns = self.src.len(2);
            for _ in 0..ns {
                self.service(fi);
            }
        }
    }

    fn enum_(&mut self, fi: usize, scope: &str, parent: Option<usize>) -> usize {
        let base = ENUM_NAMES[self.src.below(ENUM_NAMES.len())];
        let name = self.fresh(scope, base);
        let full = join(scope, &name);
        let proto3 = self.s.files[fi].proto3;
        let alias = self.src.chance(1, 5);
        let n = self.src.range(1, 5);
        let mut nums: Vec<i32> = Vec::new();
        let mut values = Vec::new();
        for i in 0..n {
            let num = if i == 0 {
                if proto3 {
                    0
                } else {
                    [0, 1, -1, 7, i32::MAX][self.src.weighted(&[6, 3, 1, 1, 1])]
                }
            } else if alias && i == 1 {
                nums[0]
            } else {
                let mut v = match self.src.weighted(&[6, 2, 1, 1]) {
                    0 => i as i32,
                    1 => -(i as i32),
                    2 => i32::MAX - i as i32,
                    _ => i32::MIN + i as i32,
                };
                while nums.contains(&v) {
                    v = v.wrapping_add(1);
                }
                v
            };
            nums.push(num);
            let vn = self.fresh(scope, &format!("{}_{}", name.to_uppercase(), ["ZERO", "ONE", "TWO", "THREE", "FOUR"][i]));
            values.push(EnumVal { name: vn, num, opts: None });
        }
        let opts = if alias && n > 1 {
            Some(MMsg::default().set(2, MVal::Bool(true)))
        } else {
            None
        };
        let mut reserved = Vec::new();
        let mut reserved_names = Vec::new();
        if self.src.chance(1, 6) {
            let mut at = 1000;
            while nums.contains(&at) {
                at += 1;
            }
            let more = [(at, at), (at + 1, at + 40), (-90, -50), (i32::MIN, i32::MIN + 3), (i32::MAX - 9, i32::MAX), (500, 501)];
            let n = self.src.range(1, 3);
            for _ in 0..n {
                let r = more[self.src.below(more.len())];
                if !nums.iter().any(|n| r.0 <= *n && *n <= r.1) && !reserved.contains(&r) {
                    reserved.push(r);
                }
            }
            reserved_names.push("GONE".to_string());
        }
        self.s.enums.push(Enum { name, full, file: fi, parent, values, reserved, reserved_names, opts });
        self.s.enums.len() - 1
    }

    fn empty_msg(&self, name: String, full: String, file: usize, parent: Option<usize>) -> Msg {
        Msg {
            name,
            full,
            file,
            parent,
            map_entry: false,
            fields: vec![],
            oneofs: vec![],
            nested: vec![],
            enums: vec![],
            exts: vec![],
            ext_ranges: vec![],
            reserved: vec![],
            reserved_names: vec![],
            opts: None,
        }
    }

    fn msg_shell(&mut self, fi: usize, scope: &str, parent: Option<usize>, depth: usize) -> usize {
        let base = MSG_NAMES[self.src.below(MSG_NAMES.len())];
        let name = self.fresh(scope, base);
        let full = join(scope, &name);
        let mid = self.s.msgs.len();
        let m = self.empty_msg(name, full.clone(), fi, parent);
        self.s.msgs.push(m);
        let ne = self.src.len(1);
        for _ in 0..ne {
            let e = self.enum_(fi, &full, Some(mid));
            self.s.msgs[mid].enums.push(e);
        }
        if depth < 2 {
            let nn = self.src.len(2);
            for _ in 0..nn {
                let n = self.msg_shell(fi, &full, Some(mid), depth + 1);
                self.s.msgs[mid].nested.push(n);
            }
        }
        if !self.s.files[fi].proto3 && self.cfg.exts && self.src.chance(1, 2) {
            let r = match self.src.weighted(&[3, 1, 1]) {
                0 => vec![(100, 200, None)],
                1 => vec![(100, 120, None), (1000, 536870912, None)],
                _ => vec![(50, 51, None), (2000, 3000, None)],
            };
            self.s.msgs[mid].ext_ranges = r;
        }
        if self.src.chance(1, 6) {
            let more = [(60, 70), (70, 71), (80, 99), (1, 2), (5, 8), (900, 910), (536870000, 536870912), (19000, 19010)];
            let n = self.src.range(1, 3);
            for _ in 0..n {
                let r = more[self.src.below(more.len())];
                let m = &self.s.msgs[mid];
                if !m.ext_ranges.iter().any(|x| x.0 < r.1 && r.0 < x.1) && !m.reserved.contains(&r) {
                    self.s.msgs[mid].reserved.push(r);
                }
            }
            self.s.msgs[mid].reserved_names.push("old_field".into());
        }
        mid
    }

    fn number(&mut self, mid: usize) -> u32 {
        loop {
            let v = match self.src.weighted(&[10, 3, 1, 1]) {
                0 => 1 + self.src.below(15) as u32,
                1 => 16 + self.src.below(33) as u32,
                2 => 3000 + self.src.below(100) as u32,
                _ => 536870911 - self.src.below(3) as u32,
            };
            if self.ok_number(mid, v) {
                return v;
            }
            // deterministic fallback
            for v in 1..2000 {
                if self.ok_number(mid, v) {
                    return v;
                }
            }
        }
    }
    fn ok_number(&self, mid: usize, v: u32) -> bool {
        let m = &self.s.msgs[mid];
        v > 0
            && !(19000..20000).contains(&v)
            && !m.fields.iter().any(|f| f.num == v)
            && !m.ext_ranges.iter().any(|r| (r.0..r.1).contains(&v))
            && !m.reserved.iter().any(|r| (r.0..r.1).contains(&v))
    }

    /// Any identifier of the grammar.
    fn identifier(&mut self) -> String {
        const FIRST: [char; 6] = ['a', 'z', 'B', '_', 'Z', 'k'];
        const REST: [char; 10] = ['_', 'b', '1', 'C', 'x', '0', 'Y', '9', 'q', '_'];
        let mut s = String::new();
        s.push(FIRST[self.src.below(FIRST.len())]);
        let n = self.src.range(1, 9);
        for _ in 0..n {
            s.push(REST[self.src.below(REST.len())]);
        }
        s
    }

    fn field_name(&mut self, mid: usize) -> String {
        let base = if self.src.chance(1, 4) { self.identifier() } else { FIELD_NAMES[self.src.below(FIELD_NAMES.len())].to_string() };
        let full = self.s.msgs[mid].full.clone();
        let keys: HashSet<String> = self.s.msgs[mid].fields.iter().map(|f| camel_key(&f.name)).collect();
        let jsons: HashSet<String> = self.s.msgs[mid].fields.iter().map(|f| f.json_name()).collect();
        let mut i = 1;
        let mut name = base.to_string();
        loop {
            let f = join(&full, &name);
            if !self.used.contains(&f) && !keys.contains(&camel_key(&name)) && !jsons.contains(&json_name(&name)) && !name.is_empty() {
                self.used.insert(f);
                return name;
            }
            i += 1;
            name = format!("{base}{i}");
        }
    }

    fn type_candidates(&self, fi: usize) -> (Vec<usize>, Vec<usize>) {
        let vis = self.s.visible(fi);
        let proto3 = self.s.files[fi].proto3;
        let ms = (0..self.s.msgs.len())
            .filter(|&m| {
                let m = &self.s.msgs[m];
                vis.contains(&m.file) && !m.map_entry && !self.s.files[m.file].name.ends_with("descriptor.proto")
            })
            .collect();
        let es = (0..self.s.enums.len())
            .filter(|&e| {
                let e = &self.s.enums[e];
                vis.contains(&e.file)
                    && (!proto3 || self.s.files[e.file].proto3)
                    && !self.s.files[e.file].name.ends_with("descriptor.proto")
            })
            .collect();
        (ms, es)
    }

    fn ty(&mut self, fi: usize) -> Ty {
        let (ms, es) = self.type_candidates(fi);
        match self.src.weighted(&[10, if es.is_empty() { 0 } else { 3 }, if ms.is_empty() { 0 } else { 6 }]) {
            1 => Ty::E(*self.src.pick(&es)),
            2 => Ty::M(*self.src.pick(&ms)),
            _ => Ty::S(SCALARS[self.src.below(SCALARS.len())]),
        }
    }

    fn plain(name: String, num: u32, ty: Ty, label: Label) -> Field {
        Field { name, json: None, num, ty, label, oneof: None, p3opt: false, default: None, opts: None }
    }

    fn fields(&mut self, mid: usize) {
        let fi = self.s.msgs[mid].file;
        let proto3 = self.s.files[fi].proto3;
        let n = self.src.range(0, self.cfg.fields);
        // real oneofs first, as protoc writes synthetic ones last
        let no = self.src.weighted(&[5, 3, 1]);
        let full = self.s.msgs[mid].full.clone();
        let mut oneofs: Vec<usize> = Vec::new();
        if n > 0 {
            for _ in 0..no {
                let base = ["choice", "which", "one_of"][self.src.below(3)];
            let name = self.fresh(&full, base);
                self.s.msgs[mid].oneofs.push(Oneof { name, opts: None });
                oneofs.push(self.s.msgs[mid].oneofs.len() - 1);
            }
        }
        let mut optional3: Vec<usize> = Vec::new();
        for (k, &o) in oneofs.iter().enumerate() {
            // every oneof has at least one member
            let _ = k;
            self.oneof_member(mid, fi, o);
        }
        for _ in 0..n {
            let shape = self.src.weighted(&[8, 4, 3, if oneofs.is_empty() { 0 } else { 4 }, if proto3 { 3 } else { 0 }, if !proto3 && self.cfg.groups { 2 } else { 0 }]);
            match shape {
                1 => {
                    let ty = self.ty(fi);
                    let name = self.field_name(mid);
                    let num = self.number(mid);
                    let mut f = Self::plain(name, num, ty, Label::Repeated);
                    if ty.packable() && self.src.chance(1, 3) {
                        f.opts = Some(MMsg::default().set(2, MVal::Bool(self.src.chance(1, 2))));
                    }
                    self.push_field(mid, f);
                }
                2 => self.map_field(mid, fi),
                3 => {
                    let o = *self.src.pick(&oneofs);
                    self.oneof_member(mid, fi, o);
                }
                4 => {
                    let ty = self.ty(fi);
                    let name = self.field_name(mid);
                    let num = self.number(mid);
                    let mut f = Self::plain(name, num, ty, Label::Optional);
                    f.p3opt = true;
                    optional3.push(self.s.msgs[mid].fields.len());
                    self.push_field(mid, f);
                }
                5 => {
                    let rep = self.src.chance(1, 3);
                    self.group_field(mid, fi, rep);
                }
                _ => {
                    let ty = self.ty(fi);
                    let name = self.field_name(mid);
                    let num = self.number(mid);
                    let label = if !proto3 && self.cfg.required && self.src.chance(1, 12) { Label::Required } else { Label::Optional };
                    let mut f = Self::plain(name, num, ty, label);
                    if !proto3 && self.src.chance(1, 3) {
                        f.default = self.default(ty);
                    }
                    self.push_field(mid, f);
                }
            }
        }
        for at in optional3 {
            let name = format!("_{}", self.s.msgs[mid].fields[at].name);
            let name = self.fresh(&full, &name);
            self.s.msgs[mid].oneofs.push(Oneof { name, opts: None });
            let o = self.s.msgs[mid].oneofs.len() - 1;
            self.s.msgs[mid].fields[at].oneof = Some(o);
        }
        if self.src.chance(1, 3) {
            let mut fs = std::mem::take(&mut self.s.msgs[mid].fields);
            self.src.shuffle(&mut fs);
            self.s.msgs[mid].fields = fs;
        }
    }

    fn push_field(&mut self, mid: usize, mut f: Field) {
        if self.cfg.custom_json && self.src.chance(1, 8) {
            let cand = format!("{}{}", ["custom", "j-", "@x", "Ünï"][self.src.below(4)], f.num);
            f.json = Some(cand);
        }
        self.s.msgs[mid].fields.push(f);
    }

    fn oneof_member(&mut self, mid: usize, fi: usize, o: usize) {
        let ty = self.ty(fi);
        let name = self.field_name(mid);
        let num = self.number(mid);
        let mut f = Self::plain(name, num, ty, Label::Optional);
        f.oneof = Some(o);
        if !self.s.files[fi].proto3 && self.src.chance(1, 6) {
            f.default = self.default(ty);
        }
        self.push_field(mid, f);
    }

    fn map_field(&mut self, mid: usize, fi: usize) {
        let name = self.field_name(mid);
        let num = self.number(mid);
        let entry_base = {
            let mut o = String::new();
            let mut up = true;
            for c in name.chars() {
                if c == '_' {
                    up = true;
                } else {
                    o.push(if up { c.to_ascii_uppercase() } else { c });
                    up = false;
                }
            }
            o + "Entry"
        };
        let full = self.s.msgs[mid].full.clone();
        let ename = self.fresh(&full, &entry_base);
        let efull = join(&full, &ename);
        let keys: Vec<Sc> = SCALARS.iter().copied().filter(|s| s.key_ok()).collect();
        let kt = Ty::S(keys[self.src.below(keys.len())]);
        let vt = self.ty(fi);
        let mut e = self.empty_msg(ename, efull, fi, Some(mid));
        e.map_entry = true;
        e.opts = Some(MMsg::default().set(7, MVal::Bool(true)));
        e.fields.push(Self::plain("key".into(), 1, kt, Label::Optional));
        e.fields.push(Self::plain("value".into(), 2, vt, Label::Optional));
        let eid = self.s.msgs.len();
        self.s.msgs.push(e);
        self.s.msgs[mid].nested.push(eid);
        let f = Self::plain(name, num, Ty::M(eid), Label::Repeated);
        self.push_field(mid, f);
    }

    fn group_field(&mut self, mid: usize, fi: usize, rep: bool) {
        let full = self.s.msgs[mid].full.clone();
        let keys: HashSet<String> = self.s.msgs[mid].fields.iter().map(|f| camel_key(&f.name)).collect();
        let jsons: HashSet<String> = self.s.msgs[mid].fields.iter().map(|f| f.json_name()).collect();
        let base = ["Grp", "Result", "GroupThing"][self.src.below(3)];
        let mut i = 1;
        let mut gname = base.to_string();
        loop {
            let l = gname.to_lowercase();
            if !self.used.contains(&join(&full, &gname)) && !self.used.contains(&join(&full, &l)) && !keys.contains(&camel_key(&l)) && !jsons.contains(&json_name(&l)) {
                break;
            }
            i += 1;
            gname = format!("{base}{i}");
        }
        let l = gname.to_lowercase();
        self.used.insert(join(&full, &gname));
        self.used.insert(join(&full, &l));
        let gid = self.s.msgs.len();
        let g = self.empty_msg(gname.clone(), join(&full, &gname), fi, Some(mid));
        self.s.msgs.push(g);
        self.s.msgs[mid].nested.push(gid);
        let n = self.src.range(1, 3);
        for _ in 0..n {
            let ty = self.ty(fi);
            let name = self.field_name(gid);
            let num = self.number(gid);
            let label = if self.src.chance(1, 3) { Label::Repeated } else { Label::Optional };
            let f = Self::plain(name, num, ty, label);
            self.push_field(gid, f);
        }
        let num = self.number(mid);
        let f = Self::plain(l, num, Ty::G(gid), if rep { Label::Repeated } else { Label::Optional });
        self.push_field(mid, f);
    }

    fn default(&mut self, ty: Ty) -> Option<MVal> {
        Some(match ty {
            Ty::S(Sc::Float) => MVal::F32([1.5f32, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e-10, 3.4e38][self.src.below(7)].to_bits()),
            Ty::S(Sc::Double) => MVal::F64([1.5f64, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-300, 0.1][self.src.below(7)].to_bits()),
            Ty::S(s) => scalar(self.src, s, false),
            Ty::E(e) => {
                let vs = &self.s.enums[e].values;
                MVal::Enum(vs[self.src.below(vs.len())].num)
            }
            _ => return None,
        })
    }

    fn ext(&mut self, fi: usize, parent: Option<usize>) {
        let vis = self.s.visible(fi);
        let targets: Vec<usize> = (0..self.s.msgs.len())
            .filter(|&m| vis.contains(&self.s.msgs[m].file) && !self.s.msgs[m].ext_ranges.is_empty() && self.s.msgs[m].file >= self.first_gen)
            .collect();
        if targets.is_empty() || self.s.files[fi].proto3 {
            return;
        }
        let t = *self.src.pick(&targets);
        self.add_ext(fi, parent, t, 0);
    }

    /// kind: 0 any type, 1 suitable for an option
    fn add_ext(&mut self, fi: usize, parent: Option<usize>, target: usize, kind: u8) {
        let scope = match parent {
            Some(p) => self.s.msgs[p].full.clone(),
            None => self.s.files[fi].package.clone(),
        };
        let base = ["ext", "my_ext", "opt_val", "extra"][self.src.below(4)];
        let name = self.fresh(&scope, base);
        let full = join(&scope, &name);
        let ranges = self.s.msgs[target].ext_ranges.clone();
        let taken = self.ext_nums.entry(target).or_default();
        let (a, b, _) = ranges[self.src.below(ranges.len())].clone();
        let mut num = if kind == 1 { 50000 + self.src.below(100) as u32 } else { a + self.src.below((b - a).min(20) as usize) as u32 };
        let mut tries = 0;
        while taken.contains(&num) || (19000..20000).contains(&num) {
            num += 1;
            if num >= b {
                num = a;
            }
            tries += 1;
            if tries > 50 {
                return;
            }
        }
        taken.insert(num);
        let ty = self.ty(fi);
        let label = if self.src.chance(1, 3) { Label::Repeated } else { Label::Optional };
        let mut f = Self::plain(name, num, ty, label);
        if label == Label::Optional && !self.s.files[fi].proto3 && self.src.chance(1, 4) {
            f.default = self.default(ty);
        }
        if label == Label::Repeated && ty.packable() && self.src.chance(1, 3) {
            f.opts = Some(MMsg::default().set(2, MVal::Bool(self.src.chance(2, 3))));
        }
        let id = self.s.exts.len();
        self.s.exts.push(Ext { field: f, full, extendee: target, file: fi, parent });
        match parent {
            Some(p) => self.s.msgs[p].exts.push(id),
            None => self.s.files[fi].exts.push(id),
        }
    }

    fn option_exts(&mut self, fi: usize) {
        let all = [OPT_FIELD, OPT_MSG, OPT_FILE, OPT_ENUM, OPT_VALUE, OPT_ONEOF, OPT_SERVICE, OPT_METHOD, OPT_RANGE];
        self.s.index();
        for ty in all {
            if self.src.chance(2, 3) {
                let t = self.s.find_msg(ty).unwrap();
                let n = self.src.range(1, 3);
                for _ in 0..n {
                    self.add_ext(fi, None, t, 1);
                }
            }
        }
    }

    fn service(&mut self, fi: usize) {
        let scope = self.s.files[fi].package.clone();
        let base = ["Svc", "Api", "Echo"][self.src.below(3)];
            let name = self.fresh(&scope, base);
        let full = join(&scope, &name);
        let (ms, _) = self.type_candidates(fi);
        let mut methods = Vec::new();
        let n = self.src.range(0, 3);
        for _ in 0..n {
            let base = ["Get", "Do", "Stream", "Put"][self.src.below(4)];
            let mn = self.fresh(&full, base);
            methods.push(Method {
                name: mn,
                input: *self.src.pick(&ms),
                output: *self.src.pick(&ms),
                cs: self.src.chance(1, 3),
                ss: self.src.chance(1, 3),
                opts: None,
            });
        }
        self.s.files[fi].services.push(Service { name, full, methods, opts: None });
    }

    // ------------------------------------------------------------ options

    fn one_option(&mut self, ty: &str, fi: usize, keep: Option<Opts>) -> Option<Opts> {
        let mut o = keep.clone().unwrap_or_default();
        let mut any = keep.is_some();
        // built-in
        let builtin: &[(u32, u8)] = match ty {
            OPT_FILE => &[(1, 2), (8, 2), (10, 1), (11, 2), (9, 3), (31, 1)],
            OPT_MSG => &[(3, 1)],
            OPT_FIELD => &[(3, 1), (5, 1), (1, 4)],
            OPT_ENUM => &[(3, 1)],
            OPT_VALUE => &[(1, 1)],
            OPT_SERVICE => &[(33, 1)],
            OPT_METHOD => &[(33, 1), (34, 5)],
            _ => &[],
        };
        for &(n, k) in builtin {
            if self.src.chance(1, 6) {
                any = true;
                let v = match k {
                    1 => MVal::Bool(self.src.chance(1, 2)),
                    2 => MVal::Str(["com.example", "Outer", "a\"b"][self.src.below(3)].into()),
                    3 => MVal::Enum(1 + self.src.below(3) as i32),
                    4 => MVal::Enum(self.src.below(3) as i32),
                    _ => MVal::Enum(self.src.below(3) as i32),
                };
                o.fields.insert(n, v);
            }
        }
        if self.cfg.opts == 2 {
            let vis = self.s.visible(fi);
            self.s.index();
            let t = self.s.find_msg(ty).unwrap();
            let es: Vec<usize> = (0..self.s.exts.len()).filter(|&e| self.s.exts[e].extendee == t && vis.contains(&self.s.exts[e].file)).collect();
            for e in es {
                if self.src.chance(1, 3) {
                    any = true;
                    let f = self.s.exts[e].field.clone();
                    let vc = Vals { unknown: false, unknown_enum: false, ..Vals::default() };
                    let v = if f.rep() {
                        let n = self.src.range(1, 3);
                        MVal::List((0..n).map(|_| value(self.src, &self.s, f.ty, 2, &vc)).collect())
                    } else {
                        value(self.src, &self.s, f.ty, 2, &vc)
                    };
                    o.fields.insert(f.num, v);
                }
            }
        }
        if any || self.src.chance(1, 20) {
            Some(o)
        } else {
            None
        }
    }

    fn options(&mut self) {
        for fi in self.first_gen..self.s.files.len() {
            if self.src.chance(1, 3) {
                self.s.files[fi].opts = self.one_option(OPT_FILE, fi, None);
            }
            let ns = self.s.files[fi].services.len();
            for k in 0..ns {
                if self.src.chance(1, 2) {
                    self.s.files[fi].services[k].opts = self.one_option(OPT_SERVICE, fi, None);
                }
                for m in 0..self.s.files[fi].services[k].methods.len() {
                    if self.src.chance(1, 2) {
                        self.s.files[fi].services[k].methods[m].opts = self.one_option(OPT_METHOD, fi, None);
                    }
                }
            }
        }
        for m in 0..self.s.msgs.len() {
            let fi = self.s.msgs[m].file;
            if fi < self.first_gen {
                continue;
            }
            if self.s.msgs[m].map_entry {
                continue;
            }
            if self.src.chance(1, 4) {
                self.s.msgs[m].opts = self.one_option(OPT_MSG, fi, None);
            }
            for k in 0..self.s.msgs[m].fields.len() {
                if self.src.chance(1, 4) {
                    let keep = self.s.msgs[m].fields[k].opts.clone();
                    let o = self.one_option(OPT_FIELD, fi, keep);
                    self.s.msgs[m].fields[k].opts = o;
                }
            }
            for k in 0..self.s.msgs[m].oneofs.len() {
                let synthetic = self.s.msgs[m].fields.iter().any(|f| f.oneof == Some(k) && f.p3opt);
                if !synthetic && self.src.chance(1, 4) {
                    self.s.msgs[m].oneofs[k].opts = self.one_option(OPT_ONEOF, fi, None);
                }
            }
            for k in 0..self.s.msgs[m].ext_ranges.len() {
                if self.src.chance(1, 4) {
                    self.s.msgs[m].ext_ranges[k].2 = self.one_option(OPT_RANGE, fi, None);
                }
            }
        }
        for e in 0..self.s.enums.len() {
            let fi = self.s.enums[e].file;
            if fi < self.first_gen {
                continue;
            }
            if self.src.chance(1, 3) {
                let keep = self.s.enums[e].opts.clone();
                self.s.enums[e].opts = self.one_option(OPT_ENUM, fi, keep);
            }
            for k in 0..self.s.enums[e].values.len() {
                if self.src.chance(1, 6) {
                    self.s.enums[e].values[k].opts = self.one_option(OPT_VALUE, fi, None);
                }
            }
        }
        for e in 0..self.s.exts.len() {
            let fi = self.s.exts[e].file;
            if fi >= self.first_gen && self.src.chance(1, 4) {
                let keep = self.s.exts[e].field.opts.clone();
                let o = self.one_option(OPT_FIELD, fi, keep);
                self.s.exts[e].field.opts = o;
            }
        }
    }
}

pub fn schema(src: &mut Src, cfg: Cfg) -> Schema {
    Gen::new(src, cfg).schema()
}

// ---------------------------------------------------------------- spelling of references

#[derive(Clone, Copy, PartialEq)]
pub enum Sym {
    Package,
    Parent,
    Leaf,
}

/// Every name a file can see, as protobuf's name lookup does.
pub fn symbols(s: &Schema, file: usize) -> HashMap<String, Sym> {
    let vis = s.visible(file);
    let mut t = HashMap::new();
    for &f in &vis {
        let p = &s.files[f].package;
        let mut at = String::new();
        if !p.is_empty() {
            for part in p.split('.') {
                at = join(&at, part);
                t.insert(at.clone(), Sym::Package);
            }
        }
        for sv in &s.files[f].services {
            t.insert(sv.full.clone(), Sym::Parent);
            for m in &sv.methods {
                t.insert(join(&sv.full, &m.name), Sym::Leaf);
            }
        }
    }
    for m in &s.msgs {
        if vis.contains(&m.file) {
            t.insert(m.full.clone(), Sym::Parent);
            for f in &m.fields {
                t.insert(join(&m.full, &f.name), Sym::Leaf);
            }
            for o in &m.oneofs {
                t.insert(join(&m.full, &o.name), Sym::Leaf);
            }
        }
    }
    for e in &s.enums {
        if vis.contains(&e.file) {
            t.insert(e.full.clone(), Sym::Parent);
            let scope = e.full.rsplit_once('.').map_or("", |x| x.0);
            for v in &e.values {
                t.insert(join(scope, &v.name), Sym::Leaf);
            }
        }
    }
    for e in &s.exts {
        if vis.contains(&e.file) {
            t.insert(e.full.clone(), Sym::Leaf);
        }
    }
    t
}

/// All relative spellings of `target` that resolve to it from `scope`.
pub fn spellings(t: &HashMap<String, Sym>, scope: &str, target: &str) -> Vec<String> {
    let mut scopes: Vec<&str> = vec![scope];
    let mut at = scope;
    while let Some((a, _)) = at.rsplit_once('.') {
        scopes.push(a);
        at = a;
    }
    if !scope.is_empty() {
        scopes.push("");
    }
    let parts: Vec<&str> = target.split('.').collect();
    let mut out = Vec::new();
    for start in 0..parts.len() {
        let prefix = parts[..start].join(".");
        if !scopes.contains(&prefix.as_str()) {
            continue;
        }
        // the innermost scope that has the first part must be the prefix
        let inner = scopes.iter().find(|s| t.contains_key(&join(s, parts[start])));
        if inner == Some(&prefix.as_str()) {
            out.push(parts[start..].join("."));
        }
    }
    out
}

/// Picks relative spellings for the references of generated files.
pub fn spell(src: &mut Src, s: &Schema) -> Spell {
    let mut sp = Spell { json_names: src.chance(1, 2), no_type: src.chance(1, 6), ..Default::default() };
    for fi in 0..s.files.len() {
        if s.files[fi].raw.is_some() {
            continue;
        }
        let t = symbols(s, fi);
        let mut refs: Vec<(String, String)> = Vec::new();
        let tyname = |ty: Ty| match ty {
            Ty::E(e) => Some(s.enums[e].full.clone()),
            Ty::M(m) | Ty::G(m) => Some(s.msgs[m].full.clone()),
            _ => None,
        };
        for m in s.msgs.iter().filter(|m| m.file == fi) {
            for f in &m.fields {
                if let Some(n) = tyname(f.ty) {
                    refs.push((join(&m.full, &f.name), n));
                }
            }
        }
        for e in s.exts.iter().filter(|e| e.file == fi) {
            refs.push((e.full.clone(), s.msgs[e.extendee].full.clone()));
            if let Some(n) = tyname(e.field.ty) {
                refs.push((e.full.clone(), n));
            }
        }
        for sv in &s.files[fi].services {
            for m in &sv.methods {
                refs.push((join(&sv.full, &m.name), s.msgs[m.input].full.clone()));
                refs.push((join(&sv.full, &m.name), s.msgs[m.output].full.clone()));
            }
        }
        for (scope, target) in refs {
            if src.chance(1, 2) {
                let c = spellings(&t, &scope, &target);
                if !c.is_empty() {
                    let pick = src.pick(&c).clone();
                    sp.rel.insert((scope, target), pick);
                }
            }
        }
    }
    sp
}

// ---------------------------------------------------------------- values

#[derive(Clone)]
pub struct Vals {
    pub unknown: bool,
    pub unknown_enum: bool,
    pub nan: bool,
    pub finite: bool,
    /// only values the JSON mapping accepts in well-known types
    pub json: bool,
    pub width: usize,
    /// messages that may appear inside Any
    pub any: Vec<usize>,
    /// also type urls and contents that cannot be expanded
    pub any_odd: bool,
}
impl Default for Vals {
    fn default() -> Self {
        Vals { unknown: true, unknown_enum: true, nan: true, finite: false, json: false, width: 3, any: vec![], any_odd: false }
    }
}

const STRINGS: [&str; 22] = [
    "", "a", "hello", "x y", "\"", "'", "\\", "\n\r\t", "\0", "\u{1}\u{7f}", "é", "日本", "😀", "\u{feff}", "1", "true", "null", "{}", "a.b.c",
    "</script>", "\u{2028}", "?\x08\x0c",
];

pub fn string(src: &mut Src) -> String {
    match src.weighted(&[8, 2, 1]) {
        0 => STRINGS[src.below(STRINGS.len())].to_string(),
        1 => {
            let n = src.len(4);
            (0..n).map(|_| STRINGS[src.below(STRINGS.len())]).collect()
        }
        _ => "s".repeat([127, 128, 300, 16384][src.weighted(&[8, 8, 8, 1])]),
    }
}
pub fn bytes(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[6, 2, 1]) {
        0 => {
            let n = src.len(6);
            (0..n).map(|_| [0u8, 1, 0x7f, 0x80, 0xff, b'a', b'0', b'"', b'\\', b'\n', 0xfb, 0xf0, b'?', 39][src.below(14)]).collect()
        }
        1 => {
            let n = src.len(9);
            (0..n).map(|_| src.below(256) as u8).collect()
        }
        _ => vec![src.below(256) as u8; [127, 128, 200, 16383][src.weighted(&[8, 8, 8, 1])]],
    }
}

fn int(src: &mut Src, bits: u32) -> i64 {
    let lim = |v: i64| if bits == 32 { v as i32 as i64 } else { v };
    match src.weighted(&[6, 3, 3, 1]) {
        0 => [0, 1, -1, 2, 127, 128, -128, 300][src.below(8)],
        1 => {
            if bits == 32 {
                [i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 - 1, 1 << 30][src.below(4)]
            } else {
                [i64::MAX, i64::MIN, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, 1 << 31, u32::MAX as i64, i32::MIN as i64 - 1][src.below(8)]
            }
        }
        2 => {
            let b = src.below(bits as usize - 1);
            lim(1i64 << b) - src.below(2) as i64
        }
        _ => lim(src.u64() as i64),
    }
}

pub fn scalar(src: &mut Src, s: Sc, finite: bool) -> MVal {
    match s {
        Sc::Bool => MVal::Bool(src.chance(2, 3)),
        Sc::String => MVal::Str(string(src)),
        Sc::Bytes => MVal::Bytes(bytes(src)),
        Sc::Int32 | Sc::Sint32 | Sc::Sfixed32 => MVal::I32(int(src, 32) as i32),
        Sc::Int64 | Sc::Sint64 | Sc::Sfixed64 => MVal::I64(int(src, 64)),
        Sc::Uint32 | Sc::Fixed32 => MVal::U32(int(src, 32) as u32),
        Sc::Uint64 | Sc::Fixed64 => MVal::U64(int(src, 64) as u64),
        Sc::Float => {
            // its shortest digits lie halfway to the next float once read as a double
            const TWICE: f32 = 7.038531e-26;
            const F: [f32; 16] = [
                0.0, 1.0, -1.5, 0.1, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -0.0, 16777217.0, 1e10, TWICE, -TWICE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN,
            ];
            let v = match src.weighted(&[6, 1, 1]) {
                0 => F[src.below(if finite { 13 } else { 16 })],
                2 => whole(src, 64) as f32,
                _ => {
                    let v = f32::from_bits(src.u64() as u32);
                    if v.is_nan() || (finite && !v.is_finite()) {
                        2.5
                    } else {
                        v
                    }
                }
            };
            MVal::F32(v.to_bits())
        }
        Sc::Double => {
            const F: [f64; 15] = [
                0.0, 1.0, -1.5, 0.1, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -0.0, 9007199254740993.0, 1e21, 1e-7, f64::INFINITY, f64::NEG_INFINITY, f64::NAN,
            ];
            let v = match src.weighted(&[6, 1, 1]) {
                0 => F[src.below(if finite { 12 } else { 15 })],
                2 => whole(src, 64) as f64,
                _ => {
                    let v = f64::from_bits(src.u64());
                    if v.is_nan() || (finite && !v.is_finite()) {
                        2.5
                    } else {
                        v
                    }
                }
            };
            MVal::F64(v.to_bits())
        }
    }
}

/// A whole number of any magnitude up to so many bits.
fn whole(src: &mut Src, bits: usize) -> i128 {
    let k = src.below(bits);
    let v = (src.u64() >> k) as i128;
    if src.chance(1, 2) {
        -v
    } else {
        v
    }
}

pub fn value(src: &mut Src, s: &Schema, ty: Ty, depth: usize, c: &Vals) -> MVal {
    match ty {
        Ty::S(sc) => scalar(src, sc, c.finite),
        Ty::E(e) => {
            if c.json && s.enums[e].full == "google.protobuf.NullValue" {
                return MVal::Enum(0);
            }
            if c.unknown_enum && src.chance(1, 8) {
                MVal::Enum([99, -77, i32::MAX, i32::MIN][src.below(4)])
            } else {
                let v = &s.enums[e].values;
                MVal::Enum(v[src.below(v.len())].num)
            }
        }
        Ty::M(m) | Ty::G(m) => MVal::Msg(message(src, s, m, depth.saturating_sub(1), c)),
    }
}

/// Sizes of long lists and maps, around where encodings and containers change.
const MANY: [usize; 8] = [9, 16, 17, 40, 64, 65, 128, 300];

pub fn field_value(src: &mut Src, s: &Schema, f: &Field, depth: usize, c: &Vals) -> MVal {
    if let Some((kf, vf)) = s.entry(f) {
        let n = 1 + src.len(c.width);
        let mut m = BTreeMap::new();
        let cc = Vals { unknown: c.unknown, ..c.clone() };
        for _ in 0..n {
            let k = match kf.ty {
                Ty::S(sc) => scalar(src, sc, true),
                _ => unreachable!(),
            };
            m.insert(k.key(), value(src, s, vf.ty, depth, &cc));
        }
        let plain = vf.ty.msg().is_none();
        if plain && kf.ty != Ty::S(Sc::Bool) && src.chance(1, 40) {
            let v: Vec<MVal> = m.values().cloned().collect();
            for i in 0..MANY[src.below(MANY.len())] as i64 {
                let k = match kf.ty {
                    Ty::S(Sc::String) => MVal::Str(format!("k{i}")),
                    Ty::S(Sc::Int32 | Sc::Sint32 | Sc::Sfixed32) => MVal::I32(i as i32 * 7 - 50),
                    Ty::S(Sc::Int64 | Sc::Sint64 | Sc::Sfixed64) => MVal::I64(i * 7 - 50),
                    Ty::S(Sc::Uint32 | Sc::Fixed32) => MVal::U32(i as u32 * 7),
                    _ => MVal::U64(i as u64 * 7),
                };
                m.insert(k.key(), v[i as usize % v.len()].clone());
                if v.iter().any(|v| matches!(v, MVal::Str(_) | MVal::Bytes(_))) && i > 16 {
                    break;
                }
            }
        }
        MVal::Map(m)
    } else if f.rep() {
        let n = 1 + src.len(c.width);
        let mut l: Vec<MVal> = (0..n).map(|_| value(src, s, f.ty, depth, c)).collect();
        if f.ty.msg().is_none() && src.chance(1, 40) {
            // long lists repeat a few values
            let size = |v: &MVal| match v {
                MVal::Str(x) => x.len(),
                MVal::Bytes(x) => x.len(),
                _ => 1,
            };
            let longest = l.iter().map(size).max().unwrap_or(0);
            let k = MANY[src.below(if longest > 10 { 4 } else { MANY.len() })].min(1 + 20_000 / longest.max(1));
            l = (0..k).map(|i| l[i % n].clone()).collect();
        }
        MVal::List(l)
    } else {
        value(src, s, f.ty, depth, c)
    }
}

pub fn message(src: &mut Src, s: &Schema, mid: usize, depth: usize, c: &Vals) -> MMsg {
    if c.json {
        if let Some(m) = wkt_value(src, s, mid, depth, c) {
            return m;
        }
    }
    if !c.json && !c.any.is_empty() && s.msgs[mid].full == "google.protobuf.Any" {
        return any_message(src, s, mid, depth, c);
    }
    let mut m = MMsg::default();
    let dense = src.chance(1, 3);
    for slot in s.slots(mid) {
        let f = slot.f;
        if depth == 0 && f.ty.msg().is_some() && !(s.is_map(f) && s.entry(f).unwrap().1.ty.msg().is_none()) {
            continue;
        }
        if !src.chance(if dense { 5 } else { 2 }, 6) {
            continue;
        }
        if let (Some(o), None) = (f.oneof, slot.ext) {
            let taken = s.msgs[mid].fields.iter().any(|g| g.oneof == Some(o) && m.fields.contains_key(&g.num));
            if taken {
                continue;
            }
        }
        let v = field_value(src, s, f, depth, c);
        if !s.is_absent(&slot, &v) {
            m.fields.insert(f.num, v);
        }
    }
    if c.unknown && src.chance(1, 4) {
        let n = src.range(1, 3);
        for _ in 0..n {
            let num = unknown_number(src, s, mid);
            let u = unknown(src, 2);
            m.unk.entry(num).or_default().push(u);
        }
    }
    m
}

pub fn unknown_number(src: &mut Src, s: &Schema, mid: usize) -> u32 {
    let mut n = [17u32, 1, 2, 15, 16, 2047, 2048, 19500, 536870911, 111][src.below(10)];
    let taken: BTreeSet<u32> = s.slots(mid).iter().map(|x| x.f.num).collect();
    while taken.contains(&n) {
        n = if n >= 536870911 { 1 } else { n + 1 };
    }
    n
}

pub fn unknown(src: &mut Src, depth: usize) -> Unk {
    match src.weighted(&[4, 2, 3, 2, if depth > 0 { 2 } else { 0 }]) {
        0 => Unk::Varint([0, 1, 127, 128, 300, u64::MAX, 1 << 63][src.below(7)]),
        1 => Unk::F32(src.u64() as u32),
        2 => Unk::Len(bytes(src)),
        3 => Unk::F64(src.u64()),
        _ => {
            let n = src.len(3);
            Unk::Group((0..n).map(|_| (1 + src.below(20) as u32, unknown(src, depth - 1))).collect())
        }
    }
}

/// Values of well-known types that their JSON form can express.
fn wkt_value(src: &mut Src, s: &Schema, mid: usize, depth: usize, c: &Vals) -> Option<MMsg> {
    let name = s.msgs[mid].full.strip_prefix("google.protobuf.")?;
    let nz = |m: MMsg| {
        let mut m = m;
        s.normalise(mid, &mut m);
        Some(m)
    };
    match name {
        "Timestamp" => {
            let secs = [0i64, 1, -1, 1_700_000_000, -62135596800, 253402300799, 951782399, 951782400, 68169600 - 1, -2203891200][src.below(10)];
            let nanos = [0, 1, 999_999_999, 500_000_000, 123_456_000, 10][src.below(6)];
            nz(MMsg::default().set(1, MVal::I64(secs)).set(2, MVal::I32(nanos)))
        }
        "Duration" => {
            let secs = [0i64, 1, 3600, 315_576_000_000, 59][src.below(5)];
            let nanos = [0, 1, 999_999_999, 500_000_000, 123_456_000, 10][src.below(6)];
            let sign = if src.chance(1, 2) { -1 } else { 1 };
            let nanos = if secs == 315_576_000_000 { 0 } else { nanos };
            nz(MMsg::default().set(1, MVal::I64(secs * sign)).set(2, MVal::I32(nanos * sign as i32)))
        }
        "FieldMask" => {
            let n = src.len(3);
            let l: Vec<MVal> = (0..n).map(|_| MVal::Str(["a", "foo_bar", "a.b_c.d", "user.display_name", "_a", "a._b_c"][src.below(6)].into())).collect();
            nz(MMsg::default().set(1, MVal::List(l)))
        }
        // prost's own wrapper types do not carry a negative zero
        "FloatValue" => {
            let v = scalar(src, Sc::Float, c.finite);
            nz(MMsg::default().set(1, if v == MVal::F32((-0.0f32).to_bits()) { MVal::F32(0) } else { v }))
        }
        "DoubleValue" => {
            let v = scalar(src, Sc::Double, c.finite);
            nz(MMsg::default().set(1, if v == MVal::F64((-0.0f64).to_bits()) { MVal::F64(0) } else { v }))
        }
        "Struct" | "ListValue" | "Value" => Some(struct_value(src, name, depth.min(3))),
        "Any" => {
            if c.any.is_empty() || src.chance(1, 8) || depth == 0 {
                return Some(MMsg::default());
            }
            Some(any_message(src, s, mid, depth, c))
        }
        _ => None,
    }
}

fn any_message(src: &mut Src, s: &Schema, mid: usize, depth: usize, c: &Vals) -> MMsg {
    if src.chance(1, 12) {
        return MMsg::default();
    }
    let t = *src.pick(&c.any);
    let inner = message(src, s, t, depth.saturating_sub(1), c);
    let mut full = s.msgs[t].full.clone();
    let mut domain = ["type.googleapis.com", "example.com/x", "a_b.c1", "", "https://h.x/y"][src.weighted(&[4, 1, 1, 1, 1])].to_string();
    let mut b = encode(s, t, &inner);
    if c.any_odd && src.chance(1, 4) {
        match src.below(6) {
            0 => full = "no.such.Type".into(),
            1 => b = bytes(src),
            2 => domain = string(src),
            3 => {
                let k = src.below(b.len() + 1);
                b.truncate(k);
            }
            4 => full = string(src),
            _ => domain = "a-b.c".into(),
        }
    }
    let mut m = MMsg::default().set(1, MVal::Str(format!("{domain}/{full}"))).set(2, MVal::Bytes(b));
    s.normalise(mid, &mut m);
    m
}

fn struct_value(src: &mut Src, name: &str, depth: usize) -> MMsg {
    match name {
        "Struct" => {
            let n = src.len(3);
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = string(src);
                m.insert(MKey::Str(k), MVal::Msg(struct_value(src, "Value", depth.saturating_sub(1))));
            }
            if m.is_empty() {
                MMsg::default()
            } else {
                MMsg::default().set(1, MVal::Map(m))
            }
        }
        "ListValue" => {
            let n = src.len(3);
            let l: Vec<MVal> = (0..n).map(|_| MVal::Msg(struct_value(src, "Value", depth.saturating_sub(1)))).collect();
            if l.is_empty() {
                MMsg::default()
            } else {
                MMsg::default().set(1, MVal::List(l))
            }
        }
        _ => match src.weighted(&[2, 2, 2, 2, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
            0 => MMsg::default().set(1, MVal::Enum(0)),
            1 => MMsg::default().set(2, scalar(src, Sc::Double, true)),
            2 => MMsg::default().set(3, MVal::Str(string(src))),
            3 => MMsg::default().set(4, MVal::Bool(src.chance(1, 2))),
            4 => MMsg::default().set(5, MVal::Msg(struct_value(src, "Struct", depth - 1))),
            _ => MMsg::default().set(6, MVal::Msg(struct_value(src, "ListValue", depth - 1))),
        },
    }
}

/// A generated message type to work with, preferring ones with fields.
pub fn root(src: &mut Src, s: &Schema) -> usize {
    let c: Vec<usize> = (0..s.msgs.len())
        .filter(|&m| s.files[s.msgs[m].file].raw.is_none() && !s.msgs[m].map_entry)
        .collect();
    let rich: Vec<usize> = c.iter().copied().filter(|&m| s.slots(m).len() >= 3).collect();
    if !rich.is_empty() && !src.chance(1, 8) {
        *src.pick(&rich)
    } else {
        *src.pick(&c)
    }
}
