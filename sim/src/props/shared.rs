//! Threads over the process-wide pool: C01.
use super::pools::ASSUME;
use super::*;
use crate::sched::{self, clock, in_lib, End};
use crate::{ensure, viol};
use prost::bytes::Buf;
use prost::Message;
use prost_reflect::{Kind, ReflectMessage};
use prost_types::field_descriptor_proto::{Label, Type as T};
use prost_types::{
    descriptor_proto, Any, DescriptorProto, EnumDescriptorProto, EnumValueDescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet,
    MethodDescriptorProto, ServiceDescriptorProto, Struct, Timestamp,
};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::{Arc, Mutex};

pub const C01: Prop = Prop {
    id: "C01",
    run: c01,
    quick: 25_000,
    thorough: 1_500_000,
    fork: true,
    rule: "a run is a fresh process in which 2 to 5 client threads, scheduled one at a time by the seed (random, priority-based or round-robin; preemption at lock and first-use points, buffer reads and after a chosen number of allocations), add files and sets to the process-wide pool, take copies of it, change their copies and use self-registering types; the history must be linearizable against a model of the pool; non-trivial when at least two turns were taken, distinct by event log",
    real: &["DescriptorPool::global, decode_global_file_descriptor_set, add_global_file_descriptor_proto, descriptor() of the library's and of derived types, the pool they share"],
    stub: &["thread scheduler (real threads, released one at a time)", "std::sync as seen by derived code and by descriptor/global.rs (hooked)", "callers' buffers"],
    assumptions: ASSUME,
};

// ---------------------------------------------------------------- the model of a file

#[derive(Debug, Clone, Default)]
struct Spec {
    name: String,
    deps: Vec<String>,
    public: Vec<String>,
    syms: BTreeSet<String>,
    msgs: BTreeSet<String>,
    refs: BTreeSet<String>,
    exts: Vec<(String, i32)>,
    raw: FileDescriptorProto,
}

fn spec(f: &FileDescriptorProto) -> Spec {
    let mut s = Spec { name: f.name().into(), deps: f.dependency.clone(), raw: f.clone(), ..Spec::default() };
    s.public = f.public_dependency.iter().map(|i| f.dependency[*i as usize].clone()).collect();
    let pre = if f.package().is_empty() { String::new() } else { format!("{}.", f.package()) };
    fn field(s: &mut Spec, x: &FieldDescriptorProto) {
        if x.type_name.is_some() {
            s.refs.insert(x.type_name()[1..].to_string());
        }
        if x.extendee.is_some() {
            s.refs.insert(x.extendee()[1..].to_string());
            s.exts.push((x.extendee()[1..].to_string(), x.number()));
        }
    }
    fn enum_(s: &mut Spec, pre: &str, e: &EnumDescriptorProto) {
        s.syms.insert(format!("{pre}{}", e.name()));
        for v in &e.value {
            s.syms.insert(format!("{pre}{}", v.name()));
        }
    }
    fn msg(s: &mut Spec, pre: &str, m: &DescriptorProto) {
        let full = format!("{pre}{}", m.name());
        let p = format!("{full}.");
        s.msgs.insert(full.clone());
        s.syms.insert(full);
        for x in &m.field {
            s.syms.insert(format!("{p}{}", x.name()));
            field(s, x);
        }
        for o in &m.oneof_decl {
            s.syms.insert(format!("{p}{}", o.name()));
        }
        for x in &m.extension {
            s.syms.insert(format!("{p}{}", x.name()));
            field(s, x);
        }
        for x in &m.nested_type {
            msg(s, &p, x);
        }
        for x in &m.enum_type {
            enum_(s, &p, x);
        }
    }
    for m in &f.message_type {
        msg(&mut s, &pre, m);
    }
    for e in &f.enum_type {
        enum_(&mut s, &pre, e);
    }
    for x in &f.extension {
        s.syms.insert(format!("{pre}{}", x.name()));
        field(&mut s, x);
    }
    for v in &f.service {
        s.syms.insert(format!("{pre}{}", v.name()));
        for m in &v.method {
            s.syms.insert(format!("{pre}{}.{}", v.name(), m.name()));
            s.refs.insert(m.input_type()[1..].to_string());
            s.refs.insert(m.output_type()[1..].to_string());
        }
    }
    s
}

struct Universe {
    all: Vec<Spec>,
    /// the library's own files, present from the start
    base: Vec<Spec>,
    types: Vec<(usize, Vec<usize>)>,
}

/// The files added so far, oldest first.
type Pool = Vec<u16>;

impl Universe {
    fn file<'a>(&'a self, p: &[u16], batch: &[usize], name: &str) -> Option<&'a Spec> {
        let b = batch.iter().map(|i| &self.all[*i]).find(|s| s.name == name);
        b.or_else(|| p.iter().map(|i| &self.all[*i as usize]).find(|s| s.name == name)).or_else(|| self.base.iter().find(|s| s.name == name))
    }
    fn visible(&self, p: &[u16], batch: &[usize], f: &Spec, sym: &str) -> bool {
        let mut todo: Vec<&str> = f.deps.iter().map(String::as_str).collect();
        let mut seen: HashSet<&str> = HashSet::new();
        if f.syms.contains(sym) {
            return true;
        }
        while let Some(d) = todo.pop() {
            if !seen.insert(d) {
                continue;
            }
            if let Some(s) = self.file(p, batch, d) {
                if s.syms.contains(sym) {
                    return true;
                }
                todo.extend(s.public.iter().map(String::as_str));
            }
        }
        false
    }
    /// The pool after the add; None when it must fail.
    fn add(&self, p: &Pool, batch: &[usize]) -> Option<Pool> {
        let have = |n: &str| self.file(p, &[], n).is_some();
        let new: Vec<usize> = batch.iter().copied().filter(|i| !have(&self.all[*i].name)).collect();
        let mut out = p.clone();
        for (k, &i) in new.iter().enumerate() {
            let f = &self.all[i];
            let earlier = new[..k].iter().map(|i| &self.all[*i]);
            let others = || p.iter().map(|i| &self.all[*i as usize]).chain(self.base.iter()).chain(earlier.clone());
            if earlier.clone().any(|e| e.name == f.name)
                || f.deps.iter().any(|d| self.file(p, &new, d).is_none())
                || others().any(|e| !e.syms.is_disjoint(&f.syms))
                || f.refs.iter().any(|r| !self.visible(p, &new, f, r))
                || others().any(|e| e.exts.iter().any(|x| f.exts.contains(x)))
            {
                return None;
            }
            out.push(i as u16);
        }
        Some(out)
    }
}

fn f(name: &str, n: i32, ty: T, to: Option<&str>) -> FieldDescriptorProto {
    FieldDescriptorProto {
        name: Some(name.into()),
        number: Some(n),
        label: Some(Label::Optional as i32),
        r#type: Some(ty as i32),
        type_name: to.map(|t| format!(".{t}")),
        json_name: Some(name.into()),
        ..Default::default()
    }
}

fn base_files() -> Vec<Spec> {
    let s = FileDescriptorSet::decode(typed::SET).expect("harness: the well-known types");
    s.file.iter().filter(|f| f.name().starts_with("google/protobuf/")).map(spec).collect()
}

/// Files 0..n are good; then variants of them that conflict, are incomplete or broken.
fn universe(src: &mut Src) -> (Universe, usize, Vec<&'static str>) {
    let n = src.range(2, 6);
    let mut all = Vec::new();
    let mut kinds = Vec::new();
    let mut firsts: Vec<String> = Vec::new();
    let mut deps_of: Vec<Vec<usize>> = Vec::new();
    for i in 0..n {
        let pkg = ["w", "w.p", "w.p.q", ""][src.below(4)];
        let deps: Vec<usize> = (0..i).filter(|_| src.chance(1, 2)).collect();
        let mut x = FileDescriptorProto { name: Some(format!("u{i}.proto")), syntax: Some("proto2".into()), ..Default::default() };
        if !pkg.is_empty() {
            x.package = Some(pkg.into());
        }
        let full = |m: &str| if pkg.is_empty() { m.to_string() } else { format!("{pkg}.{m}") };
        for &d in &deps {
            if src.chance(1, 4) {
                x.public_dependency.push(x.dependency.len() as i32);
            }
            x.dependency.push(format!("u{d}.proto"));
        }
        if src.chance(1, 4) {
            x.dependency.push("google/protobuf/timestamp.proto".into());
        }
        let k = src.range(1, 3);
        for j in 0..k {
            let mut m = DescriptorProto { name: Some(format!("M{i}x{j}")), ..Default::default() };
            m.field.push(f("a", 1, T::Int32, None));
            for (q, &d) in deps.iter().enumerate() {
                m.field.push(f(&format!("d{d}"), 2 + q as i32, T::Message, Some(&firsts[d])));
            }
            if x.dependency.iter().any(|d| d.starts_with("google")) {
                m.field.push(f("ts", 20, T::Message, Some("google.protobuf.Timestamp")));
            }
            m.extension_range.push(descriptor_proto::ExtensionRange { start: Some(100), end: Some(200), options: None });
            x.message_type.push(m);
        }
        if src.chance(1, 3) {
            x.enum_type.push(EnumDescriptorProto {
                name: Some(format!("E{i}")),
                value: vec![EnumValueDescriptorProto { name: Some(format!("E{i}_ZERO")), number: Some(0), options: None }],
                ..Default::default()
            });
        }
        let first = full(&format!("M{i}x0"));
        for &d in &deps {
            if src.chance(1, 3) {
                let mut e = f(&format!("e{i}x{d}"), 100 + i as i32, T::String, None);
                e.extendee = Some(format!(".{}", firsts[d]));
                x.extension.push(e);
            }
        }
        if src.chance(1, 4) {
            x.service.push(ServiceDescriptorProto {
                name: Some(format!("S{i}")),
                method: vec![MethodDescriptorProto {
                    name: Some("Do".into()),
                    input_type: Some(format!(".{first}")),
                    output_type: Some(format!(".{first}")),
                    ..Default::default()
                }],
                ..Default::default()
            });
        }
        firsts.push(first);
        deps_of.push(deps);
        all.push(spec(&x));
        kinds.push("good");
    }
    // variants
    for _ in 0..src.range(1, 5) {
        let i = src.below(n);
        let mut x = all[i].raw.clone();
        let id = all.len();
        match src.below(6) {
            0 => {
                // same name, other content
                x.message_type[0].name = Some(format!("N{i}"));
                x.extension.clear();
                x.service.clear();
                kinds.push("twin");
            }
            1 => {
                // other name, same content
                x.name = Some(format!("v{id}.proto"));
                kinds.push("clash");
            }
            2 => {
                x.name = Some(format!("v{id}.proto"));
                for (j, m) in x.message_type.iter_mut().enumerate() {
                    m.name = Some(format!("V{id}x{j}"));
                }
                x.enum_type.clear();
                x.service.clear();
                x.extension.clear();
                x.message_type[0].field.push(f("lost", 30, T::Message, Some("w.Nowhere")));
                kinds.push("unresolved");
            }
            3 => {
                x.name = Some(format!("v{id}.proto"));
                for (j, m) in x.message_type.iter_mut().enumerate() {
                    m.name = Some(format!("V{id}x{j}"));
                }
                x.enum_type.clear();
                x.service.clear();
                x.extension.clear();
                x.dependency.push("never.proto".into());
                kinds.push("missing-import");
            }
            4 => {
                // another extension of the same message with the number the file's own uses
                x.name = Some(format!("v{id}.proto"));
                for (j, m) in x.message_type.iter_mut().enumerate() {
                    m.name = Some(format!("V{id}x{j}"));
                }
                x.enum_type.clear();
                x.service.clear();
                for e in &mut x.extension {
                    e.name = Some(format!("ve{id}{}", e.name()));
                }
                kinds.push("extension");
            }
            _ => {
                x = FileDescriptorProto {
                    name: Some(format!("v{id}.proto")),
                    package: Some("google.protobuf".into()),
                    message_type: vec![DescriptorProto { name: Some("Timestamp".into()), ..Default::default() }],
                    ..Default::default()
                };
                kinds.push("clash-with-library");
            }
        }
        all.push(spec(&x));
    }
    // the files of the self-registering types
    let mut u = Universe { all, base: base_files(), types: Vec::new() };
    for (k, bytes) in [simtypes::SHOP, simtypes::OLD, simtypes::BARE].into_iter().enumerate() {
        let set = FileDescriptorSet::decode(bytes).expect("harness: descriptors of the types");
        let mut v = Vec::new();
        for x in &set.file {
            let s = spec(x);
            if u.base.iter().any(|b| b.name == s.name) {
                continue;
            }
            match u.all.iter().position(|o| o.name == s.name) {
                Some(i) => v.push(i),
                None => {
                    v.push(u.all.len());
                    u.all.push(s);
                    kinds.push("type");
                }
            }
        }
        u.types.push((k, v));
    }
    // a file that stands in the way of a type
    if src.chance(1, 3) {
        let (name, pkg, msg) = *src.pick(&[
            ("z.proto", "sim.shop", "Tree"),
            ("z.proto", "sim.old.v1", "Strict"),
            ("z.proto", "", "Bare"),
            ("shop/base.proto", "sim.shop", "Other"),
            ("old.proto", "", "Old"),
        ]);
        let x = FileDescriptorProto {
            name: Some(name.into()),
            package: Some(pkg.into()).filter(|p: &String| !p.is_empty()),
            message_type: vec![DescriptorProto { name: Some(msg.into()), ..Default::default() }],
            ..Default::default()
        };
        u.all.push(spec(&x));
        kinds.push("in-the-way");
    }
    (u, n, kinds)
}

// ---------------------------------------------------------------- programs

#[derive(Clone, Debug)]
enum Buffer {
    Plain,
    Chunks(Vec<usize>),
}

#[derive(Clone, Debug)]
enum Op {
    Decode { batch: Vec<usize>, buf: Buffer, cut: bool, panic_at: Option<usize>, reenter: Option<(usize, Box<Op>)> },
    Add(usize),
    Copy { change: Vec<usize>, keep: bool },
    Use { set: usize, pick: usize },
    Library(usize),
}

struct Entry {
    thread: usize,
    start: u64,
    end: u64,
    what: What,
    after: Option<usize>,
}
enum What {
    Add { batch: Vec<usize>, ok: bool },
    /// nothing happened to the pool
    Nothing,
    Copy(Seen),
    /// registers the files and then finds a message
    Use { batch: Vec<usize>, msg: String, ok: bool },
}

/// What a copy contains.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Seen {
    files: Vec<(String, u64)>,
}

struct Shared {
    u: Universe,
    log: Mutex<Vec<Entry>>,
    bad: Mutex<Vec<Viol>>,
    said: Mutex<Vec<String>>,
    fired: Mutex<Vec<&'static str>>,
    /// what was seen when a descriptor of a type was handed out
    kept: Mutex<Vec<(DescriptorPool, Seen)>>,
}

struct PlanBuf {
    data: Vec<u8>,
    pos: usize,
    ends: Vec<usize>,
    panic_at: Option<usize>,
    reenter: Option<(usize, Box<Op>)>,
    sh: Arc<Shared>,
    t: usize,
}
impl Buf for PlanBuf {
    fn remaining(&self) -> usize {
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        let e = self.ends.iter().copied().find(|e| *e > self.pos).unwrap_or(self.data.len());
        &self.data[self.pos..e]
    }
    fn advance(&mut self, n: usize) {
        self.pos += n;
        if self.ends.contains(&self.pos) {
            in_lib(false, sched::yield_now);
        }
        if self.panic_at.is_some_and(|p| self.pos >= p) {
            in_lib(false, || self.sh.fired.lock().unwrap().push("buffer-panics"));
            std::panic::panic_any(BUF_PANIC);
        }
        if self.reenter.as_ref().is_some_and(|r| self.pos >= r.0) {
            let (_, op) = self.reenter.take().unwrap();
            in_lib(false, || {
                self.sh.fired.lock().unwrap().push("buffer-uses-the-pool");
                perform(&self.sh, self.t, &op)
            });
        }
    }
}

const BUF_PANIC: &str = "simulated buffer panic";

fn sym_hash(msgs: &BTreeSet<String>) -> u64 {
    let mut h = Fnv::default();
    for m in msgs {
        h.bytes(m.as_bytes());
        h.bytes(b",");
    }
    h.0
}

/// The contents of a copy; complains when the copy is not whole.
fn look(u: &Universe, p: &DescriptorPool) -> R<Seen> {
    let mut files = Vec::new();
    let base = u.base.len();
    let mut total = 0;
    let mut exts = 0;
    for (i, file) in p.files().enumerate() {
        let names: BTreeSet<String> = if i < base {
            // the library's own files: only their presence matters here
            total += 0;
            ensure!(u.base.iter().any(|b| b.name == file.name()), "library-file", "file {i} of a copy is {}, the library's own files come first", file.name());
            continue;
        } else {
            let s = spec(file.file_descriptor_proto());
            exts += s.exts.len();
            s.msgs
        };
        total += names.len();
        for m in &names {
            let d = p.get_message_by_name(m);
            let Some(d) = d else { return Err(viol!("torn-copy", "{m} of {} is not found by name", file.name())) };
            ensure!(d.parent_file().name() == file.name(), "torn-copy", "{m} is said to be of {}", d.parent_file().name());
            ensure!(d.parent_pool() == p, "torn-copy", "{m} belongs to another pool");
            for x in d.fields() {
                if let Kind::Message(t) = x.kind() {
                    ensure!(p.get_message_by_name(t.full_name()).is_some_and(|y| y == t), "torn-copy", "{} has an unknown type {}", x.full_name(), t.full_name());
                }
            }
        }
        ensure!(p.get_file_by_name(file.name()).is_some_and(|y| y == file), "torn-copy", "{} is not found by name", file.name());
        files.push((file.name().to_string(), sym_hash(&names)));
    }
    ensure!(p.files().len() >= base, "library-file", "a copy has {} files, fewer than the library's own", p.files().len());
    let of_base: usize = p.files().take(base).map(|f| spec(f.file_descriptor_proto()).msgs.len()).sum();
    ensure!(p.all_messages().len() == of_base + total, "torn-copy", "{} messages in the files, {} in the copy", of_base + total, p.all_messages().len());
    ensure!(p.all_extensions().len() == exts, "torn-copy", "{exts} extensions in the files, {} in the copy", p.all_extensions().len());
    let of: usize = p.all_messages().map(|m| m.extensions().count()).sum();
    ensure!(of == exts, "torn-copy", "{exts} extensions in the files, {of} known to messages");
    Ok(Seen { files })
}

fn set(u: &Universe, batch: &[usize]) -> Vec<u8> {
    FileDescriptorSet { file: batch.iter().map(|i| u.all[*i].raw.clone()).collect() }.encode_to_vec()
}

fn try_lib<X>(g: impl FnOnce() -> X) -> Result<X, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| in_lib(true, g))).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

fn say(sh: &Shared, t: usize, s: String) {
    sh.said.lock().unwrap().push(format!("T{t} {s}"));
}

fn names(u: &Universe, b: &[usize]) -> String {
    b.iter().map(|i| format!("{}#{i}", u.all[*i].name)).collect::<Vec<_>>().join("+")
}

fn perform(sh: &Arc<Shared>, t: usize, op: &Op) {
    let u = &sh.u;
    let bad = |v: Viol| sh.bad.lock().unwrap().push(v);
    let log = |start, what, after| {
        let mut l = sh.log.lock().unwrap();
        l.push(Entry { thread: t, start, end: clock(), what, after });
        l.len() - 1
    };
    sched::yield_now();
    match op {
        Op::Decode { batch, buf, cut, panic_at, reenter } => {
            let mut bytes = set(u, batch);
            if *cut {
                bytes.pop();
                sh.fired.lock().unwrap().push("buffer-cut-short");
            }
            let ends = match buf {
                Buffer::Plain => vec![],
                Buffer::Chunks(e) => e.iter().map(|x| x % (bytes.len() + 1)).collect(),
            };
            let len = bytes.len();
            let start = clock();
            let r = if panic_at.is_none() && reenter.is_none() && ends.is_empty() {
                try_lib(|| DescriptorPool::decode_global_file_descriptor_set(bytes.as_slice()))
            } else {
                let b = PlanBuf {
                    data: bytes,
                    pos: 0,
                    ends,
                    panic_at: panic_at.map(|p| 1 + p % len.max(1)),
                    reenter: reenter.as_ref().map(|(p, o)| (1 + p % len.max(1), o.clone())),
                    sh: sh.clone(),
                    t,
                };
                try_lib(|| DescriptorPool::decode_global_file_descriptor_set(b))
            };
            match r {
                Ok(r) => {
                    say(sh, t, format!("decode {} -> {}", names(u, batch), if r.is_ok() { "ok".into() } else { format!("{:.60}", r.as_ref().unwrap_err().to_string()) }));
                    if *cut {
                        if r.is_ok() {
                            bad(viol!("damaged-set-accepted", "a set whose last byte is missing was accepted"));
                        }
                        log(start, What::Nothing, None);
                    } else {
                        log(start, What::Add { batch: batch.clone(), ok: r.is_ok() }, None);
                    }
                }
                Err(m) if m == BUF_PANIC => {
                    say(sh, t, format!("decode {} -> the buffer panicked", names(u, batch)));
                    log(start, What::Nothing, None);
                }
                Err(m) => bad(viol!("decode-panicked", "adding a set panicked: {m}")),
            }
        }
        Op::Add(i) => {
            let raw = u.all[*i].raw.clone();
            let start = clock();
            match try_lib(|| DescriptorPool::add_global_file_descriptor_proto(raw)) {
                Ok(r) => {
                    say(sh, t, format!("add {} -> {}", names(u, &[*i]), r.is_ok()));
                    log(start, What::Add { batch: vec![*i], ok: r.is_ok() }, None);
                }
                Err(m) => bad(viol!("add-panicked", "adding a file panicked: {m}")),
            }
        }
        Op::Copy { change, keep } => {
            let start = clock();
            match try_lib(DescriptorPool::global) {
                Ok(mut p) => {
                    let end = clock();
                    match look(u, &p) {
                        Ok(s) => {
                            say(sh, t, format!("copy -> {:?}", s.files.iter().map(|x| x.0.as_str()).collect::<Vec<_>>()));
                            {
                                let mut l = sh.log.lock().unwrap();
                                l.push(Entry { thread: t, start, end, what: What::Copy(s.clone()), after: None });
                            }
                            if !change.is_empty() {
                                sched::yield_now();
                                let bytes = set(u, change);
                                let mine = p.clone();
                                match try_lib(|| p.decode_file_descriptor_set(bytes.as_slice())) {
                                    Ok(r) => say(sh, t, format!("own copy + {} -> {}", names(u, change), r.is_ok())),
                                    Err(m) => bad(viol!("decode-panicked", "adding a set to a copy panicked: {m}")),
                                }
                                sched::yield_now();
                                match look(u, &mine) {
                                    Ok(s2) if s2 == s => {}
                                    Ok(s2) => bad(viol!("copy-changed", "a copy held {s:?} and holds {s2:?} after its clone was changed")),
                                    Err(v) => bad(v),
                                }
                                if *keep {
                                    sh.kept.lock().unwrap().push((mine, s));
                                }
                            } else if *keep {
                                sh.kept.lock().unwrap().push((p, s));
                            }
                        }
                        Err(v) => bad(v),
                    }
                }
                Err(m) => bad(viol!("copy-panicked", "taking a copy panicked: {m}")),
            }
        }
        Op::Use { set, pick } => {
            let (msg, get) = TYPES[*set][*pick % TYPES[*set].len()];
            let start = clock();
            let r = try_lib(get);
            let end = clock();
            let batch = u.types[*set].1.clone();
            match r {
                Ok(d) => {
                    if d.full_name() != msg {
                        bad(viol!("wrong-descriptor", "descriptor() of {msg} is that of {}", d.full_name()));
                    }
                    say(sh, t, format!("descriptor() of {msg} -> ok"));
                    let first = {
                        let mut l = sh.log.lock().unwrap();
                        l.push(Entry { thread: t, start, end, what: What::Use { batch, msg: msg.into(), ok: true }, after: None });
                        l.len() - 1
                    };
                    match look(u, d.parent_pool()) {
                        Ok(s) => sh.log.lock().unwrap().push(Entry { thread: t, start, end, what: What::Copy(s), after: Some(first) }),
                        Err(v) => bad(v),
                    }
                }
                Err(m) => {
                    say(sh, t, format!("descriptor() of {msg} -> panicked: {m:.50}"));
                    let mut l = sh.log.lock().unwrap();
                    l.push(Entry { thread: t, start, end, what: What::Use { batch, msg: msg.into(), ok: false }, after: None });
                }
            }
        }
        Op::Library(i) => {
            let (name, get) = LIBRARY[*i % LIBRARY.len()];
            let start = clock();
            match try_lib(get) {
                Ok(d) => {
                    let end = clock();
                    if d.full_name() != name {
                        bad(viol!("wrong-descriptor", "descriptor() of {name} is that of {}", d.full_name()));
                    }
                    say(sh, t, format!("descriptor() of {name} -> ok"));
                    match look(u, d.parent_pool()) {
                        Ok(s) => sh.log.lock().unwrap().push(Entry { thread: t, start, end, what: What::Copy(s), after: None }),
                        Err(v) => bad(v),
                    }
                }
                Err(m) => bad(viol!("library-type-panicked", "descriptor() of {name} panicked: {m}")),
            }
        }
    }
}

type Get = fn() -> MessageDescriptor;
macro_rules! table {
    ($($t:ty => $n:literal),* $(,)?) => { &[$(($n, || ReflectMessage::descriptor(&<$t>::default()))),*] };
}
static TYPES: [&[(&str, Get)]; 3] = {
    use simtypes::bare;
    use simtypes::old::sim::old::v1 as old;
    use simtypes::shop::sim::shop;
    [
        table![shop::Tree => "sim.shop.Tree", shop::Money => "sim.shop.Money", shop::outer::Inner => "sim.shop.Outer.Inner", shop::Known => "sim.shop.Known"],
        table![old::Strict => "sim.old.v1.Strict", old::Legacy => "sim.old.v1.Legacy", old::legacy::M => "sim.old.v1.Legacy.M"],
        table![bare::Bare => "Bare", bare::bare::Hold => "Bare.Hold"],
    ]
};
static LIBRARY: &[(&str, Get)] = table![
    Timestamp => "google.protobuf.Timestamp", Any => "google.protobuf.Any", () => "google.protobuf.Empty",
    Struct => "google.protobuf.Struct", FileDescriptorProto => "google.protobuf.FileDescriptorProto",
];

// ---------------------------------------------------------------- linearizability

struct Search<'a> {
    u: &'a Universe,
    e: &'a [Entry],
    hash: BTreeMap<u16, u64>,
    seen: HashSet<(u64, Pool)>,
    nodes: u64,
}
impl Search<'_> {
    fn seen_of(&self, p: &Pool) -> Seen {
        Seen { files: p.iter().map(|i| (self.u.all[*i as usize].name.clone(), self.hash[i])).collect() }
    }
    fn step(&self, e: &Entry, p: &Pool) -> Option<Pool> {
        match &e.what {
            What::Nothing => Some(p.clone()),
            What::Add { batch, ok } => match (self.u.add(p, batch), ok) {
                (Some(q), true) => Some(q),
                (None, false) => Some(p.clone()),
                _ => None,
            },
            What::Copy(s) => (self.seen_of(p) == *s).then(|| p.clone()),
            What::Use { batch, msg, ok } => {
                let r = self.u.add(p, batch);
                let there = |q: &Pool| q.iter().any(|i| self.u.all[*i as usize].msgs.contains(msg));
                match (r, ok) {
                    (Some(q), true) if there(&q) => Some(q),
                    (Some(q), false) if !there(&q) => Some(q),
                    (None, false) => Some(p.clone()),
                    _ => None,
                }
            }
        }
    }
    /// Some(final states) found, or None.
    fn go(&mut self, done: u64, p: Pool, ends: &mut HashSet<Pool>) {
        if done.count_ones() as usize == self.e.len() {
            ends.insert(p);
            return;
        }
        if self.nodes > 400_000 || !self.seen.insert((done, p.clone())) {
            return;
        }
        self.nodes += 1;
        let left: Vec<usize> = (0..self.e.len()).filter(|i| done >> i & 1 == 0).collect();
        let first_end = left.iter().map(|&i| self.e[i].end).min().unwrap();
        for i in left {
            let e = &self.e[i];
            if e.start > first_end || e.after.is_some_and(|a| done >> a & 1 == 0) {
                continue;
            }
            if let Some(q) = self.step(e, &p) {
                self.go(done | 1 << i, q, ends);
                if !ends.is_empty() {
                    return;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- the run

fn batch(src: &mut Src, u: &Universe, n: usize, k: usize) -> Vec<usize> {
    // files in an order in which imports come first; a variant anywhere
    let mut b: Vec<usize> = (0..n).filter(|_| src.chance(1, 2)).collect();
    if src.chance(1, 2) && k > n {
        let v = n + src.below(k - n);
        let at = src.below(b.len() + 1);
        b.insert(b.len() - at, v);
    }
    if b.is_empty() {
        b.push(src.below(n));
    }
    // mostly complete
    if src.chance(3, 4) {
        let mut add = Vec::new();
        for i in (0..n).rev() {
            let needed = b.iter().chain(&add).any(|x| u.all[*x].deps.contains(&u.all[i].name));
            let there = b.iter().any(|x| u.all[*x].name == u.all[i].name);
            if needed && !there {
                add.push(i);
            }
        }
        add.reverse();
        add.extend(b);
        // imports first
        let rank = |i: &usize| u.all[*i].name.get(1..2).and_then(|c| c.parse::<usize>().ok()).unwrap_or(99);
        let mut good: Vec<usize> = add.iter().copied().filter(|i| *i < n).collect();
        good.sort_by_key(rank);
        let mut it = good.into_iter();
        b = add.iter().map(|i| if *i < n { it.next().unwrap() } else { *i }).collect();
    }
    b
}

fn op(src: &mut Src, u: &Universe, n: usize, k: usize, nested: bool) -> Op {
    let w: &[u32] = if nested { &[2, 2, 4, 2, 1] } else { &[6, 4, 6, 4, 1] };
    match src.weighted(w) {
        0 => {
            let batch = batch(src, u, n, k);
            let buf = if src.chance(1, 2) { Buffer::Chunks((0..src.range(1, 4)).map(|_| src.below(2000)).collect()) } else { Buffer::Plain };
            let trouble = if nested { 0 } else { src.weighted(&[10, 2, 3, 3]) };
            Op::Decode {
                batch,
                buf,
                cut: trouble == 1,
                panic_at: (trouble == 2).then(|| src.below(2000)),
                reenter: (trouble == 3).then(|| (src.below(2000), Box::new(op(src, u, n, k, true)))),
            }
        }
        1 => {
            let mut all: Vec<usize> = (0..k).collect();
            if src.chance(1, 8) {
                all.extend(k..u.all.len());
            }
            Op::Add(*src.pick(&all))
        }
        2 => Op::Copy { change: if src.chance(1, 4) { batch(src, u, n, k) } else { vec![] }, keep: src.chance(1, 2) },
        3 => Op::Use { set: src.below(3), pick: src.below(4) },
        _ => Op::Library(src.below(LIBRARY.len())),
    }
}

fn c01(ctx: &mut Ctx) -> R {
    let (u, n, kinds) = universe(&mut ctx.src);
    let k = kinds.iter().position(|x| *x == "type").unwrap_or(kinds.len());
    let way = kinds.iter().position(|x| *x == "in-the-way");
    let threads = ctx.src.range(2, 5);
    let max_ops = if threads > 3 { 3 } else { 4 };
    let mut programs: Vec<Vec<Op>> = Vec::new();
    for t in 0..threads {
        let mut p = Vec::new();
        for _ in 0..ctx.src.range(1, max_ops) {
            p.push(op(&mut ctx.src, &u, n, k, false));
        }
        if let (Some(w), true) = (way, t == 0) {
            let at = ctx.src.below(p.len() + 1);
            p.insert(at, Op::Add(w));
        }
        programs.push(p);
    }
    for (i, s) in u.all.iter().enumerate().take(k) {
        ctx.note(format_args!("file #{i} {} ({}): {:?} imports {:?}", s.name, kinds[i], s.msgs, s.deps));
    }
    for (t, p) in programs.iter().enumerate() {
        ctx.note(format_args!("T{t}: {p:?}"));
        for o in p {
            ctx.count(
                "op",
                match o {
                    Op::Decode { .. } => "decode-global",
                    Op::Add(_) => "add-global",
                    Op::Copy { .. } => "copy",
                    Op::Use { .. } => "use-self-registering-type",
                    Op::Library(_) => "use-library-type",
                },
            );
        }
    }
    let sh = Arc::new(Shared {
        u,
        log: Mutex::new(vec![]),
        bad: Mutex::new(vec![]),
        said: Mutex::new(vec![]),
        fired: Mutex::new(vec![]),
        kept: Mutex::new(vec![]),
    });
    let bodies: Vec<Box<dyn FnOnce() + Send>> = programs
        .into_iter()
        .enumerate()
        .map(|(t, p)| {
            let sh = sh.clone();
            Box::new(move || {
                for o in &p {
                    perform(&sh, t, o);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let end = sched::run(ctx, bodies);
    for s in sh.said.lock().unwrap().iter() {
        ctx.step(format_args!("{s}"));
    }
    let fired: Vec<&str> = sh.fired.lock().unwrap().clone();
    for f in fired {
        ctx.fault(f);
    }
    if let Some(v) = sh.bad.lock().unwrap().first() {
        return Err(v.clone());
    }
    if let End::Deadlock(who) = end {
        return Err(viol!("deadlock", "no thread can go on: {who}"));
    }
    // everybody is done: the pool is usable, and holds what the history says
    perform(&sh, threads, &Op::Copy { change: vec![], keep: true });
    perform(&sh, threads, &Op::Library(0));
    if let Some(v) = sh.bad.lock().unwrap().first() {
        return Err(v.clone());
    }
    for (p, s) in sh.kept.lock().unwrap().iter() {
        let now = look(&sh.u, p)?;
        ensure!(now == *s, "copy-changed", "a copy held {s:?} when it was taken and holds {now:?} at the end");
    }
    let log = sh.log.lock().unwrap();
    for e in log.iter() {
        let (name, ok) = match &e.what {
            What::Add { ok, .. } => ("add", *ok),
            What::Use { ok, .. } => ("use", *ok),
            What::Nothing => ("nothing", true),
            What::Copy(_) => ("copy", true),
        };
        if !ok {
            ctx.count("fault", if name == "add" { "add-that-must-fail" } else { "registration-that-must-fail" });
            ctx.faults += 1;
        }
    }
    ctx.probe(match log.len() {
        0..=4 => "history-up-to-4",
        5..=9 => "history-up-to-9",
        10..=16 => "history-up-to-16",
        _ => "history-longer",
    });
    if log.len() > 60 {
        ctx.probe("history-too-long");
        return Ok(());
    }
    let hash = sh.u.all.iter().enumerate().map(|(i, s)| (i as u16, sym_hash(&s.msgs))).collect();
    let mut s = Search { u: &sh.u, e: &log, hash, seen: HashSet::new(), nodes: 0 };
    let mut ends = HashSet::new();
    s.go(0, Vec::new(), &mut ends);
    if s.nodes > 400_000 && ends.is_empty() {
        ctx.probe("search-cut-short");
        return Ok(());
    }
    let overlap = log.iter().enumerate().any(|(i, a)| log[i + 1..].iter().any(|b| a.thread != b.thread && a.start < b.end && b.start < a.end));
    if overlap {
        ctx.probe("operations-overlapped");
    }
    ensure!(
        !ends.is_empty(),
        "not-linearizable",
        "no order of the {} operations explains what the threads saw: {}",
        log.len(),
        log.iter().map(|e| format!("[T{} {}..{} {}]", e.thread, e.start, e.end, show(&sh.u, &e.what))).collect::<Vec<_>>().join(" ")
    );
    Ok(())
}

fn show(u: &Universe, w: &What) -> String {
    match w {
        What::Nothing => "failed decode".into(),
        What::Add { batch, ok } => format!("add {} {}", names(u, batch), if *ok { "ok" } else { "failed" }),
        What::Copy(s) => format!("copy {:?}", s.files.iter().map(|x| x.0.as_str()).collect::<Vec<_>>()),
        What::Use { msg, ok, .. } => format!("use {msg} {}", if *ok { "ok" } else { "panicked" }),
    }
}
