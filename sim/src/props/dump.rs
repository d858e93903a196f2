//! Pools written out and reloaded, options interpreted by the writer or by the pool: C06.
use super::*;
use crate::emit::*;
use crate::io::*;
use crate::text::Printer;
use crate::wire::*;
use crate::{ensure, viol};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const C06: Prop = Prop {
    id: "C06",
    run: c06,
    quick: 40_000,
    thorough: 1_500_000,
    fork: false,
    rule: "a run generates files with built-in and custom options on every kind of element, hands them to a pool with the options interpreted or as source options, then dumps and reloads the pool or its files through split buffers, short sinks and truncations, comparing every pool with the model; non-trivial when a dump was reloaded, distinct by event log",
    real: &["prost-reflect DescriptorPool: option interpretation (with the text format parser for aggregates), pool and file encoding, decoding"],
    stub: &["the compiler that writes the files (generated)", "storage of the dumps (split, short and truncated buffers)"],
    assumptions: &["the harness's schema model and its translation of option values into source options follow protoc's rules", "generated schemas are representative"],
};

/// Options as the parser of a compiler leaves them.
struct Source<'a> {
    src: &'a mut crate::core::Src,
    /// the schema that declares the options messages
    s: &'a Schema,
    /// where names are looked up
    names: HashMap<String, gen::Sym>,
    scope: String,
    out: Vec<Vec<u8>>,
    /// where each option ends up within the options message
    paths_to: Vec<Vec<i32>>,
    aggregates: u64,
    paths: u64,
}

#[derive(Clone)]
struct Part(String, bool, Vec<i32>);

impl Source<'_> {
    fn push(&mut self, path: &[Part], number: u32, value: &[u8], varint: bool) {
        let mut b = Vec::new();
        for p in path {
            let mut n = Vec::new();
            put_key(1, 2, &mut n);
            put_len(p.0.as_bytes(), &mut n);
            put_key(2, 0, &mut n);
            n.push(p.1 as u8);
            put_key(2, 2, &mut b);
            put_len(&n, &mut b);
        }
        if varint {
            put_key(number, 0, &mut b);
            b.extend_from_slice(value);
        } else if number == 6 {
            put_key(number, 1, &mut b);
            b.extend_from_slice(value);
        } else {
            put_key(number, 2, &mut b);
            put_len(value, &mut b);
        }
        if path.len() > 1 {
            self.paths += 1;
        }
        self.out.push(b);
        self.paths_to.push(path.iter().flat_map(|p| p.2.iter().copied()).collect());
    }
    fn int(&mut self, path: &[Part], neg: bool, v: u64) {
        let mut b = Vec::new();
        put_varint(v, &mut b);
        self.push(path, if neg { 5 } else { 4 }, &b, true);
    }
    fn float(&mut self, path: &[Part], v: f64) {
        let whole = v.fract() == 0.0 && v.abs() < 9e15 && !(v == 0.0 && v.is_sign_negative());
        if whole && self.src.chance(1, 3) {
            self.int(path, v < 0.0, v as i64 as u64);
        } else {
            self.push(path, 6, &v.to_le_bytes(), false);
        }
    }
    fn aggregate(&mut self, path: &[Part], mid: usize, m: &MMsg) {
        let plain = self.src.chance(1, 3);
        let text = Printer { s: self.s, src: self.src, any: false, plain }.message(mid, m);
        self.aggregates += 1;
        self.push(path, 8, text.as_bytes(), false);
    }
    /// One value of a field, not the field as a whole.
    fn single(&mut self, path: &[Part], ty: Ty, v: &MVal, element: bool) {
        match v {
            MVal::Bool(b) => self.push(path, 3, b.to_string().as_bytes(), false),
            MVal::I32(v) => self.int(path, *v < 0, *v as i64 as u64),
            MVal::I64(v) => self.int(path, *v < 0, *v as u64),
            MVal::U32(v) => self.int(path, false, *v as u64),
            MVal::U64(v) => self.int(path, false, *v),
            MVal::F32(b) => self.float(path, f32::from_bits(*b) as f64),
            MVal::F64(b) => self.float(path, f64::from_bits(*b)),
            MVal::Str(s) => self.push(path, 7, s.as_bytes(), false),
            MVal::Bytes(b) => self.push(path, 7, b, false),
            MVal::Enum(n) => {
                let Ty::E(e) = ty else { panic!("harness: enum option") };
                let names: Vec<&EnumVal> = self.s.enums[e].values.iter().filter(|v| v.num == *n).collect();
                let name = self.src.pick(&names).name.clone();
                self.push(path, 3, name.as_bytes(), false);
            }
            MVal::Msg(m) => {
                let mid = ty.msg().unwrap();
                if element || m.fields.is_empty() || self.src.chance(1, 2) {
                    self.aggregate(path, mid, m);
                } else {
                    self.message(path, mid, m);
                }
            }
            MVal::List(_) | MVal::Map(_) => unreachable!(),
        }
    }
    fn message(&mut self, path: &[Part], mid: usize, m: &MMsg) {
        let mut nums: Vec<u32> = m.fields.keys().copied().collect();
        if self.src.chance(1, 2) {
            self.src.shuffle(&mut nums);
        }
        for n in nums {
            let slot = self.s.slot(mid, n).expect("harness: option");
            let part = match slot.ext {
                None => Part(slot.f.name.clone(), false, vec![n as i32]),
                Some(e) => {
                    let full = self.s.exts[e].full.clone();
                    let c = gen::spellings(&self.names, &self.scope, &full);
                    if c.is_empty() || self.src.chance(1, 2) {
                        Part(format!(".{full}"), true, vec![n as i32])
                    } else {
                        Part(self.src.pick(&c).clone(), true, vec![n as i32])
                    }
                }
            };
            let mut path = path.to_vec();
            path.push(part);
            let ty = slot.f.ty;
            match &m.fields[&n] {
                MVal::List(l) => {
                    for (i, v) in l.iter().enumerate() {
                        let mut path = path.clone();
                        path.last_mut().unwrap().2.push(i as i32);
                        self.single(&path, ty, v, true);
                    }
                }
                MVal::Map(mm) => {
                    for (k, v) in mm {
                        let e = MMsg::default().set(1, k.val()).set(2, v.clone());
                        self.aggregate(&path, ty.msg().unwrap(), &e);
                    }
                }
                v => self.single(&path, ty, v, false),
            }
        }
    }
}

/// The options of every element of the generated files: file, type, element, scope.
fn all_options(s: &Schema) -> Vec<(usize, &'static str, String, String, Opts)> {
    let mut todo: Vec<(usize, &'static str, String, String, Opts)> = Vec::new();
    for (fi, f) in s.files.iter().enumerate() {
        if f.raw.is_some() {
            continue;
        }
        let mut add = |ty: &'static str, key: String, scope: String, o: &Option<Opts>| {
            if let Some(o) = o {
                todo.push((fi, ty, key, scope, o.clone()));
            }
        };
        add(OPT_FILE, format!("file:{}", f.name), f.package.clone(), &f.opts);
        for sv in &f.services {
            add(OPT_SERVICE, sv.full.clone(), sv.full.clone(), &sv.opts);
            for m in &sv.methods {
                let full = format!("{}.{}", sv.full, m.name);
                add(OPT_METHOD, full.clone(), full, &m.opts);
            }
        }
        for m in s.msgs.iter().filter(|m| m.file == fi && !m.map_entry) {
            add(OPT_MSG, m.full.clone(), m.full.clone(), &m.opts);
            for f in &m.fields {
                let full = format!("{}.{}", m.full, f.name);
                add(OPT_FIELD, full.clone(), full, &f.opts);
            }
            for o in &m.oneofs {
                let full = format!("{}.{}", m.full, o.name);
                add(OPT_ONEOF, full.clone(), full, &o.opts);
            }
            for (i, r) in m.ext_ranges.iter().enumerate() {
                add(OPT_RANGE, format!("{}/range{i}", m.full), m.full.clone(), &r.2);
            }
        }
        for e in s.enums.iter().filter(|e| e.file == fi) {
            add(OPT_ENUM, e.full.clone(), e.full.clone(), &e.opts);
            for v in &e.values {
                let scope = match e.full.rsplit_once('.') {
                    Some((a, _)) => format!("{a}.{}", v.name),
                    None => v.name.clone(),
                };
                add(OPT_VALUE, format!("{}/{}", e.full, v.name), scope, &v.opts);
            }
        }
        for e in s.exts.iter().filter(|e| e.file == fi) {
            add(OPT_FIELD, e.full.clone(), e.full.clone(), &e.field.opts);
        }
    }
    todo
}

/// Whether the options of some files only use extensions which those files declare: otherwise
/// how they read depends on what else is there.
fn closed(s: &Schema, files: &[usize]) -> bool {
    let d = if s.find_msg(OPT_FILE).is_some() { s } else { descriptor_schema() };
    let have: BTreeSet<usize> = files.iter().copied().collect();
    all_options(s).iter().all(|(f, ty, _, _, o)| !have.contains(f) || imported(d, d.find_msg(ty).unwrap(), o, &have))
}

/// Turns some of the options of the generated files into source options.
fn source_options(ctx: &mut Ctx, s: &Schema, spell: &mut Spell) -> BTreeMap<usize, Vec<Move>> {
    let mut moves: BTreeMap<usize, Vec<Move>> = BTreeMap::new();
    let d = if s.find_msg(OPT_FILE).is_some() { s } else { descriptor_schema() };
    let todo = all_options(s);
    let all = ctx.src.chance(1, 2);
    let mut names: Option<(usize, HashMap<String, gen::Sym>)> = None;
    for (fi, ty, key, scope, o) in todo {
        if !all && ctx.src.chance(1, 2) {
            continue;
        }
        let mut rest = MMsg::default();
        let mut un = o.clone();
        if ctx.src.chance(1, 4) {
            for n in o.fields.keys() {
                if ctx.src.chance(1, 2) {
                    rest.fields.insert(*n, un.fields.remove(n).unwrap());
                }
            }
        }
        // source options can only use what the file imports
        let vis = s.visible(fi);
        let mid = d.find_msg(ty).unwrap();
        for n in o.fields.keys() {
            let mut probe = MMsg::default();
            if let Some(v) = un.fields.get(n) {
                probe.fields.insert(*n, v.clone());
                if !imported(d, mid, &probe, &vis) {
                    rest.fields.insert(*n, un.fields.remove(n).unwrap());
                }
            }
        }
        if names.as_ref().map(|x| x.0) != Some(fi) {
            names = Some((fi, gen::symbols(s, fi)));
        }
        let mut t = Source { src: &mut ctx.src, s: d, names: names.as_ref().unwrap().1.clone(), scope, out: vec![], paths_to: vec![], aggregates: 0, paths: 0 };
        t.message(&[], mid, &un);
        let (out, to, aggregates, paths) = (t.out, t.paths_to, t.aggregates, t.paths);
        let at = elements(s, fi)[&key].clone();
        for (i, to) in to.into_iter().enumerate() {
            let from = [&at[..], &[999, i as i32]].concat();
            let to = [&at[..], &to[..]].concat();
            // a location of the option itself, and one inside it
            let deeper = ctx.src.chance(1, 4);
            let more = |mut p: Vec<i32>| {
                if deeper {
                    p.push(2);
                }
                p
            };
            moves.entry(fi).or_default().push((more(from), more(to)));
        }
        if !out.is_empty() {
            ctx.count("op", "source-options");
        }
        if aggregates > 0 {
            ctx.probe("aggregate");
        }
        if paths > 0 {
            ctx.probe("option-path");
        }
        for o in &out {
            ctx.note(format_args!("{key}: {}", o.escape_ascii()));
        }
        spell.uninterpreted.insert(key.clone(), out);
        spell.rest.insert(key, rest);
    }
    for (fi, moves) in &mut moves {
        // locations of everything else stay where they are
        for p in elements(s, *fi).into_values() {
            if ctx.src.chance(1, 4) {
                moves.push((p.clone(), p));
            }
        }
        moves.sort();
        let mut info = Vec::new();
        for (i, (from, _)) in moves.iter().enumerate() {
            let mut loc = Vec::new();
            for (n, list) in [(1, &from[..]), (2, &[i as i32, 1, 7][..])] {
                let mut b = Vec::new();
                for x in list {
                    put_varint(*x as u64, &mut b);
                }
                put_key(n, 2, &mut loc);
                put_len(&b, &mut loc);
            }
            put_key(3, 2, &mut loc);
            put_len(format!("loc{i}").as_bytes(), &mut loc);
            put_key(1, 2, &mut info);
            put_len(&loc, &mut info);
        }
        spell.info.insert(*fi, info);
    }
    moves
}

type Move = (Vec<i32>, Vec<i32>);

/// Where the options of every element of a file are, in terms of descriptor paths.
fn elements(s: &Schema, fi: usize) -> BTreeMap<String, Vec<i32>> {
    fn msg(s: &Schema, m: usize, at: &[i32], out: &mut BTreeMap<String, Vec<i32>>) {
        let j = |rest: &[i32]| [at, rest].concat();
        let m = &s.msgs[m];
        out.insert(m.full.clone(), j(&[7]));
        for (i, f) in m.fields.iter().enumerate() {
            out.insert(format!("{}.{}", m.full, f.name), j(&[2, i as i32, 8]));
        }
        for (i, o) in m.oneofs.iter().enumerate() {
            out.insert(format!("{}.{}", m.full, o.name), j(&[8, i as i32, 2]));
        }
        for i in 0..m.ext_ranges.len() {
            out.insert(format!("{}/range{i}", m.full), j(&[5, i as i32, 3]));
        }
        for (i, n) in m.nested.iter().enumerate() {
            msg(s, *n, &j(&[3, i as i32]), out);
        }
        for (i, e) in m.enums.iter().enumerate() {
            enum_(s, *e, &j(&[4, i as i32]), out);
        }
        for (i, e) in m.exts.iter().enumerate() {
            out.insert(s.exts[*e].full.clone(), j(&[6, i as i32, 8]));
        }
    }
    fn enum_(s: &Schema, e: usize, at: &[i32], out: &mut BTreeMap<String, Vec<i32>>) {
        let e = &s.enums[e];
        out.insert(e.full.clone(), [at, &[3]].concat());
        for (i, v) in e.values.iter().enumerate() {
            out.insert(format!("{}/{}", e.full, v.name), [at, &[2, i as i32, 3]].concat());
        }
    }
    let f = &s.files[fi];
    let mut out = BTreeMap::new();
    out.insert(format!("file:{}", f.name), vec![8]);
    for (i, m) in f.msgs.iter().enumerate() {
        msg(s, *m, &[4, i as i32], &mut out);
    }
    for (i, e) in f.enums.iter().enumerate() {
        enum_(s, *e, &[5, i as i32], &mut out);
    }
    for (i, sv) in f.services.iter().enumerate() {
        out.insert(sv.full.clone(), vec![6, i as i32, 3]);
        for (k, m) in sv.methods.iter().enumerate() {
            out.insert(format!("{}.{}", sv.full, m.name), vec![6, i as i32, 2, k as i32, 4]);
        }
    }
    for (i, e) in f.exts.iter().enumerate() {
        out.insert(s.exts[*e].full.clone(), vec![7, i as i32, 8]);
    }
    out
}

/// Source locations must follow the options they describe.
fn check_locations(p: &DescriptorPool, s: &Schema, moves: &BTreeMap<usize, Vec<Move>>) -> R {
    for (fi, moves) in moves {
        let Some(f) = p.get_file_by_name(&s.files[*fi].name) else { continue };
        let info = f.file_descriptor_proto().source_code_info.as_ref();
        let locs = info.map(|i| i.location.as_slice()).unwrap_or(&[]);
        ensure!(locs.len() == moves.len(), "locations", "{} has {} source locations instead of {}", f.name(), locs.len(), moves.len());
        for (i, (l, (from, to))) in locs.iter().zip(moves).enumerate() {
            ensure!(l.leading_comments() == format!("loc{i}") && l.span == [i as i32, 1, 7], "locations", "{}: location {i} is {l:?}", f.name());
            ensure!(l.path == *to, "location-path", "{}: the location of {from:?} is now {:?} instead of {to:?}", f.name(), l.path);
        }
    }
    Ok(())
}

/// Whether every extension a value uses is visible.
fn imported(s: &Schema, mid: usize, m: &MMsg, vis: &BTreeSet<usize>) -> bool {
    fn val(s: &Schema, ty: Ty, v: &MVal, vis: &BTreeSet<usize>) -> bool {
        match v {
            MVal::Msg(m) => imported(s, ty.msg().unwrap(), m, vis),
            MVal::List(l) => l.iter().all(|v| val(s, ty, v, vis)),
            MVal::Map(mm) => {
                let e = ty.msg().unwrap();
                mm.values().all(|v| val(s, s.slot(e, 2).unwrap().f.ty, v, vis))
            }
            _ => true,
        }
    }
    m.fields.iter().all(|(n, v)| {
        let slot = s.slot(mid, *n).unwrap();
        slot.ext.is_none_or(|e| vis.contains(&s.exts[e].file)) && val(s, slot.f.ty, v, vis)
    })
}

/// Dumps through a sink with some room; returns the bytes if they fit.
fn dump(ctx: &mut Ctx, len: usize, f: &dyn Fn(&mut SimBufMut) -> Result<(), prost::EncodeError>) -> R<Option<Vec<u8>>> {
    let short = len > 0 && ctx.src.chance(1, 6);
    let room = if short { ctx.src.below(len) } else { len + [0, 1, 50][ctx.src.below(3)] };
    let ends = cuts(&mut ctx.src, room);
    let mut sink = SimBufMut::new(room, ends);
    let r = f(&mut sink);
    if short {
        ctx.fault("sink-full");
        ensure!(r.is_err(), "short-dump", "a dump of {len} bytes into {room} bytes of room succeeded with {} bytes", sink.written().len());
        Ok(None)
    } else {
        ensure!(r.is_ok(), "dump-refused", "a dump of {len} bytes into {room} bytes of room failed: {r:?}");
        ensure!(sink.written().len() == len, "dump-length", "a dump wrote {} bytes instead of {len}", sink.written().len());
        Ok(Some(sink.written().to_vec()))
    }
}

fn indices(p: &DescriptorPool, s: &Schema) -> Vec<usize> {
    p.files().map(|f| s.files.iter().position(|g| g.name == f.name()).expect("harness: file")).collect()
}

/// The pool is used while more of its files are still to come.
fn early(ctx: &mut Ctx, pool: &mut DescriptorPool, s: &Schema, n: usize, moves: &BTreeMap<usize, Vec<Move>>) -> R {
    let have: Vec<usize> = (0..n).collect();
    let closed = closed(s, &have);
    match ctx.src.below(5) {
        0 => {
            ctx.step(format_args!("dump after {n} files"));
            let b = pool.encode_to_vec();
            let p = DescriptorPool::decode(SimBuf::random(&mut ctx.src, &b)).map_err(|e| viol!("reload-refused", "a dumped pool was refused: {e:?}"))?;
            matches_model(&p, s, &have, closed, "reloaded-early")?;
            check_locations(&p, s, moves)?;
            if ctx.src.chance(1, 2) {
                *pool = p;
            }
        }
        1 => {
            ctx.step(format_args!("dump through a sink after {n} files"));
            let len = pool.encode_to_vec().len();
            if let Some(b) = dump(ctx, len, &|w| pool.encode(w))? {
                let p = DescriptorPool::decode(b.as_slice()).map_err(|e| viol!("reload-refused", "a dumped pool was refused: {e:?}"))?;
                matches_model(&p, s, &have, closed, "reloaded-early")?;
            }
        }
        2 => {
            ctx.step(format_args!("file dumps after {n} files"));
            let mut p = DescriptorPool::new();
            for f in pool.files() {
                p.decode_file_descriptor_proto(f.encode_to_vec().as_slice()).map_err(|e| viol!("reload-refused", "a dumped file was refused: {e:?}"))?;
            }
            matches_model(&p, s, &have, closed, "reloaded-early")?;
        }
        3 => {
            ctx.step(format_args!("questions after {n} files"));
            matches_model(pool, s, &have, closed, "early")?;
        }
        _ => {
            ctx.step(format_args!("copy after {n} files"));
            *pool = pool.clone();
        }
    }
    Ok(())
}

fn c06(ctx: &mut Ctx) -> R {
    let custom = ctx.src.chance(3, 4);
    let c = Cfg {
        files: (1, 4),
        msgs: 1 + ctx.src.below(3),
        fields: 2 + ctx.src.below(4),
        services: true,
        opts: if custom { 2 } else { 1 },
        wkt: if custom { &["descriptor"] } else { &[] },
        ..Cfg::default()
    };
    let s = gen::schema(&mut ctx.src, c);
    let mut spell = if ctx.src.chance(1, 2) { gen::spell(&mut ctx.src, &s) } else { Spell::default() };
    let source = ctx.src.chance(3, 4);
    let moves = if source { source_options(ctx, &s, &mut spell) } else { BTreeMap::new() };
    let all: Vec<usize> = (0..s.files.len()).collect();
    let files: Vec<Vec<u8>> = all.iter().map(|i| Emit { s: &s, spell: &spell }.file(*i)).collect();
    ctx.step(format_args!("{} files, {} options, source {source}", files.len(), if custom { "custom" } else { "built-in" }));
    let mut pool = DescriptorPool::new();
    if ctx.src.chance(1, 2) {
        // in batches; the pool may be written out, copied or asked for anything in between
        let mut at = 0;
        while at < files.len() {
            let n = 1 + if ctx.src.chance(1, 3) { ctx.src.below(files.len() - at) } else { 0 };
            if ctx.src.chance(1, 8) {
                ctx.fault("failing-add");
                let mut junk = files[at].clone();
                junk.push(7);
                ensure!(pool.decode_file_descriptor_proto(junk.as_slice()).is_err(), "accepted", "a file followed by a bad key was accepted");
            }
            if n == 1 {
                let f = &files[at];
                pool.decode_file_descriptor_proto(SimBuf::random(&mut ctx.src, f)).map_err(|e| viol!("refused", "valid file {} was refused: {e:?}", s.files[at].name))?;
            } else {
                let b = set_bytes(&files[at..at + n]);
                pool.decode_file_descriptor_set(SimBuf::random(&mut ctx.src, &b)).map_err(|e| viol!("refused", "valid files were refused: {e:?}"))?;
            }
            at += n;
            if at < files.len() && ctx.src.chance(1, 2) {
                early(ctx, &mut pool, &s, at, &moves)?;
            }
        }
    } else {
        let mut order = files.clone();
        if ctx.src.chance(1, 2) {
            ctx.src.shuffle(&mut order);
        }
        pool.decode_file_descriptor_set(SimBuf::random(&mut ctx.src, &set_bytes(&order))).map_err(|e| viol!("refused", "valid files were refused: {e:?}"))?;
    }
    matches_model(&pool, &s, &all, true, "loaded")?;
    check_locations(&pool, &s, &moves)?;
    let rounds = 1 + ctx.src.len(3);
    for _ in 0..rounds {
        let mut next = DescriptorPool::new();
        match ctx.src.weighted(&[3, 3, 2]) {
            0 => {
                let whole = pool.encode_to_vec();
                let Some(b) = dump(ctx, whole.len(), &|w| pool.encode(w))? else { continue };
                ctx.step(format_args!("pool dump of {} bytes", b.len()));
                next = DescriptorPool::decode(SimBuf::random(&mut ctx.src, &b)).map_err(|e| viol!("reload-refused", "a dumped pool was refused: {e:?}"))?;
            }
            1 => {
                // one dump per file, possibly from different copies
                let mut dumps = Vec::new();
                for f in pool.files() {
                    let whole = f.encode_to_vec();
                    let b = loop {
                        if let Some(b) = dump(ctx, whole.len(), &|w| f.encode(w))? {
                            break b;
                        }
                    };
                    dumps.push((indices(&pool, &s)[dumps.len()], b));
                }
                let mut have: BTreeSet<usize> = BTreeSet::new();
                ctx.step(format_args!("{} file dumps", dumps.len()));
                while !dumps.is_empty() {
                    let k = if ctx.src.chance(1, 3) { ctx.src.below(dumps.len()) } else { 0 };
                    let ready = s.files[dumps[k].0].deps.iter().all(|d| have.contains(&d.0));
                    let r = next.decode_file_descriptor_proto(SimBuf::random(&mut ctx.src, &dumps[k].1));
                    if !ready {
                        ctx.fault("premature-delivery");
                        ensure!(r.is_err(), "accepted", "{} was accepted before its imports", s.files[dumps[k].0].name);
                        continue;
                    }
                    r.map_err(|e| viol!("reload-refused", "a dumped file was refused: {e:?}"))?;
                    have.insert(dumps[k].0);
                    dumps.remove(k);
                }
            }
            _ => {
                // the store loses the end of the dump
                let b = pool.encode_to_vec();
                let cut = ctx.src.below(b.len() + 1);
                ctx.fault("dump-truncated");
                match DescriptorPool::decode(SimBuf::random(&mut ctx.src, &b[..cut])) {
                    Err(e) => {
                        let _ = e.to_string();
                        ctx.note(format_args!("cut at {cut} of {}: refused", b.len()));
                        ensure!(cut < b.len(), "reload-refused", "a whole dump was refused: {e:?}");
                    }
                    Ok(p) => {
                        let got = indices(&p, &s);
                        let stored = indices(&pool, &s);
                        ctx.note(format_args!("cut at {cut} of {}: {} files", b.len(), got.len()));
                        ctx.probe("truncated-prefix");
                        ensure!(stored.starts_with(&got), "truncated-other", "a truncated dump of {stored:?} gives {got:?}");
                        ensure!(cut < b.len() || got == stored, "reload-lost", "a whole dump gives {got:?} instead of {stored:?}");
                        matches_model(&p, &s, &got, closed(&s, &got), "truncated")?;
                        check_locations(&p, &s, &moves)?;
                    }
                }
                continue;
            }
        }
        matches_model(&next, &s, &all, true, "reloaded")?;
        check_locations(&next, &s, &moves)?;
        if ctx.src.chance(1, 3) {
            pool = next;
        }
    }
    Ok(())
}
