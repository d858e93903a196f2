//! Descriptor pools fed by unreliable peers: C02, C03, C04.
use super::*;
use crate::emit::{set_bytes, Emit, Spell};
use crate::engine::catch;
use crate::io::*;
use crate::{ensure, viol};
use prost::Message as _;
use prost_reflect::DescriptorError;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use std::collections::BTreeSet;

pub const REAL: &[&str] = &["prost-reflect DescriptorPool: decoding, name and option resolution, rollback, all descriptor accessors"];
pub const STUB: &[&str] = &["peers that hold and deliver schema files (generated)", "transport buffers"];
pub const ASSUME: &[&str] = &[
    "the harness's schema model and its name resolution follow the protobuf rules",
    "generated schemas are representative",
];

const WKTS: &[&[&str]] = &[&[], &["timestamp", "duration"], &["any", "struct", "wrappers"], &["empty", "field_mask", "type", "api", "source_context", "any"], &["descriptor"]];

pub fn cfg(ctx: &mut Ctx) -> Cfg {
    let wkt = WKTS[ctx.src.weighted(&[8, 1, 1, 1, 1])];
    Cfg {
        files: (1, 5),
        msgs: 1 + ctx.src.below(3),
        fields: 2 + ctx.src.below(5),
        services: true,
        opts: ctx.src.below(2) as u8,
        wkt,
        ..Cfg::default()
    }
}

/// Sends files to a pool in one of the ways it can be told of them.
pub fn deliver(ctx: &mut Ctx, pool: &mut DescriptorPool, files: &[Vec<u8>], bytes_only: bool) -> Result<(), DescriptorError> {
    let mut how = ctx.src.below(if bytes_only { 2 } else { 5 });
    if how >= 2 && files.iter().any(|f| FileDescriptorProto::decode(f.as_slice()).is_err()) {
        how = 0;
    }
    if files.len() != 1 && (how == 0 || how == 3) {
        how = if how == 0 { 1 } else { 2 };
    }
    ctx.count("op", ["file-bytes", "set-bytes", "set", "file", "files"][how]);
    let typed = |b: &Vec<u8>| FileDescriptorProto::decode(b.as_slice()).expect("harness: typed file");
    let fresh = pool.files().len() == 0;
    match how {
        1 if fresh => DescriptorPool::decode(SimBuf::random(&mut ctx.src, &set_bytes(files))).map(|p| *pool = p),
        2 if fresh => DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: files.iter().map(typed).collect() }).map(|p| *pool = p),
        0 => pool.decode_file_descriptor_proto(SimBuf::random(&mut ctx.src, &files[0])),
        1 => pool.decode_file_descriptor_set(SimBuf::random(&mut ctx.src, &set_bytes(files))),
        2 => pool.add_file_descriptor_set(FileDescriptorSet { file: files.iter().map(typed).collect() }),
        3 => pool.add_file_descriptor_proto(typed(&files[0])),
        _ => pool.add_file_descriptor_protos(files.iter().map(typed)),
    }
}

fn all_files(s: &Schema, spell: &Spell) -> Vec<Vec<u8>> {
    (0..s.files.len()).map(|i| Emit { s, spell }.file(i)).collect()
}

/// Looks up names of every kind, existing or not.
fn lookups(ctx: &mut Ctx, p: &DescriptorPool, s: &Schema, have: &[usize]) -> R {
    let has = |f: usize| have.contains(&f);
    let mut names: Vec<String> = Vec::new();
    for f in &s.files {
        names.push(f.package.clone());
        names.push(f.name.clone());
        for sv in &f.services {
            names.push(sv.full.clone());
        }
    }
    names.extend(s.msgs.iter().map(|m| m.full.clone()));
    names.extend(s.enums.iter().map(|m| m.full.clone()));
    names.extend(s.exts.iter().map(|m| m.full.clone()));
    for _ in 0..6 {
        let mut n = ctx.src.pick(&names).clone();
        match ctx.src.below(8) {
            0 => n.insert(0, '.'),
            1 => n.push('x'),
            2 => n = n.rsplit('.').next().unwrap_or("").to_string(),
            3 => n.push_str(".a"),
            4 => n = n.to_uppercase(),
            _ => {}
        }
        let file = s.files.iter().enumerate().any(|(i, m)| m.name == n && has(i));
        ensure!(p.get_file_by_name(&n).is_some() == file, "lookup:file", "lookup of file {n:?} should find: {file}");
        // a leading dot marks a full name
        let dotted = n.clone();
        let n = n.strip_prefix('.').unwrap_or(&n).to_string();
        let msg = s.msgs.iter().any(|m| m.full == n && has(m.file));
        let en = s.enums.iter().any(|m| m.full == n && has(m.file));
        let ext = s.exts.iter().any(|m| m.full == n && has(m.file));
        let svc = s.files.iter().enumerate().any(|(i, m)| has(i) && m.services.iter().any(|x| x.full == n));
        ensure!(p.get_message_by_name(&dotted).is_some() == msg, "lookup:message", "lookup of message {n:?} should find: {msg}");
        ensure!(p.get_enum_by_name(&dotted).is_some() == en, "lookup:enum", "lookup of enum {n:?} should find: {en}");
        ensure!(p.get_extension_by_name(&n).is_some() == ext, "lookup:extension", "lookup of extension {n:?} should find: {ext}");
        ensure!(p.get_service_by_name(&dotted).is_some() == svc, "lookup:service", "lookup of service {n:?} should find: {svc}");
    }
    // members that are not there
    let ms: Vec<usize> = (0..s.msgs.len()).filter(|m| has(s.msgs[*m].file)).collect();
    if !ms.is_empty() {
        let mid = *ctx.src.pick(&ms);
        let d = desc(p, s, mid);
        let m = &s.msgs[mid];
        for n in [1u32, 2, 15, 60, 100, 19000, 536870911, 0, u32::MAX] {
            ensure!(
                d.get_field(n).is_some() == m.fields.iter().any(|f| f.num == n),
                "lookup:field",
                "lookup of field {n} of {}",
                m.full
            );
            let e = s.exts.iter().any(|e| e.extendee == mid && e.field.num == n && has(e.file));
            ensure!(d.get_extension(n).is_some() == e, "lookup:extension-number", "lookup of extension {n} of {}", m.full);
        }
        for n in ["a", "foo", "bar_baz", "barBaz", "key", "value", "Caps", "caps", ""] {
            ensure!(
                d.get_field_by_name(n).is_some() == m.fields.iter().any(|f| f.name == n),
                "lookup:field",
                "lookup of field {n:?} of {} by name",
                m.full
            );
            ensure!(
                d.get_field_by_json_name(n).is_some() == m.fields.iter().any(|f| f.json_name() == n),
                "lookup:field",
                "lookup of field {n:?} of {} by JSON name",
                m.full
            );
        }
        let es: Vec<&Ext> = s.exts.iter().filter(|e| has(e.file)).collect();
        if !es.is_empty() {
            let e = *ctx.src.pick(&es);
            ensure!(
                d.get_extension_by_full_name(&e.full).is_some() == (e.extendee == mid),
                "lookup:extension-of",
                "lookup of extension {} of {}",
                e.full,
                m.full
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

pub const C04: Prop = Prop {
    id: "C04",
    run: c04,
    quick: 60_000,
    thorough: 1_500_000,
    fork: false,
    rule: "a run generates a set of files, delivers it to several pools in different orders, batches and forms with duplicated and premature deliveries, and compares every pool with the model of the files; non-trivial when at least two deliveries were made, distinct by event log",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

struct Node {
    pool: DescriptorPool,
    have: BTreeSet<usize>,
}

fn c04(ctx: &mut Ctx) -> R {
    let c = cfg(ctx);
    let options = true;
    let s = gen::schema(&mut ctx.src, c);
    let n = s.files.len();
    let mut nodes: Vec<Node> = Vec::new();
    // every node is told of the files in its own spelling
    let mut forms: Vec<Vec<Vec<u8>>> = Vec::new();
    let count = 1 + ctx.src.len(2);
    for _ in 0..count {
        let spell = if ctx.src.chance(3, 4) { gen::spell(&mut ctx.src, &s) } else { Spell::default() };
        forms.push(all_files(&s, &spell));
        nodes.push(Node { pool: DescriptorPool::new(), have: BTreeSet::new() });
    }
    let mut form_of: Vec<usize> = (0..count).collect();
    let mut budget = count * (n + 3);
    while nodes.iter().any(|x| x.have.len() < n) {
        let at = {
            let open: Vec<usize> = (0..nodes.len()).filter(|i| nodes[*i].have.len() < n).collect();
            *ctx.src.pick(&open)
        };
        let form = if ctx.src.chance(1, 8) { ctx.src.below(forms.len()) } else { form_of[at] };
        let missing: Vec<usize> = (0..n).filter(|f| !nodes[at].have.contains(f)).collect();
        let mut batch: Vec<usize>;
        if budget == 0 {
            // the network heals: everything that is missing arrives
            batch = missing.clone();
        } else {
            budget -= 1;
            match ctx.src.weighted(&[5, 3, 2, 1]) {
                0 => {
                    let ready: Vec<usize> =
                        missing.iter().copied().filter(|f| s.files[*f].deps.iter().all(|d| nodes[at].have.contains(&d.0))).collect();
                    batch = vec![*ctx.src.pick(&ready)];
                }
                1 => {
                    let f = *ctx.src.pick(&missing);
                    batch = s.closure(f);
                }
                2 => {
                    batch = (0..n).filter(|_| ctx.src.chance(1, 2)).collect();
                }
                _ => {
                    let f = ctx.src.below(n);
                    batch = vec![f];
                }
            }
            if !batch.is_empty() && ctx.src.chance(1, 8) {
                let again = *ctx.src.pick(&batch);
                batch.push(again);
            }
        }
        if ctx.src.chance(1, 2) {
            ctx.src.shuffle(&mut batch);
        }
        let node = &mut nodes[at];
        let new: Vec<usize> = batch.iter().copied().filter(|f| !node.have.contains(f)).collect();
        if new.len() < batch.len() {
            ctx.fault("delivered-again");
        }
        let set: BTreeSet<usize> = new.iter().copied().collect();
        let twice = set.len() < new.len();
        let premature = new.iter().any(|f| s.files[*f].deps.iter().any(|d| !node.have.contains(&d.0) && !set.contains(&d.0)));
        let files: Vec<Vec<u8>> = batch.iter().map(|f| forms[form][*f].clone()).collect();
        ctx.step(format_args!("node {at} gets {batch:?} in form {form}"));
        let r = deliver(ctx, &mut node.pool, &files, false);
        match (&r, twice || premature) {
            (Ok(()), false) => node.have.extend(set),
            (Err(e), true) => {
                ctx.fault(if premature { "premature-delivery" } else { "duplicate-in-batch" });
                ctx.note(format_args!("refused: {e}"));
            }
            (Ok(()), true) => {
                return Err(viol!("accepted", "files {batch:?} were accepted although {}", if premature { "imports are missing" } else { "one is there twice" }))
            }
            (Err(e), false) => return Err(viol!("refused", "valid files {batch:?} were refused: {e:?}")),
        }
        let have: Vec<usize> = nodes[at].have.iter().copied().collect();
        if r.is_err() || ctx.src.chance(1, 3) {
            matches_model(&nodes[at].pool, &s, &have, options, "node")?;
            lookups(ctx, &nodes[at].pool, &s, &have)?;
        }
        if nodes.len() < 4 && ctx.src.chance(1, 8) {
            ctx.count("op", "fork-node");
            let (pool, have) = (nodes[at].pool.clone(), nodes[at].have.clone());
            nodes.push(Node { pool, have });
            form_of.push(form);
        }
        if ctx.src.chance(1, 16) {
            ctx.fault("node-restart");
            let b = nodes[at].pool.encode_to_vec();
            nodes[at].pool = DescriptorPool::decode(SimBuf::random(&mut ctx.src, &b)).map_err(|e| viol!("restart-refused", "stored pool refused: {e:?}"))?;
        }
    }
    let all: Vec<usize> = (0..n).collect();
    for (i, node) in nodes.iter().enumerate() {
        matches_model(&node.pool, &s, &all, options, &format!("node"))?;
        lookups(ctx, &node.pool, &s, &all)?;
        ctx.note(format_args!("node {i} complete"));
    }
    Ok(())
}

// ---------------------------------------------------------------- defects

/// Makes one file of a valid set invalid. Returns what was done, or `None` if it does not apply.
pub fn plant(ctx: &mut Ctx, s: &Schema, fi: usize, spell: &Spell) -> Option<(&'static str, Vec<Vec<u8>>)> {
    if ctx.src.chance(2, 3) {
        return super::defects::plant_more(ctx, s, fi, spell);
    }
    let mut v = s.clone();
    let src = &mut ctx.src;
    let msgs: Vec<usize> = (0..v.msgs.len()).filter(|m| v.msgs[*m].file == fi && !v.msgs[*m].map_entry).collect();
    let enums: Vec<usize> = (0..v.enums.len()).filter(|e| v.enums[*e].file == fi).collect();
    let exts: Vec<usize> = (0..v.exts.len()).filter(|e| v.exts[*e].file == fi).collect();
    let withf: Vec<usize> = msgs.iter().copied().filter(|m| !v.msgs[*m].fields.is_empty()).collect();
    let proto3 = v.files[fi].proto3;
    macro_rules! one {
        ($l:expr) => {{
            if $l.is_empty() {
                return None;
            }
            *src.pick(&$l)
        }};
    }
    let plain = |name: &str, num: u32, ty: Ty| Field {
        name: name.into(),
        json: None,
        num,
        ty,
        label: Label::Optional,
        oneof: None,
        p3opt: false,
        default: None,
        opts: None,
    };
    let free = |v: &Schema, m: usize| {
        (1u32..)
            .find(|n| {
                !v.msgs[m].fields.iter().any(|f| f.num == *n)
                    && !v.msgs[m].ext_ranges.iter().any(|r| (r.0..r.1).contains(n))
                    && !v.msgs[m].reserved.iter().any(|r| (r.0..r.1).contains(n))
            })
            .unwrap()
    };
    let out = |v: &Schema, name: &'static str| Some((name, vec![Emit { s: v, spell }.file(fi)]));
    // edits of the encoded file, for what the model cannot express
    let raw = |name: &'static str, f: &dyn Fn(&mut FileDescriptorProto) -> bool| {
        let mut p = FileDescriptorProto::decode(Emit { s, spell }.file(fi).as_slice()).expect("harness: file");
        if f(&mut p) {
            Some((name, vec![p.encode_to_vec()]))
        } else {
            None
        }
    };
    match src.below(46) {
        0 => {
            let mut b = Emit { s: &v, spell }.file(fi);
            match src.below(4) {
                0 => b.extend([0x0a, 0x7f]),
                1 => b.extend([0x08, 0x01]),
                2 => b.extend([0xff; 11]),
                _ => b.extend([0x0a, 0x02, 0xff, 0xfe]),
            }
            Some(("undecodable", vec![b]))
        }
        1 => raw("unknown-syntax", &|p| {
            p.syntax = Some("proto9".into());
            true
        }),
        2 => raw("unknown-syntax", &|p| {
            p.syntax = Some("editions".into());
            true
        }),
        3 => raw("missing-import", &|p| {
            p.dependency.push("not/there.proto".into());
            true
        }),
        4 => {
            // a message twice
            let m = one!(msgs);
            let k = v.msgs[m].clone();
            let id = v.msgs.len();
            v.msgs.push(Msg { fields: vec![], oneofs: vec![], nested: vec![], enums: vec![], exts: vec![], ..k.clone() });
            match k.parent {
                Some(p) => v.msgs[p].nested.push(id),
                None => v.files[fi].msgs.push(id),
            }
            out(&v, "duplicate-message")
        }
        5 => {
            // the name of something in another file
            let pk = v.files[fi].package.clone();
            let near = v.closure(fi);
            let others: Vec<String> = v
                .msgs
                .iter()
                .filter(|m| m.parent.is_none() && m.file != fi && near.contains(&m.file) && v.files[m.file].package == pk)
                .map(|m| m.name.clone())
                .chain(v.enums.iter().filter(|e| e.parent.is_none() && e.file != fi && near.contains(&e.file) && v.files[e.file].package == pk).map(|e| e.name.clone()))
                .collect();
            if others.is_empty() {
                return None;
            }
            let name = src.pick(&others).clone();
            raw("duplicate-across-files", &|p| {
                p.enum_type.push(prost_types::EnumDescriptorProto {
                    name: Some(name.clone()),
                    value: vec![prost_types::EnumValueDescriptorProto { name: Some("ZERO_Z".into()), number: Some(0), options: None }],
                    ..Default::default()
                });
                true
            })
        }
        6 => {
            let m = one!(withf);
            let f = v.msgs[m].fields[0].name.clone();
            let num = free(&v, m);
            v.msgs[m].fields.push(plain(&f, num, Ty::S(Sc::Int32)));
            out(&v, "duplicate-field")
        }
        7 => {
            let m = one!(withf);
            let k = src.below(v.msgs[m].fields.len());
            let num = v.msgs[m].fields[k].num;
            v.msgs[m].fields.push(plain("zz_new", num, Ty::S(Sc::Int32)));
            out(&v, "duplicate-number")
        }
        8 => {
            let m = one!(withf);
            let k = src.below(v.msgs[m].fields.len());
            let num = free(&v, m);
            let mut f = plain("zz_new", num, Ty::S(Sc::Int32));
            f.json = Some(v.msgs[m].fields[k].json_name());
            v.msgs[m].fields.push(f);
            out(&v, "duplicate-json-name")
        }
        9 => {
            if !proto3 {
                return None;
            }
            let m = one!(withf);
            let k = src.below(v.msgs[m].fields.len());
            let num = free(&v, m);
            let name = format!("{}_", v.msgs[m].fields[k].name.to_uppercase());
            let mut f = plain(&name, num, Ty::S(Sc::Int32));
            f.json = Some("zzJson".into());
            v.msgs[m].fields.push(f);
            out(&v, "duplicate-camel-case")
        }
        10 => {
            let e = one!(enums);
            let allow = v.enums[e].opts.as_ref().is_some_and(|o| o.fields.contains_key(&2));
            if allow {
                return None;
            }
            let num = v.enums[e].values[0].num;
            v.enums[e].values.push(EnumVal { name: "ZZ_DUP".into(), num, opts: None });
            out(&v, "duplicate-enum-number")
        }
        11 => {
            let e = one!(enums);
            let name = v.enums[e].values[0].name.clone();
            v.enums[e].values.push(EnumVal { name, num: 555, opts: None });
            out(&v, "duplicate-enum-value")
        }
        12 | 13 | 14 => {
            let which = ["message", "enum", "either"][src.below(3)];
            raw("unresolvable-type", &|p| {
                for m in &mut p.message_type {
                    let t = match which {
                        "message" => Some(11),
                        "enum" => Some(14),
                        _ => None,
                    };
                    m.field.push(prost_types::FieldDescriptorProto {
                        name: Some("zz_new".into()),
                        number: Some(super::defects::free_number(m)),
                        label: Some(1),
                        r#type: t,
                        type_name: Some([".no.such.Type", "NoSuchType"][(which == "enum") as usize].into()),
                        ..Default::default()
                    });
                    return true;
                }
                false
            })
        }
        15 | 16 => {
            // a type of a file that is not visible
            let vis = v.visible(fi);
            let mut names: Vec<(i32, String)> =
                v.msgs.iter().filter(|m| !vis.contains(&m.file) && !m.map_entry).map(|m| (11, m.full.clone())).collect();
            names.extend(v.enums.iter().filter(|m| !vis.contains(&m.file)).map(|m| (14, m.full.clone())));
            if names.is_empty() {
                return None;
            }
            let (t, name) = src.pick(&names).clone();
            raw("unimported-type", &|p| {
                let Some(m) = p.message_type.first_mut() else { return false };
                m.field.push(prost_types::FieldDescriptorProto {
                    name: Some("zz_new".into()),
                    number: Some(super::defects::free_number(m)),
                    label: Some(1),
                    r#type: Some(t),
                    type_name: Some(format!(".{name}")),
                    ..Default::default()
                });
                true
            })
        }
        17 => {
            // a field where a type is expected
            let m = one!(withf);
            let name = format!(".{}.{}", v.msgs[m].full, v.msgs[m].fields[0].name);
            raw("not-a-type", &|p| {
                let Some(m) = p.message_type.first_mut() else { return false };
                m.field.push(prost_types::FieldDescriptorProto {
                    name: Some("zz_new".into()),
                    number: Some(super::defects::free_number(m)),
                    label: Some(1),
                    r#type: Some(11),
                    type_name: Some(name.clone()),
                    ..Default::default()
                });
                true
            })
        }
        18 | 19 => {
            let m = one!(msgs);
            let num = [0u32, 536870912, 19000, 19999, u32::MAX, i32::MIN as u32][src.below(6)];
            if v.msgs[m].ext_ranges.iter().any(|r| (r.0..r.1).contains(&num)) {
                return None;
            }
            v.msgs[m].fields.push(plain("zz_new", num, Ty::S(Sc::Int32)));
            out(&v, "number-out-of-range")
        }
        20 => {
            let c: Vec<usize> = msgs.iter().copied().filter(|m| !v.msgs[*m].reserved.is_empty()).collect();
            let m = one!(c);
            let (a, b) = v.msgs[m].reserved[0];
            let num = if src.chance(1, 2) { a } else { b - 1 };
            v.msgs[m].fields.push(plain("zz_new", num, Ty::S(Sc::Int32)));
            out(&v, "reserved-number")
        }
        21 => {
            let c: Vec<usize> = msgs.iter().copied().filter(|m| !v.msgs[*m].ext_ranges.is_empty()).collect();
            let m = one!(c);
            let (a, b, _) = v.msgs[m].ext_ranges[0];
            let num = if src.chance(1, 2) { a } else { b - 1 };
            v.msgs[m].fields.push(plain("zz_new", num, Ty::S(Sc::Int32)));
            out(&v, "extension-range-number")
        }
        22 | 23 => {
            let e = one!(exts);
            let t = v.exts[e].extendee;
            let (a, b, _) = v.msgs[t].ext_ranges[0];
            let num = if src.chance(1, 2) { a - 1 } else { b };
            if v.msgs[t].ext_ranges.iter().any(|r| (r.0..r.1).contains(&num)) {
                return None;
            }
            v.exts[e].field.num = num;
            out(&v, "extension-out-of-range")
        }
        24 => raw("extendee-missing", &|p| {
            p.extension.push(prost_types::FieldDescriptorProto {
                name: Some("zz_ext".into()),
                number: Some(100),
                label: Some(1),
                r#type: Some(5),
                extendee: Some(".no.such.Extendee".into()),
                ..Default::default()
            });
            true
        }),
        25 => {
            let e = one!(enums);
            let full = v.enums[e].full.clone();
            raw("extendee-not-a-message", &|p| {
                p.extension.push(prost_types::FieldDescriptorProto {
                    name: Some("zz_ext".into()),
                    number: Some(100),
                    label: Some(1),
                    r#type: Some(5),
                    extendee: Some(format!(".{full}")),
                    ..Default::default()
                });
                true
            })
        }
        26 | 27 | 28 => {
            if proto3 {
                return None;
            }
            let bad: [(i32, &str); 12] = [
                (5, "abc"),
                (5, "2147483648"),
                (13, "-1"),
                (3, "9223372036854775808"),
                (4, "1.5"),
                (8, "yes"),
                (1, "1.2.3"),
                (2, "x"),
                (12, "\\q"),
                (12, "\\400"),
                (17, ""),
                (16, "0y1"),
            ];
            let (t, d) = bad[src.below(bad.len())];
            raw("bad-default", &|p| {
                let Some(m) = p.message_type.first_mut() else { return false };
                m.field.push(prost_types::FieldDescriptorProto {
                    name: Some("zz_new".into()),
                    number: Some(super::defects::free_number(m)),
                    label: Some(1),
                    r#type: Some(t),
                    default_value: Some(d.into()),
                    ..Default::default()
                });
                true
            })
        }
        29 => {
            if proto3 {
                return None;
            }
            let e = one!(enums);
            let full = v.enums[e].full.clone();
            raw("bad-enum-default", &|p| {
                let Some(m) = p.message_type.first_mut() else { return false };
                m.field.push(prost_types::FieldDescriptorProto {
                    name: Some("zz_new".into()),
                    number: Some(super::defects::free_number(m)),
                    label: Some(1),
                    r#type: Some(14),
                    type_name: Some(format!(".{full}")),
                    default_value: Some("NO_SUCH_VALUE".into()),
                    ..Default::default()
                });
                true
            })
        }
        30 | 31 => {
            let k = [0, 1, 5, -1, i32::MAX, i32::MIN][src.below(6)];
            raw("oneof-index", &|p| {
                let Some(m) = p.message_type.first_mut() else { return false };
                let k = if (0..=1).contains(&k) { m.oneof_decl.len() as i32 + k } else { k };
                if (0..m.oneof_decl.len() as i32).contains(&k) {
                    return false;
                }
                m.field.push(prost_types::FieldDescriptorProto {
                    name: Some("zz_new".into()),
                    number: Some(super::defects::free_number(m)),
                    label: Some(1),
                    r#type: Some(5),
                    oneof_index: Some(k),
                    ..Default::default()
                });
                true
            })
        }
        32 => {
            let k = [0, 1, -1, i32::MAX, i32::MIN][src.below(5)];
            raw("import-index", &|p| {
                let k = if (0..=1).contains(&k) { p.dependency.len() as i32 + k } else { k };
                p.public_dependency.push(k);
                true
            })
        }
        33 | 34 | 35 => {
            let which = src.below(6);
            let name = |s: &str, e: bool| prost_types::uninterpreted_option::NamePart { name_part: s.into(), is_extension: e };
            let u = match which {
                0 => prost_types::UninterpretedOption { name: vec![name("no_such_option", false)], positive_int_value: Some(1), ..Default::default() },
                1 => prost_types::UninterpretedOption { name: vec![name("deprecated", false)], positive_int_value: Some(1), ..Default::default() },
                2 => prost_types::UninterpretedOption { name: vec![name("no.such.ext", true)], positive_int_value: Some(1), ..Default::default() },
                3 => prost_types::UninterpretedOption { name: vec![name("deprecated", false), name("x", false)], identifier_value: Some("true".into()), ..Default::default() },
                4 => prost_types::UninterpretedOption { name: vec![name("deprecated", false)], identifier_value: Some("maybe".into()), ..Default::default() },
                _ => prost_types::UninterpretedOption { name: vec![name("deprecated", false)], string_value: Some(b"true".to_vec()), ..Default::default() },
            };
            let at = src.below(4);
            raw("bad-option", &|p| {
                match at {
                    0 => p.options.get_or_insert_with(Default::default).uninterpreted_option.push(u.clone()),
                    1 => {
                        let Some(m) = p.message_type.last_mut() else { return false };
                        m.options.get_or_insert_with(Default::default).uninterpreted_option.push(u.clone())
                    }
                    2 => {
                        let Some(m) = p.message_type.iter_mut().find(|m| !m.field.is_empty()) else { return false };
                        m.field[0].options.get_or_insert_with(Default::default).uninterpreted_option.push(u.clone())
                    }
                    _ => {
                        let Some(m) = p.enum_type.last_mut() else { return false };
                        m.options.get_or_insert_with(Default::default).uninterpreted_option.push(u.clone())
                    }
                }
                true
            })
        }
        36 => raw("empty-enum", &|p| {
            p.enum_type.push(prost_types::EnumDescriptorProto { name: Some("ZzEmpty".into()), ..Default::default() });
            true
        }),
        37 => {
            if !proto3 {
                return None;
            }
            let e = one!(enums);
            v.enums[e].values[0].num = 77;
            out(&v, "proto3-enum-start")
        }
        38 => {
            let c: Vec<usize> = enums.iter().copied().filter(|e| !v.enums[*e].reserved.is_empty()).collect();
            let e = one!(c);
            let num = v.enums[e].reserved[0].0;
            v.enums[e].values.push(EnumVal { name: "ZZ_RES".into(), num, opts: None });
            out(&v, "reserved-enum-number")
        }
        39 => {
            let t = [10, 11, 14][src.below(3)];
            raw("type-name-missing", &|p| {
                let Some(m) = p.message_type.first_mut() else { return false };
                m.field.push(prost_types::FieldDescriptorProto {
                    name: Some("zz_new".into()),
                    number: Some(super::defects::free_number(m)),
                    label: Some(1),
                    r#type: Some(t),
                    ..Default::default()
                });
                true
            })
        }
        40 => {
            let b = Emit { s: &v, spell }.file(fi);
            Some(("file-twice", vec![b.clone(), b]))
        }
        41 => {
            // a message named like a package
            let pk: Vec<String> = v.closure(fi).iter().map(|f| v.files[*f].package.clone()).filter(|p| !p.is_empty()).collect();
            if pk.is_empty() {
                return None;
            }
            let full = src.pick(&pk).clone();
            let (scope, name) = full.rsplit_once('.').unwrap_or(("", &full));
            if scope != v.files[fi].package {
                return None;
            }
            let name = name.to_string();
            raw("name-of-package", &|p| {
                p.message_type.push(prost_types::DescriptorProto { name: Some(name.clone()), ..Default::default() });
                true
            })
        }
        42 => {
            // a package named like a message
            let near: Vec<usize> = v.closure(fi).into_iter().filter(|f| *f != fi).collect();
            let names: Vec<String> = v
                .msgs
                .iter()
                .filter(|m| near.contains(&m.file))
                .map(|m| m.full.clone())
                .chain(v.enums.iter().filter(|m| near.contains(&m.file)).map(|m| m.full.clone()))
                .collect();
            if names.is_empty() {
                return None;
            }
            let full = src.pick(&names).clone();
            if full.starts_with(&v.files[fi].package) {
                return None;
            }
            raw("package-of-name", &|p| {
                if p.extension.is_empty() && p.service.is_empty() {
                    // nothing of the file is referenced relatively
                    *p = FileDescriptorProto { name: p.name.clone(), package: Some(full.clone()), dependency: p.dependency.clone(), ..Default::default() };
                    true
                } else {
                    false
                }
            })
        }
        43 => {
            let which = src.below(3);
            raw("method-type", &|p| {
                p.service.push(prost_types::ServiceDescriptorProto {
                    name: Some("ZzSvc".into()),
                    method: vec![prost_types::MethodDescriptorProto {
                        name: Some("M".into()),
                        input_type: Some(if which == 0 { ".no.Such".into() } else { ".google.no".into() }),
                        output_type: Some(".no.Such".into()),
                        ..Default::default()
                    }],
                    options: None,
                });
                true
            })
        }
        44 => {
            let e = one!(enums);
            let full = v.enums[e].full.clone();
            raw("method-type-not-a-message", &|p| {
                p.service.push(prost_types::ServiceDescriptorProto {
                    name: Some("ZzSvc".into()),
                    method: vec![prost_types::MethodDescriptorProto {
                        name: Some("M".into()),
                        input_type: Some(format!(".{full}")),
                        output_type: Some(format!(".{full}")),
                        ..Default::default()
                    }],
                    options: None,
                });
                true
            })
        }
        _ => {
            let which = src.below(3);
            raw("map-entry", &|p| {
                for m in &mut p.message_type {
                    for n in &mut m.nested_type {
                        if n.options.as_ref().is_some_and(|o| o.map_entry()) {
                            match which {
                                0 => n.field.clear(),
                                1 => {
                                    n.field.remove(0);
                                }
                                _ => {
                                    n.field.pop();
                                }
                            }
                            return true;
                        }
                    }
                }
                false
            })
        }
    }
}

// ---------------------------------------------------------------- C03

pub const C03: Prop = Prop {
    id: "C03",
    run: c03,
    quick: 60_000,
    thorough: 1_500_000,
    fork: false,
    rule: "a run interleaves valid deliveries with deliveries that hold a planted defect, compares every answer of the pool before and after each refusal, and keeps a twin that only ever saw the valid deliveries; non-trivial when at least one delivery was refused, distinct by event log",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

fn c03(ctx: &mut Ctx) -> R {
    let c = cfg(ctx);
    let s = gen::schema(&mut ctx.src, c);
    let n = s.files.len();
    let spell = if ctx.src.chance(1, 2) { gen::spell(&mut ctx.src, &s) } else { Spell::default() };
    let good = all_files(&s, &spell);
    let mut pool = DescriptorPool::new();
    let mut twin = DescriptorPool::new();
    let mut have: BTreeSet<usize> = BTreeSet::new();
    let mut copies: Vec<(DescriptorPool, Vec<String>)> = Vec::new();
    let mut ghosts: Vec<String> = Vec::new();
    let mut before = answers(&pool)?;
    let mut twin_hash = ctx.src.u64();
    let mut budget = n + 6;
    let gens: Vec<usize> = (0..n).filter(|f| s.files[*f].raw.is_none()).collect();
    while budget > 0 {
        budget -= 1;
        match ctx.src.weighted(&[4, 8, 2, 2, 1]) {
            0 => {
                // a valid delivery
                let missing: Vec<usize> = (0..n).filter(|f| !have.contains(f)).collect();
                let Some(&f) = missing.first().map(|_| ctx.src.pick(&missing)) else { continue };
                let batch: Vec<usize> = s.closure(f).into_iter().filter(|f| !have.contains(f)).collect();
                let files: Vec<Vec<u8>> = batch.iter().map(|f| good[*f].clone()).collect();
                ctx.step(format_args!("valid {batch:?}"));
                let save = ctx.src.rec.len();
                let _ = save;
                deliver(ctx, &mut pool, &files, true).map_err(|e| viol!("refused", "valid files {batch:?} refused after failed adds: {e:?}"))?;
                twin.decode_file_descriptor_set(set_bytes(&files).as_slice())
                    .map_err(|e| viol!("refused", "valid files {batch:?} refused by a fresh pool: {e:?}"))?;
                have.extend(batch);
                before = answers(&pool)?;
                same_answers(&before, &answers(&twin)?, "twin")?;
            }
            1 => {
                // an invalid delivery, among valid files
                if gens.is_empty() {
                    continue;
                }
                let missing: Vec<usize> = gens.iter().copied().filter(|f| !have.contains(f)).collect();
                let (fi, fresh_name) = if missing.is_empty() { (*ctx.src.pick(&gens), true) } else { (*ctx.src.pick(&missing), false) };
                let mut scope = s.clone();
                let mut sp = spell.clone();
                if fresh_name {
                    // the defect comes in a new file that builds on the existing ones
                    sp = Spell::default();
                    scope.files[fi].name = "late.proto".into();
                    let old = scope.files[fi].package.clone();
                    let pkg = late_package(ctx, &s);
                    scope.files[fi].package = pkg.clone();
                    let re = |full: &str| {
                        let rest = if old.is_empty() { full } else { &full[old.len() + 1..] };
                        format!("{pkg}.{rest}")
                    };
                    for m in &mut scope.msgs {
                        if m.file == fi {
                            m.full = re(&m.full);
                        }
                    }
                    for m in &mut scope.enums {
                        if m.file == fi {
                            m.full = re(&m.full);
                        }
                    }
                    for m in &mut scope.exts {
                        if m.file == fi {
                            m.full = re(&m.full);
                        }
                    }
                    for m in &mut scope.files[fi].services {
                        m.full = re(&m.full);
                    }
                    scope.index();
                    if ctx.src.chance(1, 2) {
                        // extensions of messages that are already in the pool
                        for _ in 0..2 {
                            extend_existing(ctx, &s, &mut scope, fi, &have);
                        }
                    }
                }
                let Some((what, bad)) = plant(ctx, &scope, fi, &sp) else { continue };
                let mut batch: Vec<usize> = s.closure(fi).into_iter().filter(|f| *f != fi && !have.contains(f)).collect();
                if fresh_name {
                    batch.retain(|f| !have.contains(f));
                }
                // other valid files may come along
                for f in 0..n {
                    if f != fi && !have.contains(&f) && !batch.contains(&f) && ctx.src.chance(1, 4) {
                        for g in s.closure(f) {
                            if g != fi && !have.contains(&g) && !batch.contains(&g) && !s.closure(g).contains(&fi) {
                                batch.push(g);
                            }
                        }
                    }
                }
                let mut files: Vec<Vec<u8>> = batch.iter().map(|f| good[*f].clone()).collect();
                files.extend(bad);
                if ctx.src.chance(1, 3) {
                    ctx.src.shuffle(&mut files);
                }
                ctx.step(format_args!("invalid {what} in file {fi}{} with {batch:?}", if fresh_name { " as a new file" } else { "" }));
                ctx.fault(what);
                let r = deliver(ctx, &mut pool, &files, ctx.thorough || files.len() > 2);
                let e = match r {
                    Ok(()) => return Err(viol!(format!("accepted:{what}"), "a file with the defect {what} was accepted")),
                    Err(e) => e,
                };
                ctx.note(format_args!("refused: {e:?}"));
                let after = answers(&pool)?;
                same_answers(&before, &after, &format!("after-{what}"))?;
                // names of the failed file must not be known
                for m in scope.msgs.iter().filter(|m| m.file == fi) {
                    ghosts.push(m.full.clone());
                    for f in &m.fields {
                        ghosts.push(format!("{}.{}", m.full, f.name));
                    }
                }
                ghosts.extend(scope.enums.iter().filter(|m| m.file == fi).map(|m| m.full.clone()));
                ghosts.extend(scope.exts.iter().filter(|m| m.file == fi).map(|m| m.full.clone()));
                let mut at = scope.files[fi].package.as_str();
                while !at.is_empty() {
                    ghosts.push(at.to_string());
                    at = at.rsplit_once('.').map_or("", |x| x.0);
                }
                let f = &scope.files[fi];
                ensure!(have.contains(&fi) || pool.get_file_by_name(&f.name).is_none(), "ghost:file", "file {} is known after {what}", f.name);
                for e in scope.exts.iter().filter(|e| e.file == fi) {
                    if fresh_name || !have.contains(&fi) {
                        ensure!(pool.get_extension_by_name(&e.full).is_none(), "ghost:extension", "extension {} is known after {what}", e.full);
                        if let Some(d) = pool.get_message_by_name(&s.msgs.get(e.extendee).map_or(String::new(), |m| m.full.clone())) {
                            ensure!(
                                d.get_extension_by_full_name(&e.full).is_none()
                                    && d.extensions().all(|x| x.full_name() != e.full)
                                    && d.get_extension_by_json_name(&format!("[{}]", e.full)).is_none(),
                                "ghost:extension",
                                "extension {} of {} is known after {what}",
                                e.full,
                                d.full_name()
                            );
                        }
                    }
                }
            }
            2 => {
                // probing on copies: both pools must treat a new file alike
                if ghosts.is_empty() {
                    continue;
                }
                let g = ctx.src.pick(&ghosts).clone();
                probe(ctx, &pool, &twin, &g)?;
            }
            3 => {
                copies.push((pool.clone(), before.clone()));
                if copies.len() > 3 {
                    copies.remove(0);
                }
            }
            _ => {
                // the same history under other hash seeds
                twin_hash = mix(&[twin_hash]);
                let b = twin.encode_to_vec();
                let again = DescriptorPool::decode(b.as_slice()).map_err(|e| viol!("twin-refused", "{e:?}"))?;
                same_answers(&answers(&again)?, &before, "reloaded-twin")?;
            }
        }
    }
    // finally everything valid arrives
    let rest: Vec<usize> = (0..n).filter(|f| !have.contains(f)).collect();
    let files: Vec<Vec<u8>> = rest.iter().map(|f| good[*f].clone()).collect();
    ctx.step(format_args!("rest {rest:?}"));
    deliver(ctx, &mut pool, &files, true).map_err(|e| viol!("refused", "valid files {rest:?} refused after failed adds: {e:?}"))?;
    twin.decode_file_descriptor_set(set_bytes(&files).as_slice()).map_err(|e| viol!("refused", "valid files {rest:?} refused by a fresh pool: {e:?}"))?;
    same_answers(&answers(&pool)?, &answers(&twin)?, "twin")?;
    for (p, a) in &copies {
        same_answers(a, &answers(p)?, "copy")?;
    }
    let all: Vec<usize> = (0..n).collect();
    matches_model(&pool, &s, &all, true, "final")
}

/// A package no other file has, though it may look much like one of theirs.
fn late_package(ctx: &mut Ctx, s: &Schema) -> String {
    let all: BTreeSet<&str> = s
        .files
        .iter()
        .map(|f| f.package.as_str())
        .chain(s.msgs.iter().map(|m| m.full.as_str()))
        .chain(s.enums.iter().map(|m| m.full.as_str()))
        .chain(s.exts.iter().map(|m| m.full.as_str()))
        .chain(s.files.iter().flat_map(|f| f.services.iter().map(|v| v.full.as_str())))
        .filter(|n| !n.is_empty())
        .collect();
    let free = |n: &str| !n.is_empty() && !n.ends_with('.') && !all.iter().any(|m| *m == n || m.starts_with(&format!("{n}.")));
    let pks: Vec<&str> = s.files.iter().map(|f| f.package.as_str()).filter(|p| !p.is_empty()).collect();
    if !pks.is_empty() && ctx.src.chance(2, 3) {
        let p = *ctx.src.pick(&pks);
        let n = match ctx.src.below(3) {
            0 => p[..p.len() - 1].to_string(),
            1 => format!("{p}z"),
            _ => format!("{p}.late"),
        };
        if free(&n) {
            return n;
        }
    }
    "late.pkg".into()
}

/// Lets a late file extend messages that are already there.
fn extend_existing(ctx: &mut Ctx, s: &Schema, scope: &mut Schema, fi: usize, have: &BTreeSet<usize>) {
    if s.files[fi].proto3 {
        return;
    }
    let vis = s.visible(fi);
    let c: Vec<usize> = (0..s.msgs.len())
        .filter(|m| {
            let m = &s.msgs[*m];
            m.file != fi && vis.contains(&m.file) && have.contains(&m.file) && !m.ext_ranges.is_empty() && s.files[m.file].raw.is_none()
        })
        .collect();
    if c.is_empty() {
        return;
    }
    let t = *ctx.src.pick(&c);
    let (a, b, _) = s.msgs[t].ext_ranges[0].clone();
    let Some(num) = (a..b.min(a + 60)).rev().find(|n| !scope.exts.iter().any(|e| e.extendee == t && e.field.num == *n)) else { return };
    let id = scope.exts.len();
    let name = format!("late_ext{id}");
    scope.exts.push(Ext {
        field: Field {
            name: name.clone(),
            json: None,
            num,
            ty: Ty::S(Sc::String),
            label: Label::Optional,
            oneof: None,
            p3opt: false,
            default: None,
            opts: None,
        },
        full: format!("{}.{name}", scope.files[fi].package),
        extendee: t,
        file: fi,
        parent: None,
    });
    scope.files[fi].exts.push(id);
}

/// Defines a name on copies of both pools; they must agree on whether it is free.
fn probe(ctx: &mut Ctx, pool: &DescriptorPool, twin: &DescriptorPool, full: &str) -> R {
    let (scope, name) = full.rsplit_once('.').unwrap_or(("", full));
    let mut f = FileDescriptorProto { name: Some("probe.proto".into()), ..Default::default() };
    if !scope.is_empty() {
        f.package = Some(scope.into());
    }
    let kind = ctx.src.below(3);
    match kind {
        0 => f.message_type.push(prost_types::DescriptorProto { name: Some(name.into()), ..Default::default() }),
        1 => f.service.push(prost_types::ServiceDescriptorProto { name: Some(name.into()), ..Default::default() }),
        _ => f.package = Some(full.into()),
    }
    let mut a = pool.clone();
    let mut b = twin.clone();
    let ra = catch(|| a.add_file_descriptor_proto(f.clone()))?;
    let rb = catch(|| b.add_file_descriptor_proto(f.clone()))?;
    ctx.step(format_args!("probe {full} kind {kind}: {:?}", ra.as_ref().err().map(|e| e.to_string())));
    ensure!(
        ra.is_ok() == rb.is_ok(),
        "probe-differs",
        "defining {full} gives {:?} after failed adds and {:?} without them",
        ra.as_ref().err().map(|e| e.to_string()),
        rb.as_ref().err().map(|e| e.to_string())
    );
    if let (Err(x), Err(y)) = (&ra, &rb) {
        ensure!(x.to_string() == y.to_string(), "probe-error-differs", "defining {full} fails with {x} after failed adds and {y} without them");
    }
    same_answers(&answers(&a)?, &answers(&b)?, "probe")
}

// ---------------------------------------------------------------- C02

pub const C02: Prop = Prop {
    id: "C02",
    run: c02,
    quick: 60_000,
    thorough: 1_500_000,
    fork: false,
    rule: "a run grows a tree of pool copies on several threads under a seeded schedule with valid and failing adds, and compares every copy, descriptor and message with what it answered when it was taken; non-trivial when at least two pools existed, distinct by event log",
    real: REAL,
    stub: &["the threads' scheduler (one operation at a time, in seeded order)", "schema files (generated)"],
    assumptions: ASSUME,
};

enum Held {
    Pool(DescriptorPool),
    Msg(MessageDescriptor),
    Message(prost_reflect::DynamicMessage),
    Other(Box<dyn Fn() -> String + Send>),
}

struct Kept {
    what: String,
    held: Held,
    /// answers when it was taken
    then: Vec<String>,
}

fn look(h: &Held) -> R<Vec<String>> {
    Ok(match h {
        Held::Pool(p) => answers(p)?,
        Held::Msg(d) => {
            let mut v = describe(d);
            v.push(format!("{:016x}", digest_lines(&answers(d.parent_pool())?)));
            v
        }
        Held::Message(m) => {
            let d = prost_reflect::ReflectMessage::descriptor(m);
            vec![observe(m)?.to_s(), d.full_name().into(), format!("{:016x}", digest_lines(&answers(d.parent_pool())?)), crate::props::hex(&m.encode_to_vec())]
        }
        Held::Other(f) => vec![f()],
    })
}

fn describe(d: &MessageDescriptor) -> Vec<String> {
    let mut v = vec![
        d.full_name().to_string(),
        d.name().to_string(),
        d.package_name().to_string(),
        d.parent_file().name().to_string(),
        format!("{:?}", d.parent_message()),
        format!("{:?}", d.path()),
        format!("{:?}", d.is_map_entry()),
    ];
    v.extend(d.fields().map(|f| format!("{f:?} {:?} {:?} {:?}", f.json_name(), f.default_value(), f.options())));
    v.extend(d.oneofs().map(|f| format!("{f:?} {:?}", f.options())));
    v.extend(d.extensions().map(|f| format!("{f:?}")));
    v.extend(d.child_messages().map(|f| f.full_name().to_string()));
    v.extend(d.child_enums().map(|f| format!("{f:?} {:?}", f.values().map(|v| v.number()).collect::<Vec<_>>())));
    v.extend(d.child_extensions().map(|f| format!("{f:?}")));
    v
}

fn c02(ctx: &mut Ctx) -> R {
    let c = cfg(ctx);
    let s = gen::schema(&mut ctx.src, c);
    let n = s.files.len();
    let good = all_files(&s, &Spell::default());
    let mut pools: Vec<(DescriptorPool, BTreeSet<usize>)> = vec![(DescriptorPool::new(), BTreeSet::new())];
    let mut kept: Vec<Kept> = Vec::new();
    let steps = 6 + ctx.src.below(14);
    for k in 0..steps {
        let at = ctx.src.below(pools.len());
        let threaded = ctx.src.chance(1, 4);
        match ctx.src.weighted(&[6, 3, 3, 4, 1]) {
            0 | 1 => {
                // an add, by this or another thread
                let fail = ctx.src.chance(1, 3);
                let missing: Vec<usize> = (0..n).filter(|f| !pools[at].1.contains(f)).collect();
                let Some(&f) = missing.first().map(|_| ctx.src.pick(&missing)) else { continue };
                let batch: Vec<usize> = if ctx.src.chance(2, 3) { s.closure(f) } else { (0..n).collect() };
                let batch: Vec<usize> = batch.into_iter().filter(|f| !pools[at].1.contains(f)).collect();
                let mut files: Vec<Vec<u8>> = batch.iter().map(|f| good[*f].clone()).collect();
                let mut what = "";
                if fail {
                    if s.files[f].raw.is_some() {
                        continue;
                    }
                    let Some((w, bad)) = plant(ctx, &s, f, &Spell::default()) else { continue };
                    what = w;
                    files = s.closure(f).into_iter().filter(|g| *g != f && !pools[at].1.contains(g)).map(|g| good[g].clone()).collect();
                    files.extend(bad);
                    ctx.fault("failing-add");
                }
                ctx.step(format_args!("{k}: pool {at} adds {batch:?} {what} thread {threaded}"));
                let mut p = std::mem::take(&mut pools[at].0);
                let r;
                if threaded {
                    ctx.count("op", "add-on-other-thread");
                    let bytes = set_bytes(&files);
                    let (q, x) = std::thread::spawn(move || {
                        let x = catch(|| p.decode_file_descriptor_set(bytes.as_slice()));
                        (p, x)
                    })
                    .join()
                    .map_err(|_| viol!("harness", "harness: thread"))?;
                    p = q;
                    r = x?;
                } else {
                    r = deliver(ctx, &mut p, &files, false);
                }
                pools[at].0 = p;
                if fail {
                    ensure!(r.is_err(), format!("accepted:{what}"), "a file with the defect {what} was accepted");
                } else {
                    r.map_err(|e| viol!("refused", "valid files refused: {e:?}"))?;
                    pools[at].1.extend(batch);
                }
                let have: Vec<usize> = pools[at].1.iter().copied().collect();
                if ctx.src.chance(1, 2) {
                    matches_model(&pools[at].0, &s, &have, true, "pool")?;
                }
            }
            2 => {
                if pools.len() < 5 {
                    ctx.step(format_args!("{k}: copy of pool {at}"));
                    let (p, h) = (pools[at].0.clone(), pools[at].1.clone());
                    pools.push((p, h));
                } else {
                    ctx.step(format_args!("{k}: pool {at} dropped"));
                    pools.remove(at);
                }
            }
            3 => {
                // something is taken and kept
                let p = pools[at].0.clone();
                let (what, held) = match ctx.src.below(8) {
                    0 => ("pool".to_string(), Held::Pool(p)),
                    1 | 2 => {
                        let all: Vec<MessageDescriptor> = p.all_messages().collect();
                        if all.is_empty() {
                            continue;
                        }
                        let d = ctx.src.pick(&all).clone();
                        (format!("descriptor {}", d.full_name()), Held::Msg(d))
                    }
                    3 => {
                        let c: Vec<usize> = (0..s.msgs.len())
                            .filter(|m| pools[at].1.contains(&s.msgs[*m].file) && !s.msgs[*m].map_entry && s.files[s.msgs[*m].file].raw.is_none())
                            .collect();
                        if c.is_empty() {
                            continue;
                        }
                        let mid = *ctx.src.pick(&c);
                        // only what this pool knows
                        let mut sub = s.clone();
                        sub.exts.retain(|e| pools[at].1.contains(&e.file));
                        let m = gen::message(&mut ctx.src, &sub, mid, 2, &gen::Vals::default());
                        let dm = to_dyn(&sub, desc(&p, &sub, mid), mid, &m);
                        (format!("message {}", s.msgs[mid].full), Held::Message(dm))
                    }
                    4 => {
                        let fs: Vec<_> = p.files().collect();
                        if fs.is_empty() {
                            continue;
                        }
                        let f = ctx.src.pick(&fs).clone();
                        let name = f.name().to_string();
                        (
                            format!("file {name}"),
                            Held::Other(Box::new(move || {
                                format!(
                                    "{f:?} {:?} {:?} {:?} {}",
                                    f.dependencies().map(|d| d.name().to_string()).collect::<Vec<_>>(),
                                    f.messages().map(|d| d.full_name().to_string()).collect::<Vec<_>>(),
                                    f.extensions().map(|d| d.full_name().to_string()).collect::<Vec<_>>(),
                                    crate::props::hex(&f.encode_to_vec())
                                )
                            })),
                        )
                    }
                    5 => {
                        let es: Vec<_> = p.all_enums().collect();
                        if es.is_empty() {
                            continue;
                        }
                        let e = ctx.src.pick(&es).clone();
                        let name = e.full_name().to_string();
                        (
                            format!("enum {name}"),
                            Held::Other(Box::new(move || {
                                format!("{e:?} {:?} {:?}", e.values().map(|v| (v.name().to_string(), v.number())).collect::<Vec<_>>(), e.parent_pool().files().len())
                            })),
                        )
                    }
                    6 => {
                        let es: Vec<_> = p.all_extensions().collect();
                        if es.is_empty() {
                            continue;
                        }
                        let e = ctx.src.pick(&es).clone();
                        let name = e.full_name().to_string();
                        (
                            format!("extension {name}"),
                            Held::Other(Box::new(move || {
                                let m = e.containing_message();
                                format!(
                                    "{e:?} {:?} {} {:?} {:?}",
                                    e.default_value(),
                                    m.full_name(),
                                    m.extensions().map(|x| x.full_name().to_string()).collect::<Vec<_>>(),
                                    e.kind()
                                )
                            })),
                        )
                    }
                    _ => {
                        let es: Vec<_> = p.services().collect();
                        if es.is_empty() {
                            continue;
                        }
                        let e = ctx.src.pick(&es).clone();
                        let name = e.full_name().to_string();
                        (
                            format!("service {name}"),
                            Held::Other(Box::new(move || {
                                format!("{e:?} {:?}", e.methods().map(|m| (m.full_name().to_string(), m.input().full_name().to_string(), m.output().full_name().to_string())).collect::<Vec<_>>())
                            })),
                        )
                    }
                };
                let then = look(&held)?;
                ctx.step(format_args!("{k}: kept {what} of pool {at}"));
                kept.push(Kept { what, held, then });
                if kept.len() > 6 {
                    let gone = ctx.src.below(kept.len());
                    kept.remove(gone);
                }
            }
            _ => {
                // another thread looks at what is kept
                if let Some(kp) = kept.pop() {
                    ctx.step(format_args!("{k}: another thread looks at {}", kp.what));
                    let (now, kp) = std::thread::spawn(move || {
                        let now = catch(|| look(&kp.held));
                        (now, kp)
                    })
                    .join()
                    .map_err(|_| viol!("harness", "harness: thread"))?;
                    same_answers(&kp.then, &now??, "kept")?;
                    kept.push(kp);
                }
            }
        }
        if !kept.is_empty() && ctx.src.chance(1, 2) {
            let i = ctx.src.below(kept.len());
            same_answers(&kept[i].then, &look(&kept[i].held)?, "kept")?;
        }
    }
    for kp in &kept {
        same_answers(&kp.then, &look(&kp.held)?, "kept")?;
    }
    for (p, have) in &pools {
        let have: Vec<usize> = have.iter().copied().collect();
        matches_model(p, &s, &have, true, "pool")?;
    }
    Ok(())
}
