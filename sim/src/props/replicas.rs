//! The same workload under different hash seeds: C16.
use super::hostile::{alter, multiply, source_option};
use super::pools::{ASSUME, REAL, STUB};
use super::*;
use crate::emit::{descriptor_schema, set_bytes, Emit};
use crate::engine::{catch, set_hash_seed};
use crate::wire;
use crate::ensure;
use crate::json::J;
use prost::Message as _;
use prost_reflect::{DescriptorError, DynamicMessage, FileDescriptor, ReflectMessage, SerializeOptions, Value};
use std::fmt::Write as _;

pub const C16: Prop = Prop {
    id: "C16",
    run: c16,
    quick: 25_000,
    thorough: 1_500_000,
    fork: false,
    rule: "a run draws up a workload (valid, invalid and damaged schema files, messages, JSON and text documents), carries it out by two or three replicas whose hash maps are seeded differently, and compares every answer of every step; non-trivial when at least two steps were compared, distinct by event log",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

enum Op {
    /// files, all in one set or one by one, to the standing pool or to a fresh one
    Files { files: Vec<Vec<u8>>, whole: Option<Vec<u8>>, fresh: bool },
    /// a type, an encoding
    Bytes { ty: String, b: Vec<u8>, json: (crate::json::Wr, bool), text: super::text::Opt },
    Json { ty: String, text: String, deny: bool },
    Text { ty: String, text: String },
    /// every question about the pool
    Pool,
}

struct Line {
    what: &'static str,
    text: String,
    /// messages to be compared by equality
    msg: Option<DynamicMessage>,
}

/// What an Any holds, whatever the (possibly altered) declaration of Any makes of its fields.
fn any_content(pool: &DescriptorPool, m: &DynamicMessage) -> Option<(String, DynamicMessage)> {
    if m.descriptor().full_name() != "google.protobuf.Any" {
        return None;
    }
    let any: prost_types::Any = m.transcode_to().ok()?;
    let name = any.type_url.rsplit('/').next()?;
    let m = DynamicMessage::decode(pool.get_message_by_name(name)?, any.value.as_slice()).ok()?;
    Some((any.type_url, m))
}

/// What a message holds, with the content of Any expanded so that it does not depend on the
/// order in which map entries were once written.
fn show(pool: &DescriptorPool, m: &DynamicMessage) -> String {
    fn val(pool: &DescriptorPool, v: &Value) -> String {
        match v {
            Value::Message(m) => show(pool, m),
            Value::List(l) => format!("[{}]", l.iter().map(|v| val(pool, v)).collect::<Vec<_>>().join(" ")),
            Value::Map(m) => {
                let mut x: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", format!("{:?}", key_of(k)), val(pool, v))).collect();
                x.sort();
                format!("<{}>", x.join(" "))
            }
            v => {
                let mut s = String::new();
                value_of(v).show(&mut s);
                s
            }
        }
    }
    let mut s = String::from("{");
    if let Some((url, x)) = any_content(pool, m) {
        let _ = write!(s, "{url:?} {}", show(pool, &x));
    } else {
        for (f, v) in m.fields() {
            let _ = write!(s, "{}={} ", f.name(), val(pool, v));
        }
    }
    for (f, v) in m.extensions() {
        let _ = write!(s, "[{}]={} ", f.full_name(), val(pool, v));
    }
    for u in m.unknown_fields() {
        let _ = write!(s, "{:?} ", unk_of(u));
    }
    s.push('}');
    s
}

/// Whether the order of map entries can show.
fn ordered(pool: &DescriptorPool, m: &DynamicMessage) -> bool {
    fn val(pool: &DescriptorPool, v: &Value) -> bool {
        match v {
            Value::Message(m) => ordered(pool, m),
            Value::List(l) => l.iter().all(|v| val(pool, v)),
            Value::Map(m) => m.len() < 2 && m.values().all(|v| val(pool, v)),
            _ => true,
        }
    }
    if let Some((_, x)) = any_content(pool, m) {
        return ordered(pool, &x);
    }
    m.fields().all(|x| val(pool, x.1)) && m.extensions().all(|x| val(pool, x.1))
}

fn has_nan(m: &DynamicMessage) -> bool {
    fn val(v: &Value) -> bool {
        match v {
            Value::F32(x) => x.is_nan(),
            Value::F64(x) => x.is_nan(),
            Value::Message(m) => has_nan(m),
            Value::List(l) => l.iter().any(val),
            Value::Map(m) => m.values().any(val),
            _ => false,
        }
    }
    m.fields().any(|x| val(x.1)) || m.extensions().any(|x| val(x.1))
}

fn describe(e: &DescriptorError) -> String {
    use std::error::Error;
    format!("refused: {e} {e:?} {:?} {:?} {:?} {:?}", e.file(), e.line(), e.column(), e.source().map(|x| x.to_string()))
}

/// The same member under both of its names, and several members spoilt at once, with @type late.
fn unsettle(ctx: &mut Ctx, j: &mut J, pool: &[J]) {
    match j {
        J::Arr(l) => l.iter_mut().for_each(|x| unsettle(ctx, x, pool)),
        J::Obj(l) => {
            if l.iter().any(|x| x.0 == "@type") || ctx.src.chance(1, 4) {
                let n = l.len();
                for k in 0..n {
                    if l[k].0 == "@type" {
                        continue;
                    }
                    match ctx.src.below(6) {
                        0 => {
                            let name = &l[k].0;
                            let other = if name.contains('_') { json_name(name) } else { name.chars().flat_map(|c| if c.is_ascii_uppercase() { vec!['_', c.to_ascii_lowercase()] } else { vec![c] }).collect() };
                            let v = if pool.is_empty() || ctx.src.chance(1, 2) { l[k].1.clone() } else { ctx.src.pick(pool).clone() };
                            l.push((other, v));
                        }
                        1 => {
                            l[k].1 = super::json::junk(&mut ctx.src, 1);
                        }
                        _ => unsettle(ctx, &mut l[k].1, pool),
                    }
                }
                ctx.src.shuffle(l);
                if ctx.src.chance(1, 2) {
                    if let Some(k) = l.iter().position(|x| x.0 == "@type") {
                        let t = l.remove(k);
                        l.push(t);
                    }
                }
            } else {
                l.iter_mut().for_each(|x| unsettle(ctx, &mut x.1, pool));
            }
        }
        _ => {}
    }
}

/// JSON with the members of objects in a fixed order.
fn sorted_json(t: &str) -> String {
    match serde_json::from_str::<serde_json::Value>(t) {
        Ok(v) => {
            fn go(v: &serde_json::Value) -> String {
                match v {
                    serde_json::Value::Object(m) => {
                        let mut x: Vec<String> = m.iter().map(|(k, v)| format!("{k:?}:{}", go(v))).collect();
                        x.sort();
                        format!("{{{}}}", x.join(","))
                    }
                    serde_json::Value::Array(l) => format!("[{}]", l.iter().map(go).collect::<Vec<_>>().join(",")),
                    v => v.to_string(),
                }
            }
            go(&v)
        }
        Err(e) => format!("not JSON: {e}"),
    }
}

fn step(out: &mut Vec<Line>, pool: &mut DescriptorPool, shared: &DescriptorPool, op: &Op) {
    let mut line = |what: &'static str, text: String| out.push(Line { what, text, msg: None });
    match op {
        Op::Files { files, whole, fresh } => {
            let mut target = if *fresh { DescriptorPool::new() } else { std::mem::take(pool) };
            let r = match whole {
                Some(b) => target.decode_file_descriptor_set(b.as_slice()),
                None if files.len() == 1 => target.decode_file_descriptor_proto(files[0].as_slice()),
                None => target.decode_file_descriptor_set(set_bytes(files).as_slice()),
            };
            line(
                "files",
                match &r {
                    Ok(()) => "accepted".into(),
                    Err(e) => describe(e),
                },
            );
            if !*fresh || r.is_ok() {
                *pool = target;
            }
        }
        Op::Pool => {
            match answers(pool) {
                Ok(a) => a.into_iter().for_each(|l| line("answers", l)),
                Err(e) => line("answers", format!("inconsistent: {} {}", e.sig, e.msg)),
            }
            line("pool-bytes", hex_all(&pool.encode_to_vec()));
            line("pool-debug", format!("{pool:?}"));
            let f: Vec<FileDescriptor> = pool.files().collect();
            line("file-debug", format!("{f:?}"));
            let m: Vec<MessageDescriptor> = pool.all_messages().take(40).collect();
            line("message-debug", format!("{m:?}"));
            line("enum-debug", format!("{:?}", pool.all_enums().take(40).collect::<Vec<_>>()));
            line("extension-debug", format!("{:?}", pool.all_extensions().take(40).collect::<Vec<_>>()));
            line("service-debug", format!("{:?}", pool.services().take(40).collect::<Vec<_>>()));
            match DescriptorPool::decode(pool.encode_to_vec().as_slice()) {
                Ok(p) => line("reload", format!("{:?}", p.files().map(|f| f.name().to_string()).collect::<Vec<_>>())),
                Err(e) => line("reload", describe(&e)),
            }
        }
        Op::Bytes { ty, b, json, text } => {
            let Some(d) = pool.get_message_by_name(ty) else {
                line("type", format!("no {ty}"));
                return;
            };
            let m = match DynamicMessage::decode(d, b.as_slice()) {
                Ok(m) => m,
                Err(e) => {
                    line("decode", format!("refused: {e} {e:?}"));
                    return;
                }
            };
            line("decode", show(pool, &m));
            let fixed = ordered(pool, &m);
            let e = m.encode_to_vec();
            line("encoded-len", format!("{} {}", m.encoded_len(), e.len()));
            if fixed {
                line("encode", hex_all(&e));
                line("debug", format!("{m:?}"));
            } else {
                let back = DynamicMessage::decode(m.descriptor(), e.as_slice());
                line("encode-map", back.map_or_else(|e| e.to_string(), |x| show(pool, &x)));
            }
            let (o, sk) = (super::json::real(json.0), json.1);
            let mut buf = Vec::new();
            let r = if sk {
                serde_json::to_writer(&mut buf, &m)
            } else {
                let mut s = serde_json::Serializer::new(&mut buf);
                m.serialize_with_options(&mut s, &o).map(|_| ())
            };
            let t = String::from_utf8_lossy(&buf).to_string();
            match (r, fixed) {
                (Ok(()), true) => line("json", t),
                (Ok(()), false) => line("json-map", sorted_json(&t)),
                (Err(e), true) => line("json-error", e.to_string()),
                (Err(_), false) => line("json-error-map", "refused".into()),
            }
            let t = m.to_text_format_with_options(&text.real());
            if fixed {
                line("text", t);
                line("display", format!("{m} {m:#}"));
            } else {
                let mut bytes = t.clone().into_bytes();
                bytes.sort();
                line("text-map", hex_all(&bytes));
                let back = DynamicMessage::parse_text_format(m.descriptor(), &t);
                // text holding unknown fields cannot be read back
                line("text-map-read", back.map_or_else(|_| "refused".into(), |x| show(pool, &x)));
            }
            if let Some(d) = shared.get_message_by_name(ty) {
                if let Ok(m) = DynamicMessage::decode(d, b.as_slice()) {
                    out.push(Line { what: "equal", text: String::new(), msg: Some(m) });
                }
            }
        }
        Op::Json { ty, text, deny } => {
            let Some(d) = pool.get_message_by_name(ty) else {
                line("type", format!("no {ty}"));
                return;
            };
            let mut de = serde_json::Deserializer::from_str(text);
            let o = prost_reflect::DeserializeOptions::new().deny_unknown_fields(*deny);
            match DynamicMessage::deserialize_with_options(d, &mut de, &o) {
                Ok(m) => line("from-json", show(pool, &m)),
                Err(e) => line("from-json", format!("refused: {e}")),
            }
        }
        Op::Text { ty, text } => {
            let Some(d) = pool.get_message_by_name(ty) else {
                line("type", format!("no {ty}"));
                return;
            };
            match DynamicMessage::parse_text_format(d, text) {
                Ok(m) => line("from-text", show(pool, &m)),
                Err(e) => line("from-text", format!("refused: {e} {e:?}")),
            }
        }
    }
}

fn hex_all(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

fn replica(seed: u64, plan: &[Op], shared: &DescriptorPool) -> Vec<(usize, Line)> {
    set_hash_seed(seed);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || {
                let mut pool = DescriptorPool::new();
                let mut all = Vec::new();
                for (i, op) in plan.iter().enumerate() {
                    let mut out = Vec::new();
                    let r = catch(|| step(&mut out, &mut pool, shared, op));
                    all.extend(out.into_iter().map(|l| (i, l)));
                    if let Err(v) = r {
                        all.push((i, Line { what: "panic", text: v.sig, msg: None }));
                    }
                }
                all
            })
            .expect("spawn replica")
            .join()
            .expect("harness: replica")
    })
}

fn first_diff(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|x| x.0 == x.1).count();
    let cut = |t: &str| {
        let mut from = k.saturating_sub(40);
        while !t.is_char_boundary(from) {
            from -= 1;
        }
        t[from..].chars().take(160).collect::<String>()
    };
    format!("…{} / …{}", cut(a), cut(b))
}

fn c16(ctx: &mut Ctx) -> R {
    // what is done
    let json_world = ctx.src.chance(1, 2);
    let mut c = super::pools::cfg(ctx);
    if json_world {
        c.wkt = [&["any", "struct", "wrappers", "timestamp", "duration", "field_mask", "empty"][..], &["any", "struct"]][ctx.src.below(2)];
        c.files = (1, 2);
        c.fields += 2;
    }
    let s = gen::schema(&mut ctx.src, c);
    let spell = gen::spell(&mut ctx.src, &s);
    let n = s.files.len();
    let good: Vec<Vec<u8>> = (0..n).map(|i| Emit { s: &s, spell: &spell }.file(i)).collect();
    let d = descriptor_schema();
    let root = d.find_msg("google.protobuf.FileDescriptorProto").unwrap();
    let mut plan: Vec<Op> = Vec::new();
    // invalid and damaged deliveries, to pools that are not kept or to the standing one
    let bad = ctx.src.len(3);
    for _ in 0..bad {
        let gens: Vec<usize> = (0..n).filter(|f| s.files[*f].raw.is_none()).collect();
        let Some(&fi) = gens.first().map(|_| ctx.src.pick(&gens)) else { break };
        let mut files: Vec<Vec<u8>> = s.closure(fi).into_iter().filter(|f| *f != fi).map(|f| good[f].clone()).collect();
        if ctx.src.chance(1, 2) {
            if let Some((what, planted)) = super::pools::plant(ctx, &s, fi, &spell) {
                ctx.fault("invalid-file");
                ctx.step(format_args!("invalid: {what}"));
                files.extend(planted);
            }
        } else {
            // several parts altered at once: the error that is reported must not be drawn by lot
            files.push(good[fi].clone());
            for f in &mut files {
                if !ctx.src.chance(1, 2) {
                    continue;
                }
                let Ok(mut m) = wire::decode(d, root, f) else { continue };
                let k = 1 + ctx.src.len(5);
                if ctx.src.chance(1, 2) {
                    multiply(ctx, root, &mut m);
                } else {
                    for _ in 0..k {
                        if ctx.src.chance(1, 5) {
                            source_option(ctx, root, &mut m);
                        } else {
                            alter(ctx, root, &mut m);
                        }
                    }
                }
                *f = wire::encode(d, root, &m);
            }
            ctx.step(format_args!("altered files {}", files.len()));
        }
        if ctx.src.chance(1, 3) {
            ctx.src.shuffle(&mut files);
        }
        let mut whole = None;
        if ctx.src.chance(1, 8) {
            let mut b = set_bytes(&files);
            let other = b.clone();
            super::links::damage(ctx, &mut b, &other);
            whole = Some(b);
        }
        plan.push(Op::Files { files, whole, fresh: ctx.src.chance(3, 4) });
        plan.push(Op::Pool);
    }
    // the valid schema
    plan.push(Op::Files { files: good.clone(), whole: None, fresh: ctx.src.chance(1, 2) });
    plan.push(Op::Pool);
    let shared = pool_of(&s)?;
    let any: Vec<usize> = (0..s.msgs.len()).filter(|&m| !s.msgs[m].map_entry).collect();
    let k = ctx.src.range(1, 4);
    for _ in 0..k {
        let mid = gen::root(&mut ctx.src, &s);
        let ty = s.msgs[mid].full.clone();
        let vals = Vals { any: any.clone(), json: json_world && ctx.src.chance(3, 4), any_odd: ctx.src.chance(1, 4), ..Vals::default() };
        let m = gen::message(&mut ctx.src, &s, mid, 2, &vals);
        let mut b = wire::cat(wire::records(&s, mid, &m, &mut wire::Noisy(&mut ctx.src)));
        if ctx.src.chance(1, 6) {
            let other = b.clone();
            super::links::damage(ctx, &mut b, &other);
        }
        ctx.step(format_args!("bytes of {ty} {}", hex(&b)));
        plan.push(Op::Bytes {
            ty: ty.clone(),
            b: b.clone(),
            json: (super::json::options(&mut ctx.src), ctx.src.chance(1, 4)),
            text: super::text::Opt::random(&mut ctx.src),
        });
        let dm = shared.get_message_by_name(&ty).and_then(|d| DynamicMessage::decode(d, b.as_slice()).ok());
        let Some(dm) = dm else { continue };
        if ctx.src.chance(1, 2) {
            let mut text = Vec::new();
            let o: SerializeOptions = super::json::real(super::json::options(&mut ctx.src));
            if dm.serialize_with_options(&mut serde_json::Serializer::new(&mut text), &o).is_ok() {
                let mut text = String::from_utf8_lossy(&text).to_string();
                if ctx.src.chance(1, 2) {
                    let other = text.clone();
                    super::json::damage(ctx, &mut text, &other);
                }
                ctx.step(format_args!("JSON of {ty} {} bytes", text.len()));
                plan.push(Op::Json { ty: ty.clone(), text, deny: ctx.src.chance(1, 2) });
            }
        }
        if vals.json && crate::json::expressible(&s, mid, &m) && ctx.src.chance(3, 4) {
            let known = canon_msg(&wire::norm_any(&s, mid, &m, |_| true));
            if crate::json::expressible(&s, mid, &known) {
                let mut j = super::json::noisy(ctx, &s, mid, &known, &mut 0);
                let mut pool = Vec::new();
                super::json::subtrees(&j, &mut pool);
                pool.truncate(40);
                if ctx.src.chance(3, 4) {
                    unsettle(ctx, &mut j, &pool);
                }
                let text = crate::json::plain(&j);
                ctx.step(format_args!("document of {ty} {text}"));
                ctx.fault("unsettled-document");
                plan.push(Op::Json { ty: ty.clone(), text, deny: ctx.src.chance(1, 2) });
            }
        }
        if ctx.src.chance(1, 2) {
            let mut text = dm.to_text_format_with_options(&super::text::Opt::random(&mut ctx.src).real());
            if ctx.src.chance(1, 2) {
                let other = text.clone();
                super::text::damage_text(ctx, &mut text, &other);
            }
            ctx.step(format_args!("text of {ty} {} bytes", text.len()));
            plan.push(Op::Text { ty, text });
        }
    }
    // by whom
    let seeds: Vec<u64> = (0..2 + ctx.src.below(2)).map(|_| ctx.src.u64()).collect();
    let mut logs = seeds.iter().map(|h| replica(*h, &plan, &shared));
    let first = logs.next().unwrap();
    let mut h = Fnv::default();
    for (i, l) in &first {
        h.bytes(l.what.as_bytes());
        h.bytes(l.text.as_bytes());
        ctx.count("op", l.what);
        if l.what == "panic" {
            ctx.note(format_args!("panic in {i}: {}", l.text));
        }
    }
    ctx.note(format_args!("{} answers {:016x}", first.len(), h.0));
    for (r, other) in logs.enumerate() {
        ctx.fault("hash-seed");
        ctx.step(format_args!("replica {}", r + 1));
        for (x, y) in first.iter().zip(&other) {
            ensure!(
                x.0 == y.0 && x.1.what == y.1.what && x.1.text == y.1.text,
                format!("differs:{}", if x.1.what == y.1.what { x.1.what } else { "order" }),
                "step {} gives another {} ({}) under another hash seed: {}",
                x.0,
                x.1.what,
                y.1.what,
                first_diff(&x.1.text, &y.1.text)
            );
            if let (Some(a), Some(b)) = (&x.1.msg, &y.1.msg) {
                ensure!(has_nan(a) || a == b, "differs:equal", "the same bytes decode to unequal messages under another hash seed");
            }
        }
        ensure!(first.len() == other.len(), "differs:count", "{} answers instead of {} under another hash seed", other.len(), first.len());
    }
    Ok(())
}
