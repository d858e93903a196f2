//! Damaged and hostile descriptors: C05.
use super::links::damage;
use super::pools::{deliver, ASSUME, REAL, STUB};
use super::*;
use crate::emit::{descriptor_schema, Emit};
use crate::engine::catch;
use crate::wire;
use crate::{ensure, viol};
use prost::Message as _;
use prost_reflect::{text_format::FormatOptions, DescriptorError, DynamicMessage, FileDescriptor, SerializeOptions};

pub const C05: Prop = Prop {
    id: "C05",
    run: c05,
    quick: 120_000,
    thorough: 3_000_000,
    fork: false,
    rule: "a run takes generated (or the well-known) schema files, damages the encoded bytes or alters, drops, duplicates, swaps and transplants parts of the descriptor structure, and delivers them to fresh or filled pools; after a refusal the pool answers as before, after success every definition is enumerated and every message type is created, filled, encoded, decoded (also from damaged bytes), printed, serialized and read back; non-trivial when a damaged file was delivered, distinct by event log",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

const NAMES: [&str; 26] = [
    "", ".", "a", "a.b", "a..b", ".a", "M", "p", "p.M", ".p.M", "p.q", "google.protobuf", "Timestamp", "Any", "Value", "ListValue", "Struct",
    "NullValue", "é", "a\u{0}b", "[x]", "__", "_", "A", "google.protobuf.Timestamp", ".google.protobuf.Any",
];
const DEFAULTS: [&str; 14] = ["", "1", "-1", "true", "nan", "inf", "-0", "1e999", "0x10", "99999999999999999999", "\\", "\\777", "\\x", "é\\"];

fn count(s: &Schema, mid: usize, m: &MMsg) -> usize {
    let mut n = 1;
    for (num, v) in &m.fields {
        let Some(slot) = s.slot(mid, *num) else { continue };
        let Some(t) = slot.f.ty.msg() else { continue };
        match v {
            MVal::Msg(x) => n += count(s, t, x),
            MVal::List(l) => n += l.iter().map(|x| count(s, t, x.msg())).sum::<usize>(),
            _ => {}
        }
    }
    n
}

fn nth<T>(s: &Schema, mid: usize, m: &mut MMsg, n: &mut usize, f: &mut dyn FnMut(usize, &mut MMsg) -> T) -> Option<T> {
    if *n == 0 {
        return Some(f(mid, m));
    }
    *n -= 1;
    for (num, v) in &mut m.fields {
        let Some(t) = s.slot(mid, *num).and_then(|x| x.f.ty.msg()) else { continue };
        match v {
            MVal::Msg(x) => {
                if let Some(r) = nth(s, t, x, n, f) {
                    return Some(r);
                }
            }
            MVal::List(l) => {
                for x in l {
                    if let MVal::Msg(x) = x {
                        if let Some(r) = nth(s, t, x, n, f) {
                            return Some(r);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn strings(m: &MMsg, out: &mut Vec<String>) {
    for v in m.fields.values() {
        match v {
            MVal::Str(s) => out.push(s.clone()),
            MVal::Msg(x) => strings(x, out),
            MVal::List(l) => {
                for x in l {
                    match x {
                        MVal::Str(s) => out.push(s.clone()),
                        MVal::Msg(x) => strings(x, out),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

fn name(src: &mut Src, pool: &[String]) -> String {
    let mut n = match src.below(4) {
        0 => NAMES[src.below(NAMES.len())].to_string(),
        1 => DEFAULTS[src.below(DEFAULTS.len())].to_string(),
        _ if pool.is_empty() => "a".into(),
        _ => src.pick(pool).clone(),
    };
    match src.below(12) {
        0 => n.insert(0, '.'),
        1 => n.push('.'),
        2 => n = n.rsplit('.').next().unwrap_or("").to_string(),
        3 => {
            let m = if pool.is_empty() { String::new() } else { src.pick(pool).clone() };
            n = format!("{n}.{m}");
        }
        4 => n = n.to_uppercase(),
        _ => {}
    }
    n
}

/// Alters one part of a descriptor.
pub fn alter(ctx: &mut Ctx, root: usize, file: &mut MMsg) {
    let s = descriptor_schema();
    let mut names = Vec::new();
    strings(file, &mut names);
    let total = count(s, root, file);
    let at = ctx.src.below(total);
    // another part of the file, to be transplanted
    let donor = ctx.src.below(total);
    let donor = nth(s, root, file, &mut donor.clone(), &mut |mid, m| (mid, m.clone()));
    let src = &mut ctx.src;
    let mut what = "";
    nth(s, root, file, &mut at.clone(), &mut |mid, m| {
        let slots = s.slots(mid);
        if slots.is_empty() {
            return;
        }
        let present: Vec<u32> = m.fields.keys().copied().filter(|k| s.slot(mid, *k).is_some()).collect();
        let op = src.weighted(&[3, 4, 8, 4, 3]);
        if s.msgs[mid].name.ends_with("Options") && src.chance(1, 2) {
            what = "unknown-option";
            let n = [50001, 50000, 50002, 1000, 100][src.below(5)];
            m.unk.entry(n).or_default().push(gen::unknown(src, 1));
            return;
        }
        if op == 1 || present.is_empty() {
            // any field takes any value
            let slot = &slots[src.below(slots.len())];
            let v = Vals { unknown_enum: true, ..Vals::default() };
            let v = gen::field_value(src, s, slot.f, 2, &v);
            m.fields.insert(slot.f.num, v);
            what = "invented-part";
            return;
        }
        let k = *src.pick(&present);
        let ty = s.slot(mid, k).unwrap().f.ty;
        let v = m.fields.get_mut(&k).unwrap();
        if let (Some((dm, d)), Some(t), true) = (&donor, ty.msg(), op >= 3) {
            if *dm == t {
                what = "transplanted-part";
                match v {
                    MVal::List(l) => {
                        let i = src.below(l.len() + 1);
                        if i < l.len() && src.chance(1, 2) {
                            l[i] = MVal::Msg(d.clone());
                        } else {
                            l.insert(i, MVal::Msg(d.clone()));
                        }
                    }
                    v => *v = MVal::Msg(d.clone()),
                }
                return;
            }
        }
        match v {
            MVal::List(l) if !l.is_empty() && op != 0 => {
                let i = src.below(l.len());
                match src.below(5) {
                    0 => {
                        what = "dropped-part";
                        l.remove(i);
                    }
                    1 => {
                        what = "duplicated-part";
                        let x = l[i].clone();
                        l.insert(i, x);
                    }
                    2 => {
                        what = "swapped-parts";
                        let j = src.below(l.len());
                        l.swap(i, j);
                    }
                    3 => {
                        what = "duplicated-part";
                        let x = l[i].clone();
                        l.push(x);
                    }
                    _ => {
                        what = "altered-part";
                        match &mut l[i] {
                            MVal::Str(x) => *x = name(src, &names),
                            MVal::I32(x) => *x = int(src),
                            _ => {
                                l.remove(i);
                            }
                        }
                    }
                }
            }
            _ if op == 0 => {
                what = "dropped-part";
                m.fields.remove(&k);
            }
            MVal::Str(x) => {
                what = "altered-part";
                *x = name(src, &names);
            }
            MVal::I32(x) => {
                what = "altered-part";
                *x = int(src);
            }
            MVal::Enum(x) => {
                what = "altered-part";
                *x = [0, 1, 2, 3, 10, 11, 14, 18, 19, -1, i32::MAX, 9, 12][src.below(13)];
            }
            MVal::Bool(x) => {
                what = "altered-part";
                *x = !*x;
            }
            _ => {
                what = "dropped-part";
                m.fields.remove(&k);
            }
        }
    });
    if !what.is_empty() {
        ctx.fault(what);
    }
}

/// Gives several parts of one list the same defect.
pub fn multiply(ctx: &mut Ctx, root: usize, file: &mut MMsg) {
    let s = descriptor_schema();
    let total = count(s, root, file);
    let src = &mut ctx.src;
    let mut done = "";
    for _ in 0..12 {
        let at = src.below(total);
        nth(s, root, file, &mut at.clone(), &mut |mid, m| {
            let lists: Vec<u32> = m
                .fields
                .iter()
                .filter(|(k, v)| matches!(v, MVal::List(l) if !l.is_empty()) && s.slot(mid, **k).is_some())
                .map(|x| *x.0)
                .collect();
            if lists.is_empty() {
                return;
            }
            let k = *src.pick(&lists);
            let ty = s.slot(mid, k).unwrap().f.ty;
            let MVal::List(l) = m.fields.get_mut(&k).unwrap() else { return };
            if let MVal::Str(_) = l[0] {
                done = "several-names";
                for i in 0..src.range(2, 4) {
                    let x = [format!("none{i}.proto"), format!("x{i}"), String::new()][src.below(3)].clone();
                    l.push(MVal::Str(x));
                }
                return;
            }
            let Some(el) = ty.msg() else { return };
            let strs: Vec<u32> = s.slots(el).iter().filter(|x| x.ext.is_none() && x.f.ty == Ty::S(Sc::String) && x.f.label != Label::Repeated).map(|x| x.f.num).collect();
            let ints: Vec<u32> = s.slots(el).iter().filter(|x| x.ext.is_none() && x.f.ty == Ty::S(Sc::Int32) && x.f.label != Label::Repeated).map(|x| x.f.num).collect();
            let n = l.len();
            // as many elements as it takes to have two of everything
            if n < 4 || src.chance(1, 2) {
                for i in 0..(4usize.saturating_sub(n)).max(1) {
                    let mut x = l[i % n].clone();
                    if let (MVal::Msg(x), true) = (&mut x, strs.contains(&1)) {
                        x.fields.insert(1, MVal::Str(format!("more_{i}")));
                        if ints.contains(&3) {
                            x.fields.insert(3, MVal::I32(7000 + i as i32));
                        }
                    }
                    l.push(x);
                }
            }
            let how = src.below(6);
            let len = l.len();
            match how {
                // every element again, under nearly the same name
                0..=2 if strs.contains(&1) => {
                    done = "several-twins";
                    for i in 0..len {
                        let mut x = l[i].clone();
                        if let MVal::Msg(x) = &mut x {
                            let old = match x.fields.get(&1) {
                                Some(MVal::Str(o)) => o.clone(),
                                _ => String::new(),
                            };
                            let new = match how {
                                0 => old,
                                1 if old.contains('_') => old.replace('_', ""),
                                1 => old.chars().take(1).chain(['_']).chain(old.chars().skip(1)).collect(),
                                _ => old.to_uppercase(),
                            };
                            x.fields.insert(1, MVal::Str(new));
                            if ints.contains(&3) && src.chance(3, 4) {
                                x.fields.insert(3, MVal::I32(8000 + i as i32));
                            }
                        }
                        l.push(x);
                    }
                }
                3 | 4 if !strs.is_empty() => {
                    done = "several-strings";
                    let f = *src.pick(&strs);
                    let same = src.chance(1, 3);
                    for (i, x) in l.iter_mut().enumerate() {
                        if let MVal::Msg(x) = x {
                            x.fields.insert(f, MVal::Str(if same { "same".into() } else { format!("none{i}") }));
                        }
                    }
                }
                _ if !ints.is_empty() => {
                    done = "several-numbers";
                    let f = *src.pick(&ints);
                    let base = int(src);
                    let step = src.below(2) as i32;
                    for (i, x) in l.iter_mut().enumerate() {
                        if let MVal::Msg(x) = x {
                            x.fields.insert(f, MVal::I32(base.wrapping_add(step * i as i32)));
                        }
                    }
                }
                _ => {}
            }
        });
        if !done.is_empty() {
            break;
        }
    }
    if !done.is_empty() {
        ctx.fault(done);
    }
}

/// Gives an element a source option: of a name that exists or not, with a value that fits or not.
pub fn source_option(ctx: &mut Ctx, root: usize, file: &mut MMsg) {
    let s = descriptor_schema();
    let mut names = Vec::new();
    strings(file, &mut names);
    let total = count(s, root, file);
    let src = &mut ctx.src;
    let mut done = false;
    for _ in 0..6 {
        let at = src.below(total);
        nth(s, root, file, &mut at.clone(), &mut |mid, m| {
            let Some((num, t)) = s.slots(mid).iter().find(|x| x.f.name == "options").and_then(|x| Some((x.f.num, x.f.ty.msg()?))) else {
                return;
            };
            let slots = s.slots(t);
            let mut un = MMsg::default();
            let parts = [1, 1, 1, 1, 0, 2, 3][src.below(7)];
            let mut ty = None;
            let mut list = Vec::new();
            for i in 0..parts {
                let mut part = MMsg::default();
                let ext = src.chance(1, 6);
                let n = if ext || src.chance(1, 8) {
                    name(src, &names)
                } else {
                    let slot = &slots[src.below(slots.len())];
                    if i + 1 == parts {
                        ty = Some(slot.f.ty);
                    }
                    slot.f.name.clone()
                };
                part.fields.insert(1, MVal::Str(n));
                part.fields.insert(2, MVal::Bool(ext));
                list.push(MVal::Msg(part));
            }
            un.fields.insert(2, MVal::List(list));
            let word = |src: &mut Src, of: &[&str]| MVal::Str(of[src.below(of.len())].into());
            let mut which = match ty {
                Some(Ty::S(Sc::Bool)) => 3,
                Some(Ty::S(Sc::String)) => 7,
                Some(Ty::E(_)) => 9,
                Some(Ty::M(_)) => 8,
                _ => 4,
            };
            if src.chance(1, 4) {
                which = src.range(3, 9);
            }
            let v = match which {
                3 => word(src, &["true", "false", "true", "inf", ""]),
                4 => MVal::U64([0, 1, 3, 1 << 31, 1 << 32, u64::MAX][src.below(6)]),
                5 => MVal::I64([-1, -2, i64::MIN, 0, 1][src.below(5)]),
                6 => MVal::F64([0.5, -0.0, 1e300, f64::INFINITY, f64::NAN][src.below(5)].to_bits()),
                7 => MVal::Bytes([&b"x"[..], b"", b"\xff\xfe", b"a.b", b"a\0b"][src.below(5)].to_vec()),
                8 => word(src, &["", "deprecated: true", "{", "uninterpreted_option: {}", "[a.b]: 1", "x: { y: 1", "name { name_part: 'a' is_extension: true }", "\\"]),
                _ => word(src, &["SPEED", "CORD", "JS_STRING", "NO_SIDE_EFFECTS", "LITE_RUNTIME", "STRING", ""]),
            };
            un.fields.insert(if which == 9 { 3 } else { which as u32 }, v);
            let MVal::Msg(o) = m.fields.entry(num).or_insert_with(|| MVal::Msg(MMsg::default())) else { return };
            match o.fields.entry(999).or_insert_with(|| MVal::List(vec![])) {
                MVal::List(l) => {
                    let i = src.below(l.len() + 1);
                    l.insert(i, MVal::Msg(un.clone()));
                    if src.chance(1, 6) {
                        l.push(MVal::Msg(un));
                    }
                    done = true;
                }
                _ => {}
            }
        });
        if done {
            break;
        }
    }
    if done {
        ctx.fault("source-option");
    }
}

fn int(src: &mut Src) -> i32 {
    [0, 1, -1, 2, 3, 15, 16, 100, 18999, 19000, 19999, 20000, 536870911, 536870912, i32::MAX, i32::MIN, 4, 5, 127, 128][src.below(20)]
}

/// Everything that can be asked of a message type, with values made from its own declaration.
pub fn exercise(ctx: &mut Ctx, d: &MessageDescriptor) -> R {
    let mut m = DynamicMessage::new(d.clone());
    fill(&mut ctx.src, &mut m, 3);
    let _ = format!("{d:?} {m:?}");
    for f in d.fields() {
        let _ = format!("{f:?} {:?}", f.kind());
        let _ = (m.has_field(&f), m.get_field(&f).into_owned(), f.default_value(), m.has_field_by_name(f.name()));
        if let Some(o) = f.containing_oneof() {
            let _ = (format!("{o:?}"), o.fields().count());
        }
    }
    let mut wire = m.encode_to_vec();
    ensure!(wire.len() == m.encoded_len(), "length", "{}: encoded_len is {} for {} bytes", d.full_name(), m.encoded_len(), wire.len());
    let back = DynamicMessage::decode(d.clone(), wire.as_slice())
        .map_err(|e| viol!("own-encoding", "{} does not decode its own encoding {}: {e}", d.full_name(), hex(&wire)))?;
    well_typed(&back)?;
    let mut c = m.clone();
    let _ = c.merge(wire.as_slice());
    let other = wire.clone();
    damage(ctx, &mut wire, &other);
    if let Ok(x) = DynamicMessage::decode(d.clone(), wire.as_slice()) {
        well_typed(&x)?;
        let _ = format!("{x:?}");
        let _ = x.encode_to_vec();
        let _ = x.to_text_format();
        let _ = serde_json::to_string(&x);
    }
    for x in [&m, &back] {
        let t = x.to_text_format_with_options(&FormatOptions::new().pretty(true).skip_default_fields(false));
        let _ = DynamicMessage::parse_text_format(d.clone(), &t);
        let t = x.to_text_format();
        let _ = DynamicMessage::parse_text_format(d.clone(), &t);
        let mut out = Vec::new();
        let o = SerializeOptions::new().skip_default_fields(false).use_proto_field_name(true);
        let _ = x.serialize_with_options(&mut serde_json::Serializer::new(&mut out), &o);
        let t = serde_json::to_string(&x);
        for t in [t.ok(), String::from_utf8(out).ok(), Some("null".into()), Some("\"1s\"".into()), Some("{\"a\":1,\"value\":\"x\"}".into())].into_iter().flatten() {
            let mut de = serde_json::Deserializer::from_str(&t);
            let _ = DynamicMessage::deserialize(d.clone(), &mut de);
        }
    }
    let mut c = back.clone();
    for f in d.fields() {
        let _ = c.take_field(&f);
        c.clear_field(&f);
        let _ = c.get_field_mut(&f);
    }
    for f in d.extensions() {
        let _ = c.take_extension(&f);
        let _ = c.get_extension_mut(&f);
    }
    let _ = c.encode_to_vec();
    Ok(())
}

fn use_pool(ctx: &mut Ctx, p: &DescriptorPool) -> R {
    let _ = dump_pool(p, ALL);
    let _ = format!("{p:?}");
    for f in p.files() {
        let _ = format!("{f:?}");
        let _: Vec<FileDescriptor> = f.dependencies().chain(f.public_dependencies()).collect();
    }
    for e in p.all_enums() {
        let _ = format!("{e:?}");
        let _ = (e.default_value().name().len(), e.get_value(0).is_some(), e.get_value_by_name("a").is_some());
        for v in e.values() {
            let _ = (format!("{v:?}"), v.options());
            ensure!(v.parent_enum() == &e, "parent", "parent of {v:?}");
        }
    }
    for e in p.all_extensions() {
        let _ = format!("{e:?} {:?} {:?}", e.kind(), e.default_value());
    }
    for s in p.services() {
        let _ = format!("{s:?}");
        for m in s.methods() {
            let _ = format!("{m:?} {:?} {:?}", m.input(), m.output());
        }
    }
    let all: Vec<MessageDescriptor> = p.all_messages().collect();
    let skip = all.iter().filter(|m| m.full_name().starts_with("google.protobuf.")).count();
    for d in &all {
        if all.len() > 12 && skip > 8 && d.full_name().starts_with("google.protobuf.") && !ctx.src.chance(1, 8) {
            continue;
        }
        if let Err(mut e) = exercise(ctx, d) {
            e.msg = format!("{} ({})", e.msg, d.full_name());
            return Err(e);
        }
    }
    // what was stored can be written and read again without a panic
    let b = p.encode_to_vec();
    let again = DescriptorPool::decode(b.as_slice());
    if let Err(e) = &again {
        let _ = format!("{e} {e:?}");
        ctx.probe("reload-refused");
    }
    Ok(())
}

fn show_error(e: &DescriptorError) -> String {
    use std::error::Error;
    let _ = (e.source().is_some(), e.file().map(str::len), e.line(), e.column());
    let _ = format!("{e:?}");
    e.to_string()
}

fn c05(ctx: &mut Ctx) -> R {
    let mut c = super::pools::cfg(ctx);
    if ctx.src.chance(1, 5) {
        c.opts = 2;
        c.wkt = &["descriptor"];
    }
    let s = gen::schema(&mut ctx.src, c);
    let spell = gen::spell(&mut ctx.src, &s);
    let n = s.files.len();
    let good: Vec<Vec<u8>> = (0..n).map(|i| Emit { s: &s, spell: &spell }.file(i)).collect();
    let d = descriptor_schema();
    let root = d.find_msg("google.protobuf.FileDescriptorProto").unwrap();
    let mut pool = DescriptorPool::new();
    let mut have = vec![false; n];
    let rounds = 1 + ctx.src.len(3);
    let mut alive = 0;
    for round in 0..rounds {
        // possibly some files are there already
        if ctx.src.chance(1, 2) {
            let f = ctx.src.below(n);
            let batch: Vec<usize> = s.closure(f).into_iter().filter(|f| !have[*f]).collect();
            if alive == 0 {
                let files: Vec<Vec<u8>> = batch.iter().map(|f| good[*f].clone()).collect();
                ctx.step(format_args!("valid {batch:?}"));
                pool.decode_file_descriptor_set(crate::emit::set_bytes(&files).as_slice())
                    .map_err(|e| viol!("refused", "valid files {batch:?} refused: {e:?}"))?;
                batch.iter().for_each(|f| have[*f] = true);
            }
        }
        let missing: Vec<usize> = (0..n).filter(|f| !have[*f] && s.files[*f].raw.is_none()).collect();
        let pick = if missing.is_empty() || ctx.src.chance(1, 16) { ctx.src.below(n) } else { *ctx.src.pick(&missing) };
        let mut files: Vec<Vec<u8>> = s.closure(pick).into_iter().filter(|f| *f != pick && !have[*f]).map(|f| good[f].clone()).collect();
        files.push(good[pick].clone());
        let hit = if files.len() > 1 && ctx.src.chance(1, 3) { ctx.src.below(files.len()) } else { files.len() - 1 };
        let descr = s.files.iter().position(|f| f.name == "google/protobuf/descriptor.proto");
        let ready = descr.is_some_and(|f| have[f]);
        let kinds = ctx.src.weighted(&[10, 3, 1, if ready { 4 } else { 0 }]);
        let mut whole = false;
        match kinds {
            0 => {
                // altered structure
                let mut m = wire::decode(d, root, &files[hit]).map_err(|_| viol!("harness", "file does not decode"))?;
                if have[pick] && hit == files.len() - 1 {
                    m.fields.insert(1, MVal::Str(format!("again{round}.proto")));
                }
                let n = 1 + ctx.src.len(3);
                for _ in 0..n {
                    if ctx.src.chance(1, 8) {
                        multiply(ctx, root, &mut m);
                    } else if ctx.src.chance(1, 6) {
                        source_option(ctx, root, &mut m);
                    } else {
                        alter(ctx, root, &mut m);
                    }
                }
                ctx.note(format_args!("{}", m.to_s()));
                files[hit] = wire::encode(d, root, &m);
            }
            1 => {
                let other = files[0].clone();
                if ctx.src.chance(1, 2) {
                    damage(ctx, &mut files[hit], &other);
                } else {
                    whole = true;
                }
            }
            3 => {
                // an option is declared after files that use its number
                let ty = [5u64, 9, 1, 11, 14, 17, 8, 12, 10][ctx.src.below(9)] as i32;
                let mut f = prost_types::FieldDescriptorProto {
                    name: Some("late_opt".into()),
                    number: Some([50001, 50000, 50002, 1000, 50010][ctx.src.below(5)]),
                    label: Some(if ctx.src.chance(1, 3) { 3 } else { 1 }),
                    r#type: Some(ty),
                    extendee: Some(format!(".google.protobuf.{}Options", ["File", "Message", "Field", "Enum", "EnumValue", "Service", "Method", "Oneof"][ctx.src.below(8)])),
                    ..Default::default()
                };
                if ty == 11 || ty == 10 {
                    f.type_name = Some(".google.protobuf.UninterpretedOption".into());
                } else if ty == 14 {
                    f.type_name = Some(".google.protobuf.FieldDescriptorProto.Type".into());
                }
                let p = prost_types::FileDescriptorProto {
                    name: Some(format!("late{round}.proto")),
                    package: Some(format!("late{round}")),
                    dependency: vec!["google/protobuf/descriptor.proto".into()],
                    extension: vec![f],
                    ..Default::default()
                };
                ctx.fault("late-option");
                files = vec![p.encode_to_vec()];
            }
            _ => {
                let c = Vals { unknown: false, ..Vals::default() };
                let m = gen::message(&mut ctx.src, d, root, 5, &c);
                ctx.fault("invented-file");
                files[hit] = wire::encode(d, root, &m);
            }
        }
        if files.len() > 1 && ctx.src.chance(1, 6) {
            let f = ctx.src.pick(&files).clone();
            files.push(f);
            ctx.fault("file-twice");
        }
        let before = answers(&pool).ok();
        ctx.step(format_args!("deliver {} files, {} damaged: {}", files.len(), hit, hex(&files[hit.min(files.len() - 1)])));
        let r = if whole {
            let mut b = crate::emit::set_bytes(&files);
            let other = b.clone();
            damage(ctx, &mut b, &other);
            catch(|| {
                if ctx.src.chance(1, 3) {
                    DescriptorPool::decode(b.as_slice()).map(|p| pool = p)
                } else {
                    pool.decode_file_descriptor_set(b.as_slice())
                }
            })?
        } else {
            deliver(ctx, &mut pool, &files, false)
        };
        match r {
            Err(e) => {
                ctx.note(format_args!("refused: {}", show_error(&e)));
                ctx.probe("refused");
                if before.is_some() {
                    ensure!(answers(&pool).ok() == before, "refused-changed", "a refused delivery changed the pool: {e:?}");
                }
            }
            Ok(()) => {
                alive += 1;
                ctx.probe("accepted");
                ctx.note(format_args!("accepted: {:016x}", answers(&pool).map(|l| digest_lines(&l)).unwrap_or(0)));
                use_pool(ctx, &pool)?;
            }
        }
    }
    Ok(())
}
