//! JSON and other serde formats over simulated links, sinks and sources: C11, C12, C13.
use super::*;
use crate::io::{IoFault, SimRead, SimWrite};
use crate::json::{self, any_inner, check, expressible, is_null_enum, is_value_msg, js, num, parse, plain, render, valid, wkt_name, Peer, Wr, J};
use crate::simserde::{DeState, SerLog, SimDe, SimErr, SimSer};
use crate::wire::norm_any;
use crate::{ensure, viol};
use prost::Message as _;
use prost_reflect::{DeserializeOptions, DynamicMessage, ReflectMessage, SerializeOptions};
use std::cell::RefCell;

const REAL: &[&str] = &["prost-reflect DescriptorPool, DynamicMessage, JSON mapping (serde)", "serde_json reader and writer"];
const STUB: &[&str] =
    &["readers and writers", "serde serializer and deserializer under fault injection", "peers that write JSON (reference writer)", "schemas and messages (generated)"];
const ASSUME: &[&str] = &[
    "the harness's own JSON reference, wire codec and schema model are correct",
    "generated schemas and messages are representative",
    "serde_json (with float_roundtrip) parses and prints JSON correctly",
];

const WKTS: [&[&str]; 5] = [
    &[],
    &["any", "wrappers"],
    &["any", "struct", "empty"],
    &["any", "timestamp", "duration", "field_mask"],
    &["any", "struct", "wrappers", "timestamp", "duration", "field_mask", "empty"],
];

fn world(ctx: &mut Ctx) -> R<(World, Vals)> {
    let c = Cfg {
        files: (1, 2),
        msgs: 1 + ctx.src.below(3),
        fields: 3 + ctx.src.below(7),
        relative: false,
        wkt: WKTS[ctx.src.below(WKTS.len())],
        ..Cfg::default()
    };
    let w = World::new(ctx, c)?;
    let any: Vec<usize> = (0..w.s.msgs.len()).filter(|&m| !w.s.msgs[m].map_entry).collect();
    Ok((w, Vals { any, json: true, ..Vals::default() }))
}

fn pick_root(ctx: &mut Ctx, w: &World) -> usize {
    if ctx.src.chance(1, 6) {
        let l: Vec<usize> = (0..w.s.msgs.len()).filter(|&m| wkt_name(&w.s, m).is_some()).collect();
        if !l.is_empty() {
            return *ctx.src.pick(&l);
        }
    }
    gen::root(&mut ctx.src, &w.s)
}

pub fn norm(w: &World, mid: usize, m: &MMsg) -> MMsg {
    canon_msg(&norm_any(&w.s, mid, m, |_| true))
}

fn same_json(w: &World, mid: usize, d: &DynamicMessage, want: &MMsg, what: &str) -> R {
    let got = norm(w, mid, &observe(d)?);
    let want = norm(w, mid, want);
    ensure!(got == want, format!("json:{what}"), "{what}: {} is {} instead of {}", d.descriptor().full_name(), got.to_s(), want.to_s());
    Ok(())
}

fn clip(t: &str) -> String {
    let mut s: String = t.chars().take(400).collect();
    if s.len() < t.len() {
        s.push('…');
    }
    s
}

pub fn options(src: &mut Src) -> Wr {
    Wr { strings64: !src.chance(1, 3), numbers: src.chance(1, 3), proto_names: src.chance(1, 3), skip_default: !src.chance(1, 3) }
}
pub fn real(o: Wr) -> SerializeOptions {
    SerializeOptions::new()
        .stringify_64_bit_integers(o.strings64)
        .use_enum_numbers(o.numbers)
        .use_proto_field_name(o.proto_names)
        .skip_default_fields(o.skip_default)
}
const CANON: Wr = Wr { strings64: true, numbers: false, proto_names: false, skip_default: true };

pub fn of_serde(v: &serde_json::Value) -> J {
    match v {
        serde_json::Value::Null => J::Null,
        serde_json::Value::Bool(b) => J::Bool(*b),
        serde_json::Value::Number(n) => num(n),
        serde_json::Value::String(s) => js(s.clone()),
        serde_json::Value::Array(l) => J::Arr(l.iter().map(of_serde).collect()),
        serde_json::Value::Object(m) => J::Obj(m.iter().map(|(k, v)| (k.clone(), of_serde(v))).collect()),
    }
}

/// Writes a message through one of several destinations.
fn write(ctx: &mut Ctx, dm: &DynamicMessage, o: Wr, default: bool) -> R<Result<String, String>> {
    let opts = real(o);
    Ok(match ctx.src.below(5) {
        0 if default => serde_json::to_string(dm).map_err(|e| e.to_string()),
        1 => {
            let mut w = SimWrite::new(&mut ctx.src, None);
            let mut ser = serde_json::Serializer::new(&mut w);
            let r = dm.serialize_with_options(&mut ser, &opts).map_err(|e| e.to_string());
            if w.short > 0 {
                ctx.fault("short-write");
            }
            if w.eintr > 0 {
                ctx.fault("interrupted-write");
            }
            match r {
                Ok(()) => Ok(String::from_utf8(w.data).map_err(|_| viol!("json-utf8", "wrote text that is not UTF-8"))?),
                Err(e) => Err(e),
            }
        }
        2 => {
            let mut ser = serde_json::Serializer::pretty(Vec::new());
            match dm.serialize_with_options(&mut ser, &opts) {
                Ok(()) => Ok(String::from_utf8(ser.into_inner()).map_err(|_| viol!("json-utf8", "wrote text that is not UTF-8"))?),
                Err(e) => Err(e.to_string()),
            }
        }
        3 => match dm.serialize_with_options(serde_json::value::Serializer, &opts) {
            Ok(v) => Ok(plain(&of_serde(&v))),
            Err(e) => Err(e.to_string()),
        },
        _ => {
            let mut ser = serde_json::Serializer::new(Vec::new());
            match dm.serialize_with_options(&mut ser, &opts) {
                Ok(()) => Ok(String::from_utf8(ser.into_inner()).map_err(|_| viol!("json-utf8", "wrote text that is not UTF-8"))?),
                Err(e) => Err(e.to_string()),
            }
        }
    })
}

struct Read {
    res: Result<DynamicMessage, String>,
    io: bool,
    fired: bool,
}
const READERS: usize = 5;

/// Reads text through one of several sources.
fn read(ctx: &mut Ctx, w: &World, mid: usize, text: &str, how: usize, deny: bool, fault: IoFault) -> Read {
    let opts = DeserializeOptions::new().deny_unknown_fields(deny);
    let d = w.desc(mid);
    let plain_res = |r: Result<DynamicMessage, serde_json::Error>| Read { io: matches!(&r, Err(e) if e.is_io()), res: r.map_err(|e| e.to_string()), fired: false };
    match how {
        0 => {
            let mut de = serde_json::Deserializer::from_str(text);
            plain_res(DynamicMessage::deserialize_with_options(d, &mut de, &opts).and_then(|m| de.end().map(|_| m)))
        }
        1 => {
            let mut de = serde_json::Deserializer::from_slice(text.as_bytes());
            plain_res(DynamicMessage::deserialize_with_options(d, &mut de, &opts).and_then(|m| de.end().map(|_| m)))
        }
        2 => {
            let mut r = SimRead::new(&mut ctx.src, text.as_bytes(), fault);
            let res = {
                let mut de = serde_json::Deserializer::from_reader(&mut r);
                DynamicMessage::deserialize_with_options(d, &mut de, &opts).and_then(|m| de.end().map(|_| m))
            };
            if r.short > 0 {
                ctx.fault("short-read");
            }
            if r.eintr > 0 {
                ctx.fault("interrupted-read");
            }
            Read { fired: r.fired, ..plain_res(res) }
        }
        3 => match serde_json::from_str::<serde_json::Value>(text) {
            Ok(v) => {
                if ctx.src.chance(1, 2) {
                    plain_res(DynamicMessage::deserialize_with_options(d, v, &opts))
                } else {
                    plain_res(DynamicMessage::deserialize_with_options(d, &v, &opts))
                }
            }
            Err(e) => plain_res(Err(e)),
        },
        _ => match parse(text) {
            Ok(j) => {
                let n = 1 + ctx.src.len(3);
                let modes: Vec<u8> = (0..n).map(|_| ctx.src.below(6) as u8).collect();
                let st = DeState::new(modes, ctx.src.chance(1, 2), None);
                let r = DynamicMessage::deserialize_with_options(d, SimDe { j: &j, st: &st }, &opts);
                Read { res: r.map_err(|e| e.to_string()), io: false, fired: false }
            }
            Err(e) => Read { res: Err(e), io: false, fired: false },
        },
    }
}

fn must_read(ctx: &mut Ctx, w: &World, mid: usize, text: &str, deny: bool, what: &str) -> R<DynamicMessage> {
    let how = ctx.src.below(READERS);
    let r = read(ctx, w, mid, text, how, deny, IoFault::None);
    r.res.map_err(|e| viol!(format!("json-refused:{what}"), "{what}: valid JSON refused by reader {how}: {e}: {}", clip(text)))
}

// ---------------------------------------------------------------- C11

pub const C11: Prop = Prop {
    id: "C11",
    run: c11,
    quick: 300_000,
    thorough: 6_000_000,
    fork: false,
    rule: "a run generates a schema and messages, relays each as JSON through writers and readers with arbitrary options and chunking, checks every document against the mapping, and reads documents a reference writer spelled in arbitrary ways; non-trivial when at least one fault fired, distinct by event log",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

/// Whether a field's proto name is another field's JSON name, anywhere.
fn ambiguous(s: &Schema) -> bool {
    s.msgs.iter().any(|m| m.fields.iter().any(|f| m.fields.iter().any(|g| g.num != f.num && g.json_name() == f.name)))
}

fn c11(ctx: &mut Ctx) -> R {
    let (w, vals) = world(ctx)?;
    let amb = ambiguous(&w.s);
    let rounds = 1 + ctx.src.len(3);
    for _ in 0..rounds {
        let mid = pick_root(ctx, &w);
        let mut m = gen::message(&mut ctx.src, &w.s, mid, 3, &vals);
        if ctx.src.chance(1, 12) {
            spoil(ctx, &w.s, mid, &mut m);
        }
        ctx.step(format_args!("message {} {}", w.s.msgs[mid].full, m.to_s()));
        let can = expressible(&w.s, mid, &m);
        let mut dm = to_dyn(&w.s, w.desc(mid), mid, &m);
        let hops = 1 + ctx.src.len(2);
        for _ in 0..hops {
            let default = ctx.src.chance(1, 4);
            let mut o = if default { CANON } else { options(&mut ctx.src) };
            if amb {
                o.proto_names = false;
            }
            let text = match write(ctx, &dm, o, default)? {
                Ok(t) => t,
                Err(e) => {
                    ensure!(!can, "json-unwritable", "{} is refused: {e}", m.to_s());
                    ctx.probe("inexpressible-refused");
                    break;
                }
            };
            ctx.step(format_args!("json {o:?} {}", clip(&text)));
            let j = valid(&text)?;
            if can {
                check(&w.s, mid, &m, o, &j)?;
            }
            let back = must_read(ctx, &w, mid, &text, true, "written")?;
            same_json(&w, mid, &back, &m, "written")?;
            well_typed(&back)?;
            dm = back;
        }
        if !can {
            continue;
        }
        let known = norm(&w, mid, &m);
        let n = 1 + ctx.src.len(2);
        for _ in 0..n {
            let plain = ctx.src.chance(1, 10);
            let j = Peer { s: &w.s, src: &mut ctx.src, plain }.message(mid, &known);
            let style = ctx.src.below(4);
            let text = render(&j, &mut ctx.src, style);
            let text = [text.clone(), format!(" {text}\n")][ctx.src.below(2)].clone();
            ctx.step(format_args!("peer {}", clip(&text)));
            ctx.count("op", "peer-json");
            let deny = !ctx.src.chance(1, 3);
            let back = must_read(ctx, &w, mid, &text, deny, "peer")?;
            same_json(&w, mid, &back, &m, "peer")?;
        }
    }
    Ok(())
}

/// Makes a value somewhere in the message one the mapping has no form for.
fn spoil(ctx: &mut Ctx, s: &Schema, mid: usize, m: &mut MMsg) {
    let set = |m: &mut MMsg, a: i64, b: i64| {
        *m = MMsg::default().set(1, MVal::I64(a)).set(2, MVal::I32(b as i32));
        s.normalise(mid, m);
    };
    match wkt_name(s, mid) {
        Some("Timestamp") => {
            let (a, b) = [(json::MIN_TS - 1, 0), (json::MAX_TS + 1, 0), (0, -1), (5, 1_000_000_000), (i64::MAX, 999_999_999), (i64::MIN, -999_999_999), (-1, i32::MIN as i64), (json::MAX_TS, i32::MAX as i64)][ctx.src.below(8)];
            set(m, a, b);
        }
        Some("Duration") => {
            let (a, b) = [(json::MAX_DUR + 1, 0), (-json::MAX_DUR - 1, 0), (1, -1), (-1, 1), (0, 1_000_000_000), (i64::MIN, 0), (i64::MAX, i32::MAX as i64), (3, i32::MIN as i64)][ctx.src.below(8)];
            set(m, a, b);
        }
        Some("FieldMask") => {
            let p = ["fooBar", "foo__bar", "foo_3", "foo_", "a_.b", "", "a,b", "_"][ctx.src.below(8)];
            *m = MMsg::default().set(1, MVal::List(vec![MVal::Str("a".into()), MVal::Str(p.into())]));
        }
        Some("Value") => {
            let v = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][ctx.src.below(3)];
            *m = MMsg::default().set(2, MVal::F64(v.to_bits()));
        }
        Some("Any") => {
            *m = MMsg::default().set(1, MVal::Str(["x/no.such.Type", "noslash", "/"][ctx.src.below(3)].into())).set(2, MVal::Bytes(vec![8, 1]));
        }
        _ => {
            let subs: Vec<u32> = m.fields.iter().filter(|(_, v)| matches!(v, MVal::Msg(_))).map(|(n, _)| *n).collect();
            if subs.is_empty() {
                return;
            }
            let n = *ctx.src.pick(&subs);
            let t = s.slot(mid, n).unwrap().f.ty.msg().unwrap();
            if let Some(MVal::Msg(x)) = m.fields.get_mut(&n) {
                spoil(ctx, s, t, x);
            }
        }
    }
}

// ---------------------------------------------------------------- C12

pub const C12: Prop = Prop {
    id: "C12",
    run: c12,
    quick: 250_000,
    thorough: 5_000_000,
    fork: false,
    rule: "a run generates a schema and messages and serializes each into a writer that runs out of room and into a serializer that fails at chosen calls (all calls for small messages), comparing what arrived with a healthy destination; non-trivial when at least one fault fired, distinct by event log",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

fn c12(ctx: &mut Ctx) -> R {
    let (w, vals) = world(ctx)?;
    let rounds = 1 + ctx.src.len(2);
    for _ in 0..rounds {
        let mid = pick_root(ctx, &w);
        let mut m = gen::message(&mut ctx.src, &w.s, mid, 3, &vals);
        if ctx.src.chance(1, 12) {
            spoil(ctx, &w.s, mid, &mut m);
        }
        let m = stable(&w.s, mid, &m, false, |_| true);
        let can = expressible(&w.s, mid, &m);
        let dm = to_dyn(&w.s, w.desc(mid), mid, &m);
        let before = observe(&dm)?;
        let o = options(&mut ctx.src);
        ctx.step(format_args!("message {} {o:?} {}", w.s.msgs[mid].full, m.to_s()));
        let opts = real(o);
        // a serializer
        let human = !ctx.src.chance(1, 4);
        let run = |fail_at: Option<usize>, once: bool| -> (Result<(), SimErr>, SerLog) {
            let log = RefCell::new(SerLog { fail_at, once, human, ..Default::default() });
            let r = dm.serialize_with_options(SimSer::new(&log), &opts);
            (r, log.into_inner())
        };
        let (r0, whole) = run(None, false);
        ensure!(r0.is_ok() || !can, "ser-refused", "a healthy serializer got {:?}", r0);
        if let Some(e) = &whole.odd {
            return Err(viol!("ser-protocol", "serializer misused: {e}: {:?}", whole.events));
        }
        let n = whole.events.len();
        let points: Vec<usize> = if n <= 24 {
            (0..n).collect()
        } else {
            let k = 4 + ctx.src.below(8);
            (0..k).map(|_| ctx.src.below(n)).collect()
        };
        let once = ctx.src.chance(1, 2);
        for k in points {
            let (r, log) = run(Some(k), once);
            ctx.fault(if once { "serializer-fails-once" } else { "serializer-fails" });
            ensure!(r == Err(SimErr::Injected(k)), "ser-failure-hidden", "failing at call {k} of {n} ({}) gave {r:?}", whole.events[k]);
            ensure!(log.after == 0, "ser-used-after-failure", "{} calls after the failure at {k}", log.after);
            ensure!(log.events[..] == whole.events[..k], "ser-not-prefix", "before failing at {k} the calls were {:?} instead of {:?}", log.events, &whole.events[..k]);
        }
        ctx.step(format_args!("serializer of {n} calls"));
        // a writer
        let full = {
            let mut ser = serde_json::Serializer::new(Vec::new());
            let r = dm.serialize_with_options(&mut ser, &opts);
            ensure!(r.is_ok() || !can, "ser-refused", "serde_json got {:?}", r);
            r.is_ok().then(|| ser.into_inner())
        };
        if let Some(full) = full {
            let n = 1 + ctx.src.len(4);
            for _ in 0..n {
                let room = match ctx.src.below(4) {
                    0 => full.len(),
                    1 => full.len() - 1,
                    _ => ctx.src.below(full.len() + 1),
                };
                let mut wr = SimWrite::new(&mut ctx.src, Some(room));
                let r = dm.serialize_with_options(&mut serde_json::Serializer::new(&mut wr), &opts);
                ctx.step(format_args!("write {} bytes into {room}", full.len()));
                if room < full.len() {
                    ctx.fault(if wr.zero { "writer-accepts-nothing" } else { "writer-full" });
                    let e = match r {
                        Err(e) => e,
                        Ok(()) => return Err(viol!("write-failure-hidden", "writing {} bytes into {room} reported success", full.len())),
                    };
                    ensure!(e.is_io(), "write-error-lost", "the writer's failure came out as {e}");
                    ensure!(wr.data == full[..room], "write-not-prefix", "{:?} is not the beginning of {:?}", String::from_utf8_lossy(&wr.data), String::from_utf8_lossy(&full));
                    ensure!(wr.calls_after_refusal == 0, "write-after-failure", "{} writes after the failure", wr.calls_after_refusal);
                } else {
                    ensure!(r.is_ok() && wr.data == full, "write-differs", "a writer with room got {:?}", String::from_utf8_lossy(&wr.data));
                }
            }
            // complete afterwards
            let mut ser = serde_json::Serializer::new(Vec::new());
            let r = dm.serialize_with_options(&mut ser, &opts);
            ensure!(r.is_ok() && ser.into_inner() == full, "write-changed", "serializing again differs");
            let text = String::from_utf8(full).map_err(|_| viol!("json-utf8", "not UTF-8"))?;
            if can && !(o.proto_names && ambiguous(&w.s)) {
                let back = must_read(ctx, &w, mid, &text, true, "after-failures")?;
                same_json(&w, mid, &back, &m, "after-failures")?;
            }
        }
        let (r1, again) = run(None, false);
        ensure!(r1 == r0 && again.events == whole.events, "ser-changed", "a healthy serializer is given other calls after the failures");
        ensure!(observe(&dm)? == before, "ser-mutates", "serializing changed the message");
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

pub const C13: Prop = Prop {
    id: "C13",
    run: c13,
    quick: 300_000,
    thorough: 6_000_000,
    fork: false,
    rule: "a run generates a schema and messages and reads JSON that was cut, damaged, spliced, nested without end or given one invalid or unknown value at any depth, through sources that fail, end early or deliver short pieces, under either option; non-trivial when at least one fault fired, distinct by event log",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

/// Whatever was accepted is valid and usable.
fn usable(ctx: &mut Ctx, w: &World, mid: usize, dm: &DynamicMessage, text: &str) -> R {
    well_typed(dm)?;
    let now = observe(dm)?;
    let b = dm.encode_to_vec();
    let back = DynamicMessage::decode(w.desc(mid), b.as_slice()).map_err(|e| viol!("read-unencodable", "what was read does not decode: {e}: {} from {}", now.to_s(), clip(text)))?;
    same(&back, &now, "read")?;
    let t = match serde_json::to_string(dm) {
        Ok(t) => t,
        Err(e) => return Err(viol!("read-unwritable", "what was read cannot be written: {e}: {} from {}", now.to_s(), clip(text))),
    };
    let back = must_read(ctx, w, mid, &t, true, "reread")?;
    same_json(w, mid, &back, &now, "reread")
}

fn feed(ctx: &mut Ctx, w: &World, mid: usize, text: &str, deny: bool, must_fail: Option<&str>) -> R<bool> {
    let how = ctx.src.below(3);
    let r = read(ctx, w, mid, text, how, deny, IoFault::None);
    if ctx.src.chance(1, 3) {
        let other = (how + 1 + ctx.src.below(2)) % 3;
        let r2 = read(ctx, w, mid, text, other, deny, IoFault::None);
        ensure!(r.res.is_ok() == r2.res.is_ok(), "readers-differ", "reader {how} gives {:?}, reader {other} {:?} for {}", r.res, r2.res, clip(text));
    }
    match r.res {
        Ok(dm) => {
            ctx.probe("accepted");
            if let Some(why) = must_fail {
                return Err(viol!(format!("json-accepted:{why}"), "{why}: accepted as {}: {}", observe(&dm)?.to_s(), clip(text)));
            }
            usable(ctx, w, mid, &dm, text)?;
            Ok(true)
        }
        Err(e) => {
            ctx.probe("refused");
            ensure!(!e.is_empty(), "json-error-empty", "an error without text");
            Ok(false)
        }
    }
}

fn p(t: &str) -> J {
    parse(t).unwrap_or_else(|e| panic!("harness: {t}: {e}"))
}

fn wrong_scalar(ctx: &mut Ctx, s: &Schema, ty: Ty) -> J {
    let l: &[&str] = match ty {
        Ty::S(Sc::Int32 | Sc::Sint32 | Sc::Sfixed32) => &[
            "2147483648", "-2147483649", "\"2147483648\"", "\"-2147483649\"", "1.5", "\"1.5\"", "true", "\"\"", "\" 1\"", "\"1 \"", "[]", "{}", "\"abc\"", "1e10", "\"0x1\"", "2147483648.0", "-2147483649.0", "18446744073709551615", "1e300", "\"1_0\"", "0.5", "-1e-1",
        ],
        Ty::S(Sc::Uint32 | Sc::Fixed32) => &["4294967296", "-1", "\"-1\"", "\"4294967296\"", "1.5", "true", "\"\"", "[1]", "{}", "\"abc\"", "1e11", "-1.0", "4294967296.0", "-1e300", "\" 7\""],
        Ty::S(Sc::Int64 | Sc::Sint64 | Sc::Sfixed64) => &[
            "9223372036854775808", "\"9223372036854775808\"", "\"-9223372036854775809\"", "0.5", "\"1.5\"", "true", "\"\"", "[]", "{}", "\"x\"", "1e19", "9223372036854775808.0", "1e300", "-1e19", "\"1 \"",
        ],
        Ty::S(Sc::Uint64 | Sc::Fixed64) => {
            &["18446744073709551616", "-1", "\"-1\"", "\"18446744073709551616\"", "1.5", "false", "\"\"", "[]", "{}", "1e20", "18446744073709551616.0", "-1.0", "-0.5"]
        }
        Ty::S(Sc::Bool) => &["\"true\"", "\"false\"", "0", "1", "\"\"", "[]", "{}", "1.0", "\"True\""],
        Ty::S(Sc::Float) => &["true", "\"abc\"", "\"\"", "[]", "{}", "1e39", "-1e39", "3.5e38", "\"1e39\"", "\"1,5\"", "\"0x1\"", "\" 1\"", "\"infinite\"", "\"--1\"", "\"-1e39\""],
        Ty::S(Sc::Double) => &["true", "\"abc\"", "\"\"", "[]", "{}", "\"1e309\"", "\"1,5\"", "\"1 \"", "\"-1e309\"", "[1.5]"],
        Ty::S(Sc::String) => &["1", "true", "[]", "{}", "1.5", "[\"a\"]", "-1"],
        Ty::S(Sc::Bytes) => &["1", "true", "[]", "{}", "\"!!!!\"", "\"a\"", "\"ab=c\"", "\"=\"", "\"a b c\"", "\"é\"", "[1,2]", "\"+_+_\"", "\"YW\\n==\""],
        Ty::E(_) if is_null_enum(s, ty) => &["true", "[]", "{}", "1.5"],
        Ty::E(_) => &["2147483648", "-2147483649", "true", "[]", "{}", "1e10", "1.5", "18446744073709551615"],
        Ty::M(m) | Ty::G(m) => match wkt_name(s, m) {
            None => &["1", "true", "[]", "\"\"", "1.5", "[{}]"],
            Some(_) => unreachable!(),
        },
    };
    p(*ctx.src.pick(l))
}

/// A document for a well-known type that must be refused.
fn wrong_wkt(ctx: &mut Ctx, s: &Schema, mid: usize, name: &str) -> Option<J> {
    Some(match name {
        "Timestamp" => {
            let l = [
                "\"2021-01-01t00:00:00Z\"", "\"2021-01-01T00:00:00\"", "\"2021-01-01T00:00:00z\"", "\"0000-12-31T23:59:59Z\"", "\"10000-01-01T00:00:00Z\"", "\"2021-02-30T00:00:00Z\"",
                "\"2021-01-01T24:00:00Z\"", "\"2021-13-01T00:00:00Z\"", "\"2021-00-01T00:00:00Z\"", "\"2021-01-00T00:00:00Z\"", "\"2021-01-01T00:60:00Z\"", "\"2021-01-01 00:00:00Z\"", "\"2021-01-01\"",
                "\"2021-01-01T00:00:00.Z\"", "\"\"", "1", "{}", "true", "[]", "\"2021-01-01T00:00:00ZZ\"", "\"2021-01-01T00:00:00+1:00\"", "\"2021-1-1T00:00:00Z\"", "\"0001-01-01T00:00:00+23:59\"",
                "\"9999-12-31T23:59:59-23:59\"", "\" 2021-01-01T00:00:00Z\"", "\"2023-02-29T00:00:00Z\"", "\"1900-02-29T00:00:00Z\"", "\"-001-01-01T00:00:00Z\"", "\"２021-01-01T00:00:00Z\"",
            ];
            p(*ctx.src.pick(&l))
        }
        "Duration" => {
            let l = [
                "\"1\"", "\"\"", "\"s\"", "\"315576000001s\"", "\"-315576000001s\"", "\"1 s\"", "\"--1s\"", "\"1.s1\"", "1", "{}", "true", "\"1.5\"", "\"1sS\"", "\"99999999999999999999s\"", "\"1m\"", "\"1e3s\"", "\".5s\"", "[]",
                "\"é\"", "\"1.5.5s\"",
            ];
            p(*ctx.src.pick(&l))
        }
        "FieldMask" => p(*ctx.src.pick::<&str>(&["\"a_b\"", "\"a,b_c\"", "1", "[]", "{}", "[\"a\"]", "true", "\"a._b\""])),
        "Struct" => p(*ctx.src.pick::<&str>(&["[]", "1", "\"\"", "true", "[{}]"])),
        "ListValue" => p(*ctx.src.pick::<&str>(&["{}", "1", "\"\"", "true"])),
        "Value" => return None,
        "Empty" => p(*ctx.src.pick::<&str>(&["1", "[]", "\"\"", "true"])),
        "Any" => {
            let l = [
                "{\"@type\":1}", "{\"@type\":\"\"}", "{\"@type\":\"x/no.such.Type\"}", "{\"@type\":null}", "[]", "1", "\"\"", "{\"@type\":\"nosuch\",\"a\":1}", "{\"value\":1}", "{\"@type\":{}}", "{\"@type\":\"x/\"}", "{\"@type\":\"/\"}",
            ];
            if ctx.src.chance(1, 2) {
                p(*ctx.src.pick(&l))
            } else {
                // a well-known type without its value
                let c: Vec<usize> = (0..s.msgs.len()).filter(|&m| wkt_name(s, m).is_some()).collect();
                let t = *ctx.src.pick(&c);
                J::Obj(vec![("@type".into(), js(format!("type.googleapis.com/{}", s.msgs[t].full)))])
            }
        }
        _ => {
            let f = s.slot(mid, 1).unwrap().f;
            wrong_scalar(ctx, s, f.ty)
        }
    })
}

fn wrong_value(ctx: &mut Ctx, s: &Schema, ty: Ty) -> Option<(J, &'static str)> {
    if let Some(m) = ty.msg() {
        if let Some(n) = wkt_name(s, m) {
            let n = n.to_string();
            return Some((wrong_wkt(ctx, s, m, &n)?, "wrong-wkt"));
        }
    }
    Some((wrong_scalar(ctx, s, ty), "wrong-value"))
}

/// A document with one fault that must be refused, at any depth.
fn bad_doc(ctx: &mut Ctx, s: &Schema, mid: usize, m: &MMsg, depth: usize) -> Option<(J, &'static str)> {
    if let Some(n) = wkt_name(s, mid) {
        let n = n.to_string();
        match n.as_str() {
            "Any" if depth < 4 && ctx.src.chance(1, 2) => {
                if let Some((url, t, x)) = any_inner(s, m) {
                    let (j, why) = bad_doc(ctx, s, t, &x, depth + 1)?;
                    let mut l = if wkt_name(s, t).is_some() {
                        vec![("value".to_string(), j)]
                    } else {
                        match j {
                            J::Obj(l) => l,
                            _ => return None,
                        }
                    };
                    l.insert(0, ("@type".into(), js(url)));
                    ctx.src.shuffle(&mut l);
                    return Some((J::Obj(l), why));
                }
            }
            _ => {}
        }
        return Some((wrong_wkt(ctx, s, mid, &n)?, "wrong-wkt"));
    }
    let slots = s.slots(mid);
    let subs: Vec<u32> = m
        .fields
        .iter()
        .filter(|(n, _)| {
            let f = s.slot(mid, **n).unwrap().f;
            s.entry(f).map_or(f.ty, |x| x.1.ty).msg().is_some()
        })
        .map(|x| *x.0)
        .collect();
    if !subs.is_empty() && depth < 4 && ctx.src.chance(1, 2) {
        let n = *ctx.src.pick(&subs);
        let slot = s.slot(mid, n).unwrap();
        let mut rest = m.clone();
        let v = rest.fields.remove(&n).unwrap();
        let mut l = Peer { s, src: &mut ctx.src, plain: false }.members(mid, &rest);
        let name = Peer { s, src: &mut ctx.src, plain: false }.name(mid, &slot);
        l.retain(|x| x.0 != slot.f.name && x.0 != slot.f.json_name() && x.0 != name);
        let (j, why) = match &v {
            MVal::Msg(x) => bad_doc(ctx, s, slot.f.ty.msg().unwrap(), x, depth + 1)?,
            MVal::List(xs) => {
                let k = ctx.src.below(xs.len());
                let (b, why) = bad_doc(ctx, s, slot.f.ty.msg().unwrap(), xs[k].msg(), depth + 1)?;
                let J::Arr(mut a) = Peer { s, src: &mut ctx.src, plain: false }.value(slot.f.ty, &v, Some(slot.f)) else { unreachable!() };
                a[k] = b;
                (J::Arr(a), why)
            }
            MVal::Map(xs) => {
                let (_, vf) = s.entry(slot.f).unwrap();
                let k = ctx.src.below(xs.len());
                let (mk, x) = xs.iter().nth(k).unwrap();
                let (b, why) = bad_doc(ctx, s, vf.ty.msg().unwrap(), x.msg(), depth + 1)?;
                let J::Obj(mut o) = Peer { s, src: &mut ctx.src, plain: false }.value(slot.f.ty, &v, Some(slot.f)) else { unreachable!() };
                let kt = json::key_text(mk);
                for e in &mut o {
                    if e.0 == kt {
                        e.1 = b.clone();
                    }
                }
                (J::Obj(o), why)
            }
            _ => unreachable!(),
        };
        l.push((name, j));
        ctx.src.shuffle(&mut l);
        return Some((J::Obj(l), why));
    }
    // here
    let mut rest = m.clone();
    if slots.is_empty() || ctx.src.chance(1, 6) {
        // two members of one oneof
        let o: Vec<usize> = (0..s.msgs[mid].oneofs.len()).filter(|&o| s.msgs[mid].fields.iter().filter(|f| f.oneof == Some(o)).count() > 1).collect();
        if o.is_empty() {
            return None;
        }
        let o = *ctx.src.pick(&o);
        let members: Vec<&Field> = s.msgs[mid].fields.iter().filter(|f| f.oneof == Some(o)).collect();
        rest.fields.retain(|n, _| !members.iter().any(|f| f.num == *n));
        let a = ctx.src.below(members.len());
        let b = (a + 1 + ctx.src.below(members.len() - 1)) % members.len();
        let mut l = Peer { s, src: &mut ctx.src, plain: true }.members(mid, &rest);
        for f in [members[a], members[b]] {
            let v = gen::field_value(&mut ctx.src, s, f, 1, &Vals { json: true, unknown: false, unknown_enum: false, ..Vals::default() });
            if !matches!(&v, MVal::Msg(x) if !expressible(s, f.ty.msg().unwrap(), x)) {
                let slot = s.slot(mid, f.num).unwrap();
                let name = Peer { s, src: &mut ctx.src, plain: false }.name(mid, &slot);
                let j = Peer { s, src: &mut ctx.src, plain: false }.value(f.ty, &v, Some(f));
                l.push((name, j));
            } else {
                return None;
            }
        }
        ctx.src.shuffle(&mut l);
        return Some((J::Obj(l), "two-oneof-members"));
    }
    let slot = *ctx.src.pick(&slots);
    let f = slot.f;
    rest.fields.remove(&f.num);
    let mut l = Peer { s, src: &mut ctx.src, plain: true }.members(mid, &rest);
    let name = Peer { s, src: &mut ctx.src, plain: false }.name(mid, &slot);
    let (j, why) = if let Some((kf, vf)) = s.entry(f) {
        match ctx.src.below(4) {
            0 => (p(*ctx.src.pick::<&str>(&["[]", "1", "\"\"", "true", "[{}]"])), "not-a-map"),
            1 if kf.ty != Ty::S(Sc::String) => {
                let bad: &[&str] = match kf.ty {
                    Ty::S(Sc::Bool) => &["TRUE", "", "1", " true", "t"],
                    Ty::S(Sc::Int32 | Sc::Sint32 | Sc::Sfixed32) => &["", "a", "2147483648", "1.0", " 1", "-2147483649", "true", "1e0"],
                    Ty::S(Sc::Uint32 | Sc::Fixed32) => &["", "-1", "4294967296", "x"],
                    Ty::S(Sc::Int64 | Sc::Sint64 | Sc::Sfixed64) => &["", "9223372036854775808", "1.5"],
                    _ => &["", "-1", "18446744073709551616", "0x1"],
                };
                let k = ctx.src.pick(bad).to_string();
                let v = gen::value(&mut ctx.src, s, vf.ty, 0, &Vals { json: true, unknown: false, ..Vals::default() });
                if matches!(&v, MVal::Msg(x) if !expressible(s, vf.ty.msg().unwrap(), x)) {
                    return None;
                }
                (J::Obj(vec![(k, Peer { s, src: &mut ctx.src, plain: true }.value(vf.ty, &v, None))]), "bad-map-key")
            }
            2 if !is_value_msg(s, vf.ty) && !is_null_enum(s, vf.ty) => (J::Obj(vec![("1".into(), J::Null)]), "null-map-value"),
            _ => {
                let (b, why) = wrong_value(ctx, s, vf.ty)?;
                let k = if kf.ty == Ty::S(Sc::Bool) { "true" } else { "1" };
                (J::Obj(vec![(k.into(), b)]), why)
            }
        }
    } else if f.rep() {
        match ctx.src.below(4) {
            0 => (p(*ctx.src.pick::<&str>(&["{}", "1", "\"\"", "true", "1.5"])), "not-a-list"),
            1 if !is_value_msg(s, f.ty) && !is_null_enum(s, f.ty) => (J::Arr(vec![J::Null]), "null-list-item"),
            _ => {
                let (b, why) = wrong_value(ctx, s, f.ty)?;
                (J::Arr(vec![b]), why)
            }
        }
    } else {
        wrong_value(ctx, s, f.ty)?
    };
    l.push((name, j));
    ctx.src.shuffle(&mut l);
    Some((J::Obj(l), why))
}

pub fn junk(src: &mut Src, depth: usize) -> J {
    match src.weighted(&[2, 1, 2, 2, depth as u32, depth as u32]) {
        0 => J::Null,
        1 => J::Bool(src.chance(1, 2)),
        2 => p(["0", "-1", "1e3", "18446744073709551615", "-9223372036854775808", "1.5", "123456789012345678"][src.below(7)]),
        3 => js(gen::string(src)),
        4 => {
            let n = src.len(3);
            J::Arr((0..n).map(|_| junk(src, depth - 1)).collect())
        }
        _ => {
            let n = src.len(3);
            J::Obj((0..n).map(|_| (gen::string(src), junk(src, depth - 1))).collect())
        }
    }
}

/// The message's document with unknown members and enum names strewn in; counts them.
pub fn noisy(ctx: &mut Ctx, s: &Schema, mid: usize, m: &MMsg, count: &mut usize) -> J {
    let extra = |ctx: &mut Ctx, l: &mut Vec<(String, J)>, count: &mut usize| {
        if ctx.src.chance(1, 3) {
            let name = ["no_such_zz", "[no.such.ext]", "", "noSuch", "[", "9"][ctx.src.below(6)];
            // "" is the JSON name of a field called _
            if s.msgs[mid].fields.iter().any(|f| f.json_name() == name) {
                return;
            }
            let j = junk(&mut ctx.src, 2);
            l.push((name.into(), j));
            *count += 1;
        }
    };
    match wkt_name(s, mid).map(|x| x.to_string()).as_deref() {
        None => {
            let mut l = Vec::new();
            for slot in s.slots(mid) {
                let f = slot.f;
                let (ety, entry) = match s.entry(f) {
                    Some((k, v)) => (v.ty, Some(k)),
                    None => (f.ty, None),
                };
                let named = matches!(ety, Ty::E(_)) && ctx.src.chance(1, 3);
                let name = Peer { s, src: &mut ctx.src, plain: false }.name(mid, &slot);
                let j = match m.fields.get(&f.num) {
                    Some(MVal::Msg(x)) => noisy(ctx, s, f.ty.msg().unwrap(), x, count),
                    Some(MVal::List(xs)) => {
                        let mut a = Vec::new();
                        for x in xs {
                            if named && ctx.src.chance(1, 3) {
                                a.push(js("NO_SUCH_NAME"));
                                *count += 1;
                            }
                            a.push(match x {
                                MVal::Msg(x) => noisy(ctx, s, f.ty.msg().unwrap(), x, count),
                                x => Peer { s, src: &mut ctx.src, plain: false }.value(f.ty, x, None),
                            });
                        }
                        J::Arr(a)
                    }
                    Some(MVal::Map(xs)) => {
                        let mut o = Vec::new();
                        for (k, x) in xs {
                            let v = match x {
                                MVal::Msg(x) => noisy(ctx, s, ety.msg().unwrap(), x, count),
                                x => Peer { s, src: &mut ctx.src, plain: false }.value(ety, x, None),
                            };
                            o.push((json::key_text(k), v));
                        }
                        if named {
                            let k = if entry.is_some_and(|k| k.ty == Ty::S(Sc::Bool)) { "true" } else { "7" };
                            if !o.iter().any(|x| x.0 == k) {
                                o.push((k.into(), js("NO_SUCH_NAME")));
                                *count += 1;
                            }
                        }
                        J::Obj(o)
                    }
                    Some(v) => Peer { s, src: &mut ctx.src, plain: false }.value(f.ty, v, Some(f)),
                    None if named && !f.rep() => {
                        *count += 1;
                        js("NO_SUCH_NAME")
                    }
                    None => continue,
                };
                l.push((name, j));
            }
            extra(ctx, &mut l, count);
            ctx.src.shuffle(&mut l);
            J::Obj(l)
        }
        Some("Any") => {
            let (url, t, x) = any_inner(s, m).expect("harness: any without a form");
            let j = noisy(ctx, s, t, &x, count);
            let mut l = if wkt_name(s, t).is_some() {
                let mut l = vec![("value".to_string(), j)];
                extra(ctx, &mut l, count);
                l
            } else {
                let J::Obj(l) = j else { unreachable!() };
                l
            };
            l.push(("@type".into(), js(url)));
            ctx.src.shuffle(&mut l);
            J::Obj(l)
        }
        Some("Empty") => {
            let mut l = Vec::new();
            extra(ctx, &mut l, count);
            J::Obj(l)
        }
        Some(_) => Peer { s, src: &mut ctx.src, plain: false }.message(mid, m),
    }
}

const BITS: [&str; 36] = [
    "{", "}", "[", "]", ":", ",", "\"", "\\", "0", "-", "1e", "1e999", "-1e-999", "99999999999999999999", "\\u", "\\ud800", "null", "true", "false", "NaN", "Infinity", "\"@type\":", "\"value\":", "{}", "[]", "\"\"", "\n", "\0", "é",
    "😀", "\u{7f}", "1.5", "nul", "+1", "01", "//",
];

pub fn damage(ctx: &mut Ctx, text: &mut String, other: &str) {
    let n = 1 + ctx.src.len(3);
    let at = |src: &mut Src, t: &str| {
        let mut k = src.below(t.len() + 1);
        while !t.is_char_boundary(k) {
            k -= 1;
        }
        k
    };
    for _ in 0..n {
        let k = at(&mut ctx.src, text);
        let mut e = (k + 1 + ctx.src.len(6)).min(text.len());
        while !text.is_char_boundary(e) {
            e += 1;
        }
        match ctx.src.weighted(&[2, 4, 3, 3, 2]) {
            0 => {
                text.truncate(k);
                ctx.fault("truncate");
            }
            1 => {
                let b = *ctx.src.pick(&BITS);
                text.insert_str(k, b);
                ctx.fault("insert");
            }
            2 => {
                text.replace_range(k..e, "");
                ctx.fault("lost");
            }
            3 => {
                let b = *ctx.src.pick(&BITS);
                text.replace_range(k..e, b);
                ctx.fault("overwrite");
            }
            _ => {
                let a = at(&mut ctx.src, other);
                let mut b = (a + 1 + ctx.src.below(20)).min(other.len());
                while !other.is_char_boundary(b) {
                    b += 1;
                }
                text.insert_str(k, &other[a..b]);
                ctx.fault("splice");
            }
        }
    }
}

/// Members and values moved about in the tree: well-formed JSON of the wrong shape.
pub fn shuffle_tree(ctx: &mut Ctx, j: &mut J, pool: &[J]) {
    match j {
        J::Arr(l) if !l.is_empty() && ctx.src.chance(2, 3) => {
            let k = ctx.src.below(l.len());
            shuffle_tree(ctx, &mut l[k], pool);
        }
        J::Obj(l) if !l.is_empty() && ctx.src.chance(4, 5) => {
            let k = ctx.src.below(l.len());
            match ctx.src.below(6) {
                0 => {
                    let x = l[k].clone();
                    l.push(x);
                }
                1 => {
                    l.remove(k);
                }
                2 => {
                    let b = ctx.src.below(l.len());
                    let t = l[k].1.clone();
                    l[k].1 = l[b].1.clone();
                    l[b].1 = t;
                }
                _ => shuffle_tree(ctx, &mut l[k].1, pool),
            }
        }
        x => *x = if ctx.src.chance(1, 2) && !pool.is_empty() { ctx.src.pick(pool).clone() } else { junk(&mut ctx.src, 2) },
    }
}
pub fn subtrees(j: &J, out: &mut Vec<J>) {
    out.push(j.clone());
    match j {
        J::Arr(l) => l.iter().for_each(|x| subtrees(x, out)),
        J::Obj(l) => l.iter().for_each(|x| subtrees(&x.1, out)),
        _ => {}
    }
}

fn c13(ctx: &mut Ctx) -> R {
    let (w, vals) = world(ctx)?;
    let s = &w.s;
    let rounds = 1 + ctx.src.len(3);
    for _ in 0..rounds {
        let mid = pick_root(ctx, &w);
        let m = gen::message(&mut ctx.src, s, mid, 3, &vals);
        ctx.step(format_args!("message {} {}", s.msgs[mid].full, m.to_s()));
        let can = expressible(s, mid, &m);
        let known = if can { norm(&w, mid, &m) } else { MMsg::default() };
        if !expressible(s, mid, &known) {
            continue;
        }
        let j = Peer { s, src: &mut ctx.src, plain: false }.message(mid, &known);
        let n = 1 + ctx.src.len(4);
        for _ in 0..n {
            let deny = !ctx.src.chance(1, 3);
            let style = ctx.src.below(4);
            match ctx.src.weighted(&[3, 2, 2, 2, 4, 3, 2, 1]) {
                0 => {
                    let mut text = render(&j, &mut ctx.src, style);
                    let other = plain(&j);
                    damage(ctx, &mut text, &other);
                    ctx.step(format_args!("damaged {}", clip(&text)));
                    feed(ctx, &w, mid, &text, deny, None)?;
                }
                1 => {
                    let text = render(&j, &mut ctx.src, style);
                    let mut k = ctx.src.below(text.len());
                    while !text.is_char_boundary(k) {
                        k -= 1;
                    }
                    ctx.fault("truncate");
                    ctx.step(format_args!("cut {}", clip(&text[..k])));
                    let must = text.starts_with(['{', '[', '"']) || k == 0;
                    feed(ctx, &w, mid, &text[..k], deny, must.then_some("cut"))?;
                }
                2 => {
                    // a source that fails or ends early
                    let text = render(&j, &mut ctx.src, style);
                    let k = ctx.src.below(text.len() + 1);
                    let fault = if ctx.src.chance(2, 3) { IoFault::Error(k) } else { IoFault::Eof(k) };
                    ctx.step(format_args!("source {fault:?} of {} {}", text.len(), clip(&text)));
                    let r = read(ctx, &w, mid, &text, 2, deny, fault.clone());
                    match fault {
                        IoFault::Error(_) if r.fired => {
                            ctx.fault("read-error");
                            ensure!(r.res.is_err(), "read-error-hidden", "the source failed at {k} and reading succeeded: {}", clip(&text));
                            ensure!(r.io, "read-error-lost", "the source failed at {k}; reported as {:?}", r.res);
                        }
                        IoFault::Eof(_) if k < text.len() => {
                            ctx.fault("early-end");
                            let must = text.starts_with(['{', '[', '"']);
                            ensure!(!must || r.res.is_err(), "early-end-hidden", "the source ended at {k} of {}: {}", text.len(), clip(&text));
                        }
                        _ => {
                            let dm = r.res.map_err(|e| viol!("json-refused:healthy", "valid JSON refused: {e}: {}", clip(&text)))?;
                            same_json(&w, mid, &dm, &known, "healthy")?;
                        }
                    }
                }
                3 => {
                    // a deserializer that fails
                    let opts = DeserializeOptions::new().deny_unknown_fields(deny);
                    let k = 1 + ctx.src.len(3);
                    let modes: Vec<u8> = (0..k).map(|_| ctx.src.below(6) as u8).collect();
                    let hints = ctx.src.chance(1, 2);
                    let st = DeState::new(modes.clone(), hints, None);
                    let r = DynamicMessage::deserialize_with_options(w.desc(mid), SimDe { j: &j, st: &st }, &opts);
                    let dm = r.map_err(|e| viol!("json-refused:deserializer", "valid document refused: {e}: {}", plain(&j)))?;
                    same_json(&w, mid, &dm, &known, "deserializer")?;
                    let calls = st.borrow().calls;
                    let points: Vec<usize> = if calls <= 16 { (0..calls).collect() } else { (0..6).map(|_| ctx.src.below(calls)).collect() };
                    for k in points {
                        let st = DeState::new(modes.clone(), hints, Some(k));
                        st.borrow_mut().once = ctx.src.chance(1, 2);
                        let r = DynamicMessage::deserialize_with_options(w.desc(mid), SimDe { j: &j, st: &st }, &opts);
                        // members kept aside are in no fixed order, so the failing call may differ
                        let fired = st.borrow().fired;
                        if fired {
                            ctx.fault("deserializer-fails");
                            match r {
                                Err(SimErr::Injected(_)) => {}
                                Err(SimErr::Custom(e)) => return Err(viol!("de-error-lost", "failing at call {k} came out as {e}")),
                                Ok(_) => return Err(viol!("de-failure-hidden", "failing at call {k} of {calls} reported success: {}", plain(&j))),
                            }
                        }
                    }
                    ctx.step(format_args!("deserializer of {calls} calls {}", clip(&plain(&j))));
                }
                4 => {
                    let Some((b, why)) = bad_doc(ctx, s, mid, &known, 0) else { continue };
                    let text = render(&b, &mut ctx.src, style);
                    ctx.fault("invalid-value");
                    ctx.count("bad", why);
                    ctx.step(format_args!("invalid {why} {}", clip(&text)));
                    feed(ctx, &w, mid, &text, deny, Some(why))?;
                    let how = ctx.src.below(READERS);
                    let r = read(ctx, &w, mid, &text, how, deny, IoFault::None);
                    ensure!(r.res.is_err(), format!("json-accepted:{why}"), "{why}: reader {how} accepted {}", clip(&text));
                }
                5 => {
                    let mut c = 0;
                    let b = noisy(ctx, s, mid, &known, &mut c);
                    let text = render(&b, &mut ctx.src, style);
                    ctx.step(format_args!("unknown {c} deny {deny} {}", clip(&text)));
                    if c > 0 {
                        ctx.fault("unknown-members");
                    }
                    let how = ctx.src.below(READERS);
                    let r = read(ctx, &w, mid, &text, how, deny, IoFault::None);
                    match r.res {
                        Ok(dm) => {
                            ensure!(c == 0 || !deny, "unknown-accepted", "unknown members accepted although denied: {}", clip(&text));
                            same_json(&w, mid, &dm, &known, "with-unknown")?;
                        }
                        Err(e) => ensure!(c > 0 && deny, "unknown-refused", "reader {how} refused although unknown members are to be ignored ({c} of them): {e}: {}", clip(&text)),
                    }
                }
                6 => {
                    let mut pool = Vec::new();
                    subtrees(&j, &mut pool);
                    let mut t = j.clone();
                    for _ in 0..1 + ctx.src.len(3) {
                        shuffle_tree(ctx, &mut t, &pool);
                    }
                    let text = render(&t, &mut ctx.src, style);
                    ctx.fault("wrong-shape");
                    ctx.step(format_args!("reshaped {}", clip(&text)));
                    feed(ctx, &w, mid, &text, deny, None)?;
                    let r = read(ctx, &w, mid, &text, 4, deny, IoFault::None);
                    if let Ok(dm) = r.res {
                        well_typed(&dm)?;
                    }
                }
                _ => {
                    // nesting without end
                    let rec = s.msgs[mid].fields.iter().find(|f| f.ty.msg() == Some(mid)).map(|f| f.json_name());
                    let n = [30, 80, 500, 5_000, 100_000, 90 + ctx.src.below(37)][ctx.src.below(6)];
                    let (open, close, must) = match (rec, ctx.src.below(5)) {
                        (Some(r), 0) => {
                            let f = s.msgs[mid].fields.iter().find(|f| f.json_name() == r).unwrap();
                            if f.rep() {
                                (format!("{{{:?}:[", r), "]}".to_string(), n > 130)
                            } else {
                                (format!("{{{:?}:", r), "}".to_string(), n > 130)
                            }
                        }
                        (_, 1) => ("[".to_string(), "]".to_string(), n > 130),
                        (_, 2) => ("{\"a\":".to_string(), "}".to_string(), deny && n > 130),
                        (_, 3) => ("{\"@type\":\"type.googleapis.com/google.protobuf.Any\",\"value\":".to_string(), "}".to_string(), deny && n > 130),
                        // what is ignored may be nested to any depth
                        _ => ("{\"no_such_zz\":".to_string(), "}".to_string(), deny && n > 130),
                    };
                    let whole = ctx.src.chance(1, 2);
                    let inner = if open.ends_with('[') && open.len() > 1 { "" } else { "{}" };
                    let text = open.repeat(n) + inner + &if whole { close.repeat(n) } else { String::new() };
                    ctx.fault("deep-nesting");
                    ctx.step(format_args!("nested {n} {}", clip(&text)));
                    if (85..130).contains(&n) {
                        // more levels than the binary decoder takes
                        let r = read(ctx, &w, mid, &text, 0, deny, IoFault::None);
                        if let Ok(dm) = r.res {
                            let back = DynamicMessage::decode(w.desc(mid), dm.encode_to_vec().as_slice());
                            if let Err(e) = back {
                                let limit = n > 100 && e.to_string().contains("recursion limit");
                                return Err(viol!(if limit { "json-nesting-over-binary-limit" } else { "read-unencodable" }, "{n} nested messages are read from JSON but their encoding is refused: {e}"));
                            }
                        }
                        continue;
                    }
                    feed(ctx, &w, mid, &text, deny, (must || !whole).then_some("nested"))?;
                }
            }
        }
    }
    Ok(())
}
