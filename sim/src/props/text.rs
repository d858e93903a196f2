//! The text format over simulated links and sinks: C14, C15.
use super::*;
use crate::io::SimFmt;
use crate::text::{expandable, Printer, Toks};
use crate::wire::norm_any;
use crate::{ensure, viol};
use prost::Message as _;
use prost_reflect::text_format::{FormatOptions, ParseError};
use prost_reflect::{DynamicMessage, ReflectMessage, UnknownField, Value};
use std::fmt::Write as _;

const REAL: &[&str] = &["prost-reflect DescriptorPool, DynamicMessage, text format printer and parser"];
const STUB: &[&str] = &["formatting sinks", "peers that write text (reference printer)", "schemas and messages (generated)"];
const ASSUME: &[&str] =
    &["the harness's own text printer, wire codec and schema model are correct", "generated schemas and messages are representative"];

const WKTS: [&[&str]; 4] = [&[], &["any"], &["any", "struct", "wrappers"], &["any", "timestamp", "duration", "field_mask"]];

fn world(ctx: &mut Ctx) -> R<(World, Vals)> {
    let c = Cfg {
        files: (1, 2),
        msgs: 1 + ctx.src.below(3),
        fields: 3 + ctx.src.below(7),
        relative: false,
        wkt: WKTS[ctx.src.below(WKTS.len())],
        ..Cfg::default()
    };
    let w = World::new(ctx, c)?;
    let any: Vec<usize> = (0..w.s.msgs.len()).filter(|&m| !w.s.msgs[m].map_entry).collect();
    Ok((w, Vals { any, any_odd: true, ..Vals::default() }))
}

#[derive(Clone, Copy, Debug)]
pub struct Opt {
    pretty: bool,
    skip_unknown: bool,
    skip_default: bool,
    index: bool,
    expand: bool,
}
impl Opt {
    pub fn random(src: &mut Src) -> Opt {
        Opt {
            pretty: src.chance(1, 2),
            skip_unknown: !src.chance(1, 2),
            skip_default: !src.chance(1, 3),
            index: src.chance(1, 3),
            expand: !src.chance(1, 3),
        }
    }
    pub fn real(&self) -> FormatOptions {
        FormatOptions::new()
            .pretty(self.pretty)
            .skip_unknown_fields(self.skip_unknown)
            .skip_default_fields(self.skip_default)
            .print_message_fields_in_index_order(self.index)
            .expand_any(self.expand)
    }
}

/// Unknown fields anywhere, also inside expandable Any values.
fn any_unknown(s: &Schema, mid: usize, m: &MMsg) -> bool {
    if m.has_unknown() {
        return true;
    }
    // what normalising drops can only be unknown fields inside Any
    let mut stripped = norm_any(s, mid, m, expandable);
    s.normalise(mid, &mut stripped);
    let kept = norm_keep(s, mid, m);
    canon_msg(&stripped) != canon_msg(&kept)
}
/// As `norm_any`, but keeping unknown fields inside Any.
fn norm_keep(s: &Schema, mid: usize, m: &MMsg) -> MMsg {
    let mut out = m.clone();
    if s.msgs[mid].full == "google.protobuf.Any" {
        if let (Some(MVal::Str(url)), Some(MVal::Bytes(b))) = (m.fields.get(&1), m.fields.get(&2)) {
            if let (true, Some(t)) = (expandable(url), url.rsplit_once('/').and_then(|x| s.find_msg(x.1))) {
                if let Ok(inner) = crate::wire::decode(s, t, b) {
                    let b = crate::wire::encode(s, t, &canon_msg(&norm_keep(s, t, &inner)));
                    out.fields.remove(&2);
                    if !b.is_empty() {
                        out.fields.insert(2, MVal::Bytes(b));
                    }
                }
            }
        }
        return out;
    }
    for (n, v) in out.fields.iter_mut() {
        let slot = s.slot(mid, *n).expect("harness: unknown field");
        let ty = match s.entry(slot.f) {
            Some((_, vf)) => vf.ty,
            None => slot.f.ty,
        };
        let Some(t) = ty.msg() else { continue };
        let fix = |v: &mut MVal| {
            if let MVal::Msg(x) = v {
                *x = norm_keep(s, t, x);
            }
        };
        match v {
            MVal::List(l) => l.iter_mut().for_each(fix),
            MVal::Map(mm) => mm.values_mut().for_each(fix),
            v => fix(v),
        }
    }
    out
}

fn same_text(w: &World, mid: usize, d: &DynamicMessage, want: &MMsg, what: &str) -> R {
    let got = canon_msg(&norm_any(&w.s, mid, &observe(d)?, expandable));
    let want = canon_msg(&norm_any(&w.s, mid, want, expandable));
    ensure!(got == want, format!("text:{what}"), "{what}: {} is {} instead of {}", d.descriptor().full_name(), got.to_s(), want.to_s());
    Ok(())
}

fn clip(t: &str) -> String {
    let mut s: String = t.chars().take(300).collect();
    if s.len() < t.len() {
        s.push('…');
    }
    s
}

fn parse(w: &World, mid: usize, text: &str, what: &str) -> R<DynamicMessage> {
    DynamicMessage::parse_text_format(w.desc(mid), text)
        .map_err(|e| viol!(format!("text-refused:{what}"), "{what}: valid text refused: {e}: {}", clip(text)))
}

/// The names at the outermost level of text printed in pretty form.
fn outer_names(text: &str) -> Vec<String> {
    text.split('\n')
        .filter(|l| !l.is_empty() && !l.starts_with([' ', '}']))
        .map(|l| {
            if l.starts_with('[') {
                l.split_once(']').map_or(l, |x| x.0).to_string() + "]"
            } else {
                l.split([':', ' ']).next().unwrap().to_string()
            }
        })
        .collect()
}

fn check_outline(w: &World, mid: usize, m: &MMsg, o: Opt, text: &str) -> R {
    let s = &w.s;
    if !o.pretty || s.msgs[mid].full == "google.protobuf.Any" {
        return Ok(());
    }
    let mut want: Vec<String> = Vec::new();
    let mut fields: Vec<&Field> = s.msgs[mid].fields.iter().collect();
    if !o.index {
        fields.sort_by_key(|f| f.num);
    }
    let proto3 = s.files[s.msgs[mid].file].proto3;
    for f in fields {
        let implicit = !s.presence(f, proto3);
        if m.fields.contains_key(&f.num) || (!o.skip_default && implicit) {
            want.push(match f.ty {
                Ty::G(g) => s.msgs[g].name.clone(),
                _ => f.name.clone(),
            });
        }
    }
    let mut tail: Vec<(u32, String)> = Vec::new();
    for (n, _) in &m.fields {
        if let Some(e) = s.slot(mid, *n).unwrap().ext {
            tail.push((*n, format!("[{}]", s.exts[e].full)));
        }
    }
    if !o.skip_unknown {
        for (n, us) in &m.unk {
            tail.extend(us.iter().map(|_| (*n, n.to_string())));
        }
    }
    tail.sort_by_key(|x| x.0);
    want.extend(tail.into_iter().map(|x| x.1));
    let got = outer_names(text);
    ensure!(got == want, "text-outline", "{o:?}: prints the fields {got:?} instead of {want:?}");
    Ok(())
}

// ---------------------------------------------------------------- C14

pub const C14: Prop = Prop {
    id: "C14",
    run: c14,
    quick: 400_000,
    thorough: 6_000_000,
    fork: false,
    rule: "a run generates a schema and messages, relays each as text through printers with different options, parses text a reference printer spelled in arbitrary ways, and merges text that arrives in pieces, comparing with the model each time; non-trivial when at least two texts were parsed, distinct by event log",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

fn c14(ctx: &mut Ctx) -> R {
    let (w, vals) = world(ctx)?;
    let rounds = 1 + ctx.src.len(2);
    for _ in 0..rounds {
        let mid = if ctx.src.chance(1, 12) && w.s.find_msg("google.protobuf.Any").is_some() {
            w.s.find_msg("google.protobuf.Any").unwrap()
        } else {
            gen::root(&mut ctx.src, &w.s)
        };
        let m = gen::message(&mut ctx.src, &w.s, mid, 3, &vals);
        ctx.step(format_args!("message {} {}", w.s.msgs[mid].full, m.to_s()));
        // relays that print and parse
        let mut dm = to_dyn(&w.s, w.desc(mid), mid, &m);
        let hops = 1 + ctx.src.len(2);
        for _ in 0..hops {
            let now = observe(&dm)?;
            let o = Opt::random(&mut ctx.src);
            let text = match ctx.src.below(5) {
                0 => format!("{dm}"),
                1 => format!("{dm:#}"),
                _ => {
                    let t = dm.to_text_format_with_options(&o.real());
                    check_outline(&w, mid, &now, o, &t)?;
                    if !o.skip_unknown && any_unknown(&w.s, mid, &now) {
                        // what it prints of unknown fields is not meant to be parsed
                        ctx.probe("unknown-printed");
                        dm.to_text_format_with_options(&o.real_skipping())
                    } else {
                        t
                    }
                }
            };
            ctx.step(format_args!("text {o:?} {}", clip(&text)));
            let back = parse(&w, mid, &text, "printed")?;
            same_text(&w, mid, &back, &m, "printed")?;
            well_typed(&back)?;
            dm = back;
        }
        // a peer with a spelling of its own
        let known = norm_any(&w.s, mid, &m, expandable);
        let plain = ctx.src.chance(1, 10);
        let text = Printer { s: &w.s, src: &mut ctx.src, any: true, plain }.message(mid, &known);
        ctx.step(format_args!("peer text {}", clip(&text)));
        ctx.count("op", "peer-text");
        let back = parse(&w, mid, &text, "peer")?;
        same_text(&w, mid, &back, &m, "peer")?;
        // the same in pieces, with a restart in between
        if w.s.msgs[mid].full != "google.protobuf.Any" {
            let ents = Printer { s: &w.s, src: &mut ctx.src, any: true, plain: false }.entries(mid, &known);
            let mut dm = DynamicMessage::new(w.desc(mid));
            let mut i = 0;
            let mut pieces = 0;
            while i < ents.len() || pieces == 0 {
                let k = (1 + ctx.src.len(4)).min(ents.len() - i);
                let toks: Toks = ents[i..i + k].concat();
                let t = Printer { s: &w.s, src: &mut ctx.src, any: true, plain: false }.join(&toks);
                i += k;
                pieces += 1;
                dm.merge_text_format(&t).map_err(|e| viol!("text-refused:piece", "valid piece refused: {e}: {}", clip(&t)))?;
                if ctx.src.chance(1, 8) {
                    ctx.fault("restart");
                    let b = dm.encode_to_vec();
                    dm = DynamicMessage::decode(w.desc(mid), b.as_slice()).map_err(|e| viol!("restart-refused", "own encoding refused: {e}"))?;
                }
            }
            if pieces > 1 {
                ctx.fault("split-text");
            }
            ctx.step(format_args!("merged {pieces} pieces"));
            same_text(&w, mid, &dm, &m, "pieces")?;
        }
        // values on their own
        for (f, v) in to_dyn(&w.s, w.desc(mid), mid, &known).fields() {
            let text = format!("{v}");
            let group = f.is_group().then(|| f.kind().as_message().unwrap().name().to_string());
            let entry = format!("{}: {text}", group.as_deref().unwrap_or(f.name()));
            let back = parse(&w, mid, &entry, "value")?;
            let mut one = MMsg::default();
            one.fields.insert(f.number(), known.fields[&f.number()].clone());
            same_text(&w, mid, &back, &one, "value")?;
        }
    }
    Ok(())
}

impl Opt {
    pub fn real_skipping(&self) -> FormatOptions {
        Opt { skip_unknown: true, ..*self }.real()
    }
}

// ---------------------------------------------------------------- C15

pub const C15: Prop = Prop {
    id: "C15",
    run: c15,
    quick: 400_000,
    thorough: 6_000_000,
    fork: false,
    rule: "a run generates a schema and messages, formats them into sinks that fail at a chosen point, damages valid text (cuts, edits, swaps, invalid entries, deep nesting) and parses or merges it; non-trivial when at least one fault fired, distinct by event log",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

fn check_error(e: &ParseError, text: &str, within: Option<(usize, usize)>) -> R {
    use miette::Diagnostic;
    let msg = e.to_string();
    ensure!(!msg.is_empty(), "error-empty", "an error without text");
    let src = e.source_code().ok_or_else(|| viol!("error-source", "error without source: {msg}"))?;
    let mut n = 0;
    for l in e.labels().into_iter().flatten() {
        n += 1;
        let (a, b) = (l.offset(), l.offset() + l.len());
        ensure!(
            b <= text.len() && text.is_char_boundary(a) && text.is_char_boundary(b),
            "error-span",
            "{msg}: points at {a}..{b} of an input of {} bytes: {}",
            text.len(),
            clip(text)
        );
        ensure!(src.read_span(l.inner(), 0, 0).is_ok(), "error-span", "{msg}: the span {a}..{b} cannot be shown");
        if let Some((x, y)) = within {
            ensure!(a >= x && a <= y, "error-elsewhere", "{msg}: points at {a}..{b}, the fault is at {x}..{y} of {}", clip(text));
        }
    }
    if within.is_some() {
        ensure!(n > 0 || msg.contains("end of"), "error-no-span", "{msg}: does not point into the input");
    }
    Ok(())
}

fn sinks(ctx: &mut Ctx, dm: &DynamicMessage) -> R {
    // the message, or one of its values
    let vals: Vec<Value> = dm.fields().map(|(_, v)| v.clone()).collect();
    let value = if !vals.is_empty() && ctx.src.chance(1, 4) { Some(ctx.src.pick(&vals).clone()) } else { None };
    let unknown: Vec<&UnknownField> = dm.unknown_fields().collect();
    let unknown = if !unknown.is_empty() && ctx.src.chance(1, 4) { Some(*ctx.src.pick(&unknown)) } else { None };
    let alt = ctx.src.chance(1, 2);
    let put = |out: &mut SimFmt| match (&value, alt) {
        _ if unknown.is_some() => match (unknown.unwrap(), alt) {
            (u, false) => write!(out, "{u}"),
            (u, true) => write!(out, "{u:#}"),
        },
        (None, false) => write!(out, "{dm}"),
        (None, true) => write!(out, "{dm:#}"),
        (Some(v), false) => write!(out, "{v}"),
        (Some(v), true) => write!(out, "{v:#}"),
    };
    let mut whole = SimFmt::new(None, false, false);
    put(&mut whole).map_err(|_| viol!("sink-refused", "formatting into a healthy sink failed"))?;
    let full = whole.out;
    // at a few points, or at every one of them
    let sweep = full.len() <= 400 && ctx.src.chance(1, 10);
    let n = if sweep { full.len() } else { 1 + ctx.src.len(3) };
    let (partial, once) = (ctx.src.chance(1, 2), ctx.src.chance(1, 2));
    for i in 0..n {
        let (room, partial, once) = if sweep {
            (i, partial, once)
        } else {
            let room = match ctx.src.below(5) {
                0 => full.len(),
                1 => full.len().saturating_sub(1),
                2 => 0,
                _ => ctx.src.below(full.len() + 1),
            };
            (room, ctx.src.chance(1, 2), ctx.src.chance(1, 2))
        };
        let mut sink = SimFmt::new(Some(room), partial, once);
        let r = put(&mut sink);
        if !sweep || i == 0 {
            ctx.step(format_args!("format {} bytes into {room}, partial {partial} once {once}", full.len()));
        }
        if room < full.len() {
            ctx.fault(if once { "sink-fails-once" } else { "sink-full" });
            ensure!(r.is_err(), "sink-failure-hidden", "formatting {} bytes into {room} reported success", full.len());
            ensure!(sink.refused == 1, "sink-retried", "the sink was used again after it failed");
            ensure!(full.starts_with(&sink.out), "sink-not-prefix", "the sink holds {:?}, which does not begin {:?}", clip(&sink.out), clip(&full));
        } else {
            ensure!(r.is_ok() && sink.out == full, "sink-differs", "a sink with room got {:?} instead of {:?}", clip(&sink.out), clip(&full));
        }
    }
    let mut again = SimFmt::new(None, false, false);
    put(&mut again).map_err(|_| viol!("sink-refused", "formatting into a healthy sink failed after a failing one"))?;
    ensure!(again.out == full, "sink-changed", "formatting again gives other text");
    Ok(())
}

/// Text that must be refused: an entry that is wrong by itself.
fn bad_entry(ctx: &mut Ctx, w: &World, mid: usize) -> Option<(Toks, &'static str)> {
    let s = &w.s;
    let t = |x: &[&str]| -> Toks { x.iter().map(|x| x.to_string()).collect() };
    let slots = s.slots(mid);
    if slots.is_empty() || ctx.src.chance(1, 6) {
        return Some(match ctx.src.below(8) {
            0 => (t(&["no_such_field_zz", ":", "1"]), "unknown-field"),
            1 => (t(&["[no.such.extension]", ":", "1"]), "unknown-extension"),
            2 => (t(&["[type.googleapis.com/no.such.Type]", "{", "}"]), "unknown-any"),
            3 => (vec![format!("[type.googleapis.com/{}]", s.msgs[mid].full), "{".into(), "}".into()], "any-elsewhere"),
            4 => (t(&["1", ":", "1"]), "numeric-name"),
            5 => (t(&["}"]), "stray-bracket"),
            6 => (t(&["@"]), "bad-token"),
            _ => (t(&["no_such_field_zz", "{", "}"]), "unknown-message-field"),
        });
    }
    let slot = *ctx.src.pick(&slots);
    let f = slot.f;
    let name = match (slot.ext, f.ty) {
        (Some(e), _) => format!("[{}]", s.exts[e].full),
        (None, Ty::G(g)) => s.msgs[g].name.clone(),
        _ => f.name.clone(),
    };
    if ctx.src.chance(1, 5) {
        let (v, why): (&[&str], _) = match (f.ty, ctx.src.below(5)) {
            (_, 0) if !f.rep() && f.ty.msg().is_none() => (&[":", "[", "]"], "list-for-singular"),
            (_, 1) if f.rep() => (&[":", "[", ",", "]"], "empty-list-item"),
            (_, 2) => (&[":", "}"], "no-value"),
            (Ty::S(_) | Ty::E(_), 3) => (&["{", "}"], "message-for-scalar"),
            (_, 3) => (&[":", "{", ">"], "mismatched-brackets"),
            (Ty::S(_) | Ty::E(_), _) => (&["7"], "no-colon"),
            _ => (&[":", "1"], "scalar-for-message"),
        };
        let mut toks: Toks = vec![name];
        toks.extend(t(v));
        return Some((toks, why));
    }
    let ints32 = ["2147483648", "-2147483649", "0x80000000", "99999999999999999999", "\"1\"", "1.0", "true", "1e3", "0f", "inf"];
    let ints64 = ["9223372036854775808", "-9223372036854775809", "0xffffffffffffffff", "999999999999999999999", "'1'", "1.5", "t", "-"];
    let uints32 = ["4294967296", "-1", "-0x1", "0x100000000", "\"1\"", ".5", "-99999999999", "nan"];
    let uints64 = ["18446744073709551616", "-1", "0x10000000000000000", "\"\"", "1f", "false"];
    let strs = ["1", "true", "\"\\400\"", "\"\\8\"", "\"\\x\"", "\"\\u12\"", "\"\\U00110000\"", "\"\\q\"", "\"a\nb\"", "'a\0'", "inf"];
    let list: &[&str] = match f.ty {
        Ty::S(Sc::Int32 | Sc::Sint32 | Sc::Sfixed32) => &ints32,
        Ty::S(Sc::Int64 | Sc::Sint64 | Sc::Sfixed64) => &ints64,
        Ty::S(Sc::Uint32 | Sc::Fixed32) => &uints32,
        Ty::S(Sc::Uint64 | Sc::Fixed64) => &uints64,
        Ty::S(Sc::Bool) => &["2", "-1", "TRUE", "tRue", "\"true\"", "yes", "0x2", "300", "1.0"],
        Ty::S(Sc::Float | Sc::Double) => &["\"1\"", "true", "0x10", "infin", "na", "1e", "-true", "07"],
        Ty::S(Sc::String) => {
            if ctx.src.chance(1, 2) {
                &["\"\\xff\"", "\"\\303\"", "'a\\200b'", "\"\\xed\\xa0\\x80\"", "\"\\xc0\\x80\"", "\"\\ud800\""]
            } else {
                &strs
            }
        }
        Ty::S(Sc::Bytes) => &strs,
        Ty::E(_) => &["NO_SUCH_VALUE", "2147483648", "-2147483649", "\"0\"", "1.0", "-NO", "0x80000000"],
        Ty::M(_) | Ty::G(_) => &["1", "\"\"", "true", "null", "1.5"],
    };
    let v = *ctx.src.pick(list);
    let mut toks: Toks = vec![name, ":".into()];
    if let (true, true) = (v.starts_with('-'), v.len() > 1) {
        toks.push("-".into());
        toks.push(v[1..].into());
    } else {
        toks.push(v.into());
    }
    Some((toks, "bad-value"))
}

/// An entry that is refused only because of what stands beside it.
fn conflicts(ctx: &mut Ctx, s: &Schema, mid: usize, m: &MMsg) -> Option<(Vec<u32>, MMsg)> {
    let set: Vec<u32> = m
        .fields
        .keys()
        .copied()
        .filter(|n| {
            let sl = s.slot(mid, *n).unwrap();
            !sl.f.rep() && !s.is_map(sl.f)
        })
        .collect();
    if set.is_empty() {
        return None;
    }
    let n = *ctx.src.pick(&set);
    let sl = s.slot(mid, n).unwrap();
    if let (Some(o), None) = (sl.f.oneof, sl.ext) {
        let others: Vec<&Field> = s.msgs[mid].fields.iter().filter(|g| g.oneof == Some(o) && g.num != n).collect();
        if !others.is_empty() {
            let g = *ctx.src.pick(&others);
            let v = gen::field_value(&mut ctx.src, s, g, 1, &Vals { unknown: false, ..Vals::default() });
            return Some((vec![n, g.num], MMsg::default().set(g.num, v)));
        }
    }
    let mut v = m.fields[&n].clone();
    if let MVal::Msg(x) = &mut v {
        *x = MMsg::default();
    }
    if s.msgs[mid].full == "google.protobuf.Any" {
        return None;
    }
    Some((vec![n, n], MMsg::default().set(n, v)))
}

const BITS: [&str; 40] = [
    "{", "}", "<", ">", "[", "]", ":", ",", ";", "-", ".", "/", "\"", "'", "\\", "#", "0", "0x", "08", "1e", "1e999", "-1e-999", "99999999999999999999", "\"\\",
    "\"\\400\"", "\"\\U00110000\"", "\n", "\0", "é", "😀", "\u{7f}", "true", "inf", "nan", "a", "key", "value", "[a.b/c.d]", "[]", "1.f",
];

pub fn damage_text(ctx: &mut Ctx, text: &mut String, other: &str) {
    let n = 1 + ctx.src.len(3);
    let at = |src: &mut Src, t: &str| {
        let mut k = src.below(t.len() + 1);
        while !t.is_char_boundary(k) {
            k -= 1;
        }
        k
    };
    for _ in 0..n {
        match ctx.src.weighted(&[3, 4, 3, 2, 2, 1]) {
            0 => {
                let k = at(&mut ctx.src, text);
                text.truncate(k);
                ctx.fault("truncate");
            }
            1 => {
                let k = at(&mut ctx.src, text);
                let b = *ctx.src.pick(&BITS);
                text.insert_str(k, b);
                ctx.fault("insert");
            }
            2 => {
                let k = at(&mut ctx.src, text);
                let mut e = (k + 1 + ctx.src.len(6)).min(text.len());
                while !text.is_char_boundary(e) {
                    e += 1;
                }
                text.replace_range(k..e, "");
                ctx.fault("lost");
            }
            3 => {
                let k = at(&mut ctx.src, text);
                let mut e = (k + 1).min(text.len());
                while !text.is_char_boundary(e) {
                    e += 1;
                }
                let b = *ctx.src.pick(&BITS);
                text.replace_range(k..e, b);
                ctx.fault("overwrite");
            }
            4 => {
                let a = at(&mut ctx.src, other);
                let mut e = (a + 1 + ctx.src.below(20)).min(other.len());
                while !other.is_char_boundary(e) {
                    e += 1;
                }
                let k = at(&mut ctx.src, text);
                text.insert_str(k, &other[a..e]);
                ctx.fault("splice");
            }
            _ => {
                *text = (0..ctx.src.len(12)).map(|_| BITS[ctx.src.below(BITS.len())]).collect();
                ctx.fault("garbage");
            }
        }
    }
}

/// A message survived: whatever is in it is valid and usable.
fn usable(w: &World, mid: usize, dm: &DynamicMessage) -> R {
    well_typed(dm)?;
    let now = observe(dm)?;
    let b = dm.encode_to_vec();
    let back = DynamicMessage::decode(w.desc(mid), b.as_slice()).map_err(|e| viol!("parsed-unencodable", "what was parsed does not decode: {e}: {}", now.to_s()))?;
    same(&back, &now, "parsed")?;
    let t = dm.to_text_format();
    let back = parse(w, mid, &t, "parsed")?;
    same_text(w, mid, &back, &now, "parsed")
}

fn feed(ctx: &mut Ctx, w: &World, mid: usize, text: &str, must_fail: Option<&str>, within: Option<(usize, usize)>) -> R<bool> {
    let r = DynamicMessage::parse_text_format(w.desc(mid), text);
    // merging into a fresh message is the same
    let mut fresh = DynamicMessage::new(w.desc(mid));
    let r2 = fresh.merge_text_format(text);
    well_typed(&fresh)?;
    observe(&fresh)?;
    match (&r, &r2) {
        (Ok(m), Ok(())) => {
            // maps inside Any are encoded in any order
            let n = |m: &MMsg| canon_msg(&norm_any(&w.s, mid, m, expandable));
            ensure!(n(&observe(m)?) == n(&observe(&fresh)?), "merge-vs-parse", "merging into an empty message differs from parsing: {}", clip(text))
        }
        (Err(a), Err(b)) => {
            ensure!(a.to_string() == b.to_string(), "merge-vs-parse", "merging and parsing report {a} and {b}")
        }
        _ => return Err(viol!("merge-vs-parse", "parsing is_ok {} but merging is_ok {}: {}", r.is_ok(), r2.is_ok(), clip(text))),
    }
    match r {
        Ok(m) => {
            ctx.probe("accepted");
            ensure!(must_fail.is_none(), format!("text-accepted:{}", must_fail.unwrap()), "{}: accepted as {}: {}", must_fail.unwrap(), observe(&m)?.to_s(), clip(text));
            usable(w, mid, &m)?;
            Ok(true)
        }
        Err(e) => {
            ctx.probe("refused");
            check_error(&e, text, within)?;
            // the message that was being merged into can be used again
            let s = fresh.encode_to_vec();
            DynamicMessage::decode(w.desc(mid), s.as_slice()).map_err(|e| viol!("failed-unencodable", "after a failed merge the message does not decode: {e}"))?;
            fresh.clear();
            same(&fresh, &MMsg::default(), "cleared")?;
            Ok(false)
        }
    }
}

fn c15(ctx: &mut Ctx) -> R {
    let (w, vals) = world(ctx)?;
    let rounds = 1 + ctx.src.len(3);
    for _ in 0..rounds {
        let mid = if ctx.src.chance(1, 12) && w.s.find_msg("google.protobuf.Any").is_some() {
            w.s.find_msg("google.protobuf.Any").unwrap()
        } else {
            gen::root(&mut ctx.src, &w.s)
        };
        let m = gen::message(&mut ctx.src, &w.s, mid, 3, &vals);
        ctx.step(format_args!("message {} {}", w.s.msgs[mid].full, m.to_s()));
        let dm = to_dyn(&w.s, w.desc(mid), mid, &stable(&w.s, mid, &m, false, expandable));
        sinks(ctx, &dm)?;
        let known = norm_any(&w.s, mid, &m, expandable);
        let n = 1 + ctx.src.len(4);
        for _ in 0..n {
            match ctx.src.weighted(&[4, 3, 3, 2, 1, 1]) {
                0 => {
                    // any damage at all
                    let mut text = if ctx.src.chance(1, 2) {
                        Printer { s: &w.s, src: &mut ctx.src, any: true, plain: false }.message(mid, &known)
                    } else {
                        let mut o = Opt::random(&mut ctx.src);
                        o.skip_unknown = ctx.src.chance(1, 2);
                        to_dyn(&w.s, w.desc(mid), mid, &known).to_text_format_with_options(&o.real())
                    };
                    let other = Printer { s: &w.s, src: &mut ctx.src, any: true, plain: true }.message(mid, &known);
                    damage_text(ctx, &mut text, &other);
                    ctx.step(format_args!("damaged {}", clip(&text)));
                    feed(ctx, &w, mid, &text, None, None)?;
                }
                1 => {
                    // an invalid entry among valid ones
                    let Some((bad, why)) = bad_entry(ctx, &w, mid) else { continue };
                    let ents = Printer { s: &w.s, src: &mut ctx.src, any: true, plain: false }.entries(mid, &known);
                    let any = w.s.msgs[mid].full == "google.protobuf.Any";
                    let k = if any { 0 } else { ctx.src.below(ents.len() + 1) };
                    let toks: Toks = if any { vec![] } else { ents[..k].concat() };
                    let after: Toks = if any { vec![] } else { ents[k..].concat() };
                    if any && why == "any-elsewhere" {
                        continue;
                    }
                    let mut p = Printer { s: &w.s, src: &mut ctx.src, any: true, plain: false };
                    // within a conflicting context the first fault may be another
                    let head = p.join(&toks) + "\n";
                    let mid_ = bad.join(" ");
                    let tail = p.join(&after);
                    let text = format!("{head}{mid_} {tail}");
                    ctx.fault("invalid-entry");
                    ctx.count("bad", why);
                    ctx.step(format_args!("invalid {why}: {}", clip(&text)));
                    // an unclosed or missing value may be blamed on what follows
                    let end = (head.len() + mid_.len() + 1 + tail.find(' ').unwrap_or(tail.len())).min(text.len());
                    feed(ctx, &w, mid, &text, Some(why), Some((head.len(), end.max(head.len() + mid_.len()))))?;
                }
                2 => {
                    // cut between two tokens
                    let toks = Printer { s: &w.s, src: &mut ctx.src, any: true, plain: false }.body(mid, &known);
                    let k = ctx.src.below(toks.len() + 1);
                    let mut open = 0i32;
                    for t in &toks[..k] {
                        match t.as_str() {
                            "{" | "<" | "[" => open += 1,
                            "}" | ">" | "]" => open -= 1,
                            _ => {}
                        }
                    }
                    let dangling = matches!(toks[..k].last().map(|x| x.as_str()), Some(":" | "-"));
                    let text = Printer { s: &w.s, src: &mut ctx.src, any: true, plain: false }.join(&toks[..k]);
                    ctx.fault("truncate");
                    ctx.step(format_args!("cut {}", clip(&text)));
                    let must = if open != 0 { Some("unclosed") } else if dangling { Some("dangling") } else { None };
                    let ok = feed(ctx, &w, mid, &text, must, None)?;
                    if k == toks.len() {
                        ensure!(ok, "text-refused:whole", "valid text refused: {}", clip(&text));
                    }
                }
                3 => {
                    // two values for one field or oneof
                    let Some((nums, extra)) = conflicts(ctx, &w.s, mid, &known) else { continue };
                    let mut a = MMsg::default();
                    a.fields.insert(nums[0], known.fields[&nums[0]].clone());
                    let mut p = Printer { s: &w.s, src: &mut ctx.src, any: true, plain: false };
                    let (x, y) = (p.body(mid, &a), p.body(mid, &extra));
                    let toks: Toks = if ctx.src.chance(1, 2) { [x, y].concat() } else { [y, x].concat() };
                    let text = Printer { s: &w.s, src: &mut ctx.src, any: true, plain: false }.join(&toks);
                    // a value that leaves the field unset cannot conflict
                    ctx.fault("conflicting-entry");
                    ctx.step(format_args!("conflict {}", clip(&text)));
                    feed(ctx, &w, mid, &text, Some("conflict"), None)?;
                }
                4 => {
                    // tokens swapped, doubled or lost
                    let mut toks = Printer { s: &w.s, src: &mut ctx.src, any: true, plain: false }.body(mid, &known);
                    for _ in 0..1 + ctx.src.len(3) {
                        if toks.is_empty() {
                            break;
                        }
                        let (a, b) = (ctx.src.below(toks.len()), ctx.src.below(toks.len()));
                        match ctx.src.below(3) {
                            0 => toks.swap(a, b),
                            1 => {
                                let t = toks[a].clone();
                                toks.insert(b, t);
                            }
                            _ => {
                                toks.remove(a);
                            }
                        }
                    }
                    ctx.fault("tokens");
                    let text = Printer { s: &w.s, src: &mut ctx.src, any: true, plain: false }.join(&toks);
                    ctx.step(format_args!("tokens {}", clip(&text)));
                    feed(ctx, &w, mid, &text, None, None)?;
                }
                _ => {
                    // nesting without end
                    let rec = w.s.msgs[mid].fields.iter().find(|f| f.ty.msg() == Some(mid)).map(|f| match f.ty {
                        Ty::G(g) => w.s.msgs[g].name.clone(),
                        _ => f.name.clone(),
                    });
                    let n = [50, 500, 5_000, 100_000][ctx.src.below(4)];
                    let (text, must) = match (rec, ctx.src.below(4)) {
                        (Some(r), 0) => (format!("{r} {{ ").repeat(n), true),
                        (Some(r), 1) => (format!("{r}<").repeat(n) + &">".repeat(n), false),
                        (_, 2) => ("[".repeat(n), true),
                        (_, 3) => ("no_such_field { ".repeat(n), true),
                        _ => {
                            let f = w.s.msgs[mid].fields.first().map_or("x".into(), |f| f.name.clone());
                            (format!("{f}: ") + &"[".repeat(n), true)
                        }
                    };
                    ctx.fault("deep-nesting");
                    ctx.step(format_args!("nested {n}: {}", clip(&text)));
                    feed(ctx, &w, mid, &text, if must { Some("nested") } else { None }, None)?;
                }
            }
        }
        // a message whose merge fails half way
        let mut dm = to_dyn(&w.s, w.desc(mid), mid, &m);
        if let Some((bad, why)) = bad_entry(ctx, &w, mid) {
            if !(w.s.msgs[mid].full == "google.protobuf.Any" && why == "any-elsewhere") {
                let text = bad.join(" ");
                let r = dm.merge_text_format(&text);
                ensure!(r.is_err(), format!("text-accepted:{why}"), "{why}: merged: {text}");
                well_typed(&dm)?;
                let now = observe(&dm)?;
                let back = DynamicMessage::decode(w.desc(mid), dm.encode_to_vec().as_slice())
                    .map_err(|e| viol!("failed-unencodable", "after a failed merge the message does not decode: {e}"))?;
                same(&back, &now, "failed-merge")?;
            }
        }
    }
    Ok(())
}
