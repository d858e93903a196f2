//! Binary messages over simulated links: C07, C08, C09, C10.
use super::*;
use crate::emit::file_bytes;
use crate::gen::Vals;
use crate::io::*;
use crate::wire::*;
use crate::{ensure, viol};
use prost::bytes::{Buf, Bytes};
use prost::Message as _;
use prost_reflect::{DynamicMessage, Value};

const REAL: &[&str] = &["prost-reflect DescriptorPool, DynamicMessage, UnknownField", "prost wire encoding"];
const STUB: &[&str] = &["transport (buffers and sinks)", "peers' schema files and messages (generated)"];
const ASSUME: &[&str] = &[
    "the harness's own wire codec and schema model are correct",
    "generated schemas and messages are representative",
    "nesting deeper than 80 levels is not compared",
];

fn cfg(ctx: &mut Ctx) -> Cfg {
    Cfg {
        files: (1, 2),
        msgs: 1 + ctx.src.below(3),
        fields: 3 + ctx.src.below(7),
        relative: false,
        ..Cfg::default()
    }
}

// ---------------------------------------------------------------- C08

pub const C08: Prop = Prop {
    id: "C08",
    run: c08,
    quick: 400_000,
    thorough: 8_000_000,
    fork: false,
    rule: "a run generates a schema and a stream of messages, sends them through sinks and sources cut at arbitrary places, and compares with the reference codec; non-trivial when at least two messages or layouts were exercised, distinct by event log",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

/// Decodes the same bytes through differently laid out buffers.
fn decode_layouts(ctx: &mut Ctx, d: &MessageDescriptor, b: &[u8], want: &MMsg) -> R {
    let ends = cuts(&mut ctx.src, b.len());
    let which = ctx.src.below(6);
    let name = ["slice", "bytes", "chunks", "rope", "chain", "take"][which];
    ctx.step(format_args!("decode {} bytes via {name}, {} chunks", b.len(), ends.len()));
    ctx.count("op", &format!("decode-{name}"));
    if which >= 2 && ends.len() > 1 {
        ctx.fault("split-read");
    }
    let r = match which {
        0 => DynamicMessage::decode(d.clone(), b),
        1 => DynamicMessage::decode(d.clone(), Bytes::copy_from_slice(b)),
        2 => DynamicMessage::decode(d.clone(), SimBuf::new(b, ends)),
        3 => DynamicMessage::decode(d.clone(), Rope::new(b, &ends)),
        4 => {
            let k = ctx.src.below(b.len() + 1);
            let tail = SimBuf::random(&mut ctx.src, &b[k..]);
            DynamicMessage::decode(d.clone(), Buf::chain(&b[..k], tail))
        }
        _ => {
            let mut x = b.to_vec();
            x.extend([0xff; 7]);
            let c = cuts(&mut ctx.src, x.len());
            DynamicMessage::decode(d.clone(), SimBuf::new(&x, c).take(b.len()))
        }
    };
    let m = r.map_err(|e| viol!("decode-refused", "{name}: valid bytes refused: {e}: {}", hex(b)))?;
    same(&m, want, &format!("decode-{name}"))
}

fn c08(ctx: &mut Ctx) -> R {
    let c = cfg(ctx);
    let w = World::new(ctx, c)?;
    let n = 1 + ctx.src.len(3);
    let vals = Vals::default();
    let mut stream: Vec<u8> = Vec::new();
    let mut sent: Vec<(usize, MMsg)> = Vec::new();
    for _ in 0..n {
        let mid = gen::root(&mut ctx.src, &w.s);
        let m = gen::message(&mut ctx.src, &w.s, mid, 2, &vals);
        let d = w.desc(mid);
        ctx.step(format_args!("message {} {}", w.s.msgs[mid].full, m.to_s()));
        let dm = if ctx.src.chance(1, 2) {
            to_dyn(&w.s, d.clone(), mid, &m)
        } else {
            let b = cat(records(&w.s, mid, &m, &mut Noisy(&mut ctx.src)));
            DynamicMessage::decode(d.clone(), SimBuf::random(&mut ctx.src, &b))
                .map_err(|e| viol!("decode-refused", "valid bytes refused: {e}: {}", hex(&b)))?
        };
        same(&dm, &m, "built")?;
        let len = dm.encoded_len();
        let bytes = dm.encode_to_vec();
        ensure!(bytes.len() == len, "encoded-len", "encoded_len {len} but {} bytes written: {}", bytes.len(), m.to_s());
        let back = decode(&w.s, mid, &bytes).map_err(|e| viol!("encoded-bad", "encoding is malformed: {e:?}: {} for {}", hex(&bytes), m.to_s()))?;
        ensure!(
            canon_msg(&back) == canon_msg(&m),
            "encoded-differs",
            "encoding carries {} instead of {}",
            back.to_s(),
            m.to_s()
        );
        let k = ctx.src.range(1, 3);
        for _ in 0..k {
            decode_layouts(ctx, &d, &bytes, &m)?;
        }
        // a noisy peer's encoding, in any layout
        let noisy = cat(records(&w.s, mid, &m, &mut Noisy(&mut ctx.src)));
        decode_layouts(ctx, &d, &noisy, &m)?;
        // sinks
        let delim = ctx.src.chance(1, 3);
        let mut prefix = Vec::new();
        if delim {
            put_varint(len as u64, &mut prefix);
        }
        let need = len + prefix.len();
        let room = match ctx.src.below(4) {
            0 => need,
            1 => need + 1 + ctx.src.below(20),
            2 => need.saturating_sub(1),
            _ => ctx.src.below(need + 1),
        };
        let ends = cuts(&mut ctx.src, room);
        let mut sink = SimBufMut::new(room, ends);
        ctx.step(format_args!("encode {need} bytes into room {room} delimited {delim}"));
        let r = if delim { dm.encode_length_delimited(&mut sink) } else { dm.encode(&mut sink) };
        if room < need {
            ctx.fault("short-sink");
            let e = match r {
                Ok(()) => return Err(viol!("short-sink-accepted", "encoding {need} bytes into {room} succeeded, wrote {}", sink.written().len())),
                Err(e) => e,
            };
            ensure!(sink.written().is_empty(), "short-sink-wrote", "{} bytes written into a sink that was too small", sink.written().len());
            ensure!(
                e.required_capacity() == need && e.remaining() == room,
                "short-sink-error",
                "the error reports {} required and {} remaining instead of {need} and {room}",
                e.required_capacity(),
                e.remaining()
            );
        } else {
            r.map_err(|e| viol!("sink-refused", "encoding into enough room failed: {e}"))?;
            let wr = sink.written();
            ensure!(wr.len() == need, "sink-len", "{} bytes written instead of {need}", wr.len());
            ensure!(wr.starts_with(&prefix), "sink-prefix", "length prefix is {}", hex(wr));
            let back = decode(&w.s, mid, &wr[prefix.len()..]).map_err(|e| viol!("sink-bad", "sink holds malformed bytes {e:?}: {}", hex(wr)))?;
            ensure!(canon_msg(&back) == canon_msg(&m), "sink-differs", "sink carries {} instead of {}", back.to_s(), m.to_s());
            if delim {
                ensure!(dm.encode_length_delimited_to_vec().len() == need, "delimited-vec", "encode_length_delimited_to_vec differs in length");
            }
        }
        put_len(&bytes, &mut stream);
        sent.push((mid, m));
        ctx.note(format_args!("{}", hex(&bytes)));
    }
    // the messages framed one after another on one connection
    let ends = cuts(&mut ctx.src, stream.len());
    let chunks = ends.len();
    let mut conn = SimBuf::new(&stream, ends);
    for (mid, m) in &sent {
        let mut dm = DynamicMessage::new(w.desc(*mid));
        dm.merge_length_delimited(&mut conn).map_err(|e| viol!("framed-refused", "framed message refused: {e}"))?;
        same(&dm, m, "framed")?;
    }
    ensure!(conn.remaining() == 0, "framed-rest", "{} bytes left on the connection", conn.remaining());
    ctx.step(format_args!("framed stream of {} in {chunks} chunks", sent.len()));
    Ok(())
}

// ---------------------------------------------------------------- C09

pub const C09: Prop = Prop {
    id: "C09",
    run: c09,
    quick: 450_000,
    thorough: 8_000_000,
    fork: false,
    rule: "a run generates several partial messages, encodes them in non-canonical ways, shuffles, duplicates and regroups their records, merges them piece by piece and compares with the reference merge after every piece; non-trivial when at least two pieces were merged, distinct by event log",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

fn c09(ctx: &mut Ctx) -> R {
    let c = cfg(ctx);
    let w = World::new(ctx, c)?;
    let mid = gen::root(&mut ctx.src, &w.s);
    let d = w.desc(mid);
    let vals = Vals { width: 2, ..Vals::default() };
    let mut recs: Vec<Vec<u8>> = Vec::new();
    let n = 1 + ctx.src.len(3);
    for _ in 0..n {
        let m = gen::message(&mut ctx.src, &w.s, mid, 2, &vals);
        recs.extend(records(&w.s, mid, &m, &mut Noisy(&mut ctx.src)));
    }
    extra_records(ctx, &w.s, mid, &mut recs);
    if ctx.src.chance(2, 3) {
        ctx.src.shuffle(&mut recs);
        ctx.fault("reordered");
    }
    let mut model = MMsg::default();
    let mut dm = DynamicMessage::new(d.clone());
    if ctx.src.chance(1, 4) {
        let m = gen::message(&mut ctx.src, &w.s, mid, 2, &vals);
        ctx.step(format_args!("start from {}", m.to_s()));
        dm = to_dyn(&w.s, d.clone(), mid, &m);
        model = m;
    }
    let mut whole = encode(&w.s, mid, &model);
    let mut i = 0;
    let mut last: Option<Vec<u8>> = None;
    while i < recs.len() {
        let k = 1 + ctx.src.len(4);
        let mut piece = recs[i..(i + k).min(recs.len())].concat();
        i += k;
        if let (Some(l), true) = (&last, ctx.src.chance(1, 6)) {
            // the previous piece arrives again, before or after
            ctx.fault("duplicated");
            if ctx.src.chance(1, 2) {
                piece = [l.clone(), piece].concat();
            } else {
                piece = [piece, l.clone()].concat();
            }
        }
        ctx.step(format_args!("merge {}", hex(&piece)));
        merge(&w.s, mid, &mut model, &piece).map_err(|e| viol!("harness", "harness: reference refused its own bytes {e:?}"))?;
        let r = match ctx.src.below(4) {
            0 => dm.merge(piece.as_slice()),
            1 => {
                ctx.fault("split-read");
                dm.merge(SimBuf::random(&mut ctx.src, &piece))
            }
            2 => {
                let mut x = Vec::new();
                put_len(&piece, &mut x);
                dm.merge_length_delimited(SimBuf::random(&mut ctx.src, &x))
            }
            _ => {
                // a copy of the message takes over
                let mut c = dm.clone();
                let before = observe(&dm)?;
                let r = c.merge(Bytes::from(piece.clone()));
                ensure!(observe(&dm)? == before, "clone-shared", "merging into a copy changed the original");
                dm = c;
                r
            }
        };
        r.map_err(|e| viol!("merge-refused", "valid piece refused: {e}: {}", hex(&piece)))?;
        same(&dm, &model, "merge")?;
        well_typed(&dm)?;
        whole.extend(&piece);
        last = Some(piece);
        if ctx.src.chance(1, 12) {
            ctx.fault("restart");
            let b = dm.encode_to_vec();
            dm = DynamicMessage::decode(d.clone(), b.as_slice()).map_err(|e| viol!("restart-refused", "own encoding refused: {e}"))?;
            same(&dm, &model, "restart")?;
        }
        if ctx.src.chance(1, 40) {
            ctx.count("op", "clear");
            dm.clear();
            model = MMsg::default();
            whole.clear();
            same(&dm, &model, "cleared")?;
        }
    }
    // all at once
    let one = DynamicMessage::decode(d.clone(), SimBuf::random(&mut ctx.src, &whole)).map_err(|e| viol!("decode-refused", "concatenation refused: {e}"))?;
    let mut all = MMsg::default();
    merge(&w.s, mid, &mut all, &whole).map_err(|e| viol!("harness", "harness: {e:?}"))?;
    same(&one, &all, "concatenation")?;
    if !model.has_unknown() || all == model {
        same(&dm, &all, "pieces-vs-whole")?;
    }
    ctx.step(format_args!("result {}", model.to_s()));
    Ok(())
}

/// Records that valid messages may hold but canonical encoders do not write.
fn extra_records(ctx: &mut Ctx, s: &Schema, mid: usize, recs: &mut Vec<Vec<u8>>) {
    let slots = s.slots(mid);
    if slots.is_empty() {
        return;
    }
    let n = ctx.src.len(4);
    for _ in 0..n {
        let sl = *ctx.src.pick(&slots);
        let f = sl.f;
        let mut b = Vec::new();
        if s.is_map(f) {
            // an entry without key, without value, or with either twice
            let (kf, vf) = s.entry(f).unwrap();
            let mut body = Vec::new();
            let parts = ctx.src.len(4);
            for _ in 0..parts {
                let (n, ty) = if ctx.src.chance(1, 2) { (1, kf.ty) } else { (2, vf.ty) };
                let v = gen::value(&mut ctx.src, s, ty, 1, &Vals { width: 1, ..Vals::default() });
                one(s, n, ty, &v, &mut Noisy(&mut ctx.src), &mut body);
            }
            put_key(f.num, 2, &mut b);
            put_len(&body, &mut b);
            ctx.probe("irregular-map-entry");
        } else if f.rep() && f.ty.packable() && ctx.src.chance(1, 20) {
            // more elements than anything reserves room for, packed or one by one
            let many = 1025 + ctx.src.below(200);
            let v = gen::value(&mut ctx.src, s, f.ty, 0, &Vals::default());
            let mut x = Vec::new();
            one(s, f.num, f.ty, &v, &mut crate::wire::Plain, &mut x);
            if ctx.src.chance(1, 2) {
                let mut y = x.as_slice();
                crate::wire::get_key(&mut y).unwrap();
                put_key(f.num, 2, &mut b);
                put_len(&y.repeat(many), &mut b);
            } else {
                b = x.repeat(many);
            }
            ctx.probe("long-list");
        } else if f.rep() && f.ty.packable() {
            put_key(f.num, 2, &mut b);
            put_len(&[], &mut b);
            ctx.probe("empty-packed");
        } else if f.ty.msg().is_some() {
            one(s, f.num, f.ty, &MVal::Msg(MMsg::default()), &mut Noisy(&mut ctx.src), &mut b);
            ctx.probe("empty-submessage");
        } else {
            // the default value written out
            one(s, f.num, f.ty, &s.zero(f.ty), &mut Noisy(&mut ctx.src), &mut b);
            ctx.probe("explicit-default");
        }
        let at = ctx.src.below(recs.len() + 1);
        recs.insert(at, b);
    }
}

// ---------------------------------------------------------------- C10

pub const C10: Prop = Prop {
    id: "C10",
    run: c10,
    quick: 450_000,
    thorough: 8_000_000,
    fork: false,
    rule: "a run generates a schema and valid encodings, damages them on the link (truncation, flips, splices, length and key edits, invented bytes), decodes or merges them and compares the verdict and the value with the reference decoder; non-trivial when at least one damaged message was delivered, distinct by event log",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

pub fn damage(ctx: &mut Ctx, b: &mut Vec<u8>, other: &[u8]) {
    let n = 1 + ctx.src.len(3);
    for _ in 0..n {
        if b.is_empty() {
            b.push(ctx.src.below(256) as u8);
            continue;
        }
        match ctx.src.weighted(&[4, 4, 2, 2, 2, 2, 1, 1]) {
            0 => {
                let k = ctx.src.below(b.len());
                b.truncate(k);
                ctx.fault("truncate");
            }
            1 => {
                let k = ctx.src.below(b.len());
                let bit = ctx.src.below(8);
                b[k] ^= 1 << bit;
                ctx.fault("bit-flip");
            }
            2 => {
                let k = ctx.src.below(b.len());
                b[k] = [0u8, 0xff, 0x80, 0x7f, 1, 2, 8, 10, 11, 12][ctx.src.below(10)];
                ctx.fault("byte-overwrite");
            }
            3 => {
                let k = ctx.src.below(b.len() + 1);
                let ins = ctx.src.below(256) as u8;
                b.insert(k, ins);
                ctx.fault("byte-insert");
            }
            4 => {
                let k = ctx.src.below(b.len());
                let n = (1 + ctx.src.len(6)).min(b.len() - k);
                b.drain(k..k + n);
                ctx.fault("bytes-lost");
            }
            5 => {
                if !other.is_empty() {
                    let a = ctx.src.below(other.len());
                    let e = (a + 1 + ctx.src.below(12)).min(other.len());
                    let k = ctx.src.below(b.len() + 1);
                    for (i, &x) in other[a..e].iter().enumerate() {
                        b.insert(k + i, x);
                    }
                    ctx.fault("splice");
                }
            }
            6 => {
                let a = ctx.src.below(b.len());
                let e = (a + 1 + ctx.src.below(12)).min(b.len());
                let part = b[a..e].to_vec();
                b.extend(part);
                ctx.fault("replay-part");
            }
            _ => {
                let n = ctx.src.len(20);
                *b = (0..n).map(|_| ctx.src.below(256) as u8).collect();
                ctx.fault("garbage");
            }
        }
    }
}

/// Damage aimed at the structure of the encoding.
fn smart_damage(ctx: &mut Ctx, s: &Schema, mid: usize, m: &MMsg) -> Vec<u8> {
    let mut recs = records(s, mid, m, &mut Noisy(&mut ctx.src));
    let slots = s.slots(mid);
    let n = 1 + ctx.src.len(2);
    for _ in 0..n {
        let num = if !slots.is_empty() && ctx.src.chance(3, 4) { ctx.src.pick(&slots).f.num } else { gen::unknown_number(&mut ctx.src, s, mid) };
        let mut b = Vec::new();
        match ctx.src.below(9) {
            0 => {
                // any field number with any wire type
                let wt = ctx.src.below(6) as u8;
                put_key(num, wt, &mut b);
                let body: Vec<u8> = match wt {
                    0 => vec![5],
                    1 => vec![1; 8],
                    2 => vec![2, 8, 1],
                    3 => {
                        let mut x = Vec::new();
                        put_key(num, 4, &mut x);
                        x
                    }
                    4 => vec![],
                    _ => vec![1; 4],
                };
                b.extend(body);
                ctx.fault("wrong-wire-type");
            }
            1 => {
                put_key(num, 2, &mut b);
                put_len(&[0xc3, 0x28, 0xff][..1 + ctx.src.below(3)], &mut b);
                ctx.fault("invalid-utf8");
            }
            2 => {
                put_key(num, 3, &mut b);
                if ctx.src.chance(1, 2) {
                    put_key(num + 1, 4, &mut b);
                }
                ctx.fault("unterminated-group");
            }
            3 => {
                put_key(num, ctx.src.below(3) as u8 & 2, &mut b);
                let k = ctx.src.range(9, 11);
                b.extend(vec![0xff; k]);
                b.push([1u8, 2, 0x7f][ctx.src.below(3)]);
                ctx.fault("bad-varint");
            }
            4 => {
                put_key(num, 2, &mut b);
                put_varint([1u64 << 31, u64::MAX, 1 << 63, u32::MAX as u64, 1000][ctx.src.below(5)], &mut b);
                b.push(0);
                ctx.fault("huge-length");
            }
            5 => {
                put_varint([0u64, 1, 6, 7, (num as u64) << 3 | 6, 1 << 35, u64::MAX, (1 << 32) | 8][ctx.src.below(8)], &mut b);
                b.push(1);
                ctx.fault("bad-key");
            }
            6 => {
                // packed content that is cut or of another width
                put_key(num, 2, &mut b);
                let k = 1 + ctx.src.below(11);
                let body: Vec<u8> = (0..k).map(|_| [1u8, 0x80, 0xff, 0][ctx.src.below(4)]).collect();
                put_len(&body, &mut b);
                ctx.fault("odd-packed");
            }
            7 => {
                put_key(num, 4, &mut b);
                ctx.fault("stray-end-group");
            }
            _ => {
                // a map entry with wrong parts
                put_key(num, 2, &mut b);
                let mut body = Vec::new();
                let n = 1 + ctx.src.below(3);
                for _ in 0..n {
                    let wt = ctx.src.below(6) as u8;
                    put_key(1 + ctx.src.below(3) as u32, wt, &mut body);
                    match wt {
                        0 => body.push(1),
                        1 => body.extend([0; 8]),
                        2 => body.extend([1, b'x']),
                        5 => body.extend([0; 4]),
                        _ => {}
                    }
                }
                put_len(&body, &mut b);
                ctx.fault("odd-entry");
            }
        }
        // sometimes inside a sub-message instead of at the top
        let subs: Vec<_> = slots.iter().filter(|x| matches!(x.f.ty, Ty::M(_)) && !s.is_map(x.f)).collect();
        if !subs.is_empty() && ctx.src.chance(1, 3) {
            let f = subs[ctx.src.below(subs.len())].f;
            let mut o = Vec::new();
            put_key(f.num, 2, &mut o);
            put_len(&b, &mut o);
            b = o;
        }
        let at = ctx.src.below(recs.len() + 1);
        recs.insert(at, b);
    }
    recs.concat()
}

fn c10(ctx: &mut Ctx) -> R {
    let c = cfg(ctx);
    let w = World::new(ctx, c)?;
    let vals = Vals { width: 2, ..Vals::default() };
    let n = 1 + ctx.src.len(4);
    let mut other: Vec<u8> = Vec::new();
    for _ in 0..n {
        let mid = gen::root(&mut ctx.src, &w.s);
        let d = w.desc(mid);
        let m = gen::message(&mut ctx.src, &w.s, mid, 2, &vals);
        let mut b;
        if ctx.src.chance(1, 2) {
            b = smart_damage(ctx, &w.s, mid, &m);
            if ctx.src.chance(1, 5) {
                damage(ctx, &mut b, &other);
            }
        } else {
            b = cat(records(&w.s, mid, &m, &mut Noisy(&mut ctx.src)));
            damage(ctx, &mut b, &other);
        }
        // start empty or from a message in use
        let start = if ctx.src.chance(1, 4) { gen::message(&mut ctx.src, &w.s, mid, 1, &vals) } else { MMsg::default() };
        ctx.step(format_args!("deliver {} to {}", hex(&b), w.s.msgs[mid].full));
        let mut model = start.clone();
        let verdict = merge(&w.s, mid, &mut model, &b);
        let mut dm = to_dyn(&w.s, d.clone(), mid, &start);
        let r = match ctx.src.below(3) {
            0 => dm.merge(b.as_slice()),
            1 => dm.merge(SimBuf::random(&mut ctx.src, &b)),
            _ => {
                let mut x = Vec::new();
                put_len(&b, &mut x);
                x.extend([0xff; 12]);
                let mut buf = SimBuf::random(&mut ctx.src, &x);
                let r = dm.merge_length_delimited(&mut buf);
                if r.is_ok() {
                    ensure!(buf.remaining() == 12, "delimited-overread", "{} bytes left instead of 12", buf.remaining());
                }
                r
            }
        };
        let got = observe(&dm)?;
        well_typed(&dm)?;
        match (&r, &verdict) {
            (_, Err(DecErr::Deep)) => {
                ctx.probe("too-deep-to-compare");
                continue;
            }
            (Ok(()), Err(e)) => {
                return Err(viol!("damaged-accepted", "{e:?}: accepted as {}: {} on {}", got.to_s(), hex(&b), w.s.msgs[mid].full));
            }
            (Err(e), Ok(())) => {
                return Err(viol!("valid-refused", "{e}: {} is {}", hex(&b), model.to_s()));
            }
            (Ok(()), Ok(())) => {
                ctx.probe("damage-still-valid");
                same(&dm, &model, "damaged")?;
                let e = dm.encode_to_vec();
                ensure!(e.len() == dm.encoded_len(), "encoded-len", "encoded_len {} but {}", dm.encoded_len(), e.len());
                let back = DynamicMessage::decode(d.clone(), e.as_slice()).map_err(|e| viol!("own-refused", "own encoding refused: {e}"))?;
                same(&back, &model, "re-encoded")?;
            }
            (Err(_), Err(_)) => {
                ctx.probe("damage-refused");
                // still usable
                let e = dm.encode_to_vec();
                let back = DynamicMessage::decode(d.clone(), e.as_slice()).map_err(|e| viol!("own-refused", "encoding of a message after a failed merge refused: {e}"))?;
                let mut g = got.clone();
                w.s.normalise(mid, &mut g);
                same(&back, &g, "after-failure")?;
                let _ = format!("{dm} {dm:?}");
                if ctx.src.chance(1, 2) {
                    let good = cat(records(&w.s, mid, &m, &mut Plain));
                    merge(&w.s, mid, &mut g, &good).map_err(|e| viol!("harness", "harness: {e:?}"))?;
                    dm.merge(good.as_slice()).map_err(|e| viol!("reuse-refused", "merge after a failed merge refused: {e}"))?;
                    same(&dm, &g, "reused")?;
                } else {
                    dm.clear();
                    same(&dm, &MMsg::default(), "cleared")?;
                    dm.merge(cat(records(&w.s, mid, &m, &mut Plain)).as_slice()).map_err(|e| viol!("reuse-refused", "{e}"))?;
                    same(&dm, &m, "reused-after-clear")?;
                }
            }
        }
        ctx.note(format_args!("{} {}", r.is_ok(), got.to_s()));
        other = b;
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

pub const C07: Prop = Prop {
    id: "C07",
    run: c07,
    quick: 300_000,
    thorough: 8_000_000,
    fork: false,
    rule: "a run builds a network of nodes with different versions of one schema and sends messages along routes over links that drop, duplicate and reorder frames and through relays that crash; every relay's view and every delivered message is compared with the model; non-trivial when at least one frame was relayed, distinct by event log",
    real: REAL,
    stub: &["network, routing and relays' storage", "schema versions and messages (generated)"],
    assumptions: ASSUME,
};

/// An older or narrower version of the schema.
fn variant(ctx: &mut Ctx, s: &Schema) -> Schema {
    let mut v = s.clone();
    let mode = ctx.src.below(3);
    for m in 0..v.msgs.len() {
        if v.files[v.msgs[m].file].raw.is_some() || v.msgs[m].map_entry {
            continue;
        }
        let keep: Vec<bool> = v.msgs[m]
            .fields
            .iter()
            .map(|_| match mode {
                0 => !ctx.src.chance(1, 3),
                1 => !ctx.src.chance(2, 3),
                _ => !ctx.src.chance(1, 8),
            })
            .collect();
        let mut it = keep.iter();
        v.msgs[m].fields.retain(|_| *it.next().unwrap());
        if keep.iter().any(|k| !k) {
            ctx.probe("field-missing-at-node");
        }
        // oneofs left without members must go
        let mut map = Vec::new();
        let mut at = 0;
        for o in 0..v.msgs[m].oneofs.len() {
            if v.msgs[m].fields.iter().any(|f| f.oneof == Some(o)) {
                map.push(Some(at));
                at += 1;
            } else {
                map.push(None);
            }
        }
        let mut i = 0;
        v.msgs[m].oneofs.retain(|_| {
            i += 1;
            map[i - 1].is_some()
        });
        for f in &mut v.msgs[m].fields {
            if let Some(o) = f.oneof {
                f.oneof = map[o];
            }
            if f.label == Label::Repeated && f.ty.packable() && ctx.src.chance(1, 3) {
                let now = f.packed_opt();
                let next = Some(!now.unwrap_or(ctx.src.chance(1, 2)));
                let o = f.opts.get_or_insert_with(MMsg::default);
                o.fields.insert(2, MVal::Bool(next.unwrap()));
                ctx.probe("packing-differs-at-node");
            }
        }
    }
    for e in 0..v.enums.len() {
        if v.files[v.enums[e].file].raw.is_some() || v.enums[e].values.len() < 2 {
            continue;
        }
        let used: Vec<i32> = v
            .msgs
            .iter()
            .flat_map(|m| m.fields.iter())
            .chain(v.exts.iter().map(|e| &e.field))
            .filter(|f| f.ty == Ty::E(e))
            .filter_map(|f| match f.default {
                Some(MVal::Enum(n)) => Some(n),
                _ => None,
            })
            .collect();
        if used.is_empty() && ctx.src.chance(1, 3) {
            v.enums[e].values.truncate(1);
            ctx.probe("enum-values-missing-at-node");
        }
    }
    // extensions that the node has not loaded
    let gone: Vec<bool> = (0..v.exts.len()).map(|_| ctx.src.chance(1, 2)).collect();
    if gone.iter().any(|g| *g) {
        ctx.probe("extension-missing-at-node");
        let mut new = vec![None; gone.len()];
        let mut at = 0;
        for (i, g) in gone.iter().enumerate() {
            if !g {
                new[i] = Some(at);
                at += 1;
            }
        }
        let remap = |l: &mut Vec<usize>| *l = l.iter().filter_map(|x| new[*x]).collect();
        for f in &mut v.files {
            remap(&mut f.exts);
        }
        for m in &mut v.msgs {
            remap(&mut m.exts);
        }
        let mut i = 0;
        v.exts.retain(|_| {
            i += 1;
            !gone[i - 1]
        });
    }
    v
}

fn c07(ctx: &mut Ctx) -> R {
    let c = cfg(ctx);
    let full = World::new(ctx, Cfg { required: false, ..c })?;
    let nodes = 1 + ctx.src.len(4);
    let mut pools: Vec<World> = Vec::new();
    for _ in 0..nodes {
        let s = variant(ctx, &full.s);
        let b: Vec<Vec<u8>> = (0..s.files.len()).map(|f| file_bytes(&s, f)).collect();
        let pool = DescriptorPool::decode(crate::emit::set_bytes(&b).as_slice())
            .map_err(|e| viol!("harness", "harness: variant refused {e:?}"))?;
        pools.push(World { s, pool });
    }
    let vals = Vals::default();
    struct Packet {
        id: usize,
        hop: usize,
        bytes: Vec<u8>,
    }
    struct Flow {
        mid: usize,
        want: MMsg,
        route: Vec<usize>,
        first: Vec<u8>,
        arrived: u32,
    }
    let mut flows: Vec<Flow> = Vec::new();
    let mut net: Vec<Packet> = Vec::new();
    let n = 1 + ctx.src.len(3);
    for id in 0..n {
        let mid = gen::root(&mut ctx.src, &full.s);
        let m = gen::message(&mut ctx.src, &full.s, mid, 3, &vals);
        let hops = ctx.src.range(1, 4);
        let route: Vec<usize> = (0..hops).map(|_| ctx.src.below(nodes)).collect();
        let mut recs = records(&full.s, mid, &m, &mut Noisy(&mut ctx.src));
        if ctx.src.chance(1, 3) {
            // fields in another order; records of one field keep theirs
            let mut keyed: Vec<(u64, usize, Vec<u8>)> = Vec::new();
            let salt = ctx.src.u64();
            for (i, r) in recs.into_iter().enumerate() {
                let (num, _) = get_key(&mut r.as_slice()).unwrap();
                keyed.push((mix(&[salt, num as u64]), i, r));
            }
            keyed.sort();
            recs = keyed.into_iter().map(|x| x.2).collect();
            ctx.fault("field-order");
        }
        let mut bytes = recs.concat();
        let mut want = m.clone();
        if ctx.src.chance(1, 6) {
            // the sender updates its message by appending to it
            let more = gen::message(&mut ctx.src, &full.s, mid, 2, &Vals { width: 1, ..vals.clone() });
            let more = oneof_safe(&full.s, mid, &want, more);
            bytes.extend(cat(records(&full.s, mid, &more, &mut Noisy(&mut ctx.src))));
            want = decode(&full.s, mid, &bytes).map_err(|e| viol!("harness", "harness: {e:?}"))?;
            ctx.probe("appended-message");
        }
        ctx.step(format_args!("send {id} {} route {route:?} {}", full.s.msgs[mid].full, want.to_s()));
        net.push(Packet { id, hop: 0, bytes: bytes.clone() });
        flows.push(Flow { mid, want, route, first: bytes, arrived: 0 });
    }
    let mut budget = 80;
    let mut faults_left = 8;
    while flows.iter().any(|f| f.arrived == 0) || !net.is_empty() {
        budget -= 1;
        if budget == 0 {
            break;
        }
        if net.is_empty() {
            // everything in flight was lost; senders time out
            for (id, f) in flows.iter().enumerate() {
                if f.arrived == 0 {
                    net.push(Packet { id, hop: 0, bytes: f.first.clone() });
                }
            }
        }
        let at = ctx.src.below(net.len());
        if at != 0 {
            ctx.fault("reorder");
        }
        let p = net.remove(at);
        if faults_left > 0 && ctx.src.chance(1, 10) {
            faults_left -= 1;
            ctx.fault("drop");
            continue;
        }
        if faults_left > 0 && ctx.src.chance(1, 10) {
            faults_left -= 1;
            ctx.fault("duplicate");
            net.push(Packet { id: p.id, hop: p.hop, bytes: p.bytes.clone() });
        }
        let mid = flows[p.id].mid;
        let full_name = full.s.msgs[mid].full.clone();
        if p.hop == flows[p.id].route.len() {
            // the sink knows everything
            let dm = DynamicMessage::decode(full.desc(mid), SimBuf::random(&mut ctx.src, &p.bytes))
                .map_err(|e| viol!("sink-refused", "message {} refused at the sink: {e}: {}", p.id, hex(&p.bytes)))?;
            ctx.step(format_args!("sink gets {}", p.id));
            same(&dm, &flows[p.id].want, "sink")?;
            flows[p.id].arrived += 1;
            continue;
        }
        let node = &pools[flows[p.id].route[p.hop]];
        let vm = node.s.find_msg(&full_name).expect("harness: type");
        let expect = decode(&node.s, vm, &p.bytes).map_err(|e| viol!("relay-wrote-bad", "a relay forwarded malformed bytes {e:?}: {}", hex(&p.bytes)))?;
        let d = node.desc(vm);
        let mut dm = DynamicMessage::decode(d.clone(), SimBuf::random(&mut ctx.src, &p.bytes))
            .map_err(|e| viol!("relay-refused", "valid message refused at a relay: {e}: {}", hex(&p.bytes)))?;
        ctx.step(format_args!("relay {} of {}: {}", p.hop, p.id, expect.to_s()));
        same(&dm, &expect, "relay")?;
        if expect.has_unknown() {
            ctx.probe("relayed-unknown");
            if ctx.src.chance(1, 4) {
                unknown_reports(&mut ctx.src, &dm)?;
            }
        }
        // relays handle the message in different ways before sending it on
        match ctx.src.below(6) {
            0 => {}
            1 => dm = dm.clone(),
            2 => {
                // moves every field over to a new message
                let mut b = DynamicMessage::new(d.clone());
                let unknown: Vec<u8> = {
                    let mut x = Vec::new();
                    for u in dm.take_unknown_fields() {
                        u.encode(&mut x);
                    }
                    x
                };
                for (f, v) in dm.take_fields().collect::<Vec<_>>() {
                    b.set_field(&f, v);
                }
                for (f, v) in dm.take_extensions().collect::<Vec<_>>() {
                    b.set_extension(&f, v);
                }
                ensure!(observe(&dm)? == MMsg::default(), "taken-left", "fields left after taking all");
                b.merge(unknown.as_slice()).map_err(|e| viol!("relay-refused", "unknown fields refused: {e}"))?;
                dm = b;
            }
            3 => {
                // looks at every field through a mutable reference
                for (_, v) in dm.fields_mut() {
                    std::hint::black_box::<&mut Value>(v);
                }
                for (_, v) in dm.extensions_mut() {
                    std::hint::black_box::<&mut Value>(v);
                }
            }
            4 => {
                ctx.fault("relay-crash");
                // restarts from what it stored
                let b = dm.encode_to_vec();
                dm = DynamicMessage::decode(d.clone(), b.as_slice()).map_err(|e| viol!("relay-refused", "stored message refused: {e}"))?;
            }
            _ => {
                // arrives wrapped in another message of the same node
                let mut b = DynamicMessage::new(d.clone());
                b.transcode_from(&dm).map_err(|e| viol!("relay-refused", "transcoding refused: {e}"))?;
                dm = b;
            }
        }
        same(&dm, &expect, "relay-handled")?;
        let out = if ctx.src.chance(1, 3) {
            let len = dm.encoded_len();
            let ends = cuts(&mut ctx.src, len);
            let mut sink = SimBufMut::new(len, ends);
            dm.encode(&mut sink).map_err(|e| viol!("relay-encode", "{e}"))?;
            sink.written().to_vec()
        } else {
            dm.encode_to_vec()
        };
        net.push(Packet { id: p.id, hop: p.hop + 1, bytes: out });
    }
    if faults_left > 0 || budget > 0 {
        ensure!(budget == 0 || flows.iter().all(|f| f.arrived > 0), "lost", "a message never arrived");
    }
    Ok(())
}

/// Drops members of oneofs that the other message sets differently: a relay that knows only one of
/// them cannot keep their order.
fn oneof_safe(s: &Schema, mid: usize, have: &MMsg, mut more: MMsg) -> MMsg {
    for f in &s.msgs[mid].fields {
        if let Some(o) = f.oneof {
            let clash = s.msgs[mid].fields.iter().any(|g| g.oneof == Some(o) && g.num != f.num && have.fields.contains_key(&g.num));
            if clash {
                more.fields.remove(&f.num);
            }
        }
    }
    let nums: Vec<u32> = more.fields.keys().copied().collect();
    for n in nums {
        let sl = s.slot(mid, n).unwrap();
        if sl.f.rep() {
            continue;
        }
        if let (Some(m), Some(MVal::Msg(a))) = (sl.f.ty.msg(), have.fields.get(&n)) {
            let MVal::Msg(b) = more.fields.remove(&n).unwrap() else { unreachable!() };
            more.fields.insert(n, MVal::Msg(oneof_safe(s, m, a, b)));
        }
    }
    more
}
