//! Reference implementation of the protobuf wire format.
use crate::core::Src;
use crate::model::*;

pub fn put_varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
/// a varint padded with `extra` redundant bytes (at most ten in total)
pub fn put_varint_long(v: u64, extra: usize, out: &mut Vec<u8>) {
    let mut b = Vec::new();
    put_varint(v, &mut b);
    let extra = extra.min(10 - b.len());
    if extra > 0 {
        let n = b.len();
        b[n - 1] |= 0x80;
        for _ in 0..extra - 1 {
            b.push(0x80);
        }
        b.push(0);
    }
    out.extend(b);
}
pub fn put_key(num: u32, wt: u8, out: &mut Vec<u8>) {
    put_varint(((num as u64) << 3) | wt as u64, out);
}
pub fn put_len(b: &[u8], out: &mut Vec<u8>) {
    put_varint(b.len() as u64, out);
    out.extend_from_slice(b);
}
pub fn zz32(v: i32) -> u64 {
    ((v as i64) << 1 ^ ((v as i64) >> 63)) as u64 & 0xffff_ffff
}
pub fn zz64(v: i64) -> u64 {
    ((v as i128) << 1 ^ ((v as i128) >> 127)) as u64
}
fn unzz32(v: u32) -> i32 {
    ((v >> 1) as i32) ^ -((v & 1) as i32)
}
fn unzz64(v: u64) -> i64 {
    ((v >> 1) as i64) ^ -((v & 1) as i64)
}

/// the varint carried by a varint-typed value
pub fn varint_of(ty: Ty, v: &MVal) -> Option<u64> {
    Some(match (ty, v) {
        (Ty::S(Sc::Sint32), MVal::I32(v)) => zz32(*v),
        (Ty::S(Sc::Sint64), MVal::I64(v)) => zz64(*v),
        (Ty::S(Sc::Int32), MVal::I32(v)) => *v as i64 as u64,
        (Ty::S(Sc::Int64), MVal::I64(v)) => *v as u64,
        (Ty::S(Sc::Uint32), MVal::U32(v)) => *v as u64,
        (Ty::S(Sc::Uint64), MVal::U64(v)) => *v,
        (Ty::S(Sc::Bool), MVal::Bool(v)) => *v as u64,
        (Ty::E(_), MVal::Enum(v)) => *v as i64 as u64,
        _ => return None,
    })
}

/// How freely an encoder chooses among equivalent encodings.
pub trait Style {
    fn pad(&mut self) -> usize {
        0
    }
    fn chance(&mut self, _num: u64, _den: u64) -> bool {
        false
    }
    fn below(&mut self, _n: usize) -> usize {
        0
    }
}
pub struct Plain;
impl Style for Plain {}
pub struct Noisy<'a>(pub &'a mut Src);
impl Style for Noisy<'_> {
    fn pad(&mut self) -> usize {
        if self.0.chance(1, 12) {
            1 + self.0.below(9)
        } else {
            0
        }
    }
    fn chance(&mut self, n: u64, d: u64) -> bool {
        self.0.chance(n, d)
    }
    fn below(&mut self, n: usize) -> usize {
        self.0.below(n)
    }
}

fn key(num: u32, wt: u8, st: &mut impl Style, out: &mut Vec<u8>) {
    // keys are at most five significant bytes; redundant bytes are allowed up to ten
    put_varint_long(((num as u64) << 3) | wt as u64, st.pad(), out);
}
fn lendel(b: &[u8], st: &mut impl Style, out: &mut Vec<u8>) {
    put_varint_long(b.len() as u64, st.pad(), out);
    out.extend_from_slice(b);
}

fn bare(ty: Ty, v: &MVal, st: &mut impl Style, out: &mut Vec<u8>) {
    match (ty, v) {
        (Ty::S(Sc::Bool), MVal::Bool(true)) if st.chance(1, 16) => put_varint_long(2 + st.below(300) as u64, st.pad(), out),
        (Ty::S(Sc::Int32), MVal::I32(x)) if *x < 0 && st.chance(1, 8) => put_varint(*x as u32 as u64, out),
        (Ty::E(_), MVal::Enum(x)) if *x < 0 && st.chance(1, 8) => put_varint(*x as u32 as u64, out),
        (ty, v) => match (varint_of(ty, v), v) {
            (Some(x), _) => put_varint_long(x, st.pad(), out),
            (_, MVal::F32(x)) => out.extend(x.to_le_bytes()),
            (_, MVal::F64(x)) => out.extend(x.to_le_bytes()),
            (_, MVal::I32(x)) => out.extend(x.to_le_bytes()),
            (_, MVal::U32(x)) => out.extend(x.to_le_bytes()),
            (_, MVal::I64(x)) => out.extend(x.to_le_bytes()),
            (_, MVal::U64(x)) => out.extend(x.to_le_bytes()),
            (_, MVal::Str(x)) => lendel(x.as_bytes(), st, out),
            (_, MVal::Bytes(x)) => lendel(x, st, out),
            (ty, v) => panic!("harness: bare {ty:?} {v:?}"),
        },
    }
}

pub fn one(s: &Schema, num: u32, ty: Ty, v: &MVal, st: &mut impl Style, out: &mut Vec<u8>) {
    match (ty, v) {
        (Ty::M(m), MVal::Msg(x)) => {
            let b = cat(records(s, m, x, st));
            key(num, 2, st, out);
            lendel(&b, st, out);
        }
        (Ty::G(m), MVal::Msg(x)) => {
            key(num, 3, st, out);
            out.extend(cat(records(s, m, x, st)));
            key(num, 4, st, out);
        }
        _ => {
            key(num, ty.wire(), st, out);
            bare(ty, v, st, out);
        }
    }
}

pub fn unknown(num: u32, u: &Unk, out: &mut Vec<u8>) {
    match u {
        Unk::Varint(v) => {
            put_key(num, 0, out);
            put_varint(*v, out);
        }
        Unk::F64(v) => {
            put_key(num, 1, out);
            out.extend(v.to_le_bytes());
        }
        Unk::Len(v) => {
            put_key(num, 2, out);
            put_len(v, out);
        }
        Unk::Group(g) => {
            put_key(num, 3, out);
            for (n, u) in g {
                unknown(*n, u, out);
            }
            put_key(num, 4, out);
        }
        Unk::F32(v) => {
            put_key(num, 5, out);
            out.extend(v.to_le_bytes());
        }
    }
}

pub fn map_entry(s: &Schema, num: u32, kf: &Field, vf: &Field, k: &MKey, v: &MVal, st: &mut impl Style) -> Vec<u8> {
    let kv = k.val();
    let mut kb = Vec::new();
    one(s, 1, kf.ty, &kv, st, &mut kb);
    let mut vb = Vec::new();
    one(s, 2, vf.ty, v, st, &mut vb);
    let k_skip = kv == s.zero(kf.ty) && st.chance(1, 3);
    let v_skip = *v == s.zero(vf.ty) && st.chance(1, 3);
    let mut b = Vec::new();
    let mut parts: Vec<Vec<u8>> = Vec::new();
    if !k_skip {
        parts.push(kb);
    }
    if !v_skip {
        parts.push(vb);
    }
    if parts.len() == 2 && st.chance(1, 4) {
        parts.swap(0, 1);
    }
    if st.chance(1, 16) {
        // a field the entry does not have
        let mut u = Vec::new();
        let x = match st.below(6) {
            0 => Unk::Group(vec![(1, Unk::Varint(7)), (2, Unk::Group(vec![(3, Unk::F32(1))]))]),
            1 => Unk::Group(vec![]),
            2 => Unk::F32(5),
            3 => Unk::F64(u64::MAX),
            4 => Unk::Len(vec![0x0a, 1, b'x']),
            _ => Unk::Varint(7),
        };
        unknown([3, 4, 5, 6, 7, 16, 1000, 536870911][st.below(8)], &x, &mut u);
        let at = st.below(parts.len() + 1);
        parts.insert(at, u);
    }
    for p in parts {
        b.extend(p);
    }
    let mut out = Vec::new();
    key(num, 2, st, &mut out);
    lendel(&b, st, &mut out);
    out
}

/// The encoding of a message as a list of records in a valid order.
pub fn records(s: &Schema, mid: usize, m: &MMsg, st: &mut impl Style) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = Vec::new();
    for (&num, v) in &m.fields {
        let slot = s.slot(mid, num).unwrap_or_else(|| panic!("harness: no field {num} in {}", s.msgs[mid].full));
        let f = slot.f;
        if let Some((kf, vf)) = s.entry(f) {
            let MVal::Map(mm) = v else { panic!("harness: map expected") };
            for (k, v) in mm {
                out.push(map_entry(s, num, &kf, &vf, k, v, st));
            }
        } else if f.rep() {
            let MVal::List(l) = v else { panic!("harness: list expected") };
            let mut i = 0;
            while i < l.len() {
                let packed = f.ty.packable() && (s.is_packed(f, slot.proto3) ^ st.chance(1, 4));
                let mut b = Vec::new();
                if packed {
                    let mut n = l.len() - i;
                    if st.chance(1, 3) {
                        n = st.below(n + 1);
                    }
                    let mut body = Vec::new();
                    for x in &l[i..i + n] {
                        bare(f.ty, x, st, &mut body);
                    }
                    key(num, 2, st, &mut b);
                    lendel(&body, st, &mut b);
                    i += n;
                } else {
                    one(s, num, f.ty, &l[i], st, &mut b);
                    i += 1;
                }
                out.push(b);
            }
        } else {
            let mut b = Vec::new();
            one(s, num, f.ty, v, st, &mut b);
            out.push(b);
        }
    }
    for (&num, us) in &m.unk {
        for u in us {
            let mut b = Vec::new();
            unknown(num, u, &mut b);
            out.push(b);
        }
    }
    out
}

pub fn cat(r: Vec<Vec<u8>>) -> Vec<u8> {
    r.concat()
}
pub fn encode(s: &Schema, mid: usize, m: &MMsg) -> Vec<u8> {
    cat(records(s, mid, m, &mut Plain))
}

#[derive(Debug, Clone, PartialEq)]
pub enum DecErr {
    Bad(&'static str),
    /// nested beyond what the comparison covers
    Deep,
}
use DecErr::*;
type D<T> = Result<T, DecErr>;

pub fn get_varint(b: &mut &[u8]) -> D<u64> {
    let mut v = 0u64;
    for i in 0..10 {
        let Some((&x, rest)) = b.split_first() else { return Err(Bad("varint cut")) };
        *b = rest;
        if i == 9 && x > 1 {
            return Err(Bad("varint overflow"));
        }
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x < 0x80 {
            return Ok(v);
        }
    }
    Err(Bad("varint too long"))
}
pub fn get_key(b: &mut &[u8]) -> D<(u32, u8)> {
    let k = get_varint(b)?;
    if k > u32::MAX as u64 {
        return Err(Bad("key too large"));
    }
    let wt = (k & 7) as u8;
    if wt > 5 {
        return Err(Bad("wire type"));
    }
    let n = (k >> 3) as u32;
    if n == 0 {
        return Err(Bad("tag 0"));
    }
    Ok((n, wt))
}
pub fn take<'a>(b: &mut &'a [u8], n: u64) -> D<&'a [u8]> {
    if n > b.len() as u64 {
        return Err(Bad("cut"));
    }
    let (x, r) = b.split_at(n as usize);
    *b = r;
    Ok(x)
}

pub const DEEP: usize = 80;

pub fn get_unknown(num: u32, wt: u8, b: &mut &[u8], depth: usize) -> D<Unk> {
    if depth > DEEP {
        return Err(Deep);
    }
    Ok(match wt {
        0 => Unk::Varint(get_varint(b)?),
        1 => Unk::F64(u64::from_le_bytes(take(b, 8)?.try_into().unwrap())),
        2 => {
            let n = get_varint(b)?;
            Unk::Len(take(b, n)?.to_vec())
        }
        3 => {
            let mut g = Vec::new();
            loop {
                let (n, wt) = get_key(b)?;
                if wt == 4 {
                    if n != num {
                        return Err(Bad("end group mismatch"));
                    }
                    break;
                }
                g.push((n, get_unknown(n, wt, b, depth + 1)?));
            }
            Unk::Group(g)
        }
        4 => return Err(Bad("unexpected end group")),
        5 => Unk::F32(u32::from_le_bytes(take(b, 4)?.try_into().unwrap())),
        _ => unreachable!(),
    })
}

fn scalar(ty: Ty, wt: u8, b: &mut &[u8]) -> D<MVal> {
    if wt != ty.wire() {
        return Err(Bad("wire type mismatch"));
    }
    let s = match ty {
        Ty::E(_) => return Ok(MVal::Enum(get_varint(b)? as i32)),
        Ty::S(s) => s,
        _ => unreachable!(),
    };
    macro_rules! fixed {
        ($t:ty, $n:expr) => {
            <$t>::from_le_bytes(take(b, $n)?.try_into().unwrap())
        };
    }
    Ok(match s {
        Sc::Double => MVal::F64(fixed!(u64, 8)),
        Sc::Float => MVal::F32(fixed!(u32, 4)),
        Sc::Int32 => MVal::I32(get_varint(b)? as i32),
        Sc::Int64 => MVal::I64(get_varint(b)? as i64),
        Sc::Uint32 => MVal::U32(get_varint(b)? as u32),
        Sc::Uint64 => MVal::U64(get_varint(b)?),
        Sc::Sint32 => MVal::I32(unzz32(get_varint(b)? as u32)),
        Sc::Sint64 => MVal::I64(unzz64(get_varint(b)?)),
        Sc::Fixed32 => MVal::U32(fixed!(u32, 4)),
        Sc::Fixed64 => MVal::U64(fixed!(u64, 8)),
        Sc::Sfixed32 => MVal::I32(fixed!(i32, 4)),
        Sc::Sfixed64 => MVal::I64(fixed!(i64, 8)),
        Sc::Bool => MVal::Bool(get_varint(b)? != 0),
        Sc::String => {
            let n = get_varint(b)?;
            let x = take(b, n)?;
            MVal::Str(String::from_utf8(x.to_vec()).map_err(|_| Bad("utf8"))?)
        }
        Sc::Bytes => {
            let n = get_varint(b)?;
            MVal::Bytes(take(b, n)?.to_vec())
        }
    })
}

fn value(s: &Schema, num: u32, ty: Ty, old: Option<MVal>, wt: u8, b: &mut &[u8], depth: usize) -> D<MVal> {
    match ty {
        Ty::M(m) => {
            if wt != 2 {
                return Err(Bad("wire type mismatch"));
            }
            if depth > DEEP {
                return Err(Deep);
            }
            let n = get_varint(b)?;
            let mut x = take(b, n)?;
            let mut msg = match old {
                Some(MVal::Msg(m)) => m,
                _ => MMsg::default(),
            };
            while !x.is_empty() {
                let (n, wt) = get_key(&mut x)?;
                field(s, m, &mut msg, n, wt, &mut x, depth + 1)?;
            }
            Ok(MVal::Msg(msg))
        }
        Ty::G(m) => {
            if wt != 3 {
                return Err(Bad("wire type mismatch"));
            }
            if depth > DEEP {
                return Err(Deep);
            }
            let mut msg = match old {
                Some(MVal::Msg(m)) => m,
                _ => MMsg::default(),
            };
            loop {
                let (n, wt) = get_key(b)?;
                if wt == 4 {
                    if n != num {
                        return Err(Bad("end group mismatch"));
                    }
                    return Ok(MVal::Msg(msg));
                }
                field(s, m, &mut msg, n, wt, b, depth + 1)?;
            }
        }
        ty => scalar(ty, wt, b),
    }
}

fn field(s: &Schema, mid: usize, m: &mut MMsg, num: u32, wt: u8, b: &mut &[u8], depth: usize) -> D<()> {
    let Some(slot) = s.slot(mid, num) else {
        let u = get_unknown(num, wt, b, depth)?;
        m.unk.entry(num).or_default().push(u);
        return Ok(());
    };
    let f = slot.f;
    if let Some((kf, vf)) = s.entry(f) {
        if wt != 2 {
            return Err(Bad("wire type mismatch"));
        }
        let n = get_varint(b)?;
        let mut x = take(b, n)?;
        let mut k = s.zero(kf.ty);
        let mut v = None;
        while !x.is_empty() {
            let (n, wt) = get_key(&mut x)?;
            match n {
                1 => k = value(s, 1, kf.ty, None, wt, &mut x, depth + 1)?,
                2 => v = Some(value(s, 2, vf.ty, v, wt, &mut x, depth + 1)?),
                n => {
                    get_unknown(n, wt, &mut x, depth + 1)?;
                }
            }
        }
        let v = v.unwrap_or_else(|| s.default_of(&Slot { f: &vf, proto3: slot.proto3, ext: None }));
        let e = m.fields.entry(num).or_insert_with(|| MVal::Map(Default::default()));
        let MVal::Map(mm) = e else { unreachable!() };
        mm.insert(k.key(), v);
    } else if f.rep() {
        let mut add = Vec::new();
        if wt == 2 && f.ty.packable() {
            let n = get_varint(b)?;
            let mut x = take(b, n)?;
            while !x.is_empty() {
                add.push(scalar(f.ty, f.ty.wire(), &mut x)?);
            }
        } else {
            add.push(value(s, num, f.ty, None, wt, b, depth)?);
        }
        let e = m.fields.entry(num).or_insert_with(|| MVal::List(Vec::new()));
        let MVal::List(l) = e else { unreachable!() };
        l.extend(add);
    } else {
        if let (Some(o), None) = (f.oneof, slot.ext) {
            let others: Vec<u32> =
                s.msgs[mid].fields.iter().filter(|g| g.oneof == Some(o) && g.num != num).map(|g| g.num).collect();
            for o in others {
                m.fields.remove(&o);
            }
        }
        let old = m.fields.remove(&num);
        let v = value(s, num, f.ty, old, wt, b, depth)?;
        m.fields.insert(num, v);
    }
    Ok(())
}

/// Merges an encoding into a message, as the protobuf specification describes.
pub fn merge(s: &Schema, mid: usize, m: &mut MMsg, mut b: &[u8]) -> D<()> {
    while !b.is_empty() {
        let (n, wt) = get_key(&mut b)?;
        field(s, mid, m, n, wt, &mut b, 0)?;
    }
    s.normalise(mid, m);
    Ok(())
}
pub fn decode(s: &Schema, mid: usize, b: &[u8]) -> D<MMsg> {
    let mut m = MMsg::default();
    merge(s, mid, &mut m, b)?;
    Ok(m)
}
/// Decodes without any schema.
pub fn decode_raw(mut b: &[u8]) -> D<Vec<(u32, Unk)>> {
    let mut v = Vec::new();
    while !b.is_empty() {
        let (n, wt) = get_key(&mut b)?;
        v.push((n, get_unknown(n, wt, &mut b, 0)?));
    }
    Ok(v)
}

/// Drops unknown fields, and rewrites the content of every expandable Any canonically.
pub fn norm_any(s: &Schema, mid: usize, m: &MMsg, expandable: fn(&str) -> bool) -> MMsg {
    let mut out = m.clone();
    out.unk.clear();
    if s.msgs[mid].full == "google.protobuf.Any" {
        if let Some(MVal::Str(url)) = m.fields.get(&1) {
            if let (true, Some(t)) = (expandable(url), url.rsplit_once('/').and_then(|x| s.find_msg(x.1))) {
                let b = match m.fields.get(&2) {
                    Some(MVal::Bytes(b)) => b.clone(),
                    _ => vec![],
                };
                if let Ok(inner) = decode(s, t, &b) {
                    let b = encode(s, t, &crate::dut::canon_msg(&norm_any(s, t, &inner, expandable)));
                    out.fields.remove(&2);
                    if !b.is_empty() {
                        out.fields.insert(2, MVal::Bytes(b));
                    }
                }
            }
        }
        return out;
    }
    for (n, v) in out.fields.iter_mut() {
        let slot = s.slot(mid, *n).expect("harness: unknown field");
        let ty = match s.entry(slot.f) {
            Some((_, vf)) => vf.ty,
            None => slot.f.ty,
        };
        let Some(t) = ty.msg() else { continue };
        let fix = |v: &mut MVal| {
            if let MVal::Msg(x) = v {
                *x = norm_any(s, t, x, expandable);
            }
        };
        match v {
            MVal::List(l) => l.iter_mut().for_each(fix),
            MVal::Map(mm) => mm.values_mut().for_each(fix),
            v => fix(v),
        }
    }
    out
}
