//! JSON documents: a tree that keeps member order and number spelling, a strict parser, a
//! reference for what the proto3 JSON mapping says about a message, and a writer that uses every
//! spelling the mapping allows.
use crate::core::*;
use crate::model::*;
use crate::wire::decode;
use crate::{ensure, viol};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn js(s: impl Into<String>) -> J {
    J::Str(s.into())
}
pub fn num(s: impl ToString) -> J {
    J::Num(s.to_string())
}

// ---------------------------------------------------------------- strict parser

pub fn parse(t: &str) -> Result<J, String> {
    let mut p = P { b: t.as_bytes(), t, at: 0 };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.at != p.b.len() {
        return Err(format!("trailing text at {}", p.at));
    }
    Ok(v)
}
struct P<'a> {
    b: &'a [u8],
    t: &'a str,
    at: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while matches!(self.b.get(self.at), Some(b' ' | b'\t' | b'\r' | b'\n')) {
            self.at += 1;
        }
    }
    fn peek(&self) -> u8 {
        self.b.get(self.at).copied().unwrap_or(0)
    }
    fn want(&mut self, c: u8) -> Result<(), String> {
        if self.peek() == c && self.at < self.b.len() {
            self.at += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c as char, self.at))
        }
    }
    fn value(&mut self, depth: usize) -> Result<J, String> {
        if depth > 1000 {
            return Err("too deep".into());
        }
        match self.peek() {
            b'n' => self.word("null", J::Null),
            b't' => self.word("true", J::Bool(true)),
            b'f' => self.word("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.at += 1;
                let mut l = Vec::new();
                self.ws();
                if self.peek() == b']' {
                    self.at += 1;
                    return Ok(J::Arr(l));
                }
                loop {
                    self.ws();
                    l.push(self.value(depth + 1)?);
                    self.ws();
                    if self.peek() == b',' {
                        self.at += 1;
                    } else {
                        self.want(b']')?;
                        return Ok(J::Arr(l));
                    }
                }
            }
            b'{' => {
                self.at += 1;
                let mut l = Vec::new();
                self.ws();
                if self.peek() == b'}' {
                    self.at += 1;
                    return Ok(J::Obj(l));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.want(b':')?;
                    self.ws();
                    let v = self.value(depth + 1)?;
                    l.push((k, v));
                    self.ws();
                    if self.peek() == b',' {
                        self.at += 1;
                    } else {
                        self.want(b'}')?;
                        return Ok(J::Obj(l));
                    }
                }
            }
            _ => self.number(),
        }
    }
    fn word(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.t[self.at..].starts_with(w) {
            self.at += w.len();
            Ok(v)
        } else {
            Err(format!("bad word at {}", self.at))
        }
    }
    fn digits(&mut self) -> usize {
        let s = self.at;
        while self.peek().is_ascii_digit() {
            self.at += 1;
        }
        self.at - s
    }
    fn number(&mut self) -> Result<J, String> {
        let s = self.at;
        if self.peek() == b'-' {
            self.at += 1;
        }
        let first = self.peek();
        let n = self.digits();
        if n == 0 || (n > 1 && first == b'0') {
            return Err(format!("bad number at {s}"));
        }
        if self.peek() == b'.' {
            self.at += 1;
            if self.digits() == 0 {
                return Err(format!("bad number at {s}"));
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.at += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.at += 1;
            }
            if self.digits() == 0 {
                return Err(format!("bad number at {s}"));
            }
        }
        Ok(J::Num(self.t[s..self.at].to_string()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.t.get(self.at..self.at + 4).ok_or("short escape")?;
        self.at += 4;
        if !h.bytes().all(|b| b.is_ascii_hexdigit()) {
            return Err("bad escape".into());
        }
        u32::from_str_radix(h, 16).map_err(|e| e.to_string())
    }
    fn string(&mut self) -> Result<String, String> {
        self.want(b'"')?;
        let mut out = String::new();
        loop {
            let Some(c) = self.t[self.at..].chars().next() else { return Err("unclosed string".into()) };
            self.at += c.len_utf8();
            match c {
                '"' => return Ok(out),
                '\\' => {
                    let e = self.peek();
                    self.at += 1;
                    out.push(match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\x08',
                        b'f' => '\x0c',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut v = self.hex4()?;
                            if (0xd800..0xdc00).contains(&v) {
                                self.want(b'\\')?;
                                self.want(b'u')?;
                                let w = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&w) {
                                    return Err("bad surrogate".into());
                                }
                                v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                            }
                            char::from_u32(v).ok_or("bad surrogate")?
                        }
                        _ => return Err("bad escape".into()),
                    });
                }
                c if (c as u32) < 0x20 => return Err("control character in string".into()),
                c => out.push(c),
            }
        }
    }
}

// ---------------------------------------------------------------- rendering

pub fn plain(j: &J) -> String {
    let mut s = Src::replay(vec![]);
    render(j, &mut s, 0)
}

/// Any text for the tree; style 0 is the plainest.
pub fn render(j: &J, src: &mut Src, style: usize) -> String {
    let mut out = String::new();
    put(j, src, style, &mut out);
    out
}
fn gap(src: &mut Src, style: usize, out: &mut String) {
    match style {
        0 => {}
        1 => out.push(' '),
        _ => out.push_str(["", "", " ", "\n", "\t \r\n"][src.below(5)]),
    }
}
fn put(j: &J, src: &mut Src, style: usize, out: &mut String) {
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Num(n) => out.push_str(n),
        J::Str(s) => put_str(s, src, style, out),
        J::Arr(l) => {
            out.push('[');
            for (i, v) in l.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(src, style, out);
                put(v, src, style, out);
                gap(src, style, out);
            }
            out.push(']');
        }
        J::Obj(l) => {
            out.push('{');
            gap(src, style, out);
            for (i, (k, v)) in l.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    gap(src, style, out);
                }
                put_str(k, src, style, out);
                gap(src, style, out);
                out.push(':');
                gap(src, style, out);
                put(v, src, style, out);
                gap(src, style, out);
            }
            out.push('}');
        }
    }
}
fn put_str(s: &str, src: &mut Src, style: usize, out: &mut String) {
    out.push('"');
    let eager = if style < 2 || s.len() > 1000 { 0 } else { src.weighted(&[4, 2, 1]) };
    for c in s.chars() {
        let must = matches!(c, '"' | '\\') || (c as u32) < 0x20;
        let esc = must || (eager == 1 && src.chance(1, 3)) || eager == 2;
        if !esc {
            out.push(c);
            continue;
        }
        let short = match c {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '/' => Some('/'),
            '\x08' => Some('b'),
            '\x0c' => Some('f'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            _ => None,
        };
        match short {
            Some(x) if style < 2 || src.chance(1, 2) => {
                out.push('\\');
                out.push(x);
            }
            _ => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let up = style >= 2 && src.chance(1, 2);
                    out.push_str(&if up { format!("\\u{u:04X}") } else { format!("\\u{u:04x}") });
                }
            }
        }
    }
    out.push('"');
}

// ---------------------------------------------------------------- base64 and times

pub fn base64(b: &[u8], url: bool, pad: bool) -> String {
    let abc: Vec<char> = ('A'..='Z').chain('a'..='z').chain('0'..='9').chain(if url { ['-', '_'] } else { ['+', '/'] }).collect();
    let mut out = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(abc[(v >> (18 - 6 * i)) as usize & 63]);
            } else if pad {
                out.push('=');
            }
        }
    }
    out
}

pub const MIN_TS: i64 = -62135596800;
pub const MAX_TS: i64 = 253402300799;
pub const MAX_DUR: i64 = 315_576_000_000;

/// Days since 1970-01-01 of a date (proleptic Gregorian).
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}

/// RFC 3339 text of an instant, at an offset of so many minutes, with at least so many digits.
pub fn timestamp(secs: i64, nanos: i64, offset: i64, digits: usize) -> String {
    let local = secs + offset * 60;
    let (y, m, d) = civil(local.div_euclid(86400));
    let t = local.rem_euclid(86400);
    let mut s = format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}", t / 3600, t / 60 % 60, t % 60);
    s.push_str(&fraction(nanos, digits));
    if offset == 0 {
        s.push('Z');
    } else {
        s.push_str(&format!("{}{:02}:{:02}", if offset < 0 { '-' } else { '+' }, offset.abs() / 60, offset.abs() % 60));
    }
    s
}
pub fn fraction(nanos: i64, digits: usize) -> String {
    let f = format!("{nanos:09}");
    let need = f.trim_end_matches('0').len().max(digits);
    if need == 0 {
        String::new()
    } else {
        format!(".{}", &f[..need])
    }
}
fn num_at(s: &str, a: usize, n: usize) -> Option<i64> {
    let x = s.get(a..a + n)?;
    if !x.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    x.parse().ok()
}
/// The instant of a UTC timestamp as the mapping writes it.
fn read_timestamp(s: &str) -> Option<(i64, i64)> {
    let (y, mo, d, h, mi, se) = (num_at(s, 0, 4)?, num_at(s, 5, 2)?, num_at(s, 8, 2)?, num_at(s, 11, 2)?, num_at(s, 14, 2)?, num_at(s, 17, 2)?);
    if &s[4..5] != "-" || &s[7..8] != "-" || &s[10..11] != "T" || &s[13..14] != ":" || &s[16..17] != ":" || h > 23 || mi > 59 || se > 59 {
        return None;
    }
    let nanos = read_fraction(s[19..].strip_suffix('Z')?)?;
    Some((days(y, mo, d) * 86400 + h * 3600 + mi * 60 + se, nanos))
}
/// Empty, or a point and 3, 6 or 9 digits.
fn read_fraction(f: &str) -> Option<i64> {
    if f.is_empty() {
        return Some(0);
    }
    let f = f.strip_prefix('.')?;
    if ![3, 6, 9].contains(&f.len()) {
        return None;
    }
    Some(num_at(f, 0, f.len())? * 10i64.pow(9 - f.len() as u32))
}
fn read_duration(s: &str) -> Option<(i64, i64)> {
    let s = s.strip_suffix('s')?;
    let (neg, s) = match s.strip_prefix('-') {
        Some(x) => (-1, x),
        None => (1, s),
    };
    let k = s.find('.').unwrap_or(s.len());
    Some((neg * num_at(s, 0, k)?, neg * read_fraction(&s[k..])?))
}

// ---------------------------------------------------------------- what the mapping says

#[derive(Clone, Copy, Debug)]
pub struct Wr {
    pub strings64: bool,
    pub numbers: bool,
    pub proto_names: bool,
    pub skip_default: bool,
}

/// What Any holds, if its type is known and its content well formed.
pub fn any_inner(s: &Schema, m: &MMsg) -> Option<(String, usize, MMsg)> {
    let Some(MVal::Str(url)) = m.fields.get(&1) else { return None };
    let t = s.find_msg(url.rsplit_once('/')?.1)?;
    let empty = vec![];
    let b = match m.fields.get(&2) {
        Some(MVal::Bytes(b)) => b,
        _ => &empty,
    };
    Some((url.clone(), t, decode(s, t, b).ok()?))
}

pub fn wkt_name(s: &Schema, mid: usize) -> Option<&str> {
    let n = s.msgs[mid].full.strip_prefix("google.protobuf.")?;
    ["Any", "Timestamp", "Duration", "Struct", "FloatValue", "DoubleValue", "Int32Value", "Int64Value", "UInt32Value", "UInt64Value", "BoolValue", "StringValue", "BytesValue", "FieldMask", "ListValue", "Value", "Empty"]
        .contains(&n)
        .then_some(n)
}
pub fn is_null_enum(s: &Schema, ty: Ty) -> bool {
    matches!(ty, Ty::E(e) if s.enums[e].full == "google.protobuf.NullValue")
}
pub fn is_value_msg(s: &Schema, ty: Ty) -> bool {
    ty.msg().is_some_and(|m| s.msgs[m].full == "google.protobuf.Value")
}

fn i64_of(m: &MMsg, n: u32) -> i64 {
    match m.fields.get(&n) {
        Some(MVal::I64(v)) => *v,
        Some(MVal::I32(v)) => *v as i64,
        _ => 0,
    }
}

/// Whether the mapping has a form for the message that carries all it holds.
pub fn expressible(s: &Schema, mid: usize, m: &MMsg) -> bool {
    let all = |m: &MMsg| {
        m.fields.iter().all(|(n, v)| {
            let f = s.slot(mid, *n).unwrap().f;
            let ty = s.entry(f).map_or(f.ty, |x| x.1.ty);
            let one = |v: &MVal| match (ty, v) {
                (t, MVal::Enum(n)) => *n == 0 || !is_null_enum(s, t),
                (t, MVal::Msg(x)) => expressible(s, t.msg().unwrap(), x),
                _ => true,
            };
            match v {
                MVal::List(l) => l.iter().all(one),
                MVal::Map(mm) => mm.values().all(one),
                v => one(v),
            }
        })
    };
    match wkt_name(s, mid) {
        Some("Timestamp") => (MIN_TS..=MAX_TS).contains(&i64_of(m, 1)) && (0..1_000_000_000).contains(&i64_of(m, 2)),
        Some("Duration") => {
            let (a, b) = (i64_of(m, 1), i64_of(m, 2));
            (-MAX_DUR..=MAX_DUR).contains(&a) && (-999_999_999..=999_999_999).contains(&b) && a.signum() * b.signum() >= 0
        }
        Some("FieldMask") => match m.fields.get(&1) {
            Some(MVal::List(l)) => l.iter().all(|p| matches!(p, MVal::Str(p) if camel(p).is_some())),
            _ => true,
        },
        Some("Value") => match m.fields.iter().next() {
            None => false,
            Some((2, MVal::F64(b))) => f64::from_bits(*b).is_finite(),
            _ => all(m),
        },
        Some("Any") => any_inner(s, m).is_some_and(|(_, t, x)| expressible(s, t, &x)),
        _ => all(m),
    }
}

/// The camel case form of a field mask path, if it leads back to the path.
pub fn camel(p: &str) -> Option<String> {
    let mut out = String::new();
    let mut up = false;
    for c in p.chars() {
        if up {
            if !c.is_ascii_lowercase() {
                return None;
            }
            out.push(c.to_ascii_uppercase());
            up = false;
        } else if c == '_' {
            up = true;
        } else if c.is_ascii_uppercase() || c == ',' {
            return None;
        } else {
            out.push(c);
        }
    }
    (!up && !p.is_empty()).then_some(out)
}

/// Checks a document against the message it stands for.
pub fn check(s: &Schema, mid: usize, m: &MMsg, o: Wr, j: &J) -> R {
    let c = Chk { s, o };
    c.msg(mid, m, j).map_err(|e| viol!("json-form", "{o:?}: {}: {e} in {} for {}", s.msgs[mid].full, plain(j), m.to_s()))
}
struct Chk<'a> {
    s: &'a Schema,
    o: Wr,
}
type E = Result<(), String>;
fn is<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> E {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} is {got:?} instead of {want:?}"))
    }
}
impl Chk<'_> {
    fn msg(&self, mid: usize, m: &MMsg, j: &J) -> E {
        let s = self.s;
        let Some(w) = wkt_name(s, mid) else { return self.fields(mid, m, j, false) };
        match w {
            "Any" => {
                let (url, t, x) = any_inner(s, m).ok_or("written although its content is unknown")?;
                let J::Obj(l) = j else { return Err("Any is not an object".into()) };
                is("@type", l.iter().filter(|x| x.0 == "@type").map(|x| &x.1).collect::<Vec<_>>(), vec![&js(url)])?;
                let rest: Vec<(String, J)> = l.iter().filter(|x| x.0 != "@type").cloned().collect();
                if wkt_name(s, t).is_some() {
                    is("members", rest.len(), 1)?;
                    is("member", rest[0].0.as_str(), "value")?;
                    self.msg(t, &x, &rest[0].1)
                } else {
                    self.fields(t, &x, &J::Obj(rest), true)
                }
            }
            "Timestamp" => {
                let J::Str(t) = j else { return Err("not a string".into()) };
                is("timestamp", read_timestamp(t), Some((i64_of(m, 1), i64_of(m, 2))))
            }
            "Duration" => {
                let J::Str(t) = j else { return Err("not a string".into()) };
                is("duration", read_duration(t), Some((i64_of(m, 1), i64_of(m, 2))))
            }
            "FieldMask" => {
                let mut l = Vec::new();
                if let Some(MVal::List(p)) = m.fields.get(&1) {
                    for x in p {
                        if let MVal::Str(x) = x {
                            l.push(camel(x).ok_or("path without a form")?);
                        }
                    }
                }
                is("field mask", j, &js(l.join(",")))
            }
            "Struct" => self.value(Ty::M(mid), m.fields.get(&1).unwrap_or(&MVal::Map(BTreeMap::new())), j, s.slot(mid, 1).map(|x| x.f)),
            "ListValue" => self.value(Ty::M(mid), m.fields.get(&1).unwrap_or(&MVal::List(vec![])), j, s.slot(mid, 1).map(|x| x.f)),
            "Value" => match m.fields.iter().next() {
                None | Some((1, _)) => is("value", j, &J::Null),
                Some((n, v)) => {
                    let f = s.slot(mid, *n).unwrap().f;
                    self.value(f.ty, v, j, None)
                }
            },
            "Empty" => is("empty", j, &J::Obj(vec![])),
            _ => {
                let f = s.slot(mid, 1).unwrap().f;
                let z = s.zero(f.ty);
                self.value(f.ty, m.fields.get(&1).unwrap_or(&z), j, None)
            }
        }
    }

    fn fields(&self, mid: usize, m: &MMsg, j: &J, in_any: bool) -> E {
        let s = self.s;
        let J::Obj(l) = j else { return Err(format!("{} is not an object", s.msgs[mid].full)) };
        let mut got: BTreeMap<&str, &J> = BTreeMap::new();
        for (k, v) in l {
            if got.insert(k, v).is_some() {
                return Err(format!("member {k:?} twice"));
            }
        }
        let _ = in_any;
        for slot in s.slots(mid) {
            let f = slot.f;
            let name = match slot.ext {
                Some(e) => format!("[{}]", s.exts[e].full),
                None if self.o.proto_names => f.name.clone(),
                None => f.json_name(),
            };
            let v = match m.fields.get(&f.num) {
                Some(v) => v.clone(),
                None if !self.o.skip_default && slot.ext.is_none() && !s.slot_presence(&slot) => s.default_of(&slot),
                None => continue,
            };
            let x = got.remove(name.as_str()).ok_or_else(|| format!("no member {name:?}"))?;
            self.value(f.ty, &v, x, Some(f)).map_err(|e| format!("{name}: {e}"))?;
        }
        if let Some(k) = got.keys().next() {
            return Err(format!("unexpected member {k:?}"));
        }
        Ok(())
    }

    fn value(&self, ty: Ty, v: &MVal, j: &J, f: Option<&Field>) -> E {
        let s = self.s;
        match v {
            MVal::Bool(b) => is("bool", j, &J::Bool(*b)),
            MVal::I32(v) => is("int", j, &num(v)),
            MVal::U32(v) => is("int", j, &num(v)),
            MVal::I64(v) => is("int", j, &if self.o.strings64 { js(v.to_string()) } else { num(v) }),
            MVal::U64(v) => is("int", j, &if self.o.strings64 { js(v.to_string()) } else { num(v) }),
            MVal::F32(b) => {
                let v = f32::from_bits(*b);
                self.float(v as f64, j, |t| t.parse::<f32>().is_ok_and(|x| x.to_bits() == *b))
            }
            MVal::F64(b) => {
                let v = f64::from_bits(*b);
                self.float(v, j, |t| t.parse::<f64>().is_ok_and(|x| x.to_bits() == *b))
            }
            MVal::Str(t) => is("string", j, &js(t.clone())),
            MVal::Bytes(b) => is("bytes", j, &js(base64(b, false, true))),
            MVal::Enum(n) => {
                let Ty::E(e) = ty else { return Err("harness: enum".into()) };
                if is_null_enum(s, ty) {
                    return is("null", j, &J::Null);
                }
                let names: Vec<&str> = s.enums[e].values.iter().filter(|v| v.num == *n).map(|v| v.name.as_str()).collect();
                if self.o.numbers || names.is_empty() {
                    is("enum", j, &num(n))
                } else {
                    match j {
                        J::Str(t) if names.contains(&t.as_str()) => Ok(()),
                        _ => Err(format!("enum is {j:?} instead of one of {names:?}")),
                    }
                }
            }
            MVal::Msg(m) => self.msg(ty.msg().unwrap(), m, j),
            MVal::List(l) => {
                let J::Arr(a) = j else { return Err(format!("list is {j:?}")) };
                is("list length", a.len(), l.len())?;
                let ty = f.map_or(ty, |f| f.ty);
                l.iter().zip(a).try_for_each(|(v, j)| self.value(ty, v, j, None))
            }
            MVal::Map(mm) => {
                let J::Obj(o) = j else { return Err(format!("map is {j:?}")) };
                is("map size", o.len(), mm.len())?;
                let (_, vf) = s.entry(f.unwrap()).unwrap();
                for (k, v) in mm {
                    let k = key_text(k);
                    let x = o.iter().find(|x| x.0 == k).ok_or_else(|| format!("no map key {k:?}"))?;
                    self.value(vf.ty, v, &x.1, None)?;
                }
                Ok(())
            }
        }
    }

    fn float(&self, v: f64, j: &J, same: impl Fn(&str) -> bool) -> E {
        if v.is_finite() {
            match j {
                J::Num(t) if same(t) => Ok(()),
                _ => Err(format!("float is {j:?} instead of {v:?}")),
            }
        } else {
            let w = if v.is_nan() { "NaN" } else if v > 0.0 { "Infinity" } else { "-Infinity" };
            is("float", j, &js(w))
        }
    }
}

pub fn key_text(k: &MKey) -> String {
    match k {
        MKey::Bool(b) => b.to_string(),
        MKey::I32(v) => v.to_string(),
        MKey::I64(v) => v.to_string(),
        MKey::U32(v) => v.to_string(),
        MKey::U64(v) => v.to_string(),
        MKey::Str(v) => v.clone(),
    }
}

// ---------------------------------------------------------------- a peer's spelling

pub struct Peer<'a> {
    pub s: &'a Schema,
    pub src: &'a mut Src,
    pub plain: bool,
}
impl Peer<'_> {
    fn c(&mut self, num: u64, den: u64) -> bool {
        !self.plain && self.src.chance(num, den)
    }
    pub fn name(&mut self, mid: usize, slot: &Slot) -> String {
        if let Some(e) = slot.ext {
            return format!("[{}]", self.s.exts[e].full);
        }
        let clash = self.s.msgs[mid].fields.iter().any(|g| g.num != slot.f.num && g.json_name() == slot.f.name);
        if !clash && self.c(1, 3) {
            slot.f.name.clone()
        } else {
            slot.f.json_name()
        }
    }

    pub fn message(&mut self, mid: usize, m: &MMsg) -> J {
        let s = self.s;
        let Some(w) = wkt_name(s, mid) else {
            let mut l = self.members(mid, m);
            if !self.plain {
                self.src.shuffle(&mut l);
            }
            return J::Obj(l);
        };
        match w {
            "Any" => {
                let (url, t, x) = any_inner(s, m).expect("harness: any without a form");
                let mut l = if wkt_name(s, t).is_some() { vec![("value".to_string(), self.message(t, &x))] } else { self.members(t, &x) };
                l.insert(0, ("@type".into(), js(url)));
                if !self.plain {
                    self.src.shuffle(&mut l);
                }
                J::Obj(l)
            }
            "Timestamp" => {
                let (a, b) = (i64_of(m, 1), i64_of(m, 2));
                let mut off = if self.c(1, 3) { [60, -60, 330, -1, 1439, -1439, 1, -720][self.src.below(8)] } else { 0 };
                if !(MIN_TS..=MAX_TS).contains(&(a + off * 60)) {
                    off = 0;
                }
                let d = if self.c(1, 3) { self.src.below(10) } else { 0 };
                let mut t = timestamp(a, b, off, d);
                if off == 0 && self.c(1, 6) {
                    t.pop();
                    t.push_str("+00:00");
                }
                js(t)
            }
            "Duration" => {
                let (a, b) = (i64_of(m, 1), i64_of(m, 2));
                let d = if self.c(1, 3) { self.src.below(10) } else { 0 };
                js(format!("{}{}{}s", if a < 0 || b < 0 { "-" } else { "" }, a.abs(), fraction(b.abs(), d)))
            }
            "FieldMask" => {
                let l: Vec<String> = match m.fields.get(&1) {
                    Some(MVal::List(l)) => l.iter().map(|p| if let MVal::Str(p) = p { camel(p).unwrap() } else { unreachable!() }).collect(),
                    _ => vec![],
                };
                js(l.join(","))
            }
            "Struct" => match m.fields.get(&1) {
                Some(v) => self.value(Ty::M(mid), v, s.slot(mid, 1).map(|x| x.f)),
                None => J::Obj(vec![]),
            },
            "ListValue" => match m.fields.get(&1) {
                Some(v) => self.value(Ty::M(mid), v, s.slot(mid, 1).map(|x| x.f)),
                None => J::Arr(vec![]),
            },
            "Value" => match m.fields.iter().next() {
                None | Some((1, _)) => J::Null,
                // a string would be another value
                Some((2, MVal::F64(b))) => {
                    let v = f64::from_bits(*b);
                    num(format!("{v:?}"))
                }
                Some((n, v)) => {
                    let ty = s.slot(mid, *n).unwrap().f.ty;
                    self.value(ty, v, None)
                }
            },
            "Empty" => J::Obj(vec![]),
            _ => {
                let f = s.slot(mid, 1).unwrap().f;
                let z = s.zero(f.ty);
                self.value(f.ty, m.fields.get(&1).unwrap_or(&z), None)
            }
        }
    }

    pub fn members(&mut self, mid: usize, m: &MMsg) -> Vec<(String, J)> {
        let s = self.s;
        let mut l = Vec::new();
        for slot in s.slots(mid) {
            let f = slot.f;
            match m.fields.get(&f.num) {
                Some(v) => {
                    let name = self.name(mid, &slot);
                    let v = self.value(f.ty, v, Some(f));
                    l.push((name, v));
                }
                None if self.c(1, 12) => {
                    let name = self.name(mid, &slot);
                    if !s.slot_presence(&slot) && self.src.chance(1, 2) {
                        let z = s.default_of(&slot);
                        let v = self.value(f.ty, &z, Some(f));
                        l.push((name, v));
                    } else if f.rep() || (!is_value_msg(s, f.ty) && !is_null_enum(s, f.ty)) {
                        l.push((name, J::Null));
                    }
                }
                None => {}
            }
        }
        l
    }

    fn int(&mut self, v: i128) -> J {
        match if self.plain { 0 } else { self.src.weighted(&[4, 4, 1, 1]) } {
            1 => js(v.to_string()),
            // forms with a fraction or exponent are read as double
            2 if v.abs() < 1 << 53 => num(format!("{v}.0")),
            3 if v.abs() < 1 << 53 => {
                let mut d = v;
                let mut e = 0;
                while d != 0 && d % 10 == 0 {
                    d /= 10;
                    e += 1;
                }
                num(format!("{d}{}{e}", ["e", "E", "e+"][self.src.below(3)]))
            }
            _ => num(v),
        }
    }

    fn float(&mut self, v: f64, shortest: String) -> J {
        if v.is_nan() {
            return js("NaN");
        }
        if v.is_infinite() {
            return js(if v > 0.0 { "Infinity" } else { "-Infinity" });
        }
        let k = if self.plain { 0 } else { self.src.below(4) };
        let mut t = shortest;
        if k & 1 == 1 {
            if t.ends_with(".0") && t != "-0.0" && t.len() < 18 {
                t.truncate(t.len() - 2);
            } else if t.contains('e') {
                t = t.replace('e', "E");
            }
        }
        if k >= 2 {
            js(t)
        } else {
            num(t)
        }
    }

    pub fn value(&mut self, ty: Ty, v: &MVal, f: Option<&Field>) -> J {
        let s = self.s;
        match v {
            MVal::Bool(b) => J::Bool(*b),
            MVal::I32(v) => self.int(*v as i128),
            MVal::U32(v) => self.int(*v as i128),
            MVal::I64(v) => self.int(*v as i128),
            MVal::U64(v) => self.int(*v as i128),
            MVal::F32(b) => {
                let v = f32::from_bits(*b);
                self.float(v as f64, format!("{v:?}"))
            }
            MVal::F64(b) => {
                let v = f64::from_bits(*b);
                self.float(v, format!("{v:?}"))
            }
            MVal::Str(t) => js(t.clone()),
            MVal::Bytes(b) => {
                let (url, pad) = (self.c(1, 2), !self.c(1, 2));
                js(base64(b, url, pad))
            }
            MVal::Enum(n) => {
                let Ty::E(e) = ty else { panic!("harness: enum value") };
                if is_null_enum(s, ty) {
                    return if self.c(1, 3) { js("NULL_VALUE") } else { J::Null };
                }
                let names: Vec<&str> = s.enums[e].values.iter().filter(|v| v.num == *n).map(|v| v.name.as_str()).collect();
                if names.is_empty() || self.c(1, 3) {
                    num(n)
                } else {
                    js(names[if self.plain { 0 } else { self.src.below(names.len()) }])
                }
            }
            MVal::Msg(m) => self.message(ty.msg().unwrap(), m),
            MVal::List(l) => {
                let ty = f.map_or(ty, |f| f.ty);
                J::Arr(l.iter().map(|v| self.value(ty, v, None)).collect())
            }
            MVal::Map(mm) => {
                let (_, vf) = s.entry(f.unwrap()).unwrap();
                let mut o: Vec<(String, J)> = mm.iter().map(|(k, v)| (key_text(k), self.value(vf.ty, v, None))).collect();
                if !self.plain {
                    self.src.shuffle(&mut o);
                }
                J::Obj(o)
            }
        }
    }
}

pub fn valid(text: &str) -> R<J> {
    let r = parse(text);
    ensure!(r.is_ok(), "json-invalid", "not JSON: {}: {}", r.unwrap_err(), text.chars().take(300).collect::<String>());
    Ok(r.unwrap())
}
