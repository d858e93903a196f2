//! A reference writer of the protobuf text format with every freedom the grammar leaves.
use crate::core::Src;
use crate::model::*;
use crate::wire::decode;

pub type Toks = Vec<String>;

/// Whether a type url may stand in brackets.
pub fn expandable(url: &str) -> bool {
    let ident = |s: &str| {
        s.split('.').all(|p| {
            p.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && p.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
        })
    };
    url.split_once('/').is_some_and(|(a, b)| ident(a) && ident(b))
}

pub struct Printer<'a> {
    pub s: &'a Schema,
    pub src: &'a mut Src,
    /// whether Any values may be written in expanded form
    pub any: bool,
    /// only the plainest spelling
    pub plain: bool,
}

impl Printer<'_> {
    fn c(&mut self, num: u64, den: u64) -> bool {
        !self.plain && self.src.chance(num, den)
    }

    /// The fields of a message, each as the entries that make it up, in an order that may be
    /// merged with the entries of the other fields.
    pub fn entries(&mut self, mid: usize, m: &MMsg) -> Vec<Toks> {
        if let Some(e) = self.expand(mid, m) {
            return vec![e];
        }
        let mut queues: Vec<Vec<Toks>> = Vec::new();
        for (n, v) in &m.fields {
            let slot = self.s.slot(mid, *n).expect("harness: text of an unknown field");
            let name = match (slot.ext, slot.f.ty) {
                (Some(e), _) => self.bracket(&self.s.exts[e].full.clone()),
                (None, Ty::G(g)) => vec![self.s.msgs[g].name.clone()],
                _ => vec![slot.f.name.clone()],
            };
            let ty = slot.f.ty;
            let mut q: Vec<Toks> = Vec::new();
            let items: Option<Vec<Toks>> = match v {
                MVal::List(l) => Some(l.iter().map(|x| self.value(ty, x)).collect()),
                MVal::Map(mm) => Some(
                    mm.iter()
                        .map(|(k, x)| {
                            let e = ty.msg().unwrap();
                            // an entry may leave out a part that has its default
                            let mut em = MMsg::default().set(1, k.val()).set(2, x.clone());
                            for n in [1u32, 2] {
                                let f = self.s.slot(e, n).unwrap().f;
                                let z = self.s.default_of(&Slot { f, proto3: true, ext: None });
                                if em.fields[&n] == z && self.c(1, 2) {
                                    em.fields.remove(&n);
                                }
                            }
                            self.braced(e, &em)
                        })
                        .collect(),
                ),
                _ => None,
            };
            match items {
                None => {
                    let val = self.value(ty, v);
                    q.push(self.field(&name, ty.msg().is_some(), val));
                }
                Some(mut items) => {
                    if matches!(v, MVal::Map(_)) && !self.plain {
                        self.src.shuffle(&mut items);
                    }
                    let mut at = 0;
                    while at < items.len() {
                        if self.c(1, 2) {
                            let n = 1 + self.src.below(items.len() - at);
                            let mut l: Toks = vec!["[".into()];
                            for (i, it) in items[at..at + n].iter().enumerate() {
                                if i > 0 {
                                    l.push(",".into());
                                }
                                l.extend(it.iter().cloned());
                            }
                            l.push("]".into());
                            at += n;
                            q.push(self.field(&name, ty.msg().is_some(), l));
                        } else {
                            q.push(self.field(&name, ty.msg().is_some(), items[at].clone()));
                            at += 1;
                        }
                        if self.c(1, 20) {
                            q.push(self.field(&name, ty.msg().is_some(), vec!["[".into(), "]".into()]));
                        }
                    }
                }
            }
            queues.push(q);
        }
        let mut out = Vec::new();
        let mix = self.c(1, 2);
        while !queues.is_empty() {
            let k = if mix { self.src.below(queues.len()) } else { 0 };
            if queues[k].is_empty() {
                queues.remove(k);
                continue;
            }
            out.push(queues[k].remove(0));
        }
        out
    }

    pub fn body(&mut self, mid: usize, m: &MMsg) -> Toks {
        self.entries(mid, m).concat()
    }

    fn field(&mut self, name: &Toks, message: bool, value: Toks) -> Toks {
        let mut t = name.clone();
        if !message || self.c(1, 2) {
            t.push(":".into());
        }
        t.extend(value);
        match self.src.below(if self.plain { 1 } else { 4 }) {
            2 => t.push(",".into()),
            3 => t.push(";".into()),
            _ => {}
        }
        t
    }

    fn bracket(&mut self, full: &str) -> Toks {
        if self.c(1, 6) {
            let mut t: Toks = vec!["[".into()];
            for (i, p) in full.split('.').enumerate() {
                if i > 0 {
                    t.push(".".into());
                }
                t.push(p.into());
            }
            t.push("]".into());
            t
        } else {
            vec![format!("[{full}]")]
        }
    }

    fn expand(&mut self, mid: usize, m: &MMsg) -> Option<Toks> {
        if self.s.msgs[mid].full != "google.protobuf.Any" || !self.any || m.fields.is_empty() || self.c(1, 3) {
            return None;
        }
        let Some(MVal::Str(url)) = m.fields.get(&1) else { return None };
        let (_, name) = url.rsplit_once('/')?;
        if !expandable(url) {
            return None;
        }
        let t = self.s.find_msg(name)?;
        let empty = Vec::new();
        let b = match m.fields.get(&2) {
            Some(MVal::Bytes(b)) => b,
            _ => &empty,
        };
        let inner = decode(self.s, t, b).ok()?;
        let val = self.braced(t, &inner.without_unknown());
        let name = vec![format!("[{url}]")];
        Some(self.field(&name, true, val))
    }

    pub fn braced(&mut self, mid: usize, m: &MMsg) -> Toks {
        let angle = self.c(1, 3);
        let mut t: Toks = vec![if angle { "<" } else { "{" }.into()];
        t.extend(self.body(mid, m));
        t.push(if angle { ">" } else { "}" }.into());
        t
    }

    fn int(&mut self, neg: bool, abs: u64) -> Toks {
        let mut t: Toks = Vec::new();
        if neg {
            t.push("-".into());
        }
        let k = if self.plain { 0 } else { self.src.weighted(&[4, 1, 1, 1]) };
        t.push(match k {
            1 => format!("0x{abs:x}"),
            2 => format!("0X{abs:X}"),
            3 => format!("0{abs:o}"),
            _ => abs.to_string(),
        });
        t
    }

    fn float(&mut self, v: f64, shortest: String, debug: String) -> Toks {
        let mut t: Toks = Vec::new();
        if v.is_nan() {
            t.push((if self.plain { "nan" } else { *self.src.pick(&["nan", "NaN", "NAN"]) }).into());
            return t;
        }
        if v.is_sign_negative() {
            t.push("-".into());
        }
        if v.is_infinite() {
            t.push((if self.plain { "inf" } else { *self.src.pick(&["inf", "Inf", "infinity", "INFINITY"]) }).into());
            return t;
        }
        let shortest = shortest.trim_start_matches('-').to_string();
        let debug = debug.trim_start_matches('-').to_string();
        let k = if self.plain { 0 } else { self.src.below(6) };
        let mut s = match k {
            0 | 1 => debug,
            2 if !shortest.starts_with('0') || shortest.contains('.') || shortest == "0" => shortest,
            3 if debug.starts_with("0.") => debug[1..].to_string(),
            3 if debug.ends_with(".0") => debug[..debug.len() - 1].to_string(),
            4 if debug.contains('e') => debug.replace('e', "E"),
            4 => format!("{debug}e+0"),
            _ => debug,
        };
        if k >= 2 && !self.plain && self.src.chance(1, 5) && s.len() < 40 {
            s.push(if self.src.chance(1, 2) { 'F' } else { 'f' });
        }
        t.push(s);
        t
    }

    /// One or more string literals for some bytes.
    pub fn string(&mut self, b: &[u8]) -> Toks {
        let mut parts: Toks = Vec::new();
        let mut quote = self.c(1, 3);
        let mut cur = String::new();
        let q = |quote: bool| if quote { '\'' } else { '"' };
        cur.push(q(quote));
        let mut at = 0;
        // how eagerly escapes are used
        let long = b.len() > 1000;
        let eager = if self.plain || long { 0 } else { self.src.weighted(&[5, 2, 1]) };
        while at < b.len() {
            if !long && self.c(1, 30) {
                cur.push(q(quote));
                parts.push(std::mem::take(&mut cur));
                quote = self.src.chance(1, 2);
                cur.push(q(quote));
            }
            let next_char = |at: usize| -> Option<char> {
                let end = (at + 4).min(b.len());
                (at + 1..=end).find_map(|e| std::str::from_utf8(&b[at..e]).ok()).and_then(|s| s.chars().next())
            };
            let byte = b[at];
            let ch = next_char(at);
            let raw_ok = match ch {
                Some('\0' | '\n' | '\\') => false,
                Some(c) => c != q(quote),
                None => false,
            };
            let escape = match eager {
                0 => !raw_ok,
                1 => !raw_ok || self.src.chance(1, 3),
                _ => true,
            };
            if !escape {
                let c = ch.unwrap();
                cur.push(c);
                at += c.len_utf8();
                continue;
            }
            let named = match byte {
                7 => Some('a'),
                8 => Some('b'),
                12 => Some('f'),
                10 => Some('n'),
                13 => Some('r'),
                9 => Some('t'),
                11 => Some('v'),
                b'?' => Some('?'),
                b'\\' => Some('\\'),
                b'\'' => Some('\''),
                b'"' => Some('"'),
                _ => None,
            };
            match self.src.below(if self.plain { 1 } else { 6 }) {
                1 => cur.push_str(&format!("\\x{byte:02x}")),
                2 => cur.push_str(&format!("\\X{byte:02X}")),
                3 if named.is_some() => {
                    cur.push('\\');
                    cur.push(named.unwrap());
                }
                4 if ch.is_some() => {
                    let c = ch.unwrap();
                    if (c as u32) < 0x10000 && self.src.chance(2, 3) {
                        cur.push_str(&format!("\\u{:04x}", c as u32));
                    } else {
                        cur.push_str(&format!("\\U{:08x}", c as u32));
                    }
                    at += c.len_utf8();
                    continue;
                }
                5 => {
                    // the shortest octal form, where no digit follows
                    let digit = b.get(at + 1).is_some_and(|d| (b'0'..=b'9').contains(d));
                    if digit {
                        cur.push_str(&format!("\\{byte:03o}"));
                    } else {
                        cur.push_str(&format!("\\{byte:o}"));
                        at += 1;
                        // the next character must not be able to continue the escape
                        continue;
                    }
                }
                _ => cur.push_str(&format!("\\{byte:03o}")),
            }
            at += 1;
        }
        cur.push(q(quote));
        parts.push(cur);
        parts
    }

    pub fn value(&mut self, ty: Ty, v: &MVal) -> Toks {
        match v {
            MVal::Bool(b) => {
                let l: &[&str] = if *b { &["true", "True", "t", "1", "0x1", "01"] } else { &["false", "False", "f", "0", "0x0", "00"] };
                vec![l[if self.plain { 0 } else { self.src.below(l.len()) }].into()]
            }
            MVal::I32(v) => self.int(*v < 0, v.unsigned_abs() as u64),
            MVal::I64(v) => self.int(*v < 0, v.unsigned_abs()),
            MVal::U32(v) => self.int(false, *v as u64),
            MVal::U64(v) => self.int(false, *v),
            MVal::F32(b) => {
                let v = f32::from_bits(*b);
                self.float(v as f64, format!("{v}"), format!("{v:?}"))
            }
            MVal::F64(b) => {
                let v = f64::from_bits(*b);
                self.float(v, format!("{v}"), format!("{v:?}"))
            }
            MVal::Str(s) => self.string(s.as_bytes()),
            MVal::Bytes(b) => self.string(b),
            MVal::Enum(n) => {
                let Ty::E(e) = ty else { panic!("harness: enum value") };
                let names: Vec<String> = self.s.enums[e].values.iter().filter(|v| v.num == *n).map(|v| v.name.clone()).collect();
                if names.is_empty() || self.c(1, 4) {
                    self.int(*n < 0, n.unsigned_abs() as u64)
                } else {
                    vec![names[if self.plain { 0 } else { self.src.below(names.len()) }].clone()]
                }
            }
            MVal::Msg(m) => self.braced(ty.msg().unwrap(), m),
            MVal::List(_) | MVal::Map(_) => unreachable!(),
        }
    }

    /// Joins tokens with whatever may stand between them.
    pub fn join(&mut self, toks: &[String]) -> String {
        let wordy = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.';
        let style = if self.plain { 0 } else { self.src.weighted(&[2, 2, 2, 1]) };
        let mut out = String::new();
        for (i, t) in toks.iter().enumerate() {
            if i > 0 {
                let prev = toks[i - 1].chars().last().unwrap();
                let next = t.chars().next().unwrap();
                let need = wordy(prev) && wordy(next);
                let gap = match style {
                    0 => " ".to_string(),
                    1 => if need { " " } else { "" }.to_string(),
                    2 => ["", " ", "\n", "\t  ", "\r\n", "\x0b \x0c"][self.src.below(6)].to_string(),
                    _ => ["", " ", "#\n", " # c: 1 }\"\n", "#é\n\n"][self.src.below(5)].to_string(),
                };
                if gap.is_empty() && need {
                    out.push(' ');
                } else {
                    out.push_str(&gap);
                }
            }
            out.push_str(t);
        }
        if style == 3 {
            out.push_str(["", "#", " # end", "\n"][self.src.below(4)]);
        }
        out
    }

    pub fn message(&mut self, mid: usize, m: &MMsg) -> String {
        let t = self.body(mid, m);
        self.join(&t)
    }
}
