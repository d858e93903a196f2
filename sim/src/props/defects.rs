//! Single defects at any place of a descriptor file: what a pool has to refuse.
use super::*;
use crate::core::Src;
use crate::emit::*;
use prost::Message as _;
use prost_types::{
    uninterpreted_option::NamePart, DescriptorProto, EnumDescriptorProto, EnumValueDescriptorProto, FieldDescriptorProto, FileDescriptorProto,
    MethodDescriptorProto, OneofDescriptorProto, ServiceDescriptorProto, UninterpretedOption,
};

type Path = Vec<usize>;

/// Where the messages of a file are, map entries left out.
fn paths(p: &FileDescriptorProto) -> Vec<Path> {
    fn go(ms: &[DescriptorProto], at: &Path, out: &mut Vec<Path>) {
        for (i, m) in ms.iter().enumerate() {
            if m.options.as_ref().is_some_and(|o| o.map_entry()) {
                continue;
            }
            let mut here = at.clone();
            here.push(i);
            out.push(here.clone());
            go(&m.nested_type, &here, out);
        }
    }
    let mut out = vec![];
    go(&p.message_type, &vec![], &mut out);
    out
}

fn at<'a>(p: &'a mut FileDescriptorProto, path: &[usize]) -> &'a mut DescriptorProto {
    let mut m = &mut p.message_type[path[0]];
    for i in &path[1..] {
        m = &mut m.nested_type[*i];
    }
    m
}

fn full(p: &mut FileDescriptorProto, path: &[usize]) -> String {
    let mut s = p.package().to_string();
    for n in 1..=path.len() {
        let name = at(p, &path[..n]).name().to_string();
        s = join(&s, &name);
    }
    s
}

fn join(scope: &str, name: &str) -> String {
    if scope.is_empty() {
        name.to_string()
    } else {
        format!("{scope}.{name}")
    }
}

fn field(name: &str, num: i32, ty: i32) -> FieldDescriptorProto {
    FieldDescriptorProto { name: Some(name.into()), number: Some(num), label: Some(1), r#type: Some(ty), ..Default::default() }
}

fn value(name: &str, num: i32) -> EnumValueDescriptorProto {
    EnumValueDescriptorProto { name: Some(name.into()), number: Some(num), options: None }
}

fn enum_(name: &str, first: &str) -> EnumDescriptorProto {
    EnumDescriptorProto { name: Some(name.into()), value: vec![value(first, 0)], ..Default::default() }
}

fn msg(name: &str) -> DescriptorProto {
    DescriptorProto { name: Some(name.into()), ..Default::default() }
}

/// A number that nothing speaks against.
pub fn free_number(m: &DescriptorProto) -> i32 {
    (1..)
        .find(|n| {
            !m.field.iter().any(|f| f.number() == *n)
                && !m.extension_range.iter().any(|r| (r.start()..r.end()).contains(n))
                && !m.reserved_range.iter().any(|r| (r.start()..r.end()).contains(n))
        })
        .unwrap()
}

fn free_ext(s: &Schema, t: usize) -> Option<u32> {
    s.msgs[t].ext_ranges.iter().flat_map(|r| r.0..r.1.min(r.0 + 2000)).find(|n| {
        !(19000..20000).contains(n)
            && !s.exts.iter().any(|e| e.extendee == t && e.field.num == *n)
            && !s.msgs[t].reserved.iter().any(|r| (r.0..r.1).contains(n))
    })
}

/// Adds an extension of `t`, at file level or inside a message.
fn add_ext(p: &mut FileDescriptorProto, place: &Option<Path>, f: FieldDescriptorProto) {
    match place {
        None => p.extension.push(f),
        Some(x) => at(p, x).extension.push(f),
    }
}
fn add_enum(p: &mut FileDescriptorProto, place: &Option<Path>, e: EnumDescriptorProto) {
    match place {
        None => p.enum_type.push(e),
        Some(x) => at(p, x).enum_type.push(e),
    }
}
fn add_msg(p: &mut FileDescriptorProto, place: &Option<Path>, m: DescriptorProto) {
    match place {
        None => p.message_type.push(m),
        Some(x) => at(p, x).nested_type.push(m),
    }
}
fn enums_of<'a>(p: &'a mut FileDescriptorProto, place: &Option<Path>) -> &'a mut Vec<EnumDescriptorProto> {
    match place {
        None => &mut p.enum_type,
        Some(x) => &mut at(p, x).enum_type,
    }
}

/// Names that are taken in a scope.
fn names(p: &mut FileDescriptorProto, place: &Option<Path>) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut e = |es: &[EnumDescriptorProto]| {
        let mut out = vec![];
        for e in es {
            out.push(e.name().to_string());
            out.extend(e.value.iter().map(|v| v.name().to_string()));
        }
        out
    };
    match place {
        None => {
            out.extend(p.message_type.iter().map(|m| m.name().to_string()));
            out.extend(p.extension.iter().map(|m| m.name().to_string()));
            out.extend(p.service.iter().map(|m| m.name().to_string()));
            out.extend(e(&p.enum_type));
        }
        Some(x) => {
            let m = at(p, x);
            out.extend(m.nested_type.iter().map(|m| m.name().to_string()));
            out.extend(m.extension.iter().map(|m| m.name().to_string()));
            out.extend(m.field.iter().map(|m| m.name().to_string()));
            out.extend(m.oneof_decl.iter().map(|m| m.name().to_string()));
            out.extend(e(&m.enum_type));
        }
    }
    out
}

/// Full names that a file knows and that are no types.
fn no_types(s: &Schema, files: &[usize]) -> Vec<String> {
    let mut out = vec![];
    for m in s.msgs.iter().filter(|m| files.contains(&m.file)) {
        out.extend(m.fields.iter().map(|f| join(&m.full, &f.name)));
        out.extend(m.oneofs.iter().map(|f| join(&m.full, &f.name)));
    }
    for e in s.enums.iter().filter(|m| files.contains(&m.file)) {
        let scope = e.full.rsplit_once('.').map_or("", |x| x.0);
        out.extend(e.values.iter().map(|v| join(scope, &v.name)));
    }
    out.extend(s.exts.iter().filter(|m| files.contains(&m.file)).map(|e| e.full.clone()));
    for f in files {
        let f = &s.files[*f];
        if !f.package.is_empty() {
            out.push(f.package.clone());
        }
        for v in &f.services {
            out.push(v.full.clone());
            out.extend(v.methods.iter().map(|m| join(&v.full, &m.name)));
        }
    }
    out
}

fn bad_default(src: &mut Src) -> (i32, &'static str) {
    const BAD: [(i32, &str); 50] = [
        (5, "abc"),
        (5, "2147483648"),
        (5, "-2147483649"),
        (5, ""),
        (5, "1 "),
        (5, " 1"),
        (5, "--1"),
        (5, "1.0"),
        (17, "2147483648"),
        (17, ""),
        (15, "-2147483649"),
        (15, "4294967295"),
        (3, "9223372036854775808"),
        (3, "-9223372036854775809"),
        (18, "9223372036854775808"),
        (16, "9223372036854775808"),
        (16, "0y1"),
        (13, "-1"),
        (13, "4294967296"),
        (7, "4294967296"),
        (7, "-1"),
        (4, "1.5"),
        (4, "18446744073709551616"),
        (4, "-1"),
        (6, "18446744073709551616"),
        (6, "-1"),
        (8, "yes"),
        (8, "True"),
        (8, "1"),
        (8, "0"),
        (8, ""),
        (8, "t"),
        (8, " true"),
        (1, "1.2.3"),
        (1, ""),
        (1, "1,5"),
        (2, "x"),
        (2, ""),
        (2, "0x1"),
        (12, "\\q"),
        (12, "\\400"),
        (12, "\\777"),
        (12, "abc\\"),
        (12, "\\"),
        (12, "\\x"),
        (12, "\\xg1"),
        (12, "a\\xzz"),
        (12, "\\8"),
        (12, "\\e"),
        (12, "\\N"),
    ];
    BAD[src.below(BAD.len())]
}

fn np(s: &str, e: bool) -> NamePart {
    NamePart { name_part: s.into(), is_extension: e }
}

/// Values that an option of some kind cannot have: 'b' bool, 'i' i32, 'u' u32, 'I' i64, 'U' u64, 'f' float, 's' string, 'y' bytes, 'e' enum, 'm' message.
fn bad_value(src: &mut Src, kind: char) -> UninterpretedOption {
    let id = |s: &str| UninterpretedOption { identifier_value: Some(s.into()), ..Default::default() };
    let pos = |v: u64| UninterpretedOption { positive_int_value: Some(v), ..Default::default() };
    let neg = |v: i64| UninterpretedOption { negative_int_value: Some(v), ..Default::default() };
    let dbl = |v: f64| UninterpretedOption { double_value: Some(v), ..Default::default() };
    let st = |v: &[u8]| UninterpretedOption { string_value: Some(v.to_vec()), ..Default::default() };
    let agg = |s: &str| UninterpretedOption { aggregate_value: Some(s.into()), ..Default::default() };
    let l: Vec<UninterpretedOption> = match kind {
        'b' => vec![pos(1), pos(0), neg(-1), dbl(1.0), st(b"true"), id("True"), id("t"), id("maybe"), id(""), agg("true")],
        'i' => vec![id("x"), id("true"), dbl(1.0), st(b"1"), pos(1 << 31), pos(u64::MAX), neg(-(1 << 31) - 1), agg("1")],
        'u' => vec![id("x"), dbl(1.0), st(b"1"), pos(1 << 32), neg(-1), neg(i64::MIN), agg("1")],
        'I' => vec![id("x"), dbl(1.0), st(b"1"), pos(1 << 63), agg("1")],
        'U' => vec![id("x"), dbl(1.0), st(b"1"), neg(-1), agg("1")],
        'f' => vec![id("x"), st(b"1.0"), agg("1")],
        's' => vec![id("x"), pos(1), neg(-1), dbl(1.0), st(&[0xff]), st(&[b'a', 0xc3]), agg("x")],
        'y' => vec![id("x"), pos(1), neg(-1), dbl(1.0), agg("x")],
        'e' => vec![id("ZZ_NO_SUCH"), id(""), pos(0), pos(1), neg(-1), dbl(1.0), st(b"SPEED"), agg("SPEED")],
        _ => vec![id("x"), pos(1), neg(-1), dbl(1.0), st(b""), agg("{"), agg("zz_no_such: 1"), agg("[no.such.ext]: 1"), agg("1"), agg("}")],
    };
    if src.chance(1, 8) {
        UninterpretedOption::default()
    } else {
        src.pick(&l).clone()
    }
}

/// Makes one file of a valid set invalid, by an edit at any place of it. Returns what was done, or `None` if it does not apply.
pub fn plant_more(ctx: &mut Ctx, s: &Schema, fi: usize, spell: &Spell) -> Option<(&'static str, Vec<Vec<u8>>)> {
    let mut p = FileDescriptorProto::decode(Emit { s, spell }.file(fi).as_slice()).expect("harness: file");
    let src = &mut ctx.src;
    let proto3 = s.files[fi].proto3;
    let pa = paths(&p);
    let near = s.closure(fi);
    let vis: Vec<usize> = s.visible(fi).into_iter().collect();
    let place: Option<Path> = if pa.is_empty() || src.chance(1, 3) { None } else { Some(src.pick(&pa).clone()) };
    let any: Option<Path> = if pa.is_empty() { None } else { Some(src.pick(&pa).clone()) };
    macro_rules! pick {
        ($l:expr) => {{
            let l = $l;
            if l.is_empty() {
                return None;
            }
            src.pick(&l).clone()
        }};
    }
    // somewhere a field can be added
    macro_rules! put {
        ($f:expr) => {{
            let m = at(&mut p, any.as_ref()?);
            let n = free_number(m);
            let f: FieldDescriptorProto = $f(n);
            m.field.push(f);
        }};
    }
    // an extension that is fine, but for what is done to it later
    macro_rules! ext {
        () => {{
            let t = pick!((0..s.msgs.len()).filter(|m| vis.contains(&s.msgs[*m].file) && free_ext(s, *m).is_some()).collect::<Vec<_>>());
            let mut f = field("zz_ext", free_ext(s, t)? as i32, 5);
            f.extendee = Some(format!(".{}", s.msgs[t].full));
            (t, f)
        }};
    }
    let what = match src.weighted(&[2, 3, 3, 2, 2, 2, 2, 3, 1, 2, 2, 2, 1, 1, 1, 1, 8, 2, 2, 3, 2, 1, 2]) {
        0 => {
            // names that are none
            let bad = ["", "a..b", ".a", "a.", "."][src.below(5)];
            match src.below(9) {
                0 => add_msg(&mut p, &place, msg(bad)),
                1 => add_enum(&mut p, &place, enum_(bad, "ZZ_V")),
                2 => add_enum(&mut p, &place, enum_("ZzEnum", bad)),
                3 => put!(|n| field(bad, n, 5)),
                4 => at(&mut p, any.as_ref()?).oneof_decl.push(OneofDescriptorProto { name: Some(bad.into()), options: None }),
                5 => p.service.push(ServiceDescriptorProto { name: Some(bad.into()), ..Default::default() }),
                6 => {
                    let t = format!(".{}", pick!(s.msgs.iter().filter(|m| vis.contains(&m.file)).collect::<Vec<_>>()).full);
                    let m = MethodDescriptorProto { name: Some(bad.into()), input_type: Some(t.clone()), output_type: Some(t), ..Default::default() };
                    p.service.push(ServiceDescriptorProto { name: Some("ZzSvc".into()), method: vec![m], ..Default::default() })
                }
                7 => {
                    let (_, mut f) = ext!();
                    f.name = Some(bad.into());
                    add_ext(&mut p, &place, f)
                }
                _ => {
                    if bad.is_empty() {
                        return None;
                    }
                    // nothing that is declared can be found under such a package, so the file is emptied
                    p = FileDescriptorProto { name: p.name.clone(), package: Some(bad.into()), ..Default::default() };
                }
            }
            "invalid-name"
        }
        1 | 2 => {
            // one name for two things, of the same or of different kinds
            let mut l = names(&mut p, &place);
            if place.is_none() {
                let pk = s.files[fi].package.clone();
                let pre = if pk.is_empty() { String::new() } else { format!("{pk}.") };
                for f in near.iter().filter(|f| **f != fi) {
                    let f = *f;
                    let mut fulls: Vec<String> = s.msgs.iter().filter(|m| m.file == f).map(|m| m.full.clone()).collect();
                    fulls.extend(s.enums.iter().filter(|m| m.file == f).map(|m| m.full.clone()));
                    fulls.extend(no_types(s, &[f]));
                    l.extend(fulls.iter().filter_map(|n| n.strip_prefix(&pre)).filter(|n| !n.contains('.')).map(String::from));
                    // a package is a name as well
                    l.extend(s.files[f].package.strip_prefix(&pre).map(|n| n.split('.').next().unwrap().to_string()).filter(|n| !n.is_empty()));
                }
            }
            let name = pick!(l);
            match src.below(8) {
                0 => add_msg(&mut p, &place, msg(&name)),
                1 => add_enum(&mut p, &place, enum_(&name, "ZZ_V")),
                2 => add_enum(&mut p, &place, enum_("ZzEnum", &name)),
                3 => {
                    let k = enums_of(&mut p, &place).len();
                    if k == 0 {
                        return None;
                    }
                    let k = src.below(k);
                    let e = &mut enums_of(&mut p, &place)[k];
                    let n = (5000..).find(|n| !e.value.iter().any(|v| v.number() == *n)).unwrap();
                    e.value.push(value(&name, n));
                }
                4 if place.is_some() => {
                    let m = at(&mut p, place.as_ref()?);
                    let n = free_number(m);
                    let mut f = field(&name, n, 5);
                    f.json_name = Some("zzJson".into());
                    m.field.push(f);
                }
                5 if place.is_some() => at(&mut p, place.as_ref()?).oneof_decl.push(OneofDescriptorProto { name: Some(name), options: None }),
                4 | 5 => p.service.push(ServiceDescriptorProto { name: Some(name), ..Default::default() }),
                _ => {
                    let (_, mut f) = ext!();
                    f.name = Some(name);
                    add_ext(&mut p, &place, f)
                }
            }
            "duplicate-name"
        }
        3 => {
            let k: Vec<usize> = (0..p.service.len()).filter(|k| !p.service[*k].method.is_empty()).collect();
            let k = pick!(k);
            let m = pick!(p.service[k].method.clone());
            p.service[k].method.push(MethodDescriptorProto { options: None, ..m });
            "duplicate-method"
        }
        4 => {
            let (path, k) = pick!({
                let mut l = vec![];
                for x in &pa {
                    l.extend((0..at(&mut p, x).reserved_range.len()).map(|k| (x.clone(), k)));
                }
                l
            });
            let m = at(&mut p, &path);
            let (a, b) = (m.reserved_range[k].start(), m.reserved_range[k].end());
            let n = [a, b - 1, a + src.below((b - a) as usize) as i32][src.below(3)];
            m.field.push(field("zz_new", n, 5));
            "reserved-number"
        }
        5 => {
            // a range of numbers around one that is used
            let x = any.as_ref()?;
            let m = at(&mut p, x);
            let n = pick!(m.field.iter().map(|f| f.number()).collect::<Vec<_>>());
            let a = n - src.below(3).min(n as usize - 1) as i32;
            let b = n + 1 + src.below(3) as i32;
            if src.chance(1, 2) {
                m.reserved_range.push(prost_types::descriptor_proto::ReservedRange { start: Some(a), end: Some(b) });
                "reserved-number"
            } else {
                m.extension_range.push(prost_types::descriptor_proto::ExtensionRange { start: Some(a), end: Some(b), options: None });
                "extension-range-number"
            }
        }
        6 => {
            let (path, k) = pick!({
                let mut l = vec![];
                for x in &pa {
                    l.extend((0..at(&mut p, x).extension_range.len()).map(|k| (x.clone(), k)));
                }
                l
            });
            let m = at(&mut p, &path);
            let (a, b) = (m.extension_range[k].start(), m.extension_range[k].end());
            let n = [a, b - 1, a + src.below((b - a) as usize) as i32][src.below(3)];
            m.field.push(field("zz_new", n, 5));
            "extension-range-number"
        }
        7 => {
            // an extension whose number is not for it
            let (t, mut f) = ext!();
            let mut l: Vec<(&'static str, u32)> = vec![];
            for r in &s.msgs[t].ext_ranges {
                l.extend([r.0 - 1, r.1, r.1 + 1].map(|n| ("extension-out-of-range", n)));
                if r.0 < 19000 && 19999 < r.1 {
                    l.extend([19000, 19999, 19500].map(|n| ("number-out-of-range", n)));
                }
            }
            l.push(("extension-out-of-range", 0));
            l.push(("extension-out-of-range", u32::MAX));
            l.extend(s.exts.iter().filter(|e| e.extendee == t && near.contains(&e.file)).map(|e| ("extension-number-twice", e.field.num)));
            l.extend(s.msgs[t].fields.iter().map(|e| ("extension-out-of-range", e.num)));
            l.retain(|(w, n)| *w != "extension-out-of-range" || !s.msgs[t].ext_ranges.iter().any(|r| (r.0..r.1).contains(n)));
            let (w, n) = pick!(l);
            f.number = Some(n as i32);
            add_ext(&mut p, &place, f);
            w
        }
        8 => {
            let (t, f) = ext!();
            let own = pa.iter().find(|x| full(&mut p, x) == s.msgs[t].full).cloned();
            if let (Some(x), true) = (own, src.chance(1, 2)) {
                // an extension of a number that its own file reserves
                let n = f.number();
                let (a, b) = (n - src.below(2) as i32, n + 1 + src.below(2) as i32);
                at(&mut p, &x).reserved_range.push(prost_types::descriptor_proto::ReservedRange { start: Some(a), end: Some(b) });
                add_ext(&mut p, &place, f);
                return Some(("reserved-extension-number", vec![p.encode_to_vec()]));
            }
            // two new extensions with one number
            let place2: Option<Path> = if pa.is_empty() || src.chance(1, 2) { None } else { Some(src.pick(&pa).clone()) };
            let mut g = f.clone();
            g.name = Some("zz_other".into());
            add_ext(&mut p, &place, f);
            add_ext(&mut p, &place2, g);
            "extension-number-twice"
        }
        9 => {
            if proto3 {
                return None;
            }
            let (t, d) = bad_default(src);
            if src.chance(1, 3) {
                let (_, mut f) = ext!();
                f.r#type = Some(t);
                f.default_value = Some(d.into());
                add_ext(&mut p, &place, f);
            } else {
                put!(|n| FieldDescriptorProto { default_value: Some(d.into()), ..field("zz_new", n, t) });
            }
            "bad-default"
        }
        10 => {
            if proto3 {
                return None;
            }
            let e = pick!(s.enums.iter().filter(|e| vis.contains(&e.file)).collect::<Vec<_>>());
            let v = src.pick(&e.values).clone();
            let d = match src.below(8) {
                0 => v.name.to_lowercase(),
                1 => v.name.to_uppercase(),
                2 => v.name[..v.name.len() - 1].to_string(),
                3 => format!("{}_", v.name),
                4 => v.num.to_string(),
                5 => String::new(),
                6 => format!("{}.{}", e.name, v.name),
                _ => src.pick(&s.enums).values[0].name.clone(),
            };
            if e.values.iter().any(|v| v.name == d) {
                return None;
            }
            let name = format!(".{}", e.full);
            if src.chance(1, 3) {
                let (_, f) = ext!();
                add_ext(&mut p, &place, FieldDescriptorProto { default_value: Some(d), r#type: Some(14), type_name: Some(name), ..f });
            } else {
                put!(|n| FieldDescriptorProto { default_value: Some(d), type_name: Some(name), ..field("zz_new", n, 14) });
            }
            "bad-enum-default"
        }
        11 => {
            // JSON names that meet, one of them derived
            let x = any.as_ref()?;
            let m = at(&mut p, x);
            let f = pick!(m.field.clone());
            let j = f.json_name.clone().unwrap_or_else(|| json_name(f.name()));
            let mut l = vec![j.clone()];
            let mut up = String::new();
            for c in j.chars() {
                if c.is_ascii_uppercase() {
                    up.push('_');
                }
                up.push(c.to_ascii_lowercase());
            }
            l.push(up);
            let upper = j.char_indices().find(|(i, c)| *i > 0 && c.is_ascii_lowercase()).map(|(i, _)| i);
            let _ = upper;
            l.retain(|n| !n.is_empty() && json_name(n) == j && m.field.iter().all(|f| f.name() != n));
            let name = pick!(l);
            let n = free_number(m);
            let mut g = field(&name, n, 5);
            if src.chance(1, 3) {
                g.json_name = Some(j);
            }
            let k = src.below(m.field.len() + 1);
            m.field.insert(k, g);
            "duplicate-json-name"
        }
        12 => {
            if !proto3 {
                return None;
            }
            let x = any.as_ref()?;
            let m = at(&mut p, x);
            let f = pick!(m.field.clone());
            let mut name: String = f.name().chars().map(|c| if src.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            if src.chance(1, 2) {
                name.insert(src.below(name.len() + 1), '_');
            }
            if name.starts_with(|c: char| c.is_ascii_digit()) || m.field.iter().any(|f| f.name() == name) {
                return None;
            }
            let n = free_number(m);
            let mut g = field(&name, n, 5);
            g.json_name = Some("zzJson".into());
            m.field.push(g);
            "duplicate-camel-case"
        }
        13 => {
            let n = [0u32, 536870912, 19000, 19999, 19123, u32::MAX, i32::MIN as u32, i32::MAX as u32][src.below(8)] as i32;
            put!(|_| field("zz_new", n, 5));
            "number-out-of-range"
        }
        14 => {
            let x = any.as_ref()?;
            let m = at(&mut p, x);
            let k = m.oneof_decl.len() as i32;
            let k = [k, k + 1, k + 7, -1, i32::MAX, i32::MIN][src.below(6)];
            let n = free_number(m);
            m.field.push(FieldDescriptorProto { oneof_index: Some(k), ..field("zz_new", n, 5) });
            "oneof-index"
        }
        15 => {
            let k = p.dependency.len() as i32;
            let k = [k, k + 1, -1, i32::MAX, i32::MIN][src.below(5)];
            if src.chance(1, 2) {
                p.public_dependency.push(k);
            } else {
                p.weak_dependency.push(k);
            }
            "import-index"
        }
        16 => return option(ctx, s, fi, p, &pa),
        17 => {
            // an enum with a number it must not use
            let mut all: Vec<Option<Path>> = vec![None];
            all.extend(pa.iter().cloned().map(Some));
            let mut l = vec![];
            for x in &all {
                l.extend((0..enums_of(&mut p, x).len()).map(|k| (x.clone(), k)));
            }
            let (x, k) = pick!(l);
            let e = &mut enums_of(&mut p, &x)[k];
            let mut r: Vec<(&'static str, i32)> = vec![];
            for g in &e.reserved_range {
                r.extend([g.start(), g.end(), g.start().midpoint_(g.end())].map(|n| ("reserved-enum-number", n)));
            }
            if e.options.is_none() {
                r.extend(e.value.iter().map(|v| ("duplicate-enum-number", v.number())));
            }
            if proto3 {
                r.push(("proto3-enum-start", 0));
            }
            let (w, n) = pick!(r);
            if w == "proto3-enum-start" {
                let n = [1, -1, 2, i32::MAX, i32::MIN][src.below(5)];
                if e.value.iter().any(|v| v.number() == n) {
                    e.value.retain(|v| v.number() != n);
                }
                e.value.insert(0, value("ZZ_FIRST", n));
            } else {
                e.value.push(value("ZZ_NEW", n));
                if w == "duplicate-enum-number" {
                    // aliases may be ruled out in so many words
                    let mut o = prost_types::EnumOptions::default();
                    let how = src.below(4);
                    match how {
                        0 => o.allow_alias = Some(false),
                        1 => o.deprecated = Some(true),
                        2 => o.uninterpreted_option.push(UninterpretedOption {
                            name: vec![np("allow_alias", false)],
                            identifier_value: Some("false".into()),
                            ..Default::default()
                        }),
                        _ => {}
                    }
                    if how < 3 {
                        e.options = Some(o);
                    }
                }
            }
            w
        }
        18 => {
            let e = EnumDescriptorProto { name: Some("ZzEmpty".into()), ..Default::default() };
            add_enum(&mut p, &place, e);
            "empty-enum"
        }
        19 => {
            // a reference that leads nowhere, or to something else
            let hidden: Vec<usize> = (0..s.files.len()).filter(|f| !vis.contains(f)).collect();
            let kind = src.below(4);
            let mut l: Vec<(&'static str, String)> = vec![];
            l.extend(["NoSuchType", ".no.such.Type", ".", "..", "a..b", ".NoSuch.", "no.such"].map(|n| ("unresolvable-type", n.to_string())));
            for n in no_types(s, &vis) {
                l.push(("not-a-type", format!(".{n}")));
            }
            for m in s.msgs.iter().filter(|m| hidden.contains(&m.file) && !m.map_entry) {
                l.push(("unimported-type", format!(".{}", m.full)));
            }
            for m in s.msgs.iter().filter(|m| vis.contains(&m.file)) {
                l.push(("unresolvable-type", format!(".{}.NoSuchType", m.full)));
                l.push(("unresolvable-type", format!(".{}x", m.full)));
            }
            for m in s.enums.iter() {
                if hidden.contains(&m.file) {
                    l.push(("unimported-type", format!(".{}", m.full)));
                } else if kind >= 2 {
                    l.push(("not-a-message", format!(".{}", m.full)));
                }
            }
            let known: std::collections::HashSet<String> =
                s.msgs.iter().map(|m| format!(".{}", m.full)).chain(s.enums.iter().map(|m| format!(".{}", m.full))).collect();
            l.retain(|(w, n)| *w != "unresolvable-type" || !known.contains(n));
            // by kind first, then by name
            let mut kinds: Vec<&'static str> = l.iter().map(|x| x.0).collect();
            kinds.dedup();
            kinds.sort();
            kinds.dedup();
            let w = pick!(kinds);
            let name = pick!(l.into_iter().filter(|x| x.0 == w).map(|x| x.1).collect::<Vec<_>>());
            match kind {
                0 => {
                    let t = [Some(11), Some(14), None, Some(10)][src.below(4)];
                    put!(|n| FieldDescriptorProto { r#type: t, type_name: Some(name), ..field("zz_new", n, 11) });
                }
                1 => {
                    let (_, f) = ext!();
                    add_ext(&mut p, &place, FieldDescriptorProto { r#type: Some(11), type_name: Some(name), ..f });
                }
                2 => {
                    let (_, f) = ext!();
                    add_ext(&mut p, &place, FieldDescriptorProto { extendee: Some(name), ..f });
                }
                _ => {
                    let good = format!(".{}", pick!(s.msgs.iter().filter(|m| vis.contains(&m.file) && !m.map_entry).collect::<Vec<_>>()).full);
                    let first = src.chance(1, 2);
                    let (a, b) = if first { (name, good) } else { (good, name) };
                    let m = MethodDescriptorProto { name: Some("ZzCall".into()), input_type: Some(a), output_type: Some(b), ..Default::default() };
                    if !p.service.is_empty() && src.chance(1, 2) {
                        let k = src.below(p.service.len());
                        p.service[k].method.push(m);
                    } else {
                        p.service.push(ServiceDescriptorProto { name: Some("ZzSvc".into()), method: vec![m], ..Default::default() });
                    }
                }
            }
            w
        }
        20 => {
            // the first part of a relative name is found closer by, without the rest
            let l: Vec<(usize, usize)> = (0..s.msgs.len())
                .filter(|m| vis.contains(&s.msgs[*m].file) && s.msgs[*m].parent.is_none())
                .flat_map(|m| s.msgs[m].nested.iter().map(move |n| (m, *n)))
                .filter(|(_, n)| !s.msgs[*n].map_entry)
                .collect();
            let (a, b) = pick!(l);
            let x = any.as_ref()?;
            let here = full(&mut p, x);
            let pk = s.msgs[a].full.rsplit_once('.').map_or("", |x| x.0);
            if !(pk.is_empty() || here.starts_with(&format!("{pk}."))) {
                return None;
            }
            let (a, b) = (s.msgs[a].name.clone(), s.msgs[b].name.clone());
            if names(&mut p, &any).contains(&a) {
                return None;
            }
            let m = at(&mut p, x);
            m.nested_type.push(msg(&a));
            let n = free_number(m);
            m.field.push(FieldDescriptorProto { type_name: Some(format!("{a}.{b}")), ..field("zz_new", n, 11) });
            "shadowed-name"
        }
        21 => {
            let mut l = vec!["not/there.proto".to_string(), String::new()];
            if let Some(d) = p.dependency.first() {
                l.push(format!("{d}x"));
                l.push(format!("./{d}"));
                l.push(d.to_uppercase());
            }
            let name = pick!(l);
            if s.files.iter().any(|f| f.name == name) {
                return None;
            }
            p.dependency.insert(src.below(p.dependency.len() + 1), name);
            p.public_dependency.clear();
            "missing-import"
        }
        _ => {
            // a map whose entry has no usable key or value
            let mut l: Vec<(Path, usize)> = vec![];
            for x in &pa {
                let m = at(&mut p, x);
                l.extend((0..m.nested_type.len()).filter(|k| m.nested_type[*k].options.as_ref().is_some_and(|o| o.map_entry())).map(|k| (x.clone(), k)));
            }
            let (x, k) = pick!(l);
            let e = &mut at(&mut p, &x).nested_type[k];
            if e.field.len() != 2 {
                return None;
            }
            let key = e.field.iter().position(|f| f.number() == 1)?;
            match src.below(7) {
                0 => e.field.clear(),
                1 => {
                    e.field.remove(key);
                }
                2 => {
                    e.field.remove(1 - key);
                }
                3 => e.field[key].r#type = Some([1, 2, 12][src.below(3)]),
                4 => e.field[src.below(2)].label = Some(3),
                5 => e.field[src.below(2)].number = Some(3),
                _ => {
                    let t = pick!(s.msgs.iter().filter(|m| vis.contains(&m.file) && !m.map_entry).collect::<Vec<_>>());
                    e.field[key].r#type = Some(11);
                    e.field[key].type_name = Some(format!(".{}", t.full));
                }
            }
            "map-entry"
        }
    };
    Some((what, vec![p.encode_to_vec()]))
}

trait Mid {
    fn midpoint_(self, o: i32) -> i32;
}
impl Mid for i32 {
    fn midpoint_(self, o: i32) -> i32 {
        ((self as i64 + o as i64) / 2) as i32
    }
}

/// An option that cannot be set, at any kind of element.
fn option(ctx: &mut Ctx, s: &Schema, fi: usize, mut p: FileDescriptorProto, pa: &[Path]) -> Option<(&'static str, Vec<Vec<u8>>)> {
    let src = &mut ctx.src;
    let vis: Vec<usize> = s.visible(fi).into_iter().collect();
    let kind = src.below(10);
    let ty = [OPT_FILE, OPT_MSG, OPT_FIELD, OPT_ONEOF, OPT_RANGE, OPT_ENUM, OPT_VALUE, OPT_SERVICE, OPT_METHOD, OPT_FIELD][kind];
    let std: &[(&str, char)] = match kind {
        0 => &[("deprecated", 'b'), ("java_multiple_files", 'b'), ("java_package", 's'), ("optimize_for", 'e'), ("go_package", 's')],
        1 => &[("deprecated", 'b'), ("no_standard_descriptor_accessor", 'b')],
        2 | 9 => &[("deprecated", 'b'), ("lazy", 'b'), ("weak", 'b'), ("ctype", 'e'), ("jstype", 'e'), ("packed", 'b')],
        5..=7 => &[("deprecated", 'b')],
        8 => &[("deprecated", 'b'), ("idempotency_level", 'e')],
        _ => &[],
    };
    let exts: Vec<&Ext> = s.exts.iter().filter(|e| vis.contains(&e.file) && s.msgs[e.extendee].full == ty).collect();
    let kind_of = |e: &Ext| match e.field.ty {
        Ty::S(Sc::Bool) => 'b',
        Ty::S(Sc::Int32 | Sc::Sint32 | Sc::Sfixed32) => 'i',
        Ty::S(Sc::Uint32 | Sc::Fixed32) => 'u',
        Ty::S(Sc::Int64 | Sc::Sint64 | Sc::Sfixed64) => 'I',
        Ty::S(Sc::Uint64 | Sc::Fixed64) => 'U',
        Ty::S(Sc::Float | Sc::Double) => 'f',
        Ty::S(Sc::String) => 's',
        Ty::S(Sc::Bytes) => 'y',
        Ty::E(_) => 'e',
        _ => 'm',
    };
    let yes = UninterpretedOption { identifier_value: Some("true".into()), ..Default::default() };
    let mut us: Vec<UninterpretedOption> = vec![];
    match src.weighted(&[2, 5, 5, 2, 2, 1, 1, 1]) {
        0 => {
            // no such option
            let foreign = ["no_such_option", "java_pkg", "Deprecated", "deprecated2", "name", "zz", "uninterpreted"];
            us.push(UninterpretedOption { name: vec![np(foreign[src.below(foreign.len())], false)], ..yes.clone() });
        }
        1 => {
            if std.is_empty() {
                return None;
            }
            let (n, k) = *src.pick(std);
            us.push(UninterpretedOption { name: vec![np(n, false)], ..bad_value(src, k) });
        }
        2 => {
            if exts.is_empty() {
                return None;
            }
            let e = *src.pick(&exts);
            let v = bad_value(src, kind_of(e));
            if kind_of(e) == 'e' && v.identifier_value.as_deref().is_some_and(|i| i.is_empty()) {
                return None;
            }
            us.push(UninterpretedOption { name: vec![np(&format!(".{}", e.full), true)], ..v });
        }
        3 => {
            // set twice
            if !std.is_empty() && src.chance(1, 2) {
                let l: Vec<&str> = std.iter().filter(|x| x.1 == 'b').map(|x| x.0).collect();
                let n = *src.pick(&l);
                us.push(UninterpretedOption { name: vec![np(n, false)], ..yes.clone() });
                us.push(UninterpretedOption { name: vec![np(n, false)], identifier_value: Some(if src.chance(1, 2) { "true" } else { "false" }.into()), ..Default::default() });
            } else {
                let l: Vec<&&Ext> = exts.iter().filter(|e| e.field.label != Label::Repeated && "iuIU".contains(kind_of(e))).collect();
                if l.is_empty() {
                    return None;
                }
                let e = **src.pick(&l);
                for _ in 0..2 {
                    us.push(UninterpretedOption {
                        name: vec![np(&format!(".{}", e.full), true)],
                        positive_int_value: Some(src.below(2) as u64),
                        ..Default::default()
                    });
                }
            }
        }
        4 => {
            // an extension of something else, or one that is not imported
            let l: Vec<&Ext> = s.exts.iter().filter(|e| s.msgs[e.extendee].full != ty || !vis.contains(&e.file)).collect();
            if l.is_empty() {
                return None;
            }
            let e = *src.pick(&l);
            us.push(UninterpretedOption { name: vec![np(&format!(".{}", e.full), true)], positive_int_value: Some(1), ..Default::default() });
        }
        5 => {
            // parentheses around something that is no extension
            let l = ["deprecated", "no.such.ext", ".no.such.ext", "", "."];
            let mut name = l[src.below(l.len())].to_string();
            let m: Vec<&Msg> = s.msgs.iter().filter(|m| vis.contains(&m.file)).collect();
            if src.chance(1, 2) && !m.is_empty() {
                name = format!(".{}", src.pick(&m).full);
            }
            us.push(UninterpretedOption { name: vec![np(&name, true)], ..yes.clone() });
        }
        6 => {
            // a part of a scalar
            if !std.is_empty() && src.chance(1, 2) {
                us.push(UninterpretedOption { name: vec![np(src.pick(std).0, false), np("x", false)], ..yes.clone() });
            } else {
                if exts.is_empty() {
                    return None;
                }
                let e = *src.pick(&exts);
                let rest = if kind_of(e) == 'm' { "zz_no_such" } else { "x" };
                us.push(UninterpretedOption { name: vec![np(&format!(".{}", e.full), true), np(rest, false)], ..yes.clone() });
            }
        }
        _ => {
            // without parentheses an extension is not found
            if exts.is_empty() {
                return None;
            }
            let e = *src.pick(&exts);
            us.push(UninterpretedOption { name: vec![np(&e.full, false)], positive_int_value: Some(1), ..Default::default() });
        }
    }
    macro_rules! add {
        ($e:expr) => {
            $e.options.get_or_insert_with(Default::default).uninterpreted_option.extend(us)
        };
    }
    macro_rules! of {
        ($l:ident) => {{
            let l: Vec<&Path> = pa.iter().filter(|x| !at(&mut p.clone(), x).$l.is_empty()).collect();
            if l.is_empty() {
                return None;
            }
            let m = at(&mut p, *src.pick(&l));
            let k = src.below(m.$l.len());
            &mut m.$l[k]
        }};
    }
    match kind {
        0 => add!(p),
        1 => {
            if pa.is_empty() {
                return None;
            }
            {
                let x: &Path = src.pick(pa);
                add!(at(&mut p, x))
            }
        }
        2 => add!(of!(field)),
        3 => add!(of!(oneof_decl)),
        4 => add!(of!(extension_range)),
        5 | 6 => {
            let e = if !p.enum_type.is_empty() && src.chance(1, 2) {
                let k = src.below(p.enum_type.len());
                &mut p.enum_type[k]
            } else {
                of!(enum_type)
            };
            if kind == 5 {
                add!(e)
            } else {
                let k = src.below(e.value.len());
                add!(e.value[k])
            }
        }
        7 => {
            if p.service.is_empty() {
                return None;
            }
            let k = src.below(p.service.len());
            add!(p.service[k])
        }
        8 => {
            let l: Vec<usize> = (0..p.service.len()).filter(|k| !p.service[*k].method.is_empty()).collect();
            if l.is_empty() {
                return None;
            }
            let k = *src.pick(&l);
            let j = src.below(p.service[k].method.len());
            add!(p.service[k].method[j])
        }
        _ => {
            let e = if !p.extension.is_empty() && src.chance(1, 2) {
                let k = src.below(p.extension.len());
                &mut p.extension[k]
            } else {
                of!(extension)
            };
            add!(e)
        }
    }
    Some(("bad-option", vec![p.encode_to_vec()]))
}
