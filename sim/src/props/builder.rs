//! The build helper under a failing compiler and file system: C19.
use super::pools::ASSUME;
use super::*;
use crate::emit::{file_bytes, set_bytes};
use crate::engine::{catch, scratch};
use crate::{ensure, viol};
use prost::Message;
use prost_reflect_build::Builder;
use quote::ToTokens;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};

pub const C19: Prop = Prop {
    id: "C19",
    run: c19,
    quick: 12_000,
    thorough: 600_000,
    fork: false,
    rule: "a run is a history of 1 to 4 builds in one scratch directory, each of a generated set of proto files with generated settings and at most one fault in the compiler, the descriptor file, the output or the settings; a build without a fault must produce exactly what prost-build alone produces plus the reflection attributes; non-trivial when at least two builds or one fault happened, distinct by event log",
    real: &["prost-reflect-build Builder, prost-build code generation, process spawning and the file system underneath (in a scratch directory)"],
    stub: &["protoc (a scripted stand-in that checks its arguments)", "proto files (generated)"],
    assumptions: ASSUME,
};

// ---------------------------------------------------------------- the compiler stand-in

/// Acts on the plan the run wrote: checks its arguments, writes (part of) the descriptor set, ends as told.
pub fn fake_protoc(plan: &Path, args: &[String]) -> i32 {
    let j: serde_json::Value = serde_json::from_slice(&fs::read(plan).unwrap_or_default()).unwrap_or_default();
    let out = args.iter().position(|a| a == "-o").and_then(|i| args.get(i + 1));
    let want: Vec<&str> = j["protos"].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect();
    let got: Vec<&str> = args.iter().map(String::as_str).filter(|a| a.ends_with(".proto")).collect();
    let Some(out) = out else { return 90 };
    if want != got {
        return 91;
    }
    let set = fs::read(j["set"].as_str().unwrap_or("")).unwrap_or_default();
    let n = j["write"].as_i64().unwrap_or(-1);
    let mut code = j["exit"].as_i64().unwrap_or(0) as i32;
    if j["noise"].as_bool() == Some(true) {
        use std::io::Write;
        let _ = std::io::stderr().write_all(&vec![b'~'; 200_000]);
        let _ = std::io::stdout().write_all(&vec![b'~'; 200_000]);
    }
    if n >= 0 {
        let k = (n as usize).min(set.len());
        if fs::write(out, &set[..k]).is_err() && code == 0 {
            eprintln!("{out}: cannot write");
            code = 1;
        }
    }
    match j["signal"].as_i64() {
        Some(s) => {
            extern "C" {
                fn kill(p: i32, s: i32) -> i32;
            }
            unsafe { kill(std::process::id() as i32, s as i32) };
            92
        }
        None => code,
    }
}

fn limit_files(bytes: Option<u64>) {
    #[repr(C)]
    struct Rl {
        cur: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(r: i32, l: *const Rl) -> i32;
        fn signal(n: i32, h: usize) -> usize;
    }
    unsafe {
        signal(25, 1); // SIGXFSZ is ignored: the write fails instead
        setrlimit(1, &Rl { cur: bytes.unwrap_or(u64::MAX), max: u64::MAX });
    }
}

// ---------------------------------------------------------------- outputs

fn list(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.path().is_file() {
            m.insert(e.file_name().to_string_lossy().into_owned(), fs::read(e.path()).unwrap_or_default());
        }
    }
    m
}

#[derive(Default)]
struct Found {
    /// every type: where, and its reflection attributes
    items: Vec<(String, Vec<String>)>,
}

fn is_ours(a: &syn::Attribute) -> bool {
    let p = a.path();
    if p.segments.first().is_some_and(|s| s.ident == "prost_reflect") {
        return true;
    }
    p.is_ident("derive") && a.meta.require_list().is_ok_and(|l| l.tokens.to_string().contains("prost_reflect"))
}

fn strip(items: &mut [syn::Item], at: &str, named: &mut BTreeMap<String, String>, out: &mut Found) {
    let names: BTreeMap<String, String> = items
        .iter()
        .filter_map(|i| match i {
            syn::Item::Impl(i) if i.trait_.as_ref().is_some_and(|t| t.1.segments.last().is_some_and(|s| s.ident == "Name")) => {
                let ident = i.self_ty.to_token_stream().to_string();
                let f = i.items.iter().find_map(|x| match x {
                    syn::ImplItem::Fn(f) if f.sig.ident == "full_name" => Some(f.block.to_token_stream().to_string()),
                    _ => None,
                })?;
                Some((ident, f.split('"').nth(1)?.to_string()))
            }
            _ => None,
        })
        .collect();
    for i in items {
        let (ident, attrs) = match i {
            syn::Item::Struct(s) => (s.ident.to_string(), &mut s.attrs),
            syn::Item::Enum(s) => (s.ident.to_string(), &mut s.attrs),
            syn::Item::Mod(m) => {
                let at = format!("{at}::{}", m.ident);
                if let Some((_, items)) = &mut m.content {
                    strip(items, &at, named, out);
                }
                continue;
            }
            _ => continue,
        };
        let ours: Vec<String> = attrs.iter().filter(|a| is_ours(a)).map(|a| a.to_token_stream().to_string().replace(' ', "")).collect();
        attrs.retain(|a| !is_ours(a));
        let path = format!("{at}::{ident}");
        if let Some(n) = names.get(&ident) {
            named.insert(path.clone(), n.clone());
        }
        out.items.push((path, ours));
    }
}

fn literal(s: &str) -> String {
    syn::LitStr::new(s, proc_macro2_span()).to_token_stream().to_string().replace(' ', "")
}
fn proc_macro2_span() -> quote::__private::Span {
    quote::__private::Span::call_site()
}

/// Paths of items, by the name protobuf gives them: oneofs and enums as well as messages.
fn suffix(full: &str, of: &str) -> bool {
    of.strip_suffix(full).is_some_and(|p| p.ends_with('.'))
}

// ---------------------------------------------------------------- one build

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    Healthy,
    NoCompiler,
    CompilerNotRunnable,
    CompilerFails,
    CompilerFailsAfterWriting,
    CompilerKilled,
    NothingWritten,
    Truncated,
    Garbage,
    Inconsistent,
    NoOutDir,
    OutDirIsFile,
    OutputIsDirectory,
    DiskFull,
    NoDescriptorDir,
    DescriptorIsDirectory,
    NoPool,
    NoOutDirSet,
}
use Fault::*;
const FAULTS: [(Fault, &str); 17] = [
    (NoCompiler, "compiler-missing"),
    (CompilerNotRunnable, "compiler-not-executable"),
    (CompilerFails, "compiler-fails"),
    (CompilerFailsAfterWriting, "compiler-fails-after-writing"),
    (CompilerKilled, "compiler-killed"),
    (NothingWritten, "descriptor-file-missing"),
    (Truncated, "descriptor-file-truncated"),
    (Garbage, "descriptor-file-garbage"),
    (Inconsistent, "descriptor-file-inconsistent"),
    (NoOutDir, "output-directory-missing"),
    (OutDirIsFile, "output-directory-is-a-file"),
    (OutputIsDirectory, "output-file-is-a-directory"),
    (DiskFull, "disk-full"),
    (NoDescriptorDir, "descriptor-directory-missing"),
    (DescriptorIsDirectory, "descriptor-file-is-a-directory"),
    (NoPool, "no-pool-configured"),
    (NoOutDirSet, "out-dir-unset"),
];

#[derive(Clone, Debug)]
struct Opts {
    /// 0 compile_protos, 1 compile_protos_with_config, 2 configure and compile
    how: usize,
    pool: Option<String>,
    bytes: Option<String>,
    explicit_path: bool,
    wkt: bool,
    include_file: bool,
    default_name: bool,
    btree: bool,
    no_info: bool,
    rerun: bool,
    type_names: bool,
}

const POOLS: [&str; 6] = ["crate::POOL", "POOL", "crate::pools::get(\"main\")", "{ POOL.get_or_init(make).clone() }", "crate::reflect::<'static>()", "self::pool(r#\"a\\b\"#, '\\'')"];

fn config(o: &Opts, out: Option<&Path>) -> prost_build::Config {
    let mut c = prost_build::Config::new();
    if let Some(d) = out {
        c.out_dir(d);
    }
    if o.type_names {
        c.enable_type_names();
    }
    if o.wkt {
        c.compile_well_known_types();
    }
    if o.include_file {
        c.include_file("all.rs");
    }
    if o.default_name {
        c.default_package_filename("root");
    }
    if o.btree {
        c.btree_map(["."]);
        c.type_attribute(".", "#[derive(Mark)]");
    }
    if o.no_info {
        c.skip_source_info();
    }
    c
}

fn inconsistent(src: &mut Src, files: &[Vec<u8>]) -> Vec<u8> {
    let mut set = prost_types::FileDescriptorSet::decode(set_bytes(files).as_slice()).expect("harness: own set");
    for _ in 0..1 + src.below(3) {
        let n = set.file.len();
        if n == 0 {
            break;
        }
        let k = src.below(n);
        let what = src.below(9);
        let f = &mut set.file[k];
        let m = f.message_type.len();
        match what {
            0 => {
                set.file.remove(k);
            }
            1 if m > 0 => {
                f.message_type.remove(src.below(m));
            }
            2 if m > 0 => {
                let x = &mut f.message_type[src.below(m)];
                if let Some(y) = x.field.last_mut() {
                    y.type_name = Some(["", ".", "x", ".no.such.Type", "M"][src.below(5)].into());
                    y.r#type = [None, Some(11), Some(14), Some(0), Some(99)][src.below(5)];
                }
            }
            3 if m > 0 => {
                let x = &mut f.message_type[src.below(m)];
                if let Some(y) = x.field.last_mut() {
                    y.oneof_index = Some([0, 1, 7, -1, i32::MAX][src.below(5)]);
                }
            }
            4 if m > 0 => f.message_type[src.below(m)].name = None,
            5 => f.name = None,
            6 if m > 0 => {
                let x = &mut f.message_type[src.below(m)];
                if let Some(y) = x.field.last_mut() {
                    y.label = [None, Some(0), Some(9)][src.below(3)];
                    y.name = None;
                }
            }
            7 if m > 0 => {
                let x = f.message_type[src.below(m)].clone();
                f.message_type.push(x);
            }
            _ => f.dependency.push("no/such.proto".into()),
        }
    }
    set.encode_to_vec()
}

struct Site<'a> {
    dir: &'a Path,
    me: PathBuf,
}

fn c19(ctx: &mut Ctx) -> R {
    let dir = scratch();
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(dir.join("out")).expect("harness: scratch directory");
    let site = Site { dir: &dir, me: std::env::current_exe().expect("harness: own path") };
    let r = history(ctx, &site);
    limit_files(None);
    for v in ["PROTOC", "OUT_DIR", "PSIM_PROTOC_PLAN"] {
        std::env::remove_var(v);
    }
    let _ = fs::remove_dir_all(&dir);
    r
}

fn history(ctx: &mut Ctx, site: &Site) -> R {
    let out = site.dir.join("out");
    let report = ctx.src.chance(1, 8);
    let mut namesake = None;
    let n = 1 + ctx.src.len(3);
    let mut schema: Option<Schema> = None;
    let mut last: Option<(Opts, Vec<usize>)> = None;
    for step in 0..n {
        let again = last.is_some() && ctx.src.chance(1, 2);
        if !again || schema.is_none() {
            let wkt: &[&str] = if ctx.src.chance(1, 4) { &["timestamp", "any", "struct"] } else { &[] };
            let cfg = Cfg { files: (1, 4), msgs: 3, fields: 4, services: true, opts: ctx.src.below(2) as u8, wkt, exts: true, ..Cfg::default() };
            schema = Some(gen::schema(&mut ctx.src, cfg));
        }
        let s = schema.as_ref().unwrap();
        let (o, roots) = if again && ctx.src.chance(1, 2) {
            last.clone().unwrap()
        } else {
            let o = Opts {
                how: ctx.src.below(3),
                pool: ctx.src.chance(1, 2).then(|| ctx.src.pick(&POOLS).to_string()),
                bytes: None,
                explicit_path: ctx.src.chance(1, 2),
                wkt: ctx.src.chance(1, 6),
                include_file: ctx.src.chance(1, 4),
                default_name: ctx.src.chance(1, 4),
                btree: ctx.src.chance(1, 4),
                no_info: ctx.src.chance(1, 4),
                rerun: ctx.src.chance(1, 2),
                type_names: ctx.src.chance(1, 2),
            };
            let bytes = (o.pool.is_none() || ctx.src.chance(1, 5)).then(|| ctx.src.pick(&POOLS).replace("POOL", "BYTES"));
            let mut roots: Vec<usize> = (0..s.files.len()).filter(|&i| s.files[i].raw.is_none() && ctx.src.chance(1, 2)).collect();
            if roots.is_empty() {
                roots.push((0..s.files.len()).rfind(|&i| s.files[i].raw.is_none()).unwrap_or(0));
            }
            (Opts { bytes, ..o }, roots)
        };
        let fault = if ctx.src.chance(1, 2) { FAULTS[ctx.src.below(FAULTS.len())].0 } else { Healthy };
        build(ctx, site, &out, s, &o, &roots, fault, step, &mut namesake)?;
        last = Some((o, roots));
    }
    match namesake {
        Some(m) if report => Err(viol!("attributes-of-a-namesake", "{m}")),
        _ => Ok(()),
    }
}

#[allow(clippy::too_many_arguments)]
fn build(ctx: &mut Ctx, site: &Site, out: &Path, s: &Schema, o: &Opts, roots: &[usize], fault: Fault, step: usize, namesake: &mut Option<String>) -> R {
    let dir = site.dir;
    // the files protoc would write: imports first
    let mut closure: BTreeSet<usize> = roots.iter().copied().collect();
    loop {
        let more: Vec<usize> = closure.iter().flat_map(|&i| s.files[i].deps.iter().map(|d| d.0)).filter(|d| !closure.contains(d)).collect();
        if more.is_empty() {
            break;
        }
        closure.extend(more);
    }
    let files: Vec<usize> = closure.into_iter().collect();
    let raw: Vec<Vec<u8>> = files.iter().map(|&i| file_bytes(s, i)).collect();
    let good = set_bytes(&raw);
    let protos: Vec<String> = roots.iter().map(|&i| s.files[i].name.clone()).collect();

    let mut o = o.clone();
    let uses_env = o.how == 0;
    let mut fault = fault;
    if fault == NoOutDirSet && !(uses_env && o.explicit_path) {
        fault = Healthy;
    }
    // what prost-build makes of the files by itself
    let plain = dir.join("plain");
    let _ = fs::remove_dir_all(&plain);
    fs::create_dir_all(&plain).expect("harness: scratch directory");
    let with_names = dir.join("named");
    let _ = fs::remove_dir_all(&with_names);
    fs::create_dir_all(&with_names).expect("harness: scratch directory");
    let reference = catch(|| {
        let fds = prost_types::FileDescriptorSet::decode(good.as_slice()).expect("harness: own set");
        let make = || if uses_env { prost_build::Config::new() } else { config(&o, None) };
        make().out_dir(&plain).compile_fds(fds.clone())?;
        make().out_dir(&with_names).enable_type_names().compile_fds(fds)
    });
    if !matches!(reference, Ok(Ok(()))) {
        ctx.probe("prost-build-refuses-the-files");
        return Ok(());
    }

    // settings and faults
    let set_path = dir.join("set.bin");
    let plan_path = dir.join("plan.json");
    let mut data = good.clone();
    let mut write = i64::MAX;
    let mut exit = 0;
    let mut signal = None::<i64>;
    let mut compiler = site.me.clone();
    let mut real_out = out.to_path_buf();
    let mut desc_path = if o.explicit_path || !uses_env { dir.join("stored.bin") } else { out.join("file_descriptor_set.bin") };
    if ctx.src.chance(1, 4) && fault != DescriptorIsDirectory {
        // nothing is left of an earlier build
        let _ = fs::remove_file(&desc_path);
    }
    let mut limit = None;
    let mut blocked = None::<PathBuf>;
    match fault {
        NoCompiler => compiler = dir.join("no-such-compiler"),
        CompilerNotRunnable => {
            compiler = dir.join("not-runnable");
            fs::write(&compiler, "#!/bin/false\n").expect("harness: scratch file");
            if ctx.src.chance(1, 2) {
                compiler = dir.to_path_buf();
            }
        }
        CompilerFails => {
            write = -1;
            exit = 1 + ctx.src.below(120) as i64;
        }
        CompilerFailsAfterWriting => {
            exit = 1 + ctx.src.below(120) as i64;
            write = if ctx.src.chance(1, 2) { i64::MAX } else { ctx.src.below(good.len() + 1) as i64 };
        }
        CompilerKilled => {
            signal = Some([9, 15, 6, 11][ctx.src.below(4)]);
            write = [-1, i64::MAX, ctx.src.below(good.len() + 1) as i64][ctx.src.below(3)];
        }
        NothingWritten => {
            write = -1;
            let _ = fs::remove_file(&desc_path);
        }
        Truncated => write = ctx.src.below(good.len()) as i64,
        Garbage => match ctx.src.below(4) {
            0 => data = (0..1 + ctx.src.below(200)).map(|_| ctx.src.below(256) as u8).collect(),
            1 => {
                for _ in 0..1 + ctx.src.below(4) {
                    let i = ctx.src.below(data.len());
                    data[i] ^= 1 << ctx.src.below(8);
                }
            }
            2 => data = vec![0; 1 + ctx.src.below(4096)],
            _ => {
                let at = ctx.src.below(data.len());
                let k = (1 + ctx.src.below(512)).min(data.len() - at);
                data[at..at + k].fill(0);
            }
        },
        Inconsistent => data = inconsistent(&mut ctx.src, &raw),
        NoOutDir => real_out = dir.join("no").join("such"),
        OutDirIsFile => {
            real_out = dir.join("a-file");
            fs::write(&real_out, "x").expect("harness: scratch file");
        }
        OutputIsDirectory => {
            let names: Vec<String> = list(&plain).into_keys().collect();
            let p = out.join(ctx.src.pick(&names));
            let _ = fs::remove_file(&p);
            fs::create_dir_all(&p).expect("harness: scratch directory");
            blocked = Some(p);
        }
        DiskFull => limit = Some(ctx.src.below(4000) as u64),
        NoDescriptorDir => {
            o.explicit_path = true;
            desc_path = dir.join("no").join("stored.bin");
        }
        DescriptorIsDirectory => {
            o.explicit_path = true;
            desc_path = dir.join("stored-dir");
            fs::create_dir_all(&desc_path).expect("harness: scratch directory");
            blocked = Some(desc_path.clone());
        }
        NoPool => {
            o.pool = None;
            o.bytes = None;
        }
        _ => {}
    }
    if fault == NoOutDir || fault == OutDirIsFile {
        // only the output is to fail
        o.explicit_path = true;
        if desc_path.starts_with(out) {
            desc_path = dir.join("stored.bin");
        }
    }
    fs::write(&set_path, &data).expect("harness: scratch file");
    let noise = ctx.src.chance(1, 20);
    let plan = json!({"set": set_path, "write": write, "exit": exit, "signal": signal, "protos": protos, "noise": noise});
    fs::write(&plan_path, plan.to_string()).expect("harness: scratch file");
    std::env::set_var("PSIM_PROTOC_PLAN", &plan_path);
    std::env::set_var("PROTOC", &compiler);
    if fault == NoOutDirSet {
        std::env::remove_var("OUT_DIR");
    } else {
        std::env::set_var("OUT_DIR", if uses_env { &real_out } else { out });
    }

    ctx.step(format_args!("build {step}: {protos:?} of {} files, {o:?}", files.len()));
    if let Some((_, f)) = FAULTS.iter().find(|f| f.0 == fault) {
        ctx.fault(f);
    }
    ctx.count("op", ["compile_protos", "compile_protos_with_config", "configure-and-compile"][o.how]);

    // disk full: only what is written from here on
    let before = list(out);
    let mut b = Builder::new();
    if o.explicit_path || !uses_env {
        b.file_descriptor_set_path(&desc_path);
    }
    if let Some(p) = &o.pool {
        b.descriptor_pool(p.as_str());
    }
    if let Some(p) = &o.bytes {
        b.file_descriptor_set_bytes(p.as_str());
    }
    let includes = [dir.to_path_buf(), dir.join("no-such-include")];
    if limit.is_some() {
        limit_files(limit);
    }
    let r = catch(|| match o.how {
        0 => b.compile_protos(&protos, &includes),
        1 => b.compile_protos_with_config(config(&o, Some(&real_out)), &protos, &includes),
        _ => {
            let mut c = config(&o, Some(&real_out));
            b.configure(&mut c, &protos, &includes)?;
            if !o.rerun {
                c.skip_protoc_run();
            }
            c.compile_protos(&protos, &includes)
        }
    });
    limit_files(None);
    let name = FAULTS.iter().find(|f| f.0 == fault).map_or("no-fault", |f| f.1);

    // cleaning up what the fault put in the way
    if let Some(p) = &blocked {
        let _ = fs::remove_dir_all(p);
    }
    let _ = fs::remove_file(dir.join("not-runnable"));
    let _ = fs::remove_file(dir.join("a-file"));

    // damaged descriptors may happen to be whole
    let damaged = matches!(fault, Truncated | Garbage | Inconsistent);
    let delivered = if write < 0 { vec![] } else { data[..(write as u64).min(data.len() as u64) as usize].to_vec() };
    let loads = catch(|| DescriptorPool::decode(delivered.as_slice()).is_ok());
    if damaged && !matches!(loads, Ok(false)) {
        ctx.probe("damage-that-still-loads");
        return Ok(());
    }
    let r = match r {
        Ok(r) => r,
        Err(v) => return Err(viol!(format!("{name}:{}", v.sig), "{name}: {}", v.msg)),
    };
    ctx.note(format_args!("{name} -> {}", if r.is_ok() { "ok" } else { "error" }));
    let must_fail = fault != Healthy && fault != DiskFull;
    if must_fail {
        ensure!(r.is_err(), format!("half-success:{name}"), "the build reported success in spite of: {name}");
    }
    if let Err(e) = &r {
        ensure!(!e.to_string().is_empty(), "silent-error", "{name}: the error says nothing");
        ensure!(fault != Healthy, "spurious-error", "a build without a fault failed: {e}");
        if fault == DiskFull {
            ctx.probe("disk-full-noticed");
        }
        return Ok(());
    }
    if fault == DiskFull {
        ctx.probe("disk-full-was-enough");
    }
    ctx.probe("successful-build");

    // the stored descriptors
    let stored = fs::read(&desc_path).map_err(|e| viol!("no-descriptors", "the build succeeded and left no descriptor file: {e}"))?;
    let pool = DescriptorPool::decode(stored.as_slice()).map_err(|e| viol!("descriptors-refused", "the stored descriptors do not load: {e}"))?;
    let got: Vec<&str> = pool.files().map(|f| f.name().to_string().leak() as &str).collect();
    let want: Vec<&str> = files.iter().map(|&i| s.files[i].name.as_str()).collect();
    ensure!(got == want, "wrong-descriptors", "the stored descriptors are of {got:?}, the build was of {want:?}");

    // the generated code
    let mut reference = list(&plain);
    let made = list(&real_out);
    let plain_dir = plain.to_string_lossy().into_owned();
    let real_dir = real_out.to_string_lossy().into_owned();
    let attr_pool = match (&o.pool, &o.bytes) {
        (Some(p), _) => format!("#[prost_reflect(descriptor_pool={})]", literal(p)),
        (_, Some(p)) => format!("#[prost_reflect(file_descriptor_set_bytes={})]", literal(p)),
        _ => unreachable!(),
    };
    let mut generated: BTreeMap<String, usize> = BTreeMap::new();
    let all: Vec<&str> = s.msgs.iter().filter(|m| files.contains(&m.file)).map(|m| m.full.as_str()).collect();
    if let Some(x) = reference.remove("all.rs") {
        let y = made.get("all.rs").cloned().unwrap_or_default();
        ensure!(String::from_utf8_lossy(&x).replace(&plain_dir, &real_dir) == String::from_utf8_lossy(&y), "changed-code", "the include file differs from prost-build's own");
    }
    let mut named = BTreeMap::new();
    for (f, text) in list(&with_names) {
        let mut a = syn::parse_file(&String::from_utf8_lossy(&text)).map_err(|e| viol!("harness-parse", "{f} of prost-build does not parse: {e}"))?;
        strip(&mut a.items, &f, &mut named, &mut Found::default());
    }
    for (f, text) in &reference {
        let Some(mine) = made.get(f) else { return Err(viol!("missing-output", "{f} was not written")) };
        let mut a = syn::parse_file(&String::from_utf8_lossy(text)).map_err(|e| viol!("harness-parse", "{f} of prost-build does not parse: {e}"))?;
        let mut b = syn::parse_file(&String::from_utf8_lossy(mine)).map_err(|e| viol!("unparsable-code", "{f} does not parse: {e}"))?;
        let mut found = Found::default();
        strip(&mut b.items, f, &mut BTreeMap::new(), &mut found);
        strip(&mut a.items, f, &mut BTreeMap::new(), &mut Found::default());
        ensure!(
            a.to_token_stream().to_string() == b.to_token_stream().to_string(),
            "changed-code",
            "{f}: apart from the reflection attributes the code differs from prost-build's own"
        );
        for (at, ours) in found.items {
            let full = named.get(&at).cloned();
            let want = |n: &str| vec!["#[derive(::prost_reflect::ReflectMessage)]".to_string(), format!("#[prost_reflect(message_name={})]", literal(n)), attr_pool.clone()];
            match full {
                Some(n) if all.contains(&n.as_str()) => {
                    *generated.entry(n.clone()).or_default() += 1;
                    // attributes of its own, and none of others'
                    let own = want(&n);
                    if same_set(&ours, &own) {
                        continue;
                    }
                    let extra: Vec<&&str> = all.iter().filter(|m| suffix(m, &n)).collect();
                    let mut more = own.clone();
                    extra.iter().for_each(|m| more.extend(want(m)));
                    if !extra.is_empty() && same_set(&ours, &more) {
                        namesake.get_or_insert(format!("{n} also carries the attributes of {extra:?}"));
                        continue;
                    }
                    return Err(viol!("wrong-attributes", "{n} carries {ours:?} instead of {own:?}"));
                }
                Some(n) => return Err(viol!("unknown-message", "{at} says it is {n}, which is not of the build")),
                None if ours.is_empty() => {}
                None => {
                    // an enum or a oneof
                    let ident = at.rsplit("::").next().unwrap_or("").to_lowercase();
                    let mut more = Vec::new();
                    for m in &all {
                        if m.rsplit('.').next().unwrap_or("").replace('_', "").to_lowercase() == ident.replace('_', "") && ours.contains(&want(m)[1]) {
                            more.extend(want(m));
                        }
                    }
                    if same_set(&ours, &more) {
                        namesake.get_or_insert(format!("{at} carries {ours:?}"));
                        continue;
                    }
                    return Err(viol!("wrong-attributes", "{at} is no message and carries {ours:?}"));
                }
            }
        }
    }
    for f in made.keys() {
        let known = reference.contains_key(f) || before.contains_key(f) || f == "all.rs" || f == "file_descriptor_set.bin";
        ensure!(known, "stray-output", "{f} was written");
    }
    for m in s.msgs.iter().filter(|m| files.contains(&m.file) && !m.map_entry) {
        let n = generated.get(&m.full).copied().unwrap_or(0);
        let library = m.full.starts_with("google.protobuf.") && (uses_env || !o.wkt);
        ensure!(n == !library as usize, "missing-message", "{} was generated {n} times", m.full);
    }
    Ok(())
}

fn same_set(a: &[String], b: &[String]) -> bool {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    a.sort();
    b.sort();
    a == b
}
