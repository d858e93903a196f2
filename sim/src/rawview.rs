//! The structures behind a pool's descriptors: every `*_descriptor_proto()` and `path()` against the files that were declared.
use crate::core::*;
use crate::emit::{Emit, Spell};
use crate::model::*;
use crate::{ensure, viol};
use prost::Message as _;
use prost_reflect::DescriptorPool;
use prost_types::{
    DescriptorProto, EnumDescriptorProto, EnumValueDescriptorProto, FieldDescriptorProto, FileDescriptorProto, MethodDescriptorProto, OneofDescriptorProto,
    ServiceDescriptorProto,
};
use std::collections::HashMap;

/// Where an element is, and what it is declared as.
type At<'a, T> = HashMap<String, (Vec<i32>, &'a T)>;

#[derive(Default)]
struct Index<'a> {
    msgs: At<'a, DescriptorProto>,
    fields: At<'a, FieldDescriptorProto>,
    oneofs: At<'a, OneofDescriptorProto>,
    enums: At<'a, EnumDescriptorProto>,
    values: At<'a, EnumValueDescriptorProto>,
    exts: At<'a, FieldDescriptorProto>,
    services: At<'a, ServiceDescriptorProto>,
    methods: At<'a, MethodDescriptorProto>,
}

fn join(scope: &str, name: &str) -> String {
    if scope.is_empty() {
        name.to_string()
    } else {
        format!("{scope}.{name}")
    }
}
fn sub(path: &[i32], tag: i32, i: usize) -> Vec<i32> {
    let mut p = path.to_vec();
    p.push(tag);
    p.push(i as i32);
    p
}

impl<'a> Index<'a> {
    fn file(&mut self, f: &'a FileDescriptorProto) {
        let pk = f.package();
        for (i, m) in f.message_type.iter().enumerate() {
            self.msg(m, pk, sub(&[], 4, i));
        }
        for (i, e) in f.enum_type.iter().enumerate() {
            self.enum_(e, pk, sub(&[], 5, i));
        }
        for (i, v) in f.service.iter().enumerate() {
            let path = sub(&[], 6, i);
            let full = join(pk, v.name());
            for (j, m) in v.method.iter().enumerate() {
                self.methods.insert(join(&full, m.name()), (sub(&path, 2, j), m));
            }
            self.services.insert(full, (path, v));
        }
        for (i, e) in f.extension.iter().enumerate() {
            self.exts.insert(join(pk, e.name()), (sub(&[], 7, i), e));
        }
    }
    fn msg(&mut self, m: &'a DescriptorProto, scope: &str, path: Vec<i32>) {
        let full = join(scope, m.name());
        for (i, f) in m.field.iter().enumerate() {
            self.fields.insert(join(&full, f.name()), (sub(&path, 2, i), f));
        }
        for (i, n) in m.nested_type.iter().enumerate() {
            self.msg(n, &full, sub(&path, 3, i));
        }
        for (i, e) in m.enum_type.iter().enumerate() {
            self.enum_(e, &full, sub(&path, 4, i));
        }
        for (i, e) in m.extension.iter().enumerate() {
            self.exts.insert(join(&full, e.name()), (sub(&path, 6, i), e));
        }
        for (i, o) in m.oneof_decl.iter().enumerate() {
            self.oneofs.insert(join(&full, o.name()), (sub(&path, 8, i), o));
        }
        self.msgs.insert(full, (path, m));
    }
    fn enum_(&mut self, e: &'a EnumDescriptorProto, scope: &str, path: Vec<i32>) {
        for (i, v) in e.value.iter().enumerate() {
            self.values.insert(join(scope, v.name()), (sub(&path, 2, i), v));
        }
        self.enums.insert(join(scope, e.name()), (path, e));
    }
}

fn fill(fs: &mut [FieldDescriptorProto]) {
    for f in fs {
        if f.json_name.is_none() {
            f.json_name = Some(json_name(f.name()));
        }
    }
}
fn fill_msg(m: &mut DescriptorProto) {
    fill(&mut m.field);
    fill(&mut m.extension);
    m.nested_type.iter_mut().for_each(fill_msg);
}

/// The declared file: references resolved, JSON names spelled out, options interpreted, no source information.
pub fn declared(s: &Schema, i: usize) -> FileDescriptorProto {
    let spell = Spell { json_names: true, ..Default::default() };
    let mut f = FileDescriptorProto::decode(Emit { s, spell: &spell }.file(i).as_slice()).expect("harness: file");
    fill(&mut f.extension);
    f.message_type.iter_mut().for_each(fill_msg);
    f.source_code_info = None;
    f
}

fn same<T: PartialEq + std::fmt::Debug>(kind: &str, full: &str, at: Option<&(Vec<i32>, &T)>, path: &[i32], got: &T) -> R {
    let Some((p, want)) = at else { return Err(viol!(format!("raw:{kind}"), "{kind} {full} is not declared in its file")) };
    ensure!(p == path, format!("raw:{kind}-path"), "{kind} {full} is at {p:?}, path() says {path:?}");
    ensure!(got == *want, format!("raw:{kind}-proto"), "{kind} {full} is declared as {want:?}, its structure is {got:?}");
    Ok(())
}

pub fn check(p: &DescriptorPool, s: &Schema, files: &[usize]) -> R {
    let protos = p.file_descriptor_protos();
    ensure!(protos.len() == p.files().len(), "raw:files", "{} file structures of {} files", protos.len(), p.files().len());
    for (f, x) in p.files().zip(protos) {
        ensure!(f.name() == x.name() && f.file_descriptor_proto() == x, "raw:files", "the file structures list {} for {}", x.name(), f.name());
    }
    for i in files {
        let want = declared(s, *i);
        let name = want.name();
        let f = p.get_file_by_name(name).ok_or_else(|| viol!("raw:file", "file {name} is missing"))?;
        let mut got = f.file_descriptor_proto().clone();
        got.source_code_info = None;
        // one diverging element is told better than the whole file
        let mut ix = Index::default();
        ix.file(&want);
        let mine = |g: &FileDescriptorProto, what: &str| -> R {
            ensure!(g.name() == name, "raw:parent-file", "{what} in {name} has the parent file structure of {}", g.name());
            Ok(())
        };
        let all = |n: &mut [usize; 8]| -> R {
            for m in p.all_messages().filter(|m| m.parent_file() == f) {
                n[0] += 1;
                same("message", m.full_name(), ix.msgs.get(m.full_name()), m.path(), m.descriptor_proto())?;
                mine(m.parent_file_descriptor_proto(), m.full_name())?;
                for f in m.fields() {
                    n[1] += 1;
                    same("field", f.full_name(), ix.fields.get(f.full_name()), f.path(), f.field_descriptor_proto())?;
                }
                for o in m.oneofs() {
                    n[2] += 1;
                    same("oneof", o.full_name(), ix.oneofs.get(o.full_name()), o.path(), o.oneof_descriptor_proto())?;
                }
            }
            for e in p.all_enums().filter(|m| m.parent_file() == f) {
                n[3] += 1;
                same("enum", e.full_name(), ix.enums.get(e.full_name()), e.path(), e.enum_descriptor_proto())?;
                mine(e.parent_file_descriptor_proto(), e.full_name())?;
                for v in e.values() {
                    n[4] += 1;
                    same("value", v.full_name(), ix.values.get(v.full_name()), v.path(), v.enum_value_descriptor_proto())?;
                }
            }
            for e in p.all_extensions().filter(|m| m.parent_file() == f) {
                n[5] += 1;
                same("extension", e.full_name(), ix.exts.get(e.full_name()), e.path(), e.field_descriptor_proto())?;
                mine(e.parent_file_descriptor_proto(), e.full_name())?;
            }
            for v in p.services().filter(|m| m.parent_file() == f) {
                n[6] += 1;
                same("service", v.full_name(), ix.services.get(v.full_name()), v.path(), v.service_descriptor_proto())?;
                mine(v.parent_file_descriptor_proto(), v.full_name())?;
                for m in v.methods() {
                    n[7] += 1;
                    same("method", m.full_name(), ix.methods.get(m.full_name()), m.path(), m.method_descriptor_proto())?;
                }
            }
            Ok(())
        };
        let mut n = [0; 8];
        all(&mut n)?;
        let k = [ix.msgs.len(), ix.fields.len(), ix.oneofs.len(), ix.enums.len(), ix.values.len(), ix.exts.len(), ix.services.len(), ix.methods.len()];
        ensure!(n == k, "raw:count", "{name} declares {k:?} elements, the pool has {n:?}");
        ensure!(got == want, "raw:file-proto", "{name} is declared as {want:?}, its structure is {got:?}");
    }
    Ok(())
}
