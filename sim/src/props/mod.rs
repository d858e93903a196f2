//! The properties.
use crate::core::*;
use crate::dut::*;
use crate::engine::Prop;
use crate::gen::{self, Cfg, Vals};
use crate::model::*;
use prost_reflect::{DescriptorPool, MessageDescriptor};

pub mod builder;
pub mod dump;
pub mod hostile;
pub mod json;
pub mod links;
pub mod defects;
pub mod pools;
pub mod record;
pub mod replicas;
pub mod shared;
pub mod text;
pub mod typed;

pub static PROPS: &[Prop] = &[shared::C01, pools::C02, pools::C03, pools::C04, hostile::C05, dump::C06, links::C07, links::C08, links::C09, links::C10, json::C11, json::C12, json::C13, text::C14, text::C15, replicas::C16, record::C17, typed::C18, builder::C19];

/// Everything that is initialised once per process is touched before the first run, so that a
/// run does not depend on those before it.
pub fn warm_up(global: bool) {
    let before = crate::engine::HASH_READS.load(std::sync::atomic::Ordering::SeqCst);
    let m: std::collections::HashMap<u8, u8> = std::thread::spawn(|| [(1, 2)].into()).join().unwrap();
    std::hint::black_box(&m);
    crate::emit::descriptor_schema();
    if global {
        typed::warm_up();
        let _ = crate::engine::catch(|| {
            std::hint::black_box(prost_reflect::ReflectMessage::descriptor(&prost_types::Any::default()));
            std::hint::black_box(prost_reflect::DescriptorPool::global());
        });
    }
    let after = crate::engine::HASH_READS.load(std::sync::atomic::Ordering::SeqCst);
    if after == before {
        println!("ERROR: hash seeds are not under the simulator's control");
        std::process::exit(2);
    }
}

pub struct World {
    pub s: Schema,
    pub pool: DescriptorPool,
}
impl World {
    pub fn new(ctx: &mut Ctx, cfg: Cfg) -> R<World> {
        let s = gen::schema(&mut ctx.src, cfg);
        let pool = pool_of(&s)?;
        Ok(World { s, pool })
    }
    pub fn desc(&self, mid: usize) -> MessageDescriptor {
        desc(&self.pool, &self.s, mid)
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(120) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 120 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

/// At most one entry in maps inside Any: these are decoded anew each time they are printed, so
/// that their order may change from one printing to the next.
pub fn stable(s: &Schema, mid: usize, m: &MMsg, inside: bool, expandable: fn(&str) -> bool) -> MMsg {
    let mut out = m.clone();
    if s.msgs[mid].full == "google.protobuf.Any" {
        if let (Some(MVal::Str(url)), Some(MVal::Bytes(b))) = (m.fields.get(&1), m.fields.get(&2)) {
            if let (true, Some(t)) = (expandable(url), url.rsplit_once('/').and_then(|x| s.find_msg(x.1))) {
                if let Ok(inner) = crate::wire::decode(s, t, b) {
                    let b = crate::wire::encode(s, t, &stable(s, t, &inner, true, expandable));
                    out.fields.insert(2, MVal::Bytes(b));
                    s.normalise(mid, &mut out);
                }
            }
        }
        return out;
    }
    for (n, v) in out.fields.iter_mut() {
        let slot = s.slot(mid, *n).expect("harness: unknown field");
        let ty = match s.entry(slot.f) {
            Some((_, vf)) => vf.ty,
            None => slot.f.ty,
        };
        if let (MVal::Map(mm), true) = (&mut *v, inside) {
            while mm.len() > 1 {
                mm.pop_last();
            }
        }
        let Some(t) = ty.msg() else { continue };
        let fix = |v: &mut MVal| {
            if let MVal::Msg(x) = v {
                *x = stable(s, t, x, inside, expandable);
            }
        };
        match v {
            MVal::List(l) => l.iter_mut().for_each(fix),
            MVal::Map(mm) => mm.values_mut().for_each(fix),
            v => fix(v),
        }
    }
    out
}
