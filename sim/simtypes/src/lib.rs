//! Types generated once from protos/ by protoc and prost-reflect-build (see DESIGN.md), with the
//! derive of the current tree. `std` is a stand-in whose locks report to the simulator.
#![no_std]
#![allow(clippy::all)]
extern crate simstd as std;

pub static SHOP: &[u8] = include_bytes!("shop.bin");
pub static OLD: &[u8] = include_bytes!("old.bin");
pub static BARE: &[u8] = include_bytes!("bare.bin");
pub static POOLED: &[u8] = include_bytes!("pooled.bin");

/// The pool of the types that do not register themselves.
pub fn pool() -> prost_reflect::DescriptorPool {
    static POOL: std::sync::OnceLock<prost_reflect::DescriptorPool> = std::sync::OnceLock::new();
    POOL.get_or_init(|| prost_reflect::DescriptorPool::decode(POOLED).unwrap()).clone()
}

pub mod shop {
    include!("shop/mod.rs");
}
pub mod old {
    include!("old/mod.rs");
}
pub mod bare {
    include!("bare/mod.rs");
}
pub mod pooled {
    include!("pooled/mod.rs");
}
