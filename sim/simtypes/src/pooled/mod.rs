// This file is @generated by prost-build.
pub mod sim {
    pub mod pooled {
        include!("sim.pooled.rs");
    }
}
