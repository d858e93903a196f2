// This file is @generated by prost-build.
pub mod sim {
    pub mod shop {
        include!("sim.shop.rs");
    }
}
