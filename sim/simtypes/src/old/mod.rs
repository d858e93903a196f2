// This file is @generated by prost-build.
pub mod sim {
    pub mod old {
        pub mod v1 {
            include!("sim.old.v1.rs");
        }
    }
}
