// This file is @generated by prost-build.
include!("_.rs");
