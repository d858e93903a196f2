// This file is @generated by prost-build.
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "Bare")]
#[prost_reflect(file_descriptor_set_bytes = "crate::BARE")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Bare {
    #[prost(string, tag = "1")]
    pub s: ::prost::alloc::string::String,
    #[prost(message, optional, tag = "2")]
    pub tree: ::core::option::Option<crate::shop::sim::shop::Tree>,
    #[prost(message, repeated, tag = "3")]
    pub rest: ::prost::alloc::vec::Vec<Bare>,
    #[prost(message, optional, tag = "4")]
    pub legacy: ::core::option::Option<crate::old::sim::old::v1::Legacy>,
    #[prost(message, optional, tag = "5")]
    pub hold: ::core::option::Option<bare::Hold>,
}
/// Nested message and enum types in `Bare`.
pub mod bare {
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "Bare.Hold")]
    #[prost_reflect(file_descriptor_set_bytes = "crate::BARE")]
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct Hold {
        #[prost(message, optional, tag = "1")]
        pub c: ::core::option::Option<crate::shop::sim::shop::Choice>,
    }
}
