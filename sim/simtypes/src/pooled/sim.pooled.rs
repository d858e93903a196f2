// This file is @generated by prost-build.
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "sim.pooled.Direct")]
#[prost_reflect(descriptor_pool = "crate::pool()")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Direct {
    #[prost(message, optional, tag = "1")]
    pub known: ::core::option::Option<crate::shop::sim::shop::Known>,
    #[prost(message, repeated, tag = "2")]
    pub lists: ::prost::alloc::vec::Vec<crate::shop::sim::shop::Lists>,
    #[prost(message, optional, tag = "3")]
    pub nest: ::core::option::Option<direct::Nest>,
    #[prost(string, tag = "4")]
    pub s: ::prost::alloc::string::String,
}
/// Nested message and enum types in `Direct`.
pub mod direct {
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "sim.pooled.Direct.Nest")]
    #[prost_reflect(descriptor_pool = "crate::pool()")]
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct Nest {
        #[prost(message, optional, tag = "1")]
        pub maps: ::core::option::Option<crate::shop::sim::shop::Maps>,
        #[prost(uint32, tag = "2")]
        pub n: u32,
    }
}
