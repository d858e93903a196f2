// This file is @generated by prost-build.
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "sim.old.v1.Legacy")]
#[prost_reflect(file_descriptor_set_bytes = "crate::OLD")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Legacy {
    #[prost(int32, optional, tag = "1", default = "7")]
    pub i: ::core::option::Option<i32>,
    #[prost(string, optional, tag = "2", default = "hey")]
    pub s: ::core::option::Option<::prost::alloc::string::String>,
    #[prost(enumeration = "Tint", optional, tag = "3", default = "Blue")]
    pub tint: ::core::option::Option<i32>,
    #[prost(bytes = "vec", optional, tag = "4")]
    pub by: ::core::option::Option<::prost::alloc::vec::Vec<u8>>,
    #[prost(double, optional, tag = "5")]
    pub d: ::core::option::Option<f64>,
    #[prost(float, optional, tag = "6")]
    pub f: ::core::option::Option<f32>,
    #[prost(bool, optional, tag = "7", default = "true")]
    pub b: ::core::option::Option<bool>,
    #[prost(sint64, optional, tag = "8")]
    pub z: ::core::option::Option<i64>,
    #[prost(fixed64, optional, tag = "9")]
    pub x: ::core::option::Option<u64>,
    #[prost(int32, repeated, packed = "false", tag = "10")]
    pub plain: ::prost::alloc::vec::Vec<i32>,
    #[prost(int32, repeated, tag = "11")]
    pub tight: ::prost::alloc::vec::Vec<i32>,
    #[prost(enumeration = "Tint", repeated, packed = "false", tag = "12")]
    pub tints: ::prost::alloc::vec::Vec<i32>,
    #[prost(enumeration = "Tint", repeated, tag = "13")]
    pub ptints: ::prost::alloc::vec::Vec<i32>,
    #[prost(string, repeated, tag = "14")]
    pub words: ::prost::alloc::vec::Vec<::prost::alloc::string::String>,
    #[prost(message, repeated, tag = "15")]
    pub more: ::prost::alloc::vec::Vec<Legacy>,
    #[prost(message, optional, tag = "16")]
    pub money: ::core::option::Option<crate::shop::sim::shop::Money>,
    #[prost(group, optional, boxed, tag = "17")]
    pub knot: ::core::option::Option<::prost::alloc::boxed::Box<legacy::Knot>>,
    #[prost(group, repeated, tag = "18")]
    pub row: ::prost::alloc::vec::Vec<legacy::Row>,
    #[prost(map = "string, enumeration(crate::shop::sim::shop::Size)", tag = "19")]
    pub m: ::std::collections::HashMap<::prost::alloc::string::String, i32>,
    #[prost(map = "int32, message", tag = "20")]
    pub lm: ::std::collections::HashMap<i32, Legacy>,
    #[prost(message, optional, tag = "25")]
    pub mm: ::core::option::Option<legacy::M>,
    #[prost(message, optional, tag = "26")]
    pub sc: ::core::option::Option<crate::shop::sim::shop::Scalars>,
    #[prost(enumeration = "crate::shop::sim::shop::Size", optional, tag = "27")]
    pub size: ::core::option::Option<i32>,
    #[prost(oneof = "legacy::Way", tags = "21, 22, 23, 24")]
    pub way: ::core::option::Option<legacy::Way>,
}
/// Nested message and enum types in `Legacy`.
pub mod legacy {
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "sim.old.v1.Legacy.Knot")]
    #[prost_reflect(file_descriptor_set_bytes = "crate::OLD")]
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct Knot {
        #[prost(int32, optional, tag = "1")]
        pub a: ::core::option::Option<i32>,
        #[prost(message, optional, tag = "2")]
        pub l: ::core::option::Option<super::Legacy>,
    }
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "sim.old.v1.Legacy.Row")]
    #[prost_reflect(file_descriptor_set_bytes = "crate::OLD")]
    #[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
    pub struct Row {
        #[prost(string, optional, tag = "1")]
        pub a: ::core::option::Option<::prost::alloc::string::String>,
        #[prost(uint64, repeated, packed = "false", tag = "2")]
        pub b: ::prost::alloc::vec::Vec<u64>,
    }
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "sim.old.v1.Legacy.Wg")]
    #[prost_reflect(file_descriptor_set_bytes = "crate::OLD")]
    #[derive(Clone, Copy, PartialEq, Eq, Hash, ::prost::Message)]
    pub struct Wg {
        #[prost(int32, optional, tag = "1")]
        pub q: ::core::option::Option<i32>,
    }
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "sim.old.v1.Legacy.M")]
    #[prost_reflect(file_descriptor_set_bytes = "crate::OLD")]
    #[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
    pub struct M {
        #[prost(string, optional, tag = "1")]
        pub owner: ::core::option::Option<::prost::alloc::string::String>,
    }
    #[derive(Clone, PartialEq, ::prost::Oneof)]
    pub enum Way {
        #[prost(int32, tag = "21")]
        Wi(i32),
        #[prost(message, tag = "22")]
        Wl(::prost::alloc::boxed::Box<super::Legacy>),
        #[prost(string, tag = "23")]
        Ws(::prost::alloc::string::String),
        #[prost(group, tag = "24")]
        Wg(Wg),
    }
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "sim.old.v1.Strict")]
#[prost_reflect(file_descriptor_set_bytes = "crate::OLD")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Strict {
    #[prost(int32, required, tag = "1")]
    pub id: i32,
    #[prost(string, required, tag = "2")]
    pub name: ::prost::alloc::string::String,
    #[prost(message, required, tag = "3")]
    pub m: legacy::M,
    #[prost(message, optional, boxed, tag = "4")]
    pub next: ::core::option::Option<::prost::alloc::boxed::Box<Strict>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ::prost::Enumeration)]
#[repr(i32)]
pub enum Tint {
    Red = 1,
    Green = 2,
    Blue = 9,
}
impl Tint {
    /// String value of the enum field names used in the ProtoBuf definition.
    ///
    /// The values are not transformed in any way and thus are considered stable
    /// (if the ProtoBuf definition does not change) and safe for programmatic use.
    pub fn as_str_name(&self) -> &'static str {
        match self {
            Self::Red => "RED",
            Self::Green => "GREEN",
            Self::Blue => "BLUE",
        }
    }
    /// Creates an enum from field names used in the ProtoBuf definition.
    pub fn from_str_name(value: &str) -> ::core::option::Option<Self> {
        match value {
            "RED" => Some(Self::Red),
            "GREEN" => Some(Self::Green),
            "BLUE" => Some(Self::Blue),
            _ => None,
        }
    }
}
