// This file is @generated by prost-build.
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "sim.shop.Money")]
#[prost_reflect(file_descriptor_set_bytes = "crate::SHOP")]
#[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
pub struct Money {
    #[prost(int64, tag = "1")]
    pub units: i64,
    #[prost(sint32, tag = "2")]
    pub nanos: i32,
    #[prost(string, tag = "15")]
    pub code: ::prost::alloc::string::String,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "sim.shop.Scalars")]
#[prost_reflect(file_descriptor_set_bytes = "crate::SHOP")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Scalars {
    #[prost(double, tag = "1")]
    pub d: f64,
    #[prost(float, tag = "2")]
    pub f: f32,
    #[prost(int32, tag = "3")]
    pub i32: i32,
    #[prost(int64, tag = "4")]
    pub i64: i64,
    #[prost(uint32, tag = "5")]
    pub u32: u32,
    #[prost(uint64, tag = "6")]
    pub u64: u64,
    #[prost(sint32, tag = "7")]
    pub s32: i32,
    #[prost(sint64, tag = "8")]
    pub s64: i64,
    #[prost(fixed32, tag = "9")]
    pub x32: u32,
    #[prost(fixed64, tag = "10")]
    pub x64: u64,
    #[prost(sfixed32, tag = "11")]
    pub sx32: i32,
    #[prost(sfixed64, tag = "12")]
    pub sx64: i64,
    #[prost(bool, tag = "13")]
    pub b: bool,
    #[prost(string, tag = "14")]
    pub s: ::prost::alloc::string::String,
    #[prost(bytes = "vec", tag = "15")]
    pub by: ::prost::alloc::vec::Vec<u8>,
    #[prost(enumeration = "Size", tag = "16")]
    pub e: i32,
    #[prost(message, optional, tag = "17")]
    pub m: ::core::option::Option<Money>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "sim.shop.Lists")]
#[prost_reflect(file_descriptor_set_bytes = "crate::SHOP")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Lists {
    #[prost(double, repeated, tag = "1")]
    pub d: ::prost::alloc::vec::Vec<f64>,
    #[prost(float, repeated, tag = "2")]
    pub f: ::prost::alloc::vec::Vec<f32>,
    #[prost(int32, repeated, tag = "3")]
    pub i32: ::prost::alloc::vec::Vec<i32>,
    #[prost(int64, repeated, tag = "4")]
    pub i64: ::prost::alloc::vec::Vec<i64>,
    #[prost(uint32, repeated, tag = "5")]
    pub u32: ::prost::alloc::vec::Vec<u32>,
    #[prost(uint64, repeated, tag = "6")]
    pub u64: ::prost::alloc::vec::Vec<u64>,
    #[prost(sint32, repeated, tag = "7")]
    pub s32: ::prost::alloc::vec::Vec<i32>,
    #[prost(sint64, repeated, tag = "8")]
    pub s64: ::prost::alloc::vec::Vec<i64>,
    #[prost(fixed32, repeated, tag = "9")]
    pub x32: ::prost::alloc::vec::Vec<u32>,
    #[prost(fixed64, repeated, tag = "10")]
    pub x64: ::prost::alloc::vec::Vec<u64>,
    #[prost(sfixed32, repeated, tag = "11")]
    pub sx32: ::prost::alloc::vec::Vec<i32>,
    #[prost(sfixed64, repeated, tag = "12")]
    pub sx64: ::prost::alloc::vec::Vec<i64>,
    #[prost(bool, repeated, tag = "13")]
    pub b: ::prost::alloc::vec::Vec<bool>,
    #[prost(string, repeated, tag = "14")]
    pub s: ::prost::alloc::vec::Vec<::prost::alloc::string::String>,
    #[prost(bytes = "vec", repeated, tag = "15")]
    pub by: ::prost::alloc::vec::Vec<::prost::alloc::vec::Vec<u8>>,
    #[prost(enumeration = "Size", repeated, tag = "16")]
    pub e: ::prost::alloc::vec::Vec<i32>,
    #[prost(message, repeated, tag = "17")]
    pub m: ::prost::alloc::vec::Vec<Money>,
    #[prost(int32, repeated, packed = "false", tag = "18")]
    pub loose: ::prost::alloc::vec::Vec<i32>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "sim.shop.Opt")]
#[prost_reflect(file_descriptor_set_bytes = "crate::SHOP")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Opt {
    #[prost(double, optional, tag = "1")]
    pub d: ::core::option::Option<f64>,
    #[prost(float, optional, tag = "2")]
    pub f: ::core::option::Option<f32>,
    #[prost(int32, optional, tag = "3")]
    pub i32: ::core::option::Option<i32>,
    #[prost(int64, optional, tag = "4")]
    pub i64: ::core::option::Option<i64>,
    #[prost(uint32, optional, tag = "5")]
    pub u32: ::core::option::Option<u32>,
    #[prost(uint64, optional, tag = "6")]
    pub u64: ::core::option::Option<u64>,
    #[prost(sint32, optional, tag = "7")]
    pub s32: ::core::option::Option<i32>,
    #[prost(sint64, optional, tag = "8")]
    pub s64: ::core::option::Option<i64>,
    #[prost(fixed32, optional, tag = "9")]
    pub x32: ::core::option::Option<u32>,
    #[prost(fixed64, optional, tag = "10")]
    pub x64: ::core::option::Option<u64>,
    #[prost(sfixed32, optional, tag = "11")]
    pub sx32: ::core::option::Option<i32>,
    #[prost(sfixed64, optional, tag = "12")]
    pub sx64: ::core::option::Option<i64>,
    #[prost(bool, optional, tag = "13")]
    pub b: ::core::option::Option<bool>,
    #[prost(string, optional, tag = "14")]
    pub s: ::core::option::Option<::prost::alloc::string::String>,
    #[prost(bytes = "vec", optional, tag = "15")]
    pub by: ::core::option::Option<::prost::alloc::vec::Vec<u8>>,
    #[prost(enumeration = "Size", optional, tag = "16")]
    pub e: ::core::option::Option<i32>,
    #[prost(message, optional, tag = "17")]
    pub m: ::core::option::Option<Money>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "sim.shop.Maps")]
#[prost_reflect(file_descriptor_set_bytes = "crate::SHOP")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Maps {
    #[prost(map = "string, string", tag = "1")]
    pub ss: ::std::collections::HashMap<
        ::prost::alloc::string::String,
        ::prost::alloc::string::String,
    >,
    #[prost(map = "int32, message", tag = "2")]
    pub im: ::std::collections::HashMap<i32, Money>,
    #[prost(map = "int64, bytes", tag = "3")]
    pub lb: ::std::collections::HashMap<i64, ::prost::alloc::vec::Vec<u8>>,
    #[prost(map = "uint32, enumeration(Size)", tag = "4")]
    pub ue: ::std::collections::HashMap<u32, i32>,
    #[prost(map = "uint64, double", tag = "5")]
    pub ud: ::std::collections::HashMap<u64, f64>,
    #[prost(map = "sint32, sint64", tag = "6")]
    pub zz: ::std::collections::HashMap<i32, i64>,
    #[prost(map = "fixed64, float", tag = "7")]
    pub xf: ::std::collections::HashMap<u64, f32>,
    #[prost(map = "sfixed32, bool", tag = "8")]
    pub sb: ::std::collections::HashMap<i32, bool>,
    #[prost(map = "bool, message", tag = "9")]
    pub bm: ::std::collections::HashMap<bool, Maps>,
    #[prost(map = "string, uint64", tag = "10")]
    pub su: ::std::collections::HashMap<::prost::alloc::string::String, u64>,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "sim.shop.Choice")]
#[prost_reflect(file_descriptor_set_bytes = "crate::SHOP")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Choice {
    #[prost(string, tag = "11")]
    pub after: ::prost::alloc::string::String,
    #[prost(oneof = "choice::Pick", tags = "1, 2, 3, 4, 5, 6, 7, 8")]
    pub pick: ::core::option::Option<choice::Pick>,
    #[prost(oneof = "choice::SecondOne", tags = "9, 10")]
    pub second_one: ::core::option::Option<choice::SecondOne>,
}
/// Nested message and enum types in `Choice`.
pub mod choice {
    #[derive(Clone, PartialEq, ::prost::Oneof)]
    pub enum Pick {
        #[prost(int32, tag = "1")]
        Number(i32),
        #[prost(string, tag = "2")]
        Word(::prost::alloc::string::String),
        #[prost(bytes, tag = "3")]
        Blob(::prost::alloc::vec::Vec<u8>),
        #[prost(enumeration = "super::Size", tag = "4")]
        Size(i32),
        #[prost(message, tag = "5")]
        Money(super::Money),
        #[prost(message, tag = "6")]
        Choice(::prost::alloc::boxed::Box<super::Choice>),
        #[prost(bool, tag = "7")]
        Flag(bool),
        #[prost(double, tag = "8")]
        Real(f64),
    }
    #[derive(Clone, Copy, PartialEq, Eq, Hash, ::prost::Oneof)]
    pub enum SecondOne {
        #[prost(fixed32, tag = "9")]
        Left(u32),
        #[prost(sint64, tag = "10")]
        Right(i64),
    }
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "sim.shop.Tree")]
#[prost_reflect(file_descriptor_set_bytes = "crate::SHOP")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Tree {
    #[prost(string, tag = "1")]
    pub label: ::prost::alloc::string::String,
    #[prost(message, repeated, tag = "2")]
    pub child: ::prost::alloc::vec::Vec<Tree>,
    #[prost(message, optional, boxed, tag = "3")]
    pub left: ::core::option::Option<::prost::alloc::boxed::Box<Tree>>,
    #[prost(map = "string, message", tag = "4")]
    pub named: ::std::collections::HashMap<::prost::alloc::string::String, Tree>,
    #[prost(int32, tag = "5")]
    pub json_name_differs: i32,
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "sim.shop.Outer")]
#[prost_reflect(file_descriptor_set_bytes = "crate::SHOP")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Outer {
    #[prost(message, optional, tag = "1")]
    pub inner: ::core::option::Option<outer::Inner>,
    #[prost(message, optional, tag = "2")]
    pub deep: ::core::option::Option<outer::inner::Deep>,
    #[prost(enumeration = "outer::inner::deep::Mode", tag = "3")]
    pub mode: i32,
    #[prost(enumeration = "outer::inner::deep::Mode", repeated, tag = "4")]
    pub modes: ::prost::alloc::vec::Vec<i32>,
}
/// Nested message and enum types in `Outer`.
pub mod outer {
    #[derive(::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "sim.shop.Outer.Inner")]
    #[prost_reflect(file_descriptor_set_bytes = "crate::SHOP")]
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct Inner {
        #[prost(message, optional, boxed, tag = "1")]
        pub deep: ::core::option::Option<::prost::alloc::boxed::Box<inner::Deep>>,
        #[prost(message, repeated, tag = "2")]
        pub back: ::prost::alloc::vec::Vec<super::Outer>,
        #[prost(int32, tag = "3")]
        pub r#type: i32,
    }
    /// Nested message and enum types in `Inner`.
    pub mod inner {
        #[derive(::prost_reflect::ReflectMessage)]
        #[prost_reflect(message_name = "sim.shop.Outer.Inner.Deep")]
        #[prost_reflect(file_descriptor_set_bytes = "crate::SHOP")]
        #[derive(Clone, PartialEq, ::prost::Message)]
        pub struct Deep {
            #[prost(enumeration = "deep::Mode", tag = "1")]
            pub mode: i32,
            #[prost(message, optional, boxed, tag = "2")]
            pub up: ::core::option::Option<::prost::alloc::boxed::Box<super::Inner>>,
        }
        /// Nested message and enum types in `Deep`.
        pub mod deep {
            #[derive(
                Clone,
                Copy,
                Debug,
                PartialEq,
                Eq,
                Hash,
                PartialOrd,
                Ord,
                ::prost::Enumeration
            )]
            #[repr(i32)]
            pub enum Mode {
                Off = 0,
                On = 1,
            }
            impl Mode {
                /// String value of the enum field names used in the ProtoBuf definition.
                ///
                /// The values are not transformed in any way and thus are considered stable
                /// (if the ProtoBuf definition does not change) and safe for programmatic use.
                pub fn as_str_name(&self) -> &'static str {
                    match self {
                        Self::Off => "OFF",
                        Self::On => "ON",
                    }
                }
                /// Creates an enum from field names used in the ProtoBuf definition.
                pub fn from_str_name(value: &str) -> ::core::option::Option<Self> {
                    match value {
                        "OFF" => Some(Self::Off),
                        "ON" => Some(Self::On),
                        _ => None,
                    }
                }
            }
        }
    }
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "sim.shop.Empty")]
#[prost_reflect(file_descriptor_set_bytes = "crate::SHOP")]
#[derive(Clone, Copy, PartialEq, Eq, Hash, ::prost::Message)]
pub struct Empty {}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ::prost::Enumeration)]
#[repr(i32)]
pub enum Size {
    None = 0,
    Small = 1,
    Large = 2,
    HugeNeg = -5,
}
impl Size {
    /// String value of the enum field names used in the ProtoBuf definition.
    ///
    /// The values are not transformed in any way and thus are considered stable
    /// (if the ProtoBuf definition does not change) and safe for programmatic use.
    pub fn as_str_name(&self) -> &'static str {
        match self {
            Self::None => "SIZE_NONE",
            Self::Small => "SMALL",
            Self::Large => "LARGE",
            Self::HugeNeg => "HUGE_NEG",
        }
    }
    /// Creates an enum from field names used in the ProtoBuf definition.
    pub fn from_str_name(value: &str) -> ::core::option::Option<Self> {
        match value {
            "SIZE_NONE" => Some(Self::None),
            "SMALL" => Some(Self::Small),
            "LARGE" => Some(Self::Large),
            "HUGE_NEG" => Some(Self::HugeNeg),
            _ => None,
        }
    }
}
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "sim.shop.Known")]
#[prost_reflect(file_descriptor_set_bytes = "crate::SHOP")]
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Known {
    #[prost(message, optional, tag = "1")]
    pub ts: ::core::option::Option<::prost_types::Timestamp>,
    #[prost(message, optional, tag = "2")]
    pub dur: ::core::option::Option<::prost_types::Duration>,
    #[prost(message, optional, tag = "3")]
    pub mask: ::core::option::Option<::prost_types::FieldMask>,
    #[prost(message, optional, tag = "4")]
    pub empty: ::core::option::Option<()>,
    #[prost(message, optional, tag = "5")]
    pub st: ::core::option::Option<::prost_types::Struct>,
    #[prost(message, optional, tag = "6")]
    pub val: ::core::option::Option<::prost_types::Value>,
    #[prost(message, optional, tag = "7")]
    pub lv: ::core::option::Option<::prost_types::ListValue>,
    #[prost(message, optional, tag = "8")]
    pub any: ::core::option::Option<::prost_types::Any>,
    #[prost(message, optional, tag = "9")]
    pub wb: ::core::option::Option<bool>,
    #[prost(message, optional, tag = "10")]
    pub wf: ::core::option::Option<f32>,
    #[prost(message, optional, tag = "11")]
    pub wd: ::core::option::Option<f64>,
    #[prost(message, optional, tag = "12")]
    pub wi: ::core::option::Option<i32>,
    #[prost(message, optional, tag = "13")]
    pub wl: ::core::option::Option<i64>,
    #[prost(message, optional, tag = "14")]
    pub wu: ::core::option::Option<u32>,
    #[prost(message, optional, tag = "15")]
    pub wul: ::core::option::Option<u64>,
    #[prost(message, optional, tag = "16")]
    pub ws: ::core::option::Option<::prost::alloc::string::String>,
    #[prost(message, optional, tag = "17")]
    pub wby: ::core::option::Option<::prost::alloc::vec::Vec<u8>>,
    #[prost(enumeration = "::prost_types::NullValue", tag = "18")]
    pub nul: i32,
    #[prost(message, repeated, tag = "20")]
    pub many_ts: ::prost::alloc::vec::Vec<::prost_types::Timestamp>,
    #[prost(message, repeated, tag = "21")]
    pub many_ws: ::prost::alloc::vec::Vec<::prost::alloc::string::String>,
    #[prost(message, repeated, tag = "22")]
    pub many_val: ::prost::alloc::vec::Vec<::prost_types::Value>,
    #[prost(map = "string, message", tag = "23")]
    pub map_dur: ::std::collections::HashMap<
        ::prost::alloc::string::String,
        ::prost_types::Duration,
    >,
    #[prost(map = "int32, message", tag = "24")]
    pub map_val: ::std::collections::HashMap<i32, ::prost_types::Value>,
    #[prost(map = "string, message", tag = "25")]
    pub map_wl: ::std::collections::HashMap<::prost::alloc::string::String, i64>,
    #[prost(message, optional, tag = "40")]
    pub scalars: ::core::option::Option<Scalars>,
    #[prost(oneof = "known::One", tags = "30, 31, 32, 33, 34")]
    pub one: ::core::option::Option<known::One>,
}
/// Nested message and enum types in `Known`.
pub mod known {
    #[derive(Clone, PartialEq, ::prost::Oneof)]
    pub enum One {
        #[prost(message, tag = "30")]
        Ots(::prost_types::Timestamp),
        #[prost(message, tag = "31")]
        Owi(i32),
        #[prost(message, tag = "32")]
        Oe(()),
        #[prost(message, tag = "33")]
        Osc(super::Scalars),
        #[prost(message, tag = "34")]
        Oval(::prost_types::Value),
    }
}
