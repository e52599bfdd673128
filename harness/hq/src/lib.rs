//! The macro crate of /repo, compiled as an ordinary library: build.rs copies
//! /repo/hooq-macros/src/lib.rs without its `#[proc_macro…]` attributes.
#![allow(dead_code, unused, private_interfaces)]
include!(concat!(env!("OUT_DIR"), "/lib.rs"));
