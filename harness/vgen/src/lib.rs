#![allow(unused_imports, non_camel_case_types, non_snake_case, dead_code, unused_mut, unused_variables, unused_parens, clippy::all)]
include!(concat!(env!("OUT_DIR"), "/gen.rs"));
