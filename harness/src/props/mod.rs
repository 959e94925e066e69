use crate::core::Prop;

#[cfg(feature = "blocks")]
mod blocks;
mod decode;
mod encode;
mod io;
mod paths;
mod robust;
mod serde_props;

pub const ASSUMPTIONS: &[&str] = &[
    "only executions produced by this run are judged",
    "serde_json (parsing, values, equality) and Rust's f64 parsing and printing are trusted",
    "64-bit little-endian Linux, the toolchain installed here",
];

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = Vec::new();
    v.extend(encode::PROPS);
    v.extend(decode::PROPS);
    v.extend(paths::PROPS);
    v.extend(robust::PROPS);
    v.extend(serde_props::PROPS);
    v.extend(io::PROPS);
    #[cfg(feature = "blocks")]
    v.extend(blocks::PROPS);
    v
}
