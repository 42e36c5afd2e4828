#![allow(clippy::all, dead_code)]
#[cfg(feature = "cli")]
pub mod cli;
#[cfg(feature = "codes")]
pub mod codes;
pub mod dec;
pub mod grid;
#[cfg(feature = "mac")]
pub mod mac;
pub mod parse;
pub mod prod;
pub mod s;
pub mod tab;
pub mod util;

pub const TABLES: &[&[(&str, extern "C" fn(u64))]] = &[
    parse::TABLE,
    dec::TABLE,
    grid::TABLE,
    prod::TABLE,
    tab::TABLE,
    #[cfg(feature = "codes")]
    codes::TABLE,
    #[cfg(feature = "mac")]
    mac::TABLE,
    #[cfg(feature = "cli")]
    cli::TABLE,
];
