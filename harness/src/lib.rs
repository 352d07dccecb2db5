#[macro_use]
mod sx;
mod long;
mod model;
mod notes;
mod zoo;
include!("mods.rs");
