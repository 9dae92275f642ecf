//! Preloaded into the real CLI, the real export program and CPython: everything they ask of libc that the
//! simulated world owns is answered by it, according to the plan handed over in an inherited descriptor.

#![allow(clippy::missing_safety_doc, static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions, dead_code)]

mod delta;
#[path = "host_shim.rs"]
mod host;
mod interpose;
mod rng;
mod spec;
mod world;

#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn() = host::init;
