//! `dst`: deterministic simulation of chanoma.

#![allow(clippy::missing_safety_doc, static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions)]

mod alloc;
mod check;
mod delta;
mod exec;
mod gen;
mod host;
mod interpose;
mod logger;
mod model;
mod procs;
mod reduce;
mod mem;
mod rng;
mod runner;
mod scenario;
mod sched;
mod spec;
mod threads;
mod world;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

/// same address space layout in every process, clean environment
fn settle() {
    if std::env::var_os("DST_SETTLED").is_some() {
        return;
    }
    unsafe {
        libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
    }
    let exe = std::env::current_exe().unwrap();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let keep = ["PATH", "HOME", "VERIF_SEED", "VERIF_TIER", "DST_DIR", "DST_BIN", "DST_SHIM", "DST_PY", "DST_PYPATH", "DST_SECONDS", "DST_SLOW", "DST_JOBS", "DST_MAX", "DST_CLI", "DST_OUTPUT", "DST_STDERR", "DST_INLINE", "DST_COVER"];
    let mut c = std::process::Command::new(exe);
    c.args(args).env_clear();
    for k in keep {
        if let Some(v) = std::env::var_os(k) {
            c.env(k, v);
        }
    }
    c.env("DST_SETTLED", "1");
    let e = std::os::unix::process::CommandExt::exec(&mut c);
    eprintln!("cannot re-execute: {}", e);
    std::process::exit(2);
}

fn main() {
    settle();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = runner::main(&args);
    std::process::exit(code);
}
