//! C09-C12, C16-C18, C23: the proving system, its polynomial and commitment layers,
//! transcripts and circuit layout.
use kit::*;

#[global_allocator]
static A: kit::BoundAlloc = kit::BoundAlloc;

#[cfg(verif_hooks)]
mod cheat;
mod gen;
mod keyio;
mod layout;
mod math;
mod mock;
mod open;
mod proof;
mod sys;
mod trans;
mod web;

fn main() {
    let ctx = Ctx::from_args();
    match ctx.property.as_str() {
        "C09" => proof::c09(ctx),
        "C10" => proof::c10(ctx),
        "C11" => mock::c11(ctx),
        "C12" => keyio::c12(ctx),
        "C16" => math::c16(ctx),
        "C17" => open::c17(ctx),
        "C18" => trans::c18(ctx),
        "C23" => layout::c23(ctx),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2)
        }
    }
}
