//! C19-C22: hash primitives and the circuit gadgets.
#![feature(once_cell)]
use kit::*;

#[global_allocator]
static A: kit::BoundAlloc = kit::BoundAlloc;

mod ecc;
mod fixed;
mod hash;
mod prim;
mod subj;
mod util;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("GENZ") {
        return fixed::generate();
    }
    let ctx = Ctx::from_args();
    match ctx.property.as_str() {
        "C19" => prim::c19(ctx),
        "C20" => hash::c20(ctx),
        "C21" => util::c21(ctx),
        "C22" => ecc::c22(ctx),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2)
        }
    }
}
