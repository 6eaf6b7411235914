mod circ;
mod vm;

#[global_allocator]
static A: kit::BoundAlloc = kit::BoundAlloc;

fn main() {
    let ctx = kit::Ctx::from_args();
    match ctx.property.as_str() {
        "C01" => vm::c01(ctx),
        "C02" => vm::c02(ctx),
        "C03" => vm::c03(ctx),
        "C04" => circ::c04(ctx),
        "C05" => circ::c05(ctx),
        "C06" => circ::c06(ctx),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2)
        }
    }
}
