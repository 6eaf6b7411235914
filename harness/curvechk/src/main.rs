//! C13-C15: fields, curves and the pairing, portable and assembly builds, observed
//! against arbitrary-precision arithmetic.
use kit::*;

#[global_allocator]
static A: kit::BoundAlloc = kit::BoundAlloc;

mod portable {
    use halo2curves as hc;
    const VARIANT: &str = "portable";
    include!("field_body.rs");
    pub mod curve {
        use super::*;
        include!("curve_body.rs");
    }
}
mod asm {
    use halo2curves_asm as hc;
    const VARIANT: &str = "asm";
    include!("field_body.rs");
    pub mod curve {
        use super::*;
        include!("curve_body.rs");
    }
}

/// the assembly needs mulx and adcx; without them only the portable build can run
fn asm_ok(ctx: &Ctx) -> bool {
    let ok = std::is_x86_feature_detected!("adx") && std::is_x86_feature_detected!("bmi2");
    if !ok {
        ctx.assume("this CPU has no ADX/BMI2: the assembly build was not run");
        ctx.count("variant_asm");
    }
    ok
}

fn main() {
    let ctx = Ctx::from_args();
    match ctx.property.as_str() {
        "C13" => {
            ctx.rule("operands whose plain or Montgomery limbs are edge patterns, every public operation and operand form of Fr, Fq, secp256k1 Fp/Fq and the bn256 towers, compared with arbitrary-precision arithmetic, portable and assembly builds; non-trivial = distinct operands");
            ctx.set_budget(40, 1200);
            let (a, b, c, d) = (ctx.n(40_000, 2_000_000), ctx.n(3000, 120_000), ctx.n(6000, 300_000), ctx.n(16, 400));
            portable::run_c13(&ctx, a, b, c, d);
            if asm_ok(&ctx) {
                asm::run_c13(&ctx, a, b, c, d);
            }
            ctx.finish(&[("variant_portable", 1), ("variant_asm", 1), ("cheap_rounds", 10_000), ("slow_rounds", 1000), ("sqrt_none", 50), ("sqrt_some", 50), ("tower_fq12", 500), ("cyclotomic", 8), ("decode_noncanonical", 1000), ("decode2_noncanonical", 100)])
        }
        "C14" => {
            ctx.rule("points with small, edge and random discrete logs in random projective representations, identities, equal and opposite operands, all operand forms, plus byte strings around valid encodings; compared with an independent affine group law; non-trivial = distinct (operands, representation)");
            ctx.set_budget(45, 1200);
            let n = ctx.n(2800, 80_000);
            portable::curve::run_c14(&ctx, n);
            if asm_ok(&ctx) {
                asm::curve::run_c14(&ctx, n / 4);
            }
            ctx.finish(&[("group_g1", 100), ("group_g2", 100), ("group_secp", 100), ("decode_valid", 100), ("decode_invalid", 100), ("off_curve_raw", 100), ("cofactor_cleared", 4), ("mul", 100)])
        }
        "C15" => {
            ctx.rule("random and edge scalar multiples of the generators and random subgroup points; pairing values read back and compared with exponentiation in an independent Fq12; non-trivial = distinct operand sets");
            ctx.set_budget(45, 1200);
            let n = ctx.n(400, 12_000);
            portable::curve::run_c15(&ctx, n);
            if asm_ok(&ctx) {
                asm::curve::run_c15(&ctx, n / 8);
            }
            ctx.finish(&[("bilinear", 40), ("multi_terms", 20), ("identity_terms", 10), ("gt_ops", 20), ("order", 2)])
        }
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2)
        }
    }
}
