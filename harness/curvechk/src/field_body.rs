// C13 body, instantiated once over the portable and once over the assembly build:
// `hc` is the crate under test, `VARIANT` its name.
use ff::{Field, PrimeField};
use hc::serde::SerdeObject;
use hc::{FieldExt, Group};
use kit::*;
use pasta_curves::arithmetic::SqrtRatio;
use refmath::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

/// 256-bit patterns that stress carries: limbs from a small set, sometimes near the modulus
fn limbs(rng: &mut Rng, p: &BigUint) -> [u8; 32] {
    let pl = to_le(p, 32);
    let mut out = [0u8; 32];
    for i in 0..4 {
        let pi = u64::from_le_bytes(pl[8 * i..8 * i + 8].try_into().unwrap());
        let v = match rng.below(10) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => u64::MAX - 1,
            4 => 1 << 63,
            5 => pi,
            6 => pi.wrapping_sub(1),
            7 => pi.wrapping_add(1),
            _ => rng.u64(),
        };
        out[8 * i..8 * i + 8].copy_from_slice(&v.to_le_bytes());
    }
    out
}

/// an integer below p: an edge value, or one whose Montgomery limbs are edge patterns
fn value(rng: &mut Rng, f: &Fp) -> BigUint {
    let p = &f.p;
    match rng.below(8) {
        0 => {
            let k = rng.below(6) as u32;
            let e = [BigUint::from(k), p - BigUint::from(k + 1), (p >> 1usize) + BigUint::from(k), (p >> 1usize) - BigUint::from(k)];
            rng.pick(&e) % p
        }
        1 => {
            let s = rng.below(255);
            let x = BigUint::from(1u8) << s;
            let d = BigUint::from(rng.below(3) as u32);
            if rng.bool() { (x + d) % p } else { (x + p - d) % p }
        }
        2 => le(&limbs(rng, p)) % p,
        3 | 4 | 5 => {
            // raw Montgomery word w, value w / R
            let w = le(&limbs(rng, p)) % p;
            let r = (BigUint::from(1u8) << 256usize) % p;
            f.mul(&w, &f.inv(&r).unwrap())
        }
        _ => le(&rng.bytes(40)) % p,
    }
}

macro_rules! prime_field {
    ($name:ident, $F:ty, $hex:expr, $ctx:ident, $ratio:expr) => {
        pub mod $name {
            use super::*;
            type F = $F;
            pub fn to_el(v: &BigUint) -> F {
                // Montgomery form is the documented raw encoding
                let f = Fp::new($hex);
                let r = BigUint::from(1u8) << 256usize;
                F::from_raw_bytes_unchecked(&to_le(&f.red(&(v * r)), 32))
            }
            /// value of an element read from its raw form, with a canonicity check
            pub fn val(ctx: &Ctx, what: &str, x: &F) -> BigUint {
                let f = Fp::new($hex);
                let raw = le(&x.to_raw_bytes());
                ctx.check(raw < f.p, &format!("{}:{}:{}:noncanonical", VARIANT, stringify!($name), what), || {
                    format!("{} {} {} left the canonical range: raw {:x}", VARIANT, stringify!($name), what, raw)
                });
                let r = f.red(&(BigUint::from(1u8) << 256usize));
                f.mul(&(raw % &f.p), &f.inv(&r).unwrap())
            }
            fn expect(ctx: &Ctx, what: &str, args: &[&BigUint], got: &F, want: BigUint) {
                let g = val(ctx, what, got);
                ctx.check(g == want, &format!("{}:{}:{}", VARIANT, stringify!($name), what), || {
                    format!(
                        "{} {} {} of {}: got {:x}, expected {:x}",
                        VARIANT,
                        stringify!($name),
                        what,
                        args.iter().map(|a| format!("{:x}", a)).collect::<Vec<_>>().join(", "),
                        g,
                        want
                    )
                });
            }
            fn truth(ctx: &Ctx, what: &str, args: &[&BigUint], ok: bool) {
                ctx.check(ok, &format!("{}:{}:{}", VARIANT, stringify!($name), what), || {
                    format!("{} {} {} wrong for {}", VARIANT, stringify!($name), what, args.iter().map(|a| format!("{:x}", a)).collect::<Vec<_>>().join(", "))
                });
            }
            pub fn consts(ctx: &Ctx) {
                let f = Fp::new($hex);
                let one = BigUint::from(1u8);
                expect(ctx, "zero", &[], &F::zero(), BigUint::from(0u8));
                expect(ctx, "one", &[], &F::one(), one.clone());
                expect(ctx, "default", &[], &F::default(), BigUint::from(0u8));
                expect(ctx, "two_inv", &[], &F::TWO_INV, f.inv(&BigUint::from(2u8)).unwrap());
                truth(ctx, "modulus_str", &[], big(<F as FieldExt>::MODULUS) == f.p);
                truth(ctx, "num_bits", &[], <F as PrimeField>::NUM_BITS as u64 == f.p.bits() && <F as PrimeField>::CAPACITY as u64 == f.p.bits() - 1);
                if val(ctx, "zeta", &F::ZETA) != BigUint::from(0u8) {
                    let z = val(ctx, "zeta", &F::ZETA);
                    truth(ctx, "zeta", &[&z], z != one && f.pow(&z, &BigUint::from(3u8)) == one);
                }
                if $ratio {
                    let s = F::S as usize;
                    let t = (&f.p - &one) >> s;
                    truth(ctx, "two_adicity", &[], &(&t << s) + &one == f.p && t.bit(0));
                    let g = val(ctx, "generator", &F::multiplicative_generator());
                    truth(ctx, "generator_nonresidue", &[&g], !f.is_square(&g));
                    expect(ctx, "root_of_unity", &[], &F::root_of_unity(), f.pow(&g, &t));
                    expect(ctx, "root_of_unity_inv", &[], &F::ROOT_OF_UNITY_INV, f.inv(&f.pow(&g, &t)).unwrap());
                    let d = val(ctx, "delta", &F::DELTA);
                    if d != BigUint::from(0u8) {
                        truth(ctx, "delta", &[&d], d == f.pow(&g, &(one.clone() << s)));
                    }
                }
            }
            pub fn case(ctx: &Ctx, rng: &mut Rng) {
                let f = Fp::new($hex);
                let r256 = BigUint::from(1u8) << 256usize;
                let (va, vb) = (value(rng, &f), value(rng, &f));
                let vb = match rng.below(8) {
                    0 => va.clone(),
                    1 => f.neg(&va),
                    _ => vb,
                };
                let (a, b) = (to_el(&va), to_el(&vb));
                ctx.eval(Some(hash_bytes(&[to_le(&va, 32), to_le(&vb, 32), vec![stringify!($name).len() as u8, stringify!($name).as_bytes()[0]]].concat())));
                let ab = [&va, &vb];
                // every operand form of the ring operations
                let (add, sub, mul) = (f.add(&va, &vb), f.sub(&va, &vb), f.mul(&va, &vb));
                match rng.below(4) {
                    0 => {
                        expect(ctx, "add", &ab, &(a + b), add);
                        expect(ctx, "sub", &ab, &(a - b), sub);
                        expect(ctx, "mul", &ab, &(a * b), mul);
                    }
                    1 => {
                        expect(ctx, "add", &ab, &(&a + &b), add);
                        expect(ctx, "sub", &ab, &(&a - &b), sub);
                        expect(ctx, "mul", &ab, &(&a * &b), mul);
                    }
                    2 => {
                        let (mut x, mut y, mut z) = (a, a, a);
                        x += b;
                        y -= b;
                        z *= b;
                        expect(ctx, "add", &ab, &x, add);
                        expect(ctx, "sub", &ab, &y, sub);
                        expect(ctx, "mul", &ab, &z, mul);
                    }
                    _ => {
                        let (mut x, mut y, mut z) = (a, a, a);
                        x.group_add(&b);
                        y.group_sub(&b);
                        z.group_scale(&b);
                        expect(ctx, "add", &ab, &x, add);
                        expect(ctx, "sub", &ab, &y, sub);
                        expect(ctx, "mul", &ab, &z, mul);
                    }
                }
                expect(ctx, "neg", &[&va], &(-a), f.neg(&va));
                expect(ctx, "neg", &[&va], &(-&a), f.neg(&va));
                expect(ctx, "double", &[&va], &Field::double(&a), f.add(&va, &va));
                expect(ctx, "double", &[&va], &a.double(), f.add(&va, &va));
                expect(ctx, "square", &[&va], &Field::square(&a), f.mul(&va, &va));
                expect(ctx, "square", &[&va], &a.square(), f.mul(&va, &va));
                expect(ctx, "cube", &[&va], &a.cube(), f.mul(&va, &f.mul(&va, &va)));
                // comparison and selection
                truth(ctx, "eq", &ab, (a == b) == (va == vb));
                truth(ctx, "ct_eq", &ab, bool::from(a.ct_eq(&b)) == (va == vb));
                truth(ctx, "cmp", &ab, a.cmp(&b) == va.cmp(&vb) && a.partial_cmp(&b) == Some(va.cmp(&vb)));
                truth(ctx, "is_zero", &[&va], bool::from(a.is_zero()) == (va == BigUint::from(0u8)) && a.is_zero_vartime() == (va == BigUint::from(0u8)));
                truth(ctx, "is_odd", &[&va], bool::from(a.is_odd()) == va.bit(0) && bool::from(a.is_even()) != va.bit(0));
                let c = rng.bool();
                let s = F::conditional_select(&a, &b, Choice::from(c as u8));
                expect(ctx, "select", &ab, &s, if c { vb.clone() } else { va.clone() });
                let (mut x, mut y) = (a, b);
                F::conditional_swap(&mut x, &mut y, Choice::from(c as u8));
                truth(ctx, "swap", &ab, if c { x == b && y == a } else { x == a && y == b });
                // encodings
                truth(ctx, "to_repr", &[&va], a.to_repr().as_ref() == &to_le(&va, 32)[..] && a.to_bytes()[..] == to_le(&va, 32)[..]);
                truth(ctx, "debug", &[&va], format!("{:?}", a) == format!("0x{:0>64}", va.to_str_radix(16)));
                truth(ctx, "into_bytes", &[&va], <[u8; 32]>::from(a)[..] == to_le(&va, 32)[..] && <[u8; 32]>::from(&a)[..] == to_le(&va, 32)[..]);
                truth(ctx, "lower_128", &[&va], BigUint::from(a.get_lower_128()) == &va % (BigUint::from(1u8) << 128usize));
                truth(ctx, "lower_32", &[&va], BigUint::from(a.get_lower_32()) == &va % (BigUint::from(1u8) << 32usize));
                truth(ctx, "raw", &[&va], le(&a.to_raw_bytes()) == f.red(&(&va * &r256)));
                let mut w = vec![];
                a.write_raw(&mut w).unwrap();
                truth(ctx, "write_raw", &[&va], w == a.to_raw_bytes());
                // decoding of arbitrary 32-byte strings, many of them just around the modulus
                let bytes: [u8; 32] = match rng.below(4) {
                    0 => {
                        let d = BigUint::from(rng.below(4) as u32);
                        to_le(&(if rng.bool() { &f.p - d } else { (&f.p + d) % &r256 }), 32).try_into().unwrap()
                    }
                    1 => rng.bytes(32).try_into().unwrap(),
                    _ => limbs(rng, &f.p),
                };
                let vx = le(&bytes);
                let canon = vx < f.p;
                match Option::<F>::from(F::from_repr(bytes)) {
                    Some(x) => {
                        truth(ctx, "from_repr_accepts", &[&vx], canon);
                        expect(ctx, "from_repr", &[&vx], &x, f.red(&vx));
                    }
                    None => truth(ctx, "from_repr_refuses", &[&vx], !canon),
                }
                truth(ctx, "from_bytes", &[&vx], bool::from(F::from_bytes(&bytes).is_some()) == canon);
                match F::from_raw_bytes(&bytes) {
                    Some(x) => {
                        truth(ctx, "from_raw_accepts", &[&vx], canon);
                        truth(ctx, "from_raw_roundtrip", &[&vx], x.to_raw_bytes() == bytes);
                    }
                    None => truth(ctx, "from_raw_refuses", &[&vx], !canon),
                }
                let mut rd = &bytes[..];
                truth(ctx, "read_raw", &[&vx], F::read_raw(&mut rd).is_ok() == canon && rd.is_empty());
                let cut = rng.below(32);
                truth(ctx, "raw_short", &[], F::from_raw_bytes(&bytes[..cut]).is_none() && F::read_raw(&mut &bytes[..cut]).is_err());
                ctx.count(if canon { "decode_canonical" } else { "decode_noncanonical" });
                // conversion from integers
                let l: Vec<u64> = (0..4).map(|i| u64::from_le_bytes(bytes[8 * i..8 * i + 8].try_into().unwrap())).collect();
                expect(ctx, "from_raw", &[&vx], &F::from_raw([l[0], l[1], l[2], l[3]]), f.red(&vx));
                expect(ctx, "from_u64", &[&vx], &F::from(l[0]), f.red(&BigUint::from(l[0])));
                let u = l[0] as u128 | (l[1] as u128) << 64;
                expect(ctx, "from_u128", &[&vx], &F::from_u128(u), f.red(&BigUint::from(u)));
                expect(ctx, "from_bool", &[], &F::from(c), BigUint::from(c as u8));
                let wide: [u8; 64] = match rng.below(3) {
                    0 => [&bytes[..], &limbs(rng, &f.p)[..]].concat(),
                    1 => rng.bytes(64),
                    _ => vec![*rng.pick(&[0u8, 255, 254, 128]); 64],
                }
                .try_into()
                .unwrap();
                let vw = le(&wide);
                expect(ctx, "from_wide", &[&vw], &F::from_bytes_wide(&wide), f.red(&vw));
                expect(ctx, "random", &[], &F::random(rng.clone()), {
                    let x = F::random(rng.clone());
                    val(ctx, "random", &x)
                });
                if let Ok(n) = String::from_utf8((0..rng.range(1, 80)).map(|_| b'0' + rng.below(10) as u8).collect()) {
                    let want = if n.len() > 1 && n.starts_with('0') { None } else { Some(f.red(&BigUint::parse_bytes(n.as_bytes(), 10).unwrap())) };
                    let got = F::from_str_vartime(&n);
                    truth(ctx, "from_str", &[], got.map(|x| val(ctx, "from_str", &x)) == want);
                }
                ctx.count("cheap_rounds");
            }
            /// inversion, exponentiation, square roots
            pub fn slow(ctx: &Ctx, rng: &mut Rng) {
                let f = Fp::new($hex);
                let va = value(rng, &f);
                let a = to_el(&va);
                ctx.eval(Some(hash_bytes(&[to_le(&va, 32), vec![7, stringify!($name).len() as u8]].concat())));
                match Option::<F>::from(a.invert()) {
                    Some(i) => expect(ctx, "invert", &[&va], &i, f.inv(&va).unwrap_or_default()),
                    None => truth(ctx, "invert_none", &[&va], va == BigUint::from(0u8)),
                }
                truth(ctx, "invert_zero", &[], bool::from(F::zero().invert().is_none()));
                let eb = match rng.below(3) {
                    0 => limbs(rng, &f.p),
                    1 => {
                        let mut e = [0u8; 32];
                        e[rng.below(32)] = 1 << rng.below(8);
                        e
                    }
                    _ => rng.bytes(32).try_into().unwrap(),
                };
                let e = le(&eb);
                let el: Vec<u64> = (0..4).map(|i| u64::from_le_bytes(eb[8 * i..8 * i + 8].try_into().unwrap())).collect();
                let want = f.pow(&va, &e);
                expect(ctx, "pow", &[&va, &e], &FieldExt::pow(&a, &[el[0], el[1], el[2], el[3]]), want.clone());
                expect(ctx, "pow_vartime", &[&va, &e], &a.pow_vartime(&el), want);
                let short: Vec<u64> = el[..rng.below(4)].to_vec();
                let es: Vec<u8> = short.iter().flat_map(|x| x.to_le_bytes()).collect();
                expect(ctx, "pow_vartime", &[&va], &a.pow_vartime(&short), f.pow(&va, &le(&es)));
                // square roots of squares, non-squares and edge values
                let sq = rng.bool();
                let (vs, s) = if sq { (f.mul(&va, &va), a.square()) } else { (va.clone(), a) };
                match Option::<F>::from(s.sqrt()) {
                    Some(r) => {
                        let r = val(ctx, "sqrt", &r);
                        truth(ctx, "sqrt", &[&vs, &r], f.mul(&r, &r) == vs);
                        ctx.count("sqrt_some");
                    }
                    None => {
                        truth(ctx, "sqrt_none", &[&vs], !f.is_square(&vs));
                        ctx.count("sqrt_none");
                    }
                }
                if $ratio {
                    let vd = value(rng, &f);
                    let d = to_el(&vd);
                    let (is, r) = F::sqrt_ratio(&s, &d);
                    let r = val(ctx, "sqrt_ratio", &r);
                    let zero = BigUint::from(0u8);
                    let q = f.inv(&vd).map(|i| f.mul(&vs, &i)).unwrap_or(zero.clone());
                    let ok = if vs == zero {
                        bool::from(is) && r == zero
                    } else if vd == zero {
                        !bool::from(is) && r == zero
                    } else {
                        let g = val(ctx, "root_of_unity", &F::root_of_unity());
                        bool::from(is) == f.is_square(&q) && f.mul(&r, &r) == if f.is_square(&q) { q } else { f.mul(&g, &q) }
                    };
                    truth(ctx, "sqrt_ratio", &[&vs, &vd], ok);
                }
                ctx.count("slow_rounds");
            }
        }
    };
}

pub const BN_R: &str = "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001";
pub const BN_Q: &str = "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47";
pub const SECP_P: &str = "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f";
pub const SECP_N: &str = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
prime_field!(bn_fr, hc::bn256::Fr, BN_R, ctx, true);
prime_field!(bn_fq, hc::bn256::Fq, BN_Q, ctx, false);
prime_field!(secp_fp, hc::secp256k1::Fp, SECP_P, ctx, false);
prime_field!(secp_fq, hc::secp256k1::Fq, SECP_N, ctx, true);

// ------------------------------------------------------------------- towers
use hc::bn256::{Fq, Fq12, Fq2, Fq6};
pub fn fq2(v: &[BigUint]) -> Fq2 {
    Fq2::new(bn_fq::to_el(&v[0]), bn_fq::to_el(&v[1]))
}
pub fn fq6(v: &[BigUint]) -> Fq6 {
    Fq6 { c0: fq2(&v[0..2]), c1: fq2(&v[2..4]), c2: fq2(&v[4..6]) }
}
pub fn fq12(v: &[BigUint]) -> Fq12 {
    Fq12 { c0: fq6(&v[0..6]), c1: fq6(&v[6..12]) }
}
pub fn v2(ctx: &Ctx, w: &str, x: &Fq2) -> El {
    vec![bn_fq::val(ctx, w, &x.c0), bn_fq::val(ctx, w, &x.c1)]
}
pub fn v6(ctx: &Ctx, w: &str, x: &Fq6) -> El {
    [v2(ctx, w, &x.c0), v2(ctx, w, &x.c1), v2(ctx, w, &x.c2)].concat()
}
pub fn v12(ctx: &Ctx, w: &str, x: &Fq12) -> El {
    [v6(ctx, w, &x.c0), v6(ctx, w, &x.c1)].concat()
}
pub fn tower_value(rng: &mut Rng, f: &Fp, n: usize) -> El {
    match rng.below(10) {
        0 => t_zero(n),
        1 => t_one(n),
        2 => {
            let mut v = t_zero(n);
            v[rng.below(n)] = value(rng, f);
            v
        }
        _ => (0..n)
            .map(|_| match rng.below(6) {
                0 => BigUint::from(0u8),
                _ => value(rng, f),
            })
            .collect(),
    }
}

macro_rules! ring_forms {
    ($ctx:ident, $rng:ident, $name:expr, $mk:ident, $v:ident, $n:expr, $T:ty) => {{
        let f = Fp::new(BN_Q);
        let va = tower_value($rng, &f, $n);
        let vb = match $rng.below(8) {
            0 => va.clone(),
            1 => t_neg(&f, &va),
            _ => tower_value($rng, &f, $n),
        };
        let (a, b) = ($mk(&va), $mk(&vb));
        let key: Vec<u8> = va.iter().chain(vb.iter()).flat_map(|x| to_le(x, 32)).collect();
        $ctx.eval(Some(hash_bytes(&key)));
        let ex = |w: &str, got: &$T, want: &El| {
            let g = $v($ctx, w, got);
            $ctx.check(&g == want, &format!("{}:{}:{}", VARIANT, $name, w), || format!("{} {} {} of {:x?}, {:x?}: got {:x?} expected {:x?}", VARIANT, $name, w, va, vb, g, want));
        };
        let (add, sub, mul) = (t_add(&f, &va, &vb), t_sub(&f, &va, &vb), t_mul(&f, &va, &vb));
        ex("add", &(a + b), &add);
        ex("sub", &(&a - &b), &sub);
        ex("mul", &(a * b), &mul);
        let mut x = a;
        x.mul_assign(&b);
        ex("mul", &x, &mul);
        let mut x = a;
        x += &b;
        ex("add", &x, &add);
        x -= b;
        ex("sub", &x, &va);
        x *= b;
        ex("mul", &x, &mul);
        ex("add", &a.add(&b), &add);
        ex("sub", &a.sub(&b), &sub);
        ex("mul", &a.mul(&b), &mul);
        ex("neg", &(-a), &t_neg(&f, &va));
        ex("neg", &a.neg(), &t_neg(&f, &va));
        ex("double", &Field::double(&a), &t_add(&f, &va, &va));
        let mut x = a;
        x.double_assign();
        ex("double", &x, &t_add(&f, &va, &va));
        ex("square", &Field::square(&a), &t_mul(&f, &va, &va));
        let mut x = a;
        x.square_assign();
        ex("square", &x, &t_mul(&f, &va, &va));
        let i: Option<$T> = Field::invert(&a).into();
        match i {
            Some(i) => {
                let vi = $v($ctx, "invert", &i);
                $ctx.check(t_mul(&f, &vi, &va) == t_one($n), &format!("{}:{}:invert", VARIANT, $name), || format!("{} {} inverse of {:x?} is {:x?}", VARIANT, $name, va, vi));
            }
            None => {
                $ctx.check(is_zero(&va), &format!("{}:{}:invert", VARIANT, $name), || format!("{} {} no inverse for {:x?}", VARIANT, $name, va));
            }
        }
        let c = $rng.bool();
        ex("select", &<$T>::conditional_select(&a, &b, Choice::from(c as u8)), if c { &vb } else { &va });
        $ctx.check(bool::from(a.ct_eq(&b)) == (va == vb) && (a == b) == (va == vb), &format!("{}:{}:eq", VARIANT, $name), || format!("{:x?} {:x?}", va, vb));
        $ctx.check(bool::from(a.is_zero()) == is_zero(&va), &format!("{}:{}:is_zero", VARIANT, $name), || format!("{:x?}", va));
        ex("zero", &<$T as Field>::zero(), &t_zero($n));
        ex("one", &<$T as Field>::one(), &t_one($n));
        $ctx.count(concat!("tower_", $name));
        (f.clone(), va.clone(), vb.clone(), a, b)
    }};
}

pub fn tower2(ctx: &Ctx, rng: &mut Rng) {
    let (f, va, vb, a, b) = ring_forms!(ctx, rng, "fq2", fq2, v2, 2, Fq2);
    let ex = |w: &str, got: &Fq2, want: &El| {
        let g = v2(ctx, w, got);
        ctx.check(&g == want, &format!("{}:fq2:{}", VARIANT, w), || format!("{} fq2 {} of {:x?}: got {:x?} expected {:x?}", VARIANT, w, va, g, want));
    };
    let tr = |w: &str, ok: bool| {
        ctx.check(ok, &format!("{}:fq2:{}", VARIANT, w), || format!("{} fq2 {} wrong for {:x?} {:x?}", VARIANT, w, va, vb));
    };
    let nr = vec![BigUint::from(9u8), BigUint::from(1u8)];
    let mut x = a;
    x.mul_by_nonresidue();
    ex("mul_by_nonresidue", &x, &t_mul(&f, &va, &nr));
    let mut x = a;
    x.mul_by_xi();
    ex("mul_by_xi", &x, &t_mul(&f, &va, &nr));
    let conj = vec![va[0].clone(), f.neg(&va[1])];
    let mut x = a;
    x.conjugate();
    ex("conjugate", &x, &conj);
    let k = rng.below(14);
    let mut x = a;
    x.frobenius_map(k);
    ex("frobenius", &x, if k % 2 == 0 { &va } else { &conj });
    let norm = f.add(&f.mul(&va[0], &va[0]), &f.mul(&va[1], &va[1]));
    tr("norm", bn_fq::val(ctx, "norm", &a.norm()) == norm);
    let l = if is_zero(&va) {
        hc::bn256::LegendreSymbol::Zero
    } else if t_is_square(&f, &va) {
        hc::bn256::LegendreSymbol::QuadraticResidue
    } else {
        hc::bn256::LegendreSymbol::QuadraticNonResidue
    };
    tr("legendre", a.legendre() == l);
    tr("cmp", a.cmp(&b) == (&va[1], &va[0]).cmp(&(&vb[1], &vb[0])));
    // square roots
    let s = match rng.below(4) {
        0 | 1 => a.square(),
        2 => a,
        _ => fq2(&[va[0].clone(), BigUint::from(0u8)]),
    };
    let vs = v2(ctx, "sqrt", &s);
    match Option::<Fq2>::from(s.sqrt()) {
        Some(r) => {
            let r = v2(ctx, "sqrt", &r);
            ctx.check(t_mul(&f, &r, &r) == vs, &format!("{}:fq2:sqrt", VARIANT), || format!("root of {:x?} given as {:x?}", vs, r));
            ctx.count("sqrt2_some");
        }
        None => {
            ctx.check(!t_is_square(&f, &vs), &format!("{}:fq2:sqrt", VARIANT), || format!("no root for the square {:x?}", vs));
            ctx.count("sqrt2_none");
        }
    }
    // encodings
    let enc = [to_le(&va[0], 32), to_le(&va[1], 32)].concat();
    tr("to_bytes", a.to_bytes()[..] == enc[..] && a.to_repr().as_ref() == &enc[..] && <[u8; 64]>::from(a)[..] == enc[..]);
    let mut by: [u8; 64] = [&limbs(rng, &f.p)[..], &limbs(rng, &f.p)[..]].concat().try_into().unwrap();
    if rng.chance(1, 2) {
        by[31] &= 0x1f;
    }
    if rng.chance(1, 2) {
        by[63] &= 0x1f;
    }
    let canon = le(&by[..32]) < f.p && le(&by[32..]) < f.p;
    let id = |w: &str| format!("{} fq2 {} on bytes {}", VARIANT, w, hex(&by));
    match guard(|| Option::<Fq2>::from(Fq2::from_bytes(&by))) {
        Out::Ok(Some(x)) => {
            ctx.check(canon && x.to_bytes() == by, &format!("{}:fq2:from_bytes", VARIANT), || id("accepted"));
        }
        Out::Ok(None) => {
            ctx.check(!canon, &format!("{}:fq2:from_bytes", VARIANT), || id("refused"));
        }
        Out::Panic(m) => ctx.violation(&format!("{}:fq2:from_bytes:panic", VARIANT), format!("{}: {}", id("from_bytes"), m)),
    }
    let got = guard(|| Fq2::from_raw_bytes(&by).map(|x| x.to_raw_bytes() == by));
    match got {
        Out::Ok(g) => {
            ctx.check(g == if canon { Some(true) } else { None }, &format!("{}:fq2:from_raw_bytes", VARIANT), || id("raw"));
        }
        Out::Panic(m) => ctx.violation(&format!("{}:fq2:from_raw_bytes:panic", VARIANT), format!("{}: {}", id("raw"), m)),
    }
    ctx.check(Fq2::read_raw(&mut &by[..]).is_ok() == canon, &format!("{}:fq2:read_raw", VARIANT), || id("read_raw"));
    ctx.count(if canon { "decode2_canonical" } else { "decode2_noncanonical" });
}

pub fn tower6(ctx: &Ctx, rng: &mut Rng) {
    let (f, va, _vb, a, _b) = ring_forms!(ctx, rng, "fq6", fq6, v6, 6, Fq6);
    let ex = |w: &str, got: &Fq6, want: &El| {
        let g = v6(ctx, w, got);
        ctx.check(&g == want, &format!("{}:fq6:{}", VARIANT, w), || format!("{} fq6 {} of {:x?}: got {:x?} expected {:x?}", VARIANT, w, va, g, want));
    };
    let mut v = t_zero(6);
    v[2] = BigUint::from(1u8);
    let mut x = a;
    x.mul_by_nonresidue();
    ex("mul_by_nonresidue", &x, &t_mul(&f, &va, &v));
    let mut x = a;
    x.mul_by_v();
    ex("mul_by_v", &x, &t_mul(&f, &va, &v));
    let (s0, s1) = (tower_value(rng, &f, 2), tower_value(rng, &f, 2));
    let mut x = a;
    x.mul_by_1(&fq2(&s1));
    ex("mul_by_1", &x, &t_mul(&f, &va, &[&t_zero(2)[..], &s1, &t_zero(2)].concat()));
    let mut x = a;
    x.mul_by_01(&fq2(&s0), &fq2(&s1));
    ex("mul_by_01", &x, &t_mul(&f, &va, &[&s0[..], &s1, &t_zero(2)].concat()));
}

pub fn tower12(ctx: &Ctx, rng: &mut Rng) {
    let (f, va, _vb, a, _b) = ring_forms!(ctx, rng, "fq12", fq12, v12, 12, Fq12);
    let ex = |w: &str, got: &Fq12, want: &El| {
        let g = v12(ctx, w, got);
        ctx.check(&g == want, &format!("{}:fq12:{}", VARIANT, w), || format!("{} fq12 {} of {:x?}: got {:x?} expected {:x?}", VARIANT, w, va, g, want));
    };
    let (s0, s1, s4) = (tower_value(rng, &f, 2), tower_value(rng, &f, 2), tower_value(rng, &f, 2));
    let z = t_zero(2);
    let mut x = a;
    x.mul_by_014(&fq2(&s0), &fq2(&s1), &fq2(&s4));
    ex("mul_by_014", &x, &t_mul(&f, &va, &[&s0[..], &s1, &z, &z, &s4, &z].concat()));
    let mut x = a;
    x.mul_by_034(&fq2(&s0), &fq2(&s1), &fq2(&s4));
    ex("mul_by_034", &x, &t_mul(&f, &va, &[&s0[..], &z, &z, &s1, &s4, &z].concat()));
    let mut x = a;
    x.conjugate();
    let mut c = va.clone();
    for y in c[6..].iter_mut() {
        *y = f.neg(y);
    }
    ex("conjugate", &x, &c);
}

/// Frobenius of the towers against exponentiation by q, squaring in the cyclotomic subgroup
pub fn frobenius(ctx: &Ctx, rng: &mut Rng) {
    let f = Fp::new(BN_Q);
    let q = f.p.clone();
    let va: El = (0..12).map(|_| value(rng, &f)).collect();
    let a = fq12(&va);
    ctx.eval(Some(hash_bytes(&va.iter().flat_map(|x| to_le(x, 32)).collect::<Vec<_>>())));
    let mut p12 = va.clone();
    let mut p6: El = va[..6].to_vec();
    let mut powers = vec![];
    for k in 0..=12usize {
        let mut x = a;
        x.frobenius_map(k);
        let g = v12(ctx, "frobenius", &x);
        ctx.check(g == p12, &format!("{}:fq12:frobenius", VARIANT), || format!("{} fq12 frobenius power {} of {:x?}", VARIANT, k, va));
        let mut x = a.c0;
        x.frobenius_map(k);
        let g = v6(ctx, "frobenius", &x);
        ctx.check(g == p6, &format!("{}:fq6:frobenius", VARIANT), || format!("{} fq6 frobenius power {} of {:x?}", VARIANT, k, &va[..6]));
        powers.push(p12.clone());
        if k == 1 && !ctx.thorough() && rng.chance(2, 3) {
            break;
        }
        p12 = t_pow(&f, &p12, &q);
        p6 = t_pow(&f, &p6, &q);
        ctx.count("frobenius_powers");
    }
    // cyclotomic element: y = conj(x)/x, z = y^(q^2) * y
    if let Some(i) = Option::<Fq12>::from(a.invert()) {
        let mut c = a;
        c.conjugate();
        let vy = t_mul(&f, &v12(ctx, "c", &c), &v12(ctx, "i", &i));
        let vz = t_mul(&f, &t_pow(&f, &t_pow(&f, &vy, &q), &q), &vy);
        let mut z = fq12(&vz);
        z.cyclotomic_square();
        let g = v12(ctx, "cyclotomic_square", &z);
        ctx.check(g == t_mul(&f, &vz, &vz), &format!("{}:fq12:cyclotomic_square", VARIANT), || format!("{} cyclotomic square of {:x?}", VARIANT, vz));
        ctx.count("cyclotomic");
    }
    let _ = powers;
}

#[allow(dead_code)]
fn _unused(_: &Fq) {}

pub fn run_c13(ctx: &Ctx, n_fast: usize, n_slow: usize, n_tower: usize, n_frob: usize) {
    bn_fr::consts(ctx);
    bn_fq::consts(ctx);
    secp_fp::consts(ctx);
    secp_fq::consts(ctx);
    ctx.cases(&format!("{}-fast", VARIANT), n_fast / 4, n_fast, |i, rng| match i % 4 {
        0 => bn_fr::case(ctx, rng),
        1 => bn_fq::case(ctx, rng),
        2 => secp_fp::case(ctx, rng),
        _ => secp_fq::case(ctx, rng),
    });
    ctx.cases(&format!("{}-slow", VARIANT), n_slow / 4, n_slow, |i, rng| match i % 4 {
        0 => bn_fr::slow(ctx, rng),
        1 => bn_fq::slow(ctx, rng),
        2 => secp_fp::slow(ctx, rng),
        _ => secp_fq::slow(ctx, rng),
    });
    ctx.cases(&format!("{}-tower", VARIANT), n_tower / 4, n_tower, |i, rng| match i % 4 {
        0 | 1 => tower2(ctx, rng),
        2 => tower6(ctx, rng),
        _ => tower12(ctx, rng),
    });
    ctx.cases(&format!("{}-frobenius", VARIANT), 8, n_frob, |_, rng| frobenius(ctx, rng));
    ctx.count(&format!("variant_{}", VARIANT));
}
