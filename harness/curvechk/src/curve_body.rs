// C14 / C15 body, over both builds: `hc` is the crate under test.
use group::cofactor::CofactorGroup;
use group::prime::PrimeCurveAffine;
use group::{Curve as _, Group as _, GroupEncoding};
use hc::bn256::{Fr, G1Affine, G2Affine, G1, G2};
use hc::pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use hc::secp256k1::{Secp256k1, Secp256k1Affine};
use hc::{CurveAffine, CurveAffineExt, CurveExt};

fn fq1(v: &[BigUint]) -> Fq {
    bn_fq::to_el(&v[0])
}
fn v1(ctx: &Ctx, w: &str, x: &Fq) -> El {
    vec![bn_fq::val(ctx, w, x)]
}
fn sp1(v: &[BigUint]) -> hc::secp256k1::Fp {
    secp_fp::to_el(&v[0])
}
fn vsp1(ctx: &Ctx, w: &str, x: &hc::secp256k1::Fp) -> El {
    vec![secp_fp::val(ctx, w, x)]
}
/// encoded size and sign bit: bytes of x, then the sign of y in the top bit of the last byte
fn encode_ref(p: &Pt, size: usize) -> Vec<u8> {
    let mut out = vec![0u8; size];
    if let Some((x, y)) = p {
        for (i, c) in x.iter().enumerate() {
            out[32 * i..32 * i + 32].copy_from_slice(&to_le(c, 32));
        }
        if y[0].bit(0) {
            out[size - 1] |= 0x80;
        }
    }
    out
}
fn show(p: &Pt) -> String {
    match p {
        None => "identity".into(),
        Some((x, y)) => format!("({:x?}, {:x?})", x, y).replace("BigUint", ""),
    }
}
fn scalar(rng: &mut Rng, r: &BigUint) -> BigUint {
    let k = BigUint::from(rng.below(20) as u32);
    match rng.below(9) {
        0 => k,
        1 => r - BigUint::from(1u8) - k,
        2 => (r >> 1usize) + k,
        3 => {
            let s = rng.below(254);
            ((BigUint::from(1u8) << s) + k) % r
        }
        4 => le(&rng.bytes(16)),
        5 => (BigUint::from(1u8) << rng.range(1, 253)) - BigUint::from(1u8),
        _ => le(&rng.bytes(40)) % r,
    }
}

macro_rules! curve {
    ($m:ident, $G:ty, $A:ty, $S:ident, $ORD:expr, $FP:expr, $deg:expr, $mk:ident, $v:ident, $b:expr, $gen:expr, $size:expr) => {
        pub mod $m {
            use super::*;
            pub struct W {
                pub c: refmath::Curve,
                pub r: BigUint,
                pub pool: Vec<Pt>,
            }
            pub fn mkp(p: &Pt) -> $A {
                match p {
                    None => <$A>::identity(),
                    Some((x, y)) => <$A>::from_raw_bytes_unchecked(&[$mk(x).to_raw_bytes(), $mk(y).to_raw_bytes()].concat()),
                }
            }
            pub fn mkj(x: &El, y: &El, z: &El) -> $G {
                <$G>::from_raw_bytes_unchecked(&[$mk(x).to_raw_bytes(), $mk(y).to_raw_bytes(), $mk(z).to_raw_bytes()].concat())
            }
            pub fn va(ctx: &Ctx, p: &$A) -> Pt {
                let (x, y) = ($v(ctx, "affine", &p.x), $v(ctx, "affine", &p.y));
                if is_zero(&x) && is_zero(&y) {
                    None
                } else {
                    Some((x, y))
                }
            }
            pub fn vj(ctx: &Ctx, w: &W, p: &$G) -> Pt {
                let f = &w.c.f;
                let (x, y, z) = ($v(ctx, "jacobian", &p.x), $v(ctx, "jacobian", &p.y), $v(ctx, "jacobian", &p.z));
                t_inv(f, &z).map(|i| {
                    let i2 = t_mul(f, &i, &i);
                    (t_mul(f, &x, &i2), t_mul(f, &y, &t_mul(f, &i2, &i)))
                })
            }
            fn base_value(rng: &mut Rng, f: &Fp) -> El {
                if $deg == 1 {
                    vec![value(rng, f)]
                } else {
                    tower_value(rng, f, 2)
                }
            }
            pub fn rep(w: &W, rng: &mut Rng, p: &Pt) -> $G {
                let f = &w.c.f;
                match p {
                    None => match rng.below(3) {
                        0 => mkj(&t_zero($deg), &t_zero($deg), &t_zero($deg)),
                        1 => mkj(&t_one($deg), &t_one($deg), &t_zero($deg)),
                        _ => mkj(&base_value(rng, f), &base_value(rng, f), &t_zero($deg)),
                    },
                    Some((x, y)) => {
                        let mut z = match rng.below(4) {
                            0 => t_one($deg),
                            1 => t_neg(f, &t_one($deg)),
                            _ => base_value(rng, f),
                        };
                        if is_zero(&z) {
                            z = t_one($deg);
                        }
                        let z2 = t_mul(f, &z, &z);
                        mkj(&t_mul(f, x, &z2), &t_mul(f, y, &t_mul(f, &z2, &z)), &z)
                    }
                }
            }
            /// a reference world: generator multiples, plus curve points found by decoding
            pub fn world(ctx: &Ctx) -> W {
                let f = Fp::new($FP);
                let b: El = $b;
                let c = refmath::Curve { f: f.clone(), b };
                let r = big($ORD);
                let g: Pt = $gen;
                let (gx, gy) = g.as_ref().unwrap();
                assert!(c.on_curve(gx, gy), "reference generator is off the reference curve");
                ctx.check(va(ctx, &<$A>::generator()) == g, &format!("{}:{}:generator", VARIANT, stringify!($m)), || format!("{:?}", <$A>::generator()));
                ctx.check(vj(ctx, &W { c: c.clone(), r: r.clone(), pool: vec![] }, &<$G>::generator()) == g, &format!("{}:{}:generator", VARIANT, stringify!($m)), || "projective generator".into());
                let mut rng = Rng::new(ctx.seed, "curve-world", 0);
                let mut pool = vec![g.clone()];
                let mut p = g.clone();
                for _ in 0..5 {
                    p = c.add(&p, &g);
                    pool.push(p.clone());
                }
                for _ in 0..6 {
                    let k = scalar(&mut rng, &r);
                    pool.push(c.mul(&g, &k));
                }
                pool.push(c.mul(&g, &(&r - BigUint::from(1u8))));
                assert!(c.mul(&g, &r).is_none());
                // points with a small or edge x
                let mut found = 0;
                for i in 0..60u32 {
                    let mut e = <$G as GroupEncoding>::Repr::default();
                    let x = if i < 30 { to_le(&BigUint::from(i), 32) } else { to_le(&value(&mut rng, &f), 32) };
                    e.as_mut()[..32].copy_from_slice(&x);
                    if rng.bool() {
                        e.as_mut()[$size - 1] |= 0x80;
                    }
                    if let Some(p) = Option::<$A>::from(<$A>::from_bytes(&e)) {
                        if let Some((x, y)) = va(ctx, &p) {
                            ctx.check(c.on_curve(&x, &y), &format!("{}:{}:decode-off-curve", VARIANT, stringify!($m)), || format!("{:?}", p));
                            pool.push(Some((x, y)));
                            found += 1;
                        }
                    }
                }
                ctx.check(found >= 10, &format!("{}:{}:decode-refuses-points", VARIANT, stringify!($m)), || format!("only {} of 60 x coordinates decoded", found));
                W { c, r, pool }
            }
            pub fn pick(w: &W, rng: &mut Rng) -> Pt {
                let p = rng.pick(&w.pool).clone();
                let p = if rng.bool() { w.c.neg(&p) } else { p };
                match rng.below(8) {
                    0 => None,
                    1 | 2 => w.c.add(&p, rng.pick(&w.pool)),
                    _ => p,
                }
            }
            pub fn case(ctx: &Ctx, w: &W, rng: &mut Rng) {
                let name = stringify!($m);
                let c = &w.c;
                let p = pick(w, rng);
                let q = match rng.below(8) {
                    0 => p.clone(),
                    1 => c.neg(&p),
                    2 => c.add(&p, &p),
                    3 => None,
                    _ => pick(w, rng),
                };
                let (a, b) = (rep(w, rng, &p), rep(w, rng, &q));
                let (aa, ba) = (mkp(&p), mkp(&q));
                ctx.eval(Some(hash_bytes(&[a.to_raw_bytes(), b.to_raw_bytes()].concat())));
                ctx.count(concat!("group_", stringify!($m)));
                let ex = |what: &str, got: &$G, want: &Pt| {
                    let g = vj(ctx, w, got);
                    ctx.check(&g == want, &format!("{}:{}:{}", VARIANT, name, what), || format!("{} {} {} of {} [{:?}] and {} [{:?}]: got {}, expected {}", VARIANT, name, what, show(&p), a, show(&q), b, show(&g), show(want)));
                };
                let exa = |what: &str, got: &$A, want: &Pt| {
                    let g = va(ctx, got);
                    ctx.check(&g == want, &format!("{}:{}:{}", VARIANT, name, what), || format!("{} {} {} of {} [{:?}] and {} [{:?}]: got {}, expected {}", VARIANT, name, what, show(&p), a, show(&q), b, show(&g), show(want)));
                };
                let is = |what: &str, got: bool, want: bool| {
                    ctx.check(got == want, &format!("{}:{}:{}", VARIANT, name, what), || format!("{} {} {} of {} [{:?}] and {} [{:?}]: {}", VARIANT, name, what, show(&p), a, show(&q), b, got));
                };
                let sum = c.add(&p, &q);
                let nq = c.neg(&q);
                let dif = c.add(&p, &nq);
                ex("add jj", &(a + b), &sum);
                ex("add jj", &(&a + &b), &sum);
                ex("add ja", &(a + ba), &sum);
                ex("add ja", &(&a + &ba), &sum);
                ex("add aj", &(aa + b), &sum);
                ex("add aj", &(&aa + &b), &sum);
                ex("add aa", &(aa + ba), &sum);
                ex("add aa", &(&aa + &ba), &sum);
                ex("sub jj", &(a - b), &dif);
                ex("sub jj", &(&a - &b), &dif);
                ex("sub ja", &(a - ba), &dif);
                ex("sub aj", &(aa - b), &dif);
                ex("sub aj", &(&aa - &b), &dif);
                ex("sub aa", &(aa - ba), &dif);
                ex("sub aa", &(&aa - &ba), &dif);
                let mut x = a;
                x += b;
                ex("add_assign j", &x, &sum);
                x -= &b;
                ex("sub_assign j", &x, &p);
                x += ba;
                ex("add_assign a", &x, &sum);
                x -= &ba;
                ex("sub_assign a", &x, &p);
                hc::Group::group_add(&mut x, &b);
                ex("group_add", &x, &sum);
                hc::Group::group_sub(&mut x, &b);
                ex("group_sub", &x, &p);
                ex("double", &a.double(), &c.add(&p, &p));
                ex("neg", &(-a), &c.neg(&p));
                ex("neg", &(-&a), &c.neg(&p));
                exa("neg a", &(-aa), &c.neg(&p));
                exa("to_affine", &a.to_affine(), &p);
                exa("to_affine", &<$A>::from(a), &p);
                exa("to_affine", &<$A>::from(&a), &p);
                ex("to_curve", &aa.to_curve(), &p);
                ex("to_curve", &<$G>::from(aa), &p);
                ex("to_curve", &<$G>::from(&aa), &p);
                ex("identity", &<$G>::identity(), &None);
                ex("identity", &<$G as hc::Group>::group_zero(), &None);
                ex("identity", &<$G>::default(), &None);
                exa("identity a", &<$A>::identity(), &None);
                exa("identity a", &<$A>::default(), &None);
                is("eq", a == b, p == q);
                is("ct_eq", bool::from(a.ct_eq(&b)), p == q);
                is("eq a", aa == ba, p == q);
                is("ct_eq a", bool::from(aa.ct_eq(&ba)), p == q);
                is("eq rep", a == rep(w, rng, &p), true);
                is("is_identity", bool::from(a.is_identity()), p.is_none());
                is("is_identity a", bool::from(aa.is_identity()), p.is_none());
                is("is_on_curve", bool::from(a.is_on_curve()) && bool::from(aa.is_on_curve()) && bool::from((a + b).is_on_curve()) && bool::from((aa + ba).is_on_curve()), true);
                let ch = rng.bool();
                let cc = Choice::from(ch as u8);
                ex("select", &<$G>::conditional_select(&a, &b, cc), if ch { &q } else { &p });
                exa("select a", &<$A>::conditional_select(&aa, &ba, cc), if ch { &q } else { &p });
                let cl = aa.into_coordinates();
                is("into_coordinates", cl == (aa.x, aa.y), true);
                let (jx, jy, jz) = a.jacobian_coordinates();
                is("jacobian_coordinates", (jx, jy, jz) == (a.x, a.y, a.z), true);

                // sums and batch normalisation over mixed lists
                let n = rng.below(7);
                let pts: Vec<Pt> = (0..n).map(|_| if rng.chance(1, 3) { p.clone() } else { pick(w, rng) }).collect();
                let gs: Vec<$G> = pts.iter().map(|t| rep(w, rng, t)).collect();
                let want = pts.iter().fold(None, |s, t| c.add(&s, t));
                ex("sum", &gs.iter().sum::<$G>(), &want);
                ex("sum", &gs.iter().cloned().sum::<$G>(), &want);
                let mut out = vec![mkp(&q); n];
                <$G as group::Curve>::batch_normalize(&gs, &mut out);
                for (o, t) in out.iter().zip(&pts) {
                    exa("batch_normalize", o, t);
                }
                // coordinates off the curve are refused, on the curve accepted
                let f = &c.f;
                let (x, y) = match rng.below(3) {
                    0 => (base_value(rng, f), base_value(rng, f)),
                    1 => q.clone().map(|(x, y)| (x, t_add(f, &y, &t_one($deg)))).unwrap_or((t_one($deg), t_zero($deg))),
                    _ => q.clone().unwrap_or((t_zero($deg), t_zero($deg))),
                };
                let on = (is_zero(&x) && is_zero(&y)) || c.on_curve(&x, &y);
                let o: Option<$A> = <$A>::from_xy($mk(&x), $mk(&y)).into();
                is("from_xy", o.is_some(), on);
                if let Some(o) = o {
                    is("from_xy value", (o.x, o.y) == ($mk(&x), $mk(&y)), true);
                }
                let mut jx = $v(ctx, "x", &a.x);
                let good = rng.bool();
                if !good {
                    jx = t_add(f, &jx, &t_one($deg));
                }
                let want = p.is_none() || {
                    let (y, z) = ($v(ctx, "y", &a.y), $v(ctx, "z", &a.z));
                    let z2 = t_mul(f, &z, &z);
                    let z6 = t_mul(f, &t_mul(f, &z2, &z2), &z2);
                    t_mul(f, &y, &y) == t_add(f, &t_mul(f, &t_mul(f, &jx, &jx), &jx), &t_mul(f, &z6, &c.b))
                };
                let o: Option<$G> = <$G>::new_jacobian($mk(&jx), a.y, a.z).into();
                is("new_jacobian", o.is_some(), want);
            }
            pub fn muls(ctx: &Ctx, w: &W, rng: &mut Rng) {
                let name = stringify!($m);
                let c = &w.c;
                let p = pick(w, rng);
                let k = scalar(rng, &w.r);
                let s = $S::to_el(&k);
                let a = rep(w, rng, &p);
                let aa = mkp(&p);
                ctx.eval(Some(hash_bytes(&[a.to_raw_bytes(), to_le(&k, 32)].concat())));
                let want = c.mul(&p, &k);
                let mut x = a;
                x *= s;
                let mut y = a;
                hc::Group::group_scale(&mut y, &s);
                for (i, g) in [a * s, &a * &s, aa * s, &aa * &s, x, y].iter().enumerate() {
                    let got = vj(ctx, w, g);
                    ctx.check(got == want, &format!("{}:{}:mul{}", VARIANT, name, i), || format!("{} {} {:x} * {}: got {}, expected {}", VARIANT, name, k, show(&p), show(&got), show(&want)));
                }
                ctx.count("mul");
            }
            pub fn randoms(ctx: &Ctx, w: &W, rng: &mut Rng) {
                let a = <$G as group::Group>::random(&mut *rng);
                let b = <$A>::random(&mut *rng);
                for p in [vj(ctx, w, &a), va(ctx, &b)] {
                    let ok = match &p {
                        None => true,
                        Some((x, y)) => w.c.on_curve(x, y) && w.c.mul(&p, &w.r).is_none(),
                    };
                    ctx.check(ok, &format!("{}:{}:random", VARIANT, stringify!($m)), || format!("random point outside the group: {}", show(&p)));
                }
                ctx.count("random_points");
            }
            pub fn codec(ctx: &Ctx, w: &W, rng: &mut Rng) {
                let name = stringify!($m);
                let c = &w.c;
                let p = pick(w, rng);
                let (a, aa) = (rep(w, rng, &p), mkp(&p));
                let want = encode_ref(&p, $size);
                let sig = |s: &str| format!("{}:{}:{}", VARIANT, name, s);
                for got in [a.to_bytes(), aa.to_bytes()] {
                    ctx.check(got.as_ref() == &want[..], &sig("to_bytes"), || format!("{} encodes as {}, expected {}", show(&p), hex(got.as_ref()), hex(&want)));
                }
                // a byte string around a valid encoding
                let mut e = want.clone();
                match rng.below(9) {
                    0 => {}
                    1 => e[$size - 1] ^= 0x80,
                    2 => {
                        let i = rng.below($size);
                        e[i] ^= 1 << rng.below(8);
                    }
                    3 => e[$size - 1] ^= 1 << rng.below(8),
                    4 => e = rng.bytes($size),
                    5 => {
                        // x + modulus in some coordinate
                        let i = rng.below($deg);
                        let v = le(&e[32 * i..32 * i + 32]) + &c.f.p;
                        if v.bits() <= 256 {
                            e[32 * i..32 * i + 32].copy_from_slice(&to_le(&v, 32));
                        }
                    }
                    6 => {
                        e = vec![0; $size];
                        e[$size - 1] = rng.below(256) as u8;
                    }
                    7 => {
                        let i = rng.below($deg);
                        let v = &c.f.p + BigUint::from(rng.below(3) as u32) - BigUint::from(1u8);
                        e[32 * i..32 * i + 32].copy_from_slice(&to_le(&v, 32));
                    }
                    _ => {
                        let i = rng.below($deg);
                        e[32 * i..32 * i + 32].copy_from_slice(&to_le(&value(rng, &c.f), 32));
                    }
                }
                ctx.eval(Some(hash_bytes(&e)));
                let mut r = <$A as GroupEncoding>::Repr::default();
                r.as_mut().copy_from_slice(&e);
                // reference verdict: canonical x below the modulus in every coordinate, x^3+b a square
                let sign = e[$size - 1] >> 7 == 1;
                let mut m = e.clone();
                m[$size - 1] &= 0x7f;
                let x: El = (0..$deg).map(|i| le(&m[32 * i..32 * i + 32])).collect();
                let rest_zero = m[32 * $deg..].iter().all(|b| *b == 0);
                let ident = e.iter().all(|b| *b == 0);
                let canonical = x.iter().all(|v| v < &c.f.p) && rest_zero;
                let ok = canonical && (ident || t_is_square(&c.f, &c.rhs(&x)));
                ctx.count(if ok { "decode_valid" } else { "decode_invalid" });
                for j in 0..4 {
                    let got: Out<Option<Pt>> = guard(|| match j {
                        0 => Option::<$A>::from(<$A>::from_bytes(&r)).map(|p| va(ctx, &p)),
                        1 => Option::<$G>::from(<$G>::from_bytes(&r)).map(|p| vj(ctx, w, &p)),
                        2 => Option::<$A>::from(<$A>::from_bytes_unchecked(&r)).map(|p| va(ctx, &p)),
                        _ => Option::<$G>::from(<$G>::from_bytes_unchecked(&r)).map(|p| vj(ctx, w, &p)),
                    });
                    if j >= 2 && !ok {
                        continue; // the unchecked forms promise nothing on bad input
                    }
                    match got {
                        Out::Panic(m) => ctx.violation(&sig("from_bytes panic"), format!("{} from_bytes({}) panicked: {}", name, hex(&e), m)),
                        Out::Ok(got) => {
                            ctx.check(got.is_some() == ok, &sig("from_bytes verdict"), || format!("{} from_bytes({}) = {:?}, expected {}", name, hex(&e), got.as_ref().map(show), if ok { "a point" } else { "refusal" }));
                            if let Some(g) = got {
                                let good = match &g {
                                    None => ident,
                                    Some((gx, gy)) => *gx == x && c.on_curve(gx, gy) && gy[0].bit(0) == sign,
                                };
                                ctx.check(good, &sig("from_bytes value"), || format!("{} from_bytes({}) = {}", name, hex(&e), show(&g)));
                            }
                        }
                    }
                }
                // raw forms
                let raw = aa.to_raw_bytes();
                let rawj = a.to_raw_bytes();
                for (tag, r, n) in [("affine", raw, 2usize), ("jacobian", rawj, 3)] {
                    let mut e = r.clone();
                    match rng.below(7) {
                        0 | 1 => {}
                        2 => {
                            let i = rng.below(e.len());
                            e[i] ^= 1 << rng.below(8);
                        }
                        3 => {
                            let i = rng.below(e.len() / 32);
                            let v = le(&e[32 * i..32 * i + 32]) + &c.f.p;
                            if v.bits() <= 256 {
                                e[32 * i..32 * i + 32].copy_from_slice(&to_le(&v, 32));
                            }
                        }
                        4 => {
                            let i = rng.below(e.len() / 32);
                            e[32 * i..32 * i + 32].copy_from_slice(&to_le(&value(rng, &c.f), 32));
                        }
                        5 => {
                            let l = rng.below(e.len());
                            e.truncate(l)
                        }
                        _ => e.extend_from_slice(&[7, 7, 7]),
                    }
                    let full = n * 32 * $deg;
                    let off = |e: &[u8]| -> bool {
                        // true if the (complete, canonical) coordinates are off the curve
                        let rinv = c.f.inv(&c.f.red(&(BigUint::from(1u8) << 256usize))).unwrap();
                        let co: Vec<El> = (0..n).map(|i| (0..$deg).map(|d| c.f.mul(&le(&e[32 * ($deg * i + d)..][..32]), &rinv)).collect()).collect();
                        let f = &c.f;
                        if n == 2 {
                            !(is_zero(&co[0]) && is_zero(&co[1])) && !c.on_curve(&co[0], &co[1])
                        } else {
                            let z2 = t_mul(f, &co[2], &co[2]);
                            let z6 = t_mul(f, &t_mul(f, &z2, &z2), &z2);
                            !is_zero(&co[2]) && t_mul(f, &co[1], &co[1]) != t_add(f, &t_mul(f, &t_mul(f, &co[0], &co[0]), &co[0]), &t_mul(f, &z6, &c.b))
                        }
                    };
                    let canon = |e: &[u8]| (0..full / 32).all(|i| le(&e[32 * i..32 * i + 32]) < c.f.p);
                    let readable = e.len() >= full && canon(&e) && !off(&e);
                    let exact = e.len() == full && readable;
                    if e.len() >= full && canon(&e) && !readable {
                        ctx.count("off_curve_raw");
                    }
                    ctx.count(if readable { "raw_valid" } else { "raw_invalid" });
                    let got: Out<(Option<Vec<u8>>, Option<(Vec<u8>, usize)>)> = guard(|| {
                        let mut rd: &[u8] = &e;
                        if n == 2 {
                            (<$A>::from_raw_bytes(&e).map(|p| p.to_raw_bytes()), <$A>::read_raw(&mut rd).ok().map(|p| (p.to_raw_bytes(), rd.len())))
                        } else {
                            (<$G>::from_raw_bytes(&e).map(|p| p.to_raw_bytes()), <$G>::read_raw(&mut rd).ok().map(|p| (p.to_raw_bytes(), rd.len())))
                        }
                    });
                    match got {
                        Out::Panic(m) => ctx.violation(&sig("raw panic"), format!("{} {} raw decoding of {} panicked: {}", name, tag, hex(&e), m)),
                        Out::Ok((fr, rr)) => {
                            ctx.check(fr.is_some() == exact && fr.iter().all(|b| *b == e), &sig(&format!("from_raw_bytes {}", tag)), || format!("{} {} from_raw_bytes({}) accepted={}, expected {}", name, tag, hex(&e), fr.is_some(), exact));
                            ctx.check(rr.is_some() == readable && rr.iter().all(|(b, left)| b[..] == e[..full] && *left == e.len() - full), &sig(&format!("read_raw {}", tag)), || format!("{} {} read_raw({}) accepted={}, expected {}", name, tag, hex(&e), rr.is_some(), readable));
                        }
                    }
                    if readable {
                        let mut rd: &[u8] = &e;
                        let back = if n == 2 { <$A>::read_raw_unchecked(&mut rd).to_raw_bytes() } else { <$G>::read_raw_unchecked(&mut rd).to_raw_bytes() };
                        ctx.check(back[..] == e[..full], &sig("read_raw_unchecked"), || hex(&e));
                    }
                }
            }
            /// pairwise batched affine addition
            pub fn batch(ctx: &Ctx, w: &W, rng: &mut Rng) {
                let c = &w.c;
                let pairs = rng.range(1, 6);
                let offset = rng.below(4);
                let load = rng.bool();
                let complete = rng.bool();
                let mut want = vec![];
                let mut bases = vec![];
                let mut pos = vec![];
                let mut points = vec![<$A>::identity(); 3 * pairs];
                let mut outs = vec![];
                let mut rows: Vec<Pt> = vec![];
                for i in 0..pairs {
                    let (p, q) = loop {
                        let p = pick(w, rng);
                        let q = match rng.below(5) {
                            0 => p.clone(),
                            1 => c.neg(&p),
                            _ => pick(w, rng),
                        };
                        if complete {
                            break (p, q);
                        }
                        if let (Some((x, _)), Some((y, _))) = (&p, &q) {
                            if x != y {
                                break (p, q);
                            }
                        }
                    };
                    want.push(c.add(&p, &q));
                    outs.push((2 * pairs + i + offset) as u32);
                    for t in [p, q] {
                        if load {
                            let neg = rng.bool();
                            bases.push(mkp(&if neg { c.neg(&t) } else { t.clone() }));
                            pos.push((bases.len() - 1) as u32 | if neg { 0x8000_0000 } else { 0 });
                        }
                        rows.push(t);
                    }
                }
                if !load {
                    for (i, t) in rows.iter().enumerate() {
                        points[i] = mkp(t);
                    }
                }
                let n = 2 * pairs;
                match (complete, load) {
                    (true, true) => <$A>::batch_add::<true, true>(&mut points, &outs, n, offset, &bases, &pos),
                    (true, false) => <$A>::batch_add::<true, false>(&mut points, &outs, n, offset, &bases, &pos),
                    (false, true) => <$A>::batch_add::<false, true>(&mut points, &outs, n, offset, &bases, &pos),
                    (false, false) => <$A>::batch_add::<false, false>(&mut points, &outs, n, offset, &bases, &pos),
                }
                for i in 0..pairs {
                    let got = va(ctx, &points[2 * pairs + i]);
                    ctx.check(got == want[i], &format!("{}:{}:batch_add {} {}", VARIANT, stringify!($m), complete, load), || format!("{} + {}: got {}, expected {}", show(&rows[2 * i]), show(&rows[2 * i + 1]), show(&got), show(&want[i])));
                }
                ctx.count("batch_add");
            }
        }
    };
}

fn one_big(x: u32) -> El {
    vec![BigUint::from(x)]
}
fn g2_gen() -> Pt {
    Some((
        vec![big("1800deef121f1e76426a00665e5c4479674322d4f75edadd46debd5cd992f6ed"), big("198e9393920d483a7260bfb731fb5d25f1aa493335a9e71297e485b7aef312c2")],
        vec![big("12c85ea5db8c6deb4aab71808dcb408fe3d1e7690c43d37b4ce6cc0166fa7daa"), big("090689d0585ff075ec9e99ad690c3395bc4b313370b38ef355acdadcd122975b")],
    ))
}
fn g2_b() -> El {
    vec![big("2b149d40ceb8aaae81be18991be06ac3b5b4c5e559dbefa33267e6dc24a138e5"), big("009713b03af0fed4cd2cafadeed8fdf4a74fa084e52d1852e4a2bd0685c315d2")]
}
fn secp_gen() -> Pt {
    Some((
        vec![big("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")],
        vec![big("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")],
    ))
}
curve!(g1, G1, G1Affine, bn_fr, BN_R, BN_Q, 1, fq1, v1, one_big(3), Some((one_big(1), one_big(2))), 32);
curve!(g2, G2, G2Affine, bn_fr, BN_R, BN_Q, 2, fq2, v2, g2_b(), g2_gen(), 64);
curve!(secp, Secp256k1, Secp256k1Affine, secp_fq, SECP_N, SECP_P, 1, sp1, vsp1, one_big(7), secp_gen(), 33);

pub fn run_c14(ctx: &Ctx, n: usize) {
    let (w1, w2, w3) = (g1::world(ctx), g2::world(ctx), secp::world(ctx));
    ctx.cases(&format!("{}-group", VARIANT), n / 4, n, |i, rng| match i % 3 {
        0 => g1::case(ctx, &w1, rng),
        1 => g2::case(ctx, &w2, rng),
        _ => secp::case(ctx, &w3, rng),
    });
    ctx.cases(&format!("{}-codec", VARIANT), n, 4 * n, |i, rng| match i % 3 {
        0 => g1::codec(ctx, &w1, rng),
        1 => g2::codec(ctx, &w2, rng),
        _ => secp::codec(ctx, &w3, rng),
    });
    ctx.cases(&format!("{}-mul", VARIANT), n / 8, n / 2, |i, rng| match i % 3 {
        0 => g1::muls(ctx, &w1, rng),
        1 => g2::muls(ctx, &w2, rng),
        _ => secp::muls(ctx, &w3, rng),
    });
    ctx.cases(&format!("{}-batch", VARIANT), n / 8, n, |i, rng| match i % 3 {
        0 => g1::batch(ctx, &w1, rng),
        1 => g2::batch(ctx, &w2, rng),
        _ => secp::batch(ctx, &w3, rng),
    });
    ctx.cases(&format!("{}-random", VARIANT), 6, n / 50, |i, rng| match i % 3 {
        0 => g1::randoms(ctx, &w1, rng),
        1 => g2::randoms(ctx, &w2, rng),
        _ => secp::randoms(ctx, &w3, rng),
    });
    // endomorphism of G1: a fixed multiple of every point
    let f = Fp::new(BN_R);
    let g = G1::generator();
    let e = g1::vj(ctx, &w1, &g.endo());
    let (gx, gy): (El, El) = (one_big(1), one_big(2));
    let base = &w1.c.f;
    let third = BigUint::from(3u8);
    let cube = |x: &BigUint, f: &Fp| f.pow(x, &third);
    let okshape = match &e {
        Some((x, y)) => *x != gx && cube(&base.mul(&x[0], &base.inv(&gx[0]).unwrap()), base) == BigUint::from(1u8) && (*y == gy || *y == t_neg(base, &gy)),
        None => false,
    };
    ctx.check(okshape, &format!("{}:endo shape", VARIANT), || show(&e));
    // the two primitive cube roots of one in the scalar field, and their negatives
    let root = (2u32..50).map(|k| f.pow(&BigUint::from(k), &((&f.p - BigUint::from(1u8)) / 3u8))).find(|r| *r != BigUint::from(1u8)).unwrap();
    let cands = [root.clone(), f.mul(&root, &root), f.neg(&root), f.neg(&f.mul(&root, &root))];
    let lam = cands.iter().find(|l| w1.c.mul(&Some((gx.clone(), gy.clone())), l) == e).cloned();
    ctx.check(lam.is_some(), &format!("{}:endo scalar", VARIANT), || "the endomorphism of the generator is no cube-root multiple".into());
    if let Some(l) = lam {
        ctx.cases(&format!("{}-endo", VARIANT), 12, n / 20, |_, rng| {
            let p = g1::pick(&w1, rng);
            let got = g1::vj(ctx, &w1, &g1::rep(&w1, rng, &p).endo());
            let want = w1.c.mul(&p, &l);
            ctx.eval(Some(hash_bytes(show(&p).as_bytes())));
            ctx.check(got == want, &format!("{}:endo", VARIANT), || format!("endo of {} is {}, expected {}", show(&p), show(&got), show(&want)));
            ctx.count("endo");
        });
    }
    // cofactor clearing and the subgroup test on G2
    let h = big("30644e72e131a029b85045b68181585e06ceecda572a2489345f2299c0f9fa8d");
    ctx.cases(&format!("{}-cofactor", VARIANT), 4, n / 50, |i, rng| {
        let p = if i % 2 == 0 { g2::pick(&w2, rng) } else { rng.pick(&w2.pool[13..]).clone() };
        let a = g2::rep(&w2, rng, &p);
        let want = w2.c.mul(&p, &h);
        let got = g2::vj(ctx, &w2, &a.clear_cofactor());
        ctx.check(got == want, &format!("{}:g2:clear_cofactor", VARIANT), || format!("{}: got {}, expected {}", show(&p), show(&got), show(&want)));
        let tf = w2.c.mul(&p, &w2.r).is_none();
        ctx.check(bool::from(a.is_torsion_free()) == tf, &format!("{}:g2:is_torsion_free", VARIANT), || show(&p));
        ctx.count(if tf { "torsion_free" } else { "torsion" });
        let q = g1::pick(&w1, rng);
        let b = g1::rep(&w1, rng, &q);
        ctx.check(b.clear_cofactor() == b && bool::from(b.is_torsion_free()), &format!("{}:g1:clear_cofactor", VARIANT), || show(&q));
        let q = secp::pick(&w3, rng);
        let b = secp::rep(&w3, rng, &q);
        ctx.check(b.clear_cofactor() == b && bool::from(b.is_torsion_free()), &format!("{}:secp:clear_cofactor", VARIANT), || show(&q));
        ctx.count("cofactor_cleared");
    });
}

/// coefficients of a target-group element, read from its debug form (hex values, lowest first)
fn gt_val(g: &hc::bn256::Gt) -> El {
    let s = format!("{:?}", g);
    let v: El = s
        .split("0x")
        .skip(1)
        .map(|t| {
            let h: String = t.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
            big(&h)
        })
        .collect();
    assert_eq!(v.len(), 12, "unexpected debug form {}", s);
    v
}

pub fn run_c15(ctx: &Ctx, n: usize) {
    type Gt = hc::bn256::Gt;
    type E = hc::bn256::Bn256;
    let f = Fp::new(BN_Q);
    let r = big(BN_R);
    let (w1, w2) = (g1::world(ctx), g2::world(ctx));
    let base = E::pairing(&G1Affine::generator(), &G2Affine::generator());
    let vb = gt_val(&base);
    let one = t_one(12);
    ctx.check(vb != one, &format!("{}:degenerate", VARIANT), || "generators pair to one".into());
    ctx.check(t_pow(&f, &vb, &r) == one, &format!("{}:order", VARIANT), || "generator pairing has the wrong order".into());
    ctx.count("order");
    let sig = |s: &str| format!("{}:{}", VARIANT, s);
    // powers of the base, from small fixed steps of the reference
    let pow = |k: &BigUint| t_pow(&f, &vb, k);
    let pt1 = |k: &BigUint| g1::mkp(&w1.c.mul(&w1.pool[0], k));
    let pt2 = |k: &BigUint| g2::mkp(&w2.c.mul(&w2.pool[0], k));
    ctx.cases(&format!("{}-bilinear", VARIANT), 24, n, |_, rng| {
        let (mut a, mut b) = (scalar(rng, &r), scalar(rng, &r));
        match rng.below(12) {
            0 => a = BigUint::from(0u8),
            1 => b = BigUint::from(0u8),
            2 => b = a.clone(),
            _ => {}
        }
        let (p, q) = (pt1(&a), pt2(&b));
        let ab = (&a * &b) % &r;
        let want = pow(&ab);
        ctx.eval(Some(hash_bytes(format!("{} {}", a, b).as_bytes())));
        ctx.count("bilinear");
        if ab == BigUint::from(0u8) {
            ctx.count("identity_terms");
        }
        let g = E::pairing(&p, &q);
        let prep = <E as MultiMillerLoop>::G2Prepared::from(q);
        let forms: [(&str, Gt); 5] = [
            ("pairing", g),
            ("pairing_with", p.pairing_with(&q)),
            ("pairing_with", q.pairing_with(&p)),
            ("prepared", E::multi_miller_loop(&[(&p, &prep)]).final_exponentiation()),
            ("scaled", base * bn_fr::to_el(&ab)),
        ];
        for (w, g) in forms.iter() {
            let got = gt_val(g);
            ctx.check(got == want, &sig(w), || format!("{} e({:x} G1, {:x} G2) is not e(G1,G2)^(ab)", w, a, b));
        }
        ctx.check(bool::from(g.is_identity()) == (want == one), &sig("is_identity"), || format!("{} {}", a, b));
    });
    ctx.cases(&format!("{}-multi", VARIANT), 12, n / 3, |_, rng| {
        let m = rng.range(0, 5);
        let ks: Vec<(BigUint, BigUint)> = (0..m)
            .map(|_| {
                let mut t = (scalar(rng, &r), scalar(rng, &r));
                match rng.below(6) {
                    0 => t.0 = BigUint::from(0u8),
                    1 => t.1 = BigUint::from(0u8),
                    _ => {}
                }
                t
            })
            .collect();
        let mut ks = ks;
        if m >= 2 && rng.chance(1, 3) {
            // a cancelling pair
            let (a, b) = ks[0].clone();
            ks[1] = ((&r - a) % &r, b);
        }
        let pts: Vec<(G1Affine, <E as MultiMillerLoop>::G2Prepared)> = ks.iter().map(|(a, b)| (pt1(a), pt2(b).into())).collect();
        let mut order: Vec<usize> = (0..m).collect();
        rng.shuffle(&mut order);
        let terms: Vec<(&G1Affine, &<E as MultiMillerLoop>::G2Prepared)> = order.iter().map(|i| (&pts[*i].0, &pts[*i].1)).collect();
        let got = gt_val(&E::multi_miller_loop(&terms).final_exponentiation());
        let e = ks.iter().fold(BigUint::from(0u8), |s, (a, b)| (s + a * b) % &r);
        let want = pow(&e);
        ctx.eval(Some(hash_bytes(format!("{:?}{:?}", ks, order).as_bytes())));
        ctx.check(got == want, &sig("multi"), || format!("multi-pairing of {:x?} in order {:?} is not the product", ks, order));
        ctx.add("multi_terms", m as u64);
        ctx.add("identity_terms", ks.iter().filter(|(a, b)| *a == BigUint::from(0u8) || *b == BigUint::from(0u8)).count() as u64);
        // Miller loop values multiply as well: the parts' product after the final exponentiation
        let prod: Gt = terms.iter().map(|t| E::multi_miller_loop(&[*t]).final_exponentiation()).sum();
        ctx.check(gt_val(&prod) == want, &sig("multi sum"), || format!("{:x?}", ks));
    });
    ctx.cases(&format!("{}-gt", VARIANT), 12, n / 2, |_, rng| {
        let (a, b) = (scalar(rng, &r), if rng.chance(1, 8) { BigUint::from(0u8) } else { scalar(rng, &r) });
        let (sa, sb) = (bn_fr::to_el(&a), bn_fr::to_el(&b));
        let (x, y): (Gt, Gt) = (&base * &sa, base * sb);
        let (vx, vy) = (pow(&a), pow(&b));
        ctx.eval(Some(hash_bytes(format!("{} {}", a, b).as_bytes())));
        let ex = |w: &str, g: &Gt, want: &El| {
            let got = gt_val(g);
            ctx.check(got == *want, &sig(&format!("gt {}", w)), || format!("{} with exponents {:x}, {:x}", w, a, b));
        };
        let ny = pow(&((&r - &b) % &r));
        let sum = t_mul(&f, &vx, &vy);
        let dif = t_mul(&f, &vx, &ny);
        ex("mul", &x, &vx);
        ex("mul", &y, &vy);
        ex("add", &(x + y), &sum);
        ex("add", &(&x + &y), &sum);
        ex("sub", &(x - y), &dif);
        ex("sub", &(&x - &y), &dif);
        ex("neg", &(-y), &ny);
        ex("neg", &(-&y), &ny);
        ex("double", &x.double(), &t_mul(&f, &vx, &vx));
        let mut z = x;
        z += y;
        ex("add_assign", &z, &sum);
        z -= &y;
        ex("sub_assign", &z, &vx);
        z *= sb;
        ex("mul_assign", &z, &pow(&((&a * &b) % &r)));
        ex("sum", &[x, y, x].iter().sum::<Gt>(), &t_mul(&f, &sum, &vx));
        ex("identity", &Gt::identity(), &one);
        ex("sub self", &(x - x), &one);
        let c = rng.bool();
        ex("select", &Gt::conditional_select(&x, &y, Choice::from(c as u8)), if c { &vy } else { &vx });
        ctx.check((x == y) == (a == b) && bool::from(x.ct_eq(&y)) == (a == b), &sig("gt eq"), || format!("{:x} {:x}", a, b));
        ctx.count("gt_ops");
    });
    let _ = Fr::zero();
}
