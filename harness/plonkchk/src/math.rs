//! C16: multi-scalar multiplication, FFT, domains, polynomial arithmetic, rational values.
use ff::{BatchInvert, Field, PrimeField};
use group::{Curve, Group as _};
use halo2_proofs::arithmetic::*;
use halo2_proofs::circuit::Value;
use halo2_proofs::halo2curves::{
    bn256::{Fr, G1Affine, G2Affine, G1},
    pasta::{EpAffine, EqAffine, Fp},
    secp256k1::Secp256k1Affine,
};
use halo2_proofs::plonk::Assigned;
use halo2_proofs::poly::{EvaluationDomain, Rotation};
use kit::*;
use serde_json::json;

/// edge-weighted scalar
pub fn scalar<F: FieldExt>(rng: &mut Rng) -> F {
    match rng.below(12) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(2).pow_vartime(&[rng.below(256) as u64]),
        4 => -F::from(2).pow_vartime(&[rng.below(256) as u64]),
        5 => F::from(rng.below(20) as u64),
        6 => F::from(2).pow_vartime(&[rng.below(256) as u64]) - F::one(),
        7 => F::from(rng.u64()),
        _ => F::random(&mut *rng),
    }
}

/// scalar times point by the definition, not by the library's ladder
fn smul<C: CurveAffine>(p: C, s: &C::Scalar) -> C::Curve {
    let mut acc = C::Curve::identity();
    let repr = s.to_repr();
    for byte in repr.as_ref().iter().rev() {
        for i in (0..8).rev() {
            acc = acc.double();
            if byte >> i & 1 == 1 {
                acc += p;
            }
        }
    }
    acc
}

fn msm_case<C: CurveAffine>(ctx: &Ctx, name: &str, rng: &mut Rng, len: usize)
where
    C::Scalar: FieldExt,
{
    // bases with known discrete logarithms: small table of multiples, negations, identities
    let small = rng.bool();
    let g = C::generator();
    let mut logs: Vec<C::Scalar> = (0..len)
        .map(|_| match rng.below(8) {
            0 => C::Scalar::zero(),
            1 => C::Scalar::one(),
            2 => -C::Scalar::one(),
            3 => C::Scalar::from(rng.below(4) as u64),
            _ if small => C::Scalar::from(rng.below(1000) as u64),
            _ => C::Scalar::random(&mut *rng),
        })
        .collect();
    if len > 1 && rng.chance(1, 3) {
        let i = rng.below(len);
        let j = rng.below(len);
        logs[i] = -logs[j];
    }
    let mut coeffs: Vec<C::Scalar> = (0..len).map(|_| scalar(rng)).collect();
    if len > 1 && rng.chance(1, 3) {
        let i = rng.below(len);
        let j = rng.below(len);
        coeffs[i] = coeffs[j];
    }
    if rng.chance(1, 8) {
        let c = scalar(rng);
        coeffs.iter_mut().for_each(|x| *x = c);
    }
    let proj: Vec<C::Curve> = logs.iter().map(|l| smul(g, l)).collect();
    let bases: Vec<C> = proj.iter().map(|p| p.to_affine()).collect();
    let want = smul(g, &logs.iter().zip(&coeffs).fold(C::Scalar::zero(), |a, (x, y)| a + *x * y));
    let d = || format!("{} len {} logs {:?} coeffs {:?}", name, len, logs, coeffs);
    ctx.check(best_multiexp(&coeffs, &bases) == want, "best_multiexp", d);
    if len < 40 {
        ctx.check(small_multiexp(&coeffs, &bases) == want, "small_multiexp", d);
    }
    ctx.count(&format!("msm_{}", name));
    let mut key = name.as_bytes().to_vec();
    coeffs.iter().chain(&logs).for_each(|c| key.extend_from_slice(c.to_repr().as_ref()));
    ctx.eval(if len > 0 { Some(hash_bytes(&key)) } else { None });
}

fn omega<F: FieldExt>(log_n: u32) -> F {
    let mut w = F::root_of_unity();
    for _ in log_n..F::S {
        w = w.square();
    }
    w
}

fn dft<F: FieldExt>(a: &[F], w: F) -> Vec<F> {
    let mut x = F::one();
    (0..a.len())
        .map(|_| {
            let r = a.iter().rev().fold(F::zero(), |acc, c| acc * x + c);
            x *= w;
            r
        })
        .collect()
}

/// evaluation at x by the definition
fn at<F: FieldExt>(a: &[F], x: F) -> F {
    let mut p = F::one();
    let mut s = F::zero();
    for c in a {
        s += *c * p;
        p *= x;
    }
    s
}

fn vecs<F: FieldExt>(rng: &mut Rng, n: usize) -> Vec<F> {
    let sparse = rng.chance(1, 4);
    (0..n).map(|_| if sparse && rng.chance(3, 4) { F::zero() } else { scalar(rng) }).collect()
}

fn fft_case<F: FieldExt + Group<Scalar = F>>(ctx: &Ctx, name: &str, rng: &mut Rng, log_n: u32) {
    let n = 1usize << log_n;
    let a: Vec<F> = vecs(rng, n);
    let w = omega::<F>(log_n);
    let mut b = a.clone();
    best_fft(&mut b, w, log_n);
    let d = || format!("{} log_n {} input {:?}", name, log_n, a);
    ctx.check(b == dft(&a, w), "best_fft", d);
    best_fft(&mut b, w.invert().unwrap(), log_n);
    let ninv = F::from(n as u64).invert().unwrap();
    ctx.check(b.iter().map(|x| *x * ninv).collect::<Vec<_>>() == a, "inverse_fft", d);
    // any element of order n will do
    let e = rng.below(n.max(2) / 2) as u64 * 2 + 1;
    let w2 = w.pow_vartime(&[e]);
    let mut b = a.clone();
    best_fft(&mut b, w2, log_n);
    ctx.check(b == dft(&a, w2), "best_fft_other_root", d);
    ctx.count(&format!("fft_{}_{}", name, log_n));
    ctx.eval(Some(hash_bytes(format!("{:?}{}", a, name).as_bytes())));
}

fn group_fft_case(ctx: &Ctx, rng: &mut Rng, log_n: u32) {
    let n = 1usize << log_n;
    let a: Vec<Fr> = (0..n).map(|_| if rng.chance(1, 4) { Fr::zero() } else { Fr::from(rng.u64() >> 40) }).collect();
    let w = omega::<Fr>(log_n);
    let g = G1::generator();
    let pts: Vec<G1> = a.iter().map(|x| smul(G1Affine::generator(), x)).collect();
    let _ = g;
    let mut b = pts.clone();
    best_fft(&mut b, w, log_n);
    let want: Vec<G1> = dft(&a, w).iter().map(|x| smul(G1Affine::generator(), x)).collect();
    ctx.check(b == want, "best_fft_group", || format!("log_n {} logs {:?}", log_n, a));
    // Lagrange basis of the points: sum_i l_i(x) g_i  evaluated on logs
    let lag: Vec<G1Affine> = g_to_lagrange(pts, log_n);
    let ninv = Fr::from(n as u64).invert().unwrap();
    let want: Vec<G1Affine> = dft(&a, w.invert().unwrap()).iter().map(|x| smul(G1Affine::generator(), &(*x * ninv)).to_affine()).collect();
    ctx.check(lag == want, "g_to_lagrange", || format!("log_n {} logs {:?}", log_n, a));
    ctx.count("group_fft");
    ctx.eval(Some(hash_bytes(format!("{:?}", a).as_bytes())));
}

fn domain_case<F: FieldExt + Group<Scalar = F>>(ctx: &Ctx, name: &str, rng: &mut Rng, j: u32, k: u32) {
    let n = 1usize << k;
    let dom = EvaluationDomain::<F>::new(j, k);
    let w = omega::<F>(k);
    let id = || format!("{} j {} k {}", name, j, k);
    let ek = dom.extended_k();
    let en = dom.extended_len();
    ctx.check(
        dom.k() == k && en == 1 << ek && en >= n && en as u64 >= n as u64 * (j as u64 - 1) && (ek == k || (en as u64) / 2 < n as u64 * (j as u64 - 1)),
        "domain_size",
        || format!("{}: extended_k {}", id(), ek),
    );
    ctx.check(dom.get_omega() == w && dom.get_omega_inv() * w == F::one() && dom.get_extended_omega() == omega::<F>(ek), "omegas", id);
    ctx.check(dom.get_quotient_poly_degree() as u64 == j as u64 - 1, "quotient_degree", id);
    let ew = dom.get_extended_omega();
    // the coset generator: a cube root of unity outside the 2-power subgroup
    let zeta = F::ZETA;
    let a: Vec<F> = vecs(rng, n);
    let pa = dom.coeff_from_vec(a.clone());
    let d = || format!("{} coeffs {:?}", id(), a);
    let lag = dft(&a, w);
    let back = dom.lagrange_to_coeff(dom.lagrange_from_vec(lag.clone()));
    ctx.check(back[..] == a[..], "lagrange_to_coeff", d);
    // extended form = evaluations on zeta * <extended omega>
    let want: Vec<F> = {
        let mut x = zeta;
        (0..en)
            .map(|_| {
                let r = at(&a, x);
                x *= ew;
                r
            })
            .collect()
    };
    let ext = dom.coeff_to_extended(pa.clone());
    ctx.check(ext[..] == want[..], "coeff_to_extended", d);
    let parts = dom.coeff_to_extended_parts(&pa);
    let m = en >> k;
    ctx.check(
        parts.len() == m && (0..m).all(|p| (0..n).all(|i| parts[p][i] == want[i * m + p])),
        "extended_parts",
        d,
    );
    let b: Vec<F> = vecs(rng, n);
    let pb = dom.coeff_from_vec(b.clone());
    let bat = dom.batched_coeff_to_extended_parts(&[pa.clone(), pb.clone()]);
    let extb = dom.coeff_to_extended(pb.clone());
    ctx.check(
        bat.len() == m && (0..m).all(|p| bat[p].len() == 2 && (0..n).all(|i| bat[p][0][i] == want[i * m + p] && bat[p][1][i] == extb[i * m + p])),
        "batched_extended_parts",
        d,
    );
    let joined = dom.extended_from_lagrange_vec(parts.clone());
    ctx.check(joined[..] == want[..], "extended_from_lagrange_vec", d);
    // back: the coefficients, truncated to the quotient's size
    let back = dom.extended_to_coeff(ext.clone());
    let qn = n * (j as usize - 1);
    let mut full = a.clone();
    full.resize(en, F::zero());
    full.truncate(qn.min(en));
    ctx.check(back == full, "extended_to_coeff", d);
    // product of two polynomials and division by the vanishing polynomial
    if j >= 3 {
        // p = q * (X^n - 1), degree(q) < n*(j-1) - n
        let qlen = (qn - n).min(2 * n + 1).max(1);
        let q: Vec<F> = vecs(rng, qlen);
        let mut p = vec![F::zero(); qlen + n];
        for (i, c) in q.iter().enumerate() {
            p[i] -= *c;
            p[i + n] += *c;
        }
        if p.len() <= en {
            let mut e = dom.empty_extended();
            let mut x = zeta;
            for i in 0..en {
                e[i] = at(&p, x);
                x *= ew;
            }
            let h = dom.extended_to_coeff(dom.divide_by_vanishing_poly(e));
            let mut want = q.clone();
            want.resize(h.len(), F::zero());
            ctx.check(h == want, "divide_by_vanishing_poly", || format!("{} quotient {:?}", id(), q));
            ctx.count("vanishing");
        }
    }
    // rotations: f(omega^r X)
    for r in [0i32, 1, -1, 2, -3, n as i32 - 1, -(n as i32), n as i32] {
        if r.unsigned_abs() as usize > n {
            continue;
        }
        let shift = if r >= 0 { w.pow_vartime(&[r as u64]) } else { w.invert().unwrap().pow_vartime(&[(-r) as u64]) };
        let rot = dom.rotate_extended(&ext, Rotation(r));
        let mut x = zeta * shift;
        let ok = (0..en).all(|i| {
            let v = at(&a, x);
            x *= ew;
            rot[i] == v
        });
        ctx.check(ok, "rotate_extended", || format!("{} rotation {} coeffs {:?}", id(), r, a));
        let rl = dom.lagrange_from_vec(lag.clone()).rotate(Rotation(r));
        let mut x = shift;
        let ok = (0..n).all(|i| {
            let v = at(&a, x);
            x *= w;
            rl[i] == v
        });
        ctx.check(ok, "rotate_lagrange", || format!("{} rotation {} coeffs {:?}", id(), r, a));
        let v: F = scalar(rng);
        ctx.check(dom.rotate_omega(v, Rotation(r)) == v * shift, "rotate_omega", || format!("{} rotation {} of {:?}", id(), r, v));
    }
    // Lagrange basis evaluations at points outside the domain
    let x = loop {
        let x: F = scalar(rng);
        if x.pow_vartime(&[n as u64]) != F::one() {
            break x;
        }
    };
    let lo = -(rng.below(2 * n + 3) as i32);
    let hi = rng.below(2 * n + 3) as i32;
    let got = dom.l_i_range(x, x.pow_vartime(&[n as u64]), lo..=hi);
    let want: Vec<F> = (lo..=hi)
        .map(|i| {
            let i = i.rem_euclid(n as i32) as usize;
            let wi = w.pow_vartime(&[i as u64]);
            let mut num = F::one();
            let mut den = F::one();
            let mut wj = F::one();
            for jx in 0..n {
                if jx != i {
                    num *= x - wj;
                    den *= wi - wj;
                }
                wj *= w;
            }
            num * den.invert().unwrap()
        })
        .collect();
    ctx.check(got == want, "l_i_range", || format!("{} x {:?} range {}..={}", id(), x, lo, hi));
    // constants and empties
    let c: F = scalar(rng);
    ctx.check(
        dom.constant_lagrange(c)[..] == vec![c; n][..]
            && dom.constant_extended(c)[..] == vec![c; en][..]
            && dom.empty_lagrange()[..] == vec![F::zero(); n][..]
            && dom.empty_coeff()[..] == vec![F::zero(); n][..]
            && dom.empty_extended()[..] == vec![F::zero(); en][..],
        "constants",
        id,
    );
    // polynomial operators
    let sum = pa.clone() + &pb;
    let dif = pa.clone() - &pb;
    let prod = pa.clone() * c;
    let sub = &pa - c;
    let y: F = scalar(rng);
    ctx.check(
        at(&sum, y) == at(&a, y) + at(&b, y) && at(&dif, y) == at(&a, y) - at(&b, y) && at(&prod, y) == at(&a, y) * c && at(&sub, y) == at(&a, y) - c,
        "poly_ops",
        || format!("{} a {:?} b {:?} c {:?}", id(), a, b, c),
    );
    ctx.check((0..n).all(|i| sum[i] == a[i] + b[i] && dif[i] == a[i] - b[i] && prod[i] == a[i] * c), "poly_ops_values", || format!("{} a {:?} b {:?} c {:?}", id(), a, b, c));
    ctx.count(&format!("domain_j{}", j));
    ctx.eval(Some(hash_bytes(format!("{}{}{}{:?}", name, j, k, a).as_bytes())));
}

fn poly_case<F: FieldExt>(ctx: &Ctx, rng: &mut Rng) {
    let n = *rng.pick(&[1usize, 2, 3, 4, 5, 7, 8, 16, 33, 64]);
    let a: Vec<F> = vecs(rng, n);
    let x: F = scalar(rng);
    ctx.check(eval_polynomial(&a, x) == at(&a, x), "eval_polynomial", || format!("{:?} at {:?}", a, x));
    ctx.check(eval_polynomial::<F>(&[], x) == F::zero(), "eval_polynomial_empty", || String::new());
    let b: Vec<F> = vecs(rng, n);
    let mut s = F::zero();
    for i in 0..n {
        s += a[i] * b[i];
    }
    ctx.check(compute_inner_product(&a, &b) == s, "inner_product", || format!("{:?} . {:?}", a, b));
    // (X - x) * q + a(x) = a
    let q = kate_division(&a, x);
    let mut back = vec![F::zero(); n];
    for (i, c) in q.iter().enumerate() {
        back[i + 1] += *c;
        back[i] -= *c * x;
    }
    back[0] += at(&a, x);
    ctx.check(q.len() == n - 1 && back == a, "kate_division", || format!("{:?} by X - {:?}", a, x));
    // interpolation
    let m = rng.range(1, 12);
    let mut pts: Vec<F> = vec![];
    while pts.len() < m {
        let p: F = scalar(rng);
        if !pts.contains(&p) {
            pts.push(p);
        }
    }
    let ev: Vec<F> = (0..m).map(|_| scalar(rng)).collect();
    let ip = lagrange_interpolate(&pts, &ev);
    ctx.check(ip.len() == m && pts.iter().zip(&ev).all(|(p, e)| at(&ip, *p) == *e), "lagrange_interpolate", || format!("points {:?} values {:?}", pts, ev));
    // batch inversion skips zeros and inverts the rest
    let mut c: Vec<F> = vecs(rng, n);
    let orig = c.clone();
    let prod = c.iter_mut().batch_invert();
    let mut want_prod = F::one();
    for (o, i) in orig.iter().zip(&c) {
        if bool::from(o.is_zero()) {
            ctx.check(bool::from(i.is_zero()), "batch_invert_zero", || format!("{:?}", orig));
        } else {
            want_prod *= o;
            ctx.check(*o * i == F::one(), "batch_invert", || format!("{:?}", orig));
        }
    }
    ctx.check(prod == want_prod.invert().unwrap(), "batch_invert_product", || format!("{:?}", orig));
    // twiddle tables
    let log_n = rng.range(1, 8) as u32;
    let w = omega::<F>(log_n);
    for sparse in [1u32, 2, 3, 5, 10] {
        for last in [false, true] {
            if sparse <= log_n && log_n - sparse < (!last) as u32 {
                continue;
            }
            let t = generate_twiddle_lookup_table(w, log_n, sparse, last);
            let ok = if sparse > log_n {
                t.len() == 1 << log_n && (0..t.len()).all(|i| t[i] == w.pow_vartime(&[i as u64]))
            } else {
                let low = 1usize << sparse;
                let high = 1usize << (log_n - sparse - (!last) as u32);
                t.len() == low + high
                    && (0..low).all(|i| t[i] == w.pow_vartime(&[i as u64]))
                    && (0..high).all(|i| t[low + i] == w.pow_vartime(&[(i << sparse) as u64]))
            };
            ctx.check(ok, "twiddle_table", || format!("log_n {} sparse {} last {}", log_n, sparse, last));
        }
    }
    ctx.count("poly");
    ctx.eval(Some(hash_bytes(format!("{:?}{:?}{:?}", a, x, pts).as_bytes())));
}

/// rational value as (numerator, denominator) pair evaluated with inv(0) = 0
fn asg<F: FieldExt>(rng: &mut Rng) -> (Assigned<F>, F) {
    match rng.below(6) {
        0 => (Assigned::Zero, F::zero()),
        1 | 2 => {
            let x: F = scalar(rng);
            (Assigned::Trivial(x), x)
        }
        _ => {
            let (n, d): (F, F) = (scalar(rng), scalar(rng));
            (Assigned::Rational(n, d), n * Option::<F>::from(d.invert()).unwrap_or(F::zero()))
        }
    }
}

fn inv0<F: Field>(x: F) -> F {
    Option::from(x.invert()).unwrap_or(F::zero())
}

fn assigned_case<F: FieldExt>(ctx: &Ctx, rng: &mut Rng) {
    let (mut a, mut va) = asg::<F>(rng);
    let mut hist = format!("{:?}", a);
    for _ in 0..rng.range(1, 10) {
        let (b, vb) = asg::<F>(rng);
        let c: F = scalar(rng);
        let op = rng.below(24);
        hist.push_str(&format!("; op {} with {:?} / {:?}", op, b, c));
        // results of arithmetic on values with a zero denominator are defined by the value 0
        let (r, vr) = match op {
            0 => (a + b, va + vb),
            1 => (a + &b, va + vb),
            2 => (&a + b, va + vb),
            3 => (&a + &b, va + vb),
            4 => (a + c, va + c),
            5 => (&a + c, va + c),
            6 => (a - b, va - vb),
            7 => (&a - &b, va - vb),
            8 => (a - &b, va - vb),
            9 => (&a - b, va - vb),
            10 => (a - c, va - c),
            11 => (&a - c, va - c),
            12 => (a * b, va * vb),
            13 => (a * &b, va * vb),
            14 => (a * c, va * c),
            15 => (&a * c, va * c),
            16 => (-a, -va),
            17 => (-&a, -va),
            18 => (a.double(), va + va),
            19 => (a.square(), va * va),
            20 => (a.cube(), va * va * va),
            21 => (a.invert(), inv0(va)),
            22 => {
                let mut t = a;
                t += b;
                t -= &b;
                t *= b;
                t += &b;
                t -= b;
                t *= &b;
                (t, va * vb * vb)
            }
            _ => (Assigned::from((c, F::one())) * a, c * va),
        };
        // `invert` of a rational swaps its parts: 1/(n/0) is kept as 0/n, whose value is 0 = inv0(0)
        a = r;
        va = vr;
        if !ctx.check(a.evaluate() == va, "assigned_value", || format!("{} gives {:?} = {:?}, want {:?}", hist, a, a.evaluate(), va)) {
            return;
        }
        ctx.check(a.is_zero_vartime() == bool::from(va.is_zero()), "assigned_is_zero", || hist.clone());
        let (b2, vb2) = asg::<F>(rng);
        ctx.check((a == b2) == (va == vb2), "assigned_eq", || format!("{:?} == {:?}", a, b2));
        ctx.check(a == Assigned::from(va) && Assigned::from(&va) == a, "assigned_eq_value", || format!("{:?} == {:?}", a, va));
        let nd = a.numerator() * inv0(a.denominator().unwrap_or(F::one()));
        ctx.check(nd == va, "assigned_parts", || format!("{:?}", a));
    }
    // the same through Value, known and unknown
    let (x, vx) = asg::<F>(rng);
    let (y, vy) = asg::<F>(rng);
    let (kx, ky) = (Value::known(x), Value::known(y));
    let fx = Value::known(vx);
    let check = |v: Value<Assigned<F>>, want: F, what: &str| {
        let mut seen = false;
        v.evaluate().map(|g| {
            seen = true;
            ctx.check(g == want, "value_op", || format!("{} of {:?}, {:?}", what, x, y));
        });
        ctx.check(seen, "value_known", || what.to_string());
    };
    check(kx + ky, vx + vy, "add");
    check(kx - ky, vx - vy, "sub");
    check(kx * ky, vx * vy, "mul");
    check(-kx, -vx, "neg");
    check(kx + fx, vx + vx, "add field");
    check(ky - fx, vy - vx, "sub field");
    check(ky * fx, vy * vx, "mul field");
    check(kx.double(), vx + vx, "double");
    check(kx.square(), vx * vx, "square");
    check(kx.cube(), vx * vx * vx, "cube");
    check(kx.invert(), inv0(vx), "invert");
    let un: Value<Assigned<F>> = Value::unknown();
    ctx.check((kx + un).is_none() && (un * kx).is_none() && (un - ky).is_none() && un.invert::<F>().is_none(), "value_unknown", || String::new());
    let all: Value<Vec<F>> = [kx.evaluate(), ky.evaluate()].into_iter().collect();
    all.map(|v| ctx.check(v == vec![vx, vy], "value_collect", || String::new()));
    let some: Value<Vec<F>> = [kx.evaluate(), Value::unknown()].into_iter().collect();
    ctx.check(some.is_none(), "value_collect_unknown", || String::new());
    let tv = Value::known(vec![vx, vy]).transpose_vec(2);
    tv[1].map(|g| ctx.check(g == vy, "transpose_vec", || String::new()));
    ctx.count("assigned");
    ctx.eval(Some(hash_bytes(hist.as_bytes())));
}

pub fn c16(ctx: Ctx) {
    ctx.rule("multiexp over five groups with edge/duplicate/cancelling inputs and lengths on every window boundary, FFTs over two fields and G1 against direct evaluation, evaluation domains for j 1..9 and k 0..6 against the definition, polynomial helpers and rational values against field arithmetic; non-trivial = distinct non-empty inputs");
    ctx.set_budget(40, 1200);
    let lens: Vec<usize> = (0..=36).chain([48, 63, 64, 65, 70]).collect();
    let reps = ctx.n(2, 60);
    ctx.cases("msm", lens.len() * 2, lens.len() * reps, |i, rng| {
        let l = lens[i % lens.len()];
        msm_case::<G1Affine>(&ctx, "g1", rng, l);
        if i % 2 == 0 {
            msm_case::<EqAffine>(&ctx, "eq", rng, l);
        } else {
            msm_case::<EpAffine>(&ctx, "ep", rng, l);
        }
        if i % 3 == 0 {
            msm_case::<Secp256k1Affine>(&ctx, "secp", rng, l);
        }
        if i % 6 == 1 {
            msm_case::<G2Affine>(&ctx, "g2", rng, l);
        }
    });
    let n = ctx.n(4, 200);
    ctx.cases("msm_long", 2, n, |_, rng| {
        let l = rng.range(100, 400);
        msm_case::<G1Affine>(&ctx, "g1", rng, l);
        ctx.count("msm_long");
    });
    let n = ctx.n(300, 6000);
    ctx.cases("fft", 60, n, |i, rng| {
        fft_case::<Fr>(&ctx, "fr", rng, (i % 10) as u32);
        if i % 3 == 0 {
            fft_case::<Fp>(&ctx, "fp", rng, (i / 3 % 9) as u32);
        }
    });
    let n = ctx.n(30, 400);
    ctx.cases("gfft", 14, n, |i, rng| group_fft_case(&ctx, rng, (i % 7) as u32));
    let n = ctx.n(400, 8000);
    ctx.cases("domain", 126, n, |i, rng| {
        let (j, k) = (1 + (i % 9) as u32, (i / 9 % 7) as u32);
        if i < 3 {
            ctx.sample(json!({"domain": [j, k]}));
        }
        domain_case::<Fr>(&ctx, "fr", rng, j, k);
        if i % 4 == 0 {
            domain_case::<Fp>(&ctx, "fp", rng, j, k);
        }
    });
    let n = ctx.n(2000, 60000);
    ctx.cases("poly", 300, n, |i, rng| if i % 3 == 0 { poly_case::<Fp>(&ctx, rng) } else { poly_case::<Fr>(&ctx, rng) });
    let n = ctx.n(20000, 400000);
    ctx.cases("assigned", 2000, n, |_, rng| assigned_case::<Fr>(&ctx, rng));
    ctx.finish(&[("msm_g1", 80), ("msm_eq", 20), ("msm_ep", 20), ("msm_secp", 20), ("msm_g2", 10), ("msm_long", 2), ("group_fft", 14), ("fft_fr_9", 4), ("domain_j1", 7), ("domain_j9", 7), ("vanishing", 30), ("poly", 300), ("assigned", 2000)])
}
