//! C17: commitments, multi-opening, accumulators.
use crate::gen::Fl;
use crate::math::scalar;
use crate::sys::*;
use ff::Field;
#[cfg(verif_hooks)]
use ff::PrimeField;
use group::prime::PrimeCurveAffine;
use group::GroupEncoding;
use group::{Curve, Group as _};
use halo2_proofs::arithmetic::{eval_polynomial, CurveExt};
use halo2_proofs::halo2curves::bn256::{Bn256, Fr, G1Affine, G2Affine, G1};
use halo2_proofs::halo2curves::pasta::{EpAffine, EqAffine};
use halo2_proofs::halo2curves::CurveAffine;
use halo2_proofs::poly::commitment::{Blind, Params, ParamsProver, MSM};
use halo2_proofs::poly::ipa::commitment::ParamsIPA;
use halo2_proofs::poly::ipa::msm::MSMIPA;
use halo2_proofs::poly::kzg::commitment::ParamsKZG;
use halo2_proofs::poly::kzg::msm::MSMKZG;
use halo2_proofs::poly::{Coeff, EvaluationDomain, Polynomial};
use halo2_proofs::transcript::*;
use kit::*;
use serde_json::json;

type Poly<F> = Polynomial<F, Coeff>;

fn poly<F: Fl>(rng: &mut Rng, d: &EvaluationDomain<F>, n: usize) -> Poly<F> {
    let mut p = d.empty_coeff();
    match rng.below(8) {
        0 => {}
        1 => p[0] = scalar(rng),
        2 => p[n - 1] = scalar(rng),
        3 => {
            let i = rng.below(n);
            p[i] = F::one()
        }
        4 => {
            // vanishes on some small set of points
            for v in p.iter_mut() {
                *v = F::from(rng.below(3) as u64)
            }
        }
        _ => {
            for v in p.iter_mut() {
                *v = scalar(rng)
            }
        }
    }
    p
}

fn horner<F: Fl>(p: &[F], x: F) -> F {
    p.iter().rev().fold(F::zero(), |a, c| a * x + c)
}

// ---------------------------------------------------------------- openings
#[cfg(verif_hooks)]
pub mod multi {
    use super::*;
    use halo2_proofs::halo2curves::pasta::{Fp, Fq};
    use halo2_proofs::poly::commitment::{Prover, Verifier};
    use halo2_proofs::poly::ipa::{
        commitment::IPACommitmentScheme,
        multiopen::{ProverIPA, VerifierIPA},
        strategy as ipas,
    };
    use halo2_proofs::poly::kzg::{
        commitment::KZGCommitmentScheme,
        multiopen::{ProverGWC, ProverSHPLONK, VerifierGWC, VerifierSHPLONK},
        strategy as kzgs,
    };
    use halo2_proofs::poly::{ProverQuery, VerificationStrategy, VerifierQuery};

    /// what is claimed: commitments and (commitment, point, value) triples
    #[derive(Clone, Debug)]
    pub struct Claim<C: CurveAffine> {
        pub comms: Vec<C>,
        pub queries: Vec<(usize, C::Scalar, C::Scalar)>,
        /// commitments handed over as a sum of two terms
        pub as_msm: Vec<bool>,
    }

    pub trait Open: Sys {
        /// polynomials shorter than the parameters are allowed, identity commitments too
        const KZG: bool;
        fn commit(p: &Self::P, poly: &Poly<Self::F>, r: Self::F) -> Self::C;
        fn open(p: &Self::P, tr: usize, polys: &[(Poly<Self::F>, Self::F)], claim: &Claim<Self::C>, rng: &mut Rng) -> Result<Vec<u8>, String>;
        /// strategy: 0 single, 1 accumulating, 2 (IPA) given generator, 3 (IPA) wrong generator
        fn check(p: &Self::P, tr: usize, items: &[(&Claim<Self::C>, &[u8])], strategy: usize) -> bool;
        fn shrunk(p: &Self::P, k: u32) -> Option<Self::P>;
    }

    fn absorb<C: CurveAffine, E: EncodedChallenge<C>, T: Transcript<C, E>>(t: &mut T, c: &Claim<C>) -> Result<(), String> {
        for p in &c.comms {
            t.common_point(*p).map_err(|e| format!("{:?}", e))?;
        }
        for (i, x, v) in &c.queries {
            t.common_scalar(C::Scalar::from(*i as u64)).map_err(|e| format!("{:?}", e))?;
            t.common_scalar(*x).map_err(|e| format!("{:?}", e))?;
            t.common_scalar(*v).map_err(|e| format!("{:?}", e))?;
        }
        Ok(())
    }

    fn split<C: CurveAffine>(c: &C) -> [(C::ScalarExt, C::CurveExt); 2] {
        let f = C::ScalarExt::from(77);
        [(C::ScalarExt::one(), c.to_curve() - *c * f), (f, c.to_curve())]
    }

    macro_rules! vqueries {
        ($p:expr, $c:expr, $q:ident) => {
            let msms: Vec<_> = $c
                .comms
                .iter()
                .map(|c| {
                    let mut m = $p.empty_msm();
                    for (s, q) in split(c) {
                        m.append_term(s, q);
                    }
                    m
                })
                .collect();
            let $q: Vec<VerifierQuery<_, _>> = $c
                .queries
                .iter()
                .map(|(i, x, v)| if $c.as_msm[*i] { VerifierQuery::new_msm(&msms[*i], *x, *v) } else { VerifierQuery::new_commitment(&$c.comms[*i], *x, *v) })
                .collect();
        };
    }

    macro_rules! one_transcript {
        ($W:ident, $R:ident, $name_w:ident, $name_r:ident, $Scheme:ty, $Prover:ty, $Verifier:ty, $C:ty, $P:ty, $mod:ident, $kzg:tt) => {
            fn $name_w(p: &$P, polys: &[(Poly<<$C as CurveAffine>::ScalarExt>, <$C as CurveAffine>::ScalarExt)], claim: &Claim<$C>, rng: &mut Rng) -> Result<Vec<u8>, String> {
                let mut t = $W::<Vec<u8>, $C, Challenge255<$C>>::init(vec![]);
                absorb(&mut t, claim)?;
                let q: Vec<ProverQuery<$C>> = claim.queries.iter().map(|(i, x, _)| ProverQuery::new(*x, &polys[*i].0, Blind(polys[*i].1))).collect();
                <$Prover as Prover<$Scheme>>::new(p).create_proof(rng, &mut t, q).map_err(|e| format!("{:?}", e))?;
                Ok(t.finalize())
            }
            fn $name_r(p: &$P, items: &[(&Claim<$C>, &[u8])], strategy: usize) -> bool {
                let v = <$Verifier as Verifier<$Scheme>>::new(p);
                match strategy {
                    0 => items.iter().all(|(c, proof)| {
                        let mut t = $R::<&[u8], $C, Challenge255<$C>>::init(*proof);
                        if absorb(&mut t, c).is_err() {
                            return false;
                        }
                        vqueries!(p, c, q);
                        let s = <$mod::SingleStrategy<_> as VerificationStrategy<$Scheme, $Verifier>>::new(p);
                        VerificationStrategy::<$Scheme, $Verifier>::process(s, |m| v.verify_proof(&mut t, q.clone(), m).map_err(|_| halo2_proofs::plonk::Error::Opening)).is_ok()
                    }),
                    1 => {
                        let mut s = <$mod::AccumulatorStrategy<_> as VerificationStrategy<$Scheme, $Verifier>>::new(p);
                        for (c, proof) in items {
                            let mut t = $R::<&[u8], $C, Challenge255<$C>>::init(*proof);
                            if absorb(&mut t, c).is_err() {
                                return false;
                            }
                            vqueries!(p, c, q);
                            s = match VerificationStrategy::<$Scheme, $Verifier>::process(s, |m| v.verify_proof(&mut t, q.clone(), m).map_err(|_| halo2_proofs::plonk::Error::Opening)) {
                                Ok(s) => s,
                                Err(_) => return false,
                            };
                        }
                        VerificationStrategy::<$Scheme, $Verifier>::finalize(s)
                    }
                    _ => one_transcript!(@guard $kzg, p, items, strategy, v, $R, $C),
                }
            }
        };
        (@guard true, $p:ident, $items:ident, $s:ident, $v:ident, $R:ident, $C:ty) => { unreachable!() };
        (@guard false, $p:ident, $items:ident, $s:ident, $v:ident, $R:ident, $C:ty) => {
            $items.iter().all(|(c, proof)| {
                let mut t = $R::<&[u8], $C, Challenge255<$C>>::init(*proof);
                if absorb(&mut t, c).is_err() {
                    return false;
                }
                vqueries!($p, c, q);
                let g = match $v.verify_proof(&mut t, q.clone(), MSMIPA::new($p)) {
                    Ok(g) => g,
                    Err(_) => return false,
                };
                let mut point = g.compute_g();
                if $s == 3 {
                    point = (point.to_curve() + <$C>::generator()).to_affine();
                }
                let (m, acc) = g.clone().use_g(point);
                assert!(acc.g == point && acc.u_packed.len() == $p.k() as usize);
                m.check()
            })
        };
    }

    macro_rules! open {
        ($S:ident, $Scheme:ty, $Prover:ty, $Verifier:ty, $C:ty, $P:ty, $mod:ident, $kzg:tt) => {
            impl Open for $S {
                const KZG: bool = $kzg;
                fn commit(p: &$P, poly: &Poly<Self::F>, r: Self::F) -> $C {
                    p.commit(poly, Blind(r)).to_affine()
                }
                fn open(p: &$P, tr: usize, polys: &[(Poly<Self::F>, Self::F)], claim: &Claim<$C>, rng: &mut Rng) -> Result<Vec<u8>, String> {
                    one_transcript!(Blake2bWrite, Blake2bRead, w0, r0, $Scheme, $Prover, $Verifier, $C, $P, $mod, $kzg);
                    one_transcript!(Keccak256Write, Keccak256Read, w1, r1, $Scheme, $Prover, $Verifier, $C, $P, $mod, $kzg);
                    one_transcript!(PoseidonWrite, PoseidonRead, w2, r2, $Scheme, $Prover, $Verifier, $C, $P, $mod, $kzg);
                    let _ = (r0 as usize, r1 as usize, r2 as usize);
                    [w0, w1, w2][tr](p, polys, claim, rng)
                }
                fn check(p: &$P, tr: usize, items: &[(&Claim<$C>, &[u8])], strategy: usize) -> bool {
                    one_transcript!(Blake2bWrite, Blake2bRead, w0, r0, $Scheme, $Prover, $Verifier, $C, $P, $mod, $kzg);
                    one_transcript!(Keccak256Write, Keccak256Read, w1, r1, $Scheme, $Prover, $Verifier, $C, $P, $mod, $kzg);
                    one_transcript!(PoseidonWrite, PoseidonRead, w2, r2, $Scheme, $Prover, $Verifier, $C, $P, $mod, $kzg);
                    let _ = (w0 as usize, w1 as usize, w2 as usize);
                    [r0, r1, r2][tr](p, items, strategy)
                }
                fn shrunk(p: &$P, k: u32) -> Option<$P> {
                    if $kzg {
                        let mut q = p.clone();
                        q.shrink(k);
                        Some(q)
                    } else {
                        None
                    }
                }
            }
        };
    }
    open!(Shplonk, KZGCommitmentScheme<Bn256>, ProverSHPLONK<'_, Bn256>, VerifierSHPLONK<'_, Bn256>, G1Affine, ParamsKZG<Bn256>, kzgs, true);
    open!(Gwc, KZGCommitmentScheme<Bn256>, ProverGWC<'_, Bn256>, VerifierGWC<'_, Bn256>, G1Affine, ParamsKZG<Bn256>, kzgs, true);
    open!(IpaEq, IPACommitmentScheme<EqAffine>, ProverIPA<'_, EqAffine>, VerifierIPA<'_, EqAffine>, EqAffine, ParamsIPA<EqAffine>, ipas, false);
    open!(IpaEp, IPACommitmentScheme<EpAffine>, ProverIPA<'_, EpAffine>, VerifierIPA<'_, EpAffine>, EpAffine, ParamsIPA<EpAffine>, ipas, false);
    type _Unused = (Fp, Fq);

    struct Job<S: Open> {
        polys: Vec<(Poly<S::F>, S::F)>,
        claim: Claim<S::C>,
    }

    fn job<S: Open>(rng: &mut Rng, p: &S::P, k: u32) -> Job<S> {
        let n = 1usize << k;
        let d = EvaluationDomain::<S::F>::new(2, k);
        let np = rng.range(1, 5);
        let mut polys: Vec<(Poly<S::F>, S::F)> = (0..np).map(|_| (poly(rng, &d, n), S::F::random(&mut *rng))).collect();
        if np > 1 && rng.chance(1, 5) {
            // the same polynomial twice, under equal or different blinds
            polys[1].0 = polys[0].0.clone();
            if rng.bool() {
                polys[1].1 = polys[0].1;
            }
        }
        let omega = d.get_omega();
        let mut points: Vec<S::F> = vec![];
        let np = rng.range(1, (n - 1).min(5));
        while points.len() < np {
            let x = match rng.below(6) {
                0 => S::F::zero(),
                1 => S::F::one(),
                2 => omega.pow_vartime(&[rng.below(n) as u64]),
                3 => points.last().map(|x| *x * omega).unwrap_or(omega),
                _ => S::F::random(&mut *rng),
            };
            if !points.contains(&x) {
                points.push(x);
            }
        }
        let mut queries: Vec<(usize, S::F, S::F)> = vec![];
        for i in 0..polys.len() {
            let want: Vec<bool> = points.iter().map(|_| rng.chance(1, 2)).collect();
            for (j, x) in points.iter().enumerate() {
                if want[j] || (j == i % points.len() && !want.contains(&true)) {
                    queries.push((i, *x, horner(&polys[i].0, *x)));
                }
            }
        }
        if rng.bool() {
            rng.shuffle(&mut queries);
        }
        let comms = polys.iter().map(|(q, r)| S::commit(p, q, *r)).collect();
        let as_msm = polys.iter().map(|_| rng.chance(1, 3)).collect();
        Job { polys, claim: Claim { comms, queries, as_msm } }
    }

    pub fn case<S: Open>(ctx: &Ctx, i: usize, rng: &mut Rng) {
        let k = 2 + (i as u32 / 4) % if ctx.thorough() { 7 } else { 4 };
        let p = S::params(k);
        let tr = rng.below(3);
        let jobs: Vec<Job<S>> = (0..rng.range(1, 3)).map(|_| job::<S>(rng, &p, k)).collect();
        let desc = |j: &Job<S>, what: &str| format!("{} {} {} k={} polys={:?} claim={:?}", what, S::NAME, TRANSCRIPTS[tr], k, j.polys, j.claim);
        let mut proofs = vec![];
        for j in &jobs {
            ctx.eval(Some(hash_bytes(format!("{:?}", j.claim.queries).as_bytes())));
            let proof = match guard(|| S::open(&p, tr, &j.polys, &j.claim, rng)) {
                Out::Ok(Ok(x)) => x,
                e => {
                    ctx.violation("opening could not be made", desc(j, &format!("{:?}", match e { Out::Ok(r) => format!("{:?}", r), Out::Panic(m) => m })));
                    return;
                }
            };
            let ok = matches!(guard(|| S::check(&p, tr, &[(&j.claim, &proof)], 0)), Out::Ok(true));
            ctx.count("true_opening");
            ctx.count(&format!("true_{}", S::NAME));
            ctx.add("queries", j.claim.queries.len() as u64);
            if !ctx.check(ok, "true opening refused", || desc(j, "")) {
                return;
            }
            if !S::KZG {
                ctx.check(matches!(guard(|| S::check(&p, tr, &[(&j.claim, &proof)], 2)), Out::Ok(true)), "true opening refused with its generator", || desc(j, ""));
                // c = 0 makes any generator right
                let z = proof[proof.len() - 64..proof.len() - 32].iter().all(|b| *b == 0);
                if !z {
                    ctx.check(!matches!(guard(|| S::check(&p, tr, &[(&j.claim, &proof)], 3)), Out::Ok(true)), "wrong generator accepted", || desc(j, ""));
                    ctx.count("wrong_generator");
                }
            }
            if let Some(q) = S::shrunk(&p, rng.below(k as usize + 1) as u32) {
                ctx.check(matches!(guard(|| S::check(&q, tr, &[(&j.claim, &proof)], 0)), Out::Ok(true)), "shrunk parameters refuse", || desc(j, ""));
                ctx.count("shrunk_verified");
            }
            proofs.push(proof);
        }
        let items: Vec<(&Claim<S::C>, &[u8])> = jobs.iter().zip(&proofs).map(|(j, p)| (&j.claim, &p[..])).collect();
        ctx.check(matches!(guard(|| S::check(&p, tr, &items, 1)), Out::Ok(true)), "true openings refused together", || desc(&jobs[0], ""));

        let refuse = |what: &str, claim: &Claim<S::C>, proof: &[u8], rng: &mut Rng| {
            ctx.count(what);
            let single = matches!(guard(|| S::check(&p, tr, &[(claim, proof)], 0)), Out::Ok(true));
            let mut mixed: Vec<(&Claim<S::C>, &[u8])> = items.clone();
            let at = rng.below(items.len() + 1);
            mixed.insert(at, (claim, proof));
            let acc = rng.chance(1, 3) && matches!(guard(|| S::check(&p, tr, &mixed, 1)), Out::Ok(true));
            ctx.check(!single, &format!("accepted alone: {}", what), || format!("{} {} k={} claim={:?} proof={}", S::NAME, TRANSCRIPTS[tr], k, claim, hex(proof)));
            ctx.check(!acc, &format!("accepted with others: {}", what), || format!("{} {} k={} claim={:?} proof={}", S::NAME, TRANSCRIPTS[tr], k, claim, hex(proof)));
            if rng.chance(1, 8) {
                let q = match S::shrunk(&p, 0) {
                    Some(q) => q,
                    None => return,
                };
                ctx.check(!matches!(guard(|| S::check(&q, tr, &[(claim, proof)], 0)), Out::Ok(true)), &format!("accepted after shrinking: {}", what), || format!("{:?}", claim));
            }
        };
        let j = &jobs[0];
        let proof = &proofs[0];
        let delta = |rng: &mut Rng| loop {
            let d = scalar::<S::F>(rng);
            if !bool::from(d.is_zero()) {
                return d;
            }
        };
        // false values: the prover says so in its transcript too
        for qi in 0..j.claim.queries.len() {
            let mut c = j.claim.clone();
            c.queries[qi].2 += delta(rng);
            if let Out::Ok(Ok(pr)) = guard(|| S::open(&p, tr, &j.polys, &c, rng)) {
                refuse("false_value", &c, &pr, rng);
            } else {
                ctx.count("prover_refused");
            }
            refuse("false_value_old_proof", &c, proof, rng);
        }
        if j.claim.queries.len() > 1 {
            // two false values whose sum (or difference) is right
            for _ in 0..2 {
                let a = rng.below(j.claim.queries.len());
                let b = (a + 1 + rng.below(j.claim.queries.len() - 1)) % j.claim.queries.len();
                let mut c = j.claim.clone();
                let d = delta(rng);
                c.queries[a].2 += d;
                if rng.bool() {
                    c.queries[b].2 -= d
                } else {
                    c.queries[b].2 += d
                }
                if let Out::Ok(Ok(pr)) = guard(|| S::open(&p, tr, &j.polys, &c, rng)) {
                    refuse("false_pair", &c, &pr, rng);
                }
            }
        }
        // a proof for other polynomials: commitments say something else
        {
            let pi = rng.below(j.polys.len());
            let mut polys = j.polys.clone();
            let at = rng.below(1 << k);
            polys[pi].0[at] += delta(rng);
            let mut c = j.claim.clone();
            for q in &mut c.queries {
                q.2 = horner(&polys[q.0].0, q.1);
            }
            if c.queries.iter().zip(&j.claim.queries).any(|(a, b)| a.2 != b.2) {
                if let Out::Ok(Ok(pr)) = guard(|| S::open(&p, tr, &polys, &c, rng)) {
                    refuse("other_polynomial", &c, &pr, rng);
                }
            }
            if polys.len() > 1 {
                // two polynomials changed in opposite ways
                let pj = (pi + 1) % polys.len();
                let d = polys[pi].0[at] - j.polys[pi].0[at];
                polys[pj].0[at] -= d;
                for q in &mut c.queries {
                    q.2 = horner(&polys[q.0].0, q.1);
                }
                if c.queries.iter().zip(&j.claim.queries).any(|(a, b)| a.2 != b.2) {
                    if let Out::Ok(Ok(pr)) = guard(|| S::open(&p, tr, &polys, &c, rng)) {
                        refuse("other_polynomial_pair", &c, &pr, rng);
                    }
                }
            }
            if !S::KZG {
                let mut polys = j.polys.clone();
                polys[pi].1 += delta(rng);
                if let Out::Ok(Ok(pr)) = guard(|| S::open(&p, tr, &polys, &j.claim, rng)) {
                    refuse("wrong_blind", &j.claim, &pr, rng);
                }
            }
        }
        // another commitment
        for _ in 0..2 {
            let mut c = j.claim.clone();
            let ci = rng.below(c.comms.len());
            let d = S::C::generator() * delta(rng);
            c.comms[ci] = (c.comms[ci].to_curve() + d).to_affine();
            if bool::from(c.comms[ci].is_identity()) {
                continue;
            }
            // the claim is now false, as the committed polynomial changed (or is unknown)
            let pr = guard(|| S::open(&p, tr, &j.polys, &c, rng));
            refuse("other_commitment_old_proof", &c, proof, rng);
            if let Out::Ok(Ok(pr)) = pr {
                refuse("other_commitment", &c, &pr, rng);
            }
        }
        // another point where the value differs
        {
            let mut c = j.claim.clone();
            let qi = rng.below(c.queries.len());
            let x = c.queries[qi].1 + delta(rng);
            if horner(&j.polys[c.queries[qi].0].0, x) != c.queries[qi].2 && !c.queries.iter().any(|q| q.0 == c.queries[qi].0 && q.1 == x) {
                c.queries[qi].1 = x;
                refuse("other_point_old_proof", &c, proof, rng);
                if let Out::Ok(Ok(pr)) = guard(|| S::open(&p, tr, &j.polys, &c, rng)) {
                    refuse("other_point", &c, &pr, rng);
                }
            }
        }
        // altered proofs
        let els = proof.len() / 32;
        for e in 0..els {
            for _ in 0..2 {
                let mut pr = proof.clone();
                let el = &mut pr[e * 32..e * 32 + 32];
                match rng.below(6) {
                    0 => el[rng.below(32)] ^= 1 << rng.below(8),
                    1 => el[31] ^= 0x80,
                    2 => el.iter_mut().for_each(|b| *b = 0),
                    3 => {
                        let o = rng.below(els);
                        let src = proof[o * 32..o * 32 + 32].to_vec();
                        el.copy_from_slice(&src)
                    }
                    4 => el.copy_from_slice((S::C::generator() * scalar::<S::F>(rng)).to_affine().to_bytes().as_ref()),
                    _ => el.copy_from_slice(scalar::<S::F>(rng).to_repr().as_ref()),
                }
                if pr != *proof {
                    refuse("altered_proof", &j.claim, &pr, rng);
                }
            }
        }
        let cut = rng.below(proof.len());
        refuse("truncated_proof", &j.claim, &proof[..cut], rng);
        ctx.sample(json!({"sys": S::NAME, "k": k, "queries": j.claim.queries.len(), "polys": j.polys.len(), "proof_elements": els}));
    }
}

// ---------------------------------------------------------------- commitments
fn kzg_case(ctx: &Ctx, i: usize, rng: &mut Rng) {
    let k = 1 + (i as u32) % if ctx.thorough() { 9 } else { 6 };
    let n = 1usize << k;
    let d = EvaluationDomain::<Fr>::new(2, k);
    let s = match rng.below(4) {
        0 => Fr::from(2 + rng.below(1000) as u64),
        1 => Fr::zero(),
        _ => Fr::random(&mut *rng),
    };
    let big = k + rng.below(3) as u32;
    if s.pow_vartime(&[1u64 << big]) == Fr::one() {
        return;
    }
    let made = match guard(|| ParamsKZG::<Bn256>::unsafe_setup_with_s(big, s)) {
        Out::Ok(p) => p,
        Out::Panic(e) => {
            ctx.violation("setup fails", format!("k={} s={:?} {}", big, s, e));
            return;
        }
    };
    let g = G1::generator();
    let check_params = |p: &ParamsKZG<Bn256>, k: u32, what: &str| {
        let n = 1usize << k;
        let mut ok = p.k == k && p.n == n as u64 && p.g.len() == n && p.g_lagrange.len() == n && p.get_g() == &p.g[..];
        let mut pow = Fr::one();
        for x in &p.g {
            ok &= (g * pow).to_affine() == *x;
            pow *= s;
        }
        // sum of l_i(s) * w^(i j) = s^j for all j < n, l_i(s) read off through the commitments
        let w = EvaluationDomain::<Fr>::new(2, k).get_omega();
        for j in 0..n.min(4) {
            let j = if j == 3 { n - 1 } else { j };
            let mut acc = G1::identity();
            let wj = w.pow_vartime(&[j as u64]);
            let mut c = Fr::one();
            for x in &p.g_lagrange {
                acc += *x * c;
                c *= wj;
            }
            ok &= acc == g * s.pow_vartime(&[j as u64]);
        }
        ok &= p.g2 == G2Affine::generator() && p.s_g2 == (G2Affine::generator() * s).to_affine();
        ctx.check(ok, &format!("parameters are not the powers of the secret ({})", what), || format!("k={} s={:?}", k, s));
        ctx.count("kzg_params");
    };
    check_params(&made, big, "setup");
    let mut p = made.clone();
    p.downsize(k);
    check_params(&p, k, "downsize");
    for _ in 0..3 {
        ctx.eval(Some(rng.u64()));
        let a = poly(rng, &d, n);
        let b = poly(rng, &d, n);
        let (r1, r2) = (scalar::<Fr>(rng), scalar::<Fr>(rng));
        let ca = p.commit(&a, Blind(r1));
        ctx.count("kzg_commit");
        ctx.check(ca == g * horner(&a, s), "kzg commitment is not the polynomial at the secret", || format!("k={} s={:?} a={:?}", k, s, a));
        ctx.check(p.commit(&a, Blind(r2)) == ca, "kzg commitment depends on the blind", || format!("{:?}", a));
        ctx.check(made.commit(&a, Blind(r1)) == ca, "kzg commitment under larger parameters differs", || format!("k={} in {}", k, big));
        let mut lv = d.empty_lagrange();
        let mut x = Fr::one();
        for v in lv.iter_mut() {
            *v = horner(&a, x);
            x *= d.get_omega();
        }
        ctx.check(p.commit_lagrange(&lv, Blind(r2)) == ca, "lagrange commitment differs", || format!("k={} s={:?} a={:?}", k, s, a));
        let c = scalar::<Fr>(rng);
        let lin = a.clone() * c + &b;
        ctx.check(p.commit(&lin, Blind(r1)) == ca * c + p.commit(&b, Blind(r1)), "kzg commitment is not linear", || format!("k={} a={:?} b={:?} c={:?}", k, a, b, c));
    }
}

fn ipa_case<C: CurveAffine>(ctx: &Ctx, name: &str, i: usize, rng: &mut Rng)
where
    C::ScalarExt: Fl,
{
    let k = 1 + (i as u32) % if ctx.thorough() { 8 } else { 5 };
    let n = 1usize << k;
    let d = EvaluationDomain::<C::ScalarExt>::new(2, k);
    let h = C::CurveExt::hash_to_curve("Halo2-Parameters");
    let w = h(&[1]);
    let u = h(&[2]);
    let big = k + rng.below(2) as u32;
    let mut p = ParamsIPA::<C>::new(big);
    if big > k {
        p.downsize(k);
        ctx.count("ipa_downsized");
    }
    if rng.chance(1, 4) {
        p.shrink(k);
    }
    let gs: Vec<C::CurveExt> = (0..n as u32)
        .map(|i| {
            let b = i.to_le_bytes();
            h(&[0, b[0], b[1], b[2], b[3]])
        })
        .collect();
    ctx.check(p.k() == k && p.n() == n as u64 && p.get_g().iter().map(|x| x.to_curve()).eq(gs.iter().cloned()), "ipa generators", || format!("{} k={} from {}", name, k, big));
    let naive = |a: &Poly<C::ScalarExt>, r: C::ScalarExt| {
        let mut acc = w * r;
        for (g, c) in gs.iter().zip(a.iter()) {
            acc += *g * *c;
        }
        acc
    };
    for _ in 0..2 {
        ctx.eval(Some(rng.u64()));
        let a = poly(rng, &d, n);
        let b = poly(rng, &d, n);
        let (r1, r2) = (scalar::<C::ScalarExt>(rng), scalar::<C::ScalarExt>(rng));
        let ca = p.commit(&a, Blind(r1));
        ctx.count("ipa_commit");
        ctx.check(ca == naive(&a, r1), "ipa commitment is not the sum of its terms", || format!("{} k={} a={:?} r={:?}", name, k, a, r1));
        let mut lv = d.empty_lagrange();
        let mut x = C::ScalarExt::one();
        for v in lv.iter_mut() {
            *v = horner(&a, x);
            x *= d.get_omega();
        }
        ctx.check(p.commit_lagrange(&lv, Blind(r1)) == ca, "lagrange commitment differs", || format!("{} k={} a={:?}", name, k, a));
        let c = scalar::<C::ScalarExt>(rng);
        let lin = a.clone() * c + &b;
        ctx.check(p.commit(&lin, Blind(r1 * c + r2)) == ca * c + p.commit(&b, Blind(r2)), "ipa commitment is not linear", || format!("{} k={}", name, k));

        // a single opening, made and checked directly
        let x = scalar::<C::ScalarExt>(rng);
        let v = eval_polynomial(&a, x);
        if !ctx.check(v == horner(&a, x), "eval_polynomial", || format!("{} {:?} {:?}", name, a, x)) {
            return;
        }
        let mut t = Blake2bWrite::<Vec<u8>, C, Challenge255<C>>::init(vec![]);
        if halo2_proofs::poly::ipa::commitment::create_proof(&p, &mut *rng, &mut t, &a, Blind(r1), x).is_err() {
            ctx.violation("ipa opening fails", format!("{} k={}", name, k));
            return;
        }
        let proof = t.finalize();
        let run = |x: C::ScalarExt, v: C::ScalarExt, c: C::CurveExt, proof: &[u8]| {
            guard(|| {
                let mut t = Blake2bRead::<&[u8], C, Challenge255<C>>::init(proof);
                let mut m = MSMIPA::new(&p);
                m.append_term(C::ScalarExt::one(), c);
                match halo2_proofs::poly::ipa::commitment::verify_proof(&p, m, &mut t, x, v) {
                    Ok(g) => g.use_challenges().check(),
                    Err(_) => false,
                }
            })
        };
        ctx.count("ipa_single_opening");
        ctx.check(matches!(run(x, v, ca, &proof), Out::Ok(true)), "true ipa opening refused", || format!("{} k={} a={:?} x={:?}", name, k, a, x));
        for j in 0..6 {
            let dlt = loop {
                let z = scalar::<C::ScalarExt>(rng);
                if !bool::from(z.is_zero()) {
                    break z;
                }
            };
            let (mut xx, mut vv, mut cc, mut pr) = (x, v, ca, proof.clone());
            match j {
                0 => vv += dlt,
                1 => cc += C::generator() * dlt,
                2 => cc += w * dlt,
                3 => {
                    xx += dlt;
                    if horner(&a, xx) == v {
                        continue;
                    }
                }
                _ => {
                    let b = rng.below(pr.len());
                    pr[b] ^= 1 << rng.below(8)
                }
            }
            ctx.count("ipa_single_false");
            ctx.check(!matches!(run(xx, vv, cc, &pr), Out::Ok(true)), "false ipa opening accepted", || format!("{} k={} kind {} a={:?} x={:?}", name, k, j, a, x));
        }
    }
    // accumulators against plain sums
    for _ in 0..4 {
        let pts: Vec<C::CurveExt> = (0..5).map(|j| if j == 0 { C::CurveExt::identity() } else { C::generator() * C::ScalarExt::random(&mut *rng) }).collect();
        let mut ms = vec![(MSMIPA::new(&p), C::CurveExt::identity()); 2];
        let mut log = vec![];
        for _ in 0..rng.range(1, 14) {
            let m = rng.below(2);
            let sc = scalar::<C::ScalarExt>(rng);
            let op = rng.below(8);
            log.push((m, op, sc));
            match op {
                0 | 1 => {
                    let q = if rng.bool() { *rng.pick(&pts) } else { -*rng.pick(&pts) };
                    ms[m].0.append_term(sc, q);
                    ms[m].1 += q * sc;
                }
                2 => {
                    ms[m].0.add_constant_term(sc);
                    ms[m].1 += gs[0] * sc;
                }
                3 => {
                    let v: Vec<C::ScalarExt> = (0..n).map(|_| scalar(rng)).collect();
                    ms[m].0.add_to_g_scalars(&v);
                    for (g, c) in gs.iter().zip(&v) {
                        ms[m].1 += *g * *c;
                    }
                }
                4 => {
                    ms[m].0.add_to_w_scalar(sc);
                    ms[m].1 += w * sc;
                }
                5 => {
                    ms[m].0.add_to_u_scalar(sc);
                    ms[m].1 += u * sc;
                }
                6 => {
                    ms[m].0.scale(sc);
                    ms[m].1 = ms[m].1 * sc;
                }
                _ => {
                    let o = ms[1 - m].clone();
                    if rng.bool() {
                        MSM::add_msm(&mut ms[m].0, &o.0);
                    } else {
                        ms[m].0.add_msm(&o.0);
                    }
                    ms[m].1 += o.1;
                }
            }
        }
        for m in 0..2 {
            ctx.count("ipa_accumulator");
            ctx.check(ms[m].0.eval() == ms[m].1, "ipa accumulator is not the sum of its terms", || format!("{} k={} {:?}", name, k, log));
            ctx.check(ms[m].0.check() == bool::from(ms[m].1.is_identity()), "ipa accumulator check", || format!("{:?}", log));
            // cancelling leaves zero, and a bit more does not
            let mut z = ms[m].0.clone();
            z.append_term(-C::ScalarExt::one(), ms[m].1);
            ctx.check(z.check(), "ipa accumulator does not cancel", || format!("{:?}", log));
            z.append_term(C::ScalarExt::one(), C::generator().to_curve());
            ctx.check(!z.check(), "ipa accumulator check accepts a nonzero sum", || format!("{:?}", log));
        }
    }
}

fn kzg_msm_case(ctx: &Ctx, rng: &mut Rng) {
    let g = G1::generator();
    let mut ms = vec![(MSMKZG::<Bn256>::new(), Vec::<(Fr, Fr)>::new()); 2];
    let mut log = vec![];
    for _ in 0..rng.range(1, 16) {
        let m = rng.below(2);
        let sc = scalar::<Fr>(rng);
        let op = rng.below(6);
        log.push((m, op, sc));
        match op {
            0..=2 => {
                let b = scalar::<Fr>(rng);
                ms[m].0.append_term(sc, g * b);
                ms[m].1.push((sc, b));
            }
            3 => {
                ms[m].0.scale(sc);
                ms[m].1.iter_mut().for_each(|t| t.0 *= sc);
            }
            4 => {
                // the last term has weight one, the one before it `base`, and so on
                ms[m].0.combine_with_base(sc);
                let mut acc = Fr::one();
                for t in ms[m].1.iter_mut().rev() {
                    t.0 *= acc;
                    acc *= sc;
                }
            }
            _ => {
                let o = ms[1 - m].clone();
                ms[m].0.add_msm(&o.0);
                ms[m].1.extend(o.1);
            }
        }
    }
    ctx.eval(Some(hash_bytes(format!("{:?}", log).as_bytes())));
    for (m, terms) in &ms {
        let want: Fr = terms.iter().fold(Fr::zero(), |a, (s, b)| a + *s * b);
        ctx.count("kzg_accumulator");
        ctx.check(m.eval() == g * want, "kzg accumulator is not the sum of its terms", || format!("{:?}", log));
        ctx.check(m.check() == bool::from(want.is_zero()), "kzg accumulator check", || format!("{:?}", log));
        ctx.check(m.scalars().len() == terms.len() && m.bases().iter().zip(terms).all(|(p, t)| *p == g * t.1), "kzg accumulator terms", || format!("{:?}", log));
    }
}

pub fn c17(ctx: Ctx) {
    ctx.rule("random polynomials (zero, constant, top coefficient only, full, repeated), 1..5 points (zero, one, roots of unity, rotations, random) in random overlapping query sets, shared or distinct, commitments given as points or as sums, 3 schemes (SHPLONK, GWC, IPA on both pasta curves) x 3 transcripts x strategies; per claim every single false value (told to the prover's transcript as well), pairs that cancel, other polynomials, blinds, commitments, points, altered/truncated proofs, alone and among true claims; commitments against powers of a known secret resp. hashed generators; accumulators against plain sums; non-trivial = distinct claims/operation sequences");
    ctx.assume("the multi-open prover is driven through the guarded hook ProverQuery::new; forgeries are those listed");
    ctx.set_budget(40, 600);
    ctx.cases("kzg-commit", 12, ctx.n(24, 900), |i, rng| kzg_case(&ctx, i, rng));
    ctx.cases("ipa-commit", 10, ctx.n(20, 900), |i, rng| if i % 2 == 0 { ipa_case::<EqAffine>(&ctx, "vesta", i / 2, rng) } else { ipa_case::<EpAffine>(&ctx, "pallas", i / 2, rng) });
    ctx.cases("kzg-msm", 50, ctx.n(200, 4000), |_, rng| kzg_msm_case(&ctx, rng));
    #[cfg(verif_hooks)]
    {
        use multi::case;
        ctx.cases("multi", 40, ctx.n(240, 6000), |i, rng| match i % 4 {
            0 => case::<Shplonk>(&ctx, i, rng),
            1 => case::<Gwc>(&ctx, i, rng),
            2 => case::<IpaEq>(&ctx, i, rng),
            _ => case::<IpaEp>(&ctx, i, rng),
        });
        ctx.finish(&[("true_opening", 40), ("false_value", 60), ("altered_proof", 100), ("other_polynomial", 10), ("kzg_commit", 12), ("ipa_commit", 10), ("ipa_accumulator", 20), ("kzg_accumulator", 50)])
    }
    #[cfg(not(verif_hooks))]
    {
        ctx.assume("hooks did not compile on this tree: multi-open proofs were not observed (only through C09/C10)");
        ctx.finish(&[("kzg_commit", 12), ("ipa_commit", 10), ("ipa_accumulator", 20), ("kzg_accumulator", 50)])
    }
}
