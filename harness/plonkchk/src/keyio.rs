//! C12: keys and parameters through storage.
use crate::gen::*;
use crate::proof::*;
use crate::sys::*;
use ff::PrimeField;
use group::Curve;
use halo2_proofs::circuit::{floor_planner::V1, SimpleFloorPlanner};
use halo2_proofs::halo2curves::bn256::{Bn256, Fq, Fr, G1Affine, G1};
use halo2_proofs::halo2curves::pasta::{EpAffine, EqAffine};
use halo2_proofs::halo2curves::CurveAffine;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{Blind, Params, ParamsProver};
use halo2_proofs::poly::ipa::commitment::ParamsIPA;
use halo2_proofs::poly::kzg::commitment::ParamsKZG;
use halo2_proofs::SerdeFormat;
use kit::*;
use serde_json::json;

const FORMATS: [(SerdeFormat, &str); 3] = [
    (SerdeFormat::Processed, "processed"),
    (SerdeFormat::RawBytes, "raw"),
    (SerdeFormat::RawBytesUnchecked, "unchecked"),
];

/// little-endian 32 bytes plus the modulus of bn256's base or scalar field
fn plus_modulus(b: &mut [u8], scalar: bool) {
    // p - 1 as bytes, plus one
    let m = if scalar { (-Fr::one()).to_repr() } else { (-Fq::one()).to_repr() };
    let mut carry = 1u16;
    for (x, y) in b.iter_mut().zip(m.as_ref()) {
        let s = *x as u16 + *y as u16 + carry;
        *x = s as u8;
        carry = s >> 8;
    }
}

/// what may be done to one written object: reads it and writes it again
type ReRead<'a> = dyn Fn(&mut &[u8], SerdeFormat) -> Result<Vec<u8>, &'static str> + 'a;

/// [start, end) of field-element-like data: (offset, is it a scalar, is it a compressed point)
struct Area {
    off: usize,
    scalar: bool,
}

fn faults(ctx: &Ctx, what: &str, rng: &mut Rng, bytes: &[u8], f: SerdeFormat, fname: &str, areas: &[Area], fixed_part: usize, re: &ReRead) {
    let tag = |s: &str| format!("{} {} ({})", what, s, fname);
    // trailing bytes stay unread
    let mut more = bytes.to_vec();
    let extra = rng.range(1, 40);
    more.extend(rng.bytes(extra));
    let mut r = &more[..];
    let got = guard(|| re(&mut r, f).map(|b| b == bytes));
    ctx.check(matches!(got, Out::Ok(Ok(true))) && r.len() == extra, &tag("does not stop at its end"), || {
        format!("len {} left {} of {}", bytes.len(), r.len(), extra)
    });
    ctx.count("trailing");
    if matches!(f, SerdeFormat::RawBytesUnchecked) {
        return;
    }
    // truncation
    let mut cuts = vec![0, 1, 3, 4, 5, bytes.len() - 1, bytes.len() - 2, bytes.len() - 32];
    for _ in 0..8 {
        cuts.push(rng.below(bytes.len()));
        // next to the ends, where counts and selectors are
        cuts.push(bytes.len() - 1 - rng.below(60.min(bytes.len())));
    }
    for c in cuts {
        if c >= bytes.len() {
            continue;
        }
        let mut r = &bytes[..c];
        match guard(|| re(&mut r, f)) {
            Out::Ok(Err(_)) => ctx.count("truncations_refused"),
            Out::Ok(Ok(_)) => ctx.violation(&tag("accepted when truncated"), format!("cut at {} of {}", c, bytes.len())),
            Out::Panic(e) => ctx.violation(&tag("panicked when truncated"), format!("cut at {} of {}: {}", c, bytes.len(), e)),
        }
    }
    if areas.is_empty() {
        return;
    }
    // elements that are not canonical
    for _ in 0..6 {
        let a = rng.pick(areas);
        let mut b = bytes.to_vec();
        let all_ones = rng.chance(1, 4);
        if all_ones {
            b[a.off..a.off + 32].fill(0xff);
        } else {
            plus_modulus(&mut b[a.off..a.off + 32], a.scalar);
        }
        let mut r = &b[..];
        match guard(|| re(&mut r, f)) {
            Out::Ok(Err(_)) => ctx.count("noncanonical_refused"),
            Out::Ok(Ok(_)) => ctx.violation(&tag("accepted with a non-canonical element"), format!("offset {} ones {}", a.off, all_ones)),
            Out::Panic(e) => ctx.violation(&tag("panicked on a non-canonical element"), format!("offset {}: {}", a.off, e)),
        }
    }
    // any other change: refused, or read as exactly what was written there
    for _ in 0..10 {
        let mut b = bytes.to_vec();
        let in_area = rng.chance(3, 4);
        let o = if in_area { rng.pick(areas).off + rng.below(32) } else { rng.below(bytes.len()) };
        if o < fixed_part {
            continue;
        }
        b[o] ^= 1 << rng.below(8);
        let mut r = &b[..];
        // a corrupted count may only fail by running out of data
        match guard_bounded(&ctx.property, || tag("allocates without bound"), 1 << 30, || re(&mut r, f)) {
            Out::Ok(Err(_)) => ctx.count("corruption_refused"),
            Out::Ok(Ok(w)) => {
                let used = b.len() - r.len();
                ctx.check(w == b[..used], &tag("reads a corrupted byte as something else"), || format!("offset {}", o));
                ctx.count("corruption_read_exactly");
            }
            Out::Panic(e) => {
                if in_area {
                    ctx.violation(&tag("panicked on a corrupted element"), format!("offset {}: {}", o, e));
                } else {
                    ctx.count("corruption_panicked");
                }
            }
        }
    }
}

trait Kzg: Sys<F = Fr, C = G1Affine, P = ParamsKZG<Bn256>> {}
impl Kzg for Shplonk {}
impl Kzg for Gwc {}

fn keys<S: Kzg, P: FloorPlanner>(ctx: &Ctx, i: usize, rng: &mut Rng) {
    let sh = if rng.chance(1, 3) {
        Shape { sparse: true, lookups: rng.bool(), max_deg: rng.range(2, 6), ..SHAPE }
    } else {
        SHAPE
    };
    let m = match make::<Fr, P>(rng, sh, 6) {
        Some(m) => m,
        None => return ctx.count("no_circuit"),
    };
    count_shape(ctx, &m.spec);
    let c = honest(&m, rng.u64());
    let inst = vec![inst_of(&c)];
    let p = S::params(m.k);
    let pk = S::keygen(&p, &c).expect("keygen");
    let vk = pk.get_vk();
    let tr = rng.below(3);
    let pseed = rng.u64();
    let prove = |pk: &ProvingKey<G1Affine>| S::prove(&p, pk, &[c.clone()], &inst, tr, &mut Rng::new(pseed, "prove", 0)).expect("prove");
    let proof = prove(&pk);
    let desc = || format!("{} k={} spec={:?}", S::NAME, m.k, m.spec);
    ctx.eval(Some(hash_bytes(format!("{:?}", m.spec).as_bytes())));
    if i < 4 {
        ctx.sample(json!({"sys": S::NAME, "k": m.k, "fixed": vk.fixed_commitments().len(), "permutation": vk.permutation().commitments().len()}));
    }
    let nsel = m.spec.sels.len();
    ctx.add("selectors", nsel as u64);
    let same = |v: &VerifyingKey<G1Affine>| -> Option<&'static str> {
        if format!("{:?}", v.pinned()) != format!("{:?}", vk.pinned()) {
            return Some("has another identity");
        }
        let it = Item { vk: v, inst: &inst, proof: &proof };
        if !S::verify(&p, &it, tr) {
            return Some("refuses a good proof");
        }
        let mut bad = inst.clone();
        let mut done = false;
        for col in bad[0].iter_mut() {
            if let Some(x) = col.first_mut() {
                *x += Fr::one();
                done = true;
                break;
            }
        }
        if done && S::verify(&p, &Item { vk: v, inst: &bad, proof: &proof }, tr) {
            return Some("accepts another statement");
        }
        None
    };
    let wr = |v: &VerifyingKey<G1Affine>, f| {
        let mut o = vec![];
        v.write(&mut o, f).expect("write");
        o
    };
    let wrp = |v: &ProvingKey<G1Affine>, f| {
        let mut o = vec![];
        v.write(&mut o, f).expect("write");
        o
    };
    let all: Vec<Vec<u8>> = FORMATS.iter().map(|f| wr(vk, f.0)).collect();
    ctx.check(all[1] == all[2], "raw formats differ", desc);
    for (fi, (f, fname)) in FORMATS.iter().enumerate() {
        set_spec(&m.spec);
        let bytes = &all[fi];
        let rd = guard(|| VerifyingKey::<G1Affine>::read::<_, GenC<Fr, P>>(&mut &bytes[..], *f));
        let v2 = match rd {
            Out::Ok(Ok(v)) => v,
            Out::Ok(Err(e)) => {
                ctx.violation(&format!("verifying key cannot be read back ({})", fname), format!("{} {}", e, desc()));
                continue;
            }
            Out::Panic(e) => {
                ctx.violation(&format!("reading a verifying key panicked ({})", fname), format!("{} {}", e, desc()));
                continue;
            }
        };
        match guard(|| same(&v2)) {
            Out::Ok(None) => ctx.count("vk_restored"),
            Out::Ok(Some(e)) => ctx.violation(&format!("restored verifying key {} ({})", e, fname), desc()),
            Out::Panic(e) => ctx.violation(&format!("restored verifying key panics ({})", fname), format!("{} {}", e, desc())),
        }
        for (gi, g) in FORMATS.iter().enumerate() {
            ctx.check(wr(&v2, g.0) == all[gi], &format!("restored verifying key writes other bytes ({} then {})", fname, g.1), desc);
        }
        // the byte-vector helpers
        match guard(|| vk.to_bytes(*f)) {
            Out::Ok(b) => { ctx.check(&b == bytes, "to_bytes differs from write", desc); }
            Out::Panic(e) => ctx.violation("verifying key to_bytes panicked", e),
        }
        let fb = guard(|| VerifyingKey::<G1Affine>::from_bytes::<GenC<Fr, P>>(bytes, *f));
        ctx.check(matches!(fb, Out::Ok(Ok(v)) if wr(&v, *f) == *bytes), "from_bytes differs from read", desc);
        // a writer without room
        let mut small = vec![0u8; rng.below(bytes.len())];
        let full = guard(|| vk.write(&mut &mut small[..], *f).is_err());
        ctx.check(matches!(full, Out::Ok(true)), "short write not reported", desc);
        // layout of the part that holds curve points
        let (pt, nco) = if fi == 0 { (32, 1) } else { (64, 2) };
        let npts = vk.fixed_commitments().len() + vk.permutation().commitments().len();
        let mut areas = vec![];
        let points: Vec<&G1Affine> = vk.fixed_commitments().iter().chain(vk.permutation().commitments()).collect();
        for j in 0..npts {
            // the all-zero encoding stands for the identity
            if bool::from(group::prime::PrimeCurveAffine::is_identity(points[j])) {
                ctx.count("identity_commitments");
                continue;
            }
            for c in 0..nco {
                areas.push(Area { off: 8 + j * pt + 32 * c, scalar: false });
            }
        }
        faults(ctx, "verifying key", rng, bytes, *f, fname, &areas, 4, &|r, f| {
            VerifyingKey::<G1Affine>::read::<_, GenC<Fr, P>>(r, f).map(|v| wr(&v, f))
        });
        ctx.count(&format!("vk_{}", fname));
    }
    // proving keys
    let allp: Vec<Vec<u8>> = FORMATS.iter().map(|f| wrp(&pk, f.0)).collect();
    for (fi, (f, fname)) in FORMATS.iter().enumerate() {
        let bytes = &allp[fi];
        let p2 = match guard(|| ProvingKey::<G1Affine>::read::<_, GenC<Fr, P>>(&mut &bytes[..], *f)) {
            Out::Ok(Ok(v)) => v,
            Out::Ok(Err(e)) => {
                ctx.violation(&format!("proving key cannot be read back ({})", fname), format!("{} {}", e, desc()));
                continue;
            }
            Out::Panic(e) => {
                ctx.violation(&format!("reading a proving key panicked ({})", fname), format!("{} {}", e, desc()));
                continue;
            }
        };
        for (gi, g) in FORMATS.iter().enumerate() {
            ctx.check(wrp(&p2, g.0) == allp[gi], &format!("restored proving key writes other bytes ({} then {})", fname, g.1), desc);
        }
        match guard(|| prove(&p2)) {
            Out::Ok(x) => { ctx.check(x == proof, "restored proving key makes another proof", desc); }
            Out::Panic(e) => ctx.violation("restored proving key cannot prove", format!("{} {}", e, desc())),
        }
        match guard(|| same(p2.get_vk())) {
            Out::Ok(None) => ctx.count("pk_restored"),
            _ => ctx.violation("restored proving key's verifying key differs", desc()),
        }
        match guard(|| pk.to_bytes(*f)) {
            Out::Ok(b) => { ctx.check(&b == bytes, "to_bytes differs from write", desc); }
            Out::Panic(e) => ctx.violation("proving key to_bytes panicked", e),
        }
        let fb = guard(|| ProvingKey::<G1Affine>::from_bytes::<GenC<Fr, P>>(bytes, *f));
        ctx.check(matches!(fb, Out::Ok(Ok(v)) if wrp(&v, *f) == *bytes), "from_bytes differs from read", desc);
        // after the verifying key: l0, l_last, l_active_row
        let at = all[fi].len();
        let n = 1usize << m.k;
        let areas: Vec<Area> = (0..3).flat_map(|q| (0..n).map(move |j| (q, j))).map(|(q, j)| Area { off: at + q * (4 + 32 * n) + 4 + 32 * j, scalar: true }).collect();
        faults(ctx, "proving key", rng, bytes, *f, fname, &areas, 4, &|r, f| {
            ProvingKey::<G1Affine>::read::<_, GenC<Fr, P>>(r, f).map(|v| wrp(&v, f))
        });
        ctx.count(&format!("pk_{}", fname));
    }
    // restored parameters make the same keys and proofs
    if rng.chance(1, 3) {
        let (f, _) = rng.pick(&FORMATS);
        let mut b = vec![];
        p.write_custom(&mut b, *f).unwrap();
        let q = ParamsKZG::<Bn256>::read_custom(&mut &b[..], *f).expect("params");
        let pk3 = S::keygen(&q, &c).expect("keygen");
        ctx.check(wrp(&pk3, SerdeFormat::RawBytes) == allp[1], "restored parameters make another key", desc);
        let pr = S::prove(&q, &pk3, &[c.clone()], &inst, tr, &mut Rng::new(pseed, "prove", 0)).expect("prove");
        ctx.check(pr == proof, "restored parameters make another proof", desc);
        // the verifier's shrunk parameters
        let mut small = (*p).clone();
        small.shrink(ckb_bf_base::SHRINK_K.min(m.k));
        let mut sb = vec![];
        Params::write(&small, &mut sb).unwrap();
        let more = rng.below(20);
        let len = sb.len();
        sb.extend(rng.bytes(more));
        let mut r = &sb[..];
        match guard(|| ckb_bf_base::utils::read_verifier_params::<Bn256, _>(&mut r)) {
            Out::Ok(Ok(v)) => {
                ctx.check(r.len() == more, "shrunk parameters: reading does not stop at the end", desc);
                ctx.check(
                    v.k == p.k && v.n == p.n && v.g == small.g && v.g_lagrange == small.g_lagrange && v.g2 == p.g2 && v.s_g2 == p.s_g2,
                    "shrunk parameters change in storage",
                    desc,
                );
                let it = Item { vk, inst: &inst, proof: &proof };
                ctx.check(matches!(guard(|| S::verify(&v, &it, tr)), Out::Ok(true)), "restored shrunk parameters refuse a good proof", desc);
                ctx.count("shrunk_restored");
            }
            _ => ctx.violation("shrunk parameters cannot be read back", desc()),
        }
        for _ in 0..4 {
            let cut = rng.below(len);
            let g = guard(|| ckb_bf_base::utils::read_verifier_params::<Bn256, _>(&mut &sb[..cut]).is_err());
            ctx.check(matches!(g, Out::Ok(true)), "truncated shrunk parameters not refused", desc);
            let o = 4 + 32 * rng.below((len - 4) / 32);
            let mut b = sb[..len].to_vec();
            plus_modulus(&mut b[o..o + 32], false);
            let g = guard(|| ckb_bf_base::utils::read_verifier_params::<Bn256, _>(&mut &b[..]).is_err());
            ctx.check(matches!(g, Out::Ok(true)), "shrunk parameters with a non-canonical coordinate not refused", desc);
            let o = 4 + rng.below(len - 4);
            let mut b = sb[..len].to_vec();
            b[o] ^= 1 << rng.below(8);
            let g = guard(|| ckb_bf_base::utils::read_verifier_params::<Bn256, _>(&mut &b[..]).is_err());
            ctx.check(matches!(g, Out::Ok(true)), "shrunk parameters with a point off the curve not refused", || format!("offset {}", o));
        }
    }
}

fn kzg_params(ctx: &Ctx, i: usize, rng: &mut Rng) {
    let k = rng.below(7) as u32;
    let s = <Fr as ff::Field>::random(&mut *rng);
    let p = ParamsKZG::<Bn256>::unsafe_setup_with_s(k, s);
    let p = if rng.chance(1, 3) {
        let mut q = ParamsKZG::<Bn256>::unsafe_setup_with_s(k + 1, s);
        q.downsize(k);
        ctx.check(q.g == p.g && q.g_lagrange == p.g_lagrange, "downsized parameters differ from smaller ones", || format!("k {}", k));
        ctx.count("downsized");
        q
    } else {
        p
    };
    ctx.eval(Some(hash_bytes(&[&b"kzg"[..], &k.to_le_bytes(), s.to_repr().as_ref()].concat())));
    if i < 3 {
        ctx.sample(json!({"kzg_params_k": k}));
    }
    let wr = |p: &ParamsKZG<Bn256>, f| {
        let mut o = vec![];
        p.write_custom(&mut o, f).expect("write");
        o
    };
    let all: Vec<Vec<u8>> = FORMATS.iter().map(|f| wr(&p, f.0)).collect();
    for (fi, (f, fname)) in FORMATS.iter().enumerate() {
        let desc = || format!("k {} {}", k, fname);
        let bytes = &all[fi];
        let q = match guard(|| ParamsKZG::<Bn256>::read_custom(&mut &bytes[..], *f)) {
            Out::Ok(Ok(q)) => q,
            _ => {
                ctx.violation("parameters cannot be read back", desc());
                continue;
            }
        };
        ctx.check(
            q.k == p.k && q.n == p.n && q.g == p.g && q.g_lagrange == p.g_lagrange && q.g2 == p.g2 && q.s_g2 == p.s_g2,
            "parameters change in storage",
            desc,
        );
        for (gi, g) in FORMATS.iter().enumerate() {
            ctx.check(wr(&q, g.0) == all[gi], "restored parameters write other bytes", desc);
        }
        ctx.count(&format!("params_{}", fname));
        let n = 1usize << k;
        let (pt, nco, n2) = if fi == 0 { (32, 1, 2) } else { (64, 2, 4) };
        let mut areas: Vec<Area> = (0..2 * n).flat_map(|j| (0..nco).map(move |c| (j, c))).map(|(j, c)| Area { off: 4 + j * pt + 32 * c, scalar: false }).collect();
        for e in 0..2 * n2 {
            areas.push(Area { off: 4 + 2 * n * pt + 32 * e, scalar: false });
        }
        assert_eq!(bytes.len(), 4 + 2 * n * pt + 64 * n2);
        faults(ctx, "parameters", rng, bytes, *f, fname, &areas, 4, &|r, f| ParamsKZG::<Bn256>::read_custom(r, f).map(|q| wr(&q, f)));
    }
    // the default format
    let mut d = vec![];
    Params::write(&p, &mut d).unwrap();
    ctx.check(
        matches!(guard(|| <ParamsKZG<Bn256> as Params<G1Affine>>::read(&mut &d[..])), Out::Ok(Ok(q)) if q.g == p.g && q.s_g2 == p.s_g2),
        "parameters change in storage (default format)",
        || format!("k {}", k),
    );
    // off-curve points
    let f = FORMATS[rng.below(2)];
    let mut b = wr(&p, f.0);
    if f.1 == "raw" {
        let e = rng.below(2 << k);
        let o = 4 + 64 * e + 32;
        let y = b[o..o + 32].to_vec();
        b[o] ^= 1;
        let g = guard(|| ParamsKZG::<Bn256>::read_custom(&mut &b[..], f.0).is_err());
        ctx.check(matches!(g, Out::Ok(true)), "parameters with a point off the curve not refused", || format!("k {} element {} y {}", k, e, hex(&y)));
        ctx.count("off_curve");
    } else {
        // an abscissa with no point
        let mut x = Fq::from(rng.u64());
        loop {
            let t = x.square() * x + Fq::from(3);
            if bool::from(ff::Field::sqrt(&t).is_none()) {
                break;
            }
            x += Fq::one();
        }
        let e = rng.below(2 << k);
        b[4 + 32 * e..4 + 32 * e + 32].copy_from_slice(x.to_repr().as_ref());
        let g = guard(|| ParamsKZG::<Bn256>::read_custom(&mut &b[..], f.0).is_err());
        ctx.check(matches!(g, Out::Ok(true)), "parameters with a point off the curve not refused", || format!("k {} element {}", k, e));
        ctx.count("off_curve");
    }
    let _ = G1::default().to_affine();
}

fn ipa_params<C: CurveAffine>(ctx: &Ctx, rng: &mut Rng, name: &str)
where
    C::Scalar: Fl,
{
    let k = rng.below(6) as u32;
    let mut p = ParamsIPA::<C>::new(k);
    if rng.chance(1, 3) {
        let mut q = ParamsIPA::<C>::new(k + 1);
        q.downsize(k);
        p = q;
    }
    let wr = |p: &ParamsIPA<C>| {
        let mut o = vec![];
        Params::write(p, &mut o).expect("write");
        o
    };
    let bytes = wr(&p);
    let desc = || format!("{} k {}", name, k);
    ctx.eval(Some(hash_bytes(&[name.as_bytes(), &bytes].concat())));
    match guard(|| <ParamsIPA<C> as Params<C>>::read(&mut &bytes[..])) {
        Out::Ok(Ok(q)) => {
            ctx.check(wr(&q) == bytes, "restored IPA parameters write other bytes", desc);
            ctx.check(q.k() == p.k() && q.n() == p.n() && q.get_g() == p.get_g(), "IPA parameters change in storage", desc);
            // behaviour: commitments in both forms
            use halo2_proofs::poly::EvaluationDomain;
            let d = EvaluationDomain::<C::Scalar>::new(1, k);
            let v: Vec<C::Scalar> = (0..1 << k).map(|_| <C::Scalar as ff::Field>::random(&mut *rng)).collect();
            let b = Blind(<C::Scalar as ff::Field>::random(&mut *rng));
            let co = d.coeff_from_vec(v.clone());
            let la = d.lagrange_from_vec(v);
            ctx.check(q.commit(&co, b) == p.commit(&co, b) && q.commit_lagrange(&la, b) == p.commit_lagrange(&la, b), "restored IPA parameters commit differently", desc);
            ctx.count("ipa_params");
        }
        _ => return ctx.violation("IPA parameters cannot be read back", desc()),
    }
    faults(ctx, "IPA parameters", rng, &bytes, SerdeFormat::Processed, name, &[], 4, &|r, _| <ParamsIPA<C> as Params<C>>::read(r).map(|q| wr(&q)));
    let pts = (bytes.len() - 4) / 32;
    for _ in 0..8 {
        let mut b = bytes.clone();
        let o = 4 + 32 * rng.below(pts) + rng.below(32);
        b[o] ^= 1 << rng.below(8);
        match guard(|| <ParamsIPA<C> as Params<C>>::read(&mut &b[..])) {
            Out::Ok(Err(_)) => ctx.count("corruption_refused"),
            Out::Ok(Ok(q)) => {
                ctx.check(wr(&q) == b, "IPA parameters read a corrupted byte as something else", || format!("offset {}", o));
                ctx.count("corruption_read_exactly");
            }
            Out::Panic(e) => ctx.violation("IPA parameters panicked on a corrupted element", e),
        }
        let mut b = bytes.clone();
        let o = 4 + 32 * rng.below(pts);
        // 2^255 - 1 with the sign bit clear is above both pasta moduli
        b[o..o + 32].fill(0xff);
        b[o + 31] = 0x7f;
        let g = guard(|| <ParamsIPA<C> as Params<C>>::read(&mut &b[..]).is_err());
        ctx.check(matches!(g, Out::Ok(true)), "IPA parameters with a non-canonical element not refused", || format!("offset {}", o));
        ctx.count("noncanonical_refused");
    }
}

pub fn c12(ctx: Ctx) {
    ctx.rule("random circuits x both planners: verifying and proving key written in the three formats, read back, compared by identity, rewritten bytes in every format, proofs (same randomness: same bytes) and verdicts; KZG and IPA parameters of random sizes, also downsized and shrunk; then truncation at random points, non-canonical and off-curve elements, trailing bytes and flipped bits; non-trivial = distinct circuits and parameter sets");
    ctx.assume("keys are stored for bn256 only (pasta has no raw encoding); counts and sizes inside corrupted data may fail by panic, elements and truncation may not");
    ctx.set_budget(45, 600);
    ctx.cases("kzg", 16, ctx.n(80, 1500), |i, rng| kzg_params(&ctx, i, rng));
    ctx.cases("ipa", 8, ctx.n(30, 400), |i, rng| if i % 2 == 0 { ipa_params::<EqAffine>(&ctx, rng, "vesta") } else { ipa_params::<EpAffine>(&ctx, rng, "pallas") });
    ctx.cases("keys", 24, ctx.n(120, 3000), |i, rng| match i % 4 {
        0 => keys::<Shplonk, SimpleFloorPlanner>(&ctx, i, rng),
        1 => keys::<Gwc, SimpleFloorPlanner>(&ctx, i, rng),
        2 => keys::<Shplonk, V1>(&ctx, i, rng),
        _ => keys::<Gwc, V1>(&ctx, i, rng),
    });
    ctx.finish(&[("vk_restored", 40), ("pk_restored", 40), ("params_raw", 8), ("ipa_params", 4), ("truncations_refused", 200), ("noncanonical_refused", 100), ("off_curve", 8), ("shrunk_restored", 3), ("selectors", 20)])
}
