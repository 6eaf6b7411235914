//! C19: native Poseidon and Sinsemilla against their plain definitions.
use ff::{Field, PrimeField};
use group::{Curve, Group};
use halo2_gadgets::poseidon::primitives as hp;
use halo2_gadgets::sinsemilla::primitives as sp;
use halo2_proofs::arithmetic::{CurveAffine, CurveExt, FieldExt};
use halo2curves::pasta::{pallas, Fp, Fq};
use halo2curves::{bn256, secp256k1};
use kit::*;
use serde_json::json;

/// edge-weighted scalar
pub fn scalar<F: FieldExt>(rng: &mut Rng) -> F {
    match rng.below(12) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(2).pow_vartime(&[rng.below(256) as u64]),
        4 => -F::from(2).pow_vartime(&[rng.below(256) as u64]),
        5 => F::from(rng.below(20) as u64),
        6 => F::from(2).pow_vartime(&[rng.below(256) as u64]) - F::one(),
        7 => F::from(rng.u64()),
        _ => F::random(&mut *rng),
    }
}

// ------------------------------------------------------------------ the specification
/// The Grain LFSR of the Poseidon paper, self-shrinking.
struct Lfsr {
    b: Vec<bool>,
}
impl Lfsr {
    fn new(bits: u32, t: usize, r_f: usize, r_p: usize) -> Lfsr {
        let mut b = vec![];
        for (n, v) in [(2, 1usize), (4, 0), (12, bits as usize), (12, t), (10, r_f), (10, r_p), (30, (1 << 30) - 1)] {
            for i in (0..n).rev() {
                b.push(v >> i & 1 == 1);
            }
        }
        let mut l = Lfsr { b };
        for _ in 0..160 {
            l.raw();
        }
        l
    }
    fn raw(&mut self) -> bool {
        let n = self.b.len() - 80;
        let s = &self.b[n..];
        let x = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        self.b.push(x);
        x
    }
    fn bit(&mut self) -> bool {
        loop {
            let (a, b) = (self.raw(), self.raw());
            if a {
                return b;
            }
        }
    }
    /// little-endian bytes of the next NUM_BITS-bit number
    fn int(&mut self, bits: u32) -> [u8; 64] {
        let mut v = [0u8; 64];
        for i in (0..bits as usize).rev() {
            if self.bit() {
                v[i / 8] |= 1 << (i % 8);
            }
        }
        v
    }
}

/// value of a little-endian number by Horner's rule, and whether it is below the modulus
fn int_to<F: FieldExt>(v: &[u8; 64]) -> (F, bool) {
    let mut f = F::zero();
    for b in v.iter().rev() {
        f = f * F::from(256) + F::from(*b as u64);
    }
    let canon = f.to_repr();
    let n = canon.as_ref().len();
    (f, canon.as_ref() == &v[..n] && v[n..].iter().all(|x| *x == 0))
}

pub struct RefSpec<F: FieldExt> {
    pub rc: Vec<Vec<F>>,
    pub mds: Vec<Vec<F>>,
    r_f: usize,
    r_p: usize,
}

impl<F: FieldExt> RefSpec<F> {
    pub fn new(t: usize, r_f: usize, r_p: usize, select: usize) -> Self {
        let mut l = Lfsr::new(F::NUM_BITS, t, r_f, r_p);
        let mut rc = vec![];
        for _ in 0..r_f + r_p {
            let mut row = vec![];
            while row.len() < t {
                let (f, ok) = int_to::<F>(&l.int(F::NUM_BITS));
                if ok {
                    row.push(f);
                }
            }
            rc.push(row);
        }
        let mut xs: Vec<F> = vec![];
        let mut ys: Vec<F> = vec![];
        for _ in 0..=select {
            xs = (0..t).map(|_| int_to(&l.int(F::NUM_BITS)).0).collect();
            ys = (0..t).map(|_| int_to(&l.int(F::NUM_BITS)).0).collect();
        }
        let mds = xs
            .iter()
            .map(|x| ys.iter().map(|y| (*x + *y).invert().unwrap()).collect())
            .collect();
        RefSpec { rc, mds, r_f, r_p }
    }
    pub fn permute(&self, st: &mut Vec<F>) {
        let t = st.len();
        for r in 0..self.r_f + self.r_p {
            let full = r < self.r_f / 2 || r >= self.r_f / 2 + self.r_p;
            for i in 0..t {
                let v = st[i] + self.rc[r][i];
                st[i] = if full || i == 0 { v * v * v * v * v } else { v };
            }
            *st = (0..t)
                .map(|i| (0..t).fold(F::zero(), |a, j| a + self.mds[i][j] * st[j]))
                .collect();
        }
    }
    /// constant-length sponge of the gadgets
    pub fn hash(&self, msg: &[F], rate: usize, t: usize) -> F {
        let mut st = vec![F::zero(); t];
        st[rate] = F::from(msg.len() as u64) * F::from(1 << 32) * F::from(1 << 32);
        for ch in msg.chunks(rate) {
            for (i, m) in ch.iter().enumerate() {
                st[i] += m;
            }
            self.permute(&mut st);
        }
        st[0]
    }
}

// ------------------------------------------------------------------ poseidon crate
/// plain sponge: everything absorbed since the last squeeze, padded with 1, in rate blocks
struct RefSponge<F: FieldExt> {
    st: Vec<F>,
    pending: Vec<F>,
}

fn sponge_case<F: FieldExt, const T: usize, const RATE: usize>(ctx: &Ctx, name: &str, rng: &mut Rng, r_f: usize, r_p: usize) {
    let spec = RefSpec::<F>::new(T, r_f, r_p, 0);
    let sig = |k: &str| format!("poseidon-{}-{}-T{}-{}-{}", k, name, T, r_f, r_p);
    let r = guard(|| {
        let s = poseidon::Spec::<F, T, RATE>::new(r_f, r_p);
        (s.r_f(), s.mds_matrices().mds().rows(), s)
    });
    let (got_rf, rows, lib) = match r {
        Out::Ok(x) => x,
        Out::Panic(m) => {
            ctx.violation(&sig("spec-panic"), m);
            return;
        }
    };
    ctx.check(got_rf == r_f, &sig("rf"), || format!("{}", got_rf));
    ctx.check(rows.iter().zip(&spec.mds).all(|(a, b)| a[..] == b[..]), &sig("mds"), || {
        "mds matrix differs from the Grain specification".into()
    });
    // permutation of the initial state, iterated
    let mut st = poseidon::State::<F, T>::default();
    let mut rf: Vec<F> = vec![F::zero(); T];
    rf[0] = F::from(1 << 32) * F::from(1 << 32);
    if !ctx.check(st.words()[..] == rf[..], &sig("init"), || format!("initial state {:?}", st.words())) {
        return;
    }
    for i in 0..3 {
        lib.permute(&mut st);
        spec.permute(&mut rf);
        if !ctx.check(st.words()[..] == rf[..], &sig("permute"), || {
            format!("permutation {} of the initial state: {:?} instead of {:?}", i + 1, st.words(), rf)
        }) {
            return;
        }
    }
    ctx.count("permutations");
    // histories
    for _ in 0..2 {
        let mut h = poseidon::Poseidon::<F, T, RATE>::new(r_f, r_p);
        let mut m = RefSponge::<F> { st: vec![F::zero(); T], pending: vec![] };
        m.st[0] = F::from(1 << 32) * F::from(1 << 32);
        let mut log = vec![];
        let steps = rng.range(1, 12);
        for step in 0..=steps {
            if step == steps || rng.chance(1, 3) {
                if rng.chance(1, 4) {
                    h = h.clone();
                    log.push("clone".to_string());
                }
                let got = guard(|| h.squeeze());
                log.push("squeeze".into());
                m.pending.push(F::one());
                let p = std::mem::take(&mut m.pending);
                for ch in p.chunks(RATE) {
                    for (i, x) in ch.iter().enumerate() {
                        m.st[1 + i] += x;
                    }
                    spec.permute(&mut m.st);
                }
                ctx.eval(None);
                ctx.count("squeezes");
                if p.len() % RATE == 0 {
                    ctx.count("squeezes that fill the last block");
                }
                match got {
                    Out::Ok(v) => {
                        if !ctx.check(v == m.st[1], &sig("squeeze"), || format!("history {:?}: {:?} instead of {:?}", log, v, m.st[1])) {
                            return;
                        }
                    }
                    Out::Panic(e) => {
                        ctx.violation(&sig("squeeze-panic"), format!("history {:?}: {}", log, e));
                        return;
                    }
                }
            } else {
                let n = match rng.below(4) {
                    0 => rng.below(2),
                    1 => RATE - 1 + rng.below(3),
                    2 => 2 * RATE - 1 + rng.below(3),
                    _ => rng.below(4 * RATE),
                };
                let v: Vec<F> = (0..n).map(|_| scalar(rng)).collect();
                // complete so that no more than a block is pending is not modelled: the
                // reference keeps everything and cuts it into blocks when squeezing
                if let Out::Panic(e) = guard(|| h.update(&v)) {
                    ctx.violation(&sig("update-panic"), format!("history {:?} + update({}): {}", log, n, e));
                    return;
                }
                m.pending.extend_from_slice(&v);
                log.push(format!("update({})", n));
            }
        }
        ctx.count("sponge histories");
    }
}

// ------------------------------------------------------------------ gadgets' poseidon
/// any round numbers, constants derived by the library's default
#[derive(Debug, Clone, Copy)]
pub struct Gen<const RF: usize, const RP: usize, const SEL: usize>;
impl<F: FieldExt, const T: usize, const RATE: usize, const RF: usize, const RP: usize, const SEL: usize> hp::Spec<F, T, RATE>
    for Gen<RF, RP, SEL>
{
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(v: F) -> F {
        v.pow_vartime(&[5])
    }
    fn secure_mds() -> usize {
        SEL
    }
}

fn gspec<F: FieldExt, S: hp::Spec<F, T, RATE>, const T: usize, const RATE: usize>(ctx: &Ctx, name: &str, rng: &mut Rng, sel: usize) {
    let (r_f, r_p) = (S::full_rounds(), S::partial_rounds());
    let rs = RefSpec::<F>::new(T, r_f, r_p, sel);
    let sig = |k: &str| format!("gadget-poseidon-{}-{}-T{}-{}-{}-{}", k, name, T, r_f, r_p, sel);
    let (rc, mds, inv) = match guard(|| S::constants()) {
        Out::Ok(x) => x,
        Out::Panic(m) => {
            ctx.violation(&sig("constants-panic"), m);
            return;
        }
    };
    ctx.check(
        rc.len() == rs.rc.len() && rc.iter().zip(&rs.rc).all(|(a, b)| a[..] == b[..]),
        &sig("round-constants"),
        || "round constants differ from the Grain specification".into(),
    );
    ctx.check(mds.iter().zip(&rs.mds).all(|(a, b)| a[..] == b[..]), &sig("mds"), || {
        "mds matrix differs from the Grain specification".into()
    });
    for i in 0..T {
        for j in 0..T {
            let d: F = (0..T).fold(F::zero(), |a, l| a + rs.mds[i][l] * inv[l][j]);
            ctx.check(d == if i == j { F::one() } else { F::zero() }, &sig("mds-inverse"), || {
                format!("(mds * inverse)[{}][{}] = {:?}", i, j, d)
            });
        }
    }
    for _ in 0..8 {
        let v: F = scalar(rng);
        let got = S::sbox(v);
        ctx.check(got == v * v * v * v * v, &sig("sbox"), || format!("sbox({:?}) = {:?}", v, got));
    }
    macro_rules! lens {
        ($($l:literal)*) => {$({
            let msg: [F; $l] = std::array::from_fn(|_| scalar(rng));
            let want = rs.hash(&msg, RATE, T);
            ctx.eval(None);
            ctx.count("constant-length hashes");
            match guard(|| hp::Hash::<F, S, hp::ConstantLength<$l>, T, RATE>::init().hash(msg)) {
                Out::Ok(got) => {
                    ctx.check(got == want, &sig("hash"), || format!("hash of {} elements {:?}: {:?} instead of {:?}", $l, msg, got, want));
                }
                Out::Panic(m) => ctx.violation(&sig("hash-panic"), format!("{} elements: {}", $l, m)),
            }
        })*};
    }
    lens!(1 2 3 4 5 6 7 8 9 10 11 12 16 17);
}

// ------------------------------------------------------------------ sinsemilla
type P = pallas::Point;

pub fn smul(p: P, s: &pallas::Scalar) -> P {
    let mut acc = P::identity();
    for byte in s.to_repr().iter().rev() {
        for i in (0..8).rev() {
            acc = acc.double();
            if byte >> i & 1 == 1 {
                acc += p;
            }
        }
    }
    acc
}

pub fn xy(p: &P) -> Option<(Fp, Fp)> {
    Option::from(p.to_affine().coordinates().map(|c| (*c.x(), *c.y())))
}

/// incomplete addition: undefined for the identity and for equal x coordinates
fn inc(a: Option<P>, b: Option<P>) -> Option<P> {
    let (a, b) = (a?, b?);
    let (pa, pb) = (xy(&a)?, xy(&b)?);
    if pa.0 == pb.0 {
        return None;
    }
    Some(a + b)
}

pub fn s_point(s: &[P], bits: &[bool]) -> P {
    let mut n = 0;
    for (i, b) in bits.iter().enumerate() {
        if *b {
            n += 1 << i;
        }
    }
    s[n]
}

pub fn s_table() -> Vec<P> {
    (0..1024u32).map(|i| P::hash_to_curve("z.cash:SinsemillaS")(&i.to_le_bytes())).collect()
}

pub fn ref_sinsemilla(s: &[P], q: P, msg: &[bool]) -> Option<P> {
    let mut acc = Some(q);
    for ch in msg.chunks(10) {
        let sp = s_point(s, ch);
        acc = inc(inc(acc, Some(sp)), acc);
    }
    acc
}

pub fn domain_name(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => String::new(),
        1 => "z.cash:Orchard-MerkleCRH".into(),
        2 => "é-M\u{0}".into(),
        3 => "x".repeat(rng.below(200)),
        _ => (0..rng.range(1, 40)).map(|_| (32 + rng.below(95)) as u8 as char).collect(),
    }
}

fn bitlen(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => rng.below(3),
        1 => 2530 - rng.below(12),
        2 => 10 * rng.below(60),
        3 => 10 * rng.range(1, 60) - 1,
        4 => 10 * rng.below(60) + 1,
        5 => rng.below(30),
        _ => rng.below(700),
    }
}

fn message(rng: &mut Rng, n: usize) -> Vec<bool> {
    match rng.below(6) {
        0 => vec![false; n],
        1 => vec![true; n],
        _ => (0..n).map(|_| rng.bool()).collect(),
    }
}

fn opt<T>(c: subtle::CtOption<T>) -> Option<T> {
    Option::from(c)
}

fn sinsemilla_case(ctx: &Ctx, s: &[P], rng: &mut Rng) {
    let name = domain_name(rng);
    let msg = {
        let n = bitlen(rng);
        message(rng, n)
    };
    ctx.eval(None);
    ctx.count("sinsemilla messages");
    if msg.len() % 10 != 0 {
        ctx.count("sinsemilla messages that need padding");
    }
    let desc = || format!("domain {:?}, {} bits {}", name, msg.len(), msg.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>());
    let q = P::hash_to_curve("z.cash:SinsemillaQ")(name.as_bytes());
    let want = ref_sinsemilla(s, q, &msg);
    let d = sp::HashDomain::new(&name);
    match guard(|| (opt(d.hash_to_point(msg.iter().copied())), opt(d.hash(msg.iter().copied())))) {
        Out::Ok((p, h)) => {
            ctx.check(p == want, "sinsemilla-hash-to-point", || format!("{}: {:?} instead of {:?}", desc(), p, want));
            let wx = want.map(|w| xy(&w).map_or(Fp::zero(), |c| c.0));
            ctx.check(h == wx, "sinsemilla-hash", || format!("{}: {:?} instead of {:?}", desc(), h, wx));
        }
        Out::Panic(m) => ctx.violation("sinsemilla-panic", format!("{}: {}", desc(), m)),
    }
    // commitments
    let r: Fq = scalar(rng);
    let c = sp::CommitDomain::new(&name);
    let qm = P::hash_to_curve("z.cash:SinsemillaQ")(format!("{}-M", name).as_bytes());
    let rr = P::hash_to_curve(&format!("{}-r", name))(&[]);
    let want = ref_sinsemilla(s, qm, &msg).map(|p| p + smul(rr, &r));
    match guard(|| (opt(c.commit(msg.iter().copied(), &r)), opt(c.short_commit(msg.iter().copied(), &r)))) {
        Out::Ok((p, h)) => {
            ctx.count("sinsemilla commitments");
            ctx.check(p == want, "sinsemilla-commit", || format!("{} r {:?}: {:?} instead of {:?}", desc(), r, p, want));
            let wx = want.map(|w| xy(&w).map_or(Fp::zero(), |c| c.0));
            ctx.check(h == wx, "sinsemilla-short-commit", || format!("{} r {:?}: {:?} instead of {:?}", desc(), r, h, wx));
        }
        Out::Panic(m) => ctx.violation("sinsemilla-commit-panic", format!("{} r {:?}: {}", desc(), r, m)),
    }
}

/// Starting points that make one of the additions undefined at a chosen chunk.
#[cfg(verif_hooks)]
fn bottom_case(ctx: &Ctx, s: &[P], rng: &mut Rng) {
    let chunks = rng.range(1, 6);
    let at = rng.below(chunks);
    let msg = message(rng, 10 * chunks);
    let sp = s_point(s, &msg[10 * at..10 * at + 10]);
    let two_inv = Fq::from(2).invert().unwrap();
    // accumulator wanted before chunk `at`
    let (want_acc, kind) = match rng.below(6) {
        0 => (sp, "equal"),
        1 => (-sp, "opposite"),
        // (acc + S) + acc with acc + S = -acc
        2 => (smul(-sp, &two_inv), "second opposite"),
        3 => (P::identity(), "identity"),
        // one step away from an exceptional case: defined
        4 => (sp + sp, "double"),
        _ => (P::random(&mut *rng), "random"),
    };
    // walk back: acc' = 2 acc + S
    let mut q = want_acc;
    for i in (0..at).rev() {
        q = smul(q - s_point(s, &msg[10 * i..10 * i + 10]), &two_inv);
    }
    let want = ref_sinsemilla(s, q, &msg);
    let d = sp::HashDomain::verif_from_q(q);
    ctx.eval(None);
    ctx.count(if want.is_none() { "undefined sinsemilla hashes" } else { "sinsemilla hashes near an exception" });
    match guard(|| opt(d.hash_to_point(msg.iter().copied()))) {
        Out::Ok(p) => {
            ctx.check(p == want, &format!("sinsemilla-exception-{}", kind), || {
                format!("{} accumulator at chunk {} of {}: {:?} instead of {:?}", kind, at, chunks, p, want)
            });
        }
        Out::Panic(m) => ctx.violation("sinsemilla-exception-panic", m),
    }
}

pub fn c19(ctx: Ctx) {
    ctx.rule("native Poseidon (both crates) and Sinsemilla equal a direct, unoptimised implementation of their definitions for every parameter set, message and update/squeeze history");
    ctx.assume("pasta_curves (external) provides the pallas group and hash-to-curve; field arithmetic is C13's subject");
    ctx.set_budget(45, 600);
    ctx.section("poseidon crate", || {
        ctx.cases("sponge", 24, ctx.n(260, 20000), |i, rng| {
            // production parameters first
            let (r_f, r_p) = match rng.below(4) {
                0 => (8, *rng.pick(&[56usize, 57, 60, 63])),
                1 => (2, rng.range(1, 4)),
                _ => (2 * rng.range(1, 5), rng.range(1, 30)),
            };
            ctx.sample(json!({"r_f": r_f, "r_p": r_p}));
            macro_rules! go {
                ($f:ty, $n:literal; $($t:literal $r:literal),*) => {
                    match i / 4 % 8 {
                        $(x if x == $r - 2 => sponge_case::<$f, $t, $r>(&ctx, $n, rng, r_f, r_p),)*
                        _ => unreachable!(),
                    }
                };
            }
            match i % 4 {
                0 => go!(bn256::Fr, "bn256-fr"; 3 2, 4 3, 5 4, 6 5, 7 6, 8 7, 9 8, 10 9),
                1 => go!(Fp, "pallas-base"; 3 2, 4 3, 5 4, 6 5, 7 6, 8 7, 9 8, 10 9),
                2 => go!(secp256k1::Fp, "secp256k1-fp"; 3 2, 4 3, 5 4, 6 5, 7 6, 8 7, 9 8, 10 9),
                _ => go!(bn256::Fq, "bn256-fq"; 3 2, 4 3, 5 4, 6 5, 7 6, 8 7, 9 8, 10 9),
            }
        });
    });
    ctx.section("gadget poseidon", || {
        ctx.cases("gadget-poseidon", 18, ctx.n(72, 5000), |i, rng| match i % 18 {
            0 | 9 => gspec::<Fp, hp::P128Pow5T3, 3, 2>(&ctx, "pallas-p128", rng, 0),
            1 | 10 => gspec::<Fq, hp::P128Pow5T3, 3, 2>(&ctx, "vesta-p128", rng, 0),
            2 => gspec::<Fp, Gen<8, 56, 0>, 3, 2>(&ctx, "pallas", rng, 0),
            3 => gspec::<Fp, Gen<8, 56, 0>, 5, 4>(&ctx, "pallas", rng, 0),
            4 => gspec::<Fq, Gen<8, 60, 1>, 9, 8>(&ctx, "vesta", rng, 1),
            5 => gspec::<Fp, Gen<2, 2, 3>, 2, 1>(&ctx, "pallas", rng, 3),
            6 => gspec::<Fq, Gen<4, 6, 0>, 4, 3>(&ctx, "vesta", rng, 0),
            7 => gspec::<bn256::Fr, Gen<8, 57, 0>, 6, 5>(&ctx, "bn256-fr", rng, 0),
            8 => gspec::<bn256::Fr, Gen<6, 9, 2>, 3, 2>(&ctx, "bn256-fr", rng, 2),
            11 => gspec::<secp256k1::Fp, Gen<8, 30, 0>, 3, 2>(&ctx, "secp256k1-fp", rng, 0),
            12 => gspec::<bn256::Fq, Gen<8, 30, 0>, 7, 6>(&ctx, "bn256-fq", rng, 0),
            13 => gspec::<Fp, Gen<8, 0, 0>, 3, 2>(&ctx, "pallas", rng, 0),
            14 => gspec::<Fp, Gen<0, 8, 0>, 3, 2>(&ctx, "pallas", rng, 0),
            15 => gspec::<Fq, Gen<8, 120, 0>, 12, 11>(&ctx, "vesta", rng, 0),
            16 => gspec::<Fp, Gen<10, 300, 0>, 3, 2>(&ctx, "pallas", rng, 0),
            _ => gspec::<Fq, Gen<20, 7, 5>, 4, 3>(&ctx, "vesta", rng, 5),
        });
    });
    ctx.section("sinsemilla", || {
        let s = s_table();
        for (i, p) in s.iter().enumerate() {
            let want = xy(p).unwrap();
            ctx.eval(None);
            ctx.count("sinsemilla generators");
            ctx.check(sp::SINSEMILLA_S[i] == want, "sinsemilla-s", || format!("S[{}] = {:?} instead of {:?}", i, sp::SINSEMILLA_S[i], want));
        }
        let inv: Option<Fp> = Option::from(Fp::from_repr(sp::INV_TWO_POW_K));
        ctx.check(inv.map(|v| v * Fp::from(1024)) == Some(Fp::one()), "sinsemilla-inv", || format!("INV_TWO_POW_K = {:?}", inv));
        ctx.check(sp::K == 10 && sp::C == 253, "sinsemilla-consts", || format!("K {} C {}", sp::K, sp::C));
        ctx.cases("sinsemilla", 80, ctx.n(500, 50000), |_, rng| sinsemilla_case(&ctx, &s, rng));
        // too long a message is refused
        ctx.cases("sinsemilla-long", 4, ctx.n(8, 200), |i, rng| {
            let n = 2531 + if i == 0 { 0 } else { rng.below(50) };
            let d = sp::HashDomain::new("long");
            let m = message(rng, n);
            ctx.count("over-long messages");
            if let Out::Ok(x) = guard(|| opt(d.hash(m.iter().copied()))) {
                ctx.violation("sinsemilla-long", format!("{} bits hashed to {:?}", n, x));
            }
        });
        #[cfg(verif_hooks)]
        ctx.cases("sinsemilla-bottom", 60, ctx.n(400, 40000), |_, rng| bottom_case(&ctx, &s, rng));
    });
    let mut need = vec![
        ("permutations", 24),
        ("squeezes", 60),
        ("squeezes that fill the last block", 5),
        ("constant-length hashes", 200),
        ("sinsemilla generators", 1024),
        ("sinsemilla messages", 80),
        ("sinsemilla messages that need padding", 20),
        ("sinsemilla commitments", 80),
        ("over-long messages", 4),
    ];
    if cfg!(verif_hooks) {
        need.push(("undefined sinsemilla hashes", 15));
        need.push(("sinsemilla hashes near an exception", 10));
    }
    ctx.finish(&need);
}
