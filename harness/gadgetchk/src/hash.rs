//! C20: the Poseidon, Sinsemilla and Merkle gadgets.
use crate::ecc::*;
use crate::fixed::{self, Bases, Full, DOMAIN, P};
use crate::prim::{ref_sinsemilla, s_table, scalar, smul, Gen, RefSpec};
use crate::subj::*;
use crate::util::{bits_of, fits, from_bits, pow2};
use ff::Field;
use group::{Curve, Group};
use halo2_gadgets::ecc::chip::{EccChip, EccConfig};
use halo2_gadgets::ecc::ScalarFixed;
use halo2_gadgets::poseidon::primitives as hp;
use halo2_gadgets::poseidon::{Hash as PHash, PaddedWord, PoseidonInstructions, Pow5Chip, Pow5Config, Sponge, StateWord};
use halo2_gadgets::sinsemilla::chip::{SinsemillaChip, SinsemillaConfig};
use halo2_gadgets::sinsemilla::merkle::chip::{MerkleChip, MerkleConfig};
use halo2_gadgets::sinsemilla::merkle::{MerkleInstructions, MerklePath};
use halo2_gadgets::sinsemilla::{CommitDomain, CommitDomains, HashDomain, HashDomains, Message, MessagePiece};
use halo2_proofs::arithmetic::{CurveExt, FieldExt};
use halo2_proofs::circuit::{floor_planner::V1, AssignedCell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use halo2curves::bn256::Fr;
use halo2curves::pasta::{pallas, Fp, Fq};
use kit::*;
use serde_json::json;
use std::collections::HashSet;
use std::marker::PhantomData;
use std::sync::OnceLock;
use zkit::*;

// ================================================================== Poseidon
#[derive(Clone, Debug)]
enum POp<F> {
    Hash(Vec<F>),
    Permute(Vec<F>),
    /// words (and whether they are padding, fixed in the circuit), number of squeezes
    Sponge(Vec<(bool, F)>, usize),
}
/// length in the capacity element of sponges
const SPL: usize = 3;

impl<F: FieldExt> POp<F> {
    fn inputs(&self) -> Vec<F> {
        match self {
            POp::Hash(m) | POp::Permute(m) => m.clone(),
            POp::Sponge(w, _) => w.iter().filter(|x| !x.0).map(|x| x.1).collect(),
        }
    }
    fn outputs(&self) -> usize {
        match self {
            POp::Hash(_) => 1,
            POp::Permute(s) => s.len(),
            POp::Sponge(_, n) => *n,
        }
    }
    /// the outputs that belong to these inputs, and the states at the start of each row
    fn eval(&self, spec: &RefSpec<F>, ins: &[F], t: usize) -> Vec<F> {
        let rate = t - 1;
        match self {
            POp::Hash(m) => vec![spec.hash(&ins[..m.len()], rate, t)],
            POp::Permute(_) => {
                let mut s = ins.to_vec();
                spec.permute(&mut s);
                s
            }
            POp::Sponge(w, n) => {
                let mut st = vec![F::zero(); t];
                st[rate] = F::from(SPL as u64) * F::from(1 << 32) * F::from(1 << 32);
                let mut it = ins.iter();
                let vals: Vec<F> = w.iter().map(|(p, v)| if *p { *v } else { *it.next().unwrap() }).collect();
                for ch in vals.chunks(rate) {
                    for (i, v) in ch.iter().enumerate() {
                        st[i] += v;
                    }
                    spec.permute(&mut st);
                }
                let mut out = vec![];
                while out.len() < *n {
                    if !out.is_empty() {
                        spec.permute(&mut st);
                    }
                    out.extend_from_slice(&st[..rate]);
                }
                out.truncate(*n);
                out
            }
        }
    }
}

#[derive(Clone, Debug)]
struct PSubj<F: FieldExt, S, const T: usize, const RATE: usize> {
    ops: Vec<POp<F>>,
    known: bool,
    _s: PhantomData<S>,
}
#[derive(Clone, Debug)]
struct PCfg<F: FieldExt, const T: usize, const RATE: usize> {
    io: Io,
    pow: Pow5Config<F, T, RATE>,
}

impl<F: FieldExt, S: hp::Spec<F, T, RATE>, const T: usize, const RATE: usize> Circuit<F> for PSubj<F, S, T, RATE> {
    type Config = PCfg<F, T, RATE>;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        PSubj { known: false, ops: self.ops.clone(), _s: PhantomData }
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        let io = Io::configure(meta);
        let state: [Column<Advice>; T] = std::array::from_fn(|_| meta.advice_column());
        let sbox = meta.advice_column();
        let a: [Column<Fixed>; T] = std::array::from_fn(|_| meta.fixed_column());
        let b: [Column<Fixed>; T] = std::array::from_fn(|_| meta.fixed_column());
        meta.enable_constant(b[0]);
        PCfg { io, pow: Pow5Chip::configure::<S>(meta, state, sbox, a, b) }
    }
    fn synthesize(&self, cfg: Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        let vals: Vec<F> = self.ops.iter().flat_map(|o| o.inputs()).collect();
        let mut ins = cfg.io.inputs(&mut l, &vals, self.known)?.into_iter();
        let mut outs: Vec<AssignedCell<F, F>> = vec![];
        for o in &self.ops {
            let chip = Pow5Chip::<F, T, RATE>::construct(cfg.pow.clone());
            match o {
                POp::Hash(m) => {
                    macro_rules! len {
                        ($($n:literal)*) => {
                            match m.len() {
                                $($n => {
                                    let h = PHash::<F, _, S, hp::ConstantLength<$n>, T, RATE>::init(chip, l.namespace(|| "init"))?;
                                    let msg: [AssignedCell<F, F>; $n] = std::array::from_fn(|_| ins.next().unwrap());
                                    h.hash(l.namespace(|| "hash"), msg)?
                                })*
                                n => panic!("length {}", n),
                            }
                        };
                    }
                    outs.push(len!(1 2 3 4 5 6 7 8));
                }
                POp::Permute(_) => {
                    let st: [StateWord<F>; T] = std::array::from_fn(|_| ins.next().unwrap().into());
                    let r = PoseidonInstructions::<F, S, T, RATE>::permute(&chip, &mut l, &st)?;
                    outs.extend(r.into_iter().map(|w| w.into()));
                }
                POp::Sponge(w, n) => {
                    let mut s = Sponge::<F, _, S, hp::Absorbing<PaddedWord<F>, RATE>, hp::ConstantLength<SPL>, T, RATE>::new(chip, l.namespace(|| "sponge"))?;
                    for (pad, v) in w {
                        let word = if *pad { PaddedWord::Padding(*v) } else { PaddedWord::Message(ins.next().unwrap()) };
                        s.absorb(l.namespace(|| "absorb"), word)?;
                    }
                    let mut s = s.finish_absorbing(l.namespace(|| "finish"))?;
                    for _ in 0..*n {
                        outs.push(s.squeeze(l.namespace(|| "squeeze"))?);
                    }
                }
            }
        }
        cfg.io.outputs(&mut l, &outs)
    }
}

fn pholds<F: Key + FieldExt>(spec: &RefSpec<F>, ops: &[POp<F>], io: Io, t: usize, rec: &Rec<F>) -> Result<(), String> {
    let (mut i, mut o) = (0, 0);
    for (n, op) in ops.iter().enumerate() {
        let ins: Vec<F> = (0..op.inputs().len()).map(|j| rec.cell(io.ip(i + j))).collect();
        let want = op.eval(spec, &ins, t);
        for (j, w) in want.iter().enumerate() {
            let got = rec.cell(io.op(o + j));
            if got != *w {
                return Err(format!("operation {} on {:?}: output {} is {:?} instead of {:?}", n, ins, j, got, w));
            }
        }
        i += ins.len();
        o += op.outputs();
    }
    Ok(())
}

fn pcase<F: Key + FieldExt, S: hp::Spec<F, T, RATE>, const T: usize, const RATE: usize>(ctx: &Ctx, name: &str, rng: &mut Rng, sel: usize) {
    let (rf, rp) = (S::full_rounds(), S::partial_rounds());
    let spec = RefSpec::<F>::new(T, rf, rp, sel);
    let rows = rf + rp / 2 + 8;
    let mk = |rng: &mut Rng| -> POp<F> {
        match rng.below(5) {
            0 | 1 => {
                let n = rng.range(1, 8);
                POp::Hash((0..n).map(|_| scalar(rng)).collect())
            }
            2 => POp::Permute((0..T).map(|_| scalar(rng)).collect()),
            _ => {
                let n = RATE * rng.range(1, 3);
                let pads = rng.chance(1, 2);
                POp::Sponge((0..n).map(|_| (pads && rng.chance(1, 3), scalar(rng))).collect(), rng.range(1, 2 * RATE + 1))
            }
        }
    };
    let ops: Vec<POp<F>> = (0..rng.range(1, 2)).map(|_| mk(rng)).collect();
    let perms: usize = ops
        .iter()
        .map(|o| match o {
            POp::Hash(m) => (m.len() + RATE - 1) / RATE,
            POp::Permute(_) => 1,
            POp::Sponge(w, n) => w.len() / RATE + n / RATE + 1,
        })
        .sum();
    let k = (6..14).find(|k| (1usize << k) > perms * rows + 40).unwrap();
    for o in &ops {
        ctx.count(match o {
            POp::Hash(_) => "poseidon hashes",
            POp::Permute(_) => "poseidon permutations",
            POp::Sponge(..) => "poseidon sponges",
        });
    }
    let tag = format!("poseidon-{}-T{}-{}-{}", name, T, rf, rp);
    ctx.eval(Some(hash_bytes(format!("{} {:?}", tag, ops).as_bytes())));
    let io = config_of::<F, PSubj<F, S, T, RATE>>().io;
    let c = PSubj::<F, S, T, RATE> { ops: ops.clone(), known: true, _s: PhantomData };
    let desc = || format!("{} {:?}", tag, ops);
    let h = |r: &Rec<F>| pholds(&spec, &ops, io, T, r);
    let mut rec = match honest(ctx, &tag, k, &c, &desc, &h) {
        Some(r) => r,
        None => return,
    };
    if rng.chance(1, 6) {
        mock(ctx, &tag, k, &c, &desc);
    }
    let rounds = if ctx.thorough() { 3 } else { 1 };
    // the same shape with other inputs
    for _ in 0..rounds {
        let other: Vec<POp<F>> = ops
            .iter()
            .map(|o| match o {
                POp::Hash(m) => POp::Hash(m.iter().map(|v| if rng.bool() { *v } else { scalar(rng) }).collect()),
                POp::Permute(m) => POp::Permute(m.iter().map(|v| if rng.bool() { *v } else { scalar(rng) }).collect()),
                POp::Sponge(w, n) => POp::Sponge(w.iter().map(|v| if rng.bool() { *v } else { (v.0, scalar(rng)) }).collect(), *n),
            })
            .collect();
        let oc = PSubj::<F, S, T, RATE> { ops: other.clone(), known: true, _s: PhantomData };
        if let Out::Ok(Ok(o)) = guard(|| record(k, &oc, &[], |_| F::one(), None)) {
            transplant(ctx, &tag, &mut rec, &o, rng, 6, &desc, &format!("with the witness of {:?}", other), &h);
        }
    }
    // states replaced on the way: everything that follows is computed from there
    {
        let atk = Attack::new(&rec);
        let inputs: HashSet<Pos> = (0..c.ops.iter().map(|o| o.inputs().len()).sum::<usize>()).map(|i| atk.rep(io.ip(i))).collect();
        let regs = rows_by_region(&rec, io);
        for _ in 0..6 * rounds {
            let (_, rws) = rng.pick(&regs);
            let row = *rng.pick(rws);
            let mut init: Vec<(Pos, F)> = vec![];
            let whole = rng.bool();
            for col in 0..rec.advice.len() {
                let p = ('a', col, row);
                if rec.cell_region.contains_key(&p) && atk.mutable(p) && !inputs.contains(&atk.rep(p)) && (whole || rng.bool()) && init.iter().all(|x| atk.rep(x.0) != atk.rep(p)) {
                    init.push((p, scalar(rng)));
                }
            }
            init.retain(|x| rec.cell(x.0) != x.1);
            if init.is_empty() {
                continue;
            }
            ctx.count("forged states");
            let how = || format!("row {} replaced {:?}", row, init);
            if !force(ctx, &tag, &mut rec, &atk, &init, rng, &desc, &how, &h) {
                return;
            }
        }
    }
    attack_all(ctx, &tag, &mut rec, rng, 40 * rounds, &desc, &h);
}
fn rows_by_region<F: Key>(rec: &Rec<F>, io: Io) -> Vec<(usize, Vec<usize>)> {
    let mut m: std::collections::BTreeMap<usize, std::collections::BTreeSet<usize>> = Default::default();
    for (p, r) in &rec.cell_region {
        if p.0 == 'a' && p.1 != io.inp.index() && p.1 != io.out.index() {
            m.entry(*r).or_default().insert(p.2);
        }
    }
    m.into_iter().map(|(r, s)| (r, s.into_iter().collect())).collect()
}

// ================================================================== Sinsemilla
const KT: u32 = 11;
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct HD(usize);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct CD;
fn q_of(i: usize) -> P {
    static Q: OnceLock<Vec<P>> = OnceLock::new();
    Q.get_or_init(|| {
        ["z.cash:Orchard-MerkleCRH".to_string(), format!("{}-M", DOMAIN), "verif".to_string()]
            .iter()
            .map(|n| P::hash_to_curve("z.cash:SinsemillaQ")(n.as_bytes()))
            .collect()
    })[i]
}
fn table() -> &'static [P] {
    static T: OnceLock<Vec<P>> = OnceLock::new();
    T.get_or_init(s_table)
}
impl HashDomains<pallas::Affine> for HD {
    fn Q(&self) -> pallas::Affine {
        q_of(self.0).to_affine()
    }
}
impl CommitDomains<pallas::Affine, Bases, HD> for CD {
    fn r(&self) -> Full {
        Full(1)
    }
    fn hash_domain(&self) -> HD {
        HD(1)
    }
}
type SChip = SinsemillaChip<HD, CD, Bases>;
type MChip = MerkleChip<HD, CD, Bases>;

#[derive(Clone, Debug)]
enum SOp {
    /// domain, pieces (value, words), whether only x is asked for
    Hash { d: usize, pieces: Vec<(Fp, usize)>, x: bool },
    Commit { pieces: Vec<(Fp, usize)>, r: Fq, x: bool },
    Layer { d: usize, l: usize, left: Fp, right: Fp },
    Path { d: usize, par: usize, leaf: Fp, pos: u32, sib: Vec<Fp> },
}
impl SOp {
    fn inputs(&self) -> Vec<Fp> {
        match self {
            SOp::Layer { left, right, .. } => vec![*left, *right],
            SOp::Path { leaf, .. } => vec![*leaf],
            _ => vec![],
        }
    }
    fn outputs(&self) -> usize {
        match self {
            SOp::Hash { pieces, x, .. } | SOp::Commit { pieces, x, .. } => pieces.iter().map(|p| 1 + p.1).sum::<usize>() + if *x { 1 } else { 2 },
            _ => 1,
        }
    }
}
#[derive(Clone, Debug)]
struct SSubj<const PLAN: usize> {
    ops: Vec<SOp>,
    known: bool,
}
#[derive(Clone, Debug)]
struct SCfg {
    io: Io,
    ecc: EccConfig<Bases>,
    s: [SinsemillaConfig<HD, CD, Bases>; 2],
    m: [MerkleConfig<HD, CD, Bases>; 2],
}
fn sconfigure(meta: &mut ConstraintSystem<Fp>) -> SCfg {
    let io = Io::configure(meta);
    let t = (meta.lookup_table_column(), meta.lookup_table_column(), meta.lookup_table_column());
    let (ecc, adv, lag, rc) = configure_ecc(meta, t.0);
    let a: [Column<Advice>; 5] = adv[..5].try_into().unwrap();
    let b: [Column<Advice>; 5] = adv[5..].try_into().unwrap();
    let s0 = SChip::configure(meta, a, adv[6], lag[0], t, rc);
    let m0 = MChip::configure(meta, s0.clone());
    let s1 = SChip::configure(meta, b, adv[2], lag[1], t, rc);
    let m1 = MChip::configure(meta, s1.clone());
    SCfg { io, ecc, s: [s0, s1], m: [m0, m1] }
}
fn ssynth(ops: &[SOp], known: bool, cfg: SCfg, mut l: impl Layouter<Fp>) -> Result<(), Error> {
    SChip::load(cfg.s[0].clone(), &mut l)?;
    let vals: Vec<Fp> = ops.iter().flat_map(|o| o.inputs()).collect();
    let mut ins = cfg.io.inputs(&mut l, &vals, known)?.into_iter();
    let mut outs: Vec<AssignedCell<Fp, Fp>> = vec![];
    let kv = |v: &Fp| if known { Value::known(*v) } else { Value::unknown() };
    let ecc = EccChip::<Bases>::construct(cfg.ecc.clone());
    for (n, o) in ops.iter().enumerate() {
        let which = n % 2;
        let chip = SChip::construct(cfg.s[which].clone());
        let mchip = MChip::construct(cfg.m[which].clone());
        match o {
            SOp::Hash { pieces, .. } | SOp::Commit { pieces, .. } => {
                let mut ps = vec![];
                for (v, w) in pieces {
                    ps.push(MessagePiece::from_field_elem(chip.clone(), l.namespace(|| "piece"), kv(v), *w)?);
                }
                outs.extend(ps.iter().map(|p: &MessagePiece<pallas::Affine, SChip, 10, 253>| p.inner().cell_value()));
                let msg = Message::from_pieces(chip.clone(), ps);
                let mut res = vec![];
                let zs = match o {
                    SOp::Hash { d, x, .. } => {
                        let dom = HashDomain::new(chip.clone(), ecc.clone(), &HD(*d));
                        if *x {
                            let (h, zs) = dom.hash(l.namespace(|| "hash"), msg)?;
                            res.push(h.inner().clone());
                            zs
                        } else {
                            let (p, zs) = dom.hash_to_point(l.namespace(|| "hash"), msg)?;
                            res.extend([p.inner().x(), p.inner().y()]);
                            zs
                        }
                    }
                    SOp::Commit { r, x, .. } => {
                        let dom = CommitDomain::new(chip.clone(), ecc.clone(), &CD);
                        let r = if known { Value::known(*r) } else { Value::unknown() };
                        let r = ScalarFixed::new(ecc.clone(), l.namespace(|| "r"), r)?;
                        if *x {
                            let (h, zs) = dom.short_commit(l.namespace(|| "commit"), msg, r)?;
                            res.push(h.inner().clone());
                            zs
                        } else {
                            let (p, zs) = dom.commit(l.namespace(|| "commit"), msg, r)?;
                            res.extend([p.inner().x(), p.inner().y()]);
                            zs
                        }
                    }
                    _ => unreachable!(),
                };
                outs.extend(zs.into_iter().flatten());
                outs.extend(res);
            }
            SOp::Layer { d, l: level, .. } => {
                let (a, b) = (ins.next().unwrap(), ins.next().unwrap());
                let r = MerkleInstructions::<pallas::Affine, 4, 10, 253>::hash_layer(&mchip, l.namespace(|| "layer"), HD(*d).Q(), *level, a, b)?;
                outs.push(r);
            }
            SOp::Path { d, par, pos, sib, .. } => {
                let leaf = ins.next().unwrap();
                let chips = [mchip, MChip::construct(cfg.m[1 - which].clone())];
                let pv = if known { Value::known(*pos) } else { Value::unknown() };
                macro_rules! path {
                    ($($n:literal)*) => {
                        match sib.len() {
                            $($n => {
                                let arr: [Fp; $n] = sib.clone().try_into().unwrap();
                                let arr = if known { Value::known(arr) } else { Value::unknown() };
                                if *par == 1 {
                                    MerklePath::<pallas::Affine, MChip, $n, 10, 253, 1>::construct([chips[0].clone()], HD(*d), pv, arr).calculate_root(l.namespace(|| "root"), leaf)?
                                } else {
                                    MerklePath::<pallas::Affine, MChip, $n, 10, 253, 2>::construct(chips, HD(*d), pv, arr).calculate_root(l.namespace(|| "root"), leaf)?
                                }
                            })*
                            n => panic!("depth {}", n),
                        }
                    };
                }
                outs.push(path!(1 2 3 4 5));
            }
        }
    }
    cfg.io.outputs(&mut l, &outs)
}
macro_rules! planner {
    ($p:literal, $fp:ty) => {
        impl Circuit<Fp> for SSubj<$p> {
            type Config = SCfg;
            type FloorPlanner = $fp;
            fn without_witnesses(&self) -> Self {
                SSubj { ops: self.ops.clone(), known: false }
            }
            fn configure(meta: &mut ConstraintSystem<Fp>) -> Self::Config {
                sconfigure(meta)
            }
            fn synthesize(&self, cfg: Self::Config, l: impl Layouter<Fp>) -> Result<(), Error> {
                ssynth(&self.ops, self.known, cfg, l)
            }
        }
    };
}
planner!(0, SimpleFloorPlanner);
planner!(1, V1);

// ------------------------------------------------------------------ reference
fn message_bits(pieces: &[(Fp, usize)]) -> Vec<bool> {
    pieces.iter().flat_map(|(v, n)| bits_of(v)[..10 * n].to_vec()).collect()
}
fn hash_ref(d: usize, bits: &[bool]) -> Option<P> {
    ref_sinsemilla(table(), q_of(d), bits)
}
/// the 255-bit encodings of a field element
fn encodings(v: &Fp) -> Vec<Vec<bool>> {
    let mut out = vec![bits_of(v)[..255].to_vec()];
    let up = sum(&bits_of(v), &modulus());
    if short(&up, 255) {
        out.push(up[..255].to_vec());
    }
    out
}
/// None: some encoding meets an exceptional case, nothing is promised
fn layer_ref(d: usize, l: usize, left: &Fp, right: &Fp) -> Option<Vec<Fp>> {
    let mut out = vec![];
    for a in encodings(left) {
        for b in encodings(right) {
            let mut m: Vec<bool> = (0..10).map(|i| l >> i & 1 == 1).collect();
            m.extend_from_slice(&a);
            m.extend_from_slice(&b);
            out.push(coords(&hash_ref(d, &m)?).0);
        }
    }
    Some(out)
}

/// private parts found in recordings
#[derive(Clone, Debug, Default)]
struct Hidden {
    /// windows of a commitment's r
    digits: Option<Vec<Pos>>,
    /// sibling and position cells by level
    sibs: Option<Vec<(Pos, Pos)>>,
}

fn sholds(ops: &[SOp], io: Io, hidden: &[Hidden], rec: &Rec<Fp>) -> Result<(), String> {
    let (mut i, mut o) = (0, 0);
    for (n, op) in ops.iter().enumerate() {
        let ins: Vec<Fp> = (0..op.inputs().len()).map(|j| rec.cell(io.ip(i + j))).collect();
        let outs: Vec<Fp> = (0..op.outputs()).map(|j| rec.cell(io.op(o + j))).collect();
        i += ins.len();
        o += outs.len();
        let err = |e: String| Err(format!("operation {}: {}", n, e));
        match op {
            SOp::Hash { pieces, x, .. } | SOp::Commit { pieces, x, .. } => {
                let ps: Vec<(Fp, usize)> = pieces.iter().enumerate().map(|(j, p)| (outs[j], p.1)).collect();
                let mut at = ps.len();
                for (j, (v, w)) in ps.iter().enumerate() {
                    if !fits(v, 10 * w) {
                        return err(format!("piece {} of {} words is {:?}", j, w, v));
                    }
                    for q in 0..*w {
                        if outs[at] != from_bits::<Fp>(&bits_of(v)[10 * q..]) {
                            return err(format!("piece {} {:?}: running sum {} is {:?}", j, v, q, outs[at]));
                        }
                        at += 1;
                    }
                }
                let bits = message_bits(&ps);
                let (d, extra) = match op {
                    SOp::Hash { d, .. } => (*d, P::identity()),
                    _ => match &hidden[n].digits {
                        Some(ps) => match window_scalar_of(rec, ps) {
                            Some(s) => (1, smul(fixed::base(1), &s)),
                            None => return err("window out of range".into()),
                        },
                        None => continue,
                    },
                };
                if let Some(h) = hash_ref(d, &bits) {
                    let want = coords(&(h + extra));
                    let got = &outs[at..];
                    if got[0] != want.0 || (!*x && got[1] != want.1) {
                        return err(format!("pieces {:?}: result {:?} instead of {:?}", ps, got, want));
                    }
                }
            }
            SOp::Layer { d, l, .. } => {
                if let Some(w) = layer_ref(*d, *l, &ins[0], &ins[1]) {
                    if !w.contains(&outs[0]) {
                        return err(format!("level {} of {:?}: {:?} instead of one of {:?}", l, ins, outs[0], w));
                    }
                }
            }
            SOp::Path { d, .. } => {
                let sibs = match &hidden[n].sibs {
                    Some(s) => s,
                    None => continue,
                };
                let mut nodes = vec![ins[0]];
                for (l, (s, p)) in sibs.iter().enumerate() {
                    let (s, p) = (rec.cell(*s), rec.cell(*p));
                    if p != Fp::zero() && p != Fp::one() {
                        return err(format!("position bit {} is {:?}", l, p));
                    }
                    let mut next = vec![];
                    for v in &nodes {
                        let (a, b) = if p == Fp::one() { (s, *v) } else { (*v, s) };
                        match layer_ref(*d, l, &a, &b) {
                            Some(w) => next.extend(w),
                            None => return Ok(()),
                        }
                    }
                    nodes = next;
                }
                if !nodes.contains(&outs[0]) {
                    return err(format!("leaf {:?}: root {:?} is none of {} possible ones, siblings and positions {:?}", ins[0], outs[0], nodes.len(), sibs.iter().map(|(s, p)| (rec.cell(*s), rec.cell(*p))).collect::<Vec<_>>()));
                }
            }
        }
    }
    Ok(())
}
/// the result an honest run must give, with canonical encodings
fn sexact(ops: &[SOp], io: Io, rec: &Rec<Fp>) -> Result<(), String> {
    let mut o = 0;
    for (n, op) in ops.iter().enumerate() {
        let outs: Vec<Fp> = (0..op.outputs()).map(|j| rec.cell(io.op(o + j))).collect();
        o += outs.len();
        let canonical = |d: usize, l: usize, a: &Fp, b: &Fp| layer_ref(d, l, a, b).map(|w| w[0]);
        let want: Option<Vec<Fp>> = match op {
            SOp::Hash { pieces, x, .. } | SOp::Commit { pieces, x, .. } => {
                for (j, p) in pieces.iter().enumerate() {
                    if outs[j] != p.0 {
                        return Err(format!("operation {}: piece {} changed", n, j));
                    }
                }
                let (d, e) = match op {
                    SOp::Hash { d, .. } => (*d, P::identity()),
                    SOp::Commit { r, .. } => (1, smul(fixed::base(1), r)),
                    _ => unreachable!(),
                };
                hash_ref(d, &message_bits(pieces)).map(|h| {
                    let c = coords(&(h + e));
                    if *x {
                        vec![c.0]
                    } else {
                        vec![c.0, c.1]
                    }
                })
            }
            SOp::Layer { d, l, left, right } => canonical(*d, *l, left, right).map(|v| vec![v]),
            SOp::Path { d, leaf, pos, sib, .. } => {
                let mut v = Some(*leaf);
                for (l, s) in sib.iter().enumerate() {
                    v = v.and_then(|v| if pos >> l & 1 == 1 { canonical(*d, l, s, &v) } else { canonical(*d, l, &v, s) });
                }
                v.map(|v| vec![v])
            }
        };
        if let Some(w) = want {
            if outs[outs.len() - w.len()..] != w[..] {
                return Err(format!("operation {} {:?}: got {:?}, expected {:?}", n, op, &outs[outs.len() - w.len()..], w));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ simulator
#[derive(Clone, Debug)]
struct SinCheat {
    q: Pt,
    /// words by piece
    words: Vec<Vec<Fp>>,
    gens: Vec<Pt>,
    jump: Option<(usize, Option<Fp>, Option<Fp>)>,
    /// the running sum of a piece starts elsewhere
    heads: Vec<Option<Fp>>,
}
fn piece_words(v: &Fp, n: usize) -> Vec<usize> {
    let b = bits_of(v);
    (0..n).map(|i| (0..10).map(|j| (b[10 * i + j] as usize) << j).sum()).collect()
}
impl SinCheat {
    fn honest(d: usize, pieces: &[(Fp, usize)]) -> Self {
        let w: Vec<Vec<usize>> = pieces.iter().map(|(v, n)| piece_words(v, *n)).collect();
        SinCheat {
            q: coords(&q_of(d)),
            gens: w.iter().flatten().map(|i| coords(&table()[*i])).collect(),
            words: w.iter().map(|p| p.iter().map(|i| Fp::from(*i as u64)).collect()).collect(),
            jump: None,
            heads: vec![None; pieces.len()],
        }
    }
}
fn sin_sim(c: &SinCheat) -> Sim {
    let mut s = Sim::default();
    let mut zs = vec![];
    for (p, h) in c.words.iter().zip(&c.heads) {
        let mut z = vec![Fp::zero()];
        for w in p.iter().rev() {
            z.push(z.last().unwrap() * Fp::from(1024) + w);
        }
        z.reverse();
        z.pop();
        if let Some(h) = h {
            z[0] = *h;
        }
        zs.extend(z);
    }
    let (mut x, mut y) = c.q;
    let (mut xs, mut l1s, mut l2s) = (vec![], vec![], vec![]);
    let n = c.gens.len();
    for i in 0..=n {
        if let Some((j, nx, ny)) = &c.jump {
            if *j == i {
                x = nx.unwrap_or(x);
                y = ny.unwrap_or(y);
            }
        }
        xs.push(x);
        if i == n {
            l1s.push(y);
            break;
        }
        let g = c.gens[i];
        let l1 = (y - g.1) * inv0(x - g.0);
        let xr = l1.square() - x - g.0;
        let l2 = y.double() * inv0(x - xr) - l1;
        let xn = l2.square() - x - xr;
        y = l2 * (x - xn) - y;
        x = xn;
        l1s.push(l1);
        l2s.push(l2);
    }
    s.runs.extend([xs, l1s, l2s, c.gens.iter().map(|g| g.0).collect(), zs]);
    s
}
fn result(s: &Sim) -> Pt {
    (*s.runs[0].last().unwrap(), *s.runs[1].last().unwrap())
}

/// forged hashes of a message; keep the pieces
fn sin_plans(h: &SinCheat, rng: &mut Rng, rounds: usize) -> Vec<(String, SinCheat)> {
    let mut plans: Vec<(String, SinCheat)> = vec![];
    let n = h.gens.len();
    let place = |i: usize| {
        let (mut p, mut j) = (0, i);
        while j >= h.words[p].len() {
            j -= h.words[p].len();
            p += 1;
        }
        (p, j)
    };
    for _ in 0..rounds {
        let any = coords(&P::random(&mut *rng));
        let minus = (h.q.0, -h.q.1);
        for q in [minus, any, (any.0, h.q.1), (h.q.0, any.1)] {
            plans.push((format!("starting at {:?}", q), SinCheat { q, ..h.clone() }));
        }
        let ends: Vec<usize> = h
            .words
            .iter()
            .scan(0, |a, w| {
                *a += w.len();
                Some(*a)
            })
            .collect();
        let mut spots = vec![0, n - 1, rng.below(n)];
        spots.extend(ends.iter().flat_map(|e| [e - 1, *e]).filter(|e| *e < n));
        rng.shuffle(&mut spots);
        for i in spots.into_iter().take(4) {
            let (p, j) = place(i);
            let other = rng.below(1024);
            let o = coords(&table()[other]);
            let mut c = h.clone();
            c.gens[i] = o;
            plans.push((format!("generator {} is that of {}", i, other), c.clone()));
            c.words[p][j] = Fp::from(other as u64);
            plans.push((format!("word {} is {}", i, other), c.clone()));
            let real = h.words[p].iter().rev().fold(Fp::zero(), |a, w| a * Fp::from(1024) + w);
            c.heads[p] = Some(real);
            plans.push((format!("word {} is {}, piece unchanged", i, other), c));
            let mut c = h.clone();
            c.gens[i].1 = -c.gens[i].1;
            plans.push((format!("generator {} negated", i), c));
            let mut c = h.clone();
            c.gens[i] = any;
            plans.push((format!("generator {} arbitrary", i), c));
            // carries
            if j + 1 < h.words[p].len() {
                let mut c = h.clone();
                c.words[p][j] += Fp::from(1024);
                c.words[p][j + 1] -= Fp::one();
                plans.push((format!("carry at {}", i), c));
            } else {
                let mut c = h.clone();
                c.words[p][j] += Fp::from(1024 * (1 + rng.below(3) as u64));
                plans.push((format!("word {} too large", i), c));
            }
            let v = match rng.below(3) {
                0 => (Some(any.0), None),
                1 => (None, Some(any.1)),
                _ => (Some(any.0), Some(any.1)),
            };
            plans.push((format!("accumulator replaced at {}", i), SinCheat { jump: Some((i, v.0, v.1)), ..h.clone() }));
            // the accumulator's sign
            let before = result(&sin_sim(&SinCheat { gens: h.gens[..i].to_vec(), ..h.clone() }));
            plans.push((format!("accumulator negated at {}", i), SinCheat { jump: Some((i, None, Some(-before.1))), ..h.clone() }));
        }
        let r = result(&sin_sim(h));
        plans.push(("result negated".into(), SinCheat { jump: Some((n, None, Some(-r.1))), ..h.clone() }));
        plans.push(("result replaced".into(), SinCheat { jump: Some((n, Some(any.0), Some(any.1))), ..h.clone() }));
        plans.push(("result x replaced".into(), SinCheat { jump: Some((n, Some(any.0), None)), ..h.clone() }));
    }
    plans
}

/// the pieces of a layer: a, b, c from l, the 250 low bits of left, b_1, z1_b, c
#[derive(Clone, Debug)]
struct LayerCheat {
    l: Fp,
    e: Fp,
    b1: Fp,
    b2: Fp,
    z1b: Fp,
    c: Fp,
}
impl LayerCheat {
    fn honest(l: usize, left: &[bool], right: &[bool]) -> Self {
        let b1 = from_bits::<Fp>(&left[250..255]);
        let b2 = from_bits::<Fp>(&right[..5]);
        LayerCheat {
            l: Fp::from(l as u64),
            e: from_bits::<Fp>(&left[..250]),
            b1,
            b2,
            z1b: b1 + b2 * Fp::from(32),
            c: from_bits::<Fp>(&right[5..255]),
        }
    }
    fn pieces(&self) -> Vec<(Fp, usize)> {
        let e = bits_of(&self.e);
        let a1 = from_bits::<Fp>(&e[..240]);
        let b0 = from_bits::<Fp>(&e[240..250]);
        vec![(self.l + a1 * Fp::from(1024), 25), (b0 + self.z1b * Fp::from(1024), 2), (self.c, 25)]
    }
}
fn layer_sim(d: usize, left: &Fp, right: &Fp, c: &LayerCheat, s: &SinCheat) -> Sim {
    let _ = d;
    let mut sim = sin_sim(s);
    let p = c.pieces();
    let z1a = from_bits::<Fp>(&bits_of(&p[0].0)[10..]);
    sim.rows.push([vec![p[0].0, p[1].0, p[2].0, *left, *right], vec![z1a, c.z1b, c.b1, c.b2]]);
    for b in [c.b1, c.b2] {
        sim.runs.push(vec![b, b * Fp::from(32)]);
    }
    sim
}
fn layer_plans(d: usize, l: usize, left: &Fp, right: &Fp, rng: &mut Rng, rounds: usize) -> Vec<(String, Sim)> {
    let mut out = vec![];
    let (el, er) = (encodings(left), encodings(right));
    let mut add = |what: String, c: &LayerCheat| out.push((what, layer_sim(d, left, right, c, &SinCheat::honest(d, &c.pieces()))));
    for _ in 0..rounds {
        let h = LayerCheat::honest(l, &rng.pick::<Vec<bool>>(&el)[..], &rng.pick::<Vec<bool>>(&er)[..]);
        // another level
        for nl in [l ^ 1, rng.below(1024), l + 1024] {
            let mut c = h.clone();
            c.l = Fp::from(nl as u64);
            add(format!("level {}", nl), &c);
        }
        // l and the low bits of left trade
        let mut c = h.clone();
        c.l -= Fp::from(1024);
        c.e += Fp::one();
        add("level borrows from left".into(), &c);
        // other nodes
        let o = LayerCheat::honest(l, &bits_of(&Fp::random(&mut *rng)), &bits_of(&Fp::random(&mut *rng)));
        add("another left".into(), &LayerCheat { e: o.e, b1: o.b1, z1b: o.b1 + h.b2 * Fp::from(32), ..h.clone() });
        add("another right".into(), &LayerCheat { c: o.c, b2: o.b2, z1b: h.b1 + o.b2 * Fp::from(32), ..h.clone() });
        add("another low part of left".into(), &LayerCheat { e: o.e, ..h.clone() });
        add("another c".into(), &LayerCheat { c: o.c, ..h.clone() });
        add("another z1_b".into(), &LayerCheat { z1b: o.z1b, ..h.clone() });
        // b_1 or b_2 out of range, the rest fitted to it
        let (i32_, p250) = (Fp::from(32).invert().unwrap(), pow2::<Fp>(250));
        let mut found = [0; 2];
        for _ in 0..2000 {
            let z = Fp::from(rng.below(1024) as u64);
            if found[0] < 3 {
                let b1 = z - h.b2 * Fp::from(32);
                let e = *left - p250 * b1;
                if !fits(&b1, 5) && fits(&e, 250) {
                    found[0] += 1;
                    add(format!("b_1 is {:?}", b1), &LayerCheat { b1, e, z1b: z, ..h.clone() });
                }
            }
            if found[1] < 3 {
                let b2 = (z - h.b1) * i32_;
                let c = (*right - b2) * i32_;
                if !fits(&b2, 5) && fits(&c, 250) {
                    found[1] += 1;
                    add(format!("b_2 is {:?}", b2), &LayerCheat { b2, c, z1b: z, ..h.clone() });
                }
            }
        }
        // 5-bit values that do not fit the second word
        let b1 = Fp::from(rng.below(32) as u64);
        let e = *left - p250 * b1;
        add("another b_1".into(), &LayerCheat { b1, e, ..h.clone() });
        let b2 = Fp::from(rng.below(32) as u64);
        add("another b_2".into(), &LayerCheat { b2, c: (*right - b2) * i32_, ..h.clone() });
    }
    let h = LayerCheat::honest(l, &el[0], &er[0]);
    for (what, s) in sin_plans(&SinCheat::honest(d, &h.pieces()), rng, 1) {
        out.push((what, layer_sim(d, left, right, &h, &s)));
    }
    out
}

// ------------------------------------------------------------------ workloads
fn piece(rng: &mut Rng, words: usize) -> (Fp, usize) {
    let n = 10 * words;
    let bits: Vec<bool> = match rng.below(5) {
        0 => vec![false; n],
        1 => vec![true; n],
        2 => (0..n).map(|i| i + 1 == n).collect(),
        _ => (0..n).map(|_| rng.bool()).collect(),
    };
    (from_bits::<Fp>(&bits), words)
}
fn pieces(rng: &mut Rng, generic: Option<&[(Fp, usize)]>) -> Vec<(Fp, usize)> {
    match generic {
        Some(p) => p.iter().map(|(_, w)| (from_bits::<Fp>(&(0..10 * w).map(|_| rng.bool()).collect::<Vec<_>>()), *w)).collect(),
        None => {
            let n = match rng.below(4) {
                0 => 1,
                1 => 2,
                _ => rng.range(1, 5),
            };
            (0..n)
                .map(|_| {
                    let w = match rng.below(4) {
                        0 => 1,
                        1 => 25,
                        2 => 2,
                        _ => rng.range(1, 25),
                    };
                    piece(rng, w)
                })
                .collect()
        }
    }
}
fn node(rng: &mut Rng) -> Fp {
    match rng.below(5) {
        0 => edge_alpha(rng),
        1 => scalar(rng),
        _ => Fp::random(&mut *rng),
    }
}
fn rnode(rng: &mut Rng) -> Fp {
    loop {
        let v = Fp::random(&mut *rng);
        let b = bits_of(&v);
        if from_bits::<Fp>(&b[..5]) != Fp::one() && b[3] && b[252] {
            return v;
        }
    }
}
fn sop(rng: &mut Rng, kind: usize) -> SOp {
    let d = rng.below(3);
    let x = rng.chance(1, 3);
    match kind {
        0 => SOp::Hash { d, pieces: pieces(rng, None), x },
        1 => SOp::Commit { pieces: pieces(rng, None), r: edge_full(rng), x },
        2 => {
            let l = match rng.below(4) {
                0 => 0,
                1 => 1023,
                _ => rng.below(1024),
            };
            let left = node(rng);
            SOp::Layer { d, l, left, right: if rng.chance(1, 6) { left } else { node(rng) } }
        }
        _ => {
            let depth = rng.range(1, 4);
            SOp::Path { d, par: 1 + rng.below(2), leaf: node(rng), pos: rng.u64() as u32, sib: (0..depth).map(|_| node(rng)).collect() }
        }
    }
}
fn sgeneric(op: &SOp, rng: &mut Rng) -> SOp {
    match op {
        SOp::Hash { d, pieces: p, x } => SOp::Hash { d: *d, pieces: pieces(rng, Some(p)), x: *x },
        SOp::Commit { pieces: p, x, .. } => SOp::Commit { pieces: pieces(rng, Some(p)), r: Fq::random(&mut *rng), x: *x },
        SOp::Layer { d, l, .. } => SOp::Layer { d: *d, l: *l, left: rnode(rng), right: rnode(rng) },
        SOp::Path { d, par, pos, sib, .. } => SOp::Path { d: *d, par: *par, leaf: rnode(rng), pos: !pos, sib: sib.iter().map(|_| rnode(rng)).collect() },
    }
}
fn svary(op: &SOp, rng: &mut Rng) -> SOp {
    let mut n = sgeneric(op, rng);
    match (&mut n, op) {
        (SOp::Hash { d, pieces, .. }, SOp::Hash { pieces: o, .. }) => {
            if rng.chance(1, 3) {
                *d = (*d + 1) % 3;
            }
            if rng.bool() {
                let j = rng.below(o.len());
                for (i, p) in o.iter().enumerate() {
                    if i != j {
                        pieces[i] = *p;
                    }
                }
            }
        }
        (SOp::Commit { pieces, r, .. }, SOp::Commit { pieces: o, r: or, .. }) => match rng.below(3) {
            0 => *pieces = o.clone(),
            1 => *r = *or,
            _ => (),
        },
        (SOp::Layer { d, l, left, right }, SOp::Layer { left: a, right: b, .. }) => match rng.below(5) {
            0 => *left = *a,
            1 => *right = *b,
            2 => {
                *left = *b;
                *right = *a;
            }
            3 => {
                *left = *a;
                *right = *b;
                *l = (*l + 1) % 1024;
            }
            _ => *d = (*d + 1) % 3,
        },
        (SOp::Path { leaf, pos, sib, .. }, SOp::Path { leaf: a, pos: p, sib: s, .. }) => match rng.below(4) {
            0 => {
                *leaf = *a;
                *sib = s.clone();
            }
            1 => {
                *pos = *p;
                *sib = s.clone();
            }
            2 => {
                *leaf = *a;
                *pos = *p;
            }
            _ => (),
        },
        _ => (),
    }
    n
}
/// the cells of siblings and position bits: what two recordings agree on
fn find_sibs(recs: &[(&SOp, &Rec<Fp>)]) -> Option<Vec<(Pos, Pos)>> {
    let depth = match recs[0].0 {
        SOp::Path { sib, .. } => sib.len(),
        _ => return None,
    };
    let get = |op: &SOp, l: usize| match op {
        SOp::Path { sib, pos, .. } => (sib[l], Fp::from((pos >> l & 1) as u64)),
        _ => unreachable!(),
    };
    (0..depth)
        .map(|l| {
            let cands: Vec<Pos> = recs[0].1.order.iter().filter(|p| p.0 == 'a' && recs.iter().all(|(o, r)| r.cell(**p) == get(o, l).0)).cloned().collect();
            let cands: Vec<Pos> = cands.into_iter().collect::<HashSet<_>>().into_iter().collect();
            if cands.len() != 1 {
                return None;
            }
            let s = cands[0];
            let bits: Vec<Pos> = (0..recs[0].1.advice.len())
                .map(|c| ('a', c, s.2))
                .filter(|p| recs[0].1.cell_region.get(p) == recs[0].1.cell_region.get(&s) && recs.iter().all(|(o, r)| r.cell(*p) == get(o, l).1))
                .collect();
            if bits.len() == 1 {
                Some((s, bits[0]))
            } else {
                None
            }
        })
        .collect()
}

fn scase<const PLAN: usize>(ctx: &Ctx, rng: &mut Rng, kind: usize)
where
    SSubj<PLAN>: Circuit<Fp, Config = SCfg>,
{
    let mut ops = vec![sop(rng, kind)];
    if rng.chance(1, 4) {
        let j = *rng.pick(&[0, 0, 2]);
        ops.push(sop(rng, j));
    }
    if rng.chance(1, 6) {
        // the same twice, through both chips
        ops.push(ops[0].clone());
    }
    for o in &ops {
        ctx.count(match o {
            SOp::Hash { .. } => "sinsemilla hashes",
            SOp::Commit { .. } => "sinsemilla commitments",
            SOp::Layer { .. } => "merkle layers",
            SOp::Path { .. } => "merkle paths",
        });
    }
    ctx.eval(Some(hash_bytes(format!("{:?} {}", ops, PLAN).as_bytes())));
    let io = config_of::<Fp, SSubj<PLAN>>().io;
    let desc = || format!("{:?} planner {}", ops, PLAN);
    let c = SSubj::<PLAN> { ops: ops.clone(), known: true };
    let mut rec = match honest(ctx, "sinsemilla", KT, &c, &desc, &|r: &Rec<Fp>| sexact(&ops, io, r)) {
        Some(r) => r,
        None => return,
    };
    if rng.chance(1, 8) {
        mock(ctx, "sinsemilla", KT, &c, &desc);
    }
    let rounds = if ctx.thorough() { 2 } else { 1 };
    let gens: Vec<SOp> = ops.iter().map(|o| sgeneric(o, rng)).collect();
    let gens2: Vec<SOp> = gens.iter().map(|o| sgeneric(o, rng)).collect();
    let take = |ops: &[SOp]| {
        let c = SSubj::<PLAN> { ops: ops.to_vec(), known: true };
        match guard(|| record(KT, &c, &[], |_| Fp::one(), None)) {
            Out::Ok(Ok(g)) if g.order == rec.order => Some(g),
            _ => None,
        }
    };
    let (gen, gen2) = match (take(&gens), take(&gens2)) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            ctx.count("locators that failed");
            return;
        }
    };
    let hidden: Vec<Hidden> = ops
        .iter()
        .enumerate()
        .map(|(n, o)| match o {
            SOp::Commit { .. } => Hidden {
                digits: match &gens[n] {
                    SOp::Commit { r, .. } => window_cells(&gen, r),
                    _ => None,
                },
                sibs: None,
            },
            SOp::Path { .. } => Hidden { digits: None, sibs: find_sibs(&[(&gens[n], &gen), (&gens2[n], &gen2)]) },
            _ => Hidden::default(),
        })
        .collect();
    ctx.add("private inputs located", hidden.iter().filter(|h| h.digits.is_some() || h.sibs.is_some()).count() as u64);
    let h = |r: &Rec<Fp>| sholds(&ops, io, &hidden, r);
    if let Err(e) = h(&rec) {
        ctx.violation("sinsemilla-relation", format!("{}: {}", desc(), e));
        return;
    }
    for _ in 0..2 * rounds {
        let other: Vec<SOp> = ops.iter().map(|o| if rng.chance(3, 4) { svary(o, rng) } else { o.clone() }).collect();
        let oc = SSubj::<PLAN> { ops: other.clone(), known: true };
        if let Out::Ok(Ok(o)) = guard(|| record(KT, &oc, &[], |_| Fp::one(), None)) {
            transplant(ctx, "sinsemilla", &mut rec, &o, rng, 5, &desc, &format!("with the witness of {:?}", other), &h);
        }
    }
    let atk = Attack::new(&rec);
    let (mut i, mut o) = (0, 0);
    for (n, op) in ops.iter().enumerate() {
        let (ip, opos) = (i, o);
        i += op.inputs().len();
        o += op.outputs();
        let mut keep: HashSet<Pos> = (0..op.inputs().len()).map(|j| atk.rep(io.ip(ip + j))).collect();
        let (at, plans): (Places, Vec<(String, Sim)>) = match (op, &gens[n]) {
            (SOp::Hash { d, pieces, .. }, SOp::Hash { pieces: g, .. }) => (
                locate(&gen, &sin_sim(&SinCheat::honest(*d, g))),
                sin_plans(&SinCheat::honest(*d, pieces), rng, rounds).into_iter().map(|(w, c)| (w, sin_sim(&c))).collect(),
            ),
            (SOp::Commit { pieces, .. }, SOp::Commit { pieces: g, .. }) => (
                locate(&gen, &sin_sim(&SinCheat::honest(1, g))),
                sin_plans(&SinCheat::honest(1, pieces), rng, rounds).into_iter().map(|(w, c)| (w, sin_sim(&c))).collect(),
            ),
            (SOp::Layer { d, l, left, right }, SOp::Layer { left: gl, right: gr, .. }) => {
                let c = LayerCheat::honest(*l, &bits_of(gl), &bits_of(gr));
                (
                    locate(&gen, &layer_sim(*d, gl, gr, &c, &SinCheat::honest(*d, &c.pieces()))),
                    layer_plans(*d, *l, left, right, rng, rounds),
                )
            }
            _ => continue,
        };
        ctx.add("cells located", at.found());
        let piece_cells: Vec<Pos> = match op {
            SOp::Hash { pieces, .. } | SOp::Commit { pieces, .. } => (0..pieces.len()).map(|j| atk.rep(io.op(opos + j))).collect(),
            _ => vec![],
        };
        for (what, sim) in plans {
            // sometimes the pieces may change along
            let held = rng.bool();
            if held {
                keep.extend(piece_cells.iter().cloned());
            } else {
                piece_cells.iter().for_each(|p| {
                    keep.remove(p);
                });
            }
            let init = forge(&rec, &atk, &at, &sim, &keep);
            if init.is_empty() {
                continue;
            }
            ctx.count("forged computations");
            let how = || format!("{} of {:?}", what, op);
            if !force(ctx, "sinsemilla", &mut rec, &atk, &init, rng, &desc, &how, &h) {
                return;
            }
        }
    }
    attack_all(ctx, "sinsemilla", &mut rec, rng, 24 * rounds, &desc, &h);
}

/// pieces too large for their words
fn srefusals(ctx: &Ctx, rng: &mut Rng) {
    let mut ps = pieces(rng, None);
    let j = rng.below(ps.len());
    let n = 10 * ps[j].1;
    let v = ps[j].0;
    ps[j].0 = v + match rng.below(3) {
        0 => pow2::<Fp>(n),
        1 => pow2::<Fp>(rng.range(n, 253)),
        _ => -Fp::one() - v,
    };
    let ops = vec![SOp::Hash { d: rng.below(3), pieces: ps, x: rng.bool() }];
    let c = SSubj::<0> { ops: ops.clone(), known: true };
    refused(ctx, "sinsemilla", KT, &c, &|| format!("{:?}", ops));
}

pub fn c20(ctx: Ctx) {
    ctx.rule("the visible inputs and outputs of every satisfied assignment are related by the native hash; honest runs give exactly the native result");
    ctx.set_budget(45, 600);
    let _ = (table(), fixed::full_tab(1));
    macro_rules! pos {
        ($name:literal, $f:ty, $s:ty, $t:literal, $r:literal, $sel:literal, $n:literal, $th:literal) => {
            ctx.cases(concat!("poseidon-", $name), 4, ctx.n($n, $th), |_, rng| pcase::<$f, $s, $t, $r>(&ctx, $name, rng, $sel));
        };
    }
    pos!("fp-t3", Fp, Gen<8, 56, 0>, 3, 2, 0, 8, 300);
    pos!("fp-p128", Fp, hp::P128Pow5T3, 3, 2, 0, 6, 200);
    pos!("fq-p128", Fq, hp::P128Pow5T3, 3, 2, 0, 4, 100);
    pos!("fr-t2", Fr, Gen<4, 6, 0>, 2, 1, 0, 12, 300);
    pos!("fp-t2", Fp, Gen<2, 2, 1>, 2, 1, 1, 12, 300);
    pos!("fq-t4", Fq, Gen<6, 8, 0>, 4, 3, 0, 10, 300);
    pos!("fr-t5", Fr, Gen<8, 60, 0>, 5, 4, 0, 6, 200);
    pos!("fp-t3-small", Fp, Gen<4, 0, 0>, 3, 2, 0, 12, 300);
    macro_rules! sin {
        ($name:literal, $p:literal, $kind:literal, $min:literal, $n:literal, $t:literal) => {
            ctx.cases($name, $min, ctx.n($n, $t), |_, rng| scase::<$p>(&ctx, rng, $kind));
        };
    }
    sin!("sinsemilla", 0, 0, 8, 32, 800);
    sin!("sinsemilla-v1", 1, 0, 2, 8, 200);
    sin!("layer", 0, 2, 8, 24, 800);
    sin!("layer-v1", 1, 2, 2, 8, 200);
    sin!("commit", 0, 1, 4, 8, 200);
    sin!("path", 0, 3, 8, 16, 400);
    sin!("path-v1", 1, 3, 2, 4, 100);
    ctx.cases("refused", 4, ctx.n(12, 300), |_, rng| srefusals(&ctx, rng));
    ctx.sample(json!({"poseidon": "Fp, Fq, bn256 Fr; widths 2-5; 2-68 rounds", "sinsemilla": "1-5 pieces of 1-25 words, 3 domains", "merkle": "levels 0-1023, depth 1-4, one or two chips"}));
    ctx.finish(&[
        ("honest gadget runs", 40),
        ("poseidon hashes", 10),
        ("poseidon permutations", 4),
        ("poseidon sponges", 8),
        ("forged states", 50),
        ("sinsemilla hashes", 10),
        ("sinsemilla commitments", 4),
        ("merkle layers", 10),
        ("merkle paths", 8),
        ("forged computations", 300),
        ("cells located", 500),
        ("forged witnesses", 1000),
        ("forged witnesses rejected", 500),
        ("values outside the promise", 4),
    ]);
}
