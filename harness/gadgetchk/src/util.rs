//! C21: range checks, running sums, conditional swap, bit helpers.
use crate::prim::scalar;
use crate::subj::*;
use ff::{PrimeField, PrimeFieldBits};
use halo2_gadgets::utilities::cond_swap::{CondSwapChip, CondSwapConfig, CondSwapInstructions};
use halo2_gadgets::utilities::decompose_running_sum::RunningSumConfig;
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_gadgets::utilities::*;
use halo2_proofs::arithmetic::FieldExt;
use halo2_proofs::circuit::{floor_planner::V1, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use halo2curves::pasta::{Fp, Fq};
use kit::*;
use serde_json::json;
use zkit::*;

pub trait Fld: FieldExt + PrimeFieldBits + Key {}
impl Fld for Fp {}
impl Fld for Fq {}

/// little-endian canonical bits, from the byte representation
pub fn bits_of<F: PrimeField>(v: &F) -> Vec<bool> {
    let mut out = vec![];
    for b in v.to_repr().as_ref() {
        for i in 0..8 {
            out.push(b >> i & 1 == 1);
        }
    }
    out
}
pub fn fits<F: PrimeField>(v: &F, bits: usize) -> bool {
    bits_of(v).iter().skip(bits).all(|b| !b)
}
pub fn pow2<F: FieldExt>(n: usize) -> F {
    F::from(2).pow_vartime(&[n as u64])
}
pub fn from_bits<F: FieldExt>(b: &[bool]) -> F {
    b.iter().rev().fold(F::zero(), |a, x| a.double() + F::from(*x as u64))
}

#[derive(Clone, Debug)]
enum Op<F> {
    Check { v: F, nw: usize, strict: bool, copied: bool },
    Short { v: F, bits: usize, copied: bool },
    Subset { v: F, lo: usize, hi: usize },
    Decomp { v: F, word: usize, nw: usize, strict: bool, copied: bool, offset: usize },
    Swap { a: F, b: F, s: bool },
}

impl<F: Fld> Op<F> {
    fn input(&self) -> Option<F> {
        match self {
            Op::Check { v, copied: true, .. } | Op::Short { v, copied: true, .. } | Op::Decomp { v, copied: true, .. } => Some(*v),
            Op::Swap { a, .. } => Some(*a),
            _ => None,
        }
    }
    fn outs(&self) -> usize {
        match self {
            Op::Check { nw, .. } | Op::Decomp { nw, .. } => nw + 1,
            Op::Short { copied, .. } => !*copied as usize,
            Op::Subset { .. } => 1,
            Op::Swap { .. } => 2,
        }
    }
    fn rows(&self) -> usize {
        match self {
            Op::Check { nw, .. } => nw + 2,
            Op::Decomp { nw, offset, .. } => nw + 2 + offset,
            _ => 4,
        }
    }
}

#[derive(Clone, Debug)]
struct Subj<F, const K: usize, const W: usize, const PLAN: usize> {
    ops: Vec<Op<F>>,
    known: bool,
}
#[derive(Clone, Debug)]
struct Cfg<F: Fld, const K: usize, const W: usize> {
    io: Io,
    table: TableColumn,
    lk: LookupRangeCheckConfig<F, K>,
    rs: RunningSumConfig<F, W>,
    swap: CondSwapConfig,
    priv_col: Column<Advice>,
}

fn configure<F: Fld, const K: usize, const W: usize>(meta: &mut ConstraintSystem<F>) -> Cfg<F, K, W> {
    let io = Io::configure(meta);
    let c = meta.fixed_column();
    meta.enable_constant(c);
    let table = meta.lookup_table_column();
    let run = meta.advice_column();
    let lk = LookupRangeCheckConfig::configure(meta, run, table);
    let q = meta.selector();
    let z = meta.advice_column();
    let rs = RunningSumConfig::configure(meta, q, z);
    let adv = [meta.advice_column(), meta.advice_column(), meta.advice_column(), meta.advice_column(), meta.advice_column()];
    for a in adv {
        meta.enable_equality(a);
    }
    let swap = CondSwapChip::configure(meta, adv);
    let priv_col = meta.advice_column();
    meta.enable_equality(priv_col);
    Cfg { io, table, lk, rs, swap, priv_col }
}

fn synth<F: Fld, const K: usize, const W: usize>(ops: &[Op<F>], known: bool, cfg: Cfg<F, K, W>, mut l: impl Layouter<F>) -> Result<(), Error> {
    let kn = |v: F| if known { Value::known(v) } else { Value::unknown() };
    l.assign_table(
        || "table",
        |mut t| {
            for i in 0..1usize << K {
                t.assign_cell(|| "t", cfg.table, i, || Value::known(F::from(i as u64)))?;
            }
            Ok(())
        },
    )?;
    let ins: Vec<F> = ops.iter().filter_map(|o| o.input()).collect();
    let ins = cfg.io.inputs(&mut l, &ins, known)?;
    let mut ins = ins.into_iter();
    let mut outs = vec![];
    for o in ops {
        match o {
            Op::Check { v, nw, strict, copied } => {
                let zs = if *copied {
                    cfg.lk.copy_check(l.namespace(|| "c"), ins.next().unwrap(), *nw, *strict)?
                } else {
                    cfg.lk.witness_check(l.namespace(|| "w"), kn(*v), *nw, *strict)?
                };
                outs.extend(zs.iter().cloned());
            }
            Op::Short { v, bits, copied } => {
                if *copied {
                    cfg.lk.copy_short_check(l.namespace(|| "cs"), ins.next().unwrap(), *bits)?;
                } else {
                    outs.push(cfg.lk.witness_short_check(l.namespace(|| "ws"), kn(*v), *bits)?);
                }
            }
            Op::Subset { v, lo, hi } => {
                let r = RangeConstrained::witness_short(&cfg.lk, l.namespace(|| "rc"), kn(*v).as_ref(), *lo..*hi)?;
                if r.num_bits() != hi - lo || r.value().num_bits() != hi - lo {
                    return Err(Error::Synthesis);
                }
                outs.push(r.inner().clone());
            }
            Op::Decomp { v, word, nw, strict, copied, offset } => {
                let i = if *copied { ins.next() } else { None };
                let zs = l.assign_region(
                    || "decompose",
                    |mut r| match &i {
                        Some(c) => cfg.rs.copy_decompose(&mut r, *offset, c.clone(), *strict, *word, *nw),
                        None => cfg.rs.witness_decompose(&mut r, *offset, kn(*v), *strict, *word, *nw),
                    },
                )?;
                outs.extend(zs.iter().cloned());
            }
            Op::Swap { b, s, .. } => {
                let chip = CondSwapChip::construct(cfg.swap.clone());
                let s = if known { Value::known(*s) } else { Value::unknown() };
                let (x, y) = chip.swap(l.namespace(|| "swap"), (ins.next().unwrap(), kn(*b)), s)?;
                outs.push(x);
                outs.push(y);
                // a private load in between must not disturb anything
                chip.load_private(l.namespace(|| "priv"), cfg.priv_col, kn(*b + F::one()))?;
            }
        }
    }
    cfg.io.outputs(&mut l, &outs)
}

macro_rules! planner {
    ($p:literal, $fp:ty) => {
        impl<F: Fld, const K: usize, const W: usize> Circuit<F> for Subj<F, K, W, $p> {
            type Config = Cfg<F, K, W>;
            type FloorPlanner = $fp;
            fn without_witnesses(&self) -> Self {
                Subj { ops: self.ops.clone(), known: false }
            }
            fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
                configure(meta)
            }
            fn synthesize(&self, cfg: Self::Config, l: impl Layouter<F>) -> Result<(), Error> {
                synth(&self.ops, self.known, cfg, l)
            }
        }
    };
}
planner!(0, SimpleFloorPlanner);
planner!(1, V1);

/// what the visible cells must satisfy
fn holds<F: Fld, const K: usize, const W: usize>(ops: &[Op<F>], io: Io, seconds: &[Vec<Pos>], rec: &Rec<F>) -> Result<(), String> {
    let (mut i, mut o) = (0, 0);
    for (n, op) in ops.iter().enumerate() {
        let inp = op.input().map(|_| {
            i += 1;
            rec.cell(io.ip(i - 1))
        });
        let out: Vec<F> = (0..op.outs()).map(|j| rec.cell(io.op(o + j))).collect();
        o += out.len();
        let err = |s: String| Err(format!("operation {} {:?}: {}", n, op, s));
        match op {
            Op::Check { nw, strict, .. } | Op::Decomp { nw, strict, .. } => {
                let w = if let Op::Check { .. } = op { K } else { W };
                if inp.map_or(false, |v| v != out[0]) {
                    return err("the running sum does not start with the element".into());
                }
                for j in 0..*nw {
                    let word = out[j] - pow2::<F>(w) * out[j + 1];
                    if !fits(&word, w) {
                        return err(format!("word {} is {:?}", j, word));
                    }
                }
                if *strict && !bool::from(out[*nw].is_zero()) {
                    return err(format!("the final running sum is {:?}", out[*nw]));
                }
            }
            Op::Short { bits, .. } => {
                let v = inp.unwrap_or_else(|| out[0]);
                if !fits(&v, *bits) {
                    return err(format!("{:?} does not fit {} bits", v, bits));
                }
            }
            Op::Subset { lo, hi, .. } => {
                if !fits(&out[0], hi - lo) {
                    return err(format!("{:?} does not fit {} bits", out[0], hi - lo));
                }
            }
            Op::Swap { .. } => {
                if inp != Some(out[0]) && inp != Some(out[1]) {
                    return err(format!("{:?} is neither of {:?}", inp, out));
                }
                // where the second, private element is found in the witness, the other output is it
                if let Some(c) = seconds.get(n) {
                    let a = inp.unwrap();
                    let other: Vec<F> = out.iter().enumerate().filter(|(j, _)| out[1 - j] == a).map(|x| *x.1).collect();
                    if !c.is_empty() && !c.iter().any(|p| other.contains(&rec.cell(*p))) {
                        return err(format!("the other output of {:?} is not the second element ({:?})", out, c));
                    }
                }
            }
        }
    }
    Ok(())
}

/// the honest outputs, exactly
fn exact<F: Fld, const K: usize, const W: usize>(ops: &[Op<F>], io: Io, rec: &Rec<F>) -> Result<(), String> {
    holds::<F, K, W>(ops, io, &[], rec)?;
    let mut o = 0;
    for (n, op) in ops.iter().enumerate() {
        let out: Vec<F> = (0..op.outs()).map(|j| rec.cell(io.op(o + j))).collect();
        o += out.len();
        let want: Vec<F> = match op {
            Op::Check { v, nw, .. } | Op::Decomp { v, nw, .. } => {
                let (w, lim) = match op {
                    Op::Decomp { word, .. } => (W, *word),
                    _ => (K, 256),
                };
                let bits = bits_of(v);
                let mut z = *v;
                let mut zs = vec![z];
                for j in 0..*nw {
                    let word: F = from_bits(&bits[(j * w).min(lim)..((j + 1) * w).min(lim)]);
                    z = (z - word) * pow2::<F>(w).invert().unwrap();
                    zs.push(z);
                }
                zs
            }
            Op::Short { v, copied, .. } => {
                if *copied {
                    vec![]
                } else {
                    vec![*v]
                }
            }
            Op::Subset { v, lo, hi } => vec![from_bits(&bits_of(v)[*lo..*hi])],
            Op::Swap { a, b, s } => {
                if *s {
                    vec![*b, *a]
                } else {
                    vec![*a, *b]
                }
            }
        };
        if out != want {
            return Err(format!("operation {} {:?}: outputs {:?}, expected {:?}", n, op, out, want));
        }
    }
    Ok(())
}

fn near<F: FieldExt>(rng: &mut Rng, bits: usize) -> F {
    // an edge or random value that fits `bits`
    if bits == 0 {
        return F::zero();
    }
    match rng.below(6) {
        0 => F::zero(),
        1 => pow2::<F>(bits) - F::one(),
        2 => pow2::<F>(rng.below(bits)),
        3 => pow2::<F>(bits - 1) - F::one(),
        _ => {
            let b: Vec<bool> = (0..bits).map(|_| rng.bool()).collect();
            from_bits(&b)
        }
    }
}
fn beyond<F: FieldExt>(rng: &mut Rng, bits: usize) -> F {
    // does not fit `bits` (< 254)
    loop {
        let v: F = match rng.below(7) {
            0 => pow2(bits),
            1 => pow2::<F>(bits) + F::one(),
            2 => -F::one(),
            3 => pow2::<F>(bits).double() - F::one(),
            4 => pow2::<F>(bits + rng.below(253 - bits)),
            5 => F::from(1 + rng.below(4) as u64) * pow2::<F>(1 + rng.below(10)).invert().unwrap(),
            _ => F::random(&mut *rng),
        };
        if !fits(&v, bits) {
            return v;
        }
    }
}

fn any_op<F: Fld, const K: usize, const W: usize>(rng: &mut Rng) -> Op<F> {
    let cap = F::CAPACITY as usize;
    match rng.below(9) {
        0 | 1 | 2 => {
            let nw = if rng.chance(1, 5) { cap / K } else { rng.range(1, (cap / K).min(14)) };
            let strict = rng.bool();
            Op::Check { v: if strict { near(rng, nw * K) } else { scalar(rng) }, nw, strict, copied: rng.bool() }
        }
        3 | 4 => {
            let copied = rng.bool();
            let bits = rng.range(0, if copied { K - 1 } else { K });
            Op::Short { v: near(rng, bits), bits, copied }
        }
        5 => {
            let n = rng.range(0, K - 1);
            let lo = rng.below(F::NUM_BITS as usize - n + 1);
            Op::Subset { v: scalar(rng), lo, hi: lo + n }
        }
        6 | 7 => {
            let word = match rng.below(4) {
                0 => F::NUM_BITS as usize,
                1 => 64,
                _ => rng.range(1, 60),
            };
            let nw = (word + W - 1) / W;
            let strict = rng.bool();
            let v = if !strict || word == F::NUM_BITS as usize { scalar(rng) } else { near(rng, word) };
            Op::Decomp { v, word, nw, strict, copied: rng.bool(), offset: if rng.chance(1, 3) { rng.below(4) } else { 0 } }
        }
        _ => {
            let a = scalar(rng);
            Op::Swap { a, b: if rng.chance(1, 5) { a } else { scalar(rng) }, s: rng.bool() }
        }
    }
}

fn size<F: Fld, const K: usize>(ops: &[Op<F>]) -> u32 {
    let rows: usize = ops.iter().map(|o| o.rows()).sum::<usize>() + 20;
    let outs: usize = ops.iter().map(|o| o.outs()).sum::<usize>() + 20;
    let need = rows.max(outs).max((1 << K) + 12);
    usize::BITS - (need - 1).leading_zeros()
}

fn case<F: Fld, const K: usize, const W: usize, const PLAN: usize>(ctx: &Ctx, rng: &mut Rng)
where
    Subj<F, K, W, PLAN>: Circuit<F, Config = Cfg<F, K, W>>,
{
    let n = rng.range(1, 4);
    let ops: Vec<Op<F>> = (0..n).map(|_| any_op::<F, K, W>(rng)).collect();
    let k = size::<F, K>(&ops);
    let c = Subj::<F, K, W, PLAN> { ops: ops.clone(), known: true };
    let io = config_of::<F, Subj<F, K, W, PLAN>>().io;
    let d = ops.clone();
    let desc = move || format!("K={} W={} planner={} {:?}", K, W, PLAN, d);
    let e = |r: &Rec<F>| exact::<F, K, W>(&ops, io, r);
    ctx.eval(Some(hash_bytes(format!("{}{}{:?}", K, W, ops).as_bytes())));
    for o in &ops {
        ctx.count(match o {
            Op::Check { .. } => "lookup range checks",
            Op::Short { .. } => "short range checks",
            Op::Subset { .. } => "bit subsets",
            Op::Decomp { .. } => "running sums",
            Op::Swap { .. } => "swaps",
        });
    }
    let mut rec = match honest(ctx, "util", k, &c, &desc, &e) {
        Some(r) => r,
        None => return,
    };
    if rng.chance(1, 8) {
        mock(ctx, "util", k, &c, &desc);
    }
    let atk = Attack::new(&rec);
    // cells that carry the second element of a swap, other than the outputs
    let visible: std::collections::HashSet<Pos> = (0..ops.len()).map(|i| atk.rep(io.ip(i))).chain((0..ops.iter().map(|o| o.outs()).sum()).map(|i| atk.rep(io.op(i)))).collect();
    let seconds: Vec<Vec<Pos>> = ops
        .iter()
        .enumerate()
        .map(|(n, o)| match o {
            Op::Swap { a, b, .. } if a != b && !ops.iter().enumerate().any(|(m, x)| m != n && matches!(x, Op::Swap { a: c, b: d, .. } if c == b || d == b)) => {
                rec.order.iter().filter(|p| p.0 == 'a' && rec.cell(**p) == *b && !visible.contains(&atk.rep(**p))).copied().collect()
            }
            _ => vec![],
        })
        .collect();
    ctx.add("private swap elements found", seconds.iter().filter(|s| !s.is_empty()).count() as u64);
    let h = |r: &Rec<F>| holds::<F, K, W>(&ops, io, &seconds, r);
    // forged decompositions
    let (mut i, mut o) = (0, 0);
    for op in &ops {
        let ip = op.input().map(|_| {
            i += 1;
            io.ip(i - 1)
        });
        let outs: Vec<Pos> = (0..op.outs()).map(|j| io.op(o + j)).collect();
        o += outs.len();
        match op {
            Op::Check { nw, .. } | Op::Decomp { nw, .. } => {
                let w = if let Op::Check { .. } = op { K } else { W };
                let mut plans: Vec<(Option<usize>, bool)> = (0..*nw).map(|j| (Some(j), false)).collect();
                if plans.len() > 12 {
                    rng.shuffle(&mut plans);
                    plans.truncate(10);
                    plans.push((Some(0), false));
                    plans.push((Some(nw - 1), false));
                }
                plans.push((None, true));
                plans.push((None, false));
                for (bad, end) in plans {
                    let mut words: Vec<F> = (0..*nw).map(|_| near(rng, w)).collect();
                    if let Some(j) = bad {
                        words[j] = beyond(rng, w);
                    }
                    // the last cell is free, zero or forged
                    let last = *outs.last().unwrap();
                    let zw = if !atk.mutable(last) {
                        rec.cell(last)
                    } else if end {
                        F::from(1 + rng.below(5) as u64)
                    } else if rng.bool() {
                        F::zero()
                    } else {
                        rec.cell(last)
                    };
                    let mut zs = vec![zw];
                    for x in words.iter().rev() {
                        let z = *x + pow2::<F>(w) * zs.last().unwrap();
                        zs.push(z);
                    }
                    zs.reverse();
                    let init: Vec<(Pos, F)> = outs.iter().zip(&zs).filter(|(p, _)| atk.mutable(**p)).map(|(p, v)| (*p, *v)).collect();
                    let how = || format!("decomposition {:?} ending in {:?}", words, zw);
                    if !force(ctx, "util", &mut rec, &atk, &init, rng, &desc, &how, &h) {
                        return;
                    }
                }
            }
            Op::Short { .. } | Op::Subset { .. } => {
                let bits = match op {
                    Op::Short { bits, .. } => *bits,
                    Op::Subset { lo, hi, .. } => hi - lo,
                    _ => 0,
                };
                for _ in 0..8 {
                    let v: F = if rng.chance(1, 3) { F::from((1u64 << bits) + rng.below((1 << K) + 2) as u64) } else { beyond(rng, bits) };
                    let p = ip.unwrap_or_else(|| outs[0]);
                    let how = || format!("element {:?}", v);
                    if !force(ctx, "util", &mut rec, &atk, &[(p, v)], rng, &desc, &how, &h) {
                        return;
                    }
                }
            }
            Op::Swap { .. } => {
                for _ in 0..4 {
                    let init = [(outs[0], scalar::<F>(rng)), (outs[1], scalar::<F>(rng))];
                    let how = || format!("swap outputs {:?}", init);
                    if !force(ctx, "util", &mut rec, &atk, &init, rng, &desc, &how, &h) {
                        return;
                    }
                }
            }
        }
    }
    attack_all(ctx, "util", &mut rec, rng, 60, &desc, &h);
    // values outside the promise, honestly processed
    let mut ops = ops;
    let j = rng.below(ops.len());
    match &mut ops[j] {
        Op::Check { v, nw, strict, .. } if *nw * K < 253 => {
            *strict = true;
            *v = beyond(rng, *nw * K);
        }
        Op::Short { v, bits, .. } => *v = if rng.bool() { F::from((1u64 << *bits) + rng.below(1 << K) as u64) } else { beyond(rng, *bits) },
        Op::Decomp { v, nw, strict, .. } if *nw * W < 253 => {
            *strict = true;
            *v = beyond(rng, *nw * W);
        }
        _ => return,
    }
    let c = Subj::<F, K, W, PLAN> { ops: ops.clone(), known: true };
    refused(ctx, "util", k, &c, &|| format!("K={} W={} operation {} of {:?} is out of range", K, W, j, ops));
}

// ------------------------------------------------------------------ helpers, natively
fn ev<F: FieldExt>(e: &Expression<F>) -> F {
    match e {
        Expression::Constant(c) => *c,
        Expression::Negated(a) => -ev(a),
        Expression::Sum(a, b) => ev(a) + ev(b),
        Expression::Product(a, b) => ev(a) * ev(b),
        Expression::Scaled(a, c) => ev(a) * c,
        _ => panic!("query"),
    }
}

fn native<F: Fld>(ctx: &Ctx, rng: &mut Rng) {
    let k = |v: F| Expression::Constant(v);
    ctx.eval(None);
    let range = rng.range(1, 40);
    let mut probe: Vec<F> = (0..range as u64 + 4).map(F::from).collect();
    probe.extend([-F::one(), -F::from(2), scalar(rng), scalar(rng), pow2::<F>(1).invert().unwrap()]);
    for v in &probe {
        let inside = (0..range as u64).any(|i| F::from(i) == *v);
        let got = guard(|| ev(&range_check(k(*v), range)));
        let ok = matches!(&got, Out::Ok(x) if bool::from(x.is_zero()) == inside);
        ctx.check(ok, "range-check", || format!("range_check({:?}, {}) = {:?}", v, range, got));
        let b = guard(|| ev(&bool_check(k(*v))));
        let inside = bool::from(v.is_zero()) || *v == F::one();
        let ok = matches!(&b, Out::Ok(x) if bool::from(x.is_zero()) == inside);
        ctx.check(ok, "bool-check", || format!("bool_check({:?}) = {:?}", v, b));
    }
    let (a, b, c): (F, F, F) = (scalar(rng), scalar(rng), scalar(rng));
    for a in [a, F::zero(), F::one()] {
        let t = guard(|| ev(&ternary(k(a), k(b), k(c))));
        ctx.check(matches!(&t, Out::Ok(x) if *x == a * b + (F::one() - a) * c), "ternary", || format!("ternary({:?}, {:?}, {:?}) = {:?}", a, b, c, t));
    }
    let v: F = if rng.chance(1, 3) { -F::from(1 + rng.u64() / 2) } else { scalar(rng) };
    let bits = bits_of(&v);
    for _ in 0..6 {
        let nb = F::NUM_BITS as usize;
        let lo = if rng.chance(1, 3) { 0 } else { rng.below(nb + 1) };
        let hi = match rng.below(4) {
            0 => nb,
            1 => lo,
            _ => rng.range(lo, nb),
        };
        let want: F = from_bits(&bits[lo..hi]);
        let g = guard(|| bitrange_subset(&v, lo..hi));
        ctx.check(matches!(&g, Out::Ok(x) if *x == want), "bitrange", || format!("bitrange_subset({:?}, {}..{}) = {:?}", v, lo, hi, g));
        let g = guard(|| {
            let r = RangeConstrained::bitrange_of(Value::known(&v), lo..hi);
            let mut val = None;
            r.inner().map(|x| val = Some(x));
            (r.num_bits(), val)
        });
        ctx.check(matches!(&g, Out::Ok((n, Some(x))) if *n == hi - lo && *x == want), "bitrange-of", || format!("bitrange_of({:?}, {}..{}) = {:?}", v, lo, hi, g));
        let word = rng.range(1, 256);
        let win = rng.range(1, 8);
        let g = guard(|| decompose_word(&v, word, win));
        let want: Vec<u8> = (0..(word + win - 1) / win)
            .map(|j| (0..win).filter(|i| j * win + i < word && bits[j * win + i]).map(|i| 1u8 << i).sum())
            .collect();
        ctx.check(matches!(&g, Out::Ok(x) if *x == want), "decompose-word", || format!("decompose_word({:?}, {}, {}) = {:?}, expected {:?}", v, word, win, g, want));
        ctx.count("slices");
    }
    macro_rules! ints {
        ($($l:literal),*) => {$({
            let x = match rng.below(4) { 0 => u64::MAX, 1 => 1u64 << rng.below(64), _ => rng.u64() };
            let g = guard(|| i2lebsp::<$l>(x));
            let ok = matches!(&g, Out::Ok(b) if (0..$l).all(|i| b[i] == (x >> i & 1 == 1)));
            ctx.check(ok, "i2lebsp", || format!("i2lebsp::<{}>({}) = {:?}", $l, x, g));
            if let Out::Ok(b) = g {
                let y = guard(|| lebs2ip::<$l>(&b));
                let want = if $l == 64 { x } else { x & ((1u64 << ($l % 64)) - 1) };
                ctx.check(matches!(&y, Out::Ok(y) if *y == want), "lebs2ip", || format!("lebs2ip::<{}>({:?}) = {:?}", $l, b, y));
            }
        })*};
    }
    ints!(0, 1, 2, 3, 7, 8, 10, 16, 31, 32, 33, 63, 64);
}

pub fn c21(ctx: Ctx) {
    ctx.rule("the visible input and output cells of every satisfied assignment meet the documented condition; honest runs are satisfied with the exact outputs");
    ctx.rule("lookup and short range checks, running sums (K, W, word counts, strictness), conditional swap, bit helpers");
    ctx.set_budget(25, 400);
    macro_rules! go {
        ($name:literal, $f:ty, $k:literal, $w:literal, $p:literal, $min:literal, $n:literal, $t:literal) => {
            ctx.cases($name, $min, ctx.n($n, $t), |_, rng| case::<$f, $k, $w, $p>(&ctx, rng));
        };
    }
    go!("fp-k3-w3", Fp, 3, 3, 0, 20, 240, 6000);
    go!("fq-k3-w2-v1", Fq, 3, 2, 1, 20, 160, 5000);
    go!("fp-k2-w1", Fp, 2, 1, 1, 20, 160, 5000);
    go!("fq-k5-w3", Fq, 5, 3, 0, 20, 160, 5000);
    go!("fp-k6-w3-v1", Fp, 6, 3, 1, 20, 160, 5000);
    go!("fp-k10-w3", Fp, 10, 3, 0, 10, 40, 2000);
    ctx.cases("native-fp", 100, ctx.n(600, 20000), |_, rng| native::<Fp>(&ctx, rng));
    ctx.cases("native-fq", 100, ctx.n(600, 20000), |_, rng| native::<Fq>(&ctx, rng));
    ctx.sample(json!({"fields": ["pasta Fp", "pasta Fq"], "lookup bits": [2, 3, 5, 6, 10], "windows": [1, 2, 3]}));
    ctx.finish(&[
        ("honest gadget runs", 60),
        ("lookup range checks", 40),
        ("short range checks", 20),
        ("running sums", 20),
        ("swaps", 10),
        ("private swap elements found", 0),
        ("forged witnesses", 2000),
        ("forged witnesses rejected", 1000),
        ("forged witnesses that satisfy the circuit", 20),
        ("values outside the promise", 30),
        ("slices", 400),
    ]);
}
