//! C22: the elliptic-curve chip.
use crate::fixed::{self, BaseField, Bases, Full, Short, P};
use crate::prim::{scalar, smul, xy};
use crate::subj::*;
use crate::util::{bits_of, fits, from_bits, pow2};
use ff::{Field, PrimeField};
use group::{Curve, Group};
use halo2_gadgets::ecc::chip::{EccChip, EccConfig, NUM_WINDOWS, NUM_WINDOWS_SHORT};
use halo2_gadgets::ecc::{FixedPoint, FixedPointBaseField, FixedPointShort, NonIdentityPoint, Point, ScalarFixed, ScalarFixedShort, ScalarVar};
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_proofs::arithmetic::CurveAffine;
use halo2_proofs::circuit::{floor_planner::V1, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use halo2curves::pasta::{pallas, Fp, Fq};
use kit::*;
use serde_json::json;
use std::collections::HashSet;
use zkit::*;

const KT: u32 = 11;
pub type Pt = (Fp, Fp);

#[derive(Clone, Debug)]
pub enum Op {
    /// a witnessed point, possibly the identity
    Wit { p: P, nonid: bool },
    /// complete addition; which operands are of the non-identity type
    Add { a: P, b: P, na: bool, nb: bool },
    Inc { a: P, b: P },
    Mul { b: P, alpha: Fp },
    Full { b: usize, s: Fq },
    Short { b: usize, m: Fp, s: Fp },
    BaseF { b: usize, alpha: Fp },
    Same { a: P, b: P, na: bool, nb: bool },
}
impl Op {
    fn inputs(&self) -> Vec<Fp> {
        match self {
            Op::Mul { alpha, .. } | Op::BaseF { alpha, .. } => vec![*alpha],
            Op::Short { m, s, .. } => vec![*m, *s],
            _ => vec![],
        }
    }
    fn points(&self) -> usize {
        match self {
            Op::Wit { .. } | Op::Full { .. } | Op::Short { .. } | Op::BaseF { .. } => 1,
            Op::Mul { .. } | Op::Same { .. } => 2,
            Op::Add { .. } | Op::Inc { .. } => 3,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Subj<const PLAN: usize> {
    ops: Vec<Op>,
    known: bool,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    io: Io,
    table: TableColumn,
    ecc: EccConfig<Bases>,
}

pub fn configure_ecc(meta: &mut ConstraintSystem<Fp>, table: TableColumn) -> (EccConfig<Bases>, [Column<Advice>; 10], [Column<Fixed>; 8], LookupRangeCheckConfig<Fp, 10>) {
    let adv: Vec<Column<Advice>> = (0..10).map(|_| meta.advice_column()).collect();
    let adv: [Column<Advice>; 10] = adv.try_into().unwrap();
    let lag: Vec<Column<Fixed>> = (0..8).map(|_| meta.fixed_column()).collect();
    let lag: [Column<Fixed>; 8] = lag.try_into().unwrap();
    let c = meta.fixed_column();
    meta.enable_constant(c);
    let rc = LookupRangeCheckConfig::configure(meta, adv[9], table);
    (EccChip::<Bases>::configure(meta, adv, lag, rc), adv, lag, rc)
}

fn configure(meta: &mut ConstraintSystem<Fp>) -> Cfg {
    let io = Io::configure(meta);
    let table = meta.lookup_table_column();
    let (ecc, ..) = configure_ecc(meta, table);
    Cfg { io, table, ecc }
}

type NP = NonIdentityPoint<pallas::Affine, EccChip<Bases>>;
type CP = Point<pallas::Affine, EccChip<Bases>>;
enum Any {
    N(NP),
    C(CP),
}
impl Any {
    fn cells(&self) -> [halo2_proofs::circuit::AssignedCell<Fp, Fp>; 2] {
        match self {
            Any::N(p) => [p.inner().x(), p.inner().y()],
            Any::C(p) => [p.inner().x(), p.inner().y()],
        }
    }
    fn c(&self) -> CP {
        match self {
            Any::N(p) => p.clone().into(),
            Any::C(p) => p.clone(),
        }
    }
}

fn synth(ops: &[Op], known: bool, cfg: Cfg, mut l: impl Layouter<Fp>) -> Result<(), Error> {
    l.assign_table(
        || "table",
        |mut t| {
            for i in 0..1024usize {
                t.assign_cell(|| "t", cfg.table, i, || Value::known(Fp::from(i as u64)))?;
            }
            Ok(())
        },
    )?;
    let chip = EccChip::<Bases>::construct(cfg.ecc.clone());
    let vals: Vec<Fp> = ops.iter().flat_map(|o| o.inputs()).collect();
    let ins = cfg.io.inputs(&mut l, &vals, known)?;
    let mut ins = ins.into_iter();
    let kp = |p: &P| if known { Value::known(p.to_affine()) } else { Value::unknown() };
    let mut outs = vec![];
    for o in ops {
        let mut new = |nonid: bool, p: &P| -> Result<Any, Error> {
            Ok(if nonid {
                Any::N(NonIdentityPoint::new(chip.clone(), l.namespace(|| "point"), kp(p))?)
            } else {
                Any::C(Point::new(chip.clone(), l.namespace(|| "point"), kp(p))?)
            })
        };
        match o {
            Op::Wit { p, nonid } => {
                let a = new(*nonid, p)?;
                outs.extend(a.cells());
            }
            Op::Add { a, b, na, nb } => {
                let a = new(*na, a)?;
                let b = new(*nb, b)?;
                outs.extend(a.cells());
                outs.extend(b.cells());
                let l = l.namespace(|| "add");
                let r = match (&a, &b) {
                    (Any::N(a), Any::N(b)) => a.add(l, b)?,
                    (Any::N(a), Any::C(b)) => a.add(l, b)?,
                    (Any::C(a), Any::N(b)) => a.add(l, b)?,
                    (Any::C(a), Any::C(b)) => a.add(l, b)?,
                };
                outs.extend(Any::C(r).cells());
            }
            Op::Inc { a, b } => {
                let a = new(true, a)?;
                let b = new(true, b)?;
                outs.extend(a.cells());
                outs.extend(b.cells());
                if let (Any::N(a), Any::N(b)) = (&a, &b) {
                    let r = a.add_incomplete(l.namespace(|| "incomplete"), b)?;
                    outs.extend(Any::N(r).cells());
                }
            }
            Op::Mul { b, .. } => {
                let b = new(true, b)?;
                outs.extend(b.cells());
                let c = ins.next().unwrap();
                let s = ScalarVar::from_base(chip.clone(), l.namespace(|| "scalar"), &c)?;
                if let Any::N(b) = &b {
                    let (r, _) = b.mul(l.namespace(|| "mul"), s)?;
                    outs.extend(Any::C(r).cells());
                }
            }
            Op::Full { b, s } => {
                let s = if known { Value::known(*s) } else { Value::unknown() };
                let s = ScalarFixed::new(chip.clone(), l.namespace(|| "scalar"), s)?;
                let f = FixedPoint::from_inner(chip.clone(), Full(*b));
                let (r, _) = f.mul(l.namespace(|| "full"), s)?;
                outs.extend(Any::C(r).cells());
            }
            Op::Short { b, .. } => {
                let m = ins.next().unwrap();
                let s = ins.next().unwrap();
                let s = ScalarFixedShort::new(chip.clone(), l.namespace(|| "scalar"), (m, s))?;
                let f = FixedPointShort::from_inner(chip.clone(), Short(*b));
                let (r, _) = f.mul(l.namespace(|| "short"), s)?;
                outs.extend(Any::C(r).cells());
            }
            Op::BaseF { b, .. } => {
                let f = FixedPointBaseField::from_inner(chip.clone(), BaseField(*b));
                let r = f.mul(l.namespace(|| "base field"), ins.next().unwrap())?;
                outs.extend(Any::C(r).cells());
            }
            Op::Same { a, b, na, nb } => {
                let a = new(*na, a)?;
                let b = new(*nb, b)?;
                outs.extend(a.cells());
                outs.extend(b.cells());
                let l = l.namespace(|| "same");
                match (&a, &b) {
                    (Any::N(a), Any::N(b)) => a.constrain_equal(l, b)?,
                    (Any::N(a), Any::C(b)) => a.constrain_equal(l, b)?,
                    (Any::C(a), b) => a.constrain_equal(l, &b.c())?,
                }
            }
        }
    }
    cfg.io.outputs(&mut l, &outs)
}

macro_rules! planner {
    ($p:literal, $fp:ty) => {
        impl Circuit<Fp> for Subj<$p> {
            type Config = Cfg;
            type FloorPlanner = $fp;
            fn without_witnesses(&self) -> Self {
                Subj { ops: self.ops.clone(), known: false }
            }
            fn configure(meta: &mut ConstraintSystem<Fp>) -> Self::Config {
                configure(meta)
            }
            fn synthesize(&self, cfg: Self::Config, l: impl Layouter<Fp>) -> Result<(), Error> {
                synth(&self.ops, self.known, cfg, l)
            }
        }
    };
}
planner!(0, SimpleFloorPlanner);
planner!(1, V1);

// ------------------------------------------------------------------ reference
pub fn coords(p: &P) -> Pt {
    xy(p).unwrap_or((Fp::zero(), Fp::zero()))
}
pub fn point(c: Pt) -> Result<P, String> {
    if bool::from(c.0.is_zero()) && bool::from(c.1.is_zero()) {
        return Ok(P::identity());
    }
    if c.1.square() != c.0.square() * c.0 + Fp::from(5) {
        return Err(format!("{:?} is not on the curve", c));
    }
    let a: Option<pallas::Affine> = pallas::Affine::from_xy(c.0, c.1).into();
    a.map(P::from).ok_or_else(|| "not a point".to_string())
}
/// the integer below p as a scalar
pub fn as_scalar(v: &Fp) -> Fq {
    from_bits::<Fq>(&bits_of(v))
}

/// the scalar of a column of windows
pub fn window_scalar_of(rec: &Rec<Fp>, ps: &[Pos]) -> Option<Fq> {
    let mut s = Fq::zero();
    for p in ps.iter().rev() {
        let d = rec.cell(*p);
        if !fits(&d, 3) {
            return None;
        }
        s = s * Fq::from(8) + as_scalar(&d);
    }
    Some(s)
}

/// where a full-width scalar's windows are, found from the honest recording
type Digits = Vec<Option<Vec<Pos>>>;

fn holds(ops: &[Op], io: Io, digits: &Digits, rec: &Rec<Fp>) -> Result<(), String> {
    let (mut i, mut o) = (0, 0);
    for (n, op) in ops.iter().enumerate() {
        let ins: Vec<Fp> = (0..op.inputs().len()).map(|j| rec.cell(io.ip(i + j))).collect();
        let mut pts = vec![];
        for j in 0..op.points() {
            let c = (rec.cell(io.op(o + 2 * j)), rec.cell(io.op(o + 2 * j + 1)));
            pts.push(point(c).map_err(|e| format!("operation {}: point {}: {}", n, j, e))?);
        }
        i += ins.len();
        o += 2 * pts.len();
        let id = |j: usize| bool::from(pts[j].is_identity());
        let err = |e: &str| Err(format!("operation {} {:?}: {}; inputs {:?} points {:?}", n, op, e, ins, pts.iter().map(coords).collect::<Vec<_>>()));
        match op {
            Op::Wit { nonid, .. } => {
                if *nonid && id(0) {
                    return err("identity");
                }
            }
            Op::Add { na, nb, .. } => {
                if *na && id(0) || *nb && id(1) {
                    return err("identity operand");
                }
                if pts[2] != pts[0] + pts[1] {
                    return err("wrong sum");
                }
            }
            Op::Inc { .. } => {
                if id(0) || id(1) {
                    return err("identity operand");
                }
                // the incomplete formula promises nothing when the x coordinates agree
                if coords(&pts[0]).0 != coords(&pts[1]).0 && pts[2] != pts[0] + pts[1] {
                    return err("wrong incomplete sum");
                }
            }
            Op::Mul { .. } => {
                if id(0) {
                    return err("identity base");
                }
                if pts[1] != smul(pts[0], &as_scalar(&ins[0])) {
                    return err("wrong product");
                }
            }
            Op::Full { b, .. } => {
                if let Some(ps) = &digits[n] {
                    let s = match window_scalar_of(rec, ps) {
                        Some(s) => s,
                        None => return err("window out of range"),
                    };
                    if pts[0] != smul(fixed::base(*b), &s) {
                        return err("wrong fixed-base product");
                    }
                }
            }
            Op::Short { b, .. } => {
                if !fits(&ins[0], 64) {
                    return err("magnitude out of range");
                }
                let m = smul(fixed::base(*b), &as_scalar(&ins[0]));
                let want = if ins[1] == Fp::one() {
                    m
                } else if ins[1] == -Fp::one() {
                    -m
                } else {
                    return err("sign out of range");
                };
                if pts[0] != want {
                    return err("wrong short fixed-base product");
                }
            }
            Op::BaseF { b, .. } => {
                if pts[0] != smul(fixed::base(*b), &as_scalar(&ins[0])) {
                    return err("wrong base-field fixed-base product");
                }
            }
            Op::Same { na, nb, .. } => {
                if *na && id(0) || *nb && id(1) {
                    return err("identity operand");
                }
                if pts[0] != pts[1] {
                    return err("different points constrained equal");
                }
            }
        }
    }
    Ok(())
}
/// the honest run must use exactly the given operands
fn exact(ops: &[Op], io: Io, rec: &Rec<Fp>) -> Result<(), String> {
    let (mut i, mut o) = (0, 0);
    for (n, op) in ops.iter().enumerate() {
        for v in op.inputs() {
            if rec.cell(io.ip(i)) != v {
                return Err(format!("operation {}: input changed", n));
            }
            i += 1;
        }
        let want: Vec<P> = match op {
            Op::Wit { p, .. } => vec![*p],
            Op::Add { a, b, .. } | Op::Inc { a, b } => vec![*a, *b, *a + *b],
            Op::Mul { b, alpha } => vec![*b, smul(*b, &as_scalar(alpha))],
            Op::Full { b, s } => vec![smul(fixed::base(*b), s)],
            Op::Short { b, m, s } => {
                let r = smul(fixed::base(*b), &as_scalar(m));
                vec![if *s == Fp::one() { r } else { -r }]
            }
            Op::BaseF { b, alpha } => vec![smul(fixed::base(*b), &as_scalar(alpha))],
            Op::Same { a, b, .. } => vec![*a, *b],
        };
        for w in want {
            let got = (rec.cell(io.op(o)), rec.cell(io.op(o + 1)));
            if got != coords(&w) {
                return Err(format!("operation {} {:?}: got {:?}, expected {:?}", n, op, got, coords(&w)));
            }
            o += 2;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ integers as bits
pub fn modulus() -> Vec<bool> {
    let mut m = bits_of(&-Fp::one());
    m[0] = true; // p - 1 is even
    m
}
pub fn sum(a: &[bool], b: &[bool]) -> Vec<bool> {
    let mut c = 0;
    let mut out = vec![];
    for i in 0..260 {
        let s = *a.get(i).unwrap_or(&false) as u8 + *b.get(i).unwrap_or(&false) as u8 + c;
        out.push(s & 1 == 1);
        c = s >> 1;
    }
    out
}
pub fn minus(a: &[bool], b: &[bool]) -> Option<Vec<bool>> {
    let mut br = 0i8;
    let mut out = vec![];
    for i in 0..260 {
        let d = *a.get(i).unwrap_or(&false) as i8 - *b.get(i).unwrap_or(&false) as i8 - br;
        out.push(d & 1 == 1);
        br = (d < 0) as i8;
    }
    if br == 0 {
        Some(out)
    } else {
        None
    }
}
pub fn short(b: &[bool], n: usize) -> bool {
    b.iter().skip(n).all(|x| !x)
}
/// q - 2^254
fn t_q() -> Vec<bool> {
    let mut q = bits_of(&-Fq::one());
    q[0] = true;
    q[254] = false;
    q
}
pub fn t_p() -> Vec<bool> {
    let mut p = modulus();
    p[254] = false;
    p
}

// ------------------------------------------------------------------ simulators
/// Values of a computation: columns of consecutive rows, pairs of neighbouring rows, loose ones.
#[derive(Default, Clone)]
pub struct Sim {
    pub runs: Vec<Vec<Fp>>,
    pub rows: Vec<[Vec<Fp>; 2]>,
    pub vals: Vec<Fp>,
}
/// the cells of such values
pub struct Places {
    pub runs: Vec<Vec<Vec<Pos>>>,
    pub rows: Vec<[Vec<Vec<Pos>>; 2]>,
    pub vals: Vec<Vec<Pos>>,
}
pub fn inv0(v: Fp) -> Fp {
    v.invert().unwrap_or(Fp::zero())
}
fn sum_of(p: Pt, q: Pt) -> (Pt, Vec<Fp>) {
    let alpha = inv0(q.0 - p.0);
    let lam = if p.0 != q.0 {
        (q.1 - p.1) * alpha
    } else {
        Fp::from(3) * p.0.square() * inv0(p.1.double())
    };
    let delta = if p.0 == q.0 { inv0(p.1 + q.1) } else { Fp::zero() };
    let z = |c: Pt| bool::from(c.0.is_zero());
    let r = if z(p) {
        q
    } else if z(q) {
        p
    } else if p.0 == q.0 && p.1 == -q.1 {
        (Fp::zero(), Fp::zero())
    } else {
        let x = lam.square() - p.0 - q.0;
        (x, lam * (p.0 - x) - p.1)
    };
    (r, vec![p.0, p.1, q.0, q.1, lam, alpha, inv0(p.0), inv0(q.0), delta])
}
/// the formulas of complete addition
pub fn add_complete(s: &mut Sim, p: Pt, q: Pt) -> Pt {
    let (r, v) = sum_of(p, q);
    s.rows.push([v, vec![r.0, r.1]]);
    r
}
pub fn add_inc(p: Pt, q: Pt) -> Pt {
    let lam = (q.1 - p.1) * inv0(q.0 - p.0);
    let x = lam.square() - p.0 - q.0;
    (x, lam * (p.0 - x) - p.1)
}

const HI: usize = 125;
const INC: usize = 251;
#[derive(Clone, Debug)]
struct MulCheat {
    alpha: Fp,
    base: Pt,
    /// what is added in the incomplete part, by row
    d: Vec<Pt>,
    start: Pt,
    /// digits that make up z, and digits the points follow
    zd: Vec<Fp>,
    pd: Vec<Fp>,
    /// coordinates of the accumulator replaced before a step
    jump: Option<(usize, Option<Fp>, Option<Fp>)>,
    /// z replaced after a step
    zjump: Option<(usize, Fp)>,
    /// operands of the three complete steps and of the last one
    comp: [Pt; 4],
    /// overflow check: z_130, s, k_254 as the check sees them
    ov: [Option<Fp>; 3],
    eta: Option<Fp>,
}
impl MulCheat {
    fn honest(b: &P, alpha: &Fp) -> Self {
        let base = coords(b);
        let k = field_digits(&sum(&bits_of(alpha), &t_q()));
        MulCheat {
            alpha: *alpha,
            base,
            d: vec![base; INC - HI],
            start: coords(&(*b + *b)),
            zd: k.clone(),
            pd: k,
            jump: None,
            zjump: None,
            comp: [base; 4],
            ov: [None; 3],
            eta: None,
        }
    }
    fn digits(&self, b: &[bool]) -> Self {
        MulCheat { zd: field_digits(b), pd: field_digits(b), ..self.clone() }
    }
}
fn field_digits(b: &[bool]) -> Vec<Fp> {
    (0..255).rev().map(|i| Fp::from(b[i] as u64)).collect()
}
fn mul_sim(c: &MulCheat) -> Sim {
    let mut s = Sim::default();
    let mut zs = vec![Fp::zero()];
    for (i, d) in c.zd.iter().enumerate() {
        let z = match &c.zjump {
            Some((j, v)) if *j == i => *v,
            _ => *zs.last().unwrap(),
        };
        zs.push(z.double() + d);
    }
    // zs[j] = z_{255 - j}
    s.runs.push(zs[..=HI].to_vec());
    let mut lo = zs[HI..=INC].to_vec();
    if let Some((HI, v)) = &c.zjump {
        lo[0] = *v;
    }
    s.runs.push(lo);
    add_complete(&mut s, c.base, c.base);
    s.rows[0][1] = vec![c.start.0, c.start.1];
    let (mut x, mut y) = c.start;
    for (from, to) in [(0, HI), (HI, INC)] {
        let (mut xs, mut l1s, mut l2s) = (vec![], vec![], vec![]);
        for i in from..to {
            if let Some((j, nx, ny)) = &c.jump {
                if *j == i {
                    x = nx.unwrap_or(x);
                    y = ny.unwrap_or(y);
                }
            }
            if i == from {
                l1s.push(y);
            }
            xs.push(x);
            let d = c.d[i - from];
            let yp = (c.pd[i].double() - Fp::one()) * d.1;
            let l1 = (y - yp) * inv0(x - d.0);
            let xr = l1.square() - x - d.0;
            let l2 = y.double() * inv0(x - xr) - l1;
            let xn = l2.square() - x - xr;
            y = l2 * (x - xn) - y;
            x = xn;
            l1s.push(l1);
            l2s.push(l2);
        }
        xs.push(x);
        l1s.push(y);
        s.runs.extend([xs, l1s, l2s]);
    }
    s.runs.push(c.d.iter().map(|d| d.0).collect());
    s.runs.push(c.d.iter().map(|d| d.1).collect());
    if let Some((INC, nx, ny)) = &c.jump {
        x = nx.unwrap_or(x);
        y = ny.unwrap_or(y);
    }
    let mut acc = (x, y);
    let mut col = vec![match &c.zjump {
        Some((INC, v)) => *v,
        _ => zs[INC],
    }];
    for i in 0..3 {
        let b = c.comp[i];
        let k = c.pd[INC + i];
        let u = (b.0, b.1 * inv0(k.double() - Fp::one()));
        let t = add_complete(&mut s, u, acc);
        acc = add_complete(&mut s, acc, t);
        col.extend([b.1, zs[INC + 1 + i]]);
    }
    col.push(zs[255]);
    s.runs.push(col);
    let k = Fp::one() - c.pd[254];
    let last = (k * c.comp[3].0, -k * c.comp[3].1);
    add_complete(&mut s, last, acc);
    // x and y of the base share the row of the result
    let n = s.rows.len() - 1;
    s.rows[n][1].extend([c.comp[3].0, c.comp[3].1]);
    // overflow check
    let z130 = c.ov[0].unwrap_or(zs[HI]);
    let k254 = c.ov[2].unwrap_or(zs[1]);
    let sv = c.ov[1].unwrap_or(c.alpha + k254 * pow2::<Fp>(130));
    let w = words(sv, 13);
    s.runs.push(vec![zs[255], z130, c.eta.unwrap_or(inv0(z130))]);
    s.runs.push(vec![k254, c.alpha, w[13]]);
    s.runs.push(w);
    s.vals.push(sv);
    s
}
/// running sum of 10-bit words
pub fn words(v: Fp, n: usize) -> Vec<Fp> {
    let b = bits_of(&v);
    (0..=n).map(|i| from_bits::<Fp>(&b[(10 * i).min(256)..])).collect()
}

#[derive(Clone, Debug)]
struct FixCheat {
    /// the scalar (or magnitude) and the sign
    alpha: Fp,
    sign: Fp,
    digits: Vec<Fp>,
    pts: Vec<Pt>,
    us: Vec<Fp>,
    jump: Option<(usize, Option<Fp>, Option<Fp>)>,
    /// the end of the running sum
    rest: Fp,
    /// sign and last window as the final check sees them, factor of y
    fin: [Option<Fp>; 3],
    /// alpha_1, alpha_2, alpha_0', z_84, z_44, z_43 as the canonicity check sees them
    can: [Option<Fp>; 6],
}
fn window_entry(b: usize, n: usize, w: usize, d: usize) -> (Pt, Fp) {
    let t = if n == NUM_WINDOWS { fixed::full_tab(b) } else { fixed::short_tab(b) };
    let u: Option<Fp> = Fp::from_repr(t.u[w][d]).into();
    (coords(&smul(fixed::base(b), &fixed::window_scalar(w, n, d))), u.unwrap())
}
fn fix_honest(b: usize, n: usize, bits: &[bool], alpha: Fp, sign: Fp) -> FixCheat {
    let ds: Vec<usize> = (0..n).map(|w| (0..3).map(|i| (*bits.get(3 * w + i).unwrap_or(&false) as usize) << i).sum()).collect();
    let e: Vec<(Pt, Fp)> = ds.iter().enumerate().map(|(w, d)| window_entry(b, n, w, *d)).collect();
    FixCheat {
        alpha,
        sign,
        digits: ds.iter().map(|d| Fp::from(*d as u64)).collect(),
        pts: e.iter().map(|x| x.0).collect(),
        us: e.iter().map(|x| x.1).collect(),
        jump: None,
        rest: Fp::zero(),
        fin: [None; 3],
        can: [None; 6],
    }
}
fn fix_of(op: &Op) -> Option<FixCheat> {
    Some(match op {
        Op::Full { b, s } => fix_honest(*b, NUM_WINDOWS, &bits_of(s), Fp::zero(), Fp::one()),
        Op::Short { b, m, s } => fix_honest(*b, NUM_WINDOWS_SHORT, &bits_of(m), *m, *s),
        Op::BaseF { b, alpha } => fix_honest(*b, NUM_WINDOWS, &bits_of(alpha), *alpha, Fp::one()),
        _ => return None,
    })
}
fn fix_sim(op: &Op, c: &FixCheat) -> Sim {
    let n = c.digits.len();
    let mut s = Sim::default();
    let mut z = vec![c.rest];
    for d in c.digits.iter().rev() {
        z.push(z.last().unwrap() * Fp::from(8) + d);
    }
    z.reverse();
    s.runs.push(if let Op::Full { .. } = op { c.digits.clone() } else { z.clone() });
    s.runs.push(c.pts.iter().map(|p| p.0).collect());
    s.runs.push(c.pts.iter().map(|p| p.1).collect());
    s.runs.push(c.us.clone());
    let mut acc = c.pts[0];
    let (mut xs, mut ys) = (vec![], vec![]);
    for w in 1..n {
        if let Some((j, x, y)) = &c.jump {
            if *j == w {
                acc = (x.unwrap_or(acc.0), y.unwrap_or(acc.1));
            }
        }
        xs.push(acc.0);
        ys.push(acc.1);
        if w < n - 1 {
            acc = add_inc(c.pts[w], acc);
        }
    }
    s.runs.extend([xs, ys]);
    if let Some((j, x, y)) = &c.jump {
        if *j == n {
            acc = (x.unwrap_or(acc.0), y.unwrap_or(acc.1));
        }
    }
    let r = add_complete(&mut s, c.pts[n - 1], acc);
    if let Op::Short { .. } = op {
        let sg = c.fin[0].unwrap_or(c.sign);
        let y = c.fin[2].unwrap_or(sg) * r.1;
        s.rows[0][1].extend([y, sg, c.fin[1].unwrap_or(z[21])]);
    }
    if let Op::BaseF { .. } = op {
        let z84 = c.can[3].unwrap_or(z[84]);
        let top = bits_of(&z84);
        let a0 = c.alpha - z84 * pow2::<Fp>(252);
        let prime = c.can[2].unwrap_or(a0 + pow2::<Fp>(130) - from_bits::<Fp>(&t_p()));
        let w = words(prime, 13);
        let a1 = c.can[0].unwrap_or(from_bits::<Fp>(&top[..2]));
        let a2 = c.can[1].unwrap_or(from_bits::<Fp>(&top[2..3]));
        s.runs.push(vec![c.alpha, prime, w[13]]);
        s.runs.push(vec![a1, c.can[4].unwrap_or(z[44])]);
        s.runs.push(vec![z84, a2, c.can[5].unwrap_or(z[43])]);
        s.runs.push(w);
    }
    s
}

/// Where the values of a computation are, found in a recording with generic inputs.
pub fn locate(rec: &Rec<Fp>, s: &Sim) -> Places {
    let (n, cols) = (rec.n, rec.advice.len());
    let assigned = |p: &Pos| rec.cell_region.contains_key(p);
    let small = |v: &Fp| bool::from(v.is_zero()) || *v == Fp::one();
    let runs = s
        .runs
        .iter()
        .map(|a| {
            let mut out = vec![vec![]; a.len()];
            if a.iter().all(small) {
                return out;
            }
            for c in 0..cols {
                for row in 0..=n - a.len() {
                    if (0..a.len()).all(|i| rec.cell(('a', c, row + i)) == a[i] && assigned(&('a', c, row + i))) {
                        for (i, o) in out.iter_mut().enumerate() {
                            o.push(('a', c, row + i));
                        }
                    }
                }
            }
            out
        })
        .collect();
    let at = |v: &Fp, row: usize| -> Vec<Pos> {
        let found: Vec<Pos> = (0..cols).map(|c| ('a', c, row)).filter(|p| rec.cell(*p) == *v && assigned(p)).collect();
        // 0 and 1 are common: believed only where nothing else in the row has that value
        if small(v) && found.len() != 1 {
            return vec![];
        }
        found
    };
    let rows = s
        .rows
        .iter()
        .map(|g| {
            let score = |row: usize| g[0].iter().filter(|v| !at(v, row).is_empty()).count() + g[1].iter().filter(|v| !at(v, row + 1).is_empty()).count();
            let best = (0..n - 1).max_by_key(|r| (score(*r), n - *r)).unwrap();
            if score(best) < 4 {
                return [vec![vec![]; g[0].len()], vec![vec![]; g[1].len()]];
            }
            [g[0].iter().map(|v| at(v, best)).collect(), g[1].iter().map(|v| at(v, best + 1)).collect()]
        })
        .collect();
    let vals = s
        .vals
        .iter()
        .map(|v| if small(v) { vec![] } else { rec.order.iter().filter(|p| p.0 == 'a' && rec.cell(**p) == *v).cloned().collect() })
        .collect();
    Places { runs, rows, vals }
}
impl Places {
    pub fn found(&self) -> u64 {
        self.runs.iter().flatten().chain(self.rows.iter().flat_map(|r| r.iter().flatten())).chain(&self.vals).filter(|p| !p.is_empty()).count() as u64
    }
}
/// Puts forged values into their places.
pub fn forge(rec: &Rec<Fp>, atk: &Attack<Fp>, at: &Places, f: &Sim, keep: &HashSet<Pos>) -> Vec<(Pos, Fp)> {
    let mut init: Vec<(Pos, Fp)> = vec![];
    let mut done = HashSet::new();
    let mut put = |ps: &[Pos], v: &Fp| {
        for p in ps {
            if atk.mutable(*p) && !keep.contains(&atk.rep(*p)) && done.insert(atk.rep(*p)) && rec.cell(*p) != *v {
                init.push((*p, *v));
            }
        }
    };
    for (a, b) in at.runs.iter().zip(&f.runs) {
        a.iter().zip(b).for_each(|(p, v)| put(p, v));
    }
    for (a, b) in at.rows.iter().zip(&f.rows) {
        for k in 0..2 {
            a[k].iter().zip(&b[k]).for_each(|(p, v)| put(p, v));
        }
    }
    at.vals.iter().zip(&f.vals).for_each(|(p, v)| put(p, v));
    init
}

// ------------------------------------------------------------------ workloads
pub fn rpoint(rng: &mut Rng) -> P {
    match rng.below(4) {
        0 => smul(P::generator(), &Fq::from(1 + rng.below(40) as u64)),
        1 => -smul(P::generator(), &Fq::from(1 + rng.below(40) as u64)),
        _ => P::random(&mut *rng),
    }
}
pub fn edge_alpha(rng: &mut Rng) -> Fp {
    let small = Fp::from(rng.below(20) as u64);
    let v = match rng.below(13) {
        // just below p: the twin alpha + t_q + p has bit 254 set and its middle bits full
        12 => -from_bits::<Fp>(&bits_of(&Fp::random(&mut *rng))[..rng.range(127, 130)]),
        0 => small,
        1 => -small,
        2 => small - from_bits::<Fp>(&t_q()),
        3 => pow2::<Fp>(rng.range(120, 254)) + small,
        4 => pow2::<Fp>(254) - small,
        5 => from_bits::<Fp>(&t_p()) - small,
        6 => pow2::<Fp>(130) - from_bits::<Fp>(&t_q()) + small - Fp::from(5),
        7 => {
            // j 2^252 + low - t_p: the twin of alpha has its middle bits clear
            let low = from_bits::<Fp>(&bits_of(&Fp::random(&mut *rng))[..rng.range(1, 125)]);
            Fp::from(1 + rng.below(3) as u64) * pow2::<Fp>(252) + low - from_bits::<Fp>(&t_p())
        }
        8 => {
            let v = from_bits::<Fp>(&bits_of(&Fp::random(&mut *rng))[..rng.range(100, 134)]);
            if rng.bool() {
                v
            } else {
                -v
            }
        }
        9 => Fp::from(rng.below(4) as u64) * pow2::<Fp>(252) + pow2::<Fp>(rng.below(252)),
        10 => from_bits::<Fp>(&vec![true; rng.range(1, 254)]),
        _ => scalar::<Fp>(rng),
    };
    v
}
fn edge_mag(rng: &mut Rng) -> Fp {
    Fp::from(match rng.below(6) {
        0 => u64::MAX - rng.below(10) as u64,
        1 => rng.below(20) as u64,
        2 => 1u64 << rng.below(64),
        3 => (1u64 << rng.range(1, 63)) - 1,
        _ => rng.u64(),
    })
}
pub fn edge_full(rng: &mut Rng) -> Fq {
    let d = 1 + rng.below(7) as u64;
    match rng.below(6) {
        0 => Fq::from(rng.below(20) as u64),
        1 => -Fq::from(rng.below(20) as u64),
        2 => (0..84).fold(Fq::zero(), |a, _| a * Fq::from(8) + Fq::from(d)),
        3 => pow2::<Fq>(rng.below(255)),
        _ => scalar::<Fq>(rng),
    }
}
fn sign(rng: &mut Rng) -> Fp {
    if rng.bool() {
        Fp::one()
    } else {
        -Fp::one()
    }
}
fn small_op(rng: &mut Rng) -> Op {
    let a = rpoint(rng);
    let b = match rng.below(6) {
        0 => a,
        1 => -a,
        _ => rpoint(rng),
    };
    let id = |rng: &mut Rng, p: P| if rng.chance(1, 4) { P::identity() } else { p };
    match rng.below(5) {
        0 => {
            let nonid = rng.bool();
            Op::Wit { p: if nonid { a } else { id(rng, a) }, nonid }
        }
        1 | 2 => {
            let (na, nb) = (rng.chance(1, 3), rng.chance(1, 3));
            Op::Add { a: if na { a } else { id(rng, a) }, b: if nb { b } else { id(rng, b) }, na, nb }
        }
        3 => {
            let mut b = b;
            while coords(&b).0 == coords(&a).0 {
                b = P::random(&mut *rng);
            }
            Op::Inc { a, b }
        }
        _ => {
            let (na, nb) = (rng.bool(), rng.bool());
            let p = if na || nb { a } else { id(rng, a) };
            Op::Same { a: p, b: p, na, nb }
        }
    }
}
fn big_op(rng: &mut Rng, kind: usize) -> Op {
    match kind {
        0 => Op::Mul { b: rpoint(rng), alpha: edge_alpha(rng) },
        1 => Op::Full { b: rng.below(2), s: edge_full(rng) },
        2 => Op::Short { b: rng.below(2), m: edge_mag(rng), s: sign(rng) },
        _ => Op::BaseF { b: rng.below(2), alpha: edge_alpha(rng) },
    }
}
/// the same shape, other values
fn vary(op: &Op, rng: &mut Rng) -> Op {
    match op {
        Op::Mul { b, .. } => Op::Mul { b: if rng.bool() { *b } else { rpoint(rng) }, alpha: edge_alpha(rng) },
        Op::Full { b, .. } => Op::Full { b: *b, s: edge_full(rng) },
        Op::Short { b, m, s } => match rng.below(3) {
            0 => Op::Short { b: *b, m: *m, s: -*s },
            _ => Op::Short { b: *b, m: edge_mag(rng), s: sign(rng) },
        },
        Op::BaseF { b, .. } => Op::BaseF { b: *b, alpha: edge_alpha(rng) },
        Op::Add { na, nb, .. } => {
            let a = rpoint(rng);
            Op::Add { a, b: if rng.chance(1, 3) { a } else { rpoint(rng) }, na: *na, nb: *nb }
        }
        Op::Inc { .. } => Op::Inc { a: P::random(&mut *rng), b: P::random(&mut *rng) },
        Op::Wit { nonid, .. } => Op::Wit { p: rpoint(rng), nonid: *nonid },
        Op::Same { na, nb, .. } => {
            let a = rpoint(rng);
            Op::Same { a, b: a, na: *na, nb: *nb }
        }
    }
}

fn name(op: &Op) -> &'static str {
    match op {
        Op::Wit { .. } => "witnessed points",
        Op::Add { .. } => "complete additions",
        Op::Inc { .. } => "incomplete additions",
        Op::Mul { .. } => "variable-base products",
        Op::Full { .. } => "full-width fixed-base products",
        Op::Short { .. } => "short fixed-base products",
        Op::BaseF { .. } => "base-field fixed-base products",
        Op::Same { .. } => "equality constraints",
    }
}

/// the columns of windows of full-width scalars
fn find_digits(ops: &[Op], rec: &Rec<Fp>) -> Digits {
    ops.iter()
        .map(|o| match o {
            Op::Full { s, .. } => {
                window_cells(rec, s)
            }
            _ => None,
        })
        .collect()
}
/// the column with the windows of a full-width scalar
pub fn window_cells(rec: &Rec<Fp>, s: &Fq) -> Option<Vec<Pos>> {
                let b = bits_of(s);
                let ds: Vec<Fp> = (0..NUM_WINDOWS).map(|w| from_bits::<Fp>(&b[3 * w..(3 * w + 3).min(256)])).collect();
                let mut hits = vec![];
                for c in 0..rec.advice.len() {
                    for row in 0..rec.n - NUM_WINDOWS {
                        let ps: Vec<Pos> = (0..NUM_WINDOWS).map(|i| ('a', c, row + i)).collect();
                        if ps.iter().zip(&ds).all(|(p, d)| rec.cell_region.contains_key(p) && rec.cell(*p) == *d) {
                            hits.push(ps);
                        }
                    }
                }
                if hits.len() == 1 {
                    hits.pop()
                } else {
                    None
                }
}

fn case<const PLAN: usize>(ctx: &Ctx, rng: &mut Rng, kind: usize)
where
    Subj<PLAN>: Circuit<Fp, Config = Cfg>,
{
    let ops: Vec<Op> = match kind {
        0..=3 => {
            let mut v = vec![big_op(rng, kind)];
            if rng.chance(1, 3) {
                v.push(small_op(rng));
            }
            if rng.chance(1, 5) {
                let j = rng.below(4);
                v.push(big_op(rng, j));
            }
            v
        }
        _ => (0..rng.range(1, 6)).map(|_| small_op(rng)).collect(),
    };
    for o in &ops {
        ctx.count(name(o));
    }
    ctx.eval(Some(hash_bytes(format!("{:?} {}", ops, PLAN).as_bytes())));
    let io = config_of::<Fp, Subj<PLAN>>().io;
    let desc = || format!("{:?} planner {}", ops, PLAN);
    let c = Subj::<PLAN> { ops: ops.clone(), known: true };
    let mut rec = match honest(ctx, "ecc", KT, &c, &desc, &|r: &Rec<Fp>| exact(&ops, io, r)) {
        Some(r) => r,
        None => return,
    };
    if rng.chance(1, 8) {
        mock(ctx, "ecc", KT, &c, &desc);
    }
    let digits = find_digits(&ops, &rec);
    ctx.add("window columns found", digits.iter().filter(|d| d.is_some()).count() as u64);
    let h = |r: &Rec<Fp>| holds(&ops, io, &digits, r);
    if let Err(e) = h(&rec) {
        ctx.violation("ecc-relation", format!("{}: {}", desc(), e));
        return;
    }
    let rounds = if ctx.thorough() { 3 } else { 1 };
    // other values of the same shape
    for _ in 0..2 * rounds {
        let other: Vec<Op> = ops.iter().map(|o| if rng.chance(3, 4) { vary(o, rng) } else { o.clone() }).collect();
        let oc = Subj::<PLAN> { ops: other.clone(), known: true };
        if let Out::Ok(Ok(o)) = guard(|| record(KT, &oc, &[], |_| Fp::one(), None)) {
            transplant(ctx, "ecc", &mut rec, &o, rng, 6, &desc, &format!("with the witness of {:?}", other), &h);
        }
    }
    cheats::<PLAN>(ctx, &ops, io, &mut rec, rng, rounds, &desc, &h);
    attack_all(ctx, "ecc", &mut rec, rng, 24 * rounds, &desc, &h);
}

/// the same operation with inputs that make its cells easy to tell apart
fn generic(op: &Op, rng: &mut Rng) -> Op {
    match op {
        Op::Mul { .. } => loop {
            let alpha = Fp::random(&mut *rng);
            let k = sum(&bits_of(&alpha), &t_q());
            if !k[0] && !k[254] && alpha != Fp::zero() {
                break Op::Mul { b: P::random(&mut *rng), alpha };
            }
        },
        Op::Full { b, .. } => Op::Full { b: *b, s: Fq::random(&mut *rng) },
        Op::Short { b, .. } => Op::Short { b: *b, m: pow2::<Fp>(63) + Fp::from(rng.u64() >> 1), s: -Fp::one() },
        Op::BaseF { b, .. } => loop {
            let alpha = Fp::random(&mut *rng);
            let k = bits_of(&alpha);
            if k[253] {
                break Op::BaseF { b: *b, alpha };
            }
        },
        Op::Add { na, nb, .. } => Op::Add { a: P::random(&mut *rng), b: P::random(&mut *rng), na: *na, nb: *nb },
        o => vary(o, rng),
    }
}
fn sim_of(op: &Op) -> Option<Sim> {
    Some(match op {
        Op::Mul { b, alpha } => mul_sim(&MulCheat::honest(b, alpha)),
        Op::Add { a, b, .. } => {
            let mut s = Sim::default();
            add_complete(&mut s, coords(a), coords(b));
            s
        }
        o => fix_sim(o, &fix_of(o)?),
    })
}

fn mul_plans(ctx: &Ctx, b: &P, alpha: &Fp, rng: &mut Rng, rounds: usize) -> Vec<(String, Sim, bool)> {
    let hc = MulCheat::honest(b, alpha);
    let k = sum(&bits_of(alpha), &t_q());
    let mut plans = vec![];
    let mut add = |what: String, c: MulCheat| plans.push((what, mul_sim(&c), false));
    // k modulo p in another way
    let mut twins = vec![];
    let up = sum(&k, &modulus());
    if short(&up, 255) {
        twins.push(("k + p", hc.digits(&up)));
    }
    if let Some(dn) = minus(&k, &modulus()) {
        twins.push(("k - p", hc.digits(&dn)));
    }
    let zeta = {
        // a cube root of unity
        let g: Fp = Fp::multiplicative_generator();
        let e = from_bits::<Fp>(&bits_of(&(-Fp::one() * Fp::from(3).invert().unwrap())));
        g.pow_vartime(&limbs(&e))
    };
    let any = |rng: &mut Rng| from_bits::<Fp>(&bits_of(&Fp::random(&mut *rng))[..rng.range(1, 130)]);
    for (what, t) in twins {
        ctx.count("scalars with a twin");
        add(what.into(), t.clone());
        add(format!("{}, eta 0", what), MulCheat { eta: Some(Fp::zero()), ..t.clone() });
        let mut o = t.clone();
        o.ov[1] = Some(any(rng));
        add(format!("{}, small s", what), o.clone());
        let mut o = t.clone();
        o.ov[0] = Some(*rng.pick(&[pow2::<Fp>(124), Fp::one(), Fp::zero()]));
        add(format!("{}, another z_130", what), o.clone());
        let mut o = t.clone();
        o.ov[2] = Some(Fp::one() - t.zd[0]);
        add(format!("{}, another k_254", what), o.clone());
        o.ov[0] = Some(if t.zd[0] == Fp::one() { Fp::one() } else { pow2::<Fp>(124) });
        add(format!("{}, another k_254 and z_130", what), o);
    }
    for _ in 0..rounds {
        let d = coords(&if rng.bool() { P::random(&mut *rng) } else { -*b });
        add(format!("another base {:?}", d), MulCheat { d: vec![d; INC - HI], ..hc.clone() });
        add(format!("another start {:?}", d), MulCheat { start: d, ..hc.clone() });
        // the base changes on the way, or only one coordinate of it
        let j = rng.clone().below(INC - HI);
        let j = *rng.pick(&[0, 1, 1, 2, 124, 125, j]);
        for what in 0..3 {
            let mut c = hc.clone();
            let odd = Fp::random(&mut *rng);
            for p in c.d.iter_mut().skip(j) {
                match what {
                    0 => p.0 *= if j % 2 == 0 { zeta } else { odd },
                    1 => p.1 *= odd,
                    _ => *p = d,
                }
            }
            add(format!("another base (way {}) from row {}", what, j), c);
        }
        let mut comp = hc.comp;
        let j = rng.below(4);
        comp[j] = match rng.below(4) {
            0 => (comp[j].0, -comp[j].1),
            1 => (Fp::zero(), Fp::zero()),
            2 => (comp[j].0 * zeta, comp[j].1),
            _ => d,
        };
        add(format!("complete step {} adds {:?}", j, comp[j]), MulCheat { comp, ..hc.clone() });
        let j = rng.clone().below(INC);
        for j in [0, HI, INC, *rng.pick(&[1, 124, 126, 250, j])] {
            let h = mul_x(&hc, j);
            let v = match rng.below(3) {
                0 => (Some(Fp::random(&mut *rng)), None),
                1 => (None, Some(if rng.bool() { -h.1 } else { Fp::random(&mut *rng) })),
                _ => (Some(d.0), Some(d.1)),
            };
            add(format!("accumulator replaced at {} by {:?}", j, v), MulCheat { jump: Some((j, v.0, v.1)), ..hc.clone() });
        }
        // the running sum broken and mended
        let kk = sum(&bits_of(&edge_alpha(rng)), &t_q());
        let z = rng.clone().below(255);
        let j = *rng.pick(&[0, HI, INC, 252, z]);
        let at = |d: &[Fp]| d[..j].iter().fold(Fp::zero(), |a, b| a.double() + b);
        let mut zd = field_digits(&kk);
        zd.truncate(j);
        zd.extend_from_slice(&hc.zd[j..]);
        add(format!("running sum broken at {}", j), MulCheat { zjump: Some((j, at(&hc.zd))), pd: zd.clone(), zd, ..hc.clone() });
        // a digit the points do not follow
        let z = rng.clone().below(255);
        let j = *rng.pick(&[0, 1, 124, 125, 250, 251, 252, 253, 254, z]);
        let mut pd = hc.pd.clone();
        pd[j] = Fp::one() - pd[j];
        add(format!("digit {} not followed", j), MulCheat { pd: pd.clone(), ..hc.clone() });
        // digits with a carry: 1 0 -> 0 2, or 0 0 -> 1 -2
        let z = rng.clone().below(250);
        for j in [*rng.pick(&[0, 1, 123, 124, 125, 249, z]), 250, 251, 252, 253] {
            let mut zd = hc.zd.clone();
            if zd[j] == Fp::one() {
                zd[j] = Fp::zero();
                zd[j + 1] += Fp::from(2);
            } else {
                zd[j] = Fp::one();
                zd[j + 1] -= Fp::from(2);
            }
            let pd = if j > 250 || rng.bool() {
                zd.clone()
            } else {
                // the points use some bits that fit in the range
                zd.iter().map(|d| if *d == Fp::zero() || *d == Fp::one() { *d } else { Fp::from(rng.below(2) as u64) }).collect()
            };
            add(format!("carry at {}", j), MulCheat { zd, pd, ..hc.clone() });
        }
        // another scalar altogether
        let kk = sum(&bits_of(&edge_alpha(rng)), &t_q());
        add("another scalar".into(), hc.digits(&kk));
    }
    plans
}
fn limbs(v: &Fp) -> [u64; 4] {
    let r = v.to_repr();
    let mut o = [0u64; 4];
    for i in 0..4 {
        o[i] = u64::from_le_bytes(r[8 * i..8 * i + 8].try_into().unwrap());
    }
    o
}

fn fix_plans(ctx: &Ctx, op: &Op, rng: &mut Rng, rounds: usize) -> Vec<(String, Sim, bool)> {
    let hc = match fix_of(op) {
        Some(h) => h,
        None => return vec![],
    };
    let n = hc.digits.len();
    let (b, summed) = match op {
        Op::Full { b, .. } => (*b, false),
        Op::Short { b, .. } | Op::BaseF { b, .. } => (*b, true),
        _ => return vec![],
    };
    let mut plans = vec![];
    let mut add = |what: String, c: FixCheat, free: bool| plans.push((what, fix_sim(op, &c), free));
    if let Op::BaseF { alpha, .. } = op {
        let up = sum(&bits_of(alpha), &modulus());
        if short(&up, 255) {
            ctx.count("scalars with a twin");
            let t = fix_honest(b, n, &up, *alpha, Fp::one());
            let z84 = from_bits::<Fp>(&up[252..255]);
            add("alpha + p".into(), t.clone(), false);
            let small = from_bits::<Fp>(&bits_of(&Fp::random(&mut *rng))[..rng.range(1, 130)]);
            let ways: [[Option<Fp>; 6]; 8] = [
                [Some(z84), Some(Fp::zero()), None, None, None, None],
                [Some(Fp::zero()), Some(z84 * Fp::from(4).invert().unwrap()), None, None, None, None],
                [None, None, Some(small), None, None, None],
                [None, None, Some(small), None, Some(z84 * pow2::<Fp>(120)), Some(z84 * pow2::<Fp>(123))],
                [None, None, None, Some(Fp::zero()), None, None],
                [None, None, None, Some(Fp::from(rng.below(4) as u64)), None, None],
                [None, None, None, None, Some(z84 * pow2::<Fp>(120)), Some(z84 * pow2::<Fp>(123))],
                [None, None, None, None, None, Some(from_bits::<Fp>(&up[132..255]) * Fp::from(8))],
            ];
            for (i, w) in ways.into_iter().enumerate() {
                add(format!("alpha + p, canonicity way {}", i), FixCheat { can: w, ..t.clone() }, false);
            }
        }
    }
    if let Op::Short { m, s, .. } = op {
        // more than 64 bits
        let d = rng.range(2, 7) as u64;
        let wide = Fp::from(d) * pow2::<Fp>(63) + Fp::from(rng.u64() >> 1);
        let t = fix_honest(b, n, &bits_of(&wide), wide, *s);
        add("wide magnitude".into(), t.clone(), true);
        let mut t2 = t.clone();
        t2.fin[1] = Some(Fp::from(rng.below(2) as u64));
        add("wide magnitude, last window hidden".into(), t2, true);
        // other signs
        let odd = Fp::random(&mut *rng);
        for v in [Fp::zero(), Fp::from(2), -*s, odd] {
            let mut t = hc.clone();
            t.sign = v;
            t.fin[2] = Some(*rng.pick(&[*s, -*s, inv0(v), v]));
            add(format!("sign {:?}", v), t.clone(), true);
            t.sign = *s;
            t.fin[0] = Some(v);
            add(format!("sign {:?} in the check", v), t.clone(), false);
        }
        let mut t = hc.clone();
        t.fin[2] = Some(-*s);
        add(format!("negated result of {:?}", m), t, false);
    }
    if summed {
        // the last window uses another digit, the running sum is left open
        let z21 = hc.digits[n - 1];
        for _ in 0..2 {
            let d = rng.below(8);
            let e = window_entry(b, n, n - 1, d);
            let mut t = hc.clone();
            t.pts[n - 1] = e.0;
            t.us[n - 1] = e.1;
            t.digits[n - 1] = Fp::from(d as u64);
            t.rest = (z21 - t.digits[n - 1]) * Fp::from(8).invert().unwrap();
            add(format!("last window {} under an open sum", d), t, false);
        }
    }
    for _ in 0..3 * rounds {
        let z = rng.clone().below(n);
        let w = *rng.pick(&[0, 1, n / 2, n - 3, n - 2, n - 1, z]);
        let mut c = hc.clone();
        let d = rng.below(8);
        let e = window_entry(b, n, w, d);
        c.pts[w] = e.0;
        c.us[w] = e.1;
        add(format!("window {} uses digit {}", w, d), c.clone(), false);
        if !summed {
            c.digits[w] = Fp::from(rng.below(8) as u64);
            add(format!("window {} claims digit {:?}", w, c.digits[w]), c, false);
        }
        let mut c = hc.clone();
        c.pts[w].1 = -c.pts[w].1;
        add(format!("window {} negated", w), c.clone(), false);
        let u: Option<Fp> = (c.pts[w].1 + Fp::from(tab_z(b, n, w))).sqrt().into();
        if let Some(u) = u {
            c.us[w] = u;
            add(format!("window {} negated, with u", w), c, false);
        }
        let mut c = hc.clone();
        let e = window_entry(1 - b, n, w, rng.below(8));
        c.pts[w] = e.0;
        c.us[w] = e.1;
        add(format!("window {} of another base", w), c, false);
        // a point off the curve: y = u^2 - z
        let mut c = hc.clone();
        c.us[w] = Fp::random(&mut *rng);
        c.pts[w].1 = c.us[w].square() - Fp::from(tab_z(b, n, w));
        add(format!("window {} off the curve", w), c, false);
        // a digit out of range, its x interpolated
        let odd = Fp::random(&mut *rng);
        let d = *rng.pick(&[Fp::from(8), Fp::from(9), Fp::from(15), -Fp::one(), odd]);
        let xs: Vec<Fp> = (0..8).map(|k| window_entry(b, n, w, k).0 .0).collect();
        let x = interpolate(&xs, d);
        let y: Option<Fp> = (x.square() * x + Fp::from(5)).sqrt().into();
        let y = y.unwrap_or(hc.pts[w].1);
        let mut c = hc.clone();
        c.digits[w] = d;
        for y in [y, -y] {
            c.pts[w] = (x, y);
            let u: Option<Fp> = (y + Fp::from(tab_z(b, n, w))).sqrt().into();
            if let Some(u) = u {
                c.us[w] = u;
                break;
            }
        }
        add(format!("window {} has digit {:?}", w, d), c.clone(), false);
        // keep the sum: borrow from the next window
        if summed && w + 1 < n {
            let diff = hc.digits[w] - d;
            c.digits[w + 1] += diff * Fp::from(8).invert().unwrap();
            add(format!("window {} has digit {:?}, paid by the next", w, d), c, false);
        }
        let p = coords(&P::random(&mut *rng));
        let v = match rng.below(3) {
            0 => (Some(p.0), Some(p.1)),
            1 => (None, Some(p.1)),
            _ => (Some(p.0), None),
        };
        let j = *rng.pick(&[1, n - 1, n, w.max(1)]);
        add(format!("accumulator replaced at {}", j), FixCheat { jump: Some((j, v.0, v.1)), ..hc.clone() }, false);
        // another scalar, with and without the true sum
        let other = vary(op, rng);
        if let Some(o) = fix_of(&other) {
            let mut c = FixCheat { alpha: hc.alpha, sign: hc.sign, ..o };
            add("another scalar".to_string(), c.clone(), false);
            if summed {
                let eight = (0..n).fold(Fp::one(), |a, _| a * Fp::from(8));
                let total = c.digits.iter().rev().fold(Fp::zero(), |a, d| a * Fp::from(8) + d);
                c.rest = (hc.alpha - total) * inv0(eight);
                add("another scalar, open running sum".to_string(), c, false);
            }
        }
    }
    plans
}
fn tab_z(b: usize, n: usize, w: usize) -> u64 {
    let t = if n == NUM_WINDOWS { fixed::full_tab(b) } else { fixed::short_tab(b) };
    t.z[w]
}

fn add_plans(a: &P, b: &P, rng: &mut Rng) -> Vec<(String, Sim, bool)> {
    let (p, q) = (coords(a), coords(b));
    let mut plans = vec![];
    let (r, v) = sum_of(p, q);
    let other = coords(&P::random(&mut *rng));
    let odd = Fp::random(&mut *rng);
    for (what, lam) in [("honest slope", v[4]), ("another slope", odd), ("zero slope", Fp::zero())] {
        let x = lam.square() - p.0 - q.0;
        let f = (x, lam * (p.0 - x) - p.1);
        let zero = Fp::zero();
        for t in [f, (f.0, odd), (odd, f.1), (zero, zero), p, q, other, (r.0, -r.1), (r.0, odd), (odd, r.1), (p.0, q.1), (q.0, p.1), (zero, f.1), (f.0, zero), (zero, r.1), (r.0, zero)] {
            if t == r {
                continue;
            }
            for spoil in [None, Some(5), Some(6), Some(7), Some(8)] {
                if spoil.is_some() && !rng.chance(1, 4) {
                    continue;
                }
                let mut w = v.clone();
                w[4] = lam;
                if let Some(i) = spoil {
                    w[i] = if rng.bool() { zero } else { odd };
                }
                let mut s = Sim::default();
                s.rows.push([w, vec![t.0, t.1]]);
                plans.push((format!("{}, result {:?}", what, t), s, false));
            }
        }
    }
    plans
}

/// forged computations
fn cheats<const PLAN: usize>(ctx: &Ctx, ops: &[Op], io: Io, rec: &mut Rec<Fp>, rng: &mut Rng, rounds: usize, desc: &dyn Fn() -> String, h: &dyn Fn(&Rec<Fp>) -> Result<(), String>)
where
    Subj<PLAN>: Circuit<Fp, Config = Cfg>,
{
    let gens: Vec<Op> = ops.iter().map(|o| generic(o, rng)).collect();
    let gc = Subj::<PLAN> { ops: gens.clone(), known: true };
    let gen = match guard(|| record(KT, &gc, &[], |_| Fp::one(), None)) {
        Out::Ok(Ok(g)) if g.order == rec.order => g,
        _ => {
            ctx.count("locators that failed");
            return;
        }
    };
    let atk = Attack::new(rec);
    let (mut i, mut o) = (0, 0);
    for (n, op) in ops.iter().enumerate() {
        let (ip, opos) = (i, o);
        i += op.inputs().len();
        o += 2 * op.points();
        let plans = match op {
            Op::Mul { b, alpha } => mul_plans(ctx, b, alpha, rng, rounds),
            Op::Add { a, b, .. } => add_plans(a, b, rng),
            _ => fix_plans(ctx, op, rng, rounds),
        };
        if plans.is_empty() {
            continue;
        }
        let mut keep = HashSet::new();
        for j in 0..op.inputs().len() {
            keep.insert(atk.rep(io.ip(ip + j)));
        }
        for j in 0..op.points() - 1 {
            keep.insert(atk.rep(io.op(opos + 2 * j)));
            keep.insert(atk.rep(io.op(opos + 2 * j + 1)));
        }
        let none = HashSet::new();
        let at = locate(&gen, &sim_of(&gens[n]).unwrap());
        ctx.add("cells located", at.found());
        for (what, fs, free) in plans {
            let init = forge(rec, &atk, &at, &fs, if free { &none } else { &keep });
            if init.is_empty() {
                continue;
            }
            ctx.count("forged computations");
            let how = || format!("{} of {:?}", what, op);
            if !force(ctx, "ecc", rec, &atk, &init, rng, desc, &how, h) {
                return;
            }
        }
    }
}
/// the honest accumulator before an incomplete step
fn mul_x(c: &MulCheat, i: usize) -> Pt {
    let (mut x, mut y) = c.start;
    for j in 0..i {
        let d = c.d[if j < HI { j } else { j - HI }];
        let u = (d.0, d.1 * (c.pd[j].double() - Fp::one()));
        let r = add_inc((x, y), u);
        let n = add_inc((x, y), r);
        x = n.0;
        y = n.1;
    }
    (x, y)
}
fn interpolate(ys: &[Fp], at: Fp) -> Fp {
    let mut r = Fp::zero();
    for i in 0..ys.len() {
        let mut t = ys[i];
        for j in 0..ys.len() {
            if i != j {
                t *= (at - Fp::from(j as u64)) * (Fp::from(i as u64) - Fp::from(j as u64)).invert().unwrap();
            }
        }
        r += t;
    }
    r
}

/// operands the chip refuses
fn refusals(ctx: &Ctx, i: usize, rng: &mut Rng) {
    let a = rpoint(rng);
    let mut b = rpoint(rng);
    while b == a {
        b = P::random(&mut *rng);
    }
    let big = |rng: &mut Rng| match i / 8 % 4 {
        0 => pow2::<Fp>(64),
        1 => pow2::<Fp>(64) + Fp::from(rng.u64()),
        2 => pow2::<Fp>(rng.range(64, 253)),
        _ => -Fp::from(1 + rng.below(9) as u64),
    };
    let ops = vec![match i % 8 {
        0 => Op::Wit { p: P::identity(), nonid: true },
        1 => Op::Inc { a, b: a },
        2 => Op::Inc { a, b: -a },
        3 => {
            let (na, nb) = (rng.bool(), rng.bool());
            Op::Same { a, b: if rng.bool() { -a } else { b }, na, nb }
        }
        4 => Op::Short { b: rng.below(2), m: big(rng), s: sign(rng) },
        5 => Op::Short { b: rng.below(2), m: if i / 8 % 2 == 0 { Fp::zero() } else { edge_mag(rng) }, s: *rng.pick(&[Fp::zero(), Fp::from(2), Fp::from(u64::MAX)]) },
        6 => Op::Mul { b: P::identity(), alpha: edge_alpha(rng) },
        _ => Op::Same { a, b: P::identity(), na: true, nb: false },
    }];
    let c = Subj::<0> { ops: ops.clone(), known: true };
    refused(ctx, "ecc", KT, &c, &|| format!("{:?}", ops));
}

pub fn c22(ctx: Ctx) {
    ctx.rule("the visible points and scalars of every satisfied assignment satisfy the group equation; honest runs give exactly the group result");
    ctx.rule("witnessed points lie on the curve; operands outside the promise are refused");
    ctx.set_budget(40, 600);
    for b in 0..fixed::BASES {
        let _ = (fixed::full_tab(b), fixed::short_tab(b));
    }
    macro_rules! go {
        ($name:literal, $p:literal, $kind:literal, $min:literal, $n:literal, $t:literal) => {
            ctx.cases($name, $min, ctx.n($n, $t), |_, rng| case::<$p>(&ctx, rng, $kind));
        };
    }
    go!("mul", 0, 0, 8, 40, 1500);
    go!("mul-v1", 1, 0, 4, 8, 400);
    go!("full", 0, 1, 6, 24, 800);
    go!("short", 0, 2, 8, 32, 800);
    go!("base-field", 0, 3, 8, 40, 1200);
    go!("base-field-v1", 1, 3, 4, 8, 300);
    go!("points", 0, 4, 16, 80, 3000);
    ctx.cases("refused", 16, ctx.n(80, 2000), |i, rng| refusals(&ctx, i, rng));
    ctx.sample(json!({"curve": "pallas", "fixed bases": ["generator", "R of a commitment domain"], "k": KT}));
    ctx.finish(&[
        ("honest gadget runs", 40),
        ("variable-base products", 10),
        ("full-width fixed-base products", 6),
        ("short fixed-base products", 6),
        ("base-field fixed-base products", 8),
        ("complete additions", 10),
        ("incomplete additions", 5),
        ("forged computations", 100),
        ("forged witnesses", 1000),
        ("forged witnesses rejected", 500),
        ("values outside the promise", 10),
    ]);
}
