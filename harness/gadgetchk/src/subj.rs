//! A gadget under observation: a circuit whose inputs and outputs are visible in two
//! columns of their own, an honest run, and a dishonest prover working on it.
use ff::Field;
use halo2_proofs::circuit::{AssignedCell, Layouter, Value};
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::*;
use kit::*;
use std::collections::HashSet;
use zkit::*;

/// inputs are witnessed in `inp`, outputs are copied to `out`, both from row 0
#[derive(Clone, Copy, Debug)]
pub struct Io {
    pub inp: Column<Advice>,
    pub out: Column<Advice>,
}

impl Io {
    pub fn configure<F: Field>(meta: &mut ConstraintSystem<F>) -> Io {
        let io = Io { inp: meta.advice_column(), out: meta.advice_column() };
        meta.enable_equality(io.inp);
        meta.enable_equality(io.out);
        io
    }
    pub fn inputs<F: Field>(&self, layouter: &mut impl Layouter<F>, vals: &[F], known: bool) -> Result<Vec<AssignedCell<F, F>>, Error> {
        layouter.assign_region(
            || "inputs",
            |mut r| {
                vals.iter()
                    .enumerate()
                    .map(|(i, v)| r.assign_advice(|| "in", self.inp, i, || if known { Value::known(*v) } else { Value::unknown() }))
                    .collect()
            },
        )
    }
    pub fn outputs<F: Field>(&self, layouter: &mut impl Layouter<F>, cells: &[AssignedCell<F, F>]) -> Result<(), Error> {
        layouter.assign_region(
            || "outputs",
            |mut r| {
                for (i, c) in cells.iter().enumerate() {
                    c.copy_advice(|| "out", &mut r, self.out, i)?;
                }
                Ok(())
            },
        )
    }
    pub fn ip(&self, i: usize) -> Pos {
        ('a', self.inp.index(), i)
    }
    pub fn op(&self, i: usize) -> Pos {
        ('a', self.out.index(), i)
    }
}

pub fn config_of<F: Field, C: Circuit<F>>() -> C::Config {
    let mut cs = ConstraintSystem::default();
    C::configure(&mut cs)
}

pub fn describe<F: Key>(rec: &Rec<F>, p: Pos) -> String {
    match rec.cell_region.get(&p) {
        Some(r) if *r < rec.regions.len() => format!("{}{} row {} (region {} '{}')", p.0, p.1, p.2, r, rec.regions[*r]),
        _ => format!("{}{} row {} (unassigned)", p.0, p.1, p.2),
    }
}

/// names of what is violated, for reports
pub fn explain(v: &[Viol]) -> String {
    let mut s: Vec<String> = v
        .iter()
        .take(4)
        .map(|x| match x {
            x => format!("{:?}", x),
        })
        .collect();
    if v.len() > 4 {
        s.push(format!("and {} more", v.len() - 4));
    }
    s.join("; ")
}

/// The honest run: recorded, satisfied, and its outputs are right.
pub fn honest<F: Key, C: Circuit<F>>(ctx: &Ctx, name: &str, k: u32, c: &C, desc: &dyn Fn() -> String, holds: &dyn Fn(&Rec<F>) -> Result<(), String>) -> Option<Rec<F>> {
    ctx.eval(None);
    match guard(|| record(k, c, &[], |_| F::one(), None)) {
        Out::Panic(m) => {
            ctx.violation(&format!("{}-panic", name), format!("{}: {}", desc(), m));
            None
        }
        Out::Ok(Err(e)) => {
            ctx.violation(&format!("{}-error", name), format!("{}: {:?}", desc(), e));
            None
        }
        Out::Ok(Ok(rec)) => {
            let v = rec.violations();
            if !ctx.check(v.is_empty(), &format!("{}-unsatisfied", name), || format!("{}: honest witness violates {}", desc(), explain(&v))) {
                return None;
            }
            if let Err(e) = holds(&rec) {
                ctx.violation(&format!("{}-wrong", name), format!("{}: {}", desc(), e));
                return None;
            }
            ctx.count("honest gadget runs");
            Some(rec)
        }
    }
}

/// The honest prover on values outside the gadget's promise: no satisfied circuit.
pub fn refused<F: Key, C: Circuit<F>>(ctx: &Ctx, name: &str, k: u32, c: &C, desc: &dyn Fn() -> String) {
    ctx.eval(None);
    ctx.count("values outside the promise");
    match guard(|| record(k, c, &[], |_| F::one(), None)) {
        // refusing to synthesize is fine
        Out::Panic(_) | Out::Ok(Err(_)) => ctx.count("refused at synthesis"),
        Out::Ok(Ok(rec)) => {
            ctx.check(!rec.satisfied(), &format!("{}-accepted", name), || format!("{}: accepted", desc()));
        }
    }
}

/// a satisfied but wrong assignment
fn alarm<F: Key>(ctx: &Ctx, name: &str, rec: &Rec<F>, desc: &dyn Fn() -> String, how: &str, e: &str) {
    if rec.satisfied() {
        ctx.violation(&format!("{}-unsound", name), format!("{}: {}: all constraints hold but {}", desc(), how, e));
    }
}

/// forced cells, then repair; a satisfied assignment must be a true one
pub fn force<F: Key>(
    ctx: &Ctx,
    name: &str,
    rec: &mut Rec<F>,
    atk: &Attack<F>,
    init: &[(Pos, F)],
    rng: &mut Rng,
    desc: &dyn Fn() -> String,
    how: &dyn Fn() -> String,
    holds: &dyn Fn(&Rec<F>) -> Result<(), String>,
) -> bool {
    if init.is_empty() || init.iter().any(|x| !atk.mutable(x.0)) {
        return false;
    }
    let mut ok = true;
    for greedy in [true, false] {
        let out = atk.run(rec, init, &HashSet::new(), rng, greedy, 4000);
        ctx.count("forged witnesses");
        if let Outcome::Satisfied(n) = out {
            ctx.count("forged witnesses that satisfy the circuit");
            if let Err(e) = holds(rec) {
                alarm(ctx, name, rec, desc, &format!("{} ({} variables changed)", how(), n), &e);
                ok = false;
            }
        } else {
            ctx.count("forged witnesses rejected");
        }
        atk.restore(rec);
        if !ok {
            break;
        }
    }
    ok
}

/// Change every variable (or `limit` random ones) in several ways.
pub fn attack_all<F: Key>(
    ctx: &Ctx,
    name: &str,
    rec: &mut Rec<F>,
    rng: &mut Rng,
    limit: usize,
    desc: &dyn Fn() -> String,
    holds: &dyn Fn(&Rec<F>) -> Result<(), String>,
) {
    let atk = Attack::new(rec);
    let mut vars: Vec<Pos> = vec![];
    let mut seen = HashSet::new();
    for p in &rec.order {
        if p.0 == 'a' && atk.mutable(*p) && seen.insert(atk.rep(*p)) {
            vars.push(*p);
        }
    }
    if vars.len() > limit {
        rng.shuffle(&mut vars);
        vars.truncate(limit);
    }
    let pool: Vec<F> = rec.order.iter().filter(|p| p.0 == 'a').map(|p| rec.cell(*p)).collect();
    ctx.add("variables attacked", vars.len() as u64);
    for p in vars {
        let old = rec.cell(p);
        let mut vals = vec![old + F::one(), -old, F::random(&mut *rng), *rng.pick(&pool), F::zero(), F::one() - old];
        if rng.bool() {
            vals.push(old.double());
        }
        let keep = 2 + rng.below(3);
        rng.shuffle(&mut vals);
        vals.truncate(keep);
        for v in vals {
            if v == old {
                continue;
            }
            let how = {
                let d = describe(rec, p);
                move || format!("cell {} changed from {:?} to {:?}", d, old, v)
            };
            if !force(ctx, name, rec, &atk, &[(p, v)], rng, desc, &how, holds) {
                return;
            }
        }
    }
}

/// the library's own mock prover agrees that the honest run is fine
pub fn mock<F: Key + halo2_proofs::arithmetic::FieldExt, C: Circuit<F>>(ctx: &Ctx, name: &str, k: u32, c: &C, desc: &dyn Fn() -> String) {
    match guard(|| MockProver::run(k, c, vec![]).map(|p| p.verify())) {
        Out::Ok(Ok(Ok(()))) => ctx.count("mock prover runs"),
        Out::Ok(Ok(Err(e))) => ctx.violation(&format!("{}-mock", name), format!("{}: {:?}", desc(), e.iter().take(3).map(|x| format!("{}", x)).collect::<Vec<_>>())),
        Out::Ok(Err(e)) => ctx.violation(&format!("{}-mock-error", name), format!("{}: {:?}", desc(), e)),
        Out::Panic(m) => ctx.violation(&format!("{}-mock-panic", name), format!("{}: {}", desc(), m)),
    }
}

/// Cells of another recording (same circuit shape, other inputs or parameters) put into this
/// one: everything, some columns, some regions, before or after a moment, in a time window.
pub fn transplant<F: Key>(
    ctx: &Ctx,
    name: &str,
    rec: &mut Rec<F>,
    other: &Rec<F>,
    rng: &mut Rng,
    rounds: usize,
    desc: &dyn Fn() -> String,
    what: &str,
    holds: &dyn Fn(&Rec<F>) -> Result<(), String>,
) {
    if rec.order != other.order || rec.n != other.n {
        ctx.count("transplants of another shape");
        return;
    }
    let atk = Attack::new(rec);
    let mut seen = HashSet::new();
    let vars: Vec<(usize, Pos)> = rec
        .order
        .iter()
        .enumerate()
        .filter(|(_, p)| p.0 == 'a' && atk.mutable(**p) && rec.cell(**p) != other.cell(**p) && seen.insert(atk.rep(**p)))
        .map(|(i, p)| (i, *p))
        .collect();
    if vars.is_empty() {
        return;
    }
    ctx.count("transplanted recordings");
    let ncol = rec.advice.len();
    for round in 0..rounds {
        let mode = if round < 3 { [0, 0, 1][round] } else { 1 + rng.below(6) };
        let cols: Vec<bool> = (0..ncol).map(|_| rng.bool()).collect();
        let one = rng.below(ncol);
        let regs: Vec<bool> = (0..rec.regions.len() + 1).map(|_| rng.bool()).collect();
        let (t1, t2) = (vars[rng.below(vars.len())].0, vars[rng.below(vars.len())].0);
        let (t1, t2) = (t1.min(t2), t1.max(t2));
        let init: Vec<(Pos, F)> = vars
            .iter()
            .filter(|(t, p)| match mode {
                0 => true,
                1 => cols[p.1],
                2 => p.1 != one,
                3 => *t >= t1,
                4 => *t < t1,
                5 => *t >= t1 && *t <= t2,
                _ => regs[*rec.cell_region.get(p).unwrap_or(&0) % regs.len()],
            })
            .map(|(_, p)| (*p, other.cell(*p)))
            .collect();
        let how = || format!("{} (mode {} columns {:?}/{} time {}..{})", what, mode, cols, one, t1, t2);
        if !init.is_empty() && !force(ctx, name, rec, &atk, &init, rng, desc, &how, holds) {
            return;
        }
    }
}

/// Replaces honest values by forged ones wherever they occur in the witness.
pub fn overlay<F: Key>(rec: &Rec<F>, atk: &Attack<F>, pairs: &[(F, F)], keep: &HashSet<Pos>) -> Vec<(Pos, F)> {
    let mut map = std::collections::HashMap::new();
    for (h, f) in pairs {
        map.entry(h.key()).or_insert(*f);
    }
    let mut seen = HashSet::new();
    let mut out = vec![];
    for p in &rec.order {
        if p.0 != 'a' || !atk.mutable(*p) || keep.contains(&atk.rep(*p)) || !seen.insert(atk.rep(*p)) {
            continue;
        }
        if let Some(f) = map.get(&rec.cell(*p).key()) {
            if *f != rec.cell(*p) {
                out.push((*p, *f));
            }
        }
    }
    out
}
