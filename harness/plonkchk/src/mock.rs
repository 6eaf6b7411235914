//! C11: MockProver's verdict against the independent evaluator, failure by failure.
use crate::gen::*;
use crate::proof::*;
use halo2_proofs::circuit::{floor_planner::V1, SimpleFloorPlanner};
use halo2_proofs::dev::{metadata, FailureLocation, MockProver, VerifyFailure};
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::halo2curves::pasta::Fp;
use halo2_proofs::plonk::*;
use kit::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use zkit::{Pos, Viol};

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
enum Fail {
    Gate(usize, usize, usize),
    Lookup(usize, usize),
    /// gate, region, absolute row of the selector, column, absolute row of the cell
    Missing(usize, usize, usize, (char, usize), i64),
    Poison(usize, usize),
}

struct Dec<'a, F: Fl> {
    rec: &'a zkit::Rec<F>,
    first_row: Vec<Option<usize>>,
    regions: Vec<metadata::Region>,
    gates: Vec<(metadata::Gate, Vec<metadata::Constraint>)>,
    columns: Vec<(metadata::Column, (char, usize))>,
}
impl<'a, F: Fl> Dec<'a, F> {
    fn new<P>(m: &Made<F, P>, rec: &'a zkit::Rec<F>) -> Self {
        let mut first_row = vec![None; rec.regions.len()];
        for (p, r) in &rec.cell_region {
            if *r != usize::MAX {
                let e: &mut Option<usize> = &mut first_row[*r];
                *e = Some(e.map_or(p.2, |x| x.min(p.2)));
            }
        }
        let regions = rec
            .regions
            .iter()
            .enumerate()
            .map(|(i, n)| metadata::Region::from((i, n.as_str())))
            .collect();
        let mut gates = vec![];
        for k in &m.spec.order {
            if *k < m.spec.gates.len() {
                let g: metadata::Gate = (gates.len(), gate_name(*k)).into();
                let sp = &m.spec.gates[*k];
                gates.push((
                    g,
                    (0..sp.polys.len())
                        .map(|i| metadata::Constraint::from((g, i, poly_name(sp.named, i))))
                        .collect(),
                ));
            }
        }
        let mut columns = vec![];
        for c in rec.cs.permutation().get_columns() {
            columns.push((metadata::Column::from(c), (zkit::any_kind(&c), c.index())));
        }
        Dec {
            rec,
            first_row,
            regions,
            gates,
            columns,
        }
    }
    fn row(&self, l: &FailureLocation) -> Result<usize, String> {
        match l {
            FailureLocation::OutsideRegion { row } => Ok(*row),
            FailureLocation::InRegion { region, offset } => {
                let i = self
                    .regions
                    .iter()
                    .position(|r| r == region)
                    .ok_or_else(|| format!("unknown region {:?}", region))?;
                Ok(self.first_row[i].ok_or("region without rows")? + offset)
            }
        }
    }
    fn constraint(&self, c: &metadata::Constraint) -> Result<(usize, usize), String> {
        for (gi, g) in self.gates.iter().enumerate() {
            for (pi, p) in g.1.iter().enumerate() {
                if p == c {
                    return Ok((gi, pi));
                }
            }
        }
        Err(format!("unknown constraint {:?}", c))
    }
    fn decode(&self, f: &[VerifyFailure]) -> Result<(Vec<Fail>, Vec<Pos>), String> {
        let mut out = vec![];
        let mut perm = vec![];
        for x in f {
            match x {
                VerifyFailure::ConstraintNotSatisfied { constraint, location, .. } => {
                    let (g, p) = self.constraint(constraint)?;
                    out.push(Fail::Gate(g, p, self.row(location)?));
                }
                VerifyFailure::ConstraintPoisoned { constraint } => {
                    let (g, p) = self.constraint(constraint)?;
                    out.push(Fail::Poison(g, p));
                }
                VerifyFailure::Lookup { lookup_index, location, .. } => out.push(Fail::Lookup(*lookup_index, self.row(location)?)),
                VerifyFailure::Permutation { column, location } => {
                    let c = self.columns.iter().find(|c| c.0 == *column).ok_or("unknown column")?;
                    perm.push((c.1 .0, c.1 .1, self.row(location)?));
                }
                VerifyFailure::CellNotAssigned {
                    gate,
                    region,
                    gate_offset,
                    column,
                    offset,
                } => {
                    let g = self.gates.iter().position(|g| g.0 == *gate).ok_or("unknown gate")?;
                    let r = self.regions.iter().position(|g| g == region).ok_or("unknown region")?;
                    out.push(Fail::Missing(g, r, *gate_offset, (zkit::any_kind(column), column.index()), *offset as i64));
                }
            }
        }
        out.sort();
        Ok((out, perm))
    }
}

/// classes of cells tied together by copies, with whether all their values agree
fn classes<F: Fl>(rec: &zkit::Rec<F>) -> (HashMap<Pos, usize>, Vec<bool>) {
    let mut id: HashMap<Pos, usize> = HashMap::new();
    let mut members: Vec<Vec<Pos>> = vec![];
    for (a, b) in &rec.copies {
        let ia = *id.entry(*a).or_insert_with(|| {
            members.push(vec![*a]);
            members.len() - 1
        });
        let ib = *id.entry(*b).or_insert_with(|| {
            members.push(vec![*b]);
            members.len() - 1
        });
        if ia != ib {
            let mv = std::mem::take(&mut members[ib]);
            for p in &mv {
                id.insert(*p, ia);
            }
            members[ia].extend(mv);
        }
    }
    let ok = members
        .iter()
        .map(|m| m.is_empty() || m.iter().all(|p| rec.cell(*p) == rec.cell(m[0])))
        .collect();
    (id, ok)
}

fn missing<F: Fl, P>(m: &Made<F, P>, rec: &zkit::Rec<F>) -> Vec<Fail> {
    let mut out = vec![];
    let order: Vec<usize> = m.spec.order.iter().copied().filter(|k| *k < m.spec.gates.len()).collect();
    for (ri, r) in m.spec.regions.iter().enumerate() {
        let idx = rec.regions.iter().position(|n| *n == format!("r{}", ri)).unwrap();
        let owned: HashSet<Pos> = rec.cell_region.iter().filter(|(_, v)| **v == idx).map(|(p, _)| *p).collect();
        for (q, o) in &r.sels {
            let row = m.starts[ri] + o;
            for (gi, k) in order.iter().enumerate() {
                let g = &m.spec.gates[*k];
                if g.guard != Guard::Sel(*q) {
                    continue;
                }
                let mut cells: Vec<(char, usize, i32)> = vec![];
                for p in &g.polys {
                    walk_cells(&p.body, &mut cells);
                    cells.push(('a', p.out.0, p.out.1));
                }
                for (kind, c, rot) in cells {
                    let cr = row as i64 + rot as i64;
                    let n = rec.n as i64;
                    let wrapped = cr.rem_euclid(n);
                    if !owned.contains(&(kind, c, wrapped as usize)) {
                        // offsets count from the first cell, or from the selector where that
                        // comes first
                        let start = owned.iter().map(|p| p.2).min().unwrap_or(row).min(row);
                        out.push(Fail::Missing(gi, idx, row - start, (kind, c), wrapped - start as i64));
                    }
                }
            }
        }
    }
    out.sort();
    out
}
fn walk_cells<F: Fl>(e: &Ex<F>, out: &mut Vec<(char, usize, i32)>) {
    match e {
        Ex::A(c, r) => out.push(('a', *c, *r)),
        Ex::X(c, r) => out.push(('f', *c, *r)),
        Ex::Neg(a) | Ex::Scale(a, _) => walk_cells(a, out),
        Ex::Add(a, b) | Ex::Mul(a, b) => {
            walk_cells(a, out);
            walk_cells(b, out)
        }
        _ => {}
    }
}

fn case<F: Fl + Ord, P: FloorPlanner>(ctx: &Ctx, i: usize, rng: &mut Rng) {
    let sh = Shape {
        sparse: rng.chance(1, 5),
        max_regions: 6,
        max_height: 6,
        ..SHAPE
    };
    let m = match make::<F, P>(rng, sh, 7) {
        Some(m) => m,
        None => return ctx.count("no_circuit"),
    };
    count_shape(ctx, &m.spec);
    ctx.eval(Some(hash_bytes(format!("{:?}", m.spec).as_bytes())));
    if i < 3 {
        ctx.sample(json!({"k": m.k, "gates": m.spec.gates.len(), "regions": m.spec.regions.len(), "lookups": m.spec.lookups.len()}));
    }
    let c0 = honest(&m, rng.u64());
    let inst0 = inst_of(&c0);
    for round in 0..6 {
        let mut c = c0.clone();
        let mut inst = inst0.clone();
        if round > 0 {
            let mut f = HashMap::new();
            for _ in 0..*rng.pick(&[0, 1, 1, 1, 2, 3, 5]) {
                if let Some(id) = pick_fault(rng, &m.spec) {
                    let v = match rng.below(4) {
                        0 => F::from(rng.below(3) as u64),
                        1 => {
                            // the value of some other cell
                            match pick_fault(rng, &m.spec) {
                                Some(o) if m.spec.chal.is_empty() => {
                                    Solver::new(&m.spec, c0.wit.as_ref().unwrap(), &[]).value(o).unwrap_or_else(F::zero)
                                }
                                _ => F::one(),
                            }
                        }
                        _ => crate::math::scalar(rng),
                    };
                    f.insert(id, v);
                }
            }
            c.faults = Rc::new(f);
            c.follow = rng.bool();
            if rng.chance(1, 4) && !inst.is_empty() {
                let ci = rng.below(inst.len());
                if inst[ci].is_empty() {
                    inst[ci].push(F::from(5));
                } else {
                    let r = rng.below(inst[ci].len());
                    inst[ci][r] += F::one();
                }
            }
        }
        if round >= 4 {
            // cells the circuit forgets to assign (never ones another cell is tied to)
            let mut skip = HashSet::new();
            let all = rng.chance(1, 5);
            let target = rng.below(m.spec.regions.len());
            let used: HashSet<CellId> = m
                .spec
                .regions
                .iter()
                .enumerate()
                .flat_map(|(ri, r)| {
                    r.extra_eq
                        .iter()
                        .flat_map(move |((c, o), t)| vec![(ri, *c, *o), *t])
                        .chain(r.cells.values().filter_map(|s| if let Src::CopyOf(t) = s { Some(*t) } else { None }))
                        .chain(r.expose.iter().map(move |((c, o), _)| (ri, *c, *o)))
                })
                .collect();
            for ((cc, o), src) in &m.spec.regions[target].cells {
                let id = (target, *cc, *o);
                let tied = used.contains(&id) || matches!(src, Src::CopyOf(_) | Src::CopyFixed(..) | Src::Const(_) | Src::Inst(_));
                if !tied && (all || rng.chance(1, 4)) {
                    skip.insert(id);
                }
            }
            if !skip.is_empty() {
                ctx.count("with_missing_cells");
            }
            c.skip = Rc::new(skip);
        }
        let rec = match recorded(&m, &c, &inst, rng.u64()) {
            Ok(r) => r,
            Err(e) => {
                // the mock prover must agree that this cannot be laid out
                let r = guard(|| MockProver::run(m.k, &c, inst.clone()).map(|_| ()));
                ctx.check(matches!(r, Out::Ok(Err(_))), "mock prover ran a circuit that cannot be laid out", || format!("{:?}", e));
                continue;
            }
        };
        // region starts can move when cells are skipped
        let m2 = Made::<F, P> {
            spec: m.spec.clone(),
            k: m.k,
            starts: if c.skip.is_empty() { m.starts.clone() } else { actual_starts(&m.spec, &rec) },
            _p: Default::default(),
        };
        if m2.starts != m.starts {
            // values were computed for other absolute rows; the oracle still judges them
            ctx.count("moved_regions");
        }
        let mut want: Vec<Fail> = vec![];
        for v in rec.violations() {
            match v {
                Viol::Gate(g, p, r) => want.push(Fail::Gate(g, p, r)),
                Viol::Lookup(l, r) => want.push(Fail::Lookup(l, r)),
                Viol::Copy(..) => {}
            }
        }
        want.extend(missing(&m2, &rec));
        want.sort();
        let (cls, cls_ok) = classes(&rec);
        let prover = match guard(|| MockProver::run(m.k, &c, inst.clone())) {
            Out::Ok(Ok(p)) => p,
            Out::Ok(Err(e)) => {
                ctx.violation("mock prover failed to run", format!("{:?} {:?}", e, m.spec));
                continue;
            }
            Out::Panic(e) => {
                ctx.violation("mock prover run panicked", format!("{} {:?}", e, m.spec));
                continue;
            }
        };
        let dec = Dec::new(&m2, &rec);
        let truth = want.is_empty() && cls_ok.iter().all(|x| *x);
        ctx.count(if truth { "satisfied" } else { "unsatisfied" });
        for w in &want {
            ctx.count(match w {
                Fail::Gate(..) => "gate_failures",
                Fail::Lookup(..) => "lookup_failures",
                _ => "missing_failures",
            });
        }
        for par in [false, true] {
            let name = if par { "verify_par" } else { "verify" };
            let got = match guard(|| if par { prover.verify_par() } else { prover.verify() }) {
                Out::Ok(r) => r,
                Out::Panic(e) => {
                    ctx.violation(&format!("{} panicked", name), format!("{} want {:?} spec {:?} skip {:?}", e, want, m.spec, c.skip));
                    continue;
                }
            };
            ctx.count(name);
            if !ctx.check(got.is_ok() == truth, &format!("{}: wrong verdict", name), || {
                format!("reported {:?}, expected {:?}, copies ok {:?}, spec {:?}", got, want, cls_ok, m.spec)
            }) {
                continue;
            }
            if let Err(fails) = got {
                judge(ctx, &dec, &fails, &want, &cls, &cls_ok, name, || format!("{:?} faults {:?} skip {:?}", m.spec, c.faults, c.skip));
            }
        }
        // restricted to some rows
        let rows: Vec<usize> = (0..rec.usable).filter(|_| rng.bool()).collect();
        let lrows: Vec<usize> = (0..rec.usable).filter(|_| rng.bool()).collect();
        let want_r: Vec<Fail> = want
            .iter()
            .filter(|w| match w {
                Fail::Gate(_, _, r) => rows.contains(r),
                Fail::Lookup(_, r) => lrows.contains(r),
                _ => true,
            })
            .cloned()
            .collect();
        let truth_r = want_r.is_empty() && cls_ok.iter().all(|x| *x);
        for par in [false, true] {
            let name = if par { "verify_at_rows_par" } else { "verify_at_rows" };
            let got = guard(|| {
                if par {
                    prover.verify_at_rows_par(rows.iter().copied(), lrows.iter().copied())
                } else {
                    prover.verify_at_rows(rows.iter().copied(), lrows.iter().copied())
                }
            });
            match got {
                Out::Ok(got) => {
                    ctx.count(name);
                    if ctx.check(got.is_ok() == truth_r, &format!("{}: wrong verdict", name), || format!("{:?} want {:?}", got, want_r)) {
                        if let Err(f) = got {
                            judge(ctx, &dec, &f, &want_r, &cls, &cls_ok, name, || format!("{:?}", m.spec));
                        }
                    }
                }
                Out::Panic(e) => ctx.violation(&format!("{} panicked", name), format!("{} {:?}", e, m.spec)),
            }
        }
        for par in [false, true] {
            let r = guard(|| if par { prover.assert_satisfied_par() } else { prover.assert_satisfied() });
            match r {
                Out::Ok(()) => {
                    ctx.check(truth, "assert_satisfied accepted an unsatisfied circuit", || format!("{:?}", want));
                }
                Out::Panic(e) => {
                    ctx.check(!truth && e.contains("circuit was not satisfied"), "assert_satisfied failed for another reason", || {
                        format!("{} want {:?} spec {:?}", e, want, m.spec)
                    });
                }
            }
        }
    }
}

fn actual_starts<F: Fl>(spec: &Spec<F>, rec: &zkit::Rec<F>) -> Vec<usize> {
    // selectors give the start of a region whatever cells it assigns
    let mut out = vec![];
    for (ri, r) in spec.regions.iter().enumerate() {
        let idx = rec.regions.iter().position(|n| *n == format!("r{}", ri)).unwrap();
        let by_fixed = r.fixed.keys().find_map(|(f, o)| {
            rec.cell_region
                .iter()
                .find(|(p, v)| **v == idx && p.0 == 'f' && p.1 == *f)
                .map(|(p, _)| (p.2, r.fixed.keys().filter(|k| k.0 == *f).map(|k| k.1).min().unwrap(), *o))
                .map(|(row, lo, _)| row - lo)
        });
        let by_sel = rec.sel_region.get(&idx).and_then(|v| {
            let lo = r.sels.iter().map(|s| s.1).min()?;
            v.iter().min().map(|x| x - lo)
        });
        let by_adv = rec
            .cell_region
            .iter()
            .filter(|(p, v)| **v == idx && p.0 == 'a')
            .map(|(p, _)| *p)
            .next()
            .and_then(|p| {
                // offsets of the assigned cells of that column, in order
                let rows: BTreeSet<usize> = rec.cell_region.iter().filter(|(q, v)| **v == idx && q.0 == 'a' && q.1 == p.1).map(|(q, _)| q.2).collect();
                let offs: BTreeSet<usize> = r.cells.keys().filter(|k| k.0 == p.1).map(|k| k.1).collect();
                if rows.len() == offs.len() {
                    Some(rows.iter().next().unwrap() - offs.iter().next().unwrap())
                } else {
                    None
                }
            });
        out.push(by_sel.or(by_fixed).or(by_adv).unwrap_or(0));
    }
    out
}

#[allow(clippy::too_many_arguments)]
fn judge<F: Fl>(
    ctx: &Ctx,
    dec: &Dec<F>,
    fails: &[VerifyFailure],
    want: &[Fail],
    cls: &HashMap<Pos, usize>,
    cls_ok: &[bool],
    name: &str,
    desc: impl Fn() -> String,
) {
    let (got, perm) = match dec.decode(fails) {
        Ok(x) => x,
        Err(e) => return ctx.violation(&format!("{}: failure names nothing of this circuit", name), format!("{}: {:?} {}", e, fails, desc())),
    };
    let a: BTreeSet<&Fail> = got.iter().collect();
    let b: BTreeSet<&Fail> = want.iter().collect();
    ctx.check(a == b, &format!("{}: failures are not the violated constraints", name), || {
        format!(
            "reported only {:?}; missing {:?}; {}",
            a.difference(&b).collect::<Vec<_>>(),
            b.difference(&a).collect::<Vec<_>>(),
            desc()
        )
    });
    let mut named: BTreeMap<usize, usize> = BTreeMap::new();
    for p in &perm {
        match cls.get(p) {
            Some(c) if !cls_ok[*c] => {
                *named.entry(*c).or_default() += 1;
            }
            _ => ctx.violation(
                &format!("{}: copy failure at a cell whose copies agree", name),
                format!("{:?} value {:?} {}", p, dec.rec.cell(*p), desc()),
            ),
        }
    }
    for (i, ok) in cls_ok.iter().enumerate() {
        if !ok {
            ctx.count("copy_failures");
            ctx.check(named.contains_key(&i), &format!("{}: violated copy not reported", name), || desc());
        }
    }
}

pub fn c11(ctx: Ctx) {
    ctx.rule("random circuits (as C09, both floor planners, two fields) with honest witnesses and with 0..5 altered cells, altered public inputs and unassigned cells; the set of failures reported by verify, verify_par, verify_at_rows(_par) and assert_satisfied(_par) is compared with the violations found by an independent evaluator of the recorded assignment; non-trivial = distinct circuits");
    ctx.assume("gates read only rows of their own region");
    ctx.set_budget(40, 500);
    ctx.cases("c11", 200, ctx.n(3000, 60000), |i, rng| match i % 4 {
        0 => case::<Fr, SimpleFloorPlanner>(&ctx, i, rng),
        1 => case::<Fr, V1>(&ctx, i, rng),
        2 => case::<Fp, SimpleFloorPlanner>(&ctx, i, rng),
        _ => case::<Fp, V1>(&ctx, i, rng),
    });
    ctx.cases("web", 200, ctx.n(4000, 60000), |i, rng| crate::web::mock_case(&ctx, i, rng));
    ctx.finish(&[
        ("satisfied", 200),
        ("unsatisfied", 200),
        ("gate_failures", 50),
        ("lookup_failures", 50),
        ("copy_failures", 50),
        ("missing_failures", 50),
        ("web_satisfied", 100),
        ("web_unsatisfied", 500),
    ])
}
