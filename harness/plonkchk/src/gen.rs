//! Random circuits with a witness solver. A `Spec` describes columns, phases, gates,
//! lookups, regions and copies; the circuit built from it is satisfied by construction
//! (checked by the independent evaluator, not assumed).
use halo2_proofs::arithmetic::FieldExt;
use halo2_proofs::circuit::{Cell, Layouter, Value};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use kit::Rng;
use std::any::Any as StdAny;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::marker::PhantomData;
use std::rc::Rc;
use zkit::Key;

pub trait Fl: FieldExt + Key {}
impl<F: FieldExt + Key> Fl for F {}

/// expression over the spec's own column numbering
#[derive(Clone, Debug)]
pub enum Ex<F> {
    C(F),
    A(usize, i32),
    X(usize, i32),
    I(usize, i32),
    Ch(usize),
    S(usize),
    Neg(Box<Ex<F>>),
    Add(Box<Ex<F>>, Box<Ex<F>>),
    Mul(Box<Ex<F>>, Box<Ex<F>>),
    Scale(Box<Ex<F>>, F),
}
impl<F: Fl> Ex<F> {
    fn add(a: Self, b: Self) -> Self {
        Ex::Add(Box::new(a), Box::new(b))
    }
    fn mul(a: Self, b: Self) -> Self {
        Ex::Mul(Box::new(a), Box::new(b))
    }
    fn neg(a: Self) -> Self {
        Ex::Neg(Box::new(a))
    }
    fn walk(&self, f: &mut impl FnMut(&Ex<F>)) {
        f(self);
        match self {
            Ex::Neg(a) | Ex::Scale(a, _) => a.walk(f),
            Ex::Add(a, b) | Ex::Mul(a, b) => {
                a.walk(f);
                b.walk(f)
            }
            _ => {}
        }
    }
    pub fn degree(&self) -> usize {
        match self {
            Ex::C(_) | Ex::Ch(_) => 0,
            Ex::A(..) | Ex::X(..) | Ex::I(..) | Ex::S(_) => 1,
            Ex::Neg(a) | Ex::Scale(a, _) => a.degree(),
            Ex::Add(a, b) => a.degree().max(b.degree()),
            Ex::Mul(a, b) => a.degree() + b.degree(),
        }
    }
}

/// what switches a gate or a lookup on
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Guard {
    Sel(usize),
    Fix(usize),
}

#[derive(Clone, Debug)]
pub struct Poly<F> {
    pub body: Ex<F>,
    pub out: (usize, i32),
}
#[derive(Clone, Debug)]
pub struct GateSpec<F> {
    pub guard: Guard,
    pub polys: Vec<Poly<F>>,
    pub named: bool,
}
#[derive(Clone, Debug)]
pub enum TableKind {
    /// lookup table columns filled by assign_table; index into Spec::tables
    Fixed(usize),
    /// advice columns (one per component) switched on by a complex selector
    Advice(Vec<usize>, usize),
}
#[derive(Clone, Debug)]
pub struct LookupSpec {
    pub guard: Option<Guard>,
    pub cols: Vec<(usize, i32)>,
    pub table: TableKind,
    /// combine the components with a challenge instead of looking up the tuple
    pub rlc: Option<usize>,
    /// add the same extra product to input and table? (degree of the input)
    pub square_guard: bool,
}
#[derive(Clone, Debug)]
pub struct TableSpec<F> {
    pub rows: Vec<Vec<F>>, // rows[0] is the default
}
pub type CellId = (usize, usize, usize); // region, advice column, offset

#[derive(Clone, Debug)]
pub enum Src<F> {
    Free(u64),
    Const(F),
    Inst(usize),
    CopyOf(CellId),
    CopyFixed(usize, usize, usize), // region, fixed col, offset
    Gate(usize, usize, usize),      // gate, poly, offset the guard sits at
    Look(usize, usize, u64),        // lookup, component, choice id
    TableRow(usize, usize, usize),  // lookup, component, row number in its advice table
}
#[derive(Clone, Debug, Default)]
pub struct RegionSpec<F> {
    pub height: usize,
    pub cells: BTreeMap<(usize, usize), Src<F>>,
    pub fixed: BTreeMap<(usize, usize), F>,
    pub sels: BTreeSet<(usize, usize)>,
    pub expose: Vec<((usize, usize), usize)>, // cell -> row of the last instance column
    pub extra_eq: Vec<((usize, usize), CellId)>,
}
#[derive(Clone, Debug, Default)]
pub struct Spec<F> {
    pub phases: Vec<u8>,
    pub n_fixed: usize,
    pub n_inst: usize,
    pub chal: Vec<u8>,
    pub sels: Vec<bool>,
    pub eq_adv: Vec<bool>,
    pub eq_fix: Vec<bool>,
    pub consts: Vec<usize>,
    pub gates: Vec<GateSpec<F>>,
    pub lookups: Vec<LookupSpec>,
    pub tables: Vec<TableSpec<F>>,
    pub regions: Vec<RegionSpec<F>>,
    pub min_degree: Option<usize>,
    pub tables_last: bool,
    pub inst_rows: usize,
    /// instance columns without equality
    pub no_eq_inst: bool,
    pub order: Vec<usize>, // order in which gates/lookups are declared
}

#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub max_deg: usize,
    pub max_regions: usize,
    pub max_height: usize,
    pub phases: bool,
    pub lookups: bool,
    pub sparse: bool,
}

fn fe<F: Fl>(rng: &mut Rng) -> F {
    crate::math::scalar(rng)
}

impl<F: Fl> Spec<F> {
    fn gen_ex(&self, rng: &mut Rng, deg: usize, max_col: usize, max_phase: u8) -> Ex<F> {
        // queries only columns below max_col
        if deg == 0 || rng.chance(1, 6) {
            let usable: Vec<usize> = (0..self.chal.len()).filter(|c| self.chal[*c] < max_phase).collect();
            return if !usable.is_empty() && rng.bool() {
                Ex::Ch(*rng.pick(&usable))
            } else {
                Ex::C(fe(rng))
            };
        }
        let rot = || [0, 0, 0, 1, -1, 2, -2, 3];
        match rng.below(10) {
            0 | 1 | 2 => Ex::A(rng.below(max_col), *rng.pick(&rot())),
            3 if self.n_fixed > 0 => Ex::X(rng.below(self.n_fixed), *rng.pick(&rot())),
            4 if self.n_inst > 0 => Ex::I(0, *rng.pick(&rot())),
            5 => Ex::neg(self.gen_ex(rng, deg, max_col, max_phase)),
            6 => Ex::Scale(Box::new(self.gen_ex(rng, deg, max_col, max_phase)), fe(rng)),
            7 => Ex::add(
                self.gen_ex(rng, deg, max_col, max_phase),
                self.gen_ex(rng, deg, max_col, max_phase),
            ),
            _ if deg >= 2 => {
                let d = rng.range(1, deg - 1);
                Ex::mul(
                    self.gen_ex(rng, d, max_col, max_phase),
                    self.gen_ex(rng, deg - d, max_col, max_phase),
                )
            }
            _ => Ex::A(rng.below(max_col), *rng.pick(&rot())),
        }
    }

    pub fn random(rng: &mut Rng, sh: Shape) -> Spec<F> {
        let mut s = Spec::<F>::default();
        let n_phase = if sh.phases { *rng.pick(&[1, 1, 2, 2, 3]) } else { 1 };
        // input columns in phase 0, then output columns appended in non-decreasing phase
        let n_in = rng.range(1, 3);
        s.phases = vec![0; n_in];
        s.n_fixed = rng.below(4);
        s.n_inst = rng.below(3);
        for _ in 0..rng.range(0, 4) {
            s.sels.push(rng.chance(3, 5));
        }
        s.inst_rows = if s.n_inst > 0 { rng.below(6) } else { 0 };
        // lookups (their columns are free columns of phase 0)
        if sh.lookups {
            for _ in 0..*rng.pick(&[0, 1, 1, 2, 2]) {
                let arity = rng.range(1, 3);
                let table = if rng.chance(2, 3) {
                    // sometimes share a table
                    let same: Vec<usize> = (0..s.tables.len()).filter(|t| s.tables[*t].rows[0].len() == arity).collect();
                    if !same.is_empty() && rng.bool() {
                        TableKind::Fixed(*rng.pick(&same))
                    } else {
                        let rows = rng.range(1, 9);
                        s.tables.push(TableSpec {
                            rows: (0..rows).map(|_| (0..arity).map(|_| fe(rng)).collect()).collect(),
                        });
                        TableKind::Fixed(s.tables.len() - 1)
                    }
                } else {
                    s.sels.push(false);
                    let c0 = s.phases.len();
                    s.phases.extend(vec![0; arity]);
                    TableKind::Advice((c0..c0 + arity).collect(), s.sels.len() - 1)
                };
                let c0 = s.phases.len();
                s.phases.extend(vec![0; arity]);
                let cols = (c0..c0 + arity).map(|c| (c, *rng.pick(&[0, 0, 1, -1, 2]))).collect();
                let guard = if rng.bool() || s.n_fixed == 0 {
                    s.sels.push(false);
                    Guard::Sel(s.sels.len() - 1)
                } else {
                    // a dedicated fixed column, 0/1 valued
                    s.n_fixed += 1;
                    Guard::Fix(s.n_fixed - 1)
                };
                s.lookups.push(LookupSpec {
                    guard: Some(guard),
                    cols,
                    table,
                    rlc: None,
                    square_guard: rng.chance(1, 4),
                });
            }
        }
        let free_cols = s.phases.len();
        // gates
        for ph in 0..n_phase {
            if ph > 0 {
                for _ in 0..rng.range(1, 2) {
                    s.chal.push(ph - 1);
                }
                // make sure the phase exists
                s.phases.push(ph);
            }
            for _ in 0..rng.range(if ph == 0 { 0 } else { 1 }, 2) {
                let guard = {
                    let sels: Vec<usize> = (0..s.sels.len())
                        .filter(|i| !s.lookups.iter().any(|l| l.guard == Some(Guard::Sel(*i)) || matches!(&l.table, TableKind::Advice(_, q) if q == i)))
                        .collect();
                    if !sels.is_empty() && rng.chance(3, 4) {
                        Guard::Sel(*rng.pick(&sels))
                    } else if s.n_fixed > 0 && rng.bool() {
                        let fx: Vec<usize> = (0..s.n_fixed).filter(|f| !s.lookups.iter().any(|l| l.guard == Some(Guard::Fix(*f)))).collect();
                        if fx.is_empty() {
                            s.sels.push(true);
                            Guard::Sel(s.sels.len() - 1)
                        } else {
                            Guard::Fix(*rng.pick(&fx))
                        }
                    } else {
                        s.sels.push(rng.bool());
                        Guard::Sel(s.sels.len() - 1)
                    }
                };
                let mut polys = vec![];
                for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
                    let deg = rng.range(1, sh.max_deg - 1);
                    let body = s.gen_ex(rng, deg, s.phases.len(), ph);
                    s.phases.push(ph);
                    polys.push(Poly {
                        body,
                        out: (s.phases.len() - 1, *rng.pick(&[0, 0, 0, 1, -1, 2])),
                    });
                }
                s.gates.push(GateSpec {
                    guard,
                    polys,
                    named: rng.bool(),
                });
            }
        }
        // challenge-combined lookups
        if !s.chal.is_empty() {
            for l in s.lookups.iter_mut() {
                if l.cols.len() > 1 && rng.bool() {
                    l.rlc = Some(rng.below(s.chal.len()));
                }
            }
        }
        s.eq_adv = (0..s.phases.len()).map(|_| rng.chance(3, 5)).collect();
        s.eq_fix = (0..s.n_fixed).map(|_| rng.chance(2, 5)).collect();
        for f in 0..s.n_fixed {
            if rng.chance(1, 3) && !s.lookups.iter().any(|l| l.guard == Some(Guard::Fix(f))) && !s.gates.iter().any(|g| g.guard == Guard::Fix(f)) && s.consts.len() < 2 {
                s.consts.push(f);
                s.eq_fix[f] = true;
            }
        }
        if rng.chance(1, 8) {
            s.min_degree = Some(rng.range(3, sh.max_deg.max(4)));
        }
        if sh.sparse {
            // circuits without a permutation argument, with a declared degree nothing reaches
            if rng.chance(2, 3) {
                s.eq_adv.iter_mut().for_each(|e| *e = false);
                s.eq_fix.iter_mut().for_each(|e| *e = false);
                s.consts.clear();
            }
            s.no_eq_inst = rng.bool();
            if rng.bool() {
                s.min_degree = Some(rng.range(3, 9));
            }
        }
        s.tables_last = rng.bool();
        let mut order: Vec<usize> = (0..s.gates.len() + s.lookups.len()).collect();
        rng.shuffle(&mut order);
        s.order = order;

        // regions
        let mut free_id = 0u64;
        let mut exposed = 0usize;
        let n_regions = rng.range(1, sh.max_regions);
        let mut guards: Vec<Guard> = s.gates.iter().map(|g| g.guard).collect();
        guards.sort();
        guards.dedup();
        let adv_tables: Vec<usize> = (0..s.lookups.len())
            .filter(|l| matches!(s.lookups[*l].table, TableKind::Advice(..)))
            .collect();
        for ri in 0..n_regions + adv_tables.len() {
            let mut r = RegionSpec::<F>::default();
            // the advice tables get a region of their own, first
            if ri < adv_tables.len() {
                let li = adv_tables[ri];
                if let TableKind::Advice(cols, q) = &s.lookups[li].table {
                    r.height = rng.range(1, 5);
                    for o in 0..r.height {
                        r.sels.insert((*q, o));
                        for (j, c) in cols.iter().enumerate() {
                            r.cells.insert((*c, o), Src::TableRow(li, j, o));
                        }
                    }
                }
                s.regions.push(r);
                continue;
            }
            r.height = rng.range(1, sh.max_height);
            let h = r.height as i64;
            let mut need_adv: BTreeSet<(usize, usize)> = BTreeSet::new();
            let mut need_fix: BTreeSet<(usize, usize)> = BTreeSet::new();
            for g in &guards {
                if rng.chance(1, 3) {
                    continue;
                }
                let gates: Vec<usize> = (0..s.gates.len()).filter(|i| s.gates[*i].guard == *g).collect();
                // rotation span of everything under this guard
                let (mut lo, mut hi) = (0i64, 0i64);
                let mut qa: HashSet<(usize, i32)> = HashSet::new();
                let mut qx: HashSet<(usize, i32)> = HashSet::new();
                for gi in &gates {
                    for p in &s.gates[*gi].polys {
                        qa.insert(p.out);
                        p.body.walk(&mut |e| match e {
                            Ex::A(c, r) => {
                                qa.insert((*c, *r));
                            }
                            Ex::X(c, r) => {
                                qx.insert((*c, *r));
                            }
                            _ => {}
                        });
                    }
                }
                if let Guard::Fix(f) = g {
                    qx.insert((*f, 0));
                }
                for (_, r) in qa.iter().chain(qx.iter()) {
                    lo = lo.min(*r as i64);
                    hi = hi.max(*r as i64);
                }
                for o in 0..h {
                    if o + lo < 0 || o + hi >= h || rng.chance(1, 4) {
                        continue;
                    }
                    match g {
                        Guard::Sel(i) => {
                            r.sels.insert((*i, o as usize));
                        }
                        Guard::Fix(f) => {
                            let v = match rng.below(3) {
                                0 => fe(rng),
                                _ => F::one(),
                            };
                            r.fixed.insert((*f, o as usize), v);
                        }
                    }
                    for (c, rot) in &qa {
                        need_adv.insert((*c, (o + *rot as i64) as usize));
                    }
                    for (c, rot) in &qx {
                        need_fix.insert((*c, (o + *rot as i64) as usize));
                    }
                    for gi in &gates {
                        for (pi, p) in s.gates[*gi].polys.iter().enumerate() {
                            r.cells
                                .insert((p.out.0, (o + p.out.1 as i64) as usize), Src::Gate(*gi, pi, o as usize));
                        }
                    }
                }
            }
            for (li, l) in s.lookups.iter().enumerate() {
                for o in 0..h {
                    if l.cols.iter().any(|(_, r)| o + (*r as i64) < 0 || o + (*r as i64) >= h) || rng.chance(1, 2) {
                        continue;
                    }
                    match l.guard {
                        Some(Guard::Sel(i)) => {
                            r.sels.insert((i, o as usize));
                        }
                        Some(Guard::Fix(f)) => {
                            r.fixed.insert((f, o as usize), F::one());
                        }
                        None => {}
                    }
                    let choice = rng.u64();
                    for (j, (c, rot)) in l.cols.iter().enumerate() {
                        r.cells
                            .insert((*c, (o + *rot as i64) as usize), Src::Look(li, j, choice));
                    }
                }
            }
            // fixed cells: never in guard columns unless set above
            let guard_fix: HashSet<usize> = s
                .gates
                .iter()
                .map(|g| g.guard)
                .chain(s.lookups.iter().filter_map(|l| l.guard))
                .filter_map(|g| if let Guard::Fix(f) = g { Some(f) } else { None })
                .collect();
            for (f, o) in &need_fix {
                if guard_fix.contains(f) {
                    r.fixed.entry((*f, *o)).or_insert(F::zero());
                } else {
                    let v = fe(rng);
                    r.fixed.entry((*f, *o)).or_insert(v);
                }
            }
            for f in 0..s.n_fixed {
                if !guard_fix.contains(&f) && rng.chance(1, 3) {
                    let v = fe(rng);
                    r.fixed.entry((f, rng.below(r.height))).or_insert(v);
                }
            }
            // optional further advice cells
            for c in 0..s.phases.len() {
                if rng.chance(1, 4) && !s.lookups.iter().any(|l| matches!(&l.table, TableKind::Advice(cs, _) if cs.contains(&c))) {
                    need_adv.insert((c, rng.below(r.height)));
                }
            }
            for (c, o) in need_adv {
                if r.cells.contains_key(&(c, o)) {
                    continue;
                }
                free_id += 1;
                let mut src = Src::Free(free_id);
                if s.eq_adv[c] {
                    match rng.below(8) {
                        0 if !s.consts.is_empty() => src = Src::Const(fe(rng)),
                        1 if s.n_inst > 0 && !s.no_eq_inst => src = Src::Inst(rng.below(8)),
                        2 | 3 => {
                            // copy an earlier cell: lower column anywhere earlier, same column earlier region
                            let mut cand: Vec<CellId> = vec![];
                            for (rj, rr) in s.regions.iter().enumerate() {
                                for (cc, oo) in rr.cells.keys() {
                                    if s.eq_adv[*cc] && *cc <= c {
                                        cand.push((rj, *cc, *oo));
                                    }
                                }
                            }
                            for (cc, oo) in r.cells.keys() {
                                if s.eq_adv[*cc] && *cc < c {
                                    cand.push((s.regions.len(), *cc, *oo));
                                }
                            }
                            if !cand.is_empty() {
                                src = Src::CopyOf(*rng.pick(&cand));
                            }
                        }
                        4 => {
                            let mut cand: Vec<(usize, usize, usize)> = vec![];
                            for (rj, rr) in s.regions.iter().chain(std::iter::once(&r)).enumerate() {
                                for (f, oo) in rr.fixed.keys() {
                                    if s.eq_fix[*f] {
                                        cand.push((rj, *f, *oo));
                                    }
                                }
                            }
                            if !cand.is_empty() {
                                let (a, b, d) = *rng.pick(&cand);
                                src = Src::CopyFixed(a, b, d);
                            }
                        }
                        _ => {}
                    }
                }
                r.cells.insert((c, o), src);
            }
            // exposures: phase-0 cells only (their value may not depend on challenges)
            if s.n_inst > 1 && !s.no_eq_inst {
                for (c, o) in r.cells.keys() {
                    if s.eq_adv[*c] && s.phases[*c] == 0 && exposed < 5 && rng.chance(1, 6) {
                        r.expose.push(((*c, *o), exposed));
                        exposed += 1;
                    }
                }
            }
            // redundant equalities: a copied cell with its source again, a cell with itself
            for ((c, o), src) in &r.cells {
                if let Src::CopyOf(t) = src {
                    if rng.chance(1, 4) {
                        r.extra_eq.push(((*c, *o), *t));
                    }
                } else if s.eq_adv[*c] && rng.chance(1, 30) {
                    r.extra_eq.push(((*c, *o), (s.regions.len(), *c, *o)));
                }
            }
            s.regions.push(r);
        }
        let _ = free_cols;
        s
    }

    pub fn has_work(&self) -> bool {
        self.regions.iter().any(|r| r.cells.values().any(|c| !matches!(c, Src::Free(_))))
    }
}

/// Everything a prover knows.
#[derive(Clone)]
pub struct Wit<F> {
    pub wseed: u64,
    pub n: usize,
    pub starts: Vec<usize>,
    pub inst: Vec<Vec<F>>,
}

pub struct Solver<'a, F: Fl> {
    s: &'a Spec<F>,
    w: &'a Wit<F>,
    ch: &'a [Option<F>],
    memo: RefCell<HashMap<CellId, Option<F>>>,
    /// values forced on cells, which cells computed from them follow
    pub force: HashMap<CellId, F>,
}
impl<'a, F: Fl> Solver<'a, F> {
    pub fn new(s: &'a Spec<F>, w: &'a Wit<F>, ch: &'a [Option<F>]) -> Self {
        Solver {
            s,
            w,
            ch,
            memo: Default::default(),
            force: Default::default(),
        }
    }
    fn free(&self, id: u64) -> F {
        fe(&mut Rng::new(self.w.wseed, "free", id))
    }
    pub fn table_row(&self, li: usize, row: usize) -> Vec<F> {
        let l = &self.s.lookups[li];
        (0..l.cols.len())
            .map(|j| fe(&mut Rng::new(self.w.wseed, "tbl", (li * 1000 + row * 10 + j) as u64)))
            .collect()
    }
    fn table_rows(&self, li: usize) -> Vec<Vec<F>> {
        match &self.s.lookups[li].table {
            TableKind::Fixed(t) => self.s.tables[*t].rows.clone(),
            TableKind::Advice(cols, _) => {
                let mut out = vec![];
                for r in &self.s.regions {
                    for ((c, _), src) in &r.cells {
                        if *c == cols[0] {
                            if let Src::TableRow(l2, _, o) = src {
                                if *l2 == li {
                                    out.push(self.table_row(li, *o));
                                }
                            }
                        }
                    }
                }
                out
            }
        }
    }
    pub fn value(&self, id: CellId) -> Option<F> {
        if let Some(v) = self.memo.borrow().get(&id) {
            return *v;
        }
        if let Some(v) = self.force.get(&id) {
            return Some(*v);
        }
        let (ri, c, o) = id;
        let r = &self.s.regions[ri];
        let v = match r.cells.get(&(c, o)).expect("unassigned cell solved") {
            Src::Free(i) => Some(self.free(*i)),
            Src::Const(f) => Some(*f),
            Src::Inst(row) => Some(self.w.inst[0].get(*row).copied().unwrap_or_else(F::zero)),
            Src::CopyOf(t) => self.value(*t),
            Src::CopyFixed(a, f, o) => Some(self.s.regions[*a].fixed[&(*f, *o)]),
            Src::Gate(g, p, off) => self.ex(&self.s.gates[*g].polys[*p].body, ri, *off),
            Src::Look(li, j, ch) => {
                let rows = self.table_rows(*li);
                if rows.is_empty() {
                    Some(F::zero())
                } else {
                    Some(rows[((*ch ^ self.w.wseed) % rows.len() as u64) as usize][*j])
                }
            }
            Src::TableRow(li, j, o) => Some(self.table_row(*li, *o)[*j]),
        };
        self.memo.borrow_mut().insert(id, v);
        v
    }
    fn ex(&self, e: &Ex<F>, ri: usize, off: usize) -> Option<F> {
        Some(match e {
            Ex::C(f) => *f,
            Ex::A(c, r) => self.value((ri, *c, (off as i64 + *r as i64) as usize))?,
            Ex::X(c, r) => self.s.regions[ri].fixed[&(*c, (off as i64 + *r as i64) as usize)],
            Ex::I(c, r) => {
                let row = (self.w.starts[ri] as i64 + off as i64 + *r as i64).rem_euclid(self.w.n as i64) as usize;
                self.w.inst[*c].get(row).copied().unwrap_or_else(F::zero)
            }
            Ex::Ch(i) => self.ch.get(*i).copied().flatten()?,
            Ex::S(i) => {
                if self.s.regions[ri].sels.contains(&(*i, off)) {
                    F::one()
                } else {
                    F::zero()
                }
            }
            Ex::Neg(a) => -self.ex(a, ri, off)?,
            Ex::Add(a, b) => self.ex(a, ri, off)? + self.ex(b, ri, off)?,
            Ex::Mul(a, b) => self.ex(a, ri, off)? * self.ex(b, ri, off)?,
            Ex::Scale(a, f) => self.ex(a, ri, off)? * f,
        })
    }
}

thread_local! {
    static SPEC: RefCell<Option<Box<dyn StdAny>>> = RefCell::new(None);
}
pub fn set_spec<F: Fl>(s: &Rc<Spec<F>>) {
    SPEC.with(|x| *x.borrow_mut() = Some(Box::new(s.clone())));
}
fn get_spec<F: Fl>() -> Rc<Spec<F>> {
    SPEC.with(|x| {
        x.borrow()
            .as_ref()
            .expect("no spec")
            .downcast_ref::<Rc<Spec<F>>>()
            .expect("spec of another field")
            .clone()
    })
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub adv: Vec<Column<Advice>>,
    pub fix: Vec<Column<Fixed>>,
    pub inst: Vec<Column<Instance>>,
    pub sels: Vec<Selector>,
    pub chal: Vec<Challenge>,
    pub tables: Vec<Vec<TableColumn>>,
    /// index of the fixed column behind each table column
    pub table_fixed: Vec<Vec<usize>>,
}

pub struct GenC<F: Fl, P> {
    pub spec: Rc<Spec<F>>,
    pub wit: Option<Wit<F>>,
    pub faults: Rc<HashMap<CellId, F>>,
    /// dependents follow the faults
    pub follow: bool,
    pub skip: Rc<HashSet<CellId>>,
    pub _p: PhantomData<P>,
}
impl<F: Fl, P> Clone for GenC<F, P> {
    fn clone(&self) -> Self {
        GenC {
            spec: self.spec.clone(),
            wit: self.wit.clone(),
            faults: self.faults.clone(),
            follow: self.follow,
            skip: self.skip.clone(),
            _p: PhantomData,
        }
    }
}
impl<F: Fl, P> GenC<F, P> {
    pub fn new(spec: &Rc<Spec<F>>, wit: Option<Wit<F>>) -> Self {
        GenC {
            spec: spec.clone(),
            wit,
            faults: Default::default(),
            follow: false,
            skip: Default::default(),
            _p: PhantomData,
        }
    }
}

const GATE_NAMES: [&str; 12] = ["g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9", "g10", "g11"];
const POLY_NAMES: [&str; 4] = ["p0", "p1", "p2", "p3"];
pub fn gate_name(i: usize) -> &'static str {
    GATE_NAMES[i % 12]
}
pub fn poly_name(named: bool, i: usize) -> &'static str {
    if named {
        POLY_NAMES[i % 4]
    } else {
        ""
    }
}

pub fn to_expr<F: Fl>(e: &Ex<F>, m: &mut VirtualCells<'_, F>, c: &Cfg) -> Expression<F> {
    match e {
        Ex::C(f) => Expression::Constant(*f),
        Ex::A(i, r) => m.query_advice(c.adv[*i], Rotation(*r)),
        Ex::X(i, r) => m.query_fixed(c.fix[*i], Rotation(*r)),
        Ex::I(i, r) => m.query_instance(c.inst[*i], Rotation(*r)),
        Ex::Ch(i) => m.query_challenge(c.chal[*i]),
        Ex::S(i) => m.query_selector(c.sels[*i]),
        Ex::Neg(a) => -to_expr(a, m, c),
        Ex::Add(a, b) => to_expr(a, m, c) + to_expr(b, m, c),
        Ex::Mul(a, b) => to_expr(a, m, c) * to_expr(b, m, c),
        Ex::Scale(a, f) => to_expr(a, m, c) * *f,
    }
}
fn guard_expr<F: Fl>(g: Guard, m: &mut VirtualCells<'_, F>, c: &Cfg) -> Expression<F> {
    match g {
        Guard::Sel(i) => m.query_selector(c.sels[i]),
        Guard::Fix(f) => m.query_fixed(c.fix[f], Rotation::cur()),
    }
}

impl<F: Fl, P: FloorPlanner> Circuit<F> for GenC<F, P> {
    type Config = Cfg;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        GenC {
            wit: None,
            ..self.clone()
        }
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Cfg {
        let s = get_spec::<F>();
        let mut chal = vec![];
        let mut adv = vec![];
        for (i, ph) in s.phases.iter().enumerate() {
            if i > 0 && s.phases[i - 1] != *ph {
                // challenges after the previous phase
                for c in s.chal.iter().filter(|c| **c == *ph - 1) {
                    chal.push(match c {
                        0 => meta.challenge_usable_after(FirstPhase),
                        _ => meta.challenge_usable_after(SecondPhase),
                    });
                }
            }
            adv.push(match ph {
                0 => meta.advice_column(),
                1 => meta.advice_column_in(SecondPhase),
                _ => meta.advice_column_in(ThirdPhase),
            });
        }
        let fix: Vec<_> = (0..s.n_fixed).map(|_| meta.fixed_column()).collect();
        let mut tables = vec![];
        let mut table_fixed = vec![];
        for t in &s.tables {
            let (mut a, mut b) = (vec![], vec![]);
            for _ in 0..t.rows[0].len() {
                b.push(meta.num_fixed_columns());
                a.push(meta.lookup_table_column());
            }
            tables.push(a);
            table_fixed.push(b);
        }
        let cfg = Cfg {
            adv,
            fix,
            inst: (0..s.n_inst).map(|_| meta.instance_column()).collect(),
            sels: s
                .sels
                .iter()
                .map(|simple| if *simple { meta.selector() } else { meta.complex_selector() })
                .collect(),
            chal,
            tables,
            table_fixed,
        };
        for (i, e) in s.eq_adv.iter().enumerate() {
            if *e {
                meta.enable_equality(cfg.adv[i]);
            }
        }
        for (i, e) in s.eq_fix.iter().enumerate() {
            if *e {
                meta.enable_equality(cfg.fix[i]);
            }
        }
        if !s.no_eq_inst {
            for i in &cfg.inst {
                meta.enable_equality(*i);
            }
        }
        for f in &s.consts {
            meta.enable_constant(cfg.fix[*f]);
        }
        for k in &s.order {
            if *k < s.gates.len() {
                let g = &s.gates[*k];
                meta.create_gate(GATE_NAMES[*k % 12], |m| {
                    let q = guard_expr(g.guard, m, &cfg);
                    g.polys
                        .iter()
                        .enumerate()
                        .map(|(i, p)| {
                            let b = to_expr(&p.body, m, &cfg);
                            let o = m.query_advice(cfg.adv[p.out.0], Rotation(p.out.1));
                            let e = q.clone() * (b - o);
                            if g.named {
                                Constraint::from((POLY_NAMES[i % 4], e))
                            } else {
                                Constraint::from(e)
                            }
                        })
                        .collect::<Vec<_>>()
                });
            } else {
                let l = &s.lookups[*k - s.gates.len()];
                let build = |m: &mut VirtualCells<'_, F>, dflt: &[F]| -> Vec<Expression<F>> {
                    let g = guard_expr(l.guard.unwrap(), m, &cfg);
                    let one = Expression::Constant(F::one());
                    l.cols
                        .iter()
                        .enumerate()
                        .map(|(j, (c, r))| {
                            let a = m.query_advice(cfg.adv[*c], Rotation(*r));
                            let q = if l.square_guard { g.clone() * g.clone() } else { g.clone() };
                            q * a + (one.clone() - g.clone()) * dflt[j]
                        })
                        .collect()
                };
                let comb = |v: Vec<Expression<F>>, ch: Expression<F>| -> Expression<F> {
                    v.into_iter().rev().reduce(|acc, e| acc * ch.clone() + e).unwrap()
                };
                match (&l.table, l.rlc) {
                    (TableKind::Fixed(t), None) => {
                        meta.lookup("fixed table", |m| {
                            build(m, &s.tables[*t].rows[0])
                                .into_iter()
                                .zip(cfg.tables[*t].iter().copied())
                                .collect()
                        });
                    }
                    (TableKind::Fixed(t), Some(ch)) => {
                        // the table columns' fixed columns follow the plain ones, in order
                        meta.lookup_any("rlc table", |m| {
                            let c = m.query_challenge(cfg.chal[ch]);
                            let a = comb(build(m, &s.tables[*t].rows[0]), c.clone());
                            let tb = cfg.table_fixed[*t]
                                .iter()
                                .map(|col| m.query_fixed(fixed_at(*col), Rotation::cur()))
                                .collect::<Vec<_>>();
                            vec![(a, comb(tb, c))]
                        });
                    }
                    (TableKind::Advice(cols, q), rlc) => {
                        meta.lookup_any("advice table", |m| {
                            let zero = vec![F::zero(); cols.len()];
                            let ins = build(m, &zero);
                            let q = m.query_selector(cfg.sels[*q]);
                            let tb: Vec<_> = cols
                                .iter()
                                .map(|c| q.clone() * m.query_advice(cfg.adv[*c], Rotation::cur()))
                                .collect();
                            match rlc {
                                None => ins.into_iter().zip(tb).collect(),
                                Some(ch) => {
                                    let c = m.query_challenge(cfg.chal[ch]);
                                    vec![(comb(ins, c.clone()), comb(tb, c))]
                                }
                            }
                        });
                    }
                }
            }
        }
        if let Some(d) = s.min_degree {
            meta.set_minimum_degree(d);
        }
        cfg
    }
    fn synthesize(&self, cfg: Cfg, mut layouter: impl Layouter<F>) -> Result<(), Error> {
        let s = &*self.spec;
        let ch: Vec<Option<F>> = cfg
            .chal
            .iter()
            .map(|c| {
                let mut o = None;
                layouter.get_challenge(*c).map(|v| o = Some(v));
                o
            })
            .collect();
        let dummy;
        let (wit, known) = match &self.wit {
            Some(w) => (w, true),
            None => {
                dummy = Wit {
                    wseed: 0,
                    n: 1,
                    starts: vec![0; s.regions.len()],
                    inst: vec![vec![]; s.n_inst],
                };
                (&dummy, false)
            }
        };
        let mut solver = Solver::new(s, wit, &ch);
        if self.follow {
            solver.force = (*self.faults).clone();
        }
        let val = |id: CellId| -> Value<Assigned<F>> {
            if !known {
                return Value::unknown();
            }
            let v = match self.faults.get(&id) {
                Some(d) => Some(*d),
                None => solver.value(id),
            };
            match v {
                None => Value::unknown(),
                // every third cell is written as a fraction
                Some(v) if (id.0 + id.1 + id.2) % 3 == 0 => {
                    let d = F::from(7 + id.2 as u64);
                    Value::known(Assigned::Rational(v * d, d))
                }
                Some(v) => Value::known(Assigned::Trivial(v)),
            }
        };
        let tables = |layouter: &mut dyn FnMut(usize) -> Result<(), Error>| -> Result<(), Error> {
            for t in 0..s.tables.len() {
                layouter(t)?;
            }
            Ok(())
        };
        macro_rules! do_tables {
            () => {
                tables(&mut |t| {
                    layouter.assign_table(
                        || format!("t{}", t),
                        |mut table| {
                            for (o, row) in s.tables[t].rows.iter().enumerate() {
                                for (j, v) in row.iter().enumerate() {
                                    table.assign_cell(|| "t", cfg.tables[t][j], o, || Value::known(*v))?;
                                }
                            }
                            Ok(())
                        },
                    )
                })?
            };
        }
        if !s.tables_last {
            do_tables!();
        }
        let mut cells: HashMap<CellId, Cell> = HashMap::new();
        let mut fcells: HashMap<CellId, Cell> = HashMap::new();
        for (ri, r) in s.regions.iter().enumerate() {
            let (cs, fs) = layouter.assign_region(
                || format!("r{}", ri),
                |mut reg| {
                    let mut mine: HashMap<CellId, Cell> = HashMap::new();
                    let mut minef: HashMap<CellId, Cell> = HashMap::new();
                    for ((f, o), v) in &r.fixed {
                        let c = reg.assign_fixed(|| "f", cfg.fix[*f], *o, || Value::known(*v))?;
                        minef.insert((ri, *f, *o), c.cell());
                    }
                    for (q, o) in &r.sels {
                        cfg.sels[*q].enable(&mut reg, *o)?;
                    }
                    for ((c, o), src) in &r.cells {
                        let id = (ri, *c, *o);
                        if self.skip.contains(&id) {
                            continue;
                        }
                        let faulted = self.faults.contains_key(&id);
                        let find = |t: &CellId, mine: &HashMap<CellId, Cell>| mine.get(t).or_else(|| cells.get(t)).copied();
                        let cell = match src {
                            Src::Const(v) => {
                                if faulted || *o % 2 == 0 {
                                    let cell = reg.assign_advice(|| "c", cfg.adv[*c], *o, || val(id))?.cell();
                                    reg.constrain_constant(cell, *v)?;
                                    cell
                                } else {
                                    reg.assign_advice_from_constant(|| "c", cfg.adv[*c], *o, *v)?.cell()
                                }
                            }
                            Src::Inst(row) => {
                                let cell = reg
                                    .assign_advice_from_instance(|| "i", cfg.inst[0], *row, cfg.adv[*c], *o)?
                                    .cell();
                                if faulted {
                                    reg.assign_advice(|| "i", cfg.adv[*c], *o, || val(id))?;
                                }
                                cell
                            }
                            Src::CopyOf(t) => {
                                let cell = reg.assign_advice(|| "a", cfg.adv[*c], *o, || val(id))?.cell();
                                if let Some(tc) = find(t, &mine) {
                                    if *o % 2 == 0 {
                                        reg.constrain_equal(tc, cell)?;
                                    } else {
                                        reg.constrain_equal(cell, tc)?;
                                    }
                                }
                                cell
                            }
                            Src::CopyFixed(a, f, oo) => {
                                let cell = reg.assign_advice(|| "a", cfg.adv[*c], *o, || val(id))?.cell();
                                let t = (*a, *f, *oo);
                                let tc = minef.get(&t).or_else(|| fcells.get(&t)).copied().unwrap();
                                reg.constrain_equal(tc, cell)?;
                                cell
                            }
                            _ => reg.assign_advice(|| "a", cfg.adv[*c], *o, || val(id))?.cell(),
                        };
                        mine.insert(id, cell);
                    }
                    for ((c, o), t) in &r.extra_eq {
                        let a = mine.get(&(ri, *c, *o)).copied();
                        let b = mine.get(t).or_else(|| cells.get(t)).copied();
                        if let (Some(a), Some(b)) = (a, b) {
                            reg.constrain_equal(b, a)?;
                        }
                    }
                    Ok((mine, minef))
                },
            )?;
            cells.extend(cs);
            fcells.extend(fs);
        }
        for (ri, r) in s.regions.iter().enumerate() {
            for ((c, o), row) in &r.expose {
                if let Some(cell) = cells.get(&(ri, *c, *o)) {
                    layouter.constrain_instance(*cell, cfg.inst[s.n_inst - 1], *row)?;
                }
            }
        }
        if s.tables_last {
            do_tables!();
        }
        Ok(())
    }
}

/// the `i`-th fixed column of any constraint system
fn fixed_at(i: usize) -> Column<Fixed> {
    let mut cs = ConstraintSystem::<halo2_proofs::halo2curves::bn256::Fr>::default();
    let mut c = cs.fixed_column();
    for _ in 0..i {
        c = cs.fixed_column();
    }
    c
}

/// Find a size the circuit fits, where its regions start, and a full public input.
pub fn layout<F: Fl, P: FloorPlanner>(spec: &Rc<Spec<F>>, k_min: u32, k_max: u32) -> Option<(u32, Vec<usize>)> {
    set_spec(spec);
    let c = GenC::<F, P>::new(spec, None);
    for k in k_min..=k_max {
        let inst = vec![vec![]; spec.n_inst];
        match zkit::record(k, &c, &inst, |_| F::one(), None) {
            Ok(rec) => return Some((k, starts(spec, &rec)?)),
            Err(Error::NotEnoughRowsAvailable { .. }) => {}
            Err(Error::NotEnoughColumnsForConstants) => return None,
            Err(e) => panic!("layout: {:?}", e),
        }
    }
    None
}

/// region starts from the recording; None if the cells of a region do not share one start
pub fn starts<F: Fl>(spec: &Spec<F>, rec: &zkit::Rec<F>) -> Option<Vec<usize>> {
    let mut out = vec![];
    for (ri, r) in spec.regions.iter().enumerate() {
        let name = format!("r{}", ri);
        let idx = rec.regions.iter().position(|n| *n == name)?;
        // smallest assigned offset
        let lo = r.cells.keys().map(|k| k.1).chain(r.fixed.keys().map(|k| k.1)).min();
        let rows = rec.cell_region.iter().filter(|(_, v)| **v == idx).map(|(p, _)| p.2).min();
        match (lo, rows) {
            (Some(l), Some(r)) => out.push(r.checked_sub(l)?),
            _ => out.push(0),
        }
    }
    Some(out)
}

pub fn witness<F: Fl>(spec: &Spec<F>, k: u32, starts: &[usize], wseed: u64) -> Wit<F> {
    let mut rng = Rng::new(wseed, "inst", 0);
    let mut w = Wit {
        wseed,
        n: 1 << k,
        starts: starts.to_vec(),
        inst: (0..spec.n_inst)
            .map(|i| {
                if i == 0 {
                    (0..spec.inst_rows).map(|_| fe(&mut rng)).collect()
                } else {
                    vec![]
                }
            })
            .collect(),
    };
    // a cell copied from the instance beyond the supplied rows reads zero padding; keep
    // such rows inside the supplied part so that every prover can read them
    if spec.n_inst > 0 {
        let need = spec
            .regions
            .iter()
            .flat_map(|r| r.cells.values())
            .filter_map(|s| if let Src::Inst(r) = s { Some(*r + 1) } else { None })
            .max()
            .unwrap_or(0);
        while w.inst[0].len() < need {
            w.inst[0].push(fe(&mut rng));
        }
    }
    if spec.n_inst > 1 {
        let last = spec.n_inst - 1;
        let mut vals = vec![];
        let none = vec![None; spec.chal.len()];
        {
            let sv = Solver::new(spec, &w, &none);
            for (ri, r) in spec.regions.iter().enumerate() {
                for ((c, o), row) in &r.expose {
                    vals.push((*row, sv.value((ri, *c, *o)).expect("exposed cell depends on a challenge")));
                }
            }
        }
        vals.sort_by_key(|v| v.0);
        for (row, v) in vals {
            while w.inst[last].len() <= row {
                w.inst[last].push(F::zero());
            }
            w.inst[last][row] = v;
        }
    }
    w
}
