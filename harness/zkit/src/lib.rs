//! Independent observation of circuits: a recording `Assignment`, a constraint
//! evaluator that walks the expression trees itself, and a tampering layouter.
use ff::Field;
use halo2_proofs::circuit::{layouter::RegionLayouter, Cell, Layouter, Region, Table, Value};
use halo2_proofs::plonk::{
    Advice, Any, Assigned, Assignment, Challenge, Circuit, Column, ConstraintSystem, Error, Expression, Fixed,
    FloorPlanner, Instance, Selector,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

mod repair;
pub use repair::{Attack, Outcome};

/// (kind, column, row); kind: 'a' advice, 'f' fixed, 'i' instance
pub type Pos = (char, usize, usize);

pub fn any_kind(c: &Column<Any>) -> char {
    match c.column_type() {
        Any::Advice(_) => 'a',
        Any::Fixed => 'f',
        Any::Instance => 'i',
    }
}

fn take<F: Field, VR: Into<Assigned<F>>>(v: Value<VR>) -> Option<F> {
    let mut out = None;
    let _ = v.map(|x| out = Some(Into::<Assigned<F>>::into(x).evaluate()));
    out
}

/// What a circuit assigned, observed at the `Assignment` boundary.
pub struct Rec<F: Field> {
    pub k: u32,
    pub n: usize,
    pub usable: usize,
    pub cs: ConstraintSystem<F>,
    pub advice: Vec<Vec<Option<F>>>,
    pub fixed: Vec<Vec<Option<F>>>,
    pub instance: Vec<Vec<F>>,
    pub selectors: HashMap<Selector, HashSet<usize>>,
    /// rows on which each region enabled some selector
    pub sel_region: HashMap<usize, Vec<usize>>,
    pub copies: Vec<(Pos, Pos)>,
    pub challenges: Vec<F>,
    pub regions: Vec<String>,
    /// region index of each assigned advice/fixed cell
    pub cell_region: BTreeMap<Pos, usize>,
    /// advice and fixed cells in the order of their (first) assignment
    pub order: Vec<Pos>,
    /// cells assigned by two different regions
    pub overlaps: Vec<(Pos, usize, usize)>,
    /// advice cells whose value was unknown
    pub unknown: usize,
    pub phase_limit: Option<u8>,
    in_region: bool,
}

impl<F: Field> Rec<F> {
    fn note(&mut self, p: Pos) {
        // cells written outside any region (constants) count as their own owner each time
        let r = if self.in_region { self.regions.len() - 1 } else { usize::MAX };
        let prev = self.cell_region.insert(p, r);
        if prev.is_none() {
            self.order.push(p);
        }
        if let Some(old) = prev {
            if old != r || r == usize::MAX {
                self.overlaps.push((p, old, r));
            }
        }
    }
}

impl<F: Field> Assignment<F> for Rec<F> {
    fn enter_region<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.regions.push(name_fn().into());
        self.in_region = true;
    }
    fn annotate_column<A, AR>(&mut self, _: A, _: Column<Any>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
    }
    fn exit_region(&mut self) {
        self.in_region = false;
    }
    fn enable_selector<A, AR>(&mut self, _: A, selector: &Selector, row: usize) -> Result<(), Error>
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.usable {
            return Err(Error::NotEnoughRowsAvailable { current_k: self.k });
        }
        self.selectors.entry(*selector).or_default().insert(row);
        self.sel_region.entry(self.regions.len() - 1).or_default().push(row);
        Ok(())
    }
    fn query_instance(&self, column: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        if row >= self.usable {
            return Err(Error::NotEnoughRowsAvailable { current_k: self.k });
        }
        self.instance
            .get(column.index())
            .and_then(|c| c.get(row))
            .map(|v| Value::known(*v))
            .ok_or(Error::BoundsFailure)
    }
    fn assign_advice<V, VR, A, AR>(&mut self, _: A, column: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.usable {
            return Err(Error::NotEnoughRowsAvailable { current_k: self.k });
        }
        self.note(('a', column.index(), row));
        if let Some(p) = self.phase_limit {
            if column.column_type().phase() > p {
                return Ok(());
            }
        }
        match take::<F, VR>(to()) {
            Some(v) => self.advice[column.index()][row] = Some(v),
            None => self.unknown += 1,
        }
        Ok(())
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, _: A, column: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.usable {
            return Err(Error::NotEnoughRowsAvailable { current_k: self.k });
        }
        self.note(('f', column.index(), row));
        self.fixed[column.index()][row] = take::<F, VR>(to());
        Ok(())
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        if lr >= self.usable || rr >= self.usable {
            return Err(Error::NotEnoughRowsAvailable { current_k: self.k });
        }
        let cols = self.cs.permutation().get_columns();
        for c in [lc, rc] {
            if !cols.contains(&c) {
                return Err(Error::ColumnNotInPermutation(c));
            }
        }
        self.copies
            .push(((any_kind(&lc), lc.index(), lr), (any_kind(&rc), rc.index(), rr)));
        Ok(())
    }
    fn fill_from_row(&mut self, column: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        if row >= self.usable {
            return Err(Error::NotEnoughRowsAvailable { current_k: self.k });
        }
        let v = take::<F, Assigned<F>>(to);
        for r in row..self.usable {
            self.fixed[column.index()][r] = v;
        }
        Ok(())
    }
    fn get_challenge(&self, challenge: Challenge) -> Value<F> {
        if let Some(p) = self.phase_limit {
            if challenge.phase() >= p {
                return Value::unknown();
            }
        }
        Value::known(self.challenges[challenge.index()])
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self, _: Option<String>) {}
}

/// Run the circuit's own floor planner against the recorder.
pub fn record<F: Field, C: Circuit<F>>(
    k: u32,
    circuit: &C,
    instance: &[Vec<F>],
    challenges: impl Fn(usize) -> F,
    phase_limit: Option<u8>,
) -> Result<Rec<F>, Error> {
    let mut cs = ConstraintSystem::default();
    let config = C::configure(&mut cs);
    let n = 1usize << k;
    if n < cs.minimum_rows() {
        return Err(Error::NotEnoughRowsAvailable { current_k: k });
    }
    let usable = n - (cs.blinding_factors() + 1);
    let mut inst = vec![];
    for c in instance {
        let mut c = c.clone();
        if c.len() > usable {
            return Err(Error::InstanceTooLarge);
        }
        c.resize(n, F::zero());
        inst.push(c);
    }
    let consts = cs.constants().clone();
    let mut rec = Rec {
        k,
        n,
        usable,
        advice: vec![vec![None; n]; cs.num_advice_columns()],
        fixed: vec![vec![None; n]; cs.num_fixed_columns()],
        instance: inst,
        selectors: HashMap::new(),
        sel_region: HashMap::new(),
        copies: vec![],
        challenges: (0..cs.num_challenges()).map(challenges).collect(),
        regions: vec![],
        cell_region: BTreeMap::new(),
        order: vec![],
        overlaps: vec![],
        unknown: 0,
        phase_limit,
        in_region: false,
        cs,
    };
    C::FloorPlanner::synthesize(&mut rec, circuit, config, consts)?;
    Ok(rec)
}

/// Hashable identity of a field element (the pasta fields have no `Hash`).
pub trait Key: Field {
    type K: std::hash::Hash + Eq + Clone;
    fn key(&self) -> Self::K;
}
impl Key for halo2_proofs::halo2curves::bn256::Fr {
    type K = Self;
    fn key(&self) -> Self {
        *self
    }
}
impl Key for halo2_proofs::halo2curves::pasta::Fp {
    type K = [u8; 32];
    fn key(&self) -> [u8; 32] {
        ff::PrimeField::to_repr(self)
    }
}
impl Key for halo2_proofs::halo2curves::pasta::Fq {
    type K = [u8; 32];
    fn key(&self) -> [u8; 32] {
        ff::PrimeField::to_repr(self)
    }
}

/// A violated constraint: (class, index, sub-index, row)
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Viol {
    Gate(usize, usize, usize),
    Lookup(usize, usize),
    Copy(Pos, Pos),
}

impl<F: Key> Rec<F> {
    pub fn cell(&self, p: Pos) -> F {
        match p.0 {
            'a' => self.advice[p.1][p.2].unwrap_or_else(F::zero),
            'f' => self.fixed[p.1][p.2].unwrap_or_else(F::zero),
            _ => self.instance[p.1][p.2],
        }
    }
    fn rot(&self, row: usize, r: i32) -> usize {
        (row as i64 + r as i64).rem_euclid(self.n as i64) as usize
    }
    pub fn eval(&self, e: &Expression<F>, row: usize) -> F {
        match e {
            Expression::Constant(c) => *c,
            Expression::Selector(s) => {
                if self.selectors.get(s).map_or(false, |x| x.contains(&row)) {
                    F::one()
                } else {
                    F::zero()
                }
            }
            Expression::Fixed(q) => self.cell(('f', q.column_index(), self.rot(row, q.rotation().0))),
            Expression::Advice(q) => self.cell(('a', q.column_index(), self.rot(row, q.rotation().0))),
            Expression::Instance(q) => self.cell(('i', q.column_index(), self.rot(row, q.rotation().0))),
            Expression::Challenge(c) => self.challenges[c.index()],
            Expression::Negated(a) => -self.eval(a, row),
            Expression::Sum(a, b) => self.eval(a, row) + self.eval(b, row),
            Expression::Product(a, b) => {
                let x = self.eval(a, row);
                if bool::from(x.is_zero()) {
                    return F::zero();
                }
                x * self.eval(b, row)
            }
            Expression::Scaled(a, s) => self.eval(a, row) * *s,
        }
    }
    fn gate_viol(&self, row: usize, out: &mut Vec<Viol>) {
        for (gi, g) in self.cs.gates().iter().enumerate() {
            for (pi, p) in g.polynomials().iter().enumerate() {
                if !bool::from(self.eval(p, row).is_zero()) {
                    out.push(Viol::Gate(gi, pi, row));
                }
            }
        }
    }
    pub fn table(&self, li: usize) -> HashSet<Vec<F::K>> {
        let l = &self.cs.lookups()[li];
        (0..self.usable)
            .map(|r| l.table_expressions.iter().map(|e| self.eval(e, r).key()).collect())
            .collect()
    }
    /// Every violated constraint. Gates are evaluated on usable rows, lookups on usable rows.
    pub fn violations(&self) -> Vec<Viol> {
        let mut out = vec![];
        for row in 0..self.usable {
            self.gate_viol(row, &mut out);
        }
        for (li, l) in self.cs.lookups().iter().enumerate() {
            let t = self.table(li);
            for row in 0..self.usable {
                let v: Vec<F::K> = l.input_expressions.iter().map(|e| self.eval(e, row).key()).collect();
                if !t.contains(&v) {
                    out.push(Viol::Lookup(li, row));
                }
            }
        }
        for (a, b) in &self.copies {
            if self.cell(*a) != self.cell(*b) {
                out.push(Viol::Copy(*a, *b));
            }
        }
        out
    }
    pub fn satisfied(&self) -> bool {
        self.violations().is_empty()
    }
}

/// Cheap re-evaluation after changing a few advice/instance cells of a satisfied recording.
pub struct Probe<F: Key> {
    tables: Vec<HashSet<Vec<F::K>>>,
    tables_static: bool,
    reach: Vec<i32>, // all rotations used anywhere
    copies: HashMap<Pos, Vec<Pos>>,
}

fn walk_rot<F: Field>(e: &Expression<F>, out: &mut HashSet<i32>, has_adv: &mut bool) {
    match e {
        Expression::Fixed(q) => {
            out.insert(q.rotation().0);
        }
        Expression::Advice(q) => {
            *has_adv = true;
            out.insert(q.rotation().0);
        }
        Expression::Instance(q) => {
            *has_adv = true;
            out.insert(q.rotation().0);
        }
        Expression::Negated(a) | Expression::Scaled(a, _) => walk_rot(a, out, has_adv),
        Expression::Sum(a, b) | Expression::Product(a, b) => {
            walk_rot(a, out, has_adv);
            walk_rot(b, out, has_adv);
        }
        _ => {}
    }
}

impl<F: Key> Probe<F> {
    pub fn new(rec: &Rec<F>) -> Self {
        let mut rots = HashSet::new();
        let mut tbl_adv = false;
        let mut dummy = false;
        for g in rec.cs.gates() {
            for p in g.polynomials() {
                walk_rot(p, &mut rots, &mut dummy);
            }
        }
        for l in rec.cs.lookups() {
            for e in &l.input_expressions {
                walk_rot(e, &mut rots, &mut dummy);
            }
            for e in &l.table_expressions {
                walk_rot(e, &mut rots, &mut tbl_adv);
            }
        }
        let mut copies: HashMap<Pos, Vec<Pos>> = HashMap::new();
        for (a, b) in &rec.copies {
            copies.entry(*a).or_default().push(*b);
            copies.entry(*b).or_default().push(*a);
        }
        Probe {
            tables: (0..rec.cs.lookups().len()).map(|i| rec.table(i)).collect(),
            tables_static: !tbl_adv,
            reach: rots.into_iter().collect(),
            copies,
        }
    }
    /// Violations among constraints that touch the given (already changed) cells.
    pub fn local(&self, rec: &Rec<F>, changed: &[Pos]) -> Vec<Viol> {
        assert!(self.tables_static);
        let mut rows = HashSet::new();
        for (_, _, r) in changed {
            for d in &self.reach {
                let row = (*r as i64 - *d as i64).rem_euclid(rec.n as i64) as usize;
                if row < rec.usable {
                    rows.insert(row);
                }
            }
        }
        let mut out = vec![];
        for row in rows {
            rec.gate_viol(row, &mut out);
            for (li, l) in rec.cs.lookups().iter().enumerate() {
                let v: Vec<F::K> = l.input_expressions.iter().map(|e| rec.eval(e, row).key()).collect();
                if !self.tables[li].contains(&v) {
                    out.push(Viol::Lookup(li, row));
                }
            }
            if !out.is_empty() {
                return out;
            }
        }
        for p in changed {
            if let Some(v) = self.copies.get(p) {
                for q in v {
                    if rec.cell(*p) != rec.cell(*q) {
                        out.push(Viol::Copy(*p, *q));
                    }
                }
            }
        }
        out
    }
}

// ------------------------------------------------------------------ tampering
/// Faults keyed by (region number, advice column index, offset): the value the
/// cell is forced to.
#[derive(Clone, Default)]
pub struct Faults<F: Field> {
    pub cells: HashMap<(usize, usize, usize), F>,
}

/// A circuit with some of its advice cells forced to other values.
pub struct Tampered<'a, F: Field, C: Circuit<F>> {
    pub inner: &'a C,
    pub faults: Rc<Faults<F>>,
}

// configuration wrapper so that the tampered circuit has the same config type
impl<'a, F: Field, C: Circuit<F>> Circuit<F> for Tampered<'a, F, C> {
    type Config = C::Config;
    type FloorPlanner = C::FloorPlanner;
    fn without_witnesses(&self) -> Self {
        Tampered {
            inner: self.inner,
            faults: self.faults.clone(),
        }
    }
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config {
        C::configure(meta)
    }
    fn synthesize(&self, config: Self::Config, mut layouter: impl Layouter<F>) -> Result<(), Error> {
        self.inner.synthesize(
            config,
            TLayouter {
                inner: &mut layouter,
                faults: self.faults.clone(),
                region: Rc::new(RefCell::new(0)),
            },
        )
    }
}

pub struct TLayouter<'a, F: Field, L: Layouter<F>> {
    inner: &'a mut L,
    faults: Rc<Faults<F>>,
    region: Rc<RefCell<usize>>,
}

struct TRegion<'a, 'r, F: Field> {
    inner: &'a mut Region<'r, F>,
    faults: &'a Faults<F>,
    region: usize,
}
impl<'a, 'r, F: Field> std::fmt::Debug for TRegion<'a, 'r, F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TRegion")
    }
}

impl<'a, 'r, F: Field> TRegion<'a, 'r, F> {
    fn fault(&self, c: Column<Advice>, off: usize) -> Option<F> {
        self.faults.cells.get(&(self.region, c.index(), off)).copied()
    }
}

impl<'a, 'r, F: Field> RegionLayouter<F> for TRegion<'a, 'r, F> {
    fn enable_selector<'v>(
        &'v mut self,
        _: &'v (dyn Fn() -> String + 'v),
        selector: &Selector,
        offset: usize,
    ) -> Result<(), Error> {
        selector.enable(self.inner, offset)
    }
    fn name_column<'v>(&'v mut self, annotation: &'v (dyn Fn() -> String + 'v), column: Column<Any>) {
        self.inner.name_column(|| annotation(), column)
    }
    fn assign_advice<'v>(
        &'v mut self,
        annotation: &'v (dyn Fn() -> String + 'v),
        column: Column<Advice>,
        offset: usize,
        to: &'v mut (dyn FnMut() -> Value<Assigned<F>> + 'v),
    ) -> Result<Cell, Error> {
        let fv = self.fault(column, offset);
        Ok(self
            .inner
            .assign_advice(
                || annotation(),
                column,
                offset,
                || {
                    let v = to();
                    match fv {
                        Some(x) => v.map(|_| Assigned::Trivial(x)),
                        None => v,
                    }
                },
            )?
            .cell())
    }
    fn assign_advice_from_constant<'v>(
        &'v mut self,
        annotation: &'v (dyn Fn() -> String + 'v),
        column: Column<Advice>,
        offset: usize,
        constant: Assigned<F>,
    ) -> Result<Cell, Error> {
        let c = self
            .inner
            .assign_advice_from_constant(|| annotation(), column, offset, constant)?
            .cell();
        if let Some(x) = self.fault(column, offset) {
            self.inner.assign_advice(|| annotation(), column, offset, || Value::known(x))?;
        }
        Ok(c)
    }
    fn assign_advice_from_instance<'v>(
        &mut self,
        annotation: &'v (dyn Fn() -> String + 'v),
        instance: Column<Instance>,
        row: usize,
        advice: Column<Advice>,
        offset: usize,
    ) -> Result<(Cell, Value<F>), Error> {
        let c = self
            .inner
            .assign_advice_from_instance(|| annotation(), instance, row, advice, offset)?;
        if let Some(x) = self.fault(advice, offset) {
            self.inner.assign_advice(|| annotation(), advice, offset, || Value::known(x))?;
        }
        Ok((c.cell(), c.value().copied()))
    }
    fn assign_fixed<'v>(
        &'v mut self,
        annotation: &'v (dyn Fn() -> String + 'v),
        column: Column<Fixed>,
        offset: usize,
        to: &'v mut (dyn FnMut() -> Value<Assigned<F>> + 'v),
    ) -> Result<Cell, Error> {
        Ok(self
            .inner
            .assign_fixed(|| annotation(), column, offset, || to())?
            .cell())
    }
    fn constrain_constant(&mut self, cell: Cell, constant: Assigned<F>) -> Result<(), Error> {
        self.inner.constrain_constant(cell, constant)
    }
    fn constrain_equal(&mut self, left: Cell, right: Cell) -> Result<(), Error> {
        self.inner.constrain_equal(left, right)
    }
}

impl<'a, F: Field, L: Layouter<F>> Layouter<F> for TLayouter<'a, F, L> {
    type Root = Self;
    fn assign_region<A, AR, N, NR>(&mut self, name: N, mut assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        let region = *self.region.borrow();
        *self.region.borrow_mut() += 1;
        let faults = self.faults.clone();
        self.inner.assign_region(name, |mut r| {
            let mut t = TRegion {
                inner: &mut r,
                faults: &faults,
                region,
            };
            let d: &mut dyn RegionLayouter<F> = &mut t;
            assignment(d.into())
        })
    }
    fn assign_table<A, N, NR>(&mut self, name: N, assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.inner.assign_table(name, assignment)
    }
    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error> {
        self.inner.constrain_instance(cell, column, row)
    }
    fn get_challenge(&self, challenge: Challenge) -> Value<F> {
        self.inner.get_challenge(challenge)
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.inner.get_root().push_namespace(name_fn)
    }
    fn pop_namespace(&mut self, gadget_name: Option<String>) {
        self.inner.get_root().pop_namespace(gadget_name)
    }
}
