//! C23: where the two floor planners put things, observed at the assignment boundary,
//! against the list of operations the circuit asked for.
use crate::gen::{starts, witness, Ex, GenC, Spec};
use crate::proof::{make, pick_fault, SHAPE};
use crate::sys::{Item, Shplonk, Sys};
use halo2_proofs::circuit::{floor_planner::V1, Cell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::{MockProver, VerifyFailure};
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use kit::*;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;
use std::rc::Rc;
use zkit::{Pos, Rec};

/// a cell of the circuit as its author knows it: ('a'|'f', region, column, offset) or an
/// instance row ('i', 0, column, row)
type Id = (char, usize, usize, usize);

#[derive(Clone, Debug)]
enum Op {
    Adv(usize, usize),
    Fix(usize, usize),
    Sel(usize, usize),
    Const(usize, usize),
    /// constrain an already assigned cell to a constant
    CConst(usize, usize),
    Inst(usize, usize, usize),
    Eq(Id, Id),
}
#[derive(Clone, Debug, Default)]
struct Table {
    arity: usize,
    /// (component, offset) in the order they are assigned
    cells: Vec<(usize, usize)>,
    len: usize,
}
#[derive(Clone, Debug, Default)]
struct Lay {
    adv: usize,
    fix: usize,
    consts: Vec<usize>,
    sels: Vec<bool>,
    inst: usize,
    regions: Vec<Vec<Op>>,
    /// after which region each table is assigned
    tables: Vec<(usize, Table)>,
    /// table assigned twice / uneven / with a gap: refused
    bad_table: Option<u8>,
    expose: Vec<(Id, usize, usize)>,
    ns: bool,
    sat: bool,
    salt: u64,
    class: BTreeMap<Id, Id>,
}

fn node_val(salt: u64, tag: &str, id: Id) -> Fr {
    let h = hash_bytes(format!("{}{}{:?}", salt, tag, id).as_bytes());
    Fr::from(h | 1)
}
impl Lay {
    fn find(&self, id: Id) -> Id {
        let mut x = id;
        while let Some(y) = self.class.get(&x) {
            x = *y;
        }
        x
    }
    fn join(&mut self, a: Id, b: Id) {
        let (a, b) = (self.find(a), self.find(b));
        if a != b {
            self.class.insert(a, b);
        }
    }
    /// value of a cell: unique per cell, or per class of equal cells when it has to be satisfied
    fn val(&self, id: Id) -> Fr {
        if self.sat {
            node_val(self.salt, "v", self.find(id))
        } else {
            node_val(self.salt, "v", id)
        }
    }
    fn konst(&self, id: Id) -> Fr {
        if self.sat {
            self.val(id)
        } else {
            node_val(self.salt, "k", id)
        }
    }
    fn table_val(&self, t: usize, j: usize, o: usize) -> Fr {
        node_val(self.salt, "t", ('t', t, j, o))
    }
    fn instance(&self, len: usize) -> Vec<Vec<Fr>> {
        (0..self.inst).map(|c| (0..len).map(|r| self.val(('i', 0, c, r))).collect()).collect()
    }
    fn rows(ops: &[Op]) -> usize {
        ops.iter()
            .filter_map(|o| match o {
                Op::Adv(_, o) | Op::Fix(_, o) | Op::Sel(_, o) | Op::Const(_, o) | Op::Inst(_, o, _) => Some(*o + 1),
                _ => None,
            })
            .max()
            .unwrap_or(0)
    }

    fn random(rng: &mut Rng, sat: bool) -> Lay {
        let mut l = Lay {
            adv: rng.range(1, 5),
            fix: rng.range(0, 3),
            inst: rng.below(3),
            ns: rng.bool(),
            salt: rng.u64(),
            sat,
            ..Default::default()
        };
        for _ in 0..rng.below(4) {
            l.sels.push(rng.bool());
        }
        if l.fix > 0 && rng.chance(5, 6) {
            l.consts.push(rng.below(l.fix));
            if l.fix > 1 && rng.bool() {
                let c = rng.below(l.fix);
                if !l.consts.contains(&c) {
                    l.consts.push(c);
                }
            }
        }
        let hmax = *rng.pick(&[1, 2, 3, 4, 6, 9]);
        let inst_rows = rng.range(1, 6);
        let nr = *rng.pick(&[1, 2, 3, 5, 8, 12, 18]);
        let mut known: Vec<Id> = vec![];
        for ri in 0..nr {
            let mut ops = vec![];
            if rng.chance(1, 15) {
                // a region that touches nothing
                l.regions.push(ops);
                continue;
            }
            // a subset of the columns
            let dens = rng.range(1, 4);
            let acols: Vec<usize> = (0..l.adv).filter(|_| rng.chance(dens, 4)).collect();
            let fcols: Vec<usize> = (0..l.fix).filter(|_| rng.chance(1, 3)).collect();
            let scols: Vec<usize> = (0..l.sels.len()).filter(|_| rng.chance(1, 3)).collect();
            let h = rng.range(1, hmax);
            let mut done: BTreeSet<(char, usize, usize)> = BTreeSet::new();
            let mut mine: Vec<Id> = vec![];
            for _ in 0..rng.range(1, 3 * h + 2) {
                let o = if rng.chance(1, 3) { h - 1 } else { rng.below(h) };
                match rng.below(12) {
                    0..=3 if !acols.is_empty() => {
                        let c = *rng.pick(&acols);
                        if done.insert(('a', c, o)) {
                            ops.push(Op::Adv(c, o));
                            mine.push(('a', ri, c, o));
                        } else if rng.chance(1, 3) && ops.iter().any(|x| matches!(x, Op::Adv(a, b) if (*a, *b) == (c, o))) {
                            ops.push(Op::Adv(c, o)); // assigned again, same value
                        }
                    }
                    4 | 5 if !fcols.is_empty() => {
                        let c = *rng.pick(&fcols);
                        if done.insert(('f', c, o)) {
                            ops.push(Op::Fix(c, o));
                            mine.push(('f', ri, c, o));
                        }
                    }
                    6 if !scols.is_empty() => ops.push(Op::Sel(*rng.pick(&scols), o)),
                    7 if !acols.is_empty() && !l.consts.is_empty() => {
                        let c = *rng.pick(&acols);
                        if done.insert(('a', c, o)) {
                            ops.push(Op::Const(c, o));
                            mine.push(('a', ri, c, o));
                        }
                    }
                    8 if !mine.is_empty() && !l.consts.is_empty() => {
                        let id = *rng.pick(&mine);
                        if id.0 == 'a' && !ops.iter().any(|x| matches!(x, Op::CConst(c, o) | Op::Const(c, o) if (*c, *o) == (id.2, id.3))) {
                            ops.push(Op::CConst(id.2, id.3));
                        }
                    }
                    9 if !acols.is_empty() && l.inst > 0 => {
                        let c = *rng.pick(&acols);
                        if done.insert(('a', c, o)) {
                            let row = rng.below(inst_rows);
                            ops.push(Op::Inst(c, o, row));
                            mine.push(('a', ri, c, o));
                            l.join(('a', ri, c, o), ('i', 0, 0, row));
                        }
                    }
                    _ if !mine.is_empty() => {
                        let a = *rng.pick(&mine);
                        let b = if known.is_empty() || rng.chance(1, 3) { *rng.pick(&mine) } else { *rng.pick(&known) };
                        if a != b {
                            let (a, b) = if rng.bool() { (a, b) } else { (b, a) };
                            ops.push(Op::Eq(a, b));
                            l.join(a, b);
                        }
                    }
                    _ => {}
                }
            }
            known.extend(mine);
            l.regions.push(ops);
        }
        if l.inst > 0 {
            for _ in 0..rng.below(5) {
                if let Some(id) = known.get(rng.below(known.len().max(1))) {
                    let (c, row) = (rng.below(l.inst), rng.below(inst_rows));
                    let id = *id;
                    l.expose.push((id, c, row));
                    l.join(id, ('i', 0, c, row));
                }
            }
        }
        for t in 0..*rng.pick(&[0, 0, 1, 1, 2]) {
            let _ = t;
            let arity = rng.range(1, 3);
            let len = rng.range(1, 8);
            let mut cells: Vec<(usize, usize)> = (0..arity).flat_map(|j| (0..len).map(move |o| (j, o))).collect();
            if rng.bool() {
                rng.shuffle(&mut cells);
            }
            l.tables.push((rng.below(nr + 1), Table { arity, cells, len }));
        }
        l
    }
}

#[derive(Clone, Debug)]
struct LCfg {
    adv: Vec<Column<Advice>>,
    fix: Vec<Column<Fixed>>,
    inst: Vec<Column<Instance>>,
    sels: Vec<Selector>,
    tables: Vec<Vec<TableColumn>>,
}
thread_local!(static LAY: RefCell<Option<Rc<Lay>>> = RefCell::new(None));

struct LC<P> {
    lay: Rc<Lay>,
    known: bool,
    _p: PhantomData<P>,
}
fn circuit<P>(l: &Rc<Lay>, known: bool) -> LC<P> {
    LAY.with(|x| *x.borrow_mut() = Some(l.clone()));
    LC {
        lay: l.clone(),
        known,
        _p: PhantomData,
    }
}
impl<P: FloorPlanner> Circuit<Fr> for LC<P> {
    type Config = LCfg;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        LC {
            lay: self.lay.clone(),
            known: false,
            _p: PhantomData,
        }
    }
    fn configure(meta: &mut ConstraintSystem<Fr>) -> LCfg {
        let l = LAY.with(|x| x.borrow().clone().unwrap());
        let cfg = LCfg {
            adv: (0..l.adv).map(|_| meta.advice_column()).collect(),
            fix: (0..l.fix).map(|_| meta.fixed_column()).collect(),
            inst: (0..l.inst).map(|_| meta.instance_column()).collect(),
            sels: l
                .sels
                .iter()
                .map(|s| if *s { meta.selector() } else { meta.complex_selector() })
                .collect(),
            tables: l.tables.iter().map(|t| (0..t.1.arity).map(|_| meta.lookup_table_column()).collect()).collect(),
        };
        for c in &cfg.adv {
            meta.enable_equality(*c);
        }
        for c in &cfg.fix {
            meta.enable_equality(*c);
        }
        for c in &cfg.inst {
            meta.enable_equality(*c);
        }
        for c in &l.consts {
            meta.enable_constant(cfg.fix[*c]);
        }
        for s in &cfg.sels {
            meta.create_gate("nothing", |m| {
                let q = m.query_selector(*s);
                let a = m.query_advice(cfg.adv[0], Rotation::cur());
                vec![q * (a.clone() - a)]
            });
        }
        for (t, cols) in cfg.tables.iter().enumerate() {
            // one row of the table is always looked up
            let o = l.tables[t].1.len - 1;
            meta.lookup("some row", |_| {
                cols.iter()
                    .enumerate()
                    .map(|(j, c)| (Expression::Constant(l.table_val(t, j, o)), *c))
                    .collect()
            });
        }
        cfg
    }
    fn synthesize(&self, cfg: LCfg, mut layouter: impl Layouter<Fr>) -> Result<(), Error> {
        let l = &*self.lay;
        let w = |v: Fr| if self.known { Value::known(v) } else { Value::unknown() };
        let mut cells: HashMap<Id, Cell> = HashMap::new();
        for ri in 0..=l.regions.len() {
            for (t, (at, tb)) in l.tables.iter().enumerate() {
                if *at != ri {
                    continue;
                }
                let runs = if l.bad_table == Some(0) { 2 } else { 1 };
                for _ in 0..runs {
                    layouter.assign_table(
                        || format!("t{}", t),
                        |mut table| {
                            for (j, o) in &tb.cells {
                                table.assign_cell(|| "t", cfg.tables[t][*j], *o, || Value::known(l.table_val(t, *j, *o)))?;
                            }
                            Ok(())
                        },
                    )?;
                }
            }
            if ri == l.regions.len() {
                break;
            }
            let body = |mut reg: halo2_proofs::circuit::Region<'_, Fr>| {
                let mut mine: HashMap<Id, Cell> = HashMap::new();
                for op in &l.regions[ri] {
                    match op {
                        Op::Adv(c, o) => {
                            let id = ('a', ri, *c, *o);
                            let x = reg.assign_advice(|| "a", cfg.adv[*c], *o, || w(l.val(id)))?;
                            mine.insert(id, x.cell());
                        }
                        Op::Fix(c, o) => {
                            let id = ('f', ri, *c, *o);
                            let x = reg.assign_fixed(|| "f", cfg.fix[*c], *o, || Value::known(l.val(id)))?;
                            mine.insert(id, x.cell());
                        }
                        Op::Sel(s, o) => cfg.sels[*s].enable(&mut reg, *o)?,
                        Op::Const(c, o) => {
                            let id = ('a', ri, *c, *o);
                            let x = reg.assign_advice_from_constant(|| "k", cfg.adv[*c], *o, l.konst(id))?;
                            mine.insert(id, x.cell());
                        }
                        Op::CConst(c, o) => reg.constrain_constant(mine[&('a', ri, *c, *o)], l.konst(('a', ri, *c, *o)))?,
                        Op::Inst(c, o, row) => {
                            let x = reg.assign_advice_from_instance(|| "i", cfg.inst[0], *row, cfg.adv[*c], *o)?;
                            mine.insert(('a', ri, *c, *o), x.cell());
                        }
                        Op::Eq(a, b) => {
                            let get = |x: &Id| mine.get(x).or_else(|| cells.get(x)).copied().unwrap();
                            reg.constrain_equal(get(a), get(b))?;
                        }
                    }
                }
                Ok(mine)
            };
            let name = || format!("r{}", ri);
            let got = if l.ns && ri % 2 == 0 {
                layouter.namespace(|| "ns").assign_region(name, body)?
            } else {
                layouter.assign_region(name, body)?
            };
            cells.extend(got);
        }
        for (id, c, row) in &l.expose {
            layouter.constrain_instance(cells[id], cfg.inst[*c], *row)?;
        }
        Ok(())
    }
}

fn pair(a: Pos, b: Pos) -> (Pos, Pos) {
    if a < b {
        (a, b)
    } else {
        (b, a)
    }
}

/// the region starts seen by the recorder, and everything that must follow from them
struct Seen {
    starts: Vec<Option<usize>>,
    /// one past the last row anything uses
    used: usize,
    /// rows the tables need
    tables: usize,
    free_consts: usize,
}

fn inspect(l: &Lay, rec: &Rec<Fr>) -> Result<Seen, (String, String)> {
    let e = |s: &str, d: String| (s.to_string(), d);
    let mut used = 0;
    // where is each region
    let mut st: Vec<Option<usize>> = vec![];
    for (ri, ops) in l.regions.iter().enumerate() {
        let name = format!("r{}", ri);
        let idx = match rec.regions.iter().filter(|n| **n == name).count() {
            1 => rec.regions.iter().position(|n| *n == name).unwrap(),
            c => return Err(e("a region was assigned not exactly once", format!("region {} x{}", ri, c))),
        };
        let mut want: BTreeSet<(char, usize, usize)> = BTreeSet::new();
        let mut sel: BTreeSet<usize> = BTreeSet::new();
        for op in ops {
            match op {
                Op::Adv(c, o) | Op::Const(c, o) | Op::Inst(c, o, _) => {
                    want.insert(('a', *c, *o));
                }
                Op::Fix(c, o) => {
                    want.insert(('f', *c, *o));
                }
                Op::Sel(_, o) => {
                    sel.insert(*o);
                }
                _ => {}
            }
        }
        let got: BTreeSet<Pos> = rec.cell_region.iter().filter(|(_, v)| **v == idx).map(|(p, _)| *p).collect();
        let rows: BTreeSet<usize> = rec.sel_region.get(&idx).map(|v| v.iter().copied().collect()).unwrap_or_default();
        let lo_w = want.iter().map(|w| w.2).chain(sel.iter().copied()).min();
        let lo_g = got.iter().map(|w| w.2).chain(rows.iter().copied()).min();
        let start = match (lo_w, lo_g) {
            (None, None) => {
                st.push(None);
                continue;
            }
            (Some(w), Some(g)) if g >= w => g - w,
            _ => return Err(e("a region's cells are missing", format!("region {} wanted {:?} got {:?}", ri, want, got))),
        };
        st.push(Some(start));
        let shifted: BTreeSet<Pos> = want.iter().map(|(k, c, o)| (*k, *c, o + start)).collect();
        let srows: BTreeSet<usize> = sel.iter().map(|o| o + start).collect();
        if shifted != got || srows != rows {
            return Err(e(
                "a region's cells are not at one start plus their offsets",
                format!("region {} start {} wanted {:?} {:?} got {:?} {:?}", ri, start, shifted, srows, got, rows),
            ));
        }
        used = used.max(start + Lay::rows(ops));
    }
    // selectors: exactly the requested rows
    let mut want_sel: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    let mut rect: BTreeMap<(char, usize), Vec<(usize, usize, usize)>> = BTreeMap::new();
    for (ri, ops) in l.regions.iter().enumerate() {
        let s = match st[ri] {
            Some(s) => s,
            None => continue,
        };
        let h = Lay::rows(ops);
        let mut cols = BTreeSet::new();
        for op in ops {
            match op {
                Op::Adv(c, _) | Op::Const(c, _) | Op::Inst(c, _, _) => cols.insert(('a', *c)),
                Op::Fix(c, _) => cols.insert(('f', *c)),
                Op::Sel(q, o) => {
                    want_sel.entry(*q).or_default().insert(s + o);
                    cols.insert(('s', *q))
                }
                _ => continue,
            };
        }
        for c in cols {
            rect.entry(c).or_default().push((s, s + h, ri));
        }
    }
    let got_sel: BTreeMap<usize, BTreeSet<usize>> = rec
        .selectors
        .iter()
        .map(|(s, r)| {
            let i = sel_index(s);
            (i, r.iter().copied().collect::<BTreeSet<_>>())
        })
        .filter(|x| !x.1.is_empty())
        .collect();
    if want_sel != got_sel {
        return Err(e("selectors are enabled on other rows", format!("wanted {:?} got {:?}", want_sel, got_sel)));
    }
    for (c, v) in rect.iter_mut() {
        v.sort();
        for w in v.windows(2) {
            if w[1].0 < w[0].1 {
                return Err(e("two regions overlap", format!("column {:?}: {:?} and {:?}", c, w[0], w[1])));
            }
        }
    }
    if !rec.overlaps.is_empty() {
        return Err(e("a cell was assigned by two owners", format!("{:?}", rec.overlaps)));
    }
    // values
    let pos = |id: Id| -> Pos {
        match id.0 {
            'i' => ('i', id.2, id.3),
            k => (k, id.2, id.3 + st[id.1].unwrap()),
        }
    };
    let mut want_copies: BTreeSet<(Pos, Pos)> = BTreeSet::new();
    let mut consts: Vec<(Pos, Fr)> = vec![];
    for (ri, ops) in l.regions.iter().enumerate() {
        for op in ops {
            let (id, v) = match op {
                Op::Adv(c, o) => (('a', ri, *c, *o), Some(l.val(('a', ri, *c, *o)))),
                Op::Fix(c, o) => (('f', ri, *c, *o), Some(l.val(('f', ri, *c, *o)))),
                Op::Const(c, o) => {
                    let id = ('a', ri, *c, *o);
                    consts.push((pos(id), l.konst(id)));
                    (id, Some(l.konst(id)))
                }
                Op::CConst(c, o) => {
                    let id = ('a', ri, *c, *o);
                    consts.push((pos(id), l.konst(id)));
                    continue;
                }
                Op::Inst(c, o, row) => {
                    let id = ('a', ri, *c, *o);
                    want_copies.insert(pair(pos(id), ('i', 0, *row)));
                    used = used.max(row + 1);
                    (id, Some(l.val(('i', 0, 0, *row))))
                }
                Op::Eq(a, b) => {
                    want_copies.insert(pair(pos(*a), pos(*b)));
                    continue;
                }
                Op::Sel(..) => continue,
            };
            let p = pos(id);
            let got = if id.0 == 'a' { rec.advice[p.1][p.2] } else { rec.fixed[p.1][p.2] };
            // later writes of the same cell are the same value
            if got.is_some() && got != v && !(matches!(op, Op::Adv(..))) {
                return Err(e("a cell holds another value", format!("{:?} at {:?}: {:?} instead of {:?}", id, p, got, v)));
            }
            if got.is_some() && got != v {
                let reassigned = ops.iter().any(|x| matches!(x, Op::Const(c, o) | Op::Inst(c, o, _) if (*c, *o) == (id.2, id.3)));
                if !reassigned {
                    return Err(e("a cell holds another value", format!("{:?} at {:?}: {:?} instead of {:?}", id, p, got, v)));
                }
            }
        }
    }
    for (id, c, row) in &l.expose {
        want_copies.insert(pair(pos(*id), ('i', *c, *row)));
        used = used.max(row + 1);
    }
    // constants
    let loose: BTreeMap<Pos, Fr> = rec
        .cell_region
        .iter()
        .filter(|(_, r)| **r == usize::MAX)
        .map(|(p, _)| (*p, rec.fixed[p.1][p.2].unwrap()))
        .collect();
    let mut const_copies: Vec<(Pos, Pos)> = vec![];
    let mut plain: BTreeSet<(Pos, Pos)> = BTreeSet::new();
    for (a, b) in &rec.copies {
        match (loose.contains_key(a), loose.contains_key(b)) {
            (true, false) => const_copies.push((*a, *b)),
            (false, true) => const_copies.push((*b, *a)),
            _ => {
                plain.insert(pair(*a, *b));
            }
        }
    }
    if plain != want_copies {
        let miss: Vec<_> = want_copies.difference(&plain).collect();
        let extra: Vec<_> = plain.difference(&want_copies).collect();
        return Err(e("copy constraints differ from those requested", format!("missing {:?} extra {:?}", miss, extra)));
    }
    for (p, v) in &consts {
        if !const_copies.iter().any(|(f, a)| a == p && loose[f] == *v) {
            return Err(e("a constant is not tied to its cell", format!("{:?} const copies {:?}", p, const_copies)));
        }
    }
    if const_copies.len() != consts.len() {
        return Err(e("constants copied to other cells", format!("wanted {} got {:?}", consts.len(), const_copies)));
    }
    for p in loose.keys() {
        if p.0 != 'f' || !l.consts.contains(&p.1) {
            return Err(e("a constant outside the constants columns", format!("{:?}", p)));
        }
        if let Some(v) = rect.get(&('f', p.1)) {
            if let Some(x) = v.iter().find(|x| x.0 <= p.2 && p.2 < x.1) {
                return Err(e("a constant inside a region", format!("{:?} in {:?}", p, x)));
            }
        }
        used = used.max(p.2 + 1);
    }
    // fixed cells nobody asked for
    let table_base = l.fix;
    for (f, col) in rec.fixed.iter().enumerate().take(table_base) {
        for (r, v) in col.iter().enumerate() {
            if v.is_some() && !rec.cell_region.contains_key(&('f', f, r)) {
                return Err(e("a fixed cell nobody assigned has a value", format!("{} {}", f, r)));
            }
        }
    }
    // tables
    let mut tables = 0;
    let mut at = table_base;
    for (t, (_, tb)) in l.tables.iter().enumerate() {
        tables = tables.max(tb.len);
        for j in 0..tb.arity {
            for r in 0..rec.n {
                let want = if r >= rec.usable {
                    None
                } else if r < tb.len {
                    Some(l.table_val(t, j, r))
                } else {
                    Some(l.table_val(t, j, 0))
                };
                if rec.fixed[at][r] != want {
                    return Err(e("a table column differs", format!("table {} component {} row {}", t, j, r)));
                }
            }
            at += 1;
        }
    }
    // space for constants that the rows in use still offer
    let height = rect.values().flatten().map(|x| x.1).max().unwrap_or(0);
    let mut free = 0;
    for c in &l.consts {
        let mut taken = vec![false; height];
        if let Some(v) = rect.get(&('f', *c)) {
            for x in v {
                taken[x.0..x.1].iter_mut().for_each(|b| *b = true);
            }
        }
        free += taken.iter().filter(|b| !**b).count();
    }
    Ok(Seen {
        starts: st,
        used,
        tables,
        free_consts: free,
    })
}

fn sel_index(s: &Selector) -> usize {
    // Selector(index, simple)
    let d = format!("{:?}", s);
    d.trim_start_matches("Selector(").split(',').next().unwrap().trim().parse().unwrap()
}

fn strip_consts(l: &Lay) -> Lay {
    let mut l = l.clone();
    for r in l.regions.iter_mut() {
        let mut out = vec![];
        for op in r.drain(..) {
            match op {
                Op::CConst(..) => {}
                Op::Const(c, o) => out.push(Op::Adv(c, o)),
                x => out.push(x),
            }
        }
        *r = out;
    }
    l
}
fn n_consts(l: &Lay) -> usize {
    l.regions.iter().flatten().filter(|o| matches!(o, Op::Const(..) | Op::CConst(..))).count()
}

const K: u32 = 9;

fn fields_only(r: &Rec<Fr>) -> (Vec<Vec<Option<Fr>>>, BTreeSet<(Pos, Pos)>, BTreeMap<usize, BTreeSet<usize>>, Vec<Pos>) {
    (
        r.fixed.clone(),
        r.copies.iter().map(|(a, b)| pair(*a, *b)).collect(),
        r.selectors.iter().map(|(s, v)| (sel_index(s), v.iter().copied().collect())).collect(),
        r.cell_region.keys().copied().collect(),
    )
}

fn one_planner<P: FloorPlanner>(ctx: &Ctx, name: &str, l: &Rc<Lay>, rng: &mut Rng) -> Option<(Rec<Fr>, Seen)> {
    let inst = l.instance(8);
    let what = |s: &str| format!("{} planner={} lay={:?}", s, name, l);
    let rec = match guard(|| zkit::record(K, &circuit::<P>(l, true), &inst, |_| Fr::one(), None)) {
        Out::Panic(p) => {
            ctx.violation(&format!("{} planner panicked", name), what(&p));
            return None;
        }
        Out::Ok(Err(Error::NotEnoughColumnsForConstants)) => {
            ctx.count(&format!("{}_no_room_for_constants", name));
            // only if there really was no room: place the same regions without the constants
            let bare = Rc::new(strip_consts(l));
            let r = match zkit::record(K, &circuit::<P>(&bare, true), &inst, |_| Fr::one(), None) {
                Ok(r) => r,
                Err(e) => {
                    ctx.violation("placing without constants failed", what(&format!("{:?}", e)));
                    return None;
                }
            };
            match inspect(&bare, &r) {
                Ok(s) => {
                    ctx.check(n_consts(l) > s.free_consts, "constants refused though there was room", || {
                        what(&format!("{} constants, {} free", n_consts(l), s.free_consts))
                    });
                }
                Err((sig, d)) => ctx.violation(&sig, what(&d)),
            }
            return None;
        }
        Out::Ok(Err(e)) => {
            ctx.violation(&format!("{} planner refused a circuit that fits: {:?}", name, e), what(""));
            return None;
        }
        Out::Ok(Ok(r)) => r,
    };
    let seen = match inspect(l, &rec) {
        Ok(s) => s,
        Err((sig, d)) => {
            ctx.violation(&format!("{} ({})", sig, name), what(&d));
            return None;
        }
    };
    ctx.add(&format!("{}_regions", name), l.regions.len() as u64);
    ctx.add("copies", rec.copies.len() as u64);
    ctx.add("constants", n_consts(l) as u64);
    // key generation sees no witness: same layout
    match zkit::record(K, &circuit::<P>(l, true).without_witnesses(), &inst, |_| Fr::one(), None) {
        Ok(r2) => {
            ctx.check(fields_only(&r2) == fields_only(&rec), "layout depends on the witness", || what(""));
        }
        Err(e) => ctx.violation("layout without witness failed", what(&format!("{:?}", e))),
    }
    // a region placed below another one that leaves a gap above: how often V1 really reorders
    let order: Vec<usize> = seen.starts.iter().flatten().copied().collect();
    if order.windows(2).any(|w| w[1] < w[0]) {
        ctx.count(&format!("{}_reordered", name));
    }
    let _ = rng;
    Some((rec, seen))
}

/// smallest k the layout fits, from the constraint system's own blinding rows
fn usable(rec: &Rec<Fr>, k: u32) -> Option<usize> {
    let n = 1usize << k;
    if n < rec.cs.minimum_rows() {
        None
    } else {
        Some(n - (rec.cs.blinding_factors() + 1))
    }
}

fn fits<P: FloorPlanner>(ctx: &Ctx, name: &str, l: &Rc<Lay>, rec: &Rec<Fr>, seen: &Seen, rng: &mut Rng) {
    let what = |s: String| format!("{} planner={} lay={:?}", s, name, l);
    let need = seen.used;
    let kfit = (1..=K).find(|k| usable(rec, *k).map_or(false, |u| u >= need && u > seen.tables)).unwrap();
    for k in [kfit.saturating_sub(2), kfit.saturating_sub(1), kfit] {
        if k == 0 {
            continue;
        }
        let p = Shplonk::params(k);
        let u = usable(rec, k);
        let ok = k == kfit;
        if u == Some(seen.tables) && u.unwrap() >= need {
            continue; // a table that fills every usable row: either answer
        }
        // key generation looks at fixed cells, selectors and copies only; advice cells that do
        // not fit are for the prover to refuse
        let r = guard(|| {
            let pk = Shplonk::keygen(&p, &circuit::<P>(l, true))?;
            if ok {
                return Ok(());
            }
            let inst = l.instance(8.min(u.unwrap_or(0)));
            Shplonk::prove(&p, &pk, &[circuit::<P>(l, true)], &[inst], 0, &mut Rng::new(1, "fits", 0)).map(|_| ())
        });
        match &r {
            Out::Panic(e) => ctx.violation("key generation or proving panicked on a circuit that does not fit", what(format!("k={} {}", k, e))),
            Out::Ok(r) => {
                ctx.check(
                    r.is_ok() == ok,
                    if ok { "key generation refused a circuit that fits" } else { "a circuit that does not fit was proved" },
                    || what(format!("k={} need={} tables={} usable={:?} {:?}", k, need, seen.tables, u, r.as_ref().map(|_| ()))),
                );
            }
        }
        let inst = l.instance(need.min(u.unwrap_or(0)).min(8));
        // every instance row used must exist
        let rows_ok = l.expose.iter().map(|x| x.2).chain(l.regions.iter().flatten().filter_map(|o| if let Op::Inst(_, _, r) = o { Some(*r) } else { None })).all(|r| u.map_or(false, |u| r < u));
        let r = guard(|| MockProver::run(k, &circuit::<P>(l, true), inst.clone()).map(|_| ()));
        match &r {
            Out::Panic(e) => ctx.violation("the mock prover panicked on a circuit that does not fit", what(format!("k={} {}", k, e))),
            Out::Ok(r) => {
                ctx.check(
                    r.is_ok() == (ok && rows_ok),
                    if ok { "the mock prover refused a circuit that fits" } else { "the mock prover accepted a circuit that does not fit" },
                    || what(format!("k={} need={} usable={:?} {:?}", k, need, u, r.as_ref().map(|_| ()))),
                );
            }
        }
        ctx.count(if ok { "size_fits" } else { "size_too_small" });
    }
    if l.sat {
        let p = Shplonk::params(kfit);
        let c = circuit::<P>(l, true);
        let inst = l.instance(8.min(usable(rec, kfit).unwrap()));
        let r = guard(|| {
            let pk = Shplonk::keygen(&p, &c)?;
            let proof = Shplonk::prove(&p, &pk, &[circuit::<P>(l, true)], &[inst.clone()], 0, rng)?;
            let it = Item {
                vk: pk.get_vk(),
                inst: &[inst.clone()],
                proof: &proof,
            };
            Ok::<bool, Error>(Shplonk::verify(&p, &it, 0))
        });
        ctx.check(matches!(r, Out::Ok(Ok(true))), "an honest layout does not prove", || {
            what(format!(
                "k={} {}",
                kfit,
                match &r {
                    Out::Ok(x) => format!("{:?}", x),
                    Out::Panic(e) => e.clone(),
                }
            ))
        });
        ctx.count("proved");
        let m = MockProver::run(kfit, &c, inst.clone()).map(|m| match m.verify() {
            Ok(()) => true,
            // the selectors' empty gates query a cell that need not be assigned
            Err(v) => v.iter().all(|f| matches!(f, VerifyFailure::CellNotAssigned { .. })),
        });
        ctx.check(matches!(m, Ok(true)), "the mock prover refuses an honest layout", || what(String::new()));
    }
}

fn place(ctx: &Ctx, i: usize, rng: &mut Rng) {
    let sat = i % 4 == 3;
    let mut lay = Lay::random(rng, sat);
    // the very last usable row, and the first one beyond
    let mut over = None;
    if i % 3 == 0 {
        let l = Rc::new(lay.clone());
        if let Ok(r) = zkit::record(K, &circuit::<SimpleFloorPlanner>(&l, true), &l.instance(8), |_| Fr::one(), None) {
            if let Ok(s) = inspect(&l, &r) {
                let k = (1..K).find(|k| usable(&r, *k).map_or(false, |u| u >= s.used && u > s.tables)).unwrap_or(8);
                let u = usable(&r, k).unwrap();
                let row = if rng.bool() { u - 1 } else { u };
                over = Some((k, row == u));
                // a column of its own, so that both planners start it at row 0
                lay.adv += 1;
                let op = match rng.below(3) {
                    0 if !lay.sels.is_empty() => {
                        lay.sels.push(true);
                        Op::Sel(lay.sels.len() - 1, row)
                    }
                    1 => {
                        lay.fix += 1;
                        Op::Fix(lay.fix - 1, row)
                    }
                    _ => Op::Adv(lay.adv - 1, row),
                };
                let at = rng.below(lay.regions.len() + 1);
                // appended at the end: region numbers of the others stay
                let _ = at;
                lay.regions.push(vec![op]);
            }
        }
    }
    let l = Rc::new(lay);
    if over.is_some() {
        ctx.count("boundary");
    }
    ctx.eval(Some(hash_bytes(format!("{:?}", l).as_bytes())));
    if i < 3 {
        ctx.sample(json!({"regions": l.regions.len(), "advice": l.adv, "fixed": l.fix, "tables": l.tables.len(), "lay": format!("{:?}", l.regions)}));
    }
    if l.regions.iter().any(|r| r.iter().any(|o| matches!(o, Op::Sel(..))) && !r.iter().any(|o| !matches!(o, Op::Sel(..)))) {
        ctx.count("selector_only_regions");
    }
    let a = one_planner::<SimpleFloorPlanner>(ctx, "simple", &l, rng);
    let b = one_planner::<V1>(ctx, "v1", &l, rng);
    if let Some((rec, seen)) = &a {
        fits::<SimpleFloorPlanner>(ctx, "simple", &l, rec, seen, rng);
    }
    if let Some((rec, seen)) = &b {
        fits::<V1>(ctx, "v1", &l, rec, seen, rng);
    }
    if let (Some(_), Some(_)) = (&a, &b) {
        ctx.count("both_placed");
    }
    // refused: no constants column
    if n_consts(&l) > 0 {
        let mut bad = (*l).clone();
        bad.consts.clear();
        let bad = Rc::new(bad);
        for (n, r) in [
            ("simple", guard(|| zkit::record(K, &circuit::<SimpleFloorPlanner>(&bad, true), &bad.instance(8), |_| Fr::one(), None).map(|_| ()))),
            ("v1", guard(|| zkit::record(K, &circuit::<V1>(&bad, true), &bad.instance(8), |_| Fr::one(), None).map(|_| ()))),
        ] {
            ctx.check(matches!(r, Out::Ok(Err(Error::NotEnoughColumnsForConstants))), "constants without a column not refused", || {
                format!("{} {:?}", n, bad)
            });
            ctx.count("constants_without_column");
        }
    }
    // refused: malformed tables
    if !l.tables.is_empty() {
        let mut bad = (*l).clone();
        let kind = rng.below(3) as u8;
        bad.bad_table = Some(kind);
        let t = rng.below(bad.tables.len());
        let tb = &mut bad.tables[t].1;
        match kind {
            1 if tb.arity > 1 => {
                // one component is longer
                let len = tb.len;
                tb.cells.push((0, len));
            }
            2 if tb.len > 1 => {
                // a gap below the last row
                let j = rng.below(tb.arity);
                let o = rng.below(tb.len - 1);
                tb.cells.retain(|c| *c != (j, o));
            }
            _ => bad.bad_table = Some(0),
        }
        let bad = Rc::new(bad);
        for (n, r) in [
            ("simple", guard(|| zkit::record(K, &circuit::<SimpleFloorPlanner>(&bad, true), &bad.instance(8), |_| Fr::one(), None).map(|_| ()))),
            ("v1", guard(|| zkit::record(K, &circuit::<V1>(&bad, true), &bad.instance(8), |_| Fr::one(), None).map(|_| ()))),
        ] {
            // v1 may find no room for the constants first
            ctx.check(matches!(r, Out::Ok(Err(_))), "a malformed table was accepted", || {
                format!("{} kind {:?} {:?}", n, bad.bad_table, bad)
            });
            ctx.count("bad_tables");
        }
    }
}

fn has_inst<F>(e: &Ex<F>) -> bool {
    match e {
        Ex::I(..) => true,
        Ex::Neg(a) | Ex::Scale(a, _) => has_inst(a),
        Ex::Add(a, b) | Ex::Mul(a, b) => has_inst(a) || has_inst(b),
        _ => false,
    }
}

/// Is the circuit satisfied, whichever planner places it? None: does not fit / no room for constants
fn verdict<P: FloorPlanner>(spec: &Rc<Spec<Fr>>, wseed: u64, fault: Option<((usize, usize, usize), Fr)>) -> Option<(bool, bool, usize)> {
    let (k, st) = crate::gen::layout::<Fr, P>(spec, 4, 9)?;
    let w = witness(spec, k, &st, wseed);
    let inst = w.inst.clone();
    let mut c = GenC::<Fr, P>::new(spec, Some(w));
    if let Some((id, v)) = fault {
        c.faults = Rc::new([(id, v)].into_iter().collect());
    }
    let rec = zkit::record(k, &c, &inst, |i| Fr::from(1000 + 77 * i as u64), None).ok()?;
    let st2 = starts(spec, &rec);
    assert_eq!(st2.as_ref(), Some(&st));
    // values as the author sees them
    let mut h = vec![];
    for (ri, r) in spec.regions.iter().enumerate() {
        for (c, o) in r.cells.keys() {
            h.extend_from_slice(format!("{:?}", rec.advice[*c][st[ri] + o]).as_bytes());
        }
    }
    let mock = MockProver::run(k, &c, inst).ok()?.verify().is_ok();
    Some((rec.satisfied(), mock, hash_bytes(&h) as usize))
}

fn meaning(ctx: &Ctx, i: usize, rng: &mut Rng) {
    let m = match make::<Fr, SimpleFloorPlanner>(rng, SHAPE, 8) {
        Some(m) => m,
        None => return ctx.count("no_circuit"),
    };
    let inst_dep = m.spec.gates.iter().any(|g| g.polys.iter().any(|p| has_inst(&p.body)));
    let wseed = rng.u64();
    let spec = m.spec.clone();
    crate::gen::set_spec(&spec);
    let mut runs = vec![None];
    if !inst_dep {
        for _ in 0..2 {
            if let Some(id) = pick_fault(rng, &spec) {
                runs.push(Some((id, Fr::from(rng.u64()))));
            }
        }
    }
    for f in runs {
        let a = guard(|| verdict::<SimpleFloorPlanner>(&spec, wseed, f));
        let b = guard(|| verdict::<V1>(&spec, wseed, f));
        let (a, b) = match (a, b) {
            (Out::Ok(a), Out::Ok(b)) => (a, b),
            (Out::Panic(e), _) | (_, Out::Panic(e)) => return ctx.violation("a planner panicked", format!("{} {:?}", e, spec)),
        };
        match (a, b) {
            (Some(a), Some(b)) => {
                ctx.check(a.0 == b.0, "satisfied under one planner only", || format!("simple {} v1 {} fault {:?} {:?}", a.0, b.0, f, spec));
                ctx.check(a.0 == a.1 && b.0 == b.1, "the mock prover disagrees", || format!("{:?} {:?} fault {:?} {:?}", a, b, f, spec));
                if f.is_none() {
                    ctx.check(a.0, "an honest circuit is not satisfied once placed", || format!("{:?}", spec));
                }
                if !inst_dep {
                    ctx.check(a.2 == b.2, "cells receive other values under the other planner", || format!("fault {:?} {:?}", f, spec));
                }
                ctx.count(if a.0 { "same_satisfied" } else { "same_unsatisfied" });
            }
            (Some(_), None) => ctx.count("v1_does_not_fit"),
            (None, Some(_)) => ctx.count("simple_does_not_fit"),
            _ => ctx.count("no_fit"),
        }
    }
    ctx.eval(Some(hash_bytes(format!("{:?}", spec).as_bytes())));
    let _ = i;
}

pub fn c23(ctx: Ctx) {
    ctx.rule("each region at one start plus its offsets; no two regions, constants or tables overlap; copies, constants, tables, selectors, instance ties exactly as requested; same under no witness; same verdict under both planners; too small a size is an error");
    ctx.assume("the recorder at the Assignment boundary (zkit) sees what key generation sees; checked by real key generation, mock runs and proofs on part of the cases");
    ctx.set_budget(40, 900);
    let n = ctx.n(2400, 60000);
    ctx.cases("place", 400, n, |i, rng| place(&ctx, i, rng));
    let n = ctx.n(600, 15000);
    ctx.cases("meaning", 100, n, |i, rng| meaning(&ctx, i, rng));
    ctx.finish(&[
        ("simple_regions", 500),
        ("v1_regions", 300),
        ("v1_reordered", 20),
        ("both_placed", 50),
        ("size_fits", 100),
        ("size_too_small", 100),
        ("boundary", 30),
        ("proved", 20),
        ("constants", 100),
        ("constants_without_column", 20),
        ("bad_tables", 50),
        ("same_satisfied", 30),
        ("same_unsatisfied", 20),
    ]);
}
