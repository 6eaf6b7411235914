//! Webs of copies and tables: circuits whose copy constraints form a random multigraph
//! over advice, fixed and instance cells (with redundant and repeated ties, clusters
//! merged in any order) and whose lookups read near-identical table expressions
//! (rotations, products, sums, scalings of the same fixed columns), with a bundle of
//! selectors whose gates meet on some rows only. What is satisfied is
//! decided by the independent evaluator of the recorded assignment.
use crate::sys::*;
use ff::{Field, PrimeField};
use halo2_proofs::circuit::{Cell, Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::dev::MockProver;
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::halo2curves::FieldExt;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use halo2_proofs::SerdeFormat;
use kit::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Node {
    Adv(usize, usize),
    Fix(usize),
    Inst(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum T {
    Q(usize, i32),
    Add(Box<T>, Box<T>),
    Mul(Box<T>, Box<T>),
    Scale(Box<T>, u64),
    Neg(Box<T>),
}
#[derive(Clone, Debug, Default)]
struct Spec {
    k: u32,
    na: usize,
    h: usize,
    fixed: Vec<u64>,
    tabs: Vec<Vec<u64>>,
    lookups: Vec<Vec<T>>,
    copies: Vec<(Node, Node)>,
    cut: usize,
    inst: usize,
    /// selector gates: simple?, degree of the gate without its selector, rows
    gates: Vec<(bool, usize, BTreeSet<usize>)>,
}
#[derive(Clone)]
struct Web {
    adv: Vec<Vec<Fr>>,
    looks: Vec<Vec<Vec<Fr>>>,
    /// false values of gate cells
    wrong: BTreeSet<(usize, usize)>,
    known: bool,
}
thread_local! {
    static CUR: RefCell<Rc<Spec>> = RefCell::new(Rc::new(Spec::default()));
}
fn cur() -> Rc<Spec> {
    CUR.with(|c| c.borrow().clone())
}
#[derive(Clone)]
struct Cfg {
    adv: Vec<Column<Advice>>,
    fix: Column<Fixed>,
    inst: Column<Instance>,
    look: Vec<Vec<Column<Advice>>>,
    tabs: Vec<Column<Fixed>>,
    sel: Vec<Selector>,
    gate: Vec<Column<Advice>>,
}
fn build(m: &mut VirtualCells<'_, Fr>, t: &T, cols: &[Column<Fixed>]) -> Expression<Fr> {
    match t {
        T::Q(c, r) => m.query_fixed(cols[*c], Rotation(*r)),
        T::Add(a, b) => build(m, a, cols) + build(m, b, cols),
        T::Mul(a, b) => build(m, a, cols) * build(m, b, cols),
        T::Scale(a, s) => build(m, a, cols) * Fr::from(*s),
        T::Neg(a) => -build(m, a, cols),
    }
}
impl Circuit<Fr> for Web {
    type Config = Cfg;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        Web { known: false, ..self.clone() }
    }
    fn configure(meta: &mut ConstraintSystem<Fr>) -> Cfg {
        let s = cur();
        let adv: Vec<_> = (0..s.na).map(|_| meta.advice_column()).collect();
        let fix = meta.fixed_column();
        let inst = meta.instance_column();
        for a in &adv {
            meta.enable_equality(*a);
        }
        meta.enable_equality(fix);
        meta.enable_equality(inst);
        let tabs: Vec<_> = s.tabs.iter().map(|_| meta.fixed_column()).collect();
        let look: Vec<Vec<_>> = s.lookups.iter().map(|l| l.iter().map(|_| meta.advice_column()).collect()).collect();
        for (l, cols) in s.lookups.iter().zip(&look) {
            meta.lookup_any("web", |m| {
                l.iter()
                    .zip(cols)
                    .map(|(t, c)| (m.query_advice(*c, Rotation::cur()), build(m, t, &tabs)))
                    .collect()
            });
        }
        let sel: Vec<_> = s.gates.iter().map(|g| if g.0 { meta.selector() } else { meta.complex_selector() }).collect();
        let gate: Vec<_> = s.gates.iter().map(|_| meta.advice_column()).collect();
        for (i, g) in s.gates.iter().enumerate() {
            meta.create_gate("bundle", |m| {
                let q = m.query_selector(sel[i]);
                let a = m.query_advice(gate[i], Rotation::cur());
                let c = |v: u64| Expression::Constant(Fr::from(v));
                let e = (1..g.1).fold(a.clone() - c(i as u64 + 1), |e, j| e * (a.clone() - c(50 + j as u64)));
                vec![q * e]
            });
        }
        Cfg { adv, fix, inst, look, tabs, sel, gate }
    }
    fn synthesize(&self, cfg: Cfg, mut l: impl Layouter<Fr>) -> Result<(), Error> {
        let s = cur();
        let v = |x: Fr| if self.known { Value::known(x) } else { Value::unknown() };
        let cells: HashMap<Node, Cell> = l.assign_region(
            || "cells",
            |mut r| {
                let mut cells = HashMap::new();
                for (c, col) in self.adv.iter().enumerate() {
                    for (o, x) in col.iter().enumerate() {
                        cells.insert(Node::Adv(c, o), r.assign_advice(|| "a", cfg.adv[c], o, || v(*x))?.cell());
                    }
                }
                for (o, x) in s.fixed.iter().enumerate() {
                    cells.insert(Node::Fix(o), r.assign_fixed(|| "f", cfg.fix, o, || Value::known(Fr::from(*x)))?.cell());
                }
                for (c, col) in s.tabs.iter().enumerate() {
                    for (o, x) in col.iter().enumerate() {
                        r.assign_fixed(|| "t", cfg.tabs[c], o, || Value::known(Fr::from(*x)))?;
                    }
                }
                for (li, cols) in self.looks.iter().enumerate() {
                    for (j, col) in cols.iter().enumerate() {
                        for (o, x) in col.iter().enumerate() {
                            r.assign_advice(|| "l", cfg.look[li][j], o, || v(*x))?;
                        }
                    }
                }
                for (i, g) in s.gates.iter().enumerate() {
                    for o in &g.2 {
                        cfg.sel[i].enable(&mut r, *o)?;
                        let x = if self.wrong.contains(&(i, *o)) { 300 } else { i as u64 + 1 };
                        r.assign_advice(|| "g", cfg.gate[i], *o, || v(Fr::from(x)))?;
                    }
                }
                for (a, b) in &s.copies[..s.cut] {
                    if let (Some(a), Some(b)) = (cells.get(a), cells.get(b)) {
                        r.constrain_equal(*a, *b)?;
                    }
                }
                Ok(cells)
            },
        )?;
        for (i, (a, b)) in s.copies.iter().enumerate() {
            match (a, b) {
                (Node::Inst(x), n) | (n, Node::Inst(x)) => l.constrain_instance(cells[n], cfg.inst, *x)?,
                _ if i >= s.cut => l.assign_region(|| "tie", |mut r| r.constrain_equal(cells[a], cells[b]))?,
                _ => {}
            }
        }
        Ok(())
    }
}

fn texp(rng: &mut Rng, nt: usize, d: usize) -> T {
    let q = |rng: &mut Rng| T::Q(rng.below(nt), *rng.pick(&[0, 0, 1, -1, 2]));
    if d == 0 {
        return q(rng);
    }
    let sub = |rng: &mut Rng| Box::new(texp(rng, nt, d - 1));
    match rng.below(7) {
        0 => T::Add(sub(rng), sub(rng)),
        1 => T::Mul(sub(rng), sub(rng)),
        2 => T::Scale(sub(rng), rng.range(2, 5) as u64),
        3 => T::Neg(sub(rng)),
        _ => q(rng),
    }
}
/// the same expression but for one detail
fn tweak(rng: &mut Rng, t: &T, nt: usize) -> T {
    match t {
        T::Q(c, r) => {
            if nt > 1 && rng.chance(1, 3) {
                T::Q((c + 1) % nt, *r)
            } else {
                T::Q(*c, *rng.pick(&[r + 1, r - 1, 0, -*r]))
            }
        }
        T::Add(a, b) if rng.chance(1, 4) => T::Mul(a.clone(), b.clone()),
        T::Mul(a, b) if rng.chance(1, 4) => T::Add(a.clone(), b.clone()),
        T::Add(a, b) => {
            if rng.bool() {
                T::Add(Box::new(tweak(rng, a, nt)), b.clone())
            } else {
                T::Add(a.clone(), Box::new(tweak(rng, b, nt)))
            }
        }
        T::Mul(a, b) => {
            if rng.bool() {
                T::Mul(Box::new(tweak(rng, a, nt)), b.clone())
            } else {
                T::Mul(a.clone(), Box::new(tweak(rng, b, nt)))
            }
        }
        T::Scale(a, s) => {
            if rng.bool() {
                T::Scale(a.clone(), s + 1)
            } else {
                T::Scale(Box::new(tweak(rng, a, nt)), *s)
            }
        }
        T::Neg(a) => {
            if rng.bool() {
                (**a).clone()
            } else {
                T::Neg(Box::new(tweak(rng, a, nt)))
            }
        }
    }
}
fn teval(t: &T, tabs: &[Vec<u64>], row: usize, n: usize) -> Fr {
    match t {
        T::Q(c, r) => {
            let row = (row as i64 + *r as i64).rem_euclid(n as i64) as usize;
            Fr::from(tabs[*c].get(row).copied().unwrap_or(0))
        }
        T::Add(a, b) => teval(a, tabs, row, n) + teval(b, tabs, row, n),
        T::Mul(a, b) => teval(a, tabs, row, n) * teval(b, tabs, row, n),
        T::Scale(a, s) => teval(a, tabs, row, n) * Fr::from(*s),
        T::Neg(a) => -teval(a, tabs, row, n),
    }
}

struct Uf(HashMap<Node, Node>);
impl Uf {
    fn find(&mut self, x: Node) -> Node {
        let p = *self.0.entry(x).or_insert(x);
        if p == x {
            return x;
        }
        let r = self.find(p);
        self.0.insert(x, r);
        r
    }
}

impl Spec {
    fn random(rng: &mut Rng, k: u32) -> Spec {
        let mut s = Spec { k, na: rng.range(1, 3), h: rng.range(4, 9), inst: rng.below(4), ..Spec::default() };
        s.fixed = vec![0; rng.below(3)];
        let mut nodes: Vec<Node> = vec![];
        for c in 0..s.na {
            nodes.extend((0..s.h).map(|o| Node::Adv(c, o)));
        }
        rng.shuffle(&mut nodes);
        nodes.truncate(rng.range(5, 10));
        let advs = nodes.clone();
        nodes.extend((0..s.fixed.len()).map(Node::Fix));
        // clusters first, then merges, then ties that are already implied, in a random mixture
        let m = rng.range(nodes.len() / 2, nodes.len() * 2 + 2);
        for i in 0..m {
            let pair = if rng.chance(1, 2) && i < m / 2 {
                let g = rng.below(nodes.len() - 1);
                (nodes[g], nodes[g + 1])
            } else {
                (*rng.pick(&nodes), *rng.pick(&nodes))
            };
            s.copies.push(pair);
            if rng.chance(1, 10) {
                s.copies.push((pair.1, pair.0));
            }
        }
        s.cut = if rng.bool() { s.copies.len() } else { rng.below(s.copies.len() + 1) };
        for i in 0..s.inst {
            if rng.chance(3, 4) {
                let t = (*rng.pick(&advs), Node::Inst(i));
                s.copies.push(t);
                if rng.chance(1, 3) {
                    s.copies.push((*rng.pick(&advs), Node::Inst(rng.below(s.inst))));
                }
            }
        }
        // fixed cells of one class share their constant
        let cl = s.classes();
        for (i, c) in cl.iter().enumerate() {
            for n in c {
                if let Node::Fix(r) = n {
                    s.fixed[*r] = 100 + i as u64;
                }
            }
        }
        let nt = rng.range(1, 2);
        let rows = rng.range(2, 8);
        s.tabs = (0..nt).map(|_| (0..rows).map(|_| rng.below(6) as u64 + if rng.bool() { 10 } else { 0 }).collect()).collect();
        for i in 0..*rng.pick(&[0, 1, 2, 2, 3]) {
            let l: Vec<T> = if i > 0 && rng.chance(2, 3) {
                let mut l: Vec<T> = s.lookups[i - 1].clone();
                if l.len() > 1 && rng.chance(1, 4) {
                    l.reverse();
                } else if !rng.chance(1, 6) {
                    let j = rng.below(l.len());
                    l[j] = tweak(rng, &l[j], nt);
                }
                l
            } else {
                (0..rng.range(1, 2)).map(|_| texp(rng, nt, 2)).collect()
            };
            s.lookups.push(l);
        }
        let many = *rng.pick(&[0, 2, 3, 4, 6, 9]);
        for i in 0..many {
            let d = if i == 0 || rng.chance(1, 5) { rng.range(1, 7) } else { rng.range(1, 3) };
            s.gates.push((!rng.chance(1, 8), d, BTreeSet::new()));
        }
        let u = s.usable();
        let pool: Vec<usize> = (0..rng.range(2, 9)).map(|_| if rng.chance(1, 3) { u - 1 - rng.below(4) } else { rng.below(u) }).collect();
        for g in s.gates.iter_mut() {
            for _ in 0..*rng.pick(&[0, 1, 1, 2, 4]) {
                g.2.insert(*rng.pick(&pool));
            }
        }
        s
    }
    fn usable(&self) -> usize {
        let old = cur();
        CUR.with(|c| *c.borrow_mut() = Rc::new(self.clone()));
        let mut cs = ConstraintSystem::default();
        Web::configure(&mut cs);
        CUR.with(|c| *c.borrow_mut() = old);
        self.n() - (cs.blinding_factors() + 1)
    }
    /// one false gate cell; rows on which several gates are enabled first
    fn false_gates(&self, rng: &mut Rng, max: usize) -> Vec<(usize, usize)> {
        let mut all: Vec<(usize, usize)> = self.gates.iter().enumerate().flat_map(|(i, g)| g.2.iter().map(move |o| (i, *o))).collect();
        rng.shuffle(&mut all);
        all.sort_by_key(|(_, o)| self.gates.iter().filter(|g| g.2.contains(o)).count() < 2);
        all.truncate(max);
        all
    }
    /// the classes of cells the copies tie together
    fn classes(&self) -> Vec<Vec<Node>> {
        let mut uf = Uf(HashMap::new());
        for (a, b) in &self.copies {
            let (x, y) = (uf.find(*a), uf.find(*b));
            uf.0.insert(x, y);
        }
        let all: BTreeSet<Node> = self.copies.iter().flat_map(|(a, b)| [*a, *b]).collect();
        let mut by: BTreeMap<Node, Vec<Node>> = BTreeMap::new();
        for n in all {
            by.entry(uf.find(n)).or_default().push(n);
        }
        by.into_values().collect()
    }
    fn n(&self) -> usize {
        1 << self.k
    }
    fn table(&self, li: usize, usable: usize) -> Vec<Vec<Fr>> {
        (0..usable).map(|r| self.lookups[li].iter().map(|t| teval(t, &self.tabs, r, self.n())).collect()).collect()
    }
    /// values: one per class, unless `over` says otherwise
    fn witness(&self, rng: &mut Rng, over: &HashMap<Node, Fr>) -> (Web, Vec<Vec<Fr>>) {
        let mut adv: Vec<Vec<Fr>> = (0..self.na).map(|_| (0..self.h).map(|_| Fr::from(rng.below(5) as u64)).collect()).collect();
        let mut inst: Vec<Fr> = (0..self.inst).map(|_| Fr::from(rng.below(5) as u64)).collect();
        let mut put = |n: &Node, v: Fr| match n {
            Node::Adv(c, o) => adv[*c][*o] = v,
            Node::Inst(r) => inst[*r] = v,
            Node::Fix(_) => {}
        };
        for (i, c) in self.classes().iter().enumerate() {
            let v = if c.iter().any(|n| matches!(n, Node::Fix(_))) { Fr::from(100 + i as u64) } else { Fr::from(200 + rng.below(40) as u64) };
            c.iter().for_each(|n| put(n, v));
        }
        over.iter().for_each(|(n, v)| put(n, *v));
        let looks = (0..self.lookups.len())
            .map(|li| {
                let t = self.table(li, self.n() - 10);
                let mut cols = vec![vec![]; self.lookups[li].len()];
                for _ in 0..rng.below(8) {
                    let row = rng.pick(&t).clone();
                    cols.iter_mut().zip(row).for_each(|(c, x)| c.push(x));
                }
                cols
            })
            .collect();
        (Web { adv, looks, wrong: BTreeSet::new(), known: true }, vec![inst])
    }
    /// a witness that is (probably) false in one respect
    fn broken(&self, rng: &mut Rng) -> (Web, Vec<Vec<Fr>>, &'static str) {
        let cl: Vec<Vec<Node>> = self.classes().into_iter().filter(|c| c.len() > 1).collect();
        let none = HashMap::new();
        match rng.below(3) {
            0 if !self.lookups.is_empty() => {
                let (mut w, inst) = self.witness(rng, &none);
                let li = rng.below(self.lookups.len());
                // a row of another lookup's table, or of no table
                let lj = rng.below(self.lookups.len());
                let row = if lj != li && self.lookups[lj].len() == self.lookups[li].len() {
                    rng.pick(&self.table(lj, self.n() - 10)).clone()
                } else {
                    self.lookups[li].iter().map(|_| Fr::from(rng.below(40) as u64)).collect()
                };
                w.looks[li].iter_mut().zip(row).for_each(|(c, x)| c.push(x));
                (w, inst, "false_lookup")
            }
            _ if !cl.is_empty() => {
                let c = rng.pick(&cl).clone();
                let mut over = HashMap::new();
                let bits = rng.u64();
                for (i, n) in c.iter().enumerate() {
                    if bits >> (i % 64) & 1 == 1 {
                        over.insert(*n, Fr::from(77));
                    }
                }
                let (w, inst) = self.witness(rng, &over);
                (w, inst, "false_copy")
            }
            _ => {
                let (w, inst) = self.witness(rng, &none);
                (w, inst, "untouched")
            }
        }
    }
}
fn truth(s: &Rc<Spec>, w: &Web, inst: &[Vec<Fr>]) -> Option<bool> {
    CUR.with(|c| *c.borrow_mut() = s.clone());
    zkit::record(s.k, w, inst, |_| Fr::zero(), None).ok().map(|r| r.satisfied())
}

/// C11: the mock prover on webs
pub fn mock_case(ctx: &Ctx, i: usize, rng: &mut Rng) {
    let s = Rc::new(Spec::random(rng, [5, 5, 6, 5, 5, 8, 5, 5][i % 8]));
    CUR.with(|c| *c.borrow_mut() = s.clone());
    ctx.eval(Some(hash_bytes(format!("{:?}", s).as_bytes())));
    let look = |w: &Web, inst: &[Vec<Fr>], kind: &str| {
        let want = match truth(&s, w, inst) {
            Some(t) => t,
            None => return ctx.count("web_unrecorded"),
        };
        let got = guard(|| {
            let p = MockProver::run(s.k, w, inst.to_vec()).unwrap();
            (p.verify().is_ok(), p.verify_par().is_ok())
        });
        ctx.check(matches!(got, Out::Ok((a, b)) if a == want && b == want), "web: verdict is not the truth", || {
            format!("{} satisfied={} mock={:?} adv={:?} looks={:?} wrong={:?} inst={:?} {:?}", kind, want, matches!(got, Out::Ok((true, true))), w.adv, w.looks, w.wrong, inst, s)
        });
        ctx.count(if want { "web_satisfied" } else { "web_unsatisfied" });
    };
    let (w, inst) = s.witness(rng, &HashMap::new());
    look(&w, &inst, "honest");
    for _ in 0..4 {
        let (w, inst, kind) = s.broken(rng);
        look(&w, &inst, kind);
    }
    for at in s.false_gates(rng, 8) {
        let mut w = w.clone();
        w.wrong.insert(at);
        look(&w, &inst, "false gate");
        ctx.count("web_false_gates");
    }
    // every way of splitting a class in two
    for c in s.classes() {
        if c.len() < 2 || c.len() > 9 {
            continue;
        }
        let all = 1u64 << (c.len() - 1);
        let step = 1 + all / 32;
        let mut b = 1 + rng.below(step as usize) as u64;
        while b < all {
            let over: HashMap<Node, Fr> = (0..c.len()).filter(|i| b >> i & 1 == 1).map(|i| (c[i], Fr::from(78))).collect();
            let (w, inst) = s.witness(rng, &over);
            look(&w, &inst, "split class");
            ctx.count("web_splits");
            b += step;
        }
    }
}

/// which cells the key's permutation polynomials connect; None if the key cannot be read.
/// Only guides the choice of false witnesses.
fn cycles(s: &Spec, pk: &ProvingKey<halo2_proofs::halo2curves::bn256::G1Affine>) -> Option<HashMap<Node, usize>> {
    let bytes = pk.to_bytes(SerdeFormat::Processed);
    let (m, n) = (s.na + 2, s.n());
    let block = 4 + m * (4 + 32 * n);
    let b = bytes.get(bytes.len().checked_sub(2 * block)?..)?;
    if b[..4] != (m as u32).to_be_bytes() {
        return None;
    }
    let omega = Fr::root_of_unity().pow_vartime([1u64 << (Fr::S - s.k)]);
    let mut at = HashMap::new();
    let mut d = Fr::one();
    for i in 0..m {
        let mut x = d;
        for j in 0..n {
            at.insert(x.to_repr(), (i, j));
            x *= omega;
        }
        d *= Fr::DELTA;
    }
    let mut map = HashMap::new();
    for i in 0..m {
        let p = &b[4 + i * (4 + 32 * n) + 4..];
        for j in 0..n {
            let r: [u8; 32] = p[32 * j..32 * j + 32].try_into().unwrap();
            map.insert((i, j), *at.get(&r)?);
        }
    }
    let mut out = HashMap::new();
    for (id, c) in s.classes().iter().flatten().enumerate() {
        let mut p = match c {
            Node::Adv(c, o) => (*c, *o),
            Node::Fix(o) => (s.na, *o),
            Node::Inst(o) => (s.na + 1, *o),
        };
        // the least cell of its cycle names it
        let start = p;
        let mut least = p;
        for _ in 0..m * n {
            p = map[&p];
            least = least.min(p);
            if p == start {
                break;
            }
        }
        let _ = id;
        out.insert(*c, least.0 * n + least.1);
    }
    Some(out)
}

/// C09 (`honest`) and C10: real proofs of webs
pub fn proof_case<S: Sys<F = Fr, C = halo2_proofs::halo2curves::bn256::G1Affine>>(ctx: &Ctx, honest: bool, rng: &mut Rng) {
    let s = Rc::new(Spec::random(rng, 5));
    CUR.with(|c| *c.borrow_mut() = s.clone());
    let tr = rng.below(3);
    let p = S::params(s.k);
    let (w0, inst0) = s.witness(rng, &HashMap::new());
    let pk = match guard(|| S::keygen(&p, &w0)) {
        Out::Ok(Ok(pk)) => pk,
        e => {
            if honest {
                ctx.violation("web: keygen failed", format!("{:?} {:?}", matches!(e, Out::Panic(_)), s));
            }
            return;
        }
    };
    let accepted = |w: &Web, inst: &[Vec<Fr>], rng: &mut Rng| -> bool {
        match guard(|| S::prove(&p, &pk, &[w.clone()], &[inst.to_vec()], tr, rng)) {
            Out::Ok(Ok(proof)) => {
                let it = Item { vk: pk.get_vk(), inst: &[inst.to_vec()], proof: &proof };
                matches!(guard(|| S::verify(&p, &it, tr)), Out::Ok(true))
            }
            _ => false,
        }
    };
    let desc = |w: &Web, inst: &[Vec<Fr>]| format!("{} {} adv={:?} looks={:?} wrong={:?} inst={:?} {:?}", S::NAME, TRANSCRIPTS[tr], w.adv, w.looks, w.wrong, inst, s);
    ctx.eval(Some(hash_bytes(format!("{:?}", s).as_bytes())));
    if honest {
        assert_eq!(truth(&s, &w0, &inst0), Some(true), "generator produced an unsatisfied web: {:?}", s);
        let ok = accepted(&w0, &inst0, rng);
        ctx.check(ok, "web: honest proof refused", || desc(&w0, &inst0));
        ctx.count("web_proofs");
        return;
    }
    let refuse = |w: &Web, inst: &[Vec<Fr>], kind: &str, rng: &mut Rng| {
        if truth(&s, w, inst) == Some(false) {
            let ok = accepted(w, inst, rng);
            ctx.check(!ok, "web: proof of an unsatisfied circuit accepted", || format!("{} {}", kind, desc(w, inst)));
            ctx.count(&format!("web_{}", kind));
        }
    };
    for _ in 0..2 {
        let (w, inst, kind) = s.broken(rng);
        refuse(&w, &inst, kind, rng);
    }
    // the mock prover points out the gates that seem not to be enforced
    let gates = s.false_gates(rng, 8);
    let wrong = |at: &(usize, usize)| Web { wrong: BTreeSet::from([*at]), ..w0.clone() };
    let lax = gates.iter().find(|at| matches!(guard(|| MockProver::run(s.k, &wrong(at), inst0.clone()).map_or(false, |m| m.verify().is_ok())), Out::Ok(true)));
    if let Some(at) = lax.or(gates.first()) {
        refuse(&wrong(at), &inst0, "false_gate", rng);
    }
    match cycles(&s, &pk) {
        None => ctx.count("web_key_unread"),
        Some(cy) => {
            ctx.count("web_key_read");
            for c in s.classes() {
                let ids: BTreeSet<usize> = c.iter().map(|n| cy[n]).collect();
                if ids.len() > 1 {
                    let fixed: BTreeSet<usize> = c.iter().filter(|n| matches!(n, Node::Fix(_))).map(|n| cy[n]).collect();
                    let over: HashMap<Node, Fr> = c.iter().filter(|n| !fixed.contains(&cy[*n])).map(|n| (*n, Fr::from(500 + cy[n] as u64))).collect();
                    let (w, inst) = s.witness(rng, &over);
                    refuse(&w, &inst, "cycle_split", rng);
                }
            }
        }
    }
}
