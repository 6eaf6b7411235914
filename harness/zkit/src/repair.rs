//! A dishonest prover: starting from a satisfied recording, change some cells and
//! then keep every constraint happy by solving violated polynomials for other cells.
//!
//! Copy-constrained cells are one variable; a variable that contains a fixed or an
//! instance cell (a constant, a public input) cannot be changed. A run ends satisfied
//! (a full assignment that the verifier would accept) or stuck. Whether a satisfied
//! assignment is a violation is for the caller to decide, from its inputs and outputs.
use super::*;
use kit::Rng;

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    /// all constraints hold; number of variables changed
    Satisfied(usize),
    Stuck,
}

struct PolyInfo {
    gate: usize,
    poly: usize,
    /// advice (column, rotation)
    cells: Vec<(usize, i32)>,
}

pub struct Attack<F: Key> {
    polys: Vec<PolyInfo>,
    /// per advice column: (polynomial, rotation)
    by_col: Vec<Vec<(usize, i32)>>,
    lk_by_col: Vec<Vec<(usize, i32)>>,
    tables: Vec<HashSet<Vec<F::K>>>,
    class_of: HashMap<Pos, usize>,
    members: Vec<Vec<Pos>>,
    fixed: Vec<Vec<bool>>,
    /// per advice cell: representative, and when its variable was first assigned
    rep: Vec<Vec<(u32, u32)>>,
    time: Vec<Vec<usize>>,
    undo: RefCell<Vec<(Pos, Option<F>)>>,
}

fn advice_cells<F: Field>(e: &Expression<F>, out: &mut Vec<(usize, i32)>) {
    match e {
        Expression::Advice(q) => {
            let c = (q.column_index(), q.rotation().0);
            if !out.contains(&c) {
                out.push(c);
            }
        }
        Expression::Negated(a) | Expression::Scaled(a, _) => advice_cells(a, out),
        Expression::Sum(a, b) | Expression::Product(a, b) => {
            advice_cells(a, out);
            advice_cells(b, out);
        }
        _ => {}
    }
}

/// zero whatever the advice is (a disabled selector)
fn vanishes<F: Key>(rec: &Rec<F>, e: &Expression<F>, row: usize) -> bool {
    match e {
        Expression::Product(a, b) => vanishes(rec, a, row) || vanishes(rec, b, row),
        Expression::Sum(a, b) => vanishes(rec, a, row) && vanishes(rec, b, row),
        Expression::Negated(a) | Expression::Scaled(a, _) => vanishes(rec, a, row),
        Expression::Selector(_) | Expression::Fixed(_) => bool::from(rec.eval(e, row).is_zero()),
        _ => false,
    }
}

impl<F: Key> Attack<F> {
    pub fn new(rec: &Rec<F>) -> Self {
        let ncol = rec.advice.len();
        let mut polys = vec![];
        let mut by_col = vec![vec![]; ncol];
        for (gi, g) in rec.cs.gates().iter().enumerate() {
            for (pi, p) in g.polynomials().iter().enumerate() {
                let mut cells = vec![];
                advice_cells(p, &mut cells);
                for (c, r) in &cells {
                    by_col[*c].push((polys.len(), *r));
                }
                polys.push(PolyInfo { gate: gi, poly: pi, cells });
            }
        }
        let mut lk_by_col = vec![vec![]; ncol];
        for (li, l) in rec.cs.lookups().iter().enumerate() {
            let mut cells = vec![];
            for e in &l.input_expressions {
                advice_cells(e, &mut cells);
            }
            for (c, r) in cells {
                lk_by_col[c].push((li, r));
            }
            let mut t = vec![];
            for e in &l.table_expressions {
                advice_cells(e, &mut t);
            }
            assert!(t.is_empty(), "advice in a table");
        }
        // copy classes
        let mut parent: Vec<usize> = vec![];
        let mut id: HashMap<Pos, usize> = HashMap::new();
        fn find(p: &mut Vec<usize>, mut x: usize) -> usize {
            while p[x] != x {
                p[x] = p[p[x]];
                x = p[x];
            }
            x
        }
        for (a, b) in &rec.copies {
            let mut ix = |p: &Pos| {
                *id.entry(*p).or_insert_with(|| {
                    parent.push(parent.len());
                    parent.len() - 1
                })
            };
            let (x, y) = (ix(a), ix(b));
            let (x, y) = (find(&mut parent, x), find(&mut parent, y));
            parent[x] = y;
        }
        let mut members = vec![vec![]; parent.len()];
        let mut immutable = vec![false; parent.len()];
        let mut class_of = HashMap::new();
        for (p, i) in id {
            let c = find(&mut parent, i);
            class_of.insert(p, c);
            members[c].push(p);
            if p.0 != 'a' {
                immutable[c] = true;
            }
        }
        let mut rep: Vec<Vec<(u32, u32)>> = (0..ncol).map(|c| (0..rec.n).map(|r| (c as u32, r as u32)).collect()).collect();
        let mut time = vec![vec![usize::MAX; rec.n]; ncol];
        for (i, p) in rec.order.iter().enumerate() {
            if p.0 == 'a' {
                time[p.1][p.2] = i;
            }
        }
        let mut fixed = vec![vec![false; rec.n]; ncol];
        for (ci, m) in members.iter().enumerate() {
            let adv: Vec<Pos> = m.iter().filter(|p| p.0 == 'a').copied().collect();
            let r = adv.iter().min().copied();
            let t = adv.iter().map(|p| time[p.1][p.2]).min().unwrap_or(usize::MAX);
            for p in adv {
                rep[p.1][p.2] = r.map(|r| (r.1 as u32, r.2 as u32)).unwrap();
                time[p.1][p.2] = t;
                fixed[p.1][p.2] = immutable[ci];
            }
        }
        Attack {
            polys,
            by_col,
            lk_by_col,
            tables: (0..rec.cs.lookups().len()).map(|i| rec.table(i)).collect(),
            class_of,
            members,
            fixed,
            rep,
            time,
            undo: RefCell::new(vec![]),
        }
    }
    fn class(&self, p: Pos) -> Vec<Pos> {
        match self.class_of.get(&p) {
            Some(c) => self.members[*c].clone(),
            None => vec![p],
        }
    }
    /// representative of a cell's variable
    pub fn rep(&self, p: Pos) -> Pos {
        if p.0 != 'a' {
            return p;
        }
        let r = self.rep[p.1][p.2];
        ('a', r.0 as usize, r.1 as usize)
    }
    pub fn mutable(&self, p: Pos) -> bool {
        p.0 == 'a' && !self.fixed[p.1][p.2]
    }
    fn time_of(&self, p: Pos) -> usize {
        self.time[p.1][p.2]
    }
    fn set(&self, rec: &mut Rec<F>, p: Pos, v: F) {
        rec.advice[p.1][p.2] = Some(v);
    }
    /// put back everything the last runs changed
    pub fn restore(&self, rec: &mut Rec<F>) {
        for (p, v) in self.undo.borrow_mut().drain(..).rev() {
            rec.advice[p.1][p.2] = v;
        }
    }
    fn change(&self, rec: &mut Rec<F>, p: Pos, v: F, touched: &mut Vec<Pos>) {
        for q in self.class(p) {
            self.undo.borrow_mut().push((q, rec.advice[q.1][q.2]));
            self.set(rec, q, v);
            touched.push(q);
        }
    }
    /// constraints that read the given cells
    fn reading(&self, rec: &Rec<F>, cells: &[Pos], polys: &mut BTreeMap<(usize, usize), ()>, lks: &mut BTreeMap<(usize, usize), ()>) {
        for p in cells {
            for (pi, rot) in &self.by_col[p.1] {
                let row = (p.2 as i64 - *rot as i64).rem_euclid(rec.n as i64) as usize;
                if row < rec.usable && !vanishes(rec, self.poly(rec, *pi), row) {
                    polys.insert((row, *pi), ());
                }
            }
            for (li, rot) in &self.lk_by_col[p.1] {
                let row = (p.2 as i64 - *rot as i64).rem_euclid(rec.n as i64) as usize;
                if row < rec.usable {
                    lks.insert((row, *li), ());
                }
            }
        }
    }
    fn poly<'a>(&self, rec: &'a Rec<F>, pi: usize) -> &'a Expression<F> {
        &rec.cs.gates()[self.polys[pi].gate].polynomials()[self.polys[pi].poly]
    }
    fn lookup_ok(&self, rec: &Rec<F>, li: usize, row: usize) -> bool {
        let v: Vec<F::K> = rec.cs.lookups()[li].input_expressions.iter().map(|e| rec.eval(e, row).key()).collect();
        self.tables[li].contains(&v)
    }
    /// values of `p` for which the polynomial vanishes, if it is linear or quadratic in it
    fn roots(&self, rec: &mut Rec<F>, pi: usize, row: usize, p: Pos) -> Vec<F> {
        let cls = self.class(p);
        let old: Vec<Option<F>> = cls.iter().map(|q| rec.advice[q.1][q.2]).collect();
        let mut at = |v: F| {
            for q in &cls {
                rec.advice[q.1][q.2] = Some(v);
            }
            rec.eval(self.poly(rec, pi), row)
        };
        let two = F::one() + F::one();
        let three = two + F::one();
        let (f0, f1, f2, f3) = (at(F::zero()), at(F::one()), at(two), at(three));
        for (q, v) in cls.iter().zip(old) {
            rec.advice[q.1][q.2] = v;
        }
        let d1 = f1 - f0;
        let d2 = f2 - f1;
        let d3 = f3 - f2;
        if d1 == d2 && d2 == d3 {
            return match Option::<F>::from(d1.invert()) {
                Some(i) => vec![-f0 * i],
                None => vec![],
            };
        }
        if d2 - d1 != d3 - d2 {
            return vec![];
        }
        // a v^2 + b v + c
        let c = f0;
        let half = two.invert().unwrap();
        let a = (d2 - d1) * half;
        let b = d1 - a;
        let disc = b.square() - a * c * (two + two);
        match Option::<F>::from(disc.sqrt()) {
            None => vec![],
            Some(s) => {
                let i = (a * two).invert().unwrap();
                vec![(s - b) * i, (-s - b) * i]
            }
        }
    }
    /// All violated polynomials of a row at once, if they are affine in as many variables.
    fn joint(&self, rec: &mut Rec<F>, row: usize, group: &[(usize, Vec<Pos>)]) -> Option<Vec<(Pos, F)>> {
        let m = group.len();
        let mut vars: Vec<(usize, Pos)> = vec![];
        for (_, c) in group {
            for (i, p) in c.iter().enumerate() {
                match vars.iter_mut().find(|v| self.rep(v.1) == self.rep(*p)) {
                    Some(v) => v.0 = v.0.min(i),
                    None => vars.push((i, *p)),
                }
            }
        }
        vars.sort();
        if vars.len() < m {
            return None;
        }
        let vars: Vec<Pos> = vars.into_iter().take(m).map(|v| v.1).collect();
        let classes: Vec<Vec<Pos>> = vars.iter().map(|v| self.class(*v)).collect();
        let old: Vec<Vec<Option<F>>> = classes.iter().map(|c| c.iter().map(|q| rec.advice[q.1][q.2]).collect()).collect();
        let put = |rec: &mut Rec<F>, x: &[F]| {
            for (c, v) in classes.iter().zip(x) {
                for q in c {
                    rec.advice[q.1][q.2] = Some(*v);
                }
            }
        };
        let evals = |rec: &Rec<F>| -> Vec<F> { group.iter().map(|(pi, _)| rec.eval(self.poly(rec, *pi), row)).collect() };
        let mut x = vec![F::zero(); m];
        put(rec, &x);
        let f0 = evals(rec);
        // columns of the matrix
        let mut a = vec![vec![F::zero(); m + 1]; m];
        for j in 0..m {
            x[j] = F::one();
            put(rec, &x);
            x[j] = F::zero();
            for (i, v) in evals(rec).into_iter().enumerate() {
                a[i][j] = v - f0[i];
            }
        }
        for i in 0..m {
            a[i][m] = -f0[i];
        }
        let mut sol = None;
        'solve: loop {
            for c in 0..m {
                let r = match (c..m).find(|r| !bool::from(a[*r][c].is_zero())) {
                    Some(r) => r,
                    None => break 'solve,
                };
                a.swap(c, r);
                let inv = a[c][c].invert().unwrap();
                for j in c..=m {
                    a[c][j] *= inv;
                }
                for r in 0..m {
                    if r != c && !bool::from(a[r][c].is_zero()) {
                        let f = a[r][c];
                        for j in c..=m {
                            let t = a[c][j] * f;
                            a[r][j] -= t;
                        }
                    }
                }
            }
            let x: Vec<F> = (0..m).map(|i| a[i][m]).collect();
            put(rec, &x);
            if evals(rec).iter().all(|v| bool::from(v.is_zero())) {
                sol = Some(vars.iter().copied().zip(x).collect());
            }
            break;
        }
        for (c, o) in classes.iter().zip(old) {
            for (q, v) in c.iter().zip(o) {
                rec.advice[q.1][q.2] = v;
            }
        }
        sol
    }
    /// Force `init`, then repair. `locked` variables (by representative) are never changed
    /// by the repair. `greedy`: repair the variable assigned last, else a random one.
    /// The recording is left in its final state: call `restore` afterwards.
    pub fn run(&self, rec: &mut Rec<F>, init: &[(Pos, F)], locked: &HashSet<Pos>, rng: &mut Rng, greedy: bool, steps: usize) -> Outcome {
        let mut changed = vec![false; rec.advice.len() * rec.n];
        let at = |p: Pos, n: usize| p.1 * n + p.2;
        let nn = rec.n;
        let mut count = 0;
        let mut touched = vec![];
        let origin = init.iter().map(|x| self.time_of(x.0)).min().unwrap_or(0);
        for (p, v) in init {
            assert!(self.mutable(*p));
            let i = at(self.rep(*p), nn);
            count += !changed[i] as usize;
            changed[i] = true;
            self.change(rec, *p, *v, &mut touched);
        }
        let mut polys = BTreeMap::new();
        let mut lks = BTreeMap::new();
        self.reading(rec, &touched, &mut polys, &mut lks);
        let mut violated: BTreeMap<(usize, usize), ()> = BTreeMap::new();
        let mut n = 0;
        loop {
            // lookups cannot be repaired
            while let Some(((row, li), ())) = lks.pop_first() {
                if !self.lookup_ok(rec, li, row) {
                    return Outcome::Stuck;
                }
            }
            // violated polynomials, by row; the row whose candidates were assigned first is
            // repaired first, so that a change flows forward
            let mut rows: BTreeMap<usize, (usize, Vec<(usize, Vec<Pos>)>)> = BTreeMap::new();
            while let Some((k, ())) = polys.pop_first() {
                if bool::from(rec.eval(self.poly(rec, k.1), k.0).is_zero()) {
                    violated.remove(&k);
                } else {
                    violated.insert(k, ());
                }
            }
            for ((row, pi), ()) in violated.iter() {
                let mut cand: Vec<(usize, Pos)> = vec![];
                for (c, rot) in &self.polys[*pi].cells {
                    let p = ('a', *c, (*row as i64 + *rot as i64).rem_euclid(rec.n as i64) as usize);
                    if p.2 >= rec.usable || !self.mutable(p) {
                        continue;
                    }
                    let rep = self.rep(p);
                    if changed[at(rep, nn)] || !locked.is_empty() && locked.contains(&rep) || cand.iter().any(|x| self.rep(x.1) == rep) {
                        continue;
                    }
                    cand.push((self.time_of(p), p));
                }
                if cand.is_empty() {
                    return Outcome::Stuck;
                }
                if greedy {
                    // later than the forced cells if possible, latest first
                    cand.sort_by(|a, b| b.cmp(a));
                    let (mut x, y): (Vec<_>, Vec<_>) = cand.into_iter().partition(|c| c.0 > origin);
                    x.extend(y);
                    cand = x;
                } else {
                    rng.shuffle(&mut cand);
                }
                let e = rows.entry(*row).or_insert((usize::MAX, vec![]));
                e.0 = e.0.min(cand[0].0);
                e.1.push((*pi, cand.into_iter().map(|c| c.1).collect()));
            }
            let (row, group) = match rows.into_iter().min_by_key(|x| (x.1 .0, x.0)) {
                None => return Outcome::Satisfied(count),
                Some((r, (_, g))) => (r, g),
            };
            n += 1;
            if n > steps {
                return Outcome::Stuck;
            }
            let mut fix: Option<Vec<(Pos, F)>> = None;
            if group.len() > 1 {
                fix = self.joint(rec, row, &group);
            }
            if fix.is_none() {
                // one polynomial, one variable
                for (pi, cand) in &group {
                    for p in cand {
                        let roots = self.roots(rec, *pi, row, *p);
                        if !roots.is_empty() {
                            fix = Some(vec![(*p, roots[rng.below(roots.len())])]);
                            break;
                        }
                    }
                    if fix.is_some() {
                        break;
                    }
                }
            }
            match fix {
                None => return Outcome::Stuck,
                Some(f) => {
                    let mut t = vec![];
                    for (p, v) in f {
                        let i = at(self.rep(p), nn);
                        count += !changed[i] as usize;
                        changed[i] = true;
                        self.change(rec, p, v, &mut t);
                    }
                    self.reading(rec, &t, &mut polys, &mut lks);
                }
            }
        }
    }
}
