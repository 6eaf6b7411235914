//! C09 completeness and C10 soundness of the proving system on random circuits.
use crate::gen::*;
use crate::sys::*;
use ff::{Field, PrimeField};
use group::{prime::PrimeCurveAffine, Curve, GroupEncoding};
use halo2_proofs::circuit::{floor_planner::V1, SimpleFloorPlanner};
use halo2_proofs::plonk::*;
use kit::*;
use serde_json::json;
use std::collections::HashMap;
use std::rc::Rc;

pub const SHAPE: Shape = Shape {
    max_deg: 6,
    max_regions: 4,
    max_height: 5,
    phases: true,
    lookups: true,
    sparse: false,
};

/// what a random circuit contains, for the record of what was observed
pub fn count_shape<F: Fl>(ctx: &Ctx, s: &Spec<F>) {
    ctx.count(&format!("phases_{}", s.phases.iter().max().unwrap() + 1));
    if !s.chal.is_empty() {
        ctx.count("with_challenges");
    }
    for l in &s.lookups {
        match (&l.table, l.rlc) {
            (TableKind::Fixed(_), None) => ctx.count("lookup_fixed"),
            (TableKind::Fixed(_), Some(_)) => ctx.count("lookup_fixed_rlc"),
            (TableKind::Advice(..), _) => ctx.count("lookup_advice"),
        }
    }
    for g in &s.gates {
        match g.guard {
            Guard::Sel(i) if s.sels[i] => ctx.count("gate_simple_selector"),
            Guard::Sel(_) => ctx.count("gate_complex_selector"),
            Guard::Fix(_) => ctx.count("gate_fixed_guard"),
        }
    }
    for r in &s.regions {
        for c in r.cells.values() {
            match c {
                Src::CopyOf(_) => ctx.count("cell_copy"),
                Src::CopyFixed(..) => ctx.count("cell_copy_fixed"),
                Src::Const(_) => ctx.count("cell_constant"),
                Src::Inst(_) => ctx.count("cell_instance"),
                Src::Gate(..) => ctx.count("cell_gate_output"),
                Src::Look(..) => ctx.count("cell_lookup_input"),
                _ => {}
            }
        }
        ctx.add("cell_exposed", r.expose.len() as u64);
    }
}

pub struct Made<F: Fl, P> {
    pub spec: Rc<Spec<F>>,
    pub k: u32,
    pub starts: Vec<usize>,
    pub _p: std::marker::PhantomData<P>,
}

/// a random circuit that fits, and whose honest witness the independent evaluator accepts
pub fn make<F: Fl, P: FloorPlanner>(rng: &mut Rng, sh: Shape, kmax: u32) -> Option<Made<F, P>> {
    for _ in 0..20 {
        let spec = Rc::new(Spec::<F>::random(rng, sh));
        if !spec.has_work() {
            continue;
        }
        if let Some((k, _)) = layout::<F, P>(&spec, 4, kmax) {
            let k = (k + if rng.chance(1, 4) { 1 } else { 0 }).min(kmax);
            let (k, starts) = layout::<F, P>(&spec, k, kmax)?;
            return Some(Made {
                spec,
                k,
                starts,
                _p: Default::default(),
            });
        }
    }
    None
}

pub fn honest<F: Fl, P: FloorPlanner>(m: &Made<F, P>, wseed: u64) -> GenC<F, P> {
    let w = witness(&m.spec, m.k, &m.starts, wseed);
    GenC::new(&m.spec, Some(w))
}
pub fn inst_of<F: Fl, P>(c: &GenC<F, P>) -> Vec<Vec<F>> {
    c.wit.as_ref().unwrap().inst.clone()
}
pub fn recorded<F: Fl, P: FloorPlanner>(m: &Made<F, P>, c: &GenC<F, P>, inst: &[Vec<F>], salt: u64) -> Result<zkit::Rec<F>, Error> {
    zkit::record(m.k, c, inst, |i| F::random(&mut Rng::new(salt, "challenge", i as u64)), None)
}

fn case_desc<F: Fl, P>(m: &Made<F, P>, sys: &str, tr: usize) -> String {
    format!(
        "{} {} k={} v1={} spec={:?}",
        sys,
        TRANSCRIPTS[tr],
        m.k,
        std::any::type_name::<P>().ends_with("V1"),
        m.spec
    )
}

fn c09_case<S: Sys, P: FloorPlanner>(ctx: &Ctx, i: usize, rng: &mut Rng)
where
    S::P: 'static,
{
    let sh = if rng.chance(1, 4) {
        ctx.count("sparse");
        Shape {
            sparse: true,
            lookups: rng.chance(1, 4),
            max_deg: rng.range(2, 6),
            ..SHAPE
        }
    } else {
        SHAPE
    };
    let m = match make::<S::F, P>(rng, sh, 7) {
        Some(m) => m,
        None => return ctx.count("no_circuit"),
    };
    let tr = rng.below(3);
    let np = *rng.pick(&[1, 1, 2, 3]);
    let cs: Vec<GenC<S::F, P>> = (0..np).map(|_| honest(&m, rng.u64())).collect();
    let inst: Vec<Vec<Vec<S::F>>> = cs.iter().map(inst_of).collect();
    for (c, ins) in cs.iter().zip(&inst) {
        let rec = recorded(&m, c, ins, rng.u64()).expect("honest circuit records");
        assert!(rec.satisfied(), "generator produced an unsatisfied circuit: {:?} {:?}", rec.violations(), m.spec);
    }
    count_shape(ctx, &m.spec);
    ctx.count(&format!("{}_{}", S::NAME, TRANSCRIPTS[tr]));
    ctx.eval(Some(hash_bytes(format!("{:?}{}", m.spec, np).as_bytes())));
    if i < 4 {
        ctx.sample(json!({"sys": S::NAME, "k": m.k, "proofs": np, "gates": m.spec.gates.len(), "lookups": m.spec.lookups.len(), "advice": m.spec.phases.len()}));
    }
    let p = S::params(m.k);
    let pk = match guard(|| S::keygen(&p, &cs[0])) {
        Out::Ok(Ok(pk)) => pk,
        Out::Ok(Err(e)) => return ctx.violation("keygen failed", format!("{:?} {}", e, case_desc(&m, S::NAME, tr))),
        Out::Panic(e) => return ctx.violation("keygen panicked", format!("{} {}", e, case_desc(&m, S::NAME, tr))),
    };
    // keys do not depend on the witness
    let empty = GenC::<S::F, P>::new(&m.spec, None);
    let vk2 = S::keygen_vk(&p, &empty);
    ctx.check(
        matches!(&vk2, Ok(v) if format!("{:?}", v.pinned()) == format!("{:?}", pk.get_vk().pinned())),
        "verifying key depends on the witness",
        || case_desc(&m, S::NAME, tr),
    );
    let mut proofs = vec![];
    for _ in 0..2 {
        let proof = match guard(|| S::prove(&p, &pk, &cs, &inst, tr, rng)) {
            Out::Ok(Ok(x)) => x,
            Out::Ok(Err(e)) => {
                return ctx.violation(&format!("proof creation failed: {:?}", e), case_desc(&m, S::NAME, tr))
            }
            Out::Panic(e) => return ctx.violation("proof creation panicked", format!("{} {}", e, case_desc(&m, S::NAME, tr))),
        };
        proofs.push(proof);
        if i % 4 != 0 {
            break;
        }
    }
    let items: Vec<Item<S::C>> = proofs
        .iter()
        .map(|pr| Item {
            vk: pk.get_vk(),
            inst: &inst,
            proof: pr,
        })
        .collect();
    for it in &items {
        let r = guard(|| S::verify(&p, it, tr));
        ctx.check(matches!(r, Out::Ok(true)), "honest proof refused (single)", || case_desc(&m, S::NAME, tr));
        ctx.count("single");
    }
    let r = guard(|| S::verify_acc(&p, &items, tr));
    ctx.check(matches!(r, Out::Ok(true)), "honest proofs refused (accumulating)", || case_desc(&m, S::NAME, tr));
    ctx.count(if items.len() > 1 { "accumulated_many" } else { "accumulated_one" });
    if tr == 0 {
        if let Out::Ok(Some(ok)) = guard(|| S::verify_batch(&p, pk.get_vk(), &items)) {
            ctx.check(ok, "honest proofs refused (batch)", || case_desc(&m, S::NAME, tr));
            ctx.count("batch");
        } else if S::NAME.starts_with("ipa") {
            ctx.violation("batch verification panicked", case_desc(&m, S::NAME, tr));
        }
    }
    // the verifying key read back by itself serves as well (checked in depth by C12)
    ctx.add("proofs", proofs.len() as u64 * np as u64);
}

macro_rules! spread {
    ($f:ident, $ctx:expr, $i:expr, $rng:expr) => {{
        use crate::sys::*;
        match ($i % 8) {
            0 => $f::<Shplonk, SimpleFloorPlanner>($ctx, $i, $rng),
            1 => $f::<Gwc, SimpleFloorPlanner>($ctx, $i, $rng),
            2 => $f::<IpaEq, SimpleFloorPlanner>($ctx, $i, $rng),
            3 => $f::<IpaEp, SimpleFloorPlanner>($ctx, $i, $rng),
            4 => $f::<Shplonk, V1>($ctx, $i, $rng),
            5 => $f::<Gwc, V1>($ctx, $i, $rng),
            6 => $f::<IpaEq, V1>($ctx, $i, $rng),
            _ => $f::<IpaEp, V1>($ctx, $i, $rng),
        }
    }};
}
pub(crate) use spread;

pub fn c09(ctx: Ctx) {
    ctx.rule("random circuits (gates of degree 2..6 under simple/complex/fixed guards, rotations -2..3, fixed/advice/challenge-combined lookups, copies, constants, instance copies and queries, 1..3 phases) x KZG-SHPLONK, KZG-GWC, IPA on both pasta curves x three transcripts x 1..3 circuits per proof x single/accumulating/batch verification; the circuit's satisfaction is established by an independent evaluator; non-trivial = distinct circuits");
    ctx.assume("circuits up to k = 7 and degree about 8; random, not enumerated");
    ctx.set_budget(45, 600);
    ctx.cases("c09", 64, ctx.n(400, 8000), |i, rng| spread!(c09_case, &ctx, i, rng));
    ctx.cases("web", 40, ctx.n(120, 2000), |i, rng| match i % 2 {
        0 => crate::web::proof_case::<crate::sys::Shplonk>(&ctx, true, rng),
        _ => crate::web::proof_case::<crate::sys::Gwc>(&ctx, true, rng),
    });
    ctx.finish(&[("proofs", 64), ("batch", 2), ("with_challenges", 5), ("lookup_fixed", 5), ("lookup_advice", 3), ("cell_copy", 20), ("accumulated_many", 4)])
}

/// one altered witness: which cells, to what
pub fn pick_fault<F: Fl>(rng: &mut Rng, s: &Spec<F>) -> Option<CellId> {
    let all: Vec<CellId> = s
        .regions
        .iter()
        .enumerate()
        .flat_map(|(ri, r)| r.cells.iter().filter(|(_, s)| !matches!(s, Src::Free(_)) ).map(move |((c, o), _)| (ri, *c, *o)))
        .collect();
    let any: Vec<CellId> = s
        .regions
        .iter()
        .enumerate()
        .flat_map(|(ri, r)| r.cells.keys().map(move |(c, o)| (ri, *c, *o)))
        .collect();
    if any.is_empty() {
        return None;
    }
    if !all.is_empty() && rng.chance(4, 5) {
        Some(*rng.pick(&all))
    } else {
        Some(*rng.pick(&any))
    }
}

/// everything a challenge must be bound to was absorbed before it was drawn
fn order<F: Fl>(ctx: &Ctx, cs: &ConstraintSystem<F>, h: usize, np: usize, ev: &[Ev], desc: &dyn Fn() -> String) {
    let mut pts = 0;
    let mut sc = 0;
    let mut seen: Vec<(usize, usize)> = vec![];
    for e in ev {
        match e {
            Ev::Point => pts += 1,
            Ev::Scalar => sc += 1,
            Ev::Chal(_) => seen.push((pts, sc)),
            Ev::Common => {}
        }
    }
    let adv = cs.advice_column_phase();
    let mut chal = cs.challenge_phase();
    chal.sort();
    let perm = cs.permutation().get_columns().len();
    let sets = if perm == 0 { 0 } else { (perm + cs.degree() - 3) / (cs.degree() - 2) };
    let lk = cs.lookups().len();
    let mut need: Vec<(&str, usize, usize)> = chal.iter().map(|p| ("phase", np * adv.iter().filter(|a| *a <= p).count(), 0)).collect();
    let a = np * adv.len();
    need.push(("theta", a, 0));
    let a = a + 2 * np * lk;
    need.push(("beta", a, 0));
    need.push(("gamma", a, 0));
    let a = a + np * (sets + lk) + 1;
    need.push(("y", a, 0));
    let a = a + h;
    need.push(("x", a, 0));
    need.push(("opening", a, np * cs.advice_queries().len() + cs.fixed_queries().len() + perm + 1));
    for (j, (name, p, s)) in need.iter().enumerate() {
        ctx.count("challenge_orders");
        let got = seen.get(j).copied().unwrap_or((0, 0));
        ctx.check(got.0 >= *p && got.1 >= *s, &format!("challenge {} is drawn too early", name), || {
            format!("after {} points and {} scalars, expected {} and {}; {}", got.0, got.1, p, s, desc())
        });
    }
}

fn c10_case<S: Sys, P: FloorPlanner>(ctx: &Ctx, i: usize, rng: &mut Rng)
where
    S::P: 'static,
{
    let m = match make::<S::F, P>(rng, SHAPE, 6) {
        Some(m) => m,
        None => return ctx.count("no_circuit"),
    };
    let tr = rng.below(3);
    let p = S::params(m.k);
    let c0 = honest(&m, rng.u64());
    let inst0 = inst_of(&c0);
    let rec = recorded(&m, &c0, &inst0, rng.u64()).expect("honest circuit records");
    assert!(rec.satisfied(), "generator produced an unsatisfied circuit");
    let pk = match guard(|| S::keygen(&p, &c0)) {
        Out::Ok(Ok(pk)) => pk,
        _ => return ctx.count("keygen_refused"),
    };
    let vk = pk.get_vk();
    let good = match guard(|| S::prove(&p, &pk, &[c0.clone()], &[inst0.clone()], tr, rng)) {
        Out::Ok(Ok(x)) => x,
        _ => return ctx.count("prove_refused"),
    };
    let insts = vec![inst0.clone()];
    let ok = |inst: &[Vec<Vec<S::F>>], proof: &[u8]| -> bool {
        matches!(guard(|| S::verify(&p, &Item { vk, inst, proof }, tr)), Out::Ok(true))
    };
    if !ok(&insts, &good) {
        return ctx.count("honest_refused");
    }
    ctx.eval(Some(hash_bytes(format!("{:?}", m.spec).as_bytes())));
    if i < 4 {
        ctx.sample(json!({"sys": S::NAME, "k": m.k, "proof_elements": good.len() / 32}));
    }
    let mut bad_proofs: Vec<(Vec<Vec<Vec<S::F>>>, Vec<u8>)> = vec![];
    // (a) false witnesses
    for _ in 0..5 {
        let mut f: HashMap<CellId, S::F> = HashMap::new();
        for _ in 0..*rng.pick(&[1, 1, 1, 2]) {
            if let Some(id) = pick_fault(rng, &m.spec) {
                let v = match rng.below(3) {
                    0 => S::F::from(rng.below(3) as u64),
                    _ => crate::math::scalar(rng),
                };
                f.insert(id, v);
            }
        }
        let mut c = c0.clone();
        c.faults = Rc::new(f);
        c.follow = rng.bool();
        let mut inst = inst0.clone();
        if rng.chance(1, 5) && inst.iter().any(|x| !x.is_empty()) {
            // a false public input, proved as such
            let cols: Vec<usize> = (0..inst.len()).filter(|x| !inst[*x].is_empty()).collect();
            let ci = *rng.pick(&cols);
            let ri = rng.below(inst[ci].len());
            inst[ci][ri] += S::F::from(1 + rng.below(3) as u64);
            c.faults = Default::default();
            // keep the witness of the original statement
        }
        let rec = match recorded(&m, &c, &inst, rng.u64()) {
            Ok(r) => r,
            Err(_) => continue,
        };
        let viol = rec.violations();
        let proof = match guard(|| S::prove(&p, &pk, &[c.clone()], &[inst.clone()], tr, rng)) {
            Out::Ok(Ok(x)) => x,
            _ => {
                ctx.count(if viol.is_empty() { "prover_error_on_true" } else { "prover_refused" });
                if viol.is_empty() {
                    ctx.count("unproved_true");
                }
                continue;
            }
        };
        let accepted = ok(&[inst.clone()], &proof);
        if viol.is_empty() {
            ctx.count("fault_harmless");
            continue;
        }
        for v in &viol {
            ctx.count(match v {
                zkit::Viol::Gate(..) => "false_gate",
                zkit::Viol::Lookup(..) => "false_lookup",
                zkit::Viol::Copy(..) => "false_copy",
            });
        }
        let classes: std::collections::BTreeSet<&str> = viol
            .iter()
            .map(|v| match v {
                zkit::Viol::Gate(..) => "gate",
                zkit::Viol::Lookup(..) => "lookup",
                zkit::Viol::Copy(..) => "copy",
            })
            .collect();
        if classes.len() == 1 {
            ctx.count(&format!("only_{}", classes.iter().next().unwrap()));
        }
        ctx.check(!accepted, &format!("false witness accepted ({:?})", classes), || {
            format!("violations {:?}; {}", viol, case_desc(&m, S::NAME, tr))
        });
        if bad_proofs.len() < 2 {
            bad_proofs.push((vec![inst], proof));
        }
    }
    // a prover that also bends the arguments
    #[cfg(verif_hooks)]
    crate::cheat::cheat::<S, P>(ctx, &m, rng, &p, &pk, &c0, &inst0, tr);
    // (b) other public inputs for a good proof
    let padded = |x: &[Vec<S::F>]| -> Vec<Vec<S::F>> {
        x.iter()
            .map(|c| {
                let mut c = c.clone();
                while c.last().map_or(false, |v| bool::from(v.is_zero())) {
                    c.pop();
                }
                c
            })
            .collect()
    };
    for _ in 0..6 {
        let mut inst = inst0.clone();
        if inst.is_empty() {
            break;
        }
        let ci = rng.below(inst.len());
        match rng.below(5) {
            0 if !inst[ci].is_empty() => {
                let r = rng.below(inst[ci].len());
                inst[ci][r] += S::F::one();
            }
            1 => inst[ci].push(S::F::from(1 + rng.below(9) as u64)),
            2 if inst[ci].len() > 1 => {
                let a = rng.below(inst[ci].len());
                let b = rng.below(inst[ci].len());
                inst[ci].swap(a, b);
            }
            3 => {
                inst[ci].pop();
            }
            _ if inst.len() > 1 => inst.swap(0, 1),
            _ => {}
        }
        if padded(&inst) == padded(&inst0) {
            continue;
        }
        ctx.count("instance_changed");
        ctx.check(!ok(&[inst.clone()], &good), "proof accepted for another public input", || {
            format!("{:?} instead of {:?} {}", inst, inst0, case_desc(&m, S::NAME, tr))
        });
    }
    // what the challenges depend on
    let (traced, ev) = S::trace(&p, &Item { vk, inst: &insts, proof: &good }, tr);
    ctx.check(traced, "honest proof refused when traced", || case_desc(&m, S::NAME, tr));
    order(ctx, vk.cs(), vk.get_domain().get_quotient_poly_degree(), 1, &ev, &|| case_desc(&m, S::NAME, tr));
    let chals = |ev: &[Ev]| -> Vec<String> { ev.iter().filter_map(|e| if let Ev::Chal(c) = e { Some(c.clone()) } else { None }).collect() };
    for ci in 0..inst0.len() {
        let mut rows: Vec<usize> = (0..inst0[ci].len()).collect();
        rng.shuffle(&mut rows);
        for r in rows.into_iter().take(if ctx.thorough() { 8 } else { 2 }) {
            let mut inst = inst0.clone();
            inst[ci][r] += S::F::from(1 + rng.u64() % 1000);
            if let Out::Ok((ok2, ev2)) = guard(|| S::trace(&p, &Item { vk, inst: &[inst.clone()], proof: &good }, tr)) {
                ctx.count("challenges_rebound");
                let kept = chals(&ev).iter().zip(chals(&ev2)).filter(|(a, b)| *a == b).count();
                ctx.check(!ok2 && kept == 0, "challenges do not depend on a public input", || {
                    format!("column {} row {}: {} of {} kept; {}", ci, r, kept, chals(&ev).len(), case_desc(&m, S::NAME, tr))
                });
            }
        }
    }
    // wrong number of instance columns or circuits
    if !inst0.is_empty() {
        let mut fewer = inst0.clone();
        fewer.pop();
        ctx.check(!ok(&[fewer], &good), "proof accepted with a missing instance column", || case_desc(&m, S::NAME, tr));
        ctx.check(!ok(&[inst0.clone(), inst0.clone()], &good), "proof accepted for two circuits", || case_desc(&m, S::NAME, tr));
    }
    // (c) every element of the proof
    let n_el = good.len() / 32;
    let mut els: Vec<usize> = (0..n_el).collect();
    rng.shuffle(&mut els);
    for e in els.into_iter().take(if ctx.thorough() { n_el } else { 14 }) {
        let mut b = good.clone();
        let r = e * 32..e * 32 + 32;
        let kind = rng.below(6);
        match kind {
            0 => b[e * 32 + 31] ^= 0x40 << rng.below(2),
            1 => b[e * 32] ^= 1,
            2 => {
                let bit = rng.below(256);
                b[e * 32 + bit / 8] ^= 1 << (bit % 8);
            }
            3 => {
                let o = rng.below(n_el);
                let src = good[o * 32..o * 32 + 32].to_vec();
                b[r.clone()].copy_from_slice(&src);
            }
            4 => {
                // a valid scalar/point from elsewhere: zero scalar
                for x in &mut b[r.clone()] {
                    *x = 0;
                }
            }
            _ => {
                // little-endian plus one: for a scalar the next scalar
                for x in &mut b[r.clone()] {
                    let (y, c) = x.overflowing_add(1);
                    *x = y;
                    if !c {
                        break;
                    }
                }
            }
        }
        if b == good {
            continue;
        }
        ctx.count("proof_element_changed");
        ctx.check(!ok(&insts, &b), "altered proof accepted", || {
            format!("element {} of {} kind {} {}", e, n_el, kind, case_desc(&m, S::NAME, tr))
        });
    }
    for _ in 0..3 {
        let cut = rng.below(good.len());
        ctx.count("proof_truncated");
        ctx.check(!ok(&insts, &good[..cut]), "truncated proof accepted", || format!("{} of {} {}", cut, good.len(), case_desc(&m, S::NAME, tr)));
    }
    // the proof under another transcript
    let other = (tr + 1 + rng.below(2)) % 3;
    ctx.check(
        !matches!(guard(|| S::verify(&p, &Item { vk, inst: &insts, proof: &good }, other)), Out::Ok(true)),
        "proof accepted under another transcript",
        || case_desc(&m, S::NAME, tr),
    );
    // (d) another circuit's key
    {
        let mut s2 = (*m.spec).clone();
        let mut changed = false;
        match rng.below(4) {
            0 => {
                for r in s2.regions.iter_mut() {
                    if let Some(v) = r.fixed.values_mut().next() {
                        *v += S::F::one();
                        changed = true;
                        break;
                    }
                }
            }
            1 => {
                for r in s2.regions.iter_mut() {
                    if let Some(q) = r.sels.iter().next().copied() {
                        r.sels.remove(&q);
                        changed = true;
                        break;
                    }
                }
            }
            2 => {
                for r in s2.regions.iter_mut() {
                    for c in r.cells.values_mut() {
                        if let Src::CopyOf(_) = c {
                            *c = Src::Free(0);
                            changed = true;
                            break;
                        }
                    }
                }
            }
            _ => {
                if let Some(t) = s2.tables.first_mut() {
                    let n = t.rows.len();
                    t.rows[n - 1][0] += S::F::one();
                    changed = true;
                }
            }
        }
        if changed {
            let s2 = Rc::new(s2);
            set_spec(&s2);
            let e2 = GenC::<S::F, P>::new(&s2, None);
            if let Out::Ok(Ok(vk2)) = guard(|| S::keygen_vk(&p, &e2)) {
                if format!("{:?}", vk2.pinned()) != format!("{:?}", vk.pinned()) {
                    ctx.count("other_key");
                    if let Out::Ok((_, ev2)) = guard(|| S::trace(&p, &Item { vk: &vk2, inst: &insts, proof: &good }, tr)) {
                        let kept = chals(&ev).iter().zip(chals(&ev2)).filter(|(a, b)| *a == b).count();
                        ctx.check(kept == 0, "challenges do not depend on the verifying key", || {
                            format!("{} kept; {}", kept, case_desc(&m, S::NAME, tr))
                        });
                    }
                    ctx.check(
                        !matches!(guard(|| S::verify(&p, &Item { vk: &vk2, inst: &insts, proof: &good }, tr)), Out::Ok(true)),
                        "proof accepted under another verifying key",
                        || case_desc(&m, S::NAME, tr),
                    );
                }
            }
            set_spec(&m.spec);
        }
    }
    // (e) mixed batches
    for (binst, bproof) in &bad_proofs {
        let good_it = || Item { vk, inst: &insts, proof: &good };
        let bad_it = || Item { vk, inst: binst, proof: bproof };
        let mixes: Vec<Vec<Item<S::C>>> = vec![
            vec![bad_it(), good_it()],
            vec![good_it(), bad_it()],
            vec![good_it(), bad_it(), good_it()],
            vec![bad_it(), bad_it()],
            vec![bad_it()],
        ];
        for mix in mixes {
            ctx.count("mixed_accumulations");
            ctx.check(!matches!(guard(|| S::verify_acc(&p, &mix, tr)), Out::Ok(true)), "accumulation with a bad proof accepted", || {
                case_desc(&m, S::NAME, tr)
            });
            if tr == 0 {
                if let Out::Ok(Some(v)) = guard(|| S::verify_batch(&p, vk, &mix)) {
                    ctx.count("mixed_batches");
                    ctx.check(!v, "batch with a bad proof accepted", || case_desc(&m, S::NAME, tr));
                }
            }
        }
    }
    // (f) two bad proofs whose errors cancel unless they are scaled apart
    let n = good.len() - 32;
    let shift = |neg: bool, d: u64| -> Option<Vec<u8>> {
        let mut b = good.clone();
        if S::NAME.starts_with("kzg") {
            let mut r = <S::C as GroupEncoding>::Repr::default();
            r.as_mut().copy_from_slice(&good[n..]);
            let w = Option::<S::C>::from(S::C::from_bytes(&r))?;
            let e = S::C::generator() * S::F::from(d);
            let w = if neg { w.to_curve() - e } else { w.to_curve() + e };
            b[n..].copy_from_slice(w.to_affine().to_bytes().as_ref());
        } else {
            let mut r = <S::F as PrimeField>::Repr::default();
            r.as_mut().copy_from_slice(&good[n..]);
            let w = Option::<S::F>::from(S::F::from_repr(r))?;
            let e = S::F::from(d);
            b[n..].copy_from_slice((if neg { w - e } else { w + e }).to_repr().as_ref());
        }
        Some(b)
    };
    let d = 1 + rng.below(1000) as u64;
    if let (Some(a), Some(b)) = (shift(false, d), shift(true, d)) {
        let ia = || Item { vk, inst: &insts, proof: &a };
        let ib = || Item { vk, inst: &insts, proof: &b };
        let ig = || Item { vk, inst: &insts, proof: &good };
        for mix in [vec![ia(), ib()], vec![ia(), ig(), ib()], vec![ig(), ib(), ia()]] {
            ctx.count("cancelling_accumulations");
            ctx.check(!matches!(guard(|| S::verify_acc(&p, &mix, tr)), Out::Ok(true)), "accumulation of two bad proofs accepted", || case_desc(&m, S::NAME, tr));
            if tr == 0 {
                if let Out::Ok(Some(v)) = guard(|| S::verify_batch(&p, vk, &mix)) {
                    ctx.count("cancelling_batches");
                    ctx.check(!v, "batch of two bad proofs accepted", || case_desc(&m, S::NAME, tr));
                }
            }
        }
    }
}

pub fn c10(ctx: Ctx) {
    ctx.rule("random circuits as in C09; for each: witnesses made false in one or two cells (dependents recomputed or not) or in the public input, labelled by the independent evaluator, proved with the real prover and offered to the verifier; a good proof with changed public inputs, changed/zeroed/replaced proof elements, truncations, another transcript, another verifying key; accumulations and batches mixing good and bad proofs; non-trivial = distinct circuits");
    ctx.assume("forgeries are those reached by running the prover on false witnesses, by overwriting its permutation and lookup columns (cheat_* classes, through the guarded hooks) and by editing good proofs; an arbitrary adversary is not modelled");
    ctx.set_budget(50, 700);
    ctx.cases("web", 150, ctx.n(300, 4000), |i, rng| match i % 2 {
        0 => crate::web::proof_case::<crate::sys::Shplonk>(&ctx, false, rng),
        _ => crate::web::proof_case::<crate::sys::Gwc>(&ctx, false, rng),
    });
    ctx.cases("c10", 64, ctx.n(300, 6000), |i, rng| spread!(c10_case, &ctx, i, rng));
    ctx.finish(&[("false_gate", 10), ("false_lookup", 0), ("false_copy", 10), ("proof_element_changed", 300), ("instance_changed", 30), ("other_key", 10), ("mixed_accumulations", 30), ("challenge_orders", 300), ("challenges_rebound", 20)])
}
