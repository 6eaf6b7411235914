//! A cheating prover for C10: false witnesses whose permuted columns or grand products
//! are altered so that all rules of the argument but one hold.
use crate::gen::*;
use crate::proof::*;
use crate::sys::*;
use ff::{Field, PrimeField};
use halo2_proofs::plonk::*;
use halo2_proofs::verif_hooks as vh;
use kit::*;
use std::any::Any as StdAny;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

/// the handler is removed even if the prover panics
struct Hooked;
impl Hooked {
    fn set(f: impl FnMut(&mut dyn StdAny) + 'static) -> Hooked {
        vh::set(Some(Box::new(f)));
        Hooked
    }
}
impl Drop for Hooked {
    fn drop(&mut self) {
        vh::set(None)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Z {
    Plain,
    /// everything scaled so that the product ends in one
    Start,
    /// zero everywhere
    Zero,
    /// scaled after a row so that the product ends in one
    Step(usize),
    /// zero after a row
    Drop(usize),
}
fn bend<F: Fl>(z: &mut [F], last: usize, how: Z, factor: F) {
    match how {
        Z::Plain => {}
        Z::Start => z.iter_mut().for_each(|x| *x *= factor),
        Z::Zero => z.iter_mut().for_each(|x| *x = F::zero()),
        Z::Step(j) => z[j % last + 1..].iter_mut().for_each(|x| *x *= factor),
        Z::Drop(j) => z[j % last + 1..].iter_mut().for_each(|x| *x = F::zero()),
    }
}

/// a witness (and public inputs) that breaks only what `want` accepts
fn falsify<F: Fl, P: FloorPlanner>(m: &Made<F, P>, rng: &mut Rng, c0: &GenC<F, P>, inst0: &[Vec<F>], want: impl Fn(&zkit::Viol) -> bool) -> Option<(GenC<F, P>, Vec<Vec<F>>)> {
    for _ in 0..10 {
        let mut c = c0.clone();
        let mut inst = inst0.to_vec();
        let id = pick_fault(rng, &m.spec)?;
        let mut f = HashMap::new();
        f.insert(id, crate::math::scalar(rng));
        c.faults = Rc::new(f);
        c.follow = rng.bool();
        if rng.chance(1, 4) {
            let cols: Vec<usize> = (0..inst.len()).filter(|x| !inst[*x].is_empty()).collect();
            if !cols.is_empty() {
                c.faults = Default::default();
                let ci = *rng.pick(&cols);
                let ri = rng.below(inst[ci].len());
                inst[ci][ri] += F::from(1 + rng.below(3) as u64);
            }
        }
        let rec = match recorded(m, &c, &inst, rng.u64()) {
            Ok(r) => r,
            Err(_) => continue,
        };
        let v = rec.violations();
        if !v.is_empty() && v.iter().all(&want) {
            return Some((c, inst));
        }
    }
    None
}

pub fn cheat<S: Sys, P: FloorPlanner>(ctx: &Ctx, m: &Made<S::F, P>, rng: &mut Rng, p: &S::P, pk: &ProvingKey<S::C>, c0: &GenC<S::F, P>, inst0: &[Vec<S::F>], tr: usize) {
    let desc = |what: &str| format!("{} {} {} k={} spec={:?}", what, S::NAME, TRANSCRIPTS[tr], m.k, m.spec);
    let verdict = |inst: &Vec<Vec<S::F>>, proof: &[u8]| {
        let insts = vec![inst.clone()];
        matches!(guard(|| S::verify(p, &Item { vk: pk.get_vk(), inst: &insts, proof }, tr)), Out::Ok(true))
    };
    // copies
    if let Some((c, inst)) = falsify(m, rng, c0, inst0, |v| matches!(v, zkit::Viol::Copy(..))) {
        let pseed = rng.u64();
        let run = |f: Box<dyn FnMut(&mut vh::PermutationProduct<S::F>)>| {
            let mut f = f;
            let _h = Hooked::set(move |x: &mut dyn StdAny| {
                if let Some(z) = x.downcast_mut::<vh::PermutationProduct<S::F>>() {
                    f(z)
                }
            });
            guard(|| S::prove(p, pk, &[c.clone()], &[inst.clone()], tr, &mut Rng::new(pseed, "cheat", 0)))
        };
        let seen: Rc<RefCell<(usize, S::F)>> = Rc::new(RefCell::new((0, S::F::zero())));
        let s2 = seen.clone();
        let _ = run(Box::new(move |z| *s2.borrow_mut() = (z.sets, z.z[z.last])));
        let (sets, end) = *seen.borrow();
        if sets == 0 || bool::from(end.is_zero()) {
            ctx.count("cheat_no_permutation");
        } else {
            let factor = end.invert().unwrap();
            let mut plans: Vec<(usize, Z)> = vec![(0, Z::Start), (0, Z::Zero)];
            let s = rng.below(sets);
            plans.push((s, Z::Step(rng.below(64))));
            plans.push((s, Z::Drop(rng.below(64))));
            plans.push((sets - 1, Z::Step(0)));
            plans.push((0, Z::Step(usize::MAX - 1)));
            if sets > 1 {
                let s = rng.range(1, sets - 1);
                plans.push((s, Z::Start));
                plans.push((s, Z::Zero));
            }
            for (set, how) in plans {
                let done = Rc::new(RefCell::new(S::F::zero()));
                let d2 = done.clone();
                let out = run(Box::new(move |z| {
                    if z.set == set {
                        let how = match how {
                            Z::Step(j) if j == usize::MAX - 1 => Z::Step(z.last - 1),
                            h => h,
                        };
                        bend(&mut z.z, z.last, how, factor);
                    }
                    *d2.borrow_mut() = z.z[z.last];
                }));
                let proof = match out {
                    Out::Ok(Ok(x)) => x,
                    _ => {
                        ctx.count("cheat_prover_refused");
                        continue;
                    }
                };
                let e = *done.borrow();
                // the product should now end as the rule for the last row wants
                if !(e == S::F::one() || bool::from(e.is_zero())) {
                    ctx.count("cheat_not_closing");
                }
                let class = match (set, how) {
                    (0, Z::Start) | (0, Z::Zero) => "perm_first_row",
                    (_, Z::Start) | (_, Z::Zero) => "perm_link",
                    _ => "perm_step",
                };
                ctx.count(&format!("cheat_{}", class));
                ctx.check(!verdict(&inst, &proof), &format!("cheating grand product accepted ({})", class), || desc(&format!("set {} {:?}", set, how)));
            }
        }
    }
    // lookups
    if m.spec.lookups.is_empty() {
        return;
    }
    if let Some((c, inst)) = falsify(m, rng, c0, inst0, |v| matches!(v, zkit::Viol::Lookup(..))) {
        for kind in 0..7usize {
            let j = rng.below(1 << 20);
            let (calls, target, ok) = (Rc::new(RefCell::new((0usize, 0usize))), Rc::new(RefCell::new(None::<usize>)), Rc::new(RefCell::new(true)));
            let (ca, ta, oa) = (calls.clone(), target.clone(), ok.clone());
            let h = Hooked::set(move |x: &mut dyn StdAny| {
                if let Some(l) = x.downcast_mut::<vh::LookupPermuted<S::F>>() {
                    let idx = ca.borrow().0;
                    ca.borrow_mut().0 += 1;
                    if l.permuted.is_some() {
                        return;
                    }
                    if ta.borrow().is_some() {
                        // two lookups broken: let the prover refuse
                        *oa.borrow_mut() = false;
                        return;
                    }
                    *ta.borrow_mut() = Some(idx);
                    let n = l.input.len();
                    let u = l.usable_rows;
                    let mut a: Vec<S::F> = l.input[..u].to_vec();
                    a.sort();
                    let key = |x: &S::F| x.to_repr().as_ref().to_vec();
                    let mut s;
                    if kind < 5 {
                        s = a.clone();
                        a.resize(n, S::F::from(5));
                        s.resize(n, S::F::from(6));
                    } else {
                        let table: HashSet<Vec<u8>> = l.table[..u].iter().map(key).collect();
                        let (mut good, mut bad): (Vec<S::F>, Vec<S::F>) = a.iter().partition(|x| table.contains(&key(x)));
                        if bad.windows(2).any(|w| w[0] != w[1]) || good.is_empty() {
                            *oa.borrow_mut() = false;
                            return;
                        }
                        if kind == 5 {
                            good.append(&mut bad);
                            a = good;
                        } else {
                            bad.append(&mut good);
                            a = bad;
                        }
                        let mut left: HashMap<Vec<u8>, (usize, S::F)> = HashMap::new();
                        for t in &l.table[..u] {
                            left.entry(key(t)).or_insert((0, *t)).0 += 1;
                        }
                        s = vec![S::F::zero(); u];
                        let mut open = vec![];
                        for r in 0..u {
                            match left.get_mut(&key(&a[r])) {
                                Some(e) if r == 0 || a[r - 1] != a[r] => {
                                    e.0 -= 1;
                                    s[r] = a[r];
                                }
                                _ => open.push(r),
                            }
                        }
                        for (_, (cnt, v)) in left {
                            for _ in 0..cnt {
                                s[open.pop().unwrap()] = v;
                            }
                        }
                        assert!(open.is_empty());
                        let first = a[0];
                        a.resize(n, S::F::from(5));
                        s.resize(n, S::F::from(6));
                        if kind == 6 {
                            // the row before the first is the last one
                            a[n - 1] = first;
                        }
                    }
                    l.permuted = Some((a, s));
                } else if let Some(z) = x.downcast_mut::<vh::LookupProduct<S::F>>() {
                    let idx = ca.borrow().1;
                    ca.borrow_mut().1 += 1;
                    if Some(idx) == *ta.borrow() {
                        let end = z.z[z.last];
                        if kind >= 5 {
                            assert!(end == S::F::one(), "columns are not a permutation");
                            return;
                        }
                        let how = [Z::Plain, Z::Start, Z::Step(j), Z::Drop(j), Z::Zero][kind];
                        if how != Z::Plain {
                            bend(&mut z.z, z.last, how, end.invert().unwrap_or(S::F::one()));
                        }
                    }
                }
            });
            let out = guard(|| S::prove(p, pk, &[c.clone()], &[inst.clone()], tr, rng));
            drop(h);
            let proof = match out {
                Out::Ok(Ok(x)) if *ok.borrow() && target.borrow().is_some() => x,
                _ => {
                    ctx.count("cheat_prover_refused");
                    continue;
                }
            };
            let class = ["look_last_row", "look_first_row", "look_step", "look_step", "look_first_row", "look_table", "look_table_first"][kind];
            ctx.count(&format!("cheat_{}", class));
            ctx.check(!verdict(&inst, &proof), &format!("cheating lookup accepted ({})", class), || desc(&format!("kind {} j {}", kind, j)));
        }
    }
}
