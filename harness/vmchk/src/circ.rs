//! C04-C06: the zkVM circuit, observed through our own recorder.
use crate::vm::{exec, fr, frs, show};
use bfref::*;
use ckb_bf_base::main_config::MyCircuit;
use ckb_bf_base::utils::DOMAIN;
use ckb_bf_vm::interpreter::Register;
use ckb_bf_vm::matrix::{InstructionMatrixRow, Matrix, MemoryMatrixRow};
use halo2_proofs::arithmetic::Field;
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::{create_proof, keygen_pk, keygen_vk, verify_proof, Expression};
use halo2_proofs::poly::commitment::ParamsProver;
use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
use halo2_proofs::poly::kzg::multiopen::{ProverGWC, VerifierGWC};
use halo2_proofs::poly::kzg::strategy::SingleStrategy;
use halo2_proofs::transcript::{Blake2bRead, Blake2bWrite, Challenge255, TranscriptReadBuffer, TranscriptWriterBuffer};
use halo2curves::bn256::{Bn256, Fr, G1Affine};
use kit::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use zkit::*;

type Circ = MyCircuit<Fr, { DOMAIN }>;

pub fn instances(words: &[u64], input: &[u64]) -> Vec<Vec<Fr>> {
    let mut a = vec![Fr::from(words.len() as u64)];
    a.extend(frs(words));
    let mut b = vec![Fr::from(input.len() as u64)];
    b.extend(frs(input));
    vec![a, b]
}

fn clone_matrix(m: &Matrix) -> Matrix {
    Matrix {
        processor_matrix: m.processor_matrix.clone(),
        instruction_matrix: m
            .instruction_matrix
            .iter()
            .map(|r| InstructionMatrixRow {
                instruction_pointer: r.instruction_pointer,
                current_instruction: r.current_instruction,
                next_instruction: r.next_instruction,
            })
            .collect(),
        memory_matrix: m
            .memory_matrix
            .iter()
            .map(|r| MemoryMatrixRow {
                cycle: r.cycle,
                memory_pointer: r.memory_pointer,
                memory_value: r.memory_value,
                interweave_indicator: r.interweave_indicator,
            })
            .collect(),
        input_matrix: m.input_matrix.clone(),
        output_matrix: m.output_matrix.clone(),
        program: m.program.clone(),
    }
}

fn rand_fr(rng: &mut Rng) -> Fr {
    let mut b = [0u8; 64];
    rand_core::RngCore::fill_bytes(rng, &mut b);
    <Fr as halo2curves::FieldExt>::from_bytes_wide(&b)
}

fn chal(rng: &mut Rng) -> Vec<Fr> {
    (0..32).map(|_| rand_fr(rng)).collect()
}

/// smallest k for which the layout fits
fn record_fit(circ: &Circ, inst: &[Vec<Fr>], ch: &[Fr], max_k: u32) -> Option<Rec<Fr>> {
    for k in 9..=max_k {
        if let Ok(r) = record(k, circ, inst, |i| ch[i], None) {
            return Some(r);
        }
    }
    None
}

fn viol_names(_rec: &Rec<Fr>, v: &[Viol]) -> String {
    let mut s = vec![];
    for x in v.iter().take(4) {
        s.push(match x {
            Viol::Gate(g, p, r) => format!("gate {}.{} row {}", g, p, r),
            Viol::Lookup(l, r) => format!("lookup {} row {}", l, r),
            Viol::Copy(a, b) => format!("copy {:?}={:?}", a, b),
        });
    }
    s.join("; ")
}

// ------------------------------------------------------------------------ C04
pub fn c04(ctx: Ctx) {
    ctx.rule("halting programs whose whole input is read; circuit synthesised from the VM's own trace, recorded at the smallest size that fits and at one larger size; an independent evaluator must find no violated gate, lookup or copy; MockProver and a real proof on a sample; non-trivial = more than 2 executed commands");
    ctx.set_budget(50, 1800);
    let run_one = |p: &Prog, input: &[u64], r: &Run, rng: &mut Rng, mock: bool| {
        let id = || format!("program {} input {:?}", show(&p.src), input);
        let vm = match exec(&ctx.property, p, input, 8) {
            Out::Ok(v) => v,
            Out::Panic(m) => {
                ctx.violation("run-panic", format!("{} panicked: {}", id(), m));
                return;
            }
        };
        let inst = instances(&p.words, input);
        let circ = Circ::new(vm.matrix);
        let ch = chal(rng);
        let Some(rec) = record_fit(&circ, &inst, &ch, 14) else {
            ctx.violation("no-fit", format!("{}: does not fit up to k=14 ({} steps)", id(), r.rows.len()));
            return;
        };
        let v = rec.violations();
        ctx.check(v.is_empty(), "unsatisfied", || format!("{}: {}", id(), viol_names(&rec, &v)));
        ctx.check(rec.unknown == 0, "unknown", || format!("{}: {} cells left without a value", id(), rec.unknown));
        // one size up: position in the domain must not matter
        if rng.chance(1, 4) {
            if let Ok(rec2) = record(rec.k + 1, &circ, &inst, |i| ch[i], None) {
                let v = rec2.violations();
                ctx.check(v.is_empty(), "unsatisfied-larger", || format!("{}: {}", id(), viol_names(&rec2, &v)));
                ctx.count("larger_size");
            }
        }
        if mock {
            let ok = guard(|| MockProver::run(rec.k, &circ, inst.clone()).map(|m| m.verify().is_ok()));
            match ok {
                Out::Ok(Ok(b)) => {
                    ctx.check(b, "mock-rejects", || id());
                }
                Out::Ok(Err(e)) => ctx.violation("mock-error", format!("{}: {:?}", id(), e)),
                Out::Panic(m) => ctx.violation("mock-panic", format!("{}: {}", id(), m)),
            }
            ctx.count("mock_prover");
        }
        for (n, f) in FEATS {
            if r.feat & f != 0 {
                ctx.count(n);
            }
        }
        ctx.add("trace_rows", r.rows.len() as u64);
        ctx.add("constraints_rows_evaluated", rec.usable as u64);
        let mut key = p.cmds.clone();
        key.extend(input.iter().map(|x| *x as u8));
        ctx.eval(if r.rows.len() > 3 { Some(hash_bytes(&key)) } else { None });
    };
    // every value of a cell passes every kind of instruction
    ctx.cases("values", 256, 256, |i, rng| {
        let v = i as u64;
        for s in [",.", ",+.", ",-.", ",[>+<-]>.", ",[[-]]", ",>,<.>.", ",[.[-]]+[-]"] {
            let p = Prog::parse(s.as_bytes()).unwrap();
            let input: Vec<u64> = if s == ",>,<.>." { vec![v, 255 - v] } else { vec![v] };
            let (e, r) = run(&p, &input, 8, 4000);
            if e == End::Halt && r.consumed == input.len() {
                run_one(&p, &input, &r, rng, false);
                ctx.count("value_sweep");
            }
        }
    });
    let n = ctx.n(1500, 60000);
    ctx.cases("halt", n / 6, n, |i, rng| {
        let max = *rng.pick(&[40usize, 120, 240, 240, 480, 900]);
        let (p, input, r) = gen_halting(rng, max, true);
        if i < 4 {
            ctx.sample(json!({"program": show(&p.src), "input": input, "steps": r.rows.len()}));
        }
        run_one(&p, &input, &r, rng, i % 10 == 0);
    });
    let n = ctx.n(6, 60);
    ctx.cases("prove", 4, n, |_, rng| {
        let (p, input, _) = gen_halting(rng, 100, true);
        let id = || format!("program {} input {:?}", show(&p.src), input);
        match prove(&p.words, &input, &exec(&ctx.property, &p, &input, 8).ok().unwrap().matrix, rng) {
            Ok(pr) => {
                ctx.check(pr.verify(&instances(&p.words, &input)), "real-proof", || format!("{}: proof of an honest run refused", id()));
                ctx.count("real_proofs");
            }
            Err(e) => ctx.violation("real-prove", format!("{}: {}", id(), e)),
        }
    });
    ctx.finish(&[
        ("value_sweep", 1500),
        ("wrap_up", 10),
        ("wrap_down", 10),
        ("lb_enter", 50),
        ("lb_skip", 50),
        ("rb_back", 50),
        ("rb_fall", 50),
        ("input_zero", 10),
        ("revisit", 50),
        ("mock_prover", 10),
        ("real_proofs", 4),
    ])
}

// ----------------------------------------------------------------- real proofs
pub struct Proof {
    params: ParamsKZG<Bn256>,
    vk: halo2_proofs::plonk::VerifyingKey<G1Affine>,
    pub bytes: Vec<u8>,
}
impl Proof {
    pub fn verify(&self, inst: &[Vec<Fr>]) -> bool {
        let cols: Vec<&[Fr]> = inst.iter().map(|c| &c[..]).collect();
        guard(|| {
            let mut t = Blake2bRead::<_, G1Affine, Challenge255<_>>::init(&self.bytes[..]);
            verify_proof::<KZGCommitmentScheme<Bn256>, VerifierGWC<'_, Bn256>, _, _, _>(
                self.params.verifier_params(),
                &self.vk,
                SingleStrategy::new(&self.params),
                &[&cols],
                &mut t,
            )
            .is_ok()
        })
        .ok()
        .unwrap_or(false)
    }
}

pub fn prove(words: &[u64], input: &[u64], m: &Matrix, rng: &mut Rng) -> Result<Proof, String> {
    let inst = instances(words, input);
    let circ = Circ::new(clone_matrix(m));
    let ch = chal(rng);
    let rec = record_fit(&circ, &inst, &ch, 12).ok_or("no fit")?;
    let params = ParamsKZG::<Bn256>::setup(rec.k, &mut *rng);
    let vk = keygen_vk(&params, &circ).map_err(|e| format!("keygen_vk {:?}", e))?;
    let pk = keygen_pk(&params, vk.clone(), &circ).map_err(|e| format!("keygen_pk {:?}", e))?;
    let mut t = Blake2bWrite::<_, _, Challenge255<_>>::init(vec![]);
    let cols: Vec<&[Fr]> = inst.iter().map(|c| &c[..]).collect();
    create_proof::<KZGCommitmentScheme<Bn256>, ProverGWC<'_, Bn256>, _, _, _, _>(&params, &pk, &[circ], &[&cols], &mut *rng, &mut t)
        .map_err(|e| format!("create_proof {:?}", e))?;
    Ok(Proof {
        params,
        vk,
        bytes: t.finalize(),
    })
}

// ------------------------------------------------------------------ forged runs
#[derive(Clone, Debug, PartialEq)]
enum Dev {
    None,
    MvDelta(i128),
    MvSet(i128),
    MpDelta(i128),
    IpDelta(i128),
    Branch,
    ClkDelta(i128),
    OutWrong(i128),
    OutDrop,
    OutDup,
    ReadKeep,
    CiSub(u8),
    NiSub(i128),
}

#[derive(Clone, Debug, Default)]
struct Forge {
    rows: Vec<Row>,
    output: Vec<i128>,
    /// values of the input column in the order the forged run read them
    consumed: usize,
    /// rows whose inverse is overridden
    inv: BTreeMap<usize, Fr>,
    /// words used for the program part of the instruction table
    words: Vec<i128>,
    halted: bool,
}

struct Init {
    clk: i128,
    ip: i128,
    mp: i128,
    mv: i128,
}

/// Run from an arbitrary initial state, deviating once at step `t`; afterwards the
/// run continues honestly from the deviated state.
fn forged_run(p: &Prog, input: &[u64], init: &Init, t: usize, dev: &Dev, max: usize) -> Option<Forge> {
    let len = p.words.len() as i128;
    let mut tape: HashMap<i128, i128> = HashMap::new();
    tape.insert(init.mp, init.mv);
    let (mut ip, mut mp, mut clk) = (init.ip, init.mp, init.clk);
    let mut f = Forge {
        words: p.words.iter().map(|w| *w as i128).collect(),
        ..Default::default()
    };
    for step in 0.. {
        let mv = *tape.get(&mp).unwrap_or(&0);
        let mut row = Row {
            clk,
            ip,
            ci: p.word(ip) as i128,
            ni: p.word(ip + 1) as i128,
            mp,
            mv,
        };
        if ip >= len || ip < 0 {
            f.rows.push(row);
            f.halted = ip == len;
            return if f.halted { Some(f) } else { None };
        }
        if step > max {
            return None;
        }
        let d = if step == t { dev.clone() } else { Dev::None };
        if let Dev::CiSub(op) = d {
            row.ci = op as i128;
        }
        if let Dev::NiSub(x) = d {
            row.ni = x;
        }
        let (ci, ni) = (row.ci, row.ni);
        f.rows.push(row);
        let m = 256;
        match ci as u8 as char {
            _ if ci > 255 => return None,
            '<' => {
                mp -= 1;
                ip += 1
            }
            '>' => {
                mp += 1;
                ip += 1
            }
            '+' => {
                tape.insert(mp, if mv == m - 1 { 0 } else { mv + 1 });
                ip += 1
            }
            '-' => {
                tape.insert(mp, if mv == 0 { m - 1 } else { mv - 1 });
                ip += 1
            }
            ',' => {
                if d != Dev::ReadKeep {
                    let v = input.get(f.consumed).copied().unwrap_or(0) as i128;
                    tape.insert(mp, v);
                    f.consumed += 1;
                }
                ip += 1
            }
            '.' => {
                match d {
                    Dev::OutWrong(x) => f.output.push(mv + x),
                    Dev::OutDrop => {}
                    Dev::OutDup => {
                        f.output.push(mv);
                        f.output.push(mv)
                    }
                    _ => f.output.push(mv),
                }
                ip += 1
            }
            '[' => {
                let z = (mv == 0) != (d == Dev::Branch);
                ip = if z { ni } else { ip + 2 }
            }
            ']' => {
                let nz = (mv != 0) != (d == Dev::Branch);
                ip = if nz { ni } else { ip + 2 }
            }
            _ => return None,
        }
        clk += 1;
        match d {
            Dev::MvDelta(x) => {
                let v = *tape.get(&mp).unwrap_or(&0);
                tape.insert(mp, v + x);
            }
            Dev::MvSet(x) => {
                tape.insert(mp, x);
            }
            Dev::MpDelta(x) => mp += x,
            Dev::IpDelta(x) => ip += x,
            Dev::ClkDelta(x) => clk += x,
            _ => {}
        }
    }
    None
}

fn build(f: &Forge, words: &[u64], input: &[u64], mem_hide: bool, inst_last: bool) -> Matrix {
    let inv = |v: Fr| Option::<Fr>::from(v.invert()).unwrap_or(Fr::zero());
    let processor_matrix = f
        .rows
        .iter()
        .enumerate()
        .map(|(i, r)| Register {
            cycle: fr(r.clk),
            instruction_pointer: fr(r.ip),
            current_instruction: fr(r.ci),
            next_instruction: fr(r.ni),
            memory_pointer: fr(r.mp),
            memory_value: fr(r.mv),
            memory_value_inverse: f.inv.get(&i).copied().unwrap_or_else(|| inv(fr(r.mv))),
        })
        .collect();
    let mut mem: Vec<(i128, i128, i128)> = f.rows.iter().map(|r| (r.mp, r.clk, r.mv)).collect();
    mem.sort_by_key(|x| (x.0, x.1));
    if mem_hide {
        // re-order rows of one cell so that equal values are adjacent: hides roll-backs
        let mut out: Vec<(i128, i128, i128)> = vec![];
        for r in mem {
            let jump = match out.last() {
                Some(l) => l.0 == r.0 && l.2 != r.2 && r.1 != l.1 + 1,
                None => false,
            };
            if jump {
                if let Some(i) = out.iter().rposition(|x| x.0 == r.0 && x.2 == r.2) {
                    out.insert(i + 1, r);
                    continue;
                }
            }
            // keep chains of consecutive cycles together
            if let Some(i) = out.iter().rposition(|x| x.0 == r.0 && x.1 + 1 == r.1) {
                out.insert(i + 1, r);
                continue;
            }
            out.push(r);
        }
        mem = out;
        mem.sort_by_key(|x| x.0);
    }
    let memory_matrix = mem
        .iter()
        .map(|x| MemoryMatrixRow {
            cycle: fr(x.1),
            memory_pointer: fr(x.0),
            memory_value: fr(x.2),
            interweave_indicator: Fr::zero(),
        })
        .collect();
    let n = f.words.len();
    let prog = (0..n).map(|i| (i as i128, f.words[i], if i + 1 < n { f.words[i + 1] } else { 0 }));
    let proc = f.rows.iter().map(|r| (r.ip, r.ci, r.ni));
    let mut ins: Vec<(i128, i128, i128)> = if inst_last { proc.chain(prog).collect() } else { prog.chain(proc).collect() };
    ins.sort_by_key(|x| x.0);
    let instruction_matrix = ins
        .iter()
        .map(|x| InstructionMatrixRow {
            instruction_pointer: fr(x.0),
            current_instruction: fr(x.1),
            next_instruction: fr(x.2),
        })
        .collect();
    Matrix {
        processor_matrix,
        instruction_matrix,
        memory_matrix,
        input_matrix: frs(input),
        output_matrix: f.output.iter().map(|x| fr(*x)).collect(),
        program: frs(words),
    }
}

/// The circuit must not be satisfiable by this assignment: either it cannot be laid
/// out at all, or the evaluator finds a violated constraint.
fn refused(ctx: &Ctx, m: Matrix, inst: &[Vec<Fr>], ch: &[Fr], tweak: impl FnOnce(&mut Rec<Fr>)) -> (bool, String) {
    let c = Circ::new(m);
    match guard(|| record_fit(&c, inst, ch, 12)) {
        Out::Panic(_) => {
            ctx.count("refused_at_synthesis");
            (true, String::new())
        }
        Out::Ok(None) => {
            ctx.count("refused_at_synthesis");
            (true, String::new())
        }
        Out::Ok(Some(mut rec)) => {
            tweak(&mut rec);
            let v = rec.violations();
            ctx.count("refused_by_constraint");
            if v.is_empty() {
                (false, String::new())
            } else {
                (true, viol_names(&rec, &v[..1]))
            }
        }
    }
}

fn same_run(f: &Forge, r: &Run) -> bool {
    f.rows == r.rows && f.output == r.output.iter().map(|x| *x as i128).collect::<Vec<_>>() && f.inv.is_empty()
}

fn accum_columns(a: &Rec<Fr>, b: &Rec<Fr>) -> Vec<usize> {
    // columns whose content depends on the challenges
    (0..a.advice.len()).filter(|c| a.advice[*c] != b.advice[*c]).collect()
}

/// Solve accumulator column `c` forward from row `from` by the gates' own recurrence.
fn roll(rec: &mut Rec<Fr>, c: usize, from: usize, to: usize) {
    for row in from..to {
        rec.advice[c][row + 1] = Some(Fr::zero());
        let mut done = false;
        let polys: Vec<Expression<Fr>> = rec.cs.gates().iter().flat_map(|g| g.polynomials().to_vec()).collect();
        for at in [row, row + 1] {
            for p in &polys {
                rec.advice[c][row + 1] = Some(Fr::zero());
                let p0 = rec.eval(p, at);
                rec.advice[c][row + 1] = Some(Fr::one());
                let p1 = rec.eval(p, at);
                if p0 != p1 && !reads_later(p, c, at, row + 1) {
                    let x = -p0 * (p1 - p0).invert().unwrap();
                    rec.advice[c][row + 1] = Some(x);
                    done = true;
                    break;
                }
            }
            if done {
                break;
            }
        }
        if !done {
            return;
        }
    }
}

/// does `p` at row `at` read column `c` at a row later than `row`?
fn reads_later(p: &Expression<Fr>, c: usize, at: usize, row: usize) -> bool {
    match p {
        Expression::Advice(q) => q.column_index() == c && (at as i64 + q.rotation().0 as i64) > row as i64,
        Expression::Negated(a) | Expression::Scaled(a, _) => reads_later(a, c, at, row),
        Expression::Sum(a, b) | Expression::Product(a, b) => reads_later(a, c, at, row) || reads_later(b, c, at, row),
        _ => false,
    }
}

fn challenge_mixed_columns(rec: &Rec<Fr>) -> HashSet<usize> {
    fn walk(e: &Expression<Fr>, cols: &mut HashSet<usize>, chal: &mut bool) {
        match e {
            Expression::Advice(q) => {
                cols.insert(q.column_index());
            }
            Expression::Challenge(_) => *chal = true,
            Expression::Negated(a) | Expression::Scaled(a, _) => walk(a, cols, chal),
            Expression::Sum(a, b) | Expression::Product(a, b) => {
                walk(a, cols, chal);
                walk(b, cols, chal);
            }
            _ => {}
        }
    }
    let mut out = HashSet::new();
    for g in rec.cs.gates() {
        for p in g.polynomials() {
            let (mut cols, mut chal) = (HashSet::new(), false);
            walk(p, &mut cols, &mut chal);
            if chal {
                out.extend(cols);
            }
        }
    }
    out
}

pub fn c05(ctx: Ctx) {
    ctx.rule("for honest runs of generated programs: (A) every assigned advice cell changed alone; (B) runs that deviate once from the semantics (value, head, pointer, clock, branch, output, input, instruction, operand, initial state, truncation, continuation after halt, left of cell 0, stale memory, re-ordered memory) and are otherwise fully consistent; (C) accumulators re-based so that forged tables link; (D) accumulators must separate different tables; (E) committed columns must precede the challenges; oracle: independent constraint evaluator must find a violation; non-trivial = a distinct forged run whose rows or output differ from the true run");
    ctx.set_budget(55, 3000);

    // (B) forged runs
    let attack = |p: &Prog, input: &[u64], truth: Option<&Run>, f: &Forge, kind: &str, rng: &mut Rng| {
        if truth.map_or(false, |r| same_run(f, r)) {
            return;
        }
        let inst = instances(&p.words, input);
        let ch = chal(rng);
        for (hide, last) in [(false, false), (true, true)] {
            let m = build(f, &p.words, input, hide, last);
            let (ok, by) = refused(&ctx, m, &inst, &ch, |_| {});
            ctx.check(ok, &format!("accepted:{}", kind), || {
                format!(
                    "program {} input {:?}: forged run accepted ({}, memory re-ordered: {}): rows {:?} output {:?}",
                    show(&p.src),
                    input,
                    kind,
                    hide,
                    &f.rows[..f.rows.len().min(40)],
                    f.output
                )
            });
            if std::env::var("VERIF_LOUD").is_ok() {
                eprintln!("{} -> {}", kind, by);
            }
        }
        ctx.count(&format!("forged_{}", kind));
        let mut h = p.cmds.clone();
        for r in &f.rows {
            h.extend_from_slice(&(r.mv as i64 ^ (r.ip as i64) << 16 ^ (r.mp as i64) << 32 ^ (r.clk as i64) << 48).to_le_bytes());
        }
        h.extend(kind.bytes());
        ctx.eval(Some(hash_bytes(&h)));
    };

    let n = ctx.n(900, 30000);
    ctx.cases("forge", n / 6, n, |i, rng| {
        let (p, input, r) = gen_halting(rng, 100, true);
        if i < 3 {
            ctx.sample(json!({"program": show(&p.src), "input": input, "steps": r.rows.len()}));
        }
        let start = Init { clk: 0, ip: 0, mp: 0, mv: 0 };
        let steps = r.rows.len() - 1;
        let go = |kind: &str, t: usize, d: Dev, rng: &mut Rng| {
            if let Some(f) = forged_run(&p, &input, &start, t, &d, 160) {
                attack(&p, &input, Some(&r), &f, kind, rng);
            }
        };
        for _ in 0..3 {
            let t = rng.below(steps);
            let d = *rng.pick(&[1i128, -1, 2, -2, 255, -255, 256, -256, 7]);
            go("value", t, Dev::MvDelta(d), rng);
            let d = *rng.pick(&[1i128, -1, 2, -2, 3]);
            go("head", t, Dev::MpDelta(d), rng);
            go("pointer", t, Dev::IpDelta(d), rng);
            let d = *rng.pick(&[1i128, -1, 2, 5]);
            go("clock", t, Dev::ClkDelta(d), rng);
            let op = CMDS[rng.below(8)];
            go("instruction", t, Dev::CiSub(op), rng);
        }
        // deviations tied to instruction kinds
        for (t, row) in r.rows[..steps].iter().enumerate() {
            if !rng.chance(12, steps.max(12)) {
                continue;
            }
            match row.ci as u8 {
                b'+' => {
                    if row.mv == 255 {
                        go("no_wrap_up", t, Dev::MvSet(256), rng);
                    }
                    go("wrap_early", t, Dev::MvSet(row.mv - 255), rng);
                    go("add_stuck", t, Dev::MvSet(row.mv), rng);
                }
                b'-' => {
                    if row.mv == 0 {
                        go("no_wrap_down", t, Dev::MvSet(-1), rng);
                    }
                    go("borrow_early", t, Dev::MvSet(row.mv + 255), rng);
                }
                b'.' => {
                    go("output_wrong", t, Dev::OutWrong(*rng.clone().pick(&[1i128, -1, 256, 13])), rng);
                    go("output_dropped", t, Dev::OutDrop, rng);
                    go("output_doubled", t, Dev::OutDup, rng);
                }
                b',' => {
                    go("input_wrong", t, Dev::MvSet((row.mv + 1 + rng.below(250) as i128) % 256), rng);
                    go("input_ignored", t, Dev::ReadKeep, rng);
                }
                b'[' | b']' => {
                    go("branch", t, Dev::Branch, rng);
                    // operand forged, run follows it
                    let x = *rng.pick(&p.pos) as i128;
                    if x != row.ni {
                        go("operand", t, Dev::NiSub(x), rng);
                        // consistently in every row of that instruction
                        if let Some(mut f) = forged_run(&p, &input, &start, t, &Dev::NiSub(x), 160) {
                            let at = row.ip;
                            let mut okay = true;
                            for q in f.rows.iter_mut() {
                                if q.ip == at {
                                    // only usable if every visit would have jumped the same way
                                    q.ni = x;
                                    let taken = if q.ci == b'[' as i128 { q.mv == 0 } else { q.mv != 0 };
                                    let _ = taken;
                                }
                            }
                            // verify that the forged operand explains every transition
                            for w in f.rows.windows(2) {
                                if w[0].ip == at {
                                    let taken = if w[0].ci == b'[' as i128 { w[0].mv == 0 } else { w[0].mv != 0 };
                                    if (taken && w[1].ip != x) || (!taken && w[1].ip != at + 2) {
                                        okay = false;
                                    }
                                }
                            }
                            if okay {
                                let inst = instances(&p.words, &input);
                                let ch = chal(rng);
                                let mut m = build(&f, &p.words, &input, false, false);
                                for q in m.instruction_matrix.iter_mut() {
                                    if q.instruction_pointer == fr(at) {
                                        q.next_instruction = fr(x);
                                    }
                                }
                                if !same_run(&f, &r) {
                                    let (ok, _) = refused(&ctx, m, &inst, &ch, |_| {});
                                    ctx.check(ok, "accepted:operand_consistent", || {
                                        format!("program {} input {:?}: jump operand at {} forged to {} accepted: {:?}", show(&p.src), input, at, x, f.rows)
                                    });
                                    ctx.count("forged_operand_consistent");
                                }
                            }
                        }
                    }
                }
                b'<' | b'>' => {
                    // arrive at another value: fresh cell not zero, or stale value
                    let nmp = if row.ci as u8 == b'<' { row.mp - 1 } else { row.mp + 1 };
                    let hist: Vec<i128> = r.rows[..=t].iter().filter(|q| q.mp == nmp).map(|q| q.mv).collect();
                    let v = rng.below(256) as i128;
                    go("arrive_forged", t, Dev::MvSet(v), rng);
                    if let Some(h) = hist.first() {
                        go("arrive_rolled_back", t, Dev::MvSet(*h), rng);
                        let h = *rng.pick(&hist);
                        go("arrive_rolled_back", t, Dev::MvSet(h), rng);
                    } else {
                        go("fresh_not_zero", t, Dev::MvSet(1 + rng.below(255) as i128), rng);
                    }
                }
                _ => {}
            }
        }
        // initial state
        for (kind, init) in [
            ("init_clock", Init { clk: 1 + rng.below(4) as i128, ip: 0, mp: 0, mv: 0 }),
            ("init_head", Init { clk: 0, ip: 0, mp: *rng.pick(&[1i128, 2, -1]), mv: 0 }),
            ("init_value", Init { clk: 0, ip: 0, mp: 0, mv: 1 + rng.below(255) as i128 }),
            ("init_pointer", Init { clk: 0, ip: *rng.pick(&p.pos) as i128, mp: 0, mv: 0 }),
        ] {
            if kind == "init_pointer" && init.ip == 0 {
                continue;
            }
            if let Some(f) = forged_run(&p, &input, &init, usize::MAX, &Dev::None, 160) {
                attack(&p, &input, Some(&r), &f, kind, rng);
                if kind == "init_pointer" {
                    // the same start, with every pointer shifted so that it looks like 0
                    let mut g = f.clone();
                    for q in g.rows.iter_mut() {
                        q.ip -= init.ip;
                    }
                    let mut m = build(&g, &p.words, &input, false, false);
                    let mut ins: Vec<(i128, i128, i128)> = (0..p.words.len() as i128)
                        .map(|i| (i - init.ip, p.word(i) as i128, p.word(i + 1) as i128))
                        .chain(g.rows.iter().map(|q| (q.ip, q.ci, q.ni)))
                        .collect();
                    ins.sort();
                    m.instruction_matrix = ins
                        .iter()
                        .map(|x| InstructionMatrixRow {
                            instruction_pointer: fr(x.0),
                            current_instruction: fr(x.1),
                            next_instruction: fr(x.2),
                        })
                        .collect();
                    let (ok, _) = refused(&ctx, m, &instances(&p.words, &input), &chal(rng), |_| {});
                    ctx.check(ok, "accepted:shifted_start", || {
                        format!("program {} input {:?}: run started at word {} accepted", show(&p.src), input, init.ip)
                    });
                    ctx.count("forged_shifted_start");
                }
            }
        }
        // truncated
        if steps > 1 {
            let t = rng.range(1, steps);
            let mut f = forged_run(&p, &input, &start, usize::MAX, &Dev::None, 160).unwrap();
            f.rows.truncate(t);
            let outs = f.rows.iter().filter(|q| q.ci as u8 == b'.').count();
            f.output.truncate(outs);
            attack(&p, &input, Some(&r), &f, "truncated", rng);
        }
        // continuation after the halt
        {
            let f0 = forged_run(&p, &input, &start, usize::MAX, &Dev::None, 160).unwrap();
            let last = f0.rows.last().unwrap().clone();
            for (ci, ni) in [(0i128, 0i128), (b']' as i128, *rng.pick(&p.pos) as i128), (b'[' as i128, *rng.pick(&p.pos) as i128)] {
                let mut f = f0.clone();
                let n = f.rows.len();
                f.rows[n - 1].ci = ci;
                f.rows[n - 1].ni = ni;
                if ci == 0 {
                    let mut q = last.clone();
                    q.clk += 1;
                    f.rows.push(q);
                    attack(&p, &input, Some(&r), &f, "after_halt_idle", rng);
                    continue;
                }
                let taken = if ci == b'[' as i128 { last.mv == 0 } else { last.mv != 0 };
                if !taken || ni >= p.words.len() as i128 {
                    continue;
                }
                // continue honestly from ni, with the same tape and the rest of the input
                let mut tape: HashMap<i128, i128> = HashMap::new();
                for q in &f.rows {
                    tape.insert(q.mp, q.mv);
                }
                let (mut ip, mut mp, mut clk) = (ni, last.mp, last.clk + 1);
                let mut ok = true;
                for s in 0.. {
                    let mv = *tape.get(&mp).unwrap_or(&0);
                    let mut row = Row { clk, ip, ci: p.word(ip) as i128, ni: p.word(ip + 1) as i128, mp, mv };
                    if ip >= p.words.len() as i128 {
                        row.ci = ci;
                        row.ni = ni;
                        f.rows.push(row);
                        break;
                    }
                    if s > 60 || row.ci as u8 == b',' {
                        ok = false;
                        break;
                    }
                    f.rows.push(row.clone());
                    ip += 1;
                    match row.ci as u8 {
                        b'<' => mp -= 1,
                        b'>' => mp += 1,
                        b'+' => {
                            tape.insert(mp, (mv + 1) % 256);
                        }
                        b'-' => {
                            tape.insert(mp, (mv + 255) % 256);
                        }
                        b'.' => f.output.push(mv),
                        b'[' => ip = if mv == 0 { row.ni } else { ip + 1 },
                        b']' => ip = if mv != 0 { row.ni } else { ip + 1 },
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                    clk += 1;
                }
                if ok {
                    attack(&p, &input, Some(&r), &f, "after_halt_jump", rng);
                }
            }
        }
        // wrong inverse
        {
            let mut f = forged_run(&p, &input, &start, usize::MAX, &Dev::None, 160).unwrap();
            let t = rng.below(f.rows.len());
            let cur = Option::<Fr>::from(fr(f.rows[t].mv).invert()).unwrap_or(Fr::zero());
            let x = *rng.pick(&[Fr::zero(), Fr::one(), cur + Fr::one()]);
            let x = if x == cur { rand_fr(rng) } else { x };
            f.inv.insert(t, x);
            attack(&p, &input, Some(&r), &f, "inverse", rng);
        }
    });

    // programs that must trap, run as if nothing happened
    let n = ctx.n(300, 6000);
    ctx.cases("trap", n / 4, n, |_, rng| {
        let (p, input, end) = gen_trapping(rng, 200);
        let init = Init { clk: 0, ip: 0, mp: 0, mv: 0 };
        if let Some(f) = forged_run(&p, &input, &init, usize::MAX, &Dev::None, 300) {
            let kind = if end == End::LeftTrap { "left_of_zero" } else { "read_past_end" };
            attack(&p, &input, None, &f, kind, rng);
            // the same run with the head started far enough to the right
            let low = f.rows.iter().map(|q| q.mp).min().unwrap();
            if low < 0 {
                let init = Init { clk: 0, ip: 0, mp: -low, mv: 0 };
                if let Some(f) = forged_run(&p, &input, &init, usize::MAX, &Dev::None, 300) {
                    attack(&p, &input, None, &f, "head_started_right", rng);
                }
            }
        }
    });

    // infinite loops claimed to end
    ctx.cases("loop", 20, ctx.n(60, 600), |_, rng| {
        let body = *rng.pick(&["+[]", "+[.]", "+[>+<]", "-[>[-]<]", "+[>+]"]);
        let p = Prog::parse(body.as_bytes()).unwrap();
        let init = Init { clk: 0, ip: 0, mp: 0, mv: 0 };
        let t = rng.range(1, 20);
        for d in [Dev::Branch, Dev::MvSet(0), Dev::IpDelta(2)] {
            if let Some(f) = forged_run(&p, &[], &init, t, &d, 300) {
                attack(&p, &[], None, &f, "escape_loop", rng);
            }
        }
    });

    // which columns are accumulators (their content depends on the challenges) is a
    // fact about the configuration; observe it on a run that uses every table
    let acc: HashSet<usize> = {
        let p = Prog::parse(b",.+.,.[>+.+.<-]>.").unwrap();
        let input = [3, 2];
        let mut rng = ctx.rng("acc", 0);
        let (c1, c2) = (chal(&mut rng), chal(&mut rng));
        match exec(&ctx.property, &p, &input, 8).ok() {
            Some(vm) => {
                let circ = Circ::new(vm.matrix);
                let inst = instances(&p.words, &input);
                let a = record_fit(&circ, &inst, &c1, 12).expect("fits");
                let b = record(a.k, &circ, &inst, |i| c2[i], None).expect("fits");
                accum_columns(&a, &b).into_iter().collect()
            }
            None => {
                ctx.inconclusive("probe run did not finish");
                HashSet::new()
            }
        }
    };
    // (A) single faults, (C) accumulators, (D) binding, (E) phases
    let n = ctx.n(60, 2500);
    ctx.cases("cells", n / 2, n, |_, rng| {
        let (p, input, _) = gen_halting(rng, 60, true);
        let inst = instances(&p.words, &input);
        let m = exec(&ctx.property, &p, &input, 8).ok().expect("halts").matrix;
        let id = || format!("program {} input {:?}", show(&p.src), input);
        let circ = Circ::new(clone_matrix(&m));
        let ch = chal(rng);
        let Some(mut rec) = record_fit(&circ, &inst, &ch, 12) else { return };
        if !rec.satisfied() {
            ctx.inconclusive("honest run not satisfied (C04)");
            return;
        }
        let probe = Probe::new(&rec);
        for c in 0..rec.advice.len() {
            for row in 0..rec.usable {
                let Some(old) = rec.advice[c][row] else { continue };
                let news = [old + Fr::one(), -old, Fr::zero(), rand_fr(rng)];
                let x = news[rng.below(4)];
                for x in [x, rand_fr(rng)] {
                    if x == old {
                        continue;
                    }
                    rec.advice[c][row] = Some(x);
                    let v = probe.local(&rec, &[('a', c, row)]);
                    let region = rec.cell_region.get(&('a', c, row)).map(|r| rec.regions[*r].clone()).unwrap_or_default();
                    ctx.check(!v.is_empty(), "cell-free", || {
                        format!("{}: advice column {} row {} ({}) changed to {:?} unnoticed", id(), c, row, region, x)
                    });
                    ctx.count("single_cell_faults");
                }
                rec.advice[c][row] = Some(old);
            }
        }
        ctx.eval(Some(hash_bytes(&p.src)));
        // (E)
        let phases: Vec<u8> = rec.cs.advice_column_phase();
        for c in challenge_mixed_columns(&rec) {
            if !acc.contains(&c) && rec.advice[c].iter().any(|x| x.is_some()) {
                ctx.check(phases[c] == 0, "late-column", || {
                    format!("{}: advice column {} enters an accumulator but is committed after the challenges", id(), c)
                });
                ctx.count("phase_checks");
            }
        }
        // (C) forge the tables, then re-base every accumulator so that the links hold
        let links: Vec<(Pos, Pos)> = rec
            .copies
            .iter()
            .copied()
            .filter(|(a, b)| a.0 == 'a' && b.0 == 'a' && acc.contains(&a.1) && acc.contains(&b.1))
            .collect();
        for mode in 0..4 {
            let mut m2 = clone_matrix(&m);
            // a table that disagrees with the execution
            let t = rng.below(m2.processor_matrix.len());
            match rng.below(4) {
                0 => {
                    let j = rng.below(m2.memory_matrix.len());
                    m2.memory_matrix[j].cycle += Fr::from(1000);
                }
                1 => {
                    m2.output_matrix.insert(0, Fr::from(5));
                }
                2 => {
                    m2.processor_matrix[t].next_instruction += Fr::from(77);
                }
                _ => {
                    if let Some(x) = m2.output_matrix.first_mut() {
                        *x += Fr::one()
                    } else {
                        m2.output_matrix.push(Fr::one())
                    }
                }
            }
            let (ok, _) = refused(&ctx, m2, &inst, &ch, |rec| {
                // links are recomputed on the forged layout
                let links: Vec<(Pos, Pos)> = rec
                    .copies
                    .iter()
                    .copied()
                    .filter(|(a, b)| a.0 == 'a' && b.0 == 'a' && acc.contains(&a.1) && acc.contains(&b.1))
                    .collect();
                match mode {
                    0 => {
                        for c in &acc {
                            for x in rec.advice[*c].iter_mut() {
                                if x.is_some() {
                                    *x = Some(Fr::zero());
                                }
                            }
                        }
                    }
                    _ => {
                        for (a, b) in &links {
                            if rec.cell(*a) == rec.cell(*b) {
                                continue;
                            }
                            let (free, fix) = if mode == 1 { (a, b) } else { (b, a) };
                            // final value is affine in the initial value
                            let c = free.1;
                            let start = (0..rec.n).find(|r| rec.advice[c][*r].is_some()).unwrap();
                            if free.2 <= start {
                                rec.advice[c][start] = Some(rec.cell(*fix));
                                continue;
                            }
                            let end = free.2;
                            rec.advice[c][start] = Some(Fr::zero());
                            roll(rec, c, start, end);
                            let y0 = rec.cell(*free);
                            rec.advice[c][start] = Some(Fr::one());
                            roll(rec, c, start, end);
                            let y1 = rec.cell(*free);
                            if y0 == y1 {
                                continue;
                            }
                            let x = (rec.cell(*fix) - y0) * (y1 - y0).invert().unwrap();
                            rec.advice[c][start] = Some(x);
                            roll(rec, c, start, end);
                        }
                    }
                }
            });
            ctx.check(ok, "accepted:accumulator", || {
                format!("{}: tables that disagree link after re-basing the accumulators (mode {})", id(), mode)
            });
            ctx.count("accumulator_attacks");
        }
        // (D) different tables must have different accumulators
        ctx.check(links.len() >= 5, "links-missing", || format!("{}: only {} accumulator links", id(), links.len()));
        for _ in 0..10 {
            let mut m2 = clone_matrix(&m);
            let dlt = Fr::from(1 + rng.below(3) as u64);
            let what = rng.below(10);
            let t = rng.below(m2.memory_matrix.len());
            let u = rng.below(m2.instruction_matrix.len());
            let mut changed = true;
            match what {
                0 => {
                    m2.memory_matrix[t].memory_pointer += dlt;
                    m2.memory_matrix[t].memory_value -= dlt;
                }
                1 => {
                    m2.memory_matrix[t].cycle += dlt;
                    m2.memory_matrix[t].memory_value -= dlt;
                }
                2 => {
                    m2.memory_matrix[t].memory_pointer += dlt;
                    m2.memory_matrix[t].cycle -= dlt;
                }
                3 => {
                    let z = rng.below(m2.memory_matrix.len());
                    let (a, b) = (m2.memory_matrix[t].memory_value, m2.memory_matrix[z].memory_value);
                    m2.memory_matrix[t].memory_value = b;
                    m2.memory_matrix[z].memory_value = a;
                    changed = a != b;
                }
                4 => {
                    m2.processor_matrix[t].current_instruction += dlt;
                    m2.processor_matrix[t].next_instruction -= dlt;
                }
                5 => {
                    m2.processor_matrix[t].instruction_pointer += dlt;
                    m2.processor_matrix[t].next_instruction -= dlt;
                }
                6 => {
                    m2.processor_matrix[t].instruction_pointer += dlt;
                    m2.processor_matrix[t].current_instruction -= dlt;
                }
                7 => {
                    if m2.output_matrix.len() < 2 || m2.output_matrix[0] == m2.output_matrix[1] {
                        changed = false
                    } else {
                        m2.output_matrix.swap(0, 1)
                    }
                }
                8 => {
                    m2.output_matrix.insert(0, Fr::zero());
                }
                _ => {
                    m2.instruction_matrix[u].next_instruction += dlt;
                    // the last row of a group is the program row, which enters the code sum without ni
                    let n = m2.instruction_matrix.len();
                    changed = u + 1 == n || m2.instruction_matrix[u + 1].instruction_pointer == m2.instruction_matrix[u].instruction_pointer;
                }
            }
            if !changed {
                continue;
            }
            let c = Circ::new(m2);
            if let Out::Ok(Some(r)) = guard(|| record_fit(&c, &inst, &ch, 12)) {
                let split = r.copies.iter().any(|(a, b)| a.0 == 'a' && b.0 == 'a' && r.cell(*a) != r.cell(*b));
                ctx.check(split, "accumulator-collision", || {
                    format!("{}: tables that differ (alteration {}) have equal accumulators", id(), what)
                });
                ctx.count("binding_checks");
            }
        }
    });

    // MockProver agrees on forged runs
    let n = ctx.n(40, 600);
    ctx.cases("mock", 10, n, |_, rng| {
        let (p, input, r) = gen_halting(rng, 60, true);
        let start = Init { clk: 0, ip: 0, mp: 0, mv: 0 };
        let t = rng.below(r.rows.len() - 1);
        let d = rng.pick(&[Dev::MvDelta(1), Dev::MpDelta(1), Dev::ClkDelta(1), Dev::IpDelta(1), Dev::Branch, Dev::OutWrong(1)]).clone();
        let Some(f) = forged_run(&p, &input, &start, t, &d, 120) else { return };
        if same_run(&f, &r) {
            return;
        }
        let inst = instances(&p.words, &input);
        let m = build(&f, &p.words, &input, false, false);
        if let Out::Ok(Ok(mp)) = guard(|| MockProver::run(10, &Circ::new(m), inst)) {
            ctx.check(mp.verify().is_err(), "mock-accepts", || {
                format!("program {} input {:?}: MockProver accepts {:?} at {}", show(&p.src), input, d, t)
            });
            ctx.count("mock_prover");
        }
    });
    ctx.finish(&[
        ("forged_value", 100),
        ("forged_head", 50),
        ("forged_pointer", 10),
        ("forged_clock", 100),
        ("forged_instruction", 20),
        ("forged_branch", 5),
        ("forged_operand_consistent", 3),
        ("forged_no_wrap_up", 3),
        ("forged_no_wrap_down", 3),
        ("forged_output_wrong", 20),
        ("forged_input_wrong", 20),
        ("forged_arrive_forged", 20),
        ("forged_arrive_rolled_back", 5),
        ("forged_fresh_not_zero", 20),
        ("forged_init_value", 20),
        ("forged_init_head", 20),
        ("forged_init_clock", 20),
        ("forged_shifted_start", 5),
        ("forged_truncated", 20),
        ("forged_after_halt_jump", 3),
        ("forged_inverse", 50),
        ("forged_left_of_zero", 10),
        ("forged_head_started_right", 10),
        ("forged_read_past_end", 10),
        ("single_cell_faults", 10000),
        ("phase_checks", 50),
        ("accumulator_attacks", 40),
        ("binding_checks", 50),
        ("mock_prover", 3),
    ])
}

// ------------------------------------------------------------------------ C06
fn alter(rng: &mut Rng, v: &[u64], is_code: bool) -> (Vec<u64>, &'static str) {
    let any = |rng: &mut Rng| -> u64 {
        if is_code {
            match rng.below(4) {
                0 => 0,
                1 => rng.below(v.len() + 3) as u64,
                _ => CMDS[rng.below(8)] as u64,
            }
        } else {
            *rng.pick(&[0u64, 1, 255, 97])
        }
    };
    let mut w = v.to_vec();
    loop {
        match rng.below(9) {
            0 if !w.is_empty() => {
                let i = rng.below(w.len());
                w[i] = any(rng);
                if w != v {
                    return (w, "word");
                }
            }
            1 if w.len() > 1 => {
                let (i, j) = (rng.below(w.len()), rng.below(w.len()));
                w.swap(i, j);
                if w != v {
                    return (w, "swap");
                }
            }
            2 if !w.is_empty() => {
                w.pop();
                return (w, "drop_last");
            }
            3 if !w.is_empty() => {
                w.remove(0);
                return (w, "drop_first");
            }
            4 => {
                w.push(any(rng));
                return (w, "append");
            }
            5 => {
                w.push(0);
                return (w, "append_zero");
            }
            6 => {
                w.insert(0, 0);
                return (w, "prepend_zero");
            }
            7 => {
                let i = rng.below(w.len() + 1);
                let x = any(rng);
                w.insert(i, x);
                return (w, "insert");
            }
            8 if !w.is_empty() => {
                let i = rng.below(w.len());
                w[i] += *rng.pick(&[1u64, 256, 65536]);
                return (w, "add");
            }
            _ => {}
        }
    }
}

/// Is this trace the run of these words on this input?
fn explains(rows: &[Row], words: &[u64], input: &[u64], reads: &[i128]) -> bool {
    let w = |i: i128| -> i128 {
        if i >= 0 && (i as usize) < words.len() {
            words[i as usize] as i128
        } else {
            0
        }
    };
    rows.iter().all(|r| r.ci == w(r.ip) && r.ni == w(r.ip + 1))
        && rows.last().map_or(false, |r| r.ip == words.len() as i128)
        && input.iter().map(|x| *x as i128).collect::<Vec<_>>() == reads
}

pub fn c06(ctx: Ctx) {
    ctx.rule("honest runs presented with altered public code or input (word, order, length, dropped, added, leading/trailing zeros), with the witness unchanged, with the copied columns rebuilt for the altered statement, with the instruction table rebuilt for the altered code, and with length cells forced to the public length; the evaluator must find a violation unless the altered program really has that run; real proofs must fail to verify for altered statements; non-trivial = distinct (program, input, altered statement)");
    ctx.set_budget(55, 2400);
    let n = ctx.n(1200, 40000);
    ctx.cases("alter", n / 3, n, |i, rng| {
        let (p, input, r) = gen_halting(rng, 100, true);
        if i < 3 {
            ctx.sample(json!({"program": show(&p.src), "input": input}));
        }
        let Out::Ok(vm) = exec(&ctx.property, &p, &input, 8) else {
            ctx.inconclusive("VM failed on a halting run (C02)");
            return;
        };
        let m = vm.matrix;
        let reads: Vec<i128> = input.iter().map(|x| *x as i128).collect();
        for round in 0..6 {
            let code_side = round % 2 == 0;
            let (words2, input2, kind) = if code_side {
                let (w, k) = alter(rng, &p.words, true);
                (w, input.clone(), k)
            } else {
                let (w, k) = alter(rng, &input, false);
                (p.words.clone(), w, k)
            };
            let ch = chal(rng);
            let inst = instances(&words2, &input2);
            let id = |how: &str| {
                format!(
                    "program {} input {:?}: accepted for public code {:?} input {:?} ({})",
                    show(&p.src),
                    input,
                    words2,
                    input2,
                    how
                )
            };
            let side = if code_side { "code" } else { "input" };
            // 1. witness unchanged
            let (ok, _) = refused(&ctx, clone_matrix(&m), &inst, &ch, |_| {});
            ctx.check(ok, &format!("accepted:{}:{}:unchanged", side, kind), || id("witness unchanged"));
            // 2. length cells follow the public length
            let (ok, _) = refused(&ctx, clone_matrix(&m), &inst, &ch, |rec| {
                let copies = rec.copies.clone();
                for _ in 0..2 {
                    for (a, b) in &copies {
                        for (x, y) in [(a, b), (b, a)] {
                            if x.0 == 'i' && y.0 == 'a' {
                                rec.advice[y.1][y.2] = Some(rec.cell(*x));
                            }
                        }
                    }
                }
            });
            ctx.check(ok, &format!("accepted:{}:{}:lengths", side, kind), || id("length cells follow the public length"));
            // 3. copied columns rebuilt
            let mut m3 = clone_matrix(&m);
            m3.program = frs(&words2);
            m3.input_matrix = frs(&input2);
            let legit = explains(&r.rows, &words2, &input2, &reads);
            if !legit || code_side {
                // with the old instruction table the code sum must not match
                let (ok, _) = refused(&ctx, m3, &inst, &ch, |_| {});
                ctx.check(ok, &format!("accepted:{}:{}:columns", side, kind), || id("copied columns rebuilt"));
            }
            // 4. instruction table rebuilt for the altered code
            if code_side && !legit {
                let f = Forge {
                    rows: r.rows.clone(),
                    output: r.output.iter().map(|x| *x as i128).collect(),
                    words: words2.iter().map(|x| *x as i128).collect(),
                    ..Default::default()
                };
                for last in [false, true] {
                    let m4 = build(&f, &words2, &input2, false, last);
                    let (ok, _) = refused(&ctx, m4, &inst, &ch, |_| {});
                    ctx.check(ok, &format!("accepted:{}:{}:table", side, kind), || id("instruction table rebuilt"));
                }
                ctx.count("tables_rebuilt");
            }
            ctx.count(&format!("{}_{}", side, kind));
            let mut h = p.cmds.clone();
            h.extend(words2.iter().chain(&input2).flat_map(|x| x.to_le_bytes()));
            ctx.eval(Some(hash_bytes(&h)));
        }
        // only the length word altered
        for col in 0..2 {
            let mut inst = instances(&p.words, &input);
            inst[col][0] += *rng.pick(&[Fr::one(), -Fr::one(), Fr::from(256)]);
            let ch = chal(rng);
            for follow in [false, true] {
                let (ok, _) = refused(&ctx, clone_matrix(&m), &inst, &ch, |rec| {
                    if follow {
                        for (a, b) in rec.copies.clone() {
                            for (x, y) in [(a, b), (b, a)] {
                                if x.0 == 'i' && y.0 == 'a' {
                                    rec.advice[y.1][y.2] = Some(rec.cell(x));
                                }
                            }
                        }
                    }
                });
                ctx.check(ok, "accepted:length-word", || format!("program {} input {:?}: public length {} of column {} accepted", show(&p.src), input, follow, col));
            }
            ctx.count("length_word");
        }
    });
    let n = ctx.n(6, 60);
    ctx.cases("proofs", 4, n, |_, rng| {
        let (p, input, r) = loop {
            let x = gen_halting(rng, 80, true);
            if !x.1.is_empty() {
                break x;
            }
        };
        let id = || format!("program {} input {:?}", show(&p.src), input);
        let Out::Ok(vm) = exec(&ctx.property, &p, &input, 8) else { return };
        let pr = match prove(&p.words, &input, &vm.matrix, rng) {
            Ok(x) => x,
            Err(e) => {
                ctx.inconclusive(&format!("{}: no proof (C04): {}", id(), e));
                return;
            }
        };
        if !pr.verify(&instances(&p.words, &input)) {
            ctx.inconclusive(&format!("{}: honest proof refused (C04)", id()));
            return;
        }
        ctx.count("real_proofs");
        for j in 0..10 {
            let (w, x) = if j % 2 == 0 {
                (alter(rng, &p.words, true).0, input.clone())
            } else {
                (p.words.clone(), alter(rng, &input, false).0)
            };
            ctx.check(!pr.verify(&instances(&w, &x)), "proof-accepted", || format!("{}: proof verifies for code {:?} input {:?}", id(), w, x));
            ctx.count("real_proof_altered");
        }
        let mut inst = instances(&p.words, &input);
        inst.swap(0, 1);
        ctx.check(!pr.verify(&inst), "proof-accepted-swapped", || id());
        // a proof made from a witness that does not explain the statement
        let (w2, _) = alter(rng, &p.words, true);
        let reads: Vec<i128> = input.iter().map(|x| *x as i128).collect();
        if !explains(&r.rows, &w2, &input, &reads) && w2.len() == p.words.len() {
            if let Out::Ok(Ok(bad)) = guard(|| prove(&w2, &input, &vm.matrix, rng)) {
                ctx.check(!bad.verify(&instances(&w2, &input)), "bad-proof-accepted", || format!("{} as {:?}", id(), w2));
                ctx.count("real_proof_forged");
            }
        }
    });
    ctx.finish(&[
        ("code_word", 100),
        ("code_swap", 50),
        ("code_append", 50),
        ("code_prepend_zero", 50),
        ("code_drop_last", 50),
        ("input_append", 50),
        ("input_prepend_zero", 50),
        ("input_append_zero", 50),
        ("length_word", 100),
        ("tables_rebuilt", 100),
        ("real_proofs", 3),
        ("real_proof_altered", 30),
    ])
}
