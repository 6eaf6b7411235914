use bfref::*;
use ckb_bf_vm::code;
use ckb_bf_vm::interpreter::Interpreter;
use halo2_proofs::arithmetic::Field;
use halo2curves::bn256::Fr;
use kit::*;
use serde_json::json;

pub fn fr(x: i128) -> Fr {
    if x >= 0 {
        Fr::from(x as u64)
    } else {
        -Fr::from((-x) as u64)
    }
}
pub fn frs(xs: &[u64]) -> Vec<Fr> {
    xs.iter().map(|x| Fr::from(*x)).collect()
}
pub fn show(src: &[u8]) -> String {
    String::from_utf8_lossy(&src.iter().copied().filter(|c| CMDS.contains(c)).collect::<Vec<_>>()).to_string()
}

fn res_programs() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir("/repo/res") {
        for e in d.flatten() {
            let p = e.path();
            if p.extension().map_or(false, |x| x == "bf") {
                if let Ok(b) = std::fs::read(&p) {
                    v.push((p.file_name().unwrap().to_string_lossy().to_string(), b));
                }
            }
        }
    }
    v.sort();
    v
}

// ------------------------------------------------------------------------ C01
fn check_compile(ctx: &Ctx, src: &[u8]) {
    let Some(p) = Prog::parse(src) else { return };
    if p.words.len() > 65535 {
        return;
    }
    let want: Vec<u16> = p.words.iter().map(|w| *w as u16).collect();
    let id = || format!("source {:?} ({} bytes)", String::from_utf8_lossy(&src[..src.len().min(300)]), src.len());
    match guard(|| (code::compile_to_u16(src.to_vec()), code::compile(src.to_vec()))) {
        Out::Panic(m) => ctx.violation("compile-panic", format!("{} panicked: {}", id(), m)),
        Out::Ok((a, b)) => {
            ctx.check(a == want, "compile-u16", || {
                let at = a.iter().zip(&want).position(|(x, y)| x != y);
                format!("{}: got len {} want len {}, first difference {:?}", id(), a.len(), want.len(), at)
            });
            let wf: Vec<Fr> = want.iter().map(|w| Fr::from(*w as u64)).collect();
            ctx.check(b == wf, "compile-field", || format!("{}: field form differs from 16-bit form", id()));
        }
    }
    let loops = p.mate.iter().filter(|m| **m != usize::MAX).count() / 2;
    ctx.eval(if loops > 0 { Some(hash_bytes(&p.cmds)) } else { None });
    ctx.add("commands", p.cmds.len() as u64);
    ctx.add("loops", loops as u64);
    if src.len() != p.cmds.len() {
        ctx.count("with_comments");
    }
}

pub fn c01(ctx: Ctx) {
    ctx.rule("balanced sources: random, structured, deep, wide, commented with arbitrary bytes, repository programs, lengths up to the 16-bit limit; non-trivial = contains a loop, keyed by its command string");
    ctx.set_budget(40, 900);
    ctx.section("fixed", || {
        check_compile(&ctx, b"");
        // every byte value on its own and inside a loop
        for b in 0..=255u8 {
            if !b"[]".contains(&b) {
                check_compile(&ctx, &[b]);
            }
            check_compile(&ctx, &[b'+', b'[', b, b'-', b']', b'.'].to_vec());
        }
        for (_, s) in res_programs() {
            check_compile(&ctx, &s);
        }
        // long: close to and at the 16-bit limit
        for n in [255usize, 256, 257, 32767, 32768, 65533, 65534, 65535] {
            let mut s = vec![b'+'; n - 4];
            s.insert(0, b'[');
            s.push(b']');
            check_compile(&ctx, &s);
            let mut s = vec![b'+'; n - 8];
            s.extend_from_slice(b"[-][.]");
            s.truncate(n);
            check_compile(&ctx, &s);
            let d = (n / 4).min(16000);
            let mut s = vec![b'['; d];
            s.extend(vec![b']'; d]);
            check_compile(&ctx, &s);
            ctx.count("long");
        }
    });
    let n = ctx.n(20000, 400000);
    ctx.cases("src", n / 4, n, |i, rng| {
        let size = *rng.pick(&[3usize, 8, 20, 60, 200, 1000]);
        let s = gen_source(rng, size);
        if i < 3 {
            ctx.sample(json!({"source": String::from_utf8_lossy(&s[..s.len().min(120)])}));
        }
        check_compile(&ctx, &s);
    });
    ctx.section("easygen", || {
        let mut rng = ctx.rng("easygen", 0);
        for _ in 0..2000 {
            let s: String = (0..rng.below(20)).map(|_| char::from_u32(rng.below(0x800) as u32).unwrap_or('x')).collect();
            let w: Vec<Fr> = s.as_bytes().iter().map(|b| Fr::from(*b as u64)).collect();
            ctx.check(code::easygen(&s) == w, "easygen", || format!("{:?}", s));
            ctx.count("easygen");
        }
    });
    ctx.finish(&[("loops", 1000), ("with_comments", 100), ("long", 5)])
}

// ------------------------------------------------------------------- C02 / C03
const MEM_BOUND: usize = 1 << 30;

pub fn exec(prop: &str, p: &Prog, input: &[u64], bits: u64) -> Out<Interpreter> {
    let words = frs(&p.words);
    let inp = frs(input);
    guard_bounded(
        prop,
        || format!("program {} input {:?} bits {}", show(&p.src), input, bits),
        MEM_BOUND,
        || {
            let mut vm = Interpreter::new();
            vm.set_code(words);
            vm.set_input(inp);
            if bits != 8 {
                vm.set_bits(bits);
            }
            vm.run();
            vm
        },
    )
}

fn trim(mut v: Vec<Fr>) -> Vec<Fr> {
    while v.last() == Some(&Fr::zero()) {
        v.pop();
    }
    v
}

fn check_run(ctx: &Ctx, p: &Prog, input: &[u64], bits: u32, max: usize) -> bool {
    let (end, r) = run(p, input, bits, max);
    if end == End::Steps {
        return false;
    }
    let id = || format!("program {} input {:?} bits {}", show(&p.src), input, bits);
    match (exec(&ctx.property, p, input, bits as u64), end) {
        (Out::Ok(_), e @ (End::LeftTrap | End::InputTrap)) => {
            ctx.violation("no-trap", format!("{}: reference traps ({:?}) but the run completed", id(), e))
        }
        (Out::Panic(_), End::LeftTrap) => ctx.count("trap_left"),
        (Out::Panic(_), End::InputTrap) => ctx.count("trap_input"),
        (Out::Panic(m), _) => ctx.violation("run-panic", format!("{}: panicked: {}", id(), m)),
        (Out::Ok(vm), _) => {
            ctx.check(vm.matrix.output_matrix == frs(&r.output), "output", || {
                format!("{}: output {:?} want {:?}", id(), vm.matrix.output_matrix, r.output)
            });
            ctx.check(vm.matrix.input_matrix == frs(&input[..r.consumed]), "consumed", || {
                format!("{}: consumed {:?} want {:?}", id(), vm.matrix.input_matrix, &input[..r.consumed])
            });
            ctx.check(vm.input == frs(&input[r.consumed..]), "input-rest", || format!("{}: unread input {:?}", id(), vm.input));
            ctx.check(trim(vm.memory.clone()) == trim(frs(&r.tape)), "tape", || {
                format!("{}: tape {:?} want {:?}", id(), vm.memory, r.tape)
            });
            let last = r.rows.last().unwrap();
            let g = &vm.register;
            ctx.check(
                (g.cycle, g.instruction_pointer, g.memory_pointer, g.memory_value)
                    == (fr(last.clk), fr(last.ip), fr(last.mp), fr(last.mv)),
                "final-state",
                || format!("{}: final register {:?} want {:?}", id(), g, last),
            );
            for (n, f) in FEATS {
                if r.feat & f != 0 {
                    ctx.count(n);
                }
            }
            ctx.add("steps", r.rows.len() as u64);
            let mut key = p.cmds.clone();
            key.extend(input.iter().map(|x| *x as u8));
            key.push(bits as u8);
            ctx.eval(if r.rows.len() > 3 { Some(hash_bytes(&key)) } else { None });
        }
    }
    true
}

/// Runs that leave the ranges ordinary programs stay in: tapes past 30000 and 65536
/// cells, jump operands past 8 and 15 bits, more than 65536 cycles, long inputs.
fn long_programs(thorough: bool) -> Vec<(Vec<u8>, Vec<u64>)> {
    let rep = |c: u8, n: usize| vec![c; n];
    let mut v = vec![];
    v.push(([rep(b'>', 31000), b"+.".to_vec(), rep(b'<', 31000), b".".to_vec()].concat(), vec![]));
    v.push(([b"+[".to_vec(), rep(b'>', 30000), b",.]".to_vec()].concat(), vec![1, 1, 0]));
    v.push(([b"[".to_vec(), rep(b'+', 40000), b"]+[".to_vec(), rep(b'>', 9000), rep(b'<', 9000), b".-]+.".to_vec()].concat(), vec![]));
    v.push(([rep(b'+', 110), b"[>-[-]<-]>.".to_vec()].concat(), vec![]));
    v.push((b",[.,]".to_vec(), (0..4000).map(|i| if i == 3999 { 0 } else { 1 + i % 255 }).collect()));
    v.push(([b"+[".to_vec(), rep(b'>', 129), b"+".to_vec(), rep(b'<', 129), b"-]".to_vec(), rep(b'>', 129), b"[.-]".to_vec()].concat(), vec![]));
    if thorough {
        v.push((b"-[>-[>+<-]<-]>>.".to_vec(), vec![]));
        v.push(([b"+[".to_vec(), rep(b'>', 60000), b",.]".to_vec()].concat(), vec![1, 1, 1, 0]));
    }
    v
}

pub fn c02(ctx: Ctx) {
    ctx.rule("halting programs (structured loops, wrap-around, echo loops, copy/scan loops, random) and trapping programs, inputs weighted to 0/1/254/255, widths 1..32; oracle = independent interpreter of the source text; non-trivial = more than 2 executed commands, keyed by (commands, input, width)");
    ctx.set_budget(45, 1500);
    ctx.section("repo programs", || {
        for (name, s) in res_programs() {
            let p = Prog::parse(&s).unwrap();
            for inp in ["", "a", "Hello, World 123\n", "zZ"] {
                let mut inp: Vec<u64> = inp.bytes().map(|b| b as u64).collect();
                inp.push(0);
                inp.push(10);
                if check_run(&ctx, &p, &inp, 8, ctx.n(60_000, 600_000)) {
                    ctx.count("repo_program_runs");
                    ctx.sample(json!({"repo_program": name, "input": inp}));
                }
            }
        }
    });
    ctx.section("long", || {
        for (src, input) in long_programs(ctx.thorough()) {
            if check_run(&ctx, &Prog::parse(&src).unwrap(), &input, 8, 2_000_000) {
                ctx.count("long_runs");
            }
        }
    });
    let n = ctx.n(30000, 600000);
    ctx.cases("halt", n / 5, n, |i, rng| {
        let max = *rng.pick(&[60usize, 300, 1500, 6000]);
        let (p, input, _) = gen_halting(rng, max, false);
        if i < 3 {
            ctx.sample(json!({"program": show(&p.src), "input": input}));
        }
        check_run(&ctx, &p, &input, 8, max);
    });
    let n = ctx.n(3000, 40000);
    ctx.cases("trap", n / 4, n, |_, rng| {
        let (p, input, _) = gen_trapping(rng, 2000);
        check_run(&ctx, &p, &input, 8, 2000);
    });
    let n = ctx.n(6000, 60000);
    ctx.cases("width", n / 4, n, |_, rng| {
        let bits = rng.range(1, 32) as u32;
        let (p, mut input, _) = gen_halting(rng, 600, false);
        let m = if bits < 8 { 1u64 << bits } else { 256 };
        input.iter_mut().for_each(|x| *x %= m);
        if bits != 8 && check_run(&ctx, &p, &input, bits, 3000) {
            ctx.count("other_width");
        }
    });
    // one straight-line check of the wrap boundary for each width that is reachable
    ctx.section("wrap", || {
        for bits in 1..=12u32 {
            let m = 1usize << bits;
            for d in [m - 1, m, m + 1] {
                let mut s = vec![b'+'; d];
                s.extend_from_slice(b".--.[-]-.");
                check_run(&ctx, &Prog::parse(&s).unwrap(), &[], bits, 100_000);
                ctx.count("exact_wrap");
            }
        }
    });
    ctx.finish(&[
        ("wrap_up", 30),
        ("wrap_down", 30),
        ("lb_enter", 100),
        ("lb_skip", 100),
        ("rb_back", 100),
        ("rb_fall", 100),
        ("input", 100),
        ("trap_left", 50),
        ("trap_input", 50),
        ("other_width", 100),
        ("long_runs", 6),
    ])
}

pub fn check_trace(ctx: &Ctx, p: &Prog, input: &[u64], r: &Run) {
    let id = || format!("program {} input {:?}", show(&p.src), input);
    let vm = match exec(&ctx.property, p, input, 8) {
        Out::Ok(v) => v,
        Out::Panic(m) => {
            ctx.violation("run-panic", format!("{} panicked: {}", id(), m));
            return;
        }
    };
    let m = &vm.matrix;
    // processor rows
    if !ctx.check(m.processor_matrix.len() == r.rows.len(), "proc-len", || {
        format!("{}: {} processor rows, want {}", id(), m.processor_matrix.len(), r.rows.len())
    }) {
        return;
    }
    for (i, (g, w)) in m.processor_matrix.iter().zip(&r.rows).enumerate() {
        let inv = if w.mv == 0 {
            Fr::zero()
        } else {
            Option::<Fr>::from(fr(w.mv).invert()).unwrap()
        };
        let got = (g.cycle, g.instruction_pointer, g.current_instruction, g.next_instruction, g.memory_pointer, g.memory_value);
        let want = (fr(w.clk), fr(w.ip), fr(w.ci), fr(w.ni), fr(w.mp), fr(w.mv));
        if !ctx.check(got == want, "proc-row", || format!("{}: row {} is {:?}, want {:?}", id(), i, g, w)) {
            return;
        }
        let prod_ok = if w.mv == 0 {
            g.memory_value_inverse == Fr::zero()
        } else {
            g.memory_value * g.memory_value_inverse == Fr::one() && g.memory_value_inverse == inv
        };
        if !ctx.check(prod_ok, "proc-inverse", || format!("{}: row {} inverse of {}", id(), i, w.mv)) {
            return;
        }
    }
    // memory rows
    let mut want: Vec<(i128, i128, i128)> = r.rows.iter().map(|w| (w.mp, w.clk, w.mv)).collect();
    want.sort();
    let got: Vec<(Fr, Fr, Fr)> = m.memory_matrix.iter().map(|x| (x.memory_pointer, x.cycle, x.memory_value)).collect();
    let wantf: Vec<(Fr, Fr, Fr)> = want.iter().map(|(a, b, c)| (fr(*a), fr(*b), fr(*c))).collect();
    ctx.check(got == wantf, "mem-rows", || {
        let at = got.iter().zip(&wantf).position(|(a, b)| a != b);
        format!("{}: memory trace differs at {:?} (len {} want {})", id(), at, got.len(), wantf.len())
    });
    ctx.check(m.memory_matrix.iter().all(|x| x.interweave_indicator == Fr::zero()), "mem-indicator", || id());
    // instruction rows
    let mut want: Vec<(i128, i128, i128)> = (0..p.words.len() as i128)
        .map(|i| (i, p.word(i) as i128, p.word(i + 1) as i128))
        .chain(r.rows.iter().map(|w| (w.ip, w.ci, w.ni)))
        .collect();
    want.sort();
    let got: Vec<(Fr, Fr, Fr)> = m
        .instruction_matrix
        .iter()
        .map(|x| (x.instruction_pointer, x.current_instruction, x.next_instruction))
        .collect();
    let wantf: Vec<(Fr, Fr, Fr)> = want.iter().map(|(a, b, c)| (fr(*a), fr(*b), fr(*c))).collect();
    ctx.check(got == wantf, "inst-rows", || {
        let at = got.iter().zip(&wantf).position(|(a, b)| a != b);
        format!("{}: instruction trace differs at {:?} (len {} want {})", id(), at, got.len(), wantf.len())
    });
    ctx.check(m.program == frs(&p.words), "program", || format!("{}: program column", id()));
    ctx.check(m.input_matrix == frs(&input[..r.consumed]), "input", || format!("{}: input column {:?}", id(), m.input_matrix));
    ctx.check(m.output_matrix == frs(&r.output), "output", || format!("{}: output column {:?}", id(), m.output_matrix));
    for (n, f) in FEATS {
        if r.feat & f != 0 {
            ctx.count(n);
        }
    }
    ctx.add("rows", r.rows.len() as u64);
    let mut key = p.cmds.clone();
    key.extend(input.iter().map(|x| *x as u8));
    ctx.eval(if r.rows.len() > 3 { Some(hash_bytes(&key)) } else { None });
}

pub fn c03(ctx: Ctx) {
    ctx.rule("halting programs as in C02; every recorded row of every table compared with the reference trace; non-trivial = more than 2 executed commands, keyed by (commands, input)");
    ctx.set_budget(45, 1500);
    ctx.section("one-instruction", || {
        for s in ["+", "-", ".", ">", ",", "[]", "[-]", "[.]+", "><", "+[-]"] {
            let p = Prog::parse(s.as_bytes()).unwrap();
            let inp = [7u64];
            let (e, r) = run(&p, &inp, 8, 100);
            assert_eq!(e, End::Halt);
            check_trace(&ctx, &p, &inp, &r);
        }
    });
    ctx.section("repo programs", || {
        for (_, s) in res_programs() {
            let p = Prog::parse(&s).unwrap();
            for inp in ["a", "Hi\n"] {
                let mut inp: Vec<u64> = inp.bytes().map(|b| b as u64).collect();
                inp.extend([0, 10]);
                let (e, r) = run(&p, &inp, 8, ctx.n(60_000, 600_000));
                if e == End::Halt {
                    check_trace(&ctx, &p, &inp, &r);
                    ctx.count("repo_program_runs");
                }
            }
        }
    });
    ctx.section("long", || {
        for (src, input) in long_programs(ctx.thorough()) {
            let p = Prog::parse(&src).unwrap();
            let (e, r) = run(&p, &input, 8, 2_000_000);
            assert_eq!(e, End::Halt);
            check_trace(&ctx, &p, &input, &r);
            ctx.count("long_runs");
        }
    });
    let n = ctx.n(30000, 600000);
    ctx.cases("halt", n / 5, n, |i, rng| {
        let max = *rng.pick(&[60usize, 300, 1500, 6000]);
        let (p, input, r) = gen_halting(rng, max, false);
        if i < 3 {
            ctx.sample(json!({"program": show(&p.src), "input": input, "rows": r.rows.len()}));
        }
        check_trace(&ctx, &p, &input, &r);
    });
    ctx.finish(&[("rows", 10000), ("long_runs", 6), ("wrap_up", 20), ("wrap_down", 20), ("revisit", 50), ("lb_skip", 100), ("rb_back", 100), ("input", 100)])
}
