//! Reference Brainfuck semantics, written on the source text and independent of
//! the code under test, plus program generators and a deliberately wrong VM.
use kit::Rng;

pub const CMDS: &[u8] = b"<>+-,.[]";

#[derive(Clone, Debug)]
pub struct Prog {
    pub src: Vec<u8>,
    pub cmds: Vec<u8>,
    pub mate: Vec<usize>,
    /// compiled position of each command; pos[cmds.len()] = compiled length
    pub pos: Vec<usize>,
    pub words: Vec<u64>,
}

impl Prog {
    /// None if brackets do not balance.
    pub fn parse(src: &[u8]) -> Option<Prog> {
        let cmds: Vec<u8> = src.iter().copied().filter(|c| CMDS.contains(c)).collect();
        let mut mate = vec![usize::MAX; cmds.len()];
        let mut st = vec![];
        for (i, c) in cmds.iter().enumerate() {
            if *c == b'[' {
                st.push(i)
            } else if *c == b']' {
                let j = st.pop()?;
                mate[i] = j;
                mate[j] = i;
            }
        }
        if !st.is_empty() {
            return None;
        }
        let mut pos = vec![0; cmds.len() + 1];
        for i in 0..cmds.len() {
            pos[i + 1] = pos[i] + if cmds[i] == b'[' || cmds[i] == b']' { 2 } else { 1 };
        }
        let mut words = vec![];
        for i in 0..cmds.len() {
            words.push(cmds[i] as u64);
            if mate[i] != usize::MAX {
                words.push((pos[mate[i]] + 2) as u64);
            }
        }
        assert_eq!(words.len(), pos[cmds.len()]);
        Some(Prog {
            src: src.to_vec(),
            cmds,
            mate,
            pos,
            words,
        })
    }
    pub fn word(&self, i: i128) -> u64 {
        if i < 0 {
            0
        } else {
            self.words.get(i as usize).copied().unwrap_or(0)
        }
    }
}

/// One state, in plain integers (signed so that forged traces may go negative).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Row {
    pub clk: i128,
    pub ip: i128,
    pub ci: i128,
    pub ni: i128,
    pub mp: i128,
    pub mv: i128,
}

#[derive(Clone, Debug, Default)]
pub struct Run {
    pub rows: Vec<Row>,
    pub output: Vec<u64>,
    pub consumed: usize,
    pub tape: Vec<u64>,
    pub head: usize,
    pub feat: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Halt,
    LeftTrap,
    InputTrap,
    Steps,
}

pub const F_WRAP_UP: u32 = 1;
pub const F_WRAP_DOWN: u32 = 2;
pub const F_LB_TAKEN: u32 = 4;
pub const F_LB_SKIP: u32 = 8;
pub const F_RB_BACK: u32 = 16;
pub const F_RB_FALL: u32 = 32;
pub const F_IN: u32 = 64;
pub const F_OUT: u32 = 128;
pub const F_LEFT: u32 = 256;
pub const F_GROW: u32 = 512;
pub const F_REVISIT: u32 = 1024;
pub const F_IN_ZERO: u32 = 2048;
pub const FEATS: [(&str, u32); 12] = [
    ("wrap_up", 1),
    ("wrap_down", 2),
    ("lb_enter", 4),
    ("lb_skip", 8),
    ("rb_back", 16),
    ("rb_fall", 32),
    ("input", 64),
    ("output", 128),
    ("left", 256),
    ("grow", 512),
    ("revisit", 1024),
    ("input_zero", 2048),
];

/// Execute the source semantics. The trace has one row per executed command plus the final row.
pub fn run(p: &Prog, input: &[u64], bits: u32, max_steps: usize) -> (End, Run) {
    let m: u128 = 1u128 << bits;
    let mut r = Run {
        tape: vec![0],
        ..Default::default()
    };
    let mut pc = 0usize;
    let mut clk = 0i128;
    let row = |pc: usize, clk: i128, head: usize, tape: &Vec<u64>| {
        let ip = p.pos[pc] as i128;
        Row {
            clk,
            ip,
            ci: p.word(ip) as i128,
            ni: p.word(ip + 1) as i128,
            mp: head as i128,
            mv: tape[head] as i128,
        }
    };
    loop {
        r.rows.push(row(pc, clk, r.head, &r.tape));
        if pc >= p.cmds.len() {
            return (End::Halt, r);
        }
        if r.rows.len() > max_steps {
            return (End::Steps, r);
        }
        let h = r.head;
        match p.cmds[pc] {
            b'<' => {
                if h == 0 {
                    return (End::LeftTrap, r);
                }
                r.head -= 1;
                r.feat |= F_LEFT;
                pc += 1;
            }
            b'>' => {
                r.head += 1;
                if r.head == r.tape.len() {
                    r.tape.push(0);
                    r.feat |= F_GROW;
                } else {
                    r.feat |= F_REVISIT;
                }
                pc += 1;
            }
            b'+' => {
                if (r.tape[h] as u128) == m - 1 {
                    r.feat |= F_WRAP_UP;
                }
                r.tape[h] = ((r.tape[h] as u128 + 1) % m) as u64;
                pc += 1;
            }
            b'-' => {
                if r.tape[h] == 0 {
                    r.feat |= F_WRAP_DOWN;
                }
                r.tape[h] = ((r.tape[h] as u128 + m - 1) % m) as u64;
                pc += 1;
            }
            b',' => {
                if r.consumed >= input.len() {
                    return (End::InputTrap, r);
                }
                r.tape[h] = input[r.consumed];
                if input[r.consumed] == 0 {
                    r.feat |= F_IN_ZERO;
                }
                r.consumed += 1;
                r.feat |= F_IN;
                pc += 1;
            }
            b'.' => {
                r.output.push(r.tape[h]);
                r.feat |= F_OUT;
                pc += 1;
            }
            b'[' => {
                if r.tape[h] == 0 {
                    pc = p.mate[pc] + 1;
                    r.feat |= F_LB_SKIP;
                } else {
                    pc += 1;
                    r.feat |= F_LB_TAKEN;
                }
            }
            b']' => {
                if r.tape[h] != 0 {
                    pc = p.mate[pc] + 1;
                    r.feat |= F_RB_BACK;
                } else {
                    pc += 1;
                    r.feat |= F_RB_FALL;
                }
            }
            _ => unreachable!(),
        }
        clk += 1;
    }
}

// ------------------------------------------------------------------ generators
fn comment(rng: &mut Rng, out: &mut Vec<u8>) {
    match rng.below(4) {
        0 => out.extend_from_slice(b" \n"),
        1 => out.push(b"abcXYZ019()*/\\\"'{}=;:!?@#$%^&_|~`"[rng.below(31)]),
        2 => out.push(128 + rng.below(128) as u8),
        _ => out.push(rng.below(32) as u8),
    }
}

fn with_comments(rng: &mut Rng, code: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for c in code {
        while rng.chance(1, 6) {
            let mut t = vec![];
            comment(rng, &mut t);
            out.extend(t.into_iter().filter(|x| !CMDS.contains(x)));
        }
        out.push(*c);
    }
    out
}

fn rep(out: &mut Vec<u8>, c: u8, n: usize) {
    for _ in 0..n {
        out.push(c)
    }
}

fn straight(rng: &mut Rng, out: &mut Vec<u8>, n: usize, pos: &mut isize, io: bool) {
    for _ in 0..n {
        match rng.below(if io { 9 } else { 7 }) {
            0 => {
                if *pos > 0 {
                    out.push(b'<');
                    *pos -= 1;
                }
            }
            1 => {
                out.push(b'>');
                *pos += 1;
            }
            2 | 3 => out.push(b'+'),
            4 => out.push(b'-'),
            5 => {
                let k = rng.range(1, 5);
                rep(out, *rng.clone_pick(b"+-"), k);
            }
            6 | 7 => out.push(b'.'),
            _ => out.push(b','),
        }
    }
}

trait ClonePick {
    fn clone_pick<'a>(&mut self, xs: &'a [u8]) -> &'a u8;
}
impl ClonePick for Rng {
    fn clone_pick<'a>(&mut self, xs: &'a [u8]) -> &'a u8 {
        &xs[self.below(xs.len())]
    }
}

fn structured(rng: &mut Rng, out: &mut Vec<u8>, depth: usize, pos: &mut isize) {
    for _ in 0..rng.range(1, 4) {
        match rng.below(10) {
            0 | 1 => {
                let n = rng.range(1, 6);
                straight(rng, out, n, pos, true)
            }
            2 => out.extend_from_slice(b"[-]"),
            3 => {
                // skipped loop over a zero cell
                out.extend_from_slice(b"[-]");
                out.push(b'[');
                if depth > 0 {
                    let mut p = *pos;
                    structured(rng, out, depth - 1, &mut p);
                    while p > *pos {
                        out.push(b'<');
                        p -= 1;
                    }
                    while p < *pos {
                        out.push(b'>');
                        p += 1;
                    }
                } else {
                    out.extend_from_slice(b"+.");
                }
                out.push(b']');
            }
            4 | 5 | 6 => {
                // counted loop; body leaves the counter alone
                let n = rng.range(1, 5);
                rep(out, b'+', n);
                out.push(b'[');
                out.push(b'>');
                let base = *pos + 1;
                let mut p = base;
                if depth > 0 && rng.chance(1, 2) {
                    structured(rng, out, depth - 1, &mut p);
                } else {
                    let k = rng.range(1, 4);
                    straight_right(rng, out, k, &mut p, base);
                }
                while p > base {
                    out.push(b'<');
                    p -= 1;
                }
                while p < base {
                    out.push(b'>');
                    p += 1;
                }
                out.push(b'<');
                out.push(b'-');
                out.push(b']');
            }
            7 => {
                // echo until zero
                out.extend_from_slice(b",[.,]");
            }
            8 => {
                // move right and scan back
                out.extend_from_slice(b">+>+>+[<]>");
                *pos += 1;
            }
            _ => {
                // copy loop
                out.extend_from_slice(b"[>+>+<<-]>>[<<+>>-]<<");
            }
        }
    }
}

fn straight_right(rng: &mut Rng, out: &mut Vec<u8>, n: usize, pos: &mut isize, base: isize) {
    for _ in 0..n {
        match rng.below(6) {
            0 => {
                out.push(b'>');
                *pos += 1;
            }
            1 => {
                if *pos > base {
                    out.push(b'<');
                    *pos -= 1;
                } else {
                    out.push(b'+');
                }
            }
            2 | 3 => out.push(b'+'),
            4 => out.push(b'-'),
            _ => out.push(b'.'),
        }
    }
}

fn random_balanced(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut depth = 0;
    for _ in 0..n {
        match rng.below(10) {
            0 => {
                out.push(b'[');
                depth += 1;
            }
            1 => {
                if depth > 0 {
                    out.push(b']');
                    depth -= 1;
                }
            }
            2 => out.push(b'<'),
            3 => out.push(b'>'),
            4 | 5 => out.push(b'+'),
            6 | 7 => out.push(b'-'),
            8 => out.push(b'.'),
            _ => out.push(b','),
        }
    }
    rep(&mut out, b']', depth);
    out
}

/// Any balanced source text (it need not halt).
pub fn gen_source(rng: &mut Rng, size: usize) -> Vec<u8> {
    let n = rng.range(0, size.max(1));
    let code = match rng.below(6) {
        0 => random_balanced(rng, n),
        1 => {
            let mut o = vec![];
            let mut p = 0;
            structured(rng, &mut o, 3, &mut p);
            o
        }
        2 => {
            // deep nesting
            let d = rng.range(1, n.max(1));
            let mut o = vec![];
            rep(&mut o, b'[', d);
            o.push(*rng.clone_pick(b"+-.,<>"));
            rep(&mut o, b']', d);
            o
        }
        3 => {
            // wide: many adjacent loops
            let mut o = vec![];
            for _ in 0..n {
                o.extend_from_slice(*rng.pick(&[&b"[]"[..], b"[-]", b"[[]]", b"+[>]", b"[][.]"]))
            }
            o
        }
        _ => random_balanced(rng, n),
    };
    if rng.chance(2, 3) {
        with_comments(rng, &code)
    } else {
        code
    }
}

/// A program and an input on which it halts in at most `max_steps`, reading the
/// whole input if `exact_input`.
pub fn gen_halting(rng: &mut Rng, max_steps: usize, exact_input: bool) -> (Prog, Vec<u64>, Run) {
    loop {
        let mut code = vec![];
        match rng.below(8) {
            0 => code = {
                let n = rng.range(1, 24);
                random_balanced(rng, n)
            },
            1 => {
                // around the wrap points
                let mut p = 0;
                let up = rng.bool();
                let n = rng.range(253, 260);
                if rng.chance(1, 2) && max_steps > 320 {
                    rep(&mut code, if up { b'+' } else { b'-' }, n);
                } else {
                    rep(&mut code, b'-', rng.range(1, 3));
                    rep(&mut code, b'+', rng.range(1, 4));
                }
                let n = rng.range(0, 4);
                straight(rng, &mut code, n, &mut p, true);
            }
            2 => {
                let mut p = 0;
                let n = rng.range(1, 12);
                straight(rng, &mut code, n, &mut p, true);
            }
            3 => code.push(*rng.clone_pick(b"+-.>,")),
            _ => {
                let mut p = 0;
                structured(rng, &mut code, 2, &mut p);
            }
        }
        if code.is_empty() {
            continue;
        }
        let src = if rng.chance(1, 3) { with_comments(rng, &code) } else { code };
        let prog = Prog::parse(&src).expect("balanced");
        if prog.cmds.is_empty() {
            continue;
        }
        // input: boundary-weighted bytes
        let mut input: Vec<u64> = (0..rng.range(0, 10))
            .map(|_| match rng.below(6) {
                0 => 0,
                1 => 255,
                2 => 1,
                3 => 254,
                _ => rng.below(256) as u64,
            })
            .collect();
        input.extend([0, 0, 0]);
        let (end, r) = run(&prog, &input, 8, max_steps);
        if end != End::Halt {
            continue;
        }
        if exact_input {
            input.truncate(r.consumed);
            if input.is_empty() && rng.chance(1, 2) {
                // prefer programs that use their input
                if prog.cmds.contains(&b',') {
                    continue;
                }
            }
        }
        return (prog, input, r);
    }
}

/// A program that must trap: it goes left of cell 0 (and touches) or over-reads.
pub fn gen_trapping(rng: &mut Rng, max_steps: usize) -> (Prog, Vec<u64>, End) {
    loop {
        let mut code = vec![];
        let mut p = 0;
        let n = rng.range(0, 8);
        straight(rng, &mut code, n, &mut p, true);
        let left = rng.bool();
        if left {
            rep(&mut code, b'<', (p + 1) as usize + rng.below(3));
            code.push(*rng.clone_pick(b"+-.,"));
            let mut q = 5;
            let n = rng.range(0, 4);
            straight(rng, &mut code, n, &mut q, false);
            if rng.chance(1, 3) {
                code.extend_from_slice(b"[-]");
            }
        } else {
            rep(&mut code, b',', rng.range(1, 4));
            code.push(b'.');
        }
        let prog = Prog::parse(&code).unwrap();
        let ncommas = code.iter().filter(|c| **c == b',').count();
        let input: Vec<u64> = if left {
            (0..ncommas).map(|_| rng.below(256) as u64).collect()
        } else {
            (0..rng.below(ncommas)).map(|_| rng.below(256) as u64).collect()
        };
        let (end, _) = run(&prog, &input, 8, max_steps);
        if end == End::LeftTrap || end == End::InputTrap {
            return (prog, input, end);
        }
    }
}
