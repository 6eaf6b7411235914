//! C07/C08: the prover command and the on-chain verifier, observed at the transaction.
use bfref::*;
use ckb_bf_base::main_config::MyCircuit;
use ckb_bf_base::utils::DOMAIN;
use ckb_bf_vm::interpreter::Interpreter;
use ckb_bf_vm::matrix::Matrix;
use halo2_proofs::plonk::{create_proof, keygen_pk, keygen_vk, VerifyingKey};
use halo2_proofs::poly::commitment::{Params, ParamsProver};
use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
use halo2_proofs::poly::kzg::multiopen::ProverSHPLONK;
use halo2_proofs::transcript::{Blake2bWrite, Challenge255, TranscriptWriterBuffer};
use halo2_proofs::SerdeFormat;
use halo2curves::bn256::{Bn256, Fr, G1Affine, G2Affine};
use halo2curves::serde::SerdeObject;
use kit::*;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[global_allocator]
static A: kit::BoundAlloc = kit::BoundAlloc;

#[derive(Debug, PartialEq, Clone)]
enum Verdict {
    Accept,
    Code(i8),
    Abort(String),
}

fn verify(w: &[Vec<u8>]) -> Verdict {
    ckb_std::HOST.with(|h| {
        let mut h = h.borrow_mut();
        h.witnesses = w.to_vec();
        h.loads.clear();
        h.log.clear();
    });
    match guard(verifier_host::program_entry) {
        Out::Ok(0) => Verdict::Accept,
        Out::Ok(c) => Verdict::Code(c),
        Out::Panic(m) => Verdict::Abort(m),
    }
}

fn last_log() -> String {
    ckb_std::HOST.with(|h| h.borrow().log.last().cloned().unwrap_or_default())
}

// -------------------------------------------------------------- scratch folder
struct Scratch {
    dir: PathBuf,
    binary: Vec<u8>,
}
static SEQ: AtomicUsize = AtomicUsize::new(0);
impl Scratch {
    fn new(rng: &mut Rng) -> Scratch {
        let dir = PathBuf::from(format!("/verif/target/scratch/tx-{}-{}", std::process::id(), SEQ.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(dir.join("res")).unwrap();
        let b = dir.join("target/riscv64imac-unknown-none-elf/release");
        std::fs::create_dir_all(&b).unwrap();
        let n = rng.range(1, 5000);
        let binary = rng.bytes(n);
        std::fs::write(b.join("ckb_bf_verifier"), &binary).unwrap();
        Scratch { dir, binary }
    }
    fn prover(&self, src: &[u8], input: Option<&str>) -> Result<J, String> {
        std::fs::write(self.dir.join("p.bf"), src).unwrap();
        let _ = std::fs::remove_file(self.dir.join("res/tx.json"));
        let exe = std::env::current_exe().unwrap().parent().unwrap().join("prover_bin");
        let mut c = Command::new(exe);
        c.arg("p.bf").current_dir(&self.dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
        c.env_remove("RUST_LOG").env("RUST_BACKTRACE", "0");
        if let Some(i) = input {
            c.arg(i);
        }
        let mut child = c.spawn().map_err(|e| format!("spawn: {}", e))?;
        let t0 = std::time::Instant::now();
        while matches!(child.try_wait(), Ok(None)) {
            if t0.elapsed().as_secs() > 400 {
                let _ = child.kill();
                let _ = child.wait();
                return Err("prover still running after 400 s".into());
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        let o = child.wait_with_output().map_err(|e| format!("wait: {}", e))?;
        if !o.status.success() {
            let e = String::from_utf8_lossy(&o.stderr).to_string();
            return Err(format!("prover failed ({:?}): {}", o.status, e.chars().take(400).collect::<String>()));
        }
        let s = std::fs::read_to_string(self.dir.join("res/tx.json")).map_err(|e| format!("no tx.json: {}", e))?;
        serde_json::from_str(&s).map_err(|e| format!("tx.json: {}", e))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn unhex(j: &J) -> Result<Vec<u8>, String> {
    let s = j.as_str().ok_or("not a string")?.strip_prefix("0x").ok_or("no 0x")?;
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|e| e.to_string())).collect()
}

fn witnesses(tx: &J) -> Result<Vec<Vec<u8>>, String> {
    tx["tx"]["witnesses"].as_array().ok_or("no witnesses")?.iter().map(unhex).collect()
}

fn ckb_hash(b: &[u8]) -> Vec<u8> {
    blake2b_simd::Params::new().hash_length(32).personal(b"ckb-default-hash").to_state().update(b).finalize().as_bytes().to_vec()
}

fn code_bytes(words: &[u64]) -> Vec<u8> {
    words.iter().flat_map(|w| (*w as u16).to_le_bytes()).collect()
}

/// run the prover and check the transaction it writes
fn prove_case(ctx: &Ctx, s: &Scratch, p: &Prog, input: Option<&str>, what: &str) -> Option<Vec<Vec<u8>>> {
    let inp = input.unwrap_or("");
    let id = || {
        format!(
            "{}: program {} ({} words) input {:?} ({} bytes)",
            what,
            String::from_utf8_lossy(&p.cmds[..p.cmds.len().min(120)]),
            p.words.len(),
            inp.chars().take(60).collect::<String>(),
            inp.len()
        )
    };
    ctx.eval(Some(hash_bytes(&[&p.cmds[..], inp.as_bytes()].concat())));
    let tx = match s.prover(&p.src, input) {
        Ok(t) => t,
        Err(e) => {
            ctx.violation(&format!("prover-fails:{}", what), format!("{}: {}", id(), e));
            return None;
        }
    };
    let w = match witnesses(&tx) {
        Ok(w) => w,
        Err(e) => {
            ctx.violation("tx-malformed", format!("{}: {}", id(), e));
            return None;
        }
    };
    if !ctx.check(w.len() >= 5, "tx-malformed", || id()) {
        return None;
    }
    ctx.check(w[3] == code_bytes(&p.words), "tx-code", || format!("{}: code witness {}", id(), hex(&w[3])));
    ctx.check(w[4] == inp.as_bytes(), "tx-input", || format!("{}: input witness {}", id(), hex(&w[4])));
    let lock = unhex(&tx["mock_info"]["inputs"][0]["output"]["lock"]["code_hash"]).unwrap_or_default();
    let data = unhex(&tx["mock_info"]["cell_deps"][0]["data"]).unwrap_or_default();
    ctx.check(data == s.binary, "tx-binary", || format!("{}: embedded binary differs", id()));
    ctx.check(lock == ckb_hash(&s.binary), "tx-lock", || format!("{}: lock code hash {}", id(), hex(&lock)));
    let v = verify(&w);
    ctx.check(v == Verdict::Accept, &format!("verifier-refuses:{}", what), || format!("{}: {:?}; {}", id(), v, last_log()));
    ctx.count("transactions_verified");
    ctx.count(what);
    ctx.sample(json!({"case": what, "program": String::from_utf8_lossy(&p.cmds[..p.cmds.len().min(60)]), "input_len": inp.len(), "vk_len": w[1].len(), "proof_len": w[2].len()}));
    Some(w)
}

/// straight program whose instruction table has exactly `l` rows
fn sized(l: usize) -> Vec<u8> {
    let m = if (l - 1) % 2 == 0 { 0 } else { 1 };
    let n = (l - 1 - 3 * m) / 2;
    let mut s = vec![];
    if m == 1 {
        s.extend_from_slice(b"[]");
    }
    s.extend(vec![b'+'; n]);
    s
}

fn gen_text(rng: &mut Rng) -> (Prog, String) {
    if rng.chance(1, 2) {
        loop {
            let (p, input, _) = gen_halting(rng, 150, true);
            let b: Vec<u8> = input.iter().map(|x| *x as u8).collect();
            if b.contains(&0) {
                continue;
            }
            if let Ok(s) = String::from_utf8(b) {
                return (p, s);
            }
        }
    }
    let n = rng.range(1, 12);
    let mut s = String::new();
    while s.len() < n {
        s.push(*rng.pick(&['a', '\u{1}', '\u{7f}', 'é', '中', '😀', '\n', ' ']));
    }
    let mut code = vec![];
    for _ in 0..s.len() {
        code.push(b',');
        code.extend_from_slice(*rng.pick(&[&b"."[..], b">", b"+.", b"-", b"[-]", b"[.[-]]", b""]));
    }
    (Prog::parse(&code).unwrap(), s)
}

fn c07(ctx: Ctx) {
    ctx.rule("the real prover command in a scratch folder on generated program files and inputs, table sizes around powers of two, the verifier's size limits, fresh / reused / torn parameter caches; the transaction is parsed independently and given to the real verifier source; non-trivial = distinct (program, input)");
    ctx.set_budget(240, 2400);
    // the limits of the verifier (1024 code words, 1024 input bytes) first, they take longest,
    // then table sizes around the powers of two the prover rounds to
    let mut limits: Vec<(Vec<u8>, usize)> = vec![];
    for n in [1024usize, 1023] {
        // n words, most of them skipped; n input bytes, read in a loop
        limits.push(([&b",,,>["[..], &vec![b'+'; n - 8], b"]"].concat(), 3));
        let m = n / 4;
        limits.push(([&vec![b','; n - 4 * m][..], b">++++[>", &vec![b','; m], b"<-]"].concat(), n));
    }
    if ctx.thorough() {
        limits.push((vec![b','; 1024], 1024));
        limits.push((vec![b','; 1023], 1023));
    }
    let mut sizes: Vec<usize> = vec![500, 505, 506, 507, 508, 510, 511, 512, 513];
    if ctx.thorough() {
        sizes.extend(490..520);
        sizes.extend(1010..1030);
        sizes.extend(2036..2054);
    } else {
        sizes.extend([1018, 1024]);
    }
    let total = limits.len() + sizes.len();
    let f_sizes = |i: usize, rng: &mut Rng| {
        let s = Scratch::new(rng);
        if i < limits.len() {
            let (code, inp) = (limits[i].0.clone(), limits[i].1);
            let text: String = (0..inp).map(|j| (b'a' + (j % 26) as u8) as char).collect();
            let p = Prog::parse(&code).unwrap();
            prove_case(&ctx, &s, &p, Some(&text), "limits");
        } else {
            let p = Prog::parse(&sized(sizes[i - limits.len()])).unwrap();
            prove_case(&ctx, &s, &p, None, "table_size");
        }
    };
    let f_random = |_: usize, rng: &mut Rng| {
        let s = Scratch::new(rng);
        let (p, text) = gen_text(rng);
        let arg = if text.is_empty() && rng.bool() { None } else { Some(&text[..]) };
        prove_case(&ctx, &s, &p, arg, "random");
    };
    // histories of runs over one parameter cache
    let f_history = |i: usize, rng: &mut Rng| {
        let s = Scratch::new(rng);
        let mut files: Vec<PathBuf> = vec![];
        for step in 0..3 {
            let (p, text) = if rng.chance(1, 3) { (Prog::parse(&sized(*rng.pick(&[40usize, 40, 530]))).unwrap(), String::new()) } else { gen_text(rng) };
            prove_case(&ctx, &s, &p, Some(&text), "cache_reused");
            files = std::fs::read_dir(s.dir.join("res")).unwrap().flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "bin")).collect();
            if step == 1 && i % 2 == 0 {
                // a run that was interrupted while it wrote its cache
                for f in &files {
                    let b = std::fs::read(f).unwrap();
                    let cut = match rng.below(4) {
                        0 => 0,
                        1 => rng.below(8),
                        2 => b.len() - 1,
                        _ => rng.below(b.len()),
                    };
                    std::fs::write(f, &b[..cut]).unwrap();
                }
                let (p, text) = gen_text(rng);
                prove_case(&ctx, &s, &p, Some(&text), "cache_torn");
            }
        }
        ctx.add("cache_files", files.len() as u64);
    };
    // the repository's own programs that fit
    let f_repo = |i: usize, rng: &mut Rng| {
        let (name, inp) = [("hello_world.bf", ""), ("neptune_tutorial.bf", "a"), ("wrapping_op.bf", ""), ("to_upper.bf", "")][i];
        let Ok(src) = std::fs::read(Path::new("/repo/res").join(name)) else { return };
        let Some(p) = Prog::parse(&src) else { return };
        let bytes: Vec<u64> = inp.bytes().map(|b| b as u64).collect();
        let (e, r) = run(&p, &bytes, 8, 3000);
        if e != End::Halt || r.consumed != bytes.len() || p.words.len() > 1024 {
            return;
        }
        let s = Scratch::new(rng);
        prove_case(&ctx, &s, &p, if inp.is_empty() { None } else { Some(inp) }, "repo_program");
    };
    // one pool, longest jobs first
    let (nh, nr) = (ctx.n(4, 60), ctx.n(14, 600));
    ctx.cases("prover", 4 + total + 4 + 12, nh + total + 4 + nr, |i, rng| {
        if i < 4 {
            f_history(i, rng)
        } else if i < 4 + total {
            f_sizes(i - 4, rng)
        } else if i < total + 8 {
            f_repo(i - total - 4, rng)
        } else if i < total + 8 + nr {
            f_random(i, rng)
        } else {
            f_history(i, rng)
        }
    });
    let _ = std::fs::remove_dir("/verif/target/scratch");
    ctx.finish(&[("table_size", 11), ("limits", 4), ("random", 12), ("cache_reused", 6), ("cache_torn", 2)])
}

// ------------------------------------------------------------------------ C08
fn prove_lib(m: Matrix, words: &[u64], input: &[u64], k: u32, rng: &mut Rng) -> Option<Vec<Vec<u8>>> {
    let col = |xs: &[u64]| -> Vec<Fr> { std::iter::once(xs.len() as u64).chain(xs.iter().copied()).map(Fr::from).collect() };
    let (a, b) = (col(words), col(input));
    let circuit = MyCircuit::<Fr, { DOMAIN }>::new(m);
    guard(|| {
        let params = ParamsKZG::<Bn256>::unsafe_setup_with_s(k, Fr::from(42));
        let vk = keygen_vk(&params, &circuit).ok()?;
        let pk = keygen_pk(&params, vk, &circuit).ok()?;
        let mut t = Blake2bWrite::<_, G1Affine, Challenge255<_>>::init(vec![]);
        create_proof::<KZGCommitmentScheme<Bn256>, ProverSHPLONK<'_, Bn256>, _, _, _, _>(&params, &pk, &[circuit], &[&[&a, &b]], &mut *rng, &mut t).ok()?;
        let mut vk = vec![];
        pk.get_vk().write(&mut vk, SerdeFormat::RawBytes).ok()?;
        let mut vp = params.verifier_params().clone();
        vp.shrink(ckb_bf_base::SHRINK_K);
        let mut pb = vec![];
        vp.write(&mut pb).ok()?;
        Some(vec![pb, vk, t.finalize(), code_bytes(words), input.iter().map(|x| *x as u8).collect()])
    })
    .ok()
    .flatten()
}

fn pinned(vk: &[u8]) -> Option<String> {
    guard(|| {
        VerifyingKey::<G1Affine>::read::<&[u8], MyCircuit<Fr, DOMAIN>>(&mut &vk[..], SerdeFormat::RawBytes)
            .ok()
            .map(|v| format!("{:?}", v.pinned()))
    })
    .ok()
    .flatten()
}

fn c08(ctx: Ctx) {
    ctx.rule("valid transactions from the real prover, then witness faults: every proof byte, code words, input bytes, verifying key bytes, parameter points, truncation, extension beyond the limits, missing or permuted witnesses, parts of other transactions, proofs made for forged traces; the verifier source must never return 0; non-trivial = a distinct faulted transaction that differs in what it states");
    ctx.set_budget(60, 1800);
    let txs: Mutex<Vec<(Prog, Vec<u8>, Vec<Vec<u8>>)>> = Mutex::new(vec![]);
    let nbase = ctx.n(6, 24);
    ctx.cases("base", nbase, nbase, |i, rng| {
        let s = Scratch::new(rng);
        let (p, text) = match i {
            0 => (Prog::parse(b"+.").unwrap(), String::new()),
            1 => (Prog::parse(b",.,+.").unwrap(), "az".to_string()),
            2 => (Prog::parse(b",.,+.").unwrap(), "bz".to_string()),
            _ => loop {
                let x = gen_text(rng);
                if !x.1.is_empty() {
                    break x;
                }
            },
        };
        match s.prover(&p.src, Some(&text)).and_then(|t| witnesses(&t)) {
            Ok(w) => {
                let v = verify(&w);
                if v != Verdict::Accept {
                    ctx.inconclusive(&format!("honest transaction refused (C07): {:?}", v));
                    return;
                }
                ctx.count("valid_transactions");
                txs.lock().unwrap().push((p, text.into_bytes(), w));
            }
            Err(e) => ctx.inconclusive(&format!("prover (C07): {}", e)),
        }
    });
    let mut txs = txs.into_inner().unwrap();
    txs.sort_by(|a, b| (&a.0.src, &a.1).cmp(&(&b.0.src, &b.1)));
    if txs.is_empty() {
        ctx.inconclusive("no valid transaction");
        ctx.finish(&[]);
    }
    let stats: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let expect_refusal = |kind: &str, w: &[Vec<u8>], id: &dyn Fn() -> String| {
        let v = verify(w);
        ctx.check(v != Verdict::Accept, &format!("accepted:{}", kind), || format!("{}: verifier returned 0", id()));
        let key = match &v {
            Verdict::Accept => "accept".to_string(),
            Verdict::Code(c) => format!("code {}", c),
            Verdict::Abort(_) => "abort".into(),
        };
        *stats.lock().unwrap().entry(key).or_insert(0) += 1;
        ctx.count(&format!("fault_{}", kind));
        ctx.eval(Some(hash_bytes(&w.concat())));
    };
    let name = |t: &(Prog, Vec<u8>, Vec<Vec<u8>>)| format!("program {} input {:?}", String::from_utf8_lossy(&t.0.cmds), String::from_utf8_lossy(&t.1));

    // every proof byte of the first transactions (sampled bits), random ones for the others
    let plen = txs[0].2[2].len();
    ctx.cases("proof-bytes", plen, plen, |i, rng| {
        let t = &txs[rng.below(txs.len())];
        let mut w = t.2.clone();
        let at = i % w[2].len();
        let bit = if at % 32 == 31 { rng.range(4, 7) } else { rng.below(8) };
        w[2][at] ^= 1 << bit;
        expect_refusal("proof_bit", &w, &|| format!("{}: proof byte {} bit {} flipped", name(t), at, bit));
    });
    let n = ctx.n(2500, 60000);
    ctx.cases("faults", n / 5, n, |_, rng| {
        let ti = rng.below(txs.len());
        let t = &txs[ti];
        let other = &txs[rng.below(txs.len())];
        let mut w = t.2.clone();
        let kind = rng.below(17);
        let kind = match kind {
            0 => {
                let n = rng.below(w[2].len());
                w[2].truncate(n);
                "proof_truncated"
            }
            1 => {
                let a = rng.below(w[2].len() / 32) * 32;
                let b = rng.below(w[2].len() / 32) * 32;
                for j in 0..32 {
                    w[2].swap(a + j, b + j);
                }
                "proof_swap"
            }
            2 => {
                let a = rng.below(w[2].len() / 32) * 32;
                let v = match rng.below(3) {
                    0 => vec![0u8; 32],
                    1 => rng.bytes(32),
                    _ => {
                        let mut v = vec![0u8; 32];
                        v[0] = 1;
                        v
                    }
                };
                w[2][a..a + 32].copy_from_slice(&v);
                "proof_element"
            }
            3 => {
                w[2] = other.2[2].clone();
                "proof_of_other"
            }
            4 => {
                let i = rng.below(w[3].len());
                w[3][i] ^= 1 << rng.below(8);
                "code_bit"
            }
            5 => {
                let n = rng.below(w[3].len());
                w[3].truncate(n);
                "code_truncated"
            }
            6 => {
                for _ in 0..rng.range(1, 4) {
                    w[3].extend((*rng.pick(&[0u16, b'+' as u16, b']' as u16])).to_le_bytes());
                }
                "code_extended"
            }
            7 => {
                w[3] = other.2[3].clone();
                "code_of_other"
            }
            8 => {
                if w[4].is_empty() {
                    w[4].push(rng.below(256) as u8);
                } else {
                    let i = rng.below(w[4].len());
                    w[4][i] ^= 1 << rng.below(8);
                }
                "input_changed"
            }
            9 => {
                let x = *rng.pick(&[0u8, 1, 97]);
                let i = if rng.bool() { 0 } else { w[4].len() };
                w[4].insert(i, x);
                "input_extended"
            }
            10 => {
                let n = if w[4].is_empty() { 0 } else { rng.below(w[4].len()) };
                w[4].truncate(n);
                "input_truncated"
            }
            11 => {
                w[4] = other.2[4].clone();
                "input_of_other"
            }
            12 => {
                let i = rng.below(w[1].len());
                w[1][i] ^= 1 << rng.below(8);
                "vk_bit"
            }
            13 => {
                if rng.bool() {
                    w[1] = other.2[1].clone();
                } else {
                    let n = rng.below(w[1].len());
                    w[1].truncate(n);
                }
                "vk_other"
            }
            14 => {
                // parameters: another g, g2 or s*g2
                let k = Fr::from(2 + rng.below(1000) as u64);
                let g1 = G1Affine::from(G1Affine::generator() * k).to_raw_bytes();
                let g2 = G2Affine::from(G2Affine::generator() * k).to_raw_bytes();
                let (a, b) = (w[0].len() - 256, w[0].len() - 128);
                let old = w[0].clone();
                match rng.below(4) {
                    0 => w[0][4..68].copy_from_slice(&g1),
                    1 => w[0][a..b].copy_from_slice(&g2),
                    2 => w[0][b..].copy_from_slice(&g2),
                    _ => {
                        let i = *rng.pick(&[rng.clone().range(4, 67), rng.clone().range(a, w[0].len() - 1)]);
                        w[0][i] ^= 1 << rng.below(8);
                    }
                }
                if w[0] == old {
                    return;
                }
                "params"
            }
            15 => {
                match rng.below(3) {
                    0 => {
                        let n = rng.below(5);
                        w.truncate(n);
                    }
                    1 => {
                        let i = rng.below(5);
                        w[i].clear();
                        if w[i] == t.2[i] {
                            return;
                        }
                    }
                    _ => {
                        let (i, j) = (rng.below(5), rng.below(5));
                        if w[i] == w[j] {
                            return;
                        }
                        w.swap(i, j);
                    }
                }
                "witness_dropped"
            }
            _ => {
                let i = rng.below(5);
                let limit = [1024usize, 4096, 8192, 2048, 1024][i];
                let n = limit + 1 + rng.below(3000);
                let old = w[i].len();
                w[i].resize(n.max(old + 1), 0);
                "oversize"
            }
        };
        if w == t.2 {
            return;
        }
        // a statement is (code, input); the key and the proof only have to be other ones
        if w[..] == other.2[..] {
            return;
        }
        if (kind == "vk_bit" || kind == "vk_other") && pinned(&w[1]).is_some() && pinned(&w[1]) == pinned(&t.2[1]) {
            ctx.count("vk_bits_without_meaning");
            return;
        }
        if kind == "proof_of_other" && w[3] == other.2[3] && w[4] == other.2[4] {
            return;
        }
        expect_refusal(kind, &w, &|| format!("{}: {}", name(t), kind));
    });
    // proofs made by a dishonest prover with its own key
    let n = ctx.n(10, 120);
    ctx.cases("forged", 6, n, |i, rng| {
        let (p, input, r) = loop {
            let x = gen_halting(rng, 60, true);
            if x.2.rows.len() > 3 {
                break x;
            }
        };
        let Some(mut vm) = guard(|| {
            let mut vm = Interpreter::new();
            vm.set_code(p.words.iter().map(|x| Fr::from(*x)).collect());
            vm.set_input(input.iter().map(|x| Fr::from(*x)).collect());
            vm.run();
            vm
        })
        .ok() else {
            return;
        };
        let id = || format!("program {} input {:?} steps {}", String::from_utf8_lossy(&p.cmds), input, r.rows.len());
        let m = &mut vm.matrix;
        let mut words = p.words.clone();
        let mut inp = input.clone();
        let t = rng.range(1, m.processor_matrix.len() - 1);
        let kind = match if i == 0 { 9 } else { rng.below(7) } {
            0 => {
                m.processor_matrix[t].memory_value += Fr::one();
                "forged_value"
            }
            1 => {
                m.output_matrix.push(Fr::from(7));
                "forged_output"
            }
            2 => {
                let c = m.memory_matrix[t].cycle;
                let j = m.processor_matrix.iter().position(|q| q.cycle == c).unwrap();
                m.memory_matrix[t].memory_value += Fr::one();
                m.processor_matrix[j].memory_value += Fr::one();
                "forged_memory"
            }
            3 => {
                inp.push(0);
                "forged_input"
            }
            4 => {
                words.push(b'+' as u64);
                "forged_code"
            }
            5 => {
                m.processor_matrix[t].cycle += Fr::one();
                m.memory_matrix.iter_mut().for_each(|q| q.cycle += Fr::one());
                "forged_clock"
            }
            6 => {
                m.processor_matrix[t].instruction_pointer += Fr::one();
                "forged_pointer"
            }
            _ => "honest",
        };
        if kind == "honest" {
            let m = std::mem::take(m);
            if let Some(w) = prove_lib(m, &words, &inp, 10, rng) {
                let v = verify(&w);
                if v != Verdict::Accept {
                    ctx.inconclusive(&format!("{}: library proof refused {:?}", id(), v));
                }
                ctx.count("forge_path_sound");
            }
            return;
        }
        let m = std::mem::take(m);
        if let Some(w) = prove_lib(m, &words, &inp, 10, rng) {
            expect_refusal(kind, &w, &|| format!("{}: {}", id(), kind));
            ctx.count("forged_proofs");
        } else {
            ctx.count("forged_refused_by_prover");
        }
    });
    for (k, v) in stats.into_inner().unwrap() {
        ctx.add(&format!("verdict_{}", k), v);
    }
    let _ = std::fs::remove_dir("/verif/target/scratch");
    ctx.sample(json!({"base_transactions": txs.iter().map(|t| json!({"program": String::from_utf8_lossy(&t.0.cmds), "input": String::from_utf8_lossy(&t.1), "proof_len": t.2[2].len(), "vk_len": t.2[1].len(), "params_len": t.2[0].len()})).collect::<Vec<_>>()}));
    ctx.finish(&[
        ("valid_transactions", 4),
        ("fault_proof_bit", 500),
        ("fault_code_bit", 20),
        ("fault_input_changed", 20),
        ("fault_vk_bit", 20),
        ("fault_params", 20),
        ("fault_witness_dropped", 20),
        ("fault_oversize", 20),
        ("fault_code_extended", 20),
        ("fault_input_extended", 20),
        ("forge_path_sound", 1),
    ])
}

fn main() {
    let ctx = Ctx::from_args();
    match ctx.property.as_str() {
        "C07" => c07(ctx),
        "C08" => c08(ctx),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2)
        }
    }
}
