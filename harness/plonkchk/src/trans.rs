//! C18: the three transcripts, writing and reading, as histories.
use crate::math::scalar;
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{Curve, GroupEncoding};
use halo2_proofs::arithmetic::FieldExt;
use halo2_proofs::halo2curves::bn256::G1Affine;
use halo2_proofs::halo2curves::pasta::{EpAffine, EqAffine};
use halo2_proofs::halo2curves::secp256k1::Secp256k1Affine;
use halo2_proofs::halo2curves::CurveAffine;
use halo2_proofs::io;
use halo2_proofs::transcript::*;
use kit::*;
use serde_json::json;
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Op<C: CurveAffine> {
    /// absorbed and sent
    WP(C),
    WS(C::ScalarExt),
    /// absorbed by both sides, not sent
    CP(C),
    CS(C::ScalarExt),
    /// a challenge
    Sq,
    /// a challenge taken through the typed interface
    SqT,
}
use Op::*;

/// counts what is read
struct Pieces<'a> {
    data: &'a [u8],
    taken: Rc<Cell<usize>>,
}
impl<'a> io::Read for Pieces<'a> {
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if buf.len() > self.data.len() {
            return Err("no more data");
        }
        buf.copy_from_slice(&self.data[..buf.len()]);
        self.data = &self.data[buf.len()..];
        self.taken.set(self.taken.get() + buf.len());
        Ok(())
    }
}

/// everything one curve and one transcript offer, without the init/finalize differences
trait Tr {
    type C: CurveAffine;
    const NAME: &'static str;
    const TAGGED: bool;
    const CURVE: &'static str;
    /// proof and challenges
    fn write(ops: &[Op<Self::C>]) -> Result<(Vec<u8>, Vec<<Self::C as CurveAffine>::ScalarExt>), String>;
    /// reads what `write` wrote; values in order, challenges, bytes consumed; `sent` false:
    /// the reader absorbs the sent elements as common ones instead
    fn read(ops: &[Op<Self::C>], proof: &[u8], sent: bool) -> Result<(Vec<Op<Self::C>>, Vec<<Self::C as CurveAffine>::ScalarExt>, usize), String>;
    /// into a buffer of limited size
    fn write_limited(ops: &[Op<Self::C>], room: usize) -> Result<usize, String>;
}

macro_rules! apply {
    ($t:ident, $op:expr, $ch:ident) => {
        match $op {
            WP(p) => $t.write_point(*p).map_err(|e| format!("{:?}", e))?,
            WS(s) => $t.write_scalar(*s).map_err(|e| format!("{:?}", e))?,
            CP(p) => $t.common_point(*p).map_err(|e| format!("{:?}", e))?,
            CS(s) => $t.common_scalar(*s).map_err(|e| format!("{:?}", e))?,
            Sq => {
                // the encoding and the scalar are the same number
                let c = $t.squeeze_challenge();
                let s = c.get_scalar();
                if s.to_repr().as_ref() != &c[..] || s != *c.as_challenge_scalar::<()>() {
                    return Err("challenge encoding".into());
                }
                $ch.push(s)
            }
            SqT => $ch.push(*$t.squeeze_challenge_scalar::<()>()),
        }
    };
}

macro_rules! tr {
    ($name:ident, $C:ty, $W:ident, $R:ident, $label:expr, $curve:expr, $tagged:expr) => {
        struct $name;
        impl Tr for $name {
            type C = $C;
            const NAME: &'static str = $label;
            const CURVE: &'static str = $curve;
            const TAGGED: bool = $tagged;
            fn write(ops: &[Op<$C>]) -> Result<(Vec<u8>, Vec<<$C as CurveAffine>::ScalarExt>), String> {
                let mut t = $W::<Vec<u8>, $C, Challenge255<$C>>::init(vec![]);
                let mut ch = vec![];
                for op in ops {
                    apply!(t, op, ch);
                }
                Ok((t.finalize(), ch))
            }
            fn read(ops: &[Op<$C>], proof: &[u8], sent: bool) -> Result<(Vec<Op<$C>>, Vec<<$C as CurveAffine>::ScalarExt>, usize), String> {
                let taken = Rc::new(Cell::new(0));
                let mut t = $R::<Pieces, $C, Challenge255<$C>>::init(Pieces { data: proof, taken: taken.clone() });
                let (mut vals, mut ch) = (vec![], vec![]);
                for op in ops {
                    match op {
                        WP(p) if !sent => t.common_point(*p).map_err(|e| format!("{:?}", e))?,
                        WS(p) if !sent => t.common_scalar(*p).map_err(|e| format!("{:?}", e))?,
                        WP(_) => vals.push(WP(t.read_point().map_err(|e| format!("{:?}", e))?)),
                        WS(_) => vals.push(WS(t.read_scalar().map_err(|e| format!("{:?}", e))?)),
                        CP(p) => t.common_point(*p).map_err(|e| format!("{:?}", e))?,
                        CS(p) => t.common_scalar(*p).map_err(|e| format!("{:?}", e))?,
                        Sq => ch.push(t.squeeze_challenge().get_scalar()),
                        SqT => ch.push(*t.squeeze_challenge_scalar::<()>()),
                    }
                }
                Ok((vals, ch, taken.get()))
            }
            fn write_limited(ops: &[Op<$C>], room: usize) -> Result<usize, String> {
                let mut buf = vec![0u8; room];
                let left;
                {
                    let mut t = $W::<&mut [u8], $C, Challenge255<$C>>::init(&mut buf[..]);
                    let mut ch = Vec::<<$C as CurveAffine>::ScalarExt>::new();
                    for op in ops {
                        apply!(t, op, ch);
                    }
                    left = t.finalize().len();
                }
                Ok(room - left)
            }
        }
    };
}
tr!(BlBn, G1Affine, Blake2bWrite, Blake2bRead, "blake2b", "bn256", true);
tr!(BlEq, EqAffine, Blake2bWrite, Blake2bRead, "blake2b", "vesta", true);
tr!(BlEp, EpAffine, Blake2bWrite, Blake2bRead, "blake2b", "pallas", true);
tr!(BlSe, Secp256k1Affine, Blake2bWrite, Blake2bRead, "blake2b", "secp256k1", true);
tr!(KeBn, G1Affine, Keccak256Write, Keccak256Read, "keccak", "bn256", true);
tr!(KeEq, EqAffine, Keccak256Write, Keccak256Read, "keccak", "vesta", true);
tr!(KeEp, EpAffine, Keccak256Write, Keccak256Read, "keccak", "pallas", true);
tr!(KeSe, Secp256k1Affine, Keccak256Write, Keccak256Read, "keccak", "secp256k1", true);
tr!(PoBn, G1Affine, PoseidonWrite, PoseidonRead, "poseidon", "bn256", false);
tr!(PoEq, EqAffine, PoseidonWrite, PoseidonRead, "poseidon", "vesta", false);
tr!(PoEp, EpAffine, PoseidonWrite, PoseidonRead, "poseidon", "pallas", false);

fn point<C: CurveAffine>(rng: &mut Rng, infinity: bool) -> C
where
    C::ScalarExt: FieldExt,
{
    loop {
        let p = match rng.below(6) {
            0 => C::generator(),
            1 => -C::generator(),
            2 if infinity => C::identity(),
            3 => (C::generator() * C::ScalarExt::from(rng.below(5) as u64)).to_affine(),
            _ => (C::generator() * scalar::<C::ScalarExt>(rng)).to_affine(),
        };
        if infinity || !bool::from(p.is_identity()) {
            return p;
        }
    }
}

/// what the hash has seen up to each challenge; None for untagged streams whose structure differs
fn stream<C: CurveAffine>(ops: &[Op<C>], tagged: bool) -> Vec<Vec<u8>> {
    let mut s = vec![];
    let mut out = vec![];
    for op in ops {
        match op {
            WP(p) | CP(p) => {
                if tagged {
                    s.push(1)
                }
                if bool::from(p.is_identity()) {
                    // stands for (0, 0)
                    s.extend(vec![0u8; 64]);
                } else {
                    let c = p.coordinates().unwrap();
                    s.extend_from_slice(c.x().to_repr().as_ref());
                    s.extend_from_slice(c.y().to_repr().as_ref());
                }
            }
            WS(x) | CS(x) => {
                if tagged {
                    s.push(2)
                }
                s.extend_from_slice(x.to_repr().as_ref())
            }
            Sq | SqT => {
                s.push(0);
                out.push(s.clone());
            }
        }
    }
    out
}

fn history<C: CurveAffine>(rng: &mut Rng, infinity: bool) -> Vec<Op<C>>
where
    C::ScalarExt: FieldExt,
{
    let len = match rng.below(4) {
        0 => rng.range(1, 4),
        1 => rng.range(6, 20),
        _ => rng.range(3, 12),
    };
    let mut v: Vec<Op<C>> = (0..len)
        .map(|_| match rng.below(8) {
            0 => WP(point(rng, infinity)),
            1 | 2 => WS(scalar(rng)),
            3 => CP(point(rng, infinity)),
            4 => CS(scalar(rng)),
            5 => Sq,
            6 => SqT,
            _ => WP(point(rng, infinity)),
        })
        .collect();
    v.push(Sq);
    v
}

fn case<T: Tr>(ctx: &Ctx, rng: &mut Rng)
where
    <T::C as CurveAffine>::ScalarExt: FieldExt,
{
    type F<T> = <<T as Tr>::C as CurveAffine>::ScalarExt;
    // pasta transcripts refuse the identity
    let infinity = T::CURVE == "bn256" || T::CURVE == "secp256k1";
    let name = format!("{}/{}", T::NAME, T::CURVE);
    let h = history::<T::C>(rng, infinity);
    let d = |what: &str, x: &dyn std::fmt::Debug| format!("{} {} {:?} history {:?}", name, what, x, h);
    ctx.eval(Some(hash_bytes(format!("{}{:?}", name, h).as_bytes())));
    ctx.count(&format!("history_{}", T::NAME));
    let (proof, ch) = match guard(|| T::write(&h)) {
        Out::Ok(Ok(x)) => x,
        e => {
            let m = match e {
                Out::Ok(Err(m)) => m,
                Out::Panic(m) => m,
                _ => unreachable!(),
            };
            ctx.violation("writing fails", d(&m, &""));
            return;
        }
    };
    // lock step
    let sent: Vec<Op<T::C>> = h.iter().filter(|o| matches!(o, WP(_) | WS(_))).cloned().collect();
    let want: Vec<u8> = sent
        .iter()
        .flat_map(|o| match o {
            WP(p) => p.to_bytes().as_ref().to_vec(),
            WS(s) => s.to_repr().as_ref().to_vec(),
            _ => vec![],
        })
        .collect();
    ctx.check(proof == want, "proof is not the sent elements", || d("proof", &hex(&proof)));
    let extra = rng.bytes(rng.clone().below(40));
    let mut longer = proof.clone();
    longer.extend_from_slice(&extra);
    match guard(|| T::read(&h, &longer, true)) {
        Out::Ok(Ok((vals, c2, taken))) => {
            ctx.check(vals == sent, "values read differ from those written", || d("read", &vals));
            ctx.check(c2 == ch, "challenges differ between writer and reader", || d("challenges", &(&ch, &c2)));
            ctx.check(taken == proof.len(), "reader position", || d("bytes", &(taken, proof.len())));
            ctx.add("challenges_compared", c2.len() as u64);
        }
        e => {
            ctx.violation("reading fails", d("read", &format!("{:?}", match e { Out::Ok(Err(m)) => m, Out::Panic(m) => m, _ => unreachable!() })));
            return;
        }
    }
    match guard(|| T::read(&h, &[], false)) {
        Out::Ok(Ok((_, c2, taken))) => {
            ctx.check(c2 == ch && taken == 0, "challenges differ when elements are absorbed as common ones", || d("", &""));
        }
        _ => {
            ctx.violation("absorbing fails", d("", &""));
        }
    }
    // challenges identify what was absorbed before them
    let st = stream(&h, T::TAGGED);
    let mut seen: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
    for (s, c) in st.iter().zip(&ch) {
        seen.insert(c.to_repr().as_ref().to_vec(), s.clone());
    }
    ctx.check(seen.len() == ch.len(), "two challenges of one history are equal", || d("", &ch));
    for _ in 0..6 {
        let mut g = h.clone();
        let elems: Vec<usize> = (0..g.len()).filter(|i| !matches!(g[*i], Sq | SqT)).collect();
        let i = if elems.is_empty() { continue } else { *rng.pick(&elems) };
        let what = match rng.below(10) {
            0 | 1 | 2 => {
                // one bit of one element
                match &mut g[i] {
                    WS(s) | CS(s) => {
                        let bit = rng.below(254);
                        let mut r = s.to_repr();
                        r.as_mut()[bit / 8] ^= 1 << (bit % 8);
                        match Option::<F<T>>::from(F::<T>::from_repr(r)) {
                            Some(x) => *s = x,
                            None => continue,
                        }
                    }
                    WP(p) | CP(p) => {
                        if rng.bool() {
                            *p = -*p
                        } else {
                            *p = (p.to_curve() + T::C::generator()).to_affine()
                        }
                    }
                    _ => unreachable!(),
                }
                "bit"
            }
            3 => {
                g[i] = match &g[i] {
                    WS(_) => WS(scalar(rng)),
                    CS(_) => CS(scalar(rng)),
                    WP(_) => WP(point(rng, infinity)),
                    _ => CP(point(rng, infinity)),
                };
                "replaced"
            }
            4 => {
                let j = *rng.pick(&elems);
                g.swap(i, j);
                "swapped"
            }
            5 => {
                // the same bytes as two scalars
                match &g[i] {
                    WP(p) | CP(p) if T::TAGGED && !bool::from(p.is_identity()) => {
                        let c = p.coordinates().unwrap();
                        let mut conv = |b: &[u8]| {
                            let mut r = <F<T> as PrimeField>::Repr::default();
                            r.as_mut().copy_from_slice(b);
                            Option::<F<T>>::from(F::<T>::from_repr(r))
                        };
                        match (conv(c.x().to_repr().as_ref()), conv(c.y().to_repr().as_ref())) {
                            (Some(a), Some(b)) => {
                                g[i] = CS(a);
                                g.insert(i + 1, CS(b));
                            }
                            _ => continue,
                        }
                    }
                    _ => continue,
                }
                "kind"
            }
            6 if T::TAGGED => {
                g.remove(i);
                "removed"
            }
            7 if T::TAGGED => {
                let x = g[i].clone();
                g.insert(i, x);
                "repeated"
            }
            8 if T::TAGGED => {
                let at = rng.below(g.len());
                g.insert(at, Sq);
                "challenge inserted"
            }
            9 if T::TAGGED => {
                let sq: Vec<usize> = (0..g.len() - 1).filter(|i| matches!(g[*i], Sq | SqT)).collect();
                if sq.is_empty() {
                    continue;
                }
                g.remove(*rng.pick(&sq));
                "challenge removed"
            }
            _ => {
                let at = rng.below(g.len());
                g.insert(at, CS(F::<T>::random(&mut *rng)));
                "inserted"
            }
        };
        if !infinity && g.iter().any(|o| matches!(o, WP(p) | CP(p) if bool::from(p.is_identity()))) {
            continue;
        }
        let st2 = stream(&g, T::TAGGED);
        let ch2 = match guard(|| T::write(&g)) {
            Out::Ok(Ok((_, c))) => c,
            _ => {
                ctx.violation("writing fails", d("altered", &g));
                continue;
            }
        };
        ctx.count(&format!("altered: {}", what));
        for (s, c) in st2.iter().zip(&ch2) {
            let same = seen.get(&c.to_repr().as_ref().to_vec());
            // equal exactly when everything before is equal
            let was = st.iter().any(|x| x == s);
            if was {
                ctx.check(same == Some(s), "equal histories give different challenges", || d(what, &g));
            } else {
                ctx.count("different_challenges");
                ctx.check(same.is_none(), "different histories give the same challenge", || d(what, &g));
            }
        }
    }
    // bad input
    if !proof.is_empty() {
        let cut = rng.below(proof.len());
        ctx.check(matches!(guard(|| T::read(&h, &proof[..cut], true)), Out::Ok(Err(_))), "truncated proof is not an error", || d("cut", &cut));
        ctx.count("truncated");
        let room = rng.below(proof.len());
        ctx.check(matches!(guard(|| T::write_limited(&h, room)), Out::Ok(Err(_))), "full writer is not an error", || d("room", &room));
        ctx.check(matches!(guard(|| T::write_limited(&h, proof.len() + 3)), Out::Ok(Ok(n)) if n == proof.len()), "bounded writer", || d("", &""));
        // spoil one element
        let i = rng.below(sent.len());
        let off: usize = sent[..i]
            .iter()
            .map(|o| match o {
                WP(p) => p.to_bytes().as_ref().len(),
                WS(s) => s.to_repr().as_ref().len(),
                _ => 0,
            })
            .sum();
        let mut bad = proof.clone();
        let (n, isp) = match &sent[i] {
            WP(p) => (p.to_bytes().as_ref().len(), true),
            WS(s) => (s.to_repr().as_ref().len(), false),
            _ => unreachable!(),
        };
        let el = &mut bad[off..off + n];
        match rng.below(5) {
            0 => el.iter_mut().for_each(|b| *b = 0xff),
            1 if !isp => {
                // the order of the field, and a bit more
                let m1 = (-F::<T>::one()).to_repr().as_ref().to_vec();
                let mut carry = 1 + rng.below(3) as u16;
                for (b, x) in el.iter_mut().zip(m1) {
                    let v = x as u16 + carry;
                    *b = v as u8;
                    carry = v >> 8;
                }
            }
            2 => {
                let r = rng.bytes(n);
                el.copy_from_slice(&r)
            }
            _ => {
                let b = rng.below(n);
                el[b] ^= 1 << rng.below(8)
            }
        }
        let now = bad[off..off + n].to_vec();
        // is it an encoding, by its own decoder (C13, C14 decide that), and of what
        let valid: Option<Op<T::C>> = if isp {
            let mut r = <T::C as GroupEncoding>::Repr::default();
            r.as_mut().copy_from_slice(&now);
            Option::<T::C>::from(T::C::from_bytes(&r)).filter(|p| infinity || !bool::from(p.is_identity())).map(WP)
        } else {
            let mut r = <F<T> as PrimeField>::Repr::default();
            r.as_mut().copy_from_slice(&now);
            Option::<F<T>>::from(F::<T>::from_repr(r)).map(WS)
        };
        let got = guard(|| T::read(&h, &bad, true));
        match valid {
            None => {
                ctx.count("invalid_encoding");
                ctx.check(matches!(got, Out::Ok(Err(_))), "invalid encoding is not an error", || d("element", &hex(&now)));
            }
            Some(v) => {
                ctx.count("other_encoding");
                let mut hh = h.clone();
                let at = (0..h.len()).filter(|j| matches!(h[*j], WP(_) | WS(_))).nth(i).unwrap();
                hh[at] = v.clone();
                let want = T::write(&hh).map(|x| x.1);
                match got {
                    Out::Ok(Ok((vals, c, _))) => {
                        ctx.check(vals[i] == v && Ok(c) == want, "altered proof is read differently from its history", || d("element", &hex(&now)));
                    }
                    _ => {
                        ctx.violation("valid altered proof is refused", d("element", &hex(&now)));
                    }
                }
            }
        }
    }
    // the identity, where it has no coordinates
    if !infinity && rng.chance(1, 4) {
        let mut g = h.clone();
        let at = rng.below(g.len());
        let id = T::C::identity();
        g.insert(at, if rng.bool() { WP(id) } else { CP(id) });
        ctx.count("identity_refused");
        ctx.check(matches!(guard(|| T::write(&g)), Out::Ok(Err(_))), "identity is not an error", || d("", &at));
        let bytes = id.to_bytes().as_ref().to_vec();
        ctx.check(matches!(guard(|| T::read(&[WP(id)], &bytes, true)), Out::Ok(Err(_))), "identity in a proof is not an error", || d("", &at));
    }
    ctx.sample(json!({"transcript": name, "ops": h.len(), "challenges": ch.len(), "proof_bytes": proof.len()}));
}

pub fn c18(ctx: Ctx) {
    ctx.rule("random histories of sent/common points and scalars (edge values, negations, identity where it has coordinates) and challenges, on 3 transcripts x bn256, both pasta curves, secp256k1 (Blake2b, Keccak): writer against reader, against a reader that absorbs the elements as common ones; per history up to six alterations (one bit, negated point, replaced, swapped, point given as two scalars, removed, repeated, inserted, challenge inserted/removed) where two challenges must be equal exactly when all that precedes them is equal; truncated, spoiled and full buffers; non-trivial = distinct histories");
    ctx.assume("two different histories giving equal challenges by chance is impossible at this size; Poseidon absorbs without tags, so only alterations keeping the history's structure (or inserting random elements) are judged there");
    ctx.set_budget(25, 300);
    ctx.cases("c18", 200, ctx.n(1200, 60000), |i, rng| match i % 8 {
        0 => case::<BlBn>(&ctx, rng),
        1 => case::<BlEq>(&ctx, rng),
        2 => case::<BlEp>(&ctx, rng),
        3 => case::<BlSe>(&ctx, rng),
        4 => case::<KeBn>(&ctx, rng),
        5 => case::<KeEq>(&ctx, rng),
        6 => case::<KeEp>(&ctx, rng),
        _ => case::<KeSe>(&ctx, rng),
    });
    // slow to set up
    ctx.cases("c18-poseidon", 60, ctx.n(240, 4000), |i, rng| match i % 3 {
        0 => case::<PoBn>(&ctx, rng),
        1 => case::<PoEq>(&ctx, rng),
        _ => case::<PoEp>(&ctx, rng),
    });
    ctx.finish(&[("history_blake2b", 50), ("history_keccak", 50), ("history_poseidon", 30), ("different_challenges", 500), ("invalid_encoding", 10), ("truncated", 50)])
}
