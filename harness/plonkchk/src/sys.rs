//! The proving systems under one interface: scheme x multi-open x transcript x strategy.
use crate::gen::Fl;
use halo2_proofs::halo2curves::bn256::{Bn256, Fr, G1Affine};
use halo2_proofs::halo2curves::pasta::{EpAffine, EqAffine, Fp, Fq};
use halo2_proofs::halo2curves::CurveAffine;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::ParamsProver;
use halo2_proofs::poly::ipa::{
    commitment::{IPACommitmentScheme, ParamsIPA},
    multiopen::{ProverIPA, VerifierIPA},
    strategy as ipas,
};
use halo2_proofs::poly::kzg::{
    commitment::{KZGCommitmentScheme, ParamsKZG},
    multiopen::{ProverGWC, ProverSHPLONK, VerifierGWC, VerifierSHPLONK},
    strategy as kzgs,
};
use halo2_proofs::poly::VerificationStrategy;
use halo2_proofs::io;
use halo2_proofs::transcript::*;
use kit::Rng;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub const TRANSCRIPTS: [&str; 3] = ["blake2b", "keccak", "poseidon"];

pub struct Item<'a, C: CurveAffine> {
    pub vk: &'a VerifyingKey<C>,
    pub inst: &'a [Vec<Vec<C::Scalar>>],
    pub proof: &'a [u8],
}

/// what a verifier's transcript saw
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Common,
    Point,
    Scalar,
    /// a challenge
    Chal(String),
}
pub struct Log<T> {
    inner: T,
    pub ev: Vec<Ev>,
}
impl<C: CurveAffine, T: Transcript<C, Challenge255<C>>> Transcript<C, Challenge255<C>> for Log<T> {
    fn squeeze_challenge(&mut self) -> Challenge255<C> {
        let c = self.inner.squeeze_challenge();
        self.ev.push(Ev::Chal(format!("{:?}", c.get_scalar())));
        c
    }
    fn common_point(&mut self, p: C) -> io::Result<()> {
        self.ev.push(Ev::Common);
        self.inner.common_point(p)
    }
    fn common_scalar(&mut self, s: C::Scalar) -> io::Result<()> {
        self.ev.push(Ev::Common);
        self.inner.common_scalar(s)
    }
}
impl<C: CurveAffine, T: TranscriptRead<C, Challenge255<C>>> TranscriptRead<C, Challenge255<C>> for Log<T> {
    fn read_point(&mut self) -> io::Result<C> {
        self.ev.push(Ev::Point);
        self.inner.read_point()
    }
    fn read_scalar(&mut self) -> io::Result<C::Scalar> {
        self.ev.push(Ev::Scalar);
        self.inner.read_scalar()
    }
}

pub trait Sys {
    /// verify and record what the transcript saw
    fn trace(p: &Self::P, it: &Item<Self::C>, tr: usize) -> (bool, Vec<Ev>);
    type F: Fl;
    type C: CurveAffine<ScalarExt = Self::F>;
    type P;
    const NAME: &'static str;
    fn new_params(k: u32) -> Self::P;
    fn params(k: u32) -> Rc<Self::P>;
    fn keygen<Ci: Circuit<Self::F>>(p: &Self::P, c: &Ci) -> Result<ProvingKey<Self::C>, Error>;
    fn keygen_vk<Ci: Circuit<Self::F>>(p: &Self::P, c: &Ci) -> Result<VerifyingKey<Self::C>, Error>;
    fn keygen_pk<Ci: Circuit<Self::F>>(p: &Self::P, vk: VerifyingKey<Self::C>, c: &Ci) -> Result<ProvingKey<Self::C>, Error>;
    fn prove<Ci: Circuit<Self::F>>(
        p: &Self::P,
        pk: &ProvingKey<Self::C>,
        c: &[Ci],
        inst: &[Vec<Vec<Self::F>>],
        tr: usize,
        rng: &mut Rng,
    ) -> Result<Vec<u8>, Error>;
    /// the single-proof strategy
    fn verify(p: &Self::P, it: &Item<Self::C>, tr: usize) -> bool;
    /// the accumulating strategy over all items, in order; None if an item was refused early
    fn verify_acc(p: &Self::P, its: &[Item<Self::C>], tr: usize) -> bool;
    /// the batch verifier (IPA with Blake2b only)
    fn verify_batch(_p: &Self::P, _vk: &VerifyingKey<Self::C>, _its: &[Item<Self::C>]) -> Option<bool> {
        None
    }
}

macro_rules! refs {
    ($inst:expr, $v:ident) => {
        let a: Vec<Vec<&[_]>> = $inst.iter().map(|x| x.iter().map(|y| &y[..]).collect()).collect();
        let $v: Vec<&[&[_]]> = a.iter().map(|x| &x[..]).collect();
    };
}

macro_rules! system {
    ($name:ident, $label:expr, $F:ty, $C:ty, $P:ty, $Scheme:ty, $Prover:ty, $Verifier:ty, $mod:ident, $batch:tt) => {
        pub struct $name;
        impl Sys for $name {
            type F = $F;
            type C = $C;
            type P = $P;
            const NAME: &'static str = $label;
            fn new_params(k: u32) -> $P {
                <$P>::new(k)
            }
            fn params(k: u32) -> Rc<$P> {
                thread_local!(static CACHE: RefCell<HashMap<u32, Rc<$P>>> = RefCell::new(HashMap::new()));
                CACHE.with(|c| c.borrow_mut().entry(k).or_insert_with(|| Rc::new(Self::new_params(k))).clone())
            }
            fn keygen<Ci: Circuit<$F>>(p: &$P, c: &Ci) -> Result<ProvingKey<$C>, Error> {
                let vk = keygen_vk(p, c)?;
                keygen_pk(p, vk, c)
            }
            fn keygen_vk<Ci: Circuit<$F>>(p: &$P, c: &Ci) -> Result<VerifyingKey<$C>, Error> {
                keygen_vk(p, c)
            }
            fn keygen_pk<Ci: Circuit<$F>>(p: &$P, vk: VerifyingKey<$C>, c: &Ci) -> Result<ProvingKey<$C>, Error> {
                keygen_pk(p, vk, c)
            }
            fn prove<Ci: Circuit<$F>>(
                p: &$P,
                pk: &ProvingKey<$C>,
                c: &[Ci],
                inst: &[Vec<Vec<$F>>],
                tr: usize,
                rng: &mut Rng,
            ) -> Result<Vec<u8>, Error> {
                refs!(inst, v);
                match tr {
                    0 => {
                        let mut t = Blake2bWrite::<Vec<u8>, $C, Challenge255<$C>>::init(vec![]);
                        create_proof::<$Scheme, $Prover, _, _, _, _>(p, pk, c, &v, rng, &mut t)?;
                        Ok(t.finalize())
                    }
                    1 => {
                        let mut t = Keccak256Write::<Vec<u8>, $C, Challenge255<$C>>::init(vec![]);
                        create_proof::<$Scheme, $Prover, _, _, _, _>(p, pk, c, &v, rng, &mut t)?;
                        Ok(t.finalize())
                    }
                    _ => {
                        let mut t = PoseidonWrite::<Vec<u8>, $C, Challenge255<$C>>::init(vec![]);
                        create_proof::<$Scheme, $Prover, _, _, _, _>(p, pk, c, &v, rng, &mut t)?;
                        Ok(t.finalize())
                    }
                }
            }
            fn verify(p: &$P, it: &Item<$C>, tr: usize) -> bool {
                refs!(it.inst, v);
                match tr {
                    0 => {
                        let mut t = Blake2bRead::<&[u8], $C, Challenge255<$C>>::init(it.proof);
                        verify_proof::<$Scheme, $Verifier, _, _, _>(p, it.vk, $mod::SingleStrategy::new(p), &v, &mut t).is_ok()
                    }
                    1 => {
                        let mut t = Keccak256Read::<&[u8], $C, Challenge255<$C>>::init(it.proof);
                        verify_proof::<$Scheme, $Verifier, _, _, _>(p, it.vk, $mod::SingleStrategy::new(p), &v, &mut t).is_ok()
                    }
                    _ => {
                        let mut t = PoseidonRead::<&[u8], $C, Challenge255<$C>>::init(it.proof);
                        verify_proof::<$Scheme, $Verifier, _, _, _>(p, it.vk, $mod::SingleStrategy::new(p), &v, &mut t).is_ok()
                    }
                }
            }
            fn trace(p: &$P, it: &Item<$C>, tr: usize) -> (bool, Vec<Ev>) {
                refs!(it.inst, v);
                macro_rules! go {
                    ($t:expr) => {{
                        let mut t = Log { inner: $t, ev: vec![] };
                        let ok = verify_proof::<$Scheme, $Verifier, _, _, _>(p, it.vk, $mod::SingleStrategy::new(p), &v, &mut t).is_ok();
                        (ok, t.ev)
                    }};
                }
                match tr {
                    0 => go!(Blake2bRead::<&[u8], $C, Challenge255<$C>>::init(it.proof)),
                    1 => go!(Keccak256Read::<&[u8], $C, Challenge255<$C>>::init(it.proof)),
                    _ => go!(PoseidonRead::<&[u8], $C, Challenge255<$C>>::init(it.proof)),
                }
            }
            fn verify_acc(p: &$P, its: &[Item<$C>], tr: usize) -> bool {
                let mut s = $mod::AccumulatorStrategy::new(p);
                for it in its {
                    refs!(it.inst, v);
                    let r = match tr {
                        0 => {
                            let mut t = Blake2bRead::<&[u8], $C, Challenge255<$C>>::init(it.proof);
                            verify_proof::<$Scheme, $Verifier, _, _, _>(p, it.vk, s, &v, &mut t)
                        }
                        1 => {
                            let mut t = Keccak256Read::<&[u8], $C, Challenge255<$C>>::init(it.proof);
                            verify_proof::<$Scheme, $Verifier, _, _, _>(p, it.vk, s, &v, &mut t)
                        }
                        _ => {
                            let mut t = PoseidonRead::<&[u8], $C, Challenge255<$C>>::init(it.proof);
                            verify_proof::<$Scheme, $Verifier, _, _, _>(p, it.vk, s, &v, &mut t)
                        }
                    };
                    s = match r {
                        Ok(s) => s,
                        Err(_) => return false,
                    };
                }
                VerificationStrategy::<$Scheme, $Verifier>::finalize(s)
            }
            system!(@batch $batch, $P, $C);
        }
    };
    (@batch true, $P:ty, $C:ty) => {
        fn verify_batch(p: &$P, vk: &VerifyingKey<$C>, its: &[Item<$C>]) -> Option<bool> {
            let mut b = BatchVerifier::new();
            for it in its {
                b.add_proof(it.inst.to_vec(), it.proof.to_vec());
            }
            Some(b.finalize(p, vk))
        }
    };
    (@batch false, $P:ty, $C:ty) => {};
}

system!(Shplonk, "kzg-shplonk", Fr, G1Affine, ParamsKZG<Bn256>, KZGCommitmentScheme<Bn256>, ProverSHPLONK<'_, Bn256>, VerifierSHPLONK<'_, Bn256>, kzgs, false);
system!(Gwc, "kzg-gwc", Fr, G1Affine, ParamsKZG<Bn256>, KZGCommitmentScheme<Bn256>, ProverGWC<'_, Bn256>, VerifierGWC<'_, Bn256>, kzgs, false);
system!(IpaEq, "ipa-vesta", Fp, EqAffine, ParamsIPA<EqAffine>, IPACommitmentScheme<EqAffine>, ProverIPA<'_, EqAffine>, VerifierIPA<'_, EqAffine>, ipas, true);
system!(IpaEp, "ipa-pallas", Fq, EpAffine, ParamsIPA<EpAffine>, IPACommitmentScheme<EpAffine>, ProverIPA<'_, EpAffine>, VerifierIPA<'_, EpAffine>, ipas, true);
