//! Fixed bases for the ecc chip: window tables, z and u values, computed here.
use crate::prim::smul;
use ff::{Field, PrimeField};
use group::{Curve, Group};
use halo2_gadgets::ecc::chip::{BaseFieldElem, FixedPoint, FullScalar, ShortScalar, H, NUM_WINDOWS, NUM_WINDOWS_SHORT};
use halo2_gadgets::ecc::FixedPoints;
use halo2_proofs::arithmetic::{CurveAffine, CurveExt};
use halo2curves::pasta::{pallas, Fp, Fq};
use std::sync::OnceLock;

pub type P = pallas::Point;
pub const BASES: usize = 2;
/// the commit domain whose R is base 1
pub const DOMAIN: &str = "verif:C20";

pub fn base(i: usize) -> P {
    static B: OnceLock<Vec<P>> = OnceLock::new();
    B.get_or_init(|| vec![P::generator(), P::hash_to_curve(&format!("{}-r", DOMAIN))(&[])])[i]
}

/// scalar of entry k of window w
pub fn window_scalar(w: usize, n: usize, k: usize) -> Fq {
    let p = |e: usize| Fq::from(2).pow_vartime(&[e as u64]);
    if w + 1 < n {
        Fq::from(k as u64 + 2) * p(3 * w)
    } else {
        let sum = (0..n - 1).fold(Fq::zero(), |a, j| a + p(3 * j + 1));
        Fq::from(k as u64) * p(3 * w) - sum
    }
}
pub fn window(b: usize, w: usize, n: usize) -> Vec<(Fp, Fp)> {
    (0..H)
        .map(|k| {
            let a = smul(base(b), &window_scalar(w, n, k)).to_affine();
            let c = a.coordinates().unwrap();
            (*c.x(), *c.y())
        })
        .collect()
}
fn square(v: &Fp) -> bool {
    // Euler's criterion; (p - 1) / 2
    let e: [u64; 4] = [0xcc96987680000000, 0x11234c7e04a67c8d, 0x0000000000000000, 0x2000000000000000];
    bool::from(v.is_zero()) || v.pow_vartime(&e) == Fp::one()
}
fn search(win: &[(Fp, Fp)]) -> u64 {
    (0u64..)
        .find(|z| win.iter().all(|(_, y)| square(&(Fp::from(*z) + y)) && !square(&(Fp::from(*z) - y))))
        .unwrap()
}
/// all windows that are needed: those of a full scalar, then the last one of a short scalar
pub fn generate() {
    for b in 0..BASES {
        let next = std::sync::atomic::AtomicUsize::new(0);
        let out = std::sync::Mutex::new(vec![0u64; NUM_WINDOWS + 1]);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let w = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if w > NUM_WINDOWS {
                        break;
                    }
                    let win = if w < NUM_WINDOWS { window(b, w, NUM_WINDOWS) } else { window(b, NUM_WINDOWS_SHORT - 1, NUM_WINDOWS_SHORT) };
                    let z = search(&win);
                    out.lock().unwrap()[w] = z;
                });
            }
        });
        println!("    {:?},", out.into_inner().unwrap());
    }
}

include!("zs.rs");

pub struct Tab {
    pub z: Vec<u64>,
    pub u: Vec<[[u8; 32]; H]>,
}
fn tab(b: usize, n: usize) -> Tab {
    let mut z = vec![];
    let mut u = vec![];
    for w in 0..n {
        let zz = if n == NUM_WINDOWS_SHORT && w + 1 == n { ZS[b][NUM_WINDOWS] } else { ZS[b][w] };
        let win = window(b, w, n);
        let us: Vec<[u8; 32]> = win
            .iter()
            .map(|(_, y)| {
                assert!(!square(&(Fp::from(zz) - y)), "z values do not fit the base");
                let s = Fp::from(zz) + y;
                let r: Option<Fp> = s.sqrt().into();
                let r = r.expect("z values do not fit the base");
                assert!(r * r == s, "square root");
                r.to_repr()
            })
            .collect();
        z.push(zz);
        u.push(us.try_into().unwrap());
    }
    Tab { z, u }
}
pub fn full_tab(b: usize) -> &'static Tab {
    static T: [OnceLock<Tab>; BASES] = [OnceLock::new(), OnceLock::new()];
    T[b].get_or_init(|| tab(b, NUM_WINDOWS))
}
pub fn short_tab(b: usize) -> &'static Tab {
    static T: [OnceLock<Tab>; BASES] = [OnceLock::new(), OnceLock::new()];
    T[b].get_or_init(|| tab(b, NUM_WINDOWS_SHORT))
}

#[derive(Debug, Eq, PartialEq, Clone)]
pub struct Bases;
macro_rules! fp {
    ($n:ident, $k:ty, $t:ident) => {
        #[derive(Debug, Eq, PartialEq, Clone)]
        pub struct $n(pub usize);
        impl FixedPoint<pallas::Affine> for $n {
            type FixedScalarKind = $k;
            fn generator(&self) -> pallas::Affine {
                base(self.0).to_affine()
            }
            fn u(&self) -> Vec<[[u8; 32]; H]> {
                $t(self.0).u.clone()
            }
            fn z(&self) -> Vec<u64> {
                $t(self.0).z.clone()
            }
        }
    };
}
fp!(Full, FullScalar, full_tab);
fp!(BaseField, BaseFieldElem, full_tab);
fp!(Short, ShortScalar, short_tab);
impl FixedPoints<pallas::Affine> for Bases {
    type FullScalar = Full;
    type ShortScalar = Short;
    type Base = BaseField;
}
