//! Arbitrary-precision reference: prime fields, the bn256 towers, affine curves.
pub use num_bigint::BigUint;
use num_traits::{One, Zero};

pub fn big(hex: &str) -> BigUint {
    BigUint::parse_bytes(hex.trim_start_matches("0x").as_bytes(), 16).unwrap()
}
pub fn le(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b)
}
pub fn to_le(x: &BigUint, n: usize) -> Vec<u8> {
    let mut v = x.to_bytes_le();
    assert!(v.len() <= n || x.is_zero());
    v.resize(n, 0);
    v
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fp {
    pub p: BigUint,
}
impl Fp {
    pub fn new(hex: &str) -> Fp {
        Fp { p: big(hex) }
    }
    pub fn red(&self, a: &BigUint) -> BigUint {
        a % &self.p
    }
    pub fn add(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a + b) % &self.p
    }
    pub fn sub(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a + &self.p - b) % &self.p
    }
    pub fn neg(&self, a: &BigUint) -> BigUint {
        (&self.p - a) % &self.p
    }
    pub fn mul(&self, a: &BigUint, b: &BigUint) -> BigUint {
        (a * b) % &self.p
    }
    pub fn pow(&self, a: &BigUint, e: &BigUint) -> BigUint {
        a.modpow(e, &self.p)
    }
    pub fn inv(&self, a: &BigUint) -> Option<BigUint> {
        if a.is_zero() {
            return None;
        }
        // extended Euclid on (value, coefficient mod p)
        let (mut r0, mut r1) = (self.p.clone(), a.clone());
        let (mut t0, mut t1) = (BigUint::zero(), BigUint::one());
        while !r1.is_zero() {
            let q = &r0 / &r1;
            let r2 = &r0 - &q * &r1;
            let t2 = self.sub(&t0, &self.red(&(q * &t1)));
            r0 = r1;
            r1 = r2;
            t0 = t1;
            t1 = t2;
        }
        Some(t0)
    }
    pub fn is_square(&self, a: &BigUint) -> bool {
        if a.is_zero() {
            return true;
        }
        let e = (&self.p - BigUint::one()) >> 1usize;
        self.pow(a, &e).is_one()
    }
}

/// Element of a tower over Fp: its coefficients, lowest first. Length 1, 2, 6 or 12:
/// Fq2 = Fq[u]/(u^2+1), Fq6 = Fq2[v]/(v^3-(9+u)), Fq12 = Fq6[w]/(w^2-v).
pub type El = Vec<BigUint>;

pub fn t_add(f: &Fp, a: &[BigUint], b: &[BigUint]) -> El {
    a.iter().zip(b).map(|(x, y)| f.add(x, y)).collect()
}
pub fn t_sub(f: &Fp, a: &[BigUint], b: &[BigUint]) -> El {
    a.iter().zip(b).map(|(x, y)| f.sub(x, y)).collect()
}
pub fn t_neg(f: &Fp, a: &[BigUint]) -> El {
    a.iter().map(|x| f.neg(x)).collect()
}
pub fn t_zero(n: usize) -> El {
    vec![BigUint::zero(); n]
}
pub fn t_one(n: usize) -> El {
    let mut v = t_zero(n);
    v[0] = BigUint::one();
    v
}
/// multiply by the element whose root is adjoined above this level
fn xi(f: &Fp, a: &[BigUint]) -> El {
    match a.len() {
        1 => vec![f.neg(&a[0])],
        2 => t_mul(f, a, &[BigUint::from(9u8), BigUint::one()]),
        6 => {
            let mut r = xi(f, &a[4..6]);
            r.extend_from_slice(&a[0..4]);
            r
        }
        _ => unreachable!(),
    }
}
pub fn t_mul(f: &Fp, a: &[BigUint], b: &[BigUint]) -> El {
    let n = a.len();
    assert_eq!(n, b.len());
    if n == 1 {
        return vec![f.mul(&a[0], &b[0])];
    }
    let (parts, sub) = match n {
        2 => (2, 1),
        6 => (3, 2),
        12 => (2, 6),
        _ => unreachable!(),
    };
    let mut acc = vec![t_zero(sub); 2 * parts - 1];
    for i in 0..parts {
        for j in 0..parts {
            let m = t_mul(f, &a[i * sub..(i + 1) * sub], &b[j * sub..(j + 1) * sub]);
            acc[i + j] = t_add(f, &acc[i + j], &m);
        }
    }
    let mut r = vec![];
    for i in 0..parts {
        let lo = acc[i].clone();
        r.extend(if i + parts < acc.len() { t_add(f, &lo, &xi(f, &acc[i + parts])) } else { lo });
    }
    r
}
pub fn t_pow(f: &Fp, a: &[BigUint], e: &BigUint) -> El {
    let mut r = t_one(a.len());
    for i in (0..e.bits()).rev() {
        r = t_mul(f, &r, &r);
        if e.bit(i) {
            r = t_mul(f, &r, a);
        }
    }
    r
}
/// inverse in Fq or Fq2
pub fn t_inv(f: &Fp, a: &[BigUint]) -> Option<El> {
    match a.len() {
        1 => f.inv(&a[0]).map(|x| vec![x]),
        2 => {
            let n = f.add(&f.mul(&a[0], &a[0]), &f.mul(&a[1], &a[1]));
            f.inv(&n).map(|i| vec![f.mul(&a[0], &i), f.mul(&f.neg(&a[1]), &i)])
        }
        _ => unimplemented!(),
    }
}
pub fn is_zero(a: &[BigUint]) -> bool {
    a.iter().all(|x| x.is_zero())
}
/// a is a square in Fq or Fq2 (in Fq2: its norm is a square in Fq)
pub fn t_is_square(f: &Fp, a: &[BigUint]) -> bool {
    match a.len() {
        1 => f.is_square(&a[0]),
        2 => f.is_square(&f.add(&f.mul(&a[0], &a[0]), &f.mul(&a[1], &a[1]))),
        _ => unimplemented!(),
    }
}

/// y^2 = x^3 + b over Fq or Fq2; None is the identity
#[derive(Clone, Debug)]
pub struct Curve {
    pub f: Fp,
    pub b: El,
}
pub type Pt = Option<(El, El)>;
impl Curve {
    pub fn rhs(&self, x: &El) -> El {
        t_add(&self.f, &t_mul(&self.f, &t_mul(&self.f, x, x), x), &self.b)
    }
    pub fn on_curve(&self, x: &El, y: &El) -> bool {
        t_mul(&self.f, y, y) == self.rhs(x)
    }
    pub fn neg(&self, p: &Pt) -> Pt {
        p.as_ref().map(|(x, y)| (x.clone(), t_neg(&self.f, y)))
    }
    pub fn add(&self, p: &Pt, q: &Pt) -> Pt {
        let f = &self.f;
        let (Some((x1, y1)), Some((x2, y2))) = (p, q) else {
            return if p.is_none() { q.clone() } else { p.clone() };
        };
        let l = if x1 == x2 {
            if y1 != y2 || is_zero(y1) {
                return None;
            }
            let xx = t_mul(f, x1, x1);
            let n = t_add(f, &t_add(f, &xx, &xx), &xx);
            t_mul(f, &n, &t_inv(f, &t_add(f, y1, y1))?)
        } else {
            t_mul(f, &t_sub(f, y2, y1), &t_inv(f, &t_sub(f, x2, x1))?)
        };
        let x3 = t_sub(f, &t_sub(f, &t_mul(f, &l, &l), x1), x2);
        let y3 = t_sub(f, &t_mul(f, &l, &t_sub(f, x1, &x3)), y1);
        Some((x3, y3))
    }
    pub fn mul(&self, p: &Pt, k: &BigUint) -> Pt {
        let mut r = None;
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, p);
            }
        }
        r
    }
}
