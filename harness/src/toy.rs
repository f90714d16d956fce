//! A bilinear map in which every element is its discrete logarithm, so that
//! the relations between keys and ciphertexts can be read off. It implements
//! the public `BilinearMap` trait; the scheme run on it is the code of /repo.
use cosmian_abe_gpsw::core::{bilinear_map::BilinearMap, gpsw::AsBytes};
use cosmian_abe_gpsw::error::FormatErr;
use rand::{CryptoRng, RngCore};
use std::ops::{Add, Div, Mul, Neg, Sub};

pub const P: u64 = (1 << 61) - 1;
pub fn mulp(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
pub fn addp(a: u64, b: u64) -> u64 {
    (a + b) % P
}
pub fn subp(a: u64, b: u64) -> u64 {
    (a + P - b) % P
}
pub fn powp(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mulp(r, a);
        }
        a = mulp(a, a);
        e >>= 1;
    }
    r
}
pub fn invp(a: u64) -> u64 {
    assert!(a != 0, "division by zero in the scalar field");
    powp(a, P - 2)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sc(pub u64);
impl<'a> Add<&'a Sc> for Sc {
    type Output = Sc;
    fn add(self, r: &'a Sc) -> Sc {
        Sc(addp(self.0, r.0))
    }
}
impl<'a> Sub<&'a Sc> for Sc {
    type Output = Sc;
    fn sub(self, r: &'a Sc) -> Sc {
        Sc(subp(self.0, r.0))
    }
}
impl<'a> Mul<&'a Sc> for Sc {
    type Output = Sc;
    fn mul(self, r: &'a Sc) -> Sc {
        Sc(mulp(self.0, r.0))
    }
}
impl<'a> Div<&'a Sc> for Sc {
    type Output = Sc;
    fn div(self, r: &'a Sc) -> Sc {
        Sc(mulp(self.0, invp(r.0)))
    }
}
impl Neg for Sc {
    type Output = Sc;
    fn neg(self) -> Sc {
        Sc(subp(0, self.0))
    }
}
impl From<i32> for Sc {
    fn from(i: i32) -> Sc {
        if i < 0 {
            Sc(subp(0, i.unsigned_abs() as u64))
        } else {
            Sc(i as u64)
        }
    }
}
macro_rules! elem {
    ($n:ident, $tag:expr, $pad:expr) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $n(pub u64);
        codec!($n, $tag, $pad);
    };
}
macro_rules! codec {
    ($n:ident, $tag:expr, $pad:expr) => {
        impl AsBytes for $n {
            fn try_into_bytes(&self) -> Result<Vec<u8>, FormatErr> {
                let mut v = self.0.to_be_bytes().to_vec();
                v.extend(std::iter::repeat($tag).take($pad));
                Ok(v)
            }
            fn try_from_bytes(b: &[u8]) -> Result<Self, FormatErr> {
                if b.len() < 8 + $pad {
                    return Err(FormatErr::InvalidSize("toy element".into()));
                }
                let v = u64::from_be_bytes(b[..8].try_into().unwrap());
                if v >= P || b[8..8 + $pad].iter().any(|x| *x != $tag) {
                    return Err(FormatErr::Deserialization("toy element".into()));
                }
                Ok($n(v))
            }
            fn len_bytes(&self) -> usize {
                8 + $pad
            }
        }
    };
}
codec!(Sc, 0xA0u8, 1);
elem!(E2, 0xA2u8, 2);
elem!(E3, 0xA3u8, 4);
elem!(Et, 0xA4u8, 7);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct E1(pub u64);

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Toy;

impl BilinearMap for Toy {
    type Scalar = Sc;
    type G1 = E1;
    type G2 = E2;
    type G3 = E3;
    type Gt = Et;
    const ZERO: Sc = Sc(0);
    const ONE: Sc = Sc(1);
    fn description() -> String {
        "toy".into()
    }
    fn gen_rand_scalar_inner<R: CryptoRng + RngCore>(&self, rng: &mut R) -> Result<Sc, FormatErr> {
        Ok(Sc(rng.next_u64() % (P - 1) + 1))
    }
    fn gen_rand_gt_inner<R: CryptoRng + RngCore>(&self, rng: &mut R) -> Result<Et, FormatErr> {
        Ok(Et(rng.next_u64() % (P - 1) + 1))
    }
    fn msg_to_scalar(&self, msg: &[u8]) -> Result<Sc, FormatErr> {
        if msg.len() > 7 {
            return Err(FormatErr::InvalidSize("message too long".into()));
        }
        let mut b = [0; 8];
        b[..msg.len()].copy_from_slice(msg);
        Ok(Sc(u64::from_le_bytes(b)))
    }
    fn g1_gen_exp(&self, x: &Sc) -> (E1, E3) {
        (E1(x.0), E3(x.0))
    }
    fn g3_gen_exp(&self, x: &Sc) -> E3 {
        E3(x.0)
    }
    fn g3_mul(&self, a: &E3, b: &E3) -> (E1, E3) {
        let r = addp(a.0, b.0);
        (E1(r), E3(r))
    }
    fn g3_exp(&self, a: &E3, x: &Sc) -> E3 {
        E3(mulp(a.0, x.0))
    }
    fn g2_gen_exp(&self, x: &Sc) -> E2 {
        E2(x.0)
    }
    fn g2_exp(&self, a: &E2, x: &Sc) -> E2 {
        E2(mulp(a.0, x.0))
    }
    fn gt_gen_exp(&self, x: &Sc) -> Et {
        Et(x.0)
    }
    fn gt_exp(&self, a: &Et, x: &Sc) -> Et {
        Et(mulp(a.0, x.0))
    }
    fn gt_mul(&self, a: &Et, b: &Et) -> Et {
        Et(addp(a.0, b.0))
    }
    fn gt_div(&self, a: &Et, b: &Et) -> Et {
        Et(subp(a.0, b.0))
    }
    fn prod_gt_exp(&self, d: &[&E1], e: &[&E2], a: &[&Sc]) -> Et {
        let n = d.len().min(e.len()).min(a.len());
        let mut r = 0;
        for i in 0..n {
            r = addp(r, mulp(a[i].0, mulp(d[i].0, e[i].0)));
        }
        Et(r)
    }
    fn g3_to_g1(v: &E3) -> E1 {
        E1(v.0)
    }
}

/// is there x with x·rows = target (mod P)?
pub fn solvable(rows: &[Vec<u64>], target: &[u64]) -> bool {
    let n = target.len();
    let m = rows.len();
    // columns of the system: unknowns x_i; equations j
    let mut a: Vec<Vec<u64>> = (0..n)
        .map(|j| {
            let mut r: Vec<u64> = (0..m).map(|i| rows[i][j]).collect();
            r.push(target[j]);
            r
        })
        .collect();
    let mut r = 0;
    for c in 0..m {
        if let Some(p) = (r..n).find(|&k| a[k][c] != 0) {
            a.swap(r, p);
            let iv = invp(a[r][c]);
            for x in a[r].iter_mut() {
                *x = mulp(*x, iv);
            }
            for k in 0..n {
                if k != r && a[k][c] != 0 {
                    let f = a[k][c];
                    for l in 0..=m {
                        let t = mulp(f, a[r][l]);
                        a[k][l] = subp(a[k][l], t);
                    }
                }
            }
            r += 1;
        }
    }
    (r..n).all(|k| a[k][m] == 0)
}
