//! A Groth16 verifying key with known trapdoor, so that valid proofs for arbitrary public inputs can be made,
//! and an independent reference verifier (ark's pairing product).
use crate::pose::*;
use ark_bn254::{Bn254, Fq, Fq12, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, Zero};

pub struct Trap {
    pub alpha: Fr,
    pub beta: Fr,
    pub gamma: Fr,
    pub delta: Fr,
    pub ic: Vec<Fr>,
}
#[derive(Clone)]
pub struct Proof {
    pub a: G1Affine,
    pub b: G2Affine,
    pub c: G1Affine,
}

fn g1(s: Fr) -> G1Affine {
    G1Affine::prime_subgroup_generator().mul(s.into_repr()).into_affine()
}
fn g2(s: Fr) -> G2Affine {
    G2Affine::prime_subgroup_generator().mul(s.into_repr()).into_affine()
}
fn w_fq(o: &mut Vec<u8>, v: &Fq) {
    for l in v.0 .0 {
        o.extend_from_slice(&l.to_le_bytes());
    }
}
fn w_fq2(o: &mut Vec<u8>, v: &Fq2) {
    w_fq(o, &v.c0);
    w_fq(o, &v.c1);
}
fn w_fq12(o: &mut Vec<u8>, v: &Fq12) {
    for c in [&v.c0, &v.c1] {
        w_fq2(o, &c.c0);
        w_fq2(o, &c.c1);
        w_fq2(o, &c.c2);
    }
}
pub fn w_g1(o: &mut Vec<u8>, v: &G1Affine) {
    w_fq(o, &v.x);
    w_fq(o, &v.y);
    o.push(v.infinity as u8);
}
pub fn w_g2(o: &mut Vec<u8>, v: &G2Affine) {
    w_fq2(o, &v.x);
    w_fq2(o, &v.y);
    o.push(v.infinity as u8);
}
impl Proof {
    pub fn ser(&self) -> Vec<u8> {
        let mut o = vec![];
        w_g1(&mut o, &self.a);
        w_g2(&mut o, &self.b);
        w_g1(&mut o, &self.c);
        o
    }
}

impl Trap {
    pub fn new(seed: u64, inputs: usize) -> Self {
        let mut s = h2(Fr::from(seed), Fr::from(4711u64));
        let mut next = || {
            s = h2(s, Fr::one());
            s
        };
        Trap { alpha: next(), beta: next(), gamma: next(), delta: next(), ic: (0..=inputs).map(|_| next()).collect() }
    }
    pub fn inputs(&self) -> usize {
        self.ic.len() - 1
    }
    fn l(&self, x: &[Fr]) -> Fr {
        let mut l = self.ic[0];
        for (i, v) in x.iter().enumerate() {
            l += self.ic[i + 1] * v;
        }
        l
    }
    /// valid proof for the given public inputs, randomised by (a, b)
    pub fn prove(&self, x: &[B32], a: u64, b: u64) -> Proof {
        let x: Vec<Fr> = x.iter().map(|v| Fr::from_le_bytes_mod_order(v)).collect();
        let (a, b) = (Fr::from(a), Fr::from(b));
        let c = (a * b - self.alpha * self.beta - self.l(&x) * self.gamma) * self.delta.inverse().unwrap();
        Proof { a: g1(a), b: g2(b), c: g1(c) }
    }
    /// Reference verdict: product of pairings equals one
    pub fn verify(&self, x: &[B32], p: &Proof) -> bool {
        let x: Vec<Fr> = x.iter().map(|v| Fr::from_le_bytes_mod_order(v)).collect();
        let l = g1(self.l(&x));
        let pairs = vec![
            (p.a.into(), p.b.into()),
            ((-g1(self.alpha)).into(), g2(self.beta).into()),
            ((-l).into(), g2(self.gamma).into()),
            ((-p.c).into(), g2(self.delta).into()),
        ];
        Bn254::product_of_pairings(pairs.iter()).is_one()
    }
    /// Expected prepared inputs
    pub fn prepared(&self, x: &[B32]) -> G1Affine {
        let x: Vec<Fr> = x.iter().map(|v| Fr::from_le_bytes_mod_order(v)).collect();
        g1(self.l(&x))
    }
    /// Data of the key in the program's format
    pub fn source(&self) -> Vec<u8> {
        let mut o = vec![];
        let ab = Bn254::pairing(g1(self.alpha), g2(self.beta));
        w_fq12(&mut o, &ab);
        w_g1(&mut o, &g1(self.ic[0]));
        // v * 2^(8j) * IC
        let parts: Vec<Vec<u8>> = std::thread::scope(|sc| {
            let hs: Vec<_> = self.ic[1..]
                .iter()
                .map(|ic| {
                    sc.spawn(move || {
                        let mut o = vec![];
                        let mut base: G1Projective = g1(*ic).into_projective();
                        let mut pts: Vec<G1Projective> = vec![];
                        for _ in 0..32 {
                            let mut p = G1Projective::zero();
                            for _ in 0..255 {
                                p += &base;
                                pts.push(p);
                            }
                            base = p + base;
                        }
                        G1Projective::batch_normalization(&mut pts);
                        for p in pts {
                            w_g1(&mut o, &p.into_affine());
                        }
                        o
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for p in parts {
            o.extend_from_slice(&p);
        }
        for s in [self.gamma, self.delta] {
            let neg: G2Projective = -g2(s).into_projective();
            let prep: <Bn254 as PairingEngine>::G2Prepared = neg.into_affine().into();
            assert_eq!(prep.ell_coeffs.len(), 91);
            for (a, b, c) in &prep.ell_coeffs {
                w_fq2(&mut o, a);
                w_fq2(&mut o, b);
                w_fq2(&mut o, c);
            }
        }
        w_g1(&mut o, &g1(self.alpha));
        w_g2(&mut o, &g2(self.beta));
        w_g2(&mut o, &g2(self.gamma));
        w_g2(&mut o, &g2(self.delta));
        o
    }
}
