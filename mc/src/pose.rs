//! Independent Poseidon(t=3) reference: constants are derived from the Grain LFSR of the Poseidon paper
//! (field GF(p), x^5, n=254, t=3, R_F=8, R_P=57), never from the program's tables.
use ark_bn254::Fr;
use ark_ff::{BigInteger, BigInteger256, Field, FpParameters, PrimeField, Zero};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

pub type B32 = [u8; 32];

struct Grain {
    s: Vec<u8>,
}
impl Grain {
    fn new() -> Self {
        let mut s = vec![];
        let mut push = |v: u32, n: usize| {
            for i in (0..n).rev() {
                s.push(((v >> i) & 1) as u8)
            }
        };
        push(1, 2);
        push(0, 4);
        push(254, 12);
        push(3, 12);
        push(8, 10);
        push(57, 10);
        push((1 << 30) - 1, 30);
        let mut g = Grain { s };
        for _ in 0..160 {
            g.raw();
        }
        g
    }
    fn raw(&mut self) -> u8 {
        let s = &self.s;
        let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        self.s.remove(0);
        self.s.push(b);
        b
    }
    fn bit(&mut self) -> u8 {
        loop {
            let a = self.raw();
            let b = self.raw();
            if a == 1 {
                return b;
            }
        }
    }
    fn bits(&mut self) -> BigInteger256 {
        let mut v: Vec<bool> = (0..254).map(|_| self.bit() == 1).collect();
        while v.len() < 256 {
            v.insert(0, false)
        }
        BigInteger256::from_bits_be(&v)
    }
    fn reject(&mut self) -> Fr {
        loop {
            let b = self.bits();
            if b < ark_bn254::FrParameters::MODULUS {
                return Fr::from_repr(b).unwrap();
            }
        }
    }
    fn modulo(&mut self) -> Fr {
        let b = self.bits();
        let mut bytes = vec![];
        for l in b.0 {
            bytes.extend_from_slice(&l.to_le_bytes())
        }
        Fr::from_le_bytes_mod_order(&bytes)
    }
}

struct Params {
    c: Vec<[Fr; 3]>,
    m: [[Fr; 3]; 3],
}
fn params() -> &'static Params {
    static P: OnceLock<Params> = OnceLock::new();
    P.get_or_init(|| {
        let mut g = Grain::new();
        let c = (0..65).map(|_| [g.reject(), g.reject(), g.reject()]).collect();
        let mut xs = vec![];
        for _ in 0..6 {
            xs.push(g.modulo());
        }
        let mut m = [[Fr::zero(); 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] = (xs[i] + xs[3 + j]).inverse().unwrap();
            }
        }
        let p = Params { c, m };
        // published test vector of circomlib: poseidon([1, 2])
        let h = permute(&p, [Fr::zero(), Fr::from(1u64), Fr::from(2u64)]);
        let want: Fr = std::str::FromStr::from_str("7853200120776062878684798364095072458815029376092732009249414926327459813530").ok().unwrap();
        assert!(h == want, "reference Poseidon broken");
        p
    })
}
fn permute(p: &Params, mut s: [Fr; 3]) -> Fr {
    for r in 0..65 {
        for i in 0..3 {
            s[i] += p.c[r][i];
        }
        let full = r < 4 || r >= 61;
        for i in 0..3 {
            if full || i == 0 {
                let q = s[i].square().square();
                s[i] *= q;
            }
        }
        let mut n = [Fr::zero(); 3];
        for i in 0..3 {
            for j in 0..3 {
                n[i] += p.m[i][j] * s[j];
            }
        }
        s = n;
    }
    s[0]
}

pub fn h2(l: Fr, r: Fr) -> Fr {
    permute(params(), [Fr::zero(), l, r])
}
/// cached variant
pub fn h2c(l: Fr, r: Fr) -> Fr {
    static C: OnceLock<Mutex<HashMap<([u64; 4], [u64; 4]), Fr>>> = OnceLock::new();
    let c = C.get_or_init(|| Mutex::new(HashMap::new()));
    let k = (l.0 .0, r.0 .0);
    if let Some(v) = c.lock().unwrap().get(&k) {
        return *v;
    }
    let v = h2(l, r);
    c.lock().unwrap().insert(k, v);
    v
}

/// canonical LE bytes -> field (None if not reduced)
pub fn fr(b: &B32) -> Option<Fr> {
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    Fr::from_repr(BigInteger256(l))
}
pub fn fr_b(v: &Fr) -> B32 {
    limbs_b(&v.into_repr().0)
}
fn limbs_b(l: &[u64; 4]) -> B32 {
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&l[i].to_le_bytes());
    }
    o
}
/// Montgomery bytes (in-memory form of ark-ff) used by the program's stored values
pub fn mont_b(v: &Fr) -> B32 {
    limbs_b(&v.0 .0)
}
pub fn from_mont(b: &B32) -> Fr {
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    Fr::new(BigInteger256(l))
}
/// reduced bytes -> montgomery bytes
pub fn to_mont(b: &B32) -> B32 {
    mont_b(&fr(b).expect("not a field element"))
}
pub fn num(v: u64) -> B32 {
    let mut o = [0u8; 32];
    o[..8].copy_from_slice(&v.to_le_bytes());
    o
}

/// root of an empty subtree of height h; the empty leaf is H(0, 0)
pub fn empty(h: usize) -> Fr {
    static E: OnceLock<Vec<Fr>> = OnceLock::new();
    E.get_or_init(|| {
        let mut v = vec![h2(Fr::zero(), Fr::zero())];
        for i in 0..32 {
            let x = v[i];
            v.push(h2(x, x));
        }
        v
    })[h]
}

/// Commitment of a deposit: H(base_commitment, amount + token_id*2^64 + recent_index*2^80)
pub fn deposit_commitment(base: &B32, amount: u64, token: u16, recent: u32) -> Fr {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&amount.to_le_bytes());
    b[8..10].copy_from_slice(&token.to_le_bytes());
    b[10..14].copy_from_slice(&recent.to_le_bytes());
    h2c(fr(base).unwrap(), fr(&b).unwrap())
}
