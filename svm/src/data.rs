use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const PAGE: usize = 8192;

#[inline]
pub fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v;
    h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^ (h >> 29)
}

/// 128 bit content hash (two independent multiply-mix lanes)
pub fn hash_bytes(seed: u64, b: &[u8]) -> u128 {
    let mut h1 = mix(0x51_7c_c1_b7_27_22_0a_95 ^ seed, b.len() as u64);
    let mut h2 = mix(0x2545_F491_4F6C_DD1D ^ seed, b.len() as u64 ^ 0xabcdef);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        let v = u64::from_le_bytes(c.try_into().unwrap());
        h1 = (h1.rotate_left(5) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h2 = (h2 ^ v).wrapping_mul(0xD6E8_FEB8_6659_FD93);
        h2 ^= h2 >> 32;
    }
    let mut last = [0u8; 8];
    last[..it.remainder().len()].copy_from_slice(it.remainder());
    let v = u64::from_le_bytes(last);
    h1 = (h1.rotate_left(5) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h2 = (h2 ^ v).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    h1 ^= h1 >> 31;
    h2 ^= h2 >> 29;
    ((h1 as u128) << 64) | h2 as u128
}

struct Page {
    bytes: Box<[u8]>,
    hash: u128,
}

/// Immutable, structurally shared byte string (pages are shared between versions)
#[derive(Clone)]
pub struct Data {
    len: usize,
    pages: Arc<Vec<Arc<Page>>>,
    hash: u128,
}

fn mk_page(b: &[u8]) -> Arc<Page> {
    Arc::new(Page {
        hash: hash_bytes(7, b),
        bytes: b.to_vec().into_boxed_slice(),
    })
}

fn zero_page() -> Arc<Page> {
    use std::sync::OnceLock;
    static Z: OnceLock<Arc<Page>> = OnceLock::new();
    Z.get_or_init(|| mk_page(&[0u8; PAGE])).clone()
}

fn fold_hash(len: usize, pages: &[Arc<Page>]) -> u128 {
    let mut a = mix(3, len as u64);
    let mut b = mix(11, len as u64);
    for p in pages {
        a = mix(a.rotate_left(7), p.hash as u64);
        b = mix(b.rotate_left(9), (p.hash >> 64) as u64);
    }
    ((a as u128) << 64) | b as u128
}

impl Data {
    pub fn new(b: &[u8]) -> Self {
        let pages: Vec<_> = b
            .chunks(PAGE)
            .map(|c| {
                if c.len() == PAGE && c.iter().all(|x| *x == 0) {
                    zero_page()
                } else {
                    mk_page(c)
                }
            })
            .collect();
        let hash = fold_hash(b.len(), &pages);
        Data { len: b.len(), pages: Arc::new(pages), hash }
    }
    pub fn zeros(len: usize) -> Self {
        let mut pages = vec![zero_page(); len / PAGE];
        if len % PAGE > 0 {
            pages.push(mk_page(&vec![0; len % PAGE]));
        }
        let hash = fold_hash(len, &pages);
        Data { len, pages: Arc::new(pages), hash }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn hash(&self) -> u128 {
        self.hash
    }
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.len);
        for p in self.pages.iter() {
            v.extend_from_slice(&p.bytes);
        }
        v
    }
    pub fn eq_bytes(&self, b: &[u8]) -> bool {
        b.len() == self.len && self.pages.iter().zip(b.chunks(PAGE)).all(|(p, c)| &p.bytes[..] == c)
    }
    /// New version with `b` as content, sharing all unchanged pages
    pub fn updated(&self, b: &[u8]) -> Self {
        if b.len() != self.len {
            return Data::new(b);
        }
        let mut changed = false;
        let pages: Vec<_> = self
            .pages
            .iter()
            .zip(b.chunks(PAGE))
            .map(|(p, c)| {
                if &p.bytes[..] == c {
                    p.clone()
                } else {
                    changed = true;
                    mk_page(c)
                }
            })
            .collect();
        if !changed {
            return self.clone();
        }
        let hash = fold_hash(self.len, &pages);
        Data { len: self.len, pages: Arc::new(pages), hash }
    }
    pub fn slice(&self, off: usize, len: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(len);
        let mut o = off;
        while v.len() < len {
            let p = &self.pages[o / PAGE].bytes;
            let i = o % PAGE;
            let n = (p.len() - i).min(len - v.len());
            assert!(n > 0, "slice out of range");
            v.extend_from_slice(&p[i..i + n]);
            o += n;
        }
        v
    }
    pub fn write(&self, off: usize, b: &[u8]) -> Self {
        assert!(off + b.len() <= self.len);
        let mut pages = (*self.pages).clone();
        let mut o = off;
        let mut done = 0;
        while done < b.len() {
            let pi = o / PAGE;
            let i = o % PAGE;
            let mut bytes = pages[pi].bytes.to_vec();
            let n = (bytes.len() - i).min(b.len() - done);
            bytes[i..i + n].copy_from_slice(&b[done..done + n]);
            pages[pi] = mk_page(&bytes);
            done += n;
            o += n;
        }
        let hash = fold_hash(self.len, &pages);
        Data { len: self.len, pages: Arc::new(pages), hash }
    }
}

impl PartialEq for Data {
    fn eq(&self, o: &Self) -> bool {
        self.len == o.len && self.hash == o.hash
    }
}
impl Eq for Data {}

#[derive(Clone, PartialEq, Eq)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Data,
}

impl Acct {
    pub fn hash(&self) -> u128 {
        let mut a = mix(self.lamports, self.data.hash as u64);
        let mut b = mix(self.lamports ^ 0x77, (self.data.hash >> 64) as u64);
        for c in self.owner.to_bytes().chunks(8) {
            let v = u64::from_le_bytes(c.try_into().unwrap());
            a = mix(a.rotate_left(3), v);
            b = mix(b.rotate_left(5), v ^ 0x5555);
        }
        ((a as u128) << 64) | b as u128
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct Bank {
    pub accounts: BTreeMap<Pubkey, Arc<Acct>>,
    pub unix_timestamp: i64,
    pub slot: u64,
}

impl Default for Bank {
    fn default() -> Self {
        Bank { accounts: BTreeMap::new(), unix_timestamp: 1_672_531_200 + 86400 * 40, slot: 1000 }
    }
}

impl Bank {
    pub fn get(&self, k: &Pubkey) -> Option<&Acct> {
        self.accounts.get(k).map(|a| &**a)
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn data(&self, k: &Pubkey) -> Vec<u8> {
        self.get(k).map(|a| a.data.to_vec()).unwrap_or_default()
    }
    pub fn set(&mut self, k: Pubkey, a: Acct) {
        self.accounts.insert(k, Arc::new(a));
    }
    pub fn put(&mut self, k: Pubkey, lamports: u64, owner: Pubkey, data: &[u8]) {
        self.set(k, Acct { lamports, owner, data: Data::new(data) });
    }
    pub fn write(&mut self, k: &Pubkey, off: usize, b: &[u8]) {
        let a = self.accounts.get(k).expect("no such account");
        let mut n = (**a).clone();
        n.data = n.data.write(off, b);
        self.accounts.insert(*k, Arc::new(n));
    }
    pub fn set_lamports(&mut self, k: &Pubkey, l: u64) {
        let mut n = match self.accounts.get(k) {
            Some(a) => (**a).clone(),
            None => Acct { lamports: 0, owner: Pubkey::default(), data: Data::zeros(0) },
        };
        n.lamports = l;
        self.accounts.insert(*k, Arc::new(n));
    }
    pub fn hash(&self) -> u128 {
        let mut a = mix(self.unix_timestamp as u64, self.slot);
        let mut b = mix(self.slot, self.unix_timestamp as u64);
        for (k, v) in &self.accounts {
            let kb = k.to_bytes();
            let kk = u64::from_le_bytes(kb[..8].try_into().unwrap());
            let h = v.hash();
            a = mix(a.rotate_left(11), kk ^ h as u64);
            b = mix(b.rotate_left(13), kk.wrapping_add((h >> 64) as u64));
        }
        ((a as u128) << 64) | b as u128
    }
    pub fn total_lamports(&self) -> u128 {
        self.accounts.values().map(|a| a.lamports as u128).sum()
    }
    /// Keys of all accounts that differ between the two banks
    pub fn diff(&self, o: &Bank) -> Vec<Pubkey> {
        let mut v = vec![];
        for (k, a) in &self.accounts {
            match o.accounts.get(k) {
                Some(b) if Arc::ptr_eq(a, b) || a == b => {}
                _ => v.push(*k),
            }
        }
        for k in o.accounts.keys() {
            if !self.accounts.contains_key(k) {
                v.push(*k);
            }
        }
        v
    }
}
