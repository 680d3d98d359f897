//! Reference Merkle tree with an arbitrary prefilled left part.
use mc::*;
use std::collections::BTreeMap;

pub type F = ark_bn254::Fr;

#[derive(Clone)]
pub struct Tree {
    pub base: u32,
    frontier: BTreeMap<(usize, u32), F>,
    pub leaves: Vec<F>,
    pub roots: Vec<F>,
}

impl Tree {
    pub fn new(base: u32) -> Self {
        let mut frontier = BTreeMap::new();
        for h in 0..=MT_HEIGHT {
            if base >> h & 1 == 1 {
                let i = (base >> h) - 1;
                frontier.insert((MT_HEIGHT - h, i), h2c(fr(&num(900 + h as u64)).unwrap(), fr(&num(i as u64)).unwrap()));
            }
        }
        Tree { base, frontier, leaves: vec![], roots: vec![] }
    }
    pub fn ptr(&self) -> u32 {
        self.base + self.leaves.len() as u32
    }
    pub fn node(&self, level: usize, i: u32) -> F {
        let h = MT_HEIGHT - level;
        let start = (i as u64) << h;
        let end = start + (1u64 << h);
        if start >= self.ptr() as u64 {
            return empty(h);
        }
        if end <= self.base as u64 {
            return *self.frontier.get(&(level, i)).expect("node left of the frontier");
        }
        if level == MT_HEIGHT {
            return self.leaves[(start - self.base as u64) as usize];
        }
        h2c(self.node(level + 1, 2 * i), self.node(level + 1, 2 * i + 1))
    }
    pub fn root(&self) -> F {
        self.node(0, 0)
    }
    /// writes the prefilled part as the program would have stored it
    pub fn install(&self, b: &mut Bank) {
        assert!(self.leaves.is_empty());
        b.write(&storage(), ST_PTR, &self.base.to_le_bytes());
        for (k, v) in &self.frontier {
            set_node_raw(b, k.0, k.1 as usize, &mont_b(v));
        }
        if self.base == 0 {
            return;
        }
        for level in 0..MT_HEIGHT {
            let h = MT_HEIGHT - level;
            let i = (self.base - 1) >> h;
            if (((i as u64) + 1) << h) > self.base as u64 {
                set_node_raw(b, level, i as usize, &mont_b(&self.node(level, i)));
            }
        }
    }
    /// the stored nodes that inserting `n` leaves at `at` writes
    pub fn written(&self, at: u32, n: u32) -> BTreeMap<(usize, u32), F> {
        let mut m = BTreeMap::new();
        for l in at..at + n {
            for level in 0..=MT_HEIGHT {
                let i = l >> (MT_HEIGHT - level);
                m.entry((level, i)).or_insert_with(|| self.node(level, i));
            }
        }
        m
    }
}
