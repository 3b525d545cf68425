//! Independent reference helpers (written against the specification, not against the code).

use sha2::{Digest, Sha512Trunc256};

/// SHA-512/256.
pub fn sha(b: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    o.copy_from_slice(&Sha512Trunc256::digest(b));
    o
}

/// Reference Merkle trie: the root hash of a set of equal-length byte strings, computed from the
/// set alone (go-algorand's crypto/merkletrie hashing rules).
pub mod trie {
    use super::sha;
    use std::collections::{BTreeMap, BTreeSet};

    enum N {
        Leaf(Vec<u8>),
        Inner(Vec<u8>),
    }

    fn node(set: &BTreeSet<Vec<u8>>, path: &[u8]) -> N {
        let d = path.len();
        if set.len() == 1 {
            return N::Leaf(set.iter().next().unwrap()[d..].to_vec());
        }
        let mut groups: BTreeMap<u8, BTreeSet<Vec<u8>>> = BTreeMap::new();
        for e in set {
            groups.entry(e[d]).or_default().insert(e.clone());
        }
        let mut acc = vec![path.len() as u8];
        acc.extend_from_slice(path);
        for (b, g) in groups {
            let mut p = path.to_vec();
            p.push(b);
            let (tag, h) = match node(&g, &p) {
                N::Leaf(h) => (0, h),
                N::Inner(h) => (1, h),
            };
            acc.push(tag);
            acc.push(h.len() as u8);
            acc.push(b);
            acc.extend_from_slice(&h);
        }
        N::Inner(sha(&acc).to_vec())
    }

    pub fn root(set: &BTreeSet<Vec<u8>>) -> [u8; 32] {
        if set.is_empty() {
            return [0; 32];
        }
        let (tag, h) = match node(set, &[]) {
            N::Leaf(h) => (0u8, h),
            N::Inner(h) => (1u8, h),
        };
        let mut b = vec![tag];
        b.extend_from_slice(&h);
        sha(&b)
    }

    /// Number of nodes of the trie of `set`.
    pub fn node_count(set: &BTreeSet<Vec<u8>>, depth: usize) -> usize {
        if set.len() <= 1 {
            return set.len();
        }
        let mut groups: BTreeMap<u8, BTreeSet<Vec<u8>>> = BTreeMap::new();
        for e in set {
            groups.entry(e[depth]).or_default().insert(e.clone());
        }
        1 + groups
            .values()
            .map(|g| node_count(g, depth + 1))
            .sum::<usize>()
    }
}
