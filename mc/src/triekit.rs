//! Driver for the real Merkle trie: operations, observable storage with fault injection.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io;
use std::rc::Rc;

use algorsand::crypto::{Node, NodeID, Storage, Trie, TrieError};

#[derive(Default)]
pub struct Dev {
    pub nodes: BTreeMap<NodeID, Vec<u8>>,
    pub calls: u64,
    pub stores: u64,
    /// Call numbers (1-based, counted while `armed`) that fail.
    pub fail: HashSet<u64>,
    pub armed: bool,
    pub armed_calls: u64,
    pub fired: u64,
    pub bad_load: bool,
}

/// A storage device whose contents and faults the checker controls.
#[derive(Clone, Default)]
pub struct Disk(pub Rc<RefCell<Dev>>);

impl Disk {
    fn tick(d: &mut Dev) -> io::Result<()> {
        d.calls += 1;
        if d.armed {
            d.armed_calls += 1;
            if d.fail.contains(&d.armed_calls) {
                d.fired += 1;
                return Err(io::Error::new(
                    io::ErrorKind::Other,
                    "injected storage fault",
                ));
            }
        }
        Ok(())
    }
}

impl Storage for Disk {
    fn store_node(&mut self, id: NodeID, content: &[u8]) -> io::Result<()> {
        let mut d = self.0.borrow_mut();
        Self::tick(&mut d)?;
        d.stores += 1;
        if content.is_empty() {
            d.nodes.remove(&id);
        } else {
            d.nodes.insert(id, content.to_vec());
        }
        Ok(())
    }
    fn load_node(&mut self, id: NodeID) -> io::Result<Option<Vec<u8>>> {
        let mut d = self.0.borrow_mut();
        Self::tick(&mut d)?;
        Ok(d.nodes.get(&id).cloned())
    }
    fn current_storage_size(&self) -> usize {
        self.0.borrow().nodes.values().map(|v| v.len()).sum()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Add(Vec<u8>),
    Del(Vec<u8>),
    Root,
}

pub fn show(h: &[Op]) -> String {
    h.iter()
        .map(|o| match o {
            Op::Add(e) => format!("add({})", crate::hex(e)),
            Op::Del(e) => format!("del({})", crate::hex(e)),
            Op::Root => "root()".to_string(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Out {
    Changed(bool),
    Hash([u8; 32]),
    LengthMismatch,
    OtherErr(String),
}

pub fn apply(t: &mut Trie, op: &Op) -> Out {
    fn conv(r: Result<bool, TrieError>) -> Out {
        match r {
            Ok(b) => Out::Changed(b),
            Err(TrieError::ElementLengthMismatch) => Out::LengthMismatch,
            Err(e) => Out::OtherErr(e.to_string()),
        }
    }
    match op {
        Op::Add(e) => conv(t.add(e)),
        Op::Del(e) => conv(t.delete(e)),
        Op::Root => match t.root_hash() {
            Ok(h) => Out::Hash(h.0),
            Err(e) => Out::OtherErr(e.to_string()),
        },
    }
}

/// The reference model: a set.
#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct Model {
    pub set: BTreeSet<Vec<u8>>,
}

impl Model {
    pub fn apply(&mut self, op: &Op) -> Out {
        match op {
            Op::Add(e) => {
                if let Some(x) = self.set.iter().next() {
                    if x.len() != e.len() {
                        return Out::LengthMismatch;
                    }
                }
                Out::Changed(self.set.insert(e.clone()))
            }
            Op::Del(e) => {
                if let Some(x) = self.set.iter().next() {
                    if x.len() != e.len() {
                        return Out::LengthMismatch;
                    }
                }
                Out::Changed(self.set.remove(e))
            }
            Op::Root => Out::Hash(crate::model::trie::root(&self.set)),
        }
    }
}

/// Canonical form of the live structure (node numbers dropped: they are only names).
pub fn canon(t: &mut Trie) -> Result<String, String> {
    fn rec(t: &mut Trie, id: NodeID, out: &mut String) -> Result<(), String> {
        let n: Node = t.cache.get_node(id).map_err(|e| e.to_string())?;
        out.push_str(&crate::hex(&n.hash));
        out.push(if n.dirty { '!' } else { '.' });
        if let Some(ch) = n.children {
            out.push('(');
            for (i, c) in ch.iter().enumerate() {
                if let Some(c) = c {
                    out.push_str(&format!("{}:", i));
                    rec(t, *c, out)?;
                }
            }
            out.push(')');
        }
        Ok(())
    }
    let mut s = String::new();
    if let Some(r) = t.root {
        rec(t, r, &mut s)?;
    }
    Ok(s)
}

/// Nodes reachable from `root` according to the bytes on the device.
pub fn reachable(dev: &Dev, root: Option<NodeID>) -> Result<BTreeSet<NodeID>, String> {
    let mut seen = BTreeSet::new();
    let mut todo: Vec<NodeID> = root.into_iter().collect();
    while let Some(id) = todo.pop() {
        if !seen.insert(id) {
            return Err(format!("node {} is reachable twice", id));
        }
        let b = dev
            .nodes
            .get(&id)
            .ok_or_else(|| format!("node {} is referenced but not stored", id))?;
        let n =
            Node::deserialize(b).ok_or_else(|| format!("stored node {} does not decode", id))?;
        if let Some(ch) = n.children {
            todo.extend(ch.iter().flatten());
        }
    }
    Ok(seen)
}
