//! A full observation of a real tree through its public query interface, and the state key.
use crate::elem::*;
use generic_btree::{ArenaIndex, BTree, Child, Cursor, FindResult, LeafIndex, Query};

/// A query that follows a given index path and records every child list it is shown.
pub struct Walk {
    d: usize,
    pub lv: Vec<Vec<(ArenaIndex, Ca)>>,
}

impl<const M: u8, const D: bool> Query<Tr<M, D>> for Walk {
    type QueryArg = [u8; 32];
    fn init(_: &Self::QueryArg) -> Self {
        Walk { d: 0, lv: Vec::with_capacity(4) }
    }
    fn find_node(&mut self, t: &Self::QueryArg, ch: &[Child<Tr<M, D>>]) -> FindResult {
        if self.d >= 31 {
            panic!("tree deeper than 31 levels (cycle?)");
        }
        self.lv.push(ch.iter().map(|c| (c.arena, c.cache)).collect());
        let i = t[self.d] as usize;
        self.d += 1;
        FindResult::new_found(i, 0)
    }
    fn confirm_elem(&mut self, _: &Self::QueryArg, _: &El<M>) -> (usize, bool) {
        (0, true)
    }
}

/// What a user-defined search is told to do: which child to choose at each level, which steps call the
/// target missing (bit = level, the last one the element itself), which offset to give.
#[derive(Clone, Copy)]
pub struct Goal {
    pub path: [u8; 32],
    pub miss: u32,
    pub levels: usize,
    pub off: usize,
}

/// A user-defined search that does what its goal says and records what it is shown.
pub struct Guide<const M: u8> {
    pub lv: Vec<Vec<(ArenaIndex, Ca)>>,
    pub conf: Vec<El<M>>,
}

impl<const M: u8, const D: bool> Query<Tr<M, D>> for Guide<M> {
    type QueryArg = Goal;
    fn init(_: &Goal) -> Self {
        Guide { lv: Vec::with_capacity(4), conf: Vec::with_capacity(1) }
    }
    fn find_node(&mut self, g: &Goal, ch: &[Child<Tr<M, D>>]) -> FindResult {
        let d = self.lv.len();
        if d >= 31 {
            panic!("tree deeper than 31 levels (cycle?)");
        }
        self.lv.push(ch.iter().map(|c| (c.arena, c.cache)).collect());
        let i = g.path[d] as usize;
        if g.miss >> d & 1 == 0 {
            FindResult::new_found(i, g.off)
        } else {
            FindResult::new_missing(i, g.off)
        }
    }
    fn confirm_elem(&mut self, g: &Goal, e: &El<M>) -> (usize, bool) {
        self.conf.push(*e);
        (g.off, g.miss >> g.levels & 1 == 0)
    }
}

#[derive(Clone, Debug)]
pub struct NodeRec {
    pub arena: Option<ArenaIndex>, // None: root
    pub cache: Ca,                 // as recorded in the parent (root: root_cache)
    pub level: usize,
    pub nchild: usize,
    pub leaf_children: bool,
    pub first: usize, // leaf range
    pub end: usize,
}

#[derive(Clone, Debug)]
pub struct Snap<const M: u8> {
    pub leaves: Vec<(LeafIndex, El<M>)>,
    pub leaf_cache: Vec<Ca>,
    pub leaf_level: Vec<u8>,
    /// index into `nodes` of the leaf's parent
    pub leaf_parent: Vec<u32>,
    /// preorder
    pub nodes: Vec<NodeRec>,
    pub node_len: usize,
}

impl<const M: u8> PartialEq for Snap<M> {
    fn eq(&self, o: &Self) -> bool {
        self.leaves == o.leaves
            && self.leaf_cache == o.leaf_cache
            && self.leaf_level == o.leaf_level
            && self.node_len == o.node_len
            && self.nodes.len() == o.nodes.len()
            && self.nodes.iter().zip(&o.nodes).all(|(a, b)| {
                a.arena == b.arena && a.cache == b.cache && a.level == b.level && a.nchild == b.nchild
            })
    }
}

impl<const M: u8> Snap<M> {
    pub fn take<const D: bool>(tree: &BTree<Tr<M, D>>) -> Result<Self, String> {
        let mut s = Snap {
            leaves: Vec::new(),
            leaf_cache: Vec::new(),
            leaf_level: Vec::new(),
            leaf_parent: Vec::new(),
            nodes: Vec::new(),
            node_len: tree.node_len(),
        };
        let root_cache = *tree.root_cache();
        if tree.is_empty() {
            s.nodes.push(NodeRec { arena: None, cache: root_cache, level: 0, nchild: 0, leaf_children: true, first: 0, end: 0 });
            return Ok(s);
        }
        let mut path = [0u8; 32];
        let mut from = 0usize; // first level at which this path shows new nodes
        let mut open: Vec<usize> = Vec::new();
        loop {
            let (_, w) = tree.query_with_finder_return::<Walk>(&path);
            let lv = w.lv;
            let last = lv.len() - 1;
            for l in from..=last {
                let (arena, cache) = if l == 0 {
                    (None, root_cache)
                } else {
                    let (a, c) = lv[l - 1][path[l - 1] as usize];
                    (Some(a), c)
                };
                open.truncate(l);
                open.push(s.nodes.len());
                s.nodes.push(NodeRec {
                    arena,
                    cache,
                    level: l,
                    nchild: lv[l].len(),
                    leaf_children: l == last,
                    first: s.leaves.len(),
                    end: 0,
                });
            }
            for (a, c) in &lv[last] {
                let ArenaIndex::Leaf(raw) = *a else {
                    return Err("an inner node mixes elements and inner nodes".into());
                };
                let li = LeafIndex::from(raw);
                let Some(e) = tree.get_elem(li) else {
                    return Err("a child list names an element that does not exist".into());
                };
                s.leaves.push((li, *e));
                s.leaf_cache.push(*c);
                s.leaf_level.push(last as u8);
                s.leaf_parent.push(*open.last().unwrap() as u32);
            }
            if s.leaves.len() > 20_000 {
                return Err("more than 20000 elements reachable (cycle?)".into());
            }
            // close and advance
            let mut k = last;
            let adv = loop {
                s.nodes[open[k]].end = s.leaves.len();
                open.truncate(k);
                if k == 0 {
                    break None;
                }
                k -= 1;
                if (path[k] as usize) + 1 < lv[k].len() {
                    break Some(k);
                }
            };
            match adv {
                None => break,
                Some(k) => {
                    path[k] += 1;
                    for x in path.iter_mut().skip(k + 1) {
                        *x = 0;
                    }
                    from = k + 1;
                }
            }
        }
        Ok(s)
    }

    pub fn atoms(&self) -> Vec<Atom> {
        self.leaves.iter().flat_map(|(_, e)| e.atoms().iter().copied()).collect()
    }
    pub fn natoms(&self) -> usize {
        self.leaves.iter().map(|(_, e)| e.n as usize).sum()
    }
    pub fn total(&self) -> usize {
        self.leaves.iter().map(|(_, e)| e.len()).sum()
    }
    pub fn n(&self) -> usize {
        self.leaves.len()
    }
    pub fn max_id(&self) -> u16 {
        self.leaves.iter().flat_map(|(_, e)| e.atoms().iter().map(|a| a.id)).max().unwrap_or(0)
    }
    /// atoms before leaf `li`
    pub fn atoms_before(&self, li: usize) -> usize {
        self.leaves[..li].iter().map(|(_, e)| e.n as usize).sum()
    }
    pub fn cut(&self, li: usize, off: usize) -> usize {
        self.atoms_before(li) + off
    }
    pub fn cursor(&self, li: usize, off: usize) -> Cursor {
        Cursor { leaf: self.leaves[li].0, offset: off * sc(M) }
    }
    /// Reference for searching by position: (leaf ordinal, offset, found)
    pub fn lookup(&self, i: usize) -> (usize, usize, bool) {
        let mut left = i;
        for (k, (_, e)) in self.leaves.iter().enumerate() {
            if left < e.len() {
                return (k, left, true);
            }
            left -= e.len();
        }
        let k = self.leaves.len() - 1;
        (k, left + self.leaves[k].1.len(), false)
    }
    pub fn ordinal(&self, l: LeafIndex) -> Option<usize> {
        self.leaves.iter().position(|x| x.0 == l)
    }
    /// the goal of a search that leads to element `li`
    pub fn goal(&self, li: usize, off: usize, miss: u32) -> Goal {
        let mut path = [0u8; 32];
        let p = self.leaf_parent[li] as usize;
        let mut l = self.nodes[p].level;
        let levels = l + 1;
        path[l] = (li - self.nodes[p].first) as u8;
        let mut c = 0;
        for k in (0..p).rev() {
            if l == 0 {
                break;
            }
            if self.nodes[k].level == l {
                c += 1;
            } else if self.nodes[k].level + 1 == l {
                l -= 1;
                path[l] = c;
                c = 0;
            }
        }
        Goal { path, miss, levels, off: off * sc(M) }
    }
    pub fn depth(&self) -> usize {
        self.nodes.iter().map(|n| n.level).max().unwrap_or(0) + 1
    }
    /// Canonical state key: preorder child counts, element lengths, kinds and classes.
    /// Identities and marks are dropped: no code path depends on them (see DESIGN.md).
    pub fn key(&self) -> Vec<u8> {
        let mut k = Vec::with_capacity(self.nodes.len() + self.leaves.len() * 2);
        for nd in &self.nodes {
            k.push(0x80 | nd.nchild as u8);
            if nd.leaf_children {
                for (_, e) in &self.leaves[nd.first..nd.end] {
                    k.push(e.n | if e.zero { 0x40 } else { 0 });
                    if M == SPAN || M == RLE || M == WIDE {
                        let mut x = 0u16;
                        for a in e.atoms() {
                            x = x << 2 | a.cls as u16;
                        }
                        k.extend_from_slice(&x.to_le_bytes());
                    }
                }
            }
        }
        k
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for nd in &self.nodes {
            s.push_str(&format!("{}node children={} cache={:?}\n", "  ".repeat(nd.level), nd.nchild, nd.cache));
            if nd.leaf_children {
                for i in nd.first..nd.end {
                    s.push_str(&format!("{}leaf {:?} cache={:?}\n", "  ".repeat(nd.level + 1), self.leaves[i].1, self.leaf_cache[i]));
                }
            }
        }
        s
    }
}
