//! A map from ranges of positions to numbers, built on the tree's public operations (C21).
use crate::ops::Op;
use crate::oracle::req;
use crate::rbfs::*;
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::*;
use std::ops::Range;

pub const INS: u8 = 0; // a: start, end, value
pub const PLUS: u8 = 1; // a: start, end, change
pub const DRAIN: u8 = 2; // a: start, end, 1 = drop early
pub const APPEND: u8 = 3; // a: length, value+1 (0 = nothing)
pub const FILL: u8 = 4; // macro: a[0] single positions with values from a cycle of a[1]

struct T;

#[derive(Debug, Clone, PartialEq)]
struct E {
    value: Option<isize>,
    len: usize,
}

impl HasLength for E {
    fn rle_len(&self) -> usize {
        self.len
    }
}
impl Mergeable for E {
    fn can_merge(&self, rhs: &Self) -> bool {
        self.value == rhs.value || rhs.len == 0
    }
    fn merge_right(&mut self, rhs: &Self) {
        self.len += rhs.len
    }
    fn merge_left(&mut self, left: &Self) {
        self.len += left.len
    }
}
impl Sliceable for E {
    fn _slice(&self, range: Range<usize>) -> Self {
        assert!(range.start <= range.end && range.end <= self.len, "sliced {range:?} of an element of length {}", self.len);
        E { value: self.value, len: range.len() }
    }
}
impl TryInsert for E {
    fn try_insert(&mut self, _: usize, elem: Self) -> Result<(), Self> {
        Err(elem)
    }
}
impl CanRemove for E {
    fn can_remove(&self) -> bool {
        self.len == 0
    }
}
impl UseLengthFinder<T> for T {
    fn get_len(c: &usize) -> usize {
        *c
    }
}
impl BTreeTrait for T {
    type Elem = E;
    type Cache = usize;
    type CacheDiff = isize;
    fn calc_cache_internal(cache: &mut usize, ch: &[Child<Self>]) -> isize {
        let new = ch.iter().map(|c| c.cache).sum::<usize>();
        let d = new as isize - *cache as isize;
        *cache = new;
        d
    }
    fn merge_cache_diff(a: &mut isize, b: &isize) {
        *a += b
    }
    fn get_elem_cache(e: &E) -> usize {
        e.len
    }
    fn apply_cache_diff(c: &mut usize, d: &isize) {
        *c = (*c as isize + d) as usize
    }
    fn new_cache_to_diff(c: &usize) -> isize {
        *c as isize
    }
    fn sub_cache(a: &usize, b: &usize) -> isize {
        *a as isize - *b as isize
    }
}

const MOD: isize = 3;

/// The client, in the way of the repository's integration test.
pub struct MapSys {
    t: BTree<T>,
    m: Vec<Option<isize>>,
}

/// How far past the requested end the client reserves.
const PAD: usize = 1;

impl MapSys {
    fn reserve(&mut self, end: usize) {
        let n = *self.t.root_cache();
        if n < end {
            self.t.push(E { value: None, len: end - n + PAD });
        }
        let n = self.m.len();
        if n < end {
            self.m.resize(end + PAD, None);
        }
    }
    fn set(&mut self, r: Range<usize>, f: impl Fn(&mut Option<isize>)) {
        self.reserve(r.end);
        if let Some(c) = self.t.range::<LengthFinder>(r.clone()) {
            self.t.update(c.start.cursor..c.end.cursor, &mut |e| {
                f(&mut e.value);
                None
            });
        }
        for x in &mut self.m[r] {
            f(x);
        }
    }
    fn get(&self, i: usize) -> Option<isize> {
        let q = self.t.query::<LengthFinder>(&i)?;
        if !q.found {
            return None;
        }
        self.t.get_elem(q.leaf()).and_then(|e| e.value)
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    fn check(&self) -> Result<(), String> {
        let n = self.m.len();
        req!(*self.t.root_cache() == n, "the map covers {} positions instead of {n}", self.t.root_cache());
        let flat: Vec<Option<isize>> = self.t.iter().flat_map(|e| std::iter::repeat(e.value).take(e.len)).take(n + 9).collect();
        req!(flat == self.m, "iterating gives {flat:?}, the array is {:?}", self.m);
        for i in 0..n + 2 {
            let got = self.get(i);
            let want = self.m.get(i).copied().flatten();
            req!(got == want, "position {i} is {got:?}, the array has {want:?}");
        }
        req!(self.t.iter().all(|e| e.len > 0), "an element of length 0 is left");
        self.t.check();
        Ok(())
    }
}

impl Sys for MapSys {
    const ENGINE: &'static str = "rangemap";
    fn new() -> Self {
        MapSys { t: BTree::new(), m: Vec::new() }
    }
    fn apply(&mut self, op: &Op, judge: bool) -> Result<(), String> {
        let (a, b, v) = (op.a[0] as usize, op.a[1] as usize, op.a[2] as isize);
        match op.k {
            INS => self.set(a..b, |x| *x = Some(v)),
            PLUS => self.set(a..b, |x| {
                if let Some(y) = x {
                    *y = (*y + v) % MOD
                }
            }),
            DRAIN => {
                let n = self.m.len();
                let want: Vec<Option<isize>> = self.m.drain(a.min(n)..b.min(n)).collect();
                let from = self.t.query::<LengthFinder>(&a);
                let to = self.t.query::<LengthFinder>(&b);
                let d = iter::Drain::new(&mut self.t, from, to);
                if op.a[2] == 1 {
                    drop(d);
                } else {
                    let got: Vec<Option<isize>> = d.flat_map(|e| std::iter::repeat(e.value).take(e.len)).collect();
                    req!(got == want, "draining {a}..{b} yields {got:?}, the array held {want:?}");
                }
            }
            APPEND => {
                let value = (op.a[1] > 0).then_some(op.a[1] as isize - 1);
                self.t.push(E { value, len: a });
                self.m.extend(std::iter::repeat(value).take(a));
            }
            _ => {
                for i in 0..a {
                    let value = Some((i % b) as isize);
                    self.t.push(E { value, len: 1 });
                    self.m.push(value);
                }
            }
        }
        if judge {
            self.check()?;
        }
        Ok(())
    }
    fn key(&self) -> Vec<u8> {
        normalise(&format!("{:?}", self.t))
    }
    fn size(&self) -> usize {
        self.m.len()
    }
    fn describe(&self, op: &Op) -> String {
        let a = op.a;
        match op.k {
            INS => format!("assign {}..{} = {}", a[0], a[1], a[2]),
            PLUS => format!("add {} to {}..{}", a[2], a[0], a[1]),
            DRAIN => format!("drain {}..{}{}", a[0], a[1], if a[2] == 1 { ", dropped at once" } else { "" }),
            APPEND => format!("append {} x {:?}", a[0], (a[1] > 0).then_some(a[1] - 1)),
            _ => format!("append {} single positions with {} values in turn", a[0], a[1]),
        }
    }
    fn show(&self) -> String {
        format!("array {:?}\n{:?}", self.m, self.t)
    }
}

/// `stride`: 1 explores every range, larger ones thin out the ends of large maps.
pub fn base(name: &str, cover: usize, stride: usize) -> RScen<MapSys> {
    RScen {
        name: name.into(),
        gen: Box::new(move |s: &MapSys, out| {
            let top = cover.max(s.len() + (stride > 1) as usize);
            for i in 0..=top {
                if stride > 1 && i % stride > 1 && i + 3 < top {
                    continue;
                }
                for j in i..=top {
                    if stride > 1 && j % stride > 1 && j + 2 < top && j > i + 2 {
                        continue;
                    }
                    let (a, b) = (i as u16, j as u16);
                    out.push(Op::new(INS, &[a, b, 0]));
                    out.push(Op::new(INS, &[a, b, 1]));
                    out.push(Op::new(PLUS, &[a, b, 1]));
                    if j <= s.len() {
                        out.push(Op::new(DRAIN, &[a, b, 0]));
                        out.push(Op::new(DRAIN, &[a, b, 1]));
                    }
                }
            }
            for l in 1..=2 {
                for v in 0..=2 {
                    out.push(Op::new(APPEND, &[l, v]));
                }
            }
        }),
        seeds: vec![vec![]],
        depth: 64,
        max: 8,
        secs: 300,
    }
}
pub fn fill(n: u16, vals: u16) -> Op {
    Op::new(FILL, &[n, vals])
}
