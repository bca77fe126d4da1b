//! The provided slicing helpers on element types that define as little as possible (C19).
use crate::ops::Op;
use crate::oracle::req;
use crate::rbfs::*;
use generic_btree::rle::{HasLength, Sliceable};
use std::ops::{Bound, Range};

pub const SPLIT: u8 = 0; // a: piece, position
pub const UPD: u8 = 1; // a: piece, start, kind, end, kind
pub const SLICE: u8 = 2; // in place, same arguments
pub const PEEK: u8 = 3; // a slice that leaves the piece alone

type At = (u8, u8); // identity, mark

/// `OWN`: defines its own `split` next to `_slice`, as the trait advises.
#[derive(Clone, Debug, PartialEq)]
pub struct E<const OWN: bool>(Vec<At>);

impl<const OWN: bool> HasLength for E<OWN> {
    fn rle_len(&self) -> usize {
        self.0.len()
    }
}

macro_rules! own_slice {
    () => {
        fn _slice(&self, r: Range<usize>) -> Self {
            E(self.0[r].to_vec())
        }
    };
}
impl Sliceable for E<false> {
    own_slice!();
}
impl Sliceable for E<true> {
    own_slice!();
    fn split(&mut self, pos: usize) -> Self {
        E(self.0.split_off(pos))
    }
}

pub struct SliceSys<const OWN: bool> {
    p: Vec<E<OWN>>,
    m: Vec<Vec<At>>,
}

pub const START: u8 = 4;

fn bounds(s: u16, sk: u16, e: u16, ek: u16) -> (Bound<usize>, Bound<usize>) {
    let f = |x: u16, k: u16| match k {
        0 => Bound::Included(x as usize),
        1 => Bound::Excluded(x as usize),
        _ => Bound::Unbounded,
    };
    (f(s, sk), f(e, ek))
}
fn plain(b: (Bound<usize>, Bound<usize>), n: usize) -> (usize, usize) {
    (
        match b.0 {
            Bound::Included(x) => x,
            Bound::Excluded(x) => x + 1,
            Bound::Unbounded => 0,
        },
        match b.1 {
            Bound::Included(x) => x + 1,
            Bound::Excluded(x) => x,
            Bound::Unbounded => n,
        },
    )
}

impl<const OWN: bool> Sys for SliceSys<OWN>
where
    E<OWN>: Sliceable,
{
    const ENGINE: &'static str = if OWN { "slice-own" } else { "slice" };
    fn new() -> Self {
        SliceSys { p: vec![], m: vec![] }
    }
    fn apply(&mut self, op: &Op, _judge: bool) -> Result<(), String> {
        let a = op.a;
        let i = a[0] as usize;
        if op.k == START {
            let v: Vec<At> = (0..a[0] as u8).map(|x| (x, 0)).collect();
            self.p = vec![E(v.clone())];
            self.m = vec![v];
            return Ok(());
        }
        let n = self.p[i].rle_len();
        match op.k {
            SPLIT => {
                let r = self.p[i].split(a[1] as usize);
                self.p.insert(i + 1, r);
                let r = self.m[i].split_off(a[1] as usize);
                self.m.insert(i + 1, r);
            }
            UPD => {
                let b = bounds(a[1], a[2], a[3], a[4]);
                let (s, e) = plain(b, n);
                let mut calls = Vec::new();
                let (x, y) = self.p[i].update_with_split(b, |p| {
                    calls.push(p.0.clone());
                    for z in &mut p.0 {
                        z.1 ^= 1;
                    }
                });
                let old = self.m[i].clone();
                if s >= e {
                    req!(calls.is_empty() && x.is_none() && y.is_none(), "updating the empty range {b:?} called the function {} times and returned {x:?} {y:?}", calls.len());
                } else {
                    req!(calls.len() == 1 && calls[0] == old[s..e], "updating {b:?} called the function on {calls:?}, the range holds {:?}", &old[s..e]);
                    let mid: Vec<At> = old[s..e].iter().map(|z| (z.0, z.1 ^ 1)).collect();
                    let mut parts: Vec<Vec<At>> = Vec::new();
                    if s > 0 {
                        parts.push(old[..s].to_vec());
                    }
                    parts.push(mid);
                    if e < n {
                        parts.push(old[e..].to_vec());
                    }
                    self.m.splice(i..i + 1, parts);
                }
                let rest: Vec<E<OWN>> = [x, y].into_iter().flatten().collect();
                self.p.splice(i + 1..i + 1, rest);
            }
            SLICE => {
                let b = bounds(a[1], a[2], a[3], a[4]);
                let (s, e) = plain(b, n);
                self.p[i].slice_(b);
                self.m[i] = self.m[i][s..e].to_vec();
            }
            _ => {
                let b = bounds(a[1], a[2], a[3], a[4]);
                let (s, e) = plain(b, n);
                let r = self.p[i].slice(b);
                req!(r.0 == self.m[i][s..e], "slice({b:?}) is {:?}, should be {:?}", r.0, &self.m[i][s..e]);
            }
        }
        req!(self.p.len() == self.m.len() && self.p.iter().zip(&self.m).all(|(a, b)| a.0 == *b), "the pieces are {:?}, should be {:?}", self.p, self.m);
        Ok(())
    }
    fn key(&self) -> Vec<u8> {
        let mut k = Vec::new();
        for p in &self.p {
            k.push(p.0.len() as u8 | 0x80);
            k.extend(p.0.iter().map(|x| x.1));
        }
        k
    }
    fn size(&self) -> usize {
        self.p.len()
    }
    fn describe(&self, op: &Op) -> String {
        let a = op.a;
        match op.k {
            START => format!("element of length {}", a[0]),
            SPLIT => format!("piece {}: split({})", a[0], a[1]),
            k => format!("piece {}: {}({:?})", a[0], ["", "update_with_split", "slice_", "slice"][k as usize], bounds(a[1], a[2], a[3], a[4])),
        }
    }
    fn show(&self) -> String {
        format!("{:?}", self.p)
    }
}

pub fn base<const OWN: bool>(name: &str, max_len: u16, pieces: usize) -> RScen<SliceSys<OWN>>
where
    E<OWN>: Sliceable,
{
    RScen {
        name: name.into(),
        gen: Box::new(|s: &SliceSys<OWN>, out| {
            for (i, p) in s.p.iter().enumerate() {
                let n = p.0.len() as u16;
                let i = i as u16;
                for x in 0..=n {
                    out.push(Op::new(SPLIT, &[i, x]));
                }
                for sk in 0..3u16 {
                    for ek in 0..3u16 {
                        for x in 0..=if sk == 2 { 0 } else { n } {
                            for y in 0..=if ek == 2 { 0 } else { n } {
                                let (s, e) = plain(bounds(x, sk, y, ek), n as usize);
                                if e > n as usize {
                                    continue;
                                }
                                if s <= e {
                                    out.push(Op::new(SLICE, &[i, x, sk, y, ek]));
                                    out.push(Op::new(PEEK, &[i, x, sk, y, ek]));
                                }
                                // also reversed ranges, which are empty
                                out.push(Op::new(UPD, &[i, x, sk, y, ek]));
                            }
                        }
                    }
                }
            }
        }),
        seeds: (0..=max_len).map(|n| vec![Op::new(START, &[n])]).collect(),
        depth: 64,
        max: pieces,
        secs: 300,
    }
}
