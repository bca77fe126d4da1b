//! The ordered map and set against the standard library's (C02).
use crate::ops::Op;
use crate::oracle::req;
use crate::rbfs::*;
use generic_btree::{OrdTreeMap, OrdTreeSet};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub const ADD: u8 = 0; // a new key in gap a[0] (before the a[0]-th key)
pub const SET: u8 = 1; // overwrite the a[0]-th key
pub const DEL: u8 = 2; // delete the a[0]-th key
pub const DELX: u8 = 3; // delete an absent key in gap a[0]
pub const ADDN: u8 = 4; // macro: a[0] new keys, ascending (a[1]=0), descending (1), in the middle (2)
pub const DELP: u8 = 5; // macro: delete every key whose rank % a[0] == a[1]

/// distance of keys added at an end; halved for each key put between two
const STEP: i128 = 1 << 100;

thread_local! {
    static RANK: RefCell<Option<Vec<i128>>> = const { RefCell::new(None) };
}

/// A key that prints as its rank among the current keys while a state key is taken.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Key(i128);

impl std::fmt::Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        RANK.with(|r| match &*r.borrow() {
            Some(v) => match v.binary_search(&self.0) {
                Ok(i) => write!(f, "k{i}"),
                Err(i) => write!(f, "x{i}"),
            },
            None => write!(f, "{:.4}", self.0 as f64 / STEP as f64),
        })
    }
}

/// A value that leaves no trace in state keys.
#[derive(Clone, PartialEq)]
pub struct Val(u32);

impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        RANK.with(|r| if r.borrow().is_some() { Ok(()) } else { write!(f, "v{}", self.0) })
    }
}

pub struct OrdSys {
    map: OrdTreeMap<Key, Val>,
    set: OrdTreeSet<Key>,
    m: BTreeMap<i128, u32>,
    s: BTreeSet<i128>,
    next: u32,
}

impl OrdSys {
    pub fn len(&self) -> usize {
        self.m.len()
    }
    fn nth(&self, i: usize) -> i128 {
        *self.m.keys().nth(i).unwrap()
    }
    fn room(&self, i: usize) -> bool {
        i == 0 || i >= self.m.len() || self.nth(i) - self.nth(i - 1) >= 1 << 40
    }
    fn gap(&self, i: usize) -> i128 {
        let n = self.m.len();
        match (i > 0, i < n) {
            (false, false) => 0,
            (false, true) => self.nth(0) - STEP,
            (true, false) => self.nth(n - 1) + STEP,
            (true, true) => {
                let (a, b) = (self.nth(i - 1), self.nth(i));
                assert!(b - a >= 2, "harness: ran out of keys between two others");
                a + (b - a) / 2
            }
        }
    }
    fn add(&mut self, k: i128) {
        self.next += 1;
        self.map.insert(Key(k), Val(self.next));
        self.set.insert(Key(k));
        self.m.insert(k, self.next);
        self.s.insert(k);
    }
    fn del(&mut self, k: i128) -> Result<(), String> {
        let want = self.m.remove(&k);
        let got = self.map.delete(&Key(k));
        req!(
            got == want.map(|v| (Key(k), Val(v))),
            "deleting {} key {:?} from the map returned {got:?}",
            if want.is_some() { "the present" } else { "the absent" },
            Key(k)
        );
        let want = self.s.remove(&k);
        let got = self.set.delete(&Key(k));
        req!(got == want, "deleting {} key {:?} from the set returned {got}", if want { "the present" } else { "the absent" }, Key(k));
        Ok(())
    }
    fn check(&self) -> Result<(), String> {
        let n = self.m.len();
        let got: Vec<(i128, u32)> = self.map.iter().take(n + 5).map(|x| (x.0 .0, x.1 .0)).collect();
        req!(got.iter().copied().eq(self.m.iter().map(|(k, v)| (*k, *v))), "the map holds {:?}, should hold {:?}", self.map.iter().take(n + 5).collect::<Vec<_>>(), self.m.iter().map(|(k, v)| (Key(*k), Val(*v))).collect::<Vec<_>>());
        req!(self.map.iter_key().take(n + 5).map(|k| k.0).eq(self.m.keys().copied()), "iter_key() differs from the keys of iter()");
        req!(self.map.len() == n && self.map.is_empty() == (n == 0), "the map reports len {} and is_empty {} for {n} entries", self.map.len(), self.map.is_empty());
        req!(self.set.iter().take(n + 5).map(|k| k.0).eq(self.s.iter().copied()), "the set holds {:?}, should hold {:?}", self.set.iter().take(n + 5).collect::<Vec<_>>(), self.s.iter().map(|k| Key(*k)).collect::<Vec<_>>());
        req!(self.set.len() == n && self.set.is_empty() == (n == 0), "the set reports len {} and is_empty {} for {n} entries", self.set.len(), self.set.is_empty());
        Ok(())
    }
}

impl Sys for OrdSys {
    const ENGINE: &'static str = "ord";
    fn new() -> Self {
        OrdSys { map: OrdTreeMap::new(), set: OrdTreeSet::new(), m: BTreeMap::new(), s: BTreeSet::new(), next: 0 }
    }
    fn apply(&mut self, op: &Op, judge: bool) -> Result<(), String> {
        let i = op.a[0] as usize;
        match op.k {
            ADD => self.add(self.gap(i)),
            SET => self.add(self.nth(i)),
            DEL => self.del(self.nth(i))?,
            DELX => self.del(self.gap(i))?,
            ADDN => {
                for _ in 0..i {
                    let n = self.m.len();
                    let g = match op.a[1] {
                        0 => n,
                        1 => 0,
                        2 => n / 2,
                        _ => (self.next as usize * 7) % (n + 1),
                    };
                    self.add(self.gap(if self.room(g) { g } else { n }));
                }
            }
            _ => {
                let ks: Vec<i128> = self.m.keys().copied().enumerate().filter(|(r, _)| (*r as u16) % op.a[0] == op.a[1]).map(|x| x.1).collect();
                for k in ks {
                    self.del(k)?;
                }
            }
        }
        if judge {
            self.check()?;
        }
        Ok(())
    }
    fn key(&self) -> Vec<u8> {
        RANK.with(|r| *r.borrow_mut() = Some(self.m.keys().copied().collect()));
        let t = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format!("{:?}\n{:?}", self.map, self.set)));
        RANK.with(|r| *r.borrow_mut() = None);
        normalise(&t.unwrap_or_else(|e| std::panic::resume_unwind(e)))
    }
    fn size(&self) -> usize {
        self.m.len()
    }
    fn describe(&self, op: &Op) -> String {
        let i = op.a[0] as usize;
        match op.k {
            ADD => format!("insert new key {:?}", Key(self.gap(i))),
            SET => format!("overwrite key {:?}", Key(self.nth(i))),
            DEL => format!("delete key {:?}", Key(self.nth(i))),
            DELX => format!("delete absent key {:?}", Key(self.gap(i))),
            ADDN => format!("insert {i} new keys {}", ["ascending", "descending", "in the middle", "in mixed order"][op.a[1] as usize % 4]),
            _ => format!("delete every key with rank % {} == {}", op.a[0], op.a[1]),
        }
    }
    fn show(&self) -> String {
        format!("keys {:?}\n{:?}", self.m.keys().map(|k| Key(*k)).collect::<Vec<_>>(), self.map)
    }
}

pub fn base(name: &str) -> RScen<OrdSys> {
    RScen {
        name: name.into(),
        gen: Box::new(|s: &OrdSys, out| {
            let n = s.len() as u16;
            for i in 0..=n {
                out.push(Op::new(ADD, &[i]));
                out.push(Op::new(DELX, &[i]));
            }
            for i in 0..n {
                out.push(Op::new(SET, &[i]));
                out.push(Op::new(DEL, &[i]));
            }
        }),
        seeds: vec![vec![]],
        depth: 64,
        max: 8,
        secs: 300,
    }
}
pub fn addn(n: u16, how: u16) -> Op {
    Op::new(ADDN, &[n, how])
}
pub fn delp(a: u16, b: u16) -> Op {
    Op::new(DELP, &[a, b])
}
