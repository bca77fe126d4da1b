//! Operations: generation, execution on the real tree, and what the reference says must come out.
use crate::elem::*;
use crate::oracle::*;
use crate::snap::*;
use generic_btree::rle::{CanRemove, Sliceable};
use generic_btree::*;

pub const PATH: u8 = 0; // insert_by_path(leaf, offset, elem)
pub const IDX: u8 = 1; // insert::<LengthFinder>(i, elem)
pub const PUSH: u8 = 2;
pub const PREPEND: u8 = 3;
pub const REMOVE: u8 = 4; // remove_leaf
pub const LEAF: u8 = 5; // update_leaf
pub const SEARCH: u8 = 6; // update_leaf_by_search
pub const UPDATE: u8 = 7; // update(range)
pub const DRAIN: u8 = 8;
pub const ARGS: u8 = 9; // update_leaves_with_arg_in_ranges
pub const MANY: u8 = 10; // insert_many_by_cursor
pub const CLEAR: u8 = 11;
pub const FROM: u8 = 12; // from_iter
pub const EDIT: u8 = 13; // get_elem_mut + recursive_update_cache
pub const FILT: u8 = 14; // update_cache_and_elem_with_filter
pub const PUSHN: u8 = 15; // macro: n pushes
pub const PREPENDN: u8 = 16; // macro: n prepends
pub const REMPAT: u8 = 17; // macro: remove every element whose ordinal % a == b
pub const MIDN: u8 = 18; // macro: n inserts in the middle
pub const NK: usize = 19;

pub const KNAME: [&str; NK] = [
    "insert_by_path", "insert", "push", "prepend", "remove_leaf", "update_leaf", "update_leaf_by_search", "update", "drain",
    "update_leaves_with_arg_in_ranges", "insert_many_by_cursor", "clear", "from_iter", "edit_in_place",
    "update_cache_and_elem_with_filter", "push_n", "prepend_n", "remove_pattern", "insert_middle_n",
];

pub const fn bit(k: u8) -> u32 {
    1 << k
}

/// None as an ordinal
pub const NO: u16 = u16::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    pub k: u8,
    pub a: [u16; 10],
}

impl Op {
    pub fn new(k: u8, v: &[u16]) -> Op {
        let mut a = [0; 10];
        a[..v.len()].copy_from_slice(v);
        Op { k, a }
    }
    pub fn to_ints(&self) -> String {
        let mut s = self.k.to_string();
        for x in self.a {
            s.push_str(&format!(",{x}"));
        }
        s
    }
    pub fn from_ints(s: &str) -> Option<Op> {
        let v: Vec<u16> = s.split(',').map(|x| x.trim().parse().ok()).collect::<Option<_>>()?;
        ((2..=11).contains(&v.len()) && (v[0] as usize) < NK).then(|| Op::new(v[0] as u8, &v[1..]))
    }
}

/// A template of an element to insert: classes of its atoms and whether it has zero length.
pub type Tpl = (Vec<u8>, bool);

/// One unit of content as the reference sees it.
pub type U = (Atom, bool);

pub fn seq<const M: u8>(s: &Snap<M>) -> Vec<U> {
    s.leaves.iter().flat_map(|(_, e)| e.atoms().iter().map(|a| (*a, e.zero))).collect()
}

pub struct Outcome {
    pub exp: Vec<U>,
    /// wrong return values or callback sequences
    pub ret: Option<String>,
    /// ordinals of elements the operation targets; all others must stay exactly as they are
    pub touched: Vec<(usize, usize)>, // inclusive ranges
    /// handles the call reported, if this kind of operation reports
    pub reported: Option<Vec<LeafIndex>>,
    /// fresh content must be under a reported handle or the target's own
    pub fresh_reported: Option<LeafIndex>,
    /// returned cursor must point at the unit at this index of `exp`
    pub cursor: Option<(Cursor, usize)>,
    pub removed: Option<LeafIndex>,
    pub may_report_gone: bool,
    /// the operation replaced the tree by a new one, which starts numbering its handles anew
    pub cleared: bool,
}

impl Outcome {
    fn new(exp: Vec<U>) -> Self {
        Outcome { exp, ret: None, touched: vec![], reported: None, fresh_reported: None, cursor: None, removed: None, may_report_gone: false, cleared: false }
    }
    fn bad(&mut self, s: String) {
        if self.ret.is_none() {
            self.ret = Some(s);
        }
    }
}

fn mk<const M: u8>(t: &Tpl, fresh: &mut u16) -> El<M> {
    let at: Vec<Atom> = t
        .0
        .iter()
        .map(|c| {
            *fresh += 1;
            Atom { cls: *c, mk: 0, id: *fresh }
        })
        .collect();
    El::from_atoms(&at, t.1)
}

fn units<const M: u8>(e: &El<M>) -> impl Iterator<Item = U> + '_ {
    e.atoms().iter().map(|a| (*a, e.zero))
}

/// word `code` in base |alpha| with `p` digits, repeated up to length `l`
pub fn word<const M: u8>(l: usize, p: usize, code: u16, alpha: &[Tpl], fresh: &mut u16) -> Vec<El<M>> {
    let mut dig = Vec::new();
    let mut c = code as usize;
    for _ in 0..p {
        dig.push(c % alpha.len());
        c /= alpha.len();
    }
    (0..l).map(|i| mk(&alpha[dig[i % p]], fresh)).collect()
}

/// which steps of a user-defined search call the target missing
fn missing(k: u16) -> u32 {
    match k {
        0 => 0,
        1 => u32::MAX,
        _ => 1,
    }
}

fn bump(u: &mut U, by: u8) {
    u.0.mk = u.0.mk.wrapping_add(by);
}

/// The sub-ranges of an element of length `l` in a long list of arguments: the first unit; the last; every unit;
/// every prefix; every proper piece without the first and last unit, twice.
fn every(mode: u16, l: usize) -> Vec<(usize, usize)> {
    match mode {
        0 => vec![(0, 1)],
        1 => vec![(l - 1, l)],
        2 => (0..l).map(|i| (i, i + 1)).collect(),
        3 => (1..=l).map(|i| (0, i)).collect(),
        _ if l > 2 => vec![(1, l - 1), (1, l - 1)],
        _ => vec![(0, l), (0, 0)],
    }
}

/// Number of `update_leaf` variants and whether each applies to an element.
pub const NLEAF: u16 = 20;
fn leaf_ok<const M: u8>(e: &El<M>, v: u16) -> bool {
    match v {
        3 => !e.zero && e.n >= 2,
        4 => (e.n as usize) < CAP,
        5 => !e.zero && e.n >= 2,
        6 => !e.zero && e.n >= 3,
        _ => true,
    }
}

/// Executes `op` on the real tree `t` (whose observed content is `s`).
pub fn apply<const M: u8, const D: bool>(t: &mut BTree<Tr<M, D>>, s: &Snap<M>, op: &Op, alpha: &[Tpl]) -> Outcome {
    let pre = seq(s);
    let mut fresh = s.max_id();
    let a = op.a;
    match op.k {
        PATH | IDX | PUSH | PREPEND => {
            let (e, at, li) = match op.k {
                PATH => (a[2], s.cut(a[0] as usize, a[1] as usize), Some(a[0] as usize)),
                IDX if s.n() == 0 => (a[1], 0, None),
                // by a user-defined search
                IDX if a[2] == 1 => (a[1], s.cut(a[0] as usize, a[3] as usize), Some(a[0] as usize)),
                IDX => {
                    let (l, o, _) = s.lookup(a[0] as usize);
                    (a[1], s.cut(l, o), Some(l))
                }
                PUSH => (a[0], pre.len(), s.n().checked_sub(1)),
                _ => (a[0], 0, (s.n() > 0).then_some(0)),
            };
            let el = mk::<M>(&alpha[e as usize], &mut fresh);
            let mut exp = pre;
            exp.splice(at..at, units(&el).collect::<Vec<_>>());
            let mut o = Outcome::new(exp);
            o.touched = li.into_iter().map(|x| (x, x)).collect();
            let (c, sp) = match op.k {
                PATH => t.insert_by_path(s.cursor(a[0] as usize, a[1] as usize), el),
                IDX if a[2] == 1 => {
                    let g = if s.n() == 0 { Goal { path: [0; 32], miss: 0, levels: 1, off: 0 } } else { s.goal(a[0] as usize, a[3] as usize, missing(a[4])) };
                    t.insert::<Guide<M>>(&g, el)
                }
                IDX => t.insert::<LengthFinder>(&(a[0] as usize * sc(M)), el),
                PUSH => (t.push(el), Default::default()),
                _ => (t.prepend(el), Default::default()),
            };
            let mut rep: Vec<LeafIndex> = sp.arr.iter().copied().collect();
            rep.push(c.leaf);
            o.reported = Some(rep);
            o.cursor = Some((c, at));
            o
        }
        REMOVE => {
            let li = a[0] as usize;
            let e = s.leaves[li].1;
            let mut exp = pre;
            let b = s.atoms_before(li);
            exp.drain(b..b + e.n as usize);
            let mut o = Outcome::new(exp);
            o.touched = vec![(li, li)];
            o.removed = Some(s.leaves[li].0);
            let c = s.cursor(li, a[1] as usize);
            let r = t.remove_leaf(c);
            if r != Some(e) {
                o.bad(format!("remove_leaf returned {r:?} instead of {e:?}"));
            }
            if a[2] == 1 {
                // a second removal through the handle that is no longer valid
                let before = Snap::take(t);
                let r = t.remove_leaf(c);
                if r.is_some() {
                    o.bad(format!("removing through a stale handle returned {r:?}"));
                }
                if let (Ok(x), Ok(y)) = (before, Snap::take(t)) {
                    if x != y {
                        o.bad("removing through a stale handle changed the tree".into());
                    }
                }
            }
            o
        }
        LEAF => {
            let li = a[0] as usize;
            let v = a[1];
            let h = s.leaves[li].0;
            let old = s.leaves[li].1;
            let f1 = mk::<M>(&alpha[a[2] as usize % alpha.len()], &mut fresh);
            let f2 = mk::<M>(&alpha[a[3] as usize % alpha.len()], &mut fresh);
            let em = El::<M>::empty();
            let mut new = old;
            let (need, n1, n2) = match v {
                0 => (false, None, None),
                1 => {
                    new.bump(1);
                    (true, None, None)
                }
                2 => {
                    new = em;
                    (true, None, None)
                }
                3 => {
                    new = El::from_atoms(&old.atoms()[..old.n as usize - 1], false);
                    (true, None, None)
                }
                4 => {
                    new.push(f1.a[0]);
                    (true, None, None)
                }
                5 => {
                    let r = new.split(sc(M));
                    (true, Some(r), None)
                }
                6 => {
                    let mut m = new.split(sc(M));
                    let r = m.split(sc(M));
                    (true, Some(m), Some(r))
                }
                7 => (false, Some(f1), None),
                8 => (false, Some(f1), Some(f2)),
                9 => (true, Some(em), Some(f1)),
                10 => (false, Some(em), Some(em)),
                11 => {
                    new = em;
                    (true, Some(f1), None)
                }
                12 => {
                    new = em;
                    (true, Some(f1), Some(f2))
                }
                13 => {
                    new = em;
                    (true, Some(em), Some(f1))
                }
                14 => {
                    new = em;
                    (true, Some(em), Some(em))
                }
                15 => (false, None, Some(f1)),
                16 => {
                    new = em;
                    (true, None, Some(f1))
                }
                17 => (false, Some(em), None),
                18 => (false, Some(f1), Some(em)),
                _ => {
                    new.bump(1);
                    (true, Some(f1), Some(f2))
                }
            };
            let mut put: Vec<U> = Vec::new();
            for e in [Some(new), n1, n2].into_iter().flatten() {
                put.extend(units(&e));
            }
            let left = put.len();
            let b = s.atoms_before(li);
            let mut exp = pre;
            exp.splice(b..b + old.n as usize, put);
            let mut o = Outcome::new(exp);
            o.touched = vec![(li, li + 1)];
            let mut seen = None;
            let (valid, sp) = t.update_leaf(h, |e| {
                seen = Some(*e);
                *e = new;
                (need, n1, n2)
            });
            if seen != Some(old) {
                o.bad(format!("update_leaf passed {seen:?} instead of {old:?}"));
            }
            if valid != (left > 0) {
                o.bad(format!("update_leaf says the element is {} although {left} units of it are left", if valid { "valid" } else { "gone" }));
            }
            if left == 0 {
                o.removed = Some(h);
            }
            o.reported = Some(sp.arr.iter().copied().collect());
            o.fresh_reported = Some(h);
            o
        }
        SEARCH => {
            let guided = a[3] == 1;
            let (li, off, found) = if guided { (a[0] as usize, a[4] as usize, a[5] == 0) } else { s.lookup(a[0] as usize) };
            let h = s.leaves[li].0;
            let old = s.leaves[li].1;
            let b = s.atoms_before(li);
            let f1 = mk::<M>(&alpha[a[2] as usize % alpha.len()], &mut fresh);
            let mut new = old;
            let mut n1 = None;
            let mut ans_none = false;
            match a[1] {
                0 => ans_none = true,
                1 => {
                    let mut v = old.atoms().to_vec();
                    v.remove(off.min(v.len() - 1));
                    new = El::from_atoms(&v, old.zero && !v.is_empty());
                }
                2 => new = El::empty(),
                3 => {
                    let mut v = old.atoms().to_vec();
                    v.insert(off, f1.a[0]);
                    new = El::from_atoms(&v, old.zero);
                }
                4 => n1 = Some(new.split(off * sc(M))),
                5 => n1 = Some(f1),
                _ => new.bump(1),
            }
            let mut put: Vec<U> = units(&new).collect();
            let mut c = elem_cache::<M, D>(&new);
            if let Some(x) = &n1 {
                put.extend(units(x));
                c.add(&elem_cache::<M, D>(x));
            }
            let diff = diff_of(&c, &elem_cache::<M, D>(&old));
            let gone = put.is_empty();
            let mut exp = pre;
            exp.splice(b..b + old.n as usize, put);
            let mut o = Outcome::new(exp);
            o.touched = vec![(li, li)];
            let mut seen = None;
            let f = |e: &mut El<M>, q: QueryResult| {
                seen = Some((*e, q));
                if ans_none {
                    return None;
                }
                *e = new;
                Some((diff, n1, None))
            };
            let (cur, sp) = if guided {
                // (whether one step short of the element calling it missing makes it so is left open)
                t.update_leaf_by_search::<Guide<M>>(&s.goal(li, off, if a[5] == 0 { 0 } else { u32::MAX }), f)
            } else {
                t.update_leaf_by_search::<LengthFinder>(&(a[0] as usize * sc(M)), f)
            };
            match seen {
                None => o.bad("update_leaf_by_search did not call the function".into()),
                Some((e, q)) => {
                    if e != old || q.leaf() != h || q.offset() != off * sc(M) || q.found() != found {
                        o.bad(format!("update_leaf_by_search called the function with {e:?} {q:?} instead of {old:?} (offset {off}, found {found})"));
                    }
                }
            }
            let want = (!gone).then_some(s.cursor(li, off));
            if cur != want {
                o.bad(format!("update_leaf_by_search returned {cur:?} instead of {want:?}"));
            }
            if gone {
                o.removed = Some(h);
            }
            o.reported = Some(sp.arr.iter().copied().collect());
            o.fresh_reported = Some(h);
            o
        }
        UPDATE => {
            let (l0, o0, l1, o1) = (a[0] as usize, a[1] as usize, a[2] as usize, a[3] as usize);
            let (x, y) = (s.cut(l0, o0), s.cut(l1, o1));
            let v = a[4];
            let range = s.cursor(l0, o0)..s.cursor(l1, o1);
            let mut pieces: Vec<U> = Vec::new();
            let mut out: Vec<U> = Vec::new();
            let mut calls = 0usize;
            let mut empty_piece = false;
            let sp = t.update(range, &mut |e: &mut El<M>| {
                let old = *e;
                empty_piece |= e.n == 0;
                pieces.extend(units(e));
                // 0 bump, 1 clear with diff, 2 clear without, 3 alternate bump / clear without,
                // 4 nothing, 5 nothing but report a diff, 6 keep the first unit, 7 alternate clear without / nothing,
                // 8 make zero-length
                let mut report = true;
                match v {
                    0 => e.bump(1),
                    1 => *e = El::empty(),
                    2 => {
                        *e = El::empty();
                        report = false;
                    }
                    3 => {
                        if calls % 2 == 0 {
                            e.bump(1)
                        } else {
                            *e = El::empty();
                            report = false;
                        }
                    }
                    4 => report = false,
                    5 => {}
                    6 => {
                        if e.n > 0 {
                            *e = El::from_atoms(&e.atoms()[..1], e.zero)
                        }
                    }
                    7 => {
                        if calls % 2 == 0 {
                            *e = El::empty();
                        }
                        report = false;
                    }
                    _ => e.zero = true,
                }
                calls += 1;
                out.extend(units(e));
                report.then(|| diff_of(&elem_cache::<M, D>(e), &elem_cache::<M, D>(&old)))
            });
            let mut exp = pre.clone();
            let want: Vec<U> = exp[x..y].to_vec();
            let ok = pieces == want;
            exp.splice(x..y, out);
            let mut o = Outcome::new(exp);
            if !ok {
                o.bad(format!("update called the function on {:?}, the range holds {:?}", pieces.iter().map(|u| u.0).collect::<Vec<_>>(), want.iter().map(|u| u.0).collect::<Vec<_>>()));
                // the content is then judged against what the function should have been given
                o.exp = pre;
            }
            if empty_piece {
                o.bad("update called the function on an empty piece".into());
            }
            o.touched = between(s, l0, o0, l1, o1);
            o.may_report_gone = true;
            o.reported = Some(sp.arr.iter().copied().collect());
            o
        }
        DRAIN => {
            let how = a[5]; // 0 cursors, 1 positions, 2 Drain::new on an empty tree
            let mut exp = pre;
            let (x, y, tch);
            let take = if a[4] == NO { usize::MAX } else { a[4] as usize };
            let mut got: Vec<U> = Vec::new();
            match how {
                0 => {
                    let (l0, o0, l1, o1) = (a[0] as usize, a[1] as usize, a[2] as usize, a[3] as usize);
                    x = s.cut(l0, o0);
                    y = s.cut(l1, o1);
                    tch = between(s, l0, o0, l1, o1);
                    let r = QueryResult { cursor: s.cursor(l0, o0), found: (l0 + o1) % 2 == 0 }..QueryResult { cursor: s.cursor(l1, o1), found: (l0 + l1) % 2 == 0 };
                    let d = t.drain(r);
                    read(d, take, &mut got);
                }
                3 => {
                    let (l0, o0, l1, o1) = (a[0] as usize, a[1] as usize, a[2] as usize, a[3] as usize);
                    x = s.cut(l0, o0);
                    y = s.cut(l1, o1);
                    tch = between(s, l0, o0, l1, o1);
                    let d = t.drain_by_query::<Guide<M>>(s.goal(l0, o0, missing(a[6]))..s.goal(l1, o1, missing(a[7])));
                    read(d, take, &mut got);
                }
                1 if s.n() > 0 => {
                    let (i, j) = ((a[0] as usize).min(s.total()), (a[1] as usize).min(s.total()));
                    let (l0, o0, _) = s.lookup(i);
                    let (l1, o1, _) = s.lookup(j);
                    x = s.cut(l0, o0);
                    y = s.cut(l1, o1);
                    tch = between(s, l0, o0, l1, o1);
                    let d = t.drain_by_query::<LengthFinder>(i * sc(M)..j * sc(M));
                    read(d, take, &mut got);
                }
                1 => {
                    x = 0;
                    y = 0;
                    tch = vec![];
                    let d = t.drain_by_query::<LengthFinder>(a[0] as usize..a[1] as usize);
                    read(d, take, &mut got);
                }
                _ => {
                    // one or both ends missing
                    x = 0;
                    y = 0;
                    tch = vec![];
                    let q = |on: bool| {
                        if on && s.n() > 0 {
                            Some(QueryResult { cursor: s.cursor(0, 0), found: true })
                        } else {
                            None
                        }
                    };
                    let d = iter::Drain::new(t, q(a[0] == 1), q(a[1] == 1));
                    read(d, take, &mut got);
                }
            }
            let want: Vec<U> = exp.drain(x..y).collect();
            let mut o = Outcome::new(exp);
            if take == usize::MAX {
                if got != want {
                    o.bad(format!("drain yielded {:?}, the range holds {:?}", got.iter().map(|u| u.0).collect::<Vec<_>>(), want.iter().map(|u| u.0).collect::<Vec<_>>()));
                }
            } else if got.len() > want.len() || got[..] != want[..got.len()] || (take > 0 && got.is_empty() && !want.is_empty()) {
                o.bad(format!("drain yielded {got:?}, which does not start {want:?}"));
            }
            o.touched = tch;
            o
        }
        ARGS => {
            // up to three (element, from, to) entries; arguments 1, 16 and 64
            let mut args: Vec<(LeafIndex, std::ops::Range<usize>, u8)> = Vec::new();
            let mut exp = pre;
            let mut o = Outcome::new(vec![]);
            if a[6] & 4 != 0 {
                // one or more entries for every a[1]-th element, from a[2] on
                let mut k = 0usize;
                for li in (a[2] as usize..s.n()).step_by(a[1] as usize) {
                    let l = s.leaves[li].1.len();
                    if l == 0 {
                        continue;
                    }
                    o.touched.push((li, li));
                    for (f, g) in every(a[0], l) {
                        let by = [1u8, 16, 64][k % 3];
                        k += 1;
                        args.push((s.leaves[li].0, f * sc(M)..g * sc(M), by));
                        for u in &mut exp[s.cut(li, f)..s.cut(li, g)] {
                            bump(u, by);
                        }
                    }
                }
            }
            for (i, by) in [(0usize, 1u8), (3, 16), (7, 64)] {
                if a[6] & 4 != 0 || a[i] == NO || (i == 7 && a[6] & 2 == 0) {
                    continue;
                }
                let (li, f, g) = (a[i] as usize, a[i + 1] as usize, a[i + 2] as usize);
                args.push((s.leaves[li].0, f * sc(M)..g * sc(M), by));
                for u in &mut exp[s.cut(li, f)..s.cut(li, g)] {
                    bump(u, by);
                }
                o.touched.push((li, li));
            }
            o.exp = exp;
            if a[6] & 1 == 1 {
                args.reverse();
            }
            let rep = t.update_leaves_with_arg_in_ranges(args, |e: &mut El<M>, by: &u8| e.bump(*by));
            o.reported = Some(rep);
            o
        }
        MANY => {
            let w = word::<M>(a[2] as usize, a[3] as usize, a[4], alpha, &mut fresh);
            let mut exp = pre;
            let (at, cur) = if a[0] == NO { (0, None) } else { (s.cut(a[0] as usize, a[1] as usize), Some(s.cursor(a[0] as usize, a[1] as usize))) };
            exp.splice(at..at, w.iter().flat_map(|e| units(e).collect::<Vec<_>>()));
            let mut o = Outcome::new(exp);
            if a[0] != NO {
                o.touched = vec![((a[0] as usize).saturating_sub(1), a[0] as usize + 1)];
            }
            t.insert_many_by_cursor(cur, w.into_iter());
            o
        }
        CLEAR => {
            t.clear();
            let mut o = Outcome::new(vec![]);
            o.cleared = true;
            o.touched = vec![(0, s.n())];
            o
        }
        FROM => {
            let w = word::<M>(a[0] as usize, a[1] as usize, a[2], alpha, &mut fresh);
            let mut o = Outcome::new(w.iter().flat_map(|e| units(e).collect::<Vec<_>>()).collect());
            o.cleared = true;
            *t = match a[3] {
                // an iterator that knows its length, one that does not
                0 => w.into_iter().collect(),
                _ => w.into_iter().filter(|_| true).collect(),
            };
            o
        }
        EDIT => {
            let li = a[0] as usize;
            let old = s.leaves[li].1;
            let h = s.leaves[li].0;
            let mut new = old;
            match a[2] {
                0 => new.bump(1),
                1 => new = El::from_atoms(&old.atoms()[..1], old.zero),
                _ => {
                    fresh += 1;
                    new.push(Atom { cls: 0, mk: 0, id: fresh });
                }
            }
            let mut exp = pre;
            let b = s.atoms_before(li);
            exp.splice(b..b + old.n as usize, units(&new).collect::<Vec<_>>());
            let mut o = Outcome::new(exp);
            o.touched = vec![(li, li)];
            match t.get_elem_mut(h) {
                Some(e) => *e = new,
                None => o.bad("get_elem_mut finds nothing".into()),
            }
            let d = diff_of(&elem_cache::<M, D>(&new), &elem_cache::<M, D>(&old));
            match a[1] {
                0 => t.recursive_update_cache(h.into(), false, None),
                1 => t.recursive_update_cache(h.into(), true, None),
                _ => t.recursive_update_cache(h.into(), true, Some(d)),
            }
            o
        }
        FILT => {
            let k = a[0] as usize;
            let want = selected(s, k);
            let mut seen: Vec<El<M>> = Vec::new();
            t.update_cache_and_elem_with_filter(
                |c| pred(k, c),
                |e| {
                    seen.push(*e);
                    e.bump(1);
                },
            );
            let mut exp = pre;
            for &i in &want {
                let b = s.atoms_before(i);
                for u in &mut exp[b..b + s.leaves[i].1.n as usize] {
                    bump(u, 1);
                }
            }
            let mut o = Outcome::new(exp);
            let mut w: Vec<El<M>> = want.iter().map(|&i| s.leaves[i].1).collect();
            let by = |v: &mut Vec<El<M>>| v.sort_by_key(|e| (e.a[0].id, e.n));
            by(&mut w);
            by(&mut seen);
            if w != seen {
                o.bad(format!("filter {k}: the edit function ran on {seen:?} instead of {w:?}"));
            }
            o.touched = want.iter().map(|&i| (i, i)).collect();
            // the summaries are the caller's responsibility here
            for (h, _) in &s.leaves {
                t.recursive_update_cache((*h).into(), false, None);
            }
            o
        }
        PUSHN | PREPENDN | MIDN => {
            let mut exp = pre;
            for i in 0..a[0] as usize {
                let e = mk::<M>(&alpha[a[1] as usize], &mut fresh);
                let us: Vec<U> = units(&e).collect();
                match op.k {
                    PUSHN => {
                        exp.extend(us);
                        t.push(e);
                    }
                    PREPENDN => {
                        exp.splice(0..0, us);
                        t.prepend(e);
                    }
                    _ => {
                        let n: usize = t.root_cache().len as usize / 2;
                        if let Some(q) = t.query::<LengthFinder>(&n) {
                            // at the start of the element in the middle
                            let mut before = Ca::default();
                            t.visit_previous_caches(q.cursor, |p| {
                                if let PreviousCache::NodeCache(c) = p {
                                    before.add(c)
                                }
                            });
                            let at = before.n as usize;
                            exp.splice(at..at, us);
                            t.insert_by_path(Cursor { leaf: q.leaf(), offset: 0 }, e);
                        } else {
                            exp.extend(us);
                            t.push(e);
                        }
                        let _ = i;
                    }
                }
            }
            let mut o = Outcome::new(exp);
            o.touched = vec![(0, s.n())];
            o
        }
        _ => {
            let mut exp = Vec::new();
            for (i, (h, e)) in s.leaves.iter().enumerate() {
                if i as u16 % a[0] == a[1] {
                    t.remove_leaf(Cursor { leaf: *h, offset: 0 });
                } else {
                    exp.extend(units(e));
                }
            }
            let mut o = Outcome::new(exp);
            o.touched = vec![(0, s.n())];
            o
        }
    }
}

/// Takes up to `take` elements out of a drain (and asks twice more when it has ended), then drops it.
fn read<const M: u8, const D: bool>(mut d: iter::Drain<'_, Tr<M, D>>, take: usize, got: &mut Vec<U>) {
    got.extend(d.by_ref().take(take).flat_map(|e| units(&e).collect::<Vec<_>>()));
    if take == usize::MAX {
        got.extend((0..2).flat_map(|_| d.next()).flat_map(|e| units(&e).collect::<Vec<_>>()));
    }
}

/// ordinals of the elements a range between two cursors reaches into
fn between<const M: u8>(s: &Snap<M>, l0: usize, o0: usize, l1: usize, o1: usize) -> Vec<(usize, usize)> {
    if (l0, o0) == (l1, o1) {
        // an empty range may still split the element it is in
        return vec![(l0, l0)];
    }
    let lo = if o0 > 0 && o0 == s.leaves[l0].1.len() { l0 + 1 } else { l0 };
    let hi = if o1 == 0 {
        if l1 == 0 {
            return vec![];
        }
        l1 - 1
    } else {
        l1
    };
    if lo > hi {
        vec![]
    } else {
        vec![(lo, hi)]
    }
}

/// Judges the transition `s --op--> s2` by the oracles in `mask`.
pub fn judge<const M: u8, const D: bool>(t: &BTree<Tr<M, D>>, s: &Snap<M>, s2: &Snap<M>, o: &Outcome, mask: u32) -> Result<(), String> {
    if mask & RET != 0 {
        if let Some(e) = &o.ret {
            return Err(e.clone());
        }
    }
    let post = seq(s2);
    if mask & SEQ != 0 {
        req!(post == o.exp, "content is {:?}, should be {:?}", show(&post), show(&o.exp));
        req!(s2.leaves.iter().all(|(_, e)| !e.can_remove()), "a removable element is left in the tree");
    }
    if mask & RET != 0 {
        if let Some((c, at)) = &o.cursor {
            let e = t.get_elem(c.leaf).ok_or("the returned cursor names no element")?;
            req!(s2.ordinal(c.leaf).is_some(), "the returned cursor names an element outside the tree");
            let got = e.atoms().get(c.offset / sc(M)).filter(|_| c.offset % sc(M) == 0);
            req!(got == Some(&o.exp[*at].0), "the returned cursor points at {got:?}, the inserted data starts with {:?}", o.exp[*at].0);
        }
    }
    if mask & HANDLE != 0 {
        let mut tch = vec![false; s.n()];
        for &(x, y) in &o.touched {
            for i in x..=y {
                if i < tch.len() {
                    tch[i] = true;
                }
            }
        }
        for (i, (h, e)) in s.leaves.iter().enumerate() {
            if !tch[i] {
                req!(t.get_elem(*h) == Some(e), "element #{i} {e:?}, not a target, is now {:?} by its handle", t.get_elem(*h));
                req!(s2.leaves.iter().any(|x| x.0 == *h), "element #{i} {e:?}, not a target, is no longer in the tree under its handle");
            } else if s2.ordinal(*h).is_none() {
                req!(t.get_elem(*h).is_none(), "the handle of a removed element still resolves to {:?}", t.get_elem(*h));
            }
        }
        if let Some(h) = o.removed {
            req!(t.get_elem(h).is_none(), "the handle of a removed element still resolves to {:?}", t.get_elem(h));
        }
        // a dead handle stays dead when its place is used again, for reading and for removing
        let dead: Vec<(LeafIndex, usize)> = s.leaves.iter().filter(|(h, _)| s2.ordinal(*h).is_none()).map(|(h, e)| (*h, e.len())).collect();
        if !dead.is_empty() && !o.cleared {
            let mut t2 = t.clone();
            let live = s2.leaves.clone();
            for _ in 0..dead.len() + 1 {
                t2.push(El::<M>::from_atoms(&[Atom { cls: 9, mk: 0, id: 60_000 }], true));
            }
            for (h, len) in dead {
                let got = t2.get_elem(h).copied();
                req!(got.is_none(), "the handle of a removed element resolves to {got:?} once its place is used again");
                req!(t2.get_elem_mut(h).is_none(), "the handle of a removed element gives write access once its place is used again");
                let got = t2.remove_leaf(Cursor { leaf: h, offset: 0 });
                req!(got.is_none(), "removing through the handle of a removed element (length {len}) took {got:?}");
            }
            for (h, e) in live {
                req!(t2.get_elem(h) == Some(&e), "pushing elements changed element {e:?} under its handle");
            }
        }
        if let Some(rep) = &o.reported {
            let mut old: std::collections::HashMap<u16, LeafIndex> = std::collections::HashMap::new();
            for (h, e) in &s.leaves {
                for x in e.atoms() {
                    old.insert(x.id, *h);
                }
            }
            for (h, e) in &s2.leaves {
                for x in e.atoms() {
                    match old.get(&x.id) {
                        Some(p) => req!(p == h || rep.contains(h), "unit {x:?} moved to another element that was not reported"),
                        None => {
                            if let Some(own) = o.fresh_reported {
                                req!(own == *h || rep.contains(h), "new unit {x:?} is in an element that was not reported")
                            }
                        }
                    }
                }
            }
            // (a range update may report a piece it split off and then removed)
            for h in rep.iter().filter(|_| !o.may_report_gone) {
                req!(s2.ordinal(*h).is_some() && t.get_elem(*h).is_some(), "a reported handle names no element of the tree");
            }
        }
    }
    Ok(())
}

pub fn show(v: &[U]) -> Vec<String> {
    v.iter().map(|u| format!("{}{:?}", if u.1 { "Z" } else { "" }, u.0)).collect()
}

/// What one scenario generates.
#[derive(Clone)]
pub struct Gen {
    pub alpha: Vec<Tpl>,
    pub diff: bool,
    pub whole: bool,     // insert only at element boundaries
    pub wmax: usize,     // longest complete word set for bulk insertion
    pub wlong: Vec<u16>, // additional bulk lengths (periodic words)
    pub from_n: Vec<u16>,
    pub cap: usize, // operations per kind and state, thinned out beyond (0: all)
    pub pair_dense: usize, // all cursor pairs up to this many elements, thinned out above
}

/// The cursor pairs a range operation is tried on: all of a small tree's; of a large one those
/// reaching a few cursors, to an end, or on a stride.
fn pairs(c: &[(u16, u16)], dense: bool) -> Vec<((u16, u16), (u16, u16))> {
    let n = c.len();
    let mut v = Vec::new();
    for x in 0..n {
        for y in x..n {
            if n > 400 {
                // very large: neighbours and a sprinkling
                if (y - x < 3 && x % 3 == 0) || (x * 5 + y * 3) % 311 == 0 || ((x < 2 || y + 2 >= n) && (x + y) % 17 == 0) {
                    v.push((c[x], c[y]));
                }
            } else if dense || y - x < 5 || (x * 5 + y * 3) % 31 == 0 || ((x < 2 || y + 2 >= n) && (x + y) % 3 == 0) {
                v.push((c[x], c[y]));
            }
        }
    }
    v
}

fn cursors<const M: u8>(s: &Snap<M>, dense: bool) -> Vec<(u16, u16)> {
    let mut v = Vec::new();
    for (i, (_, e)) in s.leaves.iter().enumerate() {
        for o in 0..=e.len() {
            if dense || o == 0 || o == e.len() || o == 1 {
                v.push((i as u16, o as u16));
            }
        }
    }
    v
}

pub fn gen<const M: u8>(k: u8, rich: bool, s: &Snap<M>, g: &Gen, out: &mut Vec<Op>) {
    if g.cap == 0 {
        return gen_all(k, rich, s, g, out);
    }
    // the first, the last and evenly many of those between
    let mut all = Vec::new();
    gen_all(k, rich, s, g, &mut all);
    let (n, c) = (all.len(), g.cap);
    let step = if n > c { (n / c) | 1 } else { 1 };
    out.extend(all.into_iter().enumerate().filter(|(i, _)| n <= c || *i < 12 || i + 12 >= n || i % step == 0).map(|x| x.1));
}

fn gen_all<const M: u8>(k: u8, rich: bool, s: &Snap<M>, g: &Gen, out: &mut Vec<Op>) {
    let n = s.n() as u16;
    let na = g.alpha.len() as u16;
    let dense = s.n() <= g.pair_dense;
    match k {
        PATH => {
            for (i, o) in cursors(s, true) {
                if g.whole && o != 0 && o as usize != s.leaves[i as usize].1.len() {
                    continue;
                }
                for e in 0..na {
                    out.push(Op::new(PATH, &[i, o, e]));
                }
            }
        }
        IDX => {
            for i in 0..=s.total() as u16 {
                for e in 0..na {
                    out.push(Op::new(IDX, &[i, e]));
                }
            }
            if rich {
                for (i, o) in cursors(s, true) {
                    for e in 0..na {
                        out.push(Op::new(IDX, &[i, e, 1, o, (i + o + e) % 3]));
                    }
                }
                if n == 0 {
                    out.push(Op::new(IDX, &[0, 0, 1]));
                }
            }
        }
        PUSH | PREPEND => {
            for e in 0..na {
                out.push(Op::new(k, &[e]));
            }
        }
        REMOVE => {
            for i in 0..n {
                out.push(Op::new(REMOVE, &[i, s.leaves[i as usize].1.len() as u16, rich as u16]));
            }
        }
        LEAF => {
            let vs: Vec<u16> = if rich { (0..NLEAF).collect() } else { vec![2, 3, 4, 5, 6, 7, 8] };
            for i in 0..n {
                for &v in &vs {
                    if !leaf_ok(&s.leaves[i as usize].1, v) {
                        continue;
                    }
                    let two = matches!(v, 8 | 12 | 19);
                    let one = two || matches!(v, 4 | 7 | 9 | 11 | 13 | 15 | 16 | 18);
                    for x in 0..if one { na } else { 1 } {
                        for y in 0..if two { na } else { 1 } {
                            out.push(Op::new(LEAF, &[i, v, x, y]));
                        }
                    }
                }
            }
        }
        SEARCH => {
            if !g.diff || n == 0 {
                return;
            }
            for i in 0..=s.total() as u16 {
                let (l, o, _) = s.lookup(i as usize);
                let e = s.leaves[l].1;
                for v in 0..7u16 {
                    let ok = match v {
                        1 => e.n > 0,
                        3 => (e.n as usize) < CAP,
                        4 => !e.zero && o > 0 && o < e.len(),
                        _ => true,
                    };
                    if !ok || (!rich && matches!(v, 0 | 6)) {
                        continue;
                    }
                    for x in 0..if v == 3 || v == 5 { na } else { 1 } {
                        out.push(Op::new(SEARCH, &[i, v, x]));
                    }
                }
            }
            if rich {
                for (i, o) in cursors(s, dense) {
                    let e = s.leaves[i as usize].1;
                    for v in 0..7u16 {
                        let ok = match v {
                            1 => e.n > 0,
                            3 => (e.n as usize) < CAP,
                            4 => !e.zero && o > 0 && (o as usize) < e.len(),
                            _ => true,
                        };
                        if ok {
                            out.push(Op::new(SEARCH, &[i, v, (i + o) % na, 1, o, (i + v) % 2]));
                        }
                    }
                }
            }
        }
        UPDATE => {
            let vs: &[u16] = match (g.diff, rich) {
                (true, true) => &[0, 1, 2, 3, 4, 5, 6, 7, 8],
                (true, false) => &[2, 6],
                (false, true) => &[2, 4, 7],
                (false, false) => &[2],
            };
            for (p, q) in pairs(&cursors(s, dense), dense) {
                for &v in vs {
                    if v == 8 && !g.alpha.iter().any(|t| t.1) {
                        continue;
                    }
                    out.push(Op::new(UPDATE, &[p.0, p.1, q.0, q.1, v]));
                }
            }
        }
        DRAIN => {
            for (p, q) in pairs(&cursors(s, dense), dense) {
                out.push(Op::new(DRAIN, &[p.0, p.1, q.0, q.1, NO, 0]));
                if rich && !dense && (p.0 + p.1 + q.0) % 3 == 0 {
                    out.push(Op::new(DRAIN, &[p.0, p.1, q.0, q.1, q.1 % 2, 0]));
                }
                if rich && dense {
                    out.push(Op::new(DRAIN, &[p.0, p.1, q.0, q.1, 0, 0]));
                    out.push(Op::new(DRAIN, &[p.0, p.1, q.0, q.1, 1, 0]));
                    out.push(Op::new(DRAIN, &[p.0, p.1, q.0, q.1, NO, 3, (p.0 + q.1) % 3, (p.1 + q.0) % 3]));
                }
            }
            if rich {
                let t = s.total() as u16;
                if dense {
                    for i in 0..=t {
                        for j in i..=t {
                            out.push(Op::new(DRAIN, &[i, j, 0, 0, NO, 1]));
                        }
                    }
                } else {
                    for i in 0..=t {
                        for j in (i..=t).filter(|j| (i * 3 + j * 5) % 29 == 0) {
                            out.push(Op::new(DRAIN, &[i, j, 0, 0, NO, 1]));
                        }
                    }
                }
                for x in 0..2u16 {
                    for y in 0..2u16 {
                        if s.n() == 0 || x == 0 || y == 0 {
                            out.push(Op::new(DRAIN, &[x, y, 0, 0, NO, 2]));
                            out.push(Op::new(DRAIN, &[x, y, 0, 0, 0, 2]));
                        }
                    }
                }
            }
        }
        ARGS => {
            if !g.diff {
                return;
            }
            if rich {
                out.push(Op::new(ARGS, &[NO, 0, 0, NO, 0, 0, 0]));
            }
            // many entries at once
            for (mode, step, from, rev) in [(0, 1, 0, 0), (1, 1, 0, 1), (2, 1, 0, 0), (2, 2, 1, 1), (3, 1, 0, 1), (3, 3, 2, 0), (4, 1, 0, 0), (0, 2, 1, 1), (1, 3, 1, 0)] {
                if from < n.max(1) {
                    out.push(Op::new(ARGS, &[mode, step, from, NO, 0, 0, 4 + rev]));
                }
            }
            let rs = |i: u16| {
                let l = s.leaves[i as usize].1.len() as u16;
                let mut v = Vec::new();
                if l > 0 {
                    for f in 0..=l {
                        for t in f..=l {
                            if rich || f < t {
                                v.push((f, t));
                            }
                        }
                    }
                }
                v
            };
            for i in 0..n {
                for (f, t) in rs(i) {
                    out.push(Op::new(ARGS, &[i, f, t, NO, 0, 0, 0]));
                    if !rich {
                        continue;
                    }
                    for j in i..n {
                        if !dense && j > i + 2 && (j - i) % if n > 200 { 61 } else { 5 } != 0 {
                            continue;
                        }
                        if n > 200 && i % 3 != 0 {
                            continue;
                        }
                        for (f2, t2) in rs(j) {
                            out.push(Op::new(ARGS, &[i, f, t, j, f2, t2, (i + f + t2) % 2]));
                        }
                    }
                }
            }
            if !rich {
                return;
            }
            // three entries, in any order and mixture
            if n <= 3 && s.total() <= 6 {
                let e: Vec<(u16, u16, u16)> = (0..n).flat_map(|i| rs(i).into_iter().filter(|r| r.0 < r.1).map(move |r| (i, r.0, r.1))).collect();
                for x in &e {
                    for y in &e {
                        for w in &e {
                            out.push(Op::new(ARGS, &[x.0, x.1, x.2, y.0, y.1, y.2, 2, w.0, w.1, w.2]));
                        }
                    }
                }
            } else if dense || n <= 30 {
                for i in 0..n {
                    let l = s.leaves[i as usize].1.len() as u16;
                    for j in 0..n {
                        let m = s.leaves[j as usize].1.len() as u16;
                        if i != j && (dense || (i * 3 + j) % 5 == 0) && l > 0 && m > 0 {
                            out.push(Op::new(ARGS, &[i, 0, 1, j, m - 1, m, 2, i, l - 1, l]));
                        }
                    }
                }
            }
        }
        MANY => {
            let mut cs: Vec<(u16, u16)> = cursors(s, true);
            if n == 0 {
                cs.push((NO, 0));
            }
            for (i, o) in cs {
                for l in 0..=if rich { g.wmax } else { 2.min(g.wmax) } {
                    let p = l.max(1);
                    for code in 0..(na as usize).pow(p as u32) as u16 {
                        out.push(Op::new(MANY, &[i, o, l as u16, p as u16, code]));
                        if l == 0 {
                            break;
                        }
                    }
                }
                if rich {
                    for &l in &g.wlong {
                        for p in 1..=2usize {
                            for code in 0..(na as usize).pow(p as u32) as u16 {
                                out.push(Op::new(MANY, &[i, o, l, p as u16, code]));
                            }
                        }
                    }
                }
            }
        }
        CLEAR => out.push(Op::new(CLEAR, &[])),
        FROM => {
            if n == 0 {
                for &l in &g.from_n {
                    for p in 1..=2u16 {
                        for code in 0..na.pow(p as u32) {
                            out.push(Op::new(FROM, &[l, p, code, (l % 3 == 0) as u16]));
                        }
                    }
                }
            }
        }
        EDIT => {
            for i in 0..n {
                for m in 0..3u16 {
                    if !g.diff && m > 0 {
                        continue;
                    }
                    for v in 0..3u16 {
                        if v == 2 && (s.leaves[i as usize].1.n as usize) >= CAP {
                            continue;
                        }
                        out.push(Op::new(EDIT, &[i, m, v]));
                    }
                }
            }
        }
        FILT => {
            for k in 0..NPRED as u16 {
                out.push(Op::new(FILT, &[k]));
            }
        }
        _ => {}
    }
}

pub fn describe<const M: u8>(s: &Snap<M>, op: &Op, alpha: &[Tpl]) -> String {
    let a = op.a;
    let tpl = |i: u16| {
        let t = &alpha[i as usize % alpha.len()];
        if t.1 {
            format!("zero-length element{:?}", t.0)
        } else {
            format!("element of {} unit(s), classes {:?}", t.0.len(), t.0)
        }
    };
    let lf = |i: u16| s.leaves.get(i as usize).map(|x| format!("#{i} {:?}", x.1)).unwrap_or(format!("#{i}"));
    match op.k {
        PATH => format!("insert_by_path(cursor in {} at offset {}, {})", lf(a[0]), a[1], tpl(a[2])),
        IDX if a[2] == 1 => format!("insert(user-defined search to {} offset {}, {}; steps that call it missing: {})", lf(a[0]), a[3], tpl(a[1]), a[4]),
        IDX => format!("insert(position {}, {})", a[0], tpl(a[1])),
        PUSH => format!("push({})", tpl(a[0])),
        PREPEND => format!("prepend({})", tpl(a[0])),
        REMOVE => format!("remove_leaf({}){}", lf(a[0]), if a[2] == 1 { " and again through the stale handle" } else { "" }),
        LEAF => format!("update_leaf({}, variant {}, {}, {})", lf(a[0]), a[1], tpl(a[2]), tpl(a[3])),
        SEARCH if a[3] == 1 => format!("update_leaf_by_search(user-defined search to {} offset {}, variant {}, {}; missing: {})", lf(a[0]), a[4], a[1], tpl(a[2]), a[5]),
        SEARCH => format!("update_leaf_by_search(position {}, variant {}, {})", a[0], a[1], tpl(a[2])),
        UPDATE => format!("update(from {} offset {} to {} offset {}, variant {})", lf(a[0]), a[1], lf(a[2]), a[3], a[4]),
        DRAIN if a[5] == 0 => format!("drain(from {} offset {} to {} offset {}, take {})", lf(a[0]), a[1], lf(a[2]), a[3], if a[4] == NO { "all".into() } else { a[4].to_string() }),
        DRAIN if a[5] == 1 => format!("drain_by_query({}..{})", a[0], a[1]),
        DRAIN if a[5] == 3 => format!("drain_by_query(user-defined search to {} offset {} .. to {} offset {}; steps that call it missing: {} {})", lf(a[0]), a[1], lf(a[2]), a[3], a[6], a[7]),
        DRAIN => format!("Drain::new(start given: {}, end given: {}), take {}", a[0], a[1], a[4]),
        ARGS if a[6] & 4 != 0 => format!("update_leaves_with_arg_in_ranges({} of every {}th element from #{} on){}", ["first unit", "last unit", "every unit", "every prefix", "twice the middle"][a[0] as usize % 5], a[1], a[2], if a[6] & 1 == 1 { " reversed" } else { "" }),
        ARGS => format!("update_leaves_with_arg_in_ranges([{} {}..{}], [{} {}..{}], [{} {}..{}]){}", lf(a[0]), a[1], a[2], if a[3] == NO { "-".into() } else { lf(a[3]) }, a[4], a[5], if a[6] & 2 == 0 { "-".into() } else { lf(a[7]) }, a[8], a[9], if a[6] & 1 == 1 { " reversed" } else { "" }),
        MANY => format!("insert_many_by_cursor({} offset {}, {} items, period {} code {})", if a[0] == NO { "None".into() } else { lf(a[0]) }, a[1], a[2], a[3], a[4]),
        FROM => format!("from_iter({} items, period {} code {})", a[0], a[1], a[2]),
        EDIT => format!("get_elem_mut({}) variant {} + recursive_update_cache mode {}", lf(a[0]), a[2], a[1]),
        _ => format!("{}{:?}", KNAME[op.k as usize], a),
    }
}
