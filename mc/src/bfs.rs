//! Level-synchronous exhaustive exploration of real trees.
use crate::elem::*;
use crate::ops::*;
use crate::oracle;
use crate::oracle::*;
use crate::run::*;
use crate::snap::*;
use generic_btree::BTree;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Scen {
    pub name: String,
    pub pol: u8,
    pub gen: Gen,
    pub build: u32,  // kinds that only grow the state space
    pub target: u32, // kinds whose every transition is judged
    pub tmask: u32,  // oracles applied to target transitions and the tree after them
    pub smask: u32,  // oracles applied to every state
    pub via: u32,    // kinds whose results are explored further
    pub seeds: Vec<Vec<Op>>,
    pub depth: usize,
    pub max_atoms: usize,
    pub max_leaves: usize,
    pub secs: u64,
    pub hist: u8, // states reached by different last operations (this many) are not merged
}

struct St<const M: u8, const D: bool> {
    tree: BTree<Tr<M, D>>,
    snap: Snap<M>,
    id: u32,
    tag: [u8; 2],
    tag_left: u8,
    last: Vec<u8>,
}

struct New<const M: u8, const D: bool> {
    tree: BTree<Tr<M, D>>,
    snap: Snap<M>,
    parent: u32,
    opi: u32,
    op: Op,
    tag: [u8; 2],
    tag_left: u8,
    last: Vec<u8>,
    hash: u64,
    expand: bool,
}

#[derive(Default, Clone)]
pub struct Report {
    pub name: String,
    pub states: u64,
    pub expanded: u64,
    pub transitions: u64,
    pub judged: u64,
    pub validated: u64,
    pub levels: usize,
    pub max_depth: usize,
    pub max_leaves: usize,
    pub bound_hit: u64,
    pub suspicious: u64,
    pub skipped_panics: u64,
    pub complete: bool,
    pub closure: bool,
    pub secs: f64,
    pub by_kind: [u64; NK],
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub replay: String,
}

const SHARDS: usize = 64;

struct Visited(Vec<Mutex<HashMap<Vec<u8>, ()>>>);

impl Visited {
    fn new() -> Self {
        Visited((0..SHARDS).map(|_| Mutex::new(HashMap::new())).collect())
    }
    /// the claimed key's hash if nobody claimed it before
    fn claim(&self, k: &[u8], tag: [u8; 2], left: u8) -> Option<u64> {
        let mut k = k.to_vec();
        if left > 0 {
            k.extend_from_slice(&tag);
            k.push(left);
        }
        let h = hash(&k);
        let mut m = self.0[(h % SHARDS as u64) as usize].lock().unwrap();
        if m.contains_key(&k) {
            return None;
        }
        m.insert(k, ());
        Some(h)
    }
    fn release(&self, k: &[u8], h: u64) {
        self.0[(h % SHARDS as u64) as usize].lock().unwrap().remove(k);
    }
}

pub fn hash(k: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in k {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

fn history(nodes: &[(u32, Op, u64, bool)], mut id: u32, seeds: &[Vec<Op>]) -> Vec<Op> {
    let mut v = Vec::new();
    loop {
        let (p, op, _, _) = nodes[id as usize];
        if p == u32::MAX {
            let mut r = seeds[op.a[0] as usize].clone();
            v.reverse();
            r.extend(v);
            return r;
        }
        v.push(op);
        id = p;
    }
}

pub fn alpha_text(a: &[Tpl]) -> String {
    a.iter().map(|(c, z)| format!("{}{}", if *z { "Z" } else { "" }, c.iter().map(|x| x.to_string()).collect::<String>())).collect::<Vec<_>>().join("/")
}
pub fn alpha_parse(s: &str) -> Vec<Tpl> {
    s.split('/').map(|x| (x.chars().filter(|c| c.is_ascii_digit()).map(|c| c as u8 - b'0').collect(), x.starts_with('Z'))).collect()
}

/// The text of a replay file.
pub fn replay_text(prop: &str, sc: &Scen, hist: &[Op]) -> String {
    format!(
        "engine tree\nproperty {prop}\nvariant {}\nscenario {}\npolicy {}\ndiff {}\nalpha {}\nmasks {} {}\nops {}\n",
        crate::VARIANT,
        sc.name,
        sc.pol,
        sc.gen.diff as u8,
        alpha_text(&sc.gen.alpha),
        sc.tmask,
        sc.smask,
        hist.iter().map(|o| o.to_ints()).collect::<Vec<_>>().join(";")
    )
}

/// Executes a history on a fresh tree; returns the tree and its observation.
pub fn run_history<const M: u8, const D: bool>(hist: &[Op], alpha: &[Tpl]) -> Result<(BTree<Tr<M, D>>, Snap<M>), String> {
    let mut t = BTree::<Tr<M, D>>::new();
    let mut s = Snap::take(&t)?;
    for op in hist {
        apply(&mut t, &s, op, alpha);
        s = Snap::take(&t)?;
    }
    Ok((t, s))
}

/// One judged transition. Err = violation.
pub fn step<const M: u8, const D: bool>(tree: &BTree<Tr<M, D>>, snap: &Snap<M>, op: &Op, alpha: &[Tpl], tmask: u32) -> Result<(BTree<Tr<M, D>>, Snap<M>, bool), String> {
    let mut t = tree.clone();
    if tmask & CLONE != 0 {
        let c = Snap::take(&t)?;
        req!(&c == snap, "a clone differs from its original");
    }
    let o = apply(&mut t, snap, op, alpha);
    let s2 = Snap::take(&t)?;
    judge(&t, snap, &s2, &o, tmask)?;
    oracle::run(&t, &s2, tmask)?;
    if tmask & CLONE != 0 {
        let now = Snap::take(tree)?;
        req!(&now == snap, "an operation on a clone changed the original");
        // the original itself, with the clone still alive
        let mut t3 = t.clone();
        let mut orig = tree.clone();
        let o3 = apply(&mut orig, snap, op, alpha);
        let s3 = Snap::take(&orig)?;
        req!(seq(&s3) == seq(&s2) && s3.key() == s2.key() && s3.nodes.len() == s2.nodes.len() && o3.exp == o.exp, "the same operation has different effects on the clone and the original");
        req!(s3.nodes.iter().zip(&s2.nodes).all(|(a, b)| a.cache == b.cache), "the same operation gives different summaries on the clone and the original");
        let s2b = Snap::take(&t)?;
        req!(s2b == s2, "an operation on the original changed the clone");
        // clearing the clone's clone leaves both alone
        t3.clear();
        req!(Snap::take(&t)? == s2, "clearing a clone changed its original");
    }
    let seq_ok = judge(&t, snap, &s2, &o, SEQ).is_ok();
    Ok((t, s2, seq_ok))
}

pub fn explore<const M: u8, const D: bool>(prop: &str, sc: &Scen) -> Report {
    let t0 = std::time::Instant::now();
    let deadline = std::time::Duration::from_secs(sc.secs);
    let mut rep = Report { name: sc.name.clone(), complete: true, ..Report::default() };
    let seen = Visited::new();
    // (parent, op, key hash, expanded); seeds: parent = MAX, op.a[0] = seed index
    let mut nodes: Vec<(u32, Op, u64, bool)> = Vec::new();
    let mut frontier: Vec<St<M, D>> = Vec::new();
    let viol: Mutex<Vec<(u64, u64, String, Vec<Op>)>> = Mutex::new(Vec::new());

    for (i, sd) in sc.seeds.iter().enumerate() {
        let r = guarded(|| run_history::<M, D>(sd, &sc.gen.alpha));
        match r {
            Ok(Ok((tree, snap))) => {
                let Some(_) = seen.claim(&snap.key(), [0, 0], 0) else { continue };
                let h = full_hash(&snap);
                let id = nodes.len() as u32;
                nodes.push((u32::MAX, Op::new(0, &[i as u16]), h, true));
                let ok = guarded(|| oracle::run(&tree, &snap, sc.smask)).and_then(|x| x);
                if let Err(e) = ok {
                    viol.lock().unwrap().push((0, i as u64, e, sd.clone()));
                }
                let sick = guarded(|| oracle::run(&tree, &snap, HEALTH)).and_then(|x| x).is_err();
                frontier.push(St { tree, snap, id, tag: if sick { [0xFF, i as u8] } else { [0, 0] }, tag_left: if sick { 2 } else { 0 }, last: vec![] });
            }
            Ok(Err(e)) | Err(e) => {
                // building the starting tree failed: the operations doing it are judged here
                let judged = sd.iter().any(|o| sc.target & bit(o.k) != 0) || sc.target & (bit(PUSH) | bit(PREPEND) | bit(REMOVE) | bit(PATH)) != 0;
                if judged {
                    viol.lock().unwrap().push((0, i as u64, format!("while building the starting tree: {e}"), sd.clone()));
                } else {
                    rep.skipped_panics += 1;
                }
            }
        }
    }
    rep.states = nodes.len() as u64;

    let transitions = AtomicU64::new(0);
    let judged = AtomicU64::new(0);
    let skipped = AtomicU64::new(0);
    let bound = AtomicU64::new(0);
    let sickc = AtomicU64::new(0);
    let kinds: Vec<AtomicU64> = (0..NK).map(|_| AtomicU64::new(0)).collect();
    let out_of_time = AtomicBool::new(false);
    let mut level = 0;
    while !frontier.is_empty() && level < sc.depth {
        if !viol.lock().unwrap().is_empty() {
            break;
        }
        if t0.elapsed() > deadline {
            rep.complete = false;
            break;
        }
        for s in &frontier {
            rep.max_depth = rep.max_depth.max(s.snap.nodes.iter().map(|n| n.level).max().unwrap_or(0) + 1);
            rep.max_leaves = rep.max_leaves.max(s.snap.n());
        }
        let last = level + 1 >= sc.depth;
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let fr = &frontier;
        let nd = &nodes;
        let news: Mutex<Vec<New<M, D>>> = Mutex::new(Vec::new());
        std::thread::scope(|scope| {
            for w in 0..threads() {
                let (next, stop, news, viol, seen) = (&next, &stop, &news, &viol, &seen);
                let (transitions, judged, skipped, bound, sickc, kinds, out_of_time) = (&transitions, &judged, &skipped, &bound, &sickc, &kinds, &out_of_time);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let mut local: Vec<New<M, D>> = Vec::new();
                        let mut ops: Vec<Op> = Vec::new();
                        let mut slot = Slot::open(w);
                        let mut lk = [0u64; NK];
                        'outer: loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= fr.len() || stop.load(Relaxed) {
                                break;
                            }
                            if t0.elapsed() > deadline {
                                out_of_time.store(true, Relaxed);
                                break;
                            }
                            let st = &fr[i];
                            ops.clear();
                            for k in 0..NK as u8 {
                                if sc.target & bit(k) != 0 {
                                    gen(k, sc.hist == 0, &st.snap, &sc.gen, &mut ops);
                                } else if sc.build & bit(k) != 0 && !(last && sc.smask == 0) {
                                    gen(k, false, &st.snap, &sc.gen, &mut ops);
                                }
                            }
                            let hist = history(nd, st.id, &sc.seeds);
                            slot.state(&replay_text(prop, sc, &hist));
                            for (oi, op) in ops.iter().enumerate() {
                                lk[op.k as usize] += 1;
                                let tgt = sc.target & bit(op.k) != 0;
                                slot.op(&op.to_ints());
                                let fail = |e: String| {
                                    let mut h = hist.clone();
                                    h.push(*op);
                                    viol.lock().unwrap().push((i as u64, oi as u64, e, h));
                                    stop.store(true, Relaxed);
                                };
                                let r = guarded(|| step(&st.tree, &st.snap, op, &sc.gen.alpha, if tgt { sc.tmask } else { 0 }));
                                let (tree, snap, seq_ok) = match r {
                                    Ok(Ok(x)) => x,
                                    Ok(Err(e)) | Err(e) => {
                                        if tgt {
                                            fail(e);
                                            break 'outer;
                                        }
                                        skipped.fetch_add(1, Relaxed);
                                        continue;
                                    }
                                };
                                if tgt {
                                    judged.fetch_add(1, Relaxed);
                                }
                                if (last && sc.smask == 0) || sc.via & bit(op.k) == 0 {
                                    continue;
                                }
                                let mut key = snap.key();
                                let mut last_ops = Vec::new();
                                if sc.hist > 0 {
                                    // the last operations are part of the state
                                    last_ops.extend_from_slice(op.to_ints().as_bytes());
                                    last_ops.push(b';');
                                    last_ops.extend(st.last.split_inclusive(|b| *b == b';').take(sc.hist as usize - 1).flatten());
                                    key.push(0xFD);
                                    key.extend_from_slice(&last_ops);
                                }
                                // an emptied tree is kept apart from a new one for a few steps where that matters
                                let (mut tag, mut left) = if st.tag_left > 0 { (st.tag, st.tag_left - 1) } else { ([0, 0], 0) };
                                if sc.smask & EMPTYLIKE != 0 && snap.n() == 0 && st.snap.n() > 0 {
                                    tag = [0xEE, op.k];
                                    left = 3;
                                }
                                let Some(h) = seen.claim(&key, tag, left) else { continue };
                                let chk = guarded(|| oracle::run(&tree, &snap, sc.smask)).and_then(|x| x);
                                if let Err(e) = chk {
                                    fail(e);
                                    break 'outer;
                                }
                                let mut expand = !last;
                                if snap.natoms() > sc.max_atoms || snap.n() > sc.max_leaves {
                                    bound.fetch_add(1, Relaxed);
                                    expand = false;
                                }
                                if expand {
                                    let well = seq_ok && guarded(|| oracle::run(&tree, &snap, HEALTH)).and_then(|x| x).is_ok();
                                    if !well {
                                        // not equivalent to the healthy tree of the same shape: release the key, keep it apart
                                        if left == 0 {
                                            seen.release(&key, h);
                                            if sickc.fetch_add(1, Relaxed) > 3000 {
                                                continue;
                                            }
                                            tag = [0xFF, op.k];
                                            left = 2;
                                            if seen.claim(&key, tag, left).is_none() {
                                                continue;
                                            }
                                        } else if tag[0] == 0xFF && left <= 1 {
                                            expand = false;
                                        }
                                    }
                                }
                                let hash = full_hash(&snap);
                                local.push(New { tree, snap, parent: st.id, opi: oi as u32, op: *op, tag, tag_left: left, last: last_ops, hash, expand });
                            }
                            slot.idle();
                        }
                        for (k, v) in lk.iter().enumerate() {
                            kinds[k].fetch_add(*v, Relaxed);
                        }
                        transitions.fetch_add(lk.iter().sum(), Relaxed);
                        slot.idle();
                        news.lock().unwrap().append(&mut local);
                    })
                    .unwrap();
            }
        });
        let mut news = news.into_inner().unwrap();
        news.sort_by_key(|n| (n.parent, n.opi));
        for s in &frontier {
            let _ = s;
        }
        rep.expanded += frontier.len() as u64;
        frontier = Vec::new();
        for n in news {
            let id = nodes.len() as u32;
            nodes.push((n.parent, n.op, n.hash, n.expand));
            if n.expand {
                frontier.push(St { tree: n.tree, snap: n.snap, id, tag: n.tag, tag_left: n.tag_left, last: n.last });
            }
        }
        if out_of_time.load(Relaxed) {
            rep.complete = false;
        }
        level += 1;
    }
    rep.closure = rep.complete && frontier.is_empty();
    rep.levels = level;
    rep.states = nodes.len() as u64;
    rep.transitions = transitions.load(Relaxed);
    rep.judged = judged.load(Relaxed);
    rep.skipped_panics += skipped.load(Relaxed);
    rep.bound_hit = bound.load(Relaxed);
    rep.suspicious = sickc.load(Relaxed);
    for k in 0..NK {
        rep.by_kind[k] = kinds[k].load(Relaxed);
    }
    let mut v = viol.into_inner().unwrap();
    v.sort_by_key(|x| (x.0, x.1));
    if let Some((_, _, msg, hist)) = v.into_iter().next() {
        rep.violation = Some(Violation { msg, replay: replay_text(prop, sc, &hist) });
    } else {
        // bind the explored states to fresh executions: run each history on one tree from new
        let next = AtomicUsize::new(0);
        let okc = AtomicU64::new(0);
        let bad: Mutex<Option<(String, Vec<Op>)>> = Mutex::new(None);
        std::thread::scope(|scope| {
            for w in 0..threads() {
                let (next, okc, bad, nodes) = (&next, &okc, &bad, &nodes);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let mut slot = Slot::open(w);
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= nodes.len() || bad.lock().unwrap().is_some() || t0.elapsed() > deadline * 2 {
                                break;
                            }
                            let hist = history(nodes, i as u32, &sc.seeds);
                            slot.state(&replay_text(prop, sc, &hist[..hist.len().saturating_sub(1)]));
                            if let Some(o) = hist.last() {
                                slot.op(&o.to_ints());
                            }
                            let r = guarded(|| run_history::<M, D>(&hist, &sc.gen.alpha)).and_then(|x| x);
                            match r {
                                Ok((_, s)) => {
                                    if full_hash(&s) == nodes[i].2 {
                                        okc.fetch_add(1, Relaxed);
                                        continue;
                                    }
                                    *bad.lock().unwrap() = Some(("a history run on one tree ends in a different state than step by step on clones".into(), hist));
                                }
                                Err(e) => *bad.lock().unwrap() = Some((format!("a history run on one tree fails, step by step on clones it does not: {e}"), hist)),
                            }
                            slot.idle();
                        }
                        slot.idle();
                    })
                    .unwrap();
            }
        });
        rep.validated = okc.load(Relaxed);
        if let Some((msg, hist)) = bad.into_inner().unwrap() {
            rep.violation = Some(Violation { msg, replay: replay_text(prop, sc, &hist) });
        }
        for i in [nodes.len() / 3, nodes.len() * 2 / 3, nodes.len().saturating_sub(1)] {
            if nodes.is_empty() {
                break;
            }
            let h = history(&nodes, i as u32, &sc.seeds);
            rep.samples.push(h.iter().map(|o| format!("{}{:?}", KNAME[o.k as usize], o.a)).collect::<Vec<_>>().join(" ; "));
        }
    }
    rep.secs = t0.elapsed().as_secs_f64();
    rep
}

/// Everything observable of a state: shape, element lengths and kinds, identities, summaries.
fn full_hash<const M: u8>(s: &Snap<M>) -> u64 {
    let mut k = s.key();
    for (a, z) in seq(s) {
        k.extend_from_slice(&[a.cls, a.mk, a.id as u8, (a.id >> 8) as u8, z as u8]);
    }
    for n in &s.nodes {
        k.extend_from_slice(&n.cache.w.to_le_bytes());
        k.extend_from_slice(&n.cache.h.to_le_bytes());
    }
    hash(&k)
}

/// Re-executes a recorded history, judging every step; returns a report and whether it fails.
pub fn replay<const M: u8, const D: bool>(hist: &[Op], alpha: &[Tpl], tmask: u32, smask: u32) -> (String, bool) {
    let mut out = String::new();
    let mut t = BTree::<Tr<M, D>>::new();
    let mut s = Snap::take(&t).unwrap();
    for (i, op) in hist.iter().enumerate() {
        out.push_str(&format!("step {}: {}\n", i + 1, guarded(|| describe(&s, op, alpha)).unwrap_or_else(|_| format!("{op:?}"))));
        let last = i + 1 == hist.len();
        if last {
            out.push_str(&format!("tree before the last step:\n{}", s.describe()));
        }
        eprint!("{out}");
        out.clear();
        let r = guarded(|| step(&t, &s, op, alpha, if last { tmask } else { 0 })).and_then(|x| x);
        match r {
            Ok((t2, s2, _)) => {
                t = t2;
                s = s2;
            }
            Err(e) => {
                out.push_str(&format!("FAILS: {e}\n"));
                return (out, true);
            }
        }
    }
    out.push_str(&format!("tree at the end:\n{}", s.describe()));
    match guarded(|| oracle::run(&t, &s, smask)).and_then(|x| x) {
        Ok(()) => {
            out.push_str("the last step and the final tree satisfy the property\n");
            (out, false)
        }
        Err(e) => {
            out.push_str(&format!("FAILS: {e}\n"));
            (out, true)
        }
    }
}
