//! Exhaustive exploration of containers that cannot be cloned: a state is re-created by running its
//! history on a fresh container.
use crate::bfs::{hash, Report, Violation};
use crate::ops::{Op, NK};
use crate::run::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub trait Sys: Sized {
    const ENGINE: &'static str;
    fn new() -> Self;
    /// Runs one operation on the container and its reference; with `judge`, checks every guarantee.
    fn apply(&mut self, op: &Op, judge: bool) -> Result<(), String>;
    fn key(&self) -> Vec<u8>;
    fn size(&self) -> usize;
    fn describe(&self, op: &Op) -> String;
    fn show(&self) -> String;
}

pub type GenFn<S> = Box<dyn Fn(&S, &mut Vec<Op>) + Sync>;

pub struct RScen<S> {
    pub name: String,
    pub gen: GenFn<S>,
    pub seeds: Vec<Vec<Op>>,
    pub depth: usize,
    pub max: usize,
    pub secs: u64,
}

pub fn replay_text<S: Sys>(prop: &str, name: &str, hist: &[Op]) -> String {
    format!(
        "engine {}\nproperty {prop}\nvariant {}\nscenario {name}\nops {}\n",
        S::ENGINE,
        crate::VARIANT,
        hist.iter().map(|o| o.to_ints()).collect::<Vec<_>>().join(";")
    )
}

fn build<S: Sys>(h: &[Op]) -> Result<S, String> {
    let mut s = S::new();
    for o in h {
        s.apply(o, false)?;
    }
    Ok(s)
}

/// The debug rendering of a container with arena indices replaced by their order of appearance and
/// byte buffers dropped.
pub fn normalise(text: &str) -> Vec<u8> {
    let mut names: HashMap<String, usize> = HashMap::new();
    let mut out = String::with_capacity(text.len() / 2);
    let mut rest = text;
    loop {
        let a = rest.find("Index {").unwrap_or(usize::MAX);
        let b = rest.find("buffer: [").unwrap_or(usize::MAX);
        if a == usize::MAX && b == usize::MAX {
            out.push_str(rest);
            break;
        }
        if a < b {
            out.push_str(&rest[..a]);
            let r = &rest[a..];
            let close = r.find(['}', ')']).map(|x| x + 1).unwrap_or(r.len());
            // leaves and inner nodes live in two arenas
            let leaf = out.ends_with("Leaf(") || out.ends_with("LeafIndex(");
            let n = names.len();
            let id = *names.entry(format!("{leaf}{}", &r[..close])).or_insert(n);
            out.push_str(&format!("#{id}"));
            rest = &r[close..];
        } else {
            out.push_str(&rest[..b]);
            let r = &rest[b..];
            let close = r.find(']').map(|x| x + 1).unwrap_or(r.len());
            rest = &r[close..];
        }
    }
    out.into_bytes()
}

pub fn explore<S: Sys>(prop: &str, sc: &RScen<S>) -> Report {
    let t0 = std::time::Instant::now();
    let deadline = std::time::Duration::from_secs(sc.secs);
    let mut rep = Report { name: sc.name.clone(), complete: true, ..Report::default() };
    let seen: Vec<Mutex<HashMap<u128, ()>>> = (0..64).map(|_| Mutex::new(HashMap::new())).collect();
    let claim = |k: &[u8]| {
        let h = (hash(k) as u128) << 64 | hash2(k) as u128;
        seen[(h % 64) as usize].lock().unwrap().insert(h, ()).is_none()
    };
    // (parent, op); seeds have parent MAX and op.a[0] = seed
    let mut nodes: Vec<(u32, Op)> = Vec::new();
    let hist_of = |nodes: &[(u32, Op)], mut id: u32| {
        let mut v = Vec::new();
        loop {
            let (p, op) = nodes[id as usize];
            if p == u32::MAX {
                let mut r = sc.seeds[op.a[0] as usize].clone();
                v.reverse();
                r.extend(v);
                return r;
            }
            v.push(op);
            id = p;
        }
    };
    let viol: Mutex<Vec<(u64, u64, String, Vec<Op>)>> = Mutex::new(Vec::new());
    let mut frontier: Vec<u32> = Vec::new();
    let mut slot = Slot::open(0);
    for (i, sd) in sc.seeds.iter().enumerate() {
        let mut s = S::new();
        for j in 0..sd.len() {
            slot.state(&replay_text::<S>(prop, &sc.name, &sd[..j]));
            slot.op(&sd[j].to_ints());
            // every step of a seed is judged too
            if let Err(e) = guarded(|| s.apply(&sd[j], true)).and_then(|x| x) {
                viol.lock().unwrap().push((0, i as u64, e, sd[..=j].to_vec()));
                break;
            }
        }
        slot.idle();
        if viol.lock().unwrap().is_empty() && claim(&guarded(|| s.key()).unwrap_or_default()) {
            frontier.push(nodes.len() as u32);
            nodes.push((u32::MAX, Op::new(0, &[i as u16])));
        }
    }
    drop(slot);
    let transitions = AtomicU64::new(0);
    let bound = AtomicU64::new(0);
    let validated = AtomicU64::new(0);
    let kinds: Vec<AtomicU64> = (0..NK).map(|_| AtomicU64::new(0)).collect();
    let late = AtomicBool::new(false);
    let mut level = 0;
    while !frontier.is_empty() && level < sc.depth && viol.lock().unwrap().is_empty() {
        let last = level + 1 >= sc.depth;
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let news: Mutex<Vec<(u32, u32, Op, bool)>> = Mutex::new(Vec::new());
        std::thread::scope(|scope| {
            for w in 0..threads() {
                let (next, stop, news, viol, nodes, frontier) = (&next, &stop, &news, &viol, &nodes, &frontier);
                let (transitions, bound, kinds, late, hist_of, claim, validated) = (&transitions, &bound, &kinds, &late, &hist_of, &claim, &validated);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let mut slot = Slot::open(w);
                        let mut local = Vec::new();
                        let mut ops = Vec::new();
                        let mut lk = [0u64; NK];
                        'outer: loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= frontier.len() || stop.load(Relaxed) {
                                break;
                            }
                            if t0.elapsed() > deadline {
                                late.store(true, Relaxed);
                                break;
                            }
                            let hist = hist_of(nodes, frontier[i]);
                            ops.clear();
                            slot.state(&replay_text::<S>(prop, &sc.name, &hist));
                            let mut fail = |oi: usize, e: String, op: Option<&Op>| {
                                let mut h = hist.clone();
                                h.extend(op);
                                viol.lock().unwrap().push((i as u64, oi as u64, e, h));
                                stop.store(true, Relaxed);
                            };
                            match guarded(|| build::<S>(&hist)).and_then(|x| x) {
                                Ok(s) => (sc.gen)(&s, &mut ops),
                                Err(e) => {
                                    fail(0, format!("a history that passed step by step fails when run again: {e}"), None);
                                    break;
                                }
                            }
                            for (oi, op) in ops.iter().enumerate() {
                                lk[op.k as usize] += 1;
                                slot.op(&op.to_ints());
                                let r = guarded(|| {
                                    let mut s = build::<S>(&hist)?;
                                    s.apply(op, true)?;
                                    let k = if last { None } else { Some(s.key()) };
                                    Ok((k, s.size()))
                                })
                                .and_then(|x: Result<_, String>| x);
                                validated.fetch_add(1, Relaxed);
                                match r {
                                    Err(e) => {
                                        fail(oi, e, Some(op));
                                        break 'outer;
                                    }
                                    Ok((Some(k), size)) => {
                                        if claim(&k) {
                                            let ex = size <= sc.max;
                                            if !ex {
                                                bound.fetch_add(1, Relaxed);
                                            }
                                            local.push((frontier[i], oi as u32, *op, ex));
                                        }
                                    }
                                    _ => {}
                                }
                            }
                            slot.idle();
                        }
                        slot.idle();
                        for (k, v) in lk.iter().enumerate() {
                            kinds[k].fetch_add(*v, Relaxed);
                        }
                        transitions.fetch_add(lk.iter().sum(), Relaxed);
                        news.lock().unwrap().append(&mut local);
                    })
                    .unwrap();
            }
        });
        let mut news = news.into_inner().unwrap();
        news.sort_by_key(|n| (n.0, n.1));
        rep.expanded += frontier.len() as u64;
        frontier.clear();
        for (p, _, op, ex) in news {
            if ex {
                frontier.push(nodes.len() as u32);
            }
            nodes.push((p, op));
        }
        if late.load(Relaxed) {
            rep.complete = false;
            break;
        }
        level += 1;
    }
    rep.closure = rep.complete && frontier.is_empty();
    rep.levels = level;
    rep.states = nodes.len() as u64;
    rep.transitions = transitions.load(Relaxed);
    rep.judged = rep.transitions;
    rep.validated = validated.load(Relaxed);
    rep.bound_hit = bound.load(Relaxed);
    for k in 0..NK {
        rep.by_kind[k] = kinds[k].load(Relaxed);
    }
    let mut v = viol.into_inner().unwrap();
    v.sort_by_key(|x| (x.0, x.1));
    if let Some((_, _, msg, h)) = v.into_iter().next() {
        rep.violation = Some(Violation { msg, replay: replay_text::<S>(prop, &sc.name, &h) });
    } else if !nodes.is_empty() {
        for i in [nodes.len() / 3, nodes.len() * 2 / 3, nodes.len() - 1] {
            let h = hist_of(&nodes, i as u32);
            if let Ok(t) = guarded(|| story::<S>(&h)) {
                rep.samples.push(t);
            }
        }
    }
    rep.secs = t0.elapsed().as_secs_f64();
    rep
}

fn hash2(k: &[u8]) -> u64 {
    let mut h = 0x9E3779B97F4A7C15u64;
    for b in k {
        h = (h.rotate_left(7) ^ *b as u64).wrapping_mul(0xD6E8FEB86659FD93);
        h ^= h >> 32;
    }
    h
}

pub fn story<S: Sys>(h: &[Op]) -> String {
    let mut s = S::new();
    let mut v = Vec::new();
    for o in h {
        v.push(s.describe(o));
        if s.apply(o, false).is_err() {
            break;
        }
    }
    v.join(" ; ")
}

pub fn replay<S: Sys>(hist: &[Op]) -> (String, bool) {
    let mut out = String::new();
    let mut s = S::new();
    for (i, op) in hist.iter().enumerate() {
        eprint!("step {}: {}\n", i + 1, s.describe(op));
        if i + 1 == hist.len() {
            eprint!("before the last step:\n{}\n", guarded(|| s.show()).unwrap_or_default());
        }
        if let Err(e) = guarded(|| s.apply(op, true)).and_then(|x| x) {
            out.push_str(&format!("FAILS: {e}\n"));
            return (out, true);
        }
    }
    out.push_str(&format!("at the end:\n{}\nevery step satisfies the property\n", guarded(|| s.show()).unwrap_or_default()));
    (out, false)
}
