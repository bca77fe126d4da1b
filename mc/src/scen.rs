//! What is explored for each property.
use crate::bfs::Scen;
use crate::elem::*;
use crate::ops::*;
use crate::oracle::*;
use crate::rbfs::RScen;
use crate::{ord, rangemap, rope, slice};

pub enum Unit {
    Tree(Scen),
    Rope(RScen<rope::RopeSys>),
    Ord(RScen<ord::OrdSys>),
    Map(RScen<rangemap::MapSys>),
    Slice(RScen<slice::SliceSys<false>>),
    SliceOwn(RScen<slice::SliceSys<true>>),
}

impl Unit {
    pub fn name(&self) -> &str {
        match self {
            Unit::Tree(s) => &s.name,
            Unit::Rope(s) => &s.name,
            Unit::Ord(s) => &s.name,
            Unit::Map(s) => &s.name,
            Unit::Slice(s) => &s.name,
            Unit::SliceOwn(s) => &s.name,
        }
    }
}

pub fn u(n: usize) -> Tpl {
    (vec![0; n], false)
}
pub fn z(n: usize) -> Tpl {
    (vec![0; n], true)
}

const GROW: u32 = bit(PUSH) | bit(PATH) | bit(REMOVE) | bit(DRAIN);
/// every operation that starts from an existing tree
const EVERY: u32 = ((1u32 << 15) - 1) & !bit(FROM);
const GOOD: u32 = SEQ | RET | CACHE | STRUCT | QUERY;
const SMALL: bool = cfg!(vp_small);

fn base(name: &str) -> Scen {
    Scen {
        name: name.into(),
        pol: NEVER,
        gen: Gen { alpha: vec![u(1)], diff: true, whole: false, wmax: 2, wlong: vec![], from_n: vec![], cap: 0, pair_dense: 13 },
        build: GROW,
        target: 0,
        tmask: 0,
        smask: 0,
        via: u32::MAX,
        seeds: vec![vec![]],
        depth: 64,
        max_atoms: 6,
        max_leaves: 999,
        secs: 240,
        hist: 0,
    }
}

/// Element families: how elements merge, how long they are, whether summaries use differences.
#[derive(Clone, Copy, PartialEq)]
enum F {
    Unit,
    UnitND,
    Len12,
    Zero,
    Capm,
    CapmND,
    Rle,
    Span,
    ZeroND,
    Wide,
}
use F::*;

fn fam(prop: &str, f: F, n: usize) -> Scen {
    let mut s = base("");
    let (name, pol, diff, alpha) = match f {
        Unit => ("unit", NEVER, true, vec![u(1)]),
        UnitND => ("unit-nodiff", NEVER, false, vec![u(1)]),
        Len12 => ("len12", NEVER, true, vec![u(1), u(2)]),
        Zero => ("zero", NEVER, true, vec![u(1), z(1)]),
        ZeroND => ("zero-nodiff", NEVER, false, vec![u(1), z(1)]),
        Capm => ("capm", CAPM, true, vec![u(1), u(2)]),
        CapmND => ("capm-nodiff", CAPM, false, vec![u(1), u(2)]),
        Rle => ("rle", RLE, true, vec![(vec![0], false), (vec![1], false)]),
        Wide => ("wide", WIDE, true, vec![(vec![0], false), (vec![1, 1], false)]),
        Span => ("span", SPAN, true, vec![(vec![0], false), (vec![1], false)]),
    };
    s.pol = pol;
    s.gen.diff = diff;
    s.gen.alpha = alpha;
    s.max_atoms = n;
    s.name = format!("{prop} {name} up to {n} units");
    s
}

/// Whole-closure scenarios: every transition of `target` from every state with up to N units.
fn closure(prop: &str, sizes: &[(F, usize)], target: u32, tmask: u32, smask: u32) -> Vec<Unit> {
    sizes
        .iter()
        .map(|&(f, n)| {
            let mut s = fam(prop, f, n);
            s.target = target;
            s.tmask = tmask;
            s.smask = smask;
            if smask & EMPTYLIKE != 0 {
                s.name.push_str(" (emptied)");
            }
            Unit::Tree(s)
        })
        .collect()
}

/// Every operation, states not merged unless their last operations are the same too: a defect in
/// something the canonical form does not show has nowhere to hide.
fn unmerged(prop: &str, th: bool, target: u32, tmask: u32, smask: u32) -> Vec<Unit> {
    let sizes: &[(F, usize, usize, u8)] = if SMALL { &[(Unit, 6, 7, 1), (Capm, 4, 5, 1), (Unit, 3, 4, 2)] } else { &[] };
    sizes
        .iter()
        .map(|&(f, q, t, hist)| {
            let mut s = fam(prop, f, if th { t } else { q });
            s.name.push_str(&format!(", states kept apart by their last {hist} operation(s)"));
            s.build = EVERY;
            s.target = target;
            s.tmask = tmask;
            s.smask = smask;
            s.hist = hist;
            Unit::Tree(s)
        })
        .collect()
}

/// Trees of two to four levels that grow and shrink in different ways.
fn big_seeds(thorough: bool) -> Vec<Vec<Op>> {
    let mut v: Vec<Vec<Op>> = Vec::new();
    let push = |n: u16| Op::new(PUSHN, &[n, 0]);
    let pre = |n: u16| Op::new(PREPENDN, &[n, 0]);
    let mid = |n: u16| Op::new(MIDN, &[n, 0]);
    let rem = |a: u16, b: u16| Op::new(REMPAT, &[a, b]);
    // the sizes at which nodes and levels split
    let ns: Vec<u16> = if SMALL {
        if thorough {
            (10..=40).chain([50, 61]).collect()
        } else {
            (10..=30).chain([37, 50]).collect()
        }
    } else if thorough {
        (10..=14).chain(22..=26).chain(64..=82).chain([100, 130, 150]).collect()
    } else {
        vec![11, 12, 13, 24, 66, 71, 72, 77, 78, 85]
    };
    for &n in &ns {
        v.push(vec![push(n)]);
        if thorough || n % 2 == 0 {
            v.push(vec![pre(n)]);
            v.push(vec![mid(n)]);
        }
    }
    let big = if SMALL { 40 } else { 150 };
    // sparse trees: nodes near their minimum
    for (a, b) in [(2, 0), (2, 1), (3, 1)] {
        v.push(vec![push(big), rem(a, b)]);
        if thorough {
            v.push(vec![pre(big), rem(a, b)]);
            v.push(vec![mid(big), rem(a, b)]);
            v.push(vec![push(big), rem(a, b), rem(2, 0)]);
        }
    }
    // built in bulk
    let f = if SMALL { [4, 5, 13, 30] } else { [11, 12, 34, 140] };
    for n in f {
        v.push(vec![Op::new(FROM, &[n, 1, 0, 0])]);
    }
    if thorough {
        for n in if SMALL { 3..34u16 } else { 9..50 } {
            v.push(vec![Op::new(FROM, &[n, 1, 0, 1])]);
            v.push(vec![Op::new(MANY, &[NO, 0, n, 1, 0])]);
        }
    }
    v
}

/// Large trees, `depth` operations from each.
fn large(prop: &str, th: bool, fams: &[F], target: u32, tmask: u32, smask: u32, depth: usize) -> Vec<Unit> {
    fams.iter()
        .map(|&f| {
            let mut s = fam(prop, f, usize::MAX);
            s.name = format!("{} large trees, {depth} step(s)", s.name.replace(&format!(" up to {} units", usize::MAX), ""));
            s.target = target;
            // navigation and iteration of large trees have checks of their own
            s.tmask = if target == 0 { tmask } else { tmask & !(NAV | ITER) };
            s.smask = smask;
            s.depth = depth;
            // how many cursor pairs: all where that is affordable
            s.gen.pair_dense = match (SMALL, target == EVERY) {
                (true, false) => 40,
                (false, false) => 26,
                (true, true) => 12,
                (false, true) => 8,
            };
            s.gen.wmax = 1;
            s.gen.wlong = if SMALL { vec![4, 9] } else { vec![11, 23] };
            s.seeds = big_seeds(th);
            if smask == 0 && target != EVERY {
                // one level more
                let n = if SMALL { 100 } else { 500 };
                s.seeds.push(vec![Op::new(PUSHN, &[n, 0])]);
                s.seeds.push(vec![Op::new(PUSHN, &[n, 0]), Op::new(REMPAT, &[3, 1])]);
            }
            if matches!(f, Len12 | Zero | ZeroND) {
                // elements of both kinds in turn
                let at = s.gen.alpha.len() as u16;
                for n in if SMALL { [7u16, 14, 22] } else { [16, 50, 90] } {
                    let mut h = Vec::new();
                    for i in 0..n {
                        h.push(Op::new(PUSH, &[(i * 2 / 3) % at]));
                    }
                    s.seeds.push(h);
                    let mut h = Vec::new();
                    for i in 0..n {
                        h.push(Op::new(PREPEND, &[i % at]));
                    }
                    s.seeds.push(h);
                }
            }
            if matches!(f, Rle | Span | Capm | CapmND) {
                for n in if SMALL { [8u16, 14, 25] } else { [13, 50, 90] } {
                    let mut h = Vec::new();
                    for i in 0..n {
                        h.push(Op::new(PUSH, &[if f == Span { 1 - i % 2 } else { i % 2 }]));
                    }
                    s.seeds.push(h);
                }
            }
            Unit::Tree(s)
        })
        .collect()
}

/// Trees deeper than any the shipped variant reaches with a million elements.
fn deep(prop: &str, f: F, target: u32, tmask: u32, smask: u32) -> Vec<Unit> {
    if !SMALL {
        return vec![];
    }
    let mut s = fam(prop, f, usize::MAX);
    s.name = format!("{} very deep trees", s.name.replace(&format!(" up to {} units", usize::MAX), ""));
    s.target = target;
    s.tmask = if target == 0 { tmask } else { tmask & !(NAV | ITER | FILTER | PREV) };
    s.smask = smask;
    s.build = 0;
    s.depth = (target != 0) as usize;
    s.gen.pair_dense = 3;
    s.gen.wmax = 1;
    s.gen.wlong = vec![40];
    s.gen.cap = 200;
    let push = |n: u16| Op::new(PUSHN, &[n, 0]);
    let rem = |a: u16, b: u16| Op::new(REMPAT, &[a, b]);
    s.seeds = vec![
        vec![push(1025)],
        vec![push(2200)],
        vec![push(1700), rem(3, 1)],
        vec![Op::new(PREPENDN, &[1600, 0])],
        vec![Op::new(MIDN, &[1200, 0])],
        vec![push(3200), rem(3, 1)],
        vec![push(1025), Op::new(DRAIN, &[300, 0, 640, 0, NO, 0])],
        vec![Op::new(FROM, &[2200, 1, 0, 0])],
    ];
    vec![Unit::Tree(s)]
}

/// A few larger trees, any operation, then the one in question.
fn two_steps(prop: &str, th: bool, f: F, target: u32, tmask: u32, smask: u32) -> Vec<Unit> {
    let push = |n: u16| Op::new(PUSHN, &[n, 0]);
    let rem = |a: u16, b: u16| Op::new(REMPAT, &[a, b]);
    let mut s = fam(prop, f, usize::MAX);
    s.name = format!("{} larger trees, any operation, then it", s.name.replace(&format!(" up to {} units", usize::MAX), ""));
    s.seeds = if SMALL {
        vec![vec![push(13)], vec![Op::new(MIDN, &[17, 0])], vec![push(30), rem(2, 0)], vec![push(30), rem(3, 1)], vec![Op::new(FROM, &[13, 1, 0, 0])]]
    } else {
        vec![vec![push(24)], vec![Op::new(FROM, &[34, 1, 0, 0])], vec![push(77)], vec![push(80), rem(2, 0)]]
    };
    s.build = EVERY;
    s.target = target;
    s.tmask = tmask & !(NAV | ITER);
    s.smask = smask;
    let wide = target == EVERY || (target == 0 && (f != Unit || prop == "C08")) || (f != Unit && target & (bit(LEAF) | bit(DRAIN)) != 0) || target & (bit(UPDATE) | bit(ARGS)) != 0;
    s.depth = if SMALL && !wide { 3 } else { 2 } + th as usize;
    if !SMALL && wide && !th {
        s.seeds.truncate(2);
    }
    s.gen.pair_dense = if target == EVERY { 4 } else { 8 };
    s.gen.wmax = 1;
    s.gen.wlong = vec![];
    vec![Unit::Tree(s)]
}

/// The scenarios in the order they run: those from given trees, which cannot grow beyond their depth,
/// before whole closures, which can when the code is broken.
pub fn plan(prop: &str, th: bool) -> Vec<Unit> {
    let mut v = scenarios(prop, th);
    for x in &mut v {
        if let Unit::Tree(s) = x {
            s.secs = if th { 1200 } else { 120 };
        }
    }
    v.sort_by_key(|x| match x {
        Unit::Tree(s) if s.seeds.len() > 1 => 0,
        Unit::Tree(s) if s.hist > 0 => 2,
        Unit::Tree(s) if s.max_atoms <= 8 || s.name.contains("composed") => 1,
        Unit::Tree(_) => 3,
        _ => 0,
    });
    v
}

fn scenarios(prop: &str, th: bool) -> Vec<Unit> {
    let mut v: Vec<Unit> = vec![];
    // sizes: (quick, thorough) of one-operation closures
    let pick = |small: &[(F, usize, usize)], real: &[(F, usize, usize)]| -> Vec<(F, usize)> { if SMALL { small } else { real }.iter().map(|x| (x.0, if th { x.2 } else { x.1 })).collect() };
    let one = |t: u32, m: u32, sizes: Vec<(F, usize)>, mixed: Vec<(F, usize)>, fams: &[F]| -> Vec<Unit> {
        let mut v = Vec::new();
        for &(f, n) in &sizes {
            // every judged operation on every tree that growing and shrinking reaches
            let mut s = fam(prop, f, n);
            s.target = t;
            s.tmask = m;
            s.via = GROW;
            v.push(Unit::Tree(s));
        }
        for x in closure(prop, &mixed, t, m, 0) {
            // sequences of them
            let Unit::Tree(mut s) = x else { continue };
            s.name.push_str(", composed");
            v.push(Unit::Tree(s));
        }
        v.extend(large(prop, th, fams, t, m, 0, 1));
        v.extend(deep(prop, fams[0], t, m, 0));
        v.extend(two_steps(prop, th, fams[0], t, m, 0));
        if let Some(f) = fams.iter().find(|f| **f == Len12) {
            v.extend(two_steps(prop, th, *f, t, m, 0));
        }
        v.extend(unmerged(prop, th, t, m, 0));
        v
    };
    match prop {
        "C03" => {
            let t = bit(PATH) | bit(IDX) | bit(PUSH) | bit(PREPEND);
            v = one(
                t,
                GOOD | NAV | ITER,
                pick(
                    &[(Unit, 14, 16), (UnitND, 12, 15), (Len12, 9, 11), (Zero, 8, 9), (Capm, 9, 11), (CapmND, 8, 10), (Rle, 7, 8), (Span, 7, 9), (Wide, 6, 7)],
                    &[(Unit, 16, 26), (UnitND, 13, 16), (Len12, 9, 10), (Zero, 7, 8), (Capm, 9, 10), (Rle, 6, 7), (Span, 7, 8)],
                ),
                vec![],
                &[Unit, UnitND, Len12, Capm, Rle],
            );
        }
        "C04" | "C05" | "C15" | "C17" => {
            let m = match prop {
                "C04" => CACHE,
                "C05" => STRUCT,
                "C15" => HANDLE,
                _ => CLONE,
            };
            v = one(
                EVERY,
                m,
                pick(
                    &[(Unit, 13, 15), (UnitND, 12, 14), (Len12, 9, 10), (Zero, 8, 9), (ZeroND, 7, 8), (Capm, 8, 10), (CapmND, 8, 9), (Rle, 6, 7), (Span, 6, 8), (Wide, 5, 6)],
                    &[(Unit, 16, 26), (UnitND, 14, 16), (Len12, 8, 9), (Zero, 6, 7), (Capm, 8, 9), (CapmND, 7, 8), (Rle, 5, 7), (Span, 6, 7)],
                ),
                pick(
                    &[(Unit, 7, 8), (UnitND, 7, 9), (Len12, 5, 7), (Zero, 5, 6), (ZeroND, 5, 6), (Capm, 6, 7), (CapmND, 6, 7), (Rle, 4, 5), (Span, 4, 5), (Wide, 4, 5)],
                    &[(Unit, 6, 8), (Capm, 5, 6)],
                ),
                &[Unit, UnitND, Len12, Capm],
            );
            if prop == "C05" {
                // only whole elements one at a time
                for (f, n) in pick(&[(Unit, 18, 21), (UnitND, 16, 18)], &[(Unit, 40, 50)]) {
                    let mut s = fam(prop, f, n);
                    s.name.push_str(", whole elements one at a time");
                    s.gen.whole = true;
                    s.build = 0;
                    s.target = bit(PATH) | bit(IDX) | bit(PUSH) | bit(PREPEND) | bit(REMOVE);
                    s.tmask = STRUCT | HALF;
                    v.push(Unit::Tree(s));
                }
                let mut s = fam(prop, Unit, usize::MAX);
                s.name = format!("{prop} large trees, whole elements one at a time");
                s.gen.whole = true;
                s.build = 0;
                s.target = bit(PATH) | bit(PUSH) | bit(PREPEND) | bit(REMOVE);
                s.tmask = STRUCT | HALF;
                s.depth = if th { 4 } else { 3 };
                s.seeds = big_seeds(th).into_iter().filter(|h| h.iter().all(|o| !matches!(o.k, FROM | MANY))).collect();
                v.push(Unit::Tree(s));
            }
        }
        "C06" | "C07" | "C08" | "C20" | "C22" | "C23" => {
            let m = match prop {
                "C23" => CUSTOM,
                "C06" => QUERY,
                "C07" => NAV,
                "C08" => ITER,
                "C20" => FILTER,
                _ => PREV,
            };
            // the observation on every state of the larger closures
            let sizes = pick(
                &[(Unit, 15, 17), (UnitND, 14, 16), (Len12, 11, 12), (Zero, 8, 10), (ZeroND, 7, 8), (Capm, 10, 11), (Rle, 7, 8), (Wide, 6, 7)],
                &[(Unit, 14, 20), (UnitND, 13, 14), (Len12, 8, 10), (Zero, 7, 8), (Capm, 9, 10)],
            );
            for x in closure(prop, &sizes, 0, 0, m) {
                v.push(x);
            }
            // and after every operation
            let t = EVERY;
            let sizes = pick(&[(Unit, 7, 9), (UnitND, 7, 9), (Len12, 5, 6), (Zero, 4, 6), (Capm, 5, 6), (Rle, 4, 5), (Wide, 4, 5)], &[(Unit, 6, 7), (Len12, 4, 5), (Capm, 5, 6)]);
            v.extend(closure(prop, &sizes, t, m | if prop == "C20" { SEQ | RET } else { 0 }, 0));
            v.extend(large(prop, th, &[Unit, UnitND, Len12, Zero], 0, 0, m, if th { 2 } else { 1 }));
            if SMALL {
                v.extend(two_steps(prop, th, Unit, 0, 0, m));
                v.extend(two_steps(prop, th, Len12, 0, 0, m));
                v.extend(deep(prop, Unit, 0, 0, m));
            }
            v.extend(unmerged(prop, th, 0, 0, m));
            if prop == "C20" {
                v.extend(large(prop, th, &[Unit, UnitND], bit(FILT), SEQ | RET | CACHE, 0, 1));
            }
            if prop == "C23" {
                // edits by such a search
                let t = bit(IDX) | bit(SEARCH) | bit(DRAIN);
                let m = SEQ | RET | HANDLE | CACHE;
                for (f, n) in pick(&[(Unit, 10, 12), (UnitND, 9, 11), (Len12, 7, 9), (Zero, 6, 8), (ZeroND, 6, 7), (Capm, 7, 8), (Rle, 5, 6), (Span, 5, 6), (Wide, 4, 5)], &[(Unit, 8, 12), (Len12, 6, 8), (Zero, 5, 7), (Capm, 6, 8)]) {
                    let mut s = fam(prop, f, n);
                    s.name.push_str(", edits by search");
                    s.target = t;
                    s.tmask = m;
                    s.via = GROW;
                    v.push(Unit::Tree(s));
                }
                v.extend(large(prop, th, &[Unit, Zero], t, m, 0, 1));
            }
        }
        "C09" => {
            v = one(
                bit(DRAIN),
                GOOD | NAV | ITER,
                pick(
                    &[(Unit, 12, 14), (UnitND, 12, 13), (Len12, 8, 10), (Zero, 7, 8), (ZeroND, 6, 7), (Capm, 7, 9), (CapmND, 7, 8), (Rle, 6, 7), (Wide, 5, 6)],
                    &[(Unit, 8, 14), (Len12, 6, 8), (Zero, 5, 6), (Capm, 6, 8)],
                ),
                pick(&[(Unit, 8, 10), (Len12, 6, 8), (Zero, 5, 6), (Capm, 6, 7)], &[(Unit, 6, 8)]),
                &[Unit, UnitND, Len12, Zero],
            );
        }
        "C10" => {
            v = one(
                bit(UPDATE),
                GOOD | NAV,
                pick(
                    &[(Unit, 11, 13), (UnitND, 11, 13), (Len12, 7, 9), (Zero, 6, 7), (Capm, 7, 8), (CapmND, 6, 8), (Rle, 5, 6), (Span, 5, 6), (Wide, 4, 5)],
                    &[(Unit, 7, 13), (UnitND, 7, 12), (Len12, 6, 7), (Capm, 6, 7), (Rle, 4, 6)],
                ),
                pick(&[(Unit, 7, 9), (UnitND, 7, 9), (Len12, 6, 7), (Capm, 5, 7)], &[(Unit, 6, 8)]),
                &[Unit, UnitND, Len12],
            );
        }
        "C11" => {
            v = one(
                bit(LEAF) | bit(SEARCH),
                GOOD | NAV | HANDLE,
                pick(
                    &[(Unit, 12, 14), (UnitND, 12, 14), (Len12, 8, 10), (Zero, 7, 8), (Capm, 8, 9), (CapmND, 7, 8), (Rle, 6, 7), (Span, 6, 7), (Wide, 5, 6)],
                    &[(Unit, 8, 14), (Len12, 7, 8), (Zero, 5, 6), (Capm, 7, 8), (Rle, 5, 6)],
                ),
                pick(&[(Unit, 7, 8), (UnitND, 7, 8), (Len12, 6, 7), (Capm, 6, 7), (Zero, 5, 6)], &[(Unit, 6, 7), (Capm, 5, 6)]),
                &[Unit, UnitND, Len12],
            );
        }
        "C12" => {
            let mut sizes = pick(
                &[(Unit, 11, 13), (Len12, 7, 8), (Zero, 6, 8), (Capm, 7, 8), (Rle, 6, 7), (Span, 6, 7), (Wide, 5, 6)],
                &[(Unit, 8, 12), (Len12, 6, 7), (Capm, 6, 7), (Rle, 5, 6)],
            );
            for (f, n) in sizes.drain(..) {
                let mut s = fam(prop, f, n);
                if f == Len12 {
                    // long enough to be cut in three twice
                    s.gen.alpha = vec![u(1), u(4)];
                    s.name = s.name.replace("len12", "len14");
                    s.max_atoms = n + 2;
                }
                s.target = bit(ARGS);
                s.tmask = GOOD | NAV | HANDLE;
                v.push(Unit::Tree(s));
            }
            v.extend(large(prop, th, &[Unit, Len12], bit(ARGS), GOOD | NAV | HANDLE, 0, 1));
            v.extend(deep(prop, Unit, bit(ARGS), GOOD | HANDLE, 0));
            v.extend(two_steps(prop, th, Len12, bit(ARGS), GOOD | NAV | HANDLE, 0));
            v.extend(unmerged(prop, th, bit(ARGS), GOOD | NAV | HANDLE, 0));
        }
        "C13" => {
            for (f, n) in pick(
                &[(Unit, 9, 11), (UnitND, 9, 11), (Len12, 6, 8), (Zero, 6, 7), (Capm, 7, 8), (CapmND, 6, 7), (Rle, 5, 7), (Span, 5, 7), (Wide, 4, 6)],
                &[(Unit, 7, 12), (UnitND, 6, 11), (Len12, 5, 7), (Capm, 6, 7), (Rle, 5, 6), (Span, 5, 6)],
            ) {
                let mut s = fam(prop, f, n);
                s.target = bit(MANY);
                s.tmask = GOOD | NAV | ITER;
                s.via = GROW;
                s.gen.wmax = if th { 4 } else { 3 };
                s.gen.wlong = match (SMALL, th) {
                    (true, false) => vec![4, 5, 6, 9, 13, 17],
                    (true, true) => (4..=30).collect(),
                    (false, false) => vec![10, 11, 12, 13, 25, 133],
                    (false, true) => (9..=26).chain([40, 120, 121, 122, 133, 145]).collect(),
                };
                v.push(Unit::Tree(s));
            }
            for (f, n) in pick(&[(Unit, 6, 8), (Len12, 4, 5), (Capm, 4, 6), (Rle, 4, 5), (Wide, 4, 5)], &[(Unit, 5, 7), (Capm, 4, 5)]) {
                // bulk insertions one after another
                let mut s = fam(prop, f, n);
                s.name.push_str(", composed");
                s.target = bit(MANY);
                s.tmask = GOOD | NAV;
                s.gen.wlong = if SMALL { vec![5, 9] } else { vec![11, 13] };
                v.push(Unit::Tree(s));
            }
            v.extend(large(prop, th, &[Unit, UnitND, Capm, Rle], bit(MANY), GOOD | NAV, 0, 1));
            for f in [Unit, UnitND, Capm] {
                let mut s = fam(prop, f, usize::MAX);
                s.name = format!("{} very long insertions", s.name.replace(&format!(" up to {} units", usize::MAX), ""));
                s.target = bit(MANY);
                s.tmask = SEQ | RET | CACHE | STRUCT;
                s.depth = 1;
                s.gen.wmax = 0;
                s.gen.wlong = if SMALL { vec![27, 28, 31, 81, 82, 250] } else { vec![100, 101, 111, 1000, 1001, 1200] };
                let push = |n: u16| vec![Op::new(PUSHN, &[n, 0])];
                s.seeds = if SMALL { vec![vec![], push(1), push(4), push(9), push(40)] } else { vec![vec![], push(1), push(11), push(30), push(150)] };
                v.push(Unit::Tree(s));
            }
            v.extend(deep(prop, Unit, bit(MANY), GOOD, 0));
            v.extend(two_steps(prop, th, Unit, bit(MANY), GOOD, 0));
            v.extend(two_steps(prop, th, Capm, bit(MANY), GOOD, 0));
            v.extend(unmerged(prop, th, bit(MANY), GOOD | NAV, 0));
        }
        "C14" => {
            let ns: Vec<u16> = match (SMALL, th) {
                (true, false) => (0..=40).chain([59, 60, 61]).chain(63..=66).chain([80, 81, 82]).collect(),
                (true, true) => (0..=90).collect(),
                (false, false) => (0..=38).chain([120, 121, 122, 132, 133, 143, 144, 145, 160]).collect(),
                (false, true) => (0..=180).chain([1210, 1211, 1452, 1453]).collect(),
            };
            for f in [Unit, UnitND, Len12, Zero, Capm, Rle, Wide] {
                let mut s = fam(prop, f, 0);
                let stem = s.name.replace(" up to 0 units", "");
                s.name = format!("{stem} from_iter");
                s.gen.from_n = ns.clone();
                s.build = 0;
                s.target = bit(FROM);
                s.tmask = GOOD | NAV | ITER | FILTER | PREV;
                s.max_atoms = usize::MAX;
                s.depth = 1;
                v.push(Unit::Tree(s.clone()));
                if matches!(f, Unit | UnitND | Capm) {
                    s.name = format!("{stem} from_iter, many levels");
                    s.gen.from_n = if SMALL { vec![81, 82, 84, 85, 191, 192, 243, 244, 246, 247, 256, 257, 729, 730] } else { vec![999, 1000, 1001, 1010, 1011, 1100, 1101, 1210, 1331, 1728, 1729, 10_000, 10_001] };
                    s.tmask = SEQ | RET | CACHE | STRUCT;
                    v.push(Unit::Tree(s.clone()));
                }
                // later operations
                s.name = format!("{stem} from_iter, {} later operation(s)", if th { 2 } else { 1 });
                s.gen.from_n = vec![];
                s.gen.pair_dense = 6;
                s.gen.wmax = 1;
                s.target = EVERY;
                s.tmask = SEQ | RET | CACHE | STRUCT | QUERY;
                s.depth = if th { 2 } else { 1 };
                let later: Vec<u16> = match (SMALL, th) {
                    (true, true) => (1..=26).collect(),
                    (true, false) => vec![1, 2, 3, 4, 5, 6, 9, 13, 17, 24],
                    (false, true) => (1..=36).collect(),
                    (false, false) => vec![1, 11, 12, 13, 22, 25, 36],
                };
                s.seeds.clear();
                let na = s.gen.alpha.len() as u16;
                for &n in &later {
                    for c in 0..na * na {
                        if c == 0 || c == 1 || th {
                            s.seeds.push(vec![Op::new(FROM, &[n, 2, c, (n % 2) as u16])]);
                        }
                    }
                }
                if th {
                    s.max_leaves = if SMALL { 14 } else { 16 };
                    s.max_atoms = 30;
                }
                v.push(Unit::Tree(s));
            }
        }
        "C16" => {
            v = one(
                bit(REMOVE),
                GOOD | NAV | ITER | HANDLE,
                pick(
                    &[(Unit, 16, 18), (UnitND, 14, 17), (Len12, 11, 13), (Zero, 8, 10), (ZeroND, 8, 9), (Capm, 10, 11), (Rle, 7, 9), (Wide, 6, 8)],
                    &[(Unit, 14, 20), (UnitND, 13, 14), (Len12, 8, 10), (Zero, 7, 8), (Capm, 9, 10)],
                ),
                vec![],
                &[Unit, UnitND, Len12, Zero],
            );
            // removal only, in every order, from large trees
            let mut s = fam(prop, Unit, usize::MAX);
            s.name = format!("{prop} every removal order from large trees");
            s.build = 0;
            s.target = bit(REMOVE);
            s.tmask = GOOD | NAV | HANDLE | HALF;
            s.seeds = big_seeds(th).into_iter().filter(|h| h.iter().all(|o| !matches!(o.k, FROM | MANY))).collect();
            s.depth = if th { 4 } else { 3 };
            v.push(Unit::Tree(s));
            let mut s = fam(prop, Unit, usize::MAX);
            s.name = format!("{prop} every removal order down to the empty tree");
            s.build = 0;
            s.target = bit(REMOVE);
            s.tmask = GOOD | NAV | HANDLE;
            let n = match (SMALL, th) {
                (true, false) => 17,
                (true, true) => 22,
                (false, false) => 24,
                (false, true) => 28,
            };
            s.tmask |= HALF;
            s.seeds = vec![vec![Op::new(PUSHN, &[n, 0])], vec![Op::new(PREPENDN, &[n, 0])], vec![Op::new(MIDN, &[n, 0])]];
            v.push(Unit::Tree(s.clone()));
            s.name.push_str(", collected and bulk-built ones");
            s.tmask &= !HALF;
            s.seeds = big_seeds(th).into_iter().filter(|h| h.iter().any(|o| matches!(o.k, FROM | MANY))).map(|h| h.into_iter().map(|mut o| { if matches!(o.k, FROM) { o.a[0] = o.a[0].min(n) } o }).collect()).collect();
            s.depth = if th { 5 } else { 3 };
            v.push(Unit::Tree(s));
        }
        "C18" => {
            let m = GOOD | NAV | ITER;
            v.extend(closure(
                prop,
                &pick(
                    &[(Unit, 6, 8), (UnitND, 6, 8), (Len12, 4, 5), (Zero, 4, 5), (ZeroND, 4, 5), (Capm, 5, 6), (CapmND, 4, 5), (Rle, 4, 5), (Span, 4, 5), (Wide, 4, 5)],
                    &[(Unit, 5, 7), (UnitND, 5, 6), (Len12, 4, 5), (Capm, 4, 5)],
                ),
                EVERY,
                m,
                EMPTYLIKE,
            ));
            v.extend(unmerged(prop, th, EVERY, GOOD, 0));
            // emptied from several levels at once, then used again
            for f in [Unit, UnitND, Len12, Zero] {
                let mut s = fam(prop, f, usize::MAX);
                s.name = format!("{} large trees emptied at once", s.name.replace(&format!(" up to {} units", usize::MAX), ""));
                s.seeds = big_seeds(th)
                    .into_iter()
                    .flat_map(|h| {
                        [Op::new(CLEAR, &[]), Op::new(REMPAT, &[1, 0]), Op::new(DRAIN, &[0, 500, 0, 0, NO, 1]), Op::new(DRAIN, &[0, 500, 0, 0, 0, 1])].map(|o| {
                            let mut h = h.clone();
                            h.push(o);
                            h
                        })
                    })
                    .collect();
                s.build = 0;
                s.target = EVERY;
                s.tmask = m;
                s.smask = EMPTYLIKE;
                s.max_atoms = 5;
                s.depth = 3;
                v.push(Unit::Tree(s));
            }
            v.extend(rope_plan(prop, th, true));
            v.extend(ord_plan(prop, th, true));
        }
        "C01" => v = rope_plan(prop, th, false),
        "C02" => v = ord_plan(prop, th, false),
        "C19" => {
            let (n, p) = if th { (7, 7) } else { (6, 6) };
            v.push(Unit::Slice(slice::base(&format!("{prop} elements of length 0 to {n}, up to {p} pieces"), n, p)));
            v.push(Unit::SliceOwn(slice::base(&format!("{prop} elements with their own split, length 0 to {n}, up to {p} pieces"), n, p)));
            let mut s = slice::base::<false>(&format!("{prop} longer elements, two steps"), if th { 20 } else { 12 }, 99);
            s.depth = 2;
            v.push(Unit::Slice(s));
        }
        "C21" => {
            let (n, c) = match (SMALL, th) {
                (true, false) => (6, 5),
                (true, true) => (8, 7),
                (false, false) => (5, 4),
                (false, true) => (7, 6),
            };
            let mut s = rangemap::base(&format!("{prop} positions up to {n}"), c, 1);
            s.max = n;
            v.push(Unit::Map(s));
            let mut s = rangemap::base(&format!("{prop} large maps"), 0, 5);
            let ns: &[u16] = if SMALL { &[9, 13, 24, 33] } else { &[12, 14, 25, 70, 80] };
            s.seeds = ns.iter().flat_map(|&n| [vec![rangemap::fill(n, 2)], vec![rangemap::fill(n, 3)]]).collect();
            s.max = 999;
            s.depth = if th { 2 } else { 1 };
            v.push(Unit::Map(s));
        }
        _ => {}
    }
    v
}

fn rope_plan(prop: &str, th: bool, emptied: bool) -> Vec<Unit> {
    use rope::*;
    let mut v = Vec::new();
    let c: u16 = if SMALL { 4 } else { 128 };
    let clear = Op::new(CLEAR, &[]);
    let wipe = |k: u16| Op::new(DEL, &[0, 60_000, k]);
    let all = |g: bool| RG { lens: if g { vec![0, 1, 2, 3, 4, 5, 9] } else { vec![1, 2, 4] }, multi: false, sparse: 0, bounds: true, stride: 1, unit: 1 };
    if emptied {
        // everything deleted in one of several ways, then used again
        let mut seeds = Vec::new();
        for n in [1, c / 2, c, c + 1, c * 3, c * 20] {
            for w in [clear, wipe(0), wipe(4), wipe(5)] {
                for touch in 0..3 {
                    let mut h = vec![fill(1, n, 0)];
                    match touch {
                        1 => h.push(Op::new(INS, &[n / 2, 0, 1, 0])),
                        2 => h.push(Op::new(DEL, &[n / 2, n / 2 + 1, 0])),
                        _ => {}
                    }
                    h.push(w);
                    seeds.push(h);
                }
            }
        }
        let mut s = base(&format!("{prop} rope emptied, then used again"), all(true));
        s.seeds = seeds;
        s.depth = if th { 3 } else { 2 };
        s.max = 40;
        v.push(Unit::Rope(s));
        return v;
    }
    if SMALL {
        let n = if th { 8 } else { 6 };
        let mut s = base(&format!("{prop} rope, up to {n} bytes"), all(true));
        s.max = n;
        s.secs = if th { 500 } else { 60 };
        v.push(Unit::Rope(s));
        let n = if th { 12 } else { 9 };
        let mut s = base(&format!("{prop} rope with multi-byte text, up to {n} bytes"), RG { lens: vec![1, 2], multi: true, sparse: 0, bounds: false, stride: 1, unit: 1 });
        s.max = n;
        s.secs = if th { 300 } else { 30 };
        s.depth = if th { 8 } else { 5 };
        v.push(Unit::Rope(s));
        let mut s = base(&format!("{prop} rope, from longer texts"), RG { lens: vec![1, 2, 3, 4, 5, 9], multi: false, sparse: 0, bounds: false, stride: 1, unit: 1 });
        s.seeds = vec![vec![fill(1, 16, 0)], vec![fill(6, 3, 0)], vec![fill(14, 1, 1)], vec![fill(9, 2, 2)], vec![fill(1, 40, 0)], vec![fill(10, 3, 2)]];
        s.max = 999;
        s.depth = 2;
        s.secs = if th { 300 } else { 60 };
        v.push(Unit::Rope(s));
        let mut s = base(&format!("{prop} rope, very long insertions"), RG { lens: vec![17, 66, 260], multi: false, sparse: 0, bounds: false, stride: 1, unit: 1 });
        s.seeds = vec![vec![], vec![fill(1, 3, 0)], vec![fill(1, 16, 0)], vec![fill(6, 3, 2)], vec![fill(1, 40, 0)]];
        s.max = 9999;
        s.depth = 1;
        s.secs = 60;
        v.push(Unit::Rope(s));
        if th {
            let mut s = base(&format!("{prop} rope, three steps from longer texts"), RG { lens: vec![1, 3, 5], multi: false, sparse: 0, bounds: false, stride: 1, unit: 1 });
            s.seeds = vec![vec![fill(1, 16, 0)], vec![fill(6, 3, 2)]];
            s.max = 999;
            s.depth = 3;
            s.secs = 300;
            v.push(Unit::Rope(s));
        }
    } else {
        // one chunk: every place of the gap; and texts in units that do or do not divide a chunk
        let n = if th { 64 } else { 24 };
        let mut s = base(&format!("{prop} rope, one chunk, up to {n} bytes"), RG { lens: (1..=n as u16).collect(), multi: false, sparse: 0, bounds: true, stride: 1, unit: 1 });
        s.max = n;
        s.secs = if th { 300 } else { 60 };
        v.push(Unit::Rope(s));
        for unit in [32usize, 42] {
            let n = unit * match (unit, th) { (32, false) => 7, (32, true) => 8, (_, false) => 5, _ => 6 };
            let mut s = base(&format!("{prop} rope, up to {n} bytes in steps of {unit}"), RG { lens: (1..6).map(|x| x * unit as u16).collect(), multi: false, sparse: 0, bounds: false, stride: 1, unit });
            s.max = n;
            s.secs = if th { 300 } else { 60 };
            v.push(Unit::Rope(s));
        }
        let mut s = base(&format!("{prop} rope, 128-byte chunks"), RG { lens: vec![1, 64, 127, 128, 129, 300], multi: false, sparse: 128, bounds: false, stride: 4, unit: 1 });
        s.seeds = vec![vec![], vec![fill(1, 1, 0)], vec![fill(1, 127, 0)], vec![fill(1, 128, 0)], vec![fill(1, 129, 0)], vec![fill(1, 384, 0)], vec![fill(9, 60, 2)]];
        s.max = 99_999;
        s.depth = if th { 3 } else { 2 };
        s.secs = if th { 300 } else { 60 };
        v.push(Unit::Rope(s));
        let mut s = base(&format!("{prop} rope, 128-byte chunks, one step deeper"), RG { lens: vec![1, 300], multi: false, sparse: 128, bounds: false, stride: 4, unit: 1 });
        s.seeds = vec![vec![fill(1, 129, 0)], vec![fill(1, 300, 0)], vec![fill(5, 60, 2)], vec![fill(1, 384, 0)]];
        s.max = 99_999;
        s.depth = if th { 4 } else { 3 };
        s.secs = if th { 300 } else { 60 };
        v.push(Unit::Rope(s));
        let mut s = base(&format!("{prop} rope, very long insertions"), RG { lens: vec![1537, 19_000], multi: false, sparse: 128, bounds: false, stride: 5, unit: 1 });
        s.seeds = vec![vec![], vec![fill(1, 100, 0)], vec![fill(1, 128, 0)], vec![fill(1, 1000, 0)], vec![fill(20, 100, 2)]];
        s.max = 99_999;
        s.depth = if th { 2 } else { 1 };
        s.secs = if th { 300 } else { 60 };
        v.push(Unit::Rope(s));
        let mut s = base(&format!("{prop} rope, beyond 65536 bytes"), RG { lens: vec![1, 200, 2000], multi: false, sparse: 128, bounds: false, stride: 256, unit: 1 });
        s.seeds = vec![vec![fill(1, 65_000, 0)], vec![fill(2, 40_000, 2)], vec![fill(1, 60_000, 0), fill(60, 100, 1)]];
        // a place beyond is remembered
        for x in [65_600usize, 70_001, 79_998] {
            let (lo, hi) = ((x % 4096) as u16, (x / 4096) as u16);
            s.seeds.push(vec![fill(2, 40_000, 2), Op::new(INS, &[lo, hi, 1, 0])]);
            s.seeds.push(vec![fill(2, 40_000, 2), Op::new(DEL, &[lo, lo + 1, 0, hi, hi])]);
        }
        s.max = 999_999;
        s.depth = 1;
        s.secs = 60;
        v.push(Unit::Rope(s));
        let mut s = base(&format!("{prop} rope, large texts"), RG { lens: vec![1, 127, 128, 400], multi: false, sparse: 128, bounds: false, stride: 5, unit: 1 });
        s.seeds = vec![vec![fill(1, 128 * 12, 0)], vec![fill(1, 128 * 15 + 64, 0)], vec![fill(40, 100, 1)], vec![fill(90, 100, 2)], vec![fill(1, 128 * 80, 0)], vec![fill(150, 70, 0)]];
        s.max = 99_999;
        s.depth = if th { 2 } else { 1 };
        s.secs = if th { 300 } else { 60 };
        v.push(Unit::Rope(s));
    }
    v
}

fn ord_plan(prop: &str, th: bool, emptied: bool) -> Vec<Unit> {
    use ord::*;
    let mut v = Vec::new();
    if emptied {
        let mut s = base(&format!("{prop} ordered containers emptied, then used again"));
        s.seeds = [1u16, 4, 5, 12, 30, 80].iter().flat_map(|&n| [vec![addn(n, 0), delp(1, 0)], vec![addn(n, 3), delp(2, 0), delp(1, 0)]]).collect();
        s.depth = if th { 6 } else { 4 };
        s.max = 20;
        v.push(Unit::Ord(s));
        return v;
    }
    let n = match (SMALL, th) {
        (true, false) => 13,
        (true, true) => 16,
        (false, false) => 16,
        (false, true) => 24,
    };
    let mut s = base(&format!("{prop} up to {n} keys"));
    s.max = n;
    v.push(Unit::Ord(s));
    let mut s = base(&format!("{prop} large maps"));
    let ns: Vec<u16> = match (SMALL, th) {
        (true, false) => vec![14, 19, 24, 31, 45],
        (true, true) => (14..50).collect(),
        (false, false) => vec![24, 71, 72, 73, 78, 90, 150],
        (false, true) => (22..26).chain(66..90).chain([140, 150]).collect(),
    };
    s.seeds = ns
        .iter()
        .flat_map(|&n| {
            [
                vec![addn(n, 0)],
                vec![addn(n, 1)],
                vec![addn(n, 2)],
                vec![addn(n, 3)],
                vec![addn(n, 0), delp(2, 0)],
                vec![addn(n, 3), delp(2, 1)],
                vec![addn(n, 0), delp(3, 1)],
            ]
        })
        .collect();
    s.max = 999;
    s.depth = 2;
    v.push(Unit::Ord(s));
    let mut s = base(&format!("{prop} very large maps"));
    let ns: [u16; 3] = if SMALL { [70, 130, 260] } else { [220, 300, 460] };
    s.seeds = ns.iter().flat_map(|&n| [vec![addn(n, 0)], vec![addn(n, 1), delp(3, 1)], vec![addn(n, 3), delp(2, 0)]]).collect();
    s.max = 99_999;
    s.depth = 1;
    v.push(Unit::Ord(s));
    v
}
