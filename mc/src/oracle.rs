//! Oracles: each checks one guarantee of a real tree against its observed content.
use crate::elem::*;
use crate::snap::*;
use generic_btree::*;
use std::cmp::Ordering;

pub const SEQ: u32 = 1; // content equals the reference
pub const RET: u32 = 2; // return values and callbacks equal the reference
pub const CACHE: u32 = 4; // every summary equals the content below it
pub const STRUCT: u32 = 8; // depth, capacity, links, leaks, self-check
pub const QUERY: u32 = 16; // search by position
pub const NAV: u32 = 32; // cursor movement and comparison
pub const ITER: u32 = 64; // iteration, full and ranges
pub const HANDLE: u32 = 128; // handle stability and reporting
pub const CLONE: u32 = 256; // the clone's source is unchanged
pub const FILTER: u32 = 512; // filtered traversal
pub const PREV: u32 = 1024; // visiting what precedes a cursor
pub const HALF: u32 = 2048; // nodes at least half full (insert/remove-only scenarios)
pub const EMPTYLIKE: u32 = 4096; // an empty tree looks like a new one
pub const CUSTOM: u32 = 8192; // user-defined searches
/// what must hold for two states with equal keys to have equal futures
pub const HEALTH: u32 = SEQ | CACHE | STRUCT | QUERY | NAV;

macro_rules! req {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub(crate) use req;

/// Node capacity, measured on the code under test: the number of appends that first makes two levels.
pub fn capacity() -> usize {
    static C: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *C.get_or_init(|| {
        let mut t: BTree<Tr<NEVER, true>> = BTree::new();
        for i in 1..200 {
            t.push(El::from_atoms(&[Atom { cls: 0, mk: 0, id: i as u16 }], false));
            if t.depth() > 1 {
                return i;
            }
        }
        200
    })
}

pub fn cache<const M: u8, const D: bool>(s: &Snap<M>) -> Result<(), String> {
    let mut pre: Vec<Ca> = Vec::with_capacity(s.leaves.len());
    for (i, (_, e)) in s.leaves.iter().enumerate() {
        let c = elem_cache::<M, D>(e);
        req!(c == s.leaf_cache[i], "summary of element #{i} {e:?} is {:?}, should be {c:?}", s.leaf_cache[i]);
        pre.push(c);
    }
    for (k, nd) in s.nodes.iter().enumerate() {
        let mut c = Ca::default();
        for x in &pre[nd.first..nd.end] {
            c.add(x);
        }
        req!(
            c == nd.cache,
            "summary of {} (level {}, node {k}) is {:?}, its content sums to {c:?}",
            if nd.arena.is_none() { "the whole tree" } else { "an inner node" },
            nd.level,
            nd.cache
        );
    }
    Ok(())
}

pub fn structure<const M: u8, const D: bool>(t: &BTree<Tr<M, D>>, s: &Snap<M>, half: bool) -> Result<(), String> {
    let cap = capacity();
    for nd in &s.nodes {
        req!(nd.nchild > 0 || (nd.arena.is_none() && s.leaves.is_empty()), "an inner node without children");
        req!(nd.nchild < cap, "an inner node has {} children after a completed operation (splits at {cap})", nd.nchild);
        if half && nd.arena.is_some() {
            req!(nd.nchild >= cap / 2, "a non-root node has only {} children (capacity {cap}) in a tree changed only by single insertions and removals of whole elements", nd.nchild);
        }
    }
    if let Some(l0) = s.leaf_level.first() {
        req!(s.leaf_level.iter().all(|l| l == l0), "elements are at different depths: {:?}", s.leaf_level);
        let root_children = s.nodes[0].nchild;
        if half && s.nodes.len() > 1 {
            req!(root_children > 1, "the root has a single inner child");
        }
        req!(t.depth() == *l0 as usize + 1, "depth() is {} but elements are at level {}", t.depth(), *l0 as usize + 1);
    }
    req!(
        s.node_len == s.nodes.len() + s.leaves.len(),
        "node_len() is {} but only {} inner nodes and {} elements are reachable",
        s.node_len,
        s.nodes.len(),
        s.leaves.len()
    );
    let children: usize = s.nodes.iter().map(|n| n.nchild).sum();
    let (avg, want) = (t.internal_avg_children_num(), children as f64 / s.nodes.len() as f64);
    req!((avg - want).abs() < 1e-9, "internal_avg_children_num() is {avg}, the inner nodes have {want} children on average");
    let mut root = None;
    for (i, (l, _)) in s.leaves.iter().enumerate() {
        let p = t.get_leaf((*l).into()).parent();
        match s.nodes[s.leaf_parent[i] as usize].arena {
            Some(a) => req!(p == a, "parent link of element #{i} does not name the node that lists it"),
            None => {
                req!(root.is_none() || root == Some(p), "parent links of the root's elements differ");
                root = Some(p);
            }
        }
    }
    let mut ids: Vec<LeafIndex> = s.leaves.iter().map(|x| x.0).collect();
    ids.sort();
    ids.dedup();
    req!(ids.len() == s.leaves.len(), "an element is listed twice");
    t.check();
    Ok(())
}

pub fn query<const M: u8, const D: bool>(t: &BTree<Tr<M, D>>, s: &Snap<M>) -> Result<(), String> {
    let total = s.total();
    if s.leaves.is_empty() {
        req!(t.query::<LengthFinder>(&0).is_none(), "searching an empty tree found something");
        req!(t.query::<LengthFinder>(&3).is_none(), "searching an empty tree found something");
        req!(t.range::<LengthFinder>(0..1).is_none(), "range on an empty tree found something");
        return Ok(());
    }
    let mut k = 0;
    let mut base = 0;
    // (positions in units; a unit's first and last place)
    let w = sc(M);
    let ends: &[usize] = if w == 1 { &[0] } else { &[0, w - 1] };
    for (i, &d) in (0..=total + 2).flat_map(|i| ends.iter().map(move |d| (i, d))) {
        let x = i * w + d;
        let (q, f) = t.query_with_finder_return::<LengthFinder>(&x);
        let q = q.ok_or("search on a non-empty tree returned nothing")?;
        while k + 1 < s.leaves.len() && i >= base + s.leaves[k].1.len() {
            base += s.leaves[k].1.len();
            k += 1;
        }
        let found = i < total;
        req!(q.leaf() == s.leaves[k].0, "searching position {i} of {total} returned element #{:?}, expected #{k}", s.ordinal(q.leaf()));
        req!(q.found == found, "searching position {i} of {total}: found={}", q.found);
        req!(q.found() == found && q.cursor() == q.cursor && q.offset() == q.cursor.offset && q.arena() == q.leaf().inner(), "accessors of a search result disagree with it");
        if i < total || (i == total && d == 0) {
            req!(q.offset() == x - base * w, "searching position {x} of {} returned offset {}, expected {}", total * w, q.offset(), x - base * w);
        }
        req!(q.elem(t) == Some(&s.leaves[k].1), "the search result resolves to another element");
        let nd = &s.nodes[s.leaf_parent[k] as usize];
        req!(f.slot as usize == k - nd.first, "the finder reports slot {} instead of {}", f.slot, k - nd.first);
        req!(f.parent == nd.arena.map(|a| a.unwrap_internal()), "the finder reports a wrong parent");
    }
    for i in 0..=total {
        let j = (i * 7 + 3) % (total + 1);
        let (i, j) = (i * w, j * w);
        let r = t.range::<LengthFinder>(i..j).ok_or("range on a non-empty tree returned nothing")?;
        req!(
            Some(r.start) == t.query::<LengthFinder>(&i) && Some(r.end) == t.query::<LengthFinder>(&j),
            "range search {i}..{j} differs from two searches"
        );
    }
    Ok(())
}

/// User-defined searches: what they are shown, what comes out.
pub fn custom<const M: u8, const D: bool>(t: &BTree<Tr<M, D>>, s: &Snap<M>) -> Result<(), String> {
    if s.leaves.is_empty() {
        let g = Goal { path: [0; 32], miss: 0, levels: 1, off: 0 };
        let (q, f) = t.query_with_finder_return::<Guide<M>>(&g);
        req!(q.is_none() && f.lv.is_empty() && f.conf.is_empty(), "a search of an empty tree consults the finder or finds something");
        req!(t.query::<Guide<M>>(&g).is_none() && t.range::<Guide<M>>(g..g).is_none(), "a search of an empty tree finds something");
        return Ok(());
    }
    // child list of every node
    let mut kids: Vec<Vec<(ArenaIndex, Ca)>> = vec![Vec::new(); s.nodes.len()];
    let mut stack: Vec<usize> = Vec::new();
    let mut parent = vec![0usize; s.nodes.len()];
    for (i, nd) in s.nodes.iter().enumerate() {
        stack.truncate(nd.level);
        if let (Some(&p), Some(a)) = (stack.last(), nd.arena) {
            kids[p].push((a, nd.cache));
            parent[i] = p;
        }
        if nd.leaf_children {
            kids[i].extend((nd.first..nd.end).map(|x| (s.leaves[x].0.into(), s.leaf_cache[x])));
        }
        stack.push(i);
    }
    for (i, (_, e)) in s.leaves.iter().enumerate() {
        let mut chain = vec![s.leaf_parent[i] as usize];
        while s.nodes[chain[0]].level > 0 {
            chain.insert(0, parent[chain[0]]);
        }
        let levels = chain.len();
        for m in 0..levels + 3 {
            // found everywhere, missing at one level, missing everywhere
            let miss = match m {
                0 => 0,
                m if m <= levels + 1 => 1u32 << (m - 1),
                _ => u32::MAX,
            };
            let off = if m % 2 == 0 { e.len() } else { (m / 2).min(e.len()) };
            let g = s.goal(i, off, miss);
            let (q, f) = t.query_with_finder_return::<Guide<M>>(&g);
            req!(f.lv.len() == levels, "a search consulted the finder {} times in a tree of {levels} levels", f.lv.len());
            for (l, (got, &nd)) in f.lv.iter().zip(&chain).enumerate() {
                req!(*got == kids[nd], "at level {l} a search towards element #{i} was shown other children or summaries than the chosen node has");
            }
            req!(f.conf.len() == 1 && f.conf[0] == *e, "a search towards element #{i} {e:?} asked to confirm {:?}", f.conf);
            let want = QueryResult { cursor: s.cursor(i, off), found: miss == 0 };
            req!(q == Some(want), "a search towards element #{i}, offset {off}, steps missing {miss:b}, gives {q:?}");
            req!(t.query::<Guide<M>>(&g) == q, "query and query_with_finder_return disagree");
            let j = (i * 5 + m) % s.leaves.len();
            let g2 = s.goal(j, 0, 0);
            let r = t.range::<Guide<M>>(g..g2);
            req!(r == Some(want..QueryResult { cursor: s.cursor(j, 0), found: true }), "range search differs from two searches");
        }
    }
    Ok(())
}

fn nav_chain<const M: u8, const D: bool>(t: &BTree<Tr<M, D>>, s: &Snap<M>) -> Result<(), String> {
    let n = s.leaves.len();
    req!(t.is_empty() == (n == 0), "is_empty() is {}", t.is_empty());
    req!(t.first_leaf() == s.leaves.first().map(|x| x.0), "first_leaf() is wrong");
    req!(t.last_leaf() == s.leaves.last().map(|x| x.0), "last_leaf() is wrong");
    req!(t.start_cursor() == s.leaves.first().map(|x| Cursor { leaf: x.0, offset: 0 }), "start_cursor() is wrong");
    req!(t.end_cursor() == n.checked_sub(1).map(|i| s.cursor(i, s.leaves[i].1.len())), "end_cursor() is wrong");
    for i in 0..n {
        let c = s.cursor(i, s.leaves[i].1.len());
        let nx = (i + 1 < n).then(|| s.cursor(i + 1, 0));
        let pv = (i > 0).then(|| s.cursor(i - 1, 0));
        let g = t.next_elem(c);
        req!(g == nx, "next_elem of element #{i} of {n} is {:?}", g.map(|x| s.ordinal(x.leaf)));
        let g = t.prev_elem(c);
        req!(g == pv, "prev_elem of element #{i} of {n} is {:?}", g.map(|x| s.ordinal(x.leaf)));
    }
    Ok(())
}

pub fn nav<const M: u8, const D: bool>(t: &BTree<Tr<M, D>>, s: &Snap<M>) -> Result<(), String> {
    nav_chain(t, s)?;
    let n = s.leaves.len();
    // all pairs for small trees; a band plus a stride for large ones
    for i in 0..n {
        for j in 0..n {
            if n > 24 && i.abs_diff(j) > 7 && (i + j * 3) % if n > 300 { 97 } else { 7 } != 0 {
                continue;
            }
            let (a, b) = (s.cursor(i, s.leaves[i].1.len()), s.cursor(j, 0));
            let want = if i == j { s.leaves[i].1.len().cmp(&0) } else { i.cmp(&j) };
            let got = t.compare_pos(a, b);
            req!(got == want, "compare_pos(element #{i}, element #{j}) is {got:?}");
        }
    }
    let total = s.total();
    let mut base = 0;
    for i in 0..n {
        let len = s.leaves[i].1.len();
        for off in 0..=len {
            let c = s.cursor(i, off);
            // the last place of the unit after the cursor (the cursor itself where units are of length one)
            let last = Cursor { leaf: c.leaf, offset: c.offset + sc(M) - 1 };
            let p = base + off + 1;
            let want = (p < total).then(|| {
                let (l, o, _) = s.lookup(p);
                s.cursor(l, o)
            });
            let got = if off < len || sc(M) == 1 { t.shift_path_by_one_offset(last) } else { want };
            if sc(M) > 1 {
                // one place further
                let want = if off < len { Some(Cursor { leaf: c.leaf, offset: c.offset + 1 }) } else { (p < total + 1).then(|| s.lookup(p - 1)).filter(|x| x.2).map(|x| Cursor { leaf: s.leaves[x.0].0, offset: x.1 * sc(M) + 1 }) };
                let got = t.shift_path_by_one_offset(c);
                req!(got == want, "shifting cursor {c:?} by one gives {got:?}, expected {want:?}");
            }
            req!(got == want, "shifting cursor (element #{i}, offset {off}) by one gives {:?}, expected {:?}", got.map(|x| (s.ordinal(x.leaf), x.offset)), want.map(|x| (s.ordinal(x.leaf), x.offset)));
            let want = if off == 0 || off < len { Some(c) } else { (i + 1 < n).then(|| s.cursor(i + 1, 0)) };
            req!(t.prefer_right(c) == want, "prefer_right(element #{i}, offset {off}) is wrong");
            let want = if off > 0 { Some(c) } else { (i > 0).then(|| s.cursor(i - 1, s.leaves[i - 1].1.len())) };
            req!(t.prefer_left(c) == want, "prefer_left(element #{i}, offset {off}) is wrong");
            req!(t.compare_pos(c, c) == Ordering::Equal, "a cursor does not equal itself");
            if off > 0 {
                req!(t.compare_pos(s.cursor(i, off - 1), c) == Ordering::Less && t.compare_pos(c, s.cursor(i, off - 1)) == Ordering::Greater, "offsets inside one element compare wrongly");
            }
        }
        base += len;
    }
    Ok(())
}

pub fn iter_full<const M: u8, const D: bool>(t: &BTree<Tr<M, D>>, s: &Snap<M>) -> Result<(), String> {
    let mut it = t.iter();
    let got: Vec<El<M>> = it.by_ref().take(s.leaves.len() + 5).copied().collect();
    req!(it.next().is_none() && it.next().is_none(), "iter() goes on after its end");
    req!(got.len() == s.leaves.len() && got.iter().zip(&s.leaves).all(|(a, b)| *a == b.1), "iter() yields {got:?}");
    Ok(())
}

pub fn iter<const M: u8, const D: bool>(t: &BTree<Tr<M, D>>, s: &Snap<M>) -> Result<(), String> {
    iter_full(t, s)?;
    let n = s.leaves.len();
    if n == 0 {
        req!(t.iter_range(..).next().is_none(), "iter_range(..) of an empty tree yields something");
        return Ok(());
    }
    let mut cur: Vec<(usize, usize)> = Vec::new();
    for i in 0..n {
        let len = s.leaves[i].1.len();
        if n > 300 && i > 6 && i + 7 < n && i % (n / 40) > 2 {
            continue;
        }
        if n > 40 {
            // large trees: both ends of every element
            cur.push((i, 0));
            if len > 0 {
                cur.push((i, len));
            }
        } else {
            for o in 0..=len {
                cur.push((i, o));
            }
        }
    }
    let chk = |what: &str, got: Vec<ElemSlice<'_, El<M>>>, a: (usize, usize), b: (usize, usize), incl: bool, mark: (bool, bool)| -> Result<(), String> {
        let last = if b.1 == 0 && !incl {
            if b.0 == a.0 {
                req!(got.is_empty(), "{what}: expected nothing, got {} elements", got.len());
                return Ok(());
            }
            b.0 - 1
        } else {
            b.0
        };
        req!(got.len() == last + 1 - a.0, "{what}: {} elements instead of {}", got.len(), last + 1 - a.0);
        for (x, g) in got.iter().enumerate() {
            let i = a.0 + x;
            req!(*g.elem == s.leaves[i].1 && g.cursor().leaf == s.leaves[i].0 && g.cursor().offset == 0, "{what}: element #{i} is wrong");
            let ws = if mark.0 || i == a.0 { (i == a.0).then_some(a.1 * sc(M)) } else { None };
            let we = if mark.1 || i == b.0 { (i == b.0).then_some(b.1 * sc(M)) } else { None };
            req!(g.start == ws && g.end == we, "{what}: element #{i} is marked start={:?} end={:?}, expected {ws:?} {we:?}", g.start, g.end);
        }
        Ok(())
    };
    let cap = n + 5;
    for (x, &a) in cur.iter().enumerate() {
        for (y, &b) in cur[x..].iter().enumerate() {
            if n > 16 && y > 5 && (x * 5 + y) % 37 != 0 {
                continue;
            }
            let (ca, cb) = (s.cursor(a.0, a.1), s.cursor(b.0, b.1));
            chk("iter_range(a..b)", t.iter_range(ca..cb).take(cap).collect(), a, b, false, (true, true))?;
            chk("iter_range(a..=b)", t.iter_range(ca..=cb).take(cap).collect(), a, b, true, (true, true))?;
        }
        let ca = s.cursor(a.0, a.1);
        let e = (n - 1, s.leaves[n - 1].1.len());
        chk("iter_range(a..)", t.iter_range(ca..).take(cap).collect(), a, e, true, (true, true))?;
        chk("iter_range(..a)", t.iter_range(..ca).take(cap).collect(), (0, 0), a, false, (true, true))?;
        chk("iter_range(..=a)", t.iter_range(..=ca).take(cap).collect(), (0, 0), a, true, (true, true))?;
    }
    let e = (n - 1, s.leaves[n - 1].1.len());
    let mut it = t.iter_range(..);
    chk("iter_range(..)", it.by_ref().take(cap).collect(), (0, 0), e, true, (true, true))?;
    req!(it.next().is_none() && it.next().is_none(), "iter_range(..) goes on after its end");
    Ok(())
}

pub fn pred(k: usize, c: &Ca) -> bool {
    match k {
        0 => true,
        1 => false,
        2 => c.len >= 2,
        3 => c.w % 2 == 0,
        4 => c.n != 3,
        _ => c.w % 3 != 0,
    }
}
pub const NPRED: usize = 6;

/// ordinals of the elements all of whose enclosing summaries (not the root's) pass predicate `k`
pub fn selected<const M: u8>(s: &Snap<M>, k: usize) -> Vec<usize> {
    let mut ok = vec![true; s.nodes.len()];
    // preorder: ancestors come first; a node's nearest enclosing node is the last earlier one of lower level
    let mut stack: Vec<usize> = Vec::new();
    for i in 0..s.nodes.len() {
        stack.truncate(s.nodes[i].level);
        if let Some(&p) = stack.last() {
            ok[i] = ok[p] && pred(k, &s.nodes[i].cache);
        }
        stack.push(i);
    }
    (0..s.leaves.len()).filter(|&i| ok[s.leaf_parent[i] as usize] && pred(k, &s.leaf_cache[i])).collect()
}

#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct Acc(pub isize, pub i64);
impl std::ops::AddAssign for Acc {
    fn add_assign(&mut self, o: Self) {
        self.0 += o.0;
        self.1 += o.1;
    }
}

pub fn filter<const M: u8, const D: bool>(t: &BTree<Tr<M, D>>, s: &Snap<M>) -> Result<(), String> {
    for k in 0..NPRED {
        let want = selected(s, k);
        let mut seen: Vec<Ca> = Vec::new();
        let got: Vec<(Acc, El<M>)> = t
            .iter_with_filter(|c: &Ca| {
                seen.push(*c);
                (pred(k, c), Acc(c.len, c.w))
            })
            .take(s.leaves.len() + 5)
            .map(|(a, e)| (a, *e))
            .collect();
        req!(got.len() == want.len(), "filter {k} yields {} elements instead of {}", got.len(), want.len());
        for (g, &i) in got.iter().zip(&want) {
            req!(g.1 == s.leaves[i].1, "filter {k} yields {:?} where element #{i} {:?} is due", g.1, s.leaves[i].1);
            let mut acc = Acc::default();
            for c in &s.leaf_cache[..i] {
                acc += Acc(c.len, c.w);
            }
            req!(g.0 == acc, "filter {k}: accumulated value before element #{i} is {:?}, should be {acc:?}", g.0);
        }
        // consulted once for each child of each accepted node
        let mut exp: Vec<Ca> = Vec::new();
        let mut ok = vec![true; s.nodes.len()];
        let mut stack: Vec<usize> = Vec::new();
        for i in 0..s.nodes.len() {
            stack.truncate(s.nodes[i].level);
            if let Some(&p) = stack.last() {
                if ok[p] {
                    exp.push(s.nodes[i].cache);
                }
                ok[i] = ok[p] && pred(k, &s.nodes[i].cache);
            }
            if ok[i] && s.nodes[i].leaf_children {
                exp.extend_from_slice(&s.leaf_cache[s.nodes[i].first..s.nodes[i].end]);
            }
            stack.push(i);
        }
        req!(exp.len() == seen.len(), "filter {k} was consulted {} times instead of {}", seen.len(), exp.len());
        let f = |v: &mut Vec<Ca>| v.sort_by_key(|c| (c.len, c.n, c.w, c.h));
        f(&mut exp);
        f(&mut seen);
        req!(exp == seen, "filter {k} was consulted with other summaries than the children of accepted nodes");
    }
    Ok(())
}

pub fn prev<const M: u8, const D: bool>(t: &BTree<Tr<M, D>>, s: &Snap<M>) -> Result<(), String> {
    let mut base = Ca::default();
    for i in 0..s.leaves.len() {
        for off in 0..=s.leaves[i].1.len() {
            let mut acc = Ca::default();
            let mut last: Option<(El<M>, usize)> = None;
            let mut bad = false;
            let mut steps = 0;
            t.visit_previous_caches(s.cursor(i, off), |p| {
                steps += 1;
                bad |= last.is_some();
                match p {
                    PreviousCache::NodeCache(c) => acc.add(c),
                    PreviousCache::PrevSiblingElem(e) => acc.add(&elem_cache::<M, D>(e)),
                    PreviousCache::ThisElemAndOffset { elem, offset } => last = Some((*elem, offset)),
                }
            });
            req!(!bad, "something was visited after the cursor's own element");
            req!(last == Some((s.leaves[i].1, off * sc(M))), "visiting before (element #{i}, {off}) ends with {last:?}");
            let g = s.goal(i, 0, 0);
            let few = 1 + g.path[..g.levels].iter().map(|x| *x as usize).sum::<usize>();
            req!(steps <= few, "{steps} visits before element #{i} where {few} cover everything (a subtree that lies before it is one)");
            req!(acc == base, "the summaries visited before element #{i} add up to {acc:?}, the content before it to {base:?}");
            if off < s.leaves[i].1.len() {
                let pos = acc.len as usize + off * sc(M);
                let q = t.query::<LengthFinder>(&pos).ok_or("search returned nothing")?;
                req!(q.cursor == s.cursor(i, off), "searching position {pos} does not return the cursor it was computed from");
            }
        }
        base.add(&elem_cache::<M, D>(&s.leaves[i].1));
    }
    Ok(())
}

pub fn emptylike<const M: u8, const D: bool>(t: &BTree<Tr<M, D>>, s: &Snap<M>) -> Result<(), String> {
    if !s.leaves.is_empty() {
        return Ok(());
    }
    req!(t.is_empty(), "a tree without content is not empty");
    req!(*t.root_cache() == Ca::default(), "the summary of an emptied tree is {:?}", t.root_cache());
    req!(t.node_len() == BTree::<Tr<M, D>>::new().node_len(), "an emptied tree still holds {} nodes", t.node_len());
    req!(t.iter().next().is_none(), "iter() of an empty tree yields something");
    req!(t.iter_range(..).next().is_none(), "iter_range(..) of an empty tree yields something");
    req!(t.iter_with_filter(|_: &Ca| (true, 0usize)).next().is_none(), "iter_with_filter of an empty tree yields something");
    req!(t.first_leaf().is_none() && t.last_leaf().is_none() && t.start_cursor().is_none() && t.end_cursor().is_none(), "an empty tree has a first or last element");
    req!(t.query::<LengthFinder>(&0).is_none() && t.range::<LengthFinder>(0..1).is_none(), "an empty tree finds something");
    req!(t.depth() == BTree::<Tr<M, D>>::new().depth(), "depth() of an emptied tree is {}", t.depth());
    let avg = t.internal_avg_children_num();
    req!(avg == 0.0, "an empty tree reports {avg} children per node");
    let _ = format!("{t:?}");
    t.check();
    Ok(())
}

/// Runs every oracle in `mask` that looks at a single tree.
pub fn run<const M: u8, const D: bool>(t: &BTree<Tr<M, D>>, s: &Snap<M>, mask: u32) -> Result<(), String> {
    if mask & CACHE != 0 {
        cache::<M, D>(s)?;
    }
    if mask & STRUCT != 0 {
        structure(t, s, mask & HALF != 0)?;
    }
    if mask & QUERY != 0 {
        query(t, s)?;
    }
    if mask & CUSTOM != 0 {
        custom(t, s)?;
    }
    if mask & NAV != 0 {
        nav(t, s)?;
    }
    if mask & ITER != 0 {
        iter(t, s)?;
    }
    if mask & FILTER != 0 {
        filter(t, s)?;
    }
    if mask & PREV != 0 {
        prev(t, s)?;
    }
    if mask & EMPTYLIKE != 0 {
        emptylike(t, s)?;
    }
    Ok(())
}
