//! The element and summary types the explorer instantiates the real tree with.
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTreeTrait, Child, UseLengthFinder};
use std::ops::Range;

/// Largest number of atoms one element may hold.
pub const CAP: usize = 6;
/// Elements of the `CAPM` policy merge/absorb up to this many atoms.
pub const MERGE_CAP: usize = 3;

/// Merge policies.
pub const NEVER: u8 = 0; // never merge, never absorb
pub const CAPM: u8 = 1; // gap-buffer like: merge and absorb while total <= MERGE_CAP
pub const SPAN: u8 = 2; // asymmetric: a merges with b iff a.last.cls + 1 == b.first.cls
pub const RLE: u8 = 3; // same class merges
pub const WIDE: u8 = 4; // as RLE, and every unit is `sc` long

/// How long one unit is: offsets and lengths beyond 32 bits where merge policy is `WIDE`.
pub const fn sc(m: u8) -> usize {
    if m == WIDE {
        (1 << 32) + 1
    } else {
        1
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Atom {
    pub cls: u8,
    pub mk: u8,
    pub id: u16,
}

impl std::fmt::Debug for Atom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.id)?;
        if self.cls != 0 {
            write!(f, "c{}", self.cls)?;
        }
        if self.mk != 0 {
            write!(f, "+{}", self.mk)?;
        }
        Ok(())
    }
}

/// An element: a short run of atoms. `zero` marks a zero-length element that is not removable.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct El<const M: u8> {
    pub n: u8,
    pub zero: bool,
    pub a: [Atom; CAP],
}

impl<const M: u8> std::fmt::Debug for El<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.zero {
            write!(f, "Z")?;
        }
        write!(f, "{:?}", self.atoms())
    }
}

impl<const M: u8> El<M> {
    pub fn empty() -> Self {
        El { n: 0, zero: false, a: [Atom::default(); CAP] }
    }
    pub fn from_atoms(at: &[Atom], zero: bool) -> Self {
        assert!(at.len() <= CAP, "harness: element over capacity");
        let mut e = Self::empty();
        e.n = at.len() as u8;
        e.zero = zero;
        e.a[..at.len()].copy_from_slice(at);
        e
    }
    pub fn atoms(&self) -> &[Atom] {
        &self.a[..self.n as usize]
    }
    pub fn atoms_mut(&mut self) -> &mut [Atom] {
        &mut self.a[..self.n as usize]
    }
    pub fn push(&mut self, x: Atom) {
        self.a[self.n as usize] = x;
        self.n += 1;
    }
    pub fn len(&self) -> usize {
        if self.zero {
            0
        } else {
            self.n as usize
        }
    }
    fn put(&mut self, pos: usize, e: &Self) {
        let mut v: Vec<Atom> = self.atoms().to_vec();
        v.splice(pos..pos, e.atoms().iter().copied());
        *self = Self::from_atoms(&v, self.zero);
    }
    pub fn bump(&mut self, by: u8) {
        for x in self.atoms_mut() {
            x.mk = x.mk.wrapping_add(by);
        }
    }
}

impl<const M: u8> HasLength for El<M> {
    fn rle_len(&self) -> usize {
        self.len() * sc(M)
    }
}

impl<const M: u8> CanRemove for El<M> {
    fn can_remove(&self) -> bool {
        self.n == 0
    }
}

impl<const M: u8> Sliceable for El<M> {
    fn _slice(&self, range: Range<usize>) -> Self {
        if self.zero {
            panic!("a zero-length element was sliced");
        }
        let k = sc(M);
        assert!(range.start % k == 0 && range.end % k == 0, "an element was cut at {range:?}, where nothing asked for it");
        El::from_atoms(&self.atoms()[range.start / k..range.end / k], false)
    }
}

impl<const M: u8> Mergeable for El<M> {
    fn can_merge(&self, rhs: &Self) -> bool {
        if self.zero || rhs.zero || self.n == 0 || rhs.n == 0 {
            return false;
        }
        let total = self.n as usize + rhs.n as usize;
        match M {
            CAPM => total <= MERGE_CAP,
            SPAN => total <= CAP && self.atoms()[self.n as usize - 1].cls + 1 == rhs.a[0].cls,
            RLE | WIDE => total <= CAP && self.a[0].cls == rhs.a[0].cls,
            _ => false,
        }
    }
    fn merge_right(&mut self, rhs: &Self) {
        assert!(self.can_merge(rhs), "merge_right called on elements that cannot merge");
        self.put(self.n as usize, rhs);
    }
    fn merge_left(&mut self, left: &Self) {
        assert!(left.can_merge(self), "merge_left called on elements that cannot merge");
        self.put(0, left);
    }
}

impl<const M: u8> TryInsert for El<M> {
    fn try_insert(&mut self, pos: usize, elem: Self) -> Result<(), Self> {
        if M == CAPM && !self.zero && !elem.zero && (self.n + elem.n) as usize <= MERGE_CAP {
            self.put(pos, &elem);
            Ok(())
        } else {
            Err(elem)
        }
    }
}

/// Summary: length, number of atoms, additive weight, and (only for the recomputing mode) an
/// order-sensitive polynomial hash, which no difference can express.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Ca {
    pub len: isize,
    pub n: i64,
    pub w: i64,
    pub h: u64,
    pub p: u64,
}

impl Default for Ca {
    fn default() -> Self {
        Ca { len: 0, n: 0, w: 0, h: 0, p: 1 }
    }
}

impl std::fmt::Debug for Ca {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "(len={} n={} w={} h={:x})", self.len, self.n, self.w, self.h)
    }
}

impl Ca {
    pub fn add(&mut self, o: &Ca) {
        self.len += o.len;
        self.n += o.n;
        self.w += o.w;
        self.h = self.h.wrapping_mul(o.p).wrapping_add(o.h);
        self.p = self.p.wrapping_mul(o.p);
    }
}

pub fn weight(a: &Atom) -> i64 {
    1 + a.id as i64 * 7 + a.cls as i64 * 100_003 + a.mk as i64 * 1_000_003
}

pub fn elem_cache<const M: u8, const D: bool>(e: &El<M>) -> Ca {
    let mut c = Ca { len: e.rle_len() as isize, n: e.n as i64, ..Ca::default() };
    for a in e.atoms() {
        c.w += weight(a);
        if !D {
            c.h = c.h.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(weight(a) as u64);
            c.p = c.p.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
    }
    c
}

#[derive(Clone, Copy, PartialEq, Eq, Default, Debug)]
pub struct Di {
    pub len: isize,
    pub n: i64,
    pub w: i64,
}

impl CanRemove for Di {
    fn can_remove(&self) -> bool {
        *self == Di::default()
    }
}

pub fn diff_of(new: &Ca, old: &Ca) -> Di {
    Di { len: new.len - old.len, n: new.n - old.n, w: new.w - old.w }
}

/// `M`: merge policy, `D`: whether the tree propagates differences (`USE_DIFF`).
pub struct Tr<const M: u8, const D: bool>;

impl<const M: u8, const D: bool> BTreeTrait for Tr<M, D> {
    type Elem = El<M>;
    type Cache = Ca;
    type CacheDiff = Di;
    const USE_DIFF: bool = D;

    fn calc_cache_internal(cache: &mut Ca, caches: &[Child<Self>]) -> Di {
        let mut new = Ca::default();
        for c in caches {
            new.add(&c.cache);
        }
        let d = diff_of(&new, cache);
        *cache = new;
        d
    }
    fn apply_cache_diff(cache: &mut Ca, diff: &Di) {
        if !D {
            panic!("a difference was applied in a tree that does not use differences");
        }
        cache.len += diff.len;
        cache.n += diff.n;
        cache.w += diff.w;
    }
    fn merge_cache_diff(a: &mut Di, b: &Di) {
        a.len += b.len;
        a.n += b.n;
        a.w += b.w;
    }
    fn get_elem_cache(elem: &El<M>) -> Ca {
        elem_cache::<M, D>(elem)
    }
    fn new_cache_to_diff(cache: &Ca) -> Di {
        diff_of(cache, &Ca::default())
    }
    fn sub_cache(l: &Ca, r: &Ca) -> Di {
        diff_of(l, r)
    }
}

impl<const M: u8, const D: bool> UseLengthFinder<Tr<M, D>> for Tr<M, D> {
    fn get_len(cache: &Ca) -> usize {
        cache.len as usize
    }
}
