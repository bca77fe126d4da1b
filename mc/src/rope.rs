//! The rope against a plain string (C01).
use crate::ops::Op;
use crate::oracle::req;
use crate::rbfs::*;
use generic_btree::Rope;
use std::ops::Bound;

pub const INS: u8 = 0; // a: position lo, position hi (x4096), length in characters, multi-byte
pub const DEL: u8 = 1; // a: start, end, kind of bounds, start high part, end high part (x4096)
pub const CLEAR: u8 = 2;
pub const FILL: u8 = 3; // macro: a[0] inserts of a[1] characters, at the end (a[2]=0) or the start (1) or the middle (2)

const BIG: u16 = 60_000; // stands for usize::MAX

pub struct RopeSys {
    r: Rope,
    m: Vec<u8>,
    next: u32,
}

const WIDE: [&str; 3] = ["é", "漢", "😀"];

impl RopeSys {
    fn text(&mut self, chars: usize, multi: bool) -> String {
        let mut s = String::new();
        for i in 0..chars {
            let c = self.next;
            self.next += 1;
            if multi && i % 2 == 0 {
                s.push_str(WIDE[(c % 3) as usize]);
            } else {
                s.push((33 + (c % 94) as u8) as char);
            }
        }
        s
    }
    fn ins(&mut self, at: usize, chars: usize, multi: bool) {
        let t = self.text(chars, multi);
        self.r.insert(at, &t);
        self.m.splice(at..at, t.bytes());
    }
    fn check(&self) -> Result<(), String> {
        let t = self.r.to_string();
        req!(t.as_bytes() == &self.m[..], "the text is {:?}, should be {:?}", clip(&t), clip(&String::from_utf8_lossy(&self.m)));
        req!(self.r.len() == self.m.len(), "len() is {}, the text has {} bytes", self.r.len(), self.m.len());
        req!(self.r.is_empty() == self.m.is_empty(), "is_empty() is {} for {} bytes", self.r.is_empty(), self.m.len());
        self.r.check();
        Ok(())
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    pub fn boundary(&self, i: usize) -> bool {
        i >= self.m.len() || self.m[i] & 0xC0 != 0x80
    }
}

fn clip(s: &str) -> String {
    if s.len() <= 200 {
        s.to_string()
    } else {
        format!("{}… ({} bytes)", s.chars().take(120).collect::<String>(), s.len())
    }
}

fn num(x: u16) -> usize {
    if x == BIG {
        usize::MAX
    } else {
        x as usize
    }
}

fn range(op: &Op) -> (Bound<usize>, Bound<usize>) {
    let (s, e) = (num(op.a[0]).saturating_add(op.a[3] as usize * 4096), num(op.a[1]).saturating_add(op.a[4] as usize * 4096));
    use Bound::*;
    match op.a[2] {
        0 => (Included(s), Excluded(e)),
        1 => (Included(s), Included(e)),
        2 => (Unbounded, Excluded(e)),
        3 => (Unbounded, Included(e)),
        4 => (Included(s), Unbounded),
        5 => (Unbounded, Unbounded),
        6 => (Excluded(s), Excluded(e)),
        7 => (Excluded(s), Included(e)),
        _ => (Excluded(s), Unbounded),
    }
}

impl Sys for RopeSys {
    const ENGINE: &'static str = "rope";
    fn new() -> Self {
        RopeSys { r: Rope::new(), m: Vec::new(), next: 0 }
    }
    fn apply(&mut self, op: &Op, judge: bool) -> Result<(), String> {
        match op.k {
            INS => self.ins(op.a[0] as usize + op.a[1] as usize * 4096, op.a[2] as usize, op.a[3] == 1),
            DEL => {
                let b = range(op);
                self.r.delete_range(b);
                let n = self.m.len();
                let s = match b.0 {
                    Bound::Included(x) => x,
                    Bound::Excluded(x) => x.saturating_add(1),
                    Bound::Unbounded => 0,
                };
                let e = match b.1 {
                    Bound::Included(x) => x.saturating_add(1),
                    Bound::Excluded(x) => x,
                    Bound::Unbounded => n,
                }
                .min(n);
                if s < e {
                    self.m.drain(s..e);
                }
            }
            CLEAR => {
                self.r.clear();
                self.m.clear();
            }
            _ => {
                for _ in 0..op.a[0] {
                    let at = match op.a[2] {
                        0 => self.m.len(),
                        1 => 0,
                        _ => self.m.len() / 2,
                    };
                    self.ins(at, op.a[1] as usize, false);
                }
            }
        }
        if judge {
            self.check()?;
        }
        Ok(())
    }
    fn key(&self) -> Vec<u8> {
        let mut k = normalise(&format!("{:?}", self.r));
        if self.m.iter().any(|b| *b >= 0x80) {
            k.extend((0..self.m.len()).map(|i| self.boundary(i) as u8));
        }
        k
    }
    fn size(&self) -> usize {
        self.m.len()
    }
    fn describe(&self, op: &Op) -> String {
        match op.k {
            INS => format!("insert({}, {}{} chars)", op.a[0] as usize + op.a[1] as usize * 4096, op.a[2], if op.a[3] == 1 { " multi-byte" } else { "" }),
            DEL => format!("delete_range({:?})", range(op)),
            CLEAR => "clear()".into(),
            _ => format!("{} x insert({}, {} chars)", op.a[0], ["at the end", "at the start", "in the middle"][op.a[2] as usize % 3], op.a[1]),
        }
    }
    fn show(&self) -> String {
        format!("text {:?}\n{:?}", clip(&String::from_utf8_lossy(&self.m)), self.r)
    }
}

pub struct RG {
    pub lens: Vec<u16>,
    pub multi: bool,
    /// positions: every one, or only those near chunk and text boundaries
    pub sparse: usize,
    pub bounds: bool,
    pub stride: usize,
    /// positions are multiples of this
    pub unit: usize,
}

fn positions(s: &RopeSys, g: &RG) -> Vec<usize> {
    let n = s.len();
    let mut v: Vec<usize> = if g.sparse == 0 {
        (0..=n).step_by(g.unit).collect()
    } else {
        let c = g.sparse;
        let k = n / c;
        let mut v: Vec<usize> = vec![0, 1, n.saturating_sub(1), n];
        for i in 0..=k {
            if i <= 2 || i + 2 >= k || i % g.stride == 0 {
                for d in [c - 1, c, c + 1, c + c / 2] {
                    v.push((i * c + d).saturating_sub(c));
                    v.push(i * c + d);
                }
            }
        }
        v.retain(|x| *x <= n);
        v.sort();
        v.dedup();
        v
    };
    v.retain(|x| s.boundary(*x));
    v
}

pub fn gen(g: RG) -> GenFn<RopeSys> {
    Box::new(move |s, out| {
        let n = s.len();
        let p = positions(s, &g);
        for &i in &p {
            for &l in &g.lens {
                for m in 0..=g.multi as u16 {
                    if m == 1 && l == 0 {
                        continue;
                    }
                    out.push(Op::new(INS, &[(i % 4096) as u16, (i / 4096) as u16, l, m]));
                }
            }
        }
        if g.sparse == 0 {
            for (x, &i) in p.iter().enumerate() {
                for &j in &p[x..] {
                    out.push(Op::new(DEL, &[i as u16, j as u16, 0]));
                }
            }
        } else {
            for (x, &i) in p.iter().enumerate() {
                for (y, &j) in p[x..].iter().enumerate() {
                    if y < 9 || (x * 3 + y) % 7 == 0 || j == n {
                        out.push(Op::new(DEL, &[(i % 4096) as u16, (j % 4096) as u16, 0, (i / 4096) as u16, (j / 4096) as u16]));
                    }
                }
            }
        }
        let nn = n as u16;
        if g.bounds {
            for &i in &p {
                let b = i as u16;
                // 6..: exclusive starts
                if i > 0 && s.boundary(i) {
                    out.push(Op::new(DEL, &[0, b, 2]));
                    out.push(Op::new(DEL, &[0, b - 1, 3]));
                }
                out.push(Op::new(DEL, &[b, 0, 4]));
                if i > 0 {
                    out.push(Op::new(DEL, &[b - 1, 0, 8]));
                    out.push(Op::new(DEL, &[b - 1, nn, 6]));
                    out.push(Op::new(DEL, &[b - 1, nn + 3, 7]));
                }
                out.push(Op::new(DEL, &[b, nn + 1, 0]));
                out.push(Op::new(DEL, &[b, nn, 1]));
                out.push(Op::new(DEL, &[b, BIG, 0]));
                out.push(Op::new(DEL, &[b, BIG, 1]));
            }
            for (x, &i) in p.iter().enumerate() {
                for &j in p[x..].iter().skip(1) {
                    out.push(Op::new(DEL, &[i as u16, j as u16 - 1, 1]));
                    if i > 0 {
                        out.push(Op::new(DEL, &[i as u16 - 1, j as u16, 6]));
                        out.push(Op::new(DEL, &[i as u16 - 1, j as u16 - 1, 7]));
                    }
                }
            }
            out.push(Op::new(DEL, &[0, 0, 5]));
            out.push(Op::new(DEL, &[nn + 1, nn + 3, 0]));
            out.push(Op::new(DEL, &[nn + 1, 0, 4]));
        }
        out.push(Op::new(CLEAR, &[]));
    })
}

pub fn fill(n: u16, l: u16, w: u16) -> Op {
    Op::new(FILL, &[n, l, w])
}

pub fn base(name: &str, g: RG) -> RScen<RopeSys> {
    RScen { name: name.into(), gen: gen(g), seeds: vec![vec![]], depth: 64, max: 8, secs: 300 }
}

