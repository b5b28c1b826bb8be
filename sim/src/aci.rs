//! Small independent derivative engine modulo associativity/commutativity/idempotence.
//!
//! Used for two things only: (1) an upper-bound style estimate of how many iterated derivatives a
//! term has, so that operations that enumerate the derivative closure are only scheduled where a
//! textbook implementation needs few of them, and (2) a cross-check of the DFA model.

use crate::dfa::{canonical, Dfa};
use crate::prng::Map;
use std::rc::Rc;

pub type AstId = u32;

/// closures that need more work than this are not asked for
pub const WORK_CAP: u64 = 1_500_000;
/// an operation on terms with at most this much work has to return within its allocation fuel
pub const LIGHT: u64 = 30_000;
/// ... and loop bounds that multiply up to at most this (the textbook engine may be lucky where an
/// implementation with other simplifications has to unfold large bounds)
pub const LIGHT_BOUNDS: u64 = 60;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Empty,
    Eps,
    Range(u8, u8),
    Cat(AstId, AstId),
    Loop(AstId, u32, Option<u32>),
    Not(AstId),
    And(Rc<[AstId]>),
    Or(Rc<[AstId]>),
}

pub struct Aci {
    k: usize,
    nodes: Vec<Node>,
    null: Vec<bool>,
    intern: Map<Node, AstId>,
    dmemo: Map<(AstId, u8), AstId>,
    cmemo: Map<AstId, Option<(u32, u64)>>,
    smemo: Map<AstId, u64>,
    pub limit: usize,
    /// X + Sigma^* = Sigma^*, and the dual
    pub absorb: bool,
}

impl Aci {
    pub fn new(k: usize) -> Aci {
        let mut a = Aci {
            k,
            nodes: vec![],
            null: vec![],
            intern: Map::default(),
            dmemo: Map::default(),
            cmemo: Map::default(),
            smemo: Map::default(),
            limit: 60_000,
            absorb: true,
        };
        a.mk(Node::Empty);
        a.mk(Node::Eps);
        let s = a.mk(Node::Range(0, (k - 1) as u8));
        a.mk(Node::Loop(s, 0, None));
        a
    }
    pub const EMPTY: AstId = 0;
    pub const EPS: AstId = 1;
    pub const SIGMA: AstId = 2;
    pub const FULL: AstId = 3;

    pub fn overfull(&self) -> bool {
        self.nodes.len() > self.limit
    }

    fn mk(&mut self, n: Node) -> AstId {
        if let Some(i) = self.intern.get(&n) {
            return *i;
        }
        let nl = match &n {
            Node::Empty | Node::Range(..) => false,
            Node::Eps => true,
            Node::Cat(a, b) => self.null[*a as usize] && self.null[*b as usize],
            Node::Loop(a, i, _) => *i == 0 || self.null[*a as usize],
            Node::Not(a) => !self.null[*a as usize],
            Node::And(v) => v.iter().all(|x| self.null[*x as usize]),
            Node::Or(v) => v.iter().any(|x| self.null[*x as usize]),
        };
        let id = self.nodes.len() as AstId;
        self.nodes.push(n.clone());
        self.null.push(nl);
        self.intern.insert(n, id);
        id
    }
    pub fn nullable(&self, a: AstId) -> bool {
        self.null[a as usize]
    }
    pub fn range(&mut self, lo: u8, hi: u8) -> AstId {
        self.mk(Node::Range(lo, hi))
    }
    pub fn not(&mut self, a: AstId) -> AstId {
        match self.nodes[a as usize] {
            Node::Not(b) => b,
            Node::Empty => Self::FULL,
            _ if a == Self::FULL => Self::EMPTY,
            _ => self.mk(Node::Not(a)),
        }
    }
    pub fn cat(&mut self, a: AstId, b: AstId) -> AstId {
        if a == Self::EMPTY || b == Self::EMPTY {
            return Self::EMPTY;
        }
        if a == Self::EPS {
            return b;
        }
        if b == Self::EPS {
            return a;
        }
        if let Node::Cat(x, y) = self.nodes[a as usize] {
            let r = self.cat(y, b);
            return self.cat(x, r);
        }
        self.mk(Node::Cat(a, b))
    }
    pub fn looped(&mut self, a: AstId, i: u32, j: Option<u32>) -> AstId {
        if let Some(j) = j {
            if i > j {
                return Self::EMPTY;
            }
            if j == 0 {
                return Self::EPS;
            }
            if i == 1 && j == 1 {
                return a;
            }
        }
        if a == Self::EMPTY {
            return if i == 0 { Self::EPS } else { Self::EMPTY };
        }
        if a == Self::EPS {
            return Self::EPS;
        }
        // (R*)* and the like
        if let Node::Loop(_, 0, None) = self.nodes[a as usize] {
            return a;
        }
        self.mk(Node::Loop(a, i, j))
    }
    pub fn or(&mut self, v: &[AstId]) -> AstId {
        let mut w = vec![];
        for x in v {
            match &self.nodes[*x as usize] {
                Node::Or(l) => w.extend(l.iter().copied()),
                _ => w.push(*x),
            }
        }
        w.retain(|x| *x != Self::EMPTY);
        if self.absorb && w.contains(&Self::FULL) {
            return Self::FULL;
        }
        w.sort();
        w.dedup();
        match w.len() {
            0 => Self::EMPTY,
            1 => w[0],
            _ => self.mk(Node::Or(w.into())),
        }
    }
    pub fn and(&mut self, v: &[AstId]) -> AstId {
        let mut w = vec![];
        for x in v {
            match &self.nodes[*x as usize] {
                Node::And(l) => w.extend(l.iter().copied()),
                _ => w.push(*x),
            }
        }
        w.retain(|x| *x != Self::FULL);
        if self.absorb && w.contains(&Self::EMPTY) {
            return Self::EMPTY;
        }
        w.sort();
        w.dedup();
        match w.len() {
            0 => Self::FULL,
            1 => w[0],
            _ => self.mk(Node::And(w.into())),
        }
    }
    pub fn deriv(&mut self, a: AstId, b: u8) -> AstId {
        if let Some(r) = self.dmemo.get(&(a, b)) {
            return *r;
        }
        let r = match self.nodes[a as usize].clone() {
            Node::Empty | Node::Eps => Self::EMPTY,
            Node::Range(lo, hi) => {
                if lo <= b && b <= hi {
                    Self::EPS
                } else {
                    Self::EMPTY
                }
            }
            Node::Cat(x, y) => {
                let d = self.deriv(x, b);
                let d = self.cat(d, y);
                if self.null[x as usize] {
                    let e = self.deriv(y, b);
                    self.or(&[d, e])
                } else {
                    d
                }
            }
            Node::Loop(x, i, j) => {
                let d = self.deriv(x, b);
                let rest = self.looped(x, i.saturating_sub(1), j.map(|j| j - 1));
                self.cat(d, rest)
            }
            Node::Not(x) => {
                let d = self.deriv(x, b);
                self.not(d)
            }
            Node::And(v) => {
                let w: Vec<_> = v.iter().map(|x| self.deriv(*x, b)).collect();
                self.and(&w)
            }
            Node::Or(v) => {
                let w: Vec<_> = v.iter().map(|x| self.deriv(*x, b)).collect();
                self.or(&w)
            }
        };
        self.dmemo.insert((a, b), r);
        r
    }
    /// the same term in this engine
    pub fn import(&mut self, from: &Aci, a: AstId) -> AstId {
        match from.nodes[a as usize].clone() {
            Node::Cat(x, y) => {
                let (x, y) = (self.import(from, x), self.import(from, y));
                self.cat(x, y)
            }
            Node::Loop(x, i, j) => {
                let x = self.import(from, x);
                self.looped(x, i, j)
            }
            Node::Not(x) => {
                let x = self.import(from, x);
                self.not(x)
            }
            Node::And(v) => {
                let v: Vec<_> = v.iter().map(|x| self.import(from, *x)).collect();
                self.and(&v)
            }
            Node::Or(v) => {
                let v: Vec<_> = v.iter().map(|x| self.import(from, *x)).collect();
                self.or(&v)
            }
            n => self.mk(n),
        }
    }
    pub fn show(&self, a: AstId) -> String {
        match &self.nodes[a as usize] {
            Node::Empty => "0".into(),
            Node::Eps => "e".into(),
            Node::Range(x, y) => format!("[{x},{y}]"),
            Node::Cat(x, y) => format!("({}.{})", self.show(*x), self.show(*y)),
            Node::Loop(x, i, j) => format!("{}^[{i},{j:?}]", self.show(*x)),
            Node::Not(x) => format!("!{}", self.show(*x)),
            Node::And(v) => format!("&({})", v.iter().map(|x| self.show(*x)).collect::<Vec<_>>().join(" ")),
            Node::Or(v) => format!("+({})", v.iter().map(|x| self.show(*x)).collect::<Vec<_>>().join(" ")),
        }
    }
    /// size of the part of a term that a derivative looks at
    fn spine(&mut self, a: AstId) -> u64 {
        if let Some(r) = self.smemo.get(&a) {
            return *r;
        }
        let r = match self.nodes[a as usize].clone() {
            Node::Empty | Node::Eps | Node::Range(..) => 1,
            Node::Cat(x, y) => 1 + self.spine(x) + self.spine(y),
            Node::Loop(x, ..) | Node::Not(x) => 1 + self.spine(x),
            Node::And(v) | Node::Or(v) => v.iter().fold(1, |n, x| n + self.spine(*x)),
        };
        let r = r.min(1_000_000);
        self.smemo.insert(a, r);
        r
    }
    /// (number of iterated derivatives, work: sum of the squares of their sizes) if the number is
    /// at most cap and the work is at most WORK_CAP
    pub fn closure(&mut self, a: AstId, cap: usize) -> Option<(u32, u64)> {
        if let Some(r) = self.cmemo.get(&a) {
            return *r;
        }
        let r = self.explore(a, cap).map(|(q, _, w)| (q.len() as u32, w));
        self.cmemo.insert(a, r);
        r
    }
    fn explore(&mut self, a: AstId, cap: usize) -> Option<(Vec<AstId>, Vec<u32>, u64)> {
        let mut idx: Map<AstId, u32> = Map::default();
        let mut q = vec![a];
        let mut tr = vec![];
        let mut work = 0u64;
        idx.insert(a, 0);
        let mut i = 0;
        while i < q.len() {
            for b in 0..self.k {
                if self.overfull() {
                    return None;
                }
                let d = self.deriv(q[i], b as u8);
                let n = q.len() as u32;
                let j = *idx.entry(d).or_insert(n);
                if j == n {
                    q.push(d);
                }
                tr.push(j);
            }
            let z = self.spine(q[i]);
            work += z * z;
            if q.len() > cap || work > WORK_CAP {
                return None;
            }
            i += 1;
        }
        Some((q, tr, work))
    }
    /// the canonical DFA computed from derivatives (model cross-check)
    pub fn dfa(&mut self, a: AstId, cap: usize) -> Option<Dfa> {
        let (q, tr, _) = self.explore(a, cap)?;
        let fin: Vec<bool> = q.iter().map(|x| self.null[*x as usize]).collect();
        Some(canonical(self.k, &fin, &tr))
    }
}
