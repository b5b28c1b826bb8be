//! Seeded generator of runs: configuration, clients' operations, schedule and fault sequence.
//! Works on the model state only (never looks at an answer of the crate under test).

use crate::plan::*;
use crate::prng::*;
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Normal,
    Wide,
    Deep,
    /// long literals, long operand lists, large bounds
    Big,
}

type Ctx = (u8, u8);

struct G {
    w: World,
    r: Rng,
    prop: u8,
    mode: Mode,
    ctxs: Vec<Ctx>,
    next: u32,
    steps: Vec<Step>,
    anns: Vec<Ann>,
    sing: Vec<u32>,
    preempt_pct: u32,
    overflow_ok: bool,
    faults: bool,
    reused: Vec<u32>,
    autos: Vec<(u32, u8)>,
    /// interval borders shared by the partitions of a run
    pool: Vec<u32>,
    last_q: Option<(Ctx, u32)>,
}

const SPECIAL: &[u32] = &[
    0, 1, 'a' as u32, 'b' as u32, 'c' as u32, '0' as u32, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7ff, 0x800,
    0xd7ff, 0xd800, 0xdbff, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1ffff, 0x20000, 0x2fffe, 0x2ffff,
];

fn gen_cuts(r: &mut Rng, k: usize) -> Vec<u32> {
    let mut cuts: std::collections::BTreeSet<u32> = Default::default();
    cuts.insert(0);
    let nsing = if k <= 2 {
        1
    } else {
        2 + r.idx((k / 2).max(1))
    };
    let mut s = 0;
    let mut guard = 0;
    while s < nsing && guard < 200 {
        guard += 1;
        let c = if r.pct(70) {
            *r.pick(SPECIAL)
        } else if r.pct(60) {
            let around = *r.pick(SPECIAL);
            (around + r.range(0, 4)).min(MAX_CHAR)
        } else {
            r.range(0, MAX_CHAR)
        };
        let mut n = cuts.clone();
        n.insert(c);
        if c < MAX_CHAR {
            n.insert(c + 1);
        }
        if n.len() <= k.max(2) {
            cuts = n;
            s += 1;
        }
    }
    guard = 0;
    while cuts.len() < k && guard < 500 {
        guard += 1;
        let c = if r.pct(50) { *r.pick(SPECIAL) } else { r.range(0, MAX_CHAR) };
        cuts.insert(c);
    }
    cuts.into_iter().collect()
}

pub fn generate(prop: u8, seed: u64) -> (Plan, Vec<Ann>) {
    let mut r = Rng::new(seed);
    if prop == 13 {
        return gen_builder(r, seed);
    }
    let mode = match r.below(100) {
        0..=71 => Mode::Normal,
        72..=83 => Mode::Wide,
        84..=95 => Mode::Deep,
        _ => Mode::Big,
    };
    let (k, raw_cap, cap) = match mode {
        Mode::Normal => (r.range(2, 8) as usize, 4000, 100),
        Mode::Wide => (if r.pct(10) { r.range(60, 150) } else { r.range(10, 44) } as usize, 2000, 60),
        Mode::Deep => (r.range(2, 4) as usize, 12000, 700),
        Mode::Big => (r.range(2, 6) as usize, 20000, 1000),
    };
    let cuts = gen_cuts(&mut r, k);
    let threads = match r.below(10) {
        0..=5 => 1,
        6..=7 => 2,
        _ => 3,
    };
    let overflow_ok = r.pct(if matches!(prop, 1 | 7 | 3 | 16) { 18 } else { 6 });
    let cfg = Cfg {
        prop,
        cuts,
        threads,
        raw_cap,
        cap,
        hash_seed: r.next(),
        label: format!("{mode:?}"),
    };
    let explicit = matches!(prop, 2 | 3 | 4 | 5 | 14 | 18 | 19);
    let nctx = if threads == 1 { r.range(1, 2) } else { r.range(threads as u32, threads as u32 + 2) };
    let mut ctxs: Vec<Ctx> = vec![];
    for i in 0..nctx {
        let th = if i < threads as u32 { i as u8 } else { r.idx(threads as usize) as u8 };
        let mg = if prop == 10 && r.pct(85) {
            0
        } else if explicit && i == 0 {
            1 + r.idx(3) as u8
        } else if r.pct(if explicit { 12 } else { 35 }) {
            0
        } else {
            1 + r.idx(3) as u8
        };
        if !ctxs.contains(&(th, mg)) {
            ctxs.push((th, mg));
        }
    }
    let sing: Vec<u32> = (0..cfg.k()).filter(|b| cfg.singleton(*b)).map(|b| b as u32).collect();
    let preempt_pct = if threads > 1 { *r.pick(&[0, 5, 20, 40, 80]) } else { 0 };
    let faults = r.pct(70);
    let mut g = G {
        w: World::new(&cfg),
        r,
        prop,
        mode,
        ctxs,
        next: 1,
        steps: vec![],
        anns: vec![],
        sing,
        preempt_pct,
        overflow_ok,
        faults,
        reused: vec![],
        autos: vec![],
        pool: vec![],
        last_q: None,
    };
    if matches!(prop, 4 | 14) && g.r.pct(55) {
        g.run_autos();
    } else if matches!(prop, 11 | 12) {
        g.run_parts();
    } else {
        g.run();
    }
    (
        Plan {
            cfg,
            steps: std::mem::take(&mut g.steps),
        },
        g.anns,
    )
}

impl G {
    fn add(&mut self, op: Op, c: Ctx, a: &[u32], n: &[u32]) -> Option<u32> {
        let mut s = Step {
            id: self.next,
            th: c.0,
            mg: c.1,
            op,
            a: a.to_vec(),
            n: n.to_vec(),
            salt: self.r.next() >> 16,
            pre: 0,
            prelen: 0,
        };
        let ann = self.w.apply(&s)?;
        if self.preempt_pct > 0 && self.r.pct(self.preempt_pct) {
            s.pre = match self.r.below(3) {
                0 => self.r.range(1, 4),
                1 => self.r.range(1, 30),
                _ => self.r.range(1, 400),
            };
            s.prelen = self.r.range(1, 4);
        }
        let mut ann = ann;
        ann.step = s.clone();
        self.next += 1;
        self.steps.push(s);
        self.anns.push(ann);
        Some(self.next - 1)
    }

    fn pool(&self, c: Ctx) -> &[u32] {
        self.w.pool.get(&c).map(|v| &v[..]).unwrap_or(&[])
    }

    fn block(&mut self) -> u32 {
        self.r.idx(self.w.cfg.k()) as u32
    }

    fn single(&mut self) -> u32 {
        if self.sing.is_empty() {
            0
        } else {
            *self.r.pick(&self.sing.clone())
        }
    }

    fn range(&mut self, c: Ctx) -> Option<u32> {
        let k = self.w.cfg.k() as u32;
        let (lo, hi) = match self.r.below(10) {
            0..=3 if !self.sing.is_empty() => {
                let b = self.single();
                (b, b)
            }
            0..=6 => {
                let b = self.block();
                (b, b)
            }
            7 => {
                let b = self.block();
                (b, k - 1)
            }
            8 => {
                let b = self.block();
                (0, b)
            }
            _ => {
                let (x, y) = (self.block(), self.block());
                (x.min(y), x.max(y))
            }
        };
        let st = self.r.range(0, 5);
        self.add(Op::Range, c, &[], &[lo, hi, st])
    }

    fn strlit(&mut self, c: Ctx, len: usize) -> Option<u32> {
        if self.sing.is_empty() {
            return self.range(c);
        }
        let few = self.r.pct(50);
        let base = self.single();
        let w: Vec<u32> = (0..len)
            .map(|_| if few && self.r.pct(70) { base } else { self.single() })
            .collect();
        self.add(Op::Str, c, &[], &w)
    }

    fn leaf(&mut self, c: Ctx) -> Option<u32> {
        match self.r.below(20) {
            0..=11 => self.range(c),
            12..=15 => {
                let l = match self.mode {
                    Mode::Deep => self.r.idx(12),
                    Mode::Big if self.r.pct(50) => self.r.range(10, 320) as usize,
                    _ => self.r.idx(5),
                };
                self.strlit(c, l)
            }
            16 => {
                let n = self.r.range(0, 4);
                self.add(Op::BadRange, c, &[], &[n])
            }
            _ => {
                let n = self.r.range(0, 4);
                self.add(Op::Const, c, &[], &[n])
            }
        }
    }

    /// an existing term (or a new leaf)
    fn arg(&mut self, c: Ctx) -> u32 {
        let n = self.pool(c).len();
        if n == 0 || self.r.pct(10) {
            for _ in 0..5 {
                if let Some(x) = self.leaf(c) {
                    return x;
                }
            }
        }
        let n = self.pool(c).len();
        let i = match self.r.below(10) {
            0..=4 => n - 1 - self.r.idx(n.min(4)),
            5 if n > 0 && !self.reused.is_empty() => {
                let x = *self.r.pick(&self.reused.clone());
                if self.w.terms.get(&x).map_or(false, |t| (t.th, t.mg) == c) {
                    return x;
                }
                self.r.idx(n)
            }
            _ => self.r.idx(n),
        };
        self.pool(c)[i]
    }

    /// a term whose model automaton is small
    fn small(&mut self, c: Ctx, max: usize) -> u32 {
        for _ in 0..6 {
            let a = self.arg(c);
            let d = self.w.terms[&a].dfa;
            if self.w.langs.get(d).n() <= max {
                return a;
            }
        }
        self.range(c).unwrap_or_else(|| self.arg(c))
    }

    fn bound(&mut self) -> u32 {
        match self.mode {
            Mode::Deep => match self.r.below(6) {
                0..=2 => self.r.range(0, 6),
                3..=4 => self.r.range(2, 40),
                _ => self.r.range(20, 300),
            },
            Mode::Big if self.r.pct(40) => {
                if self.r.pct(30) {
                    // around powers of two
                    (1u32 << self.r.range(4, 9)) + self.r.range(0, 2) - 1
                } else {
                    self.r.range(30, 700)
                }
            }
            _ => match self.r.below(8) {
                0..=5 => self.r.range(0, 4),
                6 => self.r.range(2, 7),
                _ => self.r.range(3, 16),
            },
        }
    }

    fn looped(&mut self, c: Ctx, x: u32) -> Option<u32> {
        match self.r.below(12) {
            0 | 1 => self.add(Op::Star, c, &[x], &[]),
            2 => self.add(Op::Plus, c, &[x], &[]),
            3 => self.add(Op::Opt, c, &[x], &[]),
            4 => {
                let n = self.bound();
                self.add(Op::Exp, c, &[x], &[n])
            }
            5..=8 => {
                let (i, j) = (self.bound(), self.bound());
                self.add(Op::Loop, c, &[x], &[i.min(j), i.max(j)])
            }
            9 => {
                let (i, j) = (self.bound(), self.bound());
                self.add(Op::SmtLoop, c, &[x], &[i, j])
            }
            _ => {
                let i = self.bound();
                let i = if c.1 == 0 { i.min(1) } else { i };
                self.add(Op::LoopInf, c, &[x], &[i])
            }
        }
    }

    fn list(&mut self, c: Ctx) -> Vec<u32> {
        let long = self.mode == Mode::Big && self.r.pct(45);
        let n = if long { self.r.range(8, 60) as usize } else { 0 };
        let n = if n > 0 { n } else { match self.r.below(10) {
            0 => 0,
            1 => 1,
            2..=5 => 2,
            6..=7 => 3,
            _ => self.r.range(3, 7) as usize,
        } };
        let mut v = vec![];
        for _ in 0..n {
            if !v.is_empty() && self.r.pct(12) {
                let x = *self.r.pick(&v);
                v.push(x);
            } else if long {
                // operands that are small and mostly new
                let l = self.r.range(0, 3) as usize;
                let x = if self.r.pct(50) { self.strlit(c, l) } else { self.range(c) };
                if self.r.pct(4) {
                    if let (Some(x), Some(d)) = (x, self.dead(c)) {
                        v.extend(self.add(Op::Concat, c, &[x, d], &[]));
                    }
                }
                v.extend(x);
            } else {
                v.push(self.arg(c));
            }
        }
        v
    }

    fn combine(&mut self, c: Ctx) -> Option<u32> {
        match self.r.below(40) {
            0..=8 => {
                let (a, b) = (self.arg(c), self.arg(c));
                self.add(Op::Concat, c, &[a, b], &[])
            }
            9 | 10 => {
                let v = self.list(c);
                self.add(Op::ConcatList, c, &v, &[])
            }
            11..=15 => {
                let (a, b) = (self.arg(c), self.arg(c));
                self.add(Op::Union, c, &[a, b], &[])
            }
            16..=18 => {
                let v = self.list(c);
                self.add(Op::UnionList, c, &v, &[])
            }
            19..=22 => {
                let (a, b) = (self.arg(c), self.arg(c));
                self.add(Op::Inter, c, &[a, b], &[])
            }
            23 | 24 => {
                let v = self.list(c);
                self.add(Op::InterList, c, &v, &[])
            }
            25 | 26 => {
                let (a, b) = (self.arg(c), self.arg(c));
                self.add(Op::Diff, c, &[a, b], &[])
            }
            27 => {
                let mut v = self.list(c);
                if v.is_empty() {
                    v.push(self.arg(c));
                }
                self.add(Op::DiffList, c, &v, &[])
            }
            28..=30 => {
                let a = self.arg(c);
                self.add(Op::Compl, c, &[a], &[])
            }
            _ => {
                let a = self.small(c, 12);
                self.looped(c, a)
            }
        }
    }

    fn deriv(&mut self, c: Ctx) -> Option<u32> {
        if c.1 == 0 {
            return None;
        }
        let a = self.arg(c);
        // prefer characters that keep the residual alive
        let d = self.w.terms[&a].dfa;
        let dfa = self.w.langs.get(d);
        let mut b = self.block();
        for _ in 0..3 {
            if !dfa.dead(dfa.next(0, b as usize)) {
                break;
            }
            b = self.block();
        }
        match self.r.below(5) {
            0 | 1 => self.add(Op::CharDeriv, c, &[a], &[b]),
            2 => {
                let mut w = vec![b];
                for _ in 0..self.r.idx(4) {
                    w.push(self.block());
                }
                self.add(Op::StrDeriv, c, &[a], &w)
            }
            3 => {
                let n = self.r.range(0, 1);
                self.add(Op::ClassDeriv, c, &[a], &[b, n])
            }
            _ => {
                let (n, m) = (self.r.range(0, 1), self.r.range(0, 5));
                self.add(Op::SetDeriv, c, &[a], &[b, n, m])
            }
        }
    }

    // ------------------------------------------------------------------ motifs

    fn motif(&mut self, c: Ctx) -> Option<u32> {
        let n = self.r.below(20);
        match n {
            0 | 1 => self.m_loop_of_loop(c),
            2 | 3 => self.m_same_body(c),
            4 => self.m_compl_pair(c),
            5 if self.prop == 16 || self.r.pct(40) => self.m_near(c),
            5..=7 => self.m_pattern_pair(c),
            8 | 9 => self.m_sem_empty(c),
            10 => self.m_ranges(c),
            11 => self.m_nullable_body(c),
            12 | 13 => self.m_prefix_share(c),
            14 => self.m_assoc(c),
            15 => self.m_distribute(c),
            16 => self.m_pumping(c),
            17 if self.overflow_ok => self.m_overflow(c),
            18 => self.m_kth_from_end(c),
            _ => self.m_word_set(c),
        }
    }

    fn m_loop_of_loop(&mut self, c: Ctx) -> Option<u32> {
        let x = if self.r.pct(60) { self.range(c)? } else { self.small(c, 5) };
        let b = if self.mode == Mode::Deep { 12 } else { 4 };
        let mut y = x;
        for _ in 0..self.r.range(2, 3) {
            let (i, j) = (self.r.range(0, b), self.r.range(0, b));
            y = match self.r.below(8) {
                0 => self.add(Op::LoopInf, c, &[y], &[if c.1 == 0 { i.min(1) } else { i }])?,
                1 => self.add(Op::Exp, c, &[y], &[i])?,
                2 => self.add(Op::Star, c, &[y], &[])?,
                3 => self.add(Op::Opt, c, &[y], &[])?,
                4 => self.add(Op::Plus, c, &[y], &[])?,
                _ => self.add(Op::Loop, c, &[y], &[i.min(j), i.max(j)])?,
            };
        }
        Some(y)
    }

    fn m_same_body(&mut self, c: Ctx) -> Option<u32> {
        let x = if self.r.pct(50) { self.range(c)? } else { self.small(c, 5) };
        let mut parts = vec![];
        for _ in 0..self.r.range(2, 4) {
            let p = if self.r.pct(35) { x } else { self.looped(c, x).unwrap_or(x) };
            parts.push(p);
        }
        if self.r.pct(30) {
            let z = self.arg(c);
            let i = self.r.idx(parts.len() + 1);
            parts.insert(i, z);
        }
        if self.r.pct(50) {
            return self.add(Op::ConcatList, c, &parts, &[]);
        }
        let mut y = parts[0];
        for p in &parts[1..] {
            y = if self.r.pct(50) {
                self.add(Op::Concat, c, &[y, *p], &[])?
            } else {
                self.add(Op::Concat, c, &[*p, y], &[])?
            };
        }
        Some(y)
    }

    fn m_compl_pair(&mut self, c: Ctx) -> Option<u32> {
        let x = self.arg(c);
        let y = self.add(Op::Compl, c, &[x], &[])?;
        let mut v = vec![x, y];
        for _ in 0..self.r.idx(3) {
            v.push(self.arg(c));
        }
        if self.r.pct(25) {
            // near miss: the complement of something else
            v.remove(0);
            v.push(self.arg(c));
        }
        if self.r.pct(50) {
            v.reverse();
        }
        let op = *self.r.pick(&[Op::UnionList, Op::InterList, Op::ConcatList, Op::DiffList]);
        self.add(op, c, &v, &[])
    }

    /// intersections / differences that are empty for semantic reasons only
    fn m_sem_empty(&mut self, c: Ctx) -> Option<u32> {
        let e = match self.r.below(6) {
            5 => self.dead(c)?,
            0 => {
                let (x, y) = (self.range(c)?, self.range(c)?);
                self.add(Op::Inter, c, &[x, y], &[])?
            }
            1 => {
                // words of different length
                let x = self.range(c)?;
                let (i, j) = (self.r.range(1, 3), self.r.range(4, 6));
                let p = self.add(Op::Exp, c, &[x], &[i])?;
                let q = self.add(Op::Exp, c, &[x], &[j])?;
                self.add(Op::Inter, c, &[p, q], &[])?
            }
            2 => {
                // same language built differently, subtracted
                let (x, y) = (self.small(c, 8), self.small(c, 8));
                let u = self.add(Op::Union, c, &[x, y], &[])?;
                let (nx, ny) = (self.add(Op::Compl, c, &[x], &[])?, self.add(Op::Compl, c, &[y], &[])?);
                let v = self.add(Op::Inter, c, &[nx, ny], &[])?;
                self.add(Op::Inter, c, &[u, v], &[])?
            }
            3 => {
                let s = self.add(Op::Const, c, &[], &[1])?;
                let (x, y) = (self.range(c)?, self.range(c)?);
                let p = self.add(Op::Concat, c, &[x, s], &[])?;
                let q = self.add(Op::Concat, c, &[y, s], &[])?;
                let q = if self.r.pct(30) { self.add(Op::Compl, c, &[q], &[])? } else { q };
                self.add(Op::Inter, c, &[p, q], &[])?
            }
            _ => {
                let s = self.add(Op::Const, c, &[], &[1])?;
                let (x, y) = (self.range(c)?, self.range(c)?);
                let p = self.add(Op::Concat, c, &[s, x], &[])?;
                let q = self.add(Op::Concat, c, &[s, y], &[])?;
                self.add(Op::Inter, c, &[p, q], &[])?
            }
        };
        let z = self.arg(c);
        match self.r.below(8) {
            0 => self.add(Op::Concat, c, &[z, e], &[]),
            1 => self.add(Op::Concat, c, &[e, z], &[]),
            2 => self.add(Op::Union, c, &[z, e], &[]),
            3 => self.add(Op::Compl, c, &[e], &[]),
            4 => self.looped(c, e),
            5 => {
                let y = self.add(Op::Concat, c, &[e, z], &[])?;
                let x = self.arg(c);
                self.add(Op::Union, c, &[x, y], &[])
            }
            6 => {
                let y = self.add(Op::Compl, c, &[e], &[])?;
                self.add(Op::Inter, c, &[y, z], &[])
            }
            _ => Some(e),
        }
    }

    /// a small term that is empty, but not syntactically
    fn dead(&mut self, c: Ctx) -> Option<u32> {
        let x = self.range(c)?;
        let (i, j) = (self.r.range(1, 2), self.r.range(3, 5));
        let k = self.w.cfg.k() as u32;
        match self.r.below(5) {
            3 | 4 if k >= 2 => {
                // complement of something that is full without being the full term
                let b = self.r.range(1, k - 1);
                let lo = self.add(Op::Range, c, &[], &[0, b - 1])?;
                let hi = self.add(Op::Range, c, &[], &[b, k - 1])?;
                let f = if self.r.pct(50) {
                    let u = self.add(Op::Union, c, &[lo, hi], &[])?;
                    self.add(Op::Star, c, &[u], &[])?
                } else {
                    let s = self.add(Op::Const, c, &[], &[1])?;
                    let p = self.add(Op::Concat, c, &[lo, s], &[])?;
                    let q = self.add(Op::Concat, c, &[hi, s], &[])?;
                    let u = self.add(Op::Union, c, &[p, q], &[])?;
                    if self.r.pct(50) {
                        // everything but the empty string: empty together with a non-empty word
                        let n = self.add(Op::Compl, c, &[u], &[])?;
                        return self.add(Op::Inter, c, &[n, x], &[]);
                    }
                    self.add(Op::Opt, c, &[u], &[])?
                };
                self.add(Op::Compl, c, &[f], &[])
            }
            0 => {
                let p = self.add(Op::Exp, c, &[x], &[i])?;
                let q = self.add(Op::Exp, c, &[x], &[j])?;
                self.add(Op::Inter, c, &[p, q], &[])
            }
            1 => {
                let y = self.range(c)?;
                let s = self.add(Op::Star, c, &[x], &[])?;
                let z = self.add(Op::Concat, c, &[s, y], &[])?;
                let n = self.add(Op::Exp, c, &[y], &[i])?;
                let d = self.add(Op::Diff, c, &[n, z], &[])?;
                self.add(Op::Inter, c, &[d, z], &[])
            }
            _ => {
                let y = self.range(c)?;
                let s = self.add(Op::Star, c, &[x], &[])?;
                let p = self.add(Op::Concat, c, &[s, y], &[])?;
                let e = self.add(Op::Concat, c, &[p, y], &[])?;
                self.add(Op::Inter, c, &[y, e], &[])
            }
        }
    }

    /// many blocks, few different continuations
    fn m_fan(&mut self, c: Ctx) -> Option<u32> {
        let k = self.w.cfg.k() as u32;
        let mut tails = vec![];
        for _ in 0..self.r.range(1, 3) {
            let l = self.r.idx(3);
            tails.push(if self.r.pct(60) { self.strlit(c, l)? } else { self.small(c, 4) });
        }
        if self.r.pct(25) {
            tails.push(self.dead(c)?);
        }
        let (skip, bare) = (self.r.range(0, 40), self.r.range(0, 40));
        let mut v = vec![];
        for b in 0..k.min(60) {
            if self.r.pct(skip) {
                continue;
            }
            let x = self.add(Op::Range, c, &[], &[b, b])?;
            v.push(if self.r.pct(bare) {
                x
            } else {
                let t = *self.r.pick(&tails.clone());
                self.add(Op::Concat, c, &[x, t], &[])?
            });
        }
        if v.is_empty() {
            return None;
        }
        let y = self.add(Op::UnionList, c, &v, &[])?;
        match self.r.below(5) {
            0 => self.looped(c, y),
            1 => self.add(Op::Compl, c, &[y], &[]),
            2 => {
                let z = self.arg(c);
                self.add(Op::Concat, c, &[y, z], &[])
            }
            _ => Some(y),
        }
    }

    /// many character sets next to each other / overlapping
    fn m_ranges(&mut self, c: Ctx) -> Option<u32> {
        if self.mode == Mode::Wide && self.r.pct(40) {
            return self.m_fan(c);
        }
        let m = match self.mode {
            Mode::Wide if self.w.cfg.k() > 50 => self.r.range(10, 70),
            Mode::Wide => self.r.range(3, 14),
            Mode::Big => self.r.range(2, 40),
            _ => self.r.range(2, 5),
        };
        let mut v = vec![];
        for _ in 0..m {
            let x = self.range(c)?;
            let x = if self.r.pct(40) {
                let l = self.r.idx(3);
                let t = if self.r.pct(50) { self.strlit(c, l)? } else { self.arg(c) };
                self.add(Op::Concat, c, &[x, t], &[])?
            } else {
                x
            };
            v.push(x);
        }
        let y = self.add(Op::UnionList, c, &v, &[])?;
        match self.r.below(5) {
            0 => self.looped(c, y),
            1 => self.add(Op::Compl, c, &[y], &[]),
            _ => Some(y),
        }
    }

    fn m_nullable_body(&mut self, c: Ctx) -> Option<u32> {
        let x = self.small(c, 5);
        let y = self.add(Op::Opt, c, &[x], &[])?;
        let y = if self.r.pct(50) {
            let z = self.range(c)?;
            let z = self.looped(c, z)?;
            if self.r.pct(50) {
                self.add(Op::Concat, c, &[y, z], &[])?
            } else {
                self.add(Op::Union, c, &[y, z], &[])?
            }
        } else {
            y
        };
        self.looped(c, y)
    }

    fn m_prefix_share(&mut self, c: Ctx) -> Option<u32> {
        let x = self.small(c, 6);
        let mut v = vec![];
        for _ in 0..self.r.range(2, 4) {
            let y = self.arg(c);
            if let Some(z) = self.add(Op::Concat, c, &[x, y], &[]) {
                v.push(z)
            }
        }
        let op = *self.r.pick(&[Op::UnionList, Op::InterList, Op::UnionList, Op::DiffList]);
        if v.is_empty() {
            return None;
        }
        self.add(op, c, &v, &[])
    }

    fn m_assoc(&mut self, c: Ctx) -> Option<u32> {
        let (x, y, z) = (self.small(c, 8), self.small(c, 8), self.small(c, 8));
        let op = *self.r.pick(&[Op::Concat, Op::Union, Op::Inter]);
        let xy = self.add(op, c, &[x, y], &[])?;
        let p = self.add(op, c, &[xy, z], &[])?;
        let yz = self.add(op, c, &[y, z], &[])?;
        let q = self.add(op, c, &[x, yz], &[])?;
        let o2 = *self.r.pick(&[Op::Union, Op::Inter, Op::Diff]);
        self.add(o2, c, &[p, q], &[])
    }

    fn m_distribute(&mut self, c: Ctx) -> Option<u32> {
        let (x, y, z) = (self.small(c, 8), self.small(c, 8), self.small(c, 8));
        let u = self.add(Op::Union, c, &[x, y], &[])?;
        if self.r.pct(50) {
            self.add(Op::Concat, c, &[u, z], &[])
        } else {
            let i = self.add(Op::Inter, c, &[u, z], &[])?;
            self.add(Op::Compl, c, &[i], &[])
        }
    }

    /// large loops
    fn m_pumping(&mut self, c: Ctx) -> Option<u32> {
        let x = self.range(c)?;
        let hi = match self.mode {
            Mode::Deep => 300,
            Mode::Big => 900,
            _ => 30,
        };
        let (i, j) = (self.r.range(0, hi), self.r.range(0, hi));
        let y = match self.r.below(4) {
            0 => self.add(Op::Exp, c, &[x], &[i])?,
            1 => self.add(Op::Loop, c, &[x], &[i.min(j), i.max(j)])?,
            2 if c.1 > 0 => self.add(Op::LoopInf, c, &[x], &[i])?,
            _ => self.add(Op::Loop, c, &[x], &[0, i])?,
        };
        let z = self.range(c)?;
        match self.r.below(4) {
            0 => self.add(Op::Concat, c, &[y, z], &[]),
            1 => self.add(Op::Concat, c, &[z, y], &[]),
            2 => self.add(Op::Compl, c, &[y], &[]),
            _ => Some(y),
        }
    }

    /// Sigma* a Sigma^n: the classical exponential one
    fn m_kth_from_end(&mut self, c: Ctx) -> Option<u32> {
        let s = self.add(Op::Const, c, &[], &[1])?;
        let x = self.range(c)?;
        let al = self.add(Op::Const, c, &[], &[4])?;
        let n = self.r.range(1, if self.mode == Mode::Deep { 7 } else { 4 });
        let e = self.add(Op::Exp, c, &[al], &[n])?;
        let y = self.add(Op::Concat, c, &[s, x], &[])?;
        self.add(Op::Concat, c, &[y, e], &[])
    }

    fn m_word_set(&mut self, c: Ctx) -> Option<u32> {
        let mut v = vec![];
        let (n, l) = match self.mode {
            Mode::Big => *self.r.pick(&[(4, 200), (10, 60), (40, 12), (70, 6)]),
            _ => (6, 4),
        };
        for _ in 0..self.r.range(2, n) {
            let l = self.r.idx(l + 1);
            v.push(self.strlit(c, l)?);
        }
        if self.r.pct(25) {
            for _ in 0..self.r.range(1, 3) {
                let d = self.dead(c)?;
                let x = if self.r.pct(70) { self.range(c)? } else { self.arg(c) };
                v.push(self.add(Op::Concat, c, &[x, d], &[])?);
            }
        }
        let y = self.add(Op::UnionList, c, &v, &[])?;
        if self.r.pct(30) {
            self.looped(c, y)
        } else {
            Some(y)
        }
    }

    /// terms whose exploration runs into an arithmetic overflow inside the crate: operations on
    /// them may be cut short by a panic, and everything else must go on unharmed
    fn m_overflow(&mut self, c: Ctx) -> Option<u32> {
        if self.r.pct(45) {
            return self.m_overflow_ctor(c);
        }
        let x = self.range(c)?;
        let i = self.r.range(0, 3);
        let t = self.add(Op::Loop, c, &[x], &[i, u32::MAX])?;
        let a = self.range(c)?;
        let ax = self.add(Op::Concat, c, &[a, x], &[])?;
        let d = self.range(c)?;
        let u = self.add(Op::Union, c, &[ax, d], &[])?;
        let y = self.add(Op::Concat, c, &[u, t], &[])?;
        if self.r.pct(40) {
            let z = self.add(Op::Loop, c, &[t], &[2, self.w.cfg.k() as u32 + 3]);
            if z.is_some() {
                return z;
            }
        }
        let y = if self.r.pct(50) {
            let b = self.range(c)?;
            self.add(Op::Concat, c, &[b, y], &[])?
        } else {
            y
        };
        if self.r.pct(60) {
            let b = self.block();
            let b2 = self.block();
            let _ = self.add(Op::StrDeriv, c, &[y], &[b, b2]);
        }
        self.add(Op::InRe, c, &[y], &[]);
        Some(y)
    }

    /// constructor calls whose loop bounds run past u32: they may abort, but must not wrap around
    fn m_overflow_ctor(&mut self, c: Ctx) -> Option<u32> {
        let x = if self.r.pct(60) { self.range(c)? } else { self.small(c, 6) };
        let near = u32::MAX - self.r.range(0, 6);
        let p = match self.r.below(4) {
            0 => self.add(Op::Exp, c, &[x], &[near])?,
            1 if c.1 != 0 => self.add(Op::LoopInf, c, &[x], &[near])?,
            2 => {
                let j = self.r.range(0, u32::MAX - near);
                self.add(Op::SmtLoop, c, &[x], &[near, near + j])?
            }
            _ => {
                let half = 1u32 << self.r.range(14, 18);
                let j = half + self.r.range(0, 1);
                self.add(Op::SmtLoop, c, &[x], &[half, j])?
            }
        };
        let small = {
            let i = self.r.range(0, 5);
            let j = i + self.r.range(0, 4);
            match self.r.below(3) {
                0 => Some(x),
                1 => self.add(Op::Exp, c, &[x], &[i]),
                _ => self.add(Op::SmtLoop, c, &[x], &[i, j]),
            }?
        };
        let y = match self.r.below(7) {
            0 => self.add(Op::Concat, c, &[p, x], &[]),
            1 => self.add(Op::Concat, c, &[x, p], &[]),
            2 => self.add(Op::Concat, c, &[p, small], &[]),
            3 => self.add(Op::Concat, c, &[small, p], &[]),
            4 => self.add(Op::Concat, c, &[p, p], &[]),
            5 => {
                let k = 1u32 << self.r.range(14, 18);
                self.add(Op::Exp, c, &[p], &[k])
            }
            _ => {
                let (i, j) = (self.r.range(1, 4), self.r.range(4, 9));
                self.add(Op::SmtLoop, c, &[p], &[i, j])
            }
        };
        let y = y.unwrap_or(p);
        self.add(Op::InRe, c, &[y], &[]);
        self.add(Op::Lang, c, &[y], &[]);
        Some(y)
    }

    /// a concatenation pattern v and a sequence u that (almost) matches it
    /// an expression, and terms put together from its own pieces: inclusions that nearly hold
    fn m_near(&mut self, c: Ctx) -> Option<u32> {
        let x = match self.r.below(4) {
            0 => self.leaf(c)?,
            1 => {
                let l = self.r.range(1, 2) as usize;
                self.strlit(c, l)?
            }
            2 => self.small(c, 6),
            _ => self.range(c)?,
        };
        let y = self.range(c)?;
        // pieces: terms that sit below or above each other
        let mut v = vec![x];
        let (i, j) = (self.r.range(0, 2), self.r.range(1, 3));
        let s = match self.r.below(8) {
            0..=2 => self.add(Op::Loop, c, &[x], &[i.min(j), j])?,
            3 => self.add(Op::Star, c, &[x], &[])?,
            4 => self.add(Op::Opt, c, &[x], &[])?,
            5 => self.add(Op::Union, c, &[x, y], &[])?,
            6 => {
                let z = self.add(Op::Star, c, &[y], &[])?;
                self.add(Op::Concat, c, &[x, z], &[])?
            }
            _ => {
                let z = self.add(Op::Union, c, &[x, y], &[])?;
                self.add(Op::Loop, c, &[z], &[i.min(j), j])?
            }
        };
        v.push(s);
        let all = self.add(Op::Const, c, &[], &[1])?;
        for _ in 0..self.r.range(2, 5) {
            let a = *self.r.pick(&v);
            let b = *self.r.pick(&v);
            let t = match self.r.below(11) {
                0 => {
                    let z = if self.r.pct(50) { x } else { y };
                    let z = self.add(Op::Concat, c, &[z, all], &[])?;
                    self.add(Op::Inter, c, &[a, z], &[])
                }
                1 => {
                    let z = self.arg(c);
                    self.add(Op::Inter, c, &[a, z], &[])
                }
                2 | 3 => self.add(Op::Concat, c, &[x, a], &[]),
                4 => self.add(Op::Concat, c, &[a, x], &[]),
                5 => self.add(Op::Concat, c, &[a, b], &[]),
                6 => self.add(Op::Union, c, &[a, b], &[]),
                7 => {
                    let (i, j) = (self.r.range(0, 2), self.r.range(1, 3));
                    self.add(Op::Loop, c, &[x], &[i.min(j), j])
                }
                8 => self.add(Op::Compl, c, &[a], &[]),
                9 => self.add(Op::Opt, c, &[a], &[]),
                _ => self.add(Op::Concat, c, &[y, a], &[]),
            };
            match t {
                Some(t) if !v.contains(&t) => v.push(t),
                _ => (),
            }
        }
        if self.prop == 16 {
            self.add(Op::InclAll, c, &v, &[]);
        }
        let k = v.len();
        let (a, b) = (v[k - 1], v[self.r.idx(k)]);
        if self.prop == 16 {
            let n = self.r.range(0, 1);
            self.add(Op::UnionLoss, c, &[a, b], &[n]);
        } else if self.r.pct(10) {
            self.add(Op::Incl, c, &[a, b], &[]);
        }
        self.add(Op::Union, c, &[a, b], &[])
    }

    fn m_pattern_pair(&mut self, c: Ctx) -> Option<u32> {
        #[derive(Clone, Copy)]
        enum At {
            R(u32, u32),
            S,            // Sigma*
            P,            // Sigma+
            L(u32, u32, u32, u32), // [lo,hi]^[i,j]
        }
        let k = self.w.cfg.k() as u32;
        let len = self.r.range(1, 6);
        let mut v = vec![];
        let mut last_s = false;
        let few = self.r.pct(50);
        let (fb, fe) = {
            let (x, y) = (self.block(), self.block());
            (x.min(y), x.max(y))
        };
        for _ in 0..len {
            let at = match self.r.below(10) {
                0..=4 => {
                    if few && self.r.pct(70) {
                        At::R(fb, fe)
                    } else {
                        let (x, y) = (self.block(), self.block());
                        At::R(x.min(y), x.max(y))
                    }
                }
                5..=8 if !last_s => At::S,
                9 => {
                    if self.r.pct(50) {
                        At::P
                    } else {
                        let (x, y) = (self.block(), self.block());
                        let (i, j) = (self.r.range(0, 2), self.r.range(1, 4));
                        At::L(x.min(y), x.max(y), i.min(j), i.max(j).max(1))
                    }
                }
                _ => At::R(0, k - 1),
            };
            last_s = matches!(at, At::S);
            v.push(at);
        }
        // u: instantiate v
        let mut u: Vec<At> = vec![];
        let mut sub = |r: &mut Rng, lo: u32, hi: u32| {
            let (x, y) = (r.range(lo, hi), r.range(lo, hi));
            if r.pct(50) {
                (lo, hi)
            } else {
                (x.min(y), x.max(y))
            }
        };
        for a in &v {
            match *a {
                At::R(lo, hi) => {
                    let (x, y) = sub(&mut self.r, lo, hi);
                    u.push(At::R(x, y))
                }
                At::S => {
                    for _ in 0..self.r.idx(4) {
                        let at = match self.r.below(6) {
                            0..=3 => {
                                let (x, y) = if few { sub(&mut self.r, fb, fe) } else { sub(&mut self.r, 0, k - 1) };
                                At::R(x, y)
                            }
                            4 => At::S,
                            _ => {
                                let (x, y) = sub(&mut self.r, 0, k - 1);
                                At::L(x, y, self.r.range(0, 2), self.r.range(2, 3))
                            }
                        };
                        u.push(at);
                    }
                }
                At::P => {
                    u.push(At::P);
                }
                At::L(lo, hi, i, j) => {
                    if self.r.pct(50) {
                        u.push(At::L(lo, hi, i, j));
                    } else {
                        for _ in 0..self.r.range(i, j) {
                            let (x, y) = sub(&mut self.r, lo, hi);
                            u.push(At::R(x, y));
                        }
                    }
                }
            }
        }
        // perturbation: near misses
        for _ in 0..self.r.idx(3) {
            if u.is_empty() {
                break;
            }
            let i = self.r.idx(u.len());
            match self.r.below(5) {
                0 => {
                    u.remove(i);
                }
                1 => {
                    let x = u[i];
                    u.insert(i, x);
                }
                2 => {
                    let (x, y) = (self.r.range(0, k - 1), self.r.range(0, k - 1));
                    u[i] = At::R(x.min(y), x.max(y));
                }
                3 => {
                    if let At::R(x, y) = u[i] {
                        u[i] = At::R(x.saturating_sub(1), (y + 1).min(k - 1));
                    }
                }
                _ => {
                    let j = self.r.idx(u.len());
                    u.swap(i, j);
                }
            }
        }
        let mut build = |g: &mut G, seq: &[At]| -> Option<u32> {
            let mut ids = vec![];
            for a in seq {
                ids.push(match *a {
                    At::R(lo, hi) => g.add(Op::Range, c, &[], &[lo, hi, 0])?,
                    At::S => g.add(Op::Const, c, &[], &[1])?,
                    At::P => g.add(Op::Const, c, &[], &[3])?,
                    At::L(lo, hi, i, j) => {
                        let x = g.add(Op::Range, c, &[], &[lo, hi, 0])?;
                        g.add(Op::Loop, c, &[x], &[i, j])?
                    }
                });
            }
            g.add(Op::ConcatList, c, &ids, &[])
        };
        let mut a = build(self, &u)?;
        let mut b = build(self, &v)?;
        // wrap
        match self.r.below(8) {
            0 => {
                let (x, y) = (self.add(Op::Compl, c, &[a], &[])?, self.add(Op::Compl, c, &[b], &[])?);
                a = y;
                b = x;
            }
            1 => {
                let z = self.arg(c);
                a = self.add(Op::Inter, c, &[a, z], &[])?;
            }
            2 => {
                let z = self.arg(c);
                b = self.add(Op::Union, c, &[b, z], &[])?;
            }
            3 => {
                let z = self.arg(c);
                a = self.add(Op::Union, c, &[a, z], &[])?;
            }
            4 => {
                let z = self.arg(c);
                b = self.add(Op::Inter, c, &[b, z], &[])?;
            }
            _ => (),
        }
        if self.prop == 16 {
            self.add(Op::InclAll, c, &[a, b], &[]);
        } else if self.r.pct(10) {
            self.add(Op::Incl, c, &[a, b], &[]);
        }
        match self.r.below(5) {
            0 => self.add(Op::Inter, c, &[a, b], &[]),
            1 => self.add(Op::Diff, c, &[a, b], &[]),
            _ => {
                let mut l = vec![a, b];
                for _ in 0..self.r.idx(3) {
                    l.push(self.arg(c));
                }
                if self.r.pct(50) {
                    l.reverse();
                }
                if self.prop == 16 {
                    let n = self.r.range(0, 1);
                    self.add(Op::UnionLoss, c, &l, &[n]);
                }
                self.add(Op::UnionList, c, &l, &[])
            }
        }
    }

    // ------------------------------------------------------------------ queries

    fn query(&mut self, c: Ctx, op: Op) -> Option<u32> {
        // often another question about the same term
        let a = match self.last_q {
            Some((d, a)) if d == c && self.r.pct(30) && self.w.terms.get(&a).map_or(false, |t| (t.th, t.mg) == c) => a,
            _ => self.arg(c),
        };
        self.last_q = Some((c, a));
        self.query_on(c, op, a)
    }

    fn query_on(&mut self, c: Ctx, op: Op, a: u32) -> Option<u32> {
        match op {
            Op::TryCompile => {
                let n = match self.r.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => u32::MAX,
                    3 => self.r.range(1, 5),
                    4 if matches!(self.mode, Mode::Deep | Mode::Big) => self.r.range(50, 1100),
                    _ => self.r.range(1, 60),
                };
                self.add(op, c, &[a], &[n])
            }
            Op::Incl => {
                let b = self.arg(c);
                self.add(op, c, &[a, b], &[])
            }
            Op::InclAll => {
                let mut v = vec![a];
                for _ in 0..self.r.range(2, 6) {
                    let x = self.arg(c);
                    if !v.contains(&x) {
                        v.push(x);
                    }
                }
                self.add(op, c, &v, &[])
            }
            Op::UnionLoss => {
                let mut v = vec![a];
                for _ in 0..self.r.range(1, 5) {
                    v.push(self.arg(c));
                }
                let n = self.r.range(0, 1);
                self.add(op, c, &v, &[n])
            }
            Op::IterCancel => {
                let n = self.r.range(0, 12);
                self.add(op, c, &[a], &[n])
            }
            Op::Reissue => {
                let n = self.r.range(0, 1);
                self.add(op, c, &[a], &[n])
            }
            _ => self.add(op, c, &[a], &[]),
        }
    }

    fn primaries(&self) -> &'static [Op] {
        match self.prop {
            1 => &[Op::Lang, Op::Lang, Op::InRe],
            2 => &[Op::Compile, Op::Compile, Op::TryCompile],
            3 => &[Op::Classes],
            4 | 14 => &[Op::AFromT],
            5 => &[Op::IsEmpty, Op::GetString],
            7 => &[Op::Reissue, Op::Reissue, Op::ComplInv, Op::Twin],
            10 => &[Op::Repl, Op::ReplAll],
            16 => &[Op::InclAll, Op::UnionLoss, Op::Incl],
            17 => &[Op::GetString],
            18 => &[Op::StartChar, Op::StartClass],
            19 => &[Op::Iter, Op::Iter, Op::TryCompile, Op::IterCancel],
            _ => &[],
        }
    }

    fn fault(&mut self, c: Ctx) {
        match self.r.below(20) {
            0..=4 => {
                let v = {
                    let mut v = self.list(c);
                    if v.is_empty() {
                        v.push(self.arg(c));
                    }
                    v
                };
                let (n, m) = (self.r.range(0, 3), self.r.range(0, 6));
                self.add(Op::PanicIter, c, &v, &[n, m]);
            }
            5..=7 => {
                if c.1 == 0 {
                    let a = self.arg(c);
                    let b = self.arg(c);
                    let (n, m) = (self.r.range(0, 3), self.r.range(0, 9));
                    self.add(Op::Reentrant, c, &[a, b], &[n, m]);
                } else {
                    self.query(c, Op::IterCancel);
                }
            }
            8..=11 => {
                let n = self.r.range(0, 4);
                let a = self.arg(c);
                self.add(Op::BadArg, c, &[a], &[n]);
            }
            12..=15 => {
                if c.1 != 0 {
                    self.query(c, Op::IterCancel);
                }
            }
            16 | 17 => {
                if c.1 != 0 {
                    self.query(c, Op::TryCompile);
                }
            }
            18 => {
                if self.r.pct(40) && c.1 != 0 {
                    self.add(Op::NewMgr, c, &[], &[]);
                }
            }
            _ => {
                if self.r.pct(35) && self.w.cfg.threads > 1 {
                    self.add(Op::ThreadRestart, c, &[], &[]);
                }
            }
        }
    }

    fn filler(&mut self, c: Ctx) -> Option<u32> {
        let count = match self.r.below(1000) {
            0..=2 => self.r.range(70_000, 140_000),
            3..=12 => self.r.range(5000, 40_000),
            13..=299 => self.r.range(300, 3000),
            _ => self.r.range(10, 300),
        };
        let kind = self.r.range(0, 7);
        self.add(Op::Filler, c, &[], &[kind, count])
    }

    /// one operation on a live automaton
    fn auto_op(&mut self) -> bool {
        let w = &self.w;
        self.autos.retain(|x| w.autos.contains_key(&x.0));
        for s in self.steps.iter().rev().take(3) {
            if matches!(s.op, Op::AGen | Op::AFromT) && w.autos.contains_key(&s.id) && !self.autos.contains(&(s.id, s.th)) {
                self.autos.push((s.id, s.th));
            }
        }
        if self.autos.is_empty() {
            return false;
        }
        let i = if self.r.pct(60) { self.autos.len() - 1 } else { self.r.idx(self.autos.len()) };
        let (id, th) = self.autos[i];
        let c = (th, 1);
        let main = if self.prop == 4 { 45 } else { 15 };
        let (op, n) = match self.r.below(100) {
            x if x < main => (Op::AMin, vec![]),
            x if x < 60 => (Op::AAudit, vec![]),
            x if x < 86 => (Op::APrune, vec![]),
            x if x < 95 => (Op::ACancel, vec![self.r.range(0, 40)]),
            _ => (Op::ADrop, vec![]),
        };
        self.add(op, c, &[id], &n);
        if op == Op::ADrop {
            self.autos.remove(i);
        }
        true
    }

    fn agen(&mut self, c: Ctx) {
        let r = &mut self.r;
        let shape = r.range(0, 9);
        let m = match r.below(20) {
            0 => 1,
            1..=8 => r.range(2, 8),
            9..=15 => r.range(5, 30),
            16..=18 => r.range(20, 80),
            _ => r.range(60, 200),
        };
        let k = match r.below(20) {
            0 => 1,
            1..=11 => r.range(2, 5),
            12..=17 => r.range(4, 14),
            _ => r.range(12, 50),
        };
        let (m, k) = if m * k > 3000 { (m, 3000 / m) } else { (m, k) };
        let copies = if m > 80 { r.range(1, 2) } else { *r.pick(&[1, 1, 2, 2, 3, 5]) };
        let extra = if r.pct(45) { 0 } else { r.range(1, 8.max(m / 3)) };
        let key = r.range(0, 2);
        let mode = (r.pct(50) as u32) | (r.pct(15) as u32) << 1 | (r.pct(10) as u32) << 2 | (r.pct(8) as u32) << 3;
        if let Some(id) = self.add(Op::AGen, c, &[], &[shape, m, k, copies, extra, key, mode]) {
            self.autos.push((id, c.0));
        }
    }

    fn run_autos(&mut self) {
        let target = self.r.range(6, 40) as usize;
        let maxlive = self.r.range(1, 5) as usize;
        let mut guard = 0;
        while self.steps.len() < target && guard < target * 4 {
            guard += 1;
            let c = *self.r.pick(&self.ctxs.clone());
            if self.autos.is_empty() || (self.autos.len() < maxlive && self.r.pct(20)) {
                self.agen(c);
            } else if self.faults && self.r.pct(2) {
                self.add(Op::ThreadRestart, c, &[], &[]);
            } else {
                self.auto_op();
            }
        }
        for (id, th) in self.autos.clone() {
            for op in [Op::AMin, Op::APrune, Op::AAudit, Op::AMin] {
                if self.r.pct(60) {
                    self.add(op, (th, 1), &[id], &[]);
                }
            }
        }
    }

    fn code_point(&mut self) -> u32 {
        const OUT: &[u32] = &[0x30000, 0x30001, 0x2ffff + 0x10000, 0x10ffff, 0x110000, 0xe0000, 0x80000000, 0xffffffff, 0x40000, 0xf0000];
        let r = &mut self.r;
        match r.below(10) {
            0 if self.faults => *r.pick(OUT),
            1 | 2 => *r.pick(SPECIAL),
            3 => r.range(0, MAX_CHAR),
            4 if self.faults => {
                let k = r.range(0, 13);
                r.range(0, 0xffffffff) >> k
            }
            _ => {
                let b = r.idx(self.w.cfg.k());
                let sel = r.next();
                self.w.cfg.pick(b, sel)
            }
        }
    }

    /// text with escapes of all degrees of completeness
    fn literal(&mut self) -> Vec<u32> {
        let mut v: Vec<u32> = vec![];
        for _ in 0..self.r.range(0, 6) {
            let x = match self.r.below(5) {
                0 => *self.r.pick(&[0x2ffffu32, 0x30000, 0xfffff, 0x2fffe, 0xffff, 0x10000, 0x110000, 0xffffff, 0]),
                1 => self.r.range(0, 0xffff),
                _ => self.r.range(0, 0x3ffff),
            };
            let width = self.r.range(1, 8) as usize;
            let p: String = match self.r.below(10) {
                0..=2 => format!("\\u{{{x:x}}}"),
                3 => format!("\\u{{{x:0width$x}}}"),
                4 => format!("\\u{{{x:X}"),
                5 => format!("\\u{:04x}", x & 0xffff),
                6 => format!("\\u{x:x}"),
                7 => "\\".into(),
                8 => "\\u".into(),
                _ => {
                    let c = self.code_point();
                    v.push(c);
                    continue;
                }
            };
            let cut = if self.r.pct(20) { self.r.idx(p.len() + 1) } else { p.len() };
            v.extend(p[..cut].chars().map(|c| c as u32));
        }
        v
    }

    fn str_op(&mut self, c: Ctx) {
        let live: Vec<u32> = self.w.strs.iter().filter(|x| *x.1 == c.0).map(|x| *x.0).collect();
        let what = if live.is_empty() { 0 } else { self.r.below(100) };
        let some = |g: &mut Self| {
            if g.r.pct(50) {
                live[live.len() - 1 - g.r.idx(live.len().min(4))]
            } else {
                *g.r.pick(&live)
            }
        };
        match what {
            0..=29 => {
                let kind = self.r.range(0, 9);
                let len = match self.r.below(20) {
                    0 => 0,
                    1 => self.r.range(10, 300),
                    2..=5 => self.r.range(3, 12),
                    _ => self.r.range(1, 5),
                };
                let mut n = vec![kind];
                if kind == 7 {
                    n.extend(self.literal());
                } else if kind == 9 && self.r.pct(70) {
                    n.push(self.r.range(0, 0xffffffff) >> self.r.range(0, 31));
                } else {
                    for _ in 0..len {
                        let x = self.code_point();
                        n.push(x);
                    }
                }
                self.add(Op::SNew, c, &[], &n);
            }
            30..=59 => {
                let a = vec![some(self), some(self), some(self)];
                let kind = self.r.range(0, 8);
                let mut num = |g: &mut Self| match g.r.below(6) {
                    0 => *g.r.pick(&[0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe]),
                    1 => g.r.range(0, 0xffffffff),
                    _ => g.r.range(0, 9),
                };
                let n = vec![kind, num(self), num(self)];
                self.add(Op::SOp, c, &a, &n);
            }
            60..=71 if c.1 != 0 => {
                let t = self.arg(c);
                self.add(Op::SGet, c, &[t], &[]);
            }
            60..=71 => {
                let t = self.arg(c);
                let a = vec![t, some(self), some(self)];
                let n = self.r.range(0, 1);
                self.add(Op::SRepl, c, &a, &[n]);
            }
            72..=95 => {
                let a = vec![some(self), some(self)];
                self.add(Op::SUse, c, &a, &[]);
            }
            _ => {
                let x = some(self);
                self.add(Op::SDrop, c, &[x], &[]);
            }
        }
    }

    /// intervals in ascending order, from `from` on; `tight` = how often they touch
    fn intervals(&mut self, m: usize, from: u32) -> Vec<(u32, u32)> {
        let pool = self.pool.clone();
        let r = &mut self.r;
        let mut pts: Vec<u32> = vec![];
        let spread = *r.pick(&[0u32, 1, 2]);
        let base = if r.pct(60) && !pool.is_empty() { pool[0] } else { *r.pick(SPECIAL) };
        let shared = r.pct(40) && !pool.is_empty();
        while pts.len() < 2 * m {
            let c = match spread {
                _ if shared && r.pct(80) => (*r.pick(&pool)).saturating_add(r.range(0, 2)).saturating_sub(1),
                0 if r.pct(70) => *r.pick(SPECIAL),
                1 => base.saturating_sub(m as u32).saturating_add(r.range(0, 6 * m as u32 + 4)),
                _ => r.range(0, MAX_CHAR),
            };
            pts.push(c.clamp(from, MAX_CHAR));
        }
        pts.sort();
        let tight = *r.pick(&[0u32, 20, 60, 100]);
        let mut v: Vec<(u32, u32)> = vec![];
        for c in pts.chunks(2) {
            let (mut lo, mut hi) = (c[0], c[1]);
            if r.pct(15) {
                hi = lo;
            }
            if let Some(l) = v.last() {
                if l.1 >= MAX_CHAR {
                    break;
                }
                if lo <= l.1 || r.pct(tight) {
                    lo = l.1 + 1;
                }
                hi = hi.max(lo);
            } else if r.pct(25) {
                lo = from;
            }
            v.push((lo, hi));
        }
        if r.pct(25) {
            if let Some(l) = v.last_mut() {
                l.1 = MAX_CHAR;
            }
        }
        v
    }

    fn run_parts(&mut self) {
        let target = self.r.range(8, 45) as usize;
        let maxlive = self.r.range(2, 8) as usize;
        // borders that the partitions of this run tend to share
        for _ in 0..self.r.range(2, 14) {
            let c = if self.r.pct(50) { *self.r.pick(SPECIAL) } else { self.r.range(0, MAX_CHAR) };
            self.pool.push(c);
        }
        let mut guard = 0;
        while self.steps.len() < target && guard < target * 4 {
            guard += 1;
            let c = *self.r.pick(&self.ctxs.clone());
            let live: Vec<u32> = self.w.parts.iter().filter(|x| x.1 .0 == c.0).map(|x| *x.0).collect();
            let mut what = if live.is_empty() { 0 } else { self.r.below(100) };
            if self.prop == 12 && live.len() > 1 && self.r.pct(35) {
                what = 60;
            }
            match what {
                0..=24 if self.r.below(1200) == 0 => {
                    // very many intervals
                    let vast = self.r.pct(5);
                    let m = if vast { self.r.range(65_530, 70_000) } else { self.r.range(500, 9000) };
                    let step = if vast { self.r.range(1, 2) } else { self.r.range(1, (MAX_CHAR / m).min(40)) };
                    let first = if self.r.pct(50) { 0 } else { self.r.range(0, MAX_CHAR - step * m) };
                    let width = self.r.range(0, step - 1);
                    let kind = crate::parts::GRID + *self.r.pick(&[0, 1, 3, 4, 5]);
                    let mut n = vec![kind, first, step, width, m, self.r.range(0, 3)];
                    if self.r.pct(15) {
                        n.extend([self.r.range(1, m), self.r.range(1, step)]);
                    }
                    self.add(Op::PNew, c, &[], &n);
                }
                0..=24 => {
                    let m = match self.r.below(20) {
                        0 => 0,
                        1..=12 => self.r.range(1, 6),
                        13..=17 => self.r.range(4, 30),
                        18 => self.r.range(20, 120),
                        _ => self.r.range(100, 700),
                    } as usize;
                    let mut v = self.intervals(m, 0);
                    let kind = self.r.range(0, 5);
                    if self.r.pct(25) && v.len() > 1 {
                        // make two of them meet
                        let i = self.r.idx(v.len() - 1);
                        match self.r.below(5) {
                            0 => v[i].1 = v[i + 1].0,
                            1 => v[i].1 = v[i + 1].1,
                            2 => v[i + 1] = v[i],
                            3 => {
                                let j = self.r.idx(v.len());
                                v[i].1 = v[j].1.max(v[i].0);
                            }
                            _ => v[i + 1].0 = v[i].1,
                        }
                    }
                    let l = v.len();
                    if self.r.pct(75) {
                        for i in (1..l).rev() {
                            let j = self.r.idx(i + 1);
                            v.swap(i, j);
                        }
                    }
                    let mut n = vec![kind];
                    n.extend(v.iter().flat_map(|x| [x.0, x.1]));
                    self.add(Op::PNew, c, &[], &n);
                }
                25..=54 => {
                    let x = if self.r.pct(60) { live[live.len() - 1] } else { *self.r.pick(&live) };
                    let from = match self.w.parts[&x].1 {
                        Some(MAX_CHAR) => continue,
                        Some(l) => l + 1,
                        None => 0,
                    };
                    let m = if self.r.pct(80) { 1 } else { self.r.range(1, 12) } as usize;
                    let mut v = self.intervals(m, from);
                    if self.r.pct(35) && !v.is_empty() {
                        v[0].0 = from;
                    }
                    if self.r.pct(60) {
                        // keep room for more
                        let room = MAX_CHAR - from;
                        for x in v.iter_mut() {
                            let y = (x.0, x.1.min(x.0 + (x.1 - x.0).min(room / 50)));
                            *x = y;
                        }
                    }
                    let n: Vec<u32> = v.iter().flat_map(|x| [x.0, x.1]).collect();
                    self.add(Op::PPush, c, &[x], &n);
                }
                55..=72 => {
                    let m = *self.r.pick(&[2, 2, 2, 2, 2, 2, 1, 3, 5, 0, 12]);
                    let a: Vec<u32> = (0..m).map(|_| *self.r.pick(&live)).collect();
                    let n = if self.faults && self.r.pct(15) { vec![self.r.range(0, m)] } else { vec![] };
                    self.add(Op::PMerge, c, &a, &n);
                }
                73..=80 => {
                    let x = *self.r.pick(&live);
                    self.add(Op::PClone, c, &[x], &[]);
                }
                81..=92 => {
                    let x = *self.r.pick(&live);
                    self.add(Op::PAudit, c, &[x], &[]);
                }
                _ if self.faults && self.r.pct(10) => {
                    self.add(Op::ThreadRestart, c, &[], &[]);
                }
                _ => {
                    if live.len() > maxlive {
                        let x = *self.r.pick(&live);
                        self.add(Op::PDrop, c, &[x], &[]);
                    }
                }
            }
        }
        let live: Vec<(u32, u8)> = self.w.parts.iter().map(|x| (*x.0, x.1 .0)).collect();
        for (x, th) in live {
            if self.r.pct(70) {
                self.add(Op::PAudit, (th, 1), &[x], &[]);
            }
        }
    }

    fn run(&mut self) {
        let target = match self.mode {
            Mode::Normal => self.r.range(25, 110),
            Mode::Wide => self.r.range(15, 60),
            Mode::Deep => self.r.range(15, 60),
            Mode::Big => self.r.range(12, 45),
        } as usize;
        let filler_run = self.r.pct(if self.prop == 16 { 20 } else { 12 });
        let filler_at = if filler_run { self.r.idx(target) } else { usize::MAX };
        let mut filler_done = false;
        let mut fillers = vec![];
        let primaries = self.primaries();
        // per-run weights: constructors, motifs, derivatives, primary, secondary, faults
        let mut wt = [
            self.r.range(15, 45),
            self.r.range(10, 30),
            self.r.range(0, 20),
            self.r.range(4, 30),
            self.r.range(0, 15),
            if self.faults { self.r.range(1, 12) } else { 0 },
        ];
        if self.preempt_pct == 80 {
            wt[3] += 30;
        }
        let sticky = self.r.range(30, 90);
        let mut c = self.ctxs[0];
        let mut guard = 0;
        while self.steps.len() < target && guard < target * 6 {
            guard += 1;
            if !self.r.pct(sticky) {
                c = *self.r.pick(&self.ctxs.clone());
            }
            // after a preemption point another thread should go on
            if let Some(l) = self.steps.last() {
                if l.pre != 0 && l.th == c.0 && self.ctxs.iter().any(|x| x.0 != c.0) {
                    let op = l.op;
                    let o: Vec<Ctx> = self.ctxs.iter().copied().filter(|x| x.0 != l.th).collect();
                    c = *self.r.pick(&o);
                    // ... and often do the same thing at the same time
                    if self.pool(c).len() >= 3 && primaries.contains(&op) && self.r.pct(50) {
                        self.query(c, op);
                        continue;
                    }
                }
            }
            if self.steps.len() >= filler_at && !filler_done {
                filler_done = true;
                if let Some(f) = self.filler(c) {
                    fillers.push((f, c));
                }
            }
            if self.pool(c).len() < 3 {
                self.leaf(c);
                continue;
            }
            match self.r.weighted(&wt) {
                0 => {
                    if self.r.pct(20) {
                        self.leaf(c);
                    } else if let Some(x) = self.combine(c) {
                        if self.r.pct(8) {
                            self.reused.push(x);
                        }
                    }
                }
                1 => {
                    self.motif(c);
                }
                2 => {
                    if self.deriv(c).is_none() {
                        self.combine(c);
                    }
                }
                3 => {
                    if matches!(self.prop, 4 | 14) && self.r.pct(75) && self.auto_op() {
                        continue;
                    }
                    if self.prop == 17 {
                        for _ in 0..self.r.range(1, 4) {
                            self.str_op(c);
                        }
                        continue;
                    }
                    let op = *self.r.pick(primaries);
                    if self.query(c, op).is_none() {
                        self.query(c, op);
                    }
                    if self.prop == 7 && self.r.pct(15) {
                        self.add(Op::EqAudit, c, &[], &[]);
                    }
                }
                4 => {
                    let op = *self.r.pick(&[
                        Op::InRe,
                        Op::Lang,
                        Op::Compile,
                        Op::TryCompile,
                        Op::IsEmpty,
                        Op::GetString,
                        Op::StartChar,
                        Op::StartClass,
                        Op::Incl,
                        Op::Iter,
                        Op::IterCancel,
                        Op::Classes,
                        Op::Repl,
                        Op::ReplAll,
                        Op::Reissue,
                        Op::ComplInv,
                        Op::Show,
                        Op::EqAudit,
                    ]);
                    self.query(c, op);
                }
                _ => self.fault(c),
            }
        }
        // final audit: everything still alive is asked again
        let ctxs = self.ctxs.clone();
        for c in ctxs {
            let mut v: Vec<u32> = self.pool(c).to_vec();
            let cap = match self.prop {
                7 => 30,
                1 | 16 => 14,
                10 => 10,
                _ => 8,
            };
            while v.len() > cap {
                let i = if self.r.pct(70) { self.r.idx(v.len() / 2 + 1) } else { self.r.idx(v.len()) };
                v.remove(i);
            }
            for x in v {
                if self.prop == 7 {
                    self.query_on(c, Op::Reissue, x);
                    if self.r.pct(30) {
                        self.query_on(c, Op::Twin, x);
                    }
                    if self.r.pct(30) {
                        self.query_on(c, Op::ComplInv, x);
                    }
                } else if self.prop == 17 {
                    self.str_op(c);
                } else {
                    let op = if self.prop == 1 { Op::Lang } else { *self.r.pick(primaries) };
                    self.query_on(c, op, x);
                    if op == Op::AFromT {
                        for _ in 0..3 {
                            self.auto_op();
                        }
                    }
                }
            }
            if self.prop == 7 {
                self.add(Op::EqAudit, c, &[], &[]);
            }
        }
        for (f, c) in fillers {
            let n = self.r.range(10, 40);
            self.add(Op::FillerAudit, c, &[f], &[n]);
        }
    }
}

// ---------------------------------------------------------------------- automaton builder runs

fn gen_builder(mut r: Rng, _seed: u64) -> (Plan, Vec<Ann>) {
    let threads = if r.pct(70) { 1 } else { 2 };
    let cfg = Cfg {
        prop: 13,
        cuts: vec![0],
        threads,
        raw_cap: 10,
        cap: 10,
        hash_seed: r.next(),
        label: "Builder".into(),
    };
    let mut w = World::new(&cfg);
    let mut steps: Vec<Step> = vec![];
    let mut anns: Vec<Ann> = vec![];
    let mut next = 1u32;
    let preempt = if threads > 1 { *r.pick(&[0, 10, 30]) } else { 0 };

    struct Sp {
        id: u32,
        th: u8,
        states: Vec<u32>,
        trans: Vec<(u32, u32, u32, u32)>,
        defs: Map<u32, u32>,
        points: Vec<u32>,
        complete: bool,
        maxst: u32,
    }
    let mut sps: Vec<Sp> = vec![];
    macro_rules! add {
        ($th:expr, $op:expr, $a:expr, $n:expr) => {{
            let mut s = Step {
                id: next,
                th: $th,
                mg: 1,
                op: $op,
                a: $a,
                n: $n,
                salt: r.next() >> 16,
                pre: 0,
                prelen: 0,
            };
            if preempt > 0 && r.pct(preempt) {
                s.pre = r.range(1, 40);
                s.prelen = r.range(1, 3);
            }
            match w.apply(&s) {
                Some(a) => {
                    steps.push(s);
                    anns.push(a);
                    next += 1;
                    Some(next - 1)
                }
                None => None,
            }
        }};
    }
    let big = r.pct(8);
    let nb = if big { 1 } else { r.range(1, 4) };
    let target = match r.below(20) {
        0..=12 => r.range(8, 50),
        13..=17 => r.range(40, 120),
        _ => r.range(100, 300),
    } as usize;
    for _ in 0..nb {
        let th = r.idx(threads as usize) as u8;
        let init = r.range(0, 3);
        let key = r.range(0, 2);
        if let Some(id) = add!(th, Op::BNew, vec![], vec![key, init]) {
            let np = match r.below(10) {
                0..=5 => r.range(2, 5),
                6..=8 => r.range(4, 10),
                _ => r.range(10, 40),
            };
            let mut points: Vec<u32> = (0..np)
                .map(|_| if r.pct(60) { *r.pick(SPECIAL) } else { r.range(0, MAX_CHAR) })
                .collect();
            points.push(0);
            points.sort();
            points.dedup();
            let maxst = match r.below(10) {
                0..=6 => r.range(2, 6),
                7..=8 => r.range(5, 14),
                _ => r.range(14, 60),
            };
            let complete = r.pct(55);
            sps.push(Sp {
                id,
                th,
                states: vec![init],
                trans: vec![],
                defs: Map::default(),
                points,
                complete,
                maxst,
            });
        }
    }
    // characters of state s not covered by its transitions
    fn uncovered(sp: &Sp, s: u32) -> Vec<(u32, u32)> {
        let iv: Vec<(u32, u32)> = sp.trans.iter().filter(|t| t.0 == s).map(|t| (t.1, t.2)).collect();
        crate::exec::gaps(&iv)
    }
    fn conflicts(sp: &Sp, s: u32, lo: u32, hi: u32, t: u32) -> bool {
        sp.trans.iter().any(|x| x.0 == s && x.1 <= hi && lo <= x.2 && x.3 != t)
    }
    let mut guard = 0;
    while steps.len() < target && guard < target * 5 && !sps.is_empty() {
        guard += 1;
        let i = r.idx(sps.len());
        let sp = &mut sps[i];
        let maxst = sp.maxst;
        let st = |r: &mut Rng, sp: &Sp| -> u32 {
            if r.pct(60) {
                *r.pick(&sp.states)
            } else {
                r.range(0, maxst)
            }
        };
        let note = |sp: &mut Sp, s: u32| {
            if !sp.states.contains(&s) {
                sp.states.push(s)
            }
        };
        match r.below(100) {
            0..=54 => {
                let s = st(&mut r, sp);
                let t = st(&mut r, sp);
                let (mut lo, mut hi) = {
                    let a = r.idx(sp.points.len());
                    let lo = sp.points[a];
                    let b = (a + 1 + r.idx(3)).min(sp.points.len());
                    let hi = if b < sp.points.len() { sp.points[b] - 1 } else { MAX_CHAR };
                    (lo, hi)
                };
                match r.below(12) {
                    0 => hi = lo,
                    1 => lo = hi,
                    2 => hi = (hi + 1).min(MAX_CHAR),
                    3 => lo = lo.saturating_sub(1),
                    4 => {
                        // exactly one uncovered gap
                        let u = uncovered(sp, s);
                        if !u.is_empty() {
                            let g = *r.pick(&u);
                            lo = g.0;
                            hi = g.1;
                        }
                    }
                    5 => {
                        // repeat or overlap an existing label
                        if let Some(x) = sp.trans.iter().find(|x| x.0 == s) {
                            lo = x.1;
                            hi = if r.pct(50) { x.2 } else { hi.max(lo) };
                        }
                    }
                    _ => (),
                }
                if lo > hi {
                    std::mem::swap(&mut lo, &mut hi);
                }
                let mut t = t;
                if conflicts(sp, s, lo, hi, t) && r.pct(if sp.complete { 99 } else { 90 }) {
                    if r.pct(25) {
                        // same-target overlap instead
                        let cand: Vec<u32> = sp
                            .trans
                            .iter()
                            .filter(|x| x.0 == s && x.1 <= hi && lo <= x.2)
                            .map(|x| x.3)
                            .collect();
                        t = cand[0];
                        if conflicts(sp, s, lo, hi, t) {
                            continue;
                        }
                    } else {
                        continue;
                    }
                }
                if add!(sp.th, Op::BTrans, vec![sp.id], vec![s, lo, hi, t]).is_some() {
                    sp.trans.push((s, lo, hi, t));
                    note(sp, s);
                    note(sp, t);
                }
            }
            55..=66 => {
                let s = st(&mut r, sp);
                let t = st(&mut r, sp);
                // mostly where needed
                if uncovered(sp, s).is_empty() && !r.pct(10) {
                    continue;
                }
                if add!(sp.th, Op::BDef, vec![sp.id], vec![s, t]).is_some() {
                    sp.defs.insert(s, t);
                    note(sp, s);
                    note(sp, t);
                }
            }
            67..=74 => {
                let s = st(&mut r, sp);
                if add!(sp.th, Op::BFinal, vec![sp.id], vec![s]).is_some() {
                    note(sp, s);
                }
            }
            75..=84 => {
                // repair: complete every state (by default or by filling the gaps), then build
                let states = sp.states.clone();
                let mut all = true;
                for s in states {
                    let u = uncovered(sp, s);
                    if u.is_empty() || sp.defs.contains_key(&s) {
                        continue;
                    }
                    if r.pct(6) {
                        all = false;
                        continue;
                    }
                    let t = *r.pick(&sp.states.clone());
                    if r.pct(60) || u.len() > 4 {
                        if add!(sp.th, Op::BDef, vec![sp.id], vec![s, t]).is_some() {
                            sp.defs.insert(s, t);
                        }
                    } else {
                        for (lo, hi) in u {
                            let t = *r.pick(&sp.states.clone());
                            if r.pct(3) {
                                all = false;
                                continue;
                            }
                            if add!(sp.th, Op::BTrans, vec![sp.id], vec![s, lo, hi, t]).is_some() {
                                sp.trans.push((s, lo, hi, t));
                            }
                        }
                    }
                }
                let _ = all;
                add!(sp.th, Op::BBuild, vec![sp.id], vec![]);
            }
            85 | 86 => {
                // unchecked build of whatever is there: may panic half way, must leave no trace
                add!(sp.th, Op::BBuildU, vec![sp.id], vec![]);
            }
            _ => {
                add!(sp.th, Op::BBuild, vec![sp.id], vec![]);
                if r.pct(20) {
                    add!(sp.th, Op::BBuild, vec![sp.id], vec![]);
                }
            }
        }
        if big && r.pct(8) && sps[i].states.len() < 1500 {
            let sp = &mut sps[i];
            let kind = r.range(0, 3);
            let k = *r.pick(&[20, 60, 128, 200, 255, 256, 257, 300, 300, 520, 700]) + r.range(0, 3);
            let s0 = if r.pct(40) { *r.pick(&sp.states) } else { 10_000 * r.range(1, 9) };
            let nn = vec![kind, s0, k, if r.pct(60) { *r.pick(SPECIAL) } else { r.range(0, MAX_CHAR) }, r.range(0, 3000)];
            let (tr, df) = crate::builder::bulk(&nn);
            let clash = tr.iter().any(|x| sp.trans.iter().any(|y| y.0 == x.0 && y.1 <= x.2 && x.1 <= y.2 && y.3 != x.3))
                || df.iter().any(|x| uncovered(sp, x.0).is_empty());
            if !(clash && r.pct(95)) && add!(sp.th, Op::BBulk, vec![sp.id], nn).is_some() {
                for (a, b) in tr.iter().map(|x| (x.0, x.3)).chain(df.iter().copied()) {
                    if !sp.states.contains(&a) {
                        sp.states.push(a);
                    }
                    if !sp.states.contains(&b) {
                        sp.states.push(b);
                    }
                }
                sp.trans.extend(tr);
                sp.defs.extend(df);
            }
        }
        if r.below(200) == 0 {
            add!(0, Op::BadArg, vec![], vec![0]);
        }
    }
    // finally: complete everything that is conflict free and build once more
    for sp in sps.iter_mut() {
        let states = sp.states.clone();
        for s in states {
            if !uncovered(sp, s).is_empty() && !sp.defs.contains_key(&s) {
                let t = *r.pick(&sp.states.clone());
                if add!(sp.th, Op::BDef, vec![sp.id], vec![s, t]).is_some() {
                    sp.defs.insert(s, t);
                }
            }
        }
        add!(sp.th, Op::BBuild, vec![sp.id], vec![]);
    }
    (Plan { cfg, steps }, anns)
}
