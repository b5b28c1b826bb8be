//! Reference model: languages over the run's alphabet blocks as canonical minimal complete DFAs.
//!
//! Built bottom-up by textbook subset/product constructions; never uses derivatives, never uses
//! the crate under test.

use crate::prng::{Map, Rng, Set};
use std::sync::Arc;

pub type DfaId = u32;

/// canonical minimal complete DFA: start state 0, states numbered in BFS order
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Dfa {
    pub k: u16,
    pub fin: Vec<bool>,
    pub tr: Vec<u16>,
}

impl Dfa {
    pub fn n(&self) -> usize {
        self.fin.len()
    }
    pub fn next(&self, s: usize, b: usize) -> usize {
        self.tr[s * self.k as usize + b] as usize
    }
    pub fn run(&self, s: usize, w: &[u8]) -> usize {
        w.iter().fold(s, |q, b| self.next(q, *b as usize))
    }
    pub fn accepts(&self, w: &[u8]) -> bool {
        self.fin[self.run(0, w)]
    }
    pub fn is_empty(&self) -> bool {
        self.n() == 1 && !self.fin[0]
    }
    pub fn is_full(&self) -> bool {
        self.n() == 1 && self.fin[0]
    }
    /// is the state dead (no final state reachable)?  In a minimal DFA that is the unique
    /// non-final sink.
    pub fn dead(&self, s: usize) -> bool {
        !self.fin[s] && (0..self.k as usize).all(|b| self.next(s, b) == s)
    }

    /// shortest access word of every state
    pub fn access(&self) -> Vec<Vec<u8>> {
        let n = self.n();
        let mut acc: Vec<Option<Vec<u8>>> = vec![None; n];
        acc[0] = Some(vec![]);
        let mut queue = vec![0usize];
        let mut i = 0;
        while i < queue.len() {
            let s = queue[i];
            i += 1;
            for b in 0..self.k as usize {
                let t = self.next(s, b);
                if acc[t].is_none() {
                    let mut w = acc[s].clone().unwrap();
                    w.push(b as u8);
                    acc[t] = Some(w);
                    queue.push(t);
                }
            }
        }
        acc.into_iter().map(|x| x.unwrap()).collect()
    }

    /// set of words that pairwise distinguish all states (contains the empty word)
    pub fn distinguishing(&self, cap: usize) -> Vec<Vec<u8>> {
        // partition refinement; each split is witnessed by letter + previous witness
        let n = self.n();
        let k = self.k as usize;
        let mut words: Vec<Vec<u8>> = vec![vec![]];
        let mut class: Vec<u32> = self.fin.iter().map(|f| *f as u32).collect();
        loop {
            // signature of a state under current words
            let ncls = count_distinct(&class);
            if ncls == n || words.len() >= cap {
                return words;
            }
            // find two states in same class that are separated by letter + existing word
            let mut found = None;
            'search: for b in 0..k {
                for wi in 0..words.len() {
                    let mut rep: Map<u32, bool> = Map::default();
                    for s in 0..n {
                        let v = self.fin[self.run(self.next(s, b), &words[wi])];
                        match rep.get(&class[s]) {
                            None => {
                                rep.insert(class[s], v);
                            }
                            Some(x) if *x != v => {
                                found = Some((b, wi));
                                break 'search;
                            }
                            _ => (),
                        }
                    }
                }
            }
            match found {
                None => return words,
                Some((b, wi)) => {
                    let mut w = vec![b as u8];
                    w.extend_from_slice(&words[wi]);
                    let mut m: Map<(u32, bool), u32> = Map::default();
                    let mut cl2 = Vec::with_capacity(n);
                    for s in 0..n {
                        let v = self.fin[self.run(s, &w)];
                        let l = m.len() as u32;
                        cl2.push(*m.entry((class[s], v)).or_insert(l));
                    }
                    class = cl2;
                    words.push(w);
                }
            }
        }
    }

    /// W-method style suite, sampled down to at most `max` words
    pub fn suite(&self, rng: &mut Rng, max: usize) -> Vec<Vec<u8>> {
        let k = self.k as usize;
        let mut out: Vec<Vec<u8>> = Vec::new();
        let mut seen: Set<Vec<u8>> = Set::default();
        let acc = self.access();
        let n = self.n();
        let mut all: Vec<Vec<u8>> = Vec::new();
        if n * (k + 1) <= 4 * max {
            let dist = self.distinguishing(24);
            for a in &acc {
                for m in 0..=k {
                    for d in &dist {
                        let mut w = a.clone();
                        if m > 0 {
                            w.push((m - 1) as u8);
                        }
                        w.extend_from_slice(d);
                        all.push(w);
                    }
                    if all.len() > 12 * max {
                        break;
                    }
                }
            }
        } else {
            for _ in 0..max {
                let a = rng.pick(&acc);
                let mut w = a.clone();
                for _ in 0..rng.below(4) {
                    w.push(rng.below(k as u64) as u8);
                }
                all.push(w);
            }
        }
        let (det, rnd) = (max * 2 / 3, max / 3);
        if all.len() > det {
            for i in 0..det {
                let j = i + rng.idx(all.len() - i);
                all.swap(i, j);
            }
            all.truncate(det);
        }
        for w in all {
            if seen.insert(w.clone()) {
                out.push(w);
            }
        }
        // random words, steered away from the dead state most of the time
        for _ in 0..rnd {
            let len = match rng.below(4) {
                0 => rng.below(4),
                1 => rng.below(8),
                2 => rng.below(14),
                _ => rng.below(26),
            };
            let w = self.random_word(rng, len as usize);
            if seen.insert(w.clone()) {
                out.push(w);
            }
        }
        out
    }

    pub fn random_word(&self, rng: &mut Rng, len: usize) -> Vec<u8> {
        let k = self.k as usize;
        let mut w = Vec::with_capacity(len);
        let mut s = 0;
        for _ in 0..len {
            let mut b = rng.idx(k);
            if rng.pct(85) {
                for _ in 0..4 {
                    if !self.dead(self.next(s, b)) {
                        break;
                    }
                    b = rng.idx(k);
                }
            }
            w.push(b as u8);
            s = self.next(s, b);
        }
        w
    }

    /// a word of about the given length that keeps out of states with no way out as long as it
    /// can; 3 out of 4 are then led to acceptance (where possible)
    pub fn long_word(&self, rng: &mut Rng, len: usize) -> Vec<u8> {
        let k = self.k as usize;
        let sink: Vec<bool> = (0..self.n()).map(|s| (0..k).all(|b| self.next(s, b) == s)).collect();
        let mut w = Vec::with_capacity(len);
        let mut s = 0;
        // single letters, or long runs of one letter
        let runs = rng.pct(50);
        let (mut last, mut left) = (0, 0);
        for _ in 0..len {
            let mut b0 = rng.idx(k);
            if runs {
                if left == 0 {
                    left = if rng.pct(30) { 1 + rng.idx(4) } else { 1 + rng.idx(len) };
                    last = b0;
                }
                left -= 1;
                b0 = last;
            }
            let b = (0..k)
                .map(|i| (b0 + i) % k)
                .find(|b| !sink[self.next(s, *b)])
                .unwrap_or(b0);
            w.push(b as u8);
            s = self.next(s, b);
        }
        if rng.below(4) > 0 {
            let mut from = vec![(usize::MAX, 0u8); self.n()];
            let mut queue = vec![s];
            let mut i = 0;
            while i < queue.len() {
                let p = queue[i];
                if self.fin[p] {
                    let mut end = vec![];
                    let mut q = p;
                    while q != s {
                        end.push(from[q].1);
                        q = from[q].0;
                    }
                    end.reverse();
                    w.extend(end);
                    break;
                }
                for b in 0..k {
                    let t = self.next(p, b);
                    if t != s && from[t].0 == usize::MAX {
                        from[t] = (p, b as u8);
                        queue.push(t);
                    }
                }
                i += 1;
            }
        }
        w
    }

    /// shortest word of L(self) \ L(other)
    pub fn diff_word(&self, other: &Dfa) -> Option<Vec<u8>> {
        let k = self.k as usize;
        let mut seen: Map<(usize, usize), usize> = Map::default();
        let mut queue: Vec<((usize, usize), usize, u8)> = vec![((0, 0), usize::MAX, 0)];
        seen.insert((0, 0), 0);
        let mut i = 0;
        while i < queue.len() {
            let ((p, q), _, _) = queue[i];
            if self.fin[p] && !other.fin[q] {
                let mut w = vec![];
                let mut j = i;
                while queue[j].1 != usize::MAX {
                    w.push(queue[j].2);
                    j = queue[j].1;
                }
                w.reverse();
                return Some(w);
            }
            for b in 0..k {
                let t = (self.next(p, b), other.next(q, b));
                if !seen.contains_key(&t) {
                    seen.insert(t, queue.len());
                    queue.push((t, i, b as u8));
                }
            }
            i += 1;
        }
        None
    }

    /// shortest accepted word length, if any
    pub fn shortest(&self) -> Option<Vec<u8>> {
        let e = Dfa {
            k: self.k,
            fin: vec![false],
            tr: vec![0; self.k as usize],
        };
        self.diff_word(&e)
    }
}

fn count_distinct(v: &[u32]) -> usize {
    let s: Set<u32> = v.iter().copied().collect();
    s.len()
}

/// trim to reachable part, minimise (Moore), renumber in BFS order
pub fn canonical(k: usize, fin: &[bool], tr: &[u32]) -> Dfa {
    // reachable
    let n0 = fin.len();
    let mut order = Vec::new();
    let mut idx = vec![u32::MAX; n0];
    idx[0] = 0;
    order.push(0usize);
    let mut i = 0;
    while i < order.len() {
        let s = order[i];
        for b in 0..k {
            let t = tr[s * k + b] as usize;
            if idx[t] == u32::MAX {
                idx[t] = order.len() as u32;
                order.push(t);
            }
        }
        i += 1;
    }
    let n = order.len();
    let mut t2 = vec![0u32; n * k];
    let mut class = vec![0u32; n];
    for (i, s) in order.iter().enumerate() {
        class[i] = fin[*s] as u32;
        for b in 0..k {
            t2[i * k + b] = idx[tr[*s * k + b] as usize];
        }
    }
    let mut ncls = count_distinct(&class);
    loop {
        let mut m: Map<Vec<u32>, u32> = Map::default();
        let mut c2 = Vec::with_capacity(n);
        for i in 0..n {
            let mut key = Vec::with_capacity(k + 1);
            key.push(class[i]);
            for b in 0..k {
                key.push(class[t2[i * k + b] as usize]);
            }
            let l = m.len() as u32;
            c2.push(*m.entry(key).or_insert(l));
        }
        let nn = m.len();
        class = c2;
        if nn == ncls {
            break;
        }
        ncls = nn;
    }
    // BFS renumber of classes; class numbers are already in first-occurrence order of BFS of
    // states, but renumber explicitly to be canonical
    let mut rep = vec![usize::MAX; ncls];
    for i in 0..n {
        let c = class[i] as usize;
        if rep[c] == usize::MAX {
            rep[c] = i;
        }
    }
    let mut num = vec![u32::MAX; ncls];
    let mut q = vec![class[0] as usize];
    num[class[0] as usize] = 0;
    let mut i = 0;
    let mut ofin = Vec::new();
    let mut otr = Vec::new();
    while i < q.len() {
        let c = q[i];
        let s = rep[c];
        ofin.push(fin[order[s]]);
        for b in 0..k {
            let t = class[t2[s * k + b] as usize] as usize;
            if num[t] == u32::MAX {
                num[t] = q.len() as u32;
                q.push(t);
            }
            otr.push(num[t] as u16);
        }
        i += 1;
    }
    Dfa {
        k: k as u16,
        fin: ofin,
        tr: otr,
    }
}

pub struct Langs {
    pub k: usize,
    pub raw_cap: usize,
    pub cap: usize,
    dfas: Vec<Arc<Dfa>>,
    intern: Map<Arc<Dfa>, DfaId>,
    memo: Map<(u8, u32, u32, u32), Option<DfaId>>,
}

impl Langs {
    pub fn new(k: usize, raw_cap: usize, cap: usize) -> Langs {
        Langs {
            k,
            raw_cap,
            cap,
            dfas: vec![],
            intern: Map::default(),
            memo: Map::default(),
        }
    }

    pub fn get(&self, id: DfaId) -> Arc<Dfa> {
        self.dfas[id as usize].clone()
    }

    fn put(&mut self, d: Dfa) -> Option<DfaId> {
        if d.n() > self.cap {
            return None;
        }
        if let Some(i) = self.intern.get(&d) {
            return Some(*i);
        }
        let a = Arc::new(d);
        let i = self.dfas.len() as u32;
        self.dfas.push(a.clone());
        self.intern.insert(a, i);
        Some(i)
    }

    fn build(&mut self, fin: &[bool], tr: &[u32]) -> Option<DfaId> {
        let d = canonical(self.k, fin, tr);
        self.put(d)
    }

    pub fn empty(&mut self) -> DfaId {
        let k = self.k;
        self.build(&[false], &vec![0; k]).unwrap()
    }
    pub fn full(&mut self) -> DfaId {
        let k = self.k;
        self.build(&[true], &vec![0; k]).unwrap()
    }
    pub fn eps(&mut self) -> DfaId {
        let k = self.k;
        self.build(&[true, false], &vec![1; 2 * k]).unwrap()
    }
    /// one-letter words with letter in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> DfaId {
        let k = self.k;
        let mut tr = vec![2u32; 3 * k];
        for b in lo..=hi {
            tr[b] = 1;
        }
        self.build(&[false, true, false], &tr).unwrap()
    }
    pub fn word(&mut self, w: &[u8]) -> Option<DfaId> {
        let k = self.k;
        let n = w.len() + 2;
        let sink = (n - 1) as u32;
        let mut tr = vec![sink; n * k];
        let mut fin = vec![false; n];
        for (i, b) in w.iter().enumerate() {
            tr[i * k + *b as usize] = i as u32 + 1;
        }
        fin[w.len()] = true;
        self.build(&fin, &tr)
    }

    fn product(&mut self, tag: u8, a: DfaId, b: DfaId, f: impl Fn(bool, bool) -> bool) -> Option<DfaId> {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if let Some(r) = self.memo.get(&(tag, a, b, 0)) {
            return *r;
        }
        let (x, y) = (self.get(a), self.get(b));
        let k = self.k;
        let mut idx: Map<(u32, u32), u32> = Map::default();
        let mut st = vec![(0u32, 0u32)];
        idx.insert((0, 0), 0);
        let mut fin = vec![];
        let mut tr = vec![];
        let mut i = 0;
        let mut over = false;
        while i < st.len() {
            let (p, q) = st[i];
            fin.push(f(x.fin[p as usize], y.fin[q as usize]));
            for l in 0..k {
                let t = (x.next(p as usize, l) as u32, y.next(q as usize, l) as u32);
                let n = st.len() as u32;
                let j = *idx.entry(t).or_insert(n);
                if j == n {
                    st.push(t);
                }
                tr.push(j);
            }
            if st.len() > self.raw_cap {
                over = true;
                break;
            }
            i += 1;
        }
        let r = if over { None } else { self.build(&fin, &tr) };
        self.memo.insert((tag, a, b, 0), r);
        r
    }

    pub fn union(&mut self, a: DfaId, b: DfaId) -> Option<DfaId> {
        self.product(1, a, b, |x, y| x || y)
    }
    pub fn inter(&mut self, a: DfaId, b: DfaId) -> Option<DfaId> {
        self.product(2, a, b, |x, y| x && y)
    }
    pub fn compl(&mut self, a: DfaId) -> DfaId {
        let x = self.get(a);
        let fin: Vec<bool> = x.fin.iter().map(|f| !f).collect();
        let d = Dfa {
            k: x.k,
            fin,
            tr: x.tr.clone(),
        };
        self.put(d).unwrap()
    }
    pub fn quot(&mut self, a: DfaId, b: usize) -> DfaId {
        if let Some(r) = self.memo.get(&(3, a, b as u32, 0)) {
            return r.unwrap();
        }
        let x = self.get(a);
        let s = x.next(0, b);
        let r = self.from_state(&x, s);
        self.memo.insert((3, a, b as u32, 0), Some(r));
        r
    }
    pub fn quot_word(&mut self, a: DfaId, w: &[u8]) -> DfaId {
        w.iter().fold(a, |d, b| self.quot(d, *b as usize))
    }
    fn from_state(&mut self, x: &Dfa, s: usize) -> DfaId {
        // swap numbering so that s is first
        let n = x.n();
        let sw = |q: usize| {
            if q == 0 {
                s
            } else if q == s {
                0
            } else {
                q
            }
        };
        let k = self.k;
        let mut fin = vec![false; n];
        let mut tr = vec![0u32; n * k];
        for q in 0..n {
            let src = sw(q);
            fin[q] = x.fin[src];
            for b in 0..k {
                tr[q * k + b] = sw(x.next(src, b)) as u32;
            }
        }
        self.build(&fin, &tr).unwrap()
    }

    pub fn concat(&mut self, a: DfaId, b: DfaId) -> Option<DfaId> {
        if let Some(r) = self.memo.get(&(4, a, b, 0)) {
            return *r;
        }
        let (x, y) = (self.get(a), self.get(b));
        let r = self.subset(
            |fin_set: &mut Vec<u64>| {
                // start: x at 0; if x final at 0 then add y.0
                set_bits_clear(fin_set, y.n());
                0u32
            },
            &x,
            &y,
        );
        self.memo.insert((4, a, b, 0), r);
        r
    }

    // states: (p in x, S subset of y)
    fn subset(&mut self, init: impl Fn(&mut Vec<u64>) -> u32, x: &Dfa, y: &Dfa) -> Option<DfaId> {
        let k = self.k;
        let ydead: Vec<bool> = (0..y.n()).map(|s| y.dead(s)).collect();
        let mut s0 = vec![];
        let p0 = init(&mut s0);
        if x.fin[0] && !ydead[0] {
            set_bit(&mut s0, 0);
        }
        let mut idx: Map<(u32, Vec<u64>), u32> = Map::default();
        let mut st = vec![(p0, s0.clone())];
        idx.insert((p0, s0), 0);
        let mut fin = vec![];
        let mut tr = vec![];
        let mut i = 0;
        while i < st.len() {
            let (p, s) = st[i].clone();
            fin.push(bits(&s).any(|q| y.fin[q]));
            for l in 0..k {
                let p2 = x.next(p as usize, l);
                let mut t = vec![0u64; s.len()];
                for q in bits(&s) {
                    let r = y.next(q, l);
                    if !ydead[r] {
                        set_bit(&mut t, r);
                    }
                }
                if x.fin[p2] && !ydead[0] {
                    set_bit(&mut t, 0);
                }
                let n = st.len() as u32;
                let key = (p2 as u32, t);
                let j = match idx.get(&key) {
                    Some(j) => *j,
                    None => {
                        idx.insert(key.clone(), n);
                        st.push(key);
                        n
                    }
                };
                tr.push(j);
            }
            if st.len() > self.raw_cap {
                return None;
            }
            i += 1;
        }
        self.build(&fin, &tr)
    }

    pub fn star(&mut self, a: DfaId) -> Option<DfaId> {
        if let Some(r) = self.memo.get(&(5, a, 0, 0)) {
            return *r;
        }
        let y = self.get(a);
        let k = self.k;
        let ydead: Vec<bool> = (0..y.n()).map(|s| y.dead(s)).collect();
        // states: (fresh start?) / subset of y states; a set containing a final state also
        // contains the start state
        let words = (y.n() + 63) / 64;
        let mut s0 = vec![0u64; words];
        if !ydead[0] {
            set_bit(&mut s0, 0);
        }
        // first component 1: accepting because at start (epsilon)
        let mut idx: Map<(bool, Vec<u64>), u32> = Map::default();
        let mut st = vec![(true, s0.clone())];
        idx.insert((true, s0), 0);
        let mut fin = vec![];
        let mut tr = vec![];
        let mut i = 0;
        let mut over = false;
        while i < st.len() {
            let (e, s) = st[i].clone();
            fin.push(e || bits(&s).any(|q| y.fin[q]));
            for l in 0..k {
                let mut t = vec![0u64; words];
                let mut f = false;
                for q in bits(&s) {
                    let r = y.next(q, l);
                    if !ydead[r] {
                        set_bit(&mut t, r);
                        f |= y.fin[r];
                    }
                }
                if f && !ydead[0] {
                    set_bit(&mut t, 0);
                }
                let n = st.len() as u32;
                let key = (false, t);
                let j = match idx.get(&key) {
                    Some(j) => *j,
                    None => {
                        idx.insert(key.clone(), n);
                        st.push(key);
                        n
                    }
                };
                tr.push(j);
            }
            if st.len() > self.raw_cap {
                over = true;
                break;
            }
            i += 1;
        }
        let r = if over { None } else { self.build(&fin, &tr) };
        self.memo.insert((5, a, 0, 0), r);
        r
    }

    pub fn pow(&mut self, a: DfaId, n: u32) -> Option<DfaId> {
        if n == 0 {
            return Some(self.eps());
        }
        if n == 1 {
            return Some(a);
        }
        if let Some(r) = self.memo.get(&(6, a, n, 0)) {
            return *r;
        }
        let h = self.pow(a, n / 2);
        let r = (|| {
            let h = h?;
            let hh = self.concat(h, h)?;
            if n % 2 == 1 {
                self.concat(hh, a)
            } else {
                Some(hh)
            }
        })();
        self.memo.insert((6, a, n, 0), r);
        r
    }

    /// union of a^x for x in [i, j]  (j = None: unbounded).  Empty when i > j.
    pub fn looped(&mut self, a: DfaId, i: u32, j: Option<u32>) -> Option<DfaId> {
        match j {
            Some(j) if i > j => Some(self.empty()),
            Some(j) => {
                let p = self.pow(a, i)?;
                if j == i {
                    return Some(p);
                }
                let e = self.eps();
                let o = self.union(a, e)?;
                let q = self.pow(o, j - i)?;
                self.concat(p, q)
            }
            None => {
                let p = self.pow(a, i)?;
                let s = self.star(a)?;
                self.concat(p, s)
            }
        }
    }
}

fn set_bits_clear(v: &mut Vec<u64>, n: usize) {
    v.clear();
    v.resize((n + 63) / 64, 0);
}
fn set_bit(v: &mut [u64], i: usize) {
    v[i / 64] |= 1 << (i % 64);
}
fn bits(v: &[u64]) -> impl Iterator<Item = usize> + '_ {
    v.iter().enumerate().flat_map(|(i, w)| {
        let mut w = *w;
        std::iter::from_fn(move || {
            if w == 0 {
                None
            } else {
                let b = w.trailing_zeros() as usize;
                w &= w - 1;
                Some(i * 64 + b)
            }
        })
    })
}
