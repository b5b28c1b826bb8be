//! C04 and C14: automata as long-lived mutable objects.  Clients keep several automata, assembled
//! with AutomatonBuilder (failed and unchecked builds in between) or compiled by managers with a
//! history, and apply minimize, remove_unreachable_states and the structure queries to them in any
//! order, any number of times.  The model of an automaton is the explicit transition structure it
//! showed before the operation.

use crate::plan::*;
use crate::prng::*;
use aws_smt_strings::automata::{Automaton, AutomatonBuilder};
use aws_smt_strings::character_sets::{CharSet, ClassId};
use aws_smt_strings::smt_strings::SmtString;
use std::hash::Hash;

/// explicit structure: characters are represented by elementary intervals
#[derive(Clone, Debug)]
pub struct Snap {
    pub n: usize,
    pub init: usize,
    pub fin: Vec<bool>,
    /// starts of the elementary intervals
    pub cuts: Vec<u32>,
    pub delta: Vec<Vec<u32>>,
}

impl Snap {
    fn next(&self, s: usize, c: u32) -> usize {
        let i = match self.cuts.binary_search(&c) {
            Ok(i) => i,
            Err(i) => i - 1,
        };
        self.delta[s][i] as usize
    }
    fn end(&self, i: usize) -> u32 {
        if i + 1 < self.cuts.len() {
            self.cuts[i + 1] - 1
        } else {
            MAX_CHAR
        }
    }
    fn reachable(&self) -> Vec<bool> {
        let mut r = vec![false; self.n];
        let mut st = vec![self.init];
        r[self.init] = true;
        while let Some(s) = st.pop() {
            for t in &self.delta[s] {
                if !r[*t as usize] {
                    r[*t as usize] = true;
                    st.push(*t as usize);
                }
            }
        }
        r
    }
    /// Moore's refinement: class of every state (classes numbered by first occurrence)
    fn moore(&self) -> (Vec<u32>, usize) {
        let mut cl: Vec<u32> = self.fin.iter().map(|f| *f as u32).collect();
        let mut count = 0;
        loop {
            let mut m: Map<Vec<u32>, u32> = Map::default();
            let mut nx = Vec::with_capacity(self.n);
            for s in 0..self.n {
                let mut key = Vec::with_capacity(self.cuts.len() + 1);
                key.push(cl[s]);
                key.extend(self.delta[s].iter().map(|t| cl[*t as usize]));
                let k = m.len() as u32;
                nx.push(*m.entry(key).or_insert(k));
            }
            let c = m.len();
            cl = nx;
            if c == count {
                return (cl, c);
            }
            count = c;
        }
    }
    fn show(&self) -> String {
        if self.n > 12 || self.cuts.len() > 8 {
            return format!("{} states, {} character blocks", self.n, self.cuts.len());
        }
        let mut s = format!("init {}", self.init);
        for i in 0..self.n {
            s.push_str(&format!("; {}{}:", i, if self.fin[i] { "F" } else { "" }));
            for (j, t) in self.delta[i].iter().enumerate() {
                s.push_str(&format!(" {:x}..>{}", self.cuts[j], t));
            }
        }
        s
    }
}

pub struct Auto {
    a: Automaton,
    /// structure before any mutation: the language everything is compared with
    orig: Snap,
    cur: Snap,
    hist: String,
}

#[derive(Default)]
pub struct AOut {
    pub digest: u64,
    pub viol: Option<(u8, String, String)>,
    pub stats: Vec<(&'static str, u64)>,
}

type Call<'a> = &'a dyn Fn(&mut dyn FnMut()) -> Result<(), String>;

/// read the structure through next(), state by state
fn snap(a: &Automaton, salt: u64, extra: &[u32], call: Call) -> Result<Snap, (u8, String, String)> {
    let mut res: Option<Result<Snap, (u8, String, String)>> = None;
    let r = call(&mut || res = Some(snap_inner(a, salt, extra)));
    match r {
        Err(e) => Err((0, "broken".into(), format!("reading the automaton panicked: {e}"))),
        Ok(()) => res.unwrap(),
    }
}

fn snap_inner(a: &Automaton, salt: u64, extra: &[u32]) -> Result<Snap, (u8, String, String)> {
    let n = a.num_states();
    let mut cuts: Vec<u32> = vec![0];
    cuts.extend(extra);
    let mut seen: Set<(u32, u32)> = Set::default();
    for s in a.states() {
        for r in s.char_ranges() {
            let e = crate::exec::ends(r);
            if seen.insert(e) {
                cuts.push(e.0);
                if e.1 < MAX_CHAR {
                    cuts.push(e.1 + 1);
                }
            }
        }
    }
    cuts.sort();
    cuts.dedup();
    let mut s = Snap {
        n,
        init: a.initial_state().id(),
        fin: vec![],
        cuts,
        delta: vec![],
    };
    if s.init >= n {
        return Err((0, "broken".into(), format!("initial state {} of {n}", s.init)));
    }
    let mut x = salt;
    for i in 0..n {
        let st = a.state(i);
        if st.id() != i {
            return Err((0, "broken".into(), format!("state({i}) has id {}", st.id())));
        }
        s.fin.push(st.is_final());
        let mut row = Vec::with_capacity(s.cuts.len());
        for j in 0..s.cuts.len() {
            let (lo, hi) = (s.cuts[j], s.end(j));
            let mid = lo + (splitmix(&mut x) % (hi - lo + 1) as u64) as u32;
            let t = a.next(st, lo).id();
            if t >= n {
                return Err((0, "broken".into(), format!("next(s{i}, {lo:x}) has id {t} of {n}")));
            }
            for c in [mid, hi] {
                let u = a.next(st, c).id();
                if u != t {
                    return Err((
                        14,
                        "edges".into(),
                        format!("s{i} has no range border between {lo:x} and {c:x} but next gives s{t} and s{u}"),
                    ));
                }
            }
            row.push(t as u32);
        }
        s.delta.push(row);
    }
    Ok(s)
}

/// first word (as characters) on which the two structures differ
fn difference(x: &Snap, y: &Snap) -> Option<(Vec<u32>, bool)> {
    let mut cuts = x.cuts.clone();
    cuts.extend(&y.cuts);
    cuts.sort();
    cuts.dedup();
    let mut seen: Set<(usize, usize)> = Set::default();
    let mut q = vec![(x.init, y.init, usize::MAX, 0u32)];
    seen.insert((x.init, y.init));
    let mut i = 0;
    while i < q.len() {
        let (s, t, _, _) = q[i];
        if x.fin[s] != y.fin[t] {
            let mut w = vec![];
            let mut j = i;
            while q[j].2 != usize::MAX {
                w.push(q[j].3);
                j = q[j].2;
            }
            w.reverse();
            return Some((w, x.fin[s]));
        }
        for c in &cuts {
            let k = (x.next(s, *c), y.next(t, *c));
            if seen.insert(k) {
                q.push((k.0, k.1, i, *c));
            }
        }
        i += 1;
    }
    None
}

fn show(w: &[u32]) -> String {
    let s: Vec<String> = w.iter().map(|c| format!("{c:x}")).collect();
    format!("[{}]", s.join(" "))
}

// ------------------------------------------------------------------ generated specifications

struct Spec {
    order: Vec<u32>,
    finals: Vec<u32>,
    trans: Vec<(u32, u32, u32, u32)>,
    defs: Vec<(u32, u32)>,
    cuts: Vec<u32>,
}

/// n = [shape, base states, character classes, copies, extra states, key type, mode]
fn expand(n: &[u32], salt: u64) -> Spec {
    let g = |i: usize| n.get(i).copied().unwrap_or(0);
    let mut r = Rng::new(salt);
    let m = g(1).clamp(1, 400) as usize;
    let k = g(2).clamp(1, 64) as usize;
    let copies = g(3).clamp(1, 8) as usize;
    let extra = g(4).min(100) as usize;
    let mut cuts = vec![0u32];
    while cuts.len() < k {
        let c = match r.below(4) {
            0 => r.range(1, 300),
            1 => r.range(0xfff0, 0x10010),
            2 => MAX_CHAR - r.range(0, 300),
            _ => r.range(1, MAX_CHAR),
        };
        if !cuts.contains(&c) {
            cuts.push(c);
        }
    }
    cuts.sort();
    // base automaton: target[s][class]
    let mut t = vec![vec![0usize; k]; m];
    let mut f = vec![false; m];
    let dens = *r.pick(&[10, 30, 50, 80]);
    for x in f.iter_mut() {
        *x = r.pct(dens);
    }
    let shape = g(0) % 10;
    let per = r.range(1, 6) as usize;
    let hot = r.idx(k);
    for s in 0..m {
        let d = r.idx(m);
        for c in 0..k {
            t[s][c] = match shape {
                // counter: one class counts, the others keep or reset
                1 => match c {
                    _ if c == hot => (s + 1) % m,
                    _ if c % 2 == 0 => s,
                    _ => 0,
                },
                // chain into a sink
                2 => {
                    if c == hot || c % 3 == 1 {
                        (s + 1).min(m - 1)
                    } else {
                        m - 1
                    }
                }
                // sparse: mostly one successor
                3 => {
                    if r.pct(12) {
                        r.idx(m)
                    } else {
                        d
                    }
                }
                // each class is a cyclic permutation
                4 => (s + c + 1) % m,
                // tree
                5 => {
                    let x = s * k + c + 1;
                    if x < m {
                        x
                    } else if r.pct(50) {
                        m - 1
                    } else {
                        s
                    }
                }
                // one class decides, the others are shared
                7 => {
                    if c == hot {
                        r.idx(m)
                    } else {
                        (c * 7 + 3) % m
                    }
                }
                // shift register
                8 => (2 * s + c % 2) % m,
                // two chains that differ at their ends only
                9 => {
                    let h = (m / 2).max(1);
                    if c == hot {
                        if s + 1 < m && s + 1 != h {
                            s + 1
                        } else {
                            s
                        }
                    } else if s == 0 && m > 1 {
                        h.min(m - 1)
                    } else {
                        0
                    }
                }
                _ => r.idx(m),
            };
        }
    }
    match shape {
        1 | 4 => {
            for (i, x) in f.iter_mut().enumerate() {
                *x = i % per == 0;
            }
        }
        2 => {
            for (i, x) in f.iter_mut().enumerate() {
                *x = i + 2 == m;
            }
        }
        6 => {
            let v = r.pct(50);
            f.iter_mut().for_each(|x| *x = v);
        }
        9 => {
            for (i, x) in f.iter_mut().enumerate() {
                *x = i + 1 == m || (i + 1 == m / 2 && r.pct(30));
            }
        }
        _ => (),
    }
    // copies of states and additional states; names in random order
    let mut base: Vec<usize> = (0..m).collect();
    for s in 0..m {
        for _ in 1..r.range(1, copies as u32) {
            base.push(s);
        }
    }
    let reach = base.len();
    for _ in 0..extra {
        base.push(r.idx(m));
    }
    let total = base.len();
    let mut by: Vec<Vec<u32>> = vec![vec![]; m];
    for (i, b) in base[..reach].iter().enumerate() {
        by[*b].push(i as u32);
    }
    let odd = r.pct(50);
    let mut finals = vec![];
    let mut trans = vec![];
    let mut defs = vec![];
    for i in 0..total {
        let b = base[i];
        let tgt: Vec<u32> = (0..k)
            .map(|c| {
                if i >= reach && r.pct(40) {
                    // an additional state may lead anywhere
                    r.idx(total) as u32
                } else {
                    *r.pick(&by[t[b][c]])
                }
            })
            .collect();
        if f[b] != (i >= reach && odd && r.pct(20)) {
            finals.push(i as u32);
        }
        // default successor: the one of some class
        let def = if r.pct(60) { Some(tgt[r.idx(k)]) } else { None };
        let mut omitted = false;
        let mut c = 0;
        while c < k {
            let mut e = c;
            while e + 1 < k && tgt[e + 1] == tgt[c] && r.pct(70) {
                e += 1;
            }
            let lo = cuts[c];
            let hi = if e + 1 < k { cuts[e + 1] - 1 } else { MAX_CHAR };
            if def == Some(tgt[c]) && (!omitted || r.pct(85)) {
                omitted = true;
            } else if hi > lo && r.pct(15) {
                let mid = r.range(lo, hi - 1);
                trans.push((i as u32, lo, mid, tgt[c]));
                trans.push((i as u32, mid + 1, hi, tgt[c]));
            } else {
                trans.push((i as u32, lo, hi, tgt[c]));
            }
            c = e + 1;
        }
        if let Some(d) = def {
            defs.push((i as u32, d));
        }
    }
    // order of mention decides the numbering
    let mut order: Vec<u32> = (1..total as u32).collect();
    for i in (1..order.len()).rev() {
        let j = r.idx(i + 1);
        order.swap(i, j);
    }
    order.insert(0, 0);
    for i in (1..trans.len()).rev() {
        if r.pct(60) {
            let j = r.idx(i + 1);
            trans.swap(i, j);
        }
    }
    Spec {
        order,
        finals,
        trans,
        defs,
        cuts,
    }
}

fn assemble<T: Eq + Hash + Clone>(sp: &Spec, mode: u32, key: impl Fn(u32) -> T, stats: &mut Vec<(&'static str, u64)>) -> Option<Automaton> {
    let mut b = AutomatonBuilder::new(&key(sp.order[0]));
    // mentioning a state fixes its number
    let mention = mode & 1 != 0;
    if mention {
        for s in &sp.order {
            if let Some(d) = sp.defs.iter().find(|d| d.0 == *s) {
                b.set_default_successor(&key(d.0), &key(d.1));
            } else if let Some(t) = sp.trans.iter().find(|t| t.0 == *s) {
                b.add_transition(&key(t.0), &CharSet::range(t.1, t.2), &key(t.3));
            }
        }
    }
    let half = sp.trans.len() / 2;
    let mut started: Set<u32> = Set::default();
    if mention {
        for s in &sp.order {
            if sp.defs.iter().all(|d| d.0 != *s) {
                started.insert(*s);
            }
        }
    }
    for (i, t) in sp.trans.iter().enumerate() {
        if i == half && mode & 2 != 0 {
            // interrupted construction: a client builds too early
            if b.build().is_err() {
                stats.push(("fault.early_build_rejected", 1));
            }
        }
        // the first transition was already given when the state was mentioned
        if started.contains(&t.0) && sp.trans.iter().find(|x| x.0 == t.0) == Some(t) {
            continue;
        }
        b.add_transition(&key(t.0), &CharSet::range(t.1, t.2), &key(t.3));
    }
    for d in &sp.defs {
        b.set_default_successor(&key(d.0), &key(d.1));
    }
    for f in &sp.finals {
        b.mark_final(&key(*f));
    }
    if mode & 4 != 0 {
        stats.push(("fault.automaton_rebuilt", 1));
        if let Ok(mut a) = b.build() {
            a.minimize();
        }
    }
    if mode & 8 != 0 {
        return Some(b.build_unchecked());
    }
    b.build().ok()
}

// ------------------------------------------------------------------ operations

impl Auto {
    pub fn new(a: Automaton, salt: u64, extra: &[u32], call: Call, out: &mut AOut, what: &str) -> Option<Auto> {
        if a.num_states() > 1500 {
            return None;
        }
        out.stats.push(("max.automaton_states", a.num_states() as u64));
        match snap(&a, salt, extra, call) {
            Ok(s) => {
                out.digest = s.n as u64;
                if s.n * s.cuts.len() > 60_000 {
                    return None;
                }
                let r = s.reachable();
                let un = r.iter().filter(|x| !**x).count();
                if un > 0 {
                    out.stats.push(("probe.automaton_with_unreachable_states", 1));
                }
                out.stats.push(("max.character_blocks", s.cuts.len() as u64));
                Some(Auto {
                    a,
                    orig: s.clone(),
                    cur: s,
                    hist: what.into(),
                })
            }
            Err((14, c, m)) => {
                out.viol = Some((14, c, format!("{m} [{what}]")));
                None
            }
            // whether compile and build return sound automata is decided elsewhere (C02, C13)
            Err(_) => None,
        }
    }
}

pub fn generated(n: &[u32], salt: u64, call: Call, out: &mut AOut) -> Option<Auto> {
    let sp = expand(n, salt);
    let g = |i: usize| n.get(i).copied().unwrap_or(0);
    let mut a: Option<Automaton> = None;
    let mut st = vec![];
    let r = call(&mut || {
        a = match g(5) % 3 {
            0 => assemble(&sp, g(6), |x| x, &mut st),
            1 => assemble(&sp, g(6), |x| format!("q{x}"), &mut st),
            _ => assemble(&sp, g(6), |x| (x % 7, x), &mut st),
        }
    });
    out.stats.extend(st);
    if r.is_err() || a.is_none() {
        out.stats.push(("work.automata_not_assembled", 1));
        return None;
    }
    out.stats.push(("work.automata_assembled", 1));
    Auto::new(a.unwrap(), salt, &sp.cuts, call, out, "built")
}

/// counts that every automaton reports about itself
fn consistent(a: &Automaton, s: &Snap) -> Option<String> {
    let nf = s.fin.iter().filter(|x| **x).count();
    if a.num_final_states() != nf {
        return Some(format!("num_final_states() = {}, {nf} states are final", a.num_final_states()));
    }
    if a.states().count() != s.n {
        return Some(format!("states() lists {} states, num_states() = {}", a.states().count(), s.n));
    }
    let f: Vec<usize> = a.final_states().map(|x| x.id()).collect();
    let mut g = f.clone();
    g.sort();
    g.dedup();
    let want: Vec<usize> = (0..s.n).filter(|i| s.fin[*i]).collect();
    if g.len() != f.len() || g != want {
        return Some(format!("final_states() lists {f:?}, the final states are {want:?}"));
    }
    None
}

pub fn minimize(x: &mut Auto, salt: u64, call: Call, out: &mut AOut) -> bool {
    let before = x.cur.clone();
    let a = &mut x.a;
    let r = call(&mut || a.minimize());
    out.stats.push(("checks.minimize", 1));
    let ctx = |x: &Auto| format!(" [{}; before: {}]", x.hist, before.show());
    if let Err(e) = r {
        out.viol = Some((4, "panic".into(), format!("minimize panicked: {e}{}", ctx(x))));
        return false;
    }
    let s = match snap(&x.a, salt, &x.orig.cuts, call) {
        Ok(s) => s,
        Err((p, c, m)) => {
            out.viol = Some((if p == 0 { 4 } else { p }, c, format!("after minimize: {m}{}", ctx(x))));
            return false;
        }
    };
    out.digest = mix(s.n as u64, s.init as u64);
    let mut bad = |c: &str, m: String| {
        if out.viol.is_none() {
            out.viol = Some((4, c.into(), format!("{m}{}", ctx(x))));
        }
    };
    if let Some((w, acc)) = difference(&x.orig, &s) {
        bad(
            "language",
            format!("minimize changed the language: {} was {}", show(&w), if acc { "accepted" } else { "rejected" }),
        );
    }
    let (cl, k) = s.moore();
    if k != s.n {
        let (i, j) = (0..s.n)
            .flat_map(|i| (0..i).map(move |j| (j, i)))
            .find(|(i, j)| cl[*i] == cl[*j])
            .unwrap();
        bad("not-minimal", format!("after minimize s{i} and s{j} of {} accept the same residual language", s.n));
    }
    if let Some(m) = consistent(&x.a, &s) {
        bad("counts", format!("after minimize: {m}"));
    }
    let all = before.reachable().iter().all(|r| *r);
    let idx = before.moore().1;
    if all && s.n != idx {
        bad("size", format!("minimize left {} states, the minimal automaton has {idx}", s.n));
    }
    // words through accepts()
    let mut r = Rng::new(salt);
    for _ in 0..6 {
        let len = r.idx(2 + s.n.min(12));
        let w: Vec<u32> = (0..len)
            .map(|_| {
                let i = r.idx(x.orig.cuts.len());
                *r.pick(&[x.orig.cuts[i], x.orig.end(i)])
            })
            .collect();
        let exp = x.orig.fin[w.iter().fold(x.orig.init, |q, c| x.orig.next(q, *c))];
        let ws = SmtString::from(&w[..]);
        let mut got = None;
        let r = call(&mut || got = Some(x.a.accepts(&ws)));
        if r.is_err() || got != Some(exp) {
            bad("language", format!("after minimize accepts({}) is {got:?}, before {exp}", show(&w)));
        }
    }
    if s.n < before.n {
        out.stats.push(("probe.minimize_merged_states", 1));
    } else if before.n > 1 {
        out.stats.push(("probe.minimize_already_minimal", 1));
    }
    if !all {
        out.stats.push(("probe.minimize_with_unreachable", 1));
    }
    x.hist.push_str(", minimized");
    x.cur = s;
    true
}

pub fn prune(x: &mut Auto, salt: u64, call: Call, out: &mut AOut) -> bool {
    let before = x.cur.clone();
    let a = &mut x.a;
    let r = call(&mut || a.remove_unreachable_states());
    out.stats.push(("checks.prune", 1));
    let ctx = |x: &Auto| format!(" [{}; before: {}]", x.hist, before.show());
    if let Err(e) = r {
        out.viol = Some((14, "panic".into(), format!("remove_unreachable_states panicked: {e}{}", ctx(x))));
        return false;
    }
    let s = match snap(&x.a, salt, &x.orig.cuts, call) {
        Ok(s) => s,
        Err((_, c, m)) => {
            out.viol = Some((14, c, format!("after remove_unreachable_states: {m}{}", ctx(x))));
            return false;
        }
    };
    out.digest = mix(s.n as u64, s.init as u64);
    let mut bad = |c: &str, m: String| {
        if out.viol.is_none() {
            out.viol = Some((14, c.into(), format!("{m}{}", ctx(x))));
        }
    };
    let want = before.reachable().iter().filter(|r| **r).count();
    if s.n != want {
        bad("prune", format!("{} states left, {want} were reachable", s.n));
    } else {
        if want < before.n {
            out.stats.push(("probe.prune_removed_states", 1));
        }
        // same structure: the parallel walk is a bijection
        let mut map: Map<usize, usize> = Map::default();
        let mut inv: Map<usize, usize> = Map::default();
        let mut q = vec![(before.init, s.init)];
        map.insert(before.init, s.init);
        inv.insert(s.init, before.init);
        let mut cuts = before.cuts.clone();
        cuts.extend(&s.cuts);
        cuts.sort();
        cuts.dedup();
        let mut err = None;
        let mut i = 0;
        while i < q.len() && err.is_none() {
            let (p, t) = q[i];
            i += 1;
            if before.fin[p] != s.fin[t] {
                err = Some(format!("state s{p} became s{t} with another finality"));
            }
            for c in &cuts {
                let (p2, t2) = (before.next(p, *c), s.next(t, *c));
                match (map.get(&p2), inv.get(&t2)) {
                    (None, None) => {
                        map.insert(p2, t2);
                        inv.insert(t2, p2);
                        q.push((p2, t2));
                    }
                    (Some(a), Some(b)) if *a == t2 && *b == p2 => (),
                    _ => {
                        err = Some(format!("next(s{p}, {c:x}) was s{p2}, after pruning next(s{t}, {c:x}) is s{t2}, which is not its image"));
                        break;
                    }
                }
            }
        }
        if let Some(m) = err {
            bad("prune", m);
        }
    }
    if let Some(m) = consistent(&x.a, &s) {
        bad("counts", format!("after remove_unreachable_states: {m}"));
    }
    if let Some((w, acc)) = difference(&before, &s) {
        bad(
            "prune-language",
            format!("remove_unreachable_states changed the language: {} was {}", show(&w), if acc { "accepted" } else { "rejected" }),
        );
    }
    x.hist.push_str(", pruned");
    // the language of the following operations is the one it has now (same unless reported)
    x.cur = s;
    true
}

pub fn audit(x: &Auto, salt: u64, call: Call, out: &mut AOut) {
    out.stats.push(("checks.auto_audit", 1));
    let mut err: Option<(String, String)> = None;
    let mut dig = 0u64;
    let r = call(&mut || err = audit_inner(x, salt, &mut dig));
    out.digest = dig;
    if let Err(e) = r {
        err = Some(("panic".into(), format!("a structure query panicked: {e}")));
    }
    if let Some((c, m)) = err {
        out.viol = Some((14, c, format!("{m} [{}; {}]", x.hist, x.cur.show())));
    }
}

fn audit_inner(x: &Auto, salt: u64, dig: &mut u64) -> Option<(String, String)> {
    let (a, s) = (&x.a, &x.cur);
    let bad = |c: &str, m: String| Some((c.to_string(), m));
    if a.num_states() != s.n || a.initial_state().id() != s.init {
        return bad("changed", "a query changed the automaton".into());
    }
    if let Some(m) = consistent(a, s) {
        return bad("counts", m);
    }
    for (i, st) in a.states().enumerate() {
        if st.id() != i || st.is_final() != s.fin[i] {
            return bad("changed", format!("state {i} of states() is s{} final {}", st.id(), st.is_final()));
        }
    }
    let mut rng = Rng::new(salt);
    // edges against next
    for i in 0..s.n {
        let st = a.state(i);
        let mut edges: Vec<(ClassId, usize)> = vec![];
        for (cid, t) in a.edges(st) {
            if edges.iter().any(|e| e.0 == cid) {
                return bad("edges", format!("edges(s{i}) lists class {cid} twice"));
            }
            edges.push((cid, t.id()));
            if edges.len() > s.cuts.len() + 2 {
                return bad("edges", format!("edges(s{i}) lists more classes than there are"));
            }
        }
        let mut used = vec![false; edges.len()];
        for j in 0..s.cuts.len() {
            for c in [s.cuts[j], s.end(j)] {
                let cid = st.class_of_char(c);
                match edges.iter().position(|e| e.0 == cid) {
                    None => return bad("edges", format!("edges(s{i}) has no edge for class {cid} of {c:x}")),
                    Some(e) => {
                        used[e] = true;
                        let n = a.next(st, c).id();
                        if edges[e].1 != n || n != s.delta[i][j] as usize {
                            return bad("edges", format!("edges(s{i}) leads {c:x} to s{}, next to s{n}", edges[e].1));
                        }
                    }
                }
            }
        }
        if let Some(e) = used.iter().position(|u| !u) {
            return bad("edges", format!("edges(s{i}) lists class {} that contains no character", edges[e].0));
        }
    }
    // combined partition
    let p = a.combined_char_partition();
    let al = a.pick_alphabet();
    *dig = mix(al.len() as u64, s.n as u64);
    let mut classes: Vec<(ClassId, u32, usize)> = vec![];
    for j in 0..s.cuts.len() {
        let (lo, hi) = (s.cuts[j], s.end(j));
        for c in [lo, hi, rng.range(lo, hi)] {
            let cid = p.class_of_char(c);
            match classes.iter().find(|x| x.0 == cid) {
                None => classes.push((cid, c, j)),
                Some((_, d, k)) => {
                    if *k != j {
                        for i in 0..s.n {
                            if s.delta[i][j] != s.delta[i][*k] {
                                return bad(
                                    "partition",
                                    format!("combined_char_partition puts {c:x} and {d:x} into class {cid} but s{i} distinguishes them"),
                                );
                            }
                        }
                    }
                }
            }
        }
    }
    // one character of each class
    let mut seen: Vec<ClassId> = vec![];
    for c in &al {
        if *c > MAX_CHAR {
            return bad("alphabet", format!("pick_alphabet contains {c:x}"));
        }
        let cid = p.class_of_char(*c);
        if seen.contains(&cid) {
            return bad("alphabet", format!("pick_alphabet has two characters of class {cid}"));
        }
        seen.push(cid);
    }
    for (cid, c, _) in &classes {
        if !seen.contains(cid) {
            return bad("alphabet", format!("pick_alphabet has no character of class {cid} (for example {c:x})"));
        }
    }
    // compiled table
    let t = a.compile_successors();
    if t.num_states() != s.n || t.alphabet_size() != al.len() {
        return bad("table", format!("table of {} states and {} characters for {} and {}", t.num_states(), t.alphabet_size(), s.n, al.len()));
    }
    for i in 0..s.n {
        let st = a.state(i);
        for (j, c) in al.iter().enumerate() {
            let v = t.eval(i as u32, j as u32) as usize;
            let n = a.next(st, *c).id();
            if v != n {
                return bad("table", format!("compile_successors maps (s{i}, {c:x}) to s{v}, next to s{n}"));
            }
        }
    }
    None
}

/// iterators that are dropped half way
pub fn cancel(x: &Auto, k: usize, call: Call, out: &mut AOut) {
    let a = &x.a;
    let _ = call(&mut || {
        let st = a.state(k % a.num_states());
        let n = a.edges(st).take(k % 3).count()
            + a.final_states().take(k % 2).count()
            + a.states().take(k % 4).count()
            + st.char_classes().take(1).count()
            + st.char_picks().take(k % 2).count();
        let _ = format!("{}", a).len() + n;
    });
    out.stats.push(("fault.cancelled_iteration", 1));
    out.digest = k as u64;
}
