//! C13: AutomatonBuilder as a shared mutable object: several clients extend, build (often
//! unsuccessfully), repair and rebuild the same builders.

use crate::plan::*;
use crate::prng::*;
use crate::world::Ann;
use aws_smt_strings::automata::{Automaton, AutomatonBuilder};
use aws_smt_strings::character_sets::CharSet;
use aws_smt_strings::errors::Error;
use std::hash::{Hash, Hasher};

/// a key type whose hashes all collide
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Coll(u32);
impl Hash for Coll {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(0)
    }
}

enum B {
    U(AutomatonBuilder<u32>),
    S(AutomatonBuilder<String>),
    C(AutomatonBuilder<Coll>),
}

pub struct BState {
    b: B,
    initial: u32,
    /// states in order of first mention
    order: Vec<u32>,
    seen: Set<u32>,
    finals: Set<u32>,
    defs: Map<u32, u32>,
    trans: Map<u32, Vec<(u32, u32, u32)>>,
    builds: u32,
    failed: u32,
}

#[derive(Default)]
pub struct BOut {
    pub digest: u64,
    pub viol: Option<(String, String)>,
    pub stats: Vec<(&'static str, u64)>,
}

impl BState {
    fn mention(&mut self, s: u32) {
        if self.seen.insert(s) {
            self.order.push(s);
        }
    }
    /// the successor the caller specified: Ok(None) = nothing specified, Err = conflict
    fn delta(&self, s: u32, c: u32) -> Result<Option<u32>, ()> {
        let mut r = None;
        for (lo, hi, t) in self.of(s) {
            if *lo <= c && c <= *hi {
                match r {
                    None => r = Some(*t),
                    Some(u) if u == *t => (),
                    _ => return Err(()),
                }
            }
        }
        Ok(r)
    }
    fn of(&self, s: u32) -> &[(u32, u32, u32)] {
        self.trans.get(&s).map(|v| &v[..]).unwrap_or(&[])
    }
    fn crit(&self, s: u32) -> Vec<u32> {
        let mut v = vec![0, MAX_CHAR];
        for (lo, hi, _) in self.of(s) {
            v.extend([*lo, *hi, lo.saturating_sub(1), (*hi + 1).min(MAX_CHAR), *lo + (*hi - *lo) / 2]);
        }
        v.sort();
        v.dedup();
        v
    }
    /// (conflict, uncovered character without default, default on a fully covered state)
    fn verdict(&self) -> (Option<(u32, u32)>, Option<(u32, u32)>, bool) {
        let (mut conf, mut inc, mut over) = (None, None, false);
        for s in &self.order {
            let mut full = true;
            for c in self.crit(*s) {
                match self.delta(*s, c) {
                    Err(()) => {
                        conf.get_or_insert((*s, c));
                    }
                    Ok(None) => {
                        full = false;
                        if !self.defs.contains_key(s) {
                            inc.get_or_insert((*s, c));
                        }
                    }
                    _ => (),
                }
            }
            if full && self.defs.contains_key(s) {
                over = true;
            }
        }
        (conf, inc, over)
    }
    fn describe(&self) -> String {
        let mut s = format!("initial {}", self.initial);
        if self.order.len() > 60 || self.trans.values().any(|v| v.len() > 60) {
            return format!("{s}; {} states, {} transitions", self.order.len(), self.trans.values().map(|v| v.len()).sum::<usize>());
        }
        let mut l: Vec<_> = self.trans.iter().collect();
        l.sort();
        for (a, v) in l {
            for (lo, hi, t) in v {
                s.push_str(&format!("; {a} -[{lo:x},{hi:x}]-> {t}"));
            }
        }
        let mut d: Vec<_> = self.defs.iter().collect();
        d.sort();
        for (a, t) in d {
            s.push_str(&format!("; {a} -default-> {t}"));
        }
        s
    }
}

pub fn step(
    bs: &mut Map<u32, BState>,
    s: &Step,
    call: impl Fn(&mut dyn FnMut()) -> Result<(), String>,
) -> BOut {
    let mut out = BOut::default();
    let n = |i: usize| s.n.get(i).copied().unwrap_or(0);
    if s.op == Op::BNew {
        let init = n(1);
        let b = match n(0) % 3 {
            0 => B::U(AutomatonBuilder::new(&init)),
            1 => B::S(AutomatonBuilder::new(&key(init))),
            _ => B::C(AutomatonBuilder::new(&Coll(init))),
        };
        bs.insert(
            s.id,
            BState {
                b,
                initial: init,
                order: vec![init],
                seen: [init].into_iter().collect(),
                finals: Set::default(),
                defs: Map::default(),
                trans: Map::default(),
                builds: 0,
                failed: 0,
            },
        );
        return out;
    }
    let b = match bs.get_mut(&s.a[0]) {
        Some(b) => b,
        None => return out,
    };
    let r = match s.op {
        Op::BFinal => {
            b.mention(n(0));
            b.finals.insert(n(0));
            call(&mut || match &mut b.b {
                B::U(x) => {
                    x.mark_final(&n(0));
                }
                B::S(x) => {
                    x.mark_final(&key(n(0)));
                }
                B::C(x) => {
                    x.mark_final(&Coll(n(0)));
                }
            })
        }
        Op::BDef => {
            let (p, q) = (n(0), n(1));
            b.mention(p);
            b.mention(q);
            b.defs.insert(p, q);
            call(&mut || match &mut b.b {
                B::U(x) => {
                    x.set_default_successor(&p, &q);
                }
                B::S(x) => {
                    x.set_default_successor(&key(p), &key(q));
                }
                B::C(x) => {
                    x.set_default_successor(&Coll(p), &Coll(q));
                }
            })
        }
        Op::BTrans => {
            let (p, lo, hi, q) = (n(0), n(1), n(2), n(3));
            if lo > hi || hi > MAX_CHAR {
                return out;
            }
            b.mention(p);
            b.mention(q);
            b.trans.entry(p).or_default().push((lo, hi, q));
            let set = CharSet::range(lo, hi);
            call(&mut || match &mut b.b {
                B::U(x) => {
                    x.add_transition(&p, &set, &q);
                }
                B::S(x) => {
                    x.add_transition(&key(p), &set, &key(q));
                }
                B::C(x) => {
                    x.add_transition(&Coll(p), &set, &Coll(q));
                }
            })
        }
        Op::BBulk => {
            let (tr, df) = bulk(&s.n);
            for (p, lo, hi, q) in &tr {
                b.mention(*p);
                b.mention(*q);
                b.trans.entry(*p).or_default().push((*lo, *hi, *q));
            }
            for (p, q) in &df {
                b.mention(*p);
                b.mention(*q);
                b.defs.insert(*p, *q);
            }
            out.stats.push(("probe.bulk_states", df.len() as u64));
            out.stats.push(("probe.bulk_transitions", tr.len() as u64));
            call(&mut || {
                for (p, lo, hi, q) in &tr {
                    let set = CharSet::range(*lo, *hi);
                    match &mut b.b {
                        B::U(x) => drop(x.add_transition(p, &set, q)),
                        B::S(x) => drop(x.add_transition(&key(*p), &set, &key(*q))),
                        B::C(x) => drop(x.add_transition(&Coll(*p), &set, &Coll(*q))),
                    }
                }
                for (p, q) in &df {
                    match &mut b.b {
                        B::U(x) => drop(x.set_default_successor(p, q)),
                        B::S(x) => drop(x.set_default_successor(&key(*p), &key(*q))),
                        B::C(x) => drop(x.set_default_successor(&Coll(*p), &Coll(*q))),
                    }
                }
            })
        }
        Op::BBuildU => {
            // documented as unchecked: whatever it answers (or a panic on conflicting labels) is
            // accepted, but it must not change what later builds see
            let r = call(&mut || match &mut b.b {
                B::U(x) => drop(x.build_unchecked()),
                B::S(x) => drop(x.build_unchecked()),
                B::C(x) => drop(x.build_unchecked()),
            });
            out.stats.push(match r {
                Ok(()) => ("fault.build_unchecked", 1),
                Err(_) => ("fault.build_unchecked_abort", 1),
            });
            Ok(())
        }
        _ => {
            let mut res: Option<Result<Automaton, Error>> = None;
            let r = call(&mut || {
                res = Some(match &mut b.b {
                    B::U(x) => x.build(),
                    B::S(x) => x.build(),
                    B::C(x) => x.build(),
                })
            });
            if r.is_ok() {
                judge(b, res.unwrap(), &mut out, &call);
            }
            r
        }
    };
    if let Err(e) = r {
        out.viol = Some((
            "panic".into(),
            format!("{} panicked: {e} [{}]", s.op.name(), b.describe()),
        ));
    }
    out
}

/// many transitions and defaults at once; n = [kind, first state, count, character, parameter]
pub fn bulk(n: &[u32]) -> (Vec<(u32, u32, u32, u32)>, Vec<(u32, u32)>) {
    let g = |i: usize| n.get(i).copied().unwrap_or(0);
    let (s0, k, c, p) = (g(1), g(2).clamp(1, 3000), g(3).min(MAX_CHAR), g(4));
    let (mut tr, mut df) = (vec![], vec![]);
    match g(0) % 4 {
        0 => {
            // a ring by default, with one labelled edge per state to a scattered target
            for i in 0..k {
                tr.push((s0 + i, c, (c + p % 5).min(MAX_CHAR), s0 + (i * 7 + 3) % k));
                df.push((s0 + i, s0 + (i + 1) % k));
            }
        }
        1 => {
            // one state with many labels over few or many targets
            let step = 1 + p % 3;
            let m = 1 + (p / 3) % k;
            for i in 0..k {
                let lo = c as u64 + i as u64 * step as u64;
                if lo > MAX_CHAR as u64 {
                    break;
                }
                tr.push((s0, lo as u32, lo as u32, s0 + 1 + (i * i + i / 3) % m));
            }
        }
        2 => {
            // the whole alphabet cut into pieces
            let w = (MAX_CHAR + 1) / k;
            let m = 1 + p % k;
            for i in 0..k {
                let hi = if i + 1 == k { MAX_CHAR } else { (i + 1) * w - 1 };
                tr.push((s0, i * w, hi, s0 + 1 + i % m));
            }
        }
        _ => {
            // a chain of states that are only mentioned as targets, last one first
            for i in (0..k).rev() {
                df.push((s0 + i, s0 + i + 1));
            }
        }
    }
    (tr, df)
}

fn key(x: u32) -> String {
    format!("q{x}")
}

fn judge(
    b: &mut BState,
    r: Result<Automaton, Error>,
    out: &mut BOut,
    call: &impl Fn(&mut dyn FnMut()) -> Result<(), String>,
) {
    b.builds += 1;
    let (conf, inc, over) = b.verdict();
    let hist = if b.builds > 1 {
        format!(" (build #{}, {} failed before)", b.builds, b.failed)
    } else {
        String::new()
    };
    out.stats.push(("checks.build", 1));
    let a = match r {
        Err(e) => {
            b.failed += 1;
            out.digest = 1;
            if conf.is_none() && inc.is_none() && !over {
                out.viol = Some((
                    "rejects-valid".into(),
                    format!("a complete deterministic specification is rejected with {e:?}{hist}: {}", b.describe()),
                ));
            }
            if conf.is_some() {
                out.stats.push(("fault.build_rejected_conflict", 1));
            }
            if inc.is_some() {
                out.stats.push(("fault.build_rejected_incomplete", 1));
            }
            return;
        }
        Ok(a) => a,
    };
    out.stats.push(("probe.build_accepted", 1));
    if b.failed > 0 {
        out.stats.push(("probe.build_accepted_after_failure", 1));
    }
    out.digest = 2 + a.num_states() as u64;
    if let Some((s, c)) = conf {
        out.viol = Some((
            "accepts-conflict".into(),
            format!("state {s} has two successors for {c:x} but build succeeded{hist}: {}", b.describe()),
        ));
        return;
    }
    if let Some((s, c)) = inc {
        out.viol = Some((
            "accepts-incomplete".into(),
            format!("state {s} has no successor for {c:x} but build succeeded{hist}: {}", b.describe()),
        ));
        return;
    }
    let mut bad = |c: &str, m: String| {
        if out.viol.is_none() {
            out.viol = Some((c.into(), format!("{m}{hist}: {}", b.describe())));
        }
    };
    if a.num_states() != b.order.len() {
        bad("states", format!("automaton has {} states, {} were mentioned", a.num_states(), b.order.len()));
        return;
    }
    if a.num_final_states() != b.finals.len() {
        bad("finals", format!("num_final_states = {}, {} were marked", a.num_final_states(), b.finals.len()));
        return;
    }
    if a.states().filter(|s| s.is_final()).count() != b.finals.len() || a.final_states().count() != b.finals.len() {
        bad("finals", "the set of final states is wrong".into());
        return;
    }
    // walk from the initial state: spec state -> automaton state must be a function
    let mut map: Map<u32, usize> = Map::default();
    let mut err: Option<(String, String)> = None;
    let r = call(&mut || {
        let q0 = a.initial_state().id();
        map.insert(b.initial, q0);
        let mut q = vec![b.initial];
        let mut i = 0;
        loop {
            if i == q.len() {
                // spec states that are not reachable: the automaton lists them in order of mention
                // if that is consistent with what is known so far, otherwise leave them out
                let mut consistent = true;
                for (j, s) in b.order.iter().enumerate() {
                    if let Some(x) = map.get(s) {
                        consistent &= *x == j;
                    }
                }
                if !consistent {
                    return;
                }
                match b.order.iter().position(|s| !map.contains_key(s)) {
                    None => return,
                    Some(j) => {
                        map.insert(b.order[j], j);
                        q.push(b.order[j]);
                    }
                }
            }
            let s = q[i];
            i += 1;
            let x = map[&s];
            let st = a.state(x);
            if st.is_final() != b.finals.contains(&s) {
                err = Some(("finals".into(), format!("finality of state {s} is {}", st.is_final())));
                return;
            }
            for c in b.crit(s) {
                let t = match b.delta(s, c) {
                    Ok(Some(t)) => t,
                    _ => b.defs[&s],
                };
                let y = a.next(st, c).id();
                match map.get(&t) {
                    None => {
                        map.insert(t, y);
                        q.push(t);
                    }
                    Some(z) if *z == y => (),
                    Some(z) => {
                        err = Some((
                            "delta".into(),
                            format!("next(state {s}, {c:x}) is automaton state {y}, specified successor {t} is state {z}"),
                        ));
                        return;
                    }
                }
            }
        }
    });
    if let Err(e) = r {
        bad("panic", format!("stepping the automaton panicked: {e}"));
    }
    if let Some((c, m)) = err {
        bad(&c, m);
    }
    // distinct specified states stay distinct
    let vals: Set<usize> = map.values().copied().collect();
    if vals.len() != map.len() {
        bad("delta", "two specified states are the same automaton state".into());
    }
}

#[allow(dead_code)]
fn _unused(_: &Ann) {}
